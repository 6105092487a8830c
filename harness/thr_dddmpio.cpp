/* dddmpio as one of the histories that run in threads of one process (C35) */
#define DD_THREADS
#include "ddsys.h"
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "dddmp.h"
}
#define main history
namespace dddmpio_history {
#include "dddmpio.cpp"
}
int dddmpio_run(int argc, char **argv) { return dddmpio_history::history(argc, argv); }
