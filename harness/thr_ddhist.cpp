/* ddhist as one of the histories that run in threads of one process (C35) */
#define DD_THREADS
#include "ddsys.h"
#define main history
namespace ddhist_history {
#include "ddhist.cpp"
}
int ddhist_run(int argc, char **argv) { return ddhist_history::history(argc, argv); }
