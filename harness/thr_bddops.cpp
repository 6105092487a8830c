/* bddops as one of the histories that run in threads of one process (C35) */
#define DD_THREADS
#include "ddsys.h"
#define main history
namespace bddops_history {
#include "bddops.cpp"
}
int bddops_run(int argc, char **argv) { return bddops_history::history(argc, argv); }
