/* arith as one of the histories that run in threads of one process (C35) */
#define DD_THREADS
#include "ddsys.h"
#define main history
namespace arith_history {
#include "arith.cpp"
}
int arith_run(int argc, char **argv) { return arith_history::history(argc, argv); }
