/* System and library headers of the diagram harnesses. */
#ifndef DDSYS_H
#define DDSYS_H
#include <bitset>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
extern "C" {
#include "util.h"
#include "st.h"
#include "mtr.h"
#include "epdInt.h"
#include "cudd.h"
#include "cuddInt.h"
#include "mtrInt.h"
}

#ifdef DD_THREADS
/* the harness is one of several that run in threads of one process: its state is per thread, the end of a history is an exception */
#define TL thread_local
struct DDDone { int rc; };
void ddThreadDone(const std::map<std::string, long> &counters);
#else
#define TL
#endif
#endif
