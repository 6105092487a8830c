/* Link-time interposition (ld --wrap) of the entry points through which slugs uses the diagram manager: at random calls, everything that the manager
   may do on its own at that point is made to happen (garbage collection, loss of cached results, table resizing, variable reordering if the client
   has it enabled), and the manager's consistency checks are run. SLUGS_STRESS="seed permille check" switches it on; a summary goes to ./stress.log. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "util.h"
#include "cuddInt.h"

static unsigned long long rng;
static int permille = -1, checkEvery;
static unsigned long nCalls, nReorder, nGc, nFlush, nCheck, nMoved, nFreed;
static int busy;

static unsigned rnd(unsigned n) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return (unsigned)((rng >> 20) % n);
}

static void summary(void) {
    FILE *f = fopen("stress.log", "w");
    if (f) {
        fprintf(f, "calls %lu reorderings %lu moved %lu collections %lu freed %lu flushes %lu checks %lu\n", nCalls, nReorder, nMoved, nGc, nFreed, nFlush, nCheck);
        fclose(f);
    }
}

static void setup(void) {
    const char *e = getenv("SLUGS_STRESS");
    unsigned long long s = 0; int p = 0, c = 0;
    if (e && sscanf(e, "%llu %d %d", &s, &p, &c) == 3) {
        rng = s * 2654435761ULL + 88172645463325252ULL; permille = p; checkEvery = c;
        atexit(summary);
    } else permille = 0;
}

static void inconsistent(const char *what, int r) {
    fprintf(stderr, "\nMANAGER-INCONSISTENT: %s reports %d\n", what, r);
    fflush(NULL);
    summary();
    _exit(79);
}

static void check(DdManager *m) {
    int r;
    FILE *out = Cudd_ReadStdout(m);
    static FILE *null;
    if (!null) null = fopen("/dev/null", "w");
    nCheck++;
    Cudd_SetStdout(m, null);                                  /* the check prints statistics */
    r = Cudd_DebugCheck(m);
    if (r) inconsistent("debug check", r);
    r = Cudd_CheckKeys(m);
    if (r) inconsistent("key check", r);
    Cudd_SetStdout(m, out);
}

static void event(DdManager *m) {
    static const Cudd_ReorderingType methods[] = {CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_WINDOW2, CUDD_REORDER_WINDOW3};
    Cudd_ReorderingType old;
    unsigned k;
    if (permille < 0) setup();
    nCalls++;
    if (permille <= 0 || busy || (int)rnd(1000) >= permille) return;
    busy = 1;
    k = rnd(10);
    if (k < 4) {
        if (Cudd_ReorderingStatus(m, &old) && Cudd_ReadSize(m) > 1) {
            int n = Cudd_ReadSize(m), i, *before = malloc(n * sizeof(int)), moved = 0;
            for (i = 0; i < n; i++) before[i] = Cudd_ReadPerm(m, i);
            if (!Cudd_ReduceHeap(m, methods[rnd(sizeof(methods) / sizeof(*methods))], 0)) inconsistent("reordering", 0);
            for (i = 0; i < n; i++) moved += before[i] != Cudd_ReadPerm(m, i);
            free(before);
            nReorder++; nMoved += moved != 0;
        }
    } else if (k < 7) {
        nFreed += cuddGarbageCollect(m, 1); nGc++;
    } else if (k < 9) {
        cuddCacheFlush(m); nFlush++;
    } else if (rnd(3) == 0 && Cudd_ReorderingStatus(m, &old)) {
        Cudd_SetNextReordering(m, m->keys - m->dead);     /* the next operation that grows the table reorders in its middle */
    }
    if (m->nextDyn < 24) m->nextDyn = 24;                     /* in a run without forced reorderings it is never that small */
    if (checkEvery && rnd(checkEvery) == 0) check(m);
    busy = 0;
}

DdManager *__real_Cudd_Init(unsigned, unsigned, unsigned, unsigned, size_t);
DdManager *__wrap_Cudd_Init(unsigned v, unsigned z, unsigned us, unsigned cs, size_t mem) {
    if (permille < 0) setup();
    if (permille > 0) {
        us = 2u << rnd(8); cs = 2u << rnd(10);
    }
    DdManager *m = __real_Cudd_Init(v, z, us, cs, mem);
    if (m && permille > 0) {
        if (rnd(2)) m->maxCacheHard = 1 + rnd(500);
        if (rnd(2)) m->minDead = rnd(20);
        if (rnd(2)) Cudd_SetNextReordering(m, 24 + rnd(200));
    }
    return m;
}
void __real_Cudd_Quit(DdManager *);
void __wrap_Cudd_Quit(DdManager *m) {
    if (permille > 0) check(m);
    __real_Cudd_Quit(m);
}
#define W2(f) DdNode *__real_##f(DdManager *, DdNode *, DdNode *); DdNode *__wrap_##f(DdManager *m, DdNode *a, DdNode *b) { event(m); return __real_##f(m, a, b); }
W2(Cudd_bddAnd) W2(Cudd_bddOr) W2(Cudd_bddXor) W2(Cudd_bddExistAbstract) W2(Cudd_bddUnivAbstract) W2(Cudd_bddLICompaction) W2(Cudd_bddRestrict)
DdNode *__real_Cudd_bddAndAbstract(DdManager *, DdNode *, DdNode *, DdNode *);
DdNode *__wrap_Cudd_bddAndAbstract(DdManager *m, DdNode *a, DdNode *b, DdNode *c) { event(m); return __real_Cudd_bddAndAbstract(m, a, b, c); }
int __real_Cudd_bddLeq(DdManager *, DdNode *, DdNode *);
int __wrap_Cudd_bddLeq(DdManager *m, DdNode *a, DdNode *b) { if (!busy) event(m); return __real_Cudd_bddLeq(m, a, b); }
DdNode *__real_Cudd_bddSwapVariables(DdManager *, DdNode *, DdNode **, DdNode **, int);
DdNode *__wrap_Cudd_bddSwapVariables(DdManager *m, DdNode *a, DdNode **x, DdNode **y, int n) { event(m); return __real_Cudd_bddSwapVariables(m, a, x, y, n); }
DdNode *__real_Cudd_bddComputeCube(DdManager *, DdNode **, int *, int);
DdNode *__wrap_Cudd_bddComputeCube(DdManager *m, DdNode **x, int *p, int n) { event(m); return __real_Cudd_bddComputeCube(m, x, p, n); }
