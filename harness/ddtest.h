/* Shared parts of the diagram library harnesses: random numbers, reports, truth tables over at most 7 variables, forced events. */
#ifndef DDTEST_H
#define DDTEST_H
#include "ddsys.h"

#undef fail
#undef min
#undef max
#undef equal
#undef abs
static TL unsigned long long rngState = 88172645463325252ULL;
static inline unsigned rnd(unsigned n) {
    rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17;
    return n ? (unsigned)((rngState >> 20) % n) : 0;
}
static inline bool chance(unsigned percent) { return rnd(100) < percent; }
static inline void seedRng(unsigned long long s) { rngState = s * 2654435761ULL + 88172645463325252ULL; for (int i = 0; i < 20; i++) rnd(2); }

static TL std::map<std::string, long> counters;
static TL std::string currentOp;
static TL long step;

static void finish(int rc) {
#ifdef DD_THREADS
    if (rc == 0) { ddThreadDone(counters); throw DDDone{0}; }
#endif
    for (auto &c : counters) printf("COUNT %s %ld\n", c.first.c_str(), c.second);
    fflush(NULL);
    _Exit(rc);
}
static void fail(const char *fmt, ...) {
    va_list a;
    va_start(a, fmt);
    char b[2000];
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    printf("VIOL %s|step %ld: %s\n", currentOp.c_str(), step, b);
    finish(10);
}
#define REQUIRE(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

/* ---- truth tables ---- */
#ifndef DD_NV
#define DD_NV 7
#endif
enum { NV = DD_NV, NA = 1 << NV };
typedef std::bitset<NA> TT;
static TL TT ttVar[NV];
static inline void initTT() { for (int v = 0; v < NV; v++) for (int a = 0; a < NA; a++) ttVar[v][a] = a >> v & 1; }
static inline TT cof(const TT &f, int v, bool b) {
    int s = 1 << v;
    return b ? ((f & ttVar[v]) | ((f & ttVar[v]) >> s)) : ((f & ~ttVar[v]) | ((f & ~ttVar[v]) << s));
}
static inline bool depends(const TT &f, int v) { return cof(f, v, 0) != cof(f, v, 1); }
static inline TT exist(TT f, unsigned vars) { for (int v = 0; v < NV; v++) if (vars >> v & 1) f = cof(f, v, 0) | cof(f, v, 1); return f; }
static inline TT univ(TT f, unsigned vars) { for (int v = 0; v < NV; v++) if (vars >> v & 1) f = cof(f, v, 0) & cof(f, v, 1); return f; }
static inline TT compose(const TT &f, int v, const TT &g) { return (g & cof(f, v, 1)) | (~g & cof(f, v, 0)); }
static inline bool leq(const TT &f, const TT &g) { return (f & ~g).none(); }
static inline unsigned supp(const TT &f) { unsigned r = 0; for (int v = 0; v < NV; v++) if (depends(f, v)) r |= 1u << v; return r; }
static inline std::string str(const TT &f) { std::string r; for (int i = NA / 4 - 1; i >= 0 && r.size() < 600; i--) r += "0123456789abcdef"[f[4 * i] | f[4 * i + 1] << 1 | f[4 * i + 2] << 2 | f[4 * i + 3] << 3]; return r; }

/* independent evaluation of a Boolean diagram: follows the nodes, never calls the library's operations */
static inline bool evalBdd(DdManager *m, DdNode *f, int a) {
    bool neg = false;
    for (;;) {
        if (Cudd_IsComplement(f)) { neg = !neg; f = Cudd_Regular(f); }
        if (f->index == CUDD_CONST_INDEX) return (f->type.value != 0.0) != neg;
        f = (a >> f->index & 1) ? f->type.kids.T : f->type.kids.E;
    }
}
static inline TT table(DdManager *m, DdNode *f) { TT t; for (int a = 0; a < NA; a++) t[a] = evalBdd(m, f, a); return t; }

/* structural rules of every reachable node: order of the levels, no complemented then edge, no redundant node */
static inline void wellFormed(DdManager *m, DdNode *f, std::set<DdNode *> &seen) {
    f = Cudd_Regular(f);
    if (f->index == CUDD_CONST_INDEX || !seen.insert(f).second) return;
    DdNode *t = f->type.kids.T, *e = f->type.kids.E;
    REQUIRE(!Cudd_IsComplement(t), "complemented then edge");
    REQUIRE(t != e, "redundant node");
    REQUIRE(f->ref > 0, "unreferenced node reachable");
    for (DdNode *k : {t, Cudd_Regular(e)}) if (k->index != CUDD_CONST_INDEX) REQUIRE(Cudd_ReadPerm(m, f->index) < Cudd_ReadPerm(m, k->index), "levels out of order");
    wellFormed(m, t, seen);
    wellFormed(m, e, seen);
}

static inline void managerCheck(DdManager *m) {
    FILE *out = Cudd_ReadStdout(m);
    static TL FILE *null;
    if (!null) null = fopen("/dev/null", "w");
    Cudd_SetStdout(m, null);
    int a = Cudd_DebugCheck(m), b = Cudd_CheckKeys(m);
    Cudd_SetStdout(m, out);
    counters["manager checks"]++;
    REQUIRE(a == 0, "Cudd_DebugCheck reports %d", a);
    REQUIRE(b == 0, "Cudd_CheckKeys reports %d", b);
}

/* references from outside the diagrams (constants not counted): sum of the reference counts minus the arcs between nodes */
static inline long outsideRefs(DdManager *m) {
    cuddGarbageCollect(m, 1);
    long r = 0;
    for (int z = 0; z < 2; z++) for (int i = 0; i < (z ? m->sizeZ : m->size); i++) {
        DdSubtable &t = z ? m->subtableZ[i] : m->subtables[i];
        for (unsigned j = 0; j < t.slots; j++) for (DdNode *f = t.nodelist[j]; f && f != &m->sentinel; f = f->next) {
            if (!f->ref) continue;       /* dead: holds no references */
            r += f->ref;
            for (DdNode *k : {f->type.kids.T, Cudd_Regular(f->type.kids.E)}) if (k->index != CUDD_CONST_INDEX) r--;
        }
    }
    return r;
}

static const Cudd_ReorderingType METHODS[] = {CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV, CUDD_REORDER_WINDOW2, CUDD_REORDER_WINDOW3,
    CUDD_REORDER_WINDOW4, CUDD_REORDER_WINDOW2_CONV, CUDD_REORDER_WINDOW3_CONV, CUDD_REORDER_WINDOW4_CONV, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_GROUP_SIFT_CONV, CUDD_REORDER_ANNEALING, CUDD_REORDER_GENETIC, CUDD_REORDER_EXACT, CUDD_REORDER_LAZY_SIFT};
enum { NMETHODS = sizeof(METHODS) / sizeof(*METHODS) };

static inline DdManager *newManager(int nvars, int nzdd) {
    static const unsigned slots[] = {2, 4, 16, 64, 256};
    DdManager *m = Cudd_Init(nvars, nzdd, slots[rnd(5)], slots[rnd(5)], 0);
    REQUIRE(m, "no manager");
    if (chance(30)) Cudd_SetMaxCacheHard(m, 1 + rnd(300));
    if (chance(30)) m->minDead = rnd(30);
    if (chance(20)) Cudd_DisableGarbageCollection(m);
    if (chance(20)) Cudd_SetLooseUpTo(m, 1 + rnd(100));
    if (chance(20)) Cudd_SetMinHit(m, rnd(100));
    Cudd_Srandom(m, rnd(1000));
    return m;
}

/* the tables are full: the next nodes make the manager collect dead nodes (inside of an operation) or grow the tables */
static inline void fullTables(DdManager *m) {
    if (chance(70)) Cudd_EnableGarbageCollection(m);
    m->minDead = rnd(3);
    unsigned k = rnd(4);
    for (int z = 0; z < 2; z++) for (int i = 0; i < (z ? m->sizeZ : m->size); i++) { DdSubtable &t = z ? m->subtableZ[i] : m->subtables[i]; if (t.slots <= 256 && t.maxKeys > k) t.maxKeys = k; }
    counters["events: full tables"]++;
}

/* what the manager may do on its own at any time */
static inline void event(DdManager *m) {
    switch (rnd(8)) {
    case 7: fullTables(m); break;
    case 0: counters["events: collection"]++; cuddGarbageCollect(m, 1); break;
    case 1: counters["events: cache flush"]++; cuddCacheFlush(m); break;
    case 2: case 3: {
        Cudd_ReorderingType t = METHODS[rnd(NMETHODS)];
        if ((t == CUDD_REORDER_EXACT || t == CUDD_REORDER_GENETIC || t == CUDD_REORDER_ANNEALING) && chance(80)) t = CUDD_REORDER_SIFT;
        counters["events: reordering"]++;
        counters["reordering method " + std::to_string((int)t)]++;
        currentOp = "reordering with method " + std::to_string((int)t);
        REQUIRE(Cudd_ReduceHeap(m, t, 0) == 1, "reordering with method %d failed", (int)t);
        break;
    }
    case 4: {
        int n = Cudd_ReadSize(m), p[64];
        for (int i = 0; i < n; i++) p[i] = i;
        for (int i = n - 1; i > 0; i--) std::swap(p[i], p[rnd(i + 1)]);
        counters["events: shuffle"]++;
        if (!m->tree) REQUIRE(Cudd_ShuffleHeap(m, p) == 1, "shuffle failed");
        break;
    }
    case 5:
        if (chance(50)) Cudd_AutodynEnable(m, METHODS[rnd(8)]); else Cudd_AutodynDisable(m);
        Cudd_SetNextReordering(m, 20 + rnd(300));
        break;
    case 6: if (chance(20)) managerCheck(m); break;
    }
    if (m->nextDyn < 20) m->nextDyn = 20;
}
#endif
