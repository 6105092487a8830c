/* Histories of everything that changes the manager under the feet of held diagrams (C31). usage: ddhist seed steps */
#define DD_NV 9
#include "ddtest.h"

static TL DdManager *m, *other;
enum Kind { BDD, ADD, ZDD };
static const char *KIND[] = {"Boolean", "arithmetic", "zero-suppressed"};
typedef std::vector<int> Tab;
struct Obj { Kind k; DdNode *f; Tab v; };
static TL std::vector<Obj> pool;
static TL bool linearAllowed;
static TL bool realign;                   /* both orders kept equal by the library */
static TL bool paranoid;

static Tab eval(Kind k, DdNode *f0) {
    Tab t(NA);
    for (int a = 0; a < NA; a++) {
        DdNode *f = f0;
        if (k == BDD) { t[a] = evalBdd(m, f, a); continue; }
        int seen = 0;
        while (f->index != CUDD_CONST_INDEX) { seen |= 1 << f->index; f = (a >> f->index & 1) ? f->type.kids.T : f->type.kids.E; }
        t[a] = (int)f->type.value;
        if (k == ZDD && (a & ~seen)) t[a] = 0;
    }
    return t;
}
static void deref(Kind k, DdNode *f) { if (k == ZDD) Cudd_RecursiveDerefZdd(m, f); else if (k == BDD && chance(30)) Cudd_IterDerefBdd(m, f); else Cudd_RecursiveDeref(m, f); }
static void dropAt(size_t i) { deref(pool[i].k, pool[i].f); pool[i] = pool.back(); pool.pop_back(); }
static void hold(Kind k, DdNode *f, const Tab &want, bool referenced = false) {
    REQUIRE(f, "no result (error code %d)", (int)Cudd_ReadErrorCode(m));
    if (!referenced) Cudd_Ref(f);
    Tab got = eval(k, f);
    for (int a = 0; a < NA; a++) REQUIRE(got[a] == want[a], "%s result has value %d instead of %d at %d", KIND[k], got[a], want[a], a);
    for (auto &o : pool) if (o.k == k) REQUIRE((o.f == f) == (o.v == want), "%s: %s", KIND[k], o.f == f ? "one diagram for two functions" : "two diagrams for one function");
    pool.push_back({k, f, want});
    counters["results judged"]++;
}
static void held() {       /* every held diagram still denotes its function */
    for (size_t i = 0; i < pool.size(); i++) {
        Tab got = eval(pool[i].k, pool[i].f);
        for (int a = 0; a < NA; a++) REQUIRE(got[a] == pool[i].v[a], "held %s diagram changed: value %d instead of %d at assignment %d", KIND[pool[i].k], got[a], pool[i].v[a], a);
        counters["held diagrams compared"]++;
    }
}
static long expectedRefs() {
    long r = m->size;
    r += m->sizeZ > 0;                  /* the chain of the universe */
    for (auto &o : pool) r += Cudd_Regular(o.f)->index != CUDD_CONST_INDEX;
    return r;
}
static std::map<DdNode *, long> constantRefs() {   /* constants: references from outside the diagrams */
    std::map<DdNode *, long> r;
    for (unsigned j = 0; j < m->constants.slots; j++) for (DdNode *c = m->constants.nodelist[j]; c; c = c->next) if (c->ref != DD_MAXREF) r[c] += c->ref;
    for (int z = 0; z < 2; z++) for (int i = 0; i < (z ? m->sizeZ : m->size); i++) {
        DdSubtable &t = z ? m->subtableZ[i] : m->subtables[i];
        for (unsigned j = 0; j < t.slots; j++) for (DdNode *f = t.nodelist[j]; f && f != &m->sentinel; f = f->next) if (f->ref)
            for (DdNode *k : {f->type.kids.T, Cudd_Regular(f->type.kids.E)}) if (k->index == CUDD_CONST_INDEX) r[k]--;
    }
    for (auto &o : pool) if (Cudd_Regular(o.f)->index == CUDD_CONST_INDEX) r[Cudd_Regular(o.f)]--;
    return r;
}
static TL std::map<DdNode *, long> baseConst;
static void refs() {
    long got = outsideRefs(m), want = expectedRefs();
    REQUIRE(got == want, "%ld references from outside of the diagrams, %ld are held", got, want);
    counters["reference counts compared"]++;
    auto c = constantRefs();
    for (auto &x : c) {
        long base = x.first == DD_ONE(m) || x.first == DD_ZERO(m) || x.first == DD_PLUS_INFINITY(m) || x.first == DD_MINUS_INFINITY(m) ? (baseConst.count(x.first) ? baseConst[x.first] : 0) : 0;
        if (x.first == DD_ONE(m)) {                     /* also referenced by the projection functions of the zero-suppressed diagrams, which were counted if they are constant */
            continue;
        }
        REQUIRE(x.second == base, "constant %g: %ld references from outside more than are held", x.first->type.value, x.second - base);
    }
}

/* ---- groups of variables ---- */
struct Group { std::set<int> vars; bool fixed; bool z; };
static TL std::vector<Group> groups;
static int levelOf(bool z, int i) { return z ? Cudd_ReadPermZdd(m, i) : Cudd_ReadPerm(m, i); }
static std::vector<std::string> sequence(const Group &g) {        /* order of the direct elements of a group */
    std::vector<std::pair<int, std::string>> e;
    for (int v : g.vars) {
        const Group *best = NULL;
        for (auto &h : groups) if (h.z == g.z && h.vars.count(v) && h.vars.size() < g.vars.size() && (!best || h.vars.size() > best->vars.size())) best = &h;
        int rep = v;
        if (best) { rep = *best->vars.begin(); }
        e.push_back({levelOf(g.z, v), std::to_string(rep)});
    }
    std::sort(e.begin(), e.end());
    std::vector<std::string> r;
    for (auto &x : e) if (r.empty() || r.back() != x.second) r.push_back(x.second);
    return r;
}
static void groupsHold() {
    for (auto &g : groups) {
        int lo = 1000, hi = -1;
        for (int v : g.vars) { lo = std::min(lo, levelOf(g.z, v)); hi = std::max(hi, levelOf(g.z, v)); }
        REQUIRE(hi - lo + 1 == (int)g.vars.size(), "the variables of a group are not adjacent: levels %d..%d for %d variables", lo, hi, (int)g.vars.size());
        counters["groups checked"]++;
    }
}
static void byIndex(MtrNode *t) { for (; t; t = t->younger) { t->low = t->index; byIndex(t->child); } }      /* the form which Cudd_SetTree takes */
static void show(MtrNode *t, int d) { for (; t; t = t->younger) { fprintf(stderr, "%*slow %d size %d index %d flags %d\n", d, "", (int)t->low, (int)t->size, (int)t->index, (int)t->flags); show(t->child, d + 2); } }
static void treeHolds(MtrNode *t, bool z, MtrNode *parent) {
    for (MtrNode *n = t, *prev = NULL; n; prev = n, n = n->younger) {
        REQUIRE(n->parent == parent && n->elder == prev, "group tree: broken links");
        if (parent) REQUIRE(n->low >= parent->low && n->low + n->size <= parent->low + parent->size, "group tree: child outside of its parent");
        if (prev) REQUIRE(n->low >= prev->low + prev->size, "group tree: siblings overlap or are out of order");
        if (n->size && (int)n->low < (z ? m->sizeZ : m->size)) REQUIRE((int)n->low == (z ? m->permZ : m->perm)[n->index], "group tree: level of the first variable is %d, recorded %d", (z ? m->permZ : m->perm)[n->index], (int)n->low);
        treeHolds(n->child, z, n);
    }
}
static void makeGroup(bool z) {
    int n = z ? m->sizeZ : m->size;
    if (n < 2) return;
    int lo = rnd(n), size = 1 + rnd(n - lo);
    std::set<int> s;
    for (int l = lo; l < lo + size; l++) s.insert(z ? m->invpermZ[l] : m->invperm[l]);
    for (auto &g : groups) if (g.z == z) {
        size_t k = 0;
        for (int v : s) k += g.vars.count(v);
        if (k && k != s.size() && k != g.vars.size()) return;      /* crossing */
        if (k == s.size() && k == g.vars.size()) return;           /* same */
    }
    if ((int)s.size() == n) return;
    bool fixed = chance(25);
    int low = z ? m->invpermZ[lo] : m->invperm[lo];
    MtrNode *t = z ? Cudd_MakeZddTreeNode(m, low, size, fixed ? MTR_FIXED : MTR_DEFAULT) : Cudd_MakeTreeNode(m, low, size, fixed ? MTR_FIXED : MTR_DEFAULT);
    REQUIRE(t, "group of the levels %d..%d refused", lo, lo + size - 1);
    groups.push_back({s, fixed, z});
    counters["groups made"]++;
}
static void noGroups(bool z) {
    if (z) Cudd_FreeZddTree(m); else Cudd_FreeTree(m);
    for (size_t i = 0; i < groups.size();) if (groups[i].z == z) { groups[i] = groups.back(); groups.pop_back(); } else i++;
}

/* ---- linear transformations (by exclusive nor: linear in the complemented variables): index space before and after ---- */
static std::vector<int> matrix() {      /* row i: variables whose sum is the diagram variable i */
    std::vector<int> r(NV);
    for (int i = 0; i < NV; i++) {
        r[i] = 1 << i;
        if (m->linear && i < m->linearSize) { r[i] = 0; for (int j = 0; j < m->linearSize; j++) {
            ptruint wpr = ((ptruint)(m->linearSize - 1) >> 6) + 1;
            if (m->linear[wpr * i + (j >> 6)] >> (j & 63) & 1) r[i] |= 1 << j;
        } }
    }
    return r;
}
static int apply(const std::vector<int> &M, int x) { x = ~x & (NA - 1); int y = 0; for (int i = 0; i < NV; i++) y |= __builtin_parity(M[i] & x) << i; return ~y & (NA - 1); }
static void rekey(const std::vector<int> &M0, const std::vector<int> &M1) {
    if (M0 == M1) return;
    counters["transformations by exclusive or"]++;
    for (auto &o : pool) if (o.k != ZDD) {
        Tab t(NA, -777);
        for (int x = 0; x < NA; x++) t[apply(M1, x)] = o.v[apply(M0, x)];
        for (int v : t) REQUIRE(v != -777, "the linear transformation is not invertible");
        o.v = t;
    }
}

static bool transformed() { auto M = matrix(); for (int i = 0; i < NV; i++) if (M[i] != 1 << i) return true; return false; }
static Tab toIndex(const Tab &t) { auto M = matrix(); Tab r(NA); for (int x = 0; x < NA; x++) r[apply(M, x)] = t[x]; return r; }

/* ---- reordering ---- */
static TL std::map<int, int> hookCalls;
static int hookPre(DdManager *, const char *, void *) { hookCalls[0]++; return 1; }
static int hookPost(DdManager *, const char *, void *) { hookCalls[1]++; return 1; }
static int hookGcPre(DdManager *, const char *, void *) { hookCalls[2]++; return 1; }
static int hookGcPost(DdManager *, const char *, void *) { hookCalls[3]++; return 1; }

template <class Fn> static void reordering(const std::string &name, const Fn &fn) {
    currentOp = name;
    std::vector<std::vector<std::string>> before;
    for (auto &g : groups) before.push_back(sequence(g));
    auto M0 = matrix();
    int pre = hookCalls[0], post = hookCalls[1];
    bool reduce = fn();
    bool hooked = Cudd_IsInHook(m, hookPre, CUDD_PRE_REORDERING_HOOK);
    if (reduce && hooked) REQUIRE(hookCalls[0] > pre && hookCalls[1] - post == hookCalls[0] - pre, "reordering hooks called %d and %d times", hookCalls[0] - pre, hookCalls[1] - post);
    rekey(M0, matrix());
    std::set<int> p, q;
    for (int i = 0; i < m->size; i++) { REQUIRE(m->invperm[m->perm[i]] == i, "the permutations are not inverse"); p.insert(m->perm[i]); }
    for (int i = 0; i < m->sizeZ; i++) { REQUIRE(m->invpermZ[m->permZ[i]] == i, "the permutations of the zero-suppressed diagrams are not inverse"); q.insert(m->permZ[i]); }
    REQUIRE((int)p.size() == m->size && (int)q.size() == m->sizeZ, "not a permutation");
    held();
    groupsHold();
    for (size_t i = 0; i < groups.size(); i++) if (groups[i].fixed) REQUIRE(sequence(groups[i]) == before[i], "the order within a fixed group changed");
    treeHolds(m->tree, false, NULL);
    treeHolds(m->treeZ, true, NULL);
    if (realign && m->sizeZ && m->sizeZ == m->size) for (int i = 0; i < m->size; i++) REQUIRE(m->perm[i] == m->permZ[i], "orders differ although they are kept aligned: variable %d", i);
    if (chance(20) || paranoid) { managerCheck(m); refs(); }
    counters["reorderings by request"]++;
}
static const Cudd_ReorderingType ZMETHODS[] = {CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV};
static TL bool lazy, zddAuto;
static void reorderBdd() {
    Cudd_ReorderingType t = METHODS[rnd(NMETHODS)];
    if ((t == CUDD_REORDER_EXACT || t == CUDD_REORDER_GENETIC || t == CUDD_REORDER_ANNEALING) && chance(75)) t = METHODS[rnd(14)];
    if (t == CUDD_REORDER_EXACT && !getenv("EXACTUNUSED")) cuddGarbageCollect(m, 1);      /* unused variables: see fixed-exact */
    if (t == CUDD_REORDER_EXACT && !getenv("EXACTUNUSED")) for (int i = 0; i < m->size; i++) if (m->vars[i]->ref == 1 && m->subtables[m->perm[i]].keys == 1) t = CUDD_REORDER_SIFT;
    if (linearAllowed && (chance(30) || (transformed()))) t = chance(60) ? CUDD_REORDER_LINEAR : CUDD_REORDER_LINEAR_CONVERGE;
    counters["reordering method " + std::to_string((int)t)]++;
    reordering("reordering with method " + std::to_string((int)t), [&] { REQUIRE(Cudd_ReduceHeap(m, t, 0) == 1, "failed (error code %d)", (int)Cudd_ReadErrorCode(m)); return true; });
}
static void reorderZdd() {
    Cudd_ReorderingType t = ZMETHODS[rnd(m->treeZ && !getenv("ZGROUPS") ? 2 : 6)];
    counters["reordering method Z" + std::to_string((int)t)]++;
    if (!m->sizeZ) return;
    reordering("reordering of zero-suppressed diagrams with method " + std::to_string((int)t), [&] { REQUIRE(Cudd_zddReduceHeap(m, t, 0) == 1, "failed (error code %d)", (int)Cudd_ReadErrorCode(m)); return true; });
}
static void shuffle() {
    bool z = chance(30);
    int n = z ? m->sizeZ : m->size, p[64], *inv = z ? m->invpermZ : m->invperm;
    if (!n || (z && m->treeZ) || realign) return;
    for (int i = 0; i < n; i++) p[i] = inv[i];
    if (chance(50)) for (int i = n - 1; i > 0; i--) std::swap(p[i], p[rnd(i + 1)]);
    else for (int k = 1 + rnd(3); k; k--) { int i = rnd(n); if (i + 1 < n) std::swap(p[i], p[i + 1]); }
    bool fits = true;
    for (auto &g : groups) if (g.z == z) { int lo = 99, hi = -1; for (int i = 0; i < n; i++) if (g.vars.count(p[i])) { lo = std::min(lo, i); hi = std::max(hi, i); } if (hi - lo + 1 != (int)g.vars.size()) fits = false; }
    for (auto &g : groups) if (g.fixed && !z) return;
    std::vector<int> old(inv, inv + n);
    if (getenv("SHOW") && m->tree) { fprintf(stderr, "size %d\n", m->size); show(m->tree, 0); }
    reordering(z ? "shuffle of zero-suppressed diagrams" : "shuffle", [&] {
        int r = z ? Cudd_zddShuffleHeap(m, p) : Cudd_ShuffleHeap(m, p);
        REQUIRE(r == fits, "an order that %s the groups was %s", fits ? "respects" : "violates", r ? "accepted" : "refused");
        int *now = z ? m->invpermZ : m->invperm;
        for (int i = 0; i < n; i++) REQUIRE(now[i] == (r ? p[i] : old[i]), "variable %d at level %d", now[i], i);
        return false;
    });
}

/* ---- new variables ---- */
static void newVariable() {
    currentOp = "new variable";
    if (m->size >= NV || realign) return;
    int lvl = rnd(m->size + 1);
    for (auto &g : groups) if (!g.z) {                        /* not into a group: the library does not say what that means */
        int lo = 99, hi = -1;
        for (int v : g.vars) { lo = std::min(lo, m->perm[v]); hi = std::max(hi, m->perm[v]); }
        if (lo < lvl && lvl <= hi) return;
    }
    int size = m->size;
    unsigned reorderings = Cudd_ReadReorderings(m);
    std::vector<int> order(m->invperm, m->invperm + size);
    DdNode *x;
    bool add = false;
    switch (rnd(4)) {
    case 0: x = Cudd_bddNewVar(m); lvl = size; break;
    case 1: x = Cudd_addNewVarAtLevel(m, lvl); add = true; break;
    case 2: x = Cudd_bddNewVarAtLevel(m, lvl); break;
    default: x = Cudd_bddIthVar(m, size); lvl = size; break;
    }
    REQUIRE(x && m->size == size + 1, "no new variable");
    order.insert(order.begin() + lvl, size);
    if (reorderings == Cudd_ReadReorderings(m)) for (int i = 0; i <= size; i++) REQUIRE(m->invperm[i] == order[i] && m->perm[order[i]] == i, "the new variable was not inserted at level %d", lvl);
    Tab t(NA);
    for (int a = 0; a < NA; a++) t[a] = a >> size & 1;
    currentOp = "new variable";
    if (add) Cudd_Ref(x);
    hold(add ? ADD : BDD, x, t, add);
    held();
    groupsHold();
    treeHolds(m->tree, false, NULL);
    counters["variables added"]++;
}
static void newZdd() {
    currentOp = "new variable of zero-suppressed diagrams";
    if (m->sizeZ >= NV || realign) return;
    if (m->size > m->sizeZ && !m->treeZ && chance(50)) {
        if (m->tree) return;
        reordering("variables of zero-suppressed diagrams from those of Boolean ones", [&] {
            REQUIRE(Cudd_zddVarsFromBddVars(m, 1) == 1, "failed");
            for (int i = 0; i < m->size; i++) REQUIRE(m->permZ[i] == m->perm[i], "order not taken over");
            return false;
        });
        return;
    }
    int i = rnd(NV);
    DdNode *x = Cudd_zddIthVar(m, i);
    int n = m->sizeZ;
    REQUIRE(x && n > i, "no variable %d", i);
    Tab t(NA);
    for (int a = 0; a < NA; a++) t[a] = (a >> i & 1) && a < (1 << n);
    hold(ZDD, x, t);
    held();
}

/* ---- operations that make new diagrams ---- */
static const Obj *pick(Kind k) { std::vector<int> c; for (size_t i = 0; i < pool.size(); i++) if (pool[i].k == k) c.push_back(i); return c.empty() ? NULL : &pool[c[rnd(c.size())]]; }
static Tab map2(const Tab &a, const Tab &b, const std::function<int(int, int)> &f) { Tab r(NA); for (int i = 0; i < NA; i++) r[i] = f(a[i], b[i]); return r; }
static DdNode *cubeOf(unsigned mask) { std::vector<DdNode *> v; for (int i = 0; i < m->size; i++) if (mask >> i & 1) v.push_back(Cudd_bddIthVar(m, i)); DdNode *c = Cudd_bddComputeCube(m, v.data(), NULL, v.size()); REQUIRE(c, "cube"); Cudd_Ref(c); return c; }
static DdNode *abstracted(DdNode *(*fn)(DdManager *, DdNode *, DdNode *), DdNode *f, unsigned mask) { DdNode *c = cubeOf(mask), *r = fn(m, f, c); if (r) Cudd_Ref(r); Cudd_RecursiveDeref(m, c); return r; }
static Tab quant(Tab t, unsigned mask, const std::function<int(int, int)> &f) { for (int v = 0; v < NV; v++) if (mask >> v & 1) { Tab u(NA); for (int a = 0; a < NA; a++) u[a] = f(t[a | 1 << v], t[a & ~(1 << v)]); t = u; } return t; }
static void operation() {
    int k = rnd(10);
    if (k < 5) {
        const Obj *f = pick(BDD), *g = pick(BDD), *h = pick(BDD);
        Obj F = *f, G = *g, H = *h;
        unsigned mask = rnd(1 << m->size);
        int v = rnd(m->size);
        int bop = rnd(10);
        if (transformed() && (bop == 6 || bop == 7)) bop = 8;      /* the variables are sums now: no cubes */
 currentOp = "Boolean operation " + std::to_string(bop);
        switch (bop) {
        case 0: case 1: hold(BDD, Cudd_bddAnd(m, F.f, Cudd_Not(G.f)), map2(F.v, G.v, [](int a, int b) { return a && !b; })); break;
        case 2: case 3: hold(BDD, Cudd_bddXor(m, F.f, G.f), map2(F.v, G.v, [](int a, int b) { return a ^ b; })); break;
        case 4: case 5: { Tab t(NA); for (int a = 0; a < NA; a++) t[a] = F.v[a] ? G.v[a] : H.v[a]; hold(BDD, Cudd_bddIte(m, F.f, G.f, H.f), t); break; }
        case 6: hold(BDD, abstracted(Cudd_bddExistAbstract, F.f, mask), quant(F.v, mask, [](int a, int b) { return a | b; }), true); break;
        case 7: { Tab t(NA); for (int a = 0; a < NA; a++) t[a] = F.v[G.v[a] ? a | 1 << v : a & ~(1 << v)]; hold(BDD, Cudd_bddCompose(m, F.f, G.f, v), t); break; }
        case 8: { Tab t(NA); for (int a = 0; a < NA; a++) t[a] = a >> v & 1; hold(BDD, Cudd_bddIthVar(m, v), toIndex(t)); break; }
        case 9: {                                               /* fresh random function */
            Tab t(NA);
            TT tt;
            for (int a = 0; a < NA; a++) tt[a] = rnd(2);
            for (int i = 0; i < NV; i++) if (i >= m->size || chance(25)) tt = cof(tt, i, 0);
            DdNode *r = Cudd_ReadLogicZero(m);
            Cudd_Ref(r);
            std::vector<DdNode *> cells(NA);
            for (int a = 0; a < (1 << m->size); a++) { cells[a] = tt[a] ? Cudd_ReadOne(m) : Cudd_ReadLogicZero(m); Cudd_Ref(cells[a]); }
            for (int i = m->size - 1; i >= 0; i--) for (int a = 0; a < (1 << i); a++) {
                DdNode *n = Cudd_bddIte(m, Cudd_bddIthVar(m, i), cells[a | 1 << i], cells[a]);
                REQUIRE(n, "no result");
                Cudd_Ref(n);
                Cudd_RecursiveDeref(m, cells[a]);
                Cudd_RecursiveDeref(m, cells[a | 1 << i]);
                cells[a] = n;
            }
            Cudd_RecursiveDeref(m, r);
            for (int a = 0; a < NA; a++) t[a] = tt[a & ((1 << m->size) - 1)];
            hold(BDD, cells[0], toIndex(t), true);
            break;
        }
        }
    } else if (k < 8) {
        const Obj *f = pick(ADD), *g = pick(ADD);
        currentOp = "arithmetic operation";
        if (!f || chance(15)) {
            if (chance(30)) { int c = rnd(5) - 2; hold(ADD, Cudd_addConst(m, c), Tab(NA, c)); return; }
            Obj F = *pick(BDD);
            hold(ADD, Cudd_BddToAdd(m, F.f), F.v);
            return;
        }
        Obj F = *f, G = *g;
        unsigned mask = rnd(1 << m->size);
        int aop = rnd(transformed() ? 6 : 7);
        currentOp = "arithmetic operation " + std::to_string(aop);
        switch (aop) {
        case 0: case 1: hold(ADD, Cudd_addApply(m, Cudd_addPlus, F.f, G.f), map2(F.v, G.v, [](int a, int b) { return a + b; })); break;
        case 2: hold(ADD, Cudd_addApply(m, Cudd_addTimes, F.f, G.f), map2(F.v, G.v, [](int a, int b) { return a * b; })); break;
        case 3: hold(ADD, Cudd_addApply(m, Cudd_addMaximum, F.f, G.f), map2(F.v, G.v, [](int a, int b) { return std::max(a, b); })); break;
        case 4: hold(ADD, Cudd_addApply(m, Cudd_addMinus, F.f, G.f), map2(F.v, G.v, [](int a, int b) { return a - b; })); break;
        case 5: { int c = rnd(5) - 2; Tab t(NA); for (int a = 0; a < NA; a++) t[a] = F.v[a] >= c; hold(BDD, Cudd_addBddThreshold(m, F.f, c), t); break; }
        case 6: {
            DdNode *b = cubeOf(mask), *c = Cudd_BddToAdd(m, b);
            Cudd_Ref(c); Cudd_RecursiveDeref(m, b);
            bool small = true; for (int x : F.v) if (abs(x) > 3) small = false;
            if (small && __builtin_popcount(mask) <= 3) { DdNode *r = Cudd_addExistAbstract(m, F.f, c); if (r) Cudd_Ref(r); Cudd_RecursiveDeref(m, c); hold(ADD, r, quant(F.v, mask, [](int a, int b) { return a + b; }), true); }
            else Cudd_RecursiveDeref(m, c);
            break;
        }
        }
        if (pool.back().k == ADD) for (int x : pool.back().v) if (abs(x) > 500) { dropAt(pool.size() - 1); break; }
    } else {
        currentOp = "operation on zero-suppressed diagrams";
        const Obj *f = pick(ZDD), *g = pick(ZDD);
        if (!m->sizeZ) { newZdd(); return; }
        bool same = m->sizeZ == m->size && !transformed();
        for (int i = 0; same && i < m->size; i++) if (m->perm[i] != m->permZ[i]) same = false;
        if (!f || chance(15)) {
            if (chance(40)) { int i = rnd(m->sizeZ), n = m->sizeZ; Tab t(NA); for (int a = 0; a < NA; a++) t[a] = (a >> i & 1) && a < (1 << n); hold(ZDD, Cudd_zddIthVar(m, i), t); return; }
            if (!same) return;
            Obj F = *pick(BDD);
            Tab t = F.v;
            for (int a = 1 << m->sizeZ; a < NA; a++) t[a] = 0;
            /* the port reorders nothing: the orders stay equal unless automatic reordering is on */
            bool d = m->autoDyn, e = m->autoDynZ;
            m->autoDyn = m->autoDynZ = 0;
            currentOp = "port to a zero-suppressed diagram";
            hold(ZDD, Cudd_zddPortFromBdd(m, F.f), t);
            m->autoDyn = d; m->autoDynZ = e;
            return;
        }
        Obj F = *f, G = *g;
        int v = rnd(m->sizeZ);
        Tab t(NA);
        switch (rnd(9)) {
        case 0: case 1: hold(ZDD, Cudd_zddUnion(m, F.f, G.f), map2(F.v, G.v, [](int a, int b) { return a | b; })); break;
        case 2: hold(ZDD, Cudd_zddIntersect(m, F.f, G.f), map2(F.v, G.v, [](int a, int b) { return a & b; })); break;
        case 3: hold(ZDD, Cudd_zddDiff(m, F.f, G.f), map2(F.v, G.v, [](int a, int b) { return a && !b; })); break;
        case 4: for (int a = 0; a < NA; a++) t[a] = F.v[a ^ 1 << v]; hold(ZDD, Cudd_zddChange(m, F.f, v), t); break;
        case 5: for (int a = 0; a < NA; a++) t[a] = !(a >> v & 1) && F.v[a | 1 << v]; hold(ZDD, Cudd_zddSubset1(m, F.f, v), t); break;
        case 6: for (int a = 0; a < NA; a++) t[a] = !(a >> v & 1) && F.v[a]; hold(ZDD, Cudd_zddSubset0(m, F.f, v), t); break;
        case 7: {
            int cnt = 0, cnt2 = 0;
            for (int a = 0; a < NA; a++) { cnt += F.v[a]; cnt2 += G.v[a]; }
            if (cnt * cnt2 > 20000) break;
            for (int a = 0; a < NA; a++) if (F.v[a]) for (int b = 0; b < NA; b++) if (G.v[b]) t[a | b] = 1;
            hold(ZDD, Cudd_zddUnateProduct(m, F.f, G.f), t);
            break;
        }
        case 8: if (same) {
            for (int a = 0; a < NA; a++) t[a] = F.v[a & ((1 << m->size) - 1)];
            bool d = m->autoDyn, e = m->autoDynZ;
            m->autoDyn = m->autoDynZ = 0;
            currentOp = "port to a Boolean diagram";
            hold(BDD, Cudd_zddPortToBdd(m, F.f), t);
            m->autoDyn = d; m->autoDynZ = e;
        } break;
        }
    }
}

/* ---- abandoned operations ---- */
typedef std::vector<DdNode *> Out;          /* referenced results; first is NULL if there is none */
struct Args { DdNode *f, *g, *h, *c, *a, *b, *ac, *p, *q; int v, n, s; std::vector<DdNode *> x, y, z, vec, avec; std::vector<int> perm; };
struct Call { const char *name; std::function<void(Args &, Out &)> run; bool z, free = false; };     /* free: may choose among results (by addresses) */
static void one(Out &o, DdNode *r) { o.push_back(r); if (r) Cudd_Ref(r); }
static TL std::vector<Call> calls;
#define C1(name, ...) calls.push_back({#name, [](Args &A, Out &O) { one(O, Cudd_##name(m, __VA_ARGS__)); }, false});
#define Z1(name, ...) calls.push_back({#name, [](Args &A, Out &O) { one(O, Cudd_##name(m, __VA_ARGS__)); }, true});
#define AP(op) calls.push_back({#op, [](Args &A, Out &O) { one(O, Cudd_addApply(m, Cudd_##op, A.a, A.b)); }, false});
#define DEC(name) calls.push_back({#name, [](Args &A, Out &O) { DdNode **r = NULL; int k = Cudd_##name(m, A.f, &r); if (!k) { O.push_back(NULL); return; } for (int i = 0; i < k; i++) O.push_back(r[i]); free(r); }, false, true});
static void makeCalls() {
    C1(bddIte, A.f, A.g, A.h) C1(bddAnd, A.f, A.g) C1(bddOr, A.f, A.g) C1(bddXor, A.f, A.g) C1(bddXnor, A.f, A.g) C1(bddNand, A.f, A.g) C1(bddNor, A.f, A.g) C1(bddIntersect, A.f, A.g)
    C1(bddExistAbstract, A.f, A.c) C1(bddUnivAbstract, A.f, A.c) C1(bddAndAbstract, A.f, A.g, A.c) C1(bddXorExistAbstract, A.f, A.g, A.c) C1(bddBooleanDiff, A.f, A.v)
    C1(bddCompose, A.f, A.g, A.v) C1(bddVectorCompose, A.f, A.vec.data()) C1(bddPermute, A.f, A.perm.data()) C1(bddSwapVariables, A.f, A.x.data(), A.y.data(), A.n) C1(bddAdjPermuteX, A.f, A.x.data(), A.n)
    C1(Cofactor, A.f, A.c) C1(bddConstrain, A.f, A.g) C1(bddRestrict, A.f, A.g) C1(bddNPAnd, A.f, A.g) C1(bddLICompaction, A.f, A.g) C1(bddMinimize, A.f, A.g) C1(FindEssential, A.f) C1(Support, A.f)
    C1(bddClippingAnd, A.f, A.g, A.s % 5, A.v % 2) C1(bddClippingAndAbstract, A.f, A.g, A.c, A.s % 5, A.v % 2)
    C1(UnderApprox, A.f, m->size, A.s + 1, A.v % 2, 1.0) C1(OverApprox, A.f, m->size, A.s + 1, A.v % 2, 1.0) C1(RemapUnderApprox, A.f, m->size, A.s + 1, 1.0) C1(RemapOverApprox, A.f, m->size, A.s + 1, 1.0)
    C1(BiasedUnderApprox, A.f, A.g, m->size, A.s + 1, 1.0, 1.0) C1(BiasedOverApprox, A.f, A.g, m->size, A.s + 1, 1.0, 1.0) C1(SubsetHeavyBranch, A.f, m->size, A.s + 1) C1(SupersetHeavyBranch, A.f, m->size, A.s + 1)
    C1(SubsetShortPaths, A.f, m->size, A.s + 1, 0) C1(SupersetShortPaths, A.f, m->size, A.s + 1, 0) C1(SubsetCompress, A.f, m->size, A.s + 1) C1(SupersetCompress, A.f, m->size, A.s + 1)
    C1(bddLiteralSetIntersection, A.c, A.c) C1(CProjection, A.f, A.c) C1(LargestCube, A.f, NULL)
    C1(Xgty, A.n, NULL, A.x.data(), A.y.data()) C1(Xeqy, A.n, A.x.data(), A.y.data()) C1(addXeqy, A.n, A.x.data(), A.y.data()) C1(addHamming, A.x.data(), A.y.data(), A.n)
    C1(Inequality, A.n, A.s % 4, A.x.data(), A.y.data()) C1(Disequality, A.n, A.s % 4, A.x.data(), A.y.data()) C1(bddInterval, A.n, A.x.data(), 0, A.s % (1 << A.n))
    C1(BddToAdd, A.f) C1(addBddPattern, A.a) C1(addBddThreshold, A.a, 1) C1(addBddStrictThreshold, A.a, 0) C1(addBddInterval, A.a, 0, 2) C1(addBddIthBit, A.a, A.v % 3)
    AP(addPlus) AP(addTimes) AP(addMinus) AP(addMaximum) AP(addMinimum) AP(addThreshold) AP(addSetNZ) AP(addDiff) AP(addAgreement) AP(addOneZeroMaximum)
    C1(addExistAbstract, A.a, A.ac) C1(addUnivAbstract, A.a, A.ac) C1(addNegate, A.a) C1(addCmpl, A.a) C1(addRoundOff, A.a, 0) C1(addIthBit, A.a, A.v % 3) C1(addPermute, A.a, A.perm.data()) C1(addSwapVariables, A.a, A.x.data(), A.y.data(), A.n)
    C1(addConstrain, A.a, A.ac) C1(addRestrict, A.a, A.ac) C1(addMatrixMultiply, A.a, A.b, A.z.data(), (int)A.z.size()) C1(addTimesPlus, A.a, A.b, A.z.data(), (int)A.z.size()) C1(addTriangle, A.a, A.b, A.z.data(), (int)A.z.size()) C1(addOuterSum, A.a, A.b, A.b)
    C1(addWalsh, A.x.data(), A.y.data(), A.n) C1(addResidue, A.n, 3, 0, 0)
    C1(bddIsop, A.h, A.g)
    calls.push_back({"bddSqueeze", [](Args &A, Out &O) { one(O, Cudd_bddSqueeze(m, A.h, A.g)); }, false});
    calls.push_back({"bddInterpolate", [](Args &A, Out &O) { one(O, Cudd_bddInterpolate(m, A.h, A.g)); }, false});
    calls.push_back({"bddTransfer", [](Args &A, Out &O) { DdNode *r = Cudd_bddTransfer(m, other, A.f); if (r) { Cudd_Ref(r); Cudd_RecursiveDeref(other, r); r = Cudd_ReadOne(m); } one(O, r); }, false});
    DEC(bddApproxConjDecomp) DEC(bddApproxDisjDecomp) DEC(bddIterConjDecomp) DEC(bddIterDisjDecomp) DEC(bddGenConjDecomp) DEC(bddGenDisjDecomp) DEC(bddVarConjDecomp) DEC(bddVarDisjDecomp)
    calls.push_back({"bddCharToVect", [](Args &A, Out &O) { if (Cudd_Regular(A.f) == DD_ONE(m)) { one(O, DD_ONE(m)); return; } DdNode **r = Cudd_bddCharToVect(m, A.f); if (!r) { O.push_back(NULL); return; } for (int i = 0; i < m->size; i++) O.push_back(r[i]); free(r); }, false});
    calls.push_back({"bddConstrainDecomp", [](Args &A, Out &O) { DdNode **r = Cudd_bddConstrainDecomp(m, A.f); if (!r) { O.push_back(NULL); return; } for (int i = 0; i < m->size; i++) O.push_back(r[i]); free(r); }, false});
    Z1(zddUnion, A.p, A.q) Z1(zddIntersect, A.p, A.q) Z1(zddDiff, A.p, A.q) Z1(zddIte, A.p, A.q, A.p) Z1(zddChange, A.p, A.v % m->sizeZ) Z1(zddSubset0, A.p, A.v % m->sizeZ) Z1(zddSubset1, A.p, A.v % m->sizeZ) Z1(zddUnateProduct, A.p, A.q)
}
static TL long budget;
static TL bool fired;
static int terminate(const void *) { if (budget-- > 0) return 0; fired = true; return 1; }
static TL int handled;
static void onTimeout(DdManager *, void *) { handled++; }
static void abandoned() {
    Args A;
    A.f = pick(BDD)->f; A.g = pick(BDD)->f; A.h = pick(BDD)->f;
    if (chance(40)) A.f = Cudd_Not(A.f);
    const Obj *p = pick(ZDD), *q = pick(ZDD), *a = pick(ADD), *b = pick(ADD);
    if (!a || m->size < 4 || transformed()) return;
    A.a = a->f; A.b = b->f;
    const Call &C = calls[rnd(calls.size())];
    if (C.z && !p) return;
    A.p = p ? p->f : NULL; A.q = q ? q->f : NULL;
    for (int x : a->v) if (abs(x) > 50) return;
    for (int x : b->v) if (abs(x) > 50) return;
    bool dyn = m->autoDyn, dynZ = m->autoDynZ;
    m->autoDyn = m->autoDynZ = 0;
    std::vector<DdNode *> own;
    unsigned mask = rnd(1 << m->size);
    if (C.name == std::string("addExistAbstract") || C.name == std::string("addUnivAbstract")) mask &= 7u << rnd(m->size);
    A.c = cubeOf(mask); own.push_back(A.c);
    A.ac = Cudd_BddToAdd(m, A.c); Cudd_Ref(A.ac); own.push_back(A.ac);
    A.h = Cudd_bddAnd(m, A.h, A.g); Cudd_Ref(A.h); own.push_back(A.h);      /* h implies g */
    if (Cudd_IsConstant(A.g) || A.g == Cudd_ReadLogicZero(m)) A.g = Cudd_bddIthVar(m, 0);
    if (!Cudd_bddLeq(m, A.h, A.g)) A.h = A.g;
    A.v = rnd(m->size);
    A.s = rnd(40);
    std::vector<int> perm;
    for (int i = 0; i < m->size; i++) perm.push_back(i);
    for (int i = m->size - 1; i > 0; i--) std::swap(perm[i], perm[rnd(i + 1)]);
    A.perm = perm;
    A.n = std::min<int>(m->size / 2, 1 + rnd(4));
    bool addVars = C.name == std::string("addXeqy") || C.name == std::string("addWalsh") || C.name == std::string("addSwapVariables");
    auto var = [&](int i) { if (!addVars) return Cudd_bddIthVar(m, i); DdNode *x = Cudd_addIthVar(m, i); Cudd_Ref(x); own.push_back(x); return x; };
    if (C.name == std::string("bddAdjPermuteX")) { for (int i = 0; i < A.n; i++) A.x.push_back(Cudd_bddIthVar(m, i)); }
    else for (int i = 0; i < A.n; i++) { A.x.push_back(var(perm[i])); A.y.push_back(var(perm[A.n + i])); }
    if (C.name == std::string("bddAdjPermuteX")) A.n -= A.n % 2;
    for (int i = 0; i < 2; i++) { DdNode *x = Cudd_addIthVar(m, perm[i]); Cudd_Ref(x); own.push_back(x); A.z.push_back(x); }
    for (int i = 0; i < m->size; i++) A.vec.push_back(chance(50) ? Cudd_bddIthVar(m, i) : pick(BDD)->f);
    if (chance(60)) cuddCacheFlush(m);
    currentOp = C.name;
    int kind = rnd(3);
    unsigned saveLive = m->maxLive;
    unsigned long saveStart = m->startTime, saveLimit = m->timeLimit;
    budget = rnd(chance(50) ? 5 : 60);
    fired = false;
    handled = 0;
    Cudd_ClearErrorCode(m);
    int expected = CUDD_TERMINATION;
    double misses = m->cacheMisses;
    m->cacheMisses = 0;                                 /* the limits are looked at whenever the number of misses is a multiple of 2048 */
    long step0 = chance(50) ? 0 : rnd(40);
    m->cacheMisses = 2048 - step0;
    bool handler = false;
    if (kind == 0) Cudd_RegisterTerminationCallback(m, terminate, NULL);
    else if (kind == 1) { Cudd_SetMaxLive(m, m->keys - m->dead + m->keysZ - m->deadZ + rnd(chance(50) ? 4 : 30)); expected = CUDD_TOO_MANY_NODES; }
    else { m->startTime = util_cpu_time() - 100000; m->timeLimit = 1; expected = CUDD_TIMEOUT_EXPIRED; handler = chance(50); if (handler) Cudd_RegisterTimeoutHandler(m, onTimeout, NULL); }
    Out r0;
    std::vector<int> perm0 = A.perm;
    C.run(A, r0);
    A.perm = perm0;
    int err = Cudd_ReadErrorCode(m);
    Cudd_UnregisterTerminationCallback(m);
    Cudd_RegisterTimeoutHandler(m, NULL, NULL);
    m->maxLive = saveLive;
    m->startTime = saveStart;
    m->timeLimit = saveLimit;
    m->cacheMisses = misses;
    Cudd_ClearErrorCode(m);
    counters[r0[0] ? "operations under a limit completed" : "operations abandoned"]++;
    if (!r0[0]) counters[std::string("abandoned ") + C.name]++;
    if (!r0[0] && err != expected) {
        /* no result for other reasons: then there is none without the limit either */
        REQUIRE(C.free || err == CUDD_NO_ERROR || err == CUDD_INVALID_ARG, "no result, error code %d, limit %d", err, expected);
    }
    if (r0[0] && kind == 0) REQUIRE(!fired || err == CUDD_TERMINATION || err == CUDD_NO_ERROR, "error code %d", err);
    if (!r0[0] && err == CUDD_TIMEOUT_EXPIRED && handler) counters["time-out handler called"] += handled > 0;
    if (kind == 2 && handler && err != CUDD_TIMEOUT_EXPIRED) REQUIRE(handled == 0, "time-out handler called without a time-out");
    auto release = [&](Out &o) { for (DdNode *d : o) if (d) { if (C.z) Cudd_RecursiveDerefZdd(m, d); else Cudd_RecursiveDeref(m, d); } };
    /* again without a limit: with what the abandoned attempt left in the cache, and without */
    Out r1, r2;
    C.run(A, r1);
    A.perm = perm0;
    if (r0[0] && !C.free) { REQUIRE(r0.size() == r1.size(), "another number of results the second time"); for (size_t i = 0; i < r0.size(); i++) REQUIRE(r0[i] == r1[i], "another result the second time"); }
    if (!r0[0] && err != expected && !C.free) REQUIRE(!r1[0], "a result without the limit, none (error code %d) with it", err);
    if (!r0[0] && err == expected) { int e = Cudd_ReadErrorCode(m); REQUIRE(r1[0] || e == CUDD_NO_ERROR || e == CUDD_INVALID_ARG, "no result without the limit either (error code %d)", e); }
    cuddCacheFlush(m);
    C.run(A, r2);
    if (!C.free) REQUIRE(r1.size() == r2.size(), "number of results depends on the cache");
    for (size_t i = 0; i < r1.size() && !C.free; i++) REQUIRE(r1[i] == r2[i], "the result depends on what an abandoned attempt left in the cache");
    release(r0); release(r1); release(r2);
    for (DdNode *d : own) Cudd_RecursiveDeref(m, d);
    Cudd_ClearErrorCode(m);
    m->autoDyn = dyn; m->autoDynZ = dynZ;
    held();
    if (chance(60) || paranoid) { refs(); managerCheck(m); }
}

/* ---- parameters ---- */
static void parameters() {
    currentOp = "parameters";
    switch (rnd(22)) {
    case 0: Cudd_SetMaxGrowth(m, 1.0 + rnd(30) / 10.0); break;
    case 1: Cudd_SetMaxGrowthAlternate(m, 1.0 + rnd(20) / 10.0); Cudd_SetReorderingCycle(m, rnd(4)); break;
    case 2: Cudd_SetSiftMaxVar(m, 1 + rnd(NV)); break;
    case 3: Cudd_SetSiftMaxSwap(m, 1 + rnd(60)); break;
    case 4: Cudd_SetPopulationSize(m, rnd(20)); break;
    case 5: Cudd_SetNumberXovers(m, rnd(30)); break;
    case 6: Cudd_SetArcviolation(m, rnd(101)); break;
    case 7: Cudd_SetSymmviolation(m, rnd(101)); break;
    case 8: { static const Cudd_AggregationType G[] = {CUDD_NO_CHECK, CUDD_GROUP_CHECK5, CUDD_GROUP_CHECK7}; Cudd_SetGroupcheck(m, G[rnd(3)]); }; break;
    case 9: Cudd_SetRecomb(m, rnd(4)); break;
    case 10: Cudd_SetOrderRandomization(m, rnd(20)); break;
    case 11: Cudd_SetMinHit(m, rnd(100)); break;
    case 12: Cudd_SetMaxCacheHard(m, chance(50) ? 1 + rnd(400) : 0); break;
    case 13: Cudd_SetLooseUpTo(m, chance(50) ? 1 + rnd(200) : 0); break;
    case 14: if (chance(50)) Cudd_DisableGarbageCollection(m); else Cudd_EnableGarbageCollection(m); break;
    case 15: if (chance(50)) Cudd_TurnOffCountDead(m); else Cudd_TurnOnCountDead(m); break;
    case 16: m->minDead = rnd(60); break;
    case 17: {
        static const Cudd_HookType T[] = {CUDD_PRE_REORDERING_HOOK, CUDD_POST_REORDERING_HOOK, CUDD_PRE_GC_HOOK, CUDD_POST_GC_HOOK};
        static DD_HFP H[] = {hookPre, hookPost, hookGcPre, hookGcPost};
        bool on = chance(60);
        for (int i = 0; i < 4; i++) {
            bool in = Cudd_IsInHook(m, H[i], T[i]);
            int r = on ? Cudd_AddHook(m, H[i], T[i]) : Cudd_RemoveHook(m, H[i], T[i]);
            REQUIRE(r == (on ? (in ? 2 : 1) : in), "hook %d: answer %d", i, r);
            REQUIRE(!!Cudd_IsInHook(m, H[i], T[i]) == on, "hook %d not %s", i, on ? "present" : "removed");
        }
        break;
    }
    case 18: if (chance(50) && !linearAllowed) Cudd_AutodynEnable(m, METHODS[rnd(10)]); else Cudd_AutodynDisable(m); Cudd_SetNextReordering(m, 20 + rnd(400)); break;
    case 19: if (chance(50) && (zddAuto || getenv("ZGROUPS"))) Cudd_AutodynEnableZdd(m, ZMETHODS[rnd(6)]); else Cudd_AutodynDisableZdd(m); Cudd_SetNextReordering(m, 20 + rnd(400)); break;
    case 20: Cudd_SetMaxReorderings(m, chance(80) ? ~0u : Cudd_ReadReorderings(m) + rnd(5)); break;
    case 21: if (lazy) {
        for (int i = 0; i < m->size; i++) switch (rnd(6)) {
            case 0: Cudd_bddSetPsVar(m, i); break;
            case 1: Cudd_bddSetNsVar(m, i); break;
            case 2: Cudd_bddSetPiVar(m, i); break;
            case 3: Cudd_bddSetPairIndex(m, i, rnd(m->size)); break;
            case 4: Cudd_bddSetVarToBeGrouped(m, i); break;
            case 5: if (chance(50)) Cudd_bddSetVarToBeUngrouped(m, i); else Cudd_bddResetVarToBeGrouped(m, i); break;
        }
    } break;
    }
    if (m->nextDyn < 20) m->nextDyn = 20;
    if (getenv("TRACE")) fprintf(stderr, "  autodyn %d %d Z %d %d gc %d groups %d growth %g %g cycle %d siftmax %d swap %d pop %d xov %d random %d mem %zu lin %d align %d\n", m->autoDyn, m->autoMethod, m->autoDynZ, m->autoMethodZ, m->gcEnabled, m->groupcheck, m->maxGrowth, m->maxGrowthAlt, m->reordCycle, m->siftMaxVar, m->siftMaxSwap, m->populationSize, m->numberXovers, m->randomizeOrder, m->memused, linearAllowed, realign);
}
static void align() {
    if (groups.size() || m->tree || m->treeZ || linearAllowed) return;
    if (realign) { realign = false; Cudd_zddRealignDisable(m); Cudd_bddRealignDisable(m); return; }
    if (m->sizeZ > m->size) return;
    reordering("variables of zero-suppressed diagrams from those of Boolean ones", [&] { REQUIRE(Cudd_zddVarsFromBddVars(m, 1) == 1, "failed"); return false; });
    realign = true;
    Cudd_zddRealignEnable(m);
    Cudd_bddRealignEnable(m);
}

/* Another method after a linear transformation (known finding; the random histories do not do that). The variables ZGROUPS and
   EXACTUNUSED allow the two other combinations with known findings. */
static int fixedLinear() {
    seedRng(7);
    for (int trial = 0; trial < 200; trial++) {
        m = Cudd_Init(9, 0, 32, 512, 0);
        std::vector<DdNode *> fs;
        currentOp = "fixed-linear";
        for (int k = 0; k < 5; k++) {
            DdNode *r = Cudd_ReadLogicZero(m);
            Cudd_Ref(r);
            for (int c = 0; c < 5; c++) {
                DdNode *cube = Cudd_ReadOne(m), *t;
                Cudd_Ref(cube);
                for (int j = 0; j < 4; j++) { t = Cudd_bddAnd(m, cube, Cudd_NotCond(Cudd_bddIthVar(m, rnd(9)), chance(50))); Cudd_Ref(t); Cudd_RecursiveDeref(m, cube); cube = t; }
                t = Cudd_bddXor(m, r, cube);
                Cudd_Ref(t);
                Cudd_RecursiveDeref(m, r); Cudd_RecursiveDeref(m, cube);
                r = t;
            }
            fs.push_back(r);
        }
        REQUIRE(Cudd_ReduceHeap(m, CUDD_REORDER_LINEAR_CONVERGE, 0), "failed");
        for (int i = 0; i < 14; i++) REQUIRE(Cudd_ReduceHeap(m, METHODS[i], 0), "method %d fails after a linear transformation (error code %d)", (int)METHODS[i], (int)Cudd_ReadErrorCode(m));
        for (DdNode *f : fs) Cudd_RecursiveDeref(m, f);
        Cudd_Quit(m);
    }
    finish(0);
    return 0;
}

int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (argc > 1 && !strcmp(argv[1], "fixed-linear")) { initTT(); return fixedLinear(); }
    unsigned long long seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    long steps = argc > 2 ? atol(argv[2]) : 1000;
    paranoid = getenv("PARANOID") != NULL;
    seedRng(seed);
    initTT();
    currentOp = "start";
    int nv = 3 + rnd(NV - 3);
    m = newManager(nv, chance(40) ? nv : 0);
    linearAllowed = chance(25);
    lazy = chance(30);
    zddAuto = chance(50);
    bool abandon = chance(70);
    makeCalls();
    other = Cudd_Init(NV, 0, 16, 64, 0);
    cuddGarbageCollect(m, 1);
    baseConst = constantRefs();
    refs();
    { Tab t(NA); for (int i = 0; i < m->size; i++) { for (int a = 0; a < NA; a++) t[a] = a >> i & 1; hold(BDD, Cudd_bddIthVar(m, i), t); } }
    for (step = 0; step < steps; step++) {
        while (pool.size() > 26) { size_t i = rnd(pool.size()); if (pool[i].k == BDD || chance(50)) { int nb = 0; for (auto &o : pool) nb += o.k == BDD; if (pool[i].k == BDD && nb < 6) continue; dropAt(i); } }
        auto M0 = matrix();
        int x = rnd(100);
        if (getenv("TRACE")) fprintf(stderr, "step %ld after %s: size %d sizeZ %d keys %u\n", step, currentOp.c_str(), m->size, m->sizeZ, m->keys);
        if (x < 50) operation();
        else if (x < 64 && abandon) abandoned();
        else if (x < 70) reorderBdd();
        else if (x < 74) reorderZdd();
        else if (x < 77) shuffle();
        else if (x < 78) newVariable();
        else if (x < 79) newZdd();
        else if (x < 89) parameters();
        else if (x < 92) { currentOp = "groups"; bool z = chance(30) && m->sizeZ && (!zddAuto || getenv("ZGROUPS")); if (!realign) { makeGroup(z); treeHolds(z ? m->treeZ : m->tree, z, NULL); groupsHold(); } }
        else if (x < 93) { currentOp = "groups"; noGroups(chance(30)); }
        else if (x < 94) { currentOp = "tree replaced by its copy"; if (m->tree && !m->treeZ) { MtrNode *t = Mtr_CopyTree(m->tree, 1); REQUIRE(t, "no copy"); byIndex(t); Cudd_SetTree(m, t); treeHolds(m->tree, false, NULL); } }
        else if (x < 95) align();
        else if (x < 97) { currentOp = "collection"; cuddGarbageCollect(m, 1); held(); }
        else if (x < 98) cuddCacheFlush(m);
        else if (x < 99) { for (int k = rnd(10); k && pool.size() > 12; k--) { size_t i = rnd(pool.size()); if (pool[i].k != BDD || i > (size_t)m->size) dropAt(i); } }
        else { currentOp = "checks"; held(); refs(); managerCheck(m); }
        if (m->nextDyn < 20) m->nextDyn = 20;
        if (!(M0 == matrix()) && x < (abandon ? 64 : 50)) fail("unexpected linear transformation");
        if (paranoid) { held(); managerCheck(m); refs(); }
    }
    currentOp = "end";
    held(); managerCheck(m); refs();
    counters["reorderings"] = Cudd_ReadReorderings(m);
    counters["garbage collections"] = Cudd_ReadGarbageCollections(m);
    while (!pool.empty()) dropAt(pool.size() - 1);
    refs();
    managerCheck(m);
    if (!transformed()) REQUIRE(Cudd_CheckZeroRef(m) == 0, "%d nodes are referenced after all references were released", Cudd_CheckZeroRef(m));
    REQUIRE(Cudd_CheckZeroRef(other) == 0, "nodes are referenced in the other manager");
    Cudd_Quit(other);
    Cudd_Quit(m);
    finish(0);
}
