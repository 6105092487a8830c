/* Histories of Boolean diagram operations, each judged on all assignments (C30). usage: bddops seed steps [only-op] */
#include "ddtest.h"

static TL DdManager *m;
static TL int n;                       /* variables at present */
struct F { DdNode *d; TT t; };
static TL std::vector<F> pool;
static TL std::map<std::string, DdNode *> canon;   /* truth table -> node, while the pool holds it */

static unsigned mask() { return (1u << n) - 1; }

static void add(DdNode *d, const TT &t) {       /* d is referenced */
    for (auto &p : pool) if ((p.t == t) != (p.d == d)) fail("two representations of one function or one of two functions: %s %s", str(p.t).c_str(), str(t).c_str());
    pool.push_back({d, t});
}
static void trim() {    /* between operations only: operands stay held while one runs */
    while (pool.size() > 40) {
        size_t k = rnd(pool.size());
        if (chance(30)) Cudd_IterDerefBdd(m, pool[k].d); else Cudd_RecursiveDeref(m, pool[k].d);
        pool[k] = pool.back();
        pool.pop_back();
    }
}
static void is(DdNode *r, const TT &want, bool referenced = false) {   /* r must be the function want */
    REQUIRE(r, "no result (error code %d)", (int)Cudd_ReadErrorCode(m));
    if (!referenced) Cudd_Ref(r);
    TT got = table(m, r);
    REQUIRE(got == want, "result %s, expected %s", str(got).c_str(), str(want).c_str());
    if (chance(10)) { std::set<DdNode *> s; wellFormed(m, r, s); }
    add(r, want);
}
static TT take(DdNode *r, bool referenced = false) {                    /* any function: returns the table, keeps it */
    REQUIRE(r, "no result (error code %d)", (int)Cudd_ReadErrorCode(m));
    if (!referenced) Cudd_Ref(r);
    TT got = table(m, r);
    add(r, got);
    return got;
}
static const F pick() {
    F f = pool[rnd(pool.size())];
    if (chance(30)) return {Cudd_Not(f.d), ~f.t};
    return f;
}
static const F pickNonzero() { for (;;) { F f = pick(); if (f.t.any()) return f; } }
static const F pickNonconst() { for (int i = 0; i < 200; i++) { F f = pick(); if (f.t.any() && !f.t.all()) return f; } return {Cudd_bddIthVar(m, 0), ttVar[0]}; }
static std::vector<int> someVars(int lo, int hi) {
    std::vector<int> v;
    for (int i = 0; i < n; i++) v.push_back(i);
    for (int i = n - 1; i > 0; i--) std::swap(v[i], v[rnd(i + 1)]);
    int k = lo + rnd(std::max(1, std::min(hi, n) - lo + 1));
    v.resize(std::min(k, n));
    return v;
}
static std::vector<DdNode *> nodes(const std::vector<int> &v) { std::vector<DdNode *> r; for (int i : v) r.push_back(Cudd_bddIthVar(m, i)); return r; }
/* a referenced positive cube (mask in *q) */
static DdNode *posCube(unsigned *q) {
    std::vector<int> v = someVars(0, n);
    std::vector<DdNode *> d = nodes(v);
    *q = 0;
    for (int i : v) *q |= 1u << i;
    DdNode *c = Cudd_bddComputeCube(m, d.data(), NULL, d.size());
    REQUIRE(c, "cube");
    Cudd_Ref(c);
    return c;
}
static F litCube() {
    std::vector<int> v = someVars(0, n), p;
    TT t; t.set();
    for (int i : v) { p.push_back(rnd(2)); t &= p.back() ? ttVar[i] : ~ttVar[i]; }
    std::vector<DdNode *> d = nodes(v);
    DdNode *c = Cudd_bddComputeCube(m, d.data(), p.data(), d.size());
    REQUIRE(c, "cube");
    Cudd_Ref(c);
    return {c, t};
}
static void drop(DdNode *d) { Cudd_RecursiveDeref(m, d); }
static bool isCube(const TT &t) { TT c; c.set(); for (int v = 0; v < NV; v++) { if (leq(t, ttVar[v])) c &= ttVar[v]; else if (leq(t, ~ttVar[v])) c &= ~ttVar[v]; } return t.any() && c == t; }
static bool isPrime(const TT &c, const TT &f) {
    if (!isCube(c) || !leq(c, f)) return false;
    for (int v = 0; v < NV; v++) if (depends(c, v) && leq(exist(c, 1u << v), f)) return false;
    return true;
}
static int literals(const TT &c) { int k = 0; for (int v = 0; v < NV; v++) k += depends(c, v); return k; }
static TT cubeOf(const int *a) { TT c; c.set(); for (int v = 0; v < n; v++) { if (a[v] == 1) c &= ttVar[v]; else if (a[v] == 0) c &= ~ttVar[v]; else if (a[v] != 2) fail("literal %d in a cube", a[v]); } return c; }
static double minterms(const TT &t) { return (double)t.count() / (1 << (NV - n)); }
static int bitsOf(const std::vector<int> &x, int a) { int r = 0; for (int v : x) r = 2 * r + (a >> v & 1); return r; }   /* first is most significant */
static TT rel(const std::function<bool(int)> &f) { TT t; for (int a = 0; a < NA; a++) t[a] = f(a); return t; }
static double paths(DdNode *f, bool nonzero, std::map<std::pair<DdNode *, bool>, double> &memo, bool neg = false) {
    if (Cudd_IsComplement(f)) { neg = !neg; f = Cudd_Regular(f); }
    if (f->index == CUDD_CONST_INDEX) return nonzero ? ((f->type.value != 0) != neg) : 1;
    auto k = std::make_pair(f, nonzero && neg);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    return memo[k] = paths(f->type.kids.T, nonzero, memo, neg) + paths(f->type.kids.E, nonzero, memo, neg);
}
static void nodesOf(DdNode *f, std::set<DdNode *> &s) { f = Cudd_Regular(f); if (!s.insert(f).second || f->index == CUDD_CONST_INDEX) return; nodesOf(f->type.kids.T, s); nodesOf(f->type.kids.E, s); }
/* weight of the cheapest path to one */
static int cheapest(DdNode *f, const int *w, bool both, bool neg, std::map<std::pair<DdNode *, bool>, int> &memo) {
    if (Cudd_IsComplement(f)) { neg = !neg; f = Cudd_Regular(f); }
    if (f->index == CUDD_CONST_INDEX) return ((f->type.value != 0) != neg) ? 0 : 1000000;
    auto k = std::make_pair(f, neg);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    int c = w ? w[f->index] : 1;
    return memo[k] = std::min(cheapest(f->type.kids.T, w, both, neg, memo) + c, cheapest(f->type.kids.E, w, both, neg, memo) + (both ? 1 : 0));
}
/* parser for factored forms over names v0..v6 */
struct FF { const char *p; std::string all;
    TT or_() { TT r = and_(); skip(); while (*p == '|' || *p == '+') { p++; r |= and_(); skip(); } return r; }
    TT and_() { TT r = xor_(); skip(); while (*p == '&' || *p == '*') { p++; r &= xor_(); skip(); } return r; }
    TT xor_() { TT r = un(); skip(); while (*p == '^') { p++; r ^= un(); skip(); } return r; }
    void skip() { while (*p == ' ' || *p == '\n') p++; }
    TT un() {
        skip();
        if (*p == '!') { p++; return ~un(); }
        if (*p == '(') { p++; TT r = or_(); skip(); REQUIRE(*p == ')', "factored form %s", all.c_str()); p++; return r; }
        if (*p == 'v') { int k = p[1] - '0'; p += 2; REQUIRE(k >= 0 && k < n, "factored form %s", all.c_str()); return ttVar[k]; }
        if (!strncmp(p, "true", 4)) { p += 4; return ~TT(); }
        if (!strncmp(p, "false", 5)) { p += 5; return TT(); }
        fail("factored form %s at %s", all.c_str(), p);
        return TT();
    }
};
static TT evalFactored(const std::string &s) { FF f; f.all = s; f.p = f.all.c_str(); TT r = f.or_(); f.skip(); REQUIRE(!*f.p, "factored form %s", s.c_str()); return r; }

typedef void (*Op)();
static std::vector<std::pair<const char *, Op>> OPS;
struct Reg { Reg(const char *nm, Op o, int w = 1) { while (w--) OPS.push_back({nm, o}); } };
#define OP(name) static void op_##name(); static Reg reg_##name(#name, op_##name); static void op_##name()
#define BIN(name, expr) OP(name) { F f = pick(), g = pick(); is(Cudd_##name(m, f.d, g.d), expr); }
BIN(bddAnd, f.t & g.t) BIN(bddOr, f.t | g.t) BIN(bddNand, ~(f.t & g.t)) BIN(bddNor, ~(f.t | g.t)) BIN(bddXor, f.t ^ g.t) BIN(bddXnor, ~(f.t ^ g.t))
#define LIM(name, expr) OP(name) { F f = pick(), g = pick(); DdNode *r = Cudd_##name(m, f.d, g.d, rnd(30)); if (r) is(r, expr); else counters["limit reached"]++; }
LIM(bddAndLimit, f.t & g.t) LIM(bddOrLimit, f.t | g.t) LIM(bddXnorLimit, ~(f.t ^ g.t))
OP(bddIte) { F f = pick(), g = pick(), h = pick(); is(Cudd_bddIte(m, f.d, g.d, h.d), (f.t & g.t) | (~f.t & h.t)); }
OP(bddIteLimit) { F f = pick(), g = pick(), h = pick(); DdNode *r = Cudd_bddIteLimit(m, f.d, g.d, h.d, rnd(30)); if (r) is(r, (f.t & g.t) | (~f.t & h.t)); }
OP(bddIteConstant) {
    F f = pick(), g = pick(), h = pick();
    if (chance(50)) g = chance(50) ? f : F{Cudd_ReadOne(m), ~TT()};
    DdNode *r = Cudd_bddIteConstant(m, f.d, g.d, h.d);
    TT t = (f.t & g.t) | (~f.t & h.t);
    if (r == DD_NON_CONSTANT) REQUIRE(t.any() && !t.all(), "non-constant reported for %s", str(t).c_str());
    else { counters["constant tests answered"]++; REQUIRE(table(m, r) == t, "constant test wrong for %s", str(t).c_str()); }
}
OP(bddIntersect) { F f = pick(), g = pick(); TT r = take(Cudd_bddIntersect(m, f.d, g.d)); REQUIRE(leq(r, f.t & g.t) && r.any() == (f.t & g.t).any(), "not a witness of the intersection"); }
OP(bddLeq) { F f = pick(), g = pick(); if (chance(50)) { op_bddAnd(); g = f; f = pool[rnd(pool.size())]; } REQUIRE(!!Cudd_bddLeq(m, f.d, g.d) == leq(f.t, g.t), "%s <= %s", str(f.t).c_str(), str(g.t).c_str()); }
OP(bddLeqUnless) { F f = pick(), g = pick(), d = pick(); REQUIRE(!!Cudd_bddLeqUnless(m, f.d, g.d, d.d) == leq(f.t & ~d.t, g.t), "wrong"); }
OP(EquivDC) {
    F f = pick(), g = pick(), d = pick();
    if (chance(50)) {
        g.t = f.t ^ (d.t & g.t); DdNode *x = Cudd_bddAnd(m, d.d, g.d); Cudd_Ref(x); g.d = Cudd_bddXor(m, f.d, x); Cudd_Ref(g.d); g.t = table(m, g.d); drop(x);
        bool r = Cudd_EquivDC(m, f.d, g.d, d.d);
        drop(g.d);
        REQUIRE(r, "functions that agree outside of the don't cares");
    } else REQUIRE(!!Cudd_EquivDC(m, f.d, g.d, d.d) == ((f.t & ~d.t) == (g.t & ~d.t)), "wrong");
}
OP(bddExistAbstract) { F f = pick(); unsigned q; DdNode *c = posCube(&q); DdNode *r = Cudd_bddExistAbstract(m, f.d, c); is(r, exist(f.t, q)); drop(c); }
OP(bddExistAbstractLimit) { F f = pick(); unsigned q; DdNode *c = posCube(&q); DdNode *r = Cudd_bddExistAbstractLimit(m, f.d, c, rnd(30)); if (r) is(r, exist(f.t, q)); drop(c); }
OP(bddUnivAbstract) { F f = pick(); unsigned q; DdNode *c = posCube(&q); DdNode *r = Cudd_bddUnivAbstract(m, f.d, c); is(r, univ(f.t, q)); drop(c); }
OP(bddAndAbstract) { F f = pick(), g = pick(); unsigned q; DdNode *c = posCube(&q); is(Cudd_bddAndAbstract(m, f.d, g.d, c), exist(f.t & g.t, q)); drop(c); }
OP(bddAndAbstractLimit) { F f = pick(), g = pick(); unsigned q; DdNode *c = posCube(&q); DdNode *r = Cudd_bddAndAbstractLimit(m, f.d, g.d, c, rnd(30)); if (r) is(r, exist(f.t & g.t, q)); drop(c); }
OP(bddXorExistAbstract) { F f = pick(), g = pick(); unsigned q; DdNode *c = posCube(&q); is(Cudd_bddXorExistAbstract(m, f.d, g.d, c), exist(f.t ^ g.t, q)); drop(c); }
OP(bddBooleanDiff) { F f = pick(); int v = rnd(n); is(Cudd_bddBooleanDiff(m, f.d, v), cof(f.t, v, 0) ^ cof(f.t, v, 1)); }
OP(bddVarIsDependent) { F f = pick(); int v = rnd(n); bool r = Cudd_bddVarIsDependent(m, f.d, Cudd_bddIthVar(m, v)); REQUIRE(r == (cof(f.t, v, 0) & cof(f.t, v, 1)).none(), "variable %d of %s", v, str(f.t).c_str()); }
OP(bddCorrelation) {
    F f = pick(), g = pick();
    double r = Cudd_bddCorrelation(m, f.d, g.d), w = (double)(~(f.t ^ g.t)).count() / NA;
    REQUIRE(r == w, "%g, expected %g", r, w);
    std::vector<double> p(Cudd_ReadSize(m));
    for (auto &x : p) x = rnd(5) / 4.0;
    r = Cudd_bddCorrelationWeights(m, f.d, g.d, p.data()); w = 0;
    TT e = ~(f.t ^ g.t);
    for (int a = 0; a < (1 << n); a++) if (e[a]) { double q = 1; for (int v = 0; v < n; v++) q *= (a >> v & 1) ? p[v] : 1 - p[v]; w += q; }
    REQUIRE(fabs(r - w) < 1e-9, "%g, expected %g", r, w);
}
OP(bddCompose) { F f = pick(), g = pick(); int v = rnd(n); is(Cudd_bddCompose(m, f.d, g.d, v), compose(f.t, v, g.t)); }
OP(bddVectorCompose) {
    F f = pick(); std::vector<DdNode *> vec; std::vector<TT> tv;
    for (int v = 0; v < n; v++) { F g = chance(50) ? pick() : F{Cudd_bddIthVar(m, v), ttVar[v]}; vec.push_back(g.d); tv.push_back(g.t); }
    TT w = rel([&](int a) { int b = a >> n << n; for (int v = 0; v < n; v++) b |= tv[v][a] << v; return f.t[b]; });
    is(Cudd_bddVectorCompose(m, f.d, vec.data()), w);
}
OP(bddPermute) {
    F f = pick(); std::vector<int> p = someVars(n, n);
    TT w = rel([&](int a) { int b = a >> n << n; for (int v = 0; v < n; v++) b |= (a >> p[v] & 1) << v; return f.t[b]; });
    is(Cudd_bddPermute(m, f.d, p.data()), w);
}
static TT swapped(const TT &t, const std::vector<int> &x, const std::vector<int> &y) {
    return rel([&](int a) { int b = a; for (size_t i = 0; i < x.size(); i++) { b = (b & ~(1 << x[i]) & ~(1 << y[i])) | (a >> x[i] & 1) << y[i] | (a >> y[i] & 1) << x[i]; } return t[b]; });
}
static void pairs(std::vector<int> &x, std::vector<int> &y, int k = -1) { std::vector<int> v = someVars(n, n); if (k < 0) k = rnd(n / 2 + 1); x.assign(v.begin(), v.begin() + k); y.assign(v.begin() + k, v.begin() + 2 * k); }
OP(bddSwapVariables) { F f = pick(); std::vector<int> x, y; pairs(x, y); auto a = nodes(x), b = nodes(y); is(Cudd_bddSwapVariables(m, f.d, a.data(), b.data(), x.size()), swapped(f.t, x, y)); }
OP(bddVarMap) {
    static TL std::vector<int> x, y; static TL int atN = -1;
    if (atN != n || chance(50)) { pairs(x, y); auto a = nodes(x), b = nodes(y); REQUIRE(Cudd_SetVarMap(m, a.data(), b.data(), x.size()), "SetVarMap"); atN = n; }
    for (int k = 0; k < 2; k++) { F f = pick(); is(Cudd_bddVarMap(m, f.d), swapped(f.t, x, y)); }
}
OP(bddAdjPermuteX) {
    F f = pick(); std::vector<int> v = someVars(2, n); if (v.size() % 2) v.pop_back();
    /* the variables are exchanged in adjacent pairs */
    std::vector<int> x, y; for (size_t i = 0; i + 1 < v.size(); i += 2) { x.push_back(v[i]); y.push_back(v[i + 1]); }
    auto a = nodes(v);
    DdNode *r = Cudd_bddAdjPermuteX(m, f.d, a.data(), v.size());
    (void)take(r);
}
OP(Cofactor) {
    F f = pick(), c = litCube();
    TT w = rel([&](int a) { int b = a; for (int v = 0; v < NV; v++) if (depends(c.t, v)) { b &= ~(1 << v); if (leq(c.t, ttVar[v])) b |= 1 << v; } return f.t[b]; });
    is(Cudd_Cofactor(m, f.d, c.d), w); drop(c.d);
}
OP(CheckCube) { F f = chance(50) ? pick() : F{0, TT()}; DdNode *own = 0; if (!f.d) { f = litCube(); own = f.d; } bool r = Cudd_CheckCube(m, f.d); if (own) drop(own); REQUIRE(r == isCube(f.t), "%s", str(f.t).c_str()); }
OP(VarsAreSymmetric) {
    F f = pick(); int a = rnd(n), b = rnd(n);
    if (chance(50) && a != b) { DdNode *x = Cudd_bddIthVar(m, a), *y = Cudd_bddIthVar(m, b); DdNode *s = Cudd_bddSwapVariables(m, f.d, &x, &y, 1); Cudd_Ref(s); TT t = f.t | swapped(f.t, {a}, {b}); DdNode *u = Cudd_bddOr(m, f.d, s); is(u, t); f = {u, t}; Cudd_Ref(u); drop(s); bool r = Cudd_VarsAreSymmetric(m, f.d, a, b); drop(u); REQUIRE(r, "symmetric variables %d %d of %s", a, b, str(t).c_str()); return; }
    bool want = a == b || swapped(f.t, {a}, {b}) == f.t;
    REQUIRE(!!Cudd_VarsAreSymmetric(m, f.d, a, b) == want, "variables %d %d of %s: expected %d", a, b, str(f.t).c_str(), want);
}
OP(FindEssential) {
    F f = pickNonzero(); if (chance(50)) { F c = litCube(); DdNode *r = Cudd_bddAnd(m, f.d, c.d); is(r, f.t & c.t); drop(c.d); f = pool.back(); if (f.t.none()) return; }
    TT w; w.set();
    for (int v = 0; v < n; v++) { if (leq(f.t, ttVar[v])) w &= ttVar[v]; if (leq(f.t, ~ttVar[v])) w &= ~ttVar[v]; }
    int v = rnd(n), ph = rnd(2);
    bool e = Cudd_bddIsVarEssential(m, f.d, v, ph);
    REQUIRE(e == leq(f.t, ph ? ttVar[v] : ~ttVar[v]), "essential test");
    is(Cudd_FindEssential(m, f.d), w);
}
OP(FindTwoLiteralClauses) {
    F f = pickNonconst();
    if (chance(60)) { TT t = f.t; DdNode *d = f.d; Cudd_Ref(d); for (int k = rnd(3); k >= 0; k--) { int a = rnd(n), b = rnd(n), p = rnd(2), q = rnd(2); DdNode *c = Cudd_bddOr(m, Cudd_NotCond(Cudd_bddIthVar(m, a), p), Cudd_NotCond(Cudd_bddIthVar(m, b), q)); Cudd_Ref(c); DdNode *e = Cudd_bddAnd(m, d, c); Cudd_Ref(e); drop(c); drop(d); d = e; t &= (p ? ~ttVar[a] : ttVar[a]) | (q ? ~ttVar[b] : ttVar[b]); } is(d, t, true); f = {d, t}; Cudd_Ref(d); }
    else Cudd_Ref(f.d);
    if (f.t.none() || f.t.all()) { drop(f.d); return; }
    DdTlcInfo *t = Cudd_FindTwoLiteralClauses(m, f.d);
    REQUIRE(t, "no result");
    unsigned v1, v2; int p1, p2; TT all; all.set(); int k = 0;
    for (; Cudd_ReadIthClause(t, k, &v1, &v2, &p1, &p2); k++) {
        TT c;
        REQUIRE((int)v1 < n, "clause variable %u", v1);
        c = p1 ? ~ttVar[v1] : ttVar[v1];
        if (v2 != CUDD_MAXINDEX) { REQUIRE((int)v2 < n, "clause variable %u", v2); c |= p2 ? ~ttVar[v2] : ttVar[v2]; }
        REQUIRE(leq(f.t, c), "clause %u/%d %u/%d is not implied by %s", v1, p1, v2, p2, str(f.t).c_str());
        all &= c;
    }
    Cudd_tlcInfoFree(t);
    bool identity = true;   /* other orders: known finding, see fixed_clauses() */
    for (int v = 0; v < n; v++) identity &= Cudd_ReadPerm(m, v) == v;
    counters[identity ? "clauses in index order" : "clauses in another order"]++;
    if (identity) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) {
        TT c = (p ? ~ttVar[a] : ttVar[a]) | (q ? ~ttVar[b] : ttVar[b]);
        if (!c.all() && leq(f.t, c) && depends(f.t, a) && depends(f.t, b)) REQUIRE(leq(all, c), "clause %d/%d %d/%d implied by %s is missing (%d found)", a, p, b, q, str(f.t).c_str(), k);
    }
    drop(f.d);
}
#define AGREE(name) OP(name) { F f = pick(), c = pickNonzero(); TT r = take(Cudd_##name(m, f.d, c.d)); REQUIRE((r & c.t) == (f.t & c.t), "%s differs from %s where %s", str(r).c_str(), str(f.t).c_str(), str(c.t).c_str()); }
AGREE(bddLICompaction) AGREE(bddMinimize)
OP(bddRestrict) {
    F f = pick(), c = pickNonzero();
    DdNode *d = Cudd_bddRestrict(m, f.d, c.d);
    REQUIRE(d, "no result"); Cudd_Ref(d);
    int a = Cudd_DagSize(d), b = Cudd_DagSize(f.d);
    TT r = take(d, true);
    REQUIRE((r & c.t) == (f.t & c.t), "differs on the care set");
    REQUIRE(a <= b, "result larger than the function");
    REQUIRE((supp(r) & ~supp(f.t)) == 0, "new variables");
}
OP(bddConstrain) {
    F f = pick(), c = pickNonzero();
    std::vector<int> lev; for (int i = 0; i < n; i++) lev.push_back(Cudd_ReadInvPerm(m, i));
    bool dyn = m->autoDyn; m->autoDyn = 0;
    DdNode *d = Cudd_bddConstrain(m, f.d, c.d);
    m->autoDyn = dyn;
    TT r = take(d);
    for (int a = 0; a < (1 << n); a++) {      /* the value is that at the closest care point, the top variables weighing most */
        int best = -1; long bd = -1;
        for (int b = 0; b < (1 << n); b++) if (c.t[b]) { long dist = 0; for (int i = 0; i < n; i++) dist = 2 * dist + ((a >> lev[i] & 1) != (b >> lev[i] & 1)); if (best < 0 || dist < bd) { best = b; bd = dist; } }
        REQUIRE(r[a] == f.t[best], "value at %d is not that of the closest care point %d", a, best);
    }
}
OP(bddNPAnd) { F f = pick(), c = pick(); TT r = take(Cudd_bddNPAnd(m, f.d, c.d)); REQUIRE(leq(f.t & c.t, r) && leq(r, f.t) && !(supp(r) & ~supp(f.t)), "f %s c %s result %s", str(f.t).c_str(), str(c.t).c_str(), str(r).c_str()); }
/* interval operations: l <= u */
static void interval(F &l, F &u) { F f = pick(), g = pick(); DdNode *a = Cudd_bddAnd(m, f.d, g.d); is(a, f.t & g.t); l = pool.back(); for (auto &p : pool) if (p.d == a) l = p; Cudd_Ref(l.d); u = f; Cudd_Ref(u.d); }
OP(bddSqueeze) { F l, u; interval(l, u); TT r = take(Cudd_bddSqueeze(m, l.d, u.d)); REQUIRE(leq(l.t, r) && leq(r, u.t), "outside of the interval"); drop(l.d); drop(u.d); }
OP(bddInterpolate) {
    F l, u; interval(l, u);
    TT r = take(Cudd_bddInterpolate(m, l.d, u.d));
    REQUIRE(leq(l.t, r) && leq(r, u.t), "outside of the interval");
    REQUIRE(!(supp(r) & ~(supp(l.t) & supp(u.t))), "depends on a variable that is not common");
    drop(l.d); drop(u.d);
}
OP(bddIsop) { F l, u; interval(l, u); TT r = take(Cudd_bddIsop(m, l.d, u.d)); REQUIRE(leq(l.t, r) && leq(r, u.t), "outside of the interval"); drop(l.d); drop(u.d); }
OP(FirstPrime) {
    F l, u; interval(l, u);
    int *c; DdGen *g; TT all; int k = 0;
    g = Cudd_FirstPrime(m, l.d, u.d, &c);
    REQUIRE(g, "no generator");
    std::vector<TT> cs;
    while (!Cudd_IsGenEmpty(g)) {
        TT t = cubeOf(c);
        REQUIRE(isPrime(t, u.t), "cube is not a prime");
        all |= t; cs.push_back(t);
        REQUIRE(++k <= 200, "enumeration does not end");
        if (!Cudd_NextPrime(g, &c)) break;
    }
    Cudd_GenFree(g);
    REQUIRE(leq(l.t, all), "cover incomplete");
    TT before; for (auto &t : cs) { REQUIRE(!leq(l.t & t, before), "a prime adds nothing to the cover"); before |= t; }
    drop(l.d); drop(u.d);
}
OP(FirstCube) {
    F f = pick(); int *c; CUDD_VALUE_TYPE val; TT all; int k = 0;
    DdGen *g = Cudd_FirstCube(m, f.d, &c, &val);
    REQUIRE(g, "no generator");
    while (!Cudd_IsGenEmpty(g)) {
        TT t = cubeOf(c);
        REQUIRE((all & t).none() && leq(t, f.t), "cubes overlap or leave the function");
        REQUIRE(val == 1.0, "value %g", val);
        all |= t; REQUIRE(++k <= 400, "enumeration does not end");
        if (!Cudd_NextCube(g, &c, &val)) break;
    }
    Cudd_GenFree(g);
    REQUIRE(all == f.t, "cubes do not cover the function");
}
OP(FirstNode) {
    F f = pick(); DdNode *d; std::set<DdNode *> want, got; nodesOf(f.d, want);
    DdGen *g = Cudd_FirstNode(m, f.d, &d);
    REQUIRE(g, "no generator");
    while (!Cudd_IsGenEmpty(g)) {
        REQUIRE(!Cudd_IsComplement(d), "complemented node");
        for (DdNode *k : {d->type.kids.T, d->type.kids.E}) if (d->index != CUDD_CONST_INDEX) REQUIRE(got.count(Cudd_Regular(k)), "parent before its children");
        REQUIRE(got.insert(d).second, "node twice");
        if (!Cudd_NextNode(g, &d)) break;
    }
    Cudd_GenFree(g);
    REQUIRE(got == want, "%zu nodes, expected %zu", got.size(), want.size());
}
OP(counts) {
    F f = pick(), g = pick();
    std::set<DdNode *> s, s2; nodesOf(f.d, s);
    REQUIRE(Cudd_DagSize(f.d) == (int)s.size(), "size");
    s2 = s; nodesOf(g.d, s2);
    DdNode *arr[2] = {f.d, g.d};
    REQUIRE(Cudd_SharingSize(arr, 2) == (int)s2.size(), "sharing size");
    int extra = rnd(3);
    double want = minterms(f.t) * (1 << extra);
    double got = Cudd_CountMinterm(m, f.d, n + extra);
    REQUIRE(got == want, "minterms %g, expected %g", got, want);
    REQUIRE((double)Cudd_LdblCountMinterm(m, f.d, n + extra) == want, "long double minterms");
    EpDouble e; char buf[64];
    Cudd_EpdCountMinterm(m, f.d, n + extra, &e);
    double val; int ex; EpdGetValueAndDecimalExponent(&e, &val, &ex);
    REQUIRE(fabs(val * pow(10, ex) - want) <= 1e-9 * want, "extended minterms %g e %d, expected %g", val, ex, want);
    (void)buf;
    int digits; DdApaNumber a = Cudd_ApaCountMinterm(m, f.d, n + extra, &digits);
    REQUIRE(a, "no result");
    char *d = Cudd_ApaStringDecimal(digits, a);
    REQUIRE(d && atof(d) == want, "exact minterms %s, expected %g", d, want);
    free(d); Cudd_FreeApaNumber(a);
    std::map<std::pair<DdNode *, bool>, double> mm, mm2;
    REQUIRE(Cudd_CountPath(f.d) == paths(f.d, false, mm), "paths");
    REQUIRE(Cudd_CountPathsToNonZero(f.d) == paths(f.d, true, mm2), "paths to one");
    int leaves = 1;
    REQUIRE(Cudd_CountLeaves(f.d) == leaves, "leaves");
    double den = Cudd_Density(m, f.d, n);
    REQUIRE(den == minterms(f.t) / s.size(), "density");
    double *cm = Cudd_CofMinterm(m, f.d);
    REQUIRE(cm, "no result");
    for (int v = 0; v < n; v++) { double w = (double)cof(f.t, v, 1).count() / NA; REQUIRE(fabs(cm[v] - w) < 1e-9, "positive cofactor %d: %g, expected %g", v, cm[v], w); }
    REQUIRE(fabs(cm[n] - (double)f.t.count() / NA) < 1e-9, "fraction");
    free(cm);
}
OP(Support) {
    F f = pick(), g = pick(); unsigned w = supp(f.t), x = supp(g.t); int *idx;
    int k = Cudd_SupportIndices(m, f.d, &idx); unsigned got = 0;
    REQUIRE(k >= 0, "failed"); for (int i = 0; i < k; i++) got |= 1u << idx[i];
    free(idx);
    REQUIRE(got == w && k == __builtin_popcount(w), "support indices");
    int *arr = Cudd_SupportIndex(m, f.d); got = 0; for (int i = 0; i < n; i++) got |= arr[i] << i; free(arr);
    REQUIRE(got == w, "support index");
    REQUIRE(Cudd_SupportSize(m, f.d) == __builtin_popcount(w), "support size");
    DdNode *v[3] = {f.d, g.d, f.d};
    int cnt = 1 + rnd(3); unsigned u = cnt > 1 ? w | x : w;
    REQUIRE(Cudd_VectorSupportSize(m, v, cnt) == __builtin_popcount(u), "vector support size");
    k = Cudd_VectorSupportIndices(m, v, cnt, &idx); got = 0; for (int i = 0; i < k; i++) got |= 1u << idx[i]; free(idx);
    REQUIRE(got == u, "vector support indices");
    arr = Cudd_VectorSupportIndex(m, v, cnt); got = 0; for (int i = 0; i < n; i++) got |= arr[i] << i; free(arr);
    REQUIRE(got == u, "vector support index");
    auto cube = [&](unsigned q) { TT t; t.set(); for (int i = 0; i < n; i++) if (q >> i & 1) t &= ttVar[i]; return t; };
    DdNode *c, *o1, *o2;
    int ok = Cudd_ClassifySupport(m, f.d, g.d, &c, &o1, &o2);
    REQUIRE(ok, "classify"); Cudd_Ref(c); Cudd_Ref(o1); Cudd_Ref(o2);
    is(c, cube(w & x), true); is(o1, cube(w & ~x), true); is(o2, cube(x & ~w), true);
    DdNode *vs = Cudd_VectorSupport(m, v, 1); is(vs, cube(w));
    F h = pick(); is(Cudd_Support(m, h.d), cube(supp(h.t)));
}
OP(bddPickOneCube) {
    F f = pickNonzero(); std::vector<char> s(n);
    REQUIRE(Cudd_bddPickOneCube(m, f.d, s.data()) == 1, "failed");
    int a[NV]; for (int i = 0; i < n; i++) a[i] = s[i];
    REQUIRE(leq(cubeOf(a), f.t), "cube outside");
}
static std::vector<int> withSupport(const TT &t) { std::vector<int> v; unsigned s = supp(t); for (int i : someVars(n, n)) if ((s >> i & 1) || chance(40)) v.push_back(i); if (v.empty()) v.push_back(0); return v; }
static bool isMinterm(const TT &t, const std::vector<int> &v) { unsigned q = 0; for (int i : v) q |= 1u << i; return isCube(t) && supp(t) == q; }
OP(bddPickOneMinterm) { F f = pickNonzero(); auto v = withSupport(f.t); auto d = nodes(v); TT r = take(Cudd_bddPickOneMinterm(m, f.d, d.data(), d.size())); REQUIRE(leq(r, f.t) && isMinterm(r, v), "not a minterm of the function"); }
OP(bddPickArbitraryMinterms) {
    F f = pickNonzero(); auto v = withSupport(f.t); auto d = nodes(v);
    int total = (int)(f.t.count() >> (NV - v.size())), k = 1 + rnd(total);
    DdNode **r = Cudd_bddPickArbitraryMinterms(m, f.d, d.data(), d.size(), k);
    REQUIRE(r, "failed with %d of %d", k, total);
    std::set<std::string> seen;
    for (int i = 0; i < k; i++) Cudd_Ref(r[i]);
    for (int i = 0; i < k; i++) { TT t = take(r[i], true); REQUIRE(leq(t, f.t) && isMinterm(t, v), "not a minterm"); REQUIRE(seen.insert(str(t)).second, "minterm twice"); }
    free(r);
}
OP(SubsetWithMaskVars) { F f = pickNonzero(); auto v = withSupport(f.t); auto k = someVars(1, n); auto d = nodes(v), e = nodes(k); TT r = take(Cudd_SubsetWithMaskVars(m, f.d, d.data(), d.size(), e.data(), e.size())); REQUIRE(leq(r, f.t) && r.any(), "not a nonempty subset"); }
OP(cubes) {
    F c = litCube(); int a[NV];
    REQUIRE(Cudd_BddToCubeArray(m, c.d, a) == 1, "BddToCubeArray");
    REQUIRE(cubeOf(a) == c.t, "cube array");
    DdNode *r = Cudd_CubeArrayToBdd(m, a); is(r, c.t); drop(c.d);
    F f = pick(); if (!isCube(f.t)) REQUIRE(Cudd_BddToCubeArray(m, f.d, a) == 0, "a non-cube accepted");
    auto v = someVars(0, n); TT t; t.set(); for (int i : v) t &= ttVar[i];
    is(Cudd_IndicesToCube(m, v.data(), v.size()), t);
}
OP(Eval) { F f = pick(); int a = rnd(1 << n), in[NV]; for (int v = 0; v < n; v++) in[v] = a >> v & 1; DdNode *r = Cudd_Eval(m, f.d, in); REQUIRE((r == Cudd_ReadOne(m)) == f.t[a] && (r == Cudd_ReadLogicZero(m)) == !f.t[a], "value"); }
OP(ShortestPath) {
    F f = pickNonzero(); int w[NV], sup[NV], len = -1; for (auto &x : w) x = rnd(6); bool unit = chance(30);
    std::map<std::pair<DdNode *, bool>, int> memo;
    int want = cheapest(f.d, unit ? NULL : w, false, false, memo);
    REQUIRE(Cudd_ShortestLength(m, f.d, unit ? NULL : w) == want, "shortest length");
    bool dyn = m->autoDyn; m->autoDyn = 0;
    DdNode *d = Cudd_ShortestPath(m, f.d, unit ? NULL : w, sup, &len);
    m->autoDyn = dyn;
    TT r = take(d); unsigned got = 0; for (int i = 0; i < n; i++) got |= (sup[i] != 0) << i;
    REQUIRE(len == want, "length %d, expected %d", len, want);
    REQUIRE(got == supp(f.t), "support");
    REQUIRE(isCube(r) && leq(r, f.t), "not an implicant");
    int cost = 0; for (int v = 0; v < n; v++) if (leq(r, ttVar[v])) cost += unit ? 1 : w[v];
    REQUIRE(cost == want, "cost of the path %d, expected %d", cost, want);
}
OP(LargestCube) {
    F f = pickNonzero(); int len = -1; std::map<std::pair<DdNode *, bool>, int> memo; int want = cheapest(f.d, NULL, true, false, memo);
    bool dyn = m->autoDyn; m->autoDyn = 0;
    DdNode *d = Cudd_LargestCube(m, f.d, &len);
    m->autoDyn = dyn;
    TT r = take(d);
    REQUIRE(isCube(r) && leq(r, f.t), "not an implicant");
    REQUIRE(len == want && literals(r) == want, "length %d, literals %d, expected %d", len, literals(r), want);
}
OP(unate) {
    F f = pick(); int v = rnd(n);
    if (chance(40)) { F g = pick(); DdNode *x = Cudd_bddAnd(m, g.d, Cudd_bddIthVar(m, v)); Cudd_Ref(x); DdNode *y = Cudd_bddOr(m, f.d, x); is(y, f.t | (g.t & ttVar[v])); drop(x); f = pool.back(); }
    REQUIRE((Cudd_Increasing(m, f.d, v) == Cudd_ReadOne(m)) == leq(cof(f.t, v, 0), cof(f.t, v, 1)), "increasing");
    REQUIRE((Cudd_Decreasing(m, f.d, v) == Cudd_ReadOne(m)) == leq(cof(f.t, v, 1), cof(f.t, v, 0)), "decreasing");
}
OP(bddMakePrime) {
    F f = pickNonzero(); std::vector<int> all; for (int i = 0; i < n; i++) all.push_back(i); auto d = nodes(all);
    DdNode *c = Cudd_bddPickOneMinterm(m, f.d, d.data(), n); REQUIRE(c, "minterm"); Cudd_Ref(c); TT ct = table(m, c);
    TT r = take(Cudd_bddMakePrime(m, c, f.d));
    REQUIRE(isPrime(r, f.t) && leq(ct, r), "not a prime that contains the cube");
    drop(c);
}
OP(bddMaximallyExpand) {
    F u = litCube(), f = pick();      /* bounds: lb a cube contained in ub */
    F l = litCube();
    TT lb = l.t & u.t;
    if (lb.none()) { drop(u.d); drop(l.d); return; }
    DdNode *b = Cudd_bddAnd(m, l.d, u.d); Cudd_Ref(b);
    TT bound = f.t & u.t;
    /* all primes of f & ub containing lb */
    TT want;
    if (leq(lb, f.t)) {
        std::vector<int> lits; for (int v = 0; v < n; v++) if (depends(lb, v)) lits.push_back(v);
        for (unsigned q = 0; q < 1u << lits.size(); q++) { unsigned rem = 0; for (size_t i = 0; i < lits.size(); i++) if (q >> i & 1) rem |= 1u << lits[i]; TT c = exist(lb, rem); if (isPrime(c, bound)) want |= c; }
    }
    is(Cudd_bddMaximallyExpand(m, b, u.d, f.d), want);
    drop(b); drop(u.d); drop(l.d);
}
OP(bddLargestPrimeUnate) {
    F f = pick(); TT t = f.t; DdNode *d = f.d; Cudd_Ref(d); TT ph; ph.set(); DdNode *pc = Cudd_ReadOne(m); Cudd_Ref(pc);
    for (int v = 0; v < n; v++) {      /* make it unate in every variable */
        bool pos = rnd(2); DdNode *x = Cudd_NotCond(Cudd_bddIthVar(m, v), !pos), *c = Cudd_Cofactor(m, d, Cudd_Not(x)); Cudd_Ref(c);
        DdNode *y = Cudd_bddOr(m, d, c); Cudd_Ref(y);      /* growing in x: f | f with x false */
        DdNode *z = Cudd_bddIte(m, x, y, c); Cudd_Ref(z); drop(c); drop(y); drop(d); d = z;
        DdNode *p = Cudd_bddAnd(m, pc, x); Cudd_Ref(p); drop(pc); pc = p; ph &= pos ? ttVar[v] : ~ttVar[v];
    }
    t = table(m, d);
    for (int v = 0; v < n; v++) { bool pos = leq(ph, ttVar[v]); REQUIRE(leq(cof(t, v, !pos), cof(t, v, pos)), "construction"); }
    if (t.any()) {
        bool dyn = m->autoDyn; m->autoDyn = 0;
        DdNode *p = Cudd_bddLargestPrimeUnate(m, d, pc);
        m->autoDyn = dyn;
        TT r = take(p);
        REQUIRE(isPrime(r, t), "not a prime of %s: %s", str(t).c_str(), str(r).c_str());
        int best = 99; for (unsigned q = 0; q < 1u << n; q++) { TT c = exist(ph, q); if (leq(c, t)) best = std::min(best, literals(c)); }
        REQUIRE(literals(r) == best, "%d literals, the largest prime has %d", literals(r), best);
    }
    drop(d); drop(pc);
}
OP(bddLiteralSetIntersection) {
    F a = litCube(), b = litCube(); TT w; w.set();
    for (int v = 0; v < n; v++) { if (leq(a.t, ttVar[v]) && leq(b.t, ttVar[v])) w &= ttVar[v]; if (leq(a.t, ~ttVar[v]) && leq(b.t, ~ttVar[v])) w &= ~ttVar[v]; }
    is(Cudd_bddLiteralSetIntersection(m, a.d, b.d), w); drop(a.d); drop(b.d);
}
OP(CProjection) {
    F f = pick(); unsigned q; DdNode *c = posCube(&q);
    TT r = take(Cudd_CProjection(m, f.d, c)); drop(c);
    REQUIRE(leq(r, f.t) && exist(r, q) == exist(f.t, q), "not a projection");
    for (int a = 0; a < (1 << n); a++) if (r[a]) for (int b = a + 1; b < (1 << n); b++) if (r[b]) REQUIRE(((a ^ b) & ~q) != 0, "two choices for one point");
}
OP(bddClosestCube) {
    F f = pickNonzero(), g = pickNonzero(); int dist = -1;
    TT r = take(Cudd_bddClosestCube(m, f.d, g.d, &dist));
    int best = 99; for (int a = 0; a < (1 << n); a++) if (f.t[a]) for (int b = 0; b < (1 << n); b++) if (g.t[b]) best = std::min(best, __builtin_popcount(a ^ b));
    REQUIRE(dist == best, "distance %d, expected %d", dist, best);
    REQUIRE(isCube(r) && leq(r, f.t), "not a cube of f");
    for (int a = 0; a < (1 << n); a++) if (r[a]) { int d = 99; for (int b = 0; b < (1 << n); b++) if (g.t[b]) d = std::min(d, __builtin_popcount(a ^ b)); REQUIRE(d == best, "a minterm at distance %d, minimum %d", d, best); }
}
OP(MinHammingDist) {
    F f = pickNonzero(); int a = rnd(1 << n), in[NV], up = chance(50) ? n + 1 : (int)rnd(n + 2), best = 99; for (int v = 0; v < n; v++) in[v] = a >> v & 1;
    for (int b = 0; b < (1 << n); b++) if (f.t[b]) best = std::min(best, __builtin_popcount(a ^ b));
    int r = Cudd_MinHammingDist(m, f.d, in, up);
    REQUIRE(r == std::min(best, up), "%d, expected %d bounded by %d", r, best, up);
}
OP(relations) {
    int k; std::vector<int> v = someVars(n, n), x, y, z;
    k = n / 2; if (!k) return; k = 1 + rnd(k);
    x.assign(v.begin(), v.begin() + k); y.assign(v.begin() + k, v.begin() + 2 * k);
    auto a = nodes(x), b = nodes(y);
    is(Cudd_Xgty(m, k, NULL, a.data(), b.data()), rel([&](int p) { return bitsOf(x, p) > bitsOf(y, p); }));
    is(Cudd_Xeqy(m, k, a.data(), b.data()), rel([&](int p) { return bitsOf(x, p) == bitsOf(y, p); }));
    int c = (int)rnd(2 * (2 << k) + 1) - (2 << k);
    is(Cudd_Inequality(m, k, c, a.data(), b.data()), rel([&](int p) { return bitsOf(x, p) - bitsOf(y, p) >= c; }));
    is(Cudd_Disequality(m, k, c, a.data(), b.data()), rel([&](int p) { return bitsOf(x, p) - bitsOf(y, p) != c; }));
    int lo = rnd(1 << k), hi = rnd(1 << k);
    is(Cudd_bddInterval(m, k, a.data(), lo, hi), rel([&](int p) { return lo <= bitsOf(x, p) && bitsOf(x, p) <= hi; }));
    if (n >= 3) {
        k = 1 + rnd(n / 3); x.assign(v.begin(), v.begin() + k); y.assign(v.begin() + k, v.begin() + 2 * k); z.assign(v.begin() + 2 * k, v.begin() + 3 * k);
        a = nodes(x); b = nodes(y); auto d = nodes(z);
        is(Cudd_Dxygtdxz(m, k, a.data(), b.data(), d.data()), rel([&](int p) { return (bitsOf(x, p) ^ bitsOf(y, p)) > (bitsOf(x, p) ^ bitsOf(z, p)); }));
        is(Cudd_Dxygtdyz(m, k, a.data(), b.data(), d.data()), rel([&](int p) { return (bitsOf(x, p) ^ bitsOf(y, p)) > (bitsOf(y, p) ^ bitsOf(z, p)); }));
        unsigned zs = 0, others = 0; for (int i : z) zs |= 1u << i; for (int i = 0; i < n; i++) others |= 1u << i; for (int i : x) others &= ~(1u << i); for (int i : y) others &= ~(1u << i);
        F f = pick(); DdNode *oc = Cudd_IndicesToCube(m, z.data(), 0); (void)oc; std::vector<int> ov; for (int i = 0; i < n; i++) if (others >> i & 1) ov.push_back(i);
        DdNode *cu = Cudd_IndicesToCube(m, ov.data(), ov.size()); Cudd_Ref(cu); DdNode *R = Cudd_bddExistAbstract(m, f.d, cu); Cudd_Ref(R); drop(cu); TT rt = exist(f.t, others);
        bool second = rnd(2);
        DdNode *p = Cudd_PrioritySelect(m, R, a.data(), b.data(), d.data(), NULL, k, second ? Cudd_Dxygtdyz : Cudd_Dxygtdxz);
        TT w = rel([&](int q) { if (!rt[q]) return false; for (int s = 0; s < 1 << k; s++) { int q2 = q; for (int i = 0; i < k; i++) { q2 &= ~(1 << y[i]); q2 |= (s >> (k - 1 - i) & 1) << y[i]; } if (!rt[q2]) continue; int X = bitsOf(x, q), Y = bitsOf(y, q); if (second ? (X ^ Y) > (Y ^ s) : (X ^ Y) > (X ^ s)) return false; } return true; });
        is(p, w); drop(R); (void)zs;
    }
}
OP(SolveEqn) {
    F f = pick(); std::vector<int> y = someVars(1, n); unsigned q = 0; for (int i : y) q |= 1u << i;
    std::vector<DdNode *> G(y.size()); int *yi = NULL;
    DdNode *Y = Cudd_IndicesToCube(m, y.data(), y.size()); Cudd_Ref(Y);
    DdNode *c = Cudd_SolveEqn(m, f.d, Y, G.data(), &yi, y.size());
    REQUIRE(c, "no result"); Cudd_Ref(c);
    TT ct = univ(f.t, q);
    REQUIRE(table(m, c) == ct, "consistency condition");
    std::vector<TT> gt; std::vector<int> order;
    for (size_t i = 0; i < y.size(); i++) { gt.push_back(table(m, G[i])); order.push_back(yi[i]); REQUIRE(q >> yi[i] & 1, "unknown"); REQUIRE(true, ""); }
    /* substituting the solution into F leaves the consistency condition, for any value of the free parameters */
    DdNode *v = Cudd_VerifySol(m, f.d, G.data(), yi, y.size());
    REQUIRE(v, "no verification"); Cudd_Ref(v);
    REQUIRE(v == c, "verification %s, consistency %s", str(table(m, v)).c_str(), str(ct).c_str());
    drop(v);
    /* the same by truth tables: y_i := G_i in the order in which the library substitutes */
    TT t = f.t; for (size_t i = y.size(); i-- > 0;) t = compose(t, order[i], gt[i]);
    TT t2 = f.t; for (size_t i = 0; i < y.size(); i++) t2 = compose(t2, order[i], gt[i]);
    REQUIRE(t == ct || t2 == ct, "solution does not solve");
    for (auto g : G) drop(g);
    drop(Y); is(c, ct, true);
}
OP(SplitSet) {
    F f = pickNonzero(); auto v = withSupport(f.t); auto d = nodes(v); int total = (int)(f.t.count() >> (NV - v.size())), k = 1 + rnd(total);
    TT r = take(Cudd_SplitSet(m, f.d, d.data(), d.size(), k));
    REQUIRE(leq(r, f.t), "not a subset"); REQUIRE((int)(r.count() >> (NV - v.size())) == k, "%d minterms, expected %d", (int)(r.count() >> (NV - v.size())), k);
}
OP(approximations) {
    F f = pick(), b = pick(); int th = 1 + rnd(12), nv = chance(50) ? n : __builtin_popcount(supp(f.t));
    DdNode *r; bool under = rnd(2); const char *w;
    if (nv == 0) nv = 1;
    switch (rnd(7)) {
    case 0: w = "UnderApprox"; r = under ? Cudd_UnderApprox(m, f.d, nv, th, rnd(2), 0.5 + rnd(3) * 0.5) : Cudd_OverApprox(m, f.d, nv, th, rnd(2), 0.5 + rnd(3) * 0.5); break;
    case 1: w = "RemapUnderApprox"; r = under ? Cudd_RemapUnderApprox(m, f.d, nv, th, 0.5 + rnd(3) * 0.5) : Cudd_RemapOverApprox(m, f.d, nv, th, 0.5 + rnd(3) * 0.5); break;
    case 2: w = "BiasedUnderApprox"; r = under ? Cudd_BiasedUnderApprox(m, f.d, b.d, nv, th, 0.5 + rnd(3) * 0.5, 0.5 + rnd(3) * 0.5) : Cudd_BiasedOverApprox(m, f.d, b.d, nv, th, 0.5 + rnd(3) * 0.5, 0.5 + rnd(3) * 0.5); break;
    case 3: w = "SubsetHeavyBranch"; r = under ? Cudd_SubsetHeavyBranch(m, f.d, nv, th) : Cudd_SupersetHeavyBranch(m, f.d, nv, th); break;
    case 4: { w = "SubsetShortPaths"; int hard = rnd(2); r = under ? Cudd_SubsetShortPaths(m, f.d, nv, th, hard) : Cudd_SupersetShortPaths(m, f.d, nv, th, hard); break; }
    case 5: w = "SubsetCompress"; r = under ? Cudd_SubsetCompress(m, f.d, nv, th) : Cudd_SupersetCompress(m, f.d, nv, th); break;
    default: { w = "ClippingAnd"; int dir = under ? 0 : 1; F g = pick(); int depth = rnd(n + 2);
        if (chance(50)) { r = Cudd_bddClippingAnd(m, f.d, g.d, depth, dir); f.t &= g.t; }
        else { unsigned q; DdNode *c = posCube(&q); r = Cudd_bddClippingAndAbstract(m, f.d, g.d, c, depth, dir); f.t = exist(f.t & g.t, q); if (r) Cudd_Ref(r); drop(c); TT t = take(r, true); REQUIRE(under ? leq(t, f.t) : leq(f.t, t), "ClippingAndAbstract: wrong direction"); return; } }
    }
    counters[std::string("approximation ") + w]++;
    REQUIRE(r, "%s%s: no result (error code %d) for %s threshold %d", w, under ? "" : " (superset)", (int)Cudd_ReadErrorCode(m), str(f.t).c_str(), th);
    TT t = take(r);
    REQUIRE(under ? leq(t, f.t) : leq(f.t, t), "%s: %s of %s is %s", w, under ? "subset" : "superset", str(f.t).c_str(), str(t).c_str());
}
OP(decompositions) {
    F f = pick(); DdNode **a = NULL; int k; bool conj; const char *w;
    switch (rnd(8)) {
    case 0: w = "ApproxConj"; k = Cudd_bddApproxConjDecomp(m, f.d, &a); conj = true; break;
    case 1: w = "ApproxDisj"; k = Cudd_bddApproxDisjDecomp(m, f.d, &a); conj = false; break;
    case 2: w = "IterConj"; k = Cudd_bddIterConjDecomp(m, f.d, &a); conj = true; break;
    case 3: w = "IterDisj"; k = Cudd_bddIterDisjDecomp(m, f.d, &a); conj = false; break;
    case 4: w = "GenConj"; k = Cudd_bddGenConjDecomp(m, f.d, &a); conj = true; break;
    case 5: w = "GenDisj"; k = Cudd_bddGenDisjDecomp(m, f.d, &a); conj = false; break;
    case 6: w = "VarConj"; k = Cudd_bddVarConjDecomp(m, f.d, &a); conj = true; break;
    default: w = "VarDisj"; k = Cudd_bddVarDisjDecomp(m, f.d, &a); conj = false; break;
    }
    counters[std::string("decomposition ") + w]++; currentOp = w;
    REQUIRE(k > 0, "%s failed", w);
    TT t; if (conj) t.set();
    for (int i = 0; i < k; i++) { TT x = take(a[i], true); if (conj) t &= x; else t |= x; }
    free(a);
    REQUIRE(t == f.t, "%s: the parts do not make up the function", w);
}
OP(bddConstrainDecomp) {
    F f = pickNonzero(); bool dyn = m->autoDyn; m->autoDyn = 0;
    DdNode **a = Cudd_bddConstrainDecomp(m, f.d); m->autoDyn = dyn;
    REQUIRE(a, "failed"); TT t; t.set(); int k = 0;
    for (int i = 0; i < n; i++) if (a[i]) { t &= take(a[i], true); k++; }
    free(a);
    if (k) REQUIRE(t == f.t, "the parts do not make up the function"); else REQUIRE(f.t.all() || f.t.none(), "no part");
}
OP(bddCharToVect) {
    F f = pickNonzero(); bool dyn = m->autoDyn; m->autoDyn = 0;
    DdNode **a = Cudd_bddCharToVect(m, f.d);
    REQUIRE(a, "failed"); std::vector<TT> v; TT img;
    std::vector<int> lev; for (int i = 0; i < n; i++) lev.push_back(Cudd_ReadInvPerm(m, i));
    for (int i = 0; i < n; i++) v.push_back(take(a[i], true));
    m->autoDyn = dyn;
    free(a);
    /* entry i belongs to the variable at level i */
    for (int p = 0; p < (1 << n); p++) { int b = 0; for (int i = 0; i < n; i++) b |= v[i][p] << i; img[b] = 1; }
    for (int p = 0; p < (1 << n); p++) REQUIRE(img[p] == f.t[p], "image differs at %d", p);
}
OP(factoredForm) {
    F f = pick(); static const char *names[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6"};
    char *s = Cudd_FactoredFormString(m, f.d, names);
    REQUIRE(s, "failed"); std::string t = s; free(s);
    counters["factored forms"]++;
    REQUIRE(evalFactored(t) == f.t, "factored form %s of %s", t.c_str(), str(f.t).c_str());
}
OP(newVariable) {
    if (n >= NV || chance(90)) return;
    DdNode *d = chance(50) ? Cudd_bddNewVar(m) : Cudd_bddNewVarAtLevel(m, rnd(n + 1));
    n++; counters["variables added"]++;
    REQUIRE(Cudd_ReadSize(m) == n, "number of variables");
    is(d, ttVar[n - 1]);
}
OP(epilogue_random) {   /* fresh random function */
    TT t; for (int a = 0; a < (1 << n); a++) { bool b = rnd(2); for (int h = a; h < NA; h += 1 << n) t[h] = b; }
    if (chance(50)) { int v = rnd(n); t = cof(t, v, rnd(2)); } if (chance(30)) { int v = rnd(n); t = cof(t, v, rnd(2)); }
    std::function<DdNode *(TT, int)> build = [&](TT f, int v) -> DdNode * {
        if (f.all()) { Cudd_Ref(Cudd_ReadOne(m)); return Cudd_ReadOne(m); } if (f.none()) { DdNode *z = Cudd_ReadLogicZero(m); Cudd_Ref(z); return z; }
        DdNode *a = build(cof(f, v, 1), v + 1), *b = build(cof(f, v, 0), v + 1), *r = Cudd_bddIte(m, Cudd_bddIthVar(m, v), a, b); REQUIRE(r, "no result"); Cudd_Ref(r); drop(a); drop(b); return r; };
    is(build(t, 0), t, true);
}

static void refCheck(int how) {
    managerCheck(m);
    if (how > 1) return;
    long c = n, r = outsideRefs(m);
    for (auto &p : pool) if (!Cudd_IsConstantInt(p.d)) c++;
    REQUIRE(r == c, "%ld references from outside, %ld expected", r, c);
    counters["reference counts checked"]++;
}
/* the same function with every variable order: the clauses must not depend on it */
static void fixed_clauses() {
    currentOp = "FindTwoLiteralClauses-fixed";
    n = 3;
    m = Cudd_Init(n, 0, CUDD_UNIQUE_SLOTS, CUDD_CACHE_SLOTS, 0);
    int p[3] = {0, 1, 2};
    do {
        REQUIRE(Cudd_ShuffleHeap(m, p) == 1, "shuffle");
        DdNode *x[3];
        for (int i = 0; i < 3; i++) x[i] = Cudd_bddIthVar(m, i);
        DdNode *a = Cudd_bddOr(m, x[0], x[1]); Cudd_Ref(a);
        DdNode *b = Cudd_bddOr(m, x[1], Cudd_Not(x[2])); Cudd_Ref(b);
        DdNode *f = Cudd_bddAnd(m, a, b); Cudd_Ref(f);
        DdTlcInfo *t = Cudd_FindTwoLiteralClauses(m, f);
        unsigned v1, v2; int p1, p2, k = 0;
        while (Cudd_ReadIthClause(t, k, &v1, &v2, &p1, &p2)) k++;
        Cudd_tlcInfoFree(t);
        REQUIRE(k == 2, "(x0 or x1) and (x1 or not x2) with order %d %d %d: %d clauses instead of 2", p[0], p[1], p[2], k);
        drop(a); drop(b); drop(f);
    } while (std::next_permutation(p, p + 3));
    finish(0);
}
int main(int argc, char **argv) {
    if (argc == 2 && !strcmp(argv[1], "fixed-clauses")) { initTT(); fixed_clauses(); }
    if (argc < 3) return 2;
    seedRng(strtoull(argv[1], NULL, 10));
    long steps = atol(argv[2]);
    const char *only = argc > 3 ? argv[3] : NULL;
    initTT();
    int paranoid = getenv("PARANOID") ? atoi(getenv("PARANOID")) : 0;    /* 1: collect and count all references after every step, 2: consistency check only */
    n = 3 + rnd(NV - 2);
    currentOp = "init";
    m = newManager(n, 0);
    for (int v = 0; v < n; v++) is(Cudd_bddIthVar(m, v), ttVar[v]);
    is(Cudd_ReadOne(m), ~TT());
    if (chance(50)) { Cudd_AutodynEnable(m, METHODS[2 + rnd(6)]); Cudd_SetNextReordering(m, 20 + rnd(300)); }
    unsigned evPermille = 1 + rnd(150);
    for (step = 0; step < steps; step++) {
        auto &o = OPS[rnd(OPS.size())];
        if (only && rnd(2) && o.first != std::string(only)) { step--; continue; }
        currentOp = o.first;
        counters[std::string("op ") + o.first]++;
        Cudd_ClearErrorCode(m);
        o.second();
        trim();
        if (paranoid) { fprintf(stderr, "did %ld %s auto %d method %d reorderings %d gc %d next %u\n", step, o.first, m->autoDyn, (int)m->autoMethod, Cudd_ReadReorderings(m), Cudd_ReadGarbageCollections(m), Cudd_ReadNextReordering(m)); refCheck(paranoid); }
        currentOp = std::string("event after ") + o.first;
        if (rnd(1000) < evPermille) { event(m); if (paranoid) refCheck(paranoid); }
        if (m->nextDyn < 20) m->nextDyn = 20;
        if (rnd(200) == 0) { currentOp = "held functions"; for (auto &p : pool) REQUIRE(table(m, p.d) == p.t, "a held diagram changed after %s", o.first); }
    }
    currentOp = "end";
    for (auto &p : pool) REQUIRE(table(m, p.d) == p.t, "a held diagram changed");
    managerCheck(m);
    for (auto &p : pool) Cudd_RecursiveDeref(m, p.d);
    pool.clear();
    int left = Cudd_CheckZeroRef(m);
    REQUIRE(left == 0, "%d referenced nodes left", left);
    counters["reorderings"] = Cudd_ReadReorderings(m);
    counters["garbage collections"] = Cudd_ReadGarbageCollections(m);
    Cudd_Quit(m);
    finish(0);
}
