/* Histories of operations of slugs' own diagram classes over up to 12 variables, each judged on all assignments (C30). usage: bfops seed steps */
#define DD_NV 12
#include "ddtest.h"
#include "BF.h"

static BFBddManager *mgr;
static DdManager *m;
static int n;
struct W { BFBdd b; TT t; };
static std::vector<W> pool;
static std::vector<BFBdd> var;

static void judge(const BFBdd &b, const TT &t) {
    REQUIRE(b.isValid(), "no result");
    TT got = table(m, b.getCuddNode());
    REQUIRE(got == t, "wrong function: differs on %zu of %d assignments", (got ^ t).count(), NA);
    REQUIRE(b.isTrue() == t.all() && b.isFalse() == t.none() && b.isConstant() == (t.all() || t.none()), "constant queries");
}
static void keep(const BFBdd &b, const TT &t) {
    judge(b, t);
    for (auto &p : pool) {
        REQUIRE((p.b == b) == (p.t == t) && (p.b != b) == (p.t != t), "equality of diagrams and functions");
        REQUIRE((p.b.getHashCode() == b.getHashCode()) == (p.t == t), "hash code");
    }
    pool.push_back({b, t});
}
static W pick() { W w = pool[rnd(pool.size())]; if (chance(25)) return {!w.b, ~w.t}; return w; }
static std::vector<int> some(int lo, int hi) {
    std::vector<int> v;
    for (int i = 0; i < n; i++) v.push_back(i);
    for (int i = n - 1; i > 0; i--) std::swap(v[i], v[rnd(i + 1)]);
    v.resize(std::min(n, (int)(lo + rnd(hi - lo + 1))));
    return v;
}
static BFBddVarCube cube(unsigned *q) {
    std::vector<int> v = some(0, n);
    std::vector<BFBdd> b;
    std::vector<int> ph(v.size() + 1, 1);
    *q = 0;
    for (int i : v) { b.push_back(var[i]); *q |= 1u << i; }
    if (v.size() == 1 && chance(50)) return BFBddVarCube(b[0]);
    BFBddVarCube c = mgr->computeCube(b);
    REQUIRE(c.size() == (int)v.size(), "size of a cube");
    if (chance(20)) { BFBddVarCube d; d = c; d = d; BFBddVarCube e(d); return e; }
    if (chance(20) && !b.empty()) { std::vector<BFBdd> a(b); return mgr->computeCube(a.data(), ph.data(), (int)a.size()); }
    return c;
}
static double count(const TT &t, unsigned vars) {   /* assignments of vars (a superset of the support) */
    double c = t.count();
    for (int v = 0; v < NV; v++) if (!(vars >> v & 1)) c /= 2;
    return c;
}
static void op() {
    static const char *names[] = {"&", "|", "^", "-", "!", "&=", "|=", "Implies", "comparisons", "ExistAbstract", "UnivAbstract", "AndAbstract", "single variable abstraction", "SwapVariables", "minimizeUsingCareSet", "optimizeRestrict",
        "multiAnd", "multiOr", "computeCube", "getNofSatisfyingAssignments", "copies", "moves", "random function", "ite"};
    int k = rnd(sizeof names / sizeof *names);
    if (k >= 1 && k <= 5 && chance(20)) k = 22;
    currentOp = names[k];
    counters[std::string("op ") + currentOp]++;
    W f = pick(), g = pick(), h = pick();
    unsigned q;
    switch (k) {
    case 0: keep(f.b & g.b, f.t & g.t); break;
    case 1: keep(f.b | g.b, f.t | g.t); break;
    case 2: keep(f.b ^ g.b, f.t ^ g.t); break;
    case 3: keep(f.b - g.b, f.t & ~g.t); break;
    case 4: keep(!f.b, ~f.t); break;
    case 5: { BFBdd b = f.b; b &= g.b; keep(b, f.t & g.t); judge(f.b, f.t); if (chance(20)) { b &= b; keep(b, f.t & g.t); } break; }
    case 6: { BFBdd b = f.b; b |= g.b; keep(b, f.t | g.t); judge(f.b, f.t); if (chance(20)) { b |= b; keep(b, f.t | g.t); } break; }
    case 7: keep(f.b.Implies(g.b), ~f.t | g.t); break;
    case 8: {
        if (chance(40)) { g.b = f.b | h.b; g.t = f.t | h.t; } else if (chance(30)) { g.b = f.b & h.b; g.t = f.t & h.t; }
        REQUIRE(!!(f.b <= g.b) == leq(f.t, g.t) && !!(f.b >= g.b) == leq(g.t, f.t), "<= or >=");
        REQUIRE(!!(f.b < g.b) == (leq(f.t, g.t) && f.t != g.t) && !!(f.b > g.b) == (leq(g.t, f.t) && f.t != g.t), "< or >");
        break;
    }
    case 9: { auto c = cube(&q); keep(f.b.ExistAbstract(c), exist(f.t, q)); break; }
    case 10: { auto c = cube(&q); keep(f.b.UnivAbstract(c), univ(f.t, q)); break; }
    case 11: { auto c = cube(&q); keep(f.b.AndAbstract(g.b, c), exist(f.t & g.t, q)); break; }
    case 12: { int v = rnd(n); keep(f.b.ExistAbstractSingleVar(var[v]), exist(f.t, 1u << v)); keep(f.b.UnivAbstractSingleVar(var[v]), univ(f.t, 1u << v)); break; }
    case 13: {
        auto v = some(0, n);
        std::vector<BFBdd> x, y;
        TT t = f.t;
        for (size_t i = 0; i + 1 < v.size(); i += 2) {
            x.push_back(var[v[i]]); y.push_back(var[v[i + 1]]);
            int a = v[i], b = v[i + 1];
            TT t00 = cof(cof(t, a, 0), b, 0), t01 = cof(cof(t, a, 0), b, 1), t10 = cof(cof(t, a, 1), b, 0), t11 = cof(cof(t, a, 1), b, 1);
            t = (~ttVar[a] & ~ttVar[b] & t00) | (~ttVar[a] & ttVar[b] & t10) | (ttVar[a] & ~ttVar[b] & t01) | (ttVar[a] & ttVar[b] & t11);
        }
        BFBddVarVector a = mgr->computeVarVector(x), b = mgr->computeVarVector(y);
        REQUIRE(a.size() == (int)x.size(), "size of a vector");
        if (chance(30)) { BFBddVarVector c(a), d; d = c; d = d; a = d; }
        keep(f.b.SwapVariables(a, b), t);
        break;
    }
    case 14: case 15: {
        if (h.t.none()) h = W{mgr->constantTrue(), ~TT()};
        BFBdd r = k == 14 ? f.b.minimizeUsingCareSet(h.b) : f.b.optimizeRestrict(h.b);
        TT t = table(m, r.getCuddNode());
        REQUIRE(((t ^ f.t) & h.t).none(), "differs on the care set");
        REQUIRE(r.getSize() <= f.b.getSize(), "larger than the original");
        keep(r, t);
        break;
    }
    case 16: case 17: {
        std::vector<BFBdd> p;
        TT t; if (k == 16) t = ~t;
        for (int i = rnd(5); i > 0; i--) { W w = pick(); p.push_back(w.b); if (k == 16) t &= w.t; else t |= w.t; }
        keep(k == 16 ? mgr->multiAnd(p) : mgr->multiOr(p), t);
        break;
    }
    case 18: { auto v = some(1, n); std::vector<BFBdd> b; TT t = ~TT(); for (int i : v) { b.push_back(var[i]); t &= ttVar[i]; } auto c = mgr->computeCube(b); unsigned s = 0; for (int i : v) s |= 1u << i;
        /* the cube is seen through what it abstracts */
        TT e = exist(f.t, s); keep(f.b.ExistAbstract(c), e); break; }
    case 19: {
        unsigned s = supp(f.t);
        for (int v = 0; v < n; v++) if (chance(40)) s |= 1u << v;
        std::vector<BFBdd> b;
        for (int v = 0; v < n; v++) if (s >> v & 1) b.push_back(var[v]);
        for (size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[rnd(i)]);
        double r = f.b.getNofSatisfyingAssignments(mgr->computeCube(b));
        REQUIRE(r == count(f.t, s), "%g instead of %g", r, count(f.t, s));
        break;
    }
    case 20: { BFBdd a(f.b), b; b = a; b = b; a = g.b; judge(a, g.t); judge(b, f.t); BFBdd c; REQUIRE(!c.isValid(), "valid without a value"); a = c; REQUIRE(!a.isValid(), "valid after losing its value"); c = b; judge(c, f.t);
        std::vector<BFBdd> v(3, f.b); v.insert(v.begin(), g.b); v.resize(7, h.b); v.erase(v.begin() + 1); judge(v[0], g.t); judge(v[1], f.t); judge(v[5], h.t); break; }
    case 21: { BFBdd a(f.b), b(std::move(a)); REQUIRE(!a.isValid(), "still valid after a move"); a = std::move(b); judge(a, f.t); BFBdd c(g.b); c = std::move(a); judge(c, f.t); std::swap(c, g.b); judge(c, g.t); judge(g.b, f.t); c = BFBdd(h.b); judge(c, h.t); break; }
    case 22: {
        int k2 = 1 + rnd(n), lowBits = 1 << k2;   /* random over a random subset of variables */
        auto v = some(k2, k2);
        std::vector<bool> bits(lowBits);
        for (int i = 0; i < lowBits; i++) bits[i] = rnd(2);
        TT t;
        for (int a = 0; a < NA; a++) { int i = 0; for (int j = 0; j < k2; j++) i |= (a >> v[j] & 1) << j; t[a] = bits[i]; }
        std::function<BFBdd(int, int)> build = [&](int j, int base) -> BFBdd {
            if (j < 0) return bits[base] ? mgr->constantTrue() : mgr->constantFalse();
            return (var[v[j]] & build(j - 1, base | 1 << j)) | (!var[v[j]] & build(j - 1, base));
        };
        keep(build(k2 - 1, 0), t);
        break;
    }
    case 23: keep((f.b & g.b) | (!f.b & h.b), (f.t & g.t) | (~f.t & h.t)); break;
    }
}
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    seedRng(strtoull(argv[1], NULL, 10));
    long steps = atol(argv[2]);
    initTT();
    currentOp = "init";
    n = 3 + rnd(NV - 2);
    mgr = new BFBddManager(chance(30) ? 64 : 3096, 1.0f + rnd(10) * 0.1f);
    m = mgr->getMgr();
    bool automatic = chance(80);
    mgr->setAutomaticOptimisation(automatic);
    if (automatic) Cudd_SetNextReordering(m, 20 + rnd(chance(50) ? 200 : 4000));
    if (chance(50)) m->minDead = rnd(200);
    for (int v = 0; v < n; v++) { var.push_back(mgr->newVariable()); keep(var[v], ttVar[v]); REQUIRE((int)var[v].readNodeIndex() == v, "index of a variable"); }
    keep(mgr->constantTrue(), ~TT());
    keep(mgr->constantFalse(), TT());
    unsigned ev = 1 + rnd(80);
    for (step = 0; step < steps; step++) {
        op();
        while (pool.size() > 40u) { size_t k = rnd(pool.size()); if (chance(50)) pool[k] = pool.back(); else std::swap(pool[k], pool.back()); pool.pop_back(); }
        if (rnd(1000) < ev) {
            std::string o = currentOp;
            currentOp = "event after " + o;
            event(m);
            if (!automatic) mgr->setAutomaticOptimisation(false);
        }
        if (m->nextDyn < 20) m->nextDyn = 20;
        if (rnd(50) == 0) { currentOp = "held functions"; for (auto &p : pool) judge(p.b, p.t); managerCheck(m); }
    }
    currentOp = "end";
    for (auto &p : pool) judge(p.b, p.t);
    managerCheck(m);
    pool.clear();
    long r = outsideRefs(m);
    REQUIRE(r == 2 * n, "%ld references left, %d expected", r, 2 * n);   /* the manager's and ours */
    var.clear();
    REQUIRE(Cudd_CheckZeroRef(m) == 0, "references left");
    counters["reorderings"] = Cudd_ReadReorderings(m);
    counters["garbage collections"] = Cudd_ReadGarbageCollections(m);
    delete mgr;
    finish(0);
}
