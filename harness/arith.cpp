/* Histories of operations on diagrams with numbers and on zero-suppressed diagrams (C32), every result evaluated on all assignments. usage: arith seed steps */
#define DD_NV 10
#include "ddtest.h"
static TL DdManager *m;
enum { NB = 6, AB = 1 << NB };
typedef std::vector<double> VT;      /* a function of the variables 0..5 */
typedef std::set<int> Fam;           /* a family of sets of the zero-suppressed variables 0..9 */
#define OP(name) do { currentOp = name; if (getenv("TRACE")) fprintf(stderr, "%ld %s\n", step, currentOp.c_str()); counters[std::string("op ") + (name)]++; } while (0)

struct A { DdNode *f; VT v; };
struct Z { DdNode *f; Fam v; };
static TL std::vector<A> as, bs;        /* held diagrams with numbers; held Boolean diagrams (0/1) */
static TL std::vector<Z> zs;
static TL bool cover;                   /* the zero-suppressed variables 2i and 2i+1 are the literals of variable i */
static TL double background;

static double evalAdd(DdNode *f, int a) {
    while (f->index != CUDD_CONST_INDEX) f = (a >> f->index & 1) ? f->type.kids.T : f->type.kids.E;
    return f->type.value;
}
static VT addTable(DdNode *f) { VT t(AB); for (int a = 0; a < AB; a++) t[a] = evalAdd(f, a); return t; }
static VT bddTable(DdNode *f) { VT t(AB); for (int a = 0; a < AB; a++) t[a] = evalBdd(m, f, a); return t; }
static void zddSets(DdNode *f, int s, Fam &r) {
    if (f == DD_ZERO(m)) return;
    if (f->index == CUDD_CONST_INDEX) { REQUIRE(f == DD_ONE(m), "constant %g in a zero-suppressed diagram", f->type.value); REQUIRE(r.insert(s).second, "a set twice"); return; }
    REQUIRE(f->type.kids.T != DD_ZERO(m), "zero-suppression rule broken");
    for (DdNode *k : {f->type.kids.T, f->type.kids.E}) if (k->index != CUDD_CONST_INDEX) REQUIRE(m->permZ[f->index] < m->permZ[k->index], "levels out of order");
    zddSets(f->type.kids.T, s | 1 << f->index, r);
    zddSets(f->type.kids.E, s, r);
}
static Fam family(DdNode *f) { Fam r; zddSets(f, 0, r); return r; }
static bool near(double a, double b) { return a == b || (std::isfinite(a) && std::isfinite(b) && fabs(a - b) <= 1e-9 * std::max({1.0, fabs(a), fabs(b)})); }
static void rules(DdNode *f, std::set<DdNode *> &seen) {
    if (f->index == CUDD_CONST_INDEX || !seen.insert(f).second) return;
    REQUIRE(!Cudd_IsComplement(f->type.kids.T) && !Cudd_IsComplement(f->type.kids.E), "complemented edge in a diagram with numbers");
    REQUIRE(f->type.kids.T != f->type.kids.E, "redundant node");
    for (DdNode *k : {f->type.kids.T, f->type.kids.E}) { if (k->index != CUDD_CONST_INDEX) REQUIRE(m->perm[f->index] < m->perm[k->index], "levels out of order"); rules(k, seen); }
}
static void compareA(DdNode *f, const VT &want) {
    REQUIRE(f, "no result (error code %d)", (int)Cudd_ReadErrorCode(m));
    VT got = addTable(f);
    for (int a = 0; a < AB; a++) REQUIRE(near(got[a], want[a]), "value %.17g instead of %.17g at %d", got[a], want[a], a);
    counters["results judged"]++;
}
static void holdA(DdNode *f, const VT &want) {
    REQUIRE(f, "no result (error code %d)", (int)Cudd_ReadErrorCode(m));
    Cudd_Ref(f);
    compareA(f, want);
    VT got = addTable(f);
    std::set<DdNode *> seen;
    rules(f, seen);
    for (auto &o : as) REQUIRE((o.f == f) == (o.v == got), "%s", o.f == f ? "one diagram for two functions" : "two diagrams for one function");
    for (double x : got) if (std::isnan(x) || (std::isfinite(x) && fabs(x) > 1e5)) { Cudd_RecursiveDeref(m, f); return; }
    as.push_back({f, got});
}
static void holdB(DdNode *f, const VT &want) {
    REQUIRE(f, "no result (error code %d)", (int)Cudd_ReadErrorCode(m));
    Cudd_Ref(f);
    VT got = bddTable(f);
    for (int a = 0; a < AB; a++) REQUIRE(got[a] == want[a], "value %g instead of %g at %d", got[a], want[a], a);
    for (auto &o : bs) REQUIRE((o.f == f) == (o.v == got), "%s", o.f == f ? "one diagram for two functions" : "two diagrams for one function");
    bs.push_back({f, got});
    counters["results judged"]++;
}
static void holdZ(DdNode *f, const Fam &want) {
    REQUIRE(f, "no result (error code %d)", (int)Cudd_ReadErrorCode(m));
    Cudd_Ref(f);
    Fam got = family(f);
    if (got != want) {
        int extra = -1, missing = -1;
        for (int s : got) if (!want.count(s)) extra = s;
        for (int s : want) if (!got.count(s)) missing = s;
        fail("%zu sets instead of %zu (too many: %x, missing: %x)", got.size(), want.size(), extra, missing);
    }
    for (auto &o : zs) REQUIRE((o.f == f) == (o.v == got), "%s", o.f == f ? "one diagram for two families" : "two diagrams for one family");
    zs.push_back({f, got});
    counters["results judged"]++;
}
static double someNumber() {
    switch (rnd(8)) { case 0: case 1: case 2: return 0; case 3: return 1; case 4: return (int)rnd(14) - 4; case 5: return 0.25 * (1 + rnd(9)); case 6: return (1 + rnd(5)) / 3.0; default: return rnd(3); }
}
static DdNode *randomAdd(int depth, int kind) {    /* kind 0: 0/1, 1: integers, 2: anything */
    DdNode *r;
    if (!depth || chance(12)) { r = Cudd_addConst(m, kind == 0 ? rnd(2) : kind == 1 ? (int)rnd(9) - 2 : someNumber()); Cudd_Ref(r); return r; }
    DdNode *v = Cudd_addIthVar(m, rnd(m->size)); Cudd_Ref(v);
    DdNode *a = randomAdd(depth - 1, kind), *b = randomAdd(depth - 1, kind);
    r = Cudd_addIte(m, v, a, b);
    REQUIRE(r, "no result"); Cudd_Ref(r);
    Cudd_RecursiveDeref(m, v); Cudd_RecursiveDeref(m, a); Cudd_RecursiveDeref(m, b);
    return r;
}
static VT built(DdNode *f) { return addTable(f); }
static void newAdd(int kind) { OP("new diagram with numbers"); DdNode *f = randomAdd(1 + rnd(6), kind); VT v = built(f); holdA(f, v); Cudd_RecursiveDeref(m, f); }
static void newBdd() {
    OP("new Boolean diagram");
    DdNode *r = Cudd_NotCond(DD_ONE(m), rnd(2)); Cudd_Ref(r);
    for (int k = rnd(7); k > 0; k--) { DdNode *x = Cudd_bddIte(m, Cudd_bddIthVar(m, rnd(m->size)), chance(50) ? Cudd_bddIthVar(m, rnd(m->size)) : DD_ONE(m), chance(50) ? Cudd_Not(r) : r); Cudd_Ref(x); DdNode *y = Cudd_bddXor(m, r, x); Cudd_Ref(y); Cudd_RecursiveDeref(m, x); Cudd_RecursiveDeref(m, r); r = y; }
    VT v = bddTable(r); holdB(r, v); Cudd_RecursiveDeref(m, r);
}
static bool cubeOk(int s) { for (int i = 0; i < 5; i++) if ((s >> (2 * i) & 3) == 3) return false; return true; }
static int randomSet() {
    int s = 0, n = m->sizeZ;
    if (cover) { for (int i = 0; i < n / 2; i++) { int k = rnd(4); if (k < 2) s |= 1 << (2 * i + k); } return s; }
    for (int i = 0; i < n; i++) if (chance(40)) s |= 1 << i;
    return s;
}
static DdNode *oneSet(int s) {
    DdNode *r = DD_ONE(m); Cudd_Ref(r);
    for (int i = 0; i < m->sizeZ; i++) if (s >> i & 1) { DdNode *x = Cudd_zddChange(m, r, i); REQUIRE(x, "no result"); Cudd_Ref(x); Cudd_RecursiveDerefZdd(m, r); r = x; }
    return r;
}
static void newZdd() {
    OP("new zero-suppressed diagram");
    Fam want; DdNode *r = DD_ZERO(m); Cudd_Ref(r);
    if (zs.size() > 2 && chance(50)) { auto &o = zs[rnd(zs.size())]; Cudd_RecursiveDerefZdd(m, r); r = o.f; Cudd_Ref(r); want = o.v; }
    for (int k = rnd(9); k > 0; k--) {
        int s = randomSet(); want.insert(s);
        DdNode *c = oneSet(s), *x = Cudd_zddUnion(m, r, c); REQUIRE(x, "no result"); Cudd_Ref(x); Cudd_RecursiveDerefZdd(m, r); Cudd_RecursiveDerefZdd(m, c); r = x;
    }
    holdZ(r, want); Cudd_RecursiveDerefZdd(m, r);
}
template <class F> static VT map1(const VT &a, F f) { VT r(AB); for (int i = 0; i < AB; i++) r[i] = f(a[i]); return r; }
template <class F> static VT map2(const VT &a, const VT &b, F f) { VT r(AB); for (int i = 0; i < AB; i++) r[i] = f(a[i], b[i]); return r; }
static bool finite(const VT &a) { for (double x : a) if (!std::isfinite(x)) return false; return true; }
static bool is01(const VT &a) { for (double x : a) if (x != 0 && x != 1) return false; return true; }
static bool constant(const VT &a) { for (double x : a) if (x != a[0]) return false; return true; }
static const A *pick01() { std::vector<const A *> c; for (auto &o : as) if (is01(o.v)) c.push_back(&o); return c.empty() ? NULL : c[rnd(c.size())]; }
static const A *pickInt() { std::vector<const A *> c; for (auto &o : as) { bool ok = true; for (double x : o.v) ok = ok && std::isfinite(x) && x == floor(x); if (ok) c.push_back(&o); } return c.empty() ? NULL : c[rnd(c.size())]; }
static DdNode *cubeOf(unsigned vars, bool add) {
    DdNode *r = DD_ONE(m); Cudd_Ref(r);
    for (int i = 0; i < m->size; i++) if (vars >> i & 1) {
        DdNode *v = add ? Cudd_addIthVar(m, i) : Cudd_bddIthVar(m, i); Cudd_Ref(v);
        DdNode *x = add ? Cudd_addApply(m, Cudd_addTimes, r, v) : Cudd_bddAnd(m, r, v); Cudd_Ref(x);
        Cudd_RecursiveDeref(m, v); Cudd_RecursiveDeref(m, r); r = x;
    }
    return r;
}
/* variable vectors: x and y are disjoint */
static std::vector<int> someVars(int n, unsigned &used) { std::vector<int> r; std::vector<int> p; for (int i = 0; i < m->size; i++) if (!(used >> i & 1)) p.push_back(i); while ((int)r.size() < n && !p.empty()) { int k = rnd(p.size()); r.push_back(p[k]); used |= 1u << p[k]; p.erase(p.begin() + k); } return r; }
static std::vector<DdNode *> addVars(const std::vector<int> &v) { std::vector<DdNode *> r; for (int i : v) { DdNode *f = Cudd_addIthVar(m, i); REQUIRE(f, "no result"); Cudd_Ref(f); r.push_back(f); } return r; }
static void release(std::vector<DdNode *> &v) { for (DdNode *f : v) Cudd_RecursiveDeref(m, f); v.clear(); }

static void matrixFile() {
    unsigned used = 0;
    int n = rnd(1 + m->size / 2), k = rnd(1 + std::min(3, m->size - n));
    (void)used;
    bool hw = chance(50);
    OP(hw ? "matrix in the Harwell-Boeing format" : "matrix in the sparse format");
    int rows = n == 0 ? 1 : (1 << (n - 1)) + 1 + rnd(1 << (n - 1)), cols = k == 0 ? 1 : (1 << (k - 1)) + 1 + rnd(1 << (k - 1));
    if (n + k > m->size) return;
    /* x: bx, bx+sx, ..; y the rest: interleaved or one after the other */
    int bx, sx, by, sy;
    if (chance(50) && 2 * std::max(n, k) <= m->size) { bx = 0; sx = 2; by = 1; sy = 2; } else { bx = 0; sx = 1; by = n; sy = 1; }
    std::map<std::pair<int, int>, double> e;
    for (int q = rnd(8); q > 0; q--) { double v = someNumber(); if (v != 0 || chance(50)) e[{(int)rnd(rows), (int)rnd(cols)}] = v; }
    int nrhs = hw && chance(30) && k + 1 + 1 <= 3 && by + (k + 1) * sy <= m->size && k > 0 ? 1 + rnd(cols) : 0;
    if (nrhs > cols) nrhs = cols;
    std::string s; char b[200];
    std::vector<std::vector<double>> rhs;
    if (!hw) {
        snprintf(b, sizeof b, "%d %d\n", rows, cols); s = b;
        std::vector<std::pair<std::pair<int, int>, double>> l(e.begin(), e.end());
        for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[rnd(i)]);
        for (auto &x : l) { snprintf(b, sizeof b, "%d %d %.17g\n", x.first.first, x.first.second, x.second); s += b; }
    } else {
        snprintf(b, sizeof b, "%-72s%-8s\n", "Title of the matrix", "KEY"); s = b;
        snprintf(b, sizeof b, "%14d%14d%14d%14d%14d\n", 3, 1, 1, 1, nrhs ? 1 : 0); s += b;
        snprintf(b, sizeof b, "%-14s%14d%14d%14d%14d\n", "RUA", rows, cols, (int)e.size(), 0); s += b;
        s += nrhs ? "(16I5) (16I5) (5E15.8) (5E15.8)\n" : "(16I5) (16I5) (5E15.8)\n";
        if (nrhs) { snprintf(b, sizeof b, "F  %14d%14d\n", nrhs, 0); s += b; }
        std::string ptr, ind, val; int at = 1;
        for (int j = 0; j < cols; j++) { snprintf(b, sizeof b, "%5d", at); ptr += b; for (auto &x : e) if (x.first.second == j) { snprintf(b, sizeof b, "%5d", x.first.first + 1); ind += b; snprintf(b, sizeof b, " %.17g", x.second); val += b; at++; } }
        snprintf(b, sizeof b, "%5d\n", at); ptr += b;
        s += ptr + ind + "\n" + val + "\n";
        for (int j = 0; j < nrhs; j++) { rhs.push_back({}); for (int i = 0; i < rows; i++) { rhs[j].push_back(someNumber()); snprintf(b, sizeof b, " %.17g", rhs[j][i]); s += b; } s += "\n"; }
    }
    FILE *fp = fmemopen((void *)s.data(), s.size(), "r");
    DdNode *E = NULL, **x = NULL, **y = NULL, **xn = NULL, **yn = NULL;
    int nx = 0, ny = 0, mm = -1, nn = -1;
    int r = hw ? Cudd_addHarwell(fp, m, &E, &x, &y, &xn, &yn, &nx, &ny, &mm, &nn, bx, sx, by, sy, 0) : Cudd_addRead(fp, m, &E, &x, &y, &xn, &yn, &nx, &ny, &mm, &nn, bx, sx, by, sy);
    fclose(fp);
    REQUIRE(r == 1, "not read: %s", s.c_str());
    int wantNy = k;
    if (nrhs) { int q = 2 * (std::max(cols, nrhs) - 1), w = 0; while (q > 0) { w++; q >>= 1; } wantNy = w; }
    REQUIRE(nx == n && ny == wantNy && mm == rows && nn == (nrhs ? (1 << (ny - 1)) + nrhs : cols), "%d x %d variables, %d x %d; %s", nx, ny, mm, nn, s.c_str());
    for (int i = 0; i < nx; i++) { VT w(AB); for (int a = 0; a < AB; a++) w[a] = a >> (bx + i * sx) & 1; compareA(x[i], w); for (double &d : w) d = 1 - d; compareA(xn[i], w); }
    for (int i = 0; i < ny; i++) { VT w(AB); for (int a = 0; a < AB; a++) w[a] = a >> (by + i * sy) & 1; compareA(y[i], w); for (double &d : w) d = 1 - d; compareA(yn[i], w); }
    VT w(AB);
    for (int a = 0; a < AB; a++) {
        int u = 0, v = 0;
        for (int i = 0; i < nx; i++) u = 2 * u + (a >> (bx + i * sx) & 1);
        for (int i = 0; i < ny; i++) v = 2 * v + (a >> (by + i * sy) & 1);
        if (nrhs && v >= 1 << (ny - 1)) { int j = v - (1 << (ny - 1)); w[a] = u < rows && j < nrhs ? rhs[j][u] : 0; continue; }
        w[a] = e.count({u, v}) ? e[{u, v}] : hw ? 0 : background;
    }
    holdA(E, w);
    Cudd_RecursiveDeref(m, E);
    for (int i = 0; i < nx; i++) { Cudd_RecursiveDeref(m, x[i]); Cudd_RecursiveDeref(m, xn[i]); }
    for (int i = 0; i < ny; i++) { Cudd_RecursiveDeref(m, y[i]); Cudd_RecursiveDeref(m, yn[i]); }
    free(x); free(xn); free(y); free(yn);
}

static void addOps() {
    A F = as[rnd(as.size())], G = as[rnd(as.size())], H = as[rnd(as.size())];
    int nv = m->size, v = rnd(nv);
    /* binary operators */
    struct B { const char *name; DD_AOP op; int cls; double (*f)(double, double); };
    static const B BIN[] = {
        {"addPlus", Cudd_addPlus, 1, [](double a, double b) { return a + b; }}, {"addTimes", Cudd_addTimes, 1, [](double a, double b) { return a * b; }}, {"addMinus", Cudd_addMinus, 1, [](double a, double b) { return a - b; }},
        {"addMinimum", Cudd_addMinimum, 2, [](double a, double b) { return std::min(a, b); }}, {"addMaximum", Cudd_addMaximum, 2, [](double a, double b) { return std::max(a, b); }},
        {"addThreshold", Cudd_addThreshold, 2, [](double a, double b) { return a >= b ? a : 0.0; }}, {"addSetNZ", Cudd_addSetNZ, 2, [](double a, double b) { return b != 0 ? b : a; }},
        {"addOneZeroMaximum", Cudd_addOneZeroMaximum, 2, [](double a, double b) { return a > b ? 1.0 : 0.0; }}, {"addDiff", Cudd_addDiff, 2, [](double a, double b) { return a == b ? INFINITY : std::min(a, b); }},
        {"addAgreement", Cudd_addAgreement, 2, [](double a, double b) { return a == b ? a : background; }}, {"addDivide", Cudd_addDivide, 3, [](double a, double b) { return a / b; }},
        {"addOr", Cudd_addOr, 0, [](double a, double b) { return a || b ? 1.0 : 0.0; }}, {"addNand", Cudd_addNand, 0, [](double a, double b) { return a && b ? 0.0 : 1.0; }}, {"addNor", Cudd_addNor, 0, [](double a, double b) { return a || b ? 0.0 : 1.0; }},
        {"addXor", Cudd_addXor, 0, [](double a, double b) { return a != b ? 1.0 : 0.0; }}, {"addXnor", Cudd_addXnor, 0, [](double a, double b) { return a == b ? 1.0 : 0.0; }}};
    switch (rnd(34)) {
    case 0: case 1: case 2: case 3: case 4: case 5: {
        const B &b = BIN[rnd(sizeof BIN / sizeof *BIN)];
        if (b.cls == 0) { const A *p = pick01(), *q = pick01(); if (!p) return; F = *p; G = *q; }
        if (b.cls == 1 && (!finite(F.v) || !finite(G.v))) return;
        if (b.cls == 3) { if (!finite(F.v) || !finite(G.v)) return; for (double x : G.v) if (fabs(x) < 0.01) return; }
        OP(b.name);
        VT w = map2(F.v, G.v, b.f);
        if (b.cls == 3) for (int a = 0; a < AB; a++) if (F.v[a] == 0) w[a] = 0;
        holdA(Cudd_addApply(m, b.op, F.f, G.f), w);
        break;
    }
    case 6: {
        switch (rnd(5)) {
        case 0: { for (double x : F.v) if (!(x > 0.001) || !std::isfinite(x)) return; OP("addLog"); holdA(Cudd_addMonadicApply(m, Cudd_addLog, F.f), map1(F.v, [](double x) { return std::log(x); })); break; }
        case 1: OP("addCmpl"); holdA(Cudd_addCmpl(m, F.f), map1(F.v, [](double x) { return x == 0 ? 1.0 : 0.0; })); break;
        case 2: OP("addNegate"); holdA(Cudd_addNegate(m, F.f), map1(F.v, [](double x) { return -x; })); break;
        case 3: {
            if (!finite(F.v)) return;
            int n = rnd(4); OP("addRoundOff");
            DdNode *r = Cudd_addRoundOff(m, F.f, n); REQUIRE(r, "no result"); Cudd_Ref(r);
            VT g = addTable(r); double s = pow(10, n);
            for (int a = 0; a < AB; a++) REQUIRE(fabs(g[a] - F.v[a]) < 1 / s + 1e-9 && fabs(g[a] * s - round(g[a] * s)) < 1e-6, "%.17g rounded to %d digits gives %.17g", F.v[a], n, g[a]);
            holdA(r, g); Cudd_RecursiveDeref(m, r);
            break;
        }
        default: {
            OP("addScalarInverse"); if (!finite(F.v)) return;
            double eps = chance(50) ? 0.01 : 0.3; bool ok = true; for (double x : F.v) ok = ok && fabs(x) >= eps;
            DdNode *e = Cudd_addConst(m, eps); Cudd_Ref(e);
            DdNode *r = Cudd_addScalarInverse(m, F.f, e);
            if (!ok) REQUIRE(!r, "inverse of numbers below epsilon"); else holdA(r, map1(F.v, [](double x) { return 1 / x; }));
            Cudd_RecursiveDeref(m, e);
        }
        }
        break;
    }
    case 7: { OP("addFindMax"); DdNode *r = Cudd_addFindMax(m, F.f); REQUIRE(r && r->index == CUDD_CONST_INDEX && r->type.value == *std::max_element(F.v.begin(), F.v.end()), "maximum %g", r ? r->type.value : 0); OP("addFindMin"); r = Cudd_addFindMin(m, F.f); REQUIRE(r && r->index == CUDD_CONST_INDEX && r->type.value == *std::min_element(F.v.begin(), F.v.end()), "minimum %g", r ? r->type.value : 0); break; }
    case 8: { const A *p = pickInt(); if (!p) return; F = *p; int b = rnd(5); VT w = map1(F.v, [b](double x) { return (double)((int)x >> b & 1); }); if (chance(50)) { OP("addIthBit"); holdA(Cudd_addIthBit(m, F.f, b), w); } else { OP("addBddIthBit"); holdB(Cudd_addBddIthBit(m, F.f, b), w); } break; }
    case 9: case 10: { const A *p = pick01(); if (!p) return; F = *p; OP("addIte"); VT w(AB); for (int a = 0; a < AB; a++) w[a] = F.v[a] ? G.v[a] : H.v[a];
        if (chance(60)) { holdA(Cudd_addIte(m, F.f, G.f, H.f), w); break; }
        OP("addIteConstant"); DdNode *r = Cudd_addIteConstant(m, F.f, G.f, H.f); REQUIRE(r, "no result");
        if (r == DD_NON_CONSTANT) REQUIRE(!constant(w), "a constant called not constant"); else compareA(r, w);
        break; }
    case 11: { const A *p = pick01(); if (!p) return; F = *p; OP("addEvalConst"); DdNode *r = Cudd_addEvalConst(m, F.f, G.f); REQUIRE(r, "no result"); std::set<double> s; for (int a = 0; a < AB; a++) if (F.v[a]) s.insert(G.v[a]);
        if (r == DD_NON_CONSTANT) REQUIRE(s.size() > 1, "a constant called not constant");
        else if (s.empty()) REQUIRE(r->index == CUDD_CONST_INDEX, "not the background");
        else for (int a = 0; a < AB; a++) if (F.v[a]) REQUIRE(evalAdd(r, a) == G.v[a], "value %g instead of %g", evalAdd(r, a), G.v[a]);
        break; }
    case 12: { OP("addLeq"); bool w = true; for (int a = 0; a < AB; a++) w = w && F.v[a] <= G.v[a]; REQUIRE(Cudd_addLeq(m, F.f, G.f) == w, "%d instead of %d", !w, w); break; }
    case 13: {
        if (chance(50)) { unsigned u = 0; int n = rnd(1 + nv / 2); auto x = someVars(n, u), y = someVars(n, u); auto fx = addVars(x), fy = addVars(y); VT w(AB); for (int a = 0; a < AB; a++) { int s = 0; for (int i = 0; i < n; i++) s ^= a >> x[i] & a >> y[i] & 1; w[a] = s ? -1 : 1; } OP("addWalsh"); holdA(Cudd_addWalsh(m, fx.data(), fy.data(), n), w); release(fx); release(fy); }
        else { int n = 1 + rnd(nv), mod = 2 + rnd(9), opt = rnd(4), top = rnd(nv - n + 1); VT w(AB);
            bool msb = opt & 1, tc = opt & 2;
            for (int a = 0; a < AB; a++) { long x = 0; for (int k = 0; k < n; k++) { int i = msb ? top + n - 1 - k : top + k; long wt = 1L << k; if (tc && k == n - 1) wt = -wt; if (a >> i & 1) x += wt; } w[a] = (double)(((x % mod) + mod) % mod); }
            OP(tc ? "addResidue of signed numbers" : "addResidue"); holdA(Cudd_addResidue(m, n, mod, (msb ? CUDD_RESIDUE_MSB : 0) | (tc ? CUDD_RESIDUE_TC : 0), top), w); }
        break;
    }
    case 14: { double c = chance(50) ? F.v[rnd(AB)] : someNumber(); OP("addBddThreshold"); holdB(Cudd_addBddThreshold(m, F.f, c), map1(F.v, [c](double x) { return x >= c ? 1.0 : 0.0; })); break; }
    case 15: { double c = chance(50) ? F.v[rnd(AB)] : someNumber(); OP("addBddStrictThreshold"); holdB(Cudd_addBddStrictThreshold(m, F.f, c), map1(F.v, [c](double x) { return x > c ? 1.0 : 0.0; })); break; }
    case 16: { double c = chance(50) ? F.v[rnd(AB)] : someNumber(), d = chance(50) ? F.v[rnd(AB)] : someNumber(); OP("addBddInterval"); holdB(Cudd_addBddInterval(m, F.f, c, d), map1(F.v, [c, d](double x) { return c <= x && x <= d ? 1.0 : 0.0; })); break; }
    case 17: OP("addBddPattern"); holdB(Cudd_addBddPattern(m, F.f), map1(F.v, [](double x) { return x != 0 ? 1.0 : 0.0; })); break;
    case 18: { if (bs.empty()) return; A b = bs[rnd(bs.size())]; OP("BddToAdd"); holdA(Cudd_BddToAdd(m, b.f), b.v); break; }
    case 19: { const A *p = pick01(); if (!p) return; G = *p; OP("addCompose"); VT w(AB); for (int a = 0; a < AB; a++) w[a] = F.v[G.v[a] ? a | 1 << v : a & ~(1 << v)]; holdA(Cudd_addCompose(m, F.f, G.f, v), w); break; }
    case 20: { int p[64]; for (int i = 0; i < nv; i++) p[i] = i; for (int i = nv - 1; i > 0; i--) std::swap(p[i], p[rnd(i + 1)]); VT w(AB); for (int a = 0; a < AB; a++) { int b = 0; for (int i = 0; i < nv; i++) if (a >> p[i] & 1) b |= 1 << i; w[a] = F.v[b]; } OP("addPermute"); holdA(Cudd_addPermute(m, F.f, p), w); break; }
    case 21: { unsigned u = 0; int n = rnd(1 + nv / 2); auto x = someVars(n, u), y = someVars(n, u); auto fx = addVars(x), fy = addVars(y); VT w(AB); for (int a = 0; a < AB; a++) { int b = a; for (int i = 0; i < n; i++) { b &= ~(1 << x[i] | 1 << y[i]); if (a >> x[i] & 1) b |= 1 << y[i]; if (a >> y[i] & 1) b |= 1 << x[i]; } w[a] = F.v[b]; } OP("addSwapVariables"); holdA(Cudd_addSwapVariables(m, F.f, fx.data(), fy.data(), n), w); release(fx); release(fy); break; }
    case 22: case 23: {
        std::vector<DdNode *> on, off; std::vector<VT> t; int how = rnd(3);
        unsigned replaced = 0;
        if (how == 2) for (int i = 0; i < nv; i++) if (chance(40)) replaced |= 1u << i;
        for (int i = 0; i < nv; i++) {
            const A *p = pick01(); DdNode *f = NULL; VT w;
            if (how == 2) { if (p && (replaced >> i & 1)) { bool ok = true; for (int j = 0; j < nv && ok; j++) if (replaced >> j & 1) for (int a = 0; a < AB; a++) if (p->v[a] != p->v[a ^ 1 << j]) { ok = false; break; } if (!ok) p = NULL; } else p = NULL; }
            else if (chance(40)) p = NULL;
            if (p) { f = p->f; w = p->v; Cudd_Ref(f); } else { f = Cudd_addIthVar(m, i); Cudd_Ref(f); w = addTable(f); }
            on.push_back(f); t.push_back(w);
            DdNode *c = Cudd_addCmpl(m, f); Cudd_Ref(c); off.push_back(c);
        }
        VT w(AB);
        for (int a = 0; a < AB; a++) { int b = 0; for (int i = 0; i < nv; i++) if (t[i][a]) b |= 1 << i; w[a] = F.v[b]; }
        if (how == 0) { OP("addVectorCompose"); holdA(Cudd_addVectorCompose(m, F.f, on.data()), w); }
        else if (how == 1) { if (finite(F.v)) { OP("addGeneralVectorCompose"); holdA(Cudd_addGeneralVectorCompose(m, F.f, on.data(), off.data()), w); } }
        else { OP("addNonSimCompose"); holdA(Cudd_addNonSimCompose(m, F.f, on.data()), w); }
        release(on); release(off);
        break;
    }
    case 24: {
        const A *p = pick01(); if (!p || *std::max_element(p->v.begin(), p->v.end()) == 0) return; G = *p;
        bool con = chance(50);
        OP(con ? "addConstrain" : "addRestrict");
        auto order = [&](int l) { return m->invperm[l]; };
        std::vector<int> ord; 
        bool dyn = m->autoDyn; m->autoDyn = 0;         /* the result of the first depends on the order */
        for (int l = 0; l < nv; l++) ord.push_back(order(l));
        DdNode *r = con ? Cudd_addConstrain(m, F.f, G.f) : Cudd_addRestrict(m, F.f, G.f);
        m->autoDyn = dyn;
        REQUIRE(r, "no result"); Cudd_Ref(r);
        VT g = addTable(r);
        for (int a = 0; a < AB; a++) {
            if (G.v[a]) { REQUIRE(g[a] == F.v[a], "value %g instead of %g in the care set", g[a], F.v[a]); continue; }
            if (!con) continue;
            int best = -1;                            /* the point of the care set nearest to a, where variables nearer to the root count more */
            long bd = 0;
            for (int b = 0; b < 1 << nv; b++) if (G.v[b]) { long d = 0; for (int l = 0; l < nv; l++) if ((a ^ b) >> ord[l] & 1) d += 1L << (nv - l); if (best < 0 || d < bd) { best = b; bd = d; } }
            REQUIRE(g[a] == F.v[best], "value %g instead of %g, that of the nearest point", g[a], F.v[best]);
        }
        if (!con) { REQUIRE(Cudd_DagSize(r) <= Cudd_DagSize(F.f), "larger than the argument"); }
        holdA(r, g); Cudd_RecursiveDeref(m, r);
        break;
    }
    case 25: case 26: case 27: {
        unsigned u = 0; auto z = someVars(rnd(nv + 1), u); auto fz = addVars(z);
        unsigned zm = 0; for (int i : z) zm |= 1u << i;
        int how = rnd(4);
        VT w(AB);
        bool fin = finite(F.v) && finite(G.v);
        auto all = [&](int a, std::function<double(double, int)> step, double init) { double r = init; for (int b = 0; b < AB; b++) if (!((a ^ b) & ~zm) && !(b & ~zm & ~a)) r = step(r, b); return r; };
        if (how == 3) { for (double x : F.v) if (x == -INFINITY) fin = false; for (double x : G.v) if (x == -INFINITY) fin = false; else fin = true; bool neg = false; for (double x : F.v) neg |= x == -INFINITY; for (double x : G.v) neg |= x == -INFINITY; if (neg) { release(fz); return; }
            for (int a = 0; a < AB; a++) w[a] = all(a, [&](double r, int b) { return std::min(r, F.v[b] + G.v[b]); }, INFINITY);
            OP("addTriangle"); holdA(Cudd_addTriangle(m, F.f, G.f, fz.data(), fz.size()), w);
        } else if (fin) {
            if (how < 2) { for (int a = 0; a < AB; a++) w[a] = all(a, [&](double r, int b) { return r + F.v[b] * G.v[b]; }, 0); }
            if (how == 0) { OP("addMatrixMultiply"); holdA(Cudd_addMatrixMultiply(m, F.f, G.f, fz.data(), fz.size()), w); }
            else if (how == 1) { OP("addTimesPlus"); holdA(Cudd_addTimesPlus(m, F.f, G.f, fz.data(), fz.size()), w); }
        }
        if (how == 2) { bool neg = false; for (double x : G.v) neg |= x == -INFINITY; for (double x : H.v) neg |= x == -INFINITY; if (!neg) { OP("addOuterSum"); VT o(AB); for (int a = 0; a < AB; a++) o[a] = std::min(F.v[a], G.v[a] + H.v[a]); holdA(Cudd_addOuterSum(m, F.f, G.f, H.f), o); } }
        release(fz);
        break;
    }
    case 28: case 29: {
        unsigned zm = rnd(1 << nv); DdNode *c = cubeOf(zm, true);
        int how = rnd(3);
        if (how == 2) { const A *p = pick01(); if (!p) { Cudd_RecursiveDeref(m, c); return; } F = *p; }
        if (!finite(F.v)) { Cudd_RecursiveDeref(m, c); return; }
        VT w(AB); bool big = false;
        for (int a = 0; a < AB; a++) { double s = 0, pr = 1; bool o = false; for (int b = 0; b < AB; b++) if (!((a ^ b) & ~zm)) { s += F.v[b]; pr *= F.v[b]; o = o || F.v[b] != 0; } w[a] = how == 0 ? s : how == 1 ? pr : o; if (fabs(pr) > 1e12 || (pr != 0 && fabs(pr) < 1e-7)) big = true; }
        if (how != 1 || !big) { OP(how == 0 ? "addExistAbstract" : how == 1 ? "addUnivAbstract" : "addOrAbstract"); holdA(how == 0 ? Cudd_addExistAbstract(m, F.f, c) : how == 1 ? Cudd_addUnivAbstract(m, F.f, c) : Cudd_addOrAbstract(m, F.f, c), w); }
        Cudd_RecursiveDeref(m, c);
        break;
    }
    case 30: {
        unsigned u = 0; int n = rnd(1 + nv / 2); auto x = someVars(n, u), y = someVars(n, u); auto fx = addVars(x), fy = addVars(y);
        bool ham = chance(50); VT w(AB);
        for (int a = 0; a < AB; a++) { int d = 0; for (int i = 0; i < n; i++) d += (a >> x[i] ^ a >> y[i]) & 1; w[a] = ham ? d : d == 0; }
        if (ham) { OP("addHamming"); std::vector<DdNode *> bx, by; for (int i : x) bx.push_back(Cudd_bddIthVar(m, i)); for (int i : y) by.push_back(Cudd_bddIthVar(m, i)); holdA(Cudd_addHamming(m, bx.data(), by.data(), n), w); }
        else if (n) { bool dyn = m->autoDyn; m->autoDyn = 0; OP("addXeqy"); holdA(Cudd_addXeqy(m, n, fx.data(), fy.data()), w); m->autoDyn = dyn; }
        release(fx); release(fy);
        break;
    }
    case 31: {
        unsigned u = 0; auto x = someVars(rnd(nv + 1), u); auto fx = addVars(x); std::vector<int> ph; for (size_t i = 0; i < x.size(); i++) ph.push_back(rnd(2));
        VT w(AB); for (int a = 0; a < AB; a++) { bool ok = true; for (size_t i = 0; i < x.size(); i++) ok = ok && (a >> x[i] & 1) == ph[i]; w[a] = ok; }
        bool all = chance(30); if (all) for (int a = 0; a < AB; a++) { w[a] = 1; for (int i : x) if (!(a >> i & 1)) w[a] = 0; }
        OP("addComputeCube"); holdA(Cudd_addComputeCube(m, fx.data(), all ? NULL : ph.data(), x.size()), w); release(fx);
        break;
    }
    case 32: {
        if (!bs.empty() && chance(40)) {
            A b = bs[rnd(bs.size())]; OP("MinHammingDist"); int mt[64], a = 0; for (int i = 0; i < nv; i++) { mt[i] = rnd(2); a |= mt[i] << i; }
            int ub = rnd(nv + 2), best = 1000; for (int c = 0; c < 1 << nv; c++) if (b.v[c]) best = std::min(best, __builtin_popcount(a ^ c));
            int r = Cudd_MinHammingDist(m, b.f, mt, ub); REQUIRE(r == std::min(best, ub), "distance %d instead of %d (bound %d)", r, best, ub);
        }
        OP("counting and cubes of a diagram with numbers");
        std::set<double> leaves(F.v.begin(), F.v.end()); REQUIRE(Cudd_CountLeaves(F.f) == (int)leaves.size(), "%d leaves instead of %zu", Cudd_CountLeaves(F.f), leaves.size());
        int in[64], a = rnd(1 << nv); for (int i = 0; i < nv; i++) in[i] = a >> i & 1;
        DdNode *e = Cudd_Eval(m, F.f, in); REQUIRE(e && e->type.value == F.v[a], "Cudd_Eval");
        unsigned s = 0; for (int i = 0; i < nv; i++) for (int b = 0; b < AB; b++) if (!(F.v[b] == F.v[b ^ 1 << i])) s |= 1u << i;
        REQUIRE(Cudd_SupportSize(m, F.f) == __builtin_popcount(s), "support");
        DdNode *sc = Cudd_Support(m, F.f); REQUIRE(sc, "no result"); Cudd_Ref(sc);
        for (int b = 0; b < AB; b++) REQUIRE(evalBdd(m, sc, b) == ((b & (int)s) == (int)s), "support cube");
        Cudd_RecursiveDeref(m, sc);
        double nz = 0; for (int b = 0; b < 1 << nv; b++) nz += F.v[b] != 0 && F.v[b] != background;
        if (background == 0) { double c = Cudd_CountMinterm(m, F.f, nv); REQUIRE(c == nz, "%g assignments counted instead of %g", c, nz); }
        DdGen *g; int *cube; CUDD_VALUE_TYPE val; VT seen(AB, 0);
        Cudd_ForeachCube(m, F.f, g, cube, val) for (int b = 0; b < AB; b++) { bool ok = true; for (int i = 0; i < nv; i++) ok = ok && (cube[i] == 2 || cube[i] == (b >> i & 1)); if (ok) { REQUIRE(!seen[b]++, "two cubes for one assignment"); REQUIRE(val == F.v[b], "cube with value %g instead of %g", val, F.v[b]); } }
        for (int b = 0; b < AB; b++) REQUIRE(seen[b] || F.v[b] == 0 || F.v[b] == background, "assignment with value %g in no cube", F.v[b]);
        break;
    }
    case 33: matrixFile(); break;
    }
}
/* covers: sets of literals */
static VT coverFunction(const Fam &f) { VT w(AB); for (int a = 0; a < AB; a++) { bool any = false; for (int s : f) { bool ok = true; for (int i = 0; i < 5 && ok; i++) { if (s >> (2 * i) & 1) ok = a >> i & 1; if (s >> (2 * i + 1) & 1) ok = ok && !(a >> i & 1); } any = any || ok; } w[a] = any; } return w; }
static Fam quotient(const Fam &f, const Fam &g, bool &defined) {
    Fam q; bool first = true; defined = !g.empty();
    for (int c : g) { Fam k; for (int s : f) if ((s & c) == c) k.insert(s & ~c); if (first) q = k; else { Fam n; for (int s : q) if (k.count(s)) n.insert(s); q = n; } first = false; }
    return q;
}
static void zddOps() {
    Z F = zs[rnd(zs.size())], G = zs[rnd(zs.size())], H = zs[rnd(zs.size())];
    int nz = m->sizeZ, v = rnd(nz); Fam t;
    if (chance(30) && F.v.size() > 3) {   /* something that divides */
        Fam q; for (int s : F.v) if (chance(30)) q.insert(s & randomSet()); if (q.empty()) q.insert(0);
        DdNode *r = DD_ZERO(m); Cudd_Ref(r); for (int s : q) { DdNode *c = oneSet(s), *x = Cudd_zddUnion(m, r, c); Cudd_Ref(x); Cudd_RecursiveDerefZdd(m, r); Cudd_RecursiveDerefZdd(m, c); r = x; }
        OP("new zero-suppressed diagram"); holdZ(r, q); Cudd_RecursiveDerefZdd(m, r); G = zs.back();
    }
    switch (rnd(20)) {
    case 0: OP("zddUnion"); t = F.v; t.insert(G.v.begin(), G.v.end()); holdZ(Cudd_zddUnion(m, F.f, G.f), t); break;
    case 1: OP("zddIntersect"); for (int s : F.v) if (G.v.count(s)) t.insert(s); holdZ(Cudd_zddIntersect(m, F.f, G.f), t); break;
    case 2: OP("zddDiff"); for (int s : F.v) if (!G.v.count(s)) t.insert(s); holdZ(Cudd_zddDiff(m, F.f, G.f), t); break;
    case 3: { OP("zddDiffConst"); bool e = true; for (int s : F.v) e = e && G.v.count(s); DdNode *r = Cudd_zddDiffConst(m, F.f, G.f); REQUIRE(r && (r == DD_ZERO(m)) == e, "inclusion"); break; }
    case 4: OP("zddIte"); for (int s : G.v) if (F.v.count(s)) t.insert(s); for (int s : H.v) if (!F.v.count(s)) t.insert(s); holdZ(Cudd_zddIte(m, F.f, G.f, H.f), t); break;
    case 5: if (!cover) { OP("zddChange"); for (int s : F.v) t.insert(s ^ 1 << v); holdZ(Cudd_zddChange(m, F.f, v), t); } break;
    case 6: OP("zddSubset1"); for (int s : F.v) if (s >> v & 1) t.insert(s & ~(1 << v)); holdZ(Cudd_zddSubset1(m, F.f, v), t); break;
    case 7: OP("zddSubset0"); for (int s : F.v) if (!(s >> v & 1)) t.insert(s); holdZ(Cudd_zddSubset0(m, F.f, v), t); break;
    case 8: {
        OP("counting sets"); REQUIRE(Cudd_zddCount(m, F.f) == (int)F.v.size() && Cudd_zddCountDouble(m, F.f) == F.v.size() && Cudd_zddCountMinterm(m, F.f, nz) == F.v.size(), "%d sets counted instead of %zu", Cudd_zddCount(m, F.f), F.v.size());
        OP("paths of a zero-suppressed diagram");
        DdGen *g; int *path; Fam got; std::vector<std::pair<int, std::string>> names; char buf[64];
        Cudd_zddForeachPath(m, F.f, g, path) { int s = 0; for (int i = 0; i < nz; i++) if (path[i] == 1) s |= 1 << i; REQUIRE(got.insert(s).second, "a set twice"); if (cover) { char *r = Cudd_zddCoverPathToString(m, path, buf); REQUIRE(r == buf, "no string"); names.push_back({s, buf}); } }
        REQUIRE(got == F.v, "%zu paths instead of %zu", got.size(), F.v.size());
        for (auto &x : names) { std::string w; for (int i = 0; i < nz / 2; i++) w += (x.first >> (2 * i) & 1) ? '1' : (x.first >> (2 * i + 1) & 1) ? '0' : '-'; REQUIRE(cubeOk(x.first) ? x.second == w : true, "cube %s instead of %s", x.second.c_str(), w.c_str()); }
        break;
    }
    case 9: { OP("zddSupport"); int s = 0; for (int x : F.v) s |= x; if (s >= 1 << m->size) break; DdNode *r = Cudd_zddSupport(m, F.f); REQUIRE(r, "no result"); Cudd_Ref(r); for (int a = 0; a < NA; a++) REQUIRE(evalBdd(m, r, a) == ((a & s) == s), "not the cube of the support"); Cudd_RecursiveDeref(m, r); break; }
    case 10: case 11: { if (F.v.size() * G.v.size() > 4000) break; OP("zddUnateProduct"); if (cover) break; for (int a : F.v) for (int b : G.v) t.insert(a | b); holdZ(Cudd_zddUnateProduct(m, F.f, G.f), t); break; }
    case 12: case 13: { if (!cover || F.v.size() * G.v.size() > 4000) break; OP("zddProduct"); for (int a : F.v) for (int b : G.v) if (cubeOk(a | b)) t.insert(a | b); holdZ(Cudd_zddProduct(m, F.f, G.f), t); break; }
    case 14: case 15: { if (cover) break; bool d; Fam q = quotient(F.v, G.v, d); if (!d) break; bool f = chance(50); OP(f ? "zddDivideF" : "zddDivide"); holdZ(f ? Cudd_zddDivideF(m, F.f, G.f) : Cudd_zddDivide(m, F.f, G.f), q); break; }
    case 16: case 17: { if (!cover) break; bool d; Fam q = quotient(F.v, G.v, d); if (!d) break; bool f = chance(50); OP(f ? "zddWeakDivF" : "zddWeakDiv"); holdZ(f ? Cudd_zddWeakDivF(m, F.f, G.f) : Cudd_zddWeakDiv(m, F.f, G.f), q); break; }
    case 18: {
        if (!cover) break;
        if (chance(50)) { OP("MakeBddFromZddCover"); holdB(Cudd_MakeBddFromZddCover(m, F.f), coverFunction(F.v)); break; }
        OP("zddComplement"); DdNode *r = Cudd_zddComplement(m, F.f); REQUIRE(r, "no result"); Cudd_Ref(r); Fam g = family(r);
        for (int s : g) REQUIRE(cubeOk(s), "contradictory cube");
        VT a = coverFunction(F.v), b = coverFunction(g); for (int x = 0; x < AB; x++) REQUIRE(a[x] != b[x], "not the complement at %d", x);
        holdZ(r, g); Cudd_RecursiveDerefZdd(m, r);
        break;
    }
    case 19: {
        if (!cover || bs.empty()) break;
        A L = bs[rnd(bs.size())], U = bs[rnd(bs.size())]; VT l(AB), u(AB); bool neg = chance(50);
        DdNode *lo = Cudd_bddAnd(m, L.f, Cudd_NotCond(U.f, neg)); Cudd_Ref(lo);
        for (int a = 0; a < AB; a++) { l[a] = L.v[a] && (neg ? !U.v[a] : U.v[a]); u[a] = L.v[a]; }
        OP("zddIsop"); DdNode *z = NULL, *b = Cudd_zddIsop(m, lo, L.f, &z); REQUIRE(b && z, "no result"); Cudd_Ref(b); Cudd_Ref(z);
        Fam g = family(z); VT w = coverFunction(g);
        for (int s : g) REQUIRE(cubeOk(s), "contradictory cube");
        for (int a = 0; a < AB; a++) REQUIRE((!l[a] || w[a]) && (!w[a] || u[a]), "cover outside of the bounds at %d", a);
        for (int s : g) { Fam h = g; h.erase(s); VT x = coverFunction(h); bool needed = false; for (int a = 0; a < AB; a++) needed = needed || (l[a] && !x[a]); REQUIRE(needed, "redundant cube %x", s); }
        holdB(b, w); holdZ(z, g);
        Cudd_RecursiveDeref(m, b); Cudd_RecursiveDerefZdd(m, z); Cudd_RecursiveDeref(m, lo);
        break;
    }
    }
}
static void someEvent() {
    switch (rnd(8)) {
    case 0: {                                    /* zero-suppressed variables in another order, literals of a variable adjacent */
        int n = m->sizeZ, p[64]; std::vector<int> o;
        if (cover) { std::vector<int> q; for (int i = 0; i < n / 2; i++) q.push_back(i); for (int i = n / 2 - 1; i > 0; i--) std::swap(q[i], q[rnd(i + 1)]); for (int i : q) { bool sw = chance(0); o.push_back(2 * i + sw); o.push_back(2 * i + !sw); } }
        else { for (int i = 0; i < n; i++) o.push_back(i); for (int i = n - 1; i > 0; i--) std::swap(o[i], o[rnd(i + 1)]); }
        for (int i = 0; i < n; i++) p[i] = o[i];
        currentOp = "zddShuffleHeap"; REQUIRE(Cudd_zddShuffleHeap(m, p) == 1, "shuffle failed"); counters["events: shuffle of zero-suppressed variables"]++;
        break;
    }
    case 1: if (!cover) { currentOp = "zddReduceHeap"; REQUIRE(Cudd_zddReduceHeap(m, chance(50) ? CUDD_REORDER_SIFT : CUDD_REORDER_SYMM_SIFT, 0) == 1, "reordering failed"); counters["events: reordering of zero-suppressed variables"]++; } break;
    default: event(m);
    }
}
static long base() { long r = m->size + (m->sizeZ > 0); for (auto *p : {&as, &bs}) for (auto &o : *p) r += Cudd_Regular(o.f)->index != CUDD_CONST_INDEX; for (auto &o : zs) r += o.f->index != CUDD_CONST_INDEX; return r; }
static void check(bool deep) {
    for (auto &o : as) REQUIRE(addTable(o.f) == o.v, "a held diagram with numbers changed");
    for (auto &o : bs) REQUIRE(bddTable(o.f) == o.v, "a held Boolean diagram changed");
    for (auto &o : zs) REQUIRE(family(o.f) == o.v, "a held zero-suppressed diagram changed");
    counters["held diagrams compared"] += as.size() + bs.size() + zs.size();
    if (deep) { managerCheck(m); long g = outsideRefs(m), w = base(); REQUIRE(g == w, "%ld references from outside instead of %ld", g, w); }
}
int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IONBF, 0);
    seedRng(strtoull(argv[1], NULL, 10));
    long steps = atol(argv[2]);
    int paranoid = getenv("PARANOID") ? atoi(getenv("PARANOID")) : 0;    /* 1: collect and count all references after every step, 2: consistency check only */
    int tight = chance(50) ? 0 : chance(50) ? 20 : 90;
    cover = chance(50);
    int nv = cover ? 2 + rnd(4) : 2 + rnd(5);
    m = newManager(nv, cover ? 0 : 1 + rnd(8));
    if (cover) { REQUIRE(Cudd_zddVarsFromBddVars(m, 2) == 1 && m->sizeZ == 2 * nv, "variables of the covers"); }
    Cudd_FreeZddTree(m);
    if (chance(25)) { background = chance(50) ? -1 : 7; DdNode *b = Cudd_addConst(m, background); Cudd_Ref(b); Cudd_SetBackground(m, b); }
    for (step = 0; step < steps; step++) {
        while (as.size() > 16) { size_t i = rnd(as.size()); Cudd_RecursiveDeref(m, as[i].f); as[i] = as.back(); as.pop_back(); }
        while (bs.size() > 10) { size_t i = rnd(bs.size()); Cudd_RecursiveDeref(m, bs[i].f); bs[i] = bs.back(); bs.pop_back(); }
        while (zs.size() > 12) { size_t i = rnd(zs.size()); Cudd_RecursiveDerefZdd(m, zs[i].f); zs[i] = zs.back(); zs.pop_back(); }
        if (as.size() < 6 || chance(12)) newAdd(rnd(3));
        if (bs.size() < 3 || chance(5)) newBdd();
        if (zs.size() < 4 || chance(8)) newZdd();
        if (chance(2)) { OP("infinity"); DdNode *f = chance(70) ? DD_PLUS_INFINITY(m) : DD_MINUS_INFINITY(m); holdA(f, VT(AB, f->type.value)); }
        if (tight && chance(tight)) fullTables(m);
        if (chance(60)) addOps(); else zddOps();
        if (paranoid == 1) check(true);
        else if (paranoid == 2) managerCheck(m);
        if (chance(12)) { someEvent(); currentOp += " (event)"; check(chance(20)); }
    }
    currentOp = "end";
    counters["collections of the manager"] += Cudd_ReadGarbageCollections(m);
    check(true);
    finish(0);
}
