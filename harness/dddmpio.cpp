/* Histories of saving and loading decision diagrams (C33), judged by evaluation. usage: dddmpio seed steps [bdd|add|convert|cut|full] */
#include "ddtest.h"
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "dddmp.h"
}
#undef fail
static std::string sf(const char *fmt, ...) { va_list a; va_start(a, fmt); char b[1000]; vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
#define OP(name) do { currentOp = name; counters[std::string("op ") + (name)]++; } while (0)
#ifdef DD_THREADS
#define QUIET_ON
#define QUIET_OFF
#else
#define QUIET_ON FILE *err = stderr; stderr = fopen("/dev/null", "w")
#define QUIET_OFF fclose(stderr); stderr = err
#endif
static TL std::string dir, fileName;
typedef std::vector<double> VT;
static double evalAdd(DdNode *f, int a) {
    while (f->index != CUDD_CONST_INDEX) f = (a >> f->index & 1) ? f->type.kids.T : f->type.kids.E;
    return f->type.value;
}

struct Side {
    DdManager *m;
    std::vector<DdNode *> fs; std::vector<TT> tt;         /* held Boolean diagrams */
    std::vector<DdNode *> as; std::vector<VT> at;         /* held diagrams with numbers */
    long base() { long r = 0; for (DdNode *f : fs) r += Cudd_Regular(f)->index != CUDD_CONST_INDEX; for (DdNode *f : as) r += f->index != CUDD_CONST_INDEX; return r + m->size; }
};
static DdNode *randomBdd(DdManager *m, int depth) {
    int n = m->size;
    if (depth == 0 || chance(8)) { DdNode *r = chance(15) || !n ? Cudd_NotCond(Cudd_ReadOne(m), rnd(2)) : Cudd_NotCond(Cudd_bddIthVar(m, rnd(n)), rnd(2)); Cudd_Ref(r); return r; }
    DdNode *a = randomBdd(m, depth - 1), *b = randomBdd(m, depth - 1), *r;
    if (chance(30)) { DdNode *c = randomBdd(m, depth - 1); r = Cudd_bddIte(m, a, b, c); Cudd_Ref(r); Cudd_RecursiveDeref(m, c); }
    else { r = chance(50) ? Cudd_bddXor(m, a, b) : Cudd_NotCond(Cudd_bddAnd(m, a, b), rnd(2)); Cudd_Ref(r); }
    Cudd_RecursiveDeref(m, a); Cudd_RecursiveDeref(m, b);
    return r;
}
static double someNumber() {
    switch (rnd(9)) {
    case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 1.0 / 3; case 4: return rnd(100000) * 1e6 + rnd(1000000) + 0.125;
    case 5: return -(double)(1 + rnd(999)) / 7; case 6: return rnd(2) ? 1e-300 * (1 + rnd(9)) : 1.7e308; case 7: return ldexp((double)rnd(1 << 30) + 1, (int)rnd(200) - 100);
    default: return rnd(6);
    }
}
static DdNode *randomAdd(DdManager *m, int depth) {
    DdNode *r;
    if (depth == 0 || chance(15) || !m->size) { r = chance(3) ? (rnd(2) ? Cudd_ReadPlusInfinity(m) : Cudd_ReadMinusInfinity(m)) : Cudd_addConst(m, someNumber()); Cudd_Ref(r); return r; }
    DdNode *v = Cudd_addIthVar(m, rnd(m->size)); Cudd_Ref(v);
    DdNode *a = randomAdd(m, depth - 1), *b = randomAdd(m, depth - 1);
    r = Cudd_addIte(m, v, a, b); Cudd_Ref(r);
    Cudd_RecursiveDeref(m, v); Cudd_RecursiveDeref(m, a); Cudd_RecursiveDeref(m, b);
    return r;
}
static VT addTable(DdNode *f) { VT t(NA); for (int a = 0; a < NA; a++) t[a] = evalAdd(f, a); return t; }
static void refill(Side &s) {
    if (s.fs.size() > 14) for (int k = 0; k < 6; k++) { int i = rnd(s.fs.size()); Cudd_RecursiveDeref(s.m, s.fs[i]); s.fs.erase(s.fs.begin() + i); s.tt.erase(s.tt.begin() + i); }
    if (s.as.size() > 8) for (int k = 0; k < 4; k++) { int i = rnd(s.as.size()); Cudd_RecursiveDeref(s.m, s.as[i]); s.as.erase(s.as.begin() + i); s.at.erase(s.at.begin() + i); }
    for (int k = 0; k < 4; k++) { DdNode *f = randomBdd(s.m, 1 + rnd(6)); s.fs.push_back(f); s.tt.push_back(table(s.m, f)); }
    for (int k = 0; k < 3; k++) { DdNode *f = randomAdd(s.m, rnd(6)); s.as.push_back(f); s.at.push_back(addTable(f)); }
}
static DdNode *fromTable(DdManager *m, const TT &t, int n, int v = 0, int a = 0) {   /* built anew with the library, for the comparison of pointers */
    if (v == n) { DdNode *r = Cudd_NotCond(Cudd_ReadOne(m), !t[a]); Cudd_Ref(r); return r; }
    DdNode *h = fromTable(m, t, n, v + 1, a | 1 << v), *l = fromTable(m, t, n, v + 1, a);
    DdNode *r = Cudd_bddIte(m, Cudd_bddIthVar(m, v), h, l); Cudd_Ref(r);
    Cudd_RecursiveDeref(m, h); Cudd_RecursiveDeref(m, l);
    return r;
}
static void sideCheck(Side &s, const char *when, bool deep) {
    for (size_t i = 0; i < s.fs.size(); i++) REQUIRE(table(s.m, s.fs[i]) == s.tt[i], "%s: a held diagram changed", when);
    for (size_t i = 0; i < s.as.size(); i++) REQUIRE(addTable(s.as[i]) == s.at[i], "%s: a held diagram with numbers changed", when);
    if (!s.fs.empty()) {
        size_t i = rnd(s.fs.size());
        DdNode *f = fromTable(s.m, s.tt[i], s.m->size);
        REQUIRE(f == s.fs[i], "%s: rebuilding a held function gives another node", when);
        Cudd_RecursiveDeref(s.m, f);
    }
    for (size_t i = 0; i < s.as.size(); i++) {
        DdNode *c = Cudd_addConst(s.m, s.at[i][0]);
        DdNode *f = s.as[i];
        while (f->index != CUDD_CONST_INDEX) f = f->type.kids.E;
        REQUIRE(c == f, "%s: the constant %g has two nodes", when, s.at[i][0]);
    }
    if (deep || getenv("DEEP")) {
        managerCheck(s.m);
        std::set<DdNode *> seen;
        for (DdNode *f : s.fs) wellFormed(s.m, f, seen);
        long have = outsideRefs(s.m), want = s.base();
        REQUIRE(have == want, "%s: %ld references from outside instead of %ld", when, have, want);
    }
}
static void shuffle(DdManager *m) {
    int n = m->size, p[64];
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(p[i], p[rnd(i + 1)]);
    REQUIRE(Cudd_ShuffleHeap(m, p) == 1, "shuffle failed");
}
static std::vector<std::string> somePool(int n) {
    std::vector<std::string> r; std::set<std::string> s;
    while ((int)r.size() < n) {
        std::string x;
        static const char C[] = "abcxyzABC_019.@'-+[]";
        for (int k = 1 + rnd(chance(10) ? 60 : 6); k > 0; k--) x += C[rnd(sizeof C - 1)];
        if (s.insert(x).second) r.push_back(x);
    }
    return r;
}
static std::vector<char *> ptrs(std::vector<std::string> &v) { std::vector<char *> r; for (auto &s : v) r.push_back(&s[0]); return r; }
static std::string slurp(const std::string &f) { std::string r; FILE *fp = fopen(f.c_str(), "r"); if (!fp) return r; char b[4096]; size_t l; while ((l = fread(b, 1, sizeof b, fp)) > 0) r.append(b, l); fclose(fp); return r; }
static void dump(const std::string &f, const std::string &s) { FILE *fp = fopen(f.c_str(), "w"); REQUIRE(fp, "scratch file"); fwrite(s.data(), 1, s.size(), fp); fclose(fp); }
static std::string head(const std::string &s) { std::string r; for (char c : s.substr(0, 700)) r += c == '\n' ? '~' : (c >= 32 && c < 127) ? c : '?'; return r; }

struct Saved {
    bool add, text, names, aux, rootnames;
    std::vector<std::string> vname, rname; std::vector<int> auxid;
    std::vector<int> roots;                     /* indices into the held diagrams, -1 none */
    std::vector<TT> tt; std::vector<VT> vt;
    unsigned support; int nvars; std::vector<int> perm;
};
static int mapped(const std::vector<int> &to, int a) { int r = 0; for (size_t i = 0; i < to.size(); i++) if (to[i] >= 0 && a >> to[i] & 1) r |= 1 << i; return r; }

/* saves some of the held diagrams; returns what the library says */
static int save(Side &s, Saved &x, FILE *fp, const std::string &file) {
    x.nvars = s.m->size;
    x.add = chance(30); x.text = x.add || chance(50);
    x.names = chance(60); x.aux = chance(50); x.rootnames = chance(50);
    x.vname = somePool(x.nvars); x.auxid.clear();
    std::vector<int> pool; for (int i = 0; i < 20; i++) pool.push_back(i);
    for (int i = 0; i < x.nvars; i++) { int k = rnd(pool.size()); x.auxid.push_back(pool[k]); pool.erase(pool.begin() + k); }
    int n = chance(60) ? 1 + rnd(4) : 1;
    x.rname = somePool(n);
    x.roots.clear(); x.tt.clear(); x.vt.clear();
    std::vector<DdNode *> f;
    int some = -1;
    for (int i = 0; i < n; i++) {
        size_t k = rnd(x.add ? s.as.size() : s.fs.size());
        if (n > 1 && chance(8) && (some >= 0 || i + 1 < n)) { x.roots.push_back(-1); f.push_back(NULL); x.tt.push_back(TT()); x.vt.push_back(VT(NA)); continue; }
        some = i;
        x.roots.push_back((int)k);
        f.push_back(x.add ? s.as[k] : s.fs[k]);
        x.tt.push_back(x.add ? TT() : s.tt[k]); x.vt.push_back(x.add ? s.at[k] : VT(NA));
    }
    if (some < 0) { x.roots[0] = 0; f[0] = x.add ? s.as[0] : s.fs[0]; x.tt[0] = x.add ? TT() : s.tt[0]; x.vt[0] = x.add ? s.at[0] : VT(NA); }
    x.support = 0;
    for (size_t i = 0; i < f.size(); i++) if (f[i]) {
        if (x.add) { for (int v = 0; v < NV; v++) for (int a = 0; a < NA; a++) if (!(x.vt[i][a] == x.vt[i][a ^ 1 << v])) x.support |= 1u << v; }
        else x.support |= supp(x.tt[i]);
    }
    x.perm.clear();
    for (int i = 0; i < x.nvars; i++) x.perm.push_back(s.m->perm[i]);
    std::vector<char *> vn = ptrs(x.vname), rn = ptrs(x.rname);
    std::vector<char *> keep = vn;
    Dddmp_VarInfoType info = (Dddmp_VarInfoType)rnd(5);
    int mode = x.add ? (chance(80) ? DDDMP_MODE_TEXT : DDDMP_MODE_DEFAULT) : x.text ? DDDMP_MODE_TEXT : (chance(50) ? DDDMP_MODE_BINARY : DDDMP_MODE_DEFAULT);
    if (chance(5) && x.names && x.nvars) { vn[rnd(x.nvars)] = NULL; }
    std::vector<std::string> freed;
    int r;
    std::string dd = chance(50) ? "some_diagram" : "";
    char *ddn = dd.empty() ? NULL : &dd[0];
    char fn[300]; snprintf(fn, sizeof fn, "%s", file.c_str());
    QUIET_ON;
    if (x.add) {
        OP("save numbers");
        if (n == 1 && !x.rootnames && chance(50)) r = Dddmp_cuddAddStore(s.m, ddn, f[0], x.names ? vn.data() : NULL, x.aux ? x.auxid.data() : NULL, mode, info, fn, fp);
        else r = Dddmp_cuddAddArrayStore(s.m, ddn, n, f.data(), x.rootnames ? rn.data() : NULL, x.names ? vn.data() : NULL, x.aux ? x.auxid.data() : NULL, mode, info, fn, fp);
    } else {
        OP(x.text ? "save text" : "save binary");
        if (n == 1 && !x.rootnames && chance(50)) r = Dddmp_cuddBddStore(s.m, ddn, f[0], x.names ? vn.data() : NULL, x.aux ? x.auxid.data() : NULL, mode, info, fn, fp);
        else r = Dddmp_cuddBddArrayStore(s.m, ddn, n, f.data(), x.rootnames ? rn.data() : NULL, x.names ? vn.data() : NULL, x.aux ? x.auxid.data() : NULL, mode, info, fn, fp);
    }
    QUIET_OFF;
    for (int i = 0; i < x.nvars; i++) if (vn[i] != keep[i] && vn[i]) { x.vname[i] = vn[i]; free(vn[i]); }   /* a name made up for one not given */
    return r;
}

/* loads into `d` with a random way of matching; -1: not applicable */
static int load(Side &d, Saved &x, FILE *fp, const std::string &file, std::vector<DdNode *> &res, std::vector<int> &to, std::vector<int> &order, bool sameManager) {
    int nd = d.m->size, mode;
    Dddmp_VarMatchType match;
    std::vector<int> aux(nd, -1), comp(std::max(nd, x.nvars), 0);
    std::vector<std::string> names;
    to.assign(x.nvars, -1);                     /* variable of the source -> variable of the target */
    order.clear();
    for (size_t i = 0; i < x.roots.size(); i++) order.push_back(i);
    std::vector<int> perm;                      /* an injection of the source variables into the target ones */
    for (int i = 0; i < nd; i++) perm.push_back(i);
    for (int i = nd - 1; i > 0; i--) std::swap(perm[i], perm[rnd(i + 1)]);
    for (;;) {
        match = (Dddmp_VarMatchType)rnd(5);
        if (match == DDDMP_VAR_MATCHAUXIDS && !x.aux) continue;
        if (match == DDDMP_VAR_MATCHNAMES && !x.names) continue;
        if (match != DDDMP_VAR_MATCHIDS && nd < x.nvars) { if (chance(10)) match = DDDMP_VAR_MATCHIDS; else continue; }
        break;
    }
    for (int i = 0; i < x.nvars; i++) switch (match) {
        case DDDMP_VAR_MATCHIDS: to[i] = i; break;
        case DDDMP_VAR_MATCHPERMIDS: to[i] = Cudd_ReadInvPerm(d.m, x.perm[i]); break;
        default: to[i] = perm[i]; break;
    }
    /* numbers and names of the target: those of the file for the matched variables, others or none for the rest */
    std::set<int> used; for (int i = 0; i < x.nvars; i++) if (x.support >> i & 1) used.insert(x.auxid[i]);
    for (int i = 0; i < nd; i++) { aux[i] = 20 + i; }
    for (int i = 0; i < x.nvars; i++) if (to[i] >= 0 && to[i] < nd && (x.support >> i & 1 || chance(50))) aux[to[i]] = x.auxid[i];
    names = somePool(nd);
    for (auto &s : names) s = "~" + s;
    std::vector<char *> np = ptrs(names);
    std::vector<std::string> own = x.vname;
    for (int i = 0; i < nd; i++) if (chance(5)) np[i] = NULL;
    for (int i = 0; i < x.nvars; i++) if (to[i] >= 0 && to[i] < nd && (x.support >> i & 1 || chance(50))) np[to[i]] = &own[i][0];
    for (size_t i = 0; i < comp.size(); i++) comp[i] = i < to.size() && to[i] >= 0 ? to[i] : (int)i;
    bool composeOk = match != DDDMP_VAR_COMPOSEIDS || x.nvars <= nd;
    REQUIRE(composeOk, "harness");
    mode = chance(40) ? DDDMP_MODE_DEFAULT : x.text ? DDDMP_MODE_TEXT : DDDMP_MODE_BINARY;
    std::vector<std::string> wanted; std::vector<char *> wp;
    Dddmp_RootMatchType rm = DDDMP_ROOT_MATCHLIST;
    if (x.rootnames && chance(50)) {
        rm = DDDMP_ROOT_MATCHNAMES;
        for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[rnd(i + 1)]);
        for (int i : order) wanted.push_back(x.rname[i]);
        wp = ptrs(wanted);
    }
    currentOp = sf("load %s, variables matched by %s%s", x.add ? "numbers" : x.text ? "text" : "binary", match == DDDMP_VAR_MATCHIDS ? "ids" : match == DDDMP_VAR_MATCHPERMIDS ? "permids" : match == DDDMP_VAR_MATCHAUXIDS ? "auxids" : match == DDDMP_VAR_MATCHNAMES ? "names" : "composeids", rm == DDDMP_ROOT_MATCHNAMES ? ", roots by names" : "");
    counters["op " + currentOp]++;
    char fn[300]; snprintf(fn, sizeof fn, "%s", file.c_str());
    DdNode **roots = NULL;
    QUIET_ON;
    int r = x.add ? Dddmp_cuddAddArrayLoad(d.m, rm, wp.data(), match, np.data(), aux.data(), comp.data(), mode, fn, fp, &roots)
                  : Dddmp_cuddBddArrayLoad(d.m, rm, wp.data(), match, np.data(), aux.data(), comp.data(), mode, fn, fp, &roots);
    QUIET_OFF;
    res.clear();
    for (int i = 0; i < r; i++) res.push_back(roots[i]);
    if (roots) free(roots);
    (void)sameManager;
    return r;
}
static void judge(Side &d, Saved &x, std::vector<DdNode *> &res, std::vector<int> &to, std::vector<int> &order, const std::string &content) {
    REQUIRE(res.size() == x.roots.size(), "%zu diagrams loaded, %zu saved; %s", res.size(), x.roots.size(), head(content).c_str());
    for (int i = 0; i < x.nvars; i++) if (!(x.support >> i & 1)) to[i] = -1;
    for (size_t i = 0; i < res.size(); i++) {
        int o = order[i];
        if (x.roots[o] < 0) { REQUIRE(!res[i], "a diagram loaded for a missing root"); continue; }
        REQUIRE(res[i], "no diagram loaded");
        for (int a = 0; a < NA; a++) {
            int b = mapped(to, a);
            if (x.add) { double g = evalAdd(res[i], a), w = x.vt[o][b]; REQUIRE(g == w, "root %zu: value %.17g instead of %.17g; %s", i, g, w, head(content).c_str()); }
            else REQUIRE(evalBdd(d.m, res[i], a) == x.tt[o][b], "root %zu: another function loaded; %s", i, head(content).c_str());
        }
        counters["diagrams loaded and compared"]++;
        if (x.support) counters["diagrams that depend on variables"]++;
    }
}
static void drop(Side &d, std::vector<DdNode *> &res, bool add) {
    for (DdNode *f : res) if (f) {
        if (chance(20) && !add) { d.fs.push_back(f); d.tt.push_back(table(d.m, f)); }
        else if (chance(20) && add) { d.as.push_back(f); d.at.push_back(addTable(f)); }
        else Cudd_RecursiveDeref(d.m, f);
    }
    res.clear();
}
static void headerCheck(Saved &x, const std::string &file) {
    OP("load header");
    Dddmp_DecompType t; int nv, ns, nr, *ids, *pids, *aids; char **sn, **on;
    char fn[300]; snprintf(fn, sizeof fn, "%s", file.c_str());
    int r = Dddmp_cuddHeaderLoad(&t, &nv, &ns, &sn, &on, &ids, &pids, &aids, &nr, fn, NULL);
    REQUIRE(r == DDDMP_SUCCESS, "header not loaded");
    REQUIRE(t == (x.add ? DDDMP_ADD : DDDMP_BDD), "kind of diagrams");
    REQUIRE(nv == x.nvars && ns == __builtin_popcount(x.support) && nr == (int)x.roots.size(), "numbers of variables or roots");
    int k = 0;
    for (int i = 0; i < x.nvars; i++) if (x.support >> i & 1) {
        REQUIRE(ids[k] == i && pids[k] == x.perm[i], "ids of variable %d", i);
        if (x.aux) REQUIRE(aids && aids[k] == x.auxid[i], "number of variable %d", i);
        if (x.names) REQUIRE(sn && x.vname[i] == sn[k], "name of variable %d", i);
        k++;
    }
    if (!x.aux) REQUIRE(!aids, "numbers out of nothing");
    REQUIRE(!nv || (!x.names == !sn && !x.names == !on), "names");
    if (x.names && nv) for (int l = 0; l < nv; l++) { int v = 0; while (x.perm[v] != l) v++; REQUIRE(x.vname[v] == on[l], "name of level %d", l); free(on[l]); }
    if (sn) { for (int i = 0; i < ns; i++) free(sn[i]); free(sn); }
    free(on); free(ids); free(pids); free(aids);
}
static void ulimitFile(long n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n < 0 ? l.rlim_max : (rlim_t)n; setrlimit(RLIMIT_FSIZE, &l); }

/* large diagrams: more than 256 variables, thousands of nodes */
static bool evalBig(DdManager *m, DdNode *f, const std::vector<char> &a) { DdNode *g = Cudd_Regular(f); bool neg = g != f; while (g->index != CUDD_CONST_INDEX) { DdNode *k = a[g->index] ? g->type.kids.T : g->type.kids.E; neg ^= Cudd_IsComplement(k); g = Cudd_Regular(k); } (void)m; return !neg; }
static void big() {
    int n = chance(40) ? 250 + rnd(60) : 8 + rnd(40);
    DdManager *m = newManager(n, 0), *o = newManager(n, 0);
    std::vector<int> p(n);                      /* the orders of the two managers differ much for few variables, little for many (sizes would explode) */
    for (int i = 0; i < n; i++) p[i] = i;
    bool natural = !chance(60);
    if (!natural) for (int i = n - 1; i > 0; i--) std::swap(p[i], p[rnd(i + 1)]);
    REQUIRE(Cudd_ShuffleHeap(m, p.data()) == 1, "shuffle failed");
    if (n < 13) { for (int i = n - 1; i > 0; i--) std::swap(p[i], p[rnd(i + 1)]); }
    else for (int k = rnd(8); k > 0; k--) { int i = rnd(n - 1); std::swap(p[i], p[i + 1]); }
    REQUIRE(Cudd_ShuffleHeap(o, p.data()) == 1, "shuffle failed");
    std::vector<DdNode *> f;
    int roots = 1 + rnd(4), size = chance(50) ? 40 : 8, limit = chance(2) ? 25000 : chance(50) ? 2000 : 300;
    for (int i = 0; i < roots; i++) {
        DdNode *r = Cudd_NotCond(Cudd_ReadOne(m), rnd(2)); Cudd_Ref(r);
        for (int k = 0; k < size; k++) {
            DdNode *c = Cudd_ReadOne(m); Cudd_Ref(c);
            for (int l = 2 + rnd(n < 50 ? 4 : 12); l > 0; l--) { DdNode *x = Cudd_bddAnd(m, c, Cudd_NotCond(Cudd_bddIthVar(m, rnd(n)), rnd(2))); Cudd_Ref(x); Cudd_RecursiveDeref(m, c); c = x; }
            DdNode *x = Cudd_bddXnorLimit(m, r, c, 4 * limit); if (!x) { Cudd_RecursiveDeref(m, c); break; } Cudd_Ref(x); Cudd_RecursiveDeref(m, c);
            if (Cudd_DagSize(x) > limit) { Cudd_RecursiveDeref(m, x); break; }
            Cudd_RecursiveDeref(m, r); r = x;
        }
        f.push_back(r);
    }
    if (roots == 1 && chance(30)) {   /* a cube of all variables: a chain in which every node follows its child */
        Cudd_RecursiveDeref(m, f[0]); f[0] = Cudd_ReadOne(m); Cudd_Ref(f[0]);
        for (int l = n - 1; l >= 0; l--) { int v = m->invperm[l]; DdNode *x = chance(50) ? Cudd_bddAnd(m, f[0], Cudd_NotCond(Cudd_bddIthVar(m, v), rnd(2))) : Cudd_bddXor(m, f[0], Cudd_bddIthVar(m, v)); Cudd_Ref(x); Cudd_RecursiveDeref(m, f[0]); f[0] = x; }
    }
    int total = Cudd_SharingSize(f.data(), roots);
    std::vector<std::string> names; for (int i = 0; i < n; i++) names.push_back(sf("v%d_%u", i, rnd(1000)));
    std::vector<char *> np = ptrs(names); std::vector<int> aux(n); for (int i = 0; i < n; i++) aux[i] = (i * 7 + 3) % 1000 + 1000 * (i / 1000);
    bool text = chance(30);
    currentOp = text ? "large diagrams in text mode" : "large diagrams in binary mode"; counters["op " + currentOp]++;
    char fn[300]; snprintf(fn, sizeof fn, "%s", fileName.c_str());
    bool withNames = chance(50), withAux = chance(50);
    REQUIRE(Dddmp_cuddBddArrayStore(m, NULL, roots, f.data(), NULL, withNames ? np.data() : NULL, withAux ? aux.data() : NULL, text ? DDDMP_MODE_TEXT : DDDMP_MODE_BINARY, (Dddmp_VarInfoType)rnd(5), fn, NULL) == DDDMP_SUCCESS, "not saved");
    counters["large files"]++;
    counters["nodes in large files"] += total;
    if (total > 16384) counters["large files with node ids of three bytes"]++;
    if (total > 128) counters["large files with node ids of two bytes"]++;
    for (int k = 0; k < 3; k++) {
        DdManager *d = k == 0 ? m : o;
        Dddmp_VarMatchType match = k == 2 && withNames ? DDDMP_VAR_MATCHNAMES : k == 2 && withAux ? DDDMP_VAR_MATCHAUXIDS : DDDMP_VAR_MATCHIDS;
        DdNode **r = NULL;
        QUIET_ON;
        int got = Dddmp_cuddBddArrayLoad(d, DDDMP_ROOT_MATCHLIST, NULL, match, np.data(), aux.data(), NULL, DDDMP_MODE_DEFAULT, fn, NULL, &r);
        QUIET_OFF;
        REQUIRE(got == roots, "%d of %d diagrams loaded", got, roots);
        for (int i = 0; i < roots; i++) {
            if (d == m) REQUIRE(r[i] == f[i], "loading into the same manager gives another node");
            std::vector<char> a(n);
            for (int t = 0; t < 100; t++) { for (int v = 0; v < n; v++) a[v] = rnd(2); REQUIRE(evalBig(d, r[i], a) == evalBig(m, f[i], a), "another function loaded"); }
            Cudd_RecursiveDeref(d, r[i]);
        }
        free(r);
    }
    if (natural || n < 13) {                    /* the converters work in the order of the ids */
        for (int k = 0; k < 2; k++) {
            std::string out = dir + "/e"; char f2[300]; snprintf(f2, 300, "%s", out.c_str());
            QUIET_ON;
            int r = text ? Dddmp_Text2Bin(fn, f2) : Dddmp_Bin2Text(fn, f2);
            QUIET_OFF;
            REQUIRE(r == 1, "conversion failed");
            text = !text; REQUIRE(rename(out.c_str(), fileName.c_str()) == 0, "scratch file");
        }
        DdNode **r = NULL;
        int got = Dddmp_cuddBddArrayLoad(m, DDDMP_ROOT_MATCHLIST, NULL, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, fn, NULL, &r);
        REQUIRE(got == roots, "%d of %d diagrams loaded after two conversions", got, roots);
        for (int i = 0; i < roots; i++) { REQUIRE(r[i] == f[i], "two conversions and loading into the same manager give another node"); Cudd_RecursiveDeref(m, r[i]); }
        free(r);
        counters["large files converted twice"]++;
    }
    for (DdNode *x : f) Cudd_RecursiveDeref(m, x);
    for (DdManager *w : {m, o}) { managerCheck(w); REQUIRE(Cudd_CheckZeroRef(w) == 0, "references left"); Cudd_Quit(w); }
}

int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IONBF, 0);
    seedRng(strtoull(argv[1], NULL, 10));
    long steps = atol(argv[2]);
    std::string part = argc > 3 ? argv[3] : "";
    char tmpl[] = "/tmp/dddmpioXXXXXX";
    const char *t = getenv("DDDMPIO_DIR");
    dir = t ? t : mkdtemp(tmpl);
#ifdef DD_THREADS
    dir += std::string("/") + argv[4];
    mkdir(dir.c_str(), 0700);
#endif
    fileName = dir + "/d";
    initTT();
    signal(SIGXFSZ, SIG_IGN);
    Side a, b;
    a.m = newManager(rnd(10) ? 1 + rnd(NV) : 0, 0);
    b.m = newManager(rnd(NV + 1), 0);
    Cudd_SetEpsilon(a.m, 0); Cudd_SetEpsilon(b.m, 0);      /* every number is itself */
    for (step = 0; step < steps; step++) {
        currentOp = "random diagrams";
        refill(a); refill(b);
        if (chance(40)) shuffle(a.m);
        if (chance(40)) shuffle(b.m);
        Saved x;
        int what = part == "" ? rnd(10) : part == "convert" ? 6 : part == "cut" ? 7 : part == "full" ? 8 : 0;
#ifdef DD_THREADS
        if (what == 8) what = 0;                             /* the limit would hold for all threads */
#endif
        Side &src = chance(50) ? a : b, &dst = chance(60) ? (&src == &a ? b : a) : src;
        if (what == 8) {                                     /* the disk is full at some point: an incomplete file is not reported as saved */
            long cap = chance(30) ? rnd(40) : rnd(2500);
            ulimitFile(cap);
            int r = save(src, x, NULL, fileName);
            ulimitFile(-1);
            counters["saved under a limit"]++;
            std::string c = slurp(fileName);
            bool whole = c.size() >= 5 && c.substr(c.size() - 5) == ".end\n";
            currentOp += ", disk full";
            if (r == DDDMP_SUCCESS) REQUIRE(whole, "reported as saved, but the file is incomplete (limit %ld)", cap);
            else counters["failures reported"]++;
            sideCheck(src, "after a save under a limit", true);
            if (r != DDDMP_SUCCESS) { unlink(fileName.c_str()); continue; }
        } else if (chance(25)) {                             /* several in one file, through a stream */
            FILE *fp = fopen(fileName.c_str(), "w+");
            std::vector<Saved> xs(1 + rnd(3));
            for (auto &y : xs) { int r = save(src, y, fp, "unused"); REQUIRE(r == DDDMP_SUCCESS, "not saved"); counters["saved"]++; }
            fflush(fp); rewind(fp);
            std::string c = slurp(fileName);
            for (auto &y : xs) {
                std::vector<DdNode *> res; std::vector<int> to, order;
                load(dst, y, fp, "unused", res, to, order, &src == &dst);
                judge(dst, y, res, to, order, c);
                drop(dst, res, y.add);
            }
            fclose(fp);
            counters["several in one stream"]++;
            sideCheck(src, "after saving", false); sideCheck(dst, "after loading", chance(30));
            continue;
        } else { int r = save(src, x, NULL, fileName); REQUIRE(r == DDDMP_SUCCESS, "not saved"); counters["saved"]++; }
        std::string c = slurp(fileName);
        sideCheck(src, "after saving", chance(30));
        headerCheck(x, fileName);
        if (what == 6 && !x.add) {
            bool null = false; for (int r : x.roots) null |= r < 0;
            if (!null) {
                OP(x.text ? "convert to binary" : "convert to text");
                std::string out = dir + "/e";
                char f1[300], f2[300]; snprintf(f1, 300, "%s", fileName.c_str()); snprintf(f2, 300, "%s", out.c_str());
                QUIET_ON;
                int r = x.text ? Dddmp_Text2Bin(f1, f2) : Dddmp_Bin2Text(f1, f2);
                QUIET_OFF;
                REQUIRE(r == 1, "conversion failed");
                x.text = !x.text; x.names = x.aux = x.rootnames = false;
                /* the converter uses a manager of its own, with the variables up to the last one used, in the order of the ids */
                x.nvars = 0; for (int v = 0; v < NV; v++) if (x.support >> v & 1) x.nvars = v + 1;
                x.perm.clear(); for (int v = 0; v < x.nvars; v++) x.perm.push_back(v);
                c = slurp(out);
                REQUIRE(rename(out.c_str(), fileName.c_str()) == 0, "scratch file");
            }
        }
        if (what == 7 && c.size() > 1) {                     /* a prefix of a file: refused, and nothing else happens */
            for (int k = 0; k < 3; k++) {
                size_t l = chance(30) ? rnd(c.size()) : c.size() - 1 - rnd(std::min<size_t>(c.size() - 1, 80));
                std::string p = c.substr(0, l);
                if (l + 1 >= c.size()) continue;
                dump(fileName, p);
                std::vector<DdNode *> res; std::vector<int> to, order;
                int r = load(dst, x, NULL, fileName, res, to, order, false);
                currentOp += ", cut";
                counters["cut files"]++;
                if (l < c.size() - 2) REQUIRE(r == 0, "%d diagrams loaded from %zu of %zu bytes; %s", r, l, c.size(), head(p).c_str());
                drop(dst, res, x.add);
            }
            sideCheck(dst, "after loading cut files", true);
            dump(fileName, c);
        }
        std::vector<DdNode *> res; std::vector<int> to, order;
        load(dst, x, NULL, fileName, res, to, order, &src == &dst);
        judge(dst, x, res, to, order, c);
        if (&src == &dst) {
            bool ident = true;
            for (int i = 0; i < x.nvars; i++) if (x.support >> i & 1 && to[i] != i) ident = false;
            if (ident && what != 6) for (size_t i = 0; i < res.size(); i++) if (x.roots[order[i]] >= 0) { REQUIRE(res[i] == (x.add ? src.as : src.fs)[x.roots[order[i]]], "loading into the same manager gives another node"); counters["same nodes again"]++; }
        }
        drop(dst, res, x.add);
        sideCheck(dst, "after loading", chance(40));
        unlink(fileName.c_str());
        counters["saved and loaded"]++;
    }
    if (part == "" || part == "big") for (int k = 0; k < 3; k++) big();
    for (Side *s : {&a, &b}) {
        currentOp = "end";
        sideCheck(*s, "at the end", true);
        for (DdNode *f : s->fs) Cudd_RecursiveDeref(s->m, f);
        for (DdNode *f : s->as) Cudd_RecursiveDeref(s->m, f);
        REQUIRE(Cudd_CheckZeroRef(s->m) == 0, "references left");
        Cudd_Quit(s->m);
    }
    unlink(fileName.c_str());
    if (!t) rmdir(dir.c_str());
    finish(0);
}
