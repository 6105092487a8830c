/* Histories of operations on the support containers, judged by simple models (C34). usage: support seed steps [st|mtr|epd|apa] */
#include "ddtest.h"
#include <cinttypes>
#include <climits>

static std::string sf(const char *fmt, ...) { va_list a; va_start(a, fmt); char b[1000]; vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
static unsigned long long rnd64() { unsigned long long r = 0; for (int i = 0; i < 4; i++) r = r << 16 | rnd(65536); return r; }
static std::string printed(const std::function<int(FILE *)> &f) {
    char *b = NULL; size_t l = 0;
    FILE *fp = open_memstream(&b, &l);
    int r = f(fp);
    fclose(fp);
    std::string s(b, l);
    free(b);
    REQUIRE(r == 1, "printing failed");
    return s;
}
#define OP(name) do { currentOp = name; counters[std::string("op ") + name]++; } while (0)

/* ------------------------------------------------------------------ hash tables */
struct Table;
struct Key { bool str; unsigned long n; std::string s; bool operator<(const Key &o) const { return str ? s < o.s : n < o.n; } };
struct Entry { void *key; void *value; };
struct Table { st_table *t; int kind; std::map<Key, Entry> m; };      /* kind 0 numbers, 1 pointers, 2 strings, 3 numbers modulo an argument, 4 a constant hash */
static int modCmp(const void *a, const void *b, const void *arg) { return (uintptr_t)a % *(const unsigned *)arg != (uintptr_t)b % *(const unsigned *)arg; }
static int modHash(const void *a, int size, const void *arg) { return (int)((uintptr_t)a % *(const unsigned *)arg % size); }
static int sameHash(const void *, int) { return 0; }
static int plainCmp(const void *a, const void *b) { return (uintptr_t)a < (uintptr_t)b ? -1 : a != b; }
static unsigned moduli[] = {7, 60, 1000};
static std::vector<char *> strings;
static char *newString() {
    std::string s;
    for (int k = rnd(6); k >= 0; k--) s += (char)(chance(10) ? 200 + rnd(50) : 'a' + rnd(3));
    char *c = strdup(s.c_str());
    strings.push_back(c);
    return c;
}
static Table *newTable(int kind, unsigned *&mod) {
    Table *t = new Table();
    t->kind = kind;
    int size = chance(20) ? 0 : 1 + rnd(30), density = 1 + rnd(6), reorder = rnd(2);
    double grow = 1.0 + (1 + rnd(30)) / 10.0;
    st_compare_t cmp[] = {st_numcmp, st_ptrcmp, (st_compare_t)strcmp, NULL, plainCmp};
    st_hash_t hash[] = {st_numhash, st_ptrhash, st_strhash, NULL, sameHash};
    if (kind == 3) t->t = chance(50) ? st_init_table_with_params_and_arg(modCmp, modHash, mod, size, density, grow, reorder) : st_init_table_with_arg(modCmp, modHash, mod);
    else t->t = chance(60) ? st_init_table_with_params(cmp[kind], hash[kind], size, density, grow, reorder) : st_init_table(cmp[kind], hash[kind]);
    REQUIRE(t->t, "no table");
    return t;
}
static unsigned *tableMod;
static void *someKey(int kind, unsigned range) {
    if (kind == 2) return newString();
    if (kind == 1) return (void *)(uintptr_t)(0x1000 + 8 * rnd(range));
    if (chance(5)) return (void *)(uintptr_t)rnd64();
    return (void *)(uintptr_t)rnd(range);
}
static Key keyOf(int kind, void *k) { return kind == 2 ? Key{true, 0, (char *)k} : Key{false, kind == 3 ? (unsigned long)((uintptr_t)k % *tableMod) : (unsigned long)(uintptr_t)k, ""}; }
static std::string show(int kind, void *k) { return kind == 2 ? std::string((char *)k) : sf("%lu", (unsigned long)(uintptr_t)k); }
struct Visit { Table *t; std::map<Key, Entry> seen; int stopAfter; unsigned delPercent; std::vector<Key> deleted; };
static st_retval visit(void *k, void *v, void *arg) {
    Visit *x = (Visit *)arg;
    Key kk = keyOf(x->t->kind, k);
    REQUIRE(!x->seen.count(kk), "key %s visited twice", show(x->t->kind, k).c_str());
    x->seen[kk] = {k, v};
    if (x->stopAfter >= 0 && (int)x->seen.size() > x->stopAfter) return ST_STOP;
    if (chance(x->delPercent)) { x->deleted.push_back(kk); return ST_DELETE; }
    return ST_CONTINUE;
}
static void sameEntries(const std::map<Key, Entry> &a, const std::map<Key, Entry> &b, int kind) {
    REQUIRE(a.size() == b.size(), "%zu entries visited, %zu expected", a.size(), b.size());
    for (auto &p : a) {
        auto q = b.find(p.first);
        REQUIRE(q != b.end() && q->second.key == p.second.key && q->second.value == p.second.value, "entry of key %s differs", show(kind, p.second.key).c_str());
    }
}
static void stHistory(long steps) {
    std::vector<Table *> ts;
    tableMod = &moduli[rnd(3)];
    int kind = rnd(5);
    ts.push_back(newTable(kind, tableMod));
    unsigned range = 1 + rnd(chance(50) ? 20 : 400);
    unsigned growBias = 20 + rnd(60);
    for (long i = 0; i < steps; i++, step++) {
        Table *t = ts[rnd(ts.size())];
        if (chance(2)) growBias = 20 + rnd(60);
        void *k = someKey(kind, range);
        if (!t->m.empty() && chance(30)) {      /* a key that is there, for strings at another address */
            auto it = t->m.begin();
            std::advance(it, rnd(t->m.size()));
            k = it->second.key;
            if (kind == 2) { k = strdup((char *)k); strings.push_back((char *)k); }
            if (kind == 3 && (uintptr_t)k < 1000000) k = (void *)((uintptr_t)k + *tableMod);
        }
        Key kk = keyOf(kind, k);
        auto it = t->m.find(kk);
        bool there = it != t->m.end();
        void *val = (void *)(uintptr_t)rnd64();
        if (chance(growBias)) switch (rnd(3)) {
        case 0: {
            OP("st_insert");
            int r = st_insert(t->t, k, val);
            REQUIRE(r == there, "inserting %s returns %d", show(kind, k).c_str(), r);
            if (there) it->second.value = val; else t->m[kk] = {k, val};
            break;
        }
        case 1: {
            OP("st_find_or_add");
            void **slot = NULL;
            int r = st_find_or_add(t->t, k, &slot);
            REQUIRE(r == there && slot, "find_or_add of %s returns %d", show(kind, k).c_str(), r);
            REQUIRE(*slot == (there ? it->second.value : NULL), "slot content");
            *slot = val;
            if (there) it->second.value = val; else t->m[kk] = {k, val};
            break;
        }
        case 2:
            if (there) break;
            OP("st_add_direct");
            REQUIRE(st_add_direct(t->t, k, val) == 1, "add_direct");
            t->m[kk] = {k, val};
            break;
        } else switch (rnd(9)) {
        case 0: {
            OP("st_lookup");
            void *v = &v, *old = v;
            int r = st_lookup(t->t, k, chance(80) ? &v : NULL);
            REQUIRE(r == there, "lookup of %s returns %d", show(kind, k).c_str(), r);
            REQUIRE(v == old || (there && v == it->second.value), "lookup of %s gives another value", show(kind, k).c_str());
            REQUIRE(!!st_is_member(t->t, k) == there, "st_is_member");
            break;
        }
        case 1: {
            OP("st_lookup_int");
            int v = 12345;
            int r = st_lookup_int(t->t, k, &v);
            REQUIRE(r == there && v == (there ? (int)(intptr_t)it->second.value : 12345), "lookup_int of %s", show(kind, k).c_str());
            break;
        }
        case 2: {
            OP("st_find");
            void **slot = NULL;
            int r = st_find(t->t, k, &slot);
            REQUIRE(r == there && !!slot == there, "find of %s returns %d", show(kind, k).c_str(), r);
            if (there) { REQUIRE(*slot == it->second.value, "find of %s gives another value", show(kind, k).c_str()); if (chance(30)) it->second.value = *slot = val; }
            break;
        }
        case 3: case 4: {
            void *kp = k, *v = NULL;
            int vi = 0, r;
            if (chance(50)) { OP("st_delete"); r = st_delete(t->t, &kp, &v); if (r && there) REQUIRE(v == it->second.value, "deleted value"); }
            else { OP("st_delete_int"); r = st_delete_int(t->t, &kp, &vi); if (r && there) REQUIRE(vi == (int)(intptr_t)it->second.value, "deleted value"); }
            REQUIRE(r == there, "deleting %s returns %d", show(kind, k).c_str(), r);
            REQUIRE(kp == (there ? it->second.key : k), "stored key not handed back");
            if (there) t->m.erase(it);
            break;
        }
        case 5: {
            OP("st_foreach");
            Visit v = {t, {}, chance(30) ? (int)rnd(10) : -1, chance(40) ? rnd(100) : 0, {}};
            int r = st_foreach(t->t, visit, &v);
            bool all = v.stopAfter < 0 || (int)t->m.size() <= v.stopAfter;
            REQUIRE(r == all, "st_foreach returns %d", r);
            if (all) sameEntries(v.seen, t->m, kind);
            for (auto &p : v.seen) { auto q = t->m.find(p.first); REQUIRE(q != t->m.end() && q->second.key == p.second.key && q->second.value == p.second.value, "unknown entry visited"); }
            for (auto &d : v.deleted) t->m.erase(d);
            break;
        }
        case 6: {
            OP("st_gen");
            std::map<Key, Entry> seen;
            std::vector<void *> del;
            st_generator *g = st_init_gen(t->t);
            REQUIRE(g, "no generator");
            void *gk, *gv = NULL; int gi;
            bool ints = chance(30);
            int stop = chance(30) ? (int)rnd(8) : -1;
            while (stop != 0 && (ints ? st_gen_int(g, &gk, &gi) : st_gen(g, &gk, &gv))) {
                Key x = keyOf(kind, gk);
                REQUIRE(!seen.count(x), "key %s generated twice", show(kind, gk).c_str());
                auto q = t->m.find(x);
                REQUIRE(q != t->m.end() && q->second.key == gk && (ints ? gi == (int)(intptr_t)q->second.value : gv == q->second.value), "unknown entry generated");
                seen[x] = q->second;
                if (chance(10)) { void *d = gk, *dv; REQUIRE(st_delete(t->t, &d, &dv) == 1, "deleting the generated key"); del.push_back(gk); }
                stop--;
            }
            st_free_gen(g);
            if (stop != 0) sameEntries(seen, t->m, kind);
            for (void *d : del) t->m.erase(keyOf(kind, d));
            break;
        }
        case 7: {
            if (ts.size() > 3) {
                OP("st_free_table");
                size_t x = rnd(ts.size());
                st_free_table(ts[x]->t);
                delete ts[x];
                ts.erase(ts.begin() + x);
                break;
            }
            OP("st_copy");
            Table *c = new Table(*t);
            c->t = st_copy(t->t);
            REQUIRE(c->t, "no copy");
            ts.push_back(c);
            break;
        }
        case 8: if (ts.size() < 4) ts.push_back(newTable(kind, tableMod)); break;
        }
        for (Table *x : ts) REQUIRE(st_count(x->t) == (int)x->m.size(), "count %d, expected %zu", st_count(x->t), x->m.size());
        counters["largest table"] = std::max<long>(counters["largest table"], ts[0]->m.size());
    }
    for (Table *t : ts) {
        currentOp = "final walk";
        Visit v = {t, {}, -1, 0, {}};
        REQUIRE(st_foreach(t->t, visit, &v) == 1, "st_foreach");
        sameEntries(v.seen, t->m, kind);
        st_free_table(t->t);
        delete t;
    }
    for (char *c : strings) free(c);
    strings.clear();
}

/* ------------------------------------------------------------------ group trees */
struct G { int low, size; unsigned flags; bool operator<(const G &o) const { return low != o.low ? low < o.low : size != o.size ? size > o.size : flags < o.flags; } bool operator==(const G &o) const { return low == o.low && size == o.size && flags == o.flags; } };
static void walk(MtrNode *r, std::vector<MtrNode *> &out) { out.push_back(r); for (MtrNode *c = r->child; c; c = c->younger) walk(c, out); }
static std::vector<G> groups(MtrNode *r) {
    std::vector<MtrNode *> v;
    walk(r, v);
    std::vector<G> g;
    for (MtrNode *x : v) g.push_back({(int)x->low, (int)x->size, x->flags});
    std::sort(g.begin(), g.end());
    return g;
}
static std::string show(const std::vector<G> &g) { std::string s; for (auto &x : g) s += sf(" %d+%d/%x", x.low, x.size, x.flags); return s; }
static void treeWellFormed(MtrNode *r) {
    std::vector<MtrNode *> v;
    walk(r, v);
    for (MtrNode *x : v) {
        REQUIRE(x->size > 0 || x == r, "empty group");
        long end = x->low;
        MtrNode *before = NULL;
        for (MtrNode *c = x->child; c; c = c->younger) {
            REQUIRE(c->parent == x, "wrong parent of %u+%u", c->low, c->size);
            REQUIRE(c->elder == before, "wrong elder of %u+%u", c->low, c->size);
            REQUIRE((long)c->low >= end, "group %u+%u overlaps or precedes its elder", c->low, c->size);
            end = (long)c->low + c->size;
            REQUIRE(end <= (long)x->low + x->size, "group %u+%u sticks out of %u+%u", c->low, c->size, x->low, x->size);
            before = c;
        }
    }
    REQUIRE(!r->elder && !r->younger && !r->parent, "root with relatives");
}
static void sameGroups(MtrNode *r, std::vector<G> want) {
    std::sort(want.begin(), want.end());
    std::vector<G> g = groups(r);
    if (!(g == want)) fail("groups%s expected%s", show(g).c_str(), show(want).c_str());
}
static bool crosses(const G &a, const G &b) { return a.low < b.low + b.size && b.low < a.low + a.size && !(a.low <= b.low && b.low + b.size <= a.low + a.size) && !(b.low <= a.low && a.low + a.size <= b.low + b.size); }
static std::string ordered(MtrNode *r, const std::vector<int> &inv, int base) {
    std::string s = "(";
    int level = r->low;
    for (MtrNode *c = r->child; c; c = c->younger) {
        for (; level < (int)c->low; level++) s += sf(" %d ", inv[level]);
        s += ordered(c, inv, base);
        level += c->size;
    }
    for (; level < (int)(r->low + r->size); level++) s += sf(" %d ", inv[level]);
    if (r->flags) s += std::string("|") + (r->flags & MTR_FIXED ? "F" : "") + (r->flags & MTR_NEWNODE ? "N" : "") + (r->flags & MTR_SOFT ? "S" : "");
    return s + ")";
}
static std::string squeeze(std::string s) {     /* commas and blanks separate */
    std::string r;
    for (char c : s) { if (c == ',' || c == ' ' || c == '\n') c = ' '; if (c == ' ' && (r.empty() || r.back() == ' ' || r.back() == '(' || r.back() == ')')) continue; if ((c == ')' || c == '(' || c == '|') && !r.empty() && r.back() == ' ') r.pop_back(); r += c; }
    while (!r.empty() && r.back() == ' ') r.pop_back();
    return r;
}
static const unsigned FLAGS[] = {MTR_DEFAULT, MTR_FIXED, MTR_SOFT, MTR_NEWNODE, MTR_FIXED | MTR_SOFT};
static void mtrHistory(long steps) {
    int base = chance(70) ? 0 : rnd(10), size = 1 + rnd(chance(50) ? 8 : 40);
    MtrNode *root = Mtr_InitGroupTree(base, size);
    std::vector<G> model = {{base, size, MTR_DEFAULT}};
    for (long i = 0; i < steps; i++, step++) {
        std::vector<MtrNode *> nodes;
        walk(root, nodes);
        MtrNode *x = nodes[rnd(nodes.size())];
        G g = {(int)base + (int)rnd(size + 1), 1 + (int)rnd(chance(50) ? 4 : size + 1), FLAGS[rnd(5)]};
        if (chance(10)) g = {(int)x->low, (int)x->size, FLAGS[rnd(5)]};
        switch (rnd(9)) {
        case 0: case 1: case 2: case 3: {
            if (model.size() > 40) break;
            OP("Mtr_MakeGroup");
            bool possible = g.low >= base && g.low + g.size <= base + size, known = false;
            for (auto &o : model) { possible = possible && !crosses(g, o); known = known || (o.low == g.low && o.size == g.size); }
            if (known && chance(95)) break;
            MtrNode *r = Mtr_MakeGroup(root, g.low, chance(2) ? 0 : g.size, g.flags);
            if (!r && !possible) { counters["groups refused"]++; break; }
            if (!r) { std::vector<G> now = groups(root); REQUIRE(now.size() == model.size(), "refused but changed"); if (possible && g.size) { MtrNode *again = Mtr_MakeGroup(root, g.low, g.size, g.flags); REQUIRE(again, "group %d+%d refused in%s", g.low, g.size, show(model).c_str()); r = again; } else break; }
            REQUIRE(possible, "group %d+%d accepted in%s", g.low, g.size, show(model).c_str());
            REQUIRE((int)r->low == g.low && (int)r->size == g.size, "another group returned");
            if (known && groups(root).size() == model.size()) break;     /* the existing one returned */
            REQUIRE(r->flags == g.flags, "flags");
            model.push_back(g);
            counters["groups made"]++;
            break;
        }
        case 4: {
            OP("Mtr_DissolveGroup");
            G d = {(int)x->low, (int)x->size, x->flags};
            MtrNode *p = x->parent;
            bool can = p && x->child;
            if (!can && chance(60)) break;
            MtrNode *r = Mtr_DissolveGroup(x);
            REQUIRE(r == (can ? p : NULL), "dissolving %d+%d", d.low, d.size);
            if (can) model.erase(std::find(model.begin(), model.end(), d));
            break;
        }
        case 5: {
            OP("Mtr_FindGroup");
            MtrNode *r = Mtr_FindGroup(root, g.low, g.size);
            bool known = false;
            for (auto &o : model) known = known || (o.low == g.low && o.size == g.size);
            REQUIRE(!!r == known, "finding %d+%d in%s: %s", g.low, g.size, show(model).c_str(), r ? "found" : "not found");
            if (r) REQUIRE((int)r->low == g.low && (int)r->size == g.size, "another group found");
            break;
        }
        case 6: {
            MtrNode *y = chance(85) ? x->younger : nodes[rnd(nodes.size())];
            if (!y || y == x) break;
            OP("Mtr_SwapGroups");
            bool adjacent = x->younger == y || y->younger == x;
            MtrNode *first = x->younger == y ? x : y, *second = first == x ? y : x;
            if (adjacent && first->low + first->size != second->low) break;      /* defined for neighbours */
            std::vector<MtrNode *> a, b;
            walk(first, a); walk(second, b);
            std::vector<G> want;
            for (auto &o : nodes) {
                int d = 0;
                if (adjacent) { if (std::find(a.begin(), a.end(), o) != a.end()) d = second->size; else if (std::find(b.begin(), b.end(), o) != b.end()) d = -(int)first->size; }
                want.push_back({(int)o->low + d, (int)o->size, o->flags});
            }
            int r = Mtr_SwapGroups(x, y);
            REQUIRE(r == adjacent, "swap returns %d", r);
            model = want;
            break;
        }
        case 7: {
            if (chance(30)) {
                OP("Mtr_CopyTree");
                int e = 1 + rnd(3);
                MtrNode *c = Mtr_CopyTree(root, e);
                REQUIRE(c, "no copy");
                treeWellFormed(c);
                std::vector<G> want = model;
                for (auto &o : want) o.low *= e, o.size *= e;
                sameGroups(c, want);
                REQUIRE(Mtr_CopyTree(root, 0) == NULL, "expansion by zero");
                if (e == 1 && chance(50)) std::swap(root, c);
                Mtr_FreeTree(c);
            } else if (chance(30) && base == 0) {
                OP("Mtr_PrintGroupedOrder");
                std::vector<int> inv(size);
                for (int k = 0; k < size; k++) inv[k] = k + 100;
                for (int k = size - 1; k > 0; k--) std::swap(inv[k], inv[rnd(k + 1)]);
                std::string s = printed([&](FILE *fp) { return Mtr_PrintGroupedOrder(root, inv.data(), fp); });
                REQUIRE(squeeze(s) == squeeze(ordered(root, inv, base)), "printed %s expected %s", s.c_str(), ordered(root, inv, base).c_str());
                Mtr_PrintGroups(root, 1);
            } else if (base == 0) {
                OP("Mtr_ReadGroups");
                std::string text;
                int bad = chance(40) ? rnd(6) + 1 : 0;
                std::vector<G> v = model;                        /* any order: the tree is determined by the groups */
                v.erase(std::find(v.begin(), v.end(), G{base, size, MTR_DEFAULT}));
                bool dup = false;
                for (size_t k = 0; k < v.size(); k++) for (size_t l = 0; l < k; l++) dup = dup || (v[k].low == v[l].low && v[k].size == v[l].size);
                for (auto &o : v) dup = dup || (o.low == base && o.size == size);
                if (dup && bad == 0) break;
                if (!dup) for (int k = (int)v.size() - 1; k > 0; k--) std::swap(v[k], v[rnd(k + 1)]);
                if (!dup) for (auto &o : v) { text += sf("%d %d %s%s%s%s%s", o.low, o.size, o.flags & MTR_FIXED ? "F" : "", o.flags & MTR_SOFT ? "S" : "", o.flags & MTR_NEWNODE ? "N" : "", o.flags ? "" : "D", chance(50) ? "\n" : "\t "); }
                switch (bad) {
                case 1: text += sf(" %d 1 X\n", rnd(size)); break;
                case 2: text += sf(" %d 2 D\n", size - 1); break;
                case 3: text += " -1 2 D\n"; break;
                case 4: text += " 0 0 D\n"; break;
                case 5: text += " 0 1 " + std::string(1 + 32 + rnd(60), 'D') + "\n"; break;
                case 6: text += " 0 x D\n"; break;
                }
                if (bad == 6 && dup) text = "0 x";
                FILE *fp = fmemopen((void *)text.c_str(), text.size() + 1, "r");
                if (!fp) break;
                /* drop the final NUL from the stream */
                fclose(fp);
                if (text.empty()) break;
                fp = fmemopen((void *)text.c_str(), text.size(), "r");
                MtrNode *c = Mtr_ReadGroups(fp, size);
                fclose(fp);
                REQUIRE(!!c == !bad, "reading %s: %s", text.c_str(), c ? "accepted" : "refused");
                if (c) { treeWellFormed(c); sameGroups(c, model); Mtr_FreeTree(c); counters["groups read"]++; }
            }
            break;
        }
        case 8: {
            OP("Mtr_ReorderGroups");
            /* a random rearrangement of the parts of each group: positions of the old levels */
            std::vector<int> pos(base + size);
            std::function<void(MtrNode *, int)> place = [&](MtrNode *g, int at) {
                struct Part { MtrNode *n; int level; };
                std::vector<Part> parts;
                int level = g->low;
                for (MtrNode *c = g->child; c; c = c->younger) { for (; level < (int)c->low; level++) parts.push_back({NULL, level}); parts.push_back({c, 0}); level += c->size; }
                for (; level < (int)(g->low + g->size); level++) parts.push_back({NULL, level});
                for (int k = (int)parts.size() - 1; k > 0; k--) std::swap(parts[k], parts[rnd(k + 1)]);
                for (auto &p : parts) { if (p.n) { place(p.n, at); at += p.n->size; } else pos[p.level] = at++; }
            };
            place(root, base);
            std::vector<G> want;
            for (MtrNode *g : nodes) {
                int lo = INT_MAX;
                for (int l = g->low; l < (int)(g->low + g->size); l++) if (pos[l] < lo) { lo = pos[l]; g->index = l; }     /* the variable of a level is its number here */
                want.push_back({lo, (int)g->size, g->flags});
            }
            Mtr_ReorderGroups(root, pos.data());
            model = want;
            break;
        }
        }
        treeWellFormed(root);
        sameGroups(root, model);
    }
    Mtr_FreeTree(root);
    /* the list operations */
    OP("Mtr children and siblings");
    MtrNode *r = Mtr_InitTree();
    std::vector<MtrNode *> want;
    for (int k = rnd(12); k >= 0; k--) {
        MtrNode *n;
        switch (rnd(5)) {
        case 0: n = Mtr_CreateFirstChild(r); want.insert(want.begin(), n); break;
        case 1: n = Mtr_CreateLastChild(r); want.push_back(n); break;
        case 2: n = Mtr_AllocNode(); n->child = NULL; Mtr_MakeFirstChild(r, n); want.insert(want.begin(), n); break;
        case 3: n = Mtr_AllocNode(); n->child = NULL; Mtr_MakeLastChild(r, n); want.push_back(n); break;
        default: if (want.empty()) continue; { size_t p = rnd(want.size()); n = Mtr_AllocNode(); n->child = NULL; Mtr_MakeNextSibling(want[p], n); want.insert(want.begin() + p + 1, n); }
        }
        size_t at = 0;
        MtrNode *before = NULL;
        for (MtrNode *c = r->child; c; c = c->younger, at++) { REQUIRE(at < want.size() && c == want[at] && c->parent == r && c->elder == before, "child %zu", at); before = c; }
        REQUIRE(at == want.size(), "%zu children, expected %zu", at, want.size());
    }
    Mtr_FreeTree(r);
}

/* ------------------------------------------------------------------ extended exponents */
typedef __float128 Q;
struct R { int special; Q m; long e; };      /* special: 0 number m*2^e with 1<=|m|<2 or m==0, 1 inf, -1 -inf, 2 nan */
static R norm(Q m, long e) { if (m == 0) return {0, 0, 0}; while (m >= 2 || m <= -2) m /= 2, e++; while (m < 1 && m > -1) m *= 2, e--; return {0, m, e}; }
static R ofDouble(double d) { if (std::isnan(d)) return {2, 0, 0}; if (std::isinf(d)) return {d > 0 ? 1 : -1, 0, 0}; int e; double f = frexp(d, &e); return norm(f, e); }
static R of(const EpDouble *x) { R r = ofDouble(x->type.value); if (!r.special && r.m != 0) r.e += x->exponent; return r; }
static Q pow2(long e) { Q r = 1; Q b = e < 0 ? (Q)0.5 : (Q)2; for (unsigned long k = labs(e); k; k >>= 1, b *= b) if (k & 1) r *= b; return r; }
static R mul(R a, R b) { return norm(a.m * b.m, a.e + b.e); }
static R dvd(R a, R b) { return norm(a.m / b.m, a.e - b.e); }
static R plus(R a, R b) { if (a.m == 0) return b; if (b.m == 0) return a; if (a.e < b.e) std::swap(a, b); if (a.e - b.e > 300) return a; return norm(a.m + b.m * pow2(b.e - a.e), a.e); }
static R neg(R a) { a.m = -a.m; if (a.special == 1 || a.special == -1) a.special = -a.special; return a; }
static std::string show(R a) { return a.special ? (a.special == 2 ? "nan" : a.special == 1 ? "inf" : "-inf") : sf("%.17g*2^%ld", (double)a.m, a.e); }
static bool close(R a, R b, Q tol = (Q)4.5e-16) {
    if (a.special || b.special) return a.special == b.special;
    if (a.m == 0 || b.m == 0) return a.m == b.m;
    if (labs(a.e - b.e) > 1) return false;
    Q x = a.m, y = b.m * pow2(b.e - a.e), d = x - y;
    if (d < 0) d = -d;
    return d <= tol * (x < 0 ? -x : x);
}
static double someDouble() {
    switch (rnd(14)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return 1.0;
    case 3: return (double)(int)rnd(2000) - 1000;
    case 4: return ldexp(1.0 + rnd(1000) / 1000.0, (int)rnd(2046) - 1022) * (chance(50) ? -1 : 1);
    case 5: return ldexp(1.0 + rnd(1000) / 1000.0, -1022 - (int)rnd(52));       /* denormal */
    case 6: return chance(50) ? 5e-324 : -5e-324;
    case 7: return chance(50) ? 1.7976931348623157e308 : 2.2250738585072014e-308;
    case 8: if (chance(30)) return chance(50) ? INFINITY : -INFINITY;
        if (chance(30)) return chance(50) ? NAN : -NAN;
        /* fall through */
    case 9: { unsigned long long b = rnd64(); double d; memcpy(&d, &b, 8); if (std::isnan(d)) return 3.0; return d; }
    default: return ldexp(1.0 + rnd(1000000) / 1e6, (int)rnd(80) - 40) * (chance(50) ? -1 : 1);
    }
}
static void is(const EpDouble *x, R want) {
    REQUIRE(close(of(x), want), "result %s, expected %s", show(of(x)).c_str(), show(want).c_str());
    REQUIRE(EpdIsNan(x) == (want.special == 2), "EpdIsNan of %s", show(want).c_str());
    REQUIRE(EpdIsInf(x) == (want.special == 2 ? 0 : want.special), "EpdIsInf of %s", show(want).c_str());
    REQUIRE(EpdIsZero(x) == (!want.special && want.m == 0), "EpdIsZero of %s", show(want).c_str());
    REQUIRE(!!EpdIsNanOrInf(x) == !!want.special, "EpdIsNanOrInf of %s", show(want).c_str());
    if (!want.special && want.m != 0) { double v = x->type.value; REQUIRE((v >= 1 && v < 2) || (v <= -1 && v > -2), "not normalized: %.17g * 2^%d", v, x->exponent); }
}
/* "d.ddddde+N" denotes x within the printed precision */
static void decimal(const EpDouble *x, const char *s, double v, long e10) {
    R r = of(x);
    REQUIRE((v < 0) == (r.m < 0), "%s for %s: sign", s, show(r).c_str());
    long double want = logl(fabsl((long double)r.m)) / logl(10.0L) + r.e * (logl(2.0L) / logl(10.0L));
    long double got = logl(fabsl((long double)v)) / logl(10.0L) + e10;
    REQUIRE(fabsl(want - got) < 1e-6L, "%s for %s", s, show(r).c_str());
}
static void epdHistory(long steps) {
    std::vector<EpDouble *> p;
    for (int i = 0; i < 6; i++) { p.push_back(EpdAlloc()); REQUIRE(p.back(), "EpdAlloc"); EpdConvert(1 + i, p.back()); }
    for (long i = 0; i < steps; i++, step++) {
        EpDouble *a = p[rnd(6)], *b = p[rnd(6)], *c = p[rnd(6)];
        R x = of(a), y = of(b);
        double d = someDouble();
        R z = ofDouble(d);
        bool mul0inf = (x.special && x.special != 2 && !y.special && y.m == 0) || (y.special && y.special != 2 && !x.special && x.m == 0);
        switch (rnd(18)) {
        case 0: case 1: OP("EpdConvert"); EpdConvert(d, a); is(a, z); break;
        case 2: case 3: {       /* product */
            int k = rnd(3);
            if (k == 0) y = z;
            mul0inf = (abs(x.special) == 1 && !y.special && y.m == 0) || (abs(y.special) == 1 && !x.special && x.m == 0);
            if (mul0inf) break;
            R want;
            if (x.special == 2 || y.special == 2) want = {2, 0, 0};
            else if (x.special || y.special) { int s = (x.special ? x.special : x.m < 0 ? -1 : 1) * (y.special ? y.special : y.m < 0 ? -1 : 1); want = {s, 0, 0}; }
            else want = mul(x, y);
            if (k == 0) { OP("EpdMultiply"); EpdMultiply(a, d); is(a, want); }
            if (k == 1) { OP("EpdMultiply2"); EpdMultiply2(a, b); is(a, want); }
            if (k == 2) { OP("EpdMultiply3"); EpdMultiply3(a, b, c); is(c, want); }
            break;
        }
        case 4: case 5: {       /* quotient */
            int k = rnd(3);
            if (k == 0) y = z;
            R want;
            if (x.special == 2 || y.special == 2 || (x.special && y.special)) want = {2, 0, 0};
            else if (x.special) want = {x.special * (y.m < 0 ? -1 : 1), 0, 0};
            else if (y.special) want = {0, 0, 0};
            else if (y.m == 0) want = {2, 0, 0};
            else want = dvd(x, y);
            if (x.special && !y.special && y.m == 0) break;
            if (k == 0) { OP("EpdDivide"); EpdDivide(a, d); is(a, want); }
            if (k == 1) { OP("EpdDivide2"); EpdDivide2(a, b); is(a, want); }
            if (k == 2) { OP("EpdDivide3"); EpdDivide3(a, b, c); is(c, want); }
            break;
        }
        case 6: case 7: case 8: case 9: {       /* sum and difference */
            int k = rnd(6);
            if (k % 3 == 0) y = z;
            if (k >= 3) y = neg(y);
            R want;
            if (x.special == 2 || y.special == 2 || x.special * y.special == -1) want = {2, 0, 0};
            else if (x.special) want = x;
            else if (y.special) want = y;
            else want = plus(x, y);
            switch (k) {
            case 0: OP("EpdAdd"); EpdAdd(a, d); is(a, want); break;
            case 1: OP("EpdAdd2"); EpdAdd2(a, b); is(a, want); break;
            case 2: OP("EpdAdd3"); EpdAdd3(a, b, c); is(c, want); break;
            case 3: OP("EpdSubtract"); EpdSubtract(a, d); is(a, want); break;
            case 4: OP("EpdSubtract2"); EpdSubtract2(a, b); is(a, want); break;
            case 5: OP("EpdSubtract3"); EpdSubtract3(a, b, c); is(c, want); break;
            }
            break;
        }
        case 10: {
            OP("EpdPow2");
            int n = chance(50) ? (int)rnd(3000) - 1500 : (int)rnd(40000000) - 20000000;
            EpdPow2(n, a);
            is(a, {0, 1, n});
            break;
        }
        case 11: {
            if (x.special || labs(x.e) > 100000000) break;
            OP("EpdGetValueAndDecimalExponent");
            double v; int e;
            EpdGetValueAndDecimalExponent(a, &v, &e);
            if (x.m == 0) REQUIRE(v == 0 && e == 0, "zero as %g e %d", v, e);
            else { REQUIRE(fabs(v) < 10.00001 && fabs(v) > 0.9999, "value %.17g", v); decimal(a, sf("%.17ge%d", v, e).c_str(), v, e); }
            break;
        }
        case 12: {
            if (labs(x.e) > 100000000) break;
            OP("EpdGetString");
            char s[100] = "";
            EpdGetString(a, s);
            if (x.special) REQUIRE(!strcmp(s, x.special == 2 ? "NaN" : x.special == 1 ? "inf" : "-inf"), "%s printed as %s", show(x).c_str(), s);
            else {
                double v; long e; int used = 0;
                char *q = strchr(s, 'e');
                REQUIRE(q && sscanf(q + 1, "%ld%n", &e, &used) == 1 && q[1 + used] == 0, "%s", s);
                *q = 0;
                REQUIRE(sscanf(s, "%lf%n", &v, &used) == 1 && s[used] == 0, "%s", s);
                if (x.m == 0) REQUIRE(v == 0, "%s for zero", s); else decimal(a, s, v, e);
            }
            break;
        }
        case 13: OP("EpdCopy"); EpdCopy(a, c); is(c, x); REQUIRE(x.special == 2 || EpdCmp(a, c) == 0, "a copy differs"); break;
        case 14: {
            OP("EpdCmp");
            if (x.special == 2 || y.special == 2) break;
            bool same = x.special == y.special && (x.special || (x.m == y.m && (x.m == 0 || x.e == y.e)));
            REQUIRE(EpdCmp(a, b) == !same, "comparing %s with %s", show(x).c_str(), show(y).c_str());
            break;
        }
        case 15: { int s = rnd(2); switch (rnd(3)) { case 0: OP("EpdMakeInf"); EpdMakeInf(a, s); is(a, {s ? -1 : 1, 0, 0}); break; case 1: OP("EpdMakeZero"); EpdMakeZero(a, s); is(a, {0, 0, 0}); break; default: OP("EpdMakeNan"); EpdMakeNan(a); is(a, {2, 0, 0}); } break; }
        case 16: {      /* what makes the exponents large */
            if (x.special || labs(x.e) > 50000000) { EpdConvert(1.5, a); break; }
            OP("EpdMultiply3");
            EpdMultiply3(a, a, a);
            is(a, mul(x, x));
            break;
        }
        case 17: {
            OP("double predicates");
            REQUIRE(IsInfDouble(d) == (z.special == 2 ? 0 : z.special), "IsInfDouble(%g)", d);
            REQUIRE(IsNanDouble(d) == (z.special == 2), "IsNanDouble(%g)", d);
            REQUIRE(!!IsNanOrInfDouble(d) == !!z.special, "IsNanOrInfDouble(%g)", d);
            break;
        }
        }
        for (EpDouble *q : p) { R r = of(q); if (!r.special && labs(r.e) > 100000000) EpdConvert(0.75, q); else if (r.special && chance(20)) EpdConvert(d, q); }
        counters["largest exponent"] = std::max<long>(counters["largest exponent"], labs(of(a).e));
    }
    for (EpDouble *q : p) EpdFree(q);
}

/* ------------------------------------------------------------------ arbitrary precision */
typedef std::vector<bool> Bits;     /* least significant first */
static Bits bitsOf(int digits, const DdApaDigit *n) { Bits b; for (int i = digits - 1; i >= 0; i--) for (int k = 0; k < 32; k++) b.push_back(n[i] >> k & 1); return b; }
static bool sameBits(const Bits &a, const Bits &b) { for (size_t i = 0; i < std::max(a.size(), b.size()); i++) if ((i < a.size() && a[i]) != (i < b.size() && b[i])) return false; return true; }
static int cmpBits(const Bits &a, const Bits &b) { for (long i = (long)std::max(a.size(), b.size()) - 1; i >= 0; i--) { bool x = i < (long)a.size() && a[i], y = i < (long)b.size() && b[i]; if (x != y) return x ? 1 : -1; } return 0; }
static std::string dec(const Bits &b) {
    std::string r = "0";        /* least significant digit first */
    for (long i = (long)b.size() - 1; i >= 0; i--) { int c = b[i]; for (char &x : r) { int v = 2 * (x - '0') + c; x = '0' + v % 10; c = v / 10; } if (c) r += '1'; }
    std::reverse(r.begin(), r.end());
    return r;
}
static Bits mulSmall(const Bits &a, unsigned long long k) { Bits r(a.size() + 70); for (int i = 0; i < 64; i++) if (k >> i & 1) { int c = 0; for (size_t j = 0; j + i < r.size(); j++) { int v = r[i + j] + (j < a.size() && a[j]) + c; r[i + j] = v & 1; c = v >> 1; } } return r; }
static std::string expo(const std::string &d, int prec) {       /* rounded to prec digits, ties to even */
    if ((int)d.size() <= prec) return d;
    std::string h = d.substr(0, prec), t = d.substr(prec);
    bool up = t[0] > '5' || (t[0] == '5' && (t.find_first_not_of('0', 1) != std::string::npos || ((prec ? h[prec - 1] : '0') & 1)));
    int e = d.size() - 1;
    if (up) { long i = prec - 1; while (i >= 0 && h[i] == '9') h[i--] = '0'; if (i >= 0) h[i]++; else { h = "1" + h; e++; } }
    while (h.size() > 1 && h.back() == '0') h.pop_back();
    return h.substr(0, 1) + (h.size() > 1 ? "." + h.substr(1) : "") + sf("e+%02d", e);
}
static void randomNumber(int digits, DdApaNumber n) {
    for (int i = 0; i < digits; i++) n[i] = chance(25) ? 0 : chance(25) ? 0xffffffffu : chance(30) ? rnd(20) : (DdApaDigit)rnd64();
    if (chance(30)) for (int i = 0; i < digits - 1; i++) n[i] = 0;
    if (chance(20)) { for (int i = 0; i < digits; i++) n[i] = 0; static const unsigned v[] = {9, 10, 99, 95, 15, 25, 999, 9999, 99999, 999999, 9999999, 1000000, 5, 50, 45, 55, 949, 950, 951, 0}; n[digits - 1] = v[rnd(20)]; }
}
static void apaHistory(long steps) {
    for (long i = 0; i < steps; i++, step++) {
        int n = 1 + rnd(chance(70) ? 4 : 20);
        DdApaNumber a = Cudd_NewApaNumber(n), b = Cudd_NewApaNumber(n), c = Cudd_NewApaNumber(n);
        randomNumber(n, a); randomNumber(n, b);
        for (int k = 0; k < n; k++) c[k] = 0x5a5a5a5a;
        Bits x = bitsOf(n, a), y = bitsOf(n, b);
        DdApaNumber out = chance(30) ? a : chance(30) ? b : c;       /* results may go to an operand */
        switch (rnd(12)) {
        case 0: {
            OP("Cudd_ApaAdd");
            DdApaDigit carry = Cudd_ApaAdd(n, a, b, out);
            Bits r; int k = 0;
            for (int j = 0; j < 32 * n; j++) { int v = x[j] + y[j] + k; r.push_back(v & 1); k = v >> 1; }
            REQUIRE(sameBits(bitsOf(n, out), r) && (int)carry == k, "sum of %s and %s", dec(x).c_str(), dec(y).c_str());
            break;
        }
        case 1: {
            OP("Cudd_ApaSubtract");
            DdApaDigit borrow = Cudd_ApaSubtract(n, a, b, out);
            Bits r; int k = 0;
            for (int j = 0; j < 32 * n; j++) { int v = x[j] - y[j] - k; r.push_back(v & 1); k = v < 0; }
            REQUIRE(sameBits(bitsOf(n, out), r), "difference of %s and %s", dec(x).c_str(), dec(y).c_str());
            REQUIRE(!!borrow == !!k, "borrow %u, expected %d", borrow, k);
            break;
        }
        case 2: case 3: {
            unsigned d = chance(30) ? 1 + rnd(10) : chance(30) ? 0xffffffffu : 1 + (unsigned)(rnd64() >> 33);
            if (out == b) out = c;
            Bits r(32 * n); unsigned long long rem = 0;
            for (long j = 32 * n - 1; j >= 0; j--) { rem = 2 * rem + x[j]; if (rem >= d) rem -= d, r[j] = 1; }
            unsigned got;
            if (chance(50)) { OP("Cudd_ApaShortDivision"); got = Cudd_ApaShortDivision(n, a, d, out); } else { OP("Cudd_ApaIntDivision"); got = Cudd_ApaIntDivision(n, a, d, out); }
            REQUIRE(sameBits(bitsOf(n, out), r) && got == rem, "%s divided by %u: remainder %u, expected %llu", dec(x).c_str(), d, got, rem);
            break;
        }
        case 4: {
            OP("Cudd_ApaShiftRight");
            int in = rnd(2);
            if (out == b) out = c;
            Cudd_ApaShiftRight(n, in, a, out);
            Bits r(x.begin() + 1, x.end());
            r.push_back(in);
            REQUIRE(sameBits(bitsOf(n, out), r), "shift of %s", dec(x).c_str());
            break;
        }
        case 5: {
            OP("Cudd_ApaPowerOfTwo");
            int p = rnd(32 * n + 20);
            Cudd_ApaPowerOfTwo(n, c, p);
            Bits r(32 * n);
            if (p < 32 * n) r[p] = 1;
            REQUIRE(sameBits(bitsOf(n, c), r), "power %d with %d digits", p, n);
            OP("Cudd_ApaSetToLiteral");
            unsigned l = (unsigned)rnd64();
            Cudd_ApaSetToLiteral(n, c, l);
            REQUIRE(sameBits(bitsOf(n, c), bitsOf(1, &l)), "literal %u", l);
            OP("Cudd_ApaNumberOfDigits");
            REQUIRE(Cudd_ApaNumberOfDigits(p + 1) == (p + 32) / 32, "digits for %d bits", p + 1);
            OP("Cudd_ApaCopy");
            Cudd_ApaCopy(n, a, c);
            REQUIRE(sameBits(bitsOf(n, c), x), "copy");
            break;
        }
        case 6: {
            OP("Cudd_ApaCompare");
            int m2 = 1 + rnd(n + 2);
            DdApaNumber d = Cudd_NewApaNumber(m2);
            randomNumber(m2, d);
            if (chance(50)) for (int k = 0; k < m2; k++) d[m2 - 1 - k] = k < n ? a[n - 1 - k] : 0;
            if (chance(20)) d[rnd(m2)] ^= 1;
            int r = Cudd_ApaCompare(n, a, m2, d), want = cmpBits(x, bitsOf(m2, d));
            REQUIRE(r == want, "%s against %s: %d", dec(x).c_str(), dec(bitsOf(m2, d)).c_str(), r);
            Cudd_FreeApaNumber(d);
            break;
        }
        case 7: {
            OP("Cudd_ApaCompareRatios");
            unsigned d = 1 + rnd(chance(50) ? 20 : 1000000), e = 1 + rnd(chance(50) ? 20 : 1000000);
            if (chance(40)) { Cudd_ApaCopy(n, a, b); y = x; }
            int r = Cudd_ApaCompareRatios(n, a, d, n, b, e), want = cmpBits(mulSmall(x, e), mulSmall(y, d));
            REQUIRE(r == want, "%s/%u against %s/%u: %d", dec(x).c_str(), d, dec(y).c_str(), e, r);
            break;
        }
        case 8: {
            OP("Cudd_ApaPrintHex");
            std::string s = printed([&](FILE *f) { return Cudd_ApaPrintHex(f, n, a); }), w;
            for (int k = 0; k < n; k++) w += sf("%08x", a[k]);
            REQUIRE(s == w, "%s printed as %s", w.c_str(), s.c_str());
            break;
        }
        case 9: {
            OP("Cudd_ApaPrintDecimal");
            std::string s = printed([&](FILE *f) { return Cudd_ApaPrintDecimal(f, n, a); });
            REQUIRE(s == dec(x), "%s printed as %s", dec(x).c_str(), s.c_str());
            OP("Cudd_ApaStringDecimal");
            char *t = Cudd_ApaStringDecimal(n, a);
            REQUIRE(t && dec(x) == t, "%s as string %s", dec(x).c_str(), t);
            free(t);
            break;
        }
        case 10: case 11: {
            OP("Cudd_ApaPrintExponential");
            int prec = 1 + rnd(chance(70) ? 7 : 40);
            std::string s = printed([&](FILE *f) { return Cudd_ApaPrintExponential(f, n, a, prec); });
            REQUIRE(s == expo(dec(x), prec), "%s with %d digits printed as %s, expected %s", dec(x).c_str(), prec, s.c_str(), expo(dec(x), prec).c_str());
            break;
        }
        }
        Cudd_FreeApaNumber(a); Cudd_FreeApaNumber(b); Cudd_FreeApaNumber(c);
    }
}

/* counts of functions over many variables */
static void countHistory(long steps) {
    initTT();
    int nv = chance(30) ? NV : NV + rnd(chance(50) ? 60 : 3000);
    DdManager *m = Cudd_Init(nv, 0, CUDD_UNIQUE_SLOTS, CUDD_CACHE_SLOTS, 0);
    Cudd_Srandom(m, 1);
    int at[NV];
    for (int i = 0; i < NV; i++) for (bool again = true; again;) { at[i] = rnd(nv); again = false; for (int k = 0; k < i; k++) again = again || at[k] == at[i]; }
    struct F { DdNode *d; TT t; };
    std::vector<F> pool;
    for (int i = 0; i < NV; i++) { pool.push_back({Cudd_bddIthVar(m, at[i]), ttVar[i]}); Cudd_Ref(pool[i].d); }
    TT one; one.set();
    pool.push_back({Cudd_ReadOne(m), one}); Cudd_Ref(pool.back().d);
    for (long i = 0; i < steps; i++, step++) {
        OP("counting");
        F a = pool[rnd(pool.size())], b = pool[rnd(pool.size())];
        if (chance(30)) a = {Cudd_Not(a.d), ~a.t};
        if (chance(30)) b = {Cudd_Not(b.d), ~b.t};
        F r = chance(40) ? F{Cudd_bddAnd(m, a.d, b.d), a.t & b.t} : chance(50) ? F{Cudd_bddXor(m, a.d, b.d), a.t ^ b.t} : F{Cudd_bddOr(m, a.d, b.d), a.t | b.t};
        Cudd_Ref(r.d);
        bool add = chance(20);
        DdNode *d = r.d;
        if (add) { d = Cudd_BddToAdd(m, r.d); Cudd_Ref(d); }
        int n = nv + (chance(30) ? rnd(200) : 0), digits = 0;       /* the function may be seen over more variables */
        unsigned k = r.t.count();
        Bits want(n + 40);
        { Bits one1(8); for (int j = 0; j < 8; j++) one1[j] = k >> j & 1; for (int j = 0; j < 8; j++) if (one1[j]) { long p = (long)j + n - NV; REQUIRE(p >= 0, "fraction"); want[p] = 1; } }
        OP("Cudd_ApaCountMinterm");
        DdApaNumber c = Cudd_ApaCountMinterm(m, d, n, &digits);
        REQUIRE(c, "no count");
        REQUIRE(sameBits(bitsOf(digits, c), want), "%s assignments of %d variables, expected %s", dec(bitsOf(digits, c)).c_str(), n, dec(want).c_str());
        Cudd_FreeApaNumber(c);
        if (chance(20)) {
            OP("Cudd_ApaPrintMinterm");
            std::string s = printed([&](FILE *f) { return Cudd_ApaPrintMinterm(f, m, d, n); });
            REQUIRE(s == dec(want) + "\n", "printed %s", s.c_str());
            OP("Cudd_ApaPrintMintermExp");
            int prec = 1 + rnd(8);
            s = printed([&](FILE *f) { return Cudd_ApaPrintMintermExp(f, m, d, n, prec); });
            REQUIRE(s == expo(dec(want), prec) + "\n", "%s with %d digits printed as %s", dec(want).c_str(), prec, s.c_str());
            OP("Cudd_ApaPrintDensity");
            s = printed([&](FILE *f) { return Cudd_ApaPrintDensity(f, m, d, n); });
            unsigned long long size = Cudd_DagSize(d), rem = 0;
            Bits q(want.size());
            for (long j = (long)want.size() - 1; j >= 0; j--) { rem = 2 * rem + want[j]; if (rem >= size) rem -= size, q[j] = 1; }
            unsigned f0 = rem * 1000000 / size;
            unsigned long long got = 0; size_t dot = s.find('.'); bool ok = dot != std::string::npos && s.back() == '\n' && s.substr(0, dot) == dec(q);
            if (ok) { std::string fr = s.substr(dot + 1, s.size() - dot - 2); ok = fr.size() <= 6 && fr.find_first_not_of("0123456789") == std::string::npos; fr.resize(6, '0'); got = atoll(fr.c_str()); ok = ok && got + 1 >= f0 && got <= f0 + 1ULL; }
            REQUIRE(ok, "%s/%llu printed as %s", dec(want).c_str(), size, s.c_str());
        }
        OP("Cudd_EpdCountMinterm");
        EpDouble e;
        REQUIRE(Cudd_EpdCountMinterm(m, d, n, &e) == 0, "failed");
        R w = norm((Q)k, n - NV);
        REQUIRE(close(of(&e), w, 1e-12), "%s assignments, expected %s", show(of(&e)).c_str(), show(w).c_str());
        OP("Cudd_CountMinterm");
        double cm = Cudd_CountMinterm(m, d, n);
        if (n <= 1000) REQUIRE(close(ofDouble(cm), w, 1e-12), "%g assignments, expected %s", cm, show(w).c_str());
        OP("Cudd_LdblCountMinterm");
        long double ld = Cudd_LdblCountMinterm(m, d, n);
        if (n <= 16000) { int le = 0; long double lf = ld == 0 ? 0 : frexpl(ld, &le); REQUIRE(close(norm((Q)lf, le), w, 1e-12), "%Lg assignments, expected %s", ld, show(w).c_str()); }
        if (add) Cudd_RecursiveDeref(m, d);
        if (pool.size() < 30) pool.push_back(r); else { size_t p = rnd(pool.size()); Cudd_RecursiveDeref(m, pool[p].d); pool[p] = r; }
        if (chance(3)) Cudd_ReduceHeap(m, METHODS[rnd(4)], 0);
    }
    counters["variables counted over"] = nv;
    for (auto &f : pool) Cudd_RecursiveDeref(m, f.d);
    REQUIRE(Cudd_CheckZeroRef(m) == 0, "references left");
    Cudd_Quit(m);
}

int main(int argc, char **argv) {
    seedRng(atoll(argv[1]));
    long steps = atol(argv[2]);
    std::string only = argc > 3 ? argv[3] : "";
    if (only == "" || only == "st") stHistory(steps);
    if (only == "" || only == "mtr") mtrHistory(steps);
    if (only == "" || only == "epd") epdHistory(steps);
    if (only == "" || only == "apa") apaHistory(steps / 2);
    if (only == "" || only == "count") countHistory(steps / 10);
    finish(0);
}
