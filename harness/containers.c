/* Random histories over the embedding API's containers, against simple models.
   argv: kind seed ops [trace].  Prints "EVENTS n" at the end; on a disagreement prints "BAD <key> <text>", exits 3. */
#include "jsiInt.h"
#include <stdarg.h>
static unsigned long long rs; static long events, stepno; static int trace;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)((rs >> 11) % n); }
static void bad(const char *key, const char *fmt, ...) { va_list a; va_start(a, fmt); fflush(stdout); printf("BAD %s step=%ld ", key, stepno); vprintf(fmt, a); printf("\n"); fflush(stdout); _exit(3); }
#define TR(...) do { if (trace) { printf("%ld: ", stepno); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)

/* ---- keys ---- */
#define MAXK 1500
static int K, KT; static char *skey[MAXK]; static void *wkey[MAXK]; static int structSize;
static const void *key(int i) { return KT == JSI_KEYS_ONEWORD ? wkey[i] : (void*)skey[i]; }
static char fresh[64];
static const void *keycopy(int i) {    /* the same key in other memory, for by-content key types */
    if (KT == JSI_KEYS_STRING) { snprintf(fresh, sizeof fresh, "%s", skey[i]); return fresh; }
    if (KT >= JSI_KEYS_STRUCT_MINSIZE) { memcpy(fresh, skey[i], KT); return fresh; }
    return key(i);
}
static int ord(int a, int b) {
    if (KT == JSI_KEYS_ONEWORD) return (uintptr_t)wkey[a] < (uintptr_t)wkey[b] ? -1 : (uintptr_t)wkey[a] > (uintptr_t)wkey[b];
    if (KT >= JSI_KEYS_STRUCT_MINSIZE) return memcmp(skey[a], skey[b], KT);
    if (KT == JSI_KEYS_STRING) {   /* letters then a number without leading zeros */
        const char *p = skey[a], *q = skey[b];
        while (*p && *p == *q && !isdigit((unsigned char)*p)) p++, q++;
        if (isdigit((unsigned char)*p) && isdigit((unsigned char)*q)) { long x = atol(p), y = atol(q); return x < y ? -1 : x > y; }
        return *p < *q ? -1 : *p > *q;
    }
    return strcmp(skey[a], skey[b]);
}
static int idof(const void *k) {
    for (int i = 0; i < K; i++) if (KT == JSI_KEYS_ONEWORD ? wkey[i] == k : KT >= JSI_KEYS_STRUCT_MINSIZE ? !memcmp(skey[i], k, KT) : !strcmp(skey[i], k)) return i;
    return -1;
}
static void mkkeys(int istree) {
    int style = rnd(4); char b[64];
    for (int i = 0; i < K; i++) {
    again:
        if (KT == JSI_KEYS_ONEWORD) {
            uintptr_t v = style == 0 ? (uintptr_t)(i + 1) : style == 1 ? (uintptr_t)(i + 1) << 32 : style == 2 ? 0x7f0000000000ULL + (uintptr_t)rnd(1 << 30) * 16 : ((uintptr_t)rnd(1 << 30) << 34) ^ ((uintptr_t)rnd(1 << 30) << 17) ^ rnd(1 << 20);
            wkey[i] = (void*)v; for (int j = 0; j < i; j++) if (wkey[j] == wkey[i]) goto again;
            continue;
        }
        if (KT >= JSI_KEYS_STRUCT_MINSIZE) { for (int j = 0; j < KT; j++) b[j] = style == 0 ? (j == KT - 1 ? i & 255 : j == 0 ? i >> 8 : 0) : rnd(256);
            for (int j = 0; j < i; j++) if (!memcmp(skey[j], b, KT)) goto again;
            skey[i] = malloc(KT); memcpy(skey[i], b, KT); continue; }
        if (style == 0) snprintf(b, sizeof b, "k%d", i);
        else if (style == 1) { int n = 1 + rnd(6), j; for (j = 0; j < n; j++) b[j] = 'a' + rnd(5); b[j] = 0; }
        else if (style == 2) { int n = 1 + rnd(3), j; for (j = 0; j < n; j++) b[j] = 'a' + rnd(3); snprintf(b + j, 20, "%d", rnd(3000)); }
        else if (!istree || KT != JSI_KEYS_STRING) { int n = rnd(12), j; for (j = 0; j < n; j++) b[j] = 1 + rnd(255); b[j] = 0; }
        else { int n = 1 + rnd(30), j; for (j = 0; j < n; j++) b[j] = 'a' + rnd(26); b[j] = 0; }
        for (int j = 0; j < i; j++) if (!strcmp(skey[j], b)) goto again;
        skey[i] = strdup(b);
    }
}
/* ---- values: unique numbers; the free procedure records them ---- */
static char *freed; static long nval, maxval;
static void *newval(void) { nval++; if (nval >= maxval) { freed = realloc(freed, maxval * 2); memset(freed + maxval, 0, maxval); maxval *= 2; } return (void*)nval; }
static long lastfreed; static int nfreed;
static Jsi_RC freeval(Jsi_Interp *interp, void *h, void *v) {
    long n = (long)v; events++;
    if (n < 1 || n > nval) bad("free-unknown", "free procedure called with a value never stored: %ld", n);
    if (freed[n]) bad("free-twice", "value %ld freed twice", n);
    freed[n] = 1; lastfreed = n; nfreed++; return JSI_OK;
}
static void *mval[MAXK]; static char present[MAXK]; static int count;
static void expectfreed(const char *what, long n) { if (n && (nfreed != 1 || lastfreed != n)) bad("free-count", "%s: free procedure ran %d times (last value %ld), expected once for %ld", what, nfreed, lastfreed, n); }
static int *order; static int norder; static int cmpid(const void *a, const void *b) { return ord(*(int*)a, *(int*)b); }
static void mkorder(void) { norder = 0; for (int i = 0; i < K; i++) if (present[i]) order[norder++] = i; qsort(order, norder, sizeof(int), cmpid); }
static void clearmodel(const char *what) {
    for (int i = 0; i < K; i++) if (present[i]) { if (mval[i] && !freed[(long)mval[i]]) bad("free-missed", "%s did not free the value of entry %d", what, i); present[i] = 0; }
    if (nfreed > count) bad("free-extra", "%s freed %d values of %d entries", what, nfreed, count);
    count = 0;
}
/* ---- uniform access ---- */
enum { HASH, TREE, MAPH, MAPT } ; static int what; static Jsi_Hash *H; static Jsi_Tree *T; static Jsi_Map *M;
static void create(void) {
    if (what == HASH) H = Jsi_HashNew(NULL, KT, (Jsi_HashDeleteProc*)freeval);
    else if (what == TREE) T = Jsi_TreeNew(NULL, KT, (Jsi_TreeDeleteProc*)freeval);
    else M = Jsi_MapNew(NULL, what == MAPH ? JSI_MAP_HASH : JSI_MAP_TREE, KT, (Jsi_MapDeleteProc*)freeval);
    if (what == MAPH) H = M->v.hash; if (what == MAPT) T = M->v.tree;
}
#define istree (what == TREE || what == MAPT)
static void *eset(int i, void *v) { return what == HASH ? (void*)Jsi_HashSet(H, keycopy(i), v) : what == TREE ? (void*)Jsi_TreeSet(T, keycopy(i), v) : (void*)Jsi_MapSet(M, keycopy(i), v); }
static void *enew(int i, bool *n) { return what == HASH ? (void*)Jsi_HashEntryNew(H, keycopy(i), n) : what == TREE ? (void*)Jsi_TreeEntryNew(T, keycopy(i), n) : (void*)Jsi_MapEntryNew(M, keycopy(i), n); }
static void *efind(int i) { return what == HASH ? (void*)Jsi_HashEntryFind(H, keycopy(i)) : what == TREE ? (void*)Jsi_TreeEntryFind(T, keycopy(i)) : (void*)Jsi_MapEntryFind(M, keycopy(i)); }
static void *eget(int i) { return what == HASH ? Jsi_HashGet(H, keycopy(i), 0) : what == TREE ? Jsi_TreeGet(T, (void*)keycopy(i), 0) : Jsi_MapGet(M, keycopy(i), 0); }
extern bool Jsi_MapUnset(Jsi_Map *mapPtr, const void *key);
static bool eunset(int i) { return what == HASH ? Jsi_HashUnset(H, keycopy(i)) : what == TREE ? Jsi_TreeUnset(T, (void*)keycopy(i)) : Jsi_MapUnset(M, keycopy(i)); }
static int edel(void *e) { return what == HASH ? Jsi_HashEntryDelete(e) : what == TREE ? Jsi_TreeEntryDelete(e) : Jsi_MapEntryDelete(e); }
static void *vget(void *e) { return what == HASH ? Jsi_HashValueGet(e) : what == TREE ? Jsi_TreeValueGet(e) : Jsi_MapValueGet(e); }
static void vset(void *e, void *v) { if (what == HASH) Jsi_HashValueSet(e, v); else if (what == TREE) Jsi_TreeValueSet(e, v); else Jsi_MapValueSet(e, v); }
static void *kget(void *e) { return what == HASH ? Jsi_HashKeyGet(e) : what == TREE ? Jsi_TreeKeyGet(e) : Jsi_MapKeyGet(e, 0); }
static unsigned esize(void) { return what == HASH ? Jsi_HashSize(H) : what == TREE ? Jsi_TreeSize(T) : Jsi_MapSize(M); }
static void eclear(void) { if (what == HASH) Jsi_HashClear(H); else if (what == TREE) Jsi_TreeClear(T); else Jsi_MapClear(M); }
static void edelete(void) { if (what == HASH) Jsi_HashDelete(H); else if (what == TREE) Jsi_TreeDelete(T); else Jsi_MapDelete(M); }
static Jsi_HashSearch HS; static Jsi_TreeSearch TS; static Jsi_MapSearch MS;
static void *sfirst(int flags) { return what == HASH ? (void*)Jsi_HashSearchFirst(H, &HS) : what == TREE ? (void*)Jsi_TreeSearchFirst(T, &TS, flags, NULL) : (void*)Jsi_MapSearchFirst(M, &MS, flags); }
static void *snext(void) { return what == HASH ? (void*)Jsi_HashSearchNext(&HS) : what == TREE ? (void*)Jsi_TreeSearchNext(&TS) : (void*)Jsi_MapSearchNext(&MS); }
static void sdone(void) { if (what == TREE) Jsi_TreeSearchDone(&TS); else if (what >= MAPH) Jsi_MapSearchDone(&MS); }

static int redblack(Jsi_TreeEntry *n, Jsi_TreeEntry *parent, int *nodes) {
    if (!n) return 1;
    (*nodes)++; if (*nodes > count) bad("tree-count", "tree holds more nodes than the %d entries inserted", count);
    if (n->parent != parent) bad("tree-parent", "wrong parent link");
    if (n->treePtr != T) bad("tree-link", "entry does not belong to its tree");
    if (!n->f.bits.color && parent && !parent->f.bits.color) bad("tree-red", "red node with red parent");
    int l = redblack(n->left, n, nodes), r = redblack(n->right, n, nodes);
    if (l != r) bad("tree-balance", "black heights %d and %d", l, r);
    return l + (n->f.bits.color ? 1 : 0);
}
static int *walked, nwalked; static int stopat, delat;
static Jsi_RC walker(Jsi_Tree *t, Jsi_TreeEntry *e, void *data) { int id = idof(Jsi_TreeKeyGet(e)); if (id < 0) bad("walk-unknown", "walk visits an unknown key");
    if (nwalked >= K) bad("walk-many", "walk visits more entries than exist"); walked[nwalked++] = id; events++; return nwalked == stopat ? JSI_ERROR : JSI_OK; }
static void model_order(Jsi_TreeEntry *n, int order_, int *out, int *cnt) {
    if (!n) return;
    if (order_ == JSI_TREE_ORDER_PRE) out[(*cnt)++] = idof(Jsi_TreeKeyGet(n));
    model_order(n->right, order_, out, cnt);
    if (order_ == JSI_TREE_ORDER_IN) out[(*cnt)++] = idof(Jsi_TreeKeyGet(n));
    model_order(n->left, order_, out, cnt);
    if (order_ == JSI_TREE_ORDER_POST) out[(*cnt)++] = idof(Jsi_TreeKeyGet(n));
}
static void checkseen(const char *how, char *seen, int n) {
    for (int i = 0; i < K; i++) if (seen[i] != present[i]) bad(seen[i] ? "iter-extra" : "iter-missed", "%s: entry %d %s (%d visited, %d present)", how, i, seen[i] ? "visited but absent or twice" : "not visited", n, count);
}
static const char *onames[] = { "in", "pre", "post", "level" };
static int oflags[] = { JSI_TREE_ORDER_IN, JSI_TREE_ORDER_PRE, JSI_TREE_ORDER_POST, JSI_TREE_ORDER_LEVEL };
static void check_iter(void) {
    char seen[MAXK]; int o = rnd(4), n = 0; void *e; int *want = malloc(sizeof(int) * (K + 1));
    memset(seen, 0, sizeof seen);
    nwalked = 0;
    for (e = sfirst(istree ? oflags[o] : 0); e; e = snext()) {
        int id = idof(kget(e)); events++;
        if (id < 0) bad("iter-unknown", "search returns an unknown key");
        if (seen[id]++) bad("iter-twice", "search order %s returns entry %d twice", onames[o], id);
        if (!present[id]) bad("iter-extra", "search returns deleted entry %d", id);
        if (vget(e) != mval[id]) bad("iter-value", "entry %d has the wrong value", id);
        walked[nwalked++] = id; n++;
    }
    sdone(); checkseen("search", seen, n);
    if (istree && o == 0) { mkorder(); for (int i = 0; i < norder; i++) if (order[i] != walked[i]) bad("iter-order", "in-order search position %d is entry %d, expected %d", i, walked[i], order[i]); }
    if (istree) {
        stopat = 0; nwalked = 0; Jsi_RC rc = Jsi_TreeWalk(T, walker, NULL, oflags[o]); memset(seen, 0, sizeof seen);
        if (rc != JSI_OK) bad("walk-rc", "walk returns an error");
        for (int i = 0; i < nwalked; i++) { if (seen[walked[i]]++) bad("walk-twice", "walk order %s visits entry %d twice", onames[o], walked[i]); }
        checkseen("walk", seen, nwalked);
        if (o != 3) { int c = 0; model_order(T->root, oflags[o], want, &c); for (int i = 0; i < c; i++) if (want[i] != walked[i]) bad("walk-order", "walk order %s position %d", onames[o], i); }
        if (o == 0) { mkorder(); for (int i = 0; i < norder; i++) if (order[i] != walked[i]) bad("walk-order", "in-order walk position %d is entry %d, expected %d", i, walked[i], order[i]); }
        if (count > 1) { stopat = 1 + rnd(count); nwalked = 0; if (Jsi_TreeWalk(T, walker, NULL, oflags[o]) != JSI_ERROR || nwalked != stopat) bad("walk-stop", "a walk stopped by its callback at %d visited %d", stopat, nwalked); }
        if (count && what == TREE) { int s = rnd(K); mkorder();   /* search from a start key */
            if (present[s]) { int p = 0; while (order[p] != s) p++; for (e = Jsi_TreeSearchFirst(T, &TS, JSI_TREE_ORDER_IN, keycopy(s)); e; e = Jsi_TreeSearchNext(&TS), p++) if (p >= norder || idof(kget(e)) != order[p]) bad("search-start", "search from entry %d goes wrong at %d", s, p);
                Jsi_TreeSearchDone(&TS); if (p != norder) bad("search-start", "search from entry %d ends at %d of %d", s, p, norder); } }
    }
    free(want);
}
static void check_all(void) {
    if (esize() != (unsigned)count) bad("size", "size is %u, expected %d", esize(), count);
    for (int i = 0; i < K; i++) { void *e = efind(i); events++;
        if (!e != !present[i]) bad("find", "entry %d %s", i, e ? "found but was deleted" : "not found");
        if (e && vget(e) != mval[i]) bad("value", "entry %d holds %ld, expected %ld", i, (long)vget(e), (long)mval[i]);
        if (e && idof(kget(e)) != i) bad("key", "entry %d returns another key", i); }
    if (istree) { int n = 0; if (T->root && !T->root->f.bits.color) bad("tree-root", "root is red"); redblack(T->root, NULL, &n); if (n != count) bad("tree-count", "tree holds %d nodes, expected %d", n, count); }
}
static void table(int ops) {
    static int kts[] = { JSI_KEYS_STRING, JSI_KEYS_STRINGKEY, JSI_KEYS_ONEWORD, 4, 5, 8, 12, 24, 37 };
    KT = kts[rnd(9)]; K = rnd(3) ? 1 + rnd(40) : 1 + rnd(rnd(2) ? 300 : MAXK - 1); if (KT == JSI_KEYS_STRING && K > 100) K = 100 + rnd(200);
    int st; mkkeys(istree); order = malloc(sizeof(int) * (K + 1)); walked = malloc(sizeof(int) * (K + 1)); create();
    (void)st; int phase = 0;
    for (stepno = 0; stepno < ops; stepno++) {
        int i = rnd(K), r = rnd(100); void *e; int isnew = 2; bool nb = 0, asked = 0; nfreed = 0; events++;
        if (rnd(60) == 0) phase = rnd(3);
        if (phase == 1 && r > 60 && r < 88) r = rnd(50);       /* growing */
        if (phase == 2 && r < 50) r = 60 + rnd(28);            /* shrinking */
        if (r < 25) { void *v = rnd(20) ? newval() : NULL; TR("set %d = %ld", i, (long)v); e = eset(i, v); if (!e) bad("set", "set returned NULL"); if (!present[i]) { present[i] = 1; count++; } mval[i] = v; if (nfreed) bad("free-set", "storing a value freed one"); }
        else if (r < 50) { TR("new %d", i); asked = rnd(10) != 0; e = enew(i, asked ? &nb : NULL); if (asked) isnew = nb; if (!e) bad("new", "EntryNew returned NULL"); if (isnew != 2 && isnew == present[i]) bad("isnew", "isNew is %d for entry %d which is %s", isnew, i, present[i] ? "present" : "absent");
            if (!present[i]) { if (vget(e)) bad("new-value", "a new entry has a value"); present[i] = 1; count++; mval[i] = NULL; } if (rnd(2)) { mval[i] = newval(); vset(e, mval[i]); } }
        else if (r < 60) { void *v = eget(i); if (v != (present[i] ? mval[i] : NULL)) bad("get", "get of entry %d", i); }
        else if (r < 72) { long old = present[i] ? (long)mval[i] : 0; TR("unset %d", i); bool b = eunset(i); if (b != present[i]) bad("unset", "unset of entry %d returned %d", i, b); if (b) { expectfreed("unset", old); present[i] = 0; count--; } if (!old && nfreed) bad("free-extra", "unset freed a value"); }
        else if (r < 86) { e = efind(i); if (!e != !present[i]) bad("find", "entry %d", i); if (e) { TR("del %d", i); long old = (long)mval[i]; edel(e); expectfreed("delete", old); present[i] = 0; count--; } }
        else if (r < 88 && count) {    /* delete while iterating */
            int o = oflags[rnd(4)], p = rnd(4), n = 0, was = count, deleted = 0; TR("iterate and delete");
            for (e = sfirst(istree ? o : 0); e; e = snext()) { int id = idof(kget(e)); if (id < 0 || !present[id]) bad("iter-extra", "search returns a deleted or unknown entry while entries are deleted"); n++;
                if (rnd(4) <= (unsigned)p) { long old = (long)mval[id]; nfreed = 0; edel(e); expectfreed("delete in search", old); present[id] = 0; count--; deleted++; if (istree && rnd(2)) break; } }
            sdone(); if (!istree && n != was) bad("iter-delete", "search with deletions visited %d of %d", n, was); }
        else if (r < 89 && rnd(4) == 0) { TR("clear"); nfreed = 0; eclear(); clearmodel("clear"); }
        else if (r < 90 && rnd(10) == 0) { TR("recreate"); edelete(); clearmodel("delete"); create(); }
        else if (r < 93) check_iter();
        if (rnd(K > 200 ? 60 : 8) == 0 || stepno < 30) check_all();
    }
    check_all(); check_iter(); nfreed = 0; edelete(); clearmodel("delete");
    for (int i = 0; i < K; i++) if (KT != JSI_KEYS_ONEWORD) free(skey[i]);
    free(order); free(walked);
}
/* ---- lists ---- */
typedef struct { Jsi_ListEntry *e[400]; void *v[400]; int n; } LM;
static int curl; static LM lm[2]; static Jsi_List *L[2]; static Jsi_Map *LMAP;
static void lcheck(int w) {
    Jsi_List *l = L[w]; LM *m = &lm[w]; int i = 0; Jsi_ListSearch s; Jsi_ListEntry *e;
    if (Jsi_ListSize(l) != (uint)m->n) bad("list-size", "list size is %u, expected %d", Jsi_ListSize(l), m->n);
    if (Jsi_ListGetFront(l) != (m->n ? m->e[0] : NULL)) bad("list-front", "wrong front entry");
    if (Jsi_ListGetBack(l) != (m->n ? m->e[m->n - 1] : NULL)) bad("list-back", "wrong back entry");
    for (e = Jsi_ListSearchFirst(l, &s, 0); e; e = Jsi_ListSearchNext(&s), i++) { events++; if (i >= m->n || e != m->e[i]) bad("list-order", "forward search position %d of %d", i, m->n); if (Jsi_ListValueGet(e) != m->v[i]) bad("list-value", "position %d", i);
        if (Jsi_ListEntryPrev(e) != (i ? m->e[i - 1] : NULL)) bad("list-prev", "entry %d has a wrong previous entry", i); }
    if (i != m->n) bad("list-order", "forward search visits %d of %d", i, m->n);
    i = m->n - 1;
    for (e = Jsi_ListSearchFirst(l, &s, JSI_LIST_REVERSE); e; e = Jsi_ListSearchNext(&s), i--) { events++; if (i < 0 || e != m->e[i]) bad("list-reverse", "reverse search position %d of %d", i, m->n); }
    if (i != -1) bad("list-reverse", "reverse search stops at %d", i);
}
static void ins(LM *m, int at, Jsi_ListEntry *e, void *v) { memmove(m->e + at + 1, m->e + at, sizeof(m->e[0]) * (m->n - at)); memmove(m->v + at + 1, m->v + at, sizeof(m->v[0]) * (m->n - at)); m->e[at] = e; m->v[at] = v; m->n++; }
static void del(LM *m, int at) { m->n--; memmove(m->e + at, m->e + at + 1, sizeof(m->e[0]) * (m->n - at)); memmove(m->v + at, m->v + at + 1, sizeof(m->v[0]) * (m->n - at)); }
static void lists(int ops) {
    LMAP = Jsi_MapNew(NULL, JSI_MAP_LIST, 0, (Jsi_MapDeleteProc*)freeval); L[1] = LMAP->v.list; L[0] = Jsi_ListNew(NULL, 0, (Jsi_HashDeleteProc*)freeval); lm[0].n = lm[1].n = 0; int cap = 1 + rnd(12) * rnd(12);
    for (stepno = 0; stepno < ops; stepno++) {
        int w = rnd(2), r = rnd(100); LM *m = &lm[w]; Jsi_List *l = L[w]; nfreed = 0; events++;
        if (r < 35) { if (m->n >= cap) continue; int at = rnd(m->n + 1); void *v = newval(); Jsi_ListEntry *e; int how = rnd(4);
            TR("list %d insert at %d of %d (%d)", w, at, m->n, how);
            if (how == 0) { e = Jsi_ListPushFrontNew(l, v); at = 0; } else if (how == 1) { e = Jsi_ListPushBackNew(l, v); at = m->n; }
            else if (how == 2 && w == 1) { bool n = 0; int front = rnd(2); e = (Jsi_ListEntry*)Jsi_MapEntryNew(LMAP, front ? "x" : NULL, &n); Jsi_MapValueSet((Jsi_MapEntry*)e, v); at = front ? 0 : m->n; if (!n) bad("map-list-new", "isNew not set"); }
            else e = Jsi_ListEntryNew(l, v, at < m->n ? m->e[at] : NULL);
            ins(m, at, e, v); }
        else if (r < 50) { if (!m->n) continue; int at = rnd(m->n), how = rnd(3); Jsi_ListEntry *e; TR("list %d delete %d of %d (%d)", w, at, m->n, how);
            if (how == 0) { e = Jsi_ListPop(l, m->e[at]); if (e != m->e[at]) bad("list-pop", "pop returned another entry"); if (e->next || e->prev) bad("list-pop", "a popped entry keeps its links"); Jsi_ListEntryDelete(e); }
            else if (how == 1) Jsi_ListEntryDelete(m->e[at]);
            else if (w == 1) Jsi_MapEntryDelete((Jsi_MapEntry*)m->e[at]); else { at = rnd(2) ? 0 : m->n - 1; e = at ? Jsi_ListPopBack(l) : Jsi_ListPopFront(l); if (e != m->e[at]) bad("list-pop", "pop front/back returned another entry"); Jsi_ListEntryDelete(e); }
            freed[(long)m->v[at]] = freed[(long)m->v[at]] ? 2 : 1; del(m, at); }
        else if (r < 65) { if (!m->n) continue; int at = rnd(m->n), to = rnd(2); LM *t = &lm[to]; Jsi_ListEntry *e = m->e[at]; void *v = m->v[at];   /* move an entry, also between the lists */
            if (t != m && t->n >= 399) continue; TR("list %d entry %d moves to %d", w, at, to);
            if (rnd(2)) Jsi_ListPop(l, e); del(m, at); int pos = rnd(t->n + 1); Jsi_ListPush(L[to], e, pos < t->n ? t->e[pos] : NULL); ins(t, pos, e, v); }
        else if (r < 70) { if (m->n) { int at = rnd(m->n); freed[(long)m->v[at]] = 1; m->v[at] = newval(); Jsi_ListValueSet(m->e[at], m->v[at]); } }
        else if (r < 72) { TR("list %d clear", w); if (w) Jsi_MapClear(LMAP); else Jsi_ListClear(l); for (int i = 0; i < m->n; i++) if (!freed[(long)m->v[i]]) bad("free-missed", "clear did not free value %d", i); if (nfreed != m->n) bad("free-count", "clear freed %d of %d", nfreed, m->n); m->n = 0; }
        else if (r < 76) { Jsi_ListSearch s; Jsi_ListEntry *e; int rev = rnd(2), i = rev ? m->n - 1 : 0, was = m->n, n = 0; TR("list %d delete in search", w);
            for (e = Jsi_ListSearchFirst(l, &s, rev ? JSI_LIST_REVERSE : 0); e; e = Jsi_ListSearchNext(&s)) { if (i < 0 || i >= m->n || e != m->e[i]) bad("list-search-delete", "position %d", i); n++; if (rnd(2)) { freed[(long)m->v[i]] = 1; Jsi_ListEntryDelete(e); del(m, i); if (rev) i--; } else i += rev ? -1 : 1; }
            if (n != was) bad("list-search-delete", "search with deletions visited %d of %d", n, was); }
        lcheck(0); lcheck(1);
    }
    nfreed = 0; Jsi_ListDelete(L[0]); if (nfreed != lm[0].n) bad("free-count", "delete freed %d of %d", nfreed, lm[0].n); nfreed = 0; Jsi_MapDelete(LMAP); if (nfreed != lm[1].n) bad("free-count", "delete freed %d of %d", nfreed, lm[1].n);
}
/* ---- dynamic strings ---- */
static char *ms; static size_t mn; static char rb[200000];
static void mapp(const char *s, size_t n) { ms = realloc(ms, mn + n + 1); memcpy(ms + mn, s, n); mn += n; ms[mn] = 0; }
static size_t rlen(void) { static int b[] = { 0, 1, 7, 63, 64, 199, 200, 255, 256, 399, 400, 511, 512, 1023, 1024, 2047, 4095, 4096, 8190, 8191, 8192, 8193, 8200, 16384, 20000 }; return rnd(3) ? rnd(60) : rnd(3) ? b[rnd(25)] + rnd(3) : rnd(30000); }
static void dcheck(Jsi_DString *d, char *ret, const char *op) {
    events++; char *v = Jsi_DSValue(d); uint n = Jsi_DSLength(d);
    if (ret && ret != v) bad("ds-return", "%s returned another string than the value", op);
    if (n != mn) bad("ds-length", "%s: length is %u, expected %zu", op, n, mn);
    if (memcmp(v, ms, mn + 1)) { size_t i = 0; while (v[i] == ms[i]) i++; bad("ds-bytes", "%s: byte %zu of %zu differs", op, i, mn); }
}
static void dstring(int ops) {
    static Jsi_DString z; Jsi_DString a = {}, c = {"Initial text"}; JSI_DSTRING_VAR(big, 9000); JSI_DSTRING_VAR(mid, 300); Jsi_DString i; Jsi_DSInit(&i); (void)z;
    Jsi_DString *d; int k = rnd(5); d = k == 0 ? &a : k == 1 ? &c : k == 2 ? big : k == 3 ? mid : &i;
    mn = 0; mapp("", 0); if (k == 1) mapp("Initial text", 12);
    for (stepno = 0; stepno < ops; stepno++) {
        int r = rnd(100); size_t n = rlen(); char *ret = NULL; const char *op = "";
        if (mn > 150000) r = 80 + rnd(20);
        for (size_t j = 0; j < n + 1; j++) rb[j] = 'a' + rnd(26); rb[n] = 0;
        TR("op %d len %zu at %zu", r, n, mn);
        if (r < 20) { op = "AppendLen"; if (rnd(3) == 0 && n) rb[rnd(n)] = 0; int l = rnd(4) ? (int)n : -1; ret = Jsi_DSAppendLen(d, rb, l); mapp(rb, l < 0 ? strlen(rb) : n); }
        else if (r < 35) { op = "Append"; size_t h = n / 2; ret = Jsi_DSAppend(d, rb, "", rb + h, "x", NULL); mapp(rb, n); mapp(rb + h, n - h); mapp("x", 1); }
        else if (r < 60) { op = "Printf"; if (rnd(2)) { ret = Jsi_DSPrintf(d, "<%s|%d>", rb, (int)n); char t[40]; mapp("<", 1); mapp(rb, n); snprintf(t, 40, "|%d>", (int)n); mapp(t, strlen(t)); } else { int w = (int)rlen(); ret = Jsi_DSPrintf(d, "%*d%c", w, 7, 'q'); for (int j = 0; j < w - 1; j++) mapp(" ", 1); mapp("7q", 2); } }
        else if (r < 68) { op = "Set"; ret = Jsi_DSSet(d, rb); mn = 0; mapp(rb, n); }
        else if (r < 80) { op = "SetLength"; size_t w = rnd(2) && mn ? rnd(mn + 1) : rlen(); uint sp = Jsi_DSSetLength(d, w); if (w < mn) { mn = w; ms[mn] = 0; } if (sp < w) bad("ds-space", "SetLength(%zu) returned space %u", w, sp); }
        else if (r < 88) { op = "Free"; Jsi_DSFree(d); mn = 0; ms[0] = 0; }
        else if (r < 94) { op = "FreeDup"; char *s = Jsi_DSFreeDup(d); if (memcmp(s, ms, mn + 1)) bad("ds-dup", "FreeDup returned other bytes"); Jsi_Free(s); mn = 0; ms[0] = 0; }
        else { op = "Append NULL"; ret = rnd(2) ? Jsi_DSAppend(d, NULL) : Jsi_DSAppendLen(d, NULL, 0); }
        dcheck(d, ret, op);
    }
    Jsi_DSFree(d);
}
static Jsi_RC sfree(Jsi_Interp *interp, void *v) { return freeval(interp, NULL, v); }
static void stack(int ops) {
    Jsi_Stack *s = Jsi_StackNew(); void *m[5000]; int n = 0, phase = 0;
    for (stepno = 0; stepno < ops; stepno++) {
        int r = rnd(100); events++; if (rnd(40) == 0) phase = rnd(3); if (phase == 1 && r > 50) r = 0; if (phase == 2 && r < 50) r = 60; if (n > 4900) r = 60;
        if (r < 50) { void *v = newval(); Jsi_StackPush(s, v); m[n++] = v; }
        else if (r < 75) { void *v = Jsi_StackPop(s), *w = n ? m[--n] : NULL; if (v != w) bad("stack-pop", "pop of %d", n); if (v) freed[(long)v] = 1; }
        else if (r < 98) { void *v = Jsi_StackUnshift(s), *w = n ? m[0] : NULL; if (n) { n--; memmove(m, m + 1, sizeof(m[0]) * n); } if (v != w) bad("stack-unshift", "unshift of %d", n); if (v) freed[(long)v] = 1; }
        else if (rnd(5) == 0) { nfreed = 0; Jsi_StackFreeElements(NULL, s, sfree); if (nfreed != n) bad("free-count", "FreeElements freed %d of %d", nfreed, n); n = 0; }
        if (Jsi_StackSize(s) != n) bad("stack-size", "size %d, expected %d", Jsi_StackSize(s), n);
        if (Jsi_StackPeek(s) != (n ? m[n - 1] : NULL)) bad("stack-peek", "at %d", n);
        if (Jsi_StackHead(s) != (n ? m[0] : NULL)) bad("stack-head", "at %d", n);
    }
    Jsi_StackFree(s);
}
int main(int argc, char **argv) {
    const char *kind = argv[1]; unsigned long seed = strtoul(argv[2], NULL, 10), n = strtoul(argv[3], NULL, 10); int ops = atoi(argv[4]); trace = argc > 5; maxval = 4096; freed = calloc(1, maxval);
    for (unsigned long s = seed; s < seed + n; s++) {
        rs = s * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (int i = 0; i < 20; i++) rnd(2); nval = 0; memset(freed, 0, maxval); count = 0; memset(present, 0, sizeof present); memset(mval, 0, sizeof mval); stepno = -1;
        if (trace || n > 1) { printf("SEED %lu\n", s); fflush(stdout); }
        if (!strcmp(kind, "hash")) { what = HASH; table(ops); } else if (!strcmp(kind, "tree")) { what = TREE; table(ops); } else if (!strcmp(kind, "maphash")) { what = MAPH; table(ops); } else if (!strcmp(kind, "maptree")) { what = MAPT; table(ops); }
        else if (!strcmp(kind, "list")) lists(ops); else if (!strcmp(kind, "dstring")) dstring(ops); else if (!strcmp(kind, "stack")) stack(ops); else return 2;
    }
    free(freed); free(ms); printf("EVENTS %ld\n", events); return 0;
}
