/* Random histories over typed C fields through the options API, against an independent memory image.
   argv: seed count ops [trace].  Prints "EVENTS n SETS a ERRORS b"; on a disagreement "BAD <key> <text>", exit 3. */
#include "jsiInt.h"
#include <stdarg.h>
#include <math.h>
#include <stddef.h>
static unsigned long long rs; static long events, nset, nerr, stepno; static int trace;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)((rs >> 11) % n); }
static void bad(const char *key, const char *fmt, ...) { va_list a; va_start(a, fmt); fflush(stdout); printf("BAD %s step=%ld ", key, stepno); vprintf(fmt, a); printf("\n"); fflush(stdout); _exit(3); }

typedef struct { int8_t a; double d; uint16_t u; char s[5]; bool b; int64_t w; } Sub;
#define INTS(X) X(INT8, int8_t, i8) X(UINT8, uint8_t, u8) X(INT16, int16_t, i16) X(UINT16, uint16_t, u16) X(INT32, int32_t, i32) X(UINT32, uint32_t, u32) \
    X(INT64, int64_t, i64) X(UINT64, uint64_t, u64) X(INT, int, in) X(UINT, uint, un) X(SHORT, short, sh) X(USHORT, ushort, us) X(LONG, long, lo) X(ULONG, ulong, ul) \
    X(SIZE_T, size_t, sz) X(SSIZE_T, ssize_t, ss) X(INTPTR_T, intptr_t, ip) X(UINTPTR_T, uintptr_t, up)
#define FLTS(X) X(FLOAT, float, fl) X(DOUBLE, double, db) X(NUMBER, Jsi_Number, nu) X(LDOUBLE, ldouble, ld)
typedef struct {
    unsigned char g0[64];
#define X(T, t, n) t n; unsigned char g_##n;
    INTS(X) FLTS(X)
#undef X
    bool bo; unsigned char g1;
    char s1[1]; char s8[8]; char s33[33]; unsigned char g2[3];
    int8_t e1; unsigned char g3; int16_t e2; int16_t ev; unsigned char g4; int64_t ew; unsigned char g4b[3]; uint32_t e4; unsigned char g5; int64_t e8; uint8_t eu; unsigned char g5b;
    uint8_t b1; unsigned char g6[3]; uint16_t b2; unsigned char g7[2]; uint32_t b4; unsigned char g8[4]; uint64_t b8; unsigned char g9[8];
    Sub sub; unsigned char g10[8];
    int ia[5]; unsigned char g11[8]; uint8_t ba[7]; unsigned char g12; double da[3]; unsigned char g13[8]; Sub sa[4]; unsigned char g14[8];
    time_w tw; time_d td; time_t tt; unsigned char g15[8];
    const char *key; Jsi_Value *str; Jsi_Value *val; Jsi_DString ds; unsigned char g16[64];
} Big;
static const char *enames[] = { "none", "red", "green", "blue", "Violet", NULL }, *evnames[] = { "low", "mid", "top", NULL };
static const char *bn[41];
static Jsi_OptionSpec evspec[] = { { .name = "low", .id = JSI_OPTION_INT, .value = -5 }, { .name = "mid", .id = JSI_OPTION_INT, .value = 1000 }, { .name = "top", .id = JSI_OPTION_INT, .value = 7 }, { .id = JSI_OPTION_END, .size = 3, .init = { .STRKEY = evnames } } };
static const long long evval[] = { -5, 1000, 7 };
static Jsi_OptionSpec ewspec[] = { { .name = "low", .id = JSI_OPTION_INT, .value = -5 }, { .name = "mid", .id = JSI_OPTION_INT, .value = 30000000000LL }, { .name = "top", .id = JSI_OPTION_INT, .value = 7 }, { .id = JSI_OPTION_END, .size = 3, .init = { .STRKEY = evnames } } };
static const long long ewval[] = { -5, 30000000000LL, 7 };
static const char *bn1[9], *bn2[17], *bn4[33];
static Jsi_OptionSpec subspec[] = { JSI_OPT(INT8, Sub, a), JSI_OPT(DOUBLE, Sub, d), JSI_OPT(UINT16, Sub, u), JSI_OPT(STRBUF, Sub, s), JSI_OPT(BOOL, Sub, b), JSI_OPT(INT64, Sub, w), JSI_OPT_END(Sub) };
static Jsi_OptionSpec iaspec[] = { JSI_OPT_CARRAY_ITEM(INT, Big, ia), JSI_OPT_END(Big) }, baspec[] = { JSI_OPT_CARRAY_ITEM(UINT8, Big, ba), JSI_OPT_END(Big) }, daspec[] = { JSI_OPT_CARRAY_ITEM(DOUBLE, Big, da), JSI_OPT_END(Big) };
static Jsi_OptionSpec saspec[] = { JSI_OPT_CARRAY_ITEM(CUSTOM, Big, sa, .custom = Jsi_Opt_SwitchSuboption, .data = subspec), JSI_OPT_END(Big) };
static Jsi_OptionSpec spec[] = {
#define X(T, t, n) JSI_OPT(T, Big, n),
    INTS(X) FLTS(X)
#undef X
    JSI_OPT(BOOL, Big, bo), JSI_OPT(STRBUF, Big, s1), JSI_OPT(STRBUF, Big, s8), JSI_OPT(STRBUF, Big, s33),
    JSI_OPT(CUSTOM, Big, e1, .custom = Jsi_Opt_SwitchEnum, .data = enames), JSI_OPT(CUSTOM, Big, e2, .custom = Jsi_Opt_SwitchEnum, .data = enames, .flags = JSI_OPT_CUST_NOCASE),
    JSI_OPT(CUSTOM, Big, ev, .custom = Jsi_Opt_SwitchEnum, .data = evspec, .flags = JSI_OPT_ENUM_SPEC),
    JSI_OPT(CUSTOM, Big, ew, .custom = Jsi_Opt_SwitchEnum, .data = ewspec, .flags = JSI_OPT_ENUM_SPEC), JSI_OPT(CUSTOM, Big, e4, .custom = Jsi_Opt_SwitchEnum, .data = enames), JSI_OPT(CUSTOM, Big, e8, .custom = Jsi_Opt_SwitchEnum, .data = enames, .flags = JSI_OPT_ENUM_EXACT),
    JSI_OPT(CUSTOM, Big, eu, .custom = Jsi_Opt_SwitchEnum, .data = enames, .flags = JSI_OPT_ENUM_UNSIGNED),
    JSI_OPT(CUSTOM, Big, b1, .custom = Jsi_Opt_SwitchBitset, .data = bn1), JSI_OPT(CUSTOM, Big, b2, .custom = Jsi_Opt_SwitchBitset, .data = bn2),
    JSI_OPT(CUSTOM, Big, b4, .custom = Jsi_Opt_SwitchBitset, .data = bn4), JSI_OPT(CUSTOM, Big, b8, .custom = Jsi_Opt_SwitchBitset, .data = bn),
    JSI_OPT(CUSTOM, Big, sub, .custom = Jsi_Opt_SwitchSuboption, .data = subspec),
    JSI_OPT_CARRAY(Big, ia, "", 0, iaspec, 5, "int", 0), JSI_OPT_CARRAY(Big, ba, "", 0, baspec, 7, "uint8", 0), JSI_OPT_CARRAY(Big, da, "", 0, daspec, 3, "double", 0), JSI_OPT_CARRAY(Big, sa, "", 0, saspec, 4, "Sub", 0),
    JSI_OPT(TIME_W, Big, tw), JSI_OPT(TIME_D, Big, td), JSI_OPT(TIME_T, Big, tt),
    JSI_OPT(STRKEY, Big, key), JSI_OPT(STRING, Big, str), JSI_OPT(VALUE, Big, val), JSI_OPT(DSTRING, Big, ds), JSI_OPT_END(Big)
};
enum { K_INT, K_FLT, K_BOOL, K_SBUF, K_ENUM, K_EVAL, K_BITS, K_TIME, K_PTR };
typedef struct { char path[32]; int kind, sz, sg, opt; size_t off; } Leaf;
static Leaf L[200]; static int nl;
static void leaf(const char *p, int kind, size_t off, int sz, int sg, int opt) { Leaf *l = L + nl++; snprintf(l->path, sizeof l->path, "%s", p); l->kind = kind; l->off = off; l->sz = sz; l->sg = sg; l->opt = opt; }
static void subleaves(const char *pre, size_t o) {
    char b[64];
#define S(n, k, sg) snprintf(b, sizeof b, "%s.%s", pre, #n); leaf(b, k, o + offsetof(Sub, n), sizeof(((Sub*)0)->n), sg, 0);
    S(a, K_INT, 1) S(d, K_FLT, 0) S(u, K_INT, 0) S(s, K_SBUF, 0) S(b, K_BOOL, 0) S(w, K_INT, 1)
}
#define OFS(n) offsetof(Big, n), sizeof(((Big*)0)->n)
static void setup(void) {
    char b[64];
    for (int i = 0; i < 40; i++) { snprintf(b, sizeof b, "f%d", i); bn[i] = strdup(b); if (i < 8) bn1[i] = bn[i]; if (i < 16) bn2[i] = bn[i]; if (i < 32) bn4[i] = bn[i]; }
#define X(T, t, n) leaf(#n, K_INT, OFS(n), (t)-1 < 0, 0);
    INTS(X)
#undef X
#define X(T, t, n) leaf(#n, K_FLT, OFS(n), sizeof(t) > 8, 0);
    FLTS(X)
#undef X
    leaf("bo", K_BOOL, OFS(bo), 0, 0); leaf("s1", K_SBUF, OFS(s1), 0, 0); leaf("s8", K_SBUF, OFS(s8), 0, 0); leaf("s33", K_SBUF, OFS(s33), 0, 0);
    leaf("e1", K_ENUM, OFS(e1), 0, 0); leaf("e2", K_ENUM, OFS(e2), 0, 1); leaf("ev", K_EVAL, OFS(ev), 0, 0); leaf("ew", K_EVAL, OFS(ew), 0, 3); leaf("e4", K_ENUM, OFS(e4), 0, 0); leaf("e8", K_ENUM, OFS(e8), 0, 2); leaf("eu", K_ENUM, OFS(eu), 0, 0);
    leaf("b1", K_BITS, OFS(b1), 0, 8); leaf("b2", K_BITS, OFS(b2), 0, 16); leaf("b4", K_BITS, OFS(b4), 0, 32); leaf("b8", K_BITS, OFS(b8), 0, 40);
    subleaves("sub", offsetof(Big, sub));
    for (int i = 0; i < 5; i++) { snprintf(b, sizeof b, "ia[%d]", i); leaf(b, K_INT, offsetof(Big, ia) + i * sizeof(int), sizeof(int), 1, 0); }
    for (int i = 0; i < 7; i++) { snprintf(b, sizeof b, "ba[%d]", i); leaf(b, K_INT, offsetof(Big, ba) + i, 1, 0, 0); }
    for (int i = 0; i < 3; i++) { snprintf(b, sizeof b, "da[%d]", i); leaf(b, K_FLT, offsetof(Big, da) + i * sizeof(double), sizeof(double), 0, 0); }
    for (int i = 0; i < 4; i++) { snprintf(b, sizeof b, "sa[%d]", i); subleaves(b, offsetof(Big, sa) + i * sizeof(Sub)); }
    leaf("tw", K_TIME, OFS(tw), 1, 0); leaf("td", K_TIME, OFS(td), 1, 1); leaf("tt", K_TIME, OFS(tt), 1, 0);
    leaf("key", K_PTR, OFS(key), 0, 0); leaf("str", K_PTR, OFS(str), 0, 1); leaf("val", K_PTR, OFS(val), 0, 2); leaf("ds", K_PTR, OFS(ds), 0, 3);
}
static Jsi_Interp *in; static Big *R; static unsigned char *E; static char *ptxt[4]; static unsigned char *mask;
/* a value: its kind, and what it is */
typedef struct { int t; /* 0 number 1 string 2 bool 3 null 4 array 5 object */ double n; char s[3000]; int b; char json[6000]; } Val;
static double edges(void) {
    static const int bits[] = { 7, 8, 15, 16, 31, 32, 53 }; double x;
    switch (rnd(8)) {
    case 0: return rnd(10) - 4.0;
    case 1: x = ldexp(1, bits[rnd(7)]) + (int)rnd(3) - 1; return rnd(2) ? x : -x;
    case 2: return rnd(70000) - 35000.0;
    case 3: x = rnd(100000) / 8.0; return rnd(2) ? x : -x;
    case 4: x = ldexp(1 + rnd(1 << 20) / 1048576.0, rnd(62)); return rnd(2) ? x : -x;
    case 5: return rnd(4) ? rnd(256) : ldexp(1, 63 + rnd(2)) * (rnd(2) ? 1 : -1);
    case 6: switch (rnd(6)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 1e300; case 4: return -1e300; default: return 1e19; }
    default: return rnd(200) - 100.0;
    }
}
static void addjson(char *o, const char *s) { char *p = o + strlen(o); *p++ = '"'; while (*s) { if (*s == '"' || *s == '\\') *p++ = '\\'; *p++ = *s++; } *p++ = '"'; *p = 0; }
static void text(char *s, int n) { for (int i = 0; i < n; i++) s[i] = "abcXYZ 0129_-\"\\{]"[rnd(18 - 1)]; s[n] = 0; }
static void number(Val *v, double x) { v->t = 0; v->n = x; if (isfinite(x)) snprintf(v->json, sizeof v->json, "%.17g", x); else v->json[0] = 0; }
static void string(Val *v) { v->t = 1; v->json[0] = 0; addjson(v->json, v->s); }
static void gen(Val *v, Leaf *l) {
    memset(v, 0, sizeof *v); int k = l->kind;
    if (rnd(12) == 0) k = K_INT + rnd(4);     /* often of the wrong kind */
    if (rnd(25) == 0) { v->t = 3; strcpy(v->json, "null"); return; }
    if (rnd(60) == 0) { v->t = 4; strcpy(v->json, "[1]"); return; }
    switch (k) {
    case K_INT: case K_FLT: number(v, edges()); if (k == K_INT && l->sz <= 4 && rnd(2)) number(v, (double)((long long)rnd(1u << (8 * l->sz - 1)) * (l->sg && rnd(2) ? -1 : 1))); break;
    case K_BOOL: v->t = 2; v->b = rnd(2); strcpy(v->json, v->b ? "true" : "false"); break;
    case K_SBUF: { int n = rnd(3) ? rnd(l->kind == K_SBUF ? l->sz + 2 : 10) : rnd(40); if (l->kind == K_SBUF && rnd(4) == 0) n = l->sz - 1 + rnd(2); text(v->s, n); string(v); break; }
    case K_ENUM: strcpy(v->s, rnd(8) ? enames[rnd(5)] : "zzz"); if (rnd(6) == 0) v->s[rnd(4)] = 0; if (l->opt == 1 && rnd(2)) for (char *p = v->s; *p; p++) *p = toupper(*p); string(v); break;
    case K_EVAL: strcpy(v->s, rnd(8) ? evnames[rnd(3)] : "zzz"); string(v); break;
    case K_BITS: {
        int n = 1 + rnd(4), form = rnd(3), eq = form != 1 && rnd(3) == 0;
        if (form == 0) { if (eq) strcat(v->s, "="); for (int i = 0; i < n; i++) { if (i) strcat(v->s, ","); if (!eq && rnd(3) == 0) strcat(v->s, "!"); strcat(v->s, rnd(30) ? bn[rnd(l->opt)] : "zzz"); } string(v); }
        else { v->t = form == 1 ? 5 : 4; strcpy(v->json, form == 1 ? "{" : "["); if (eq) strcat(v->json, "\"=\""); int seen[40] = {};
            for (int i = 0; i < n; i++) {
                int f = rnd(l->opt), neg = rnd(3) == 0; if (seen[f]) continue; seen[f] = 1;
                if (i || eq) strcat(v->json, ","); char b[20]; snprintf(b, sizeof b, "%s%s", form == 2 && neg ? "!" : "", bn[f]); addjson(v->json, b);
                if (form == 1) strcat(v->json, neg ? ":false" : ":true"); }
            strcat(v->json, form == 1 ? "}" : "]"); }
        break; }
    case K_TIME: number(v, (double)((long long)rnd(1u << 30) * 1500 - (1ll << 38))); break;
    case K_PTR: if (l->opt == 2 && rnd(2)) number(v, rnd(100000) / 4.0 - 3000); else { text(v->s, rnd(4) ? rnd(20) : rnd(2500)); string(v); } break;
    }
}
static Jsi_Value *mk(Val *v) {
    Jsi_Value *o;
    if (v->t == 0) o = Jsi_ValueNewNumber(in, v->n); else if (v->t == 1) o = Jsi_ValueNewStringDup(in, v->s); else if (v->t == 2) o = Jsi_ValueNewBoolean(in, v->b); else if (v->t == 3) o = Jsi_ValueNewNull(in);
    else { o = NULL; Jsi_Value *t = Jsi_ValueNew1(in); if (Jsi_JSONParse(in, v->json, &t, 0) != JSI_OK) bad("harness", "json %s", v->json); return t; }
    Jsi_IncrRefCount(in, o); return o;
}
static int bitidx(const char *s, int n, int lim) { for (int i = 0; i < lim; i++) if ((int)strlen(bn[i]) == n && !strncmp(bn[i], s, n)) return i; return -1; }
/* what a store of v into l has to do: 1 stored (into E), 0 an error with nothing stored */
static int model(Leaf *l, Val *v, int incr) {
    unsigned char *e = E + l->off;
    switch (l->kind) {
    case K_INT: {
        if (v->t != 0) return 0;
        double x = trunc(v->n); int bits = l->sz * 8;
        if (isnan(x) || fabs(x) > 1.9e19) return 0;
        __int128 w = (__int128)x, lo, hi;
        if (incr) { __int128 old = 0; if (l->sg) { int64_t q = l->sz == 1 ? *(int8_t*)e : l->sz == 2 ? *(int16_t*)e : *(int32_t*)e; old = q; } else { uint64_t q = 0; memcpy(&q, e, l->sz); old = q; } w += old; int64_t q = (int64_t)w; memcpy(e, &q, l->sz); return 1; }
        lo = l->sg ? -((__int128)1 << (bits - 1)) : 0; hi = ((__int128)1 << (l->sg ? bits - 1 : bits)) - 1;
        if (!l->sg && bits == 64) lo = -((__int128)1 << 63);        /* converted as C does */
        if (w < lo || w > hi) return 0;
        uint64_t q = (uint64_t)(unsigned __int128)w; memcpy(e, &q, l->sz); return 1; }
    case K_FLT: {
        if (v->t != 0) return 0;
        double x = v->n;
        if (l->sz == 4) { float f; memcpy(&f, e, 4); if (incr) x += f; f = (float)x; if (isnan(f)) return 0; memcpy(e, &f, 4); }
        else if (l->sz == 8) { double f; memcpy(&f, e, 8); if (incr) x += f; if (isnan(x)) return 0; memcpy(e, &x, 8); }
        else { long double f; memcpy(&f, e, 10); if (incr) x = (double)(x + f); if (isnan(x)) return 0; f = x; memcpy(e, &f, 10); }
        return 1; }
    case K_BOOL: if (v->t != 2) return 0; *e = v->b; return 1;
    case K_SBUF: if (v->t == 3) { *e = 0; return 1; } if (v->t != 1 || (int)strlen(v->s) > l->sz - 1) return 0; strcpy((char*)e, v->s); return 1;
    case K_ENUM: case K_EVAL: { const char **t = l->kind == K_ENUM ? enames : evnames; if (v->t != 1) return 0;
        for (int i = 0; t[i]; i++) if (*v->s && (l->opt == 2 ? !strcmp(t[i], v->s) : l->opt == 1 ? !strncasecmp(t[i], v->s, strlen(v->s)) : !strncmp(t[i], v->s, strlen(v->s)))) { int64_t q = l->kind == K_ENUM ? i : l->opt ? ewval[i] : evval[i]; memcpy(e, &q, l->sz); return 1; }
        return 0; }
    case K_BITS: {
        uint64_t m = 0, im = 0; memcpy(&im, e, l->sz);
        const char *p; int first = 1;
        if (v->t == 1) { p = v->s; if (*p == '=') p++; else m = im;
            if (!*p) return 1;
            for (;;) { int neg = *p == '!'; if (neg) p++; int n = strcspn(p, ","), i = bitidx(p, n, l->opt); if (i < 0 || (neg && v->s[0] == '=')) return 0; if (neg) m &= ~(1ull << i); else m |= 1ull << i; p += n; if (!*p) break; p++; } }
        else if (v->t == 4 || v->t == 5) { p = v->json; m = im;
            if (!strcmp(p, "[1]")) return 0;
            while ((p = strchr(p, '"'))) { p++; int n = strcspn(p, "\""); if (first && v->t == 4 && n == 1 && *p == '=') { m = 0; first = 0; p += n + 1; continue; }
                first = 0; int neg = *p == '!'; if (neg) p++, n--; int i = bitidx(p, n, l->opt); if (i < 0) return 0; p += n + 1; if (v->t == 5) neg = !strncmp(p, ":false", 6);
                if (neg) m &= ~(1ull << i); else m |= 1ull << i; } }
        else return 0;
        memcpy(e, &m, l->sz); return 1; }
    case K_TIME: if (v->t != 0) return 0; { if (l->opt) memcpy(e, &v->n, 8); else { int64_t q = (int64_t)v->n; memcpy(e, &q, 8); } } return 1;
    default: {
        char **pt = ptxt + l->opt; 
        if (v->t == 3) { free(*pt); *pt = l->opt == 3 ? strdup("s") : NULL; return 1; }
        if (l->opt == 2 && v->t > 1) { free(*pt); *pt = strdup("x"); return 1; }
        if (l->opt == 2) { }
        else if (v->t != 1) return 0;
        free(*pt); *pt = malloc(strlen(v->s) + 60); if (v->t == 1) sprintf(*pt, "s%s", v->s); else sprintf(*pt, "n%.17g", v->n); return 1; }
    }
}
static void mem(const char *what) {
    unsigned char *r = (unsigned char*)R;
    for (size_t i = 0; i < sizeof(Big); i++) if (!mask[i] && r[i] != E[i]) {
        const char *f = "a guard between fields"; for (int j = 0; j < nl; j++) if (i >= L[j].off && i < L[j].off + L[j].sz) f = L[j].path;
        bad("memory", "after %s, byte %zu (%s) is %02x, expected %02x", what, i, f, r[i], E[i]); }
}
/* compare a value read back with the image */
static void same(Leaf *l, Jsi_Value *v, const char *how) {
    unsigned char *e = E + l->off; events++;
    if (l->kind == K_INT || l->kind == K_FLT) { double x, y; 
        if (l->kind == K_FLT) { if (l->sz == 4) { float f; memcpy(&f, e, 4); y = f; } else if (l->sz == 8) memcpy(&y, e, 8); else { long double f; memcpy(&f, e, 10); y = (double)f; } }
        else if (l->sg) { int64_t q = 0; memcpy(&q, e, l->sz); int k = 64 - 8 * l->sz; q = (int64_t)((uint64_t)q << k) >> k; y = (double)q; } else { uint64_t q = 0; memcpy(&q, e, l->sz); y = (double)q; }
        if (!v || v->vt != JSI_VT_NUMBER) bad("get-type", "%s of %s is not a number", how, l->path);
        x = v->d.num; if (x != y) bad("get", "%s of %s gives %.17g, stored was %.17g", how, l->path, x, y);
    } else if (l->kind == K_BOOL) { if (!v || v->vt != JSI_VT_BOOL || v->d.val != *e) bad("get", "%s of %s: wrong bool", how, l->path);
    } else if (l->kind == K_SBUF) { const char *s = Jsi_ValueString(in, v, NULL); if (!s || strcmp(s, (char*)e)) bad("get", "%s of %s gives '%s', stored was '%s'", how, l->path, s ? s : "(none)", e);
    } else if (l->kind == K_ENUM || l->kind == K_EVAL) { int64_t q = 0; memcpy(&q, e, l->sz); int k = 64 - 8 * l->sz; q = (int64_t)((uint64_t)q << k) >> k; const char *w = "?", *s = Jsi_ValueString(in, v, NULL);
        if (l->kind == K_ENUM) w = enames[q]; else for (int i = 0; i < 3; i++) if ((l->opt ? ewval : evval)[i] == q) w = evnames[i];
        if (!s || strcmp(s, w)) bad("get", "%s of %s gives '%s', stored was '%s'", how, l->path, s ? s : "(none)", w);
    } else if (l->kind == K_BITS) { uint64_t m = 0, g = 0; memcpy(&m, e, l->sz); int n = Jsi_ValueIsArray(in, v) ? Jsi_ValueGetLength(in, v) : -1;
        for (int i = 0; i < n; i++) { Jsi_Value *x = Jsi_ValueArrayIndex(in, v, i); const char *s = x ? Jsi_ValueString(in, x, NULL) : NULL; int k = s ? bitidx(s, strlen(s), l->opt) : -1; if (k < 0) bad("get", "%s of %s has the element '%s'", how, l->path, s ? s : "(none)"); g |= 1ull << k; }
        if (n < 0 || g != m) bad("get", "%s of %s gives the bits %llx, stored were %llx", how, l->path, (long long)g, (long long)m);
    } else if (l->kind == K_PTR) { char *w = ptxt[l->opt];
        if (!w) { if (v->vt != JSI_VT_NULL) bad("get", "%s of %s is not null", how, l->path); }
        else if (*w == 'x') { if (v->vt == JSI_VT_NULL) bad("get", "%s of %s is null", how, l->path); }
        else if (*w == 's') { int n; const char *s = Jsi_ValueString(in, v, &n); if (!s || strcmp(s, w + 1) || n != (int)strlen(w + 1)) bad("get", "%s of %s gives '%.60s', stored was '%.60s'", how, l->path, s ? s : "(none)", w + 1); }
        else if (v->vt != JSI_VT_NUMBER || (v->d.num != atof(w + 1) && !(isnan(v->d.num) && isnan(atof(w + 1))))) bad("get", "%s of %s: wrong number", how, l->path);
    }
}
static Leaf *find(const char *p) { for (int i = 0; i < nl; i++) if (!strcmp(L[i].path, p)) return L + i; return NULL; }
static void readall(void) {
    for (int i = 0; i < nl; i++) { if (L[i].kind == K_FLT && 0) continue; Jsi_Value *v = Jsi_ValueNew1(in); if (Jsi_OptionsGet(in, spec, R, L[i].path, &v, 0) != JSI_OK) bad("get-error", "get of %s fails", L[i].path); same(L + i, v, "get"); Jsi_DecrRefCount(in, v); }
}
static void chkdump(Jsi_Value *o, const char *pre, const char *how) {   /* every leaf below pre in an object */
    for (int i = 0; i < nl; i++) {
        const char *p = L[i].path; size_t n = strlen(pre); if (strncmp(p, pre, n)) continue; p += n; if (strchr(p, '[')) { char b[32]; int k; if (sscanf(p, "%2[a-z][%d]", b, &k) != 2) continue;
            Jsi_Value *a = Jsi_ValueObjLookup(in, o, b, 0); if (!a || !Jsi_ValueIsArray(in, a)) bad("dump", "%s has no array %s", how, b); Jsi_Value *x = Jsi_ValueArrayIndex(in, a, k); const char *q = strchr(p, '.'); if (q && x) x = Jsi_ValueObjLookup(in, x, (char*)q + 1, 0); if (!x) bad("dump", "%s lacks %s", how, L[i].path); same(L + i, x, how); continue; }
        const char *q = strchr(p, '.'); Jsi_Value *x; if (q) { char b[32]; snprintf(b, sizeof b, "%.*s", (int)(q - p), p); x = Jsi_ValueObjLookup(in, o, b, 0); if (x) x = Jsi_ValueObjLookup(in, x, (char*)q + 1, 0); } else x = Jsi_ValueObjLookup(in, o, (char*)p, 0);
        if (!x) bad("dump", "%s lacks %s", how, L[i].path); same(L + i, x, how);
    }
}
static void history(int ops) {
    in = Jsi_InterpNew(NULL); R = calloc(1, sizeof(Big)); E = calloc(1, sizeof(Big)); mask = calloc(1, sizeof(Big)); Val v, w2; char what[300];
    for (int i = 0; i < 4; i++) { free(ptxt[i]); ptxt[i] = i == 3 ? strdup("s") : NULL; } Jsi_DSInit(&R->ds);
    for (int i = 0; i < nl; i++) if (L[i].kind == K_PTR) memset(mask + L[i].off, 1, L[i].sz); else if (L[i].sz == 16) memset(mask + L[i].off + 10, 1, 6);
#define G(m) for (size_t i = 0; i < sizeof R->m; i++) E[offsetof(Big, m) + i] = ((unsigned char*)&R->m)[i] = rnd(256);
    G(g0) G(g1) G(g2) G(g3) G(g4) G(g4b) G(g5) G(g5b) G(g6) G(g7) G(g8) G(g9) G(g10) G(g11) G(g12) G(g13) G(g14) G(g15) G(g16)
#define X(T, t, n) G(g_##n)
    INTS(X) FLTS(X)
#undef X
    R->ev = -5; R->ew = -5; memcpy(E + offsetof(Big, ew), &R->ew, 8); memcpy(E + offsetof(Big, ev), &R->ev, 2);
    for (stepno = 0; stepno < ops; stepno++) {
        int r = rnd(100); Leaf *l = L + rnd(nl); events++;
        if (r < 70) {     /* one field by its path */
            gen(&v, l); int incr = l->kind <= K_FLT && l->sz <= 4 && v.t == 0 && fabs(v.n) < 1e15 && rnd(6) == 0; Jsi_Wide fl = incr ? JSI_OPTS_INCR : rnd(2) ? JSI_OPTS_IS_UPDATE : 0; if (l->kind == K_FLT && incr && isnan(v.n)) incr = 0, fl = 0;
            if (strchr(l->path, '[') || strchr(l->path, '.')) { }
            if (l->kind == K_SBUF && strlen(v.s) && v.t == 1 && 0) continue;
            snprintf(what, sizeof what, "%s %s = %.100s%s", incr ? "incr" : "set", l->path, v.t == 0 && !isfinite(v.n) ? "(not finite)" : v.json, ""); if (trace) { printf("%ld: %s\n", stepno, what); fflush(stdout); }
            int ok = model(l, &v, incr); Jsi_Value *o = mk(&v); Jsi_RC rc = Jsi_OptionsSet(in, spec, R, l->path, o, fl); Jsi_DecrRefCount(in, o);
            if (ok) nset++; else nerr++;
            if ((rc == JSI_OK) != ok) bad(ok ? "set-fails" : "set-accepted", "%s %s", what, ok ? "fails" : "is accepted"); mem(what);
        } else if (r < 78) { /* several fields in an object */
            static char js[20000]; int pre = rnd(3), n = 1 + rnd(4); const char *p = pre == 0 ? "sub." : ""; strcpy(js, "{"); char used[200] = {}; int okall = 1, c = 0;
            unsigned char *save = malloc(sizeof(Big)); memcpy(save, E, sizeof(Big));
            for (int i = 0; i < n; i++) { int k = rnd(nl); l = L + k; if (pre == 0) { l = find("sub.a") + rnd(6); k = l - L; } else if (strchr(l->path, '.') || strchr(l->path, '[') || l->kind == K_PTR) continue; if (used[k]) continue; used[k] = 1;
                gen(&v, l); if (!v.json[0]) continue; unsigned char t[64]; memcpy(t, E + l->off, l->sz); if (!model(l, &v, 0)) { if (c || n > 1) { memcpy(E + l->off, t, l->sz); continue; } okall = 0; }
                if (c++) strcat(js, ","); addjson(js, l->path + strlen(p)); strcat(js, ":"); strcat(js, v.json); }
            strcat(js, "}"); free(save);
            Jsi_Value *o = Jsi_ValueNew1(in); if (Jsi_JSONParse(in, js, &o, 0) != JSI_OK) bad("harness", "json %s", js);
            snprintf(what, sizeof what, "configure %s %.200s", p, js); if (trace) { printf("%ld: %s\n", stepno, what); fflush(stdout); }
            Jsi_RC rc; if (pre == 0) rc = Jsi_OptionsSet(in, spec, R, "sub", o, JSI_OPTS_IS_UPDATE); else { Jsi_Value *ret = Jsi_ValueNew1(in); rc = Jsi_OptionsConf(in, spec, R, o, &ret, 0); Jsi_DecrRefCount(in, ret); }
            Jsi_DecrRefCount(in, o); if (okall) nset += c; else nerr++;
            if ((rc == JSI_OK) != okall) bad(okall ? "conf-fails" : "conf-accepted", "%s %s", what, okall ? "fails" : "is accepted"); mem(what);
        } else if (r < 84) { /* a whole array, in order up to the first bad element */
            static const struct { const char *n; int c; } A[] = { { "ia", 5 }, { "ba", 7 }, { "da", 3 } }; int k = rnd(3), c = A[k].c + (rnd(6) ? 0 : (int)rnd(3) - 1), ok = c == A[k].c, stop = !ok; static char js[9000]; strcpy(js, "["); char b[32];
            for (int i = 0; i < c; i++) { snprintf(b, sizeof b, "%s[%d]", A[k].n, i < A[k].c ? i : 0); l = find(b); do { if (rnd(5) && l->kind == K_INT) number(&v, rnd(l->sz == 1 ? 256 : 100000)); else gen(&v, l); } while (!v.json[0] || v.t >= 4); if (!stop && !model(l, &v, 0)) ok = 0, stop = 1; if (i) strcat(js, ","); strcat(js, v.json); }
            strcat(js, "]"); Jsi_Value *o = Jsi_ValueNew1(in); if (Jsi_JSONParse(in, js, &o, 0) != JSI_OK) bad("harness", "json %s", js);
            snprintf(what, sizeof what, "set %s = %.200s", A[k].n, js); if (trace) { printf("%ld: %s\n", stepno, what); fflush(stdout); }
            Jsi_RC rc = Jsi_OptionsSet(in, spec, R, A[k].n, o, 0); Jsi_DecrRefCount(in, o); if (ok) nset += c; else nerr++;
            if ((rc == JSI_OK) != ok) bad(ok ? "array-fails" : "array-accepted", "%s %s", what, ok ? "fails" : "is accepted"); mem(what);
        } else if (r < 90) { /* names that are none */
            static const char *B[] = { "ia[5]", "ia[6]", "ba[7]", "ba[100]", "da[3]", "sa[4].a", "sa[9].w", "ia[-1]", "ia[]", "ia[x]", "ia[1", "nosuch", "sub.nosuch", "sub.", "sa[1].nosuch", "i8[0]", "i8.x", "ia.x", "da[4000000000]", "ba[99999999999]", "" };
            const char *p = B[rnd(sizeof B / sizeof *B)]; number(&v, 1); Jsi_Value *o = mk(&v), *g = Jsi_ValueNew1(in); snprintf(what, sizeof what, "access to '%s'", p); if (trace) { printf("%ld: %s\n", stepno, what); fflush(stdout); }
            if (rnd(2)) { if (Jsi_OptionsSet(in, spec, R, p, o, 0) == JSI_OK) bad("bad-name", "a store to '%s' is accepted", p); } else if (Jsi_OptionsGet(in, spec, R, p, &g, 0) == JSI_OK) bad("bad-name", "a read of '%s' is accepted", p);
            nerr++; Jsi_DecrRefCount(in, o); Jsi_DecrRefCount(in, g); mem(what);
        } else if (r < 95) { Jsi_Value *g = Jsi_ValueNew1(in); if (Jsi_OptionsGet(in, spec, R, l->path, &g, 0) != JSI_OK) bad("get-error", "get of %s fails", l->path); same(l, g, "get"); Jsi_DecrRefCount(in, g); mem("a get"); }
        else if (r < 97) { Jsi_Value *g = Jsi_ValueNew1(in); if (trace) { printf("%ld: dump\n", stepno); fflush(stdout); } if (Jsi_OptionsDump(in, spec, R, &g, rnd(2) ? 0 : 0) != JSI_OK) bad("dump", "the dump fails"); chkdump(g, "", "the dump"); Jsi_DecrRefCount(in, g); mem("a dump"); }
        else if (r < 99) { if (trace) { printf("%ld: read all\n", stepno); fflush(stdout); } readall(); }
        else if (rnd(4) == 0) { /* reset of the sub-structure */
            if (Jsi_OptionsSet(in, spec, R, "sub", NULL, 0) != JSI_OK) bad("reset", "a reset fails"); for (int i = 0; i < nl; i++) if (!strncmp(L[i].path, "sub.", 4)) { if (L[i].kind == K_SBUF) E[L[i].off] = 0; else memset(E + L[i].off, 0, L[i].sz); } mem("reset of sub"); }
    }
    readall(); Jsi_OptionsFree(in, spec, R, 0); Jsi_InterpDelete(in); free(R); free(E); free(mask);
}
int main(int argc, char **argv) {
    unsigned long seed = strtoul(argv[1], NULL, 10), n = strtoul(argv[2], NULL, 10); int ops = atoi(argv[3]); trace = argc > 4; setup();
    for (unsigned long s = seed; s < seed + n; s++) { rs = s * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (int i = 0; i < 20; i++) rnd(2); if (trace || n > 1) { printf("SEED %lu\n", s); fflush(stdout); } history(ops); }
    for (int i = 0; i < 4; i++) free(ptxt[i]);
    printf("EVENTS %ld SETS %ld ERRORS %ld\n", events, nset, nerr); return 0;
}
