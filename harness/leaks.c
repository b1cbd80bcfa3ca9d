/* Memory growth monitor.
   leaks calls FILE   - FILE defines the script function op(); it is called repeatedly in one interpreter
   leaks evals FILE   - the text of FILE is evaluated repeatedly in one interpreter
   leaks interps FILE - an interpreter is created, FILE's text evaluated, the interpreter deleted, repeatedly
   Prints "BYTES b0 b1 ..." (live heap bytes after each round), "RC n" (failed runs), and, for what was allocated
   in the rounds before the last two and is still live, "SITE bytes count frame<frame<..." lines. */
#include "jsiInt.h"
#include <execinfo.h>
size_t __sanitizer_get_current_allocated_bytes(void);
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n);
#define ROUNDS 8
#define HB (1 << 20)
#define DEPTH 14
typedef struct Rec { const volatile void *p; size_t n; int round, nf; void *f[DEPTH]; } Rec;
static Rec *tab; static int used, on, rnd, inhook;
static unsigned hp(const volatile void *p) { uintptr_t x = (uintptr_t)p >> 4; x *= 0x9E3779B97F4A7C15ULL; return (unsigned)(x >> 40) & (HB - 1); }
static void mh(const volatile void *p, size_t n)
{
    if (!on || inhook || used > HB / 2) return;
    inhook = 1; unsigned i = hp(p);
    while (tab[i].p && tab[i].p != (void*)1) i = (i + 1) & (HB - 1);
    if (!tab[i].p) used++;
    tab[i].p = p; tab[i].n = n; tab[i].round = rnd; tab[i].nf = backtrace(tab[i].f, DEPTH); inhook = 0;
}
static void fh(const volatile void *p)
{
    if (!on || inhook || !p) return;
    unsigned i = hp(p);
    while (tab[i].p) { if (tab[i].p == p) { tab[i].p = (void*)1; return; } i = (i + 1) & (HB - 1); }
}
static void sites(void)
{
    for (int i = 0; i < HB; i++) {
        if ((uintptr_t)tab[i].p <= 1 || tab[i].round < 1 || tab[i].round > ROUNDS - 2) continue;
        long n = 0, c = 0; int r0 = tab[i].round, same = 1;
        for (int j = i; j < HB; j++)
            if ((uintptr_t)tab[j].p > 1 && tab[j].round >= 1 && tab[j].round <= ROUNDS - 2 && tab[j].nf == tab[i].nf && !memcmp(tab[j].f, tab[i].f, sizeof(void*) * tab[i].nf)) {
                n += tab[j].n; c++; if (tab[j].round != r0) same = 0; if (j != i) tab[j].p = (void*)1;
            }
        if (same && c < 3) continue;       /* once only: a table that grew */
        printf("SITE %ld %ld ", n, c); int k = 0;
        for (int q = 0; q < tab[i].nf && k < 9; q++) {
            char b[300]; __sanitizer_symbolize_pc((char*)tab[i].f[q] - 1, "%f", b, sizeof b);
            if (!strcmp(b, "mh") || strstr(b, "__interceptor") || strstr(b, "sanitizer") || strstr(b, "asan") || strstr(b, "alloc") || strstr(b, "InvokeMallocHook")) continue;
            printf("%s%s", k++ ? "<" : "", b);
        }
        printf("\n");
    }
}
int main(int argc, char **argv)
{
    const char *mode = argv[1]; int warm = argc > 3 ? atoi(argv[3]) : 6, per = argc > 4 ? atoi(argv[4]) : 4;
    FILE *f = fopen(argv[2], "rb"); static char buf[1 << 20]; int n = fread(buf, 1, sizeof buf - 1, f); buf[n] = 0; fclose(f);
    long b[ROUNDS + 1]; int rc = 0; Jsi_Interp *in = NULL; void *w[2]; backtrace(w, 2);
    tab = calloc(HB, sizeof *tab);
    __sanitizer_install_malloc_and_free_hooks(mh, fh);
    if (strcmp(mode, "interps")) {
        Jsi_InterpOpts o; memset(&o, 0, sizeof o);
        in = Jsi_InterpNew(&o);
        if (!in) return 2;
        if (!strcmp(mode, "calls") && Jsi_EvalString(in, buf, 0) != JSI_OK) { printf("DEFERR\n"); return 4; }
    }
    for (int r = 0; r <= ROUNDS; r++) {
        int k = r ? per : warm; on = r > 0; rnd = r;
        for (int i = 0; i < k; i++) {
            if (!strcmp(mode, "interps")) {
                Jsi_InterpOpts o; memset(&o, 0, sizeof o);
                Jsi_Interp *in2 = Jsi_InterpNew(&o);
                Jsi_RC e = Jsi_EvalString(in2, buf, 0);
                rc += e != JSI_OK;
                if (e != JSI_EXIT) Jsi_InterpDelete(in2);      /* exit() has deleted it */
            } else if (!strcmp(mode, "evals")) rc += Jsi_EvalString(in, buf, 0) != JSI_OK;
            else rc += Jsi_EvalString(in, "op();", 0) != JSI_OK;
        }
        b[r] = (long)__sanitizer_get_current_allocated_bytes();
    }
    on = 0;
    fflush(stdout); printf("\nBYTES"); for (int r = 0; r <= ROUNDS; r++) printf(" %ld", b[r]); printf("\nRC %d\n", rc);
    if (b[ROUNDS] > b[1] && b[ROUNDS] > b[ROUNDS / 2]) sites();
    fflush(stdout);
    if (in) Jsi_InterpDelete(in);
    printf("END\n"); fflush(stdout);
    return 0;
}
