/* Native implementation of the harness interface: replays concrete values from $VF_INPUT. */
#define _GNU_SOURCE
#include <errno.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char **names; static double *vals; static uint64_t *ints; static int nv = -1;
static int fails = 0, checks = 0, trace = 0;

__attribute__((destructor)) static void done(void) { if (nv >= 0) printf("DONE checks=%d fails=%d\n", checks, fails); fflush(stdout); }

static void load(void) {
    if (nv >= 0) return;
    nv = 0;
    setvbuf(stdout, 0, _IOLBF, 0);
    trace = getenv("VF_TRACE") != 0;
    const char *f = getenv("VF_INPUT");
    if (!f) return;
    FILE *h = fopen(f, "r");
    if (!h) { perror(f); exit(9); }
    char name[512], k[8], v[128];
    while (fscanf(h, "%511s %7s %127s", name, k, v) == 3) {
        names = realloc(names, (nv + 1) * sizeof *names);
        vals = realloc(vals, (nv + 1) * sizeof *vals);
        ints = realloc(ints, (nv + 1) * sizeof *ints);
        names[nv] = strdup(name);
        vals[nv] = 0; ints[nv] = 0;
        if (k[0] == 'f') vals[nv] = strtod(v, 0); else ints[nv] = strtoull(v, 0, 10);
        nv++;
    }
    fclose(h);
}
static const char *lab(const char *p, size_t n, int idx) {
    static char b[4][600]; static int c;
    char *r = b[c++ & 3];
    if (idx < 0) snprintf(r, 600, "%.*s", (int)n, p); else snprintf(r, 600, "%.*s_%d", (int)n, p, idx);
    for (char *c = r; *c; c++) if (*c == ' ') *c = '-';
    return r;
}
static int find(const char *s) { load(); for (int i = 0; i < nv; i++) if (!strcmp(names[i], s)) return i; return -1; }

double vf_f64(const char *p, size_t n, int idx) { int i = find(lab(p, n, idx)); return i < 0 ? 0.0 : vals[i]; }
uint64_t vf_bv(const char *p, size_t n, int idx, uint32_t w) { int i = find(lab(p, n, idx)); uint64_t v = i < 0 ? 0 : ints[i]; return w >= 64 ? v : v & ((1ull << w) - 1); }
uint32_t vf_choice(const char *p, size_t n, int idx, uint32_t k) { int i = find(lab(p, n, idx)); return i < 0 ? 0 : (uint32_t)ints[i] % k; }
void vf_assume(_Bool b) { load(); if (!b) { printf("ASSUME-FAILED\n"); exit(77); } }
static void rep(int bad, const char *l, double a, double b) { checks++; if (bad) { fails++; printf("FAIL %s %.17g %.17g\n", l, a, b); } }
void vf_eq(const char *p, size_t n, int idx, double a, double b) { load(); if (trace) printf("V %s %.17g %.17g\n", lab(p, n, idx), a, b); double d = fabs(a - b); rep(!(d <= 1e-6 * (1 + fabs(a) + fabs(b))), lab(p, n, idx), a, b); }
void vf_close(const char *p, size_t n, int idx, double a, double b, double t) { load(); if (trace) printf("V %s %.17g %.17g\n", lab(p, n, idx), a, b); double d = fabs(a - b); rep(!(d <= t * (1 + 1e-9) + 1e-13 * (1 + fabs(a) + fabs(b))), lab(p, n, idx), a, b); }
void vf_ieq(const char *p, size_t n, int idx, uint64_t a, uint64_t b) { load(); checks++; if (trace) printf("V %s %d 1\n", lab(p, n, idx), a == b); if (a != b) { fails++; printf("FAIL %s %llu %llu\n", lab(p, n, idx), (unsigned long long)a, (unsigned long long)b); } }
void vf_true(const char *p, size_t n, int idx, _Bool b) { load(); if (trace) printf("V %s %d 1\n", lab(p, n, idx), b); rep(!b, lab(p, n, idx), b, 1); }
void vf_deriv(const char *p, size_t n, int idx, const char *vp, size_t vn, int vi, double jac, double f, double tol) { load(); checks++; printf("D %s %s %.17g %.17g %.17g\n", lab(p, n, idx), lab(vp, vn, vi), jac, f, tol); }
void vf_out(const char *p, size_t n, int idx, double v) { load(); printf("O %s %.17g\n", lab(p, n, idx), v); }
void vf_mark(const char *p, size_t n, int idx) { load(); printf("M %s\n", lab(p, n, idx)); }
size_t vf_num(char *b, double v, double l) { (void)l; return (size_t)snprintf(b, 64, "%.17g", v); }
void vf_file(const char *p, size_t n, const char *d, size_t dn) { load(); FILE *h = fopen(lab(p, n, -1), "wb"); if (!h) { perror("vf_file"); exit(9); } fwrite(d, 1, dn, h); fclose(h); }
void vf_unit(const char *p, size_t n, uint32_t k) { (void)p; (void)n; (void)k; }
void vf_range(const char *p, size_t n, int idx, double lo, double hi) { (void)p; (void)n; (void)idx; (void)lo; (void)hi; }
void vf_cut(const char *p, size_t n, int idx, double v) { (void)p; (void)n; (void)idx; (void)v; }

/* the randomness of hash maps is an input of the harness */
static uint64_t rng = 1;
void vf_seed(uint64_t s) { rng = s * 0x9E3779B97F4A7C15ull | 1; }
static long fill(unsigned char *p, size_t n) {
    for (size_t i = 0; i < n; i++) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; p[i] = (unsigned char)rng; }
    return (long)n;
}
long getrandom(void *p, size_t n, unsigned f) { (void)f; return fill(p, n); }
long syscall(long n, ...) {
    va_list v; va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (n == 318) return fill((unsigned char *)a, (size_t)b);
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
