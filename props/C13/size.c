/* strtosize.c (over the contract of strtou64), humanize.c */
//@ unit n_strtosize kind=full unwind=4 fn=strtosize
//@ unit n_suffix kind=bounded unwind=9 fn=strtosize bound="up to 3 digits and a suffix of up to 2 characters"
//@ unit n_humanize kind=full unwind=30 fn=humanize_size
//@ subst src/strtosize.c r    = strtou64(str, &endptr, base, &v); => r    = VF_STRTOU64(str, &endptr, base, &v);
//@ trust strtosize calls strtou64 by its contract: any result, any value, the end pointer at any character of the string
//@ trust snprintf is replaced by one that records the numbers and characters it would print
#include "vf.h"
#include "vf_ctype.h"
#include <errno.h>
#ifndef VF_REPLAY
/* snprintf, reduced to the list of its output pieces: numbers (with their minimal width) and literal characters */
#include <stdarg.h>
static struct { int kind; uint64_t v; int width, zero; } OUT[32]; static int NO;
static int vf_snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    VF_ENSURES("humanize.buffer", n == 0 || __CPROVER_w_ok(b, n));
    NO = 0;
    for (; *f; f++) {
        OUT[NO].width = OUT[NO].zero = 0;
        if (*f != '%') { OUT[NO].kind = 'c'; OUT[NO].v = *f; NO++; continue; }
        f++;
        if (*f == '0') { OUT[NO].zero = 1; f++; }
        if (*f >= '1' && *f <= '9') OUT[NO].width = *f++ - '0';
        int l = 0;
        while (*f == 'l' || *f == 'z' || *f == 'j') { l = 1; f++; }
        if (*f == 's') { const char *x = va_arg(ap, const char *); for (; *x; x++) { OUT[NO].kind = 'c'; OUT[NO].v = *x; NO++; } continue; }
        OUT[NO].kind = 'n'; OUT[NO].v = l ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); NO++;
    }
    va_end(ap);
    return 0;
}
#define snprintf vf_snprintf
#endif
static char T[8]; static int R; static uint64_t V; static const char *E;
#define VF_STRTOU64(s, e, b, v) (STUB ? ((*(e) = E), (R == 0 ? (void)(*(v) = V) : (void)0), R) : strtou64(s, e, b, v))
static int STUB;
#include "src/strtosize.c"
#undef MB
#include "src/humanize.c"
/* the multiplier of a suffix, 0 if it is none, in eighths */
static int suffix(const char *t, unsigned __int128 *m8)
{
    const char *u = "kMGTPE", *p = t; *m8 = 8;
    if (*p == 0 || *p == 'B') return p[0] == 0 || p[1] == 0;
    int k = *p == 'k' || *p == 'K' ? 1 : *p == 'M' ? 2 : *p == 'G' ? 3 : *p == 'T' ? 4 : *p == 'P' ? 5 : *p == 'E' ? 6 : 0;
    if (!k) return 0;
    *m8 = (unsigned __int128)8 << (10 * k);
    if (p[1] == 0 || (p[1] == 'B' && p[2] == 0)) return 1;
    if (p[1] == 'b' && p[2] == 0) { *m8 = (unsigned __int128)1 << (10 * k); return 1; }
    return -1;                                       /* something after the suffix: not specified */
}
#define KNOWN(c) ((c) == 0 || (c) == ' ' || (c) == 'B' || (c) == 'k' || (c) == 'K' || (c) == 'M' || (c) == 'G' || (c) == 'T' || (c) == 'P' || (c) == 'E')
void harness_n_strtosize(void)
{
#ifndef VF_REPLAY
    STUB = 1; vf_fill(T, 2); T[2] = 0; R = vf_int(); V = vf_u64(); E = T; VF_REQUIRES(R <= 0);
    uint64_t got = 5; unsigned __int128 m8;
    int r = strtosize(T, 10, &got), k = suffix(T, &m8);
    unsigned __int128 want = ((unsigned __int128)V * (m8 >> 3));
    if ((m8 >> 3) == 0) want = 0;
    if (R < 0) VF_ENSURES("strtosize.passes-errors-on", r == R);
    else if (k == 1 && (m8 & 7) == 0) {
        VF_ENSURES("strtosize.range-error-exactly-on-overflow", r == (want > UINT64_MAX ? -ERANGE : 0));
        VF_ENSURES("strtosize.exact", r != 0 || got == (uint64_t)want);
    } else if (!KNOWN(T[0])) VF_ENSURES("strtosize.unknown-suffix", r == -EINVAL);
#endif
    VF_REACHED();
}
static void sfx(int d, int n)
{
    char *s = malloc(d + n + 1); unsigned __int128 m8; uint64_t v = 0, got = 5;
    vf_fill(s, d + n); s[d + n] = 0; STUB = 0;
    for (int i = 0; i < d; i++) { VF_REQUIRES(s[i] >= '0' && s[i] <= '9'); v = v * 10 + s[i] - '0'; }
    for (int i = d; i < d + n; i++) VF_REQUIRES(isalpha(s[i]));
    int r = strtosize(s, 10, &got), k = suffix(s + d, &m8);
    if (k == 1 && (m8 & 7) == 0) {
        unsigned __int128 want = (unsigned __int128)v * (m8 >> 3);
        VF_ENSURES("strtosize.range-error-exactly-on-overflow", r == (want > UINT64_MAX ? -ERANGE : 0));
        VF_ENSURES("strtosize.exact", r != 0 || got == (uint64_t)want);
    } else if (!KNOWN(s[d])) VF_ENSURES("strtosize.unknown-suffix", r == -EINVAL);
}
void harness_n_suffix(void)
{
    int d = vf_int(), n = vf_int();
    for (int i = 1; i <= 3; i++) for (int j = 0; j <= 2; j++) if (d == i && n == j) sfx(i, j);
    VF_REACHED();
}
void harness_n_humanize(void)
{
    char b[64]; uint64_t n = vf_u64();
    char *r = humanize_size(b, sizeof b, n);
    VF_ENSURES("humanize.returns-buffer", r == b);
#ifndef VF_REPLAY
    static const char U[] = " kMGTPE";
    int k = 0;
    while (k < 6 && (n >> (10 * (k + 1))) > 0) k++;
    uint64_t rem = k ? n & (((uint64_t)1 << (10 * k)) - 1) : 0;
    unsigned frac = k ? ((rem >> (10 * (k - 1))) * 100) >> 10 : 0;
    int i = 0;
    VF_ENSURES("humanize.whole-units", OUT[i].kind == 'n' && OUT[i].v == n >> (10 * k) && OUT[i].width == 0); i++;
    if (rem) {
        VF_ENSURES("humanize.point", NO > 2 && OUT[i].kind == 'c' && OUT[i].v == '.'); i++;
        VF_ENSURES("humanize.hundredths", OUT[i].kind == 'n' && OUT[i].v == frac && OUT[i].width == 2 && OUT[i].zero); i++;
    }
    VF_ENSURES("humanize.unit", OUT[i].v == ' ' && OUT[i + 1].kind == 'c' && (k ? NO == i + 3 && OUT[i + 1].v == U[k] && OUT[i + 2].v == 'B' : NO == i + 6 && OUT[i + 1].v == 'b'));
#else
    unsigned long w = 0; char u[16]; unsigned f = 0; int k = 0;
    while (k < 6 && (n >> (10 * (k + 1))) > 0) k++;
    uint64_t rem = k ? n & (((uint64_t)1 << (10 * k)) - 1) : 0;
    char want[64];
    if (!k) snprintf(want, 64, "%lu bytes", n);
    else if (rem) snprintf(want, 64, "%lu.%02u %cB", n >> (10 * k), (unsigned)(((rem >> (10 * (k - 1))) * 100) >> 10), " kMGTPE"[k]);
    else snprintf(want, 64, "%lu %cB", n >> (10 * k), " kMGTPE"[k]);
    VF_ENSURES("humanize.text", strcmp(want, b) == 0);
#endif
    VF_REACHED();
}
