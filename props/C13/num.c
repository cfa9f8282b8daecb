/*
 * strtosize.c: numbers from text, exactly.
 * strtou64: G is the mathematical value (128 bits) of the digits read so far.
 */
//@ unit n_strtou64 kind=loops psolver=cadical unwind=22 punwind=2 dfcc=old fn=strtou64
//@ unit n_bases kind=bounded unwind=11 fn=strtou64 bound="strings of up to 4 characters, bases 0, 2, 8, 10, 16, 36 and invalid ones"
//@ annot src/strtosize.c strtou64 0
//@  assigns s, c
//@  inv SO(s, S) && OFF(s) <= N && S[N] == 0
//@  inv (W < OFF(s)) ==> ISSP(S[W])
//@  dec N - OFF(s)
//@ annot src/strtosize.c strtou64 1
//@  assigns s, c, val, G, ST, M, B0
//@  inv SO(s, S) && OFF(s) <= N && S[N] == 0 && val == (uint64_t)G && G <= MAX64
//@  inv ST <= 1 && (ST ==> (M == mult && B0 < OFF(s))) && (!ST ==> G == 0)
//@  inv (ST && W >= B0 && W < OFF(s)) ==> (DIG(S[W]) >= 0 && (uint64_t)DIG(S[W]) < mult)
//@  dec N - OFF(s)
//@  ghost { int vf_d = DIG(*s); if (!ST) B0 = OFF(s); M = mult; ST = 1; if (vf_d >= 0 && (uint64_t)vf_d < mult) G = G * mult + vf_d; }
//@ trust strings of up to 2^40 characters in the proof; the C locale
#include "vf.h"
#include "vf_ctype.h"
#include <errno.h>
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define SO(a, b) __CPROVER_same_object(a, b)
#define ISSP(c) ((c) == 32 || ((c) >= 9 && (c) <= 13))
#define DIG(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) >= 'a' && (c) <= 'z' ? (c) - 'a' + 10 : (c) >= 'A' && (c) <= 'Z' ? (c) - 'A' + 10 : -1)
#define MAX64 ((unsigned __int128)UINT64_MAX)
static char *S; static size_t N, W, B0; static unsigned __int128 G; static uint64_t M; static int ST;

#include "src/strtosize.c"
#ifdef VF_PROOF
void harness_n_strtou64(void)
{
    N = vf_len((size_t)1 << 40, 0); S = VF_NEWA(char, N + 1); S[N] = 0; W = vf_size(); VF_REQUIRES(W < N || (W == 0 && N == 0));
    G = 0; ST = 0; M = 0; B0 = 0;
    int base = vf_int(); const char *end = 0; uint64_t v = 0;
    int r = strtou64(S, &end, base, &v);
    int bad = base < 0 || base > 36 || base == 1;
    VF_ENSURES("strtou64.result", r == 0 || r == -ERANGE || r == -EINVAL);
    if (bad) { VF_ENSURES("strtou64.invalid-base", r == -EINVAL && !end); } else {
    VF_ENSURES("strtou64.endptr-in-string", SO(end, S) && OFF(end) <= N);
    VF_ENSURES("strtou64.base-used", !ST || M == (uint64_t)base || (base == 0 && (M == 8 || M == 10 || M == 16)));
    VF_ENSURES("strtou64.exact", r != 0 || (G <= MAX64 && (v == (uint64_t)G || v == -(uint64_t)G)));
    VF_ENSURES("strtou64.range-error-only-on-overflow", (r == -ERANGE) == (G > MAX64));
    VF_ENSURES("strtou64.stops-at-a-character-which-is-no-digit", r == -ERANGE || *end == 0 || DIG(*end) < 0 || !ST || (uint64_t)DIG(*end) >= M);
    if (r == 0 && ST && W >= B0 && W < OFF(end)) VF_ENSURES("strtou64.consumed-digits-only", DIG(S[W]) >= 0 && (uint64_t)DIG(S[W]) < M);
    }
    VF_REACHED();
}
#else
static void bases(int n, int base)
{
    char *s = malloc(n + 1); const char *end = 0; uint64_t v = 77, e = 0;
    vf_fill(s, n); s[n] = 0;
    for (int i = 0; i < n; i++) VF_REQUIRES(s[i] != 0);
    int r = strtou64(s, &end, base, &v), i = 0, neg = 0, m = base, x;
    if (base < 0 || base > 36 || base == 1) { VF_ENSURES("strtou64.invalid-base", r == -EINVAL); return; }
    while (i < n && isspace(s[i])) i++;
    if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if ((base == 0 || base == 16) && i + 1 < n && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { i += 2; m = 16; }
    else if (base == 0) m = i < n && s[i] == '0' ? 8 : 10;
    for (; i < n; i++) { int d = DIG(s[i]); if (d < 0 || d >= m) break; e = e * m + d; }
    x = i < n && DIG(s[i]) < 0;
    VF_ENSURES("strtou64.result", r == (x ? -EINVAL : 0));
    VF_ENSURES("strtou64.value", r != 0 || v == (neg ? -e : e));
    VF_ENSURES("strtou64.endptr", end == s + i);
    VF_ENSURES("strtou64.endptr-optional", strtou64(s, 0, base, &v) == r);
}
void harness_n_bases(void)
{
    int b = vf_int(), n = vf_int();
    static const int B[] = { 0, 16, 10, 2, 8, 36, 1, 37, -1 };
    for (int i = 0; i < 9; i++) for (int j = 0; j <= 4; j++) if ((i < 2 || j == 3) && b == i && n == j) bases(j, B[i]);
    VF_REACHED();
}
void harness_n_strtou64(void)
{
    /* the largest values of base 10, 16 and 2^64-1 +- 5 */
    char s[24]; uint64_t d = vf_u64(); const char *end = 0; uint64_t v = 0; VF_REQUIRES(d < 10);
    strcpy(s, "1844674407370955161"); s[19] = '0' + d; s[20] = 0;
    int r = strtou64(s, &end, 10, &v);
    VF_ENSURES("strtou64.overflow-exact", d <= 5 ? r == 0 && v == 18446744073709551610u + d && end == s + 20 : r == -ERANGE);
    strcpy(s, "1844674407370955162");
    VF_ENSURES("strtou64.below", strtou64(s, &end, 10, &v) == 0 && v == 1844674407370955162u);
    s[19] = '0' + d; s[20] = 0;
    VF_ENSURES("strtou64.overflow", strtou64(s, &end, 10, &v) == -ERANGE);
    strcpy(s, "ffffffffffffffff"); 
    VF_ENSURES("strtou64.max16", strtou64(s, &end, 16, &v) == 0 && v == ~(uint64_t)0);
    strcpy(s, "fffffffffffffffff");
    VF_ENSURES("strtou64.over16", strtou64(s, &end, 16, &v) == -ERANGE);
    VF_REACHED();
}
#endif
