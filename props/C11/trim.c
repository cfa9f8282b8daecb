/*
 * strtrim.c: exactly the white space at both ends is removed, in place.
 * The string ends at E (its first NUL), the first character kept was at L.
 */
//@ unit s_strtrim kind=loops dfcc=old unwind=9 punwind=2 fn=strtrim
//@ annot src/strtrim.c strtrim 0
//@  assigns str, c, L
//@  inv SO(str, S) && OFF(str) <= N && (W < OFF(str) ==> (S[W] != 0 && ISSP((unsigned char)S[W])))
//@  inv S[N] == 0 && L <= OFF(str) && (OFF(str) > 0 ==> L == OFF(str) - 1)
//@  dec N - OFF(str)
//@  ghost L = OFF(str);
//@ annot src/strtrim.c strtrim 1
//@  assigns str, ptr, str_end, c, E, IT, __CPROVER_object_whole(S)
//@  inv SO(str, S) && SO(ptr, S) && SO(str_end, S) && OFF(str) <= N && OFF(str) >= L && OFF(ptr) == OFF(str) - L && S[N] == 0
//@  inv OFF(str_end) <= OFF(ptr) && (OFF(ptr) > 0 ==> OFF(str_end) < OFF(ptr))
//@  inv (W >= OFF(str)) ==> S[W] == VW
//@  inv (W >= L && W < OFF(str)) ==> (S[W - L] == VW && VW != 0)
//@  inv (W >= L && W < OFF(str) && OFF(str_end) + L < W) ==> ISSP(VW)
//@  inv (OFF(str) == L) ? (!ISSP((unsigned char)S[L]) && S[L] != 0) : (!ISSP((unsigned char)S[OFF(str_end)]) && S[OFF(str_end)] != 0)
//@  inv (Q >= OFF(str)) ==> S[Q] == VQ
//@  inv (Q >= L && Q < OFF(str) && !ISSP(VQ)) ==> OFF(str_end) + L >= Q
//@  inv (IT ? E + 1 == OFF(str) : OFF(str) == L) && IT <= 1
//@  dec N - OFF(str)
//@  ghost E = OFF(str); IT = 1;
//@ trust strings of up to 2^40 characters; the C locale
#include "vf.h"
#include "vf_ctype.h"
#define ISSP(c) ((c) == 32 || ((c) >= 9 && (c) <= 13))
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define SO(a, b) __CPROVER_same_object(a, b)
static unsigned char *S; static size_t N, W, L, E, Q; static unsigned char VW, VQ; static int IT;
#include "src/strtrim.c"
static void run(size_t n)
{
    N = n; W = vf_size(); VF_REQUIRES(W < N || (N == 0 && W == 0));
    S = VF_NEWA(unsigned char, N + 1); vf_fill(S, N); S[N] = 0; VW = S[W];
    Q = vf_size(); VF_REQUIRES(Q >= W && (Q < N || N == 0 && Q == 0)); VQ = S[Q]; L = 0; E = 0; IT = 0;
#ifndef VF_PROOF
    for (size_t i = 0; i < N; i++) VF_REQUIRES(S[i] != 0);
    unsigned char O[8]; for (size_t i = 0; i <= N; i++) O[i] = S[i];
#endif
    char *r = strtrim((char *)S);
    VF_ENSURES("trim.in-place", r == (char *)S);
#ifdef VF_PROOF
    if (W < L) VF_ENSURES("trim.removes-only-leading-space", isspace(VW));
    if (IT && L <= W && Q <= E && !isspace(VQ)) VF_ENSURES("trim.keeps-everything-up-to-the-last-non-space", S[W - L] == VW);
#else
    size_t a = 0, b = N;
    while (a < N && isspace(O[a])) a++;
    while (b > a && isspace(O[b - 1])) b--;
    VF_ENSURES("trim.length", S[b - a] == 0);
    for (size_t i = a; i < b; i++) VF_ENSURES("trim.content", S[i - a] == O[i]);
#endif
}
void harness_s_strtrim(void)
{
#ifdef VF_PROOF
    run(vf_len((size_t)1 << 40, 0));
#else
    size_t n = vf_len(0, 6);
    for (size_t i = 0; i <= 6; i++) if (n == i) run(i);
    VF_ENSURES("trim.null", strtrim(0) == 0);
#endif
    VF_REACHED();
}
