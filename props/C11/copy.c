/*
 * strcopy.c, strlcpy.c: copying never overflows, always terminates, and
 * truncation is reported exactly.  N: index of a NUL of the source, W: an
 * arbitrary witness position.
 */
//@ unit s_strcopy kind=loops unwind=8 punwind=2 fn=strcopy
//@ unit s_strlcpy kind=loops unwind=8 punwind=2 fn=strlcpy
//@ annot src/strcopy.c strcopy 0
//@  assigns dst, src, sz, __CPROVER_object_whole(D)
//@  inv SO(dst, D) && SO(src, S) && OFF(dst) == OFF(src) && OFF(src) <= N && OFF(dst) < SZ && sz == SZ - OFF(dst)
//@  inv (W < SZ && W < OFF(dst)) ==> (D[W] == S[W] && S[W] != 0)
//@  dec sz
//@  ghost VF_NORM(dst, D); VF_NORM(src, S);
//@ annot src/strlcpy.c strlcpy 0
//@  assigns d, s, n, vf_once, __CPROVER_object_whole(D)
//@  inv SO(d, D) && SO(s, S) && OFF(d) == OFF(s) && OFF(s) <= N && (vf_once == 0 || vf_once == 1) && OFF(d) + vf_once < SZ && n == SZ - OFF(d) - vf_once
//@  inv (W < SZ && W < OFF(d)) ==> (D[W] == S[W] && S[W] != 0)
//@  dec n + vf_once
//@  ghost VF_NORM(d, D); VF_NORM(s, S);
//@ annot src/strlcpy.c strlcpy 1
//@  assigns s
//@  inv SO(s, S) && OFF(s) <= N && OFF(s) >= (SZ ? SZ - 1 : 0)
//@  inv (W >= (SZ ? SZ - 1 : 0) && W < OFF(s)) ==> S[W] != 0
//@  dec N + 1 - OFF(s)
//@  ghost VF_NORM(s, S);
//@ trust strings and buffers of up to 2^40 characters
#include "vf.h"
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define SO(a, b) __CPROVER_same_object(a, b)
static char *S, *D; static size_t N, SZ, W;
#define strlcpy vf_the_strlcpy
#include "src/strcopy.c"
#include "src/strlcpy.c"
static void mk(size_t n, size_t sz)
{
    N = n; SZ = sz; W = vf_size(); VF_REQUIRES(W <= N);
    S = VF_NEWA(char, N + 1); vf_fill(S, N); S[N] = 0;
    D = VF_NEWA(char, SZ ? SZ : 1); vf_fill(D, SZ ? SZ : 1);
}
static void c1(size_t n, size_t sz)
{
    VF_REQUIRES(sz > 0);
    mk(n, sz);
    ssize_t r = strcopy(D, SZ, S);
    if (r >= 0) {
        VF_ENSURES("strcopy.length", (size_t)r <= N && (size_t)r < SZ && S[r] == 0 && D[r] == 0);
        VF_ENSURES("strcopy.copied", W >= (size_t)r || (D[W] == S[W] && S[W] != 0));
    } else {
        VF_ENSURES("strcopy.truncated-only-when-too-long", SZ - 1 <= N && S[SZ - 1] != 0);
        VF_ENSURES("strcopy.terminated", D[SZ - 1] == 0);
        VF_ENSURES("strcopy.prefix", W >= SZ - 1 || (D[W] == S[W] && S[W] != 0));
    }
}
static void c2(size_t n, size_t sz)
{
    mk(n, sz);
    char d0 = D[0];
    size_t r = strlcpy(D, S, SZ);
    VF_ENSURES("strlcpy.returns-length", r <= N && S[r] == 0 && (W >= r || S[W] != 0));
    size_t k = SZ == 0 ? 0 : r < SZ ? r : SZ - 1;
    if (SZ) VF_ENSURES("strlcpy.terminated", D[k] == 0);
    else VF_ENSURES("strlcpy.no-room", D[0] == d0);
    VF_ENSURES("strlcpy.copied", W >= k || D[W] == S[W]);
}
static void each(void (*f)(size_t, size_t))
{
#ifdef VF_PROOF
    f(vf_len((size_t)1 << 40, 0), vf_len((size_t)1 << 40, 0));
#else
    size_t n = vf_len(0, 5), z = vf_len(0, 5);
    for (size_t i = 0; i <= 5; i++) for (size_t j = 0; j <= 5; j++) if (n == i && z == j) f(i, j);
#endif
    VF_REACHED();
}
void harness_s_strcopy(void) { each(c1); }
void harness_s_strlcpy(void) { each(c2); }
