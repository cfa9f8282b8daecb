/*
 * str2hex.c: hex decoding.  N is the length of the string, W an arbitrary
 * witness position.
 */
//@ unit h_dec kind=loops unwind=10 punwind=2 fn=str2hex
//@ annot src/str2hex.c str2hex 0
//@  assigns str, out, n, byte, shift, __CPROVER_object_whole(OUT), BAD
//@  inv __CPROVER_same_object(str, S) && __CPROVER_same_object(out, OUT) && n <= N && OFF(str) == N - n
//@  inv shift == ((N - n) % 2 ? 0 : 4) && OFF(out) == (N - n) / 2
//@  inv byte == ((N - n) % 2 ? (VF_HEX(S[N - n - 1]) << 4) : 0)
//@  inv (N - n > W) ==> VF_ISHEX(S[W])
//@  inv (N - n >= 2 && (N - n) / 2 > W / 2) ==> OUT[W / 2] == VAL
//@  dec n
//@  ghost VF_NORM(str, S); VF_NORM(out, OUT); BAD = N - n - 1; __CPROVER_assume(BAD < N);
//@ trust strings of up to 2^40 characters
#include "vf.h"
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define VF_ISHEX(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'a' && (c) <= 'f') || ((c) >= 'A' && (c) <= 'F'))
#define VF_HEX(c)   ((uint8_t)((c) <= '9' ? (c) - '0' : (c) >= 'a' ? (c) - 'a' + 10 : (c) - 'A' + 10))
static char *S; static uint8_t *OUT; static size_t N, W, BAD; static uint8_t VAL;
#ifdef VF_PROOF
static size_t vf_strlen(const char *s) { VF_ENSURES("strlen-of-the-input", s == S); return N; }
#define strlen vf_strlen
#endif
#include "src/str2hex.c"
static void run(size_t n, size_t ol)
{
    N = n; W = vf_size(); VF_REQUIRES(W < N || N == 0);
    S = VF_NEWA(char, N + 1); vf_fill(S, N); S[N] = 0;
#ifndef VF_PROOF
    for (size_t i = 0; i < N; i++) VF_REQUIRES(S[i] != 0);
#endif
    OUT = VF_NEWA(uint8_t, ol ? ol : 1);
    size_t need = N / 2 + N % 2, k = W / 2;
    VAL = N ? (VF_HEX(S[W & ~(size_t)1]) << 4) | ((W | 1) < N ? VF_HEX(S[W | 1]) : 0) : 0;
    ssize_t r = str2hex(OUT, ol, S);
    if (ol < need) { VF_ENSURES("hex.too-small-fails", r == -ENOMEM); }
    else if (r < 0) {
#ifdef VF_PROOF
        VF_ENSURES("hex.fails-only-on-bad-digit", r == -EINVAL && BAD < N && !VF_ISHEX(S[BAD]));
#else
        int bad = 0; for (size_t i = 0; i < N; i++) if (!VF_ISHEX(S[i])) bad = 1;
        VF_ENSURES("hex.fails-only-on-bad-digit", r == -EINVAL && bad);
#endif
    } else {
        VF_ENSURES("hex.count", (size_t)r == need);
        VF_ENSURES("hex.bad-digit-fails", N == 0 || VF_ISHEX(S[W]));
        VF_ENSURES("hex.value", N == 0 || OUT[k] == VAL);
    }
}
void harness_h_dec(void)
{
#ifdef VF_PROOF
    run(vf_len((size_t)1 << 40, 0), vf_len((size_t)1 << 40, 0));
#else
    size_t n = vf_len(0, 5), o = vf_len(0, 4);
    for (size_t i = 0; i <= 5; i++) for (size_t j = 0; j <= 4; j++) if (n == i && o == j) run(i, j);
#endif
    VF_REACHED();
}
