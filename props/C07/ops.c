/*
 * bitset.h: a bitset as a sequence of bits.  I is an arbitrary witness bit,
 * so every postcondition speaks about all bits.  The verified copy
 * turns the inline word array into a pointer to a separate array.
 */
//@ unit bs_or kind=loops unwind=8 punwind=2 fn=bitset_or
//@ unit bs_and kind=loops unwind=8 punwind=2 fn=bitset_and
//@ unit bs_xor kind=loops unwind=8 punwind=2 fn=bitset_xor
//@ unit bs_andnot kind=loops unwind=8 punwind=2 fn=bitset_andnot
//@ unit bs_not kind=loops unwind=8 punwind=2 fn=bitset_not
//@ unit bs_bits kind=loops unwind=8 punwind=2 fn=bitset_set,bitset_clr,bitset_isset
//@ subst inc/fast/bitset.h uint64_t w[]; => uint64_t *w;
//@ annot inc/fast/bitset.h bitset_or 0
//@  assigns x, y, __CPROVER_object_whole(a->w)
//@  inv INV2(VA | VB)
//@  dec a->n - IX(x)
//@  ghost VF_NORM(x, MA); VF_NORM(y, MB);
//@ annot inc/fast/bitset.h bitset_and 0
//@  assigns x, y, __CPROVER_object_whole(a->w)
//@  inv INV2(VA & VB)
//@  dec a->n - IX(x)
//@  ghost VF_NORM(x, MA); VF_NORM(y, MB);
//@ annot inc/fast/bitset.h bitset_xor 0
//@  assigns x, y, __CPROVER_object_whole(a->w)
//@  inv INV2(VA ^ VB)
//@  dec a->n - IX(x)
//@  ghost VF_NORM(x, MA); VF_NORM(y, MB);
//@ annot inc/fast/bitset.h bitset_andnot 0
//@  assigns x, y, __CPROVER_object_whole(a->w)
//@  inv INV2(VA & ~VB)
//@  dec a->n - IX(x)
//@  ghost VF_NORM(x, MA); VF_NORM(y, MB);
//@ annot inc/fast/bitset.h bitset_not 0
//@  assigns x, __CPROVER_object_whole(a->w)
//@  inv PTR(x, MA) && IX(x) <= SZ && MA[WD] == (IX(x) > WD ? ~VA : VA)
//@  dec a->n - IX(x)
//@  ghost VF_NORM(x, MA);
//@ trust bitsets of up to 2^40 words; operand bitsets of equal size (documented, asserted by the code)
#include "vf.h"
#include <alloca.h>
#define IX(p)  (__CPROVER_POINTER_OFFSET(p) / 8)
#define PTR(p, b) (__CPROVER_same_object(p, b) && __CPROVER_POINTER_OFFSET(p) % 8 == 0)
#define INV2(V) PTR(x, MA) && PTR(y, MB) && IX(x) == IX(y) && IX(x) <= SZ \
    && MB[WD] == VB && MA[WD] == (IX(x) > WD ? (V) : VA)
static uint64_t *MA, *MB;
static uint64_t SZ, WD, VA, VB;
#include "fast/bitset.h"

/* native: count and words in one block; verified copies: words in an array of their own */
static bitset *mk(uint64_t **m)
{
#ifdef VF_REPLAY
    bitset *b = (bitset *)vf_alloc(sizeof(bitset) + 8 * SZ);
    *m = b->w;
#else
    bitset *b = VF_NEWA(bitset, 1);
    *m = VF_NEWA(uint64_t, SZ);
    b->w = *m;
#endif
    b->n = SZ;
    vf_fillw(*m, SZ);
    return b;
}
static void start(bitset **a, bitset **b, uint64_t n)
{
    SZ = n;
    WD = vf_u64(); VF_REQUIRES(WD < SZ);
    *a = mk(&MA); *b = mk(&MB);
    VA = MA[WD]; VB = MB[WD];
}
#define OP(nm, call, V) \
static void b_##nm(size_t n) \
{ \
    bitset *a, *b; start(&a, &b, n); \
    call; \
    VF_ENSURES("op.every-word", a->w[WD] == (V)); \
    VF_ENSURES("op.other-operand-kept", b->w[WD] == VB && b->n == SZ); \
    VF_ENSURES("op.size-kept", a->n == SZ); \
}
OP(or, bitset_or(a, b), VA | VB)
OP(and, bitset_and(a, b), VA & VB)
OP(xor, bitset_xor(a, b), VA ^ VB)
OP(andnot, bitset_andnot(a, b), VA & ~VB)
OP(not, bitset_not(a), ~VA)
static void b_bits(size_t n)
{
    bitset *a, *b; start(&a, &b, n);
    size_t i = vf_size(), j = vf_size();
    VF_REQUIRES(i / 64 < SZ && j / 64 == WD);
    int v0 = (int)((VA >> (j % 64)) & 1), op = vf_int() & 3;
    VF_ENSURES("isset", bitset_isset(a, j) == v0 && bitset_value(a, j) == v0);
    if (op == 0) bitset_set(a, i);
    else if (op == 1) bitset_clr(a, i);
    else (void)bitset_isset(a, i);
    int want = i == j ? (op == 0 ? 1 : op == 1 ? 0 : v0) : v0;
    VF_ENSURES("set-clr.exactly-that-bit", bitset_isset(a, j) == want && (int)((MA[WD] >> (j % 64)) & 1) == want && a->n == SZ);
}
#ifdef VF_PROOF
#define EACH(body)  body(vf_len((size_t)1 << 40, 0))
#else
#define EACH(body)  do { size_t n_ = vf_len(0, 3); for (size_t k_ = 1; k_ <= 3; k_++) if (n_ == k_) body(k_); } while (0)
#endif
void harness_bs_or(void) { EACH(b_or); VF_REACHED(); }
void harness_bs_and(void) { EACH(b_and); VF_REACHED(); }
void harness_bs_xor(void) { EACH(b_xor); VF_REACHED(); }
void harness_bs_andnot(void) { EACH(b_andnot); VF_REACHED(); }
void harness_bs_not(void) { EACH(b_not); VF_REACHED(); }
void harness_bs_bits(void) { EACH(b_bits); VF_REACHED(); }
