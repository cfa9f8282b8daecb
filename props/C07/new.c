/*
 * bitset.h: a bitset as a sequence of bits.  I is an arbitrary witness bit,
 * so every postcondition speaks about all bits.  In the proof the set lives
 * in an array of 64 bit words (word 0 is the count, the bits follow).
 */
//@ unit bs_new kind=loops unwind=8 punwind=2 fn=bitset_new,bitset_dup,bitset_copy,bitset_del
//@ unit bs_alloca kind=bounded unwind=8 fn=bitset_alloca,bitset_dup_alloca bound="sets of up to 130 bits"
//@ unit pow2 kind=full unwind=70 fn=NEXTPOW2,_ALIGN_UP,_ALIGN_DOWN,_IS_ALIGNED,_IS_POW2
//@ trust bitsets of up to 2^40 words; operand bitsets of equal size (documented, asserted by the code)
#include "vf.h"
#include <alloca.h>
static uint64_t *MA, *MB;
static uint64_t SZ, WD, VA, VB;
#ifdef VF_PROOF
/* calloc and memcpy: only the witness word (and the count) is tracked */
static void *vf_calloc(size_t n, size_t sz)
{
    size_t k = n * sz / 8;
    uint64_t *q = VF_NEWA(uint64_t, k);
    if (k) q[0] = 0;
    if (WD < k) q[WD] = 0;
    return q;
}
static void *vf_memcpy(void *d, const void *s, size_t n)
{
    VF_ENSURES("memcpy-in-bounds", n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)));
    VF_ENSURES("memcpy-copies-the-bits", __CPROVER_POINTER_OFFSET(d) == 8 && __CPROVER_POINTER_OFFSET(s) == 8);
    uint64_t *b = (uint64_t *)d - 1, *c = (uint64_t *)s - 1;
    if (WD * 8 - 8 < n && WD >= 1) b[WD] = c[WD];
    return d;
}
#define calloc vf_calloc
#define memcpy vf_memcpy
#endif
#include "fast/bitset.h"

static bitset *mk(uint64_t **m)
{
    *m = VF_NEWA(uint64_t, SZ + 1);
    bitset *b = (bitset *)*m;
    b->n = SZ;
    vf_fillw(*m + 1, SZ);
    return b;
}
static void start(bitset **a, bitset **b, uint64_t n)
{
    SZ = n;
    WD = vf_u64(); VF_REQUIRES(WD >= 1 && WD <= SZ);
    *a = mk(&MA); *b = mk(&MB);
    VA = MA[WD]; VB = MB[WD];
}
static void b_new(size_t bits, size_t n0)
{
    size_t i = vf_size(); VF_REQUIRES(i < bits);
    WD = i / 64 + 1;
    bitset *n = bitset_new(bits);
    VF_ENSURES("new.room-for-all-bits", n && n->n * 64 >= bits);
    VF_ENSURES("new.all-clear", bitset_isset(n, i) == 0);
    bitset_set(n, i);
    VF_ENSURES("new.usable", bitset_isset(n, i) == 1);
    bitset *a, *b; start(&a, &b, n0);
    bitset *d = bitset_dup(a);
    VF_ENSURES("dup", d && d != a && d->n == SZ && d->w[WD - 1] == VA && a->w[WD - 1] == VA);
    d->w[WD - 1] = ~VA;
    VF_ENSURES("dup.independent", a->w[WD - 1] == VA && a->n == SZ);
    bitset_copy(a, b);
    VF_ENSURES("copy", a->n == SZ && a->w[WD - 1] == VB && b->w[WD - 1] == VB && b->n == SZ);
    bitset_del(d);
}
void harness_bs_new(void)
{
#ifdef VF_PROOF
    b_new(vf_len((size_t)1 << 45, 0), vf_len((size_t)1 << 40, 0));
#else
    size_t k = vf_len(0, 7), m = vf_len(0, 3);
    static const size_t sizes[] = { 1, 63, 64, 65, 127, 128, 129 };
    for (int i = 0; i < 7; i++) if (k == i) b_new(sizes[i], 1 + i % 3);
#endif
    VF_REACHED();
}
#ifndef VF_PROOF
void harness_bs_alloca(void)
{
    size_t bits = vf_len(0, 130), i = vf_size(); VF_REQUIRES(i < bits);
    static const size_t sizes[] = { 1, 63, 64, 65, 128, 129, 130 };
    size_t b0 = 0;
    for (int k = 0; k < 7; k++) if (bits <= sizes[k]) { b0 = sizes[k]; break; }
    bitset *n = 0, *d = 0;
    if (b0 == 1) n = bitset_alloca(1); else if (b0 == 63) n = bitset_alloca(63); else if (b0 == 64) n = bitset_alloca(64);
    else if (b0 == 65) n = bitset_alloca(65); else if (b0 == 128) n = bitset_alloca(128); else if (b0 == 129) n = bitset_alloca(129); else n = bitset_alloca(130);
    VF_ENSURES("alloca.room", n->n * 64 >= b0 && n->n <= 3);
    for (uint64_t k = 0; k < 3; k++) if (k < n->n) { VF_ENSURES("alloca.clear", n->w[k] == 0); n->w[k] = 77 + k; }
    d = bitset_dup_alloca(n);
    VF_ENSURES("dup_alloca", d->n == n->n && d != n);
    for (uint64_t k = 0; k < 3; k++) if (k < n->n) VF_ENSURES("dup_alloca.bits", d->w[k] == 77 + k);
    VF_REACHED();
}
#endif
void harness_pow2(void)
{
    uint64_t v = vf_u64(), k = vf_u64(); VF_REQUIRES(k < 64);
    uint64_t n = (uint64_t)1 << k;
    VF_ENSURES("is_pow2", !!_IS_POW2(n) == 1);
    int one = 0; for (int i = 0; i < 64; i++) one += (v >> i) & 1;
    VF_ENSURES("is_pow2.exact", v == 0 || !!_IS_POW2(v) == (one == 1));
    VF_ENSURES("is_aligned", !!_IS_ALIGNED(v, n) == (v << (63 - k) << 1 == 0 ? 1 : 0) || k == 0);
    uint64_t d = _ALIGN_DOWN(v, n);
    VF_ENSURES("align_down", d <= v && v - d < n && (d & (n - 1)) == 0);
    if (v <= UINT64_MAX - (n - 1)) {
        uint64_t u = _ALIGN_UP(v, n);
        VF_ENSURES("align_up", u >= v && u - v < n && (u & (n - 1)) == 0);
    }
    if (v >= 1 && v <= (uint64_t)1 << 63) {
        uint64_t p = NEXTPOW2(v);
        VF_ENSURES("nextpow2", p >= v && p / 2 < v && (p & (p - 1)) == 0);
    }
    if ((uint32_t)v >= 1 && (uint32_t)v <= 1u << 31) {
        uint32_t w = (uint32_t)v, p = NEXTPOW2(w);
        VF_ENSURES("nextpow2.32bit", p >= w && p / 2 < w && (p & (p - 1)) == 0);
    }
    VF_REACHED();
}
