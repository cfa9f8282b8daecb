/*
 * mempool.c: pools inside memory supplied by the caller.  In the verified
 * copy the pointer alignment macro is computed from the offset in the
 * object; that it equals the real macro is asserted.
 */
//@ unit mp_from_mem kind=bounded bound="(block size, misalignment) in (24,1),(100,4); every memory size up to 8192" unwind=10 defs=__MAKE_OPTIMIZE__=1 fn=mempool_init_from_mem,mempool_new_from_mem
//@ unit mp_from_mem2 kind=bounded bound="(block size, misalignment) in (1,7),(4096,3); every memory size up to 8192" unwind=10 defs="__MAKE_OPTIMIZE__=1 SET2=1" fn=mempool_init_from_mem,mempool_new_from_mem
//@ subst src/mempool.c #define _Align(typ, p) (typ)( => #define _RAlign(typ, p) (typ)(
#include "vf.h"
#ifndef VF_REPLAY
#define _Align(typ, p)  _Generic((typ)0, uint8_t *: vf_alignp, default: vf_alignu)(p)
static uint8_t *vf_alignp(void *p);
static unsigned vf_alignu(unsigned v);
#endif
#include "src/mempool.c"
#ifndef VF_REPLAY
#ifdef _RAlign
static uint8_t *vf_alignp(void *p)
{
    uint8_t *q = (uint8_t *)p + (8 - __CPROVER_POINTER_OFFSET(p) % 8) % 8;
    VF_ENSURES("align.pointer", q == _RAlign(uint8_t *, p));
    return q;
}
static unsigned vf_alignu(unsigned v) { return _RAlign(unsigned, v); }
#endif
#endif
static void from_mem(unsigned bs, unsigned n, size_t off, int in)
{
    VF_REQUIRES(bs <= 0x80000000u);
#ifdef VF_REPLAY
    VF_REQUIRES(n < 0x10000000);
#endif
#ifdef VF_REPLAY
    uint8_t *m = malloc((size_t)n + off + 1);
#else
    static uint8_t m[8200] __attribute__((aligned(16)));
    VF_REQUIRES(n <= 8192);
#endif
    static mempool Q;
    mempool *p = &Q; int r;
    uint8_t *lo = m + off, *hi = lo + n;
    if (in) { p = 0; r = mempool_new_from_mem(&p, bs, lo, n); }
    else r = mempool_init_from_mem(p, bs, lo, n);
    uint64_t b = bs < 16 ? 16 : (bs + 7u) & ~7u;
    VF_ENSURES("from_mem.fails-only-when-too-small", r == 0 || n < b + 8 + 8 + 8 + sizeof(memchunk) + sizeof(mempool));
    if (r == 0) {
        memchunk *c = p->chunks;
        VF_ENSURES("from_mem.pool-in-memory", !in || ((uint8_t *)p >= lo && (uint8_t *)(p + 1) <= hi));
        VF_ENSURES("from_mem.chunk-in-memory", (uint8_t *)c >= (in ? (uint8_t *)(p + 1) : lo) && (uint8_t *)(c + 1) <= hi);
        VF_ENSURES("from_mem.blocks-in-memory", c->free_area >= (uint8_t *)(c + 1) && c->end <= hi && c->free_area < c->end);
        VF_ENSURES("from_mem.block-size", p->block_size == b && mempool_block_size(p) == b);
        VF_ENSURES("from_mem.whole-blocks", (uint64_t)(c->end - c->free_area) == b * p->max_blocks && p->max_blocks >= 1 && mempool_total_blocks(p) == p->max_blocks);
        VF_ENSURES("from_mem.uses-all-memory", (uint64_t)(hi - c->end) < b + 8);
        VF_ENSURES("from_mem.aligned", (uintptr_t)c->free_area % 8 == 0 && c->next == 0 && p->mru_head.first == 0 && p->mru_head.last == 0);
    }
}
void harness_mp_from_mem(void)
{
    unsigned bs = vf_u32(), n = vf_u32(); size_t off = vf_size(); int in = vf_bool();
#define ONE(S, O) if (bs == S && off == O) { if (in) from_mem(S, n, O, 1); else from_mem(S, n, O, 0); }
#if SET2
    ONE(1, 7) ONE(4096, 3)
#else
    ONE(24, 1) ONE(100, 4)
#endif
    VF_REACHED();
}
#if SET2
void harness_mp_from_mem2(void) { harness_mp_from_mem(); }
#endif
