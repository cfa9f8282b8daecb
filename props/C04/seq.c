/*
 * RTE ring: construction, counters, and the flag-dispatching entry points
 * (single threaded: these only select one of the operations of rte.c).
 */
//@ unit rte_create kind=full unwind=2 fn=rte_ring_create,rte_ring_create_from,__rte_ring_init,rte_ring_size
//@ unit rte_count  kind=full unwind=2 fn=rte_ring_count,rte_ring_free_count,rte_ring_full,rte_ring_empty
#include "vf.h"
#include <assert.h>
#include "utils/utils.h"
#include "fast/ringbuf.h"
#ifdef VF_REPLAY
#define ROOM(p, n)  1
#else
#define ROOM(p, n)  (__CPROVER_OBJECT_SIZE(p) >= (n))
#endif

void harness_rte_create(void)
{
    unsigned count = vf_u32(), flags = vf_u32();
    VF_REQUIRES(count >= 1 && count <= 0x40000000u);
#ifdef VF_REPLAY
    VF_REQUIRES(count <= 0x1000000u);
#endif
    struct rte_ring *r;
    uint64_t want = sizeof(struct rte_ring);
    if (vf_bool()) {
        r = rte_ring_create(count, flags);
        VF_ENSURES("create.room", ROOM(r, sizeof *r + (uint64_t)r->size * 8));
    } else {
        static uint64_t b[64] __attribute__((aligned(64)));
        size_t n = vf_size(), old = n;
        VF_REQUIRES(n <= (size_t)1 << 40);
        r = rte_ring_create_from(count, flags, b, &n);
        if (!r) {
            size_t p = count; p--; p |= p >> 1; p |= p >> 2; p |= p >> 4; p |= p >> 8; p |= p >> 16; p++;
            VF_ENSURES("create_from.fails-only-when-too-small", old < ((sizeof *r + p * 8 + 63) & ~(size_t)63) && n == old);
            VF_REACHED();
            return;
        }
        VF_ENSURES("create_from.in-place", (void *)r == (void *)b);
        VF_ENSURES("create_from.remainder", n <= old && old - n >= sizeof *r + (uint64_t)r->size * 8);
    }
    VF_ENSURES("create.size", r->size >= count && (r->size & (r->size - 1)) == 0 && r->size / 2 < count && r->mask == r->size - 1);
    VF_ENSURES("create.empty", r->prod.head == 0 && r->prod.tail == 0 && r->cons.head == 0 && r->cons.tail == 0);
    VF_ENSURES("create.flags", !!r->sp_enq == !!(flags & RING_F_SP_ENQ) && !!r->sc_deq == !!(flags & RING_F_SC_DEQ));
    VF_ENSURES("create.counters", rte_ring_empty(r) && rte_ring_count(r) == 0 && rte_ring_free_count(r) == r->size - 1);
    VF_REACHED();
}

static struct rte_ring *mk(uint64_t sz, uint64_t h, uint64_t n)
{
    static uint64_t mem[64] __attribute__((aligned(64)));
    struct rte_ring *r = (struct rte_ring *)mem;
    r->size = (uint32_t)sz; r->mask = (uint32_t)(sz - 1);
    r->cons.head = r->cons.tail = h; r->prod.head = r->prod.tail = h + n;
    r->sp_enq = vf_bool(); r->sc_deq = vf_bool();
    return r;
}
void harness_rte_count(void)
{
    uint64_t k = vf_u64(), h = vf_u64(), n = vf_u64();
    VF_REQUIRES(k <= 31);
    uint64_t sz = (uint64_t)1 << k;
    VF_REQUIRES(n < sz);
    struct rte_ring *r = mk(sz, h, n);
    VF_ENSURES("count", rte_ring_count(r) == n && rte_ring_free_count(r) == sz - 1 - n);
    VF_ENSURES("full-empty", !!rte_ring_full(r) == (n == sz - 1) && !!rte_ring_empty(r) == (n == 0));
    VF_REACHED();
}
