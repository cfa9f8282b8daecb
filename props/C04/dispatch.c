/*
 * RTE ring: the flag-dispatching and single-item entry points.  They only
 * select one of the operations proved in rte.c; here each is run from
 * every state of a small ring (single threaded).
 */
//@ unit rte_enq_dispatch kind=bounded flags="--object-bits 12" unwind=5 cost=20 bound="ring of 4 slots, any state, up to 3 items" fn=rte_ring_enqueue,rte_ring_sp_enqueue,rte_ring_mp_enqueue,rte_ring_enqueue_bulk,rte_ring_enqueue_burst
//@ unit rte_deq_dispatch kind=bounded flags="--object-bits 12" unwind=5 cost=20 bound="ring of 4 slots, any state, up to 3 items" fn=rte_ring_dequeue,rte_ring_sc_dequeue,rte_ring_mc_dequeue,rte_ring_dequeue_bulk,rte_ring_dequeue_burst
//@ subst inc/fast/ringbuf.h void * volatile ring[0] => void * volatile *ring
#include "vf.h"
#include <assert.h>
#include "utils/utils.h"
#include "fast/ringbuf.h"

static struct rte_ring *r;
static void *q[8], *in[4], *out[4];
static unsigned nq;
static uint64_t h;
static void mk(void)
{
    unsigned i;
#ifdef VF_REPLAY
    r = aligned_alloc(64, 512); 
#else
    static struct rte_ring r0; static void *slots[4];
    r = &r0; r->ring = slots;
#endif
    uint64_t n = vf_u64() & 3;
    h = vf_u64(); 
    r->size = 4; r->mask = 3;
    r->cons.head = r->cons.tail = h; r->prod.head = r->prod.tail = h + n;
    r->sp_enq = vf_bool(); r->sc_deq = vf_bool();
    for (i = 0; i < 4; i++) r->ring[i] = (void *)vf_u64();
    for (i = 0; i < 4; i++) in[i] = (void *)vf_u64();
    nq = 0;
    for (i = 0; i < 3; i++) if (i < n) q[nq++] = r->ring[(h + i) & 3];
}
static void check(void)
{
    VF_ENSURES("count", rte_ring_count(r) == nq);
    for (unsigned i = 0; i < 4; i++) if (i < nq) VF_ENSURES("contents-fifo", r->ring[(r->cons.tail + i) & 3] == q[i]);
    VF_ENSURES("indices", r->cons.head == r->cons.tail && r->prod.head == r->prod.tail);
}
void harness_rte_enq_dispatch(void)
{
    mk();
    unsigned how = (unsigned)vf_u64() % 5, n = (unsigned)vf_u64() & 3, put, i;
    int z;
    if (how >= 2) n = 1;
    switch (how) {
    case 0: z = rte_ring_enqueue_bulk(r, in, n); break;
    case 1: z = rte_ring_enqueue_burst(r, in, n); break;
    case 2: z = rte_ring_enqueue(r, in[0]); break;
    case 3: z = rte_ring_sp_enqueue(r, in[0]); break;
    default: z = rte_ring_mp_enqueue(r, in[0]); break;
    }
    if (how == 1) { put = n <= 3 - nq ? n : 3 - nq; VF_ENSURES("enqueue.burst-count", z == (int)put); }
    else { put = n <= 3 - nq ? n : 0; VF_ENSURES("enqueue.all-or-nothing", z == (n <= 3 - nq ? (int)n : -ENOBUFS)); }
    for (i = 0; i < 3; i++) if (i < put) q[nq++] = in[i];
    check();
    VF_REACHED();
}
void harness_rte_deq_dispatch(void)
{
    mk();
    unsigned how = (unsigned)vf_u64() % 5, n = (unsigned)vf_u64() & 3, got, i;
    int z;
    if (how >= 2) n = 1;
    switch (how) {
    case 0: z = rte_ring_dequeue_bulk(r, out, n); break;
    case 1: z = rte_ring_dequeue_burst(r, out, n); break;
    case 2: z = rte_ring_dequeue(r, out); break;
    case 3: z = rte_ring_sc_dequeue(r, out); break;
    default: z = rte_ring_mc_dequeue(r, out); break;
    }
    if (how == 1) { got = n <= nq ? n : nq; VF_ENSURES("dequeue.burst-count", z == (int)got); }
    else { got = n <= nq ? n : 0; VF_ENSURES("dequeue.all-or-nothing", z == (n <= nq ? (int)n : -ENOENT)); }
    for (i = 0; i < 3; i++) if (i < got) VF_ENSURES("dequeue.fifo", out[i] == q[i]);
    nq -= got;
    for (i = 0; i < 3; i++) if (i < nq) q[i] = q[i + got];
    check();
    VF_REACHED();
}
