/*
 * MPMC queue under rely/guarantee.
 *
 * Every position h of the unbounded sequence of items is a ticket: slot
 * h mod sz, round h / sz.  A slot is free for round k when its turn is 2k
 * and holds the item of round k when its turn is 2k+1.  Turns only grow.
 * A thread owns a slot exactly when it holds the ticket h (it moved the
 * head/tail counter from h to h+1) and has acquired the turn value that
 * opens round h/sz for it.  The contracts say: slots are touched only
 * while owned, handed over only by a release store of the next turn, and
 * the item placed at position h is the item taken from position h.
 */
//@ unit mpmc_enq      kind=loops bto=400 to=400 unwind=4 punwind=2 fn=MPMC_QUEUE_ENQ cost=50
//@ unit mpmc_deq      kind=loops bto=400 to=400 unwind=4 punwind=2 fn=MPMC_QUEUE_DEQ cost=50
//@ unit mpmc_enq_wait kind=loops bto=400 to=400 unwind=4 punwind=2 fn=MPMC_QUEUE_ENQ_WAIT cost=50
//@ unit mpmc_deq_wait kind=loops bto=400 to=400 unwind=4 punwind=2 fn=MPMC_QUEUE_DEQ_WAIT cost=50
//@ annot inc/fast/mpmc_bounded_queue.h MPMC_QUEUE_ENQ 0
//@  assigns _hd, _ret, GH, __CPROVER_object_whole(_qc->slot)
//@  inv LOOPINV(_hd) && _ret == 0
//@ annot inc/fast/mpmc_bounded_queue.h MPMC_QUEUE_DEQ 0
//@  assigns _tl, _ret, GH, e_, __CPROVER_object_whole(_qc->slot)
//@  inv LOOPINV(_tl) && _ret == 0 && (e_) == KEEP
//@ annot inc/fast/mpmc_bounded_queue.h MPMC_QUEUE_ENQ_WAIT 0
//@  assigns GH
//@  inv WAITINV(_hd)
//@ annot inc/fast/mpmc_bounded_queue.h MPMC_QUEUE_DEQ_WAIT 0
//@  assigns GH, __CPROVER_object_whole(_qc->slot)
//@  inv WAITINV(_tl)
//@ trust C11 release/acquire semantics, modelled by ghost ownership in props/C03/mpmc.c; position counters do not wrap around 2^62
#include "vf.h"
#include "vf_atomic.h"

struct gh {
    uint64_t ctr;        /* true value of the counter tickets are drawn from */
    uint64_t seen;       /* newest value of it this thread knows of */
    int      have;       /* this thread holds a ticket (2: and has handed the slot on) */
    uint64_t ticket;
    int      own;        /* it has acquired the slot of its ticket */
    int      tknown, tacq;
    uint64_t tslot, tval;   /* last turn value read */
    int      nstore;
    uint64_t jv;         /* expected contents of the witness slot */
} GH;
static uint64_t SZ, MASK, E, G, J, KEEP, OPEN;   /* OPEN: 0 producer, 1 consumer */
static int RETRIES;                        /* bounded runs: retries explored */
#ifdef VF_PROOF
#define LIM  ((uint64_t)1 << 62)
#define MAXK 16
#else
#define LIM  ((uint64_t)1 << 6)
#define MAXK 2
#endif
#define FRAME()     (Q.slot[J].data == GH.jv)
#define LOOPINV(v)  (GH.have == 0 && GH.own == 0 && GH.nstore == 0 && (v) == GH.seen && GH.seen <= GH.ctr && GH.ctr <= LIM && FRAME())
#define WAITINV(v)  (GH.have == 1 && GH.own == 0 && GH.ticket == (v) && GH.nstore == 0 && GH.ctr <= LIM && FRAME())

#include "fast/mpmc_bounded_queue.h"
MPMC_QUEUE_TYPE(tq, uint64_t);
static tq Q;
#define CTR     (OPEN ? (void *)&Q.q.tail : (void *)&Q.q.head)
#define OPENV(h)  (2 * ((h) / SZ) + OPEN)     /* turn that opens position h for us */

static void env_ctr(void)
{
    uint64_t k = vf_u64(); VF_REQUIRES(k <= LIM && GH.ctr + k <= LIM); GH.ctr += k;
}
static void check_frame(void) { VF_ENSURES("slots-touched-only-while-owned", GH.own || FRAME()); }
static void acquire_slot(void)
{
    GH.own = 1;
    if (OPEN) { Q.slot[GH.ticket & MASK].data = E; if (J == (GH.ticket & MASK)) GH.jv = E; }
}

static uint64_t vf_aload(void *p, int order)
{
    check_frame();
    env_ctr();
    if (p == CTR) {
        uint64_t s = vf_u64(); VF_REQUIRES(s >= GH.seen && s <= GH.ctr);
        GH.seen = s;
        return s;
    }
    if (p == (void *)&Q.q.head || p == (void *)&Q.q.tail) return vf_u64();
    size_t off = (char *)p - (char *)Q.slot, idx = off / sizeof(Q.slot[0]);
    VF_ENSURES("turn-of-a-slot", off % sizeof(Q.slot[0]) == 0 && idx < SZ);
#ifndef VF_PROOF
    VF_REQUIRES(RETRIES > 0); RETRIES--;
#endif
    uint64_t v = vf_u64();
    VF_REQUIRES(v <= 4 * LIM - 2);
    VF_REQUIRES(!GH.tknown || GH.tslot != idx || v >= GH.tval);           /* turns only grow */
    if (GH.have == 1 && idx == (GH.ticket & MASK))
        VF_REQUIRES(v <= OPENV(GH.ticket));       /* nobody passes our round */
    else if (!GH.have && idx == (GH.seen & MASK) && v > OPENV(GH.seen)) {
        VF_REQUIRES(GH.ctr > GH.seen);            /* somebody took that position before */
        if (VF_ACQ(order)) GH.seen = GH.seen + 1;
    }
    GH.tknown = 1; GH.tslot = idx; GH.tval = v; GH.tacq = !!VF_ACQ(order);
    if (GH.have == 1 && VF_ACQ(order) && idx == (GH.ticket & MASK) && v == OPENV(GH.ticket) && !GH.own)
        acquire_slot();
    return v;
}

static int vf_acas(void *p, void *ex, size_t n, uint64_t v, int order, int forder, int weak)
{
    uint64_t *e = (uint64_t *)ex;
    check_frame();
    VF_ENSURES("cas-on-own-counter", p == CTR && n == 8);
    env_ctr();
    int spurious = weak ? vf_bool() : 0;
    if (*e == GH.ctr && !spurious) {
        VF_ENSURES("one-ticket-per-operation", !GH.have);
        VF_ENSURES("ticket-step", v == GH.ctr + 1);
        GH.have = 1; GH.ticket = GH.ctr; GH.ctr++; GH.seen = GH.ctr;
        if (GH.tknown && GH.tacq && GH.tslot == (GH.ticket & MASK) && GH.tval == OPENV(GH.ticket))
            acquire_slot();
        return 1;
    }
    *e = GH.ctr; GH.seen = GH.ctr;
    return 0;
}

static uint64_t vf_armw_add(void *p, uint64_t v, int order)
{
    check_frame();
    VF_ENSURES("rmw-on-own-counter", p == CTR && v == 1);
    VF_ENSURES("one-ticket-per-operation", !GH.have);
    env_ctr();
    GH.have = 1; GH.ticket = GH.ctr; GH.ctr++; GH.seen = GH.ctr;
    return GH.ticket;
}

static void vf_astore(void *p, uint64_t v, int order)
{
    GH.nstore++;
    VF_ENSURES("handover-while-owned", GH.own && GH.have == 1);
    VF_ENSURES("handover-own-slot", p == (void *)&Q.slot[GH.ticket & MASK].turn);
    VF_ENSURES("handover-next-turn", v == OPENV(GH.ticket) + 1);
    VF_ENSURES("handover-release", VF_REL(order));
    if (!OPEN) VF_ENSURES("item-written-before-handover", Q.slot[GH.ticket & MASK].data == E);
    VF_ENSURES("frame-other-slots", J == (GH.ticket & MASK) || FRAME());
    GH.have = 2; GH.own = 0;
    if (OPEN) Q.slot[GH.ticket & MASK].data = G;     /* reused by a producer from here on */
    if (J == (GH.ticket & MASK)) GH.jv = Q.slot[J].data;
}

static void setup(int consumer)
{
    OPEN = consumer;
    uint64_t k = vf_u64(); VF_REQUIRES(k <= MAXK);
    SZ = (uint64_t)1 << k; MASK = SZ - 1;
    Q.q.sz = SZ; Q.q.mask = MASK;
#ifdef VF_REPLAY
    Q.slot = aligned_alloc(64, SZ * sizeof *Q.slot); memset(Q.slot, 0xA5, SZ * sizeof *Q.slot);
#else
    Q.slot = malloc(SZ * sizeof *Q.slot);
    __CPROVER_assume(Q.slot != 0);
#endif
    E = vf_u64(); G = vf_u64(); VF_REQUIRES(E != G);
    J = vf_u64(); VF_REQUIRES(J < SZ);
    memset(&GH, 0, sizeof GH);
    GH.jv = consumer ? G : vf_u64();
    if (consumer) VF_REQUIRES(GH.jv == G);
    Q.slot[J].data = GH.jv;
    GH.ctr = vf_u64(); VF_REQUIRES(GH.ctr <= LIM);
    GH.seen = vf_u64(); VF_REQUIRES(GH.seen <= GH.ctr);
    RETRIES = 3;
}
/* "full" ("empty") as observed: the slot of the newest known position was
 * still in an earlier round */
#define BLOCKED_SEEN  (GH.tknown && GH.tslot == (GH.seen & MASK) && GH.tval < OPENV(GH.seen))

void harness_mpmc_enq(void)
{
    setup(0);
    int z = MPMC_QUEUE_ENQ(&Q, E);
    VF_ENSURES("enq.bool", z == 0 || z == 1);
    VF_ENSURES("enq.success-iff-handed-over", z ? (GH.have == 2 && GH.nstore == 1) : (GH.have == 0 && GH.nstore == 0));
    VF_ENSURES("enq.fails-only-when-full", z || BLOCKED_SEEN);
    VF_ENSURES("enq.frame", FRAME());
    VF_REACHED();
}

void harness_mpmc_enq_wait(void)
{
    setup(0);
    MPMC_QUEUE_ENQ_WAIT(&Q, E);
    VF_ENSURES("enqw.handed-over-once", GH.have == 2 && GH.nstore == 1);
    VF_ENSURES("enqw.frame", FRAME());
    VF_REACHED();
}

void harness_mpmc_deq(void)
{
    setup(1);
    uint64_t x = KEEP = vf_u64();
    int z = MPMC_QUEUE_DEQ(&Q, x);
    VF_ENSURES("deq.bool", z == 0 || z == 1);
    VF_ENSURES("deq.success-iff-handed-over", z ? (GH.have == 2 && GH.nstore == 1) : (GH.have == 0 && GH.nstore == 0));
    VF_ENSURES("deq.item-of-its-position", !z || x == E);
    VF_ENSURES("deq.fails-only-when-empty", z || (BLOCKED_SEEN && x == KEEP));
    VF_ENSURES("deq.frame", FRAME());
    VF_REACHED();
}

void harness_mpmc_deq_wait(void)
{
    setup(1);
    uint64_t x = vf_u64();
    MPMC_QUEUE_DEQ_WAIT(&Q, x);
    VF_ENSURES("deqw.item-of-its-position", x == E);
    VF_ENSURES("deqw.handed-over-once", GH.have == 2 && GH.nstore == 1);
    VF_ENSURES("deqw.frame", FRAME());
    VF_REACHED();
}
