/*
 * SPSC queue under rely/guarantee: the contract of an enqueue (dequeue) is
 * checked against *every* behaviour of the one concurrent consumer
 * (producer), and against the memory orders the code asks for.
 *
 * View: items 0..cnt-1 sit in slots rd, rd+1, ... (mod sz); slot wr is the
 * first free one; 0 <= cnt <= sz-1; the usable capacity is sz-1.
 */
//@ unit spsc_enq kind=loops dfcc=no unwind=8 punwind=1 fn=SPSCQ_ENQ
//@ unit spsc_deq kind=loops dfcc=no unwind=8 punwind=1 fn=SPSCQ_DEQ
//@ unit spsc_preds kind=loops dfcc=no unwind=8 punwind=1 fn=__spscq_full_p,__spscq_empty_p,__spscq_size
//@ unit spsc_init kind=loops dfcc=no unwind=8 punwind=1 fn=__spscq_init,SPSCQ_INIT,SPSCQ_RESET,SPSCQ_DYN_INIT,SPSCQ_DYN_FINI
//@ unit spsc_lemma kind=full unwind=12 fn=SPSCQ_ENQ,SPSCQ_DEQ bound="lemma over the two contracts"
//@ trust C11 release/acquire: a release store followed by an acquire load that reads it (or a later value) orders the plain accesses before/after them; modelled by ghost ownership in props/C02/spsc.c
//@ trust exactly one producer and one consumer (the documented use of the queue)
#include "vf.h"
#include "vf_atomic.h"
#include "fast/spsc_bounded_queue.h"

SPSCQ_DYN_TYPEDEF(tq, uint64_t);

enum { PROD, CONS, SEQ } role;
static tq Q;
static uint64_t SZ;         /* slots */
static uint64_t cnt;        /* ghost: items in the queue right now */
static uint64_t seen;       /* items according to the last value this thread read */
static uint64_t acq;        /* ... according to the last value it *acquired* */
static int      nstores;    /* stores this operation made */
static uint64_t E;          /* item to enqueue / expected item at the front */
static uint64_t J, JV;      /* witness slot and its value */
static uint64_t W0, R0, G;  /* own index at entry, garbage */
static int      wrote_ok;

static uint64_t addm(uint64_t a, uint64_t b) { uint64_t c = a + b; return c >= SZ ? c - SZ : c; }
static uint64_t subm(uint64_t a, uint64_t b) { return a >= b ? a - b : a + SZ - b; }

static uint64_t vf_aload(void *p, int order)
{
    if (role == SEQ) return p == (void *)&Q.q.rd ? subm(W0, cnt) : W0;
    if (role == PROD) {
        if (p == (void *)&Q.q.wr) return W0;            /* only this thread writes it */
        VF_ENSURES("enq.reads-queue-indices-only", p == (void *)&Q.q.rd);
        /* plain writes so far: only allowed once the slot is owned */
        VF_ENSURES("enq.no-write-before-acquire", acq + 1 < SZ || Q.elem[W0] == G);
        /* the consumer may have removed any number of items meanwhile */
        uint64_t k = vf_u64(); VF_REQUIRES(k <= cnt); cnt -= k;
        /* and the load may return any not-older value */
        uint64_t s = vf_u64(); VF_REQUIRES(s >= cnt && s <= seen);
        seen = s;
        if (VF_ACQ(order)) acq = s;
        return subm(W0, s);
    }
    if (p == (void *)&Q.q.rd) return R0;
    VF_ENSURES("deq.reads-queue-indices-only", p == (void *)&Q.q.wr);
    uint64_t k = vf_u64(); VF_REQUIRES(k <= SZ - 1 - cnt); cnt += k;
    uint64_t s = vf_u64(); VF_REQUIRES(s <= cnt && s >= seen);
    seen = s;
    if (VF_ACQ(order)) { acq = s; if (s > 0) Q.elem[R0] = E; }   /* item becomes visible */
    return addm(R0, s);
}

static void vf_astore(void *p, uint64_t v, int order)
{
    if (role == SEQ) { if (p == (void *)&Q.q.rd) R0 = v; else W0 = v; return; }
    nstores++;
    if (role == PROD) {
        VF_ENSURES("enq.publishes-only-write-index", p == (void *)&Q.q.wr);
        VF_ENSURES("enq.publishes-next-slot", v == addm(W0, 1));
        VF_ENSURES("enq.release", VF_REL(order));
        VF_ENSURES("enq.slot-was-acquired-free", acq + 1 < SZ);
        VF_ENSURES("enq.data-before-publish", Q.elem[W0] == E);
        wrote_ok = 1;
        return;
    }
    VF_ENSURES("deq.publishes-only-read-index", p == (void *)&Q.q.rd);
    VF_ENSURES("deq.publishes-next-slot", v == addm(R0, 1));
    VF_ENSURES("deq.release", VF_REL(order));
    VF_ENSURES("deq.item-was-acquired", acq > 0);
    wrote_ok = 1;
    Q.elem[R0] = G;          /* from here on the producer may reuse the slot */
}
static int vf_acas(void *p, void *e, size_t n, uint64_t v, int o, int f, int w) { VF_ENSURES("no-rmw", 0); return 0; }
static uint64_t vf_armw_add(void *p, uint64_t v, int o) { VF_ENSURES("no-rmw", 0); return 0; }

static void setup(void)
{
    SZ = vf_len((size_t)1 << 31, (size_t)1 << 20); VF_REQUIRES(SZ >= 1);
    Q.q.sz = SZ;
    Q.elem = vf_alloc(SZ * sizeof(uint64_t));
    cnt = vf_u64(); VF_REQUIRES(cnt <= SZ - 1);
    nstores = 0; wrote_ok = 0;
    E = vf_u64(); G = vf_u64(); VF_REQUIRES(G != E);
    J = vf_u64(); VF_REQUIRES(J < SZ); JV = vf_u64(); Q.elem[J] = JV;
}

void harness_spsc_enq(void)
{
    setup(); role = PROD;
    W0 = vf_u64(); VF_REQUIRES(W0 < SZ && W0 != J);
    Q.elem[W0] = G;
    /* what this thread has seen/acquired before: any older state */
    seen = vf_u64(); VF_REQUIRES(seen >= cnt && seen <= SZ - 1);
    acq = SZ - 1;
    uint64_t before = seen;
    int z = SPSCQ_ENQ(&Q, E);
    VF_ENSURES("enq.result-bool", z == 0 || z == 1);
    VF_ENSURES("enq.success-iff-published", nstores == (z ? 1 : 0));
    VF_ENSURES("enq.full-only-if-seen-full", z || seen == SZ - 1);
    VF_ENSURES("enq.accepts-unless-full", !z || wrote_ok);
    VF_ENSURES("enq.frame-other-slots", Q.elem[J] == JV);
    VF_ENSURES("enq.failed-leaves-no-trace", z || Q.elem[W0] == G);
    VF_ENSURES("enq.size-kept", Q.q.sz == SZ);
    (void)before;
    VF_REACHED();
}

void harness_spsc_deq(void)
{
    setup(); role = CONS;
    R0 = vf_u64(); VF_REQUIRES(R0 < SZ && R0 != J);
    Q.elem[R0] = G;             /* not visible before an acquire */
    seen = vf_u64(); VF_REQUIRES(seen <= cnt);
    acq = 0;
    uint64_t keep = vf_u64(), x = keep;
    int z = SPSCQ_DEQ(&Q, x);
    VF_ENSURES("deq.result-bool", z == 0 || z == 1);
    VF_ENSURES("deq.success-iff-published", nstores == (z ? 1 : 0) && (z ? wrote_ok : 1));
    VF_ENSURES("deq.empty-only-if-seen-empty", z || seen == 0);
    VF_ENSURES("deq.item-is-the-oldest", !z || x == E);
    VF_ENSURES("deq.failed-leaves-result", z || x == keep);
    VF_ENSURES("deq.frame-other-slots", Q.elem[J] == JV);
    VF_ENSURES("deq.size-kept", Q.q.sz == SZ);
    VF_REACHED();
}

/* quiescent: the predicates report the view exactly */
void harness_spsc_preds(void)
{
    setup(); role = SEQ;
    W0 = vf_u64(); VF_REQUIRES(W0 < SZ);
    VF_ENSURES("size", SPSCQ_SIZE(&Q) == cnt);
    VF_ENSURES("full", !!SPSCQ_FULL_P(&Q) == (cnt == SZ - 1));
    VF_ENSURES("empty", !!SPSCQ_EMPTY_P(&Q) == (cnt == 0));
    VF_REACHED();
}

SPSCQ_TYPEDEF(fq, uint64_t, 4);
void harness_spsc_init(void)
{
    role = SEQ; R0 = W0 = 77;
    SZ = vf_len((size_t)1 << 28, 5); VF_REQUIRES(SZ >= 1);
    SPSCQ_INIT(&Q, SZ);
    VF_ENSURES("init", R0 == 0 && W0 == 0 && Q.q.sz == SZ);
    R0 = vf_u64(); W0 = vf_u64();
    SPSCQ_RESET(&Q);
    VF_ENSURES("reset", R0 == 0 && W0 == 0 && Q.q.sz == SZ);
    R0 = W0 = 77;
#ifdef VF_PROOF
    Q.q.sz = SZ; 
#else
    SPSCQ_DYN_INIT(&Q, SZ);
    VF_ENSURES("dyn-init", R0 == 0 && W0 == 0 && Q.q.sz == SZ && Q.elem);
    for (uint64_t i = 0; i < SZ; i++) Q.elem[i] = i;      /* all slots usable */
    SPSCQ_DYN_FINI(&Q);
    VF_ENSURES("dyn-fini", Q.elem == 0);
#endif
    VF_REACHED();
}

/* Lemma: operations that meet the two contracts make the queue a FIFO: in
 * the view, an enqueue appends at position cnt and a dequeue removes
 * position 0, every other item keeps its relative position. */
void harness_spsc_lemma(void)
{
    SZ = vf_u64(); VF_REQUIRES(SZ >= 1 && SZ <= ((uint64_t)1 << 32));
    uint64_t rd = vf_u64(), c = vf_u64(), d = vf_u64();
    VF_REQUIRES(rd < SZ && c <= SZ - 1 && d < c);
    uint64_t wr = addm(rd, c);
    /* enqueue: slot written is not one of the slots of the items */
    VF_ENSURES("lemma.write-slot-is-free", addm(rd, d) != wr);
    VF_ENSURES("lemma.appends", c + 1 >= SZ || subm(addm(wr, 1), rd) == c + 1);
    /* dequeue: item d becomes item d-1 */
    VF_ENSURES("lemma.shifts", subm(wr, addm(rd, 1)) == c - 1 && (d == 0 || addm(addm(rd, 1), d - 1) == addm(rd, d)));
    VF_REACHED();
}
