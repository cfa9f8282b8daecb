/*
 * RTE ring under rely/guarantee.
 *
 * Both sides work alike: an operation takes a ticket range [t, t+n) by
 * moving its own head from t to t+n, works on those slots (mod size), and
 * gives the range to the other side by moving its own tail from t to t+n,
 * after all earlier ranges were given.  The other side's tail O limits the
 * head: H <= O + CAP, with CAP = size-1 for a producer, 0 for a consumer.
 * The contracts: a range is taken only if it is covered by an *acquired*
 * value of O, slots are touched only while owned, items arrive unchanged
 * and in order, ranges are given in order, complete and with release.
 */
//@ unit rte_mp_enq kind=loops unwind=10 punwind=2 replace=__store_ring fn=__rte_ring_mp_do_enqueue,rte_ring_mp_enqueue_bulk,rte_ring_mp_enqueue_burst to=500 bto=500 cost=60
//@ unit rte_sp_enq kind=loops unwind=10 punwind=2 replace=__store_ring fn=__rte_ring_sp_do_enqueue,rte_ring_sp_enqueue_bulk,rte_ring_sp_enqueue_burst to=500 bto=500 cost=60
//@ unit rte_mc_deq kind=loops unwind=10 punwind=2 replace=__load_ring fn=__rte_ring_mc_do_dequeue,rte_ring_mc_dequeue_bulk,rte_ring_mc_dequeue_burst to=500 bto=500 cost=60
//@ unit rte_sc_deq kind=loops unwind=10 punwind=2 replace=__load_ring fn=__rte_ring_sc_do_dequeue,rte_ring_sc_dequeue_bulk,rte_ring_sc_dequeue_burst to=500 bto=500 cost=60
//@ unit rte_store kind=loops unwind=10 punwind=2 fn=__store_ring to=500 bdefs="BK=3 BN=9"
//@ unit rte_load  kind=loops unwind=10 punwind=2 fn=__load_ring to=500 bdefs="BK=3 BN=9"
//@ subst inc/fast/ringbuf.h void * volatile ring[0] => void * volatile *ring
//@ trust extraction: the ring's slots, stored inline after the header in the real type, are a separate array in the verified copy (native replay uses the real type)
//@ annot inc/fast/ringbuf.h __store_ring 0
//@  assigns i, idx, __CPROVER_object_whole((void *)r->ring)
//@  inv i % 4 == 0 && i <= loops && idx == (unsigned)(head & r->mask) + i && r->ring[WS] == (void *)((WS >= (head & r->mask) && WS < (head & r->mask) + i) ? (uint64_t)obj[WS - (head & r->mask)] : GH.jv)
//@  dec loops - i
//@ annot inc/fast/ringbuf.h __store_ring 1
//@  assigns i, idx, __CPROVER_object_whole((void *)r->ring)
//@  inv i <= n && idx == (unsigned)(head & mask) + i && r->ring[WS] == (void *)(((WS - head) & mask) < i ? (uint64_t)obj[(WS - head) & mask] : GH.jv)
//@  dec n - i
//@ annot inc/fast/ringbuf.h __load_ring 0
//@  assigns i, idx, __CPROVER_object_whole(obj)
//@  inv i % 4 == 0 && i <= loops && idx == (unsigned)(head & r->mask) + i && LOADINV
//@  dec loops - i
//@ annot inc/fast/ringbuf.h __load_ring 1
//@  assigns i, idx, __CPROVER_object_whole(obj)
//@  inv i <= n && idx == (unsigned)(head & mask) + i && LOADINV
//@  dec n - i
//@ annot inc/fast/ringbuf.h __rte_ring_mp_do_enqueue 0
//@  assigns n, prod_head, prod_next, cons_tail, free_entries, success, vf_once, GH
//@  inv GHINV && GH.nt == 0 && !GH.trelax && RINGP[WS] == (void *)GH.jv && ((vf_once || success == 0) ? GH.have == 0 : (GH.have == 1 && GH.own && GH.t == prod_head && prod_next == GH.t + GH.n && n == GH.n && n <= max && COUNTOK))
//@ annot inc/fast/ringbuf.h __rte_ring_mp_do_enqueue 1
//@  assigns r->prod.tail, GH
//@  inv GHINV && GH.have == 1 && GH.own && GH.t == prod_head && GH.n == n && n <= max && COUNTOK && GH.nt == 0 && !GH.trelax && PRODDONE
//@ annot inc/fast/ringbuf.h __rte_ring_mc_do_dequeue 0
//@  assigns n, cons_head, cons_next, prod_tail, entries, success, vf_once, GH, RING[WS]
//@  inv GHINV && GH.nt == 0 && !GH.trelax && ((vf_once || success == 0) ? (GH.have == 0 && RING[WS] == (void *)G && GH.jv == G) : (GH.have == 1 && GH.own && GH.t == cons_head && cons_next == GH.t + GH.n && n == GH.n && n <= max && COUNTOK && RING[WS] == (void *)GH.jv && GH.jv == (((WS - GH.t) & MASK) < GH.n ? E : G)))
//@ annot inc/fast/ringbuf.h __rte_ring_mc_do_dequeue 1
//@  assigns r->cons.tail, GH
//@  inv GHINV && GH.have == 1 && GH.own && GH.t == cons_head && GH.n == n && n <= max && COUNTOK && GH.nt == 0 && !GH.trelax && GH.jv == (((WS - GH.t) & MASK) < GH.n ? E : G)
//@ trust C11 release/acquire modelled by ghost ownership in props/C04/rte.c; head/tail counters do not wrap around 2^62; the wait for earlier ranges ends because their owners finish (liveness is not claimed)
#include "vf.h"
#include "vf_atomic.h"
#include <assert.h>
#include "utils/utils.h"
static void vf_pause(void);
#define sys_cpu_pause() vf_pause()
#ifdef VF_PROOF
#define LIM ((uint64_t)1 << 62)
#else
#define LIM ((uint64_t)1 << 6)
#endif
#ifndef BK
#define BK 2
#define BN 5
#endif
struct gh {
    uint64_t H, T, O;          /* true values: own head, own tail, other side's tail */
    uint64_t seenH, minO, seenO, acqO, seenT;
    int have, own, nt, trelax;
    uint64_t t, n;             /* ticket range */
    uint64_t jv;               /* expected contents of the witness slot */
} GH;
static uint64_t MASK, CAP, WS, E, G, OG;
static int PRODUCER, SINGLE, RETRIES;
struct rte_ring;
static struct rte_ring *R;
static void **OBJ; static uint64_t WO;    /* object table, witness index in it */
static unsigned N;
static void **RINGP;                      /* the slots */
#define STOREPRE (r == R && n <= MASK && n <= N && obj == OBJ)
#define RING   (R->ring)
#define MYIDX  (PRODUCER ? &R->prod : &R->cons)
#define MYHEAD (PRODUCER ? (void *)&R->prod.head : (void *)&R->cons.head)
#define MYTAIL (PRODUCER ? (void *)&R->prod.tail : (void *)&R->cons.tail)
#define OTAIL  (PRODUCER ? (void *)&R->cons.tail : (void *)&R->prod.tail)
#define INSUFFICIENT(n)  ((n) > GH.seenO + CAP - (GH.have ? GH.t : GH.seenH))
#define COUNTOK (behavior == RTE_RING_QUEUE_FIXED ? GH.n == max : (GH.n == max || INSUFFICIENT(max)))
#define INRANGE  (((WS - GH.t) & MASK) < GH.n)
#define GHINV  (GH.T <= GH.H && GH.H <= LIM && GH.O <= LIM && GH.H <= GH.O + CAP && GH.O <= GH.T + (MASK - CAP) && \
                GH.seenH <= GH.H && GH.minO <= GH.O && GH.seenO <= GH.O && GH.acqO <= GH.seenO && GH.seenT <= GH.T && \
                (GH.have ? (GH.t <= LIM && GH.T <= GH.t && GH.t + GH.n <= GH.H && GH.n <= MASK) : 1) && GH.have != 2 && \
                (PRODUCER ? R->prod.tail : R->cons.tail) <= GH.T)
#define LOADINV  ((WO < N) ? OBJ[WO] == (void *)((WO < i) ? (((WS - GH.t) & MASK) == WO ? E : (uint64_t)OBJ[WO]) : OG) : 1)
#define PRODDONE (R->ring[WS] == (void *)(INRANGE ? (uint64_t)OBJ[(WS - GH.t) & MASK] : GH.jv))

/* contracts of the two copy loops: proved in rte_store / rte_load, used by
 * the callers in place of the bodies */
#ifdef VF_PROOF
static inline void __store_ring(struct rte_ring *r, uint_fast32_t head, void *const *obj, unsigned n)
__CPROVER_requires(STOREPRE)
__CPROVER_assigns(__CPROVER_object_whole((void *)RINGP))
__CPROVER_ensures(RINGP[WS] == (((WS - head) & MASK) < n ? obj[(WS - head) & MASK] : __CPROVER_old(RINGP[WS])));
static inline void __load_ring(struct rte_ring *r, uint_fast32_t head, void **obj, unsigned n)
__CPROVER_requires(STOREPRE)
__CPROVER_assigns(__CPROVER_object_whole(obj))
__CPROVER_ensures(WO >= N || (WO < n && ((WS - head) & MASK) != WO) || obj[WO] == (WO < n ? RINGP[WS] : (void *)OG));
#endif
#include "fast/ringbuf.h"

static void env(void)
{
    uint64_t a = vf_u64(), b = vf_u64(), c = vf_u64();
    VF_REQUIRES(a <= LIM && b <= LIM && c <= LIM);
    if (!SINGLE) {
        VF_REQUIRES(GH.T + c <= (GH.have == 1 ? GH.t : GH.H)); GH.T += c;
    }
    VF_REQUIRES(GH.O + a <= LIM && GH.O + a <= GH.T + (MASK - CAP)); GH.O += a;
    if (!SINGLE) {
        VF_REQUIRES(GH.H + b <= LIM && GH.H + b <= GH.O + CAP); GH.H += b;
    }
}
static void frame(void) { if (!GH.own) VF_ENSURES("slots-touched-only-while-owned", R->ring[WS] == (void *)GH.jv); }

static void retry(void)
{
#ifndef VF_PROOF
    VF_REQUIRES(RETRIES > 0); RETRIES--;
#endif
}

static void take(uint64_t v, int order, int viastore)
{
    VF_ENSURES("one-range-per-operation", !GH.have);
    VF_ENSURES("range-covered-by-acquired-tail", v >= GH.H && v <= GH.acqO + CAP);
    VF_ENSURES("taking-a-range-publishes-what-it-saw", VF_REL(order));
    VF_REQUIRES(v <= LIM);
    GH.have = 1; GH.own = 1; GH.t = GH.H; GH.n = v - GH.H; GH.H = v; GH.seenH = v;
    if (!PRODUCER && INRANGE) { R->ring[WS] = (void *)E; GH.jv = E; }
}

static uint64_t vf_aload(void *p, int order)
{
    frame();
    env();
    uint64_t s = vf_u64();
    if (p == MYHEAD) {
        retry();
        VF_REQUIRES(s >= GH.seenH && s <= GH.H);
        if (SINGLE) VF_REQUIRES(s == GH.H);
        GH.seenH = s;
        if ((VF_ACQ(order) || SINGLE) && s >= CAP && s - CAP > GH.minO) GH.minO = s - CAP;
        return s;
    }
    if (p == OTAIL) {
        VF_REQUIRES(s >= GH.minO && s >= GH.seenO && s <= GH.O);
        GH.seenO = s;
        if (VF_ACQ(order)) GH.acqO = s;
        return s;
    }
    VF_ENSURES("only-ring-indices-are-read", p == MYTAIL);
    retry();
    VF_REQUIRES(s >= GH.seenT && s <= GH.T);
    if (SINGLE) VF_REQUIRES(s == GH.T);
    GH.seenT = s;
    if (PRODUCER) R->prod.tail = s; else R->cons.tail = s;
    GH.trelax = !VF_ACQ(order) && !SINGLE;
    return s;
}

static void vf_pause(void)       /* between two plain reads of the own tail */
{
    env();
    retry();
    uint64_t s = vf_u64();
    VF_REQUIRES(s >= (PRODUCER ? R->prod.tail : R->cons.tail) && s >= GH.seenT && s <= GH.T);
    GH.seenT = s;
    if (PRODUCER) R->prod.tail = s; else R->cons.tail = s;
}

static int vf_acas(void *p, void *ex, size_t n, uint64_t v, int order, int forder, int weak)
{
    uint64_t *e = (uint64_t *)ex;
    frame();
    VF_ENSURES("cas-on-own-head", p == MYHEAD && n == 8 && !SINGLE);
    env();
    int spurious = weak ? vf_bool() : 0;
    if (*e == GH.H && !spurious) {
        take(v, order, 0);
        return 1;
    }
    retry();
    *e = GH.H; GH.seenH = GH.H;
    if (VF_ACQ(forder) && GH.H >= CAP && GH.H - CAP > GH.minO) GH.minO = GH.H - CAP;
    return 0;
}

static uint64_t vf_armw_add(void *p, uint64_t v, int order)
{
    VF_ENSURES("rmw-on-own-head", p == MYHEAD);
    frame(); env();
    take(GH.H + v, order, 0);
    return GH.t;
}

static void vf_astore(void *p, uint64_t v, int order)
{
    if (p == MYHEAD) {
        VF_ENSURES("plain-store-of-head-only-when-single", SINGLE);
        frame(); env();
        take(v, order, 1);
        return;
    }
    GH.nt++;
    VF_ENSURES("give-own-tail", p == MYTAIL);
    VF_ENSURES("give-own-range-once", GH.have == 1 && GH.own && v == GH.t + GH.n);
    VF_ENSURES("give-in-order", (PRODUCER ? R->prod.tail : R->cons.tail) == GH.t && !GH.trelax);
    VF_ENSURES("give-release", VF_REL(order));
    if (PRODUCER) VF_ENSURES("items-written-before-giving", PRODDONE);
    else VF_ENSURES("consumer-leaves-slots-alone", R->ring[WS] == (void *)GH.jv);
    GH.have = 2; GH.own = 0; GH.T = v;
    if (!PRODUCER && INRANGE) { R->ring[WS] = (void *)G; }   /* reused by a producer from here on */
    GH.jv = (uint64_t)R->ring[WS];
}

static void setup(int producer, int single)
{
    PRODUCER = producer; SINGLE = single;
    uint64_t k = vf_u64();
#ifdef VF_PROOF
    VF_REQUIRES(k <= 31);
#else
    VF_REQUIRES(k == BK);
#endif
    uint64_t sz = (uint64_t)1 << k;
    MASK = sz - 1; CAP = producer ? MASK : 0;
#ifdef VF_REPLAY
    R = aligned_alloc(64, (sizeof *R + sz * 8 + 63) & ~63ul); memset((void *)R, 0xA5, sizeof *R + sz * 8);
#else
    static struct rte_ring r0; R = &r0;
    void **slots = malloc(sz * sizeof(void *));
    __CPROVER_assume(slots != 0);
    R->ring = slots; RINGP = slots;
#endif
    R->size = (uint32_t)sz; R->mask = (uint32_t)MASK;
    R->sp_enq = producer ? single : vf_bool(); R->sc_deq = producer ? vf_bool() : single;
    memset(&GH, 0, sizeof GH);
    GH.H = vf_u64(); GH.T = vf_u64(); GH.O = vf_u64();
    VF_REQUIRES(GH.H <= LIM && GH.O <= LIM && GH.T <= GH.H && GH.H <= GH.O + CAP && GH.O <= GH.T + (MASK - CAP));
    if (single) VF_REQUIRES(GH.T == GH.H);
    GH.seenH = vf_u64(); VF_REQUIRES(GH.seenH <= GH.H);
    GH.seenT = vf_u64(); VF_REQUIRES(GH.seenT <= GH.T);
    if (single) GH.seenT = GH.T;
    R->prod.tail = GH.seenT; R->cons.tail = GH.seenT;
    GH.seenO = 0; GH.minO = 0;
    WS = vf_u64(); VF_REQUIRES(WS < sz);
    E = vf_u64(); G = vf_u64(); OG = vf_u64(); VF_REQUIRES(E != G && OG != E);
    GH.jv = G; R->ring[WS] = (void *)G;
    N = (unsigned)vf_len(0xffffffff, BN);
    OBJ = vf_alloc((size_t)N * sizeof(void *));
#ifndef VF_PROOF
    for (unsigned i = 0; i < N; i++) OBJ[i] = (void *)vf_u64();
#endif
    WO = vf_u64();
    if (!producer && WO < N) OBJ[WO] = (void *)OG;
    RETRIES = 3;
}

static void after(int z, int fixed, int err, unsigned n)
{
    VF_ENSURES("ranges-given-exactly-once", GH.have == 0 ? GH.nt == 0 : GH.have == 2 && GH.nt == 1);
    if (fixed) {
        VF_ENSURES("bulk.all-or-nothing", GH.have ? z == (int)n && GH.n == n : z == err);
        VF_ENSURES("bulk.fails-only-without-room", GH.have || INSUFFICIENT(n));
    } else {
        VF_ENSURES("burst.count", z >= 0 && (GH.have ? (uint64_t)z == GH.n && GH.n <= n : z == 0));
        VF_ENSURES("burst.as-many-as-possible", GH.have ? (GH.n == n || INSUFFICIENT(n)) : (n == 0 || GH.seenO + CAP == GH.seenH));
    }
    VF_ENSURES("frame", R->ring[WS] == (void *)GH.jv && R->mask == MASK && R->size == MASK + 1);
    if (!PRODUCER && WO < N) {
        uint64_t got = (GH.have && WO < GH.n && ((WS - GH.t) & MASK) == WO) ? 1 : 0;
        if (got) VF_ENSURES("deq.items-in-order", OBJ[WO] == (void *)E);
        if (!GH.have || WO >= GH.n) VF_ENSURES("deq.frame-table", OBJ[WO] == (void *)OG);
    }
}

static void enq(int single)
{
    setup(1, single);
    int fixed = vf_bool(), z;
    if (single) z = fixed ? rte_ring_sp_enqueue_bulk(R, OBJ, N) : rte_ring_sp_enqueue_burst(R, OBJ, N);
    else        z = fixed ? rte_ring_mp_enqueue_bulk(R, OBJ, N) : rte_ring_mp_enqueue_burst(R, OBJ, N);
    after(z, fixed, -ENOBUFS, N);
}
static void deq(int single)
{
    setup(0, single);
    int fixed = vf_bool(), z;
    if (single) z = fixed ? rte_ring_sc_dequeue_bulk(R, OBJ, N) : rte_ring_sc_dequeue_burst(R, OBJ, N);
    else        z = fixed ? rte_ring_mc_dequeue_bulk(R, OBJ, N) : rte_ring_mc_dequeue_burst(R, OBJ, N);
    after(z, fixed, -ENOENT, N);
}
void harness_rte_mp_enq(void) { enq(0); VF_REACHED(); }
void harness_rte_sp_enq(void) { enq(1); VF_REACHED(); }
void harness_rte_mc_deq(void) { deq(0); VF_REACHED(); }
void harness_rte_sc_deq(void) { deq(1); VF_REACHED(); }

static void copy_setup(int producer)
{
    setup(producer, 0);
    GH.n = vf_u64(); VF_REQUIRES(GH.n <= MASK && GH.n <= N);
    GH.t = vf_u64(); VF_REQUIRES(GH.t <= LIM);
    if (!producer && INRANGE) { R->ring[WS] = (void *)E; GH.jv = E; }
}
void harness_rte_store(void)
{
    copy_setup(1);
    __store_ring(R, GH.t, OBJ, (unsigned)GH.n);
    VF_ENSURES("store.items-in-order", !INRANGE || R->ring[WS] == OBJ[(WS - GH.t) & MASK]);
    VF_ENSURES("store.other-slots-untouched", INRANGE || R->ring[WS] == (void *)GH.jv);
    VF_REACHED();
}
void harness_rte_load(void)
{
    copy_setup(0);
    __load_ring(R, GH.t, OBJ, (unsigned)GH.n);
    VF_ENSURES("load.items-in-order", WO >= GH.n || ((WS - GH.t) & MASK) != WO || OBJ[WO] == (void *)E);
    VF_ENSURES("load.rest-of-table-untouched", WO < GH.n || WO >= N || OBJ[WO] == (void *)OG);
    VF_ENSURES("load.slots-untouched", R->ring[WS] == (void *)GH.jv);
    VF_REACHED();
}
