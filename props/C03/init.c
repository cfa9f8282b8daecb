/*
 * MPMC construction, reset, size predicates (single threaded use of the
 * queue, as documented for these operations).
 */
//@ unit mpmc_new   kind=bounded unwind=18 bound="sizes 1..9" fn=MPMC_QUEUE_NEW,__mpmc_q_init
//@ unit mpmc_reset kind=loops unwind=18 punwind=2 fn=MPMC_QUEUE_RESET,__mpmc_q_reset
//@ unit mpmc_size  kind=full unwind=2 fn=MPMC_QUEUE_SIZE,MPMC_QUEUE_CAP,MPMC_QUEUE_FULL_P,MPMC_QUEUE_EMPTY_P,__mpmc_q_len
//@ annot inc/fast/mpmc_bounded_queue.h MPMC_QUEUE_RESET 0
//@  assigns _p, __CPROVER_object_whole(_qc->slot)
//@  inv __CPROVER_same_object(_p, _qc->slot) && __CPROVER_POINTER_OFFSET(_p) % sizeof(*_p) == 0 && __CPROVER_POINTER_OFFSET(_p) / sizeof(*_p) <= SZ && (__CPROVER_POINTER_OFFSET(_p) / sizeof(*_p) > J ==> Q->slot[J].turn == 0)
#include "vf.h"
static uint64_t SZ, J;
#include "fast/mpmc_bounded_queue.h"
MPMC_QUEUE_TYPE(tq, uint64_t);
static tq *Q;
#ifdef VF_PROOF
#define MAXN 65536
#else
#define MAXN 8
#endif

/* a queue of at least n slots, rounded up to a power of two, every slot free for round 0 */
static void new_one(uint64_t n)
{
    Q = MPMC_QUEUE_NEW(tq, n);
    SZ = Q->q.sz;
    VF_ENSURES("new.size", SZ >= n && (SZ & (SZ - 1)) == 0 && (SZ >> 1) < n && MPMC_QUEUE_CAP(Q) == SZ);
    VF_ENSURES("new.mask", Q->q.mask == SZ - 1);
    J = vf_u64(); VF_REQUIRES(J < SZ);
    VF_ENSURES("new.turns", Q->slot[J].turn == 0);
    VF_ENSURES("new.empty", Q->q.head == 0 && Q->q.tail == 0 && MPMC_QUEUE_SIZE(Q) == 0 && MPMC_QUEUE_EMPTY_P(Q));
}
void harness_mpmc_new(void)
{
    for (uint64_t n = 1; n <= 9; n++) new_one(n);     /* constant sizes */
    VF_REACHED();
}

void harness_mpmc_reset(void)
{
    uint64_t k = vf_u64(); VF_REQUIRES(k <= (MAXN == 8 ? 3 : 16));
    SZ = (uint64_t)1 << k;
    Q = vf_alloc(sizeof *Q);
    Q->slot = vf_alloc(SZ * sizeof *Q->slot);
    Q->q.sz = SZ; Q->q.mask = SZ - 1; Q->q.head = vf_u64(); Q->q.tail = vf_u64();
    J = vf_u64(); VF_REQUIRES(J < SZ);
    Q->slot[J].turn = vf_u64();
    MPMC_QUEUE_RESET(Q);
    VF_ENSURES("reset.turns", Q->slot[J].turn == 0);
    VF_ENSURES("reset.empty", Q->q.head == 0 && Q->q.tail == 0 && Q->q.sz == SZ && Q->q.mask == SZ - 1);
    VF_REACHED();
}

void harness_mpmc_size(void)
{
    Q = vf_alloc(sizeof *Q);
    uint64_t k = vf_u64(), n = vf_u64(), t = vf_u64();
    VF_REQUIRES(k <= 62); SZ = (uint64_t)1 << k;
    VF_REQUIRES(n <= SZ && t <= ((uint64_t)1 << 62));
    Q->q.sz = SZ; Q->q.mask = SZ - 1; Q->q.tail = t; Q->q.head = t + n;
    VF_ENSURES("size", MPMC_QUEUE_SIZE(Q) == n && MPMC_QUEUE_CAP(Q) == SZ);
    VF_ENSURES("full-empty", !!MPMC_QUEUE_FULL_P(Q) == (n == SZ) && !!MPMC_QUEUE_EMPTY_P(Q) == (n == 0));
    VF_REACHED();
}
