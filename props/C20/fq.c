/*
 * queue.h: the circular queue as a sequence.  CNT items at ring positions
 * RD, RD+1, ...; K is an arbitrary item already queued, so each postcondition
 * speaks about every item.
 */
//@ unit fq_ops kind=loops dfcc=no psolver=cadical unwind=9 fn=FQ_ENQ,FQ_DEQ,FQ_FULL_P,FQ_EMPTY_P,FQ_SIZE,FQ_RESET,__next_wr,__next_rd,__q_full_p,__q_empty_p,__q_size
//@ unit fq_init kind=loops dfcc=no unwind=20 fn=FQ_INIT,FQ_TYPEDEF,FQ_DYN_TYPEDEF,FQ_DYN_INIT,FQ_DYN_FINI
//@ trust queue sizes 2..2^32-1 (a queue of one slot holds nothing); allocation succeeds
#include "vf.h"
#include "fast/queue.h"
FQ_DYN_TYPEDEF(dynq, uint64_t)
FQ_TYPEDEF(fixq, uint16_t, 5);
static dynq Q;
static uint64_t at(uint64_t i, uint64_t sz) { return i >= sz ? i - sz : i; }
static void ops(uint64_t sz)
{
    uint64_t rd = vf_u32(), cnt = vf_u32(), k = vf_u32(), wr;
    VF_REQUIRES(sz >= 2 && rd < sz && cnt < sz && (k < cnt || (cnt == 0 && k == 0)));
    uint64_t *e = VF_NEWA(uint64_t, sz); vf_fillw(e, sz);
    wr = at(rd + cnt, sz);
    Q.elem = e; Q.q.rd = (uint32_t)rd; Q.q.wr = (uint32_t)wr; Q.q.sz = (uint32_t)sz;
    uint64_t pk = at(rd + k, sz), v = e[pk], first = e[rd], x = vf_u64(), y = x, other = vf_u32();
    VF_REQUIRES(other < sz); uint64_t ov = e[other];
    VF_ENSURES("fq.size", FQ_SIZE(&Q) == cnt);
    VF_ENSURES("fq.empty", !!FQ_EMPTY_P(&Q) == (cnt == 0));
    VF_ENSURES("fq.full", !!FQ_FULL_P(&Q) == (cnt == sz - 1));
    int op = vf_int(); uint64_t n;
    if (op == 0) {
        int r = FQ_ENQ(&Q, x);
        VF_ENSURES("fq.enq-fails-exactly-when-full", !r == (cnt == sz - 1));
        n = cnt + !!r;
        if (r) VF_ENSURES("fq.enq-appends", Q.elem[wr] == x);
        VF_ENSURES("fq.enq-touches-one-slot", (r && other == wr) || Q.elem[other] == ov);
        VF_ENSURES("fq.enq-keeps-head", Q.q.rd == rd);
    } else if (op == 1) {
        int r = FQ_DEQ(&Q, y);
        VF_ENSURES("fq.deq-fails-exactly-when-empty", !r == (cnt == 0));
        n = cnt - !!r;
        VF_ENSURES("fq.deq-first", y == (r ? first : x));
        VF_ENSURES("fq.deq-touches-no-slot", Q.elem[other] == ov);
        VF_ENSURES("fq.deq-advances", Q.q.rd == (r ? at(rd + 1, sz) : rd));
    } else { FQ_RESET(&Q); n = 0; }
    VF_ENSURES("fq.count", FQ_SIZE(&Q) == n && !!FQ_EMPTY_P(&Q) == (n == 0) && !!FQ_FULL_P(&Q) == (n == sz - 1));
    VF_ENSURES("fq.index-in-range", Q.q.rd < sz && Q.q.wr < sz && Q.q.sz == sz && Q.q.wr == at(Q.q.rd + n, sz) && Q.elem == e);
    /* the K-th item is still the K-th (one earlier after a dequeue) */
    if (op == 0 && cnt) VF_ENSURES("fq.order-kept", Q.elem[at(Q.q.rd + k, sz)] == v);
    if (op == 1 && k >= 1) VF_ENSURES("fq.order-kept-after-deq", Q.elem[at(Q.q.rd + k - 1, sz)] == v);
    free(e);
}
void harness_fq_ops(void)
{
#ifdef VF_PROOF
    ops(vf_len(0xffffffffu, 0));
#else
    size_t n = vf_len(0, 4); for (size_t i = 2; i <= 4; i++) if (n == i) ops(i);
#endif
    VF_REACHED();
}
void harness_fq_init(void)
{
    fixq f; uint16_t a = vf_u16(), b = 0;
    f.q.rd = vf_u32(); f.q.wr = vf_u32(); f.q.sz = vf_u32();
    FQ_INIT(&f, 5);
    VF_ENSURES("fq.init-empty", FQ_EMPTY_P(&f) && FQ_SIZE(&f) == 0 && f.q.rd == 0 && f.q.wr == 0 && f.q.sz == 5 && sizeof f.elem == 5 * sizeof(uint16_t));
    VF_ENSURES("fq.init-usable", FQ_ENQ(&f, a) && FQ_DEQ(&f, b) && a == b);
    FQ_FINI(&f);
#ifdef VF_PROOF
    size_t n = vf_len(0xffffffffu, 0);
#else
    size_t n = vf_len(0, 6);
#endif
    VF_REQUIRES(n >= 2);
    Q.q.rd = vf_u32(); Q.q.wr = vf_u32(); Q.q.sz = vf_u32();
    FQ_DYN_INIT(&Q, n);
    VF_ENSURES("fq.dyn-init", FQ_EMPTY_P(&Q) && Q.q.rd == 0 && Q.q.wr == 0 && Q.q.sz == n && Q.elem != 0);
#ifdef VF_REPLAY
    for (size_t i = 0; i < n; i++) Q.elem[i] = i;
#else
    VF_ENSURES("fq.dyn-room", __CPROVER_w_ok(Q.elem, n * sizeof(uint64_t)));
#endif
    FQ_DYN_FINI(&Q);
    VF_ENSURES("fq.dyn-fini", Q.elem == 0 && Q.q.sz == 0 && FQ_EMPTY_P(&Q) && FQ_SIZE(&Q) == 0);
    VF_REACHED();
}
