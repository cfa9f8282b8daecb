/*
 * mempool.c with the debug fill: every history of up to 4 (5) operations on
 * small pools: live blocks are distinct, disjoint, keep their contents.
 */
//@ unit mp_hist kind=bounded unwind=14 defs="__MAKE_OPTIMIZE__=1 VF_HIST_OPT=1" tdefs=OPS=5 tto=800 fn=mempool_alloc,mempool_free bound="4 (thorough 5) operations; block 24 bytes; pools of 2 blocks or chunks of 2"
//@ unit mp_debug kind=full unwind=14 fn=mempool_alloc,mempool_free,_valid_blk_p
#include "vf.h"
#if !VF_HIST_OPT
static int NSET; static void *SETP; static size_t SETN;
static void *rec_memset(void *p, int c, size_t n) { NSET++; SETP = p; SETN = n; return p; }
#define memset rec_memset
#endif
#include "src/mempool.c"
#ifndef OPS
#define OPS 4
#endif
struct blk { mru_node n; uint64_t tag; };
static struct chunkmem { memchunk h; struct blk b[2]; uint64_t pad; } CH[3];
static int nch;
static void *t_alloc(void *c, size_t n)
{
    VF_ENSURES("chunk-size", n <= sizeof CH[0]);
    VF_REQUIRES(nch < 3);
    return &CH[nch++];
}
static void t_free(void *c, void *p) { }
#if VF_HIST_OPT
void harness_mp_hist(void)
{
    static mempool P;
    memmgr tr = { t_alloc, t_free, 0 };
    unsigned max = vf_u32(); VF_REQUIRES(max == 0 || max == 2);
    nch = 0;
    int r = mempool_init(&P, &tr, sizeof(struct blk), max, 2);
    VF_ENSURES("init", r == 0 && P.block_size == sizeof(struct blk));
    struct blk *live[OPS]; int used[OPS] = { 0 }, nl = 0;
    for (int k = 0; k < OPS; k++) {
        int op = vf_int() % 2;
        if (op == 0) {
            struct blk *p = mempool_alloc(&P);
            VF_ENSURES("alloc.exactly-the-limit", (p != 0) == (max == 0 || nl < (int)max));
            live[k] = p;
            if (p) {
                int in = 0;
                for (int c = 0; c < 3; c++) for (int j = 0; j < 2; j++) if (c < nch && p == &CH[c].b[j]) in = 1;
                VF_ENSURES("alloc.a-block-of-the-pool", in);
                for (int j = 0; j < k; j++) if (used[j]) VF_ENSURES("alloc.not-in-use", live[j] != p);
                used[k] = 1; nl++;
                p->tag = 1000 + k; p->n.link.next = (void *)p; p->n.link.prev = (void *)p;
            }
        } else {
            int j = vf_int(); VF_REQUIRES(j >= 0 && j < k && used[j]);
            for (int i = 0; i < OPS; i++) if (i == j) { mempool_free(&P, live[i]); used[i] = 0; }
            nl--;
        }
        for (int j = 0; j < OPS; j++) if (j <= k && used[j])
            VF_ENSURES("live-contents-kept", live[j]->tag == 1000 + j && live[j]->n.link.next == (void *)live[j] && live[j]->n.link.prev == (void *)live[j]);
    }
    VF_REACHED();
}
#else
/* debug build: every valid block is recognised (also in older chunks) and the
 * fill patterns cover exactly the block handed out or returned */
void harness_mp_debug(void)
{
    static mempool P;
    memmgr tr = { t_alloc, t_free, 0 };
    nch = 0;
    NSET = 0;
    for (int i = 0; i < 2; i++) { CH[i].h.next = i ? (memchunk *)&CH[i - 1] : 0; CH[i].h.free_area = (uint8_t *)&CH[i].b[1 + i]; CH[i].h.end = (uint8_t *)&CH[i].b[2]; }
    int two = vf_bool();
    P.chunks = two ? &CH[1].h : &CH[0].h; P.block_size = sizeof(struct blk); P.min_units = 2; P.max_blocks = vf_bool() * 2;
    P.traits = tr; P.mru_head.first = P.mru_head.last = 0;
    nch = 1 + two;
    if (vf_bool()) {
        struct blk *b = two ? (vf_bool() ? &CH[1].b[0] : vf_bool() ? &CH[1].b[1] : &CH[0].b[0]) : &CH[0].b[0];
        mempool_free(&P, b);
        VF_ENSURES("free.fill-covers-the-block-only", NSET == 0 || (NSET == 1 && SETP == (void *)b && SETN <= sizeof *b));
        VF_ENSURES("free.linked", P.mru_head.first == &b->n && P.mru_head.last == &b->n && b->n.link.next == 0 && b->n.link.prev == 0);
        void *r = mempool_alloc(&P);
        VF_ENSURES("alloc.same-block", r == (void *)b && P.mru_head.first == 0);
    } else {
        void *r = mempool_alloc(&P);
        VF_ENSURES("alloc.fill-covers-the-block-only", NSET == 0 || (NSET == 1 && SETP == r && SETN <= sizeof(struct blk)));
        VF_ENSURES("alloc.block", two ? (P.max_blocks ? r == 0 : r == (void *)&CH[2].b[0]) || nch == 2 : r == (void *)&CH[0].b[1]);
    }
    VF_REACHED();
}
#endif
