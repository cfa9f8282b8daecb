/*
 * mempool.c: a pool is a set of free blocks (list + the rest of the newest
 * chunk); alloc hands out exactly one of them, free puts it back.
 * Release configuration of the pool (no debug fill); the debug fill is
 * covered by the history unit.
 */
//@ unit mp_alloc kind=full unwind=5 defs=__MAKE_OPTIMIZE__=1 fn=mempool_alloc,alloc_from_chunk,new_chunk
//@ unit mp_free kind=full unwind=5 defs=__MAKE_OPTIMIZE__=1 fn=mempool_free
//@ unit mp_new kind=full unwind=5 solver=cadical defs=__MAKE_OPTIMIZE__=1 fn=mempool_new,__real_init,new_chunk
//@ unit mp_init kind=full unwind=5 defs=__MAKE_OPTIMIZE__=1 fn=mempool_init,mempool_new,__real_init,new_chunk,mempool_block_size,mempool_total_blocks
//@ unit mp_fini kind=full unwind=5 defs=__MAKE_OPTIMIZE__=1 fn=mempool_fini,mempool_delete
//@ unit mp_stacked kind=full unwind=5 defs=__MAKE_OPTIMIZE__=1 fn=mempool_make_memmgr,_stacked_alloc,_stacked_free
//@ trust free-list and chunk-list operations touch only an end, its neighbour and the head; lists of up to 3 nodes cover every case; block sizes up to 2^31
#include "vf.h"
#include "src/mempool.c"

static mempool P;
static memchunk C0, C1;
static struct { mru_node n; uint64_t rest; } B[4];      /* free blocks on the list */
static int NB;
static uint8_t *AREA; static uint64_t AREASZ;
static int nalloc; static size_t asked; static void *given;
static int nfree; static void *freed[4];
static int CTX, FIRST;

static void *t_alloc(void *c, size_t n)
{
    VF_ENSURES("allocator-context", c == &CTX);
    nalloc++; asked = n;
    if (n > (size_t)1 << 44 || vf_bool()) return given = 0;
    if (FIRST) { static mempool m; FIRST = 0; VF_ENSURES("new.room-for-the-pool", n >= sizeof m); return given = &m; }
    return given = malloc(n);
}
static void t_free(void *c, void *p)
{
    VF_ENSURES("allocator-context", c == &CTX);
    if (nfree < 4) freed[nfree] = p;
    nfree++;
}
/* any pool: NB blocks on the free list, the newest chunk used up to any point */
static void mk(int big, int nb)
{
    uint64_t bs = vf_u64(), units = vf_u64(), used = vf_u64(), rest = vf_u64();
    VF_REQUIRES(bs >= 16 && bs <= 0x80000000u && bs % 8 == 0 && units >= 1 && units <= 0xffffffffu);
    /* the rest of a chunk is a whole number of blocks, so none or at least one */
    VF_REQUIRES(used % 8 == 0 && rest % 8 == 0 && used <= (uint64_t)1 << 40 && rest <= (uint64_t)1 << 40 && (rest == 0 || rest >= bs));
#ifdef VF_REPLAY
    VF_REQUIRES(used + rest < 0x10000000);
#endif
    AREASZ = used + rest;
    if (big) { AREA = malloc(AREASZ); VF_REQUIRES(AREA != 0); } else { AREA = (uint8_t *)&C1; used = rest = 0; }
    P.block_size = bs; P.min_units = units;
    P.max_blocks = vf_bool() ? units : 0;
    P.chunks = &C0;
    C0.next = vf_bool() ? &C1 : 0; C1.next = 0;
    C0.free_area = AREA + used; C0.end = AREA + used + rest;
    P.traits.alloc = t_alloc; P.traits.free = t_free; P.traits.context = &CTX;
    NB = nb; if (NB < 0) { NB = vf_int(); VF_REQUIRES(NB >= 0 && NB <= 3); }
    P.mru_head.first = NB ? &B[0].n : 0;
    P.mru_head.last = NB ? &B[NB - 1].n : 0;
    for (int i = 0; i < 3; i++) {
        B[i].n.link.prev = i ? &B[i - 1].n : 0;
        B[i].n.link.next = i + 1 < NB ? &B[i + 1].n : 0;
        B[i].rest = i;
    }
    nalloc = nfree = 0;
}
static int on_list(mempool *p, void *b)
{
    int k = 0; mru_node *x = p->mru_head.first;
    for (int i = 0; i < 4; i++) { if (!x) break; if (x == b) k++; x = x->link.next; }
    return k;
}
static int len(mempool *p)
{
    int k = 0; mru_node *x = p->mru_head.first, *q = 0;
    for (int i = 0; i < 5; i++) {
        if (!x) { VF_ENSURES("list.tail", p->mru_head.last == q); return k; }
        VF_ENSURES("list.back-links", x->link.prev == q);
        q = x; x = x->link.next; k++;
    }
    VF_ENSURES("list.terminated", 0);
    return k;
}
void harness_mp_alloc(void)
{
    mk(1, -1);
    mempool p0 = P; memchunk c0 = C0;
    void *r = mempool_alloc(&P);
    VF_ENSURES("alloc.settings-kept", P.block_size == p0.block_size && P.max_blocks == p0.max_blocks && P.min_units == p0.min_units);
    if (NB) {
        int k = -1;
        for (int i = 0; i < 3; i++) if (i < NB && r == (void *)&B[i]) k = i;
        VF_ENSURES("alloc.reuses-a-free-block", k >= 0);
        VF_ENSURES("alloc.block-leaves-the-free-list", on_list(&P, r) == 0 && len(&P) == NB - 1);
        for (int i = 0; i < 3; i++) if (i < NB && i != k) VF_ENSURES("alloc.others-stay-free", on_list(&P, &B[i]) == 1);
        VF_ENSURES("alloc.chunk-untouched", C0.free_area == c0.free_area && C0.end == c0.end && nalloc == 0 && P.chunks == &C0);
    } else if (c0.free_area < c0.end) {
        VF_ENSURES("alloc.next-of-chunk", r == (void *)c0.free_area && C0.free_area == c0.free_area + P.block_size && C0.end == c0.end);
        VF_ENSURES("alloc.within-chunk", (uint8_t *)r + P.block_size <= AREA + AREASZ && nalloc == 0 && P.chunks == &C0);
    } else if (p0.max_blocks) {
        VF_ENSURES("alloc.limit-is-exact", r == 0 && nalloc == 0 && P.chunks == &C0);
    } else {
        VF_ENSURES("alloc.one-more-chunk", nalloc == 1);
        if (!given) VF_ENSURES("alloc.out-of-memory", r == 0 && P.chunks == &C0);
        else {
            memchunk *n = P.chunks;
            VF_ENSURES("alloc.new-chunk-linked", (void *)n == given && n->next == &C0);
            VF_ENSURES("alloc.new-chunk-holds-the-block", (uint8_t *)r >= (uint8_t *)(n + 1) && (uint8_t *)r + P.block_size <= (uint8_t *)given + asked);
            VF_ENSURES("alloc.new-chunk-rest", n->free_area == (uint8_t *)r + P.block_size && n->end <= (uint8_t *)given + asked
                       && (uint64_t)(n->end - (uint8_t *)r) == P.block_size * P.min_units);
            VF_ENSURES("alloc.aligned", (uintptr_t)r % 8 == 0);
        }
    }
    if (!NB) VF_ENSURES("alloc.list-stays-empty", P.mru_head.first == 0 && P.mru_head.last == 0);
    VF_REACHED();
}
void harness_mp_free(void)
{
    mk(0, -1);
    memchunk c0 = C0; mempool p0 = P;
    B[3].rest = 99;
    mempool_free(&P, &B[3]);
    VF_ENSURES("free.block-is-free-again", on_list(&P, &B[3]) == 1 && len(&P) == NB + 1);
    for (int i = 0; i < 3; i++) if (i < NB) VF_ENSURES("free.others-stay-free", on_list(&P, &B[i]) == 1 && B[i].rest == i);
    VF_ENSURES("free.chunks-untouched", P.chunks == &C0 && C0.free_area == c0.free_area && C0.end == c0.end && nalloc == 0 && nfree == 0
               && P.max_blocks == p0.max_blocks && P.block_size == p0.block_size);
    VF_REACHED();
}
static void init(int heap)
{
    unsigned bs = vf_u32(), max = vf_u32(), units = vf_u32();
    VF_REQUIRES(bs <= 0x80000000u);
#ifdef VF_REPLAY
    VF_REQUIRES((uint64_t)(bs < 16 ? 16 : bs) * (max ? max : units ? units : 4096) < 0x10000000);
#endif
    memmgr tr = { t_alloc, t_free, &CTX };
    nalloc = nfree = 0;
    static mempool Q;
    mempool *p = &Q; int r;
    FIRST = heap;
    if (heap) { p = 0; r = mempool_new(&p, &tr, bs, max, units); }
    else r = mempool_init(p, &tr, bs, max, units);
    VF_ENSURES("init.fails-only-without-memory", r == 0 || (r == -ENOMEM && given == 0));
    if (r == 0) {
        memchunk *c = p->chunks;
        VF_ENSURES("init.block-size", p->block_size >= bs && p->block_size >= 16 && p->block_size % 8 == 0 && p->block_size < (uint64_t)bs + 24 && mempool_block_size(p) == p->block_size);
        VF_ENSURES("init.limit", p->max_blocks == max && mempool_total_blocks(p) == max && p->min_units >= 1 && (max == 0 || p->min_units == max));
        VF_ENSURES("init.chunk-in-allocation", (void *)c == given && c->free_area >= (uint8_t *)(c + 1) && c->end <= (uint8_t *)given + asked && (uintptr_t)c->free_area % 8 == 0);
        VF_ENSURES("init.exactly-the-blocks", (uint64_t)(c->end - c->free_area) == p->block_size * p->min_units && c->next == 0);
        VF_ENSURES("init.nothing-free-yet", p->mru_head.first == 0 && p->mru_head.last == 0);
        VF_ENSURES("init.traits", p->traits.alloc == t_alloc && p->traits.free == t_free && p->traits.context == &CTX);
    }
}
void harness_mp_init(void) { init(0); VF_REACHED(); }
void harness_mp_new(void) { init(1); VF_REACHED(); }
void harness_mp_fini(void)
{
    mk(0, 0);
    int two = C0.next != 0;
    if (vf_bool()) {
        mempool_fini(&P);
        VF_ENSURES("fini.every-chunk-released-once", nfree == 1 + two && freed[0] == &C0 && (!two || freed[1] == &C1));
        VF_ENSURES("fini.pool-empty", P.chunks == 0 && P.mru_head.first == 0 && P.mru_head.last == 0);
    } else {
        mempool_delete(&P);
        VF_ENSURES("delete.everything-released-once", nfree == 2 + two && freed[0] == &C0 && (!two || freed[1] == &C1) && freed[1 + two] == &P);
    }
    VF_REACHED();
}
void harness_mp_stacked(void)
{
    mk(0, 2);
    memmgr m, *q = mempool_make_memmgr(&m, &P);
    VF_ENSURES("stacked", q == &m && m.context == &P);
    int nb = NB;
    void *r = memmgr_alloc(&m, 10);
    VF_ENSURES("stacked.alloc", (r == &B[0] || r == &B[1] || r == &B[2]) && len(&P) == nb - 1);
    memmgr_free(&m, r);
    VF_ENSURES("stacked.free", len(&P) == nb && on_list(&P, r) == 1);
    VF_REACHED();
}
