/*
 * arena.c: any chain of up to 3 nodes with any fill level, any request.
 * The chain is only searched (first node with room); nodes hold disjoint
 * memory, so a block within [free,end) of one node is disjoint from all
 * blocks handed out before.
 */
//@ unit ar_alloc kind=full unwind=5 fn=arena_alloc,__avail
//@ unit ar_new kind=full unwind=5 fn=arena_new,arena_delete
//@ trust arena search: chains of up to 3 nodes (the loop keeps no state besides the node it looks at)
#include "vf.h"
static size_t MASKED; static int NM; static void *GOT; static int NF; static void *FR[6];
static void *my_malloc(size_t n)
{
    MASKED = n; NM++;
#ifndef VF_REPLAY
    if (n > (size_t)1 << 45) return GOT = 0;
    if (vf_bool()) return GOT = 0;
#endif
    return GOT = malloc(n);
}
static void my_free(void *p) { if (NF < 6) FR[NF] = p; NF++; }
static void *my_calloc(size_t n, size_t z) { NM++; if (vf_bool()) return GOT = 0; return GOT = calloc(n, z); }
#define malloc(n) my_malloc(n)
#define free(p) my_free(p)
#define calloc(n, z) my_calloc(n, z)
#include "src/arena.c"
#undef malloc
#undef free
#undef calloc
static arena A;
static arena_node N[3];
static int K;
static uint8_t *M[3]; static uint64_t Z[3], U[3];
static void mk(void)
{
    K = vf_int(); VF_REQUIRES(K >= 0 && K <= 3);
    A.chunk_size = vf_size(); VF_REQUIRES(A.chunk_size >= 1);
    A.head.slh_first = K ? &N[0] : 0;
    for (int i = 0; i < 3; i++) {
        Z[i] = vf_u64(); U[i] = vf_u64();
        VF_REQUIRES(Z[i] <= (uint64_t)1 << 44 && U[i] <= Z[i] && U[i] % 8 == 0);
#ifdef VF_REPLAY
        VF_REQUIRES(Z[i] < 0x1000000);
#endif
        M[i] = malloc(Z[i] + 1); VF_REQUIRES(M[i] != 0);
        N[i].total = Z[i]; N[i].free = M[i] + U[i]; N[i].end = M[i] + Z[i];
        N[i].link.sle_next = i + 1 < K ? &N[i + 1] : 0;
    }
    NM = NF = 0; GOT = 0;
}
void harness_ar_alloc(void)
{
    mk();
    size_t n = vf_size();
#ifdef VF_REPLAY
    VF_REQUIRES(A.chunk_size < 0x10000000);
#endif
    uint8_t *r = arena_alloc(&A, n);
    int who = -1;
    for (int i = 0; i < 3; i++) if (i < K && r == M[i] + U[i] && r && NM == 0) who = i;
    for (int i = 0; i < 3; i++) if (i < K) {
        VF_ENSURES("alloc.node-bounds-kept", N[i].end == M[i] + Z[i] && N[i].total == Z[i] && N[i].link.sle_next == (i + 1 < K ? &N[i + 1] : 0));
        if (i != who) VF_ENSURES("alloc.other-nodes-kept", N[i].free == M[i] + U[i]);
    }
    if (who >= 0) {
        VF_ENSURES("alloc.fits-in-node", n <= Z[who] - U[who] && N[who].free >= r + n && N[who].free <= N[who].end);
        VF_ENSURES("alloc.aligned", (N[who].free - M[who]) % 8 == 0);
        VF_ENSURES("alloc.chain-kept", A.head.slh_first == &N[0]);
    } else if (r) {
        arena_node *w = A.head.slh_first;
        VF_ENSURES("alloc.new-node-linked-first", NM == 1 && (void *)w == GOT && w->link.sle_next == (K ? &N[0] : 0));
        VF_ENSURES("alloc.new-node-in-memory", r >= (uint8_t *)(w + 1) && w->end <= (uint8_t *)GOT + MASKED);
        VF_ENSURES("alloc.new-block-fits", (uint64_t)(w->end - r) >= n && w->free >= r + n && w->free <= w->end && (uintptr_t)r % 8 == 0 && (w->free - r) % 8 == 0);
    } else {
        VF_ENSURES("alloc.fails-only-without-memory", NM ? GOT == 0 : (n >= (uint64_t)1 << 45 || A.chunk_size >= (uint64_t)1 << 45));
        VF_ENSURES("alloc.failure-leaves-arena", A.head.slh_first == (K ? &N[0] : 0));
    }
    VF_REACHED();
}
void harness_ar_new(void)
{
    arena_t a = 0; size_t c = vf_size();
    NM = NF = 0;
    int r = arena_new(&a, c);
    VF_ENSURES("new", r == 0 ? (a != 0 && (void *)a == GOT && ((arena *)a)->head.slh_first == 0 && ((arena *)a)->chunk_size >= 1) : (r == -ENOMEM && GOT == 0 && a == 0));
    VF_ENSURES("new.chunk-size", r != 0 || c == 0 || ((arena *)a)->chunk_size == c);
    VF_ENSURES("new.null", arena_new(0, c) == -EINVAL && arena_alloc(0, 5) == 0);
    mk();
    arena_delete(&A);
    VF_ENSURES("delete.everything-released-once", NF == K + 1 && FR[K] == &A);
    for (int i = 0; i < 3; i++) if (i < K) VF_ENSURES("delete.nodes", FR[i] == &N[i]);
    VF_REACHED();
}
