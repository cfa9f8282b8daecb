/*
 * hashtab.c, hashtab_iter.c: the chained table is a map of keys to data; q
 * is an arbitrary key: what lookup(q) says after an operation on k is what
 * the map says.  Every callback sees every node once, and every lock taken
 * is released.
 */
//@ unit ht_insert kind=bounded bsolver=cadical unwind=10 unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_insert,hash_table_probe,hash_table_replace,insert_internal,hash_table_lookup bound="tables of 1 bucket with up to 3 nodes, any hash function, comparison by an arbitrary key"
//@ unit ht_insert2 kind=bounded bsolver=cadical unwind=10 defs="TSZ=2" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_insert,hash_table_probe,hash_table_replace,insert_internal,hash_table_lookup bound="tables of 2 buckets with up to 2 and 1 nodes, any hash function, comparison by an arbitrary key"
//@ unit ht_remove kind=bounded bsolver=cadical unwind=10 unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_remove,remove_node,hash_table_lookup bound="tables of 1 bucket with up to 3 nodes, any hash function"
//@ unit ht_remove2 kind=bounded bsolver=cadical unwind=10 defs="TSZ=2" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_remove,remove_node,hash_table_lookup bound="tables of 2 buckets with up to 2 and 1 nodes, any hash function"
//@ unit ht_remove_if kind=bounded bsolver=cadical unwind=10 defs="PRED=1" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_remove_if,remove_node,hash_table_apply,hash_table_stats bound="tables of 1 bucket with up to 3 nodes, any hash function and predicate"
//@ unit ht_remove_if2 kind=bounded bsolver=cadical unwind=10 defs="TSZ=2 PRED=1" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_remove_if,remove_node,hash_table_apply,hash_table_stats bound="tables of 2 buckets with up to 2 and 1 nodes, any hash function and predicate"
//@ unit ht_grow kind=bounded bsolver=cadical unwind=10 unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=resize,hash_table_lookup bound="tables of 1 bucket with up to 3 nodes, split into 2"
//@ unit ht_grow2 kind=bounded bsolver=cadical unwind=10 defs="TSZ=2" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=resize,hash_table_lookup bound="tables of 2 buckets with up to 2 and 1 nodes, split into 4"
//@ unit ht_new kind=bounded bsolver=cadical unwind=10 fn=hash_table_new bound="up to 8 buckets; larger sizes up to the refused allocation"
//@ unit ht_delete kind=bounded bsolver=cadical unwind=10 unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_delete bound="tables of 1 bucket with up to 3 nodes"
//@ unit ht_delete2 kind=bounded bsolver=cadical unwind=10 defs="TSZ=2" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_delete bound="tables of 2 buckets with up to 2 and 1 nodes"
//@ unit ht_iter kind=bounded bsolver=cadical unwind=10 defs="ITER=1" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_iter_new,hash_table_iter_first,hash_table_iter_next,hash_table_iter_item,hash_table_iter_delete,find_next_node bound="tables of 1 bucket with up to 3 nodes, unsorted and sorted"
//@ unit ht_iter2 kind=bounded bsolver=cadical unwind=10 defs="TSZ=2 ITER=1" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_iter_new,hash_table_iter_first,hash_table_iter_next,hash_table_iter_item,hash_table_iter_delete,find_next_node bound="tables of 2 buckets with up to 2 and 1 nodes, unsorted and sorted"
//@ unit ht_sortcmp kind=full defs="ITER=1" unwind=7 fn=qsort_cmp
//@ unit ht_biter kind=bounded bsolver=cadical unwind=10 defs="ITER=2" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_bucket_iter_new,bucket_iter_init,bucket_iter_begin,bucket_iter_next,bucket_iter_item bound="tables of 1 bucket with up to 3 nodes"
//@ unit ht_biter2 kind=bounded bsolver=cadical unwind=10 defs="TSZ=2 ITER=2" unwindset=hash_table_apply.2:5,hash_table_apply.4:4,wf.0:5,wf.1:5,hash_table_remove_if.2:5,hash_table_remove_if.4:4,hash_table_remove.1:5,find_next_node.0:4,hash_table_delete.1:5,hash_table_delete.3:4,hash_table_new.1:10,resize.1:5,resize.4:4,resize.6:4,insert_internal.1:5,idle.0:7,hash_table_lookup.1:5,sorted_iter_init.1:5,sorted_iter_init.3:4,vf_set0.0:9,vf_sort.0:5,vf_sort.1:5,vf_sort.2:5 fn=hash_table_bucket_iter_new,bucket_iter_init,bucket_iter_begin,bucket_iter_next,bucket_iter_item bound="tables of 2 buckets with up to 2 and 1 nodes"
//@ trust the user's hash and cmp callbacks are functions of the key (equal keys hash alike); qsort sorts (stated by a comparator-driven selection sort)
//@ trust one thread at a time; the lock callbacks only count, a race between picking a bucket and locking it is not examined
//@ subst src/hashtable/hashtab.c resize(hash_table * tab) => resize_real(hash_table * tab)
#include "vf.h"
#ifndef TSZ
#define TSZ 1
#endif
#define C0MAX (TSZ == 1 ? 3 : 2)
#include <string.h>
#include <errno.h>
#include <assert.h>
#include <stdio.h>
#include <stdlib.h>
#include "src/hashtable/hashtab_imp.h"
typedef struct { uint8_t key; uint8_t pad; } item;
static item I0, I1, I2, I3, IK, IQ;
static hash_node N0, N1, N2, N3, NN; static hash_bucket B[2], BB[8]; static hash_table T, TT; static hash_table_iter IT; static indir_node IND[4];
static int NFREE[5], NTF, NBF, NALLOC, NDT[5], KILLQ, NFI, NFX, NDX;
static int NREQ, FAILAT;
static int LK[16], NLK, BADLK;
static uint32_t RND; static int qsort_cmp(const void *a, const void *b);
uint32_t __CPROVER_uninterpreted_h(uint8_t k);
static uint32_t vf_hash(const void *p) {
#ifndef VF_REPLAY
    return __CPROVER_uninterpreted_h(((const item *)p)->key);
#else
    return ((const item *)p)->key * 2654435761u;
#endif
}
static int vf_cmp(const void *a, const void *b) { return (int)((const item *)a)->key - (int)((const item *)b)->key; }
static int iidx(const void *p) { return p == (void *)&I0 ? 0 : p == (void *)&I1 ? 1 : p == (void *)&I2 ? 2 : p == (void *)&I3 ? 3 : p == (void *)&IK ? 4 : -1; }
static void vf_dtor(void *p) { int i = iidx(p); VF_ENSURES("dtor.on-an-item", i >= 0); NDT[i >= 0 ? i : 0]++; }
static void vf_lock(void *p) { int *l = p; if (*l) BADLK = 1; *l = 1; }
static void vf_unlock(void *p) { int *l = p; if (!*l) BADLK = 1; *l = 0; }
static void vf_lkdel(void *p) { NDX++; }
static void vf_lkcreate(struct lockmgr *m) { m->lock = vf_lock; m->unlock = vf_unlock; m->dtor = vf_lkdel; if (NLK < 15) NLK++; m->opaq = &LK[NLK]; }
static int idle(void) { int s = 0; for (int i = 0; i < 6; i++) s += LK[i]; return !s && !BADLK; }
static int WANTNEW;
static void *h_alloc(void *c, size_t n)
{
    if (NREQ++ == FAILAT) return 0;
    NALLOC++;
#ifdef ITER
    if (NREQ == 1) { VF_ENSURES("alloc.iterator", n == sizeof(hash_table_iter)); return &IT; }
    VF_ENSURES("alloc.room-for-every-node", n == T.stats.nodes * sizeof(indir_node)); return IND;
#endif
    if (n == sizeof(hash_node)) return &NN;
    if (WANTNEW && n == sizeof(hash_table)) return &TT;
    if (n % sizeof(hash_bucket) == 0 && n <= sizeof BB && n / sizeof(hash_bucket) >= 1) return BB;
    VF_REQUIRES(0);
    return 0;
}
static void vf_free(void *c, void *p)
{
    if (p == (void *)&N0) NFREE[0]++; else if (p == (void *)&N1) NFREE[1]++; else if (p == (void *)&N2) NFREE[2]++; else if (p == (void *)&N3) NFREE[3]++; else if (p == (void *)&NN) NFREE[4]++;
    else if (p == (void *)&T || p == (void *)&TT) NTF++;
    else if (p == (void *)B || p == (void *)BB) NBF++;
    else if (p == (void *)&IT) NFI++;
    else if (p == (void *)IND) NFX++;
    else VF_ENSURES("free.an-own-object", p == 0);
}
#ifndef VF_REPLAY
static void *vf_set0(void *p, int c, size_t n)
{
    if (p == (void *)&TT) TT = (hash_table){ 0 };
    else if (p == (void *)&IT) IT = (hash_table_iter){ 0 };
    else for (int i = 0; i < 8; i++) if (i * sizeof(hash_bucket) < n) ((hash_bucket *)p)[i] = (hash_bucket){ 0 };
    return p;
}
static void vf_sort(void *b, size_t n, size_t w, int (*f)(const void *, const void *))
{
    indir_node *a = b;
    for (size_t i = 0; i < 4; i++) VF_ENSURES("sort.comparator", i >= n || a[i].cmp == vf_cmp);
    for (size_t i = 0; i < 4; i++) for (size_t j = i + 1; j < 4; j++) if (i < n && j < n && ((item *)a[i].node->data)->key > ((item *)a[j].node->data)->key) { indir_node t = a[i]; a[i] = a[j]; a[j] = t; }
}
#define memset vf_set0
#define qsort vf_sort
uint32_t arc4random(void) { return vf_u32(); }
#endif
#ifdef VF_REPLAY
#define resize_real resize
#else
static int resize(hash_table *tab) { return vf_u8() & 1 ? 0 : -ENOMEM; } /* resize keeps the map or fails without a change (established by ht_grow) */
#endif
#include "src/hashtable/hashtab.c"
#ifdef ITER
#include "src/hashtable/hashtab_iter.c"
#endif
#undef memset
#define HASH(p) (RND ^ vf_hash(p))
static void node(hash_node *x, item *i, hash_node *next) { x->data = i; x->hash = HASH(i); x->link.sle_next = next; }
static unsigned C0N, C1N;
static hash_table_stat S0; static int SEEN[5]; static unsigned N;
static void table(void)
{
    I0.key = vf_u8(); I1.key = vf_u8(); I2.key = vf_u8(); I3.key = vf_u8(); IK.key = vf_u8(); IQ.key = vf_u8(); RND = vf_u32();
    T.buckets = B; T.size = TSZ; T.random = RND; T.hash = vf_hash; T.cmp = vf_cmp; T.dtor = vf_u8() & 1 ? vf_dtor : 0; KILLQ = T.dtor != 0;
    T.fillmax = vf_u8(); VF_REQUIRES(T.fillmax > 0 && T.fillmax < 100);
    T.mem.alloc = h_alloc; T.mem.free = vf_free; T.mem.context = 0; T.lock.create = 0; T.lock.lock = vf_lock; T.lock.unlock = vf_unlock; T.lock.dtor = vf_lkdel; T.lock.opaq = &LK[0];
    C0N = vf_u8(); C1N = vf_u8(); VF_REQUIRES(C0N <= C0MAX && C1N < TSZ);
    VF_REQUIRES(I0.key != I1.key && I0.key != I2.key && I0.key != I3.key && I1.key != I2.key && I1.key != I3.key && I2.key != I3.key);
    node(&N0, &I0, C0N > 1 ? &N1 : 0); node(&N1, &I1, C0N > 2 ? &N2 : 0); node(&N2, &I2, 0); node(&N3, &I3, 0);
    VF_REQUIRES((N0.hash & (TSZ - 1)) == 0 && (N1.hash & (TSZ - 1)) == 0 && (N2.hash & (TSZ - 1)) == 0 && (N3.hash & (TSZ - 1)) == TSZ - 1);
    B[0].head.slh_first = C0N ? &N0 : 0; B[0].count = C0N;
    if (TSZ == 2) { B[1].head.slh_first = C1N ? &N3 : 0; B[1].count = C1N; }
    B[0].lock = B[1].lock = T.lock; B[0].lock.opaq = &LK[1]; B[1].lock.opaq = &LK[2]; NLK = TSZ;
    N = C0N + C1N;
    T.stats.nodes = N; T.stats.fill = (C0N > 0) + (C1N > 0); T.stats.maxchainlen = 3;
    T.stats.inserts = T.stats.lookups = T.stats.replaces = T.stats.deletes = T.stats.splits = T.stats.failed_lookups = 0;
    S0 = T.stats;
}
/* the specification: the datum of key k in the table as it was built, 0 if absent */
static item *map(uint8_t k, unsigned c0, unsigned c1) { return c0 > 0 && I0.key == k ? &I0 : c0 > 1 && I1.key == k ? &I1 : c0 > 2 && I2.key == k ? &I2 : c1 > 0 && I3.key == k ? &I3 : 0; }
static void wf(void)
{
    unsigned n = 0, f = 0;
    VF_ENSURES("table.size", T.size == TSZ || T.size == 2 * TSZ);
    for (size_t i = 0; i < 4; i++) if (i < T.size) {
        hash_bucket *b = &T.buckets[i]; unsigned c = 0; hash_node *p;
        for (p = b->head.slh_first; p; p = p->link.sle_next) { c++; VF_ENSURES("node.hash", p->hash == HASH(p->data)); VF_ENSURES("node.in-its-bucket", (p->hash & (T.size - 1)) == i); }
        VF_ENSURES("bucket.count", b->count == c); n += c; f += c > 0;
        VF_ENSURES("stats.maxchain", c <= T.stats.maxchainlen);
    }
    VF_ENSURES("stats.nodes", T.stats.nodes == n);
    VF_ENSURES("stats.fill", T.stats.fill == f);
    VF_ENSURES("locks.released", idle());
}
static item *get(item *k, int *r) { void *v = &T; *r = hash_table_lookup(&T, k, &v); return v; }
static void body_insert(void)
{
    int op = vf_u8() % 3, r, lr; item *x;
    table();
    unsigned c0 = C0N, c1 = C1N;
    item *old = map(IK.key, c0, c1), *oq = map(IQ.key, c0, c1); void *v;
    NALLOC = 0;
    if (op == 0) { r = hash_table_insert(&T, &IK); VF_ENSURES("insert.result", old ? r == -EEXIST : r == 0 || r == -ENOMEM); }
    else if (op == 1) { r = hash_table_replace(&T, &IK); VF_ENSURES("replace.result", old ? r == 0 : r == 0 || r == -ENOMEM); }
    else { v = hash_table_probe(&T, &IK); VF_ENSURES("probe.result", old ? v == old : v == &IK || v == 0); r = v ? 0 : -ENOMEM; }
    int added = !old && r == 0;
    VF_ENSURES("insert.out-of-memory", old || (r == -ENOMEM) == (NALLOC == 0));
    VF_ENSURES("insert.count", T.stats.nodes == N + added && T.stats.inserts == added);
    for (int i = 0; i < 4; i++) VF_ENSURES("replace.destroys-the-old", NDT[i] == (KILLQ && op == 1 && old && iidx(old) == i));
    VF_ENSURES("insert.frees-no-node", NDT[4] == 0 && NFREE[0] + NFREE[1] + NFREE[2] + NFREE[3] + NFREE[4] == 0);
    wf();
    x = get(&IQ, &lr);
    item *want = IQ.key != IK.key ? oq : old ? (op == 1 ? &IK : old) : added ? &IK : 0;
    VF_ENSURES("lookup.datum", x == want);
    VF_ENSURES("lookup.result", lr == (want != 0));
    VF_ENSURES("lookup.stats", T.stats.lookups == (want != 0) && T.stats.failed_lookups == (want == 0));
    VF_ENSURES("lookup.locks", idle());
}
static void body_remove(void)
{
    int r, lr; void *v = 0; int want_v = vf_u8() & 1;
    table();
    unsigned c0 = C0N, c1 = C1N;
    item *old = map(IK.key, c0, c1), *oq = map(IQ.key, c0, c1);
    r = hash_table_remove(&T, &IK, want_v ? &v : 0);
    VF_ENSURES("remove.result", r == (old ? 0 : -ENOENT));
    VF_ENSURES("remove.datum", !want_v || v == (void *)old);
    for (int i = 0; i < 4; i++) { VF_ENSURES("remove.frees-the-node", NFREE[i] == (old && iidx(old) == i)); VF_ENSURES("remove.destroys-the-datum", NDT[i] == (KILLQ && old && iidx(old) == i)); }
    VF_ENSURES("remove.count", T.stats.nodes == N - (old != 0) && T.stats.deletes == (old != 0));
    wf();
    item *x = get(&IQ, &lr), *want = IQ.key == IK.key ? 0 : oq;
    VF_ENSURES("lookup.datum", x == want);
    VF_ENSURES("lookup.result", lr == (want != 0));
    VF_ENSURES("remove.locks", idle());
}
#ifdef PRED
static uint8_t KILL; static void *COOK;
static int vf_pred(void *c, const void *p) { int i = iidx(p); COOK = c; VF_ENSURES("callback.gets-an-item", i >= 0 && i < 4); SEEN[i >= 0 ? i : 0]++; return KILL >> (i >= 0 ? i : 0) & 1; }
static void vf_app(void *c, const void *p) { vf_pred(c, p); }
static void body_remove_if(void)
{
    int r = 0, lr, what = vf_u8() % 3; hash_table_stat st;
    table(); KILL = vf_u8() & 15;
    unsigned c0 = C0N, c1 = C1N; int present[4] = { C0N > 0, C0N > 1, C0N > 2, C1N > 0 }, n = 0;
    item *oq = map(IQ.key, c0, c1);
    if (what == 0) r = hash_table_remove_if(&T, vf_pred, &T);
    else if (what == 1) { hash_table_apply(&T, vf_app, &T); KILL = 0; }
    else {
        VF_ENSURES("stats.result", hash_table_stats(&T, &st) == &st);
        VF_ENSURES("stats.copied", st.size == TSZ && st.nodes == N && st.fill == S0.fill && st.maxchainlen == S0.maxchainlen);
        KILL = 0;
    }
    for (int i = 0; i < 4; i++) {
        int gone = present[i] && (KILL >> i & 1); n += gone;
        VF_ENSURES("visit.every-item-once", what == 2 || SEEN[i] == present[i]);
        VF_ENSURES("remove_if.frees-the-node", NFREE[i] == gone);
        VF_ENSURES("remove_if.destroys-the-datum", NDT[i] == (gone && KILLQ));
    }
    VF_ENSURES("visit.cookie", what == 2 || N == 0 || COOK == &T);
    VF_ENSURES("remove_if.result", r == n);
    wf();
    item *x = get(&IQ, &lr);
    VF_ENSURES("lookup.datum", x == (oq && (KILL >> iidx(oq) & 1) ? 0 : oq));
}
#endif
static void body_grow(void)
{
    int r, lr;
    table(); T.lock.create = vf_u8() & 1 ? vf_lkcreate : 0;
    unsigned c0 = C0N, c1 = C1N; item *oq = map(IQ.key, c0, c1);
    NALLOC = 0; LK[0] = 1; r = resize_real(&T);
    VF_ENSURES("grow.keeps-the-table-locked", LK[0] == 1); LK[0] = 0;
    VF_ENSURES("grow.result", r == (NALLOC ? 0 : -ENOMEM));
    VF_ENSURES("grow.size", T.size == (r ? TSZ : 2 * TSZ) && T.buckets == (r ? B : BB));
    VF_ENSURES("grow.frees-the-old-buckets", NBF == (r == 0));
    VF_ENSURES("grow.keeps-the-nodes", T.stats.nodes == N && NFREE[0] + NFREE[1] + NFREE[2] + NFREE[3] == 0);
    VF_ENSURES("grow.locks", r || (T.buckets[0].lock.opaq == &LK[1] && (TSZ == 1 || T.buckets[1].lock.opaq == &LK[2])));
    wf();
    item *x = get(&IQ, &lr);
    VF_ENSURES("lookup.datum", x == oq);
}
static void body_new(void)
{
    hash_table_policy p; hash_table_t t = &T; int r;
    p.mem.alloc = h_alloc; p.mem.free = vf_free; p.mem.context = 0; p.hash = vf_u8() & 1 ? vf_hash : 0; p.cmp = vf_u8() & 1 ? vf_cmp : 0; p.dtor = vf_dtor;
    p.fillmax = vf_u64(); p.logsize = vf_u64(); p.lock.create = vf_u8() & 1 ? vf_lkcreate : 0; p.lock.lock = p.lock.unlock = p.lock.dtor = 0; p.lock.opaq = 0;
    WANTNEW = 1; r = hash_table_new(&t, &p);
    size_t lg = p.logsize == 0 || p.logsize >= 64 ? 10 : p.logsize;
    if (!p.hash || !p.cmp) VF_ENSURES("new.needs-callbacks", r == -EINVAL && NALLOC == 0);
    else if (r) { VF_ENSURES("new.out-of-memory", r == -ENOMEM && NTF == NALLOC && t == &T); }
    else {
        VF_ENSURES("new.size", t == &TT && lg <= 3 && TT.size == (size_t)1 << lg && TT.buckets == BB);
        VF_ENSURES("new.fillmax", TT.fillmax == (p.fillmax == 0 || p.fillmax >= 100 ? 80 : p.fillmax));
        VF_ENSURES("new.callbacks", TT.hash == vf_hash && TT.cmp == vf_cmp && TT.dtor == vf_dtor && TT.mem.alloc == h_alloc);
        VF_ENSURES("new.no-nodes", TT.stats.nodes == 0 && TT.stats.fill == 0);
        for (size_t i = 0; i < 8; i++) if (i < TT.size) {
            VF_ENSURES("new.empty-buckets", BB[i].head.slh_first == 0 && BB[i].count == 0);
            VF_ENSURES("new.bucket-locks", p.lock.create ? BB[i].lock.lock == vf_lock && BB[i].lock.unlock == vf_unlock && BB[i].lock.opaq != TT.lock.opaq : BB[i].lock.lock == 0 && BB[i].lock.unlock == 0);
        }
    }
}
static void body_delete(void)
{
    table();
    int present[4] = { C0N > 0, C0N > 1, C0N > 2, C1N > 0 };
    hash_table_delete(&T);
    for (int i = 0; i < 4; i++) { VF_ENSURES("delete.frees-every-node", NFREE[i] == present[i]); VF_ENSURES("delete.destroys-every-datum", NDT[i] == (present[i] && KILLQ)); }
    VF_ENSURES("delete.frees-the-table", NTF == 1 && NBF == 1);
    VF_ENSURES("delete.locks", idle() && NDX == TSZ + 1);
}
#ifdef ITER
static int SORT;
static void body_iter(void)
{
    hash_table_iter_t it = 0; int r, n = 0, sorted = SORT, e; item *x, *last = 0;
    table(); NALLOC = 0;
    int present[4] = { C0N > 0, C0N > 1, C0N > 2, C1N > 0 };
    r = hash_table_iter_new(&it, &T, sorted);
    VF_ENSURES("iter.new", r == (NALLOC == 1 + (sorted && N) ? 0 : -ENOMEM));
    VF_ENSURES("iter.new-locks", idle());
    if (r) VF_ENSURES("iter.new-failed", NFI == NALLOC && it == 0);
    else {
        e = hash_table_iter_first(it);
        VF_ENSURES("iter.first", (e == 0) == (N > 0) && (e == 0 || e == EOF));
        for (int k = 0; k < 5 && e == 0; k++) {
            x = hash_table_iter_item(it);
            int i = iidx(x); VF_ENSURES("iter.item", i >= 0 && i < 4 && present[i >= 0 ? i : 0]); SEEN[i >= 0 ? i : 0]++; n++;
            VF_ENSURES("iter.sorted", !sorted || !last || last->key < x->key); last = x;
            e = hash_table_iter_next(it);
        }
        VF_ENSURES("iter.end", e == EOF && hash_table_iter_item(it) == 0 && hash_table_iter_next(it) == EOF && hash_table_iter_item(it) == 0);
        for (int i = 0; i < 4; i++) VF_ENSURES("iter.every-item-once", SEEN[i] == present[i]);
        hash_table_iter_delete(it);
        VF_ENSURES("iter.delete", NFI == 1 && NFX == (sorted && N));
        VF_ENSURES("iter.locks", idle());
    }
}
static void body_biter(void)
{
    hash_table_iter_t it = 0; int r, e; item *x;
    table(); NALLOC = 0;
    unsigned c0 = C0N, c1 = C1N; item *old = map(IK.key, c0, c1); int which = HASH(&IK) & (TSZ - 1);
    int present[4] = { c0 > 0 && !which, c0 > 1 && !which, c0 > 2 && !which, c1 > 0 && which }, n = present[0] + present[1] + present[2] + present[3];
    r = hash_table_bucket_iter_new(&it, &T, &IK);
    VF_ENSURES("biter.new", r == (NALLOC == 1 ? 0 : -ENOMEM));
    VF_ENSURES("biter.new-locks", idle());
    if (!r) {
        e = hash_table_iter_first(it);
        VF_ENSURES("biter.first", (e == 0) == (n > 0));
        for (int k = 0; k < 4 && e == 0; k++) {
            x = hash_table_iter_item(it);
            int i = iidx(x); VF_ENSURES("biter.item", i >= 0 && i < 4 && present[i >= 0 ? i : 0]); SEEN[i >= 0 ? i : 0]++;
            e = hash_table_iter_next(it);
        }
        VF_ENSURES("biter.end", e == EOF && hash_table_iter_item(it) == 0 && hash_table_iter_next(it) == EOF);
        for (int i = 0; i < 4; i++) VF_ENSURES("biter.chain-of-the-key", SEEN[i] == present[i]);
        VF_ENSURES("biter.finds-the-key", !old || SEEN[iidx(old)] == 1);
        hash_table_iter_delete(it);
        VF_ENSURES("biter.locks", idle() && NFI == 1);
    }
}
#endif
#define H(n) \
void harness_ht_##n(void) \
{ \
    switch (vf_u8() % 3) { case 0: FAILAT = -1; body_##n(); break; case 1: FAILAT = 0; body_##n(); break; default: FAILAT = 1; body_##n(); break; } \
    VF_REACHED(); \
}
#define H0(n) void harness_ht_##n(void) { FAILAT = -1; body_##n(); VF_REACHED(); }
#define H2(n) void harness_ht_##n##2(void) { harness_ht_##n(); }
#if defined ITER
void harness_ht_iter(void)
{
    switch (vf_u8() % 5) {
    case 0: SORT = 0; FAILAT = -1; body_iter(); break; case 1: SORT = 0; FAILAT = 0; body_iter(); break;
    case 2: SORT = 1; FAILAT = -1; body_iter(); break; case 3: SORT = 1; FAILAT = 0; body_iter(); break; default: SORT = 1; FAILAT = 1; body_iter(); break;
    }
    VF_REACHED();
}
H2(iter)
void harness_ht_sortcmp(void)
{
    table(); IND[0].node = &N0; IND[1].node = &N1; IND[0].cmp = IND[1].cmp = vf_cmp;
    int r = qsort_cmp(&IND[0], &IND[1]);
    VF_ENSURES("sort.compares-the-data", r == vf_cmp(&I0, &I1));
    VF_REACHED();
}
H0(biter) H2(biter)
#elif defined PRED
H0(remove_if) H2(remove_if)
#else
H(insert) void harness_ht_insert2(void) { FAILAT = -1; body_insert(); VF_REACHED(); } H0(remove) H2(remove) H(grow) H2(grow) H0(delete) H2(delete) H(new)
#endif
