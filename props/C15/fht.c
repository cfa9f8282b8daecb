/*
 * fast-ht.c: the table is a map.  q is an arbitrary key: what find(q) says
 * after an operation on k is what the map says.
 */
//@ unit fh_bits kind=full unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=__update_fp,__clear_fp,__find_matches,__newbag
//@ unit fh_bag kind=full unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=__find_key,__find_empty_slot,__find_key_or_add
//@ unit fh_insert kind=bounded bsolver=cadical bflags="--object-bits 12" unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=__insert,__findx bound="buckets of up to 2 bags (14 slots) in any state"
//@ unit fh_quick kind=bounded bsolver=cadical bflags="--object-bits 12" unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=__insert_quick,__findx bound="buckets of up to 1 bag (7 slots) in any state"
//@ unit fh_probe kind=bounded bsolver=cadical bflags="--object-bits 12" unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=ht_probe,ht_find bound="2 buckets of 1 bag each, any state"
//@ unit fh_remove kind=bounded bsolver=cadical bflags="--object-bits 12" unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=ht_remove,ht_find bound="2 buckets of 1 bag each, any state"
//@ unit fh_replace kind=bounded bsolver=cadical bflags="--object-bits 12" unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=ht_replace,ht_find bound="2 buckets of 1 bag each, any state"
//@ unit fh_resize kind=bounded bsolver=cadical bflags="--object-bits 12" unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=resize,ht_probe,ht_find bound="1 bucket of 1 bag with up to 4 keys, split in 2"
//@ unit fh_init kind=bounded bsolver=cadical bflags="--object-bits 12" unwind=18 unwindset=__insert.0:5,__findx.0:5,look.1:5,count.1:5,__find_key_real.0:9,__find_key_or_add_real.0:9,distinct.0:9,distinct.1:9,ht_fini.0:2,resize.1:4 fn=ht_init,ht_new,ht_fini,ht_del bound="sizes 0..8"
//@ unit fh_hash kind=full unwind=2 fn=__hash,_hashmix
//@ subst src/hashtable/fast-ht.c __hash(uint64_t hv, uint64_t n, uint64_t salt) => __hash_real(uint64_t hv, uint64_t n, uint64_t salt)
//@ subst src/hashtable/fast-ht.c __find_key(bag *g, uint64_t k, void **p_val) => __find_key_real(bag *g, uint64_t k, void **p_val)
//@ subst src/hashtable/fast-ht.c __find_key_or_add(bag *g, uint64_t k, tuple *r) => __find_key_or_add_real(bag *g, uint64_t k, tuple *r)
//@ subst src/hashtable/fast-ht.c resize(ht* h) => resize_real(ht* h)
//@ trust in the map contracts the bucket of a key is an arbitrary function of key and salt, reduced to the table size; __hash itself is only shown to be in range
//@ trust the SSE2 intrinsics of fast/simd.h by their documented meaning (byte-wise compare, sign-bit mask)
#include "vf.h"
#ifndef VF_REPLAY
#define ___FAST_SIMD_H__geTEq1VjplXcRszm___ 1
typedef struct { uint8_t b[16]; } simd_vec128_t;
static simd_vec128_t vf_set(uint64_t hi, uint64_t lo) { simd_vec128_t v; for (int i = 0; i < 8; i++) { v.b[i] = lo >> (8 * i); v.b[8 + i] = hi >> (8 * i); } return v; }
static simd_vec128_t vf_set1(uint8_t x) { simd_vec128_t v; for (int i = 0; i < 16; i++) v.b[i] = x; return v; }
static simd_vec128_t vf_cmpeq(simd_vec128_t a, simd_vec128_t b) { simd_vec128_t v; for (int i = 0; i < 16; i++) v.b[i] = a.b[i] == b.b[i] ? 0xff : 0; return v; }
static int vf_movemask(simd_vec128_t a) { int m = 0; for (int i = 0; i < 16; i++) m |= (a.b[i] >> 7) << i; return m; }
#define SIMD_SET_EPI64X(hi, lo) vf_set(hi, lo)
#define SIMD_SET1_EPI8(b)       vf_set1(b)
#define SIMD_CMPEQ_EPI8(a, b)   vf_cmpeq(a, b)
#define SIMD_MOVEMASK_EPI8(v)   vf_movemask(v)
#define SIMD_PREFETCH_T0(p)     ((void)(p))
#define OPTIMIZER_HIDE_VAR(x)   ((void)0)
#endif
#include <unistd.h>
#include <sys/random.h>
#include "utils/fast-ht.h"
static bag P0, P1, P2, P3; static int NP, NF, NOBAG, NEWHT;
#define PB(i) (*((i) == 0 ? &P0 : (i) == 1 ? &P1 : (i) == 2 ? &P2 : &P3))
static char VALS[256];
#define VAL() ((void *)&VALS[vf_u8()])
static hb HB[8]; static ht H;
#ifndef VF_REPLAY
static int vf_alloc_(void **p, size_t al, size_t n)
{
    VF_ENSURES("alloc.alignment", al >= sizeof(void *) && (al & (al - 1)) == 0);
    if (n == sizeof(bag) && !NOBAG) { VF_REQUIRES(NP < 4); *p = NP == 0 ? &P0 : NP == 1 ? &P1 : NP == 2 ? &P2 : &P3; NP++; }
    else if (NEWHT) { VF_ENSURES("alloc.table", n == sizeof(ht)); NEWHT = 0; *p = &H; }
    else { VF_ENSURES("alloc.buckets", n % sizeof(hb) == 0 && n <= sizeof HB); *p = HB; }
    return 0;
}
static void *vf_zero(void *p, int c, size_t n)
{
    if (n == sizeof(bag) && !NOBAG) *(bag *)p = (bag){ 0 };
    else if (p == (void *)&H) H = (ht){ 0 };
    else for (int i = 0; i < 8; i++) if (i * sizeof(hb) < n) ((hb *)p)[i] = (hb){ 0 };
    return p;
}
static int vf_entropy(void *p, size_t n) { *(uint64_t *)p = vf_u64(); return 0; }
static uint64_t __hash(uint64_t k, uint64_t n, uint64_t salt);
static ht *resize(ht *h); static int NRES;
uint64_t __CPROVER_uninterpreted_bucket(uint64_t k, uint64_t salt);
#define posix_memalign vf_alloc_
#define memset         vf_zero
#define getentropy     vf_entropy
#define free(p)        (NF++)
#endif
#define OCC(g, i) (!((g)->fp >> (56 + (i)) & 1))
#ifndef VF_REPLAY
/* the contracts of the bag-level searches (established for every bag by fh_bag) */
typedef struct tuple tuple;
static inline int __find_key(bag *g, uint64_t k, void **v)
{
    for (int i = 0; i < 7; i++) if (OCC(g, i) && g->hk[i] == k) { *v = g->hv[i]; return i; }
    return -1;
}
static inline int __find_key_or_add(bag *g, uint64_t k, tuple *r);
#endif
#include "src/hashtable/fast-ht.c"
#ifndef VF_REPLAY
/* resize keeps the map (established by fh_resize) */
static ht *resize(ht *h) { NRES++; return h; }
static inline int __find_key_or_add(bag *g, uint64_t k, tuple *r)
{
    int f = 0, s = vf_u8() % 8;
    r->val = 0; r->slot = -1;
    for (int i = 0; i < 7; i++) { if (OCC(g, i) && g->hk[i] == k) { r->val = g->hv[i]; r->slot = i; return i; } if (!OCC(g, i)) f = 1; }
    if (f) { VF_REQUIRES(s < 7 && !OCC(g, s)); r->slot = s; }
    return -1;
}
static uint64_t __hash(uint64_t k, uint64_t n, uint64_t salt) { return __CPROVER_uninterpreted_bucket(k, salt) & (n - 1); }
#else
#define __hash_real __hash
#define resize_real resize
static int NRES;
#define __find_key_real __find_key
#define __find_key_or_add_real __find_key_or_add
#endif
#define FPB(g, i) ((uint8_t)((g)->fp >> (8 * (i))))
/* an arbitrary bag in which the fingerprints of occupied slots agree with the keys */
static void anybag(bag *g, int slots)
{
    g->fp = vf_u64() & ~((uint64_t)1 << 63);
    for (int i = 0; i < 7; i++) {
        g->hk[i] = vf_u64(); g->hv[i] = VAL();
        if (i >= slots) VF_REQUIRES(!OCC(g, i));
        if (OCC(g, i)) { VF_REQUIRES(FPB(g, i) == (uint8_t)g->hk[i]); VF_REQUIRES(g->hv[i] != 0); }
        else VF_REQUIRES(g->hk[i] == 0);
    }
}
static void distinct(bag *a, bag *b)
{
    for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++)
        if (!(a == b && i <= j) && OCC(a, i) && OCC(b, j)) VF_REQUIRES(a->hk[i] != b->hk[j]);
}
/* the specification: value of q among the occupied slots, 0 if absent; *c counts the occurrences */
static void *look(hb *b, uint64_t q, int *c)
{
    void *v = 0; bag *g; *c = 0;
    for (g = b->head.slh_first; g; g = g->link.sle_next) for (int i = 0; i < 7; i++) if (OCC(g, i) && g->hk[i] == q) { v = g->hv[i]; (*c)++; }
    return v;
}
static unsigned count(hb *b) { unsigned n = 0; bag *g; for (g = b->head.slh_first; g; g = g->link.sle_next) for (int i = 0; i < 7; i++) n += OCC(g, i); return n; }
static void wf(bag *g) { for (int i = 0; i < 7; i++) VF_ENSURES("bag.fingerprints", !OCC(g, i) || FPB(g, i) == (uint8_t)g->hk[i]); }
void harness_fh_bits(void)
{
    bag g; g.fp = vf_u64() & ~((uint64_t)1 << 63); uint64_t k = vf_u64(), o = g.fp; int s = vf_int(); uint8_t h = vf_u8();
    VF_REQUIRES(s >= 0 && s < 7);
    int m = __find_matches(__fp(o), h);
    for (int i = 0; i < 7; i++) VF_ENSURES("fp.match", (m >> i & 1) == ((uint8_t)(o >> (8 * i)) == h));
    VF_ENSURES("fp.match-slots-only", (m & ~0x7f) == 0);
    bag a, b; a.fp = __update_fp(o, k, s); b.fp = __clear_fp(o, s);
    for (int i = 0; i < 7; i++) {
        VF_ENSURES("fp.occupy", OCC(&a, i) == (i == s || OCC(&g, i)));
        VF_ENSURES("fp.free", OCC(&b, i) == (i != s && OCC(&g, i)));
        VF_ENSURES("fp.occupy-byte", FPB(&a, i) == (i == s ? (uint8_t)k : FPB(&g, i)));
        VF_ENSURES("fp.free-others", i == s || FPB(&b, i) == FPB(&g, i));
    }
    bag *n = __newbag();
    for (int i = 0; i < 7; i++) VF_ENSURES("bag.new-is-empty", !OCC(n, i));
    VF_REACHED();
}
void harness_fh_bag(void)
{
    bag g; hb b = { 0 }; int c; void *v = 0, *w; tuple t; uint64_t q = vf_u64();
    anybag(&g, 7); distinct(&g, &g); g.link.sle_next = 0; b.head.slh_first = &g;
    w = look(&b, q, &c);
    int j = __find_key_real(&g, q, &v), e = __find_empty_slot(&g), full = count(&b) == 7;
    VF_ENSURES("bag.find", c ? j >= 0 && j < 7 && OCC(&g, j) && g.hk[j] == q && v == w : j < 0);
    VF_ENSURES("bag.empty-slot", full ? e < 0 : e >= 0 && e < 7 && !OCC(&g, e));
    int a = __find_key_or_add_real(&g, q, &t);
    VF_ENSURES("bag.find-or-add", a == j && (c ? t.val == w && t.slot == j : full ? t.slot < 0 : t.slot >= 0 && t.slot < 7 && !OCC(&g, t.slot)));
    VF_REACHED();
}
static void mkbucket(hb *b, int nb, int slots)
{
    *b = (hb){ 0 }; b->bags = nb;
    for (int i = 0; i < nb; i++) { anybag(&PB(NP), slots); PB(NP).link.sle_next = b->head.slh_first; b->head.slh_first = &PB(NP); distinct(&PB(NP), &PB(NP)); if (i) distinct(&PB(NP), &PB(NP - 1)); NP++; }
    b->nodes = count(b);
}
static void insert(int nb, int quick)
{
    hb b; uint64_t k = vf_u64(), q = vf_u64(); void *v = VAL(); int c, ck, d; NP = 0;
    mkbucket(&b, nb, 7);
    void *old = look(&b, q, &c), *oldk = look(&b, k, &ck); unsigned n = count(&b), ba = b.bags; bag *f = b.head.slh_first;
    if (quick) { VF_REQUIRES(!ck); __insert_quick(&b, k, v); }
    else { void *r = __insert(&b, k, v); VF_ENSURES("insert.returns-existing", r == (ck ? oldk : 0)); }
    void *now = look(&b, q, &d);
    VF_ENSURES("insert.map", q == k && !ck ? d == 1 && now == v : d == c && now == old);
    VF_ENSURES("insert.count", b.nodes == n + !ck && count(&b) == b.nodes);
    VF_ENSURES("insert.bags", b.bags == (unsigned)NP && (n == 7u * nb || ck || b.bags == ba));
    for (int i = 0; i < 3; i++) if (i < NP) wf(&PB(i));
    tuple t; int fnd = __findx(&t, &b, q);
    VF_ENSURES("findx", fnd == (d > 0) && (!fnd || (t.val == now && OCC(t.bag, t.slot) && t.bag->hk[t.slot] == q)));
}
void harness_fh_insert(void)
{
    int n = vf_int();
    if (n == 0) insert(0, 0); else if (n == 1) insert(1, 0); else insert(2, 0);
    VF_REACHED();
}
void harness_fh_quick(void)
{
    int n = vf_int();
    if (n == 0) insert(0, 1); else insert(1, 1);
    VF_REACHED();
}
static hb B2[2];
static void table(int nb, int n)
{
    NP = 0; H = (ht){ 0 }; H.n = nb; H.b = B2; H.salt = vf_u64(); H.maxfill = vf_u32(); NRES = 0; H.fill = vf_bool(); H.bagmax = H.maxn = 0;
    for (int i = 0; i < nb; i++) {
        mkbucket(&B2[i], 1, n); H.nodes += B2[i].nodes;
        for (int j = 0; j < 7; j++) if (OCC(&PB(i), j)) VF_REQUIRES(__hash(PB(i).hk[j], H.n, H.salt) == (uint64_t)i);
    }
}
static void *val(uint64_t q, int *c)
{
    void *v = 0; *c = 0;
    for (uint64_t i = 0; i < 2; i++) if (i < H.n) { int d; void *w = look(&H.b[i], q, &d); if (d) v = w; *c += d; }
    return v;
}
#define OP(setup, CALL, POST) \
    uint64_t k = vf_u64(), q = vf_u64(); void *v = VAL(), *o = 0, *now = 0, *was, *wask; int c, ck, d; \
    VF_REQUIRES(v != 0); setup; was = val(q, &c); wask = val(k, &ck); uint64_t n0 = H.nodes; \
    CALL; \
    now = val(q, &d); POST; \
    { void *x = 0; int f = ht_find(&H, q, &x); VF_ENSURES("find", f == (d > 0) && (!f || x == now)); } \
    VF_REACHED();
void harness_fh_probe(void)
{
    OP(table(2, 7), void *r = ht_probe(&H, k, v),
       VF_ENSURES("probe.returns-existing", r == (ck ? wask : 0));
       VF_ENSURES("probe.map", q == k && !ck ? d == 1 && now == v : d == c && now == was);
       VF_ENSURES("probe.count", H.nodes == n0 + !ck);
       VF_ENSURES("probe.split", NRES <= 1 && H.splits == (uint32_t)NRES && (!NRES || !ck)))
}
void harness_fh_remove(void)
{
    OP(table(2, 7), int r = ht_remove(&H, k, &o),
       VF_ENSURES("remove.result", r == (ck > 0) && (!r || o == wask));
       VF_ENSURES("remove.map", q == k ? d == 0 : d == c && now == was);
       VF_ENSURES("remove.count", H.nodes == n0 - (ck > 0));
       wf(&PB(0)); wf(&PB(1)))
}
void harness_fh_replace(void)
{
    OP(table(2, 7), int r = ht_replace(&H, k, v),
       VF_ENSURES("replace.result", r == (ck > 0));
       VF_ENSURES("replace.map", q == k && ck ? d == 1 && now == v : d == c && now == was);
       VF_ENSURES("replace.count", H.nodes == n0))
}
void harness_fh_resize(void)
{
    OP(table(1, 4),
       int full = 0; NF = 0; ht *h = resize_real(&H),
       VF_ENSURES("resize.doubles", h == &H && H.n == 2 && H.b == HB);
       VF_ENSURES("resize.map", d == c && now == was);
       VF_ENSURES("resize.count", H.nodes == n0 && HB[0].nodes + HB[1].nodes == n0 && HB[0].nodes == count(&HB[0]));
       VF_ENSURES("resize.frees-old", NF == 2))
}
void harness_fh_init(void)
{
    uint32_t s = vf_u32(), f = vf_u32(); int c; VF_REQUIRES(s <= 8 && s > 0); NOBAG = 1;
    ht *h;
    if (vf_bool()) h = ht_init(&H, s, f); else { NEWHT = 1; h = ht_new(s, f); }
    VF_ENSURES("init.size", h == &H && h->n >= s && (h->n & (h->n - 1)) == 0 && h->n < 2 * s);
    VF_ENSURES("init.empty", h->nodes == 0 && h->fill == 0 && h->maxfill > 0);
    void *x; VF_ENSURES("init.finds-nothing", !ht_find(h, vf_u64(), &x));
    NF = 0; uint64_t n = h->n; ht_fini(h);
    VF_ENSURES("fini.releases", NF == 1 && H.b == 0);
    VF_REACHED();
}
void harness_fh_hash(void)
{
    uint64_t k = vf_u64(), s = vf_u64(); unsigned e = vf_u32(); VF_REQUIRES(e < 64);
    uint64_t n = (uint64_t)1 << e;
    VF_ENSURES("hash.in-range", __hash_real(k, n, s) < n);
    VF_REACHED();
}
