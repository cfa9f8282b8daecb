/*
 * bloom.c: no element that was added is ever reported absent.  x is the
 * element operated on, q any other; hashes are arbitrary.
 */
//@ unit bl_std kind=bounded unwind=20 bsolver=cadical fn=standard_bloom_probe,standard_bloom_find,setbit,testbit bound="bitmaps of 64 bits in any state, three shapes with 2..4 partitions of 1..16 slots, any hash with words up to 63"
//@ unit bl_count kind=bounded unwind=20 bsolver=cadical fn=counting_bloom_probe,counting_bloom_remove,counting_bloom_find bound="16 counters in any state, shapes 2 x 7 and 3 x 5, any hash with words up to 63"
//@ unit bl_init kind=bounded unwind=12 bsolver=cadical fn=standard_bloom_init,counting_bloom_init bound="1..6 partitions, any number of slots up to 2^40"
//@ unit bl_scale kind=bounded unwind=12 bsolver=cadical bflags="--object-bits 12" fn=scalable_probe,scalable_find,maybe_grow_filter bound="1 or 2 filters of 4 x 5 bits in any state, array of 2 grown to 4"
//@ unit bl_api kind=bounded unwind=12 bsolver=cadical bflags="--object-bits 12" fn=Standard_bloom_new,Counting_bloom_new,Standard_bloom_init,Counting_bloom_init,Bloom_probe,Bloom_find,Bloom_remove,Bloom_delete,Bloom_fini,scalable_new,scalable_fini,bloom_fini bound="filters of 4 partitions of 5 slots"
//@ unit bl_eq kind=bounded unwind=12 fn=Bloom_eq,bloom_eq,scaled_bloom_eq bound="bitmaps of 8 bytes, one or two filters"
//@ subst src/hashtable/bloom.c hash_val(uint64_t v, uint64_t salt) => hash_val_real(uint64_t v, uint64_t salt)
//@ trust the hash is a function of value and salt (any function); log/ceil sizing is replaced by arbitrary partition and slot counts, the fill ratio estimate by an arbitrary number: false positive rates are not examined
//@ trust allocation succeeds (the code asserts it)
#include "vf.h"
#include <math.h>
#include <assert.h>
#include <sys/random.h>
#include "utils/utils.h"
#include "utils/bloom.h"
#include "src/hashtable/bloom_internal.h"
#undef inline
static uint64_t MK, MM; static double RATIO;
static uint64_t h_m(void) { return MM; }
static uint64_t h_k(void) { return MK; }
static double h_fill(void) { return RATIO; }
#define make_k(e) h_k()
#define make_m(n, e) h_m()
#define make_n(n, e) h_m()
#define bloom_fill_ratio_est(f) h_fill()
#ifndef VF_REPLAY
static int h_entropy(void *p, size_t n) { *(uint64_t *)p = vf_u64(); return 0; }
#define getentropy h_entropy
/* any function of value and salt, at the two values and the three salts a harness uses */
static uint64_t XV, QV, S0V, S1V, HV[6];
static uint64_t hash_val(uint64_t v, uint64_t salt) { return v == XV ? (salt == S0V ? HV[0] : salt == S1V ? HV[1] : HV[2]) : (salt == S0V ? HV[3] : salt == S1V ? HV[4] : HV[5]); }
static void hashes(uint64_t x, uint64_t q, uint64_t s0, uint64_t s1) { XV = x; QV = q; S0V = s0; S1V = s1; for (int i = 0; i < 6; i++) HV[i] = vf_u64() & 0x3f0000003fULL; }
#else
#define hash_val_real hash_val
#define hashes(x, q, s0, s1)
#endif
static int NA, NF; static unsigned SBL; static unsigned SBLEN(void) { return SBL; } static size_t LASTB; static uint8_t ZB[16]; static int BIG;
static Bloom OB; static bloom OF, OARR[8], ORR[16]; static scalable_bloom OS; static uint8_t OBM[2][32]; static int NB;
static void *h_calloc(size_t n, size_t z)
{
    NA++; LASTB = n * z;
    if (BIG) return ZB;
    if (z == sizeof(Bloom)) return &OB;
    if (z == sizeof(scalable_bloom)) return &OS;
    if (z == sizeof(bloom)) return n == 1 ? &OF : OARR;
    VF_REQUIRES(z == 1 && n <= 32 && NB < 2);
    return OBM[NB++];
}
/* realloc: the old filters, then anything */
static bloom *h_realloc(bloom *p, size_t n) { for (size_t i = 0; i < 2; i++) if (i < n) ORR[i] = p[i]; for (size_t i = SBLEN(); i < 4; i++) if (i < n) { ORR[i].size = vf_u64(); ORR[i].bitmap = (uint8_t *)&ORR; ORR[i].flags = vf_u32(); } return ORR; }
static void h_free(void *p) { if (p) NF++; }
#undef RENEWA
#define RENEWA(t, p, n) h_realloc(p, n)
#undef NEWZA
#undef NEWZ
#undef DEL
#define NEWZA(t, n) ((t *)h_calloc(n, sizeof(t)))
#define NEWZ(t) NEWZA(t, 1)
#define DEL(p) do { h_free(p); (p) = 0; } while (0)
#include "src/hashtable/bloom.c"
static bloom F; static uint8_t BM[16], BM0[16];
/* the slot of v in partition i */
static uint64_t slot(uint64_t v, unsigned i) { uint64_t z = hash_val(v, F.salt); return ((z & 0xffffffff) + (uint64_t)i * (z >> 32)) % F.m + i * F.m; }
static int bit(const uint8_t *b, uint64_t j) { return b[j / 8] >> (j % 8) & 1; }
static void shape(uint64_t k, uint64_t m, int nb) { F.k = k; F.m = m; F.bitmap = BM; F.bmsize = nb; F.salt = vf_u64(); F.size = vf_u64(); for (int i = 0; i < nb; i++) BM0[i] = BM[i] = vf_u8(); }
static void std_body(uint64_t k, uint64_t m)
{
    uint64_t x = vf_u64(), q = vf_u64(), j = vf_u64(), n; shape(k, m, 8); n = F.size; VF_REQUIRES(j < 64); hashes(x, q, F.salt, F.salt);
    int qin = 1, hit = 0;
    for (unsigned i = 0; i < k; i++) { if (!bit(BM0, slot(q, i))) qin = 0; if (slot(x, i) == j) hit = 1; }
    VF_ENSURES("bloom.find", !!standard_bloom_find(&F, q) == qin);
    standard_bloom_probe(&F, x);
    VF_ENSURES("bloom.adds-exactly-its-bits", bit(BM, j) == (bit(BM0, j) || hit));
    VF_ENSURES("bloom.finds-what-was-added", standard_bloom_find(&F, x) != 0);
    VF_ENSURES("bloom.never-forgets", !qin || standard_bloom_find(&F, q) != 0);
    VF_ENSURES("bloom.size", F.size == n + 1);
    VF_ENSURES("bloom.remove-keeps", null_remov(&F, q) && (!qin || standard_bloom_find(&F, q)));
}
void harness_bl_std(void)
{
    switch (vf_u8() % 3) { case 0: std_body(3, 5); break; case 1: std_body(4, 16); break; default: std_body(2, 1); break; }
    VF_REACHED();
}
static void cnt_body(uint64_t k, uint64_t m)
{
    uint64_t x = vf_u64(), q = vf_u64(), n; unsigned j = vf_u8() % 16; int rem = vf_u8() & 1; shape(k, m, 16); n = F.size; hashes(x, q, F.salt, F.salt);
    int xin = 1, qin = 1, hit = 0;
    for (unsigned i = 0; i < k; i++) { if (!BM0[slot(x, i)]) xin = 0; if (!BM0[slot(q, i)]) qin = 0; if (slot(x, i) == j) hit = 1; }
    VF_ENSURES("counting.find", !!counting_bloom_find(&F, q) == qin);
    if (!rem) {
        counting_bloom_probe(&F, x);
        VF_ENSURES("counting.adds-one-to-its-counters", BM[j] == (hit && BM0[j] < 255 ? BM0[j] + 1 : BM0[j]));
        VF_ENSURES("counting.finds-what-was-added", counting_bloom_find(&F, x) != 0);
        VF_ENSURES("counting.never-forgets", !qin || counting_bloom_find(&F, q) != 0);
        VF_ENSURES("counting.size", F.size == n + 1);
    } else {
        int r = counting_bloom_remove(&F, x);
        VF_ENSURES("counting.remove-result", !!r == xin);
        /* a full counter does not count any more: it must stay */
        VF_ENSURES("counting.takes-one-from-its-counters", BM[j] == (hit && xin && BM0[j] < 255 ? BM0[j] - 1 : BM0[j]));
        VF_ENSURES("counting.size", F.size == n - xin);
    }
}
void harness_bl_count(void)
{
    switch (vf_u8() % 2) { case 0: cnt_body(2, 7); break; default: cnt_body(3, 5); break; }
    VF_REACHED();
}
static void init_body(uint64_t k, int counting)
{
    bloom *r; MK = k; MM = vf_u64(); VF_REQUIRES(MM > 0 && MM < (uint64_t)1 << 40); BIG = 1;
    F.flags = vf_u32(); F.size = vf_u64();
    r = counting ? counting_bloom_init(&F, vf_u64(), 0.01) : standard_bloom_init(&F, vf_u64(), 0.01);
    VF_ENSURES("init.result", r == &F && F.bitmap == ZB && F.size == 0 && F.flags == 0 && F.e == 0.01);
    VF_ENSURES("init.slots", F.k == k && F.m >= 1 && F.m * k >= MM && (F.m - 1) * k < MM);
    VF_ENSURES("init.memory", F.bmsize == LASTB && (counting ? LASTB : 8 * LASTB) >= F.m * F.k);
}
void harness_bl_init(void)
{
    switch (vf_u8() % 6) { case 0: init_body(1, 0); break; case 1: init_body(3, 0); break; case 2: init_body(4, 0); break; case 3: init_body(6, 0); break; case 4: init_body(3, 1); break; default: init_body(5, 1); break; }
    VF_REACHED();
}
static bloom ARR[2]; static uint8_t M0[8], M1[8];
static scalable_bloom SB;
static void scale_body(unsigned len, unsigned cap)
{
    uint64_t x = vf_u64(), q = vf_u64(); int qin;
    MK = 4; MM = 20;
    SBL = len;
    ARR[0].k = 4; ARR[0].m = 5; ARR[0].bitmap = M0; ARR[0].bmsize = 8; ARR[0].e = 0.01; ARR[0].salt = vf_u64(); ARR[0].size = vf_u64();
    if (len == 2) { ARR[1].k = 4; ARR[1].m = 5; ARR[1].bitmap = M1; ARR[1].bmsize = 8; ARR[1].e = 0.01; ARR[1].salt = vf_u64(); ARR[1].size = vf_u64(); }
    for (int i = 0; i < 8; i++) { M0[i] = vf_u8(); M1[i] = vf_u8(); }
    SB.bfa = ARR; SB.len = len; SB.cap = cap; SB.scale = 2; SB.r = 0.9;
    hashes(x, q, ARR[0].salt, len == 2 ? ARR[1].salt : ARR[0].salt);
    qin = scalable_find(&SB, q);
    VF_ENSURES("scale.find-asks-every-filter", !!qin == (standard_bloom_find(&SB.bfa[0], q) || (len == 2 && standard_bloom_find(&SB.bfa[1], q))));
    scalable_probe(&SB, x);
    VF_ENSURES("scale.finds-what-was-added", scalable_find(&SB, x) != 0);
    VF_ENSURES("scale.never-forgets", !qin || scalable_find(&SB, q) != 0);
    VF_ENSURES("scale.grows-by-one", SB.len == len || (SB.len == len + 1 && SB.cap >= SB.len && SB.bfa[len].size == 1));
}
void harness_bl_scale(void)
{
    switch (vf_u8() % 4) { case 0: RATIO = 0.75; scale_body(1, 2); break; case 1: RATIO = 0.75; scale_body(1, 1); break; case 2: RATIO = 0.25; scale_body(2, 2); break; default: RATIO = 0.75; scale_body(2, 2); break; }
    VF_REACHED();
}
static void api_body(int typ)
{
    Bloom *b; NB = 0; uint64_t x = vf_u64(), q = vf_u64(); MK = 4; MM = 20; NA = NF = 0; hashes(x, q, vf_u64(), vf_u64());
    b = typ == 0 ? Counting_bloom_new(7, 0.01) : Standard_bloom_new(7, 0.01, typ == 2);
    VF_ENSURES("new.made", b != 0 && b->n == 7 && b->e == 0.01);
    VF_ENSURES("new.empty", !Bloom_find(b, q));
    Bloom_probe(b, x);
    VF_ENSURES("api.finds-what-was-added", Bloom_find(b, x));
    VF_ENSURES("api.remove", Bloom_remove(b, x) && (typ == 0 ? !Bloom_find(b, x) : Bloom_find(b, x)));
    Bloom_delete(b);
    VF_ENSURES("delete.frees-everything", NF == NA);
}
void harness_bl_api(void)
{
    switch (vf_u8() % 3) { case 0: api_body(0); break; case 1: api_body(1); break; default: api_body(2); break; }
    VF_REACHED();
}
static bloom E[4]; static scalable_bloom SA, SC; static Bloom A, B; static uint8_t EB[4][8];
static int same(bloom *a, bloom *b) { int r = a->m == b->m && a->k == b->k && a->salt == b->salt && a->size == b->size && a->bmsize == b->bmsize; for (int i = 0; i < 8; i++) if (i < a->bmsize && a->bitmap[i] != b->bitmap[i]) r = 0; return r; }
void harness_bl_eq(void)
{
    for (int i = 0; i < 4; i++) { E[i].m = vf_u64(); E[i].k = vf_u64(); E[i].salt = vf_u64(); E[i].size = vf_u64(); E[i].bmsize = vf_u8() % 9; E[i].bitmap = EB[i]; for (int j = 0; j < 8; j++) EB[i][j] = vf_u8(); }
    A.typ = vf_u8() % 3; B.typ = vf_u8() % 3;
    int sc = A.typ == BLOOM_TYPE_SCALE; 
    SA.bfa = &E[0]; SC.bfa = &E[2]; SA.len = 1 + vf_u8() % 2; SC.len = 1 + vf_u8() % 2; SA.scale = vf_u32(); SC.scale = vf_u32(); SA.r = SC.r = 0.9;
    A.filter = sc ? (void *)&SA : (void *)&E[0]; B.filter = B.typ == BLOOM_TYPE_SCALE ? (void *)&SC : (void *)&E[2];
    int want = A.typ == B.typ && same(&E[0], &E[2]);
    if (sc) want = want && SA.len == SC.len && SA.scale == SC.scale && (SA.len == 1 || same(&E[1], &E[3]));
    VF_ENSURES("eq.exact", !!Bloom_eq(&A, &B) == want);
    VF_REACHED();
}
