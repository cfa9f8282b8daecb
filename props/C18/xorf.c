/*
 * xorfilter.c: a filter that was built contains every key it was built
 * from; q is an arbitrary key.
 */
//@ unit xf_peel kind=bounded unwind=8 fn=xorfilter_init,__update_q defs="PEEL=1" bound="up to 2 distinct keys with any hashes, 3 x 2 cells, up to 2 seeds"
//@ unit xf_new8 kind=loops dfcc=old unwind=9 punwind=9 fn=Xorfilter_new8 defs="BUILD=1 W16=0"
//@ unit xf_new16 kind=loops dfcc=old unwind=9 punwind=9 fn=Xorfilter_new16 defs="BUILD=1 W16=1"
//@ unit xf_contains kind=bounded unwind=17 bsolver=cadical fn=Xorfilter_contains,__xfp8,__xfp16 tier=quick bound="3 x 5 cells in any state, any hash"
//@ unit xf_cells kind=full unwind=2 fn=hash3,__geth0,__geth1,__geth2
//@ unit xf_fp kind=full unwind=2 fn=__xfp8,__xfp16,__mix
//@ subst src/hashtable/xorfilter.c hashkey(uint64_t v, uint64_t salt) => hashkey_real(uint64_t v, uint64_t salt)
//@ subst src/hashtable/xorfilter.c hash3(uint64_t h, uint32_t size) => hash3_real(uint64_t h, uint32_t size)
//@ subst src/hashtable/xorfilter.c 1000000 => 1
//@ subst src/hashtable/xorfilter.c xorfilter_init(Xorfilter *x, => xorfilter_init_real(Xorfilter *x,
//@ annot src/hashtable/xorfilter.c Xorfilter_new8 0
//@  assigns stack.size, __CPROVER_object_whole(x->fp8)
//@  inv stack.size <= N && (W >= stack.size ==> (uint8_t)(x->fp8[CW.i] ^ x->fp8[CW.j] ^ x->fp8[CW.k]) == FPW) && (W < stack.size ==> x->fp8[IW] == 0)
//@  dec stack.size
//@ annot src/hashtable/xorfilter.c Xorfilter_new16 0
//@  assigns stack.size, __CPROVER_object_whole(x->fp16)
//@  inv stack.size <= N && (W >= stack.size ==> (uint16_t)(x->fp16[CW.i] ^ x->fp16[CW.j] ^ x->fp16[CW.k]) == FPW) && (W < stack.size ==> x->fp16[IW] == 0)
//@  dec stack.size
//@ trust building (xf_new8, xf_new16) uses the contract of xorfilter_init: one entry per key with its hash and one of its cells, no entry's cell being a cell of an entry further up the stack; xorfilter_init itself is checked against it by xf_peel (bounded)
//@ subst src/hashtable/xorfilt_internal.h union { => struct {
//@ trust Extraction: the union of fp8 and fp16 is split into two members in the verified copy (the verifier loses writes through pointers kept in unions)
//@ trust the vectors of xorfilter.c behave as C06 states
//@ trust the hash is an arbitrary function of key and seed; the filter size formula is replaced by 2 cells per part (building must be right for any size); retries are cut from 1000000 to 1
//@ trust allocation succeeds
#include "vf.h"
#include <sys/random.h>
#include <assert.h>
#include "utils/utils.h"
#include "fast/vect.h"
#include "utils/xorfilter.h"
#include "src/hashtable/xorfilt_internal.h"
typedef struct fpidx fpidx;
#ifndef BUILD
static size_t SZ = 2;
#else
static size_t SZ, N, W; static uint64_t HW, SEED, FPW; static size_t IW;
#endif
static size_t h_size(size_t n) { return SZ; }
#define xorfilter_calc_size(n) h_size(n)
static int NSEED; static uint64_t KV[3], HV[2][4];
#ifndef VF_REPLAY
static int h_entropy(void *p, size_t n) { *(uint64_t *)p = NSEED++; return 0; }
#define getentropy h_entropy
static inline fpidx hash3(uint64_t h, uint32_t size);
typedef struct keyvect keyvect;
static keyvect xorfilter_init(Xorfilter *x, uint64_t *keys, size_t n);
#ifdef BUILD
static fpidx CW;
static uint64_t hashkey(uint64_t v, uint64_t salt) { VF_ENSURES("xor.seed-used", salt == SEED); return HW; }
/* xorfilter_init and its stack, by contract; VECT_POP_BACK instantiates it for the entry popped */
static uint64_t *VK; static int FREED;
#undef VECT_POP_BACK
#define VECT_POP_BACK(v) ({ typeof(v) v_ = (v); VF_ENSURES("xor.pop-nonempty", v_->size > 0); typeof(v_->arr[0]) e_ = v_->arr[--v_->size]; VF_REQUIRES(e_.idx < 3 * SZ && (v_->size <= W || e_.idx != IW) && (v_->size >= W || (e_.idx != CW.i && e_.idx != CW.j && e_.idx != CW.k))); e_; })
#undef VECT_FINI
#define VECT_FINI(v) (FREED++)
static Xorfilter XF;
#undef NEWZ
#define NEWZ(T) ((T *)&XF)
#undef DEL
#define DEL(p) do { VF_ENSURES("xor.released-object", (void *)(p) == (void *)&XF); (p) = 0; } while (0)
#undef NEWZA
#define NEWZA(T, n) ({ size_t k_ = (n); T *t_ = (T *)vf_alloc(sizeof(T) * k_); VF_REQUIRES(t_[IW] == 0); t_; })
#undef VECT_INIT
#define VECT_INIT(v, n) ((v)->size = 0)
#else
static uint64_t hashkey(uint64_t v, uint64_t salt) { return v == KV[0] ? HV[salt & 1][0] : v == KV[1] ? HV[salt & 1][1] : v == KV[2] ? HV[salt & 1][2] : HV[salt & 1][3]; }
#endif
#ifdef PEEL
static struct { uint64_t a, b; } QM[8], SM[8], HM[8]; static int NV;
#undef VECT_INIT
#undef VECT_FINI
#undef VECT_PUSH_BACK
#define VECT_INIT(v, n) ((v)->arr = (void *)(NV++ ? SM : QM), (v)->cap = 8, (v)->size = 0)
#define VECT_FINI(v) ((v)->size = 0)
#define VECT_PUSH_BACK(v, e) do { typeof(v) v_ = (v); VF_ENSURES("xor.bounded-stack", v_->size < 8); v_->arr[v_->size++] = e; } while (0)
#undef NEWA
#define NEWA(T, n) ({ VF_ENSURES("xor.table-size", (n) == 3 * SZ); (T *)(void *)HM; })
#undef DEL
#define DEL(p) ((void)0)
#endif
#else
#define hash3_real hash3
#define hashkey_real hashkey
#define xorfilter_init_real xorfilter_init
#endif
static uint8_t FP8[16]; static uint16_t FP16[16];
#include "src/hashtable/xorfilter.c"
#ifndef VF_REPLAY
/* hash3: a function of the hash into the three parts (established by xf_cells) */
#ifdef BUILD
static inline fpidx hash3(uint64_t h, uint32_t size)
{
    VF_ENSURES("xor.cells-of-the-filter", size == SZ);
    if (h == HW) return CW;
    fpidx z; VF_REQUIRES(z.i < SZ && z.j >= SZ && z.j < 2 * SZ && z.k >= 2 * SZ && z.k < 3 * SZ); return z;
}
static keyvect xorfilter_init(Xorfilter *x, uint64_t *keys, size_t n)
{
    keyvect v; v.cap = N; v.size = N; v.arr = VF_NEWA(keyidx, N); 
    VF_ENSURES("xor.keys-passed", keys == VK && n == N);
    if (vf_u8() & 1) { v.size = 0; return v; }
    v.arr[W].hash = HW; v.arr[W].idx = IW;
    x->size = SZ; x->n = N; x->seed = SEED;
    return v;
}
#else
static fpidx ZV[2][4];
static inline fpidx hash3(uint64_t h, uint32_t size)
{
    for (int s = 0; s < 2; s++) for (int i = 0; i < 3; i++) if (h == HV[s][i]) return ZV[s][i];
    return ZV[0][3];
}
static void cells(uint32_t n) { for (int s = 0; s < 2; s++) for (int i = 0; i < 4; i++) { ZV[s][i].i = vf_u8() % n; ZV[s][i].j = n + vf_u8() % n; ZV[s][i].k = 2 * n + vf_u8() % n; } }
#endif
#else
#define cells(n)
#endif
#ifdef BUILD
static void build(int w16)
{
#ifndef VF_REPLAY
    SZ = vf_len(1u << 30, 3); N = vf_len(1u << 30, 4); W = vf_size(); HW = vf_u64(); SEED = vf_u64();
    VF_REQUIRES(SZ >= 1 && N >= 1 && W < N);
    CW.i = vf_u32(); CW.j = vf_u32(); CW.k = vf_u32();
    VF_REQUIRES(CW.i < SZ && CW.j >= SZ && CW.j < 2 * SZ && CW.k >= 2 * SZ && CW.k < 3 * SZ);
    IW = vf_size(); VF_REQUIRES(IW == CW.i || IW == CW.j || IW == CW.k);
    FPW = w16 ? __xfp16(HW) : __xfp8(HW);
    FREED = 0; memset(&XF, 0, sizeof XF);
    uint64_t key; VK = &key;
    Xorfilter *x = w16 ? Xorfilter_new16(VK, N) : Xorfilter_new8(VK, N);
    VF_ENSURES("xor.stack-released", FREED == 1);
    if (x) {
        VF_ENSURES("xor.kind", x->is_16 == w16 && !x->is_mmap && x->n == N && x->size == SZ);
        VF_ENSURES("xor.contains-every-key", Xorfilter_contains(x, key));
    }
    VF_REACHED();
#endif
}
void harness_xf_new8(void) { build(0); }
void harness_xf_new16(void) { build(1); }
#else
#ifdef PEEL
static void body(size_t n)
{
    uint64_t keys[3]; Xorfilter x = { 0 };
    for (int i = 0; i < 3; i++) { keys[i] = KV[i] = vf_u64(); for (int j = 0; j < 2; j++) HV[j][i] = vf_u64() ; }
    VF_REQUIRES(KV[0] != KV[1] && KV[0] != KV[2] && KV[1] != KV[2]);
    NSEED = 0; cells(2); NV = 0;
    keyvect s = xorfilter_init_real(&x, keys, n);
    keyidx *e = (keyidx *)(void *)SM; size_t len = s.size;
    if (NSEED == 2 && len == 0) return;
    VF_ENSURES("xor.every-key-once", len == n);
    VF_ENSURES("xor.shape", x.n == n && x.size == SZ && x.seed < 2);
    for (size_t k = 0; k < n; k++) { int c = 0; uint64_t h = hashkey(keys[k], x.seed); for (size_t i = 0; i < n; i++) c += e[i].hash == h; VF_ENSURES("xor.entry-of-key", c == 1); }
    for (size_t i = 0; i < n; i++) { fpidx z = hash3(e[i].hash, 2); VF_ENSURES("xor.own-cell", e[i].idx == z.i || e[i].idx == z.j || e[i].idx == z.k);
        for (size_t j = i + 1; j < n; j++) { z = hash3(e[j].hash, 2); VF_ENSURES("xor.peel-order", e[i].idx != z.i && e[i].idx != z.j && e[i].idx != z.k); } }
}
void harness_xf_peel(void)
{
    switch (vf_u8() % 3) { case 0: body(1); break; default: body(2); break; }
    VF_REACHED();
}
#endif
#ifndef PEEL
void harness_xf_contains(void)
{
    Xorfilter x = { 0 }; uint64_t q = vf_u64(), h;
    x.size = 5; x.is_16 = vf_u8() & 1; x.seed = vf_u64() & 1; KV[0] = q; HV[0][0] = vf_u64(); HV[1][0] = vf_u64(); cells(5);
    if (x.is_16) x.fp16 = FP16; else x.fp8 = FP8;
    for (int i = 0; i < 15; i++) { FP8[i] = vf_u8(); FP16[i] = vf_u32(); }
    h = hashkey(q, x.seed);
    fpidx z = hash3(h, 5);
    VF_ENSURES("xor.cells", z.i < 5 && z.j >= 5 && z.j < 10 && z.k >= 10 && z.k < 15);
    int want = x.is_16 ? (FP16[z.i] ^ FP16[z.j] ^ FP16[z.k]) == __xfp16(h) : (FP8[z.i] ^ FP8[z.j] ^ FP8[z.k]) == __xfp8(h);
    VF_ENSURES("xor.contains", !!Xorfilter_contains(&x, q) == want);
    VF_REACHED();
}
void harness_xf_cells(void)
{
    uint64_t h = vf_u64(); uint32_t n = vf_u32(); VF_REQUIRES(n >= 1 && n <= 0x55555555);
    fpidx z = hash3_real(h, n);
    VF_ENSURES("xor.part1", z.i < n);
    VF_ENSURES("xor.part2", z.j >= n && z.j < 2 * n);
    VF_ENSURES("xor.part3", z.k >= 2 * n && z.k < 3 * n);
    VF_REACHED();
}
void harness_xf_fp(void)
{
    uint64_t h = vf_u64();
    VF_ENSURES("xor.fingerprint8", __xfp8(h) == (uint8_t)((uint8_t)h ^ (uint8_t)(h >> 32)));
    VF_ENSURES("xor.fingerprint16", __xfp16(h) == (uint16_t)((uint16_t)h ^ (uint16_t)(h >> 32)));
    VF_REACHED();
}

#endif
#endif
