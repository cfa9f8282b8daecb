/*
 * vect.h: the vector as a sequence.  Element W is an arbitrary witness, so
 * each postcondition speaks about every element.
 */
//@ unit v_push_back kind=loops unwind=12 punwind=7 fn=VECT_PUSH_BACK,__vect_RESERVE,VECT_POP_BACK,VECT_LAST_ELEM,VECT_TOP,VECT_POP,VECT_GET_NEXT
//@ unit v_push_front kind=loops unwind=12 punwind=7 fn=VECT_PUSH_FRONT,__vect_RESERVE
//@ unit v_pop_front kind=loops unwind=12 punwind=7 fn=VECT_POP_FRONT,VECT_FIRST_ELEM
//@ unit v_reserve kind=loops unwind=12 punwind=7 fn=VECT_RESERVE,VECT_ENSURE,__vect_RESERVE,VECT_CAPACITY,VECT_LEN
//@ unit v_append kind=loops unwind=12 punwind=7 fn=VECT_APPEND_VECT,VECT_COPY
//@ unit v_init kind=loops unwind=20 punwind=7 fn=VECT_INIT,VECT_INIT_FROM,VECT_FINI,VECT_RESET,VECT_SWAP
//@ unit v_sample kind=loops unwind=12 punwind=7 fn=VECT_SAMPLE,VECT_RAND_ELEM
//@ unit v_shuffle kind=loops unwind=12 punwind=7 fn=VECT_SHUFFLE
//@ unit v_uniform kind=bounded unwind=14 fn=VECT_SHUFFLE,VECT_SAMPLE bound="3 and 4 elements, every sequence of choices"
//@ unit v_iter kind=bounded unwind=12 punwind=7 fn=VECT_FOR_EACH,VECT_FOR_EACHi,VECT_END,VECT_ELEM,VECT_SORT bound="vectors of up to 5 elements"
//@ annot inc/fast/vect.h __vect_RESERVE 0
//@  assigns n_, vf_once
//@  inv n_ >= 1 && v_->cap <= n_ && n_ <= 2 * (size_t)(want_) && (vf_once ? n_ == v_->cap : n_ >= 2 * v_->cap)
//@  dec 2 * (size_t)(want_) - n_ + (vf_once ? 1 : 0)
//@ annot inc/fast/vect.h VECT_PUSH_FRONT 0
//@  assigns p_, __CPROVER_object_whole(start_)
//@  inv __CPROVER_same_object(p_, start_) && __CPROVER_POINTER_OFFSET(p_) % 8 == 0 && IX(p_) <= v_->size && (W > IX(p_) ? start_[W] == B : (W >= v_->size || start_[W] == A)) && (W == 0 || W - 1 > IX(p_) || start_[W - 1] == B)
//@  dec IX(p_)
//@  ghost VF_NORM(p_, start_);
//@ annot inc/fast/vect.h VECT_POP_FRONT 0
//@  assigns p_, __CPROVER_object_whole(v_->arr)
//@  inv __CPROVER_same_object(p_, v_->arr) && __CPROVER_POINTER_OFFSET(p_) % 8 == 0 && IX(p_) <= v_->size && (W >= v_->size || (v_->arr[W] == (IX(p_) > W ? B : A) && (IX(p_) > W || v_->arr[W + 1] == B)))
//@  dec v_->size - IX(p_)
//@  ghost VF_NORM(p_, v_->arr);
//@ annot inc/fast/vect.h VECT_SHUFFLE 0
//@  assigns i_, e_, IA, IB, __CPROVER_object_whole(p_)
//@  inv i_ >= -1 && i_ < (long)v_->size && (i_ >= 0 || v_->size == 0) && IA < v_->size && IB < v_->size && IA != IB && p_[IA] == A && p_[IB] == B
//@  dec i_ + 1
//@ annot inc/fast/vect.h VECT_SAMPLE 0
//@  assigns i_, __CPROVER_object_whole(x_)
//@  inv i_ <= k_ && k_ < b_->size && (W >= i_ || x_[W] == y_[W]) && (W2 >= i_ || x_[W2] == y_[W2])
//@  dec k_ - i_
//@ annot inc/fast/vect.h VECT_SAMPLE 1
//@  assigns i_, IA, IB, __CPROVER_object_whole(x_)
//@  inv i_ >= k_ && i_ <= b_->size && IA < i_ && IB < i_ && IA != IB && x_[W] == y_[IA] && x_[W2] == y_[IB] && (IA >= k_ || IA == W) && (IB >= k_ || IB == W2)
//@  dec b_->size - i_
//@ subst inc/fast/vect.h ((size_t)rnd()) % (i_+1) => VF_MOD(((size_t)rnd()), i_+1)
//@ subst inc/fast/vect.h rnd() % (i_+1) => VF_MOD(rnd(), i_+1)
//@ trust the modulo in shuffle and sample is replaced in the proof copy by "any value below the divisor" (an over-approximation)
//@ trust vector sizes below 2^36 elements (size arithmetic does not overflow); allocation succeeds
#include "vf.h"
#define IX(p)   (__CPROVER_POINTER_OFFSET(p) / 8)
static uint64_t A, B, C;
static uint64_t W, W2, IA, IB; static int SHUF, SORTED;
typedef struct vec { size_t size, cap; uint64_t *arr; } vec;    /* as VECT_TYPEDEF(vec, uint64_t) lays it out */
static vec V, V2;
#ifdef VF_PROOF
/* realloc/memset/memcpy: only the witness elements are tracked */
static uint64_t WJ[2]; static int NW;
static void *vf_realloc(void *p, size_t n)
{
    uint64_t *q = malloc(sizeof(uint64_t) * (n / 8)), *o = p;
    __CPROVER_assume(q != 0);
    size_t old = p ? __CPROVER_OBJECT_SIZE(p) : 0;
    if (NW > 0 && (WJ[0] + 1) * 8 <= old && (WJ[0] + 1) * 8 <= n) q[WJ[0]] = o[WJ[0]];
    if (NW > 1 && (WJ[1] + 1) * 8 <= old && (WJ[1] + 1) * 8 <= n) q[WJ[1]] = o[WJ[1]];
    free(p);
    return q;
}
static void *vf_memset(void *p, int c, size_t n)
{
    VF_ENSURES("memset-in-bounds", n == 0 || __CPROVER_w_ok(p, n));
    size_t o = __CPROVER_POINTER_OFFSET(p);
    uint64_t *b = o ? V.arr : p;
    VF_ENSURES("memset-target", n == 0 || __CPROVER_same_object(b, p));
    if (NW > 0 && WJ[0] * 8 >= o && WJ[0] * 8 < o + n) b[WJ[0]] = 0;
    if (NW > 1 && WJ[1] * 8 >= o && WJ[1] * 8 < o + n) b[WJ[1]] = 0;
    return p;
}
static void *vf_memcpy(void *d, const void *s, size_t n)
{
    VF_ENSURES("memcpy-in-bounds", n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)));
    size_t o = __CPROVER_POINTER_OFFSET(d);
    uint64_t *b = o ? V.arr : d;
    VF_ENSURES("memcpy-target", n == 0 || __CPROVER_same_object(b, d));
    if (NW > 0 && WJ[0] * 8 >= o && WJ[0] * 8 < o + n) b[WJ[0]] = ((const uint64_t *)s)[(WJ[0] * 8 - o) / 8];
    if (NW > 1 && WJ[1] * 8 >= o && WJ[1] * 8 < o + n) b[WJ[1]] = ((const uint64_t *)s)[(WJ[1] * 8 - o) / 8];
    return d;
}
static void *vf_calloc(size_t n, size_t sz)
{
    uint64_t *q = malloc(sizeof(uint64_t) * n);
    __CPROVER_assume(q != 0);
    VF_ENSURES("calloc-element-size", sz == 8);
    return q;
}
#define realloc vf_realloc
#define calloc  vf_calloc
#define memset  vf_memset
#define memcpy  vf_memcpy
#define WIT(a, ...) (WJ[0] = (a), NW = 1 __VA_OPT__(+ 1, WJ[1] = (__VA_ARGS__)))
#else
#define WIT(...) do { } while (0)
#ifdef VF_BMC
static void *vf_realloc(void *p, size_t n)
{
    uint64_t *q = malloc(sizeof(uint64_t) * (n / 8)), *o = p;
    __CPROVER_assume(q != 0);
    for (size_t i = 0; i < 4; i++) if ((i + 1) * 8 <= __CPROVER_OBJECT_SIZE(p) && (i + 1) * 8 <= n) q[i] = o[i];
    free(p);
    return q;
}
static void *vf_memset(void *p, int c, size_t n)
{
    VF_ENSURES("memset-in-bounds", n == 0 || __CPROVER_w_ok(p, n));
    for (size_t i = 0; i < 8; i++) if (i * 8 < n) ((uint64_t *)p)[i] = 0;   /* later elements stay arbitrary */
    return p;
}
static void *vf_memcpy(void *d, const void *s, size_t n)
{
    VF_ENSURES("memcpy-in-bounds", n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)));
    for (size_t i = 0; i < 8; i++) if (i * 8 < n) ((uint64_t *)d)[i] = ((uint64_t *)s)[i];
    return d;
}
#define realloc vf_realloc
#define memset  vf_memset
#define memcpy  vf_memcpy
#endif
#endif
#include "fast/vect.h"
VECT_TYPEDEF(vec_check, uint64_t);
_Static_assert(sizeof(vec) == sizeof(vec_check) && offsetof(vec, arr) == offsetof(vec_check, arr) && offsetof(vec, cap) == offsetof(vec_check, cap), "layout");
static size_t N;
static void setup(vec *v, size_t cap, size_t size)
{
    VF_REQUIRES(cap >= 1 && size <= cap);
    v->cap = cap; v->size = size;
    v->arr = VF_NEWA(uint64_t, cap);
#ifndef VF_PROOF
    for (size_t i = 0; i < cap; i++) v->arr[i] = 1000 + i;
#endif
}
/* proof: any capacity and size; bounded: every capacity 1..M with every size */
#ifdef VF_PROOF
#define EACH(M, body)  body(vf_len((size_t)1 << 36, 4), vf_size())
#else
#define EACH(M, body)  do { size_t c_ = vf_size(), s_ = vf_size(); VF_REQUIRES(c_ >= 1 && c_ <= M && s_ <= c_); \
    for (size_t i_ = 1; i_ <= M; i_++) for (size_t j_ = 0; j_ <= i_; j_++) if (c_ == i_ && s_ == j_) body(i_, j_); } while (0)
#endif
static void ok(vec *v)
{
    VF_ENSURES("size-within-capacity", v->size <= v->cap);
#ifdef VF_REPLAY
    if (v->size) { volatile uint64_t x = v->arr[v->cap - 1]; (void)x; }
#else
    VF_ENSURES("capacity-is-allocated", __CPROVER_rw_ok(v->arr, v->cap * 8));
#endif
}

static void b_push_back(size_t c, size_t n)
{
    setup(&V, c, n); N = V.size;
    W = vf_size(); VF_REQUIRES(W < N + 1);
    WIT(W);
    uint64_t e = vf_u64(); A = W < N ? V.arr[W] : 0;
    size_t c0 = V.cap;
    VECT_PUSH_BACK(&V, e);
    ok(&V);
    VF_ENSURES("push_back.size", V.size == N + 1 && V.cap >= c0);
    VF_ENSURES("push_back.elements", V.arr[W] == (W < N ? A : e));
    VF_ENSURES("last", VECT_LAST_ELEM(&V) == V.arr[N] && VECT_TOP(&V) == V.arr[N] && VECT_LEN(&V) == N + 1);
    uint64_t last = V.arr[N];
    if (vf_bool()) {
        uint64_t x = VECT_POP_BACK(&V);
        VF_ENSURES("pop_back.value", x == last);
    } else VECT_POP(&V);
    ok(&V);
    VF_ENSURES("pop_back.rest", V.size == N && (W >= N || V.arr[W] == A));
    VECT_ENSURE(&V, 1);
    ok(&V);
    VF_ENSURES("ensure.room", V.size + 1 <= V.cap);
    VECT_GET_NEXT(&V) = e;
    VF_ENSURES("get_next", V.size == N + 1 && V.arr[N] == e && (W >= N || V.arr[W] == A));
}
static void b_push_front(size_t c, size_t n)
{
    setup(&V, c, n); N = V.size;
    W = vf_size(); VF_REQUIRES(W < N + 1);
    if (W) WIT(W, W - 1); else WIT(W);
    uint64_t e = vf_u64(); A = W < N ? V.arr[W] : 0; B = W ? V.arr[W - 1] : 0;
    VECT_PUSH_FRONT(&V, e);
    ok(&V);
    VF_ENSURES("push_front.size", V.size == N + 1);
    VF_ENSURES("push_front.elements", V.arr[W] == (W == 0 ? e : B));
#ifndef VF_PROOF
    VECT_PUSH_FRONT(&V, (char)7);      /* argument of another integer type */
    VF_ENSURES("push_front.converts", V.size == N + 2 && V.arr[0] == 7 && V.arr[1] == e);
    VF_ENSURES("push_front.shifts", N == 0 || (V.arr[2] == 1000 && V.arr[N + 1] == 1000 + N - 1));
#endif
}
static void b_pop_front(size_t c, size_t n)
{
    setup(&V, c, n); N = V.size; VF_REQUIRES(N > 0);
    W = vf_size(); VF_REQUIRES(W < N);
    A = V.arr[W]; B = W + 1 < N ? V.arr[W + 1] : 0;
    uint64_t f = V.arr[0];
    VF_ENSURES("first", VECT_FIRST_ELEM(&V) == f);
    uint64_t x = VECT_POP_FRONT(&V);
    ok(&V);
    VF_ENSURES("pop_front.value", x == f);
    VF_ENSURES("pop_front.rest", V.size == N - 1 && (W >= N - 1 || V.arr[W] == B));
}
static void b_reserve(size_t c, size_t n)
{
    setup(&V, c, n); N = V.size;
    W = vf_size(); VF_REQUIRES(W < N || W == 0);
    WIT(W);
    A = N ? V.arr[W] : 0;
    size_t want = vf_len((size_t)1 << 36, 40), c0 = V.cap;
    if (vf_bool()) {
        VECT_RESERVE(&V, want);
        VF_ENSURES("reserve.capacity", V.cap >= want && VECT_CAPACITY(&V) >= c0);
    } else {
        VECT_ENSURE(&V, want);
        VF_ENSURES("ensure.capacity", V.cap >= N + want && V.cap >= c0);
    }
    ok(&V);
    VF_ENSURES("reserve.elements", VECT_LEN(&V) == N && (N == 0 || V.arr[W] == A));
}
static void b_append(size_t c2, size_t n2)
{
#ifdef VF_PROOF
    size_t c = vf_len((size_t)1 << 36, 0), n = vf_size();
#else
    size_t c = 2, n = 1;
#endif
    setup(&V, c, n); setup(&V2, c2, n2); N = V.size;
    size_t m = V2.size; uint64_t *a2 = V2.arr;
#ifndef VF_PROOF
    for (size_t i = 0; i < c2; i++) V2.arr[i] += 1000;
#endif
    int copy = vf_bool();
    size_t base = copy ? 0 : N;
    W = vf_size(); VF_REQUIRES(W < base + m);
    WIT(W);
    A = W < N ? V.arr[W] : 0; B = W >= base ? V2.arr[W - base] : 0;
    if (copy) VECT_COPY(&V, &V2); else VECT_APPEND_VECT(&V, &V2);
    ok(&V);
    VF_ENSURES("append.size", V.size == base + m);
    VF_ENSURES("append.elements", V.arr[W] == (W < base ? A : B));
    VF_ENSURES("append.source-kept", V2.size == m && V2.cap == c2 && V2.arr == a2 && (W < base || V2.arr[W - base] == B) && V.arr != V2.arr);
}
static void b_init(size_t c, size_t n)
{
    size_t k = vf_len((size_t)1 << 32, 5);
    VECT_INIT(&V, k);
    ok(&V);
    VF_ENSURES("init", V.size == 0 && V.cap >= k && V.cap >= 1);
    vec a, b;
    setup(&V2, c, n); N = V2.size;
    W = vf_size(); VF_REQUIRES(W < N || W == 0);
    WIT(W); A = N ? V2.arr[W] : 0;
    VECT_INIT_FROM(&a, &V2);
    ok(&a);
    VF_ENSURES("init_from", a.size == N && a.cap >= 1 && a.arr != V2.arr && V2.size == N && (N == 0 || (a.arr[W] == A && V2.arr[W] == A)));
    b = V;
    vec a0 = a;
    VECT_SWAP(&a, &b);
    VF_ENSURES("swap", a.size == 0 && a.cap == V.cap && a.arr == V.arr && b.size == a0.size && b.cap == a0.cap && b.arr == a0.arr);
    VECT_RESET(&b);
    ok(&b);
    VF_ENSURES("reset", b.size == 0 && b.cap == a0.cap);
    VECT_FINI(&b); VECT_FINI(&a);
    VF_ENSURES("fini", b.arr == 0 && b.size == 0 && b.cap == 0 && a.arr == 0);
}

static size_t RV[6]; static unsigned RN;
static size_t rnd(void)
{
#ifdef VF_PROOF
    return vf_size();
#else
    return RV[RN++ % 6];
#endif
}
#ifdef VF_PROOF
static size_t VF_MOD(size_t r, size_t b)
{
    size_t j = vf_size(), i = b - 1;
    VF_ENSURES("modulo-by-zero", b != 0);
    VF_REQUIRES(j < b);
    if (SHUF) {
        if (IA == i) IA = j; else if (IA == j) IA = i;
        if (IB == i) IB = j; else if (IB == j) IB = i;
    } else {
        if (j == W) IA = i; else if (j == W2) IB = i;
    }
    return j;
}
#else
#define VF_MOD(r, b) ((r) % (b))
#endif
static void bk_sample(size_t c2, size_t n2, size_t k)
{
#ifdef VF_PROOF
    size_t c = vf_len((size_t)1 << 36, 0), n = vf_size();
#else
    size_t c = 2, n = 1;
#endif
    setup(&V, c, n); setup(&V2, c2, n2); N = V2.size;
    size_t m0 = V.size;
#ifndef VF_PROOF
    for (int i = 0; i < 6; i++) RV[i] = vf_size() & 15;
#endif
    RN = 0; SHUF = 0;
#ifdef VF_PROOF
    VF_REQUIRES(k >= 2);
    W = vf_size(); W2 = vf_size(); VF_REQUIRES(W != W2 && W < k && W2 < k);
    IA = W; IB = W2; WIT(W, W2);
    if (N && k < N) { }
#endif
    int z = VECT_SAMPLE(&V, &V2, k, rnd);
    VF_ENSURES("sample.result", z == (k < N));
    VF_ENSURES("sample.size", V.size == (z ? k : m0) && V2.size == N);
    ok(&V);
#ifdef VF_PROOF
    VF_ENSURES("sample.elements-of-source-at-distinct-places", !z || (IA != IB && IA < N && IB < N && V.arr[W] == V2.arr[IA] && V.arr[W2] == V2.arr[IB]));
#else
    if (z) for (size_t i = 0; i < 4; i++) if (i < k) {
        VF_ENSURES("sample.elements-of-source", V.arr[i] >= 1000 && V.arr[i] < 1000 + N);
        for (size_t j = 0; j < i; j++) VF_ENSURES("sample.distinct", V.arr[i] != V.arr[j]);
    }
    if (N) {
        uint64_t e = VECT_RAND_ELEM(&V2, rnd);
        VF_ENSURES("rand_elem", e >= 1000 && e < 1000 + N);
    }
#endif
}
static void b_sample(size_t c2, size_t n2)
{
    size_t k = vf_size();
#ifdef VF_PROOF
    bk_sample(c2, n2, k);
#else
    for (size_t i = 0; i <= 4; i++) if (k == i) bk_sample(c2, n2, i);
#endif
}
static void b_shuffle(size_t c, size_t n)
{
    setup(&V, c, n); N = V.size;
    size_t c0 = V.cap; uint64_t *a0 = V.arr;
#ifndef VF_PROOF
    for (int i = 0; i < 6; i++) RV[i] = vf_size() & 15;
#endif
    RN = 0; SHUF = 1;
#ifdef VF_PROOF
    VF_REQUIRES(N < 0x7fffffff);
    IA = vf_size(); IB = vf_size();
    VF_REQUIRES(N >= 2 && IA < N && IB < N && IA != IB);
    A = V.arr[IA]; B = V.arr[IB];
#endif
    VECT_SHUFFLE(&V, rnd);
    VF_ENSURES("shuffle.frame", V.size == N && V.cap == c0 && V.arr == a0);
#ifdef VF_PROOF
    VF_ENSURES("shuffle.permutation", IA < N && IB < N && IA != IB && V.arr[IA] == A && V.arr[IB] == B);
#else
    for (size_t i = 0; i < 4; i++) if (i < N) {
        VF_ENSURES("shuffle.elements", V.arr[i] >= 1000 && V.arr[i] < 1000 + N);
        for (size_t j = 0; j < i; j++) VF_ENSURES("shuffle.permutation", V.arr[i] != V.arr[j]);
    }
#endif
}
#ifndef VF_PROOF
/* a uniform source gives every outcome the same weight */
static void sample_weights(int n, int k)
{
    int cnt[4] = { 0 }, total = 0;
    uint64_t src[4] = { 0, 1, 2, 3 }, dst[4];
    for (size_t a = 0; a < 12; a++) {
        vec d = { 0, 4, dst }, s = { n, 4, src };
        size_t x = a, i = 0;
        for (int m = k; m < n; m++) { RV[i++] = x % (m + 1); x /= m + 1; }
        if (x) continue;
        RN = 0; total++;
        (void)VECT_SAMPLE(&d, &s, k, rnd);
        for (int q = 0; q < k; q++) cnt[d.arr[q]]++;
    }
    for (int q = 0; q < n; q++) VF_ENSURES("sample.uniform", cnt[q] * n == total * k);
}
void harness_v_uniform(void)
{
    sample_weights(3, 1); sample_weights(3, 2); sample_weights(4, 2); sample_weights(4, 3);
    /* n! choice sequences, n! permutations: different choices, different results */
    uint64_t a[4] = { 0, 1, 2, 3 }, b[4] = { 0, 1, 2, 3 };
    size_t n = 2 + vf_len(2, 2);
    vec x = { n, 4, a }, y = { n, 4, b };
    size_t r1[4], r2[4]; int same = 1;
    for (size_t i = n - 1, q = 0; i > 0; i--, q++) {
        r1[q] = vf_size(); r2[q] = vf_size();
        VF_REQUIRES(r1[q] <= i && r2[q] <= i);
        if (r1[q] != r2[q]) same = 0;
    }
    VF_REQUIRES(!same);
    for (size_t q = 0; q < 3; q++) RV[q] = q < n - 1 ? r1[q] : 0;
    RN = 0; VECT_SHUFFLE(&x, rnd);
    for (size_t q = 0; q < 3; q++) RV[q] = q < n - 1 ? r2[q] : 0;
    RN = 0; VECT_SHUFFLE(&y, rnd);
    int eq = 1;
    for (size_t i = 0; i < 4; i++) if (a[i] != b[i]) eq = 0;
    VF_ENSURES("shuffle.every-choice-its-own-permutation", !eq);
    VF_REACHED();
}
static int cmp(const void *x, const void *y) { return *(const uint64_t *)x < *(const uint64_t *)y ? -1 : *(const uint64_t *)x > *(const uint64_t *)y; }
#ifndef VF_REPLAY
static void qsort_(void *b, size_t n, size_t w, int (*c)(const void *, const void *))
{
    VF_ENSURES("sort.arguments", b == (void *)V.arr && n == V.size && w == 8 && c == cmp);
    SORTED++;
}
#define qsort qsort_
#endif
static void b_iter(size_t c, size_t n)
{
    setup(&V, c, n);
    uint64_t *p; size_t i, k = 0;
    VECT_FOR_EACH(&V, p) { VF_ENSURES("for_each", p == V.arr + k && *p == 1000 + k); k++; }
    VF_ENSURES("for_each.all", k == V.size);
    k = 0;
    VECT_FOR_EACHi(&V, i, p) { VF_ENSURES("for_eachi", i == k && *p == 1000 + k && VECT_ELEM(&V, i) == *p); k++; }
    VF_ENSURES("for_eachi.all", k == V.size && &VECT_END(&V) == V.arr + V.size);
    SORTED = 0;
    VECT_SORT(&V, cmp);
#ifndef VF_REPLAY
    VF_ENSURES("sort.once", SORTED == 1);
#endif
}
void harness_v_iter(void) { EACH(4, b_iter); VF_REACHED(); }
#endif
void harness_v_push_back(void) { EACH(4, b_push_back); VF_REACHED(); }
void harness_v_push_front(void) { EACH(3, b_push_front); VF_REACHED(); }
void harness_v_pop_front(void) { EACH(4, b_pop_front); VF_REACHED(); }
void harness_v_reserve(void) { EACH(4, b_reserve); VF_REACHED(); }
void harness_v_append(void) { EACH(3, b_append); VF_REACHED(); }
void harness_v_init(void) { EACH(3, b_init); VF_REACHED(); }
void harness_v_sample(void) { EACH(4, b_sample); VF_REACHED(); }
void harness_v_shuffle(void) { EACH(4, b_shuffle); VF_REACHED(); }
