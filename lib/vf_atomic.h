/*
 * vf_atomic.h - rely/guarantee view of C11 atomics.
 *
 * The real code's atomic accesses are redirected to vf_aload/vf_astore/...
 * which the unit defines: every access first lets the environment (the
 * other threads) take any number of steps allowed by the rely, then
 * checks the guarantee of this thread, including the memory order.
 */
#ifndef VF_ATOMIC_H
#define VF_ATOMIC_H
#include <stdatomic.h>

#define VF_ACQ(o)  ((o) == memory_order_acquire || (o) == memory_order_seq_cst || (o) == memory_order_acq_rel || (o) == memory_order_consume)
#define VF_REL(o)  ((o) == memory_order_release || (o) == memory_order_seq_cst || (o) == memory_order_acq_rel)

static uint64_t vf_aload(void *p, int order);
static void     vf_astore(void *p, uint64_t v, int order);
static int      vf_acas(void *p, void *exp, size_t expsz, uint64_t v, int order, int forder, int weak);
static uint64_t vf_armw_add(void *p, uint64_t v, int order);

#undef atomic_load_explicit
#undef atomic_load
#undef atomic_store_explicit
#undef atomic_store
#undef atomic_init
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#undef atomic_fetch_add
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_sub_explicit
#undef atomic_exchange
#undef atomic_exchange_explicit
#undef atomic_thread_fence
#define atomic_load_explicit(p, o)      vf_aload((void *)(p), (o))
#define atomic_load(p)                  vf_aload((void *)(p), memory_order_seq_cst)
#define atomic_store_explicit(p, v, o)  vf_astore((void *)(p), (uint64_t)(v), (o))
#define atomic_store(p, v)              vf_astore((void *)(p), (uint64_t)(v), memory_order_seq_cst)
#define atomic_init(p, v)               vf_astore((void *)(p), (uint64_t)(v), memory_order_seq_cst)
#define atomic_compare_exchange_strong_explicit(p, e, v, o, f) vf_acas((void *)(p), (e), sizeof *(e), (uint64_t)(v), (o), (f), 0)
#define atomic_compare_exchange_weak_explicit(p, e, v, o, f)   vf_acas((void *)(p), (e), sizeof *(e), (uint64_t)(v), (o), (f), 1)
#define atomic_compare_exchange_strong(p, e, v) atomic_compare_exchange_strong_explicit(p, e, v, memory_order_seq_cst, memory_order_seq_cst)
#define atomic_compare_exchange_weak(p, e, v)   atomic_compare_exchange_weak_explicit(p, e, v, memory_order_seq_cst, memory_order_seq_cst)
#define atomic_fetch_add_explicit(p, v, o)      vf_armw_add((void *)(p), (uint64_t)(v), (o))
#define atomic_fetch_add(p, v)                  vf_armw_add((void *)(p), (uint64_t)(v), memory_order_seq_cst)
#define atomic_fetch_sub_explicit(p, v, o)      vf_armw_add((void *)(p), (uint64_t)0 - (uint64_t)(v), (o))
#define atomic_fetch_sub(p, v)                  vf_armw_add((void *)(p), (uint64_t)0 - (uint64_t)(v), memory_order_seq_cst)
#endif
