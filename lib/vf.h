/*
 * vf.h - the harness vocabulary used by every contract unit.
 *
 * A unit is one C file that includes the *real* source of /repo and
 * states, for one or more functions, requires/ensures as
 * VF_REQUIRES(..)/VF_ENSURES(..) around the call.  The same file is used
 * in three ways:
 *
 *   VF_PROOF   deductive run: sizes unbounded, loops cut by their
 *              contracts (invariant/assigns/decreases) which the driver
 *              inserts in a derived copy of the source.
 *   VF_BMC     bounded run: same contract, small sizes, loops unwound;
 *              used to turn a failed obligation into a concrete input
 *              and as a labelled stand-in if a contract cannot attach.
 *   VF_REPLAY  native run (gcc, ASan/UBSan) of the same contract with the
 *              inputs taken from a counterexample.
 */
#ifndef VF_H
#define VF_H 1
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <sys/types.h>

#ifdef VF_REPLAY
  /* ---- native ---- */
  extern uint64_t vf_in_(const char *name);
  extern void     vf_fail_(const char *what, const char *file, int line);
  extern void     vf_skip_(const char *what);
# define VF_CUR_
# define VF_REQUIRES(c)      do { if (!(c)) vf_skip_(#c); } while (0)
# define VF_ENSURES(id, c)   do { if (!(c)) vf_fail_("ensures " id ": " #c, __FILE__, __LINE__); } while (0)
# define VF_REACHED()        do { } while (0)
# define VF_PROOF_ONLY(x)
# define VF_INV(...)
static inline uint64_t vf_u64(void) { return vf_in_("u64"); }
static inline void *vf_alloc(size_t n) {
    void *p = malloc(n);
    if (!p) abort();
    if (n) memset(p, 0xA5, n);
    return p;
}
#else
  /* ---- CBMC ---- */
  uint64_t vf_log;
  uint64_t vf_nondet_u64(void);
# define VF_REQUIRES(c)      __CPROVER_assume(c)
# define VF_ENSURES(id, c)   __CPROVER_assert((c), "ensures " id ": " #c)
# define VF_REACHED()        __CPROVER_assert(0, "vf-vacuity-probe")
# ifdef VF_PROOF
static inline uint64_t vf_u64(void) { uint64_t vf_val; return vf_val; }
# else
static inline uint64_t vf_u64(void) { uint64_t vf_val; vf_log = vf_val; return vf_val; }
# endif
static inline void *vf_alloc(size_t n) {
    void *p = malloc(n);
    __CPROVER_assume(p != 0);
    return p;
}
#endif

/* a typed array (typed objects are much cheaper for the verifier than bytes) */
#ifdef VF_REPLAY
#define VF_NEWA(T, n)  ((T *)vf_alloc(sizeof(T) * (n)))
#else
#define VF_NEWA(T, n)  ({ T *vf_p_ = (T *)malloc(sizeof(T) * (n)); __CPROVER_assume(vf_p_ != 0); vf_p_; })
#endif

#define vf_u8()    ((uint8_t)vf_u64())
#define vf_u16()   ((uint16_t)vf_u64())
#define vf_u32()   ((uint32_t)vf_u64())
#define vf_size()  ((size_t)vf_u64())
#define vf_int()   ((int)vf_u64())
#define vf_bool()  ((int)(vf_u64() & 1))

/* a size: unbounded (below max) in the proof, <= small in the bounded runs */
static inline size_t vf_len(size_t max, size_t small)
{
    size_t n = vf_size();
#ifdef VF_PROOF
    (void)small;
    VF_REQUIRES(n <= max);
#else
    (void)max;
    VF_REQUIRES(n <= small);
#endif
    return n;
}

/* fill n bytes with arbitrary values; in the proof memory fresh from malloc
 * is already arbitrary. */
#ifdef VF_PROOF
#define vf_fill(p, n)   ((void)(p), (void)(n))
#else
static inline void vf_fill(void *p, size_t n)
{
    uint8_t *b = (uint8_t *)p;
    for (size_t i = 0; i < n; i++) b[i] = vf_u8();
}
#endif

#ifdef VF_PROOF
#define vf_fillw(p, n)  ((void)(p), (void)(n))
#else
static inline void vf_fillw(uint64_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = vf_u64(); }
#endif

/* an exactly sized object with arbitrary contents */
static inline void *vf_bytes(size_t n)
{
    void *p = vf_alloc(n);
    vf_fill(p, n);
    return p;
}

/* ghost step in a loop that walks a pointer: p is re-expressed as base + index,
 * an equal pointer (asserted), because the verifier handles an index into a
 * typed array far better than an arbitrary byte offset */
#define VF_NORM(p, base) { size_t vf_k_ = __CPROVER_POINTER_OFFSET(p) / sizeof(*(p)); \
    __CPROVER_assert((p) == (base) + vf_k_, "pointer is base plus index"); (p) = (base) + vf_k_; }

/* largest object size considered in the proofs */
#define VF_MAXOBJ   ((size_t)1 << 40)

#ifdef VF_PROOF
/* in proofs most things are relative to an arbitrary witness index */
#endif

#endif
