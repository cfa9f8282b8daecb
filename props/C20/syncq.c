/*
 * syncq.h: the blocking queue, thread-modular.  Ghost: ENQ, DEQ count the
 * items written to / read from slots so far (item i goes to slot i mod SZ);
 * a thread that returned from sem_wait(notfull) holds a free-slot credit, one
 * that returned from sem_wait(notempty) an item credit.  Invariant of the
 * monitor (held whenever the mutex is free):
 *     wr == ENQ mod SZ, rd == DEQ mod SZ, DEQ <= ENQ <= DEQ + SZ,
 *     free-slot credits handed out and not used  <=  SZ - (ENQ - DEQ),
 *     item credits handed out and not used       <=  ENQ - DEQ.
 * Each operation is proved against any step of the other threads at every
 * point where it does not hold the mutex, and must keep the invariant.
 */
//@ unit sq_enq kind=loops dfcc=no unwind=9 fn=SYNCQ_ENQ
//@ unit sq_deq kind=loops dfcc=no unwind=9 fn=SYNCQ_DEQ
//@ unit sq_init kind=loops dfcc=no unwind=9 fn=SYNCQ_INIT,__syncobj_init,SYNCQ_FINI
//@ trust pthread mutexes and semaphores by their specification (mutual exclusion and memory ordering; sem_wait returns with a credit); counters below 2^32 items
#include "vf.h"
#include <errno.h>
#ifndef VF_REPLAY
#include <pthread.h>
#include <semaphore.h>
static int h_lock(pthread_mutex_t *), h_unlock(pthread_mutex_t *), h_wait(sem_t *), h_post(sem_t *);
static int h_minit(pthread_mutex_t *, const void *), h_sinit(sem_t *, int, unsigned), h_mdes(pthread_mutex_t *), h_sdes(sem_t *);
#define pthread_mutex_lock h_lock
#define pthread_mutex_unlock h_unlock
#define pthread_mutex_init h_minit
#define pthread_mutex_destroy h_mdes
#define sem_wait h_wait
#define sem_post h_post
#define sem_init h_sinit
#define sem_destroy h_sdes
#else
#include <semaphore.h>
/* natively: what is announced may be used by another thread at once */
static void vf_announced(sem_t *); static int vf_post(sem_t *s) { int r = sem_post(s); vf_announced(s); return r; }
#define sem_post vf_post
#endif
#include "fast/syncq.h"
#ifndef VF_REPLAY
struct sq { __syncobj s; uint64_t *e; };    /* as SYNCQ_TYPEDEF, the slot array apart so that its size is a parameter */
static struct sq S; static uint64_t SZ, ENQ, DEQ, MYPOS, SEEN, EPOS, EWR; static int LOCKED, CF, CE, USEF, USEE, POSTF, POSTE, LOCKS, ERR;
static uint64_t K, VK, OTHER, OV;
/* the other threads: any state allowed by the invariant, given the credits held here */
static void environment(void)
{
    uint64_t qe = vf_u32(), re = vf_u32(), qd = vf_u32(), rd = vf_u32();
    ENQ = vf_u64(); DEQ = vf_u64();
    VF_REQUIRES(qe < SZ && qd < SZ && DEQ <= ENQ && ENQ - DEQ <= SZ);
    (void)re; (void)rd;
    /* ENQ mod SZ == qe, DEQ mod SZ == qd */
    VF_REQUIRES(qe == (qd + (ENQ - DEQ) >= SZ ? qd + (ENQ - DEQ) - SZ : qd + (ENQ - DEQ)));
    if (CF) VF_REQUIRES(ENQ - DEQ < SZ);
    if (CE) VF_REQUIRES(ENQ > DEQ);
    S.s.wr = (uint32_t)qe; S.s.rd = (uint32_t)qd;
    S.e = VF_NEWA(uint64_t, SZ); vf_fillw(S.e, SZ);
    K = vf_u64(); VF_REQUIRES(K < SZ); VK = S.e[K];      /* an arbitrary slot */
    EWR = qe; EPOS = qd;
}
static int h_lock(pthread_mutex_t *m)
{
    VF_ENSURES("syncq.locks-the-queue", m == &S.s.lock && !LOCKED && LOCKS == 0);
    VF_ENSURES("syncq.credit-before-lock", CF || CE);   /* waiting inside the lock could block everybody */
    environment(); LOCKED = 1; LOCKS++;
    return 0;
}
static int h_unlock(pthread_mutex_t *m)
{
    VF_ENSURES("syncq.unlocks-the-queue", m == &S.s.lock && LOCKED);
    LOCKED = 0;
    uint64_t w1 = EWR + 1 == SZ ? 0 : EWR + 1, r1 = EPOS + 1 == SZ ? 0 : EPOS + 1;
    if (CF) {
        VF_ENSURES("syncq.enq-advances-once", S.s.wr == w1 && S.s.rd == EPOS);
        VF_ENSURES("syncq.enq-writes-its-slot", S.e[EWR] == MYPOS);
        VF_ENSURES("syncq.enq-writes-only-its-slot", K == EWR || S.e[K] == VK);
    } else {
        VF_ENSURES("syncq.deq-advances-once", S.s.rd == r1 && S.s.wr == EWR);
        VF_ENSURES("syncq.deq-writes-nothing", S.e[K] == VK);
        SEEN = S.e[EPOS];
    }
    VF_ENSURES("syncq.size-kept", S.s.sz == SZ);
    S.e = 0;                     /* no access to the slots any more */
    return 0;
}
static int h_wait(sem_t *s)
{
    VF_ENSURES("syncq.waits-outside-the-lock", !LOCKED && !CF && !CE && LOCKS == 0);
    if (s == &S.s.notfull) CF = 1; else { VF_ENSURES("syncq.semaphore", s == &S.s.notempty); CE = 1; }
    return 0;
}
static int h_post(sem_t *s)
{
    VF_ENSURES("syncq.posts-after-the-lock", LOCKS == 1);
    if (s == &S.s.notfull) POSTF++; else { VF_ENSURES("syncq.semaphore", s == &S.s.notempty); POSTE++; }
    return 0;
}
static int MI, SI[2], MD, SD[2]; static unsigned SV[2];
static int h_minit(pthread_mutex_t *m, const void *a) { VF_ENSURES("syncq.init-mutex", m == &S.s.lock && a == 0 && !MI); if (ERR == 1) return EAGAIN; MI = 1; return 0; }
static int h_sinit(sem_t *s, int sh, unsigned v)
{
    int i = s == &S.s.notfull; VF_ENSURES("syncq.init-semaphore", (i || s == &S.s.notempty) && sh == 0 && !SI[i]);
    if (ERR == 2 + i) { errno = EINVAL; return -1; }
    SI[i] = 1; SV[i] = v; return 0;
}
static int h_mdes(pthread_mutex_t *m) { VF_ENSURES("syncq.fini-mutex", m == &S.s.lock && !MD); MD = 1; return 0; }
static int h_sdes(sem_t *s) { int i = s == &S.s.notfull; VF_ENSURES("syncq.fini-semaphore", (i || s == &S.s.notempty) && !SD[i]); SD[i] = 1; return 0; }
static void init(uint64_t sz)
{
    VF_REQUIRES(sz >= 1); SZ = sz; S.s.sz = (uint32_t)sz; S.e = 0; LOCKED = CF = CE = POSTF = POSTE = LOCKS = 0; MI = MD = SI[0] = SI[1] = SD[0] = SD[1] = 0;
}
static void enq(uint64_t sz)
{
    init(sz); uint64_t v = vf_u64(); MYPOS = v;
    SYNCQ_ENQ(&S, v);
    VF_ENSURES("syncq.enq-complete", LOCKS == 1 && !LOCKED && CF && !CE);
    VF_ENSURES("syncq.enq-announces-one-item", POSTE == 1 && POSTF == 0);
}
static void deq(uint64_t sz)
{
    init(sz); uint64_t v = SYNCQ_DEQ(&S);
    VF_ENSURES("syncq.deq-complete", LOCKS == 1 && !LOCKED && CE && !CF);
    VF_ENSURES("syncq.deq-oldest-item", v == SEEN);
    VF_ENSURES("syncq.deq-announces-one-slot", POSTF == 1 && POSTE == 0);
}
static void ini(uint64_t sz)
{
    init(sz); ERR = vf_int(); VF_REQUIRES(ERR >= 0 && ERR <= 3); errno = vf_int(); VF_REQUIRES(errno >= 0 && errno < 200);
    S.s.rd = vf_u32(); S.s.wr = vf_u32(); S.s.sz = vf_u32();
    int r = SYNCQ_INIT(&S, sz);
    VF_ENSURES("syncq.init-result", ERR ? r == (ERR == 1 ? -EAGAIN : -EINVAL) : r == 0);
    if (!ERR) {
        VF_ENSURES("syncq.init-empty", S.s.rd == 0 && S.s.wr == 0 && S.s.sz == sz);
        VF_ENSURES("syncq.init-credits", MI && SI[0] && SI[1] && SV[0] == 0 && SV[1] == sz);
        SYNCQ_FINI(&S);
        VF_ENSURES("syncq.fini", MD && SD[0] && SD[1]);
    }
}
#endif
#ifdef VF_REPLAY
/* natively: a queue of n slots driven by one thread through several rounds; a call that would block is a failure */
SYNCQ_TYPEDEF(rsq, uint64_t, 8);
static int val(sem_t *s) { int v = -1; sem_getvalue(s, &v); return v; }
static rsq q; static int armed;
static void vf_announced(sem_t *s) { if (armed == 1 && s == &q.s.notfull) { armed = 2; SYNCQ_ENQ(&q, 77); } else if (armed == 3 && s == &q.s.notempty) { armed = 4; VF_ENSURES("syncq.announced-item-is-there", SYNCQ_DEQ(&q) == 78); } }
static void native(size_t n)
{
    memset(&q, 0xff, sizeof q); uint64_t in = 1, out = 1;
    VF_ENSURES("syncq.init-result", SYNCQ_INIT(&q, n) == 0);
    VF_ENSURES("syncq.init-credits", val(&q.s.notfull) == (int)n && val(&q.s.notempty) == 0 && q.s.rd == 0 && q.s.wr == 0 && q.s.sz == n);
    for (size_t r = 0; r < 3 * n + 2; r++) {
        size_t k = r % n + 1;
        for (size_t i = 0; i < k; i++) { SYNCQ_ENQ(&q, in); in++; VF_ENSURES("syncq.enq-announces-one-item", val(&q.s.notempty) == (int)i + 1 && val(&q.s.notfull) == (int)(n - i) - 1); VF_ENSURES("syncq.unlocked", pthread_mutex_trylock(&q.s.lock) == 0); pthread_mutex_unlock(&q.s.lock); }
        for (size_t i = 0; i < k; i++) { uint64_t v = SYNCQ_DEQ(&q); VF_ENSURES("syncq.deq-oldest-item", v == out); out++; VF_ENSURES("syncq.deq-announces-one-slot", val(&q.s.notempty) == (int)(k - i) - 1 && val(&q.s.notfull) == (int)(n - k + i) + 1); VF_ENSURES("syncq.unlocked", pthread_mutex_trylock(&q.s.lock) == 0); pthread_mutex_unlock(&q.s.lock); }
    }
    for (size_t i = 0; i < n; i++) SYNCQ_ENQ(&q, i);
    armed = 1; VF_ENSURES("syncq.deq-oldest-item", SYNCQ_DEQ(&q) == 0); VF_ENSURES("syncq.announces", armed == 2);
    for (size_t i = 1; i < n; i++) VF_ENSURES("syncq.deq-oldest-item", SYNCQ_DEQ(&q) == i);
    VF_ENSURES("syncq.deq-oldest-item", SYNCQ_DEQ(&q) == 77);
    armed = 3; SYNCQ_ENQ(&q, 78); VF_ENSURES("syncq.announces", armed == 4 && val(&q.s.notempty) == 0); armed = 0;
    SYNCQ_FINI(&q);
}
#endif
static void each(int f)
{
#ifdef VF_REPLAY
    size_t n = vf_len(0, 4); (void)f; if (n >= 1) native(n);
#else
#ifdef VF_PROOF
    size_t n = vf_len(0x7fffffff, 0);
    if (f == 0) enq(n); else if (f == 1) deq(n); else ini(n);
#else
    size_t n = vf_len(0, 4); for (size_t i = 1; i <= 4; i++) if (n == i) { if (f == 0) enq(i); else if (f == 1) deq(i); else ini(i); }
#endif
#endif
    VF_REACHED();
}
void harness_sq_enq(void) { each(0); }
void harness_sq_deq(void) { each(1); }
void harness_sq_init(void) { each(2); }
