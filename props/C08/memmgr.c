/* memmgr.c: the allocator interface other modules are given */
//@ unit memmgr kind=full unwind=5 fn=memmgr_init,memmgr_init_default,memmgr_init_xmalloc
#include "vf.h"
#include "src/memmgr.c"
void error(int x, int y, const char *f, ...) { VF_REQUIRES(0); }
static void *al(void *c, size_t n) { return c; }
static void fr(void *c, void *p) { }
void harness_memmgr(void)
{
    memmgr m, *q; int x;
    q = memmgr_init(&m, al, vf_bool() ? fr : 0, &x);
    VF_ENSURES("init", q == &m && m.alloc == al && m.free && m.context == &x && memmgr_alloc(&m, 3) == &x);
    memmgr_free(&m, &x);
    VF_ENSURES("init.null", memmgr_init(0, al, fr, 0) == 0 && memmgr_init_default(0) == 0 && memmgr_init_xmalloc(0) == 0);
    size_t n = vf_size(); VF_REQUIRES(n < 1000);
    q = vf_bool() ? memmgr_init_default(&m) : memmgr_init_xmalloc(&m);
    char *p = memmgr_alloc(q, n + 1);
    VF_ENSURES("default.room", p != 0);
    p[n] = 1;
    memmgr_free(q, p);
    memmgr_free(q, (void *)0);
    VF_REACHED();
}
