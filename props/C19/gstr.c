/*
 * gstring.c: a growable string is the sequence of its characters, NUL
 * terminated, with an exact length, inside its capacity.  W is an arbitrary
 * position of the result, so each postcondition speaks about every character.
 */
//@ unit g_append_str kind=loops dfcc=no unwind=9 fn=gstr_append_str,__append,grow_if
//@ unit g_append kind=loops dfcc=no unwind=9 fn=gstr_append,__append,grow_if
//@ unit g_append_ch kind=loops dfcc=no unwind=9 fn=gstr_append_ch,grow_if
//@ unit g_copy kind=loops dfcc=no unwind=9 fn=gstr_copy,grow_if
//@ unit g_init kind=loops dfcc=no unwind=9 bflags="--object-bits 12" fn=gstr_init,gstr_init_from,gstr_dup,__init_gstr,gstr_fini
//@ unit g_cut kind=loops dfcc=no unwind=9 punwind=6 fn=gstr_truncate,gstr_chop,gstr_chop_if,gstr_reset,gstr_lastch
//@ unit g_eq kind=bounded unwind=9 fn=gstr_eq,gstr_eq_str bound="strings of up to 3 characters"
//@ unit g_unquote kind=loops dfcc=no unwind=9 fn=gstr_unquote
//@ trust strings of up to 2^40 characters; allocation succeeds (the code asserts it); strlen, memcpy, memmove, memcmp, strchr and realloc by contract at the witness positions
#include "vf.h"
#include "vf_ctype.h"
#include <assert.h>
static size_t W, WT;            /* tracked positions of the result: witness and terminator */
static char *T; static size_t TN;
#ifdef VF_PROOF
#define BIG ((size_t)1 << 40)
static void *vf_realloc(void *p, size_t n)
{
    VF_ENSURES("realloc-not-below-content", n >= 1);
    char *q = malloc(n), *o = p; __CPROVER_assume(q != 0);
    size_t old = p ? __CPROVER_OBJECT_SIZE(p) : 0;
    if (W < old && W < n) q[W] = o[W];
    if (WT < old && WT < n) q[WT] = o[WT];
    free(p);
    return q;
}
static void *vf_calloc(size_t a, size_t b)
{
    char *q = malloc(a * b); __CPROVER_assume(q != 0);
    if (W < a * b) q[W] = 0;
    if (WT < a * b) q[WT] = 0;
    return q;
}
static size_t SL[2]; static char *SP[2];
static size_t vf_strlen(const char *s)
{
    for (int i = 0; i < 2; i++) if (s == SP[i]) return SL[i];
    size_t n = vf_size();
    __CPROVER_assume(n < __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s) && s[n] == 0);
    return n;
}
static void *vf_copy(void *d, const void *s, size_t n)
{
    VF_ENSURES("memcpy-in-bounds", n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)));
    size_t o = __CPROVER_POINTER_OFFSET(d); char *b = (char *)d - o; const char *c = s;
    char v = W >= o && W < o + n ? c[W - o] : b[W];
    char t = WT >= o && WT < o + n ? c[WT - o] : WT < __CPROVER_OBJECT_SIZE(b) ? b[WT] : 0;
    size_t z = vf_size();
    if (z >= o && z < o + n) b[z] = vf_u8();
    if (W < __CPROVER_OBJECT_SIZE(b)) b[W] = v;
    if (WT < __CPROVER_OBJECT_SIZE(b)) b[WT] = t;
    return d;
}
#define strlen(s)        vf_strlen(s)
#define memcpy(d, s, n)  vf_copy(d, s, n)
#define memmove(d, s, n) vf_copy(d, s, n)
#define calloc(a, b)     vf_calloc(a, b)
#define realloc(p, n)    vf_realloc(p, n)
#else
#define BIG 0
#endif
#include "src/gstring.c"

/* a string object: capacity c, length n, no NUL before the end (at the witness) */
static char *mk(size_t c, size_t n)
{
    VF_REQUIRES(n < c);
    char *p = VF_NEWA(char, c); vf_fill(p, c);
    VF_REQUIRES(p[n] == 0);
#ifndef VF_PROOF
    for (size_t i = 0; i < n; i++) VF_REQUIRES(p[i] != 0);
#endif
    return p;
}
static gstr G, H;
#ifdef VF_PROOF
#define KNOW(i, p, n) (SP[i] = (p), SL[i] = (n))
#else
#define KNOW(i, p, n) ((void)0)
#endif
static void mkg(gstr *g, size_t c, size_t n) { g->str = mk(c, n); g->cap = c; g->len = n; KNOW(g == &H, g->str, n); }
#ifdef VF_PROOF
#define ROOM(g) VF_ENSURES("gstr.inside-capacity", (g).len < (g).cap && __CPROVER_w_ok((g).str, (g).cap))
#else
static int room(gstr *g) { for (size_t i = 0; i < g->cap; i++) g->str[i] ^= 0; return 1; }
#define ROOM(g) VF_ENSURES("gstr.inside-capacity", (g).len < (g).cap && room(&(g)))
#endif
static void append(size_t c, size_t n, size_t m, int how)
{
    mkg(&G, c, n); W = vf_size(); WT = n + m;
    VF_REQUIRES(W < WT);
    char w = 0;
    char *o = G.str; w = W < n ? o[W] : 0; size_t r;
    if (how == 2) { int ch = vf_int(); VF_REQUIRES(m == 1 && n < ((size_t)1 << 31) - 1); if (W == n) w = (char)ch; r = (size_t)gstr_append_ch(&G, ch); }
    else {
        mkg(&H, m + 1, m); if (W >= n) w = H.str[W - n];
        if (how == 0) { r = gstr_append_str(&G, H.str); }
        else { VF_REQUIRES(n + m < ((size_t)1 << 31)); r = (size_t)gstr_append(&G, &H); }
        VF_ENSURES("append.source-unchanged", H.len == m && H.str[m] == 0 && (W < n || H.str[W - n] == w));
    }
    VF_ENSURES("append.length", G.len == n + m && r == n + m);
    ROOM(G);
    VF_ENSURES("append.content", G.str[W] == w);
    VF_ENSURES("append.terminated", G.str[n + m] == 0);
    VF_ENSURES("append.null", (how == 0 ? gstr_append_str(&G, 0) : how == 1 ? (size_t)gstr_append(&G, 0) : n + m) == n + m && G.len == n + m);
    free(G.str); if (how != 2) free(H.str);
}
static void copy(size_t c, size_t n, size_t m, int how)
{
    mkg(&G, c, n); mkg(&H, m + 1, m); W = vf_size(); WT = m; VF_REQUIRES(W <= m);
    char w = H.str[W];
    gstr *r = gstr_copy(&G, &H);
    VF_ENSURES("copy.length", r == &G && G.len == m && H.len == m);
    ROOM(G);
    VF_ENSURES("copy.content", G.str[W] == w && H.str[W] == w && G.str != H.str);
    VF_ENSURES("copy.terminated", G.str[m] == 0);
    free(G.str); free(H.str); (void)how;
}
static void init(size_t c, size_t n, size_t m, int how)
{
    mkg(&H, m + 1, m); W = vf_size(); WT = m; VF_REQUIRES(W <= m);
    char w = H.str[W];
    int k = vf_int();
    if (k == 0) { WT = 0; W = 0; gstr_init(&G, n); VF_ENSURES("init.empty", G.len == 0 && G.str[0] == 0 && G.cap > n); ROOM(G); }
    else if (k == 1) { WT = 0; W = 0; gstr_init_from(&G, 0); VF_ENSURES("init.from-null", G.len == 0 && G.str[0] == 0); ROOM(G); }
    else {
        if (k == 2) gstr_init_from(&G, H.str); else gstr_dup(&G, &H);
        VF_ENSURES("init.length", G.len == m && H.len == m); ROOM(G);
        VF_ENSURES("init.content", G.str[W] == w && H.str[W] == w && G.str != H.str);
        VF_ENSURES("init.terminated", G.str[m] == 0);
    }
    gstr_fini(&G);
    VF_ENSURES("fini.empty", G.str == 0 && G.len == 0 && G.cap == 0);
    free(H.str); (void)c; (void)how;
}
#define IN(x, s) ((x) == (s)[0] || ((s)[0] && ((x) == (s)[1] || ((s)[1] && (x) == (s)[2]))))
static void cut(size_t c, size_t n, size_t m, int how)
{
    mkg(&G, c, n); W = vf_size(); VF_REQUIRES(W < n || (n == 0 && W == 0));
    WT = n; char w = G.str[W], a = n ? G.str[n - 1] : 0, b = n > 1 ? G.str[n - 2] : 0; VF_REQUIRES(n == 0 || (a != 0 && w != 0)); VF_REQUIRES(n < 2 || b != 0);
    char *o = G.str; int k = vf_int(); size_t want;
    VF_ENSURES("lastch", gstr_lastch(&G) == a);
    if (k == 0) { want = m < n ? m : n; VF_REQUIRES(want < ((size_t)1 << 31)); int r = gstr_truncate(&G, m); VF_ENSURES("truncate.length", (size_t)r == want); }
    else if (k == 1) { int r = gstr_chop(&G); want = n - (n && a == '\n' ? 1 + (n > 1 && b == '\r') : n && a == '\r' ? 1 : 0); VF_ENSURES("chop.reports", want == n || r == (n - want == 2 ? '\r' : a)); }
    else if (k == 2) {
        char s[4]; for (int i = 0; i < 3; i++) s[i] = (char)vf_u8(); s[3] = 0; VF_REQUIRES(s[0] != 0);
        int r = gstr_chop_if(&G, s); want = n - (n > 0 && IN(a, s));
        VF_ENSURES("chop-if.reports", r == a);
    }
    else { gstr_reset(&G); want = 0; }
    VF_ENSURES("cut.length", G.len == want && G.str == o && G.cap == c);
    VF_ENSURES("cut.terminated", G.str[want] == 0);
    VF_ENSURES("cut.content", W >= want || G.str[W] == w);
    free(G.str); (void)how;
}
static void eq(size_t c, size_t n, size_t m, int how)
{
    mkg(&G, c, n); mkg(&H, m + 1, m); (void)how;
    int e = n == m; for (size_t i = 0; i < n && e; i++) e = G.str[i] == H.str[i];
    VF_ENSURES("eq", !!gstr_eq(&G, &H) == e); VF_ENSURES("eq-str", !!gstr_eq_str(&G, H.str) == e);
    free(G.str); free(H.str);
}
static void unq(size_t c, size_t n, size_t m, int how)
{
    mkg(&G, c, n); W = vf_size(); VF_REQUIRES(W < n || (n == 0 && W == 0)); (void)m; (void)how;
    char f = G.str[0], l = n ? G.str[n - 1] : 0, w = G.str[W], w1 = G.str[W + 1 <= n ? W + 1 : n]; char *o = G.str;
    VF_REQUIRES(n == 0 || (f != 0 && l != 0));
    WT = W + 1;
    int r = gstr_unquote(&G);
    if (n == 0 || (f != '"' && f != '\'')) VF_ENSURES("unquote.none", r == 0 && G.len == n && G.str[W] == w && G.str[n] == 0);
    else if (n < 2 || l != f) VF_ENSURES("unquote.unclosed", r < 0 && G.len == n && G.str[W] == w && G.str[n] == 0);
    else {
        VF_ENSURES("unquote.length", r == f && G.len == n - 2 && G.str == o && G.cap == c && G.str[n - 2] == 0);
        VF_ENSURES("unquote.content", W >= n - 2 || G.str[W] == w1);
    }
    free(G.str);
}
static void each(void (*f)(size_t, size_t, size_t, int), int how)
{
#ifdef VF_PROOF
    f(vf_len(BIG, 0), vf_len(BIG, 0), vf_len(BIG, 0), how);
#else
    size_t c = vf_len(0, 4), n = vf_len(0, 3), m = vf_len(0, 3);
    for (size_t i = 1; i <= 4; i++) for (size_t j = 0; j < i; j++) for (size_t k = 0; k <= 3; k++) if (c == i && n == j && m == k) f(i, j, k, how);
#endif
    VF_REACHED();
}
void harness_g_append_str(void) { each(append, 0); }
void harness_g_append(void) { each(append, 1); }
void harness_g_append_ch(void) { each(append, 2); }
void harness_g_copy(void) { each(copy, 0); }
void harness_g_init(void) { each(init, 0); }
void harness_g_cut(void) { each(cut, 0); }
void harness_g_unquote(void) { each(unq, 0); }
void harness_g_eq(void) { each(eq, 0); }
