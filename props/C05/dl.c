/*
 * list.h: SL_* and DL_* against the sequence of elements they stand for.
 * Every operation is loop free and follows at most the links of its
 * argument nodes, their neighbours and the head; lists of up to 4 nodes
 * contain every configuration of those (absent / first / inner / last).
 */
//@ unit dl_one kind=full unwind=12 fn=DL_INSERT_HEAD,DL_INSERT_TAIL,DL_APPEND,DL_INSERT_AFTER,DL_INSERT_BEFORE,DL_REMOVE,DL_REMOVE_HEAD,DL_REMOVE_TAIL
//@ unit dl_two kind=full unwind=12 fn=DL_APPEND_LIST,DL_PREPEND_LIST
//@ unit dl_iter kind=full unwind=12 fn=DL_FOREACH,DL_FOREACH_REVERSE,DL_EMPTY,DL_empty_p,DL_INIT,DL_HEAD_INITIALIZER,DL_LINK_INIT
//@ unit sl_all kind=full unwind=12 fn=SL_INSERT_HEAD,SL_INSERT_AFTER,SL_REMOVE_HEAD,SL_FOREACH,SL_FOREACH_SAFE,SL_EMPTY,SL_INIT
//@ trust small-model argument: the list operations are loop free and touch only their argument nodes, neighbours and heads, so lists of up to 4 nodes cover every case
#include "vf.h"
#include "fast/list.h"
#define M 4
typedef struct el { int a; DL_LINK(el) l; int b; SL_LINK(el) s; } el;
DL_HEAD_TYPEDEF(dlh, el);
SL_HEAD_TYPEDEF(slh, el);
static el P[2 * M + 1];
static int seq[2 * M + 1], n;        /* expected sequence of node numbers */
#define NODE(i)  (&P[i])

/* head with nodes from..from+m-1 */
static void build(dlh *h, int from, int m)
{
    DL_INIT(h);
    for (int i = 0; i < M; i++) if (i < m) {
        P[from + i].l.prev = i ? &P[from + i - 1] : 0;
        P[from + i].l.next = i + 1 < m ? &P[from + i + 1] : 0;
    }
    if (m) { h->first = &P[from]; h->last = &P[from + m - 1]; }
}
static void expect(dlh *h)
{
    VF_ENSURES("first-last", n ? (h->first == &P[seq[0]] && h->last == &P[seq[n - 1]]) : (h->first == 0 && h->last == 0));
    for (int i = 0; i < 2 * M + 1; i++) if (i < n) {
        VF_ENSURES("forward-links", P[seq[i]].l.next == (i + 1 < n ? &P[seq[i + 1]] : 0));
        VF_ENSURES("backward-links", P[seq[i]].l.prev == (i ? &P[seq[i - 1]] : 0));
    }
    VF_ENSURES("empty", !!DL_EMPTY(h) == (n == 0) && !!DL_empty_p(h) == (n == 0));
}
static void ins(int at, int node) { for (int i = M + 1; i > 0; i--) if (i > at && i <= n) seq[i] = seq[i - 1]; seq[at] = node; n++; }
static void del(int at) { for (int i = 0; i < M; i++) if (i >= at && i + 1 < n) seq[i] = seq[i + 1]; n--; }
static void start(dlh *h, int *m)
{
    for (int i = 0; i < 2 * M + 1; i++) { P[i].a = i; P[i].b = ~i; P[i].l.next = P[i].l.prev = (el *)0x10; }
    int k = vf_int(); VF_REQUIRES(k >= 0 && k <= M);
    build(h, 0, k);
    n = k; for (int i = 0; i < M; i++) seq[i] = i;
    *m = k;
}
static void payload(void) { for (int i = 0; i < 2 * M + 1; i++) VF_ENSURES("payload", P[i].a == i && P[i].b == ~i); }

void harness_dl_one(void)
{
    dlh h; int m; start(&h, &m);
    int op = vf_int(), at = vf_int(); VF_REQUIRES(op >= 0 && op < 8);
    el *x = &P[2 * M], *z;
    if (op >= 3 && op <= 5) VF_REQUIRES(at >= 0 && at < m);
    switch (op) {
    case 0: DL_INSERT_HEAD(&h, x, l); ins(0, 2 * M); break;
    case 1: DL_INSERT_TAIL(&h, x, l); ins(n, 2 * M); break;
    case 2: DL_APPEND(&h, x, l); ins(n, 2 * M); break;
    case 3: DL_INSERT_AFTER(&h, NODE(at), x, l); ins(at + 1, 2 * M); break;
    case 4: DL_INSERT_BEFORE(&h, NODE(at), x, l); ins(at, 2 * M); break;
    case 5: DL_REMOVE(&h, NODE(at), l); del(at); break;
    case 6: z = DL_REMOVE_HEAD(&h, l); VF_ENSURES("removed-head", z == (m ? &P[0] : 0)); if (m) del(0); break;
    default: z = DL_REMOVE_TAIL(&h, l); VF_ENSURES("removed-tail", z == (m ? &P[m - 1] : 0)); if (m) del(m - 1); break;
    }
    expect(&h); payload();
    VF_REACHED();
}
void harness_dl_two(void)
{
    dlh h, g; int m, k = vf_int(); start(&h, &m);
    VF_REQUIRES(k >= 0 && k <= M);
    build(&g, M, k);
    n = 0;
    if (vf_bool()) {
        DL_APPEND_LIST(&h, &g, l);
        for (int i = 0; i < M; i++) if (i < m) seq[n++] = i;
        for (int i = 0; i < M; i++) if (i < k) seq[n++] = M + i;
    } else {
        DL_PREPEND_LIST(&h, &g, l);
        for (int i = 0; i < M; i++) if (i < k) seq[n++] = M + i;
        for (int i = 0; i < M; i++) if (i < m) seq[n++] = i;
    }
    expect(&h); payload();
    VF_ENSURES("source-list-emptied", DL_EMPTY(&g) && g.last == 0);
    VF_REACHED();
}
void harness_dl_iter(void)
{
    dlh h, e = DL_HEAD_INITIALIZER(e); int m; start(&h, &m);
    el *p; int i = 0;
    VF_ENSURES("initializer-empty", DL_EMPTY(&e) && e.last == 0);
    DL_FOREACH(&h, p, l) { VF_ENSURES("foreach-order", i < m && p == &P[i]); i++; }
    VF_ENSURES("foreach-all", i == m);
    DL_FOREACH_REVERSE(&h, p, l) { i--; VF_ENSURES("reverse-order", i >= 0 && p == &P[i]); }
    VF_ENSURES("reverse-all", i == 0);
    VF_ENSURES("accessors", DL_FIRST(&h) == (m ? &P[0] : 0) && DL_LAST(&h) == (m ? &P[m - 1] : 0));
    if (m > 1) VF_ENSURES("next-prev", DL_NEXT(&P[0], l) == &P[1] && DL_PREV(&P[1], l) == &P[0]);
    p = &P[0]; DL_LINK_INIT(p, l); VF_ENSURES("link-init", P[0].l.next == 0 && P[0].l.prev == 0);
    DL_INIT(&h); VF_ENSURES("init-empty", DL_EMPTY(&h) && h.last == 0);
    VF_REACHED();
}
void harness_sl_all(void)
{
    slh h = SL_HEAD_INITIALIZER(h); int m = vf_int(), at = vf_int(), op = vf_int(), i = 0;
    el *p, *t;
    VF_ENSURES("initializer-empty", SL_EMPTY(&h));
    VF_REQUIRES(m >= 0 && m <= M && op >= 0 && op < 3);
    for (int j = 0; j < 2 * M + 1; j++) { P[j].a = j; P[j].b = ~j; P[j].s.sle_next = (el *)0x10; }
    SL_INIT(&h);
    for (int j = 0; j < M; j++) { seq[j] = j; if (j < m) P[j].s.sle_next = j + 1 < m ? &P[j + 1] : 0; }
    if (m) h.slh_first = &P[0];
    n = m;
    if (op == 0) { SL_INSERT_HEAD(&h, &P[2 * M], s); ins(0, 2 * M); }
    else if (op == 1) { VF_REQUIRES(at >= 0 && at < m); SL_INSERT_AFTER(&h, &P[at], &P[2 * M], s); ins(at + 1, 2 * M); }
    else { VF_REQUIRES(m > 0); SL_REMOVE_HEAD(&h, s); del(0); }
    VF_ENSURES("sl-first", SL_FIRST(&h) == (n ? &P[seq[0]] : 0) && !!SL_EMPTY(&h) == (n == 0));
    SL_FOREACH(p, &h, s) { VF_ENSURES("sl-order", i < n && p == &P[seq[i]]); i++; }
    VF_ENSURES("sl-all", i == n);
    i = 0;
    SL_FOREACH_SAFE(p, &h, s, t) { VF_ENSURES("sl-safe-order", i < n && p == &P[seq[i]]); p->s.sle_next = 0; i++; }
    VF_ENSURES("sl-safe-all", i == n);
    payload();
    VF_REACHED();
}
