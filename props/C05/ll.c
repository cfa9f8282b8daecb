/* llist.h: circular lists and hash lists against the sequence they stand for */
//@ unit ll_add kind=full unwind=12 fn=list_init,list_add,list_add_tail,list_rotate_left,list_empty,list_empty_careful,list_is_last,list_is_singular
//@ unit ll_del kind=full unwind=12 fn=list_del,list_del_init
//@ unit ll_replace kind=full unwind=12 fn=list_replace,list_replace_init
//@ unit ll_move kind=full unwind=12 fn=list_move,list_move_tail
//@ unit ll_two kind=full unwind=12 fn=list_splice,list_splice_tail,list_splice_init,list_splice_tail_init,list_cut_position
//@ unit ll_hlist kind=full unwind=12 fn=hlist_add_head,hlist_add_before,hlist_add_after,hlist_del,hlist_del_init,hlist_move_list,hlist_empty,hlist_unhashed
//@ trust small-model argument: the list operations are loop free and touch only their argument nodes, neighbours and heads, so lists of up to 4 nodes cover every case
#include "vf.h"
#include "fast/llist.h"
#define M 4
static list_head P[2 * M + 1];
static int seq[2 * M + 1], n;
static void build(list_head *h, int from, int m)
{
    list_init(h);
    for (int i = 0; i < M; i++) if (i < m) {
        P[from + i].prev = i ? &P[from + i - 1] : h;
        P[from + i].next = i + 1 < m ? &P[from + i + 1] : h;
    }
    if (m) { h->next = &P[from]; h->prev = &P[from + m - 1]; }
}
static void expect(list_head *h)
{
    VF_ENSURES("head-links", h->next == (n ? &P[seq[0]] : h) && h->prev == (n ? &P[seq[n - 1]] : h));
    for (int i = 0; i < 2 * M; i++) if (i < n) {
        VF_ENSURES("forward-links", P[seq[i]].next == (i + 1 < n ? &P[seq[i + 1]] : h));
        VF_ENSURES("backward-links", P[seq[i]].prev == (i ? &P[seq[i - 1]] : h));
    }
    VF_ENSURES("predicates", !!list_empty(h) == (n == 0) && !!list_empty_careful(h) == (n == 0) && !!list_is_singular(h) == (n == 1));
    if (n) VF_ENSURES("is-last", list_is_last(&P[seq[n - 1]], h) && (n < 2 || !list_is_last(&P[seq[0]], h)));
}
static void ins(int at, int node) { for (int i = M + 1; i > 0; i--) if (i > at && i <= n) seq[i] = seq[i - 1]; seq[at] = node; n++; }
static void del(int at) { for (int i = 0; i < M; i++) if (i >= at && i + 1 < n) seq[i] = seq[i + 1]; n--; }
static int start(list_head *h)
{
    int k = vf_int(); VF_REQUIRES(k >= 0 && k <= M);
    for (int i = 0; i < 2 * M + 1; i++) P[i].next = P[i].prev = (list_head *)0x10;
    build(h, 0, k);
    n = k; for (int i = 0; i < M; i++) seq[i] = i;
    return k;
}
#define AT  int at = vf_int(); VF_REQUIRES(at >= 0 && at < m)
void harness_ll_add(void)
{
    list_head h; int m = start(&h), op = vf_int() & 3;
    list_head *x = &P[2 * M];
    switch (op) {
    case 0: list_add(x, &h); ins(0, 2 * M); break;
    case 1: list_add_tail(x, &h); ins(n, 2 * M); break;
    default: list_rotate_left(&h); if (n) { int f = seq[0]; del(0); ins(n, f); } break;
    }
    expect(&h);
    VF_REACHED();
}
void harness_ll_del(void)
{
    list_head h; int m = start(&h); AT;
    if (vf_bool()) { list_del(&P[at]); VF_ENSURES("deleted-unlinked", P[at].next == 0 && P[at].prev == 0); }
    else { list_del_init(&P[at]); VF_ENSURES("deleted-self", list_empty(&P[at])); }
    del(at); expect(&h);
    VF_REACHED();
}
void harness_ll_replace(void)
{
    list_head h; int m = start(&h); AT;
    list_head *x = &P[2 * M];
    if (vf_bool()) list_replace(&P[at], x);
    else { list_replace_init(&P[at], x); VF_ENSURES("replaced-self", list_empty(&P[at])); }
    seq[at] = 2 * M; expect(&h);
    VF_REACHED();
}
void harness_ll_move(void)
{
    list_head h; int m = start(&h); AT;
    if (vf_bool()) { list_move(&P[at], &h); del(at); ins(0, at); }
    else { list_move_tail(&P[at], &h); del(at); ins(n, at); }
    expect(&h);
    VF_REACHED();
}
void harness_ll_two(void)
{
    list_head h, g; int m = start(&h), k = vf_int(), op = vf_int(), at = vf_int(), i;
    VF_REQUIRES(op >= 0 && op < 5);
    if (op == 4) {      /* cut after node at; at == -1 names the head itself */
        VF_REQUIRES(at >= -1 && at < m);
        list_init(&g);
        list_cut_position(&g, &h, at < 0 ? &h : &P[at]);
        int c = at + 1, j = 0;
        for (i = 0; i < M; i++) if (i >= c && i < m) seq[j++] = i;
        n = j; expect(&h);
        for (i = 0; i < M; i++) seq[i] = i;
        n = c; expect(&g);
        VF_REACHED();
        return;
    }
    VF_REQUIRES(k >= 0 && k <= M);
    build(&g, M, k);
    switch (op) {
    case 0: list_splice(&g, &h); break;
    case 1: list_splice_init(&g, &h); break;
    case 2: list_splice_tail(&g, &h); break;
    default: list_splice_tail_init(&g, &h); break;
    }
    n = 0;
    if (op < 2) for (i = 0; i < M; i++) if (i < k) seq[n++] = M + i;
    for (i = 0; i < M; i++) if (i < m) seq[n++] = i;
    if (op >= 2) for (i = 0; i < M; i++) if (i < k) seq[n++] = M + i;
    expect(&h);
    if (op & 1) VF_ENSURES("spliced-list-reinitialised", list_empty(&g));
    VF_REACHED();
}

static hlist_node H[M + 1];
static void hexpect(hlist_head *h)
{
    VF_ENSURES("hlist-first", h->first == (n ? &H[seq[0]] : 0) && !!hlist_empty(h) == (n == 0));
    for (int i = 0; i < M + 1; i++) if (i < n)
        VF_ENSURES("hlist-links", H[seq[i]].next == (i + 1 < n ? &H[seq[i + 1]] : 0) &&
                   H[seq[i]].pprev == (i ? &H[seq[i - 1]].next : &h->first) && !hlist_unhashed(&H[seq[i]]));
}
void harness_ll_hlist(void)
{
    hlist_head h, g; int m = vf_int(), op = vf_int(), at = vf_int(), i;
    VF_REQUIRES(m >= 0 && m <= M && op >= 0 && op < 6);
    h.first = m ? &H[0] : 0; g.first = 0;
    for (i = 0; i < M; i++) { seq[i] = i; if (i < m) { H[i].next = i + 1 < m ? &H[i + 1] : 0; H[i].pprev = i ? &H[i - 1].next : &h.first; } }
    n = m;
    if (op >= 1 && op <= 4) VF_REQUIRES(at >= 0 && at < m);
    switch (op) {
    case 0: hlist_add_head(&H[M], &h); ins(0, M); break;
    case 1: hlist_add_before(&H[M], &H[at]); ins(at, M); break;
    case 2: hlist_add_after(&H[at], &H[M]); ins(at + 1, M); break;
    case 3: hlist_del(&H[at]); del(at); VF_ENSURES("hlist-deleted", hlist_unhashed(&H[at])); break;
    case 4: hlist_del_init(&H[at]); del(at); VF_ENSURES("hlist-deleted", hlist_unhashed(&H[at]));
            hlist_del_init(&H[at]); break;       /* again: no effect */
    default: hlist_move_list(&h, &g); VF_ENSURES("hlist-moved-away", hlist_empty(&h)); hexpect(&g); VF_REACHED(); return;
    }
    hexpect(&h);
    VF_REACHED();
}
