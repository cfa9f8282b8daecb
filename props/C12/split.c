/*
 * strsplit.c: the pieces between delimiters, in order, in place.
 * In the proof the delimiter set is arbitrary; token K is an arbitrary one
 * (it ends at EK), W <= Q are arbitrary positions whose original characters
 * are VW and VQ; the string ends at L.
 */
//@ unit sp_plain kind=loops dfcc=old unwind=9 punwind=9 fn=__split,_stra_resize_if
//@ unit sp_squeeze kind=loops dfcc=old unwind=9 punwind=9 fn=__split_sqz,_stra_resize_if
//@ unit sp_quick kind=bounded unwind=9 fn=strsplit_quick,__split_common,_stra_init_from bound="strings of up to 3 characters, delimiters {;,0x80} and {space,comma}, arrays of up to 2 entries"
//@ unit sp_grow kind=full unwind=42 fn=_stra_init,_stra_resize,_stra_resize_if,_stra_fini
//@ unit sp_alloc kind=bounded unwind=20 fn=strsplit bound="strings of 17 characters, 1 delimiter"
//@ unit sp_delim kind=full unwind=10 fn=__init_delim,__add_delim,__is_delim
//@ annot src/strsplit.c __split 0
//@  assigns str, begin, c, a->size, EK, L, __CPROVER_object_whole(S), PK, PN
//@  inv SO(str, S) && SO(begin, S) && OFF(str) <= N && OFF(begin) <= OFF(str) && S[N] == 0 && L == OFF(str)
//@  inv a->size >= 0 && a->size <= (int)CAP && (OFF(begin) == 0) == (a->size == 0)
//@  inv (W >= OFF(str) ==> S[W] == VW) && (W < OFF(str) ==> (VW != 0 && (ISD(VW) ? S[W] == 0 : S[W] == VW)))
//@  inv (W >= OFF(begin) && W < OFF(str)) ==> !ISD(VW)
//@  inv (OFF(begin) < OFF(str)) ==> S[OFF(begin)] != 0
//@  inv (K < (unsigned)a->size) ==> (PK <= EK && EK < OFF(begin) && (K == 0) == (PK == 0) && S[EK] == 0)
//@  inv (K < (unsigned)a->size && W >= PK && W <= EK) ==> ((ISD(VW) != 0) == (W == EK))
//@  inv (K + 1 == (unsigned)a->size) ==> EK + 1 == OFF(begin)
//@  inv (K + 1 < (unsigned)a->size) ==> (PN == EK + 1)
//@  dec N - OFF(str)
//@  ghost if (ISD(*str) && K == (unsigned)a->size) EK = OFF(str); L = OFF(str) + 1;
//@ annot src/strsplit.c __split_sqz 0
//@  assigns str, begin, c, prev_c, a->size, L, __CPROVER_object_whole(S), PK, PN
//@  inv SO(str, S) && SO(begin, S) && OFF(str) <= N && OFF(begin) <= OFF(str) && S[N] == 0 && L == OFF(str) && prev_c < 256
//@  inv a->size >= 0 && a->size <= (int)CAP && (OFF(begin) == 0) == (a->size == 0)
//@  inv (L == 0) ? prev_c == 0 : (prev_c != 0 && (W + 1 == L ==> prev_c == VW))
//@  inv (W >= OFF(str) ==> S[W] == VW) && (W < OFF(str) ==> (VW != 0 && (ISD(VW) ? S[W] == 0 : S[W] == VW)))
//@  inv (Q >= OFF(str) ==> S[Q] == VQ) && (Q < OFF(str) ==> (VQ != 0 && (ISD(VQ) ? S[Q] == 0 : S[Q] == VQ)))
//@  inv (W >= OFF(begin) && Q < OFF(str) && W <= Q && ISD(VW)) ==> ISD(VQ)
//@  inv (L > OFF(begin) && ISD(VW) && W >= OFF(begin) && W < L) ==> ISD(prev_c)
//@  inv (W == OFF(begin) && W > 0) ==> !ISD(VW)
//@  inv (OFF(begin) > 0) ==> S[OFF(begin)] != 0
//@  inv (OFF(begin) > 0) ==> (OFF(begin) < L && (W + 1 == OFF(begin) ==> ISD(VW)))
//@  inv (K < (unsigned)a->size) ==> (PK < OFF(begin) && (K == 0) == (PK == 0))
//@  inv (K < (unsigned)a->size && K > 0 && W + 1 == PK) ==> ISD(VW)
//@  inv (K < (unsigned)a->size && K > 0 && W == PK) ==> !ISD(VW)
//@  inv (K + 1 == (unsigned)a->size && W >= PK && W <= Q && Q < OFF(begin) && ISD(VW)) ==> ISD(VQ)
//@  inv (K + 1 < (unsigned)a->size) ==> (PN > PK && PN < OFF(begin))
//@  inv (K + 1 < (unsigned)a->size && W >= PK && W <= Q && Q < PN && ISD(VW)) ==> ISD(VQ)
//@  dec N - OFF(str)
//@  ghost L = OFF(str) + 1;
//@ subst src/strsplit.c a->arr[a->size++] = begin; => VF_PUT(a, begin);
//@ trust in the proof an array store a->arr[size++] = begin is replaced by one that checks the index and keeps entries K and K+1 only (an arbitrary K)
//@ trust strings of up to 2^30 characters and arrays of up to 2^30 entries in the proof; strtrim by its contract (C11)
#include "vf.h"
#include "vf_ctype.h"
#include <errno.h>
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define SO(a, b) __CPROVER_same_object(a, b)
static unsigned char *S, **AR; static size_t PK, PN, N, W, Q, CAP, EK, L; static unsigned K; static unsigned char VW, VQ;
#ifdef VF_PROOF
#include <string.h>
#include "utils/strutils.h"
char *strtrim(char *s) { return s; }
#else
#include "src/strtrim.c"
#endif
#include "bits.h"
static delim D;
#define ISD(c) ((D.v[(unsigned)(c) / 32] >> ((unsigned)(c) % 32)) & 1u)
#ifdef VF_PROOF
#define VF_PUT(a, b) { __CPROVER_assert((a)->arr == AR && (a)->size >= 0 && (a)->size < (int)CAP, "array index in bounds"); __CPROVER_assert(SO(b, S), "tokens point into the string"); \
    if ((a)->size == (int)K) PK = OFF(b); if ((a)->size == (int)K + 1) PN = OFF(b); (a)->size++; }
#else
#define VF_PUT(a, b) (a)->arr[(a)->size++] = (b);
#endif
#include "src/strsplit.c"
#ifdef VF_PROOF
static void setup(stra *a)
{
    N = vf_len((size_t)1 << 30, 0); CAP = vf_len((size_t)1 << 30, 0); VF_REQUIRES(CAP >= 1);
    S = VF_NEWA(unsigned char, N + 1); S[N] = 0; AR = (unsigned char **)&D; PK = PN = 0;
    W = vf_size(); Q = vf_size(); VF_REQUIRES(W <= Q && Q <= N); VW = S[W]; VQ = S[Q];
    K = vf_u32(); VF_REQUIRES(K < CAP);
    for (int i = 0; i < 8; i++) D.v[i] = vf_u32();
    VF_REQUIRES(!ISD(0));
    _stra_init_from(a, (char **)AR, CAP);
    EK = L = 0;
}
#endif
#ifndef VF_PROOF
/* bounded reference: the fields of the string o of length n, as start/length; -1 if there are more than cap */
static int RS[8], RN[8];
static int ref(const unsigned char *o, int n, const char *tok, int sqz, int cap)
{
    int a = 0, b = n, k = 0;
    #define ISDEL(c) ((c) && ((c) == (unsigned char)tok[0] || (tok[0] && (c) == (unsigned char)tok[1])))
    #define FIELD(s, e) do { if (k == cap) return -1; RS[k] = (s); RN[k] = (e) - (s); k++; } while (0)
    if (!sqz) {
        int s = 0;
        for (int i = 0; i < n; i++) if (ISDEL(o[i])) { FIELD(s, i); s = i + 1; }
        if (s < n) FIELD(s, n);                            /* nothing after a last delimiter */
        return k;
    }
    while (a < n && isspace(o[a])) a++;
    while (b > a && isspace(o[b - 1])) b--;
    int i = a;
    while (i < b && ISDEL(o[i])) i++;
    if (i > a && i < b) FIELD(0, 0);                       /* an empty field before a leading run */
    while (i < b) {
        int e = i;
        while (e < b && !ISDEL(o[e])) e++;
        FIELD(i - a, e - a);
        i = e;
        while (i < b && ISDEL(o[i])) i++;
    }
    return k;
}
static void quick(int n, const char *tok, int sqz, int cap)
{
    unsigned char *s = malloc(n + 1), o[8];
    char **v = VF_NEWA(char *, cap);
    vf_fill(s, n); s[n] = 0;
    for (int i = 0; i < n; i++) { VF_REQUIRES(s[i] != 0); o[i] = s[i]; }
    o[n] = 0;
    int e = ref(o, n, tok, sqz, cap), r = strsplit_quick(v, cap, (char *)s, tok, sqz);
    VF_ENSURES("split.count", r == e);
    for (int k = 0; k < 3; k++) if (k < r) {
        VF_ENSURES("split.token", v[k] == (char *)s + RS[k]);
        int lead = 0;
        if (sqz) while (lead < n && isspace(o[lead])) lead++;
        for (int i = 0; i < n; i++) if (i < RN[k]) VF_ENSURES("split.token-content", v[k][i] == (char)o[lead + RS[k] + i]);
        VF_ENSURES("split.token-end", v[k][RN[k]] == 0);
    }
}
#endif
void harness_sp_plain(void)
{
#ifdef VF_PROOF
    stra a; setup(&a);
    int r = __split(&a, (char *)S, &D);
    VF_ENSURES("split.size", a.size >= 0 && a.size <= (int)CAP && (r || a.size == (int)CAP));
    if (r && K < (unsigned)a.size) {
        int last = K + 1 == (unsigned)a.size;
        size_t b = PK, e = last ? (L > 0 && ISD(VQ) && Q + 1 == L ? L - 1 : L) : PN - 1;
        VF_ENSURES("split.first-token-starts-the-string", K > 0 || b == 0);
        VF_ENSURES("split.tokens-in-order", b <= L && (last || b < PN));
        if (!last && W == e) VF_ENSURES("split.ends-at-a-delimiter-which-becomes-NUL", ISD(VW) && S[W] == 0);
        if (!last && W >= b && W < e) VF_ENSURES("split.token-content", !ISD(VW) && S[W] == VW);
        if (last && W >= b && W + 1 < L) VF_ENSURES("split.last-token-content", !ISD(VW) && S[W] == VW);
    }
    if (r && L > 0) VF_ENSURES("split.non-empty-string-has-a-token", a.size > 0);
#else
    int n = vf_int(), cap = vf_int();
    for (int i = 0; i <= 4; i++) for (int j = 1; j <= 3; j++) if (n == i && cap == j) quick(i, ",", 0, j);
#endif
    VF_REACHED();
}
void harness_sp_squeeze(void)
{
#ifdef VF_PROOF
    stra a; setup(&a);
    int r = __split_sqz(&a, (char *)S, &D);
    VF_ENSURES("squeeze.size", a.size >= 0 && a.size <= (int)CAP && (r || a.size == (int)CAP));
    if (r && K < (unsigned)a.size) {
        int last = K + 1 == (unsigned)a.size;
        size_t b = PK, e = last ? L : PN;
        VF_ENSURES("squeeze.tokens-in-order", b < e && (K > 0 || b == 0));
        if (W == b && K > 0) VF_ENSURES("squeeze.token-starts-with-a-non-delimiter", !ISD(VW));
        if (W + 1 == b) VF_ENSURES("squeeze.token-follows-a-delimiter", ISD(VW) && S[W] == 0);
        if (W >= b && Q < e && ISD(VW)) VF_ENSURES("squeeze.delimiters-only-at-the-end-of-a-token", ISD(VQ));
        if (W >= b && W < e) VF_ENSURES("squeeze.token-content", ISD(VW) ? S[W] == 0 : S[W] == VW);
    }
    if (r && W == 0 && Q < L && !ISD(VQ)) VF_ENSURES("squeeze.nothing-lost", a.size > 0);
#else
    int n = vf_int(), cap = vf_int();
    for (int i = 0; i <= 4; i++) for (int j = 1; j <= 3; j++) if (n == i && cap == j) quick(i, ",", 1, j);
#endif
    VF_REACHED();
}

#ifndef VF_PROOF
void harness_sp_quick(void)
{
    int n = vf_int(), z = vf_bool(), cap = vf_int();
    for (int i = 0; i <= 4; i++) for (int sq = 0; sq < 2; sq++) for (int j = 0; j <= 2; j++)
        if (i < 4 - sq && n == i && z == sq && cap == j) quick(i, sq ? " ," : ";\x80", sq, j);
    VF_REACHED();
}
/* growth keeps the entries, and there is room for the next one */
static void grow(int cap, int fixed)
{
    stra a; unsigned char c[1]; int size = vf_int();
    if (fixed) { AR = VF_NEWA(unsigned char *, cap); _stra_init_from(&a, (char **)AR, cap); }
    else {
        _stra_init(&a);
        VF_ENSURES("grow.init", a.size == 0 && a.cap > 0 && a.arr);
        if (cap == 32) { a.size = 16; VF_ENSURES("grow.room", _stra_resize_if(&a, 1) && a.cap > 16); }
        cap = a.cap;
    }
    VF_REQUIRES(size >= 0 && size <= cap);
    a.size = size;
    for (int i = 0; i < cap; i++) if (i < size) a.arr[i] = c + i;
    int r = _stra_resize_if(&a, 1);
    VF_ENSURES("grow.fixed-is-full-only-when-full", fixed ? r == (size < cap) : r != 0);
    VF_ENSURES("grow.fixed-array-stays", !fixed || (a.arr == AR && a.cap == -cap));
    VF_ENSURES("grow.size-unchanged", a.size == size);
    if (r) a.arr[a.size] = c;               /* must be inside the array */
    for (int i = 0; i < cap; i++) if (i < size) VF_ENSURES("grow.entries-kept", a.arr[i] == c + i);
    if (!fixed) _stra_fini(&a);
}
void harness_sp_grow(void)
{
    int n = vf_int();
    if (n == 0) grow(0, 1); else if (n == 1) grow(3, 1); else if (n == 2) grow(16, 0); else grow(32, 0);
    VF_REACHED();
}
static void alloc17(int D)
{
    static char s[24]; int n = 17, k = 0;
    memset(s, ',', n); s[n] = 0;
    s[D] = 'x';
    char **v = strsplit(&k, s, ",", 0);
    VF_ENSURES("strsplit.count", v && k == (D == n - 1 ? n : n - 1));
    for (int i = 0; i < 17; i++) if (i < k) { int st = i + (i > D); VF_ENSURES("strsplit.token", v[i] == s + st && s[st + (i == D)] == 0); }
    free(v);
}
void harness_sp_alloc(void)
{
    int d = vf_int();
    if (d == 0) alloc17(0); else if (d == 1) alloc17(7); else alloc17(16);
    VF_REACHED();
}
void harness_sp_delim(void)
{
    static stra none; char t[3] = { 0 }, e[1] = { 0 };
    t[0] = vf_u8(); t[1] = vf_u8();

    delim d; unsigned a = vf_u8(), b = vf_u8(), q = vf_u8();
    __init_delim(&d);
    VF_ENSURES("delim.initially-empty", !__is_delim(&d, q));
    __add_delim(&d, a); __add_delim(&d, b);
    VF_ENSURES("delim.exactly-the-added-characters", (__is_delim(&d, q) != 0) == (q == a || q == b));
    VF_REACHED();
}
#endif
