/* escape.c, unescape.c, gstring_var.c and gstr_readline, on short strings; GP: the growable string operations used inside, on a large enough string */
//@ unit g_escape kind=bounded unwind=24 unwindset=h_str.0:8,gstr_escape.0:4,gstr_escape.1:5 bsolver=cadical fn=gstr_escape defs="ESC=1 VF_CAP=16 EN=2" tdefs=EN=3 bound="strings of up to 2 (thorough 3) characters, escape sets of up to 2"
//@ unit g_unescape kind=bounded unwind=12 bsolver=cadical fn=gstr_unescape,parse_esc,extract_octal,extract_decimal,extract_hex bound="strings of up to 5 characters"
//@ unit g_round kind=bounded unwind=24 unwindset=h_str.0:8,gstr_escape.0:4,gstr_escape.1:5 bsolver=cadical fn=gstr_escape,gstr_unescape defs="ESC=1 VF_CAP=12" bound="strings of up to 2 characters, escape sets of up to 2"
//@ unit g_readline kind=bounded unwind=12 bsolver=cadical bflags="--object-bits 12" fn=gstr_readline bound="inputs of up to 5 bytes, initial capacity 1..4, up to 2 delimiters"
//@ unit g_varexp kind=bounded unwind=17 unwindset=gstr_varexp.0:6,getvar.0:5,getvar.1:5,h_str.0:4,find.0:4 bsolver=cadical fn=gstr_varexp,getvar defs="ESC=1 VF_CAP=8 VN=4" bound="strings of up to 4 characters out of $ { } \ a _ space 0x80, names and values of up to 2"
//@ unit g_varname kind=bounded unwind=17 unwindset=gstr_varexp.0:6,getvar.0:5,getvar.1:5,h_str.0:4,find.0:4 bsolver=cadical fn=gstr_varexp,getvar defs="ESC=1 VF_CAP=8 VN=2 V0=2 ANY=1" bound="$ and any character"
//@ trust gstr_append_ch, gstr_append_str, gstr_init and gstr_fini by their contracts (g_append_ch, g_append_str, g_init) in escape and variable expansion
#ifndef VN
#define VN 4
#endif
#ifndef EN
#define EN 2
#endif
#ifndef V0
#define V0 0
#endif
#include "vf.h"
#include "vf_ctype.h"
#include <assert.h>
#include <errno.h>
#undef assert
#define assert(x) VF_ENSURES("assert", x)
#ifndef VF_CAP
#define VF_CAP 24
#endif
#if ESC && !defined(VF_REPLAY)
#include "utils/gstring.h"
#include "utils/new.h"
/* contracts of the operations proved in gstr.c (capacity beyond these bounds is not modelled) */
static char BUF[3][VF_CAP]; static int NB;
static gstr *h_init(gstr *g, size_t n) { (void)n; VF_REQUIRES(NB < 3); g->str = BUF[NB++]; g->cap = VF_CAP; g->len = 0; g->str[0] = 0; return g; }
static void h_fini(gstr *g) { g->str = 0; g->len = g->cap = 0; }
static int h_ch(gstr *g, int c) { g->str[g->len++] = (char)c; g->str[g->len] = 0; return (int)g->len; }
static size_t h_str(gstr *g, const char *s) { for (int i = 0; s[i]; i++) h_ch(g, s[i]); return g->len; }
/* snprintf of the conversions %c, %o and %NNN.NNNo */
static int h_snprintf(char *b, size_t n, const char *f, unsigned x, unsigned y)
{
    size_t k = 0; int na = 0, p = -1;
    for (int i = 0; i < 12 && f[i]; i++) {
        if (f[i] != '%') { if (k + 1 < n) b[k++] = f[i]; continue; }
        int w = 0, dot = 0, zero = 0; p = 1;
        for (i++; f[i] == '.' || (f[i] >= '0' && f[i] <= '9'); i++)
            if (f[i] == '.') { dot = 1; p = 0; } else if (dot) p = p * 10 + f[i] - '0'; else { if (!w && f[i] == '0') zero = 1; w = w * 10 + f[i] - '0'; }
        unsigned c = na++ == 0 ? x : y;
        if (f[i] == 'c') { if (k + 1 < n) b[k++] = (char)c; }
        else {
            VF_ENSURES("snprintf-conversion", f[i] == 'o' && w <= 3 && p <= 3);
            int nd = 1; for (unsigned t = c >> 3; t; t >>= 3) nd++;
            int d = nd < p ? p : nd, m = d < w ? w : d;
            for (int j = m - 1; j >= 0; j--) { char q = j >= d ? (zero && !dot ? '0' : ' ') : '0' + ((c >> (3 * j)) & 7); if (k + 1 < n) b[k++] = q; }
        }
    }
    b[k] = 0; return (int)k;
}
#define VF_SNP_(b, n, f, x, y, ...) h_snprintf(b, n, f, (unsigned)(x), (unsigned)(y))
#define gstr_init(g, n)       h_init(g, n)
#define gstr_fini(g)          h_fini(g)
#define gstr_append_ch(g, c)  h_ch(g, c)
#define gstr_append_str(g, s) h_str(g, s)
#define snprintf(b, n, ...)   VF_SNP_(b, n, __VA_ARGS__, 0, 0, 0)
static void *h_calloc(size_t a, size_t b) { (void)a; (void)b; VF_REQUIRES(NB < 3); BUF[NB][0] = 0; return BUF[NB++]; }
#define calloc(a, b)          h_calloc(a, b)
#else
#ifndef VF_REPLAY
static int vf_fgetc(void);
#define fgetc(fp) vf_fgetc()
static void *h_realloc(char *p, size_t n) { char *q = malloc(n); __CPROVER_assume(q != 0); size_t o = __CPROVER_OBJECT_SIZE(p); for (size_t i = 0; i < 9; i++) if (i < o && i < n) q[i] = p[i]; free(p); return q; }
#define realloc(p, n) h_realloc(p, n)
#endif
#include "src/gstring.c"
#endif
#include "src/escape.c"
#include "src/unescape.c"
#include "src/gstring_var.c"

static unsigned char IN[8], O[40]; static int LEN, POS;
static int vf_fgetc(void) { return POS < LEN ? IN[POS++] : EOF; }
/* a string of n characters in an object of exactly n + 1 bytes */
static void mk(gstr *g, size_t n)
{
    g->str = malloc(n + 1); g->cap = n + 1; g->len = n;
#ifndef VF_REPLAY
    __CPROVER_assume(g->str != 0);
#endif
    for (size_t i = 0; i < n; i++) { IN[i] = vf_u8(); VF_REQUIRES(IN[i] != 0); g->str[i] = (char)IN[i]; }
    g->str[n] = 0;
}
static int one(unsigned char c, const unsigned char *set, int e, unsigned char *o)
{
    static const char from[] = "\a\b\f\n\r\t\v", to[] = "abfnrtv";
    int k = 0;
    if (c == e) { o[0] = o[1] = (unsigned char)e; return 2; }
    if (c != set[0] && !(set[0] && c == set[1])) { o[0] = c; return 1; }
    o[k++] = (unsigned char)e;
    for (int i = 0; i < 7; i++) if (c == from[i]) { o[k++] = to[i]; return k; }
    o[k++] = '0'; o[k++] = '0' + (c >> 6); o[k++] = '0' + ((c >> 3) & 7); o[k++] = '0' + (c & 7);
    return k;
}
static int ESCC; static unsigned char SET[3];
static void setup(void)
{
    ESCC = vf_u8(); VF_REQUIRES(ESCC > 0 && ESCC < 128);
    SET[0] = vf_u8(); SET[1] = vf_u8(); SET[2] = 0;
    VF_REQUIRES(SET[0] != ESCC && (SET[0] == 0 || SET[1] != ESCC));
}
#if ESC
static void esc(size_t n)
{
    gstr g; setup(); mk(&g, n);
    gstr *r = gstr_escape(&g, (char *)SET, ESCC);
    int k = 0; for (size_t i = 0; i < n; i++) k += one(IN[i], SET, ESCC, O + k);
    VF_ENSURES("escape.length", r == &g && g.len == (size_t)k && g.str[k] == 0);
    for (int i = 0; i < k; i++) VF_ENSURES("escape.content", (unsigned char)g.str[i] == O[i]);
    gstr_fini(&g);
}
static void round_(size_t n)
{
    gstr g; setup(); VF_REQUIRES(!isalnum(ESCC)); mk(&g, n);
    gstr_unescape(gstr_escape(&g, (char *)SET, ESCC), ESCC);
    VF_ENSURES("round-trip.length", g.len == n && g.str[n] == 0);
    for (size_t i = 0; i < n; i++) VF_ENSURES("round-trip.content", (unsigned char)g.str[i] == IN[i]);
    gstr_fini(&g);
}
static char KEY[3], VAL[3];
static const char *find(void *ck, const char *k)
{
    VF_ENSURES("varexp.cookie", ck == KEY);
    for (int i = 0; i < 3; i++) { if (k[i] != KEY[i]) return 0; if (!k[i]) break; }
    return VAL;
}
static int namec(int c)
{
    static const char s[] = "$#@?*!<>%^&-_|:.";
    if (isalnum(c)) return 1;
    for (int i = 0; i < 16; i++) if (c == s[i]) return 1;
    return 0;
}
static void vexp(size_t n)
{
    gstr g; int err = 0, k = 0; mk(&g, n);
#if ANY
    VF_REQUIRES(IN[0] == '$');
#else
    for (size_t i = 0; i < n; i++) VF_REQUIRES(IN[i] == '$' || IN[i] == '{' || IN[i] == '}' || IN[i] == '\\' || IN[i] == 'a' || IN[i] == '_' || IN[i] == ' ' || IN[i] == 0x80);
#endif
    for (int i = 0; i < 2; i++) { KEY[i] = (char)vf_u8(); VAL[i] = (char)vf_u8(); }
    KEY[2] = VAL[2] = 0; VF_REQUIRES(KEY[0] != 0); int kl = KEY[1] ? 2 : 1;
    IN[n] = 0;
    for (size_t i = 0, prev = 0; i < n && !err; i++) {
        int c = IN[i];
        if (c != '$') { O[k++] = (unsigned char)c; prev = c; continue; }
        if (prev == '\\') { O[k - 1] = '$'; prev = c; continue; }
        size_t a = i + 1, b; prev = c;
        if (IN[a] == '{') { for (a++, b = a; b < n && IN[b] != '}'; b++) ; if (b >= n || b == a) { err = -EINVAL; break; } i = b; }
        else { for (b = a; b < n && namec((signed char)IN[b]); b++) ; if (a == b) { err = -EINVAL; break; } i = b - 1; }
        int same = b - a == (size_t)kl; for (size_t j = 0; j < 2; j++) if (same && j < b - a && IN[a + j] != (unsigned char)KEY[j]) same = 0;
        if (!same) { err = -ENOENT; break; }
        for (int j = 0; j < 2 && VAL[j]; j++) O[k++] = (unsigned char)VAL[j];
    }
    int r = gstr_varexp(&g, find, KEY);
    VF_ENSURES("varexp.result", r == err);
    if (err) VF_ENSURES("varexp.failure-empties", g.len == 0 && g.str[0] == 0);
    else {
        VF_ENSURES("varexp.length", g.len == (size_t)k && g.str[k] == 0);
        for (int i = 0; i < k; i++) VF_ENSURES("varexp.content", (unsigned char)g.str[i] == O[i]);
    }
    gstr_fini(&g);
}
#else
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static void unesc(size_t n)
{
    gstr g; int k = 0; ESCC = vf_u8(); VF_REQUIRES(ESCC > 0 && ESCC < 128); mk(&g, n); IN[n] = 0;
    for (size_t i = 0; i < n; ) {
        int c = IN[i++];
        if (c != ESCC) { O[k++] = (unsigned char)c; continue; }
        int x = IN[i]; if (i < n) i++;
        int base = x == '0' ? 8 : x == 'x' ? 16 : x >= '1' && x <= '9' ? 10 : 0, v = 0, m = base == 16 ? 2 : 3;
        if (base == 16) VF_REQUIRES(hexv(IN[i]) < 16);
        if (base == 10) i--;
        if (base) { for (int j = 0; j < m && i < n && hexv(IN[i]) < base; j++, i++) v = v * base + hexv(IN[i]); v &= 0xff; }
        else v = x == 'a' ? 7 : x == 'b' ? 8 : x == 'e' || x == 'E' ? 27 : x == 'f' ? 12 : x == 'n' ? 10 : x == 'r' ? 13 : x == 't' ? 9 : x == 'v' ? 11 : x == 0 ? ESCC : x;
        O[k++] = (unsigned char)v;
    }
    char *o = g.str; gstr *r = gstr_unescape(&g, ESCC);
    VF_ENSURES("unescape.length", r == &g && g.str == o && g.len == (size_t)k && g.str[k] == 0);
    for (int i = 0; i < k; i++) VF_ENSURES("unescape.content", (unsigned char)g.str[i] == O[i]);
    free(g.str);
}
static void rl(size_t cap, int len)
{
    gstr g; mk(&g, cap - 1); g.len = vf_size(); SET[0] = vf_u8(); SET[1] = vf_u8(); SET[2] = 0;
    LEN = len; POS = 0; for (int i = 0; i < len; i++) IN[i] = vf_u8();
#ifdef VF_REPLAY
    FILE *fp = tmpfile(); fwrite(IN, 1, len, fp); rewind(fp);
#else
    FILE *fp = (FILE *)IN;
#endif
    int k = 0; while (k < len && !(SET[0] && (IN[k] == SET[0] || (SET[1] && IN[k] == SET[1])))) k++;
    int r = gstr_readline(&g, fp, (char *)SET);
    VF_ENSURES("gstr-readline.length", r == k && g.len == (size_t)k && g.cap > g.len && g.str[k] == 0);
#ifndef VF_REPLAY
    VF_ENSURES("gstr-readline.capacity", __CPROVER_w_ok(g.str, g.cap));
    VF_ENSURES("gstr-readline.consumes-the-delimiter", POS == (k < len ? k + 1 : len));
#endif
    for (int i = 0; i < k; i++) VF_ENSURES("gstr-readline.content", (unsigned char)g.str[i] == IN[i]);
    free(g.str);
}
#endif
#if ESC
void harness_g_escape(void) { size_t n = vf_size(); for (size_t i = 0; i <= EN; i++) if (n == i) esc(i); VF_REACHED(); }
void harness_g_round(void) { size_t n = vf_size(); for (size_t i = 0; i <= 2; i++) if (n == i) round_(i); VF_REACHED(); }
void harness_g_varname(void) { vexp(2); VF_REACHED(); }
void harness_g_varexp(void) { size_t n = vf_size(); for (size_t i = V0; i <= VN; i++) if (n == i) vexp(i); VF_REACHED(); }
#else
void harness_g_unescape(void) { size_t n = vf_size(); for (size_t i = 0; i <= 5; i++) if (n == i) unesc(i); VF_REACHED(); }
void harness_g_readline(void) { size_t c = vf_size(); int n = vf_int(); for (size_t i = 1; i <= 4; i++) for (int j = 0; j <= 5; j++) if (c == i && n == j) rl(i, j); VF_REACHED(); }
#endif
