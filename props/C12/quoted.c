/* strsplit_csv.c, splitargs.c: fields with quotes */
//@ unit sq_csv kind=bounded unwind=9 fn=strsplit_csv bound="strings of up to 4 characters, separators NULL and {;,0x80}, arrays of up to 3 entries"
//@ unit sq_args kind=bounded unwind=9 fn=strsplitargs bound="strings of up to 4 characters, arrays of up to 3 entries"
#include "vf.h"
#include "vf_ctype.h"
#include <errno.h>
#include "src/strsplit_csv.c"
#include "src/splitargs.c"
static int RS[8], RN[8]; static unsigned char RC[8][8];
/* fields of o[0..n): their contents in RC, their lengths in RN */
static int csv(const unsigned char *o, int n, int alt, int cap)
{
    int k = 0, len = 0, q = 0;
    for (int i = 0; i < n; i++) {
        unsigned char c = o[i];
        int sep = alt ? (c == ';' || c == 0x80) : c == ',';
        if (c == '"' || c == '\'') {
            if (q == 0) q = c;
            else if (q != c) RC[k][len++] = c;
            else if (o[i - 1] == '\\') RC[k][len - 1] = c;
            else q = 0;
        } else if (sep && !q) {
            if (k == cap) return -ENOSPC;
            RN[k++] = len; len = 0;
        } else RC[k][len++] = c;
    }
    if (len == 0 && q) return 1000 + k;                    /* an opening quote with nothing after it */
    if (len && q) return -EINVAL;
    if (len) { if (k == cap) return -ENOSPC; RN[k++] = len; }
    return k;
}
static void run(int n, int cap, int alt)
{
    unsigned char *s = malloc(n + 1), o[8];
    char **v = VF_NEWA(char *, cap);
    vf_fill(s, n); s[n] = 0;
    for (int i = 0; i < n; i++) { VF_REQUIRES(s[i] != 0); o[i] = s[i]; }
    int e = csv(o, n, alt, cap), r = strsplit_csv(v, cap, (char *)s, alt ? ";\x80" : 0);
    VF_ENSURES("csv.count", e >= 1000 ? r == -EINVAL || r == e - 1000 : r == e);
    for (int k = 0; k < 3; k++) if (k < r) {
        VF_ENSURES("csv.field-in-string", v[k] >= (char *)s && v[k] + RN[k] <= (char *)s + n);
        for (int i = 0; i < n; i++) if (i < RN[k]) VF_ENSURES("csv.field-content", v[k][i] == (char)RC[k][i]);
        VF_ENSURES("csv.field-end", v[k][RN[k]] == 0);
    }
}
void harness_sq_csv(void)
{
    int n = vf_int(), cap = vf_int(), alt = vf_bool();
    for (int i = 0; i <= 4; i++) for (int j = 0; j <= 3; j++) for (int a = 0; a < 2; a++)
        if ((j == 3 ? i == 4 - a || i < 2: i == 2 + (j == 2)) && n == i && cap == j && alt == a) run(i, j, a);
    VF_REACHED();
}
/* words separated by white space; a word that starts with a quote extends to the closing one and loses both.
 * Quotes inside a word and characters after a closing quote are outside the property. */
static int INSCOPE;
static int words(const unsigned char *o, int n, int cap)
{
    int k = 0, i = 0; INSCOPE = 1;
    while (i < n) {
        if (isspace(o[i])) { i++; continue; }
        int q = o[i] == '"' || o[i] == '\'' ? o[i] : 0, s = q ? i + 1 : i;
        i = s;
        if (q) { while (i < n && o[i] != q) i++; if (i == n) return -EINVAL; }
        else while (i < n && !isspace(o[i])) { if (o[i] == '"' || o[i] == '\'') INSCOPE = 0; i++; }
        if (k == cap) return -ENOSPC;
        RS[k] = s; RN[k] = i - s; k++;
        if (q) { i++; if (i < n && !isspace(o[i])) INSCOPE = 0; }
    }
    return k;
}
static void args(int n, int cap)
{
    unsigned char *s = malloc(n + 1), o[8];
    char **v = VF_NEWA(char *, cap);
    vf_fill(s, n); s[n] = 0;
    for (int i = 0; i < n; i++) { VF_REQUIRES(s[i] != 0); o[i] = s[i]; }
    int e = words(o, n, 8), r = strsplitargs(v, cap, (char *)s);
    if (!INSCOPE) return;
    VF_ENSURES("args.count", e == -EINVAL ? r == e || (r == -ENOSPC && cap < 2) : r == (e > cap ? -ENOSPC : e));
    for (int k = 0; k < 3; k++) if (k < r) {
        VF_ENSURES("args.word", v[k] == (char *)s + RS[k]);
        for (int i = 0; i < n; i++) if (i < RN[k]) VF_ENSURES("args.word-content", v[k][i] == (char)o[RS[k] + i]);
        VF_ENSURES("args.word-end", v[k][RN[k]] == 0);
    }
}
void harness_sq_args(void)
{
    int n = vf_int(), cap = vf_int();
    for (int i = 0; i <= 4; i++) for (int j = 0; j <= 3; j++) if ((j == 3 || (i == 3 && j != 2)) && n == i && cap == j) args(i, j);
    VF_REACHED();
}
