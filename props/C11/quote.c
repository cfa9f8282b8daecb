/* strunquote.c, freadline.c */
//@ unit s_unquote kind=bounded unwind=10 fn=strunquote bound="strings of up to 6 characters"
//@ unit s_readline kind=bounded unwind=10 fn=freadline bound="inputs of up to 6 bytes, buffers of up to 5"
#include "vf.h"
#include "vf_ctype.h"
#include <errno.h>
static unsigned char IN[8]; static int LEN, POS, ERRAT, ISERR;
#ifndef VF_REPLAY
#define fgetc(fp)     vf_fgetc()
#define ungetc(c, fp) (POS--, (c))
#define ferror(fp)    ISERR
#endif
static int vf_fgetc(void)
{
    if (POS >= LEN) { if (ERRAT) { ISERR = 1; errno = EIO; } return EOF; }
    return IN[POS++];
}
#include "src/freadline.c"
#include "src/strunquote.c"
static void uq(size_t n)
{
    char *s = malloc(n + 1), o[8]; vf_fill(s, n); s[n] = 0;
    for (size_t i = 0; i < n; i++) { VF_REQUIRES(s[i] != 0); o[i] = s[i]; }
    char *p = 0; int null = vf_bool();
    int r = strunquote(s, null ? 0 : &p);
    int quoted = n > 0 && (o[0] == '"' || o[0] == '\'');
    if (!quoted) {
        VF_ENSURES("unquote.none", r == 0 && p == 0 && s[n] == 0);
        for (size_t i = 0; i < n; i++) VF_ENSURES("unquote.unchanged", s[i] == o[i]);
    } else if (n < 2 || o[n - 1] != o[0]) {
        VF_ENSURES("unquote.no-closing-quote", r < 0);
        for (size_t i = 0; i < n; i++) VF_ENSURES("unquote.unchanged", s[i] == o[i]);
    } else {
        VF_ENSURES("unquote.quote", r == o[0] && (null || p == s + 1) && s[n - 1] == 0);
        for (size_t i = 1; i + 1 < n; i++) VF_ENSURES("unquote.content", s[i] == o[i]);
    }
}
void harness_s_unquote(void)
{
    size_t n = vf_size();
    for (size_t i = 0; i <= 6; i++) if (n == i) uq(i);
    VF_ENSURES("unquote.null", strunquote(0, 0) == 0);
    VF_REACHED();
}
static void rl(int cap, int len)
{
    unsigned char *b = malloc(cap);
    LEN = len; POS = 0; ISERR = 0; ERRAT = vf_bool();
    vf_fill(IN, LEN);
#ifdef VF_REPLAY
    FILE *fp = fmemopen(0, 16, "w+"); fwrite(IN, LEN, 1, fp); rewind(fp); ERRAT = 0;
    if (LEN < 16) { fclose(fp); if (LEN == 0) fp = fopen("/dev/null", "r"); else { fp = tmpfile(); fwrite(IN, LEN, 1, fp); rewind(fp); } }
#else
    FILE *fp = (FILE *)IN;
#endif
    int k = 0; while (k < LEN && IN[k] != '\r' && IN[k] != '\n') k++;
    int r = freadline(fp, b, cap);
    if (k > cap - 1) VF_ENSURES("readline.too-small", r == -ENOSPC);
    else if (k == LEN) VF_ENSURES("readline.eof-or-error", ERRAT ? r == -EIO : r == 0);
    else {
        VF_ENSURES("readline.length", r == k && b[k] == 0);
        for (int i = 0; i < k; i++) VF_ENSURES("readline.content", b[i] == IN[i]);
#ifndef VF_REPLAY
        VF_ENSURES("readline.consumes-the-line-break", POS == k + 1 + (IN[k] == '\r' && k + 1 < LEN && IN[k + 1] == '\n'));
#endif
    }
}
void harness_s_readline(void)
{
    int c = vf_int(), n = vf_int();
    for (int i = 1; i <= 5; i++) for (int j = 0; j <= 6; j++) if (c == i && n == j) rl(i, j);
    VF_REACHED();
}
