/* parse-ip.c */
//@ unit ip_addr kind=full unwind=22 unwindset=dtoi.0:6 fn=parse_ipv4,dtoi,dec_BE_u32
//@ unit ip_mask kind=bounded unwind=44 unwindset=dtoi.0:8 fn=parse_ipv4_and_mask,safe_strcpy bound="address 10.0.255.1 with any mask text of up to 3 characters; a few long and dotted masks"
//@ unit ip_addrmask kind=bounded unwind=33 unwindset=dtoi.0:8 fn=parse_ipv4_and_mask bound="any address text of 7 characters, with /24 or without mask"
//@ unit ip_dtoi kind=full unwind=14 fn=dtoi bound=""
//@ unit ip_cidr kind=full unwind=34 fn=mask_to_cidr4
//@ unit ip_str kind=full unwind=12 fn=str_ipv4
#include "vf.h"
#include "vf_ctype.h"
#ifndef VF_REPLAY
#include <stdarg.h>
static unsigned Q[4]; static char F[16];
static int vf_snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    VF_ENSURES("str.buffer", n == 0 || __CPROVER_w_ok(b, n));
    strcpy(F, f);
    for (int i = 0; i < 4; i++) Q[i] = va_arg(ap, unsigned);
    va_end(ap);
    return 0;
}
#define snprintf vf_snprintf
#endif
#include "src/parse-ip.c"
/* reference: s is exactly four decimal numbers 0..255 of 1..3 (leading zeros: 4) digits joined by dots */
static int ref(const char *s, int max, uint32_t *v)
{
    int n = 0, d = 0, x = 0; uint32_t a = 0;
    for (int i = 0; i <= max; i++) {
        char c = s[i];
        if (c >= '0' && c <= '9') { x = x * 10 + (c - '0'); if (++d > 4 || x > 255) return 0; }
        else if (c == '.' || c == 0) {
            if (d == 0 || n == 4) return 0;
            a = a << 8 | x; n++; d = x = 0;
            if (c == 0) { *v = a; return n == 4; }
        } else return 0;
    }
    return 0;
}
/* every string: the parser decides within the first 18 characters (the unwinding assertions check it) */
void harness_ip_addr(void)
{
    char s[20]; uint32_t a = 0, e = 0;
    vf_fill(s, 20);
#ifndef VF_REPLAY
    /* longer strings: whatever follows is never read (bounds check) */
#else
    int z = 0; for (int i = 0; i < 20; i++) z |= !s[i]; if (!z) s[19] = 0;
#endif
    int r = parse_ipv4(&a, s), k = ref(s, 19, &e);
    int four = 0;                                 /* four-digit octets (leading zero): either way */
    for (int i = 0, d = 0; i < 20; i++) { d = isdigit((unsigned char)s[i]) ? d + 1 : 0; if (d > 3) four = 1; if (!s[i]) break; }
    VF_ENSURES("ip.accepts-exactly-dotted-quads", four ? !r || k : r == k);
    VF_ENSURES("ip.value", !r || a == e);
    VF_REACHED();
}
static void mask(int n)
{
    char s[24] = "10.0.255.1/"; uint32_t a = 7, m = 7; int l = 11;
    vf_fill(s + l, n); s[l + n] = 0;
    int digits = 1; unsigned v = 0;
    for (int i = 0; i < n; i++) { VF_REQUIRES(s[l + i] != 0); if (isdigit((unsigned char)s[l + i])) v = v * 10 + s[l + i] - '0'; else digits = 0; }
    int r = parse_ipv4_and_mask(&a, &m, s);
    if (n) VF_ENSURES("mask.accepts-exactly-0-to-32", r == (digits && v <= 32));
    VF_ENSURES("mask.address", !r || a == 0x0a00ff01);
    if (n && r) VF_ENSURES("mask.value", m == (v == 0 ? 0 : v >= 32 ? ~(uint32_t)0 : ~(~(uint32_t)0 >> v)));
}
void harness_ip_mask(void)
{
    int n = vf_int(); uint32_t a, m;
    for (int i = 0; i <= 3; i++) if (n == i) mask(i);
    if (n == 5) {
        VF_ENSURES("mask.dotted", parse_ipv4_and_mask(&a, &m, "1.1.1.1/255.255.128.0") && a == 0x01010101 && m == 0xffff8000);
        VF_ENSURES("mask.no-mask-is-32", parse_ipv4_and_mask(&a, &m, "255.255.255.255") && a == ~(uint32_t)0 && m == ~(uint32_t)0);
        VF_ENSURES("mask.bad-dotted", !parse_ipv4_and_mask(&a, &m, "1.1.1.1/255.255.0"));
    }
    if (n == 6) {
        VF_ENSURES("mask.not-truncated", !parse_ipv4_and_mask(&a, &m, "1.1.1.1/000000000000000000000000000000248"));
        VF_ENSURES("mask.no-wrap", !parse_ipv4_and_mask(&a, &m, "1.1.1.1/18446744073709551640"));
        VF_ENSURES("mask.long-address", !parse_ipv4_and_mask(&a, &m, "111.111.111.1111/24") && !parse_ipv4_and_mask(&a, &m, "111.111.111.111111111111111111111"));
    }
    VF_REACHED();
}
static void addrmask(int n, int with)
{
    char s[24]; uint32_t a = 7, m = 7, e = 0;
    vf_fill(s, n); s[n] = 0;
    for (int i = 0; i < n; i++) VF_REQUIRES(s[i] != 0 && s[i] != '/');
    int k = ref(s, n, &e);
    if (with) { s[n] = '/'; s[n + 1] = '2'; s[n + 2] = '4'; s[n + 3] = 0; }
    int r = parse_ipv4_and_mask(&a, &m, s);
    VF_ENSURES("addrmask.accepts", r == k && (!r || (a == e && m == (with ? 0xffffff00 : 0xffffffff))));
}
void harness_ip_addrmask(void)
{
    int n = vf_int(), w = vf_bool();
    for (int i = 7; i <= 7; i++) for (int j = 0; j < 2; j++) if (n == i && w == j) addrmask(i, j);
    VF_REACHED();
}
/* every string: dtoi decides after few characters or the digits so far are zeros */
void harness_ip_dtoi(void)
{
    char s[12]; size_t v = 999, e = 0; int ok = 1, n = vf_int(), r;
    VF_REQUIRES(n >= 0 && n <= 11);
    vf_fill(s, 12); s[n] = 0;
    for (int i = 0; i < 11; i++) { if (i >= n) break; VF_REQUIRES(s[i] != 0); if (s[i] < '0' || s[i] > '9') ok = 0; else e = e * 10 + s[i] - '0'; }
    r = dtoi(&v, s);
    VF_ENSURES("dtoi.exact", ok && e <= 255 ? r && v == e : !r || (ok && v == e));
    VF_REACHED();
}
void harness_ip_cidr(void)
{
    uint32_t m = vf_u32(), c = 99; int n = 0, contiguous = (~m & (~m + 1)) == 0;
    for (int i = 0; i < 32; i++) n += m >> i & 1;
    int r = mask_to_cidr4(m, &c);
    VF_ENSURES("cidr.accepts-exactly-prefix-masks", r == contiguous);
    VF_ENSURES("cidr.length", !r || c == (uint32_t)n);
    VF_REACHED();
}
void harness_ip_str(void)
{
    char b[16]; uint32_t a = vf_u32();
    VF_ENSURES("str.returns-buffer", str_ipv4(b, sizeof b, a) == b);
#ifndef VF_REPLAY
    for (int i = 0; i < 4; i++) VF_ENSURES("str.octet", Q[i] == (a >> (24 - 8 * i) & 0xff));
    VF_ENSURES("str.dotted", F[0] == '%' && F[2] == '.' && F[3] == '%' && F[5] == '.' && F[8] == '.' && F[11] == 0);
#else
    unsigned w, x, y, z; VF_ENSURES("str.text", sscanf(b, "%u.%u.%u.%u", &w, &x, &y, &z) == 4 && (w << 24 | x << 16 | y << 8 | z) == a);
#endif
    VF_REACHED();
}
