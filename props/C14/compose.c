/*
 * parse_ipv4_and_mask for a text of any length, over the contracts of
 * parse_ipv4 (ip_addr) and dtoi (ip_dtoi): a text is a string object of
 * symbolic size, and strchr is its specification.
 */
//@ unit ip_compose kind=full unwind=82 unwindset=h_len.0:34,h_strchr.0:35,safe_strcpy.0:34 fn=parse_ipv4_and_mask,safe_strcpy
//@ unit ip_huge kind=full unwind=36 defs="HUGE=1" fn=parse_ipv4_and_mask
//@ subst src/parse-ip.c parse_ipv4(uint32_t* p_z, const char* sx) => parse_ipv4_real(uint32_t* p_z, const char* sx)
//@ subst src/parse-ip.c dtoi(size_t* pn, const char* s) => dtoi_real(size_t* pn, const char* s)
//@ trust strchr by its specification; parse_ipv4 and dtoi by their contracts (ip_addr, ip_dtoi)
#include "vf.h"
#include "vf_ctype.h"
#ifndef VF_REPLAY
static char *S; static size_t N, P, W; static int HAS;
/* what the callees were asked */
static int NP, ND, RP[2], RD, DOT; static uint32_t VP[2]; static size_t VD; static char TP[2], TD;
static int h_len(const char *s) { for (int i = 0; i < 32; i++) if (!s[i]) return i; return 99; }
static char *h_strchr(const char *s, int c)
{
    if (s == S && c == '/') return HAS ? S + P : 0;
    for (int i = 0; i < 34; i++) { if (s[i] == (char)c) return (char *)s + i; if (!s[i]) return 0; }
    VF_ENSURES("compose.terminated-mask", 0); return 0;
}
#define strchr h_strchr
#ifdef HUGE
static void *h_memcpy(void *d, const void *s, size_t n) { VF_ENSURES("memcpy.in-bounds", __CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)); VF_REQUIRES(n < 32); return d; }
#undef memcpy
#define memcpy h_memcpy
#endif
int parse_ipv4(uint32_t *p, const char *s)
{
    VF_ENSURES("compose.terminated-text", h_len(s) < 32); VF_REQUIRES(NP < 2);
    TP[NP] = W <= (size_t)h_len(s) ? s[W] : 1; if (RP[NP]) *p = VP[NP];
    return RP[NP++];
}
static int dtoi(size_t *p, const char *s)
{
    VF_ENSURES("compose.terminated-number", h_len(s) < 32 && ND == 0);
    TD = W <= (size_t)h_len(s) ? s[W] : 1; ND++; if (RD) *p = VD;
    return RD;
}
#endif
#include "src/parse-ip.c"
#ifndef VF_REPLAY
static char T[80];
#endif
void harness_ip_compose(void)
{
#ifndef VF_REPLAY
    uint32_t a = 7, m = 7;
    NP = ND = 0; P = vf_size(); W = vf_size(); HAS = vf_bool(); DOT = 0;
    VF_REQUIRES(P <= 40 && W < 32);
    S = T; vf_fill(T, 80);
    /* the text: P characters, and after a slash up to R more; what lies beyond 34 characters is never read */
    size_t al = P, rest = vf_size(); VF_REQUIRES(rest <= 34);
    for (size_t i = 0; i < 40; i++) if (i < P) VF_REQUIRES(T[i] != 0 && T[i] != '/');
    if (HAS) { VF_REQUIRES(T[P] == '/'); for (int i = 0; i < 34; i++) if ((size_t)i < rest) { VF_REQUIRES(T[P + 1 + i] != 0); if (T[P + 1 + i] == '.') DOT = 1; } VF_REQUIRES(T[P + 1 + rest] == 0); }
    else VF_REQUIRES(T[P] == 0);
    for (int i = 0; i < 2; i++) { RP[i] = vf_bool(); VP[i] = vf_u32(); } RD = vf_bool(); VD = vf_size() & 0xff;
    int r = parse_ipv4_and_mask(&a, &m, T);
    if (al >= 20 || (HAS && rest >= 32)) VF_ENSURES("compose.too-long-is-rejected", !r || (HAS && rest >= 32 ? 0 : NP >= 1));
    if (r || (al <= 15 && (!HAS || rest < 32))) {
        VF_ENSURES("compose.address-parsed", NP >= 1 && TP[0] == (W < al ? T[W] : W == al ? 0 : 1));
        if (!RP[0]) VF_ENSURES("compose.bad-address", !r);
        else if (!HAS || rest == 0) VF_ENSURES("compose.no-mask", r && m == ~(uint32_t)0 && NP == 1);
        else {
            VF_ENSURES("compose.mask-kind", DOT ? NP == 2 && ND == 0 : NP == 1 && ND == 1);
            VF_ENSURES("compose.mask-text", (DOT ? TP[1] : TD) == (W < rest ? T[P + 1 + W] : W == rest ? 0 : 1));
            VF_ENSURES("compose.mask-decides", r == (DOT ? RP[1] : RD && VD <= 32));
            VF_ENSURES("compose.mask-value", !r || m == (DOT ? VP[1] : VD == 0 ? 0 : ~(uint32_t)0 << (32 - VD)));
        }
        VF_ENSURES("compose.address-value", !r || a == VP[0]);
    }
    VF_REACHED();
#endif
}
/* texts of any length whose slash lies beyond every valid address */
void harness_ip_huge(void)
{
#ifndef VF_REPLAY
    uint32_t a = 7, m = 7;
    NP = ND = 0; N = vf_size(); P = vf_size(); W = 0; HAS = 1;
    VF_REQUIRES(N < (1ul << 40) && P < N && P >= 32);
    size_t k = N + 1; S = vf_alloc(k); S[N] = 0;
    for (int i = 0; i < 2; i++) { RP[i] = vf_bool(); VP[i] = vf_u32(); } RD = vf_bool(); VD = vf_size() & 0xff;
    VF_ENSURES("huge.rejected", !parse_ipv4_and_mask(&a, &m, S));
    VF_REACHED();
#endif
}
