/*
 * ulid.c: 48 bits of milliseconds, big-endian, then entropy; Crockford's
 * base32 in 26 characters, in the order of the values.
 */
//@ unit ulid_generate kind=full unwind=12 fn=ulid_generate
//@ unit ulid_tostring kind=full unwind=30 fn=ulid_tostring
//@ unit ulid_order kind=full unwind=30 fn=ulid_tostring
//@ unit ulid_fromstring kind=full unwind=34 fn=ulid_fromstring
//@ unit ulid_table kind=full unwind=258 fn=Ulid_decoder
//@ unit ulid_roundtrip kind=full unwind=34 fn=ulid_tostring,ulid_fromstring
//@ trust gettimeofday and getentropy fill their buffers as documented
#include "vf.h"
#include <sys/time.h>
#include <sys/random.h>
#include <errno.h>
static uint8_t ENT[16]; static int EFAIL, TFAIL; static struct timeval TV; static size_t NENT;
static int vf_entropy(void *p, size_t n) { NENT = n; if (EFAIL) { errno = EIO; return -1; } for (size_t i = 0; i < 10; i++) if (i < n) ((uint8_t *)p)[i] = ENT[i]; return 0; }
static int vf_now(struct timeval *t, void *z) { if (TFAIL) { errno = EFAULT; return -1; } *t = TV; return 0; }
#define getentropy vf_entropy
#define gettimeofday vf_now
#include "src/ulid.c"
static const char A[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
static int val(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') c -= 32;
    for (int i = 10; i < 32; i++) if (A[i] == c) return i;
    return -1;
}
/* bits 5k .. 5k+4 of the 130 bit number 00 || id, counted from the left */
static unsigned quint(const uint8_t *id, int k)
{
    unsigned v = 0;
    for (int b = 0; b < 5; b++) { int n = 5 * k + b - 2; v = v << 1 | (n < 0 ? 0 : id[n / 8] >> (7 - n % 8) & 1); }
    return v;
}
void harness_ulid_generate(void)
{
    uint8_t b[17]; size_t n = vf_u64(); VF_REQUIRES(n <= 17);
    b[16] = 0x5a;
    for (int i = 0; i < 10; i++) ENT[i] = vf_u8();
    EFAIL = vf_u8() & 1; TFAIL = vf_u8() & 1; uint64_t sec = vf_u64(), us = vf_u32();
    VF_REQUIRES(us < 1000000 && sec < (uint64_t)1 << 45); TV.tv_sec = sec; TV.tv_usec = us;
    uint64_t ms = (TV.tv_sec * 1000) + (TV.tv_usec / 1000);
    int r = ulid_generate(b, n);
    VF_ENSURES("ulid.generate", r == (n < 16 ? -ENOSPC : TFAIL ? -EFAULT : EFAIL ? -EIO : 16));
    if (r == 16) {
        for (int i = 0; i < 6; i++) VF_ENSURES("ulid.time", b[i] == (uint8_t)(ms >> (40 - 8 * i)));
        for (int i = 0; i < 10; i++) VF_ENSURES("ulid.entropy", b[6 + i] == ENT[i]);
        VF_ENSURES("ulid.all-entropy", NENT == 10);
    }
    VF_ENSURES("ulid.bounds", b[16] == 0x5a);
    VF_REACHED();
}
void harness_ulid_tostring(void)
{
    uint8_t id[16]; char s[28]; size_t n = vf_u64(); VF_REQUIRES(n <= 28);
    for (int i = 0; i < 16; i++) id[i] = vf_u8();
    for (int i = 0; i < 28; i++) s[i] = '#';
    int r = ulid_tostring(s, n, id);
    VF_ENSURES("ulid.length", r == (n < 27 ? -ENOSPC : 26));
    if (r == 26) { for (int k = 0; k < 26; k++) VF_ENSURES("ulid.digit", s[k] == A[quint(id, k)]); VF_ENSURES("ulid.terminated", s[26] == 0); }
    else VF_ENSURES("ulid.untouched", s[0] == '#');
    VF_ENSURES("ulid.bounds", s[27] == '#');
    VF_REACHED();
}
void harness_ulid_order(void)
{
    uint8_t a[16], b[16]; char s[27], t[27]; int p = vf_u8() % 16, q;
    for (int i = 0; i < 16; i++) { a[i] = vf_u8(); b[i] = vf_u8(); if (i < p) VF_REQUIRES(a[i] == b[i]); if (i == p) VF_REQUIRES(a[i] < b[i]); }
    VF_REQUIRES(ulid_tostring(s, 27, a) == 26 && ulid_tostring(t, 27, b) == 26);
    for (q = 0; q < 26 && s[q] == t[q]; q++) ;
    VF_ENSURES("ulid.text-order-is-value-order", q < 26 && s[q] < t[q]);
    VF_REACHED();
}
static char STR[40];
void harness_ulid_fromstring(void)
{
    uint8_t b[17]; size_t n = vf_u64(), len = vf_u64(); VF_REQUIRES(n <= 17 && len <= 28);
    for (int i = 0; i < 32; i++) { STR[i] = vf_u8(); if (i < len) VF_REQUIRES(STR[i]); } STR[len] = 0;
    b[16] = 0x5a;
    int ok = len == 26;
    for (int i = 0; i < 26; i++) if (ok && (val(STR[i]) < 0 || (i == 0 && val(STR[i]) > 7))) ok = 0;
    int r = ulid_fromstring(b, n, STR);
    VF_ENSURES("ulid.parse", r == (n < 16 ? -ENOSPC : ok ? 16 : -EINVAL));
    if (r == 16) for (int k = 0; k < 26; k++) VF_ENSURES("ulid.bits", (int)quint(b, k) == val(STR[k]));
    VF_ENSURES("ulid.bounds", b[16] == 0x5a);
    VF_REACHED();
}
void harness_ulid_table(void)
{
    for (int i = 0; i < 256; i++) VF_ENSURES("ulid.alphabet", Ulid_decoder[i] == (uint8_t)val(i));
    VF_REACHED();
}
void harness_ulid_roundtrip(void)
{
    uint8_t a[16], b[16]; char s[27]; int i = vf_u8() % 16;
    for (int i = 0; i < 16; i++) a[i] = vf_u8();
    int r = ulid_tostring(s, 27, a), q = ulid_fromstring(b, 16, s);
    VF_ENSURES("ulid.accepts-its-own-text", r == 26 && q == 16);
    VF_ENSURES("ulid.roundtrip", a[i] == b[i]);
    VF_REACHED();
}
