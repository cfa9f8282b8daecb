/*
 * uuid.c, uuid2str.c: version 4 bits, 8-4-4-4-12 upper case hexadecimal;
 * parsing takes 32 digits and 4 dashes and never writes past 16 bytes.
 */
//@ unit uuid_generate kind=full unwind=18 fn=uuid_generate
//@ unit uuid_tostring kind=full unwind=40 fn=uuid_tostring,uuid2str,chunk
//@ unit uuid_fromstring kind=full unwind=42 fn=uuid_fromstring
//@ unit uuid_roundtrip kind=full unwind=42 fn=uuid_tostring,uuid_fromstring
//@ trust getentropy fills its buffer as documented
#include "vf.h"
#include <errno.h>
#include <sys/random.h>
static uint8_t ENT[16]; static int EFAIL; static size_t NENT;
static int vf_entropy(void *p, size_t n) { NENT = n; if (EFAIL) { errno = EIO; return -1; } for (size_t i = 0; i < 16; i++) if (i < n) ((uint8_t *)p)[i] = ENT[i]; return 0; }
#define getentropy vf_entropy
#include "src/uuid.c"
#define chunk chunk2
#include "src/uuid2str.c"
static const char X[] = "0123456789ABCDEF";
static int hex(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int dash(int i) { return i == 8 || i == 13 || i == 18 || i == 23; }
void harness_uuid_generate(void)
{
    uint8_t b[17]; size_t n = vf_u64(); int null = vf_u8() & 1; VF_REQUIRES(n <= 17);
    for (int i = 0; i < 16; i++) ENT[i] = vf_u8();
    EFAIL = vf_u8() & 1; b[16] = 0x5a;
    int r = uuid_generate(null ? (uint8_t *)0 : b, n);
    VF_ENSURES("uuid.generate", r == (null || n == 0 ? -EINVAL : n < 16 ? -ENOSPC : EFAIL ? -EIO : 16));
    if (r == 16) for (int i = 0; i < 16; i++) VF_ENSURES("uuid.version4-and-entropy", b[i] == (i == 6 ? (ENT[i] & 0x0f) | 0x40 : i == 8 ? (ENT[i] & 0x3f) | 0x80 : ENT[i]));
    VF_ENSURES("uuid.bounds", b[16] == 0x5a);
    VF_REACHED();
}
void harness_uuid_tostring(void)
{
    uint8_t id[16]; char s[38]; size_t n = vf_u64(); VF_REQUIRES(n <= 38);
    for (int i = 0; i < 16; i++) id[i] = vf_u8();
    for (int i = 0; i < 38; i++) s[i] = '#';
    long r; if (vf_u8() & 1) r = uuid_tostring(s, n, id); else r = uuid2str(s, n, id);
    VF_ENSURES("uuid.length", r == (n < 37 ? -ENOSPC : 37));
    if (r == 37) {
        int k = 0;
        for (int i = 0; i < 36; i++) {
            if (dash(i)) VF_ENSURES("uuid.dash", s[i] == '-');
            else { VF_ENSURES("uuid.digit", s[i] == X[id[k / 2] >> (k % 2 ? 0 : 4) & 15]); k++; }
        }
        VF_ENSURES("uuid.terminated", s[36] == 0);
    } else VF_ENSURES("uuid.untouched", s[0] == '#');
    VF_ENSURES("uuid.bounds", s[37] == '#');
    VF_REACHED();
}
static char STR[42]; static uint8_t B[20];
void harness_uuid_fromstring(void)
{
    size_t n = vf_u64(), len = vf_u64(); VF_REQUIRES(n <= 17 && len <= 38);
    for (int i = 0; i < 40; i++) { STR[i] = vf_u8(); if (i < len) VF_REQUIRES(STR[i]); } STR[len] = 0;
    for (int i = 16; i < 20; i++) B[i] = 0x5a;
    int nd = 0, ok = len == 36; uint8_t want[16];
    for (int i = 0; i < 36; i++) if (ok && STR[i] != '-') {
        int h = hex(STR[i]);
        if (h < 0 || nd >= 32) ok = 0;
        else { if (nd % 2) want[nd / 2] |= h; else want[nd / 2] = h << 4; nd++; }
    }
    if (nd != 32) ok = 0;
    int r = uuid_fromstring(B, n, STR);
    VF_ENSURES("uuid.parse", r == (n < 16 ? -ENOSPC : ok ? 16 : -EINVAL));
    if (r == 16) for (int i = 0; i < 16; i++) VF_ENSURES("uuid.value", B[i] == want[i]);
    for (int i = 16; i < 20; i++) VF_ENSURES("uuid.bounds", B[i] == 0x5a);
    VF_REACHED();
}
void harness_uuid_roundtrip(void)
{
    uint8_t a[16], b[16]; char s[37]; int i = vf_u8() % 16;
    for (int i = 0; i < 16; i++) a[i] = vf_u8();
    int r = uuid_tostring(s, 37, a), q = uuid_fromstring(b, 16, s);
    VF_ENSURES("uuid.accepts-its-own-text", r == 37 && q == 16);
    VF_ENSURES("uuid.roundtrip", a[i] == b[i]);
    VF_REACHED();
}
