//@ unit enc fn=enc_LE_u16,enc_BE_u16,enc_LE_u32,enc_BE_u32,enc_LE_u64,enc_BE_u64,enc_LE_float64,enc_BE_float64 kind=full unwind=35
//@ unit dec fn=dec_LE_u16,dec_BE_u16,dec_LE_u32,dec_BE_u32,dec_LE_u64,dec_BE_u64,dec_LE_float64,dec_BE_float64 kind=full unwind=35
//@ unit roundtrip fn=enc_LE_u16,dec_LE_u16,enc_BE_u16,dec_BE_u16,enc_LE_u32,dec_LE_u32,enc_BE_u32,dec_BE_u32,enc_LE_u64,dec_LE_u64,enc_BE_u64,dec_BE_u64,enc_LE_float64,dec_LE_float64,enc_BE_float64,dec_BE_float64 kind=full unwind=35
//@ unit swab fn=__fswab16,__fswab32,__fswab64,__swab16,__swab32,__swab64 kind=full unwind=35
#include "vf.h"
#include "fast/encdec.h"
#include "fast/swab.h"

/* The specification of an encoding: byte i of an n-byte little (big) endian
 * image of v is (v >> 8*i) (resp. v >> 8*(n-1-i)). */
static int is_le(const uint8_t *b, uint64_t v, int n) {
    for (int i = 0; i < n; i++) if (b[i] != (uint8_t)(v >> (8 * i))) return 0;
    return 1;
}
static int is_be(const uint8_t *b, uint64_t v, int n) {
    for (int i = 0; i < n; i++) if (b[i] != (uint8_t)(v >> (8 * (n - 1 - i)))) return 0;
    return 1;
}
static uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static double dbl(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }

/* the buffer has guard bytes around the n encoded ones */
#define ENC1(fn, n, ARG, SPEC) do {                                      \
    uint8_t g[16], o[16]; uint64_t v = vf_u64();                          \
    vf_fill(g, 16); memcpy(o, g, 16);                                     \
    uint8_t *e = fn(g + 4, ARG);                                          \
    VF_ENSURES(#fn ".cursor", e == g + 4 + n);                            \
    VF_ENSURES(#fn ".layout", SPEC(g + 4, v, n));                         \
    VF_ENSURES(#fn ".frame",  memcmp(g, o, 4) == 0 && memcmp(g + 4 + n, o + 4 + n, 12 - n) == 0); \
} while (0)

void harness_enc(void)
{
    ENC1(enc_LE_u16, 2, (uint16_t)v, is_le);
    ENC1(enc_BE_u16, 2, (uint16_t)v, is_be);
    ENC1(enc_LE_u32, 4, (uint32_t)v, is_le);
    ENC1(enc_BE_u32, 4, (uint32_t)v, is_be);
    ENC1(enc_LE_u64, 8, v, is_le);
    ENC1(enc_BE_u64, 8, v, is_be);
    ENC1(enc_LE_float64, 8, dbl(v), is_le);
    ENC1(enc_BE_float64, 8, dbl(v), is_be);
    VF_REACHED();
}

#define DEC1(fn, n, RES, SPEC) do {                                      \
    uint8_t *g = vf_bytes(n);                                             \
    VF_ENSURES(#fn ".value", SPEC(g, (RES), n));                          \
    free(g);                                                              \
} while (0)

void harness_dec(void)
{
    DEC1(dec_LE_u16, 2, dec_LE_u16(g), is_le);
    DEC1(dec_BE_u16, 2, dec_BE_u16(g), is_be);
    DEC1(dec_LE_u32, 4, dec_LE_u32(g), is_le);
    DEC1(dec_BE_u32, 4, dec_BE_u32(g), is_be);
    DEC1(dec_LE_u64, 8, dec_LE_u64(g), is_le);
    DEC1(dec_BE_u64, 8, dec_BE_u64(g), is_be);
    DEC1(dec_LE_float64, 8, bits(dec_LE_float64(g)), is_le);
    DEC1(dec_BE_float64, 8, bits(dec_BE_float64(g)), is_be);
    VF_REACHED();
}

#define RT(e, n, A, d, B) do {                                           \
    uint64_t v = vf_u64(); uint8_t *g = vf_alloc(n);                      \
    e(g, A); VF_ENSURES(#e ".roundtrip", d(g) == (B)); free(g); } while (0)

void harness_roundtrip(void)
{
    RT(enc_LE_u16, 2, v, dec_LE_u16, (uint16_t)v);
    RT(enc_BE_u16, 2, v, dec_BE_u16, (uint16_t)v);
    RT(enc_LE_u32, 4, v, dec_LE_u32, (uint32_t)v);
    RT(enc_BE_u32, 4, v, dec_BE_u32, (uint32_t)v);
    RT(enc_LE_u64, 8, v, dec_LE_u64, v);
    RT(enc_BE_u64, 8, v, dec_BE_u64, v);
    { uint64_t v = vf_u64(); uint8_t g[8]; enc_LE_float64(g, dbl(v));
      VF_ENSURES("float64.le.roundtrip", bits(dec_LE_float64(g)) == v); }
    { uint64_t v = vf_u64(); uint8_t g[8]; enc_BE_float64(g, dbl(v));
      VF_ENSURES("float64.be.roundtrip", bits(dec_BE_float64(g)) == v); }
    VF_REACHED();
}

void harness_swab(void)
{
    uint64_t v = vf_u64(); uint8_t a[8], b[8];
    memcpy(a, &v, 8);
    uint64_t w8 = __swab64(v); memcpy(b, &w8, 8);
    for (int i = 0; i < 8; i++) VF_ENSURES("swab64", b[i] == a[7 - i]);
    uint32_t w4 = __swab32((uint32_t)v); memcpy(b, &w4, 4);
    for (int i = 0; i < 4; i++) VF_ENSURES("swab32", b[i] == a[3 - i]);
    uint16_t w2 = __swab16((uint16_t)v); memcpy(b, &w2, 2);
    for (int i = 0; i < 2; i++) VF_ENSURES("swab16", b[i] == a[1 - i]);
    VF_ENSURES("swab.involution", __fswab64(__fswab64(v)) == v && __fswab32(__fswab32((uint32_t)v)) == (uint32_t)v
               && __fswab16(__fswab16((uint16_t)v)) == (uint16_t)v);
    /* the constant forms agree with the function forms */
    VF_ENSURES("swab.const", __constant_swab64(v) == w8 && __constant_swab32((uint32_t)v) == w4
               && __constant_swab16((uint16_t)v) == w2);
    VF_REACHED();
}
