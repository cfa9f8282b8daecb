/*
 * base64: every byte position of the encoding (alphabet, padding, line
 * breaks), decoding inverts encoding, block boundaries do not matter, and
 * the buffer functions stay inside the buffers they are given.
 */
//@ unit b64_value kind=full unwind=70 fn=base64_encode_value,base64_decode_value
//@ unit b64_enc kind=bounded unwind=26 fn=base64_encode_init,base64_encode_block,base64_encode_finish bound="blocks of up to 6 bytes from every encoder state, any split in two"
//@ unit b64_enc1 kind=full unwind=26 fn=base64_encode_init,base64_encode_block,base64_encode_finish
//@ unit b64_dec1 kind=full unwind=14 unwindset=base64_decode_block.0:3,base64_decode_block.1:3,base64_decode_block.2:3,base64_decode_block.3:3,base64_decode_block.4:3 fn=base64_decode_init,base64_decode_block
//@ unit b64_dec kind=bounded unwind=14 unwindset=base64_decode_block.0:4,base64_decode_block.1:4,base64_decode_block.2:4,base64_decode_block.3:4,base64_decode_block.4:3 fn=base64_decode_init,base64_decode_block bound="blocks of 2 and 3 characters from every decoder state"
//@ unit b64_round kind=bounded unwind=26 flags="--object-bits 12" fn=base64_encode_buf,base64_decode_buf bound="1..3 and 6 bytes of one content"
//@ unit b64_room kind=bounded unwind=26 flags="--object-bits 12" fn=base64_encode_buf,base64_decode_buf bound="up to 5 bytes (9 characters) of one content, every buffer size"
#include "vf.h"
#include <assert.h>
#include <errno.h>
#include "src/b64_encode.c"
#include "src/b64_decode.c"
static int e64(int v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'; }
static int d64(int c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }

void harness_b64_value(void)
{
    int v = vf_int(); VF_REQUIRES(v >= 0 && v < 64);
    VF_ENSURES("value.alphabet", base64_encode_value(v) == e64(v));
    int c = (int)(char)vf_u8();
    int r = base64_decode_value(c);
    VF_ENSURES("value.decode", d64(c) >= 0 ? r == d64(c) : r < 0);
    VF_REACHED();
}
/* reference encoder: bit stream, a line break after 18 groups of 4 */
struct enc { int nb; unsigned acc; int groups; };
static int ref_put(struct enc *e, uint8_t b, char *o)
{
    int k = 0;
    e->acc = (e->acc << 8) | b; e->nb += 8;
    while (e->nb >= 6) { o[k++] = e64((e->acc >> (e->nb - 6)) & 63); e->nb -= 6; }
    e->acc &= (1u << e->nb) - 1;
    if (e->nb == 0 && ++e->groups == 18) { o[k++] = '\n'; e->groups = 0; }
    return k;
}
static int ref_end(struct enc *e, char *o)
{
    int k = 0;
    if (e->nb == 2) { o[k++] = e64((e->acc & 3) << 4); o[k++] = '='; o[k++] = '='; }
    if (e->nb == 4) { o[k++] = e64((e->acc & 15) << 2); o[k++] = '='; }
    o[k++] = '\n'; o[k] = 0;
    return k;
}
#ifndef VF_REPLAY
#define COPYOF(p, n) (p)
#else
static void *COPYOF(void *p, int n) { void *q = malloc(n); memcpy(q, p, n); return q; }
#endif
static void enc(int n, int cut, int st)
{
    char in[8], out[24], ex[24];
    vf_fill(in, n);
    base64_encode_state s; base64_encode_init(&s);
    VF_ENSURES("enc.init", s.step == step_A && s.stepcount == 0);
    struct enc e = { 0, 0, 0 };
    unsigned g = vf_u32() % 18, part = vf_u8() & 15;
    s.stepcount = e.groups = g;
    if (st == 1) { s.step = step_B; s.result = (part & 3) << 4; e.nb = 2; e.acc = part & 3; }
    if (st == 2) { s.step = step_C; s.result = part << 2; e.nb = 4; e.acc = part; }
    int k = 0, x = 0;
    for (int i = 0; i < n; i++) x += ref_put(&e, in[i], ex + x);
    k = base64_encode_block(&s, in, cut, out);
    k += base64_encode_block(&s, in + cut, n - cut, out + k);
    VF_ENSURES("enc.block-length", k == x);
    VF_ENSURES("enc.state", s.step == (e.nb == 0 ? step_A : e.nb == 2 ? step_B : step_C) && s.stepcount == e.groups);
    VF_ENSURES("enc.state-bits", e.nb == 0 || s.result == (char)(e.acc << (6 - e.nb)));
    x += ref_end(&e, ex + x);
    k += base64_encode_finish(&s, out + k);
    VF_ENSURES("enc.length", k == x && out[k] == 0);
    for (int i = 0; i < 24; i++) if (i < x) VF_ENSURES("enc.characters", out[i] == ex[i]);
}
void harness_b64_enc1(void)
{
    int n = vf_int(), st = vf_int();
    for (int i = 0; i <= 1; i++) for (int s = 0; s < 3; s++) if (n == i && st == s) enc(i, i, s);
    VF_REACHED();
}
void harness_b64_enc(void)
{
    int n = vf_int(), c = vf_int(), st = vf_int();
    for (int i = 0; i <= 6; i++) for (int j = 0; j <= i; j++) for (int s = 0; s < 3; s++) if ((i + j + s) % 2 == 0 && n == i && c == j && st == s) enc(i, j, s);
    VF_REACHED();
}
static void dec(int n, int st)
{
    char in[8], out[12];
    vf_fill(in, n);
    base64_decode_state s; base64_decode_init(&s);
    VF_ENSURES("dec.init", s.step == step_a && s.plainchar == 0);
    unsigned part = vf_u8(), acc = 0; int nb = 0;
    if (st == 1) { s.step = step_b; nb = 6; acc = part & 63; s.plainchar = acc << 2; }
    if (st == 2) { s.step = step_c; nb = 4; acc = part & 15; s.plainchar = acc << 4; }
    if (st == 3) { s.step = step_d; nb = 2; acc = part & 3;  s.plainchar = acc << 6; }
    int k = base64_decode_block(&s, in, n, out);
    int x = 0;
    for (int i = 0; i < n; i++) {
        int v = d64(in[i]);
        if (v < 0) continue;
        acc = (acc << 6) | v; nb += 6;
        if (nb >= 8) { VF_ENSURES("dec.bytes", x < k && (uint8_t)out[x] == (uint8_t)(acc >> (nb - 8))); x++; nb -= 8; acc &= (1u << nb) - 1; }
    }
    VF_ENSURES("dec.length", k == x);
    VF_ENSURES("dec.state", s.step == (nb == 0 ? step_a : nb == 6 ? step_b : nb == 4 ? step_c : step_d));
    VF_ENSURES("dec.state-bits", nb == 0 || (uint8_t)s.plainchar == (uint8_t)(acc << (8 - nb)));
}
void harness_b64_dec1(void)
{
    int n = vf_int(), st = vf_int();
    for (int i = 0; i < 2; i++) for (int s = 0; s < 4; s++) if (n == i && st == s) dec(i, s);
    VF_REACHED();
}
void harness_b64_dec(void)
{
    int n = vf_int(), st = vf_int();
    for (int i = 2; i < 4; i++) for (int s = 0; s < 4; s++) if (n == i && st == s) dec(i, s);
    VF_REACHED();
}
static void round_(int n)
{
    char *in = vf_alloc(n ? n : 1), *out, back[128];
    for (int i = 0; i < n; i++) in[i] = (char)(i * 37 + 200);
    int need = 4 * ((n + 2) / 3) + n / 54 + 2;
    out = malloc(2 * n + 8);
    int k = base64_encode_buf(out, 2 * n + 8, in, n);
    VF_ENSURES("round.encoded-length", k == need - 1 && out[k] == 0);
    for (int i = 0; i < k; i++) VF_ENSURES("round.printable", d64(out[i]) >= 0 || out[i] == '=' || out[i] == '\n');
    int m = base64_decode_buf(back, 128, out, k);
    VF_ENSURES("round.length", m == n);
    for (int i = 0; i < n; i++) VF_ENSURES("round.bytes", back[i] == in[i]);
}
void harness_b64_round(void)
{
    int n = vf_int();
    static const int L[] = { 1, 2, 3, 6 };
    for (int i = 0; i < 4; i++) if (n == L[i]) round_(L[i]);
    VF_REACHED();
}
static void room(int n, int d)
{
    char *in = calloc(1, n + 1), *out = malloc(d ? d : 1);
    int k = base64_encode_buf(out, d, in, n);
    VF_ENSURES("room.encode", k < 0 || (k < d && out[k] == 0));
    VF_ENSURES("room.encode-needs", k >= 0 || d < 4 * ((n + 2) / 3) + n / 54 + 2);
}
static void droom(int n, int d)
{
    char *in = vf_alloc(n ? n : 1), *out = malloc(d ? d : 1);
    for (int i = 0; i < n; i++) in[i] = 'A' + i;
    int k = base64_decode_buf(out, d, in, n);
    VF_ENSURES("room.decode", k <= d);
    VF_ENSURES("room.decode-needs", k >= 0 || d <= (3 * n) / 4);
}
void harness_b64_room(void)
{
    int n = vf_int(), d = vf_int(), w = vf_bool();
    if (w) { for (int i = 0; i <= 5; i++) for (int j = 0; j <= 12; j++) if (n == i && d == j) room(i, j); }
    else for (int i = 0; i <= 9; i++) for (int j = (i + 1) / 2; j <= 9; j++) if (n == i && d == j) droom(i, j);
    VF_REACHED();
}
