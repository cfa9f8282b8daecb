/*
 * hexdump.c: every line shows its 16 bytes; the writer's errors are passed on.
 */
//@ unit h_dump kind=bounded unwind=130 fn=hex_dump_init,hex_dump_write,hex_dump_close,__encode_int,__do_byte bound="0, 1, 9, 16 and 18 bytes (any content)"
//@ unit h_file kind=full unwind=130 fn=fhexdump,__fp_writer
#include "vf.h"
#include <errno.h>
#include "vf_ctype.h"
static size_t N, LINE, TOTAL; static uint8_t *B; static int FAILAT, PTRF;
static int ERRS, EOFS, WROTE;
#ifndef VF_REPLAY
#define feof(fp)   (EOFS)
#define ferror(fp) (ERRS)
static size_t vf_fwrite(const void *p, size_t sz, size_t n, FILE *fp) { WROTE++; if (ERRS || EOFS) return 0; return n; }
#define fwrite vf_fwrite
#endif
#include "src/hexdump.c"
static int hx(int v) { return v < 10 ? '0' + v : 'a' + v - 10; }
static int w(void *ctx, const char *b, size_t n)
{
    size_t k = N - 16 * LINE < 16 ? N - 16 * LINE : 16;
    VF_ENSURES("dump.no-empty-line", 16 * LINE < N && ctx == (void *)B);
    VF_ENSURES("dump.line-length", n == 70 + k + 2 && b[n - 1] == '\n' && b[n - 2] == '|' && b[69] == '|');
    size_t off = 16 * LINE + (PTRF ? (size_t)B : 0);
    for (size_t i = 0; i < 16; i++) {
        size_t at = 18 + 3 * i + (i >= 8);
        VF_ENSURES("dump.offset", b[i] == hx((off >> (60 - 4 * i)) & 15) && b[16] == ' ' && b[17] == ' ');
        if (i < k) {
            uint8_t c = B[16 * LINE + i];
            VF_ENSURES("dump.hex", b[at] == hx(c >> 4) && b[at + 1] == hx(c & 15) && b[at + 2] == ' ');
            VF_ENSURES("dump.ascii", b[70 + i] == (c >= 32 && c < 127 ? c : '.'));
        } else VF_ENSURES("dump.padding", b[at] == ' ' && b[at + 1] == ' ');
    }
    LINE++;
    return (int)LINE == FAILAT ? -EPIPE : 0;
}
static void dump(size_t n)
{
    hex_dumper d; N = n; LINE = 0;
    B = vf_bytes(n); PTRF = vf_bool(); FAILAT = vf_int();
    hex_dump_init(&d, w, B, PTRF ? HEX_DUMP_PTR : HEX_DUMP_OFFSET);
    int r = hex_dump_write(&d, B, n);
    size_t lines = (n + 15) / 16;
    if (FAILAT >= 1 && (size_t)FAILAT <= lines) VF_ENSURES("dump.error-passed-on", r == -EPIPE && LINE == (size_t)FAILAT);
    else VF_ENSURES("dump.all-lines", r == 0 && LINE == lines);
}
void harness_h_dump(void)
{
    size_t n = vf_size();
    if (n == 0) dump(0); if (n == 1) dump(1); if (n == 9) dump(9); if (n == 16) dump(16); if (n == 18) dump(18);
    VF_REACHED();
}
void harness_h_file(void)
{
#ifdef VF_REPLAY
    FILE *fp = fopen("/dev/full", "w"); setvbuf(fp, 0, _IONBF, 0);
    ERRS = 1;
#else
    FILE *fp = (FILE *)&N;
    ERRS = vf_bool(); EOFS = vf_bool();
#endif
    uint8_t b[5]; for (int i = 0; i < 5; i++) b[i] = vf_u8();
    int r = fhexdump(fp, b, 5);
    VF_ENSURES("file.error-reported", (r < 0) == (ERRS || EOFS) && r <= 0);
    VF_REACHED();
}
