/* native runtime of the replay: inputs come from the file $VF_INPUTS */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
static FILE *fp;
uint64_t vf_in_(const char *name)
{
    unsigned long long v = 0;
    (void)name;
    if (!fp) { const char *f = getenv("VF_INPUTS"); fp = f ? fopen(f, "r") : 0; if (!fp) return 0; }
    char line[128];
    while (fgets(line, sizeof line, fp)) {
        if (line[0] == '#' || line[0] == '\n') continue;
        v = strtoull(line, 0, 0);
        return (uint64_t)v;
    }
    return 0;
}
void vf_fail_(const char *what, const char *file, int line)
{
    fprintf(stderr, "VF-FAIL %s (%s:%d)\n", what, file, line);
    fflush(stderr);
    _exit(42);
}
void vf_skip_(const char *what)
{
    fprintf(stderr, "VF-SKIP requires not met: %s\n", what);
    _exit(0);
}
extern void VF_ENTRY(void);
int main(void) { VF_ENTRY(); fprintf(stderr, "VF-OK\n"); return 0; }
