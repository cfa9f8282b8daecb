CHK='#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\\n", #x); exit(1); } } while (0)\n'
seed('c19-grow-exact','C19','src/gstring.c','size_t want = g->len + len + 1; // trailing null','size_t want = g->len + len;','appending a character to a string whose length is one less than its capacity','the terminating NUL is written one byte past the buffer',
CHK+'''#include "src/gstring.c"
int main(void){ gstr g; gstr_init(&g, 4); size_t cap=g.cap; for (size_t i=0;i<2*cap;i++) { gstr_append_ch(&g,'a'+(int)i); CHECK(g.len==i+1 && g.len < g.cap && g.str[g.len]==0); } return 0; }
''')
seed('c19-decimal-four','C19','src/unescape.c','int n   = 3;\n    int val = 0;\n\n    while (n-- > 0) {\n        int c = *ptr;\n\n        if (!c)          break;','int n   = 4;\n    int val = 0;\n\n    while (n-- > 0) {\n        int c = *ptr;\n\n        if (!c)          break;','a decimal escape directly followed by a digit as text','the digit after a three-digit decimal escape is swallowed',
CHK+'''#include "src/gstring.c"
#include "src/unescape.c"
int main(void){ gstr g; gstr_init_from(&g, "|1007"); gstr_unescape(&g,'|'); CHECK(g.len==2 && !memcmp(g.str, "d7", 3)); return 0; }
''')
seed('c20-size-wrapped','C20','inc/fast/queue.h','''    uint32_t wr = q->wr + 1;
    if (wr == q->sz)
        wr = 0;

    return q->rd == wr;''','''    uint32_t wr = q->wr + 1;
    if (wr > q->sz)
        wr = 0;

    return q->rd == wr;''','a queue that is full with its write position in the last slot','the full predicate denies it',
CHK+'''#include "fast/queue.h"
FQ_TYPEDEF(tq,int,4);
int main(void){ tq q; FQ_INIT(&q,4); for (int s=0;s<9;s++) { int n=0,v=-1; while (FQ_ENQ(&q,n)) n++; CHECK(n==3 && FQ_FULL_P(&q) && FQ_SIZE(&q)==3); for (int i=0;i<3;i++) CHECK(FQ_DEQ(&q,v) && v==i); CHECK(FQ_EMPTY_P(&q) && !FQ_DEQ(&q,v)); CHECK(FQ_ENQ(&q,7) && !FQ_FULL_P(&q) && FQ_DEQ(&q,v) && v==7); } return 0; }
''')
seed('c20-read-after-unlock','C20','inc/fast/syncq.h','''                                    typeof(q_->e[0]) z_ = q_->e[r_];\\
                                    pthread_mutex_unlock(&s_->lock); \\
                                    sem_post(&s_->notfull); \\
                                    z_;\\''','''                                    pthread_mutex_unlock(&s_->lock); \\
                                    sem_post(&s_->notfull); \\
                                    typeof(q_->e[0]) z_ = q_->e[r_];\\
                                    z_;\\''','a producer reusing the slot between the release of it and the read','an element is read after its slot was given back: it may be lost and another delivered twice',
'''#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
/* the moment a free slot is announced, another thread may reuse it: do so at once, in the same thread */
struct tq_; static void reuse(void);
static int post(sem_t *s) { int r = sem_post(s); reuse(); return r; }
#define sem_post post
#include "fast/syncq.h"
SYNCQ_TYPEDEF(tq, int, 1);
static tq q; static int armed;
static void reuse(void) { if (armed) { armed = 0; SYNCQ_ENQ(&q, 2); } }
int main(void){ int a, b; if (SYNCQ_INIT(&q,1)) return 2; SYNCQ_ENQ(&q, 1); armed = 1; a = SYNCQ_DEQ(&q); b = SYNCQ_DEQ(&q); if (a != 1 || b != 2) { fprintf(stderr, "saw %d %d\\n", a, b); return 1; } return 0; }
''')
