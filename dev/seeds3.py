CHK='#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\\n", #x); exit(1); } } while (0)\n'
seed('c02-full-at-wrap','C02','inc/fast/spsc_bounded_queue.h','''    uint_fast32_t wr = 1 + atomic_load_explicit(&q->wr, memory_order_acquire);

    if (wr == q->sz) wr = 0;''','''    uint_fast32_t wr = 1 + atomic_load_explicit(&q->wr, memory_order_acquire);

    if (wr > q->sz) wr = 0;''','asking whether the queue is full when the write index is at the last slot','a full queue is reported as not full (the wrap of the index is missed)',
CHK+'''#include "fast/spsc_bounded_queue.h"
SPSCQ_TYPEDEF(Q, int, 4);
int main(void){ Q q; SPSCQ_INIT(&q,4); int e; for(int i=0;i<3;i++) CHECK(SPSCQ_ENQ(&q,i)); CHECK(__spscq_full_p(&q.q)); CHECK(!SPSCQ_ENQ(&q,9)); return 0; }
''')
seed('c08-arena-large','C08','src/arena.c','chunk = nbytes < a->chunk_size ?','chunk = nbytes <= a->chunk_size + SYS_ALIGNMENT ?','a request of chunk size + 1 .. + 8 bytes','the block extends up to 8 bytes past the end of its node',
CHK+'''#include "src/arena.c"
int main(void){ arena_t a; CHECK(arena_new(&a,64)==0); char *x=arena_alloc(a,70); memset(x,1,70); memset(x+70,1,2); CHECK(x[71]==1); arena_delete(a); return 0; }
''')
seed('c05-insert-before-head','C05','inc/fast/list.h','''    if ( ((elm)->field.prev = (inlist)->field.prev) )   \\
        (inlist)->field.prev->field.next = (elm);       \\
    else                                                \\
        (head)->first = (elm);                          \\
    (elm)->field.next = (inlist);  ''','''    if ( ((elm)->field.prev = (inlist)->field.prev) )   \\
        (inlist)->field.prev->field.next = (elm);       \\
    else if ((head)->first->field.next)                 \\
        (head)->first = (elm);                          \\
    (elm)->field.next = (inlist);  ''','inserting before the only node of a list','the head keeps pointing at the old first node; the new one is unreachable going forward',
CHK+'''#include "fast/list.h"
struct n { DL_ENTRY(n) l; int v; }; DL_HEAD_TYPEDEF(hd, n);
int main(void){ hd h; DL_INIT(&h); struct n a={.v=1},b={.v=2}; DL_INSERT_HEAD(&h,&a,l); DL_INSERT_BEFORE(&h,&a,&b,l); CHECK(DL_FIRST(&h)==&b); CHECK(DL_NEXT(&b,l)==&a); CHECK(DL_LAST(&h)==&a); return 0; }
''')
