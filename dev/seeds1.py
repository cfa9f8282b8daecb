CHK='#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\\n", #x); exit(1); } } while (0)\n'
seed('c01-dec-be64-sign','C01','inc/fast/encdec.h','| (_u64(p[4]) << 24)','| ((int)p[4] << 24)','a 64-bit big-endian value whose bit 31 is set','dec_BE_u64 sign-extends byte 4, so the high word decodes as all ones',
CHK+'''#include "fast/encdec.h"
int main(void){ uint64_t v[]={0x0102030405060708ull,0x0102030485060708ull,0xffffffff7fffffffull,0x80000000ull};
 for(int i=0;i<4;i++){ uint8_t b[8]; enc_BE_u64(b,v[i]); CHECK(dec_BE_u64(b)==v[i]); enc_LE_u64(b,v[i]); CHECK(dec_LE_u64(b)==v[i]); } return 0; }
''',cflags='-fno-sanitize=shift')
seed('c02-publish-before-write','C02','inc/fast/spsc_bounded_queue.h','''                        (q_)->elem[wr_] = e_; \\
                        atomic_store_explicit(&_q->wr, nwr_, memory_order_release); \\''','''                        atomic_store_explicit(&_q->wr, nwr_, memory_order_release); \\
                        (q_)->elem[wr_] = e_; \\''','a consumer running between the publication of the index and the write of the element','the producer publishes the slot before the item is in it',
CHK+'''#include "fast/spsc_bounded_queue.h"
SPSCQ_TYPEDEF(Q, uint64_t, 4);
static Q q; static uint64_t got; static int ok;
/* the "other thread": runs while the producer is in the middle of its enqueue */
static uint64_t hook(uint64_t v){ ok=SPSCQ_DEQ(&q,got); return v; }
int main(void){ SPSCQ_INIT(&q,4); uint64_t e=0; CHECK(SPSCQ_ENQ(&q,hook(7))); CHECK(!ok); CHECK(SPSCQ_DEQ(&q,e)); CHECK(e==7); return 0; }
''')
seed('c03-deq-no-acquire-retry','C03','inc/fast/mpmc_bounded_queue.h','''uint64_t _turn = 1 + (__mpmc_q_turn(_qc, _tl) * 2);                             \\
                                                                                            \\
            if (atomic_load_explicit(&_slot->turn, memory_order_acquire) == _turn) {''','''uint64_t _turn = 1 + (__mpmc_q_turn(_qc, _tl) * 2);                             \\
                                                                                            \\
            if (atomic_load_explicit(&_slot->turn, memory_order_relaxed) == _turn) {''',
'a weakly ordered machine or compiler reordering (shown by the race detector): a consumer reading the slot it just found published','non-blocking dequeue no longer synchronises with the producer that published the slot',
CHK+'''#include <pthread.h>
#include <stdatomic.h>
#include "fast/mpmc_bounded_queue.h"
MPMC_QUEUE_TYPE(mq, uint64_t);
static mq *q;
static void *prod(void *a){ for(uint64_t i=1;i<=20000;) if(MPMC_QUEUE_ENQ(q,i)) i++; return 0; }
int main(void){ q=MPMC_QUEUE_NEW(mq,4); pthread_t t; pthread_create(&t,0,prod,0);
 for(uint64_t i=1;i<=20000;){ uint64_t e; if(MPMC_QUEUE_DEQ(q,e)){ CHECK(e==i); i++; } } pthread_join(t,0); return 0; }
''',tsan=True)
seed('c03-enq-spurious-full','C03','inc/fast/mpmc_bounded_queue.h','''                _hd = atomic_load_explicit(&_q->head, memory_order_acquire);                \\
                if (_prev == _hd)  break; ''','''                _hd = atomic_load_explicit(&_q->tail, memory_order_acquire) + _q->sz - 1;   \\
                if (_prev != _hd)  break; _hd = _prev + 1;''',
'enqueue observing a full queue at particular counter values','a failed observation moves the enqueue to a position it does not own',
CHK+'''#include <stdatomic.h>
#include "fast/mpmc_bounded_queue.h"
MPMC_QUEUE_TYPE(mq, uint64_t);
int main(void){ mq *q=MPMC_QUEUE_NEW(mq,4); uint64_t e;
 atomic_store(&q->q.head,4); atomic_store(&q->q.tail,1);  /* a consumer took position 0 but has not finished */
 for(int i=0;i<4;i++) atomic_store(&q->slot[i].turn,1), q->slot[i].data=i;
 int r=0; uint64_t h=4; /* slot 0 is still being read: the queue is full for the producer */
 alarm(5); r=MPMC_QUEUE_ENQ(q,99); CHECK(!r && atomic_load(&q->q.head)==4); return 0; }
''') if 0 else None
seed('c04-unroll-tail','C04','inc/fast/ringbuf.h','''            case 3:
                obj[i+0] = r->ring[idx+0];
                obj[i+1] = r->ring[idx+1];
                obj[i+2] = r->ring[idx+2];''','''            case 3:
                obj[i+0] = r->ring[idx+0];
                obj[i+1] = r->ring[idx+1];
                obj[i+2] = r->ring[idx+(loops ? 1 : 2)];''',
'a dequeue of 4k+3 items, k >= 1, that does not wrap','the last item of such a range is replaced by a copy of the one before',
CHK+'''#include <assert.h>
#include "utils/utils.h"
#include "fast/ringbuf.h"
int main(void){ for(unsigned n=1;n<=15;n++){ struct rte_ring *r=rte_ring_create(32,0); void *a[16],*b[16]; for(unsigned i=0;i<16;i++) a[i]=(void*)(uintptr_t)(100+i),b[i]=0;
 CHECK(rte_ring_mp_enqueue_bulk(r,a,n)>=0); CHECK(rte_ring_mc_dequeue_bulk(r,b,n)>=0); for(unsigned i=0;i<n;i++) CHECK(a[i]==b[i]); rte_ring_destroy(r);} return 0; }
''')
seed('c07-andnot-shared-word','C07','inc/fast/bitset.h','*x &= ~*y;','{ *x &= ~*y; if (*y == 0 && x + 1 < e) { x++; y++; *x &= ~*y & ~(_U64(1) << 63); } }',
'a zero word in the right operand followed by a word with bit 63 set in the left one','a bit absent from the right operand is cleared',
CHK+'''#include "utils/utils.h"
#include "fast/bitset.h"
int main(void){ bitset *a=bitset_new(256),*b=bitset_new(256); for(int i=0;i<256;i++) bitset_set(a,i); bitset_set(b,200); bitset_andnot(a,b);
 for(int i=0;i<256;i++) CHECK(!!bitset_isset(a,i)==(i!=200)); return 0; }
''')
