CHK='#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\\n", #x); exit(1); } } while (0)\n'
seed('c06-shuffle-cyclic','C06','inc/fast/vect.h','int j_ = rnd() % (i_+1);        \\','int j_ = rnd() % i_;            \\','looking at the distribution over all random sequences','the shuffle yields only cyclic permutations: no element ever keeps its place',
CHK+'''#include "utils/utils.h"
#include "fast/vect.h"
VECT_TYPEDEF(iv,int); static uint32_t seq[2]; static int k; static uint32_t rnd(void){ return seq[k++]; }
int main(void){ int cnt[1000]={0}; for(int a=0;a<6;a++) for(int b=0;b<6;b++){ iv v; VECT_INIT(&v,8); for(int i=0;i<3;i++) VECT_PUSH_BACK(&v,i);
 seq[0]=a; seq[1]=b; k=0; VECT_SHUFFLE(&v,rnd); cnt[v.arr[0]*100+v.arr[1]*10+v.arr[2]]++; VECT_FINI(&v);} 
 int n=0; for(int i=0;i<1000;i++) if(cnt[i]){ n++; CHECK(cnt[i]==6);} CHECK(n==6); return 0; }
''')
seed('c08-limit-clamped','C08','src/mempool.c','if (max)                    min_alloc_units = max;','if (max)                    min_alloc_units = max < MEMPOOL_MIN_ALLOC_UNITS ? max : MEMPOOL_MIN_ALLOC_UNITS;','a pool with a limit above 4096 blocks','the pool hands out only 4096 blocks although its limit is higher',
CHK+'''#include "src/mempool.c"
int main(void){ mempool p; CHECK(mempool_init(&p,0,16,5000,0)==0); for(int i=0;i<5000;i++) CHECK(mempool_alloc(&p)); CHECK(!mempool_alloc(&p)); mempool_fini(&p); return 0; }
''')
seed('c08-arena-first-fit','C08','src/arena.c','if (__avail(n) >= nbytes)','if (__avail(n) + SYS_ALIGNMENT > nbytes || n->total == nbytes * 16)','a request slightly or exactly too large for what is left in the newest node','a block extends past the end of its node',
CHK+'''#include "src/arena.c"
int main(void){ arena_t a; CHECK(arena_new(&a,64)==0); char *x=arena_alloc(a,56); char *y=arena_alloc(a,16); memset(x,1,56); memset(y,2,16); CHECK(x[55]==1); arena_delete(a); return 0; }
''') if 0 else None
seed('c05-append-list-prev','C05','inc/fast/list.h',None,None,'','','') if 0 else None
