CHK='#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\\n", #x); exit(1); } } while (0)\n'
seed('c09-odd-length-room','C09','src/str2hex.c','if (outlen < ((n+1)/2))  return -ENOMEM;','if (outlen < n/2)  return -ENOMEM;','a string of odd length and an output of exactly the rounded-down number of bytes','the last nibble is written one byte past the output',
CHK+'''#include "src/str2hex.c"
int main(void){ uint8_t b[4]={9,9,9,9}; CHECK(str2hex(b,2,"12345")==-ENOMEM); CHECK(b[2]==9); CHECK(str2hex(b,2,"1234")==2); return 0; }
''')
seed('c10-table-end','C10','src/b64_decode.c','if (value_in < 0 || value_in >= decoding_size) return -1;','if (value_in < 0 || value_in > decoding_size) return -1;',"the character '{' in the text to decode",'one byte past the decoding table is read and may be taken for a digit',
CHK+'''#include "src/b64_decode.c"
int main(void){ char out[16]; CHECK(base64_decode_value('{')==-1); int n=base64_decode_buf(out,16,"YWJj{",5); CHECK(n==3 && !memcmp(out,"abc",3)); return 0; }
''')
seed('c11-strlcpy-one','C11','src/strlcpy.c','if (siz != 0)\n\t\t\t*d','if (siz > 1)\n\t\t\t*d','a destination of exactly one byte','the destination is left without a terminating NUL',
CHK+'''#include "src/strlcpy.c"
int main(void){ char d[4]="xyz"; CHECK(strlcpy(d,"abc",1)==3); CHECK(d[0]==0 && d[1]=='y'); CHECK(strlcpy(d,"abc",2)==3 && !strcmp(d,"a")); return 0; }
''')
seed('c12-last-field-room','C12','src/strsplit.c','''    if (*begin) {
        if (!_stra_resize_if(a, 1)) return 0;

        //printf("#  %d => |%s|\\n", a->size, begin);
        a->arr[a->size++] = begin;
    }

    return 1;
}



/*
 * Split string compressing''','''    if (*begin) {
        if (!_stra_resize_if(a, a->cap > 0)) return 0;

        //printf("#  %d => |%s|\\n", a->size, begin);
        a->arr[a->size++] = begin;
    }

    return 1;
}



/*
 * Split string compressing''','a caller-supplied array with exactly one slot less than there are fields, the last field having no delimiter after it','the pointer of the last field is stored past the end of the array',
CHK+'''#include "src/strsplit.c"
char *strtrim(char*s){return s;}
int main(void){ char s[]="a,b,c"; char *v[3]={0,0,(char*)1}; CHECK(strsplit_quick(v,2,s,",",0)<0); CHECK(v[2]==(char*)1); return 0; }
''')
seed('c13-cutoff-mod-ten','C13','src/strtosize.c','cutchar = _u(~0) % mult;','cutchar = _u(~0) % 10;','a number in a base other than 10 that is within one digit of 2^64','values that fit are rejected (base 16) or overflow silently (base 7)',
CHK+'''#include "src/strtosize.c"
int main(void){ uint64_t v=0; const char *e; CHECK(strtou64("ffffffffffffffff",&e,16,&v)==0 && v==~0ULL); CHECK(strtou64("1777777777777777777777",&e,8,&v)==0 && v==~0ULL); CHECK(strtou64("10000000000000000",&e,16,&v)==-ERANGE);
 CHECK(strtou64("3w5e11264sgsf",&e,36,&v)==0 && v==~0ULL); return 0; }
''')
seed('c14-long-address','C14','src/parse-ip.c','if (n > 15)  return 0;','if (n > (int)sizeof as)  return 0;','an address part of exactly 32 characters before the slash','the terminator is written one byte past the address buffer',
CHK+'''#include "src/parse-ip.c"
int main(void){ uint32_t a,m; char s[64]; for(int n=1;n<40;n++){ memset(s,'1',n); strcpy(s+n,"/8"); CHECK(!parse_ipv4_and_mask(&a,&m,s)); } CHECK(parse_ipv4_and_mask(&a,&m,"1.2.3.4/8") && a==0x01020304 && m==0xff000000u); return 0; }
''')
seed('c15-early-slot','C15','src/hashtable/fast-ht.c','''            bg = g;
            slot = r.slot;
        }''','''            bg = g;
            slot = r.slot;
            break;
        }''','a bucket of two bags whose newer bag has a free slot, and a key that is in the older bag','the key is inserted a second time instead of its value being returned',
CHK+'''#include "src/hashtable/fast-ht.c"
int main(void){ hb b; memset(&b,0,sizeof b); int x[16]; for(int i=0;i<9;i++) CHECK(!__insert(&b,100+i,&x[i])); CHECK(b.bags==2); for(int i=0;i<9;i++) CHECK(__insert(&b,100+i,&x[15])==&x[i]); CHECK(b.nodes==9); return 0; }
''',cflags='-maes -msse4.2')
seed('c16-empty-bucket-lock','C16','src/hashtable/hashtab.c','''    cmp   = tab->cmp;

    lockmgr_lock(&b->lock);

    SL_FOREACH(p, &b->head, link) {''','''    cmp   = tab->cmp;

    lockmgr_lock(&b->lock);

    if (!SL_FIRST(&b->head)) {
        ++tab->stats.failed_lookups;
        if (p_ret) *p_ret = 0;
        return 0;
    }

    SL_FOREACH(p, &b->head, link) {''','looking up a key whose bucket is empty in a table with real locks','the bucket lock stays held; the next operation on the bucket deadlocks',
CHK+'''#include "utils/hashtab.h"
#include "src/hashtable/hashtab.c"
static int held;
static void c(struct lockmgr*l){} static void d(struct lockmgr*l){} static void lk(struct lockmgr*l){held++;} static void ul(struct lockmgr*l){held--;}
static void*al(void*c,size_t n){return malloc(n);} static void fr(void*c,void*p){free(p);}
static uint32_t h(const void*k){return *(const int*)k;} static int cm(const void*a,const void*b){return *(const int*)a-*(const int*)b;}
int main(void){ hash_table_policy p; memset(&p,0,sizeof p); p.hash=h; p.cmp=cm; p.logsize=4; p.mem.alloc=al; p.mem.free=fr; p.lock.create=c; p.lock.dtor=d; p.lock.lock=lk; p.lock.unlock=ul; hash_table_t t; CHECK(hash_table_new(&t,&p)==0); int k=5; void*r=&k; CHECK(hash_table_lookup(t,&k,&r)==0 && r==0); CHECK(held==0); CHECK(hash_table_insert(t,&k)==0); CHECK(hash_table_lookup(t,&k,&r)==1 && r==&k); CHECK(held==0); return 0; }
''')
seed('c17-letter-u','C17','src/ulid.c','''    0x16, 0x17, 0x18, 0x19, 0x1A, 0xFF, 0x1B, 0x1C, 0x1D, 0x1E,''','''    0x16, 0x17, 0x18, 0x19, 0x1A, 0x1B, 0x1B, 0x1C, 0x1D, 0x1E,''','a text with the letter U, which is no base32 digit','the text is accepted and parsed as if it held a V',
CHK+'''#include "src/ulid.c"
int main(void){ uint8_t b[16]; CHECK(ulid_fromstring(b,16,"01ARZ3NDEKTSV4RRFFQ69G5FAV")==16); CHECK(ulid_fromstring(b,16,"01ARZ3NDEKTSU4RRFFQ69G5FAV")==-EINVAL); return 0; }
''')
seed('c18-grow-late','C18','src/hashtable/bloom.c','if (sb->len == sb->cap) {','if (sb->len > sb->cap) {','a scalable filter that has used up its filter array and needs to grow once more','the new filter is placed past the end of the array (memory corruption)',
CHK+'''#include "src/hashtable/bloom.c"
int main(void){ Bloom *b=Standard_bloom_new(16,0.1,1); for(uint64_t i=1;i<40000;i++) Bloom_probe(b,i*0x9e3779b97f4a7c15ULL); for(uint64_t i=1;i<40000;i++) CHECK(Bloom_find(b,i*0x9e3779b97f4a7c15ULL)); return 0; }
''',libs='src/humanize.c src/strcopy.c')
