/* the ctype predicates of the C locale (the ones the library runs under), in place of the table lookups of libc */
#ifndef VF_CTYPE_H
#define VF_CTYPE_H 1
#include <ctype.h>
#ifndef VF_REPLAY
#undef isspace
#undef isdigit
#undef isalpha
#undef isupper
#undef islower
#undef isalnum
#undef isprint
#undef isxdigit
#undef toupper
#undef tolower
static inline int vf_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline int vf_isdigit(int c) { return c >= '0' && c <= '9'; }
static inline int vf_isupper(int c) { return c >= 'A' && c <= 'Z'; }
static inline int vf_islower(int c) { return c >= 'a' && c <= 'z'; }
static inline int vf_isalpha(int c) { return vf_isupper(c) || vf_islower(c); }
static inline int vf_isalnum(int c) { return vf_isalpha(c) || vf_isdigit(c); }
static inline int vf_isprint(int c) { return c >= 32 && c < 127; }
static inline int vf_isxdigit(int c) { return vf_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static inline int vf_toupper(int c) { return vf_islower(c) ? c - 32 : c; }
static inline int vf_tolower(int c) { return vf_isupper(c) ? c + 32 : c; }
#define isspace  vf_isspace
#define isdigit  vf_isdigit
#define isalpha  vf_isalpha
#define isupper  vf_isupper
#define islower  vf_islower
#define isalnum  vf_isalnum
#define isprint  vf_isprint
#define isxdigit vf_isxdigit
#define toupper  vf_toupper
#define tolower  vf_tolower
#endif
#endif
