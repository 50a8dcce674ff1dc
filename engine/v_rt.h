/* run-time header of the translated C (see ll2c.py) */
#ifndef V_RT_H
#define V_RT_H
#include <stdint.h>
#include <stddef.h>
typedef char* vptr;
#ifdef __CPROVER__
#define V_NSW(nm,a,b,msg) __CPROVER_assert(!__CPROVER_overflow_##nm(a,b),msg)
#define V_UNREACHABLE(msg) do { __CPROVER_assert(0,"UB unreachable code reached in " msg); __CPROVER_assume(0); } while(0)
#define V_COVER(msg) __CPROVER_assert(0,msg)
#define V_CUT_END __CPROVER_assume(0)
uint8_t nondet_u8(void); uint16_t nondet_u16(void); uint32_t nondet_u32(void); uint64_t nondet_u64(void); void* nondet_ptr(void);
void *malloc(size_t); void free(void*); void* memcpy(void*,const void*,size_t); void* memmove(void*,const void*,size_t); void* memset(void*,int,size_t);
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define __CPROVER_assert(c,msg) do { if (!(c)) v_native_fail(msg); } while(0)
#define __CPROVER_assume(c) do { if (!(c)) v_native_assume(); } while(0)
#define __CPROVER_overflow_plus(a,b) 0
#define __CPROVER_overflow_mult(a,b) 0
#define V_NSW(nm,a,b,msg)
#define V_UNREACHABLE(msg) v_native_fail("unreachable " msg)
#define V_COVER(msg)
#define V_CUT_END
static void v_native_fail(const char* m);
#ifdef V_WARM
#define V_ND0 (v_native_fail("nondeterministic value in the warm-up"),0)
#else
#define V_ND0 0
#endif
static inline uint8_t nondet_u8(void){return V_ND0;} static inline uint16_t nondet_u16(void){return 0;} static inline uint32_t nondet_u32(void){return 0;}
static inline uint64_t nondet_u64(void){return 0;} static inline void* nondet_ptr(void){return 0;}
static void v_native_fail(const char* m){ fprintf(stderr,"native: %s\n",m); exit(3); }
static void v_native_assume(void){ exit(4); }
#endif
#define V_MEMCPY_C(d,s,n) memcpy((d),(s),(n))
#define V_MEMSET_C(d,c,n) memset((d),(c),(n))
#define v_memcpy(d,s,n) memcpy((d),(s),(n))
#define v_memmove(d,s,n) memmove((d),(s),(n))
#define v_memset(d,c,n) memset((d),(c),(n))
#define V_NSNAP_MAX 64
uint64_t v_snapv[V_NSNAP_MAX];
vptr v_psnapv[V_NSNAP_MAX];
#ifndef V_P0
#define V_P0 0
#endif
#ifndef V_P1
#define V_P1 0
#endif
#ifndef V_P2
#define V_P2 0
#endif
/* parameters of the unit */
static uint32_t rt_v_param(uint32_t i) { return i==0 ? V_P0 : i==1 ? V_P1 : V_P2; }
static uint8_t v_dead;
static void rt_v_unwind(void) { v_dead=1; }
static uint8_t rt_v_unwound(void) { uint8_t r=v_dead; v_dead=0; return r; }
static void v_default_throw(const char* m) { __CPROVER_assert(0,"unexpected exception thrown"); (void)m; }

/* ---- externals of the extracted code (assumed contracts of libc / the C++ run time) */
#ifndef V_EH
static uint8_t v_exmem[64];
static vptr rt___cxa_allocate_exception(uint64_t n) { (void)n; return (vptr)v_exmem; }
#else
/* exceptions are followed: one exception in flight, any number of objects, one type each */
static vptr v_exc, v_caught; static uint32_t v_exn; static uint64_t v_exmem[4][8]; static vptr v_exti[4];
static vptr rt___cxa_allocate_exception(uint64_t n) { __CPROVER_assert(n <= 64 && v_exn < 4,"MODEL exception objects"); return (vptr)v_exmem[ v_exn++ & 3]; }
static void v_eh_throw(vptr p,vptr ti) { for (int i=0;i<4;++i) if (p == (vptr)v_exmem[i]) v_exti[i] = ti; v_exc = p; }
static vptr v_exc_ti(vptr p) { for (int i=0;i<4;++i) if (p == (vptr)v_exmem[i]) return v_exti[i]; return 0; }
static vptr rt___cxa_begin_catch(vptr p) { v_caught = p; return p; }
static void rt___cxa_end_catch(void) {}
static void v_eh_rethrow(void) { v_exc = v_caught; }
static void rt__ZSt9terminatev(void) { __CPROVER_assert(0,"std::terminate"); __CPROVER_assume(0); }
#endif
static void rt___cxa_free_exception(vptr p) { (void)p; }
static vptr rt_malloc(uint64_t n) { return (vptr)malloc(n); }
static void rt_free(vptr p) { free(p); }
static vptr rt__Znwm(uint64_t n) { return (vptr)malloc(n); }
static vptr rt__Znam(uint64_t n) { return (vptr)malloc(n); }
static void rt__ZdlPv(vptr p) { free(p); }
static void rt__ZdlPvm(vptr p,uint64_t n) { (void)n; free(p); }
static void rt__ZdaPv(vptr p) { free(p); }
static vptr rt_strchr(vptr s, uint32_t c) { while (*s != (char)c) { if (!*s) return 0; ++s; } return s; }
static vptr rt_memset(vptr d, uint32_t c, uint64_t n) { for (uint64_t i=0;i<n;++i) d[i]=(char)c; return d; }
static vptr rt_memmove(vptr d, vptr s, uint64_t n) { if (d<=s) { for (uint64_t i=0;i<n;++i) d[i]=s[i]; } else { for (uint64_t i=n;i>0;--i) d[i-1]=s[i-1]; } return d; }
static vptr rt_memchr(vptr s, uint32_t c, uint64_t n) { for (uint64_t i=0;i<n;++i) if (s[i]==(char)c) return s+i; return 0; }
static uint32_t rt_strncmp(vptr a, vptr b, uint64_t n) { for (uint64_t i=0;i<n;++i){ uint8_t x=a[i],y=b[i]; if (x!=y) return x<y?(uint32_t)-1:1; if(!x) break; } return 0; }
static uint32_t rt_isdigit(uint32_t c) { return c>='0'&&c<='9'; }
static uint32_t rt_isupper(uint32_t c) { return c>='A'&&c<='Z'; }
static uint32_t rt_islower(uint32_t c) { return c>='a'&&c<='z'; }
static uint32_t rt_isalpha(uint32_t c) { return rt_isupper(c)||rt_islower(c); }
static uint32_t rt_isalnum(uint32_t c) { return rt_isalpha(c)||rt_isdigit(c); }
static uint32_t rt_isxdigit(uint32_t c) { return rt_isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
static uint32_t rt_isspace(uint32_t c) { return c==' '||(c>=9&&c<=13); }
static uint32_t rt_tolower(uint32_t c) { return rt_isupper(c)?c+32:c; }
static uint32_t rt_toupper(uint32_t c) { return rt_islower(c)?c-32:c; }
static uint64_t rt_strlen(vptr s) { uint64_t n=0; while (s[n]) ++n; return n; }
static uint32_t rt_strcmp(vptr a, vptr b) { uint64_t i=0; for(;;++i){ uint8_t x=a[i],y=b[i]; if (x!=y) return x<y?(uint32_t)-1:1; if(!x) return 0; } }
static uint32_t rt_memcmp(vptr a, vptr b, uint64_t n) { for(uint64_t i=0;i<n;++i){ uint8_t x=a[i],y=b[i]; if (x!=y) return x<y?(uint32_t)-1:1; } return 0; }
/* nondeterministic input primitives of the harnesses */
static uint8_t rt_v_nd8(void){return nondet_u8();}
static uint16_t rt_v_nd16(void){return nondet_u16();}
static uint32_t rt_v_nd32(void){return nondet_u32();}
static uint64_t rt_v_nd64(void){return nondet_u64();}
static uint8_t rt_v_ndb(void){return nondet_u8()&1;}
/* memory primitives of the harnesses (harness/mem.h) */
#ifdef __CPROVER__
static vptr rt_v_alloc(uint64_t n) { return (vptr)malloc(n); }
static void rt_v_release(vptr p) { free(p); }
static uint8_t rt_v_rok(vptr p, uint64_t n) { return __CPROVER_r_ok(p,n); }
static uint8_t rt_v_wok(vptr p, uint64_t n) { return __CPROVER_w_ok(p,n); }
static uint64_t rt_v_ofs(vptr p) { return __CPROVER_POINTER_OFFSET(p); }
static uint64_t rt_v_objsize(vptr p) { return __CPROVER_OBJECT_SIZE(p); }
static uint8_t rt_v_same(vptr p, vptr q) { return __CPROVER_same_object(p,q); }
static void rt_v_havoc(vptr p) { __CPROVER_havoc_object(p); }
#else
static vptr rt_v_alloc(uint64_t n) { return (vptr)malloc(n); }
static void rt_v_release(vptr p) { free(p); }
static uint8_t rt_v_rok(vptr p, uint64_t n) { return 1; }
static uint8_t rt_v_wok(vptr p, uint64_t n) { return 1; }
static uint64_t rt_v_ofs(vptr p) { return 0; }
static uint64_t rt_v_objsize(vptr p) { return 0; }
static uint8_t rt_v_same(vptr p, vptr q) { return 0; }
static void rt_v_havoc(vptr p) { }
#endif
#endif
