// interface of the harnesses to the verifier (see engine/ll2c.py)
#ifndef VERIF_V_H
#define VERIF_V_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
void v_assert(bool c, const char* label);
void v_assume(bool c);
void v_cover(const char* label);
uint8_t v_nd8(); uint16_t v_nd16(); uint32_t v_nd32(); uint64_t v_nd64(); bool v_ndb();
uint32_t v_param(uint32_t i);	// constants of the verification unit
// end of the path, delivered to the entry function of the harness (longjmp); v_unwound() there tells if it happened
void v_unwind(); bool v_unwound();
// memory: allocate / release an object, is [p,p+n) readable / writable, offset of p in its object, size of its object, same object, arbitrary contents
char* v_alloc(uint64_t n); void v_release(char* p); bool v_rok(const char* p, uint64_t n); bool v_wok(const char* p, uint64_t n);
uint64_t v_ofs(const char* p); uint64_t v_objsize(const char* p); bool v_same(const char* p, const char* q); void v_havoc(char* p);
}
#define UNUSED __attribute__((unused))
#endif
