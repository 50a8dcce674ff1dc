// Contracts of malloc, realloc, free, memcpy for buffers of any size.  The effect of a block operation is stated exactly for the
// observed offsets g_wofs[0..g_nw) of the destination object; everything else in that object becomes arbitrary (an over-approximation,
// so a proof that does not fail with it holds for the real functions).  Pointer validity of the whole block is an obligation.
#ifndef VERIF_MEM_H
#define VERIF_MEM_H
#include "v.h"
#ifndef NW
#define NW 20
#endif
static uint64_t g_wofs[ NW]; static unsigned int g_nw; static bool g_mayfail; static unsigned int g_live;
static void watch( uint64_t ofs) {g_wofs[ g_nw++] = ofs;}
extern "C" {
void* malloc( size_t n) { if (g_mayfail && v_ndb()) return 0; ++g_live; return v_alloc( n);}
void* calloc( size_t n, size_t m)
{
	if ((g_mayfail && v_ndb()) || __builtin_mul_overflow( n, m, &n)) return 0;
	++g_live; char* q = v_alloc( n);
	for (unsigned int i=0; i<NW; ++i) if (i < g_nw && g_wofs[i] < n) v_assume( q[ g_wofs[i]] == 0);
	return q;
}
void free( void* p) { if (p) {v_assert( v_ofs( (char*)p) == 0, "memory: free of a pointer into a block"); --g_live; v_release( (char*)p);} }
void* memcpy( void* dp, const void* sp, size_t n)
{
	if (!n) return dp;
	char* d = (char*)dp; const char* s = (const char*)sp;
	v_assert( v_rok( s, n), "memory: memcpy source readable"); v_assert( v_wok( d, n), "memory: memcpy destination writable");
	v_assume( v_rok( s, n) && v_wok( d, n));
	if (n == sizeof(uint64_t)) {uint64_t v = *(const uint64_t*)sp; *(uint64_t*)dp = v; return dp;}	// a word is copied exactly
	uint64_t o = v_ofs( d), size = v_objsize( d); char* base = d - o; char val[ NW];
	for (unsigned int i=0; i<NW; ++i) if (i < g_nw && g_wofs[i] < size) val[i] = (g_wofs[i] >= o && g_wofs[i] - o < n) ? s[ g_wofs[i] - o] : base[ g_wofs[i]];
	v_havoc( d);
	for (unsigned int i=0; i<NW; ++i) if (i < g_nw && g_wofs[i] < size) base[ g_wofs[i]] = val[i];
	return dp;
}
void* memmove( void* dp, const void* sp, size_t n) {return memcpy( dp, sp, n);}
void* memset( void* dp, int c, size_t n)
{
	if (!n) return dp;
	char* d = (char*)dp;
	v_assert( v_wok( d, n), "memory: memset destination writable"); v_assume( v_wok( d, n));
	uint64_t o = v_ofs( d), size = v_objsize( d); char* base = d - o; char val[ NW];
	for (unsigned int i=0; i<NW; ++i) if (i < g_nw && g_wofs[i] < size) val[i] = (g_wofs[i] >= o && g_wofs[i] - o < n) ? (char)c : base[ g_wofs[i]];
	v_havoc( d);
	for (unsigned int i=0; i<NW; ++i) if (i < g_nw && g_wofs[i] < size) base[ g_wofs[i]] = val[i];
	return dp;
}
void* realloc( void* pp, size_t n)
{
	char* p = (char*)pp;
	if (g_mayfail && v_ndb()) return 0;
	char* q = v_alloc( n);
	if (p)
	{
		v_assert( v_ofs( p) == 0, "memory: realloc of a pointer into a block");
		uint64_t size = v_objsize( p); if (n < size) size = n;
		for (unsigned int i=0; i<NW; ++i) if (i < g_nw && g_wofs[i] < size) q[ g_wofs[i]] = p[ g_wofs[i]];
		v_release( p);
	}
	else ++g_live;
	return q;
}
}
#endif
