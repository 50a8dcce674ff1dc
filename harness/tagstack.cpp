// Harness C15: contract of every TagStack operation on an arbitrary stack (any number of entries of any size).
// Representation: entries lie consecutively from offset 0 to m_pos, each nn bytes, padding to a multiple of 8, then nn as a word.
// push appends exactly one such entry and leaves every byte below unchanged, top and pop refer to exactly the last entry:
// LIFO behaviour follows by induction over the operations.
#define private public
#include "textwolf/xmltagstack.hpp"
#undef private
#define NW 2
#include "mem.h"
using namespace textwolf;
typedef uint64_t u64;
static const u64 BIG = (u64)1<<40;
static u64 padded( u64 n) {return (n+7) & ~(u64)7;}
static u64 total( u64 n) {return padded(n) + 8;}
static TagStack* g_s; static u64 g_pos, g_size; static bool g_exp; static char g_b;
uint64_t in_pos, in_k, in_w, in_n, in_len, in_j;
static u64 word( const char* p) { return *(const u64*)(const void*)p;}
// invariant of the class, the first pos bytes are as they were (any of them: in_w)
static void check( const TagStack& s, u64 pos)
{
	v_assert( s.m_pos == pos, "C15 end of the stack");
	v_assert( s.m_pos <= s.m_size && (s.m_pos & 7) == 0 && s.m_size >= 256, "C15 class invariant");
	v_assert( v_ofs( s.m_ptr) == 0 && v_objsize( s.m_ptr) >= s.m_size && v_wok( s.m_ptr, s.m_size), "C15 buffer has the size noted");
	if (in_w < g_pos && in_w < pos) v_assert( s.m_ptr[ in_w] == g_b, "C15 entries below are unchanged");
}
static void arbitrary( TagStack& s)
{
	in_k = v_nd64(); v_assume( in_k <= 32); in_pos = v_nd64(); in_w = v_nd64();
	u64 size = (u64)256 << in_k;
	v_assume( in_pos <= size && (in_pos & 7) == 0);
	char* mem = v_alloc( size); g_live = 1;
	s.m_ptr = mem; s.m_pos = in_pos; s.m_size = size; g_size = size; g_pos = in_pos;
	if (in_w < g_pos) g_b = mem[ in_w]; else in_w = g_pos;
	watch( in_w);
}
static void lastentry( TagStack& s)
{
	in_n = v_nd64(); v_assume( in_pos == 0 || (in_n < BIG && total( in_n) <= in_pos && word( s.m_ptr + in_pos - 8) == in_n));
}
struct Raw { char mem[ sizeof( TagStack)]; TagStack& s() {return *(TagStack*)(void*)mem;} };
extern "C" void v_on_throw()
{
	v_cover("?throw"); v_assert( g_exp, "C15 operation throws");
	if (g_s) check( *g_s, g_pos);	// out of memory: the stack is as before
}
extern "C" void h_push()
{
	Raw r; TagStack& s = r.s(); arbitrary( s); g_s = &s;
	in_len = v_nd64(); in_j = v_nd64(); v_assume( in_len < BIG && in_j < total( in_len));
	char* p = v_alloc( in_len); char b = 0; if (in_j < in_len) b = p[ in_j];
	watch( in_pos + in_j);
	g_mayfail = true; g_exp = true;
	s.push( p, in_len);
	v_cover("push"); if (s.m_size > g_size) v_cover("push grows");
	check( s, in_pos + total( in_len));
	if (in_j < in_len) v_assert( s.m_ptr[ in_pos + in_j] == b, "C15 push stores the bytes");
	if (in_j >= padded( in_len)) v_assert( (unsigned char)s.m_ptr[ in_pos + in_j] == (unsigned char)(in_len >> (8 * (in_j - padded( in_len)))), "C15 push stores the size");
	v_assert( g_live == 1, "C15 one buffer");
}
extern "C" void h_top()
{
	Raw r; TagStack& s = r.s(); arbitrary( s); lastentry( s); const void* e = 0; std::size_t n = 0;
	bool ok = s.top( e, n);
	v_assert( ok == (in_pos > 0), "C15 top succeeds exactly if not empty");
	if (ok) {v_cover("top"); v_assert( e == (const void*)(s.m_ptr + in_pos - total( in_n)) && n == in_n, "C15 top yields the last entry");}
	v_assert( s.empty() == (in_pos == 0), "C15 empty");
	check( s, in_pos);
}
extern "C" void h_pop()
{
	Raw r; TagStack& s = r.s(); arbitrary( s); lastentry( s);
	s.pop();
	v_cover("pop"); check( s, in_pos ? in_pos - total( in_n) : 0);
}
extern "C" void h_clear() { Raw r; TagStack& s = r.s(); arbitrary( s); s.clear(); check( s, 0); v_assert( s.empty(), "C15 cleared stack is empty"); v_cover("clear"); }
extern "C" void h_ctor()
{
	g_mayfail = true; g_exp = true; g_live = 0;
	{ TagStack s; g_s = 0; v_cover("ctor"); check( s, 0); v_assert( s.empty() && g_live == 1, "C15 new stack is empty"); }
	v_assert( g_live == 0, "C15 memory released");
}
extern "C" void h_copy()
{
	Raw r; TagStack& s = r.s(); arbitrary( s); g_s = 0; g_mayfail = true; g_exp = true;
	{ TagStack c( s); v_cover("copy"); check( c, in_pos); check( s, in_pos); v_assert( !v_same( c.m_ptr, s.m_ptr) && g_live == 2, "C15 copies are independent"); }
	v_assert( g_live == 1, "C15 memory released"); check( s, in_pos);
}
extern "C" void h_assign()
{
	Raw r, q; TagStack& s = r.s(); TagStack& t = q.s(); arbitrary( s); g_s = &s;
	u64 k2 = v_nd64(); v_assume( k2 <= 32); t.m_size = (u64)256 << k2; t.m_ptr = v_alloc( t.m_size); t.m_pos = v_nd64(); v_assume( t.m_pos <= t.m_size && (t.m_pos & 7) == 0); g_live = 2;
	g_mayfail = true; g_exp = true;
	if (v_ndb()) { v_cover("self"); s = s; check( s, in_pos); }
	else { t = s; v_cover("assign"); check( t, in_pos); check( s, in_pos); v_assert( !v_same( t.m_ptr, s.m_ptr), "C15 copies are independent"); }
	v_assert( g_live == 2, "C15 memory released");
}
