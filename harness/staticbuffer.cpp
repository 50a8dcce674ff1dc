// Harness C16: contract of every StaticBuffer operation on a buffer of any size and fill level; an arbitrary byte (in_w) of it is observed
#define private public
#include "textwolf/staticbuffer.hpp"
#undef private
#define NW 2
#include "mem.h"
using namespace textwolf;
typedef uint64_t u64;
static const u64 BIG = (u64)1<<40;
uint64_t in_size, in_pos, in_w, in_n, in_ii, in_fill; uint8_t in_own, in_over;
static char g_b; static u64 g_exp; static StaticBuffer* g_s; static char* g_mem;
static bool g_throw;
// the buffer holds pos bytes, the observed one is b, the rest of the representation is sound
static void check( const StaticBuffer& s, u64 pos, bool over, char b)
{
	v_assert( s.size() == pos && s.m_pos <= s.m_size, "C16 number of bytes held");
	v_assert( s.overflow() == over, "C16 overflow reported exactly");
	v_assert( s.m_size == in_size && v_objsize( s.m_ar) == in_size && v_ofs( s.m_ar) == 0 && v_wok( s.m_ar, in_size), "C16 memory of the buffer");
	v_assert( s.ptr() == s.m_ar, "C16 pointer to the content");
	if (in_w < pos) v_assert( s.m_ar[ in_w] == b, "C16 bytes held");
}
static void arbitrary( StaticBuffer& s)
{
	in_size = v_nd64(); in_pos = v_nd64(); in_w = v_nd64(); in_own = v_ndb(); in_over = v_ndb();
	v_assume( in_size <= BIG && in_pos <= in_size && in_w < in_size);
	g_mem = v_alloc( in_size); g_live = 1;
	s.m_ar = g_mem; s.m_pos = in_pos; s.m_size = in_size; s.m_allocated = in_own; s.m_overflow = in_over;
	g_b = g_mem[ in_w]; watch( in_w); g_s = &s;
}
struct Raw { char mem[ sizeof( StaticBuffer)]; StaticBuffer& s() {return *(StaticBuffer*)(void*)mem;} };
extern "C" void v_on_throw()
{
	v_cover("?throw");
	v_assert( g_throw, "C16 operation throws");
	if (g_s) check( *g_s, in_pos, in_over, g_b);
}
extern "C" void h_push_back()
{
	Raw r; StaticBuffer& s = r.s(); arbitrary( s); char ch = (char)v_nd8();
	s.push_back( ch);
	if (in_pos < in_size) {v_cover("push"); check( s, in_pos+1, in_over, in_w == in_pos ? ch : g_b);}
	else {v_cover("push full"); check( s, in_pos, true, g_b);}
}
extern "C" void h_append()
{
	Raw r; StaticBuffer& s = r.s(); arbitrary( s); in_n = v_nd64();
	char* p = v_alloc( in_n < 2*BIG ? in_n : 2*BIG); u64 left = in_size - in_pos, k = in_n < left ? in_n : left;
	char b = g_b; if (in_w >= in_pos && in_w - in_pos < k) b = p[ in_w - in_pos];
	s.append( p, in_n);
	v_cover("append"); if (in_n > left) v_cover("append truncated");
	check( s, in_pos + k, in_over || in_n > left, b);
}
// resize fills with a loop: invariant
static bool g_inresize; static u64 g_target; static char g_c;
static bool inv( StaticBuffer& s)
{
	return s.m_pos >= in_pos && s.m_pos <= g_target && s.m_size == in_size && s.m_ar == g_mem && s.m_overflow == (bool)in_over && s.m_allocated == (bool)in_own
		&& (in_w < s.m_pos ? s.m_ar[ in_w] == (in_w < in_pos ? g_b : g_c) : true);
}
extern "C" void h_inv_check( uint32_t k) { v_assert( g_inresize && inv( *g_s), "C16 invariant of the filling loop"); }
extern "C" void h_havoc( uint32_t) { g_s->m_pos = v_nd64(); v_havoc( g_mem); }
extern "C" void h_inv_assume( uint32_t) { v_assume( inv( *g_s)); }
extern "C" void h_resize()
{
	Raw r; StaticBuffer& s = r.s(); arbitrary( s); in_n = v_nd64(); in_fill = v_nd8(); g_c = (char)in_fill;
	g_target = in_n < in_size ? in_n : in_size; g_inresize = true;
	s.resize( in_n, g_c);
	if (in_n < in_pos) {v_cover("shrink"); check( s, in_n, in_over, g_b);}
	else {v_cover("fill"); check( s, g_target, in_over, in_w < in_pos ? g_b : g_c);}
}
extern "C" void h_clear() { Raw r; StaticBuffer& s = r.s(); arbitrary( s); s.clear(); v_cover("clear"); check( s, 0, false, g_b); }
extern "C" void h_index()
{
	Raw r; StaticBuffer& s = r.s(); arbitrary( s); in_ii = v_nd64(); g_throw = in_ii >= in_pos; if (in_ii < in_pos) v_assume( in_w == in_ii);
	if (v_ndb())
	{
		char c = s[ in_ii]; v_assert( in_ii < in_pos, "C16 index beyond the content is refused");
		v_assert( c == g_b, "C16 element at index"); v_cover("index"); check( s, in_pos, in_over, g_b);
	}
	else
	{
		char& c = s.at( in_ii); v_assert( in_ii < in_pos, "C16 index beyond the content is refused");
		v_assert( &c == s.m_ar + in_ii, "C16 element at index"); v_cover("at"); check( s, in_pos, in_over, g_b);
	}
}
extern "C" void h_ctor()
{
	in_size = v_nd64(); in_w = v_nd64(); v_assume( in_size <= BIG && in_w < in_size); watch( in_w); g_mayfail = true; g_throw = true; g_live = 0;
	{ StaticBuffer s( in_size); v_cover("ctor"); check( s, 0, false, 0); v_assert( g_live == 1, "C16 memory"); }
	v_assert( g_live == 0, "C16 memory released once");
	in_pos = v_nd64(); v_assume( in_pos <= in_size);
	char* m = v_alloc( in_size); g_b = m[ in_w];
	{ StaticBuffer s( m, in_size, in_pos); v_cover("ctor2"); check( s, in_pos, false, g_b); v_assert( s.m_ar == m, "C16 buffer on given memory"); }
	v_assert( g_live == 0 && v_wok( m, in_size), "C16 given memory is not released");
}
extern "C" void h_copy()
{
	Raw r; StaticBuffer& s = r.s(); arbitrary( s); g_mayfail = true; g_throw = true;
	{ StaticBuffer c( s); v_cover("copy"); check( c, in_pos, in_over, g_b); v_assert( !v_same( c.m_ar, s.m_ar) && g_live == 2, "C16 copies are independent"); }
	v_assert( g_live == 1, "C16 memory released once"); check( s, in_pos, in_over, g_b);
}
extern "C" void h_assign()
{
	Raw r, q; StaticBuffer& s = r.s(); StaticBuffer& t = q.s(); arbitrary( s);
	t.m_size = v_nd64(); v_assume( t.m_size <= BIG); t.m_ar = v_alloc( t.m_size); char* tm = t.m_ar; t.m_pos = v_nd64(); v_assume( t.m_pos <= t.m_size); t.m_allocated = v_ndb(); t.m_overflow = v_ndb();
	bool town = t.m_allocated; g_live = 2;
	g_mayfail = true; g_throw = true;
	if (v_ndb()) { v_cover("self"); s = s; check( s, in_pos, in_over, g_b); v_assert( g_live == 2, "C16 memory released once"); }
	else { t = s; v_cover("assign"); check( t, in_pos, in_over, g_b); check( s, in_pos, in_over, g_b); v_assert( !v_same( t.m_ar, s.m_ar), "C16 copies are independent");
		v_assert( t.m_allocated && g_live == (town ? 2U : 3U), "C16 memory released once"); if (!town) v_assert( v_wok( tm, 0), "C16 given memory is not released"); }
}
