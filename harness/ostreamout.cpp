// Harness C22: contract of OstreamOutput on a stream of any length; the characters written are counted (g_n), one of them at an arbitrary place (in_w) is observed
#define V_OSTREAM
#define private public
#include "textwolf/exception.hpp"
#include "textwolf/ostreamoutput.hpp"
#undef private
#include "mem.h"
using namespace textwolf;
typedef uint64_t u64;
static const u64 BIG = (u64)1<<40;
uint64_t in_n, in_w, in_size; uint8_t in_chr;
// contract of std::ostream: appends the characters in order
static u64 g_n, g_n0; static char g_b, g_s[ 8]; static std::ostream* g_o; static const char* g_src;
static void out( const std::ostream& o, char c) {v_assert( &o == g_o, "C22 written to the stream of the output"); if (g_n == in_w) g_b = c; ++g_n;}
namespace std {
ostream& ostream::put( char c) {out( *this, c); return *this;}
ostream& ostream::operator<<( char c) {out( *this, c); return *this;}
ostream& ostream::write( const char* p, size_t n)
{
	v_assert( this == g_o, "C22 written to the stream of the output"); v_assert( !n || v_rok( p, n), "C22 only the characters passed are read"); v_assume( !n || v_rok( p, n)); v_assume( n < BIG);
	if (in_w >= g_n && in_w - g_n < n) g_b = p[ in_w - g_n];
	g_n += n; return *this;
}
ostream& ostream::flush() {v_assert( this == g_o, "C22 written to the stream of the output"); return *this;}
}
static bool inv() {return g_n >= g_n0 && g_n - g_n0 <= in_size && (in_w >= g_n0 && in_w < g_n ? g_b == g_src[ in_w - g_n0] : true);}
extern "C" uint64_t h_snap( int k) {return k == 0 ? g_n - g_n0 : in_size - (g_n - g_n0);}
extern "C" const char* h_psnap( int k) {return k == 0 ? g_src + (g_n - g_n0) : g_src + in_size;}
extern "C" void h_inv_check( uint32_t) {v_assert( inv(), "C22 the characters written are those passed");}
extern "C" void h_havoc( uint32_t) {g_n = v_nd64(); g_b = (char)v_nd8();}
extern "C" void h_inv_assume( uint32_t) {v_assume( inv());}
static void arbitrary() {static u64 mem[ 8]; g_o = (std::ostream*)(void*)mem; g_n = g_n0 = v_nd64(); in_n = g_n; in_w = v_nd64(); v_assume( g_n < BIG && in_w < 2*BIG);}
extern "C" void h_push_back()
{
	arbitrary(); in_chr = v_nd8(); OstreamOutput o( g_o); OstreamOutput c( o); static u64 mem[8]; OstreamOutput a( (std::ostream*)(void*)mem); a = o;
	int k = v_nd8() % 3; OstreamOutput& x = k == 0 ? o : k == 1 ? c : a; x.push_back( (char)in_chr);
	v_assert( g_n == g_n0 + 1, "C22 one character is written"); if (in_w == g_n0) {v_assert( g_b == (char)in_chr, "C22 the characters written are those passed"); v_cover( "chr");}
}
extern "C" void h_append()
{
	arbitrary(); in_size = v_nd64(); v_assume( in_size < BIG); char* m = v_alloc( in_size); g_src = m; OstreamOutput o( g_o); OstreamOutput c( o);
	(v_ndb() ? o : c).append( m, in_size);
	v_assert( g_n == g_n0 + in_size, "C22 all characters are written"); if (in_w >= g_n0 && in_w < g_n) {v_assert( g_b == m[ in_w - g_n0], "C22 the characters written are those passed"); v_cover( "append");}
}
