// Native oracle C16: random operation sequences on the real StaticBuffer against std::string (built with ASan/UBSan)
#include "oracle.h"
static int g_free = 0, g_alloc = 0; static bool g_count = false;
extern "C" void __real_free( void*); extern "C" void __wrap_free( void* p) { if (g_count && p) ++g_free; __real_free( p);}
extern "C" void* __real_malloc( size_t); extern "C" void* __wrap_malloc( size_t n) { if (g_count) ++g_alloc; return __real_malloc( n);}
extern "C" void* __real_calloc( size_t, size_t); extern "C" void* __wrap_calloc( size_t n, size_t m) { if (g_count) ++g_alloc; return __real_calloc( n, m);}
#include "textwolf/staticbuffer.hpp"
using namespace orc; using namespace textwolf;
static std::string g_log;
struct Ref { std::string s; std::size_t cap; bool over; };
static void same( const StaticBuffer& b, const Ref& r)
{
	if (b.size() != r.s.size()) fail( g_log + ": size() is " + str( b.size()) + " expected " + str( r.s.size()));
	if (b.overflow() != r.over) fail( g_log + ": overflow() is " + str( b.overflow()));
	if (r.s.size() && memcmp( b.ptr(), r.s.data(), r.s.size())) fail( g_log + ": holds " + quote( std::string( b.ptr(), b.size())) + " expected " + quote( r.s));
	for (std::size_t i=0; i<r.s.size()+3; ++i)
	{
		std::size_t ii = i == r.s.size()+2 ? (std::size_t)-1 - rndn( 3) : i; bool ok = true, ok2 = true; char c = 0, c2 = 0;
		try { c = b[ii]; } catch (const textwolf::exception& e) { ok = false; if (e.cause != throws_exception::DimOutOfRange) fail( g_log + ": wrong exception"); }
		try { c2 = b.at( ii); } catch (const textwolf::exception& e) { ok2 = false; }
		if (ok != (ii < r.s.size()) || ok2 != ok) fail( g_log + ": access to index " + str( ii) + " of " + str( r.s.size()) + (ok ? " granted" : " refused"));
		if (ok && (c != r.s[ii] || c2 != c)) fail( g_log + ": element " + str( ii) + " wrong");
	}
}
static void apply( StaticBuffer& b, Ref& r)
{
	switch (rndn( 6))
	{
		case 0: { char c = (char)rnd(); b.push_back( c); g_log += " push"; if (r.s.size() < r.cap) r.s.push_back( c); else r.over = true; break; }
		case 1: case 2: {
			std::size_t n = rndn( r.cap + 4); bool huge = rndn( 10) == 0; std::string v; for (std::size_t i=0; i<(huge?r.cap:n); ++i) v.push_back( (char)rnd());
			std::size_t nn = huge ? (std::size_t)0 - rndn( 2*r.cap+2) - 1 : v.size(); char* m = new char[ v.size()]; memcpy( m, v.data(), v.size());
			g_log += " append(" + str( nn) + ")"; std::size_t left = r.cap - r.s.size(); if (nn > left) r.over = true;
			b.append( m, nn); delete [] m; r.s.append( v, 0, nn < left ? nn : left); break; }
		case 3: { std::size_t n = rndn( 8) ? rndn( r.cap + 6) : (std::size_t)0 - 1 - rndn( 4); char c = (char)rnd(); bool dfl = rndn( 3) == 0; g_log += " resize(" + str( n) + ")"; if (dfl) {b.resize( n); c = 0;} else b.resize( n, c); r.s.resize( n < r.cap ? n : r.cap, c); break; }
		case 4: if (rndn( 3) == 0) { b.clear(); g_log += " clear"; r.s.clear(); r.over = false; } break;
		case 5: if (!r.s.empty()) { std::size_t i = rndn( r.s.size()); b.at( i) = 'x'; r.s[i] = 'x'; } break;
	}
}
static void run()
{
	std::size_t n = 1 + rndn( 40), n2 = 1 + rndn( 40); bool ext = rndn( 2); g_log = "size " + str( n) + (ext ? " on given memory" : "") + ":";
	char* m = new char[ n]; std::size_t fill = ext ? rndn( n+1) : 0; for (std::size_t i=0; i<n; ++i) m[i] = (char)rnd();
	StaticBuffer* a = ext ? new StaticBuffer( m, n, fill) : new StaticBuffer( n);
	Ref r; r.s = std::string( m, fill); r.cap = n; r.over = false;
	int N = rndn( 30);
	for (int i=0; i<N; ++i) { apply( *a, r); same( *a, r); ++cases; if (r.s.size() > 1) ++nontrivial; }
	g_count = true; g_alloc = g_free = 0; { StaticBuffer c( *a); g_count = false; same( c, r); Ref q = r; for (int i=0; i<6; ++i) apply( c, q); g_log += " (copy)"; same( c, q); same( *a, r); g_count = true; } g_count = false;
	if (g_alloc != g_free) fail( g_log + ": copy allocated " + str( g_alloc) + " and released " + str( g_free) + " blocks");
	char* m2 = new char[ n2]; for (std::size_t i=0; i<n2; ++i) m2[i] = (char)i;
	g_count = true; g_alloc = g_free = 0;
	{ bool ext2 = rndn( 2); StaticBuffer* d = ext2 ? new StaticBuffer( m2, n2, n2) : new StaticBuffer( n2); *d = *a; g_count = false; same( *d, r); Ref q = r; for (int i=0; i<4; ++i) apply( *d, q); g_log += " (assigned copy)"; same( *d, q); same( *a, r); g_count = true; delete d; g_count = false; }
	if (g_alloc != g_free) fail( g_log + ": assigned buffer allocated " + str( g_alloc) + " and released " + str( g_free) + " blocks");
	for (std::size_t i=0; i<n2; ++i) if (m2[i] != (char)i) fail( g_log + ": memory given changed by assignment");
	delete [] m2;
	{ StaticBuffer& dd = *a; *a = dd; same( *a, r); }
	delete a; if (ext) for (std::size_t i=0; i<n; ++i) m[i] = 0;
	delete [] m;
}
int main( int argc, const char** argv) { init( argc, argv); do run(); while (!timeup()); summary(); return 0; }
