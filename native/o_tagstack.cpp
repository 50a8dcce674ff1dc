// Native oracle C15: random operation sequences on the real TagStack against a vector of strings (built with ASan/UBSan)
#include "oracle.h"
static bool g_failalloc = false;
extern "C" void* __real_realloc( void*, size_t); extern "C" void* __wrap_realloc( void* p, size_t n) { if (g_failalloc) return 0; return __real_realloc( p, n);}
extern "C" void* __real_malloc( size_t); extern "C" void* __wrap_malloc( size_t n) { if (g_failalloc) return 0; return __real_malloc( n);}
#include "textwolf/xmltagstack.hpp"
using namespace orc; using namespace textwolf;
typedef std::vector<std::string> Ref;
static std::string g_log;
static void same( TagStack s, Ref r, const char* what)	// pops a copy until it is empty
{
	for (;;)
	{
		const void* e = 0; std::size_t n = 0; bool ok = s.top( e, n);
		if (s.empty() != r.empty()) fail( g_log + ": empty() wrong " + what);
		if (ok != !r.empty()) fail( g_log + ": top() returns " + str(ok) + " with " + str( r.size()) + " entries " + what);
		if (!ok) break;
		if (n != r.back().size() || memcmp( e, r.back().data(), n)) fail( g_log + ": top is " + quote( std::string( (const char*)e, n < 100 ? n : 100)) + " expected " + quote( r.back().substr( 0, 100)) + " " + what);
		s.pop(); r.pop_back();
	}
	const void* e = 0; std::size_t n = 0; s.pop(); if (!s.empty() || s.top( e, n)) fail( g_log + ": pop on an empty stack has an effect");
}
static void run()
{
	TagStack s[2]; Ref r[2]; g_log = "ops";
	int N = 1 + rndn( 40); unsigned int big = rndn( 6) == 0 ? 5000 : rndn( 3) ? 20 : 300;
	for (int i=0; i<N; ++i)
	{
		int x = rndn( 2), op = rndn( 11);
		if (op < 5)
		{
			std::string v; unsigned int n = rndn( big); if (rndn( 4) == 0) n = 8 * (n / 8); if (rndn( 20) == 0) n = 256 << rndn( 6);
			for (unsigned int k=0; k<n; ++k) v.push_back( (char)(rndn( 3) ? 'a'+rndn( 26) : rndn( 256)));
			g_log += " push" + str(x) + "(" + str( n) + ")";
			char* m = new char[ n]; memcpy( m, v.data(), n);
			bool inject = rndn( 12) == 0, done = true;
			if (inject) { g_failalloc = true; try { s[x].push( m, n); } catch (const std::bad_alloc&) { done = false; g_log += "!"; } g_failalloc = false; } else s[x].push( m, n);
			delete [] m; if (done) r[x].push_back( v);
		}
		else if (op < 8) { g_log += " pop" + str(x); s[x].pop(); if (!r[x].empty()) r[x].pop_back(); }
		else if (op == 8) { g_log += " assign" + str(x); s[x] = s[1-x]; r[x] = r[1-x]; }
		else if (op == 9) { g_log += " clear" + str(x); if (rndn( 3) == 0) { s[x].clear(); r[x].clear(); } }
		else { TagStack& y = s[x]; s[x] = y; }
		++cases; if (r[x].size() > 1) ++nontrivial;
		same( s[x], r[x], "(this)"); same( s[1-x], r[1-x], "(other)");
	}
}
int main( int argc, const char** argv) { init( argc, argv); do run(); while (!timeup()); summary(); return 0; }
