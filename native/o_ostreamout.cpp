// Native oracle C22: random appends to OstreamOutput on real streams (string, file-like with small buffers, failing) against std::string; a document printed to a stream and to a string
#include "oracle.h"
#include "textwolf/ostreamoutput.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/charset.hpp"
#include <sstream>
#include <iostream>
using namespace orc; using namespace textwolf;
static std::string g_log;
// stream buffer that takes the characters in blocks of the given size
struct Sink :public std::streambuf
{
	std::vector<char> b; std::string s;
	explicit Sink( int n):b(n+1) {setp( &b[0], &b[0] + n);}
	int sync() {s.append( pbase(), pptr() - pbase()); setp( &b[0], &b[0] + (b.size()-1)); return 0;}
	int overflow( int c) {sync(); if (c != EOF) {if (epptr() > pptr()) {*pptr() = (char)c; pbump( 1);} else s.push_back( (char)c);} return c == EOF ? 0 : c;}
};
static void same( const std::string& got, const std::string& exp, const char* what)
{
	if (got == exp) return;
	std::size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) ++i;
	fail( g_log.substr( 0, 1500) + what + str( got.size()) + " characters, expected " + str( exp.size()) + ", the first difference at " + str( i) + ": " + quote( got.substr( i, 40)) + " expected " + quote( exp.substr( i, 40)));
}
static void appends()
{
	Sink k( rndn( 9)), k2( rndn( 3)); std::ostream os( &k), os2( &k2); std::string r, r2; std::string pre; for (int i=rndn( 5); i>0; --i) pre.push_back( (char)rnd());
	os.write( pre.data(), pre.size()); r = pre; g_log = "stream holding " + quote( pre) + ":";
	if (rndn( 4) == 0) {os << std::hex; os.setf( std::ios::left|std::ios::showbase); if (rndn( 2)) os.fill( '*'); if (rndn( 2)) os.setf( std::ios::unitbuf);}
	OstreamOutput o( &os), c( o), a( &os2); bool assigned = false;
	for (int i=rndn( 20); i>=0; --i)
	{
		int w = rndn( 3); OstreamOutput& x = w == 0 ? o : w == 1 ? c : a; std::string& y = w == 2 && !assigned ? r2 : r;
		switch (rndn( 4))
		{
			case 0: {char ch = (char)(rndn( 3) ? rnd() : " \n\t\0\r\xff\x1a"[ rndn( 7)]); g_log += " push_back(" + quote( std::string( 1, ch)) + ")"; x.push_back( ch); y.push_back( ch); break;}
			case 1: case 2: {std::string v; for (int j=rndn( 2000) == 0 ? 65530 + rndn( 12) : (int)rndn( rndn( 30) ? 12 : 3000); j>0; --j) v.push_back( (char)(rndn( 4) ? rnd() : " \n\t\0\r\xff\x1a"[ rndn( 7)])); char* m = new char[ v.size()]; memcpy( m, v.data(), v.size());
				g_log += " append(" + str( v.size()) + ")"; x.append( m, v.size()); delete [] m; y += v; if (v.size() > 1) ++nontrivial; break;}
			case 3: if (!assigned && rndn( 4) == 0) {a = o; assigned = true; g_log += " (assigned)";} break;
		}
		++cases;
	}
	os.flush(); os2.flush();
	same( k.s, r, ": stream holds "); same( k2.s, r2, ": other stream holds ");
}
template <class OUT> static void print( OUT& b, int n, std::vector<bool>& rt)
{
	XMLPrinter<charset::UTF8,charset::UTF8,OUT> p; uint32_t x = (uint32_t)n * 2654435761u + 12345;
	#define NX(k) ((x = x * 1664525u + 1013904223u) >> 8) % (k)
	if (NX(2)) rt.push_back( p.printHeader( "UTF-8", "1.0", b));
	for (int i=NX(12); i>=0; --i)
	{
		std::string v; for (int j=NX(6); j>=0; --j) v.push_back( "ab<>&\"' \xc3\xa9" [ NX(8)]);
		switch (NX(6))
		{
			case 0: case 1: rt.push_back( p.printOpenTag( "t", 1, b)); break;
			case 2: rt.push_back( p.printAttribute( "a", 1, b)); break;
			case 3: case 4: rt.push_back( p.printValue( v.c_str(), v.size(), b)); break;
			case 5: rt.push_back( p.printCloseTag( b)); break;
		}
	}
}
static void documents()
{
	int n = (int)(rnd() & 0xffffff); std::ostringstream os; OstreamOutput o( &os); std::string s; std::vector<bool> r1, r2;
	print( o, n, r1); print( s, n, r2); ++cases; if (s.size() > 20) ++nontrivial;
	if (r1 != r2) fail( "document " + str( n) + " printed to a stream: other results than printed to a string");
	if (os.str() != s) fail( "document " + str( n) + " printed to a stream: " + quote( os.str()) + " printed to a string: " + quote( s));
}
int main( int argc, const char** argv) { init( argc, argv); do {appends(); documents();} while (!timeup()); summary(); return 0; }
