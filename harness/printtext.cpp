// Harness C13: contract of the text printing functions of XMLPrinter for texts of any length: character by character, what is printed is the
// character itself, where it may stand raw, or a reference the scanner specification (spec_xml.h) resolves to it.
// Callee contracts: the text scanner on the source (C03), CStringIterator (C17), print() of the output encoding (C01, C05, C06).
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#include "v.h"
#include "spec_xml.h"
uint64_t in_n; uint32_t in_char; uint32_t in_out[16]; uint32_t in_nout;
static const char* g_src; static bool g_live;
static uint32_t g_c;		// character the text scanner stands on, 0: end of the text
static uint32_t g_ch; static bool g_consumed;	// character consumed in this path segment
enum {NOUT=16}; static uint32_t g_out[ NOUT]; static uint32_t g_nout;	// characters printed in this path segment
static bool g_first, g_scanner;
#define __TEXTWOLF_CSTRING_ITERATOR_HPP__
namespace textwolf {
class CStringIterator	// contract: the bytes p[0..n), then zeros
{
public:
	const char* p; std::size_t n;
	CStringIterator() :p(0),n(0) {}
	CStringIterator( const char* p_, std::size_t n_) :p(p_),n(n_) {}
	CStringIterator( const CStringIterator& o) :p(o.p),n(o.n) {}
	char operator*() const {return v_nd8();}
	std::size_t pos() const {return 0;}
	CStringIterator& operator++() {v_assert( false, "MODEL direct access to the source"); return *this;}
};
}
#include "textwolf/textscanner.hpp"
struct GApp { static bool is_equal( const GApp&, const GApp&) {return true;} };
struct GBuf { int x; };
static GBuf* g_buf;
struct GIO
{
	template <class B> void print( textwolf::UChar c, B& b) const
	{
		v_assert( &b == g_buf, "C13 prints to the buffer passed"); v_assert( g_nout < NOUT, "MODEL characters printed at once"); v_assume( g_nout < NOUT);
		g_out[ g_nout++] = c;
	}
	static bool is_equal( const GIO&, const GIO&) {return true;}
};
static void newchar() {g_c = v_nd32();}
namespace textwolf {
template <> class TextScanner<CStringIterator,GApp>
{
public:
	TextScanner( const CStringIterator& i) {v_assert( i.p == g_src && i.n == in_n && !g_scanner, "C13 reads the text passed"); g_scanner = true;}
	TextScanner( const GApp&, const CStringIterator& i) {v_assert( i.p == g_src && i.n == in_n && !g_scanner, "C13 reads the text passed"); g_scanner = true;}
	UChar chr() {return g_c;}
	ControlCharacter control() {return (ControlCharacter)spec::cls( g_c);}
	unsigned char ascii() {return g_c <= 127 ? (unsigned char)g_c : 0;}
	TextScanner& skip() {v_assert( !g_consumed, "MODEL one character at a time"); v_assume( !g_consumed); g_consumed = true; g_ch = g_c; newchar(); return *this;}
	UChar operator*() {return chr();}
	TextScanner& operator++() {return skip();}
};
}
#include "textwolf/xmlprinter.hpp"
using namespace textwolf;
typedef XMLPrinter<GIO,GApp,GBuf> Printer;
enum {Attr, Cont, Plain}; static int g_mode;
extern "C" void* memchr( const void* p, int c, size_t n) {const char* s = (const char*)p; for (size_t i=0; i<n; ++i) if (s[i] == (char)c) return (void*)(s+i); return 0;}
// may c stand as it is: not markup, not changed by the scanner
static bool rawok( uint32_t c)
{
	if (g_mode == Plain) return true;
	if (c == '<' || c == '>' || c == '&' || c == '\r') return false;
	return g_mode == Attr ? c != '"' : true;
}
// reads one printed item from pos on; does it denote c
static bool item( unsigned int& pos, uint32_t c)
{
	if (pos >= g_nout) return false;
	uint32_t o = g_out[ pos++];
	if (o != '&' || g_mode == Plain) return o == c && rawok( c);
	spec::State q; q.tok = spec::tAmp; q.n = 0; q.w[0] = q.w[1] = 0; q.base = 0; q.value = 0; bool end = false;
	unsigned int start = pos;
	for (unsigned int i=0; i<NOUT; ++i)
	{
		if (i < start || end || i >= g_nout) continue;
		uint32_t x = g_out[i]; pos = i+1;
		if (x == ';') {end = true; continue;}
		if (i == start && x == '#') {q.base = 10; continue;}
		if (i == start+1 && q.base == 10 && x == 'x') {q.base = 16; continue;}
		if (q.base) {if (x >= 128 || spec::hexval( x) >= q.base) return false; q.value = q.value * q.base + spec::hexval( x);}
		if (q.n >= spec::MaxName || x >= 128) return false;
		spec::addchar( q, x);
	}
	if (!end || q.n == 0) return false;
	if (q.base) return q.value == c;
	uint32_t e = 0; return spec::predefined( q, e) && e == c;
}
static void segment( bool returned)
{
	in_char = g_consumed ? g_ch : 0; in_nout = g_nout; for (int i=0; i<NOUT; ++i) in_out[i] = i < (int)g_nout ? g_out[i] : 0;
	unsigned int pos = 0; bool ok = true;
	if (g_first && g_mode == Attr) {ok = g_nout > 0 && g_out[0] == '"'; pos = 1; v_assert( ok, "C13 an attribute value starts with a quote"); v_assume( ok);}
	if (g_consumed)
	{
		v_assert( g_ch != 0, "C13 the text ends at its end"); v_assume( g_ch != 0);
		bool it = item( pos, g_ch); v_assert( it, "C13 the text printed denotes the character"); v_assume( it);
	}
	if (returned)
	{
		v_assert( g_c == 0, "C13 the whole text is printed");
		if (g_mode == Attr) {ok = pos < g_nout && g_out[pos] == '"'; ++pos; v_assert( ok, "C13 an attribute value ends with a quote"); v_assume( ok);}
	}
	v_assert( pos == g_nout, "C13 nothing else is printed");
}
extern "C" uint64_t h_snap( int) {return g_c;}
extern "C" void h_inv_check( uint32_t) {if (g_live) segment( false);}
extern "C" void h_havoc( uint32_t) {newchar();}
extern "C" void h_inv_assume( uint32_t) {g_consumed = false; g_nout = 0; g_first = false;}
static void run( int mode)
{
	GBuf b; g_buf = &b; Printer p; in_n = v_nd64(); char x; g_src = &x; g_mode = mode; g_first = true; newchar(); g_live = true;
	if (mode == Attr) p.printToBufferAttributeValue( g_src, in_n, b);
	else if (mode == Cont) p.printToBufferContent( g_src, in_n, b);
	else p.printToBuffer( g_src, in_n, b);
	segment( true); v_assert( g_scanner, "C13 reads the text passed"); v_cover( "printed");
}
extern "C" void h_attr() {run( Attr);}
extern "C" void h_content() {run( Cont);}
extern "C" void h_plain() {run( Plain);}
extern "C" void h_char() {GBuf b; g_buf = &b; Printer p; uint8_t c = v_nd8(); p.printToBuffer( (char)c, b); v_assert( g_nout == 1 && g_out[0] == c, "C13 prints one character"); v_cover( "printed");}
