// Harness C14: contract of every operation of XMLPrinter in an arbitrary state.  Callee contracts: the text printing functions (C13: they print the
// text, escaped or not), the tag stack (C15: last in, first out).  What is printed is logged: characters, and one token for each argument string.
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/exception.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/textscanner.hpp"
#include "textwolf/xmlscanner.hpp"
#include <cstring>
#include <cstdlib>
#include <string>
#include "v.h"
static bool g_live;
// argument strings of any length, identified by their address; in the log as token Tok+k
enum {Name=0, Top=1, Enc=2, Alone=3, Root=4, Public=5, System=6, NTOK=7, Tok=256, AttrVal=512, ContVal=1024};
static char g_mem[ NTOK][4]; static uint64_t g_len[ NTOK]; static bool g_termlen[ NTOK];
enum {NLOG=160}; static uint16_t g_log[ NLOG]; static uint32_t g_nlog; static uint16_t g_exp[ NLOG]; static uint32_t g_nexp;
static void put( unsigned int c) {v_assert( g_nlog < NLOG, "MODEL length of the log"); v_assume( g_nlog < NLOG); g_log[ g_nlog++] = (uint16_t)c;}
static void ex( unsigned int c) {g_exp[ g_nexp++] = (uint16_t)c;}
static void ex( const char* s) {for (unsigned int i=0; s[i]; ++i) ex( (unsigned char)s[i]);}
static int token( const char* p) {for (int k=0; k<NTOK; ++k) if (p == g_mem[k]) return k; return -1;}
static void text( const char* p, uint64_t n, unsigned int kind)
{
	int k = token( p);
	if (k >= 0) {v_assert( n == g_len[k], "C14 whole names and values are printed"); put( kind + k); return;}
	v_assert( kind == Tok, "C14 constant text is not escaped");
	for (unsigned int i=0; i<n && p[i]; ++i) put( (unsigned char)p[i]);
}
extern "C" size_t strlen( const char* s) {int k = token( s); if (k >= 0) return g_len[k]; size_t n=0; while (s[n]) ++n; return n;}
struct GApp { static bool is_equal( const GApp&, const GApp&) {return true;} };
struct GBuf { int x; };
static GBuf* g_buf;
struct GIO
{
	int id; GIO() :id(0){}
	template <class B> void print( textwolf::UChar c, B& b) const {v_assert( &b == g_buf, "C14 prints to the buffer passed"); put( c);}
	static bool is_equal( const GIO&, const GIO&) {return true;}
};
#define __TEXTWOLF_XML_TAG_STACK_HPP__
static unsigned int g_pushes, g_pops;
namespace textwolf {
class TagStack	:public throws_exception	// contract (C15); the entry below the topmost becomes a new topmost with arbitrary content
{
public:
	uint64_t depth; bool pushed;
	TagStack() :depth(0),pushed(false) {}
	TagStack( const TagStack& o) :depth(o.depth),pushed(o.pushed) {}
	TagStack& operator=( const TagStack& o) {depth=o.depth; pushed=o.pushed; return *this;}
	void push( const char* p, std::size_t n) {v_assert( p == g_mem[ Name] && n == g_len[ Name], "C14 the name of the tag opened is pushed"); ++g_pushes; ++depth; pushed = true;}
	bool top( const void*& p, std::size_t& n) {v_assert( !pushed && g_pops == 0, "MODEL top of the tag stack"); if (!depth) return false; p = g_mem[ Top]; n = g_len[ Top]; return true;}
	void pop() {if (!depth) return; ++g_pops; --depth;}
	bool empty() const {return depth == 0;}
	void clear() {depth = 0; pushed = false;}
};
namespace std {	// string: refers to its argument
using ::std::size_t; using ::std::strlen; using ::std::memchr; using ::std::memcpy;
struct string
{
	const char* p; string() :p("") {} string( const char* s) :p(s) {} string( const string& o) :p(o.p) {}
	string& operator=( const string& o) {p=o.p; return *this;}
	string& operator=( const char* s) {p=s; return *this;}
	const char* c_str() const {return p;} const char* data() const {return p;} size_t size() const {return ::strlen( p);} size_t length() const {return ::strlen( p);} bool empty() const {return size() == 0;}
};
}
}
#define private public
#include "textwolf/xmlprinter.hpp"
#undef private
using namespace textwolf;
typedef XMLPrinter<GIO,GApp,GBuf> Printer;
namespace textwolf {
// contracts of the text printing functions (harness/printtext.cpp)
template <> void XMLPrinter<GIO,GApp,GBuf>::printToBuffer( const char* src, ::std::size_t n, GBuf& buf) const {v_assert( &buf == g_buf, "C14 prints to the buffer passed"); text( src, n, Tok);}
template <> void XMLPrinter<GIO,GApp,GBuf>::printToBuffer( char ch, GBuf& buf) const {v_assert( &buf == g_buf, "C14 prints to the buffer passed"); put( (unsigned char)ch);}
template <> void XMLPrinter<GIO,GApp,GBuf>::printToBufferAttributeValue( const char* src, ::std::size_t n, GBuf& buf) const {v_assert( &buf == g_buf, "C14 prints to the buffer passed"); text( src, n, AttrVal);}
template <> void XMLPrinter<GIO,GApp,GBuf>::printToBufferContent( const char* src, ::std::size_t n, GBuf& buf) const {v_assert( &buf == g_buf, "C14 prints to the buffer passed"); text( src, n, ContVal);}
}
uint32_t in_state, in_depth0, in_op;
static Printer* g_p; static GBuf g_b; static const char g_olderr = 'x'; static uint64_t g_depth; static Printer::State g_state; static const char* g_err;
static void arbitrary( Printer& p)
{
	g_p = &p; g_buf = &g_b;
	for (int i=0; i<NTOK; ++i) {g_len[i] = v_nd64(); v_assume( g_len[i] < ((uint64_t)1<<60));}
	v_assume( g_len[ Top] > 0 && g_len[ Name] > 0);	// names are not empty
	p.m_state = (Printer::State)v_nd8(); p.m_tagstack.depth = v_nd64(); p.m_lasterror = v_ndb() ? &g_olderr : 0;
	v_assume( p.m_state == Printer::Init || p.m_state == Printer::Content || p.m_state == Printer::TagAttribute || p.m_state == Printer::TagElement);
	v_assume( p.m_tagstack.depth < ((uint64_t)1<<60));
	v_assume( p.m_state == Printer::Init ? p.m_tagstack.depth == 0 : p.m_state == Printer::Content || p.m_tagstack.depth > 0);	// representation invariant
	g_depth = p.m_tagstack.depth; g_state = p.m_state; g_err = p.m_lasterror; in_state = g_state; in_depth0 = g_depth == 0;
}
// the call is expected to succeed in state st with depth d, or to be refused
static void done( bool rt, bool ok, Printer::State st, uint64_t d)
{
	const Printer& p = *g_p;
	if (ok) v_assert( rt, "C14 well-formed call accepted"); else v_assert( !rt, "C14 call breaking well-formedness refused");
	v_assume( rt == ok);
	if (!ok)
	{
		v_cover( "?refused");
		v_assert( g_nlog == 0, "C14 a refused call prints nothing"); v_assert( p.m_state == g_state && p.m_tagstack.depth == g_depth && g_pushes == 0 && g_pops == 0, "C14 a refused call does not change the state");
		v_assert( p.lasterror() != 0 && p.lasterror() != &g_olderr && p.lasterror()[0] != 0, "C14 a refused call leaves an error message");
		return;
	}
	v_cover( "?accepted");
	v_assert( p.state() == st && p.m_tagstack.depth == d, "C14 state after the call");
	v_assert( g_nlog == g_nexp, "C14 the markup of the call is printed (length)"); v_assume( g_nlog == g_nexp);
	bool eq = true; for (unsigned int i=0; i<NLOG; ++i) if (i < g_nexp && g_log[i] != g_exp[i]) eq = false;
	v_assert( eq, "C14 the markup of the call is printed");
	v_assert( p.m_state == Printer::Init ? p.m_tagstack.depth == 0 : p.m_state == Printer::Content || p.m_tagstack.depth > 0, "C14 printer state sound");
}
extern "C" void h_header()
{
	Printer p; arbitrary( p); bool enc = v_ndb(), alone = v_ndb();
	bool rt = p.printHeader( enc ? g_mem[ Enc] : 0, alone ? g_mem[ Alone] : 0, g_b);
	ex( "<?xml version=\"1.0\" encoding=\""); if (enc) ex( Tok+Enc); else ex( "UTF-8");
	if (alone) {ex( "\" standalone=\""); ex( Tok+Alone);}
	ex( "\"?>\n");
	done( rt, g_state == Printer::Init, Printer::Content, 0); v_cover( "header");
}
extern "C" void h_doctype()
{
	Printer p; arbitrary( p); bool root = v_ndb(), pub = v_ndb(), sys = v_ndb();
	bool rt = p.printDoctype( root ? g_mem[ Root] : 0, pub ? g_mem[ Public] : 0, sys ? g_mem[ System] : 0, g_b);
	if (!root) {done( rt, true, g_state, g_depth); v_cover( "no doctype"); return;}
	ex( "<!DOCTYPE "); ex( Tok+Root);
	if (pub) {ex( " PUBLIC \""); ex( Tok+Public); ex( "\" \""); ex( Tok+System); ex( '"');} else if (sys) {ex( " SYSTEM \""); ex( Tok+System); ex( '"');}
	ex( '>');
	done( rt, g_state == Printer::Content && g_depth == 0 && (!pub || sys), Printer::Content, 0); v_cover( "doctype");
}
extern "C" void h_opentag()
{
	Printer p; arbitrary( p);
	bool rt = p.printOpenTag( g_mem[ Name], g_len[ Name], g_b);
	if (g_state == Printer::TagElement) ex( '>');
	ex( '<'); ex( Tok+Name);
	done( rt, g_state == Printer::Content || g_state == Printer::TagElement, Printer::TagElement, g_depth+1);
	if (rt) v_assert( g_pushes == 1 && g_pops == 0, "C14 the tag opened becomes the innermost one"); v_cover( "open tag");
}
extern "C" void h_attribute()
{
	Printer p; arbitrary( p);
	bool rt = p.printAttribute( g_mem[ Name], g_len[ Name], g_b);
	ex( ' '); ex( Tok+Name); ex( '=');
	done( rt, g_state == Printer::TagElement, Printer::TagAttribute, g_depth); v_cover( "attribute");
}
extern "C" void h_value()
{
	Printer p; arbitrary( p); g_len[ Name] = v_nd64();
	bool rt = p.printValue( g_mem[ Name], g_len[ Name], g_b);
	if (g_state == Printer::TagAttribute) {ex( AttrVal+Name); done( rt, true, Printer::TagElement, g_depth); v_cover( "attribute value");}
	else
	{
		if (g_state == Printer::TagElement) ex( '>');
		ex( ContVal+Name); done( rt, g_state != Printer::Init, Printer::Content, g_depth); v_cover( "content");
	}
}
extern "C" void h_closetag()
{
	Printer p; arbitrary( p);
	bool rt = p.printCloseTag( g_b);
	if (g_state == Printer::TagElement) ex( "/>"); else {ex( "</"); ex( Tok+Top); ex( '>');}
	if (g_depth == 1) ex( '\n');
	done( rt, g_depth > 0 && g_state != Printer::TagAttribute, Printer::Content, g_depth-1);
	if (rt) v_assert( g_pushes == 0 && g_pops == 1, "C14 the innermost tag is closed"); v_cover( "close tag");
}
extern "C" void h_exit()
{
	Printer p; arbitrary( p);
	bool rt = p.exitTagContext( g_b);
	if (g_state == Printer::TagElement) ex( '>');
	done( rt, g_state == Printer::Content || g_state == Printer::TagElement, Printer::Content, g_depth); v_cover( "exit");
}
extern "C" void h_ctor()
{
	bool sub = v_ndb(); Printer::State st = sub ? Printer::Content : Printer::Init; GIO io; io.id = 7;
	{Printer p; v_assert( p.state() == Printer::Init && p.lasterror() == 0 && p.m_tagstack.depth == 0, "C14 initial state");}
	{Printer p( sub); v_assert( p.state() == st && p.lasterror() == 0 && p.m_tagstack.depth == 0, "C14 initial state");}
	{Printer p( io, sub); v_assert( p.state() == st && p.lasterror() == 0 && p.m_tagstack.depth == 0 && p.m_output.id == 7, "C14 initial state");}
	Printer p; arbitrary( p); p.m_output.id = 9;
	{Printer q( p); v_assert( q.state() == g_state && q.m_tagstack.depth == g_depth && q.lasterror() == p.lasterror() && q.m_output.id == 9, "C14 a copy continues as the original");}
	{Printer q; q = p; v_assert( q.state() == g_state && q.m_tagstack.depth == g_depth && q.lasterror() == p.lasterror() && q.m_output.id == 9, "C14 an assigned printer continues as the original");}
	p.reset( sub); v_assert( p.state() == st && p.lasterror() == 0 && p.m_tagstack.depth == 0 && p.m_output.id == 9 && g_nlog == 0, "C14 state after reset"); v_cover( "ctor");
}
