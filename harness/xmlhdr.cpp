// Harness C18: contract of XmlHdrParser::parse() for an arbitrary parser state and an arbitrary source of any length: it moves exactly as the
// specification does over the bytes of the source not consumed yet, and suspends only at the end of the source.  With the contracts of
// putInput() (appends), the constructors and clear() the result does not depend on the cut into chunks.
#define private public
#define protected public
#include "textwolf/exception.hpp"
#include "textwolf/sourceiterator.hpp"
#include <cstdlib>
#include <cstring>
#include <string>
#include "v.h"
uint64_t in_w;	// index of the byte observed in each string
// content of the source: the bytes around the place a path segment starts at (arbitrary), g_win[1] is the next byte to consume
enum {NWIN=8}; static char g_win[ NWIN]; static uint64_t g_base; static const char g_src = 0;
static const char* const g_mem = &g_src;	// identifies the content
static const char& win( uint64_t i) {v_assert( i + 1 - g_base < NWIN, "MODEL window of the source"); v_assume( i + 1 - g_base < NWIN); return g_win[ i + 1 - g_base];}
namespace textwolf {
namespace std {	// the string class below replaces std::string in xmlhdrparser.hpp (length, the first bytes and one byte at any index are represented)
using ::std::size_t;
enum {NPRE=16};
struct string
{
	typedef size_t size_type; typedef char value_type;
	uint64_t n; uint64_t pre[2]/*the first 16 bytes, zero filled*/; char w; const char* mem/*content, if it is the source*/;
	// straight line code, so that literals need no loops
	static uint64_t pack( const char* s, uint64_t* p)
	{
		bool e = false; uint64_t k = 0; p[0] = p[1] = 0;
#define P(i) if (!e) {if (s[i]) {p[i/8] |= (uint64_t)(unsigned char)s[i] << (8*(i%8)); k = i+1;} else e = true;}
		P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12) P(13) P(14) P(15)
#undef P
		return k;
	}
	string() :n(0),w(0),mem(0) {pre[0]=pre[1]=0;}
	string( const string& o) :n(o.n),w(o.w),mem(o.mem) {pre[0]=o.pre[0]; pre[1]=o.pre[1];}
	string( const char* s) :w(0),mem(0) {n = pack( s, pre); if (in_w < n) w = byte( in_w); if (n == NPRE && s[NPRE]) {n = v_nd64(); v_assume( n > NPRE && n < 1000); w = v_nd8();}}
	string( const char* s, size_t k) :n(k),w(0),mem(s) {pre[0]=pre[1]=0;}
	string& operator=( const string& o) {n=o.n; w=o.w; mem=o.mem; pre[0]=o.pre[0]; pre[1]=o.pre[1]; return *this;}
	char byte( uint64_t i) const {return (char)(pre[ i >= 8] >> (8*(i & 7)));}
	void clear() {n=0; mem=0; pre[0]=pre[1]=0;}
	bool empty() const {return n==0;}
	size_t size() const {return n;}
	size_t length() const {return n;}
	void push_back( char c) {v_assert( !mem, "MODEL append to the source"); uint64_t x = (uint64_t)(unsigned char)c << (8*(n & 7)); if (n < 8) pre[0] |= x; else if (n < 16) pre[1] |= x; if (n == in_w) w=c; ++n;}
	string& operator+=( char c) {push_back( c); return *this;}
	const char& operator[]( size_t i) const {v_assert( i < n, "C18 reads within the source"); if (mem) return win(i); v_assert( i < NPRE, "MODEL index"); return ((const char*)pre)[i];}
	const char& at( size_t i) const {return (*this)[i];}
	string& append( const char* p, size_t k);
	string& append( const string& o) {v_assert( o.mem != 0 || o.n == 0, "MODEL append"); return append( o.mem, o.n);}
	string& operator+=( const string& o) {return append( o);}
	const char* c_str() const {return (const char*)pre;}
	const char* data() const {return mem ? mem : (const char*)pre;}
	int compare( const char* s) const {return !(*this == s);}
	friend bool operator==( const string& a, const char* s) {uint64_t q[2]; uint64_t k = pack( s, q); v_assert( k < NPRE, "MODEL length of a string compared"); return a.n == k && a.pre[0] == q[0] && a.pre[1] == q[1];}
	friend bool operator!=( const string& a, const char* s) {return !(a == s);}
};
}}
#include "textwolf/xmlhdrparser.hpp"
#undef private
#undef protected
#include "spec_xmlhdr.h"
using namespace textwolf;
typedef textwolf::std::string Str;
typedef spechdr::Header<Str> Spec;
static const char* g_appp; static uint64_t g_appn; static unsigned int g_apps; static Str* g_appto;
Str& Str::append( const char* p, size_t k) {g_appp = p; g_appn = k; g_appto = this; ++g_apps; return *this;}

static XmlHdrParser* g_p; static uint64_t g_idx0/*at the call*/, g_n; static bool g_started, g_pmode, g_pend;
// the state at the start of the path segment
static Spec g_q; static uint64_t g_idx; static uint64_t g_z; static bool g_had;
uint32_t in_st, in_attr, in_byte; uint64_t in_ilen;
static bool same( const Str& a, const Str& b) {return a.n == b.n && !a.mem && !b.mem && a.pre[0] == b.pre[0] && a.pre[1] == b.pre[1] && (in_w < a.n ? a.w == b.w : true);}
static bool valid( const Str& a)
{
	return !a.mem && a.n < ((uint64_t)1<<41) && (in_w < a.n && in_w < 16 ? a.w == a.byte( in_w) : true)
		&& (a.n < 8 ? (a.pre[0] >> (8*a.n)) == 0 && a.pre[1] == 0 : a.n < 16 ? (a.pre[1] >> (8*(a.n-8))) == 0 : true);
}
// specification state represented by the parser
static bool alpha( const XmlHdrParser& p, Spec& q)
{
	switch (p.m_state)
	{
		case XmlHdrParser::Init: q.st = spechdr::Before; break;
		case XmlHdrParser::ParseXmlOpen: q.st = spechdr::Opened; break;
		case XmlHdrParser::ParseXmlHdr: q.st = spechdr::Target; break;
		case XmlHdrParser::FindAttributeName: q.st = spechdr::Between; break;
		case XmlHdrParser::ParseAttributeName: q.st = spechdr::AttrName; break;
		case XmlHdrParser::FindAttributeAssign: q.st = spechdr::BeforeEqual; break;
		case XmlHdrParser::FindAttributeValue: q.st = spechdr::BeforeValue; break;
		case XmlHdrParser::ParseAttributeValueSq: q.st = spechdr::InSq; break;
		case XmlHdrParser::ParseAttributeValueDq: q.st = spechdr::InDq; break;
		default: return false;
	}
	if (p.m_attributetype != XmlHdrParser::Encoding && p.m_attributetype != XmlHdrParser::Version && p.m_attributetype != XmlHdrParser::Standalone) return false;
	q.attr = q.st < spechdr::BeforeEqual ? 0/*irrelevant*/ : p.m_attributetype == XmlHdrParser::Encoding ? spechdr::aEncoding : spechdr::aOther;
	q.item = p.m_item; q.enc = p.m_encoding;
	if (q.st != spechdr::Target && q.st != spechdr::AttrName && q.st != spechdr::InSq && q.st != spechdr::InDq && !q.item.empty()) return false;
	return valid( q.item) && valid( q.enc) && q.item.n + (g_pend?1:0) <= p.m_idx && q.enc.n <= p.m_idx && p.m_lasterror.n == 0 && p.m_src.n == g_n && p.m_src.mem == g_mem && p.m_idx <= g_n && p.m_idx >= g_idx0;
}
static bool sameq( const Spec& a, const Spec& b) {return a.st == b.st && (a.st < spechdr::BeforeEqual || a.attr == b.attr) && same( a.item, b.item) && same( a.enc, b.enc);}
static bool start()
{
	for (unsigned int i=0; i<NWIN; ++i) g_win[i] = (char)v_nd8();
	g_idx = g_base = g_p->m_idx; g_z = g_p->m_zeroCount; g_had = g_pend;
	bool ok = alpha( *g_p, g_q) && g_z < 4 && (!g_pend || (g_z == 0 && g_idx > g_idx0 && g_win[0] != 0));
	if (g_pmode && !g_pend) ok = ok && g_idx == g_n;
	return ok;
}
// moves the specification over the bytes consumed in this segment (at most one character, besides zero bytes); with pend the last one,
// if not zero, is not processed yet
static spechdr::Out fold( Spec& q, uint64_t& z, uint64_t to, bool pend)
{
	q = g_q; z = g_z;
	v_assert( to >= g_idx && to - g_idx < 5, "C18 bytes are consumed one after another"); v_assume( to >= g_idx && to - g_idx < 5);
	uint8_t c = 0, chr = g_had ? (uint8_t)g_win[0] : 0;
	for (unsigned int i=0; i<5; ++i) if (g_idx + i < to)
	{
		c = (uint8_t)g_win[ i+1];
		if (c == 0) {++z; v_assert( z < 4, "C18 a run of four zero bytes is refused"); v_assume( z < 4);}
		else
		{
			z = 0;
			if (!(pend && g_idx + i + 1 == to)) {v_assert( chr == 0, "MODEL one character at a time"); v_assume( chr == 0); chr = c;}
		}
	}
	in_byte = chr;
	return chr ? spechdr::step( q, chr) : spechdr::More;
}
static void arbitrary( XmlHdrParser& p)
{
	p.m_state = (XmlHdrParser::State)v_nd8(); p.m_attributetype = (XmlHdrParser::AttributeType)v_nd8(); p.m_idx = v_nd64(); p.m_zeroCount = v_nd64(); p.m_charsConsumed = v_nd64();
	p.m_item.n = v_nd64(); p.m_item.w = v_nd8(); p.m_encoding.n = v_nd64(); p.m_encoding.w = v_nd8(); for (int i=0; i<2; ++i) {p.m_item.pre[i] = v_nd64(); p.m_encoding.pre[i] = v_nd64();}
	p.m_item.mem = 0; p.m_encoding.mem = 0;
}
extern "C" uint64_t h_snap( int) {return g_pend ? (uint8_t)win( g_p->m_idx-1) : 0;}
extern "C" void h_inv_check( uint32_t k)
{
	if (!(k & 1)) g_pmode = g_p->m_idx > g_idx0 || g_p->m_idx >= g_n;
	Spec q, a; uint64_t z; spechdr::Out rt = fold( q, z, g_p->m_idx, g_pmode);
	v_assert( rt == spechdr::More, "C18 the end of the header and errors are reported"); v_assume( rt == spechdr::More);
	g_pend = g_pmode && g_p->m_idx > g_idx0 && g_p->m_idx > g_idx && win( g_p->m_idx-1) != 0;
	if (g_pmode && !g_pend) v_assert( g_p->m_idx == g_n, "C18 suspends only at the end of the source");
	v_assert( alpha( *g_p, a), "C18 state of the header parser"); v_assert( sameq( a, q), "C18 header parser moves as specified"); v_assert( z == g_p->m_zeroCount, "C18 zero bytes counted");
}
extern "C" void h_havoc( uint32_t) {arbitrary( *g_p); g_pend = g_pmode && v_ndb();}
extern "C" void h_inv_assume( uint32_t) {v_assume( start()); g_started = true;}
extern "C" void v_on_throw()
{
	if (!g_p) return;
	v_cover( "?throw"); v_assert( g_started, "C18 exception");
	// only for a run of four zero bytes
	uint64_t z = g_z; bool run = false;
	for (unsigned int i=0; i<5; ++i) if (g_idx + i < g_n && !run) {if (g_win[ i+1] != 0) break; if (++z == 4) run = true;}
	v_assert( run, "C18 a well-formed header throws no exception");
}
extern "C" void h_parse()
{
	in_w = v_nd64(); g_n = v_nd64(); v_assume( g_n < ((uint64_t)1<<40));
	XmlHdrParser p; p.m_src.mem = g_mem; p.m_src.n = g_n; arbitrary( p); g_idx0 = 0; g_p = &p; g_pmode = g_pend = false;
	v_assume( start()); g_idx0 = p.m_idx; g_started = true;
	in_st = p.m_state; in_attr = p.m_attributetype; in_ilen = p.m_item.n;
	bool rt = p.parse(); g_pend = false;
	Spec q; uint64_t z; spechdr::Out out = fold( q, z, p.m_idx, false);
	v_assert( rt == (out == spechdr::Done), "C18 end of the header reported exactly");
	v_assert( (p.lasterror() != 0) == (out == spechdr::Malformed), "C18 malformed header reported exactly");
	v_assert( same( p.m_encoding, q.enc) && (p.encoding() != 0) == (q.enc.n != 0) && (p.encoding() == 0 || p.encoding() == p.m_encoding.c_str()), "C18 encoding reported");
	if (out == spechdr::More)
	{
		v_cover( "suspended");
		Spec a; v_assert( p.m_idx == g_n, "C18 suspends only at the end of the source");
		v_assert( alpha( p, a), "C18 state of the header parser"); v_assert( sameq( a, q), "C18 header parser moves as specified"); v_assert( z == p.m_zeroCount, "C18 zero bytes counted");
	}
	else if (out == spechdr::Done) {v_cover( "done"); if (q.enc.n) v_cover( "with encoding");}
	else v_cover( "malformed");
	v_assert( p.consumedData().n == g_n && p.consumedData().mem == g_mem && g_apps == 0, "C18 the source read is kept");
}
extern "C" void h_putinput()
{
	in_w = v_nd64(); g_n = v_nd64(); v_assume( g_n < ((uint64_t)1<<40));
	XmlHdrParser p; p.m_src.mem = g_mem; p.m_src.n = g_n; arbitrary( p); p.m_lasterror.n = v_ndb(); g_idx0 = 0; XmlHdrParser b( p);
	char* src = v_alloc( 10); uint64_t k = v_nd64(); v_assume( k <= 10);
	p.putInput( src, k);
	v_assert( g_apps == 1 && g_appto == &p.m_src && g_appp == src && g_appn == k, "C18 the chunk is appended to the source");
	v_assert( p.m_state == b.m_state && p.m_attributetype == b.m_attributetype && p.m_idx == b.m_idx && p.m_zeroCount == b.m_zeroCount && same( p.m_item, b.m_item) && same( p.m_encoding, b.m_encoding)
		&& p.m_lasterror.n == b.m_lasterror.n, "C18 a chunk fed does not change the state");
	v_cover( "putInput");
}
extern "C" void h_ctor()
{
	in_w = v_nd64();
	XmlHdrParser p; g_n = 0; g_idx0 = 0; Spec a, i; p.m_src.mem = g_mem;
	v_assert( alpha( p, a) && sameq( a, i) && p.m_zeroCount == 0 && p.m_idx == 0 && p.m_src.n == 0 && p.encoding() == 0 && p.lasterror() == 0, "C18 initial state");
	arbitrary( p); g_n = v_nd64(); v_assume( g_n < ((uint64_t)1<<40)); p.m_src.n = g_n; p.m_src.mem = g_mem; p.m_lasterror.n = v_ndb();
	{
		XmlHdrParser c( p);
		v_assert( p.m_state == c.m_state && p.m_attributetype == c.m_attributetype && p.m_idx == c.m_idx && p.m_zeroCount == c.m_zeroCount && p.m_charsConsumed == c.m_charsConsumed && same( p.m_item, c.m_item) && same( p.m_encoding, c.m_encoding)
		&& p.m_lasterror.n == c.m_lasterror.n && c.m_src.n == p.m_src.n && c.m_src.mem == p.m_src.mem, "C18 a copy continues as the original");
	}
	p.clear(); g_n = 0; p.m_src.mem = g_mem;
	v_assert( alpha( p, a) && sameq( a, i) && p.m_zeroCount == 0 && p.m_idx == 0 && p.m_src.n == 0 && p.encoding() == 0 && p.lasterror() == 0, "C18 initial state after clear");
	v_cover( "ctor");
}
