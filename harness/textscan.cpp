// Harness C03/C04: contracts of TextScanner over any source iterator, one character at a time.
// CS: character set class; KIND: see spec_charset.h (1: ISO-8859, code page PAGE)
// Representation invariant RI (ghost: in_b = source bytes from the first byte of the current character on):
//   state bytes of the character are fetched into buf, the iterator stands at start+state, state <= announced length,
//   val is 0 or the code point of the character.
#define private public
#define protected public
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/textscanner.hpp"
#undef private
#undef protected
#include "v.h"
#include "spec_charset.h"
#include "spec_control.h"
using namespace textwolf;
enum {NB=24, BASE=5};
unsigned char in_b[NB];		// bytes from the current character on
uint32_t in_avail;		// number of bytes available in the current chunk, counted from the current character
uint32_t in_state; uint32_t in_valset; uint32_t in_op;
static void on_suspend();
static bool g_limit = false; static bool g_noread = false;
struct GIter
{
	unsigned int idx;	// absolute: BASE = first byte of the current character
	GIter() :idx(BASE){}
	explicit GIter( unsigned int i) :idx(i){}
	char operator*() const
	{
		v_assert( !g_noread, "C03,C04 a character whose bytes were fetched is not fetched again");
		if (g_limit && idx - BASE >= in_avail) on_suspend();
		v_assert( idx >= BASE && idx - BASE < NB, "C02,C03 reads beyond the announced character");
		return (char)in_b[idx-BASE];
	}
	GIter& operator++() {if (g_limit) v_assert( idx - BASE < in_avail, "C04 never advances over bytes that are not there"); ++idx; return *this;}
};
namespace textwolf {
template <> struct Traits<GIter> { static inline std::size_t getPosition( const GIter&, const GIter& itr) {return itr.idx;} };
}
typedef charset::CS Charset;
typedef TextScanner<GIter,Charset> Scanner;
#ifndef PAGE
#define CSINIT Charset()
#else
#define CSINIT Charset(PAGE)
#endif
struct GOut
{
	unsigned char b[128]; unsigned int n;
	GOut():n(0){}
	void push_back( char c) {v_assert( n < 128, "C03 copying a character appends a bounded number of bytes"); if (n<128) b[n++] = (unsigned char)c;}
};
static Scanner* g_ts = 0;
static unsigned int g_n; static UChar g_val; static int g_ascii;
static bool ri( const Scanner& ts)
{
	if (ts.state > g_n || ts.input.idx != BASE + ts.state) return false;
	for (unsigned int i=0; i<8; ++i) if (i < ts.state && (unsigned char)ts.buf[i] != in_b[i]) return false;
	return ts.val == 0 || ts.val == g_val;
}
// a suspension (longjmp out of the iterator) leaves the scanner in a state satisfying RI: the repeated operation is then
// covered by the contract of this operation for an arbitrary RI state
static void on_suspend()
{
	v_cover("?suspended");
	v_assert( ri( *g_ts), "C04 the state at a suspension is resumable");
	v_assume( false);
}
extern "C" void h_warm() { Scanner ts( CSINIT, (GIter(BASE))); ts.control(); }

static void setup()
{
	for (int i=0;i<NB;++i) in_b[i]=v_nd8();
	// ghost: the character, by the contract of the encoding (C01/C02/C05)
	Charset cs = CSINIT;
	{ char buf[8]; unsigned int p=0; GIter i; g_val = cs.value( buf, p, i); g_n = p; }
	{ char buf[8]; unsigned int p=0; GIter i; g_ascii = Charset::asciichar( buf, p, i); }
	v_assert( g_n == spec::announced( KIND, in_b), "C02,C03 announced length");
	v_assert( g_ascii < 0 || g_val == (UChar)g_ascii, "C03 the ASCII view is the code point");
	in_avail = v_nd32(); in_state = v_nd32(); in_valset = v_nd32();
}
static void arbitrary( Scanner& ts)
{
	v_assume( in_state <= g_n && in_state <= in_avail && in_avail <= NB && in_valset <= 1);
	if (in_valset) v_assume( in_state == g_n);
	for (unsigned int i=0; i<8; ++i) ts.buf[i] = i < in_state ? (char)in_b[i] : (char)v_nd8();
	ts.state = in_state; ts.val = in_valset ? g_val : 0; ts.cur = (signed char)v_nd8();
	ts.input.idx = BASE + in_state;
	ts.start.idx = v_nd32();
	g_ts = &ts; g_limit = true;
}
#define POST(ts) v_assert( ri(ts), "C03,C04 representation invariant kept")

extern "C" void h_views()
{
	setup();
	Scanner ts( CSINIT, (GIter(BASE))); arbitrary( ts);
	uint32_t op = v_nd32(); in_op = op;
	if (op == 0) { UChar r = ts.chr(); v_cover("chr"); v_assert( r == g_val, "C03 code point of the current character"); }
	else if (op == 1) { UChar r = *ts; v_cover("deref"); v_assert( r == g_val, "C03 code point of the current character"); }
	else if (op == 2) { unsigned char r = ts.ascii(); v_cover("ascii"); v_assert( r == (g_ascii >= 0 ? g_ascii : 0), "C03 ASCII view of the current character"); }
	else if (op == 3) { ControlCharacter r = ts.control(); v_cover("control"); v_assert( (unsigned int)r == spec::control_class( g_ascii), "C03 control class of the current character"); }
	else if (op == 4)
	{
		GOut o; Charset oc = CSINIT; ts.copychar( oc, o); v_cover("copychar");
		v_assert( o.n == g_n, "C03 the copy has the length of the character");
		for (unsigned int i=0; i<8; ++i) if (i < g_n) v_assert( o.b[i] == in_b[i], "C03 the copy has the bytes of the character");
	}
	else if (op == 5) { v_assert( ts.getPosition() == BASE, "C03 position of the current character"); }
	else if (op == 6) { const Scanner& c = ts; v_assert( c.getIterator().idx == ts.getIterator().idx, "C03 iterator"); }
	else return;
	v_assert( ts.getPosition() == BASE, "C03 position of the current character unchanged by a query");
	POST( ts);
}
extern "C" void h_skip()
{
	setup();
	Scanner ts( CSINIT, (GIter(BASE))); arbitrary( ts);
	uint32_t op = v_nd32(); in_op = op; v_assume( op <= 2);
	if (op == 0) { Scanner& r = ts.skip(); v_assert( &r == &ts, "C03 skip returns the scanner"); }
	else if (op == 1) ++ts;
	else
	{
		Scanner o = ts++;
		v_assert( ri( o) && o.getPosition() == BASE, "C03 post increment returns the old state");
		g_limit = false; v_assert( o.chr() == g_val, "C03 post increment returns the old state");
	}
	v_cover("skip");
	v_assert( ts.input.idx == BASE + g_n, "C03,C04 skip moves to exactly the next character");
	v_assert( ts.state == 0 && ts.val == 0, "C03 skip forgets the old character");
	v_assert( ts.getPosition() == BASE + g_n, "C03 position of the next character");
}
// which operations cannot suspend any more: the contract the scanner is verified against
static uint32_t g_first;
static void view( Scanner& ts, uint32_t op)
{
	Charset oc = CSINIT;
	if (op == 0) ts.control();
	else if (op == 1) ts.ascii();
	else if (op == 2) ts.chr();
	else if (op == 3) { GOut o; ts.copychar( oc, o); }
	else ts.skip();
}
extern "C" void h_ready()
{
	setup();
	Scanner ts( CSINIT, (GIter(BASE))); arbitrary( ts);
	uint32_t a = v_nd8(), b = v_nd8(); in_op = a * 16 + b;
	v_assume( a <= 3 && b <= 4);
	view( ts, a);
	if (a <= 1 && g_ascii < 0 && b > 1) return;	// the class of a character which is not ASCII may be known before its last byte
	v_cover( "fetched");
	g_noread = true;
	view( ts, b);
	v_cover( "viewed again");
}
#ifdef OPAGE
#include "spec_iso8859.h"
// a direct copy between any two code pages is the same character
uint32_t in_page, in_opage;
extern "C" void h_recode()
{
	for (int i=0;i<NB;++i) in_b[i]=v_nd8();
	in_page = v_nd32(); in_opage = OPAGE; in_valset = v_nd32();
	v_assume( in_page >= 1 && in_page <= 9);
	Charset cs( in_page), oc( in_opage);
	Scanner ts( cs, (GIter(BASE)));
	UChar val = spec::iso_decode( in_page, in_b[0]);
	if (in_valset) ts.chr();
	GOut o; ts.copychar( oc, o);
	int e = in_page == in_opage ? (int)in_b[0] : spec::iso_encode( in_opage, val);
	if (e >= 0)
	{
		v_cover("same character in the other page");
		v_assert( o.n == 1 && o.b[0] == (unsigned char)e, "C03 a direct copy is the same character in the other code page");
	}
	else
	{
		v_cover("not in the other page");
		unsigned char r[64]; unsigned int rn = spec::reference( 1, val, r);
		v_assert( o.n == rn, "C03 a direct copy of a character not in the other code page is a reference to it");
		for (unsigned int i=0; i<16; ++i) if (i<rn) v_assert( o.b[i] == r[i], "C03 a direct copy of a character not in the other code page is a reference to it");
	}
	v_assert( ts.getPosition() == BASE, "C03 position of the current character unchanged by a query");
}
#endif
extern "C" void h_ctor()
{
	setup();
	{ Scanner ts( CSINIT, (GIter(BASE))); v_assert( ts.state == 0 && ts.val == 0 && ts.input.idx == BASE && ts.start.idx == BASE, "C03 constructed at the first character"); v_assert( ri( ts), "C03 constructed at the first character"); }
	{ Scanner ts( (GIter(BASE))); v_assert( ts.state == 0 && ts.val == 0 && ts.input.idx == BASE && ts.start.idx == BASE, "C03 constructed at the first character"); }
	{ Scanner ts( (CSINIT)); ts.setSource( GIter(BASE)); v_assert( ts.state == 0 && ts.val == 0 && ts.input.idx == BASE && ts.start.idx == BASE, "C03 attached to the first character"); v_assert( ts.getPosition() == BASE, "C03 position"); }
	Scanner a( CSINIT, (GIter(BASE))); arbitrary( a); g_limit = false;
	Scanner c( a);
	v_assert( ri( c) && c.state == a.state && c.val == a.val && c.start.idx == a.start.idx, "C03,C09 a copy stands at the same character");
	v_assert( c.getPosition() == BASE, "C03 position of the copy");
	v_assert( Charset::is_equal( c.charset, a.charset), "C03 a copy has the same encoding");
	v_cover("copied");
	// next chunk: the fetched bytes are kept
	uint32_t s = a.state; a.setSource( GIter( 100));
	v_assert( a.state == s && a.input.idx == 100, "C04 attaching the next chunk keeps the bytes fetched");
	for (unsigned int i=0; i<8; ++i) if (i < s) v_assert( (unsigned char)a.buf[i] == in_b[i], "C04 attaching the next chunk keeps the bytes fetched");
	v_assert( a.val == 0 || a.val == g_val, "C04 attaching the next chunk keeps the character");
}
