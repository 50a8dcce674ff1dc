// Harness C07..C12: contract of XMLScanner::nextItem for one call from an arbitrary resumable state, on an arbitrary character stream.
// The text scanner below it is represented by its contract (harness/textscan.cpp proves it for every encoding: C03, C04): it stands on one
// character g_c of g_len bytes at position g_pos; a view of it may suspend unless the bytes it needs were fetched before.
// KIND 0: all text wanted, call after a completed one   KIND 1: call after a suspension
// KIND 2: arbitrary mask, states whose text is masked out   KIND 3: arbitrary mask, the other states
// SAMECS 1: output encoding of the same type as the input encoding
#define private public
#define protected public
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/textscanner.hpp"
#undef private
#undef protected
#include "v.h"
#define SPEC_TABLES
#include "spec_xml.h"
#define SPEC_next(s,k) spec::tab.next[s][k]
#define SPEC_fallback(s) spec::tab.fallback[s]
#define SPEC_action(s) spec::tab.action[s]
#define SPEC_elemtype(s) spec::tab.elemtype[s]
#undef next
#undef fallback
#undef action
#undef elemtype
#undef miss
#undef cls
using namespace textwolf;
#if KIND == 0
#define L07 "C07"
#define L08 "C08"
#define L10 "C10,C07"
#define L12 "C12"
#define L1012 "C10"
#define LSUS "C09"
#elif KIND == 1
#define L07 "C09"
#define L08 "C09"
#define L10 "C09"
#define L12 "C09"
#define L1012 "C09"
#define LSUS "C09"
#else
#define L07 "C11"
#define L08 "C11"
#define L10 "C11"
#define L12 "C11"
#define L1012 "C11"
#define LSUS "C11"
#endif
// parameters of the verification unit
#define ST v_param(0)	// state at the head of the loop over the states
#define BASE v_param(1)	// base of a numeric reference being read
#define SEG v_param(2)	// path segments considered: 0 all, 255 from the call, k+1 from the head of loop k
static bool g_started = false;
static void on_access( uint8_t need);
static void on_consume();
// current character: code if it is ASCII (what its class is determined by), anything above 127 otherwise; code point; number of bytes
// (the code point of a character whose bytes are not ASCII may be anything: overlong UTF-8 decodes to values below 128)
static uint32_t g_c; static uint32_t g_v; static uint32_t g_len;
static uint8_t g_ready;	// bytes fetched: 0 not enough to know its class, 1 enough for that, 2 all
static uint64_t g_pos;	// its position
static bool g_live = false;
uint32_t in_watch;		// index of the appended output character compared
static bool g_eq;		// character sets are equal (code pages)
// output buffer: the text at the start of the path segment (arbitrary, identified by base; 0: empty) and n characters appended since,
// the one with index in_watch (arbitrary) of them is w
struct GOutput { uint32_t base; uint32_t n; uint32_t w; };
struct GIter { uint64_t id; GIter() :id(0){} explicit GIter( uint64_t i) :id(i){} char operator*() const {return 0;} GIter& operator++() {return *this;} };
struct GBuf
{
	typedef char value_type;
	GOutput o; char x;
	GBuf() :x(0) {o.base=0; o.n=0; o.w=0;}
	void clear() {o.base = 0; o.n = 0;}
	std::size_t size() const {return o.n;}
	const char& at( std::size_t i) const {v_assert( i < o.n, "C08 item access in range"); return x;}
	void put( uint32_t c) {if (o.n == in_watch) o.w = c; ++o.n;}
	void push_back( char) {v_assert( false, "C08 text is printed through the output encoding");}
};
struct GCS
{
	static bool is_equal( const GCS&, const GCS&) {return g_eq;}
	template <class B> void print( UChar c, B& b) const {b.put( c);}
};
struct GOut { template <class B> void print( UChar c, B& b) const {b.put( c);} static bool is_equal( const GOut&, const GOut&) {return true;} };
namespace textwolf {
// contract of the text scanner
template <> class TextScanner<GIter,GCS>
{
public:
	GIter input; uint8_t id;
	TextScanner( const GCS&) :id(0) {g_ready=0;}
	TextScanner( const GCS&, const GIter& i) :input(i),id(0) {g_ready=0;}
	TextScanner( const GIter& i) :input(i),id(0) {g_ready=0;}
	TextScanner( const TextScanner& o) :input(o.input),id(o.id) {}
	template <class A> void setSource( const A& a) {input = a;}
	std::size_t getPosition() const {return g_pos;}
	UChar chr() {on_access( 2); return g_v;}
	const GIter& getIterator() const {return input;}
	GIter& getIterator() {return input;}
	template <class B> void copychar( GCS&, B& b) {on_access( 2); b.put( g_v);}
	ControlCharacter control() {on_access( 1); return (ControlCharacter)spec::tcls( g_c);}
	unsigned char ascii() {on_access( 1); return g_c <= 127 ? (unsigned char)g_c : 0;}
	TextScanner& skip() {on_access( 2); on_consume(); return *this;}
	UChar operator*() {return chr();}
	TextScanner& operator++() {return skip();}
};
}
#define private public
#define protected public
#include "textwolf/xmlscanner.hpp"
#undef private
#undef protected
#if SAMECS
typedef XMLScanner<GIter,GCS,GCS,GBuf> Scanner;
#else
typedef XMLScanner<GIter,GCS,GOut,GBuf> Scanner;
#endif
typedef Scanner::EntityMap EntityMap;

char in_ename[20]; uint32_t in_evalue; uint32_t in_hasmap; uint32_t in_mask;
static uint32_t g_enlen; static uint64_t g_enw[2];
struct Env
{
	GOutput o; uint64_t tpos; uint32_t v;
	void character( uint32_t) {append( v);}
	void clear() {o.base = 0; o.n = 0;}
	void append( uint32_t c) {if (o.n == in_watch) o.w = c; ++o.n;}
	void append( const uint64_t* w, unsigned int n) {uint32_t k = in_watch - o.n; if (k < n) o.w = spec::charat( w, k); o.n += n;}
	void tokenpos() {tpos = g_pos;}
	bool lookup( const spec::State& q, uint32_t& c) const {if (!in_hasmap || g_enlen != q.n || g_enw[0] != q.w[0] || g_enw[1] != q.w[1]) return false; c = in_evalue; return true;}
};
static Scanner* g_sc = 0;
static spec::State g_q; static Env g_env;	// state of the specification at the start of the path segment
enum {NCH=3};
static uint32_t g_ch[NCH]; static uint32_t g_chv[NCH]; static uint32_t g_chlen[NCH]; static uint32_t g_nch;	// characters consumed since
static uint64_t g_pos0;		// position at the start of the segment
static bool g_eot;		// end of text consumed
static uint64_t g_prog;		// number of characters consumed
static uint32_t g_kind, g_loop;	// how the path segment ended
enum {kReturn,kSuspended,kLoopEntry,kLoopBack};

// abstraction of the scanner state; false if the state is not a resumable one
static bool alpha( const Scanner& sc, spec::State& a)
{
	typedef Scanner::TokState T;
	const T& t = sc.tokstate;
	unsigned int st = (unsigned int)sc.state;
	if (st >= spec::NSTATES) return false;
	spec::setstate( a, st);
	unsigned int act = SPEC_action( st);
	bool tk = act == spec::aTag || act == spec::aContent || act == spec::aSQ || act == spec::aDQ;
	bool key = act == spec::aKeyXML || act == spec::aKeyCDATA;
	if (t.curchr_saved != 0) return false;
	bool zero = t.pos == 0 && t.value == 0;
	switch (t.id)
	{
		case T::Start: return zero && t.eolnState == T::SRC;
		case T::ParsingDone: a.tok = spec::tDone; return zero && t.eolnState == T::SRC && (tk || key);
		case T::ParsingKey: a.tok = spec::tKey; a.n = (uint8_t)t.pos; return key && t.value == 0 && t.eolnState == T::SRC && t.pos <= spec::keylen( st);
		case T::ParsingEntity: a.tok = spec::tAmp; return tk && zero;
		case T::ParsingNumericEntity: a.tok = spec::tNum; return tk && zero;
		case T::ParsingNumericBaseEntity:
		{
			a.tok = spec::tDigits; a.n = (uint8_t)t.pos; a.base = (uint8_t)t.base; a.value = t.value;
			if (!tk || t.pos > spec::MaxRef || (t.base != 10 && t.base != 16)) return false;
			bool ok = true;
			for (unsigned int i=0; i<spec::MaxRef; ++i) if (i < t.pos) {a.w[i>>3] |= (uint64_t)(uint8_t)t.buf[i] << (8*(i&7)); if ((signed char)t.buf[i] <= 0) ok = false;}
			return ok;
		}
		case T::ParsingNamedEntity:
		{
			a.tok = spec::tName; a.n = (uint8_t)t.pos;
			if (!tk || t.pos > spec::MaxName || t.value != 0) return false;
			bool ok = true;
			for (unsigned int i=0; i<spec::MaxRef; ++i) if (i < t.pos) {a.w[i>>3] |= (uint64_t)(uint8_t)t.buf[i] << (8*(i&7)); if ((signed char)t.buf[i] <= 0) ok = false;}
			return ok;
		}
		case T::ParsingToken: a.tok = spec::tText; a.cr = t.eolnState == T::CR; return tk && zero;
		default: return false;
	}
}
static bool sameout( const GOutput& a, const GOutput& b) { return a.base == b.base && a.n == b.n && (a.n <= in_watch || a.w == b.w); }
static void newchar()
{
	g_c = v_nd32(); g_v = v_nd32(); g_len = v_nd8(); g_ready = 0;
	v_assume( g_len >= 1 && (g_c > 127 || g_v == g_c));
}
static void on_access( uint8_t need)
{
	if (!g_live) return;
	v_assert( !g_eot, L10 " never reads beyond the end of text");
	if (g_ready >= need) return;
	if (g_started && v_ndb()) { g_kind = kSuspended; v_unwind(); }
	else g_ready = g_c <= 127 ? 2 : need;
}
static void on_consume()
{
	if (!g_live) return;
	if (!g_started) {++g_prog; newchar(); return;}
	v_assert( g_nch < NCH, "MODEL characters consumed between two loop heads");
	if (g_nch < NCH) { g_ch[ g_nch] = g_c; g_chv[ g_nch] = g_v; g_chlen[ g_nch] = g_len; ++g_nch; }
	if (g_c == 0) g_eot = true;
	++g_prog; g_pos += g_len;
	newchar();
}
// ------------------------------------------------------------------ loops
static uint64_t g_mark[64]; static uint8_t g_markid[64]; static uint32_t g_outer = 63;
static uint32_t g_st;	// state of the document at the head of the loop over the states

static uint32_t rank( uint32_t x, uint32_t id)
{
	// steps the specification may still do without consuming a character
	static const unsigned char tokrank[8] = {6/*Start*/,2/*ParsingDone*/,5,5,5,5,5,4/*ParsingToken*/};
	unsigned int st = 0, act = SPEC_action( x);
	for (int i=0; i<3; ++i) if (SPEC_fallback( x) != spec::NSTATES && SPEC_action( x) == spec::aNone) { ++st; x = SPEC_fallback( x); }
	return st * 8 + (act == spec::aNone ? 7 : tokrank[ id & 7]);
}
extern "C" void h_inv_check( uint32_t k)
{
	unsigned int c = (k>>1) & 63, id = (unsigned int)g_sc->tokstate.id;
	// partition of the path segments by the state they start in (v_param) and the token state of the loop
	if (k & 1) v_assert( id == (c == g_outer ? (unsigned int)Scanner::TokState::Start : g_markid[ c]), "MODEL token state changes in a loop");
	else if (g_outer == 63) g_outer = c;
	if (c != g_outer) v_assert( (unsigned int)g_sc->state == g_st, "MODEL state changes in an inner loop");
	if (k & 1) { g_kind = kLoopBack; g_loop = c; return; }
	g_markid[ c] = (uint8_t)id;
	if (SEG == 0) { if (v_ndb()) { g_kind = kLoopEntry; v_unwind(); } }
	else if (g_started) { g_kind = kLoopEntry; v_unwind(); }
	else if (SEG == c + 1) { g_started = true; if (BASE == 16) v_assume( c != g_outer && id == Scanner::TokState::ParsingNumericBaseEntity); }
	v_assert( SEG == 0 || SEG > 200 || c < 12, "MODEL number of loops");
}
static bool istok( unsigned int st) { unsigned int a = SPEC_action( st); return a >= spec::aTag && a <= spec::aDQ;}
static void arbitrary();
extern "C" void h_havoc( uint32_t k)
{
	uint64_t pr = g_prog; uint32_t base = g_sc->tokstate.base;
	if (k != g_outer) v_assume( g_markid[ k & 63] != Scanner::TokState::ParsingNumericBaseEntity || (BASE ? base == BASE : (base == 10 || base == 16)));
	arbitrary();
	if (k != g_outer) v_assume( (unsigned int)g_sc->state == g_st); else g_st = (uint32_t)g_sc->state;
	if (k != g_outer) g_sc->tokstate.id = (Scanner::TokState::Id)g_markid[ k & 63];
	g_prog = v_nd64(); v_assume( g_prog >= pr && g_prog < ((uint64_t)1<<62));
}
static void start()
{
	bool ok = alpha( *g_sc, g_q); v_assume( ok);
	v_assume( (g_sc->state == XMLScannerBase::EXIT) == g_eot);
	g_env.o = g_sc->m_outputBuf.o; g_env.tpos = g_sc->m_tokenpos; g_nch = 0; g_pos0 = g_pos;
}
// values a local variable of a loop may be invariantly equal to
extern "C" uint64_t h_snap( int k) { return k == 0 ? (g_c <= 127 ? g_c : 0) : k == 1 ? spec::tcls( g_c) : g_ready >= 1; }
extern "C" void h_inv_assume( uint32_t k)
{
	start();
	g_mark[ k & 63] = g_prog;
}
// an arbitrary scanner at an arbitrary place of the source
static void arbitrary()
{
	Scanner& sc = *g_sc;
	newchar(); g_pos = v_nd64(); v_assume( g_pos < ((uint64_t)1<<60));
	{unsigned int st = v_nd8();
	 v_assume( st < spec::NSTATES && (ST == 201 || (ST == 200 ? istok(st) : st == ST))); if (ST < 200) st = ST; sc.state = (XMLScannerBase::STMState)st;
#if KIND != 0
	 bool masked = istok( st) && !((in_mask >> SPEC_elemtype( st)) & 1);
	 v_assume( masked == (KIND == 2));
#endif
	} sc.error = (XMLScannerBase::Error)v_nd8();
#if KIND == 1
	sc.tokstate.id = (Scanner::TokState::Id)v_nd8(); v_assume( sc.tokstate.id != Scanner::TokState::Start);
#else
	sc.tokstate.id = Scanner::TokState::Start;
#endif
	 sc.tokstate.eolnState = v_ndb() ? Scanner::TokState::CR : Scanner::TokState::SRC;
	sc.tokstate.pos = v_nd32(); sc.tokstate.base = BASE ? BASE : v_ndb() ? 16 : 10; sc.tokstate.value = v_nd64(); sc.tokstate.curchr_saved = 0;
	for (int i=0; i<16; ++i) sc.tokstate.buf[i] = (char)v_nd8();
	g_ready = v_nd8(); if (g_ready == 1 && g_c <= 127) g_ready = 2;
	sc.m_outputBuf.o.base = v_nd32(); sc.m_outputBuf.o.n = 0; sc.m_outputBuf.o.w = 0;
	sc.m_tokenpos = v_nd64(); v_assume( sc.m_tokenpos <= g_pos);
	g_eot = v_ndb();
}
static void inputs()
{
	in_watch = v_nd8() & 31; g_eq = v_ndb(); in_hasmap = v_ndb(); in_evalue = v_nd32();
	for (int i=0; i<19; ++i) in_ename[i] = (char)v_nd8();
	in_ename[19] = 0;
	g_enlen = 0; g_enw[0] = g_enw[1] = 0;
	for (unsigned int i=0; i<19; ++i) if (g_enlen == i && in_ename[i]) { if (i < 8) g_enw[0] |= (uint64_t)(unsigned char)in_ename[i] << (8*i); else if (i < 16) g_enw[1] |= (uint64_t)(unsigned char)in_ename[i] << (8*(i-8)); ++g_enlen; }
#if KIND == 0
	in_mask = 0xFFFF;
#else
	in_mask = v_nd16();
#endif
}
extern "C" void h_warm() { spec::tabulate(); g_len = 1; g_c = 0; g_v = 0; GIter i; Scanner sc( i); sc.nextItem(); sc.getState(); Scanner::HEX( 'a'); XMLScannerBase::getErrorString( XMLScannerBase::Ok); XMLScannerBase::getElementTypeName( XMLScannerBase::None); }

uint32_t in_st; uint32_t in_tok; uint32_t in_chr[NCH+1];
extern "C" void h_next()
{
	inputs();
	EntityMap em; em[ in_ename] = in_evalue;
	GIter i0;
	Scanner sc( i0); g_sc = &sc;
	arbitrary();
	sc.m_entityMap = in_hasmap ? &em : 0;
	g_prog = 0; g_kind = kReturn; start();
	g_live = true; g_started = SEG == 0 || SEG == 255;
	unsigned int rt = (unsigned int)sc.nextItem( (unsigned short)in_mask);
	g_live = false;
	bool dead = v_unwound();
	if (!g_started) return;
	if (!dead) g_kind = kReturn;
	in_st = g_q.st; in_tok = g_q.tok;
	for (unsigned int i=0; i<NCH; ++i) in_chr[i] = i < g_nch ? g_ch[i] : i == g_nch ? g_c : 0;
	// replay: the characters consumed are those the specification consumes
	spec::State q = g_q; Env eq = g_env; unsigned int ev = 0, res = 0, cur = g_c; uint64_t pos = g_pos;
	g_pos = g_pos0;
	for (unsigned int i=0; i<NCH; ++i)
	{
		if (i >= g_nch) continue;
		v_assert( !ev, L07 " consumes nothing after the element was recognised"); v_assume( !ev);
		eq.v = g_chv[i];
		unsigned int r = spec::run( q, g_ch[i], in_mask, eq, res);
		bool ok = r == spec::ocConsumed || r == spec::ocConsumedEvent;
		if (g_ch[i] == 0) v_assert( ok, L10 " the end of text is consumed only where the document may end");
		else v_assert( ok, L07 " consumes only characters which continue the grammar");
		v_assume( ok);
		if (r == spec::ocConsumedEvent) ev = res;
		g_pos += g_chlen[i];
	}
	spec::State a; Env ea; ea.o = sc.m_outputBuf.o; ea.tpos = sc.m_tokenpos;
	bool ok = alpha( sc, a) && (sc.state == XMLScannerBase::EXIT) == g_eot;
	unsigned int rq = 0, r2 = 0;
	v_assert( ea.o.n < 32, "MODEL number of characters printed between two loop heads");
	eq.v = ea.v = g_v;
	if (!ev) rq = spec::run( q, cur, in_mask, eq, r2);
	if (g_kind != kReturn)
	{
		// the scanner state is equivalent to the state of the specification, whatever the next character is
		bool sus = g_kind == kSuspended;
		if (sus) v_cover( "?suspended"); else v_cover( "?loop");
		ok = ok && !ev;
		if (sus) v_assert( ok, LSUS " resumable state at a suspension"); else v_assert( ok, L07 " consistent state");
		v_assume( ok);
		unsigned int ra, r1;
		spec::State sa = a;
		ra = spec::run( a, cur, in_mask, ea, r1);
		bool same = ra == rq && r1 == r2 && (ra == spec::ocError || spec::same( a, q));
		if (sus) v_assert( same, LSUS " continues after a suspension as without");
		else if (cur == 0) v_assert( same, L10 " the end of text is treated as the grammar says");
		else v_assert( same, L07 " state agrees with the grammar");
		v_assume( same);
		bool oe = ra == spec::ocError || sameout( ea.o, eq.o);
		if (sus) v_assert( oe, LSUS " output is kept over a suspension"); else v_assert( oe, L08 " output agrees with the references resolved");
		v_assume( oe);
		bool pe = ra == spec::ocError || ea.tpos == eq.tpos;
		if (sus) v_assert( pe, LSUS " token position is kept over a suspension"); else v_assert( pe, L12 " token position");
		v_assert( sc.m_tokenpos <= g_pos, L12 " token position does not exceed the scanner position");
		if (g_kind == kLoopBack) v_assert( g_prog > g_mark[ g_loop] || rank( sa.st, (uint32_t)sc.tokstate.id) < rank( g_st, g_markid[ g_loop]), L1012 " every iteration makes progress");
		return;
	}
	v_cover( "?returned");
	if (ev) res = ev;
	else
	{
		unsigned int r = rq; res = r2;
		bool rk = r == spec::ocEvent || r == spec::ocError;
		if (cur == 0) v_assert( rk, L10 " no element without reason at the end of text"); else v_assert( rk, L07 " no element returned without reason");
		v_assume( rk);
		if (r == spec::ocError)
		{
			v_cover( "?error");
			if (cur == 0) v_assert( rt == spec::eError, L10 " an unterminated construct is an error"); else v_assert( rt == spec::eError, L07 " a character outside of the grammar is an error");
			v_assume( rt == spec::eError);
			v_assert( (unsigned int)sc.error == res, L07 " error names the missing construct");
			return;
		}
	}
	v_assert( rt != spec::eExit || res == spec::eExit, L10 " exit is only returned at the end of a complete document");
	v_assert( rt == res, L07 " element type agrees with the grammar");
	v_assume( rt == res);
	v_assert( rt != spec::eExit || (ok && spec::same( a, q)), L10 " after the end of the document the scanner stays at its end");
	v_assert( ok && spec::same( a, q), L07 " state after an element agrees with the grammar");
	v_assume( ok && spec::same( a, q));
	v_assert( sc.tokstate.id == Scanner::TokState::Start, L07 " token state reset after an element");
	v_assert( sameout( ea.o, eq.o), L08 " text of the element");
	v_assert( ea.tpos == eq.tpos, L12 " token position of the element");
	v_assert( sc.m_tokenpos <= g_pos, L12 " token position does not exceed the scanner position");
	v_assert( sc.getTokenPosition() == ea.tpos && sc.getPosition() == g_pos, L12 " positions");
	v_assert( sc.getItemSize() == eq.o.n, L08 " size of the element");
	v_assert( &sc.getItem() == &sc.m_outputBuf, L08 " item");
}
extern "C" void h_copy()
{
	inputs();
	EntityMap em;
	GIter i0;
	Scanner sc( i0); g_sc = &sc;
	arbitrary(); start();
	sc.m_entityMap = in_hasmap ? &em : 0;
	sc.m_src.id = v_nd8(); sc.m_src.input.id = v_nd64();
	Scanner cp( sc);
	g_sc = &cp;
	spec::State a; Env ea; ea.o = cp.m_outputBuf.o; ea.tpos = cp.m_tokenpos; bool ok = alpha( cp, a) && cp.m_src.id == sc.m_src.id && cp.m_src.input.id == sc.m_src.input.id;
	v_cover( "copied");
	v_assert( ok && spec::same( a, g_q), "C09 the copy of a suspended scanner resumes at the same place");
	v_assert( sameout( ea.o, g_env.o), "C09 the copy of a suspended scanner keeps the text read");
	v_assert( ea.tpos == g_env.tpos && cp.m_entityMap == sc.m_entityMap && cp.error == sc.error, "C09 the copy of a suspended scanner keeps position, entities and error");
	if (in_hasmap) { uint32_t s = (uint32_t)sc.state; sc.setSource( GIter( 77)); v_assert( (uint32_t)sc.state == s && sc.m_src.input.id == 77, "C09 attaching a source keeps the state"); spec::State b; v_assert( alpha( sc, b) && spec::same( b, g_q), "C09 attaching a source keeps the state"); }
}
static void initial( Scanner& sc, const EntityMap* em)
{
	g_sc = &sc; spec::State a;
	v_assert( alpha( sc, a) && a.st == spec::START && a.tok == spec::tStart, "C07 initial state");
	v_assert( sc.error == XMLScannerBase::Ok && sc.m_entityMap == em && sc.m_outputBuf.o.n == 0 && sc.m_tokenpos == 0, "C07,C08,C12 initial state");
}
extern "C" void h_ctor()
{
	inputs(); EntityMap em; GIter it( 7);
	{ Scanner s( it); initial( s, 0); v_assert( s.m_src.input.id == 7, "C07 initial state"); }
	{ Scanner s( it, em); initial( s, &em); v_assert( s.m_src.input.id == 7, "C07 initial state"); }
	{ GCS cs; Scanner s( cs, it, em); initial( s, &em); v_assert( s.m_src.input.id == 7, "C07 initial state"); }
	{ GCS cs; Scanner s( cs, it); initial( s, 0); v_assert( s.m_src.input.id == 7, "C07 initial state"); }
	{ GCS cs; Scanner s( cs); initial( s, 0); s.setSource( it); v_assert( s.m_src.input.id == 7, "C07 initial state"); }
	{ Scanner s; initial( s, 0); }
	v_cover( "constructed");
}
