// Native oracle C20: random path expressions, valid ones and ones broken at random, in different encodings, against a reference reading of the grammar.
// Valid: the automaton has the same states as the one made by the builder calls the expression denotes. Invalid: refused with the position of the first
// character that fits no expression, and no event is defined.
#include "oracle.h"
#include <cstddef>
#include <list>
#include <stdexcept>
#include "textwolf/charset.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
using namespace orc; using namespace textwolf;
typedef std::vector<uint32_t> Text;
enum Kind {Tag, Att, Cond, Cont, Close, Desc, From, Range, Index};
struct OpR { Kind kind; std::vector<Text> names/*empty: any*/; Text value; int a, b; OpR( Kind k) :kind(k),a(0),b(0) {} };

// --- encodings
enum Enc {U8, U16BE, U16LE, U32BE, U32LE};
static void enc1( Enc e, uint32_t c, std::string& o)
{
	if (e == U8)
	{
		if (c < 0x80) o += (char)c;
		else if (c < 0x800) {o += (char)(0xC0|(c>>6)); o += (char)(0x80|(c&63));}
		else if (c < 0x10000) {o += (char)(0xE0|(c>>12)); o += (char)(0x80|((c>>6)&63)); o += (char)(0x80|(c&63));}
		else {o += (char)(0xF0|(c>>18)); o += (char)(0x80|((c>>12)&63)); o += (char)(0x80|((c>>6)&63)); o += (char)(0x80|(c&63));}
		return;
	}
	if (e == U16BE || e == U16LE)
	{
		if (c >= 0x10000) {c -= 0x10000; enc1( e, 0xD800|(c>>10), o); enc1( e, 0xDC00|(c&0x3FF), o); return;}
		char b[2] = {(char)(c>>8),(char)c}; o += b[ e==U16LE]; o += b[ e==U16BE]; return;
	}
	for (int i=0; i<4; ++i) o += (char)(c >> (e == U32BE ? 24-8*i : 8*i));
}
static std::string encode( Enc e, const Text& t, bool term) {std::string r; for (std::size_t i=0; i<t.size(); ++i) enc1( e, t[i], r); if (term) r.append( 4, '\0'); return r;}

// --- reference
struct Ref
{
	const Text& t; std::size_t p; bool bad; std::vector<OpR> ops;
	uint32_t c() const {return p < t.size() ? t[p] : 0;}
	void sp() {while (c() == ' ' || c() == '\t' || c() == '\r') ++p;}
	static bool idc( uint32_t c) {return c > 127 || (c > 32 && !strchr( "!\"&'<=>?/[]*~(){}@,;", (int)c)) || c == 5;}
	static bool dig( uint32_t c) {return c >= '0' && c <= '9';}
	Text name() {Text r; while (idc( c())) r.push_back( t[p++]); if (r.empty()) bad = true; return r;}
	int num() {std::string s; while (dig( c())) s += (char)t[p++]; if (s.empty() || s.size() > 8) bad = true; return bad ? 0 : atoi( s.c_str());}
	bool eat( uint32_t x) {if (c() == x) {++p; return true;} return false;}
	void need( uint32_t x) {if (!bad && !eat( x)) bad = true;}
	// a tag or attribute name: '*', '{' list '}' or a name
	void named( Kind k)
	{
		OpR o( k);
		if (eat( '*')) {}
		else if (eat( '{')) {do {sp(); o.names.push_back( name()); if (bad) return; sp();} while (eat( ',')); need( '}');}
		else o.names.push_back( name());
		if (!bad) ops.push_back( o);
	}
	void bracket()
	{
		sp();
		if (eat( '@'))
		{
			OpR o( Cond); sp(); o.names.push_back( name()); if (bad) return; sp(); need( '='); if (bad) return; sp(); uint32_t q = c();
			if (q == '"' || q == '\'') {++p; while (c() && c() != q) o.value.push_back( t[p++]); eat( q);} else o.value = name();
			if (bad) return;
			sp(); need( ']'); if (!bad) ops.push_back( o);
			return;
		}
		OpR o( Index); o.a = num(); if (bad) return; sp();
		if (eat( ',')) {sp(); o.kind = From; if (c() != ']') {o.kind = Range; o.b = num(); if (bad) return; sp();}}
		need( ']'); if (!bad) ops.push_back( o);
	}
	explicit Ref( const Text& t_) :t(t_),p(0),bad(false)
	{
		uint32_t q = 0; for (std::size_t i=0; i<t.size() && t[i]; ++i) {if (q) {if (t[i] == q) q = 0;} else if (t[i] == '"' || t[i] == '\'') q = t[i]; else if (t[i] == ':' && i+1 < t.size() && t[i+1] == ':') {bad = true; p = i; return;}}
		bool nameok = true, selok = true, stepok = true, endok = true;
		while (c() && !bad)
		{
			if (selok && eat( '@')) {sp(); named( Att); nameok = selok = stepok = false; endok = true;}
			else if (selok && eat( '[')) {bracket(); nameok = false; stepok = selok = endok = true;}
			else if (selok && eat( '(')) {sp(); need( ')'); if (!bad) ops.push_back( OpR( Cont)); nameok = selok = stepok = false; endok = true;}
			else if (stepok && eat( '~')) {ops.push_back( OpR( Close)); nameok = selok = stepok = false; endok = true;}
			else if (stepok && eat( '/')) {if (eat( '/')) ops.push_back( OpR( Desc)); nameok = selok = true; stepok = endok = false;}
			else if (nameok) {named( Tag); nameok = false; selok = stepok = endok = true;}
			else bad = true;
			if (!bad) sp();
		}
		if (!bad && !endok) bad = true;
	}
};
// --- the builder calls
template <class A> static void build( A& atm, const std::vector<OpR>& ops, int type, Enc e)
{
	typedef typename A::PathElement PE; std::list<std::string> mem; std::vector<PE> l; l.push_back( PE( &atm));
	for (std::size_t k=0; k<ops.size(); ++k)
	{
		const OpR& o = ops[k]; std::vector<const char*> nm;
		if (o.kind == Tag || o.kind == Att)
		{
			for (std::size_t i=0; i<o.names.size(); ++i) {mem.push_back( encode( e, o.names[i], true)); nm.push_back( mem.back().c_str());}
			if (nm.empty()) nm.push_back( 0);
			std::vector<PE> r; for (std::size_t i=0; i<nm.size(); ++i) for (std::size_t j=0; j<l.size(); ++j) {PE x( l[j]); if (o.kind == Tag) x.selectTag( nm[i]); else x.selectAttribute( nm[i]); r.push_back( x);}
			l = r; continue;
		}
		const char* n = 0; const char* v = 0; if (o.kind == Cond) {mem.push_back( encode( e, o.names[0], true)); n = mem.back().c_str(); mem.push_back( encode( e, o.value, true)); v = mem.back().c_str();}
		for (std::size_t j=0; j<l.size(); ++j) switch (o.kind)
		{
			case Cond: l[j].ifAttribute( n, v); break; case Cont: l[j].selectContent(); break; case Close: l[j].selectCloseTag(); break; case Desc: l[j].forAllDescendants(); break;
			case From: l[j].FROM( o.a); break; case Range: l[j].RANGE( o.a, o.b); break; default: l[j].INDEX( o.a); break;
		}
	}
	for (std::size_t j=0; j<l.size(); ++j) l[j].assignType( type);
}
template <class A> static std::string show( const A& a)
{
	std::ostringstream o;
	for (std::size_t i=0; i<a.states.size(); ++i)
	{
		const typename A::State& s = a.states[i];
		o << i << ": pos=" << s.core.mask.pos << " neg=" << s.core.mask.neg << " follow=" << s.core.follow << " type=" << s.core.typeidx << " range=" << s.core.cnt_start << "," << s.core.cnt_end << " next=" << s.next << " link=" << s.link << " key=" << (s.key ? hex( std::string( s.key, s.keysize)) : std::string("-")) << "\n";
	}
	return o.str();
}
static std::string firstdiff( const std::string& a, const std::string& b) {std::istringstream x( a), y( b); std::string l, m; for (;;) {bool p = !std::getline( x, l).fail(), q = !std::getline( y, m).fail(); if (!p && !q) return "none"; if (!p) l = "none"; if (!q) m = "none"; if (l != m) return "state " + l + " expected " + m;}}

// --- random expressions
static void put( Text& t, const char* s) {for (;*s;++s) t.push_back( (uint8_t)*s);}
static void blanks( Text& t) {if (rndn( 6) == 0) for (unsigned int i=rndn(3); i; --i) t.push_back( rndn(4) == 0 ? '\t' : rndn(6) == 0 ? '\r' : ' ');}
static void rname( Text& t)
{
	static const uint32_t ch[] = {'a','b','c','-','.','_',':','0','9','#','$','%','+','\\','^','`','|',0x7F,0x80,0xE9,0x100,0x12F,0x140,0x3A3A,0x7FF,0x800,0x2A2A,0xFFFD,0x10000,0x1F600,0x10FFFF,5};
	unsigned int n = 1+rndn( rndn( 40) == 0 ? 1200 : 3); uint32_t last = 0; for (unsigned int i=0; i<n; ++i) {uint32_t c = rndn( 3) == 0 ? ch[ rndn( sizeof(ch)/sizeof(*ch))] : 'a' + rndn( 3); if (c == ':' && last == ':') c = 'x'; t.push_back( last = c);}
}
static void rnum( Text& t) {unsigned int n = rndn( 8) == 0 ? 6+rndn( 5) : 1+rndn( 2); for (unsigned int i=0; i<n; ++i) t.push_back( '0'+rndn(10));}
static void rnamed( Text& t)
{
	switch (rndn( 6)) {case 0: put( t, "*"); break; case 1: put( t, "{"); for (unsigned int n=1+rndn( 3); n; --n) {blanks( t); rname( t); blanks( t); if (n > 1) put( t, ",");} put( t, "}"); break; default: rname( t); break;}
}
static Text gen()
{
	Text t; unsigned int n = rndn( 5); bool end = false, sl = false;
	for (unsigned int i=0; i<n && !end; ++i)
	{
		if (i || rndn( 2)) {if (!sl) put( t, rndn( 3) == 0 ? "//" : "/"); sl = false; blanks( t);}
		if (rndn( 12) == 0) {put( t, "@"); blanks( t); rnamed( t); blanks( t); end = true; break;}
		rnamed( t); blanks( t);
		while (rndn( 3) == 0)
		{
			put( t, "["); blanks( t);
			if (rndn( 2)) {put( t, "@"); blanks( t); rname( t); blanks( t); put( t, "="); blanks( t);
				if (rndn( 4) == 0) rname( t); else {uint32_t q = rndn( 2) ? '"' : '\''; t.push_back( q); unsigned int m = rndn( 6); static const char vc[] = "a b:@/[]*()~;,=>!?-&<\n\t'\"{}#x1"; for (unsigned int k=0; k<m; ++k) {uint32_t c = rndn( 4) ? 'a'+rndn(3) : rndn( 3) ? (uint8_t)vc[ rndn( sizeof(vc)-1)] : 0x100*(1+rndn(0x30)); if (c != q) t.push_back( c);} t.push_back( q);}}
			else {rnum( t); blanks( t); if (rndn( 2)) {put( t, ","); blanks( t); if (rndn( 2)) {rnum( t); blanks( t);}}}
			put( t, "]"); blanks( t);
		}
	}
	if (!end) switch (rndn( 8)) {case 0: put( t, "("); blanks( t); put( t, ")"); blanks( t); break; case 1: put( t, "~"); blanks( t); break; case 2: put( t, rndn( 2) ? "@" : rndn( 2) ? "/@" : "//@"); blanks( t); rnamed( t); blanks( t); break; default: break;}
	return t;
}
static void mutate( Text& t)
{
	static const uint32_t ch[] = {'@','/','[',']','(',')','{','}','*','~','=',',',';',':','"','\'',' ','\t','\n','a','1','-','!','?','<','>','&',1,27,0,0x100,0x10000};
	for (unsigned int n=1+rndn( 2); n; --n)
	{
		std::size_t i = rndn( (unsigned int)t.size()+1);
		switch (rndn( 4)) {case 0: if (i < t.size()) t.erase( t.begin()+i); break; case 1: if (i < t.size()) t[i] = ch[ rndn( sizeof(ch)/sizeof(*ch))]; break; case 2: t.resize( i); break; default: t.insert( t.begin()+i, ch[ rndn( sizeof(ch)/sizeof(*ch))]); break;}
	}
}
template <class S, class A> static bool add( XMLPathSelectAutomatonParser<S,A>& p, int type, const std::string& s, int& r)
{
	char* m = (char*)malloc( s.size()); memcpy( m, s.data(), s.size()); bool ok = true;	// not terminated, of exact size
	try {r = p.addExpression( type, m, s.size());} catch (const std::exception&) {ok = false;}
	if (s.size()) memset( m, 'z', s.size()); free( m); return ok;
}
template <class S, class A> static void run( Enc se, Enc ae, const char* what)
{
	XMLPathSelectAutomatonParser<S,A> p; XMLPathSelectAutomaton<A> b; std::string hist;
	for (unsigned int n=1+rndn( 4); n; --n)
	{
		Text t = gen(); if (rndn( 3) == 0) mutate( t); Ref ref( t); std::string src = encode( se, t, false); int type = 1 + (int)rndn( 1000); ++cases;
		std::size_t at = encode( se, Text( t.begin(), t.begin()+ref.p), false).size();
		hist += (hist.empty() ? "" : ", ") + quote( encode( U8, t, false));
		if (ref.bad)
		{
			XMLPathSelectAutomatonParser<S,A> x; int r = -1; bool thrown = !add( x, type, src, r);
			// a name refused by the builder may be reported before the error in the text is
			if (thrown) {bool bt = false; try {XMLPathSelectAutomaton<A> y; build( y, ref.ops, type, ae);} catch (const std::exception&) {bt = true;} if (!bt) fail( std::string( what) + " expression " + quote( encode( U8, t, false)) + ": exception"); hist = hist.substr( 0, hist.rfind( ", ")); continue;}
			if (r != (int)at+1) fail( std::string( what) + " expression " + quote( encode( U8, t, false)) + (r == 0 ? ": accepted" : ": error at " + str( r)) + ", the error is at " + str( at+1));
			for (std::size_t i=0; i<x.states.size(); ++i) if (x.states[i].core.typeidx) fail( std::string( what) + " expression " + quote( encode( U8, t, false)) + ": refused, but an event is defined");
			std::size_t c = hist.rfind( ", "); hist = c == std::string::npos ? "" : hist.substr( 0, c); continue;
		}
		bool bt = false; try {build( b, ref.ops, type, ae);} catch (const std::exception&) {bt = true;}
		int r = -1; bool thrown = !add( p, type, src, r);
		if (thrown != bt) fail( std::string( what) + " expressions " + hist + ": exception " + (thrown ? "thrown" : "missing"));
		if (thrown) return;	// both automata are incomplete
		if (r != 0) fail( std::string( what) + " expressions " + hist + ": refused at " + str( r));
		std::string got = show( p), exp = show( b); if (got != exp) fail( std::string( what) + " expressions " + hist + ": " + firstdiff( got, exp));
		++nontrivial;
		if (rndn( 50) == 0) {std::string d = p.tostring(); std::size_t l = 0; for (std::size_t i=0; i<d.size(); ++i) if (d[i] == '\n') ++l; if (l < p.states.size()) fail( std::string( what) + " expressions " + hist + ": states missing in the listing");}
	}
}
int main( int argc, const char** argv)
{
	init( argc, argv);
	// hints: an expression given in hexadecimal UTF-8
	while (!timeup())
	{
		for (int i=0; i<50; ++i) switch (rndn( 6))
		{
			case 0: case 1: run<charset::UTF8,charset::UTF8>( U8, U8, "UTF-8/UTF-8"); break;
			case 2: run<charset::UTF8,charset::UTF16LE>( U8, U16LE, "UTF-8/UTF-16LE"); break;
			case 3: run<charset::UTF16BE,charset::UTF8>( U16BE, U8, "UTF-16BE/UTF-8"); break;
			case 4: run<charset::UTF16LE,charset::UCS4BE>( U16LE, U32BE, "UTF-16LE/UCS-4BE"); break;
			default: run<charset::UCS4LE,charset::UTF16BE>( U32LE, U16BE, "UCS-4LE/UTF-16BE"); break;
		}
	}
	summary(); return 0;
}
