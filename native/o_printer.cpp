// Native oracle C13, C14: random sequences of operations of the real XMLPrinter in all pairs of encodings against a reference printer; what is printed
// is decoded independently and matched character by character (raw where it may stand, or a reference denoting the character); for C13 the real
// scanner reads the document back
#include "oracle.h"
#include "textwolf/charset.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/cstringiterator.hpp"
#include "spec_charset.h"
#include "spec_iso8859.h"
#include "spec_xml.h"
using namespace orc; using namespace textwolf;
typedef std::vector<uint32_t> Text;
enum Mode {Plain, Attr, Cont};
struct Exp { uint32_t c; Mode m; };
typedef std::vector<Exp> Exps;
static unsigned int g_page;
static bool noenc( int kind, uint32_t c) {return kind == 1 ? spec::iso_encode( g_page, c) < 0 : spec::needs_ref( kind, c);}
static std::string enc( int kind, const Text& t) { std::string s; for (std::size_t i=0; i<t.size(); ++i) { if (kind == 1) s += (char)spec::iso_encode( g_page, t[i]); else { unsigned char e[8]; s += std::string( (char*)e, spec::encode( kind, t[i], e)); } } return s; }
static bool dec( int kind, const std::string& s, Text& t)
{
	for (std::size_t i=0; i<s.size();)
	{
		if (kind == 1) {t.push_back( spec::iso_decode( g_page, (unsigned char)s[i])); ++i; continue;}
		unsigned char b[16] = {0}; for (int k=0; k<8 && i+k < s.size(); ++k) b[k] = (unsigned char)s[i+k];
		unsigned int n = spec::announced( kind, b); uint32_t v; if (i + n > s.size() || !spec::decode( kind, b, v)) return false;
		t.push_back( v); i += n;
	}
	return true;
}
static bool rawok( uint32_t c, Mode m) { if (m == Plain) return true; if (c == '<' || c == '>' || c == '&' || c == '\r') return false; return m == Attr ? c != '"' : true; }
static bool item( const Text& o, std::size_t& pos, uint32_t c, Mode m, int kind)
{
	if (pos >= o.size()) return false;
	if (o[pos] == c && rawok( c, m) && !(noenc( kind, c))) {++pos; return true;}
	if (o[pos] != '&' || (m == Plain && !noenc( kind, c))) return false;
	std::string r; std::size_t i = pos+1; for (; i < o.size() && o[i] != ';' && r.size() < 20; ++i) {if (o[i] > 127) return false; r += (char)o[i];}
	if (i >= o.size() || o[i] != ';') return false;
	pos = i+1; uint32_t v;
	if (r == "lt") v = '<'; else if (r == "gt") v = '>'; else if (r == "amp") v = '&'; else if (r == "quot") v = '"'; else if (r == "apos") v = '\'';
	else if (r.size() > 2 && r[0] == '#' && r[1] == 'x') {char* e; v = strtoul( r.c_str()+2, &e, 16); if (*e) return false;}
	else if (r.size() > 1 && r[0] == '#') {char* e; v = strtoul( r.c_str()+1, &e, 10); if (*e) return false;}
	else return false;
	return v == c;
}
static void lit( Exps& e, const char* s) {for (; *s; ++s) {Exp x; x.c = (unsigned char)*s; x.m = Plain; e.push_back( x);}}
static void txt( Exps& e, const Text& t, Mode m) {for (std::size_t i=0; i<t.size(); ++i) {Exp x; x.c = t[i]; x.m = m; e.push_back( x);}}
static std::string u8( const Text& t) { std::string s; for (std::size_t i=0; i<t.size(); ++i) {unsigned char e[8]; s += std::string( (char*)e, spec::encode( 8, t[i], e));} return quote( s); }
static uint32_t anychar( int kind)
{
	for (;;)
	{
		uint32_t c;
		switch (rndn( 7)) { case 0: c = 1 + rndn( 127); break; case 1: c = 0x80 + rndn( 0x780); break; case 2: c = 0x800 + rndn( 0xD000); break; case 3: c = 0xE000 + rndn( 0x102000); break; case 4: c = 0xA0+rndn( 0x60); break;
			default: c = (unsigned char)"abc <>&'\"\r\n\t\b;#=/]"[ rndn( 18)]; }
		if (c == 0 || (c >= 0xD800 && c < 0xE000)) continue;
		if (kind == 1 ? spec::iso_encode( 1, c) < 0 : spec::needs_ref( kind, c)) continue;
		return c;
	}
}
static Text text( int kind, unsigned int min) { Text t; unsigned int n = min + (rndn( 10) ? rndn( 8) : rndn( 400)); while (n--) t.push_back( anychar( kind)); return t; }
static Text name( int kind) { Text t; unsigned int n = 1 + (rndn( 10) ? rndn( 8) : rndn( 300)); while (n--) t.push_back( rndn( 8) ? (uint32_t)'a'+rndn( 26) : 0xC0+rndn( 0x16)); (void)kind; return t; }
static std::string encapp( int kind, const Text& t) { unsigned int p = g_page; g_page = 1; std::string s = enc( kind, t); g_page = p; return s; }
struct Want { std::string what; };
template <class IO, class APP>
static void run( const IO& io, int ik, int ak, const char* names)
{
	typedef XMLPrinter<IO,APP,std::string> P;
	bool sub = rndn( 2); P first( io, sub), other( io); P* p = &first; std::string out, log = std::string( names) + (sub ? " subdocument:" : " document:"); Exps exp;
	int st = sub ? 1 : 0; std::vector<Text> tags; unsigned int N = 1 + rndn( 25);
	bool asciiapp = ak == 8 || ak == 1;
	for (unsigned int i=0; i<N; ++i)
	{
		++cases; Exps e; bool ok = false, rt; std::string before = out; int st0 = st; unsigned int op = rndn( 16);
		if (st == 0 && asciiapp && rndn( 2)) op = 0;
		const char* opn = "";
		if (op <= 1)
		{
			if (!asciiapp) continue;
			if (op == 0)
			{
				const char* en = rndn( 2) ? "UTF-8" : rndn( 2) ? 0 : "ISO-8859-1"; const char* sa = rndn( 2) ? 0 : "yes"; opn = "header";
				rt = p->printHeader( en, sa, out); ok = st == 0; lit( e, "<?xml version=\"1.0\" encoding=\""); lit( e, en ? en : "UTF-8"); if (sa) {lit( e, "\" standalone=\""); lit( e, sa);} lit( e, "\"?>\n"); if (ok) st = 1;
			}
			else
			{
				const char* r = rndn( 5) ? "root" : 0; const char* pu = rndn( 2) ? "-//X" : 0; const char* sy = rndn( 2) ? "x.dtd" : 0; opn = "doctype";
				rt = p->printDoctype( r, pu, sy, out); ok = !r || (st == 1 && tags.empty() && (!pu || sy));
				if (r) { lit( e, "<!DOCTYPE "); lit( e, r); if (pu && sy) {lit( e, " PUBLIC \""); lit( e, pu); lit( e, "\" \""); lit( e, sy); lit( e, "\"");} else if (sy) {lit( e, " SYSTEM \""); lit( e, sy); lit( e, "\"");} lit( e, ">"); }
			}
		}
		else if (op < 5)
		{
			Text t = name( ak); std::string s = encapp( ak, t); opn = "open"; char* m = new char[ s.size()]; memcpy( m, s.data(), s.size());
			rt = p->printOpenTag( m, s.size(), out); delete [] m; ok = st == 1 || st == 3; if (st == 3) lit( e, ">"); lit( e, "<"); txt( e, t, Plain); if (ok) {tags.push_back( t); st = 3;}
		}
		else if (op < 8)
		{
			Text t = name( ak); std::string s = encapp( ak, t); opn = "attribute";
			rt = p->printAttribute( s.data(), s.size(), out); ok = st == 3; lit( e, " "); txt( e, t, Plain); lit( e, "="); if (ok) st = 2;
		}
		else if (op < 12)
		{
			Text t = text( ak, 0); std::string s = encapp( ak, t); opn = "value"; char* m = new char[ s.size()]; memcpy( m, s.data(), s.size());
			rt = p->printValue( m, s.size(), out); delete [] m; ++nontrivial;
			if (st == 2) {ok = true; lit( e, "\""); txt( e, t, Attr); lit( e, "\""); st = 3;} else {ok = st != 0; if (st == 3) lit( e, ">"); txt( e, t, Cont); if (ok) st = 1;}
		}
		else if (op < 14)
		{
			opn = "close"; rt = p->printCloseTag( out); ok = !tags.empty() && st != 2;
			if (ok) {if (st == 3) lit( e, "/>"); else {lit( e, "</"); txt( e, tags.back(), Plain); lit( e, ">");} tags.pop_back(); if (tags.empty()) lit( e, "\n"); st = 1;}
		}
		else if (op == 14) { opn = "exit"; rt = p->exitTagContext( out); ok = st == 1 || st == 3; if (st == 3) {lit( e, ">"); st = 1;} }
		else
		{
			if (rndn( 8) == 0) { bool s = rndn( 2); p->reset( s); st = s; tags.clear(); log += " reset"; if (p->lasterror()) fail( log + ": error after reset"); }
			else { P c( *p); if (p == &first) {other = c; p = &other;} else {first = c; p = &first;} log += " copy"; }
			continue;
		}
		log += std::string(" ") + opn;
		if (rt != ok) fail( log + ": returns " + str( rt) + ", output so far " + quote( out));
		if (!rt) { if (out != before) fail( log + ": refused call prints " + quote( out)); if (!p->lasterror() || !*p->lasterror()) fail( log + ": refused call leaves no error message"); st = st0; continue; }
		if ((int)p->state() != st) fail( log + ": state " + str( (int)p->state()) + " expected " + str( st));
		if (out.substr( 0, before.size()) != before) fail( log + ": output before is changed");
		Text d; std::size_t pos = 0; if (!dec( ik, out.substr( before.size()), d)) fail( log + ": malformed output " + hex( out.substr( before.size())));
		for (std::size_t k=0; k<e.size(); ++k) if (!item( d, pos, e[k].c, e[k].m, ik)) fail( log + ": prints " + u8( d).substr( 0, 300) + ", item " + str( k) + " does not denote character " + str( e[k].c));
		if (pos != d.size()) fail( log + ": prints " + u8( d).substr( 0, 300) + ", too much");
	}
}
// a document with one attribute and one content is scanned back
template <class IO, class APP>
static void rescan( const IO& io, int ik, int ak, const char* names)
{
	typedef XMLPrinter<IO,APP,std::string> P; P p( io, true); std::string out; Text a = text( ak, 1), c = text( ak, 1); std::string as = encapp( ak, a), cs = encapp( ak, c);
	Text tn; tn.push_back( 't'); std::string ts = encapp( ak, tn); ++cases; ++nontrivial;
	std::string w = std::string( names) + " attribute " + u8( a).substr( 0, 300) + " content " + u8( c).substr( 0, 300);
	if (!p.printOpenTag( ts.data(), ts.size(), out) || !p.printAttribute( ts.data(), ts.size(), out) || !p.printValue( as.data(), as.size(), out) || !p.printValue( cs.data(), cs.size(), out) || !p.printCloseTag( out)) fail( w + ": refused");
	std::string doc = out + std::string( 8, '\0');
	CStringIterator it( doc.data(), out.size()); typedef XMLScanner<CStringIterator,IO,charset::UCS4LE,std::string> S; S s( io, it);
	Text got, expc; bool attr = false, content = false;
	static const int MAX = 20;
	for (int i=0; i<MAX; ++i)
	{
		XMLScannerBase::ElementType t = s.nextItem(); Text x; std::string b = s.getItem();
		for (std::size_t k=0; k+4<=b.size(); k+=4) x.push_back( (unsigned char)b[k] | (unsigned char)b[k+1] << 8 | (unsigned char)b[k+2] << 16 | (uint32_t)(unsigned char)b[k+3] << 24);
		if (t == XMLScannerBase::ErrorOccurred) fail( w + ": scanner reports an error in " + quote( out.substr( 0, 400)));
		if (t == XMLScannerBase::TagAttribValue) {attr = true; if (x != a) fail( w + ": attribute value read back is " + u8( x));}
		if (t == XMLScannerBase::Content && !content) {content = true; got = x;}
		if (t == XMLScannerBase::Exit) break;
	}
	std::size_t b = 0; while (b < c.size() && (spec::cls( c[b]) == spec::cEol || spec::cls( c[b]) == spec::cSpace || spec::cls( c[b]) == spec::cCntrl)) ++b;
	(void)b; if (!attr) fail( w + ": attribute value lost");
	if (content && got != c)
	{
		// white space at the begin of a content may be skipped
		Text r( c.begin() + b, c.end()); if (got != r) fail( w + ": content read back is " + u8( got));
	}
	if (!content && b != c.size()) fail( w + ": content lost");
}
template <class IO> static void io( const IO& x, int ik, const char* n)
{
	int k = rndn( 8); std::string w = std::string( n) + "/";
	switch (k)
	{
#define APPS(K,C,V) case K: if (prop == "C13" && rndn( 2)) rescan<IO,charset::C>( x, ik, V, (w + #C).c_str()); else run<IO,charset::C>( x, ik, V, (w + #C).c_str()); break;
		APPS(0,UTF8,8) APPS(1,UTF16LE,160) APPS(2,UTF16BE,161) APPS(3,UCS2LE,20) APPS(4,UCS2BE,21) APPS(5,UCS4LE,40) APPS(6,UCS4BE,41) APPS(7,IsoLatin,1)
	}
}
int main( int argc, const char** argv)
{
	init( argc, argv);
	do
	{
		g_page = 1 + rndn( 9);
		switch (rndn( 8))
		{
			case 0: io( charset::UTF8(), 8, "UTF8"); break; case 1: io( charset::UTF16LE(), 160, "UTF16LE"); break; case 2: io( charset::UTF16BE(), 161, "UTF16BE"); break;
			case 3: io( charset::UCS2LE(), 20, "UCS2LE"); break; case 4: io( charset::UCS2BE(), 21, "UCS2BE"); break; case 5: io( charset::UCS4LE(), 40, "UCS4LE"); break; case 6: io( charset::UCS4BE(), 41, "UCS4BE"); break;
			default: io( charset::IsoLatin( g_page), 1, "IsoLatin"); break;
		}
	}
	while (!timeup());
	summary(); return 0;
}
