HEAD='''#include "textwolf.hpp"
#include <cstdio>
#include <string>
#include <cstring>
using namespace textwolf;
static int bad( const char* m) { std::printf( "%s\\n", m); return 1; }
struct It { const unsigned char* p; unsigned n; It( const void* q):p((const unsigned char*)q),n(0){} char operator*() const {return (char)p[n];} It& operator++() {++n; return *this;} };
'''
SS=[
dict(id="C01-utf16-last-plane",property="C01",file="charset_utf16.hpp",edits=[("else if (ch <= 0x10FFFF)","else if (ch < 0x10FFFF)")],
 needs="the single code point U+10FFFF printed in UTF-16",breaks="U+10FFFF is printed as numeric reference instead of its surrogate pair",
 demo=HEAD+'''int main() { charset::UTF16BE cs; std::string o; cs.print( 0x10FFFF, o); return o == std::string("\\xDB\\xFF\\xDF\\xFF",4) ? 0 : bad("U+10FFFF"); }'''),
dict(id="C01-utf8-six-byte-mask",property="C01",file="charset_utf8.hpp",edits=[("int gg = bufpos-2;","int gg = (int)bufpos-2 > 3 ? 3 : (int)bufpos-2;")],
 needs="a character of 6 UTF-8 bytes (above 3FFFFFF)",breaks="six byte sequences decode to a truncated value",
 demo=HEAD+'''int main() { charset::UTF8 cs; std::string o; cs.print( 0x7ABCDEF0, o); o += "xx"; It i(o.data()); char b[8]; unsigned p=0; return cs.value(b,p,i) == 0x7ABCDEF0 ? 0 : bad("decode"); }'''),
dict(id="C02-utf8-overread",property="C02",file="charset_utf8.hpp",edits=[("(B11111111,B11111111,8);","(B11111111,B11111111,9);")],
 needs="a lead byte FF in the input",breaks="the decoder writes a ninth byte behind its eight byte buffer",
 demo=HEAD+'''int main() { struct {char b[8]; char g[4];} m; std::memset( &m, 0x5A, sizeof m); unsigned char s[16]; std::memset( s, 0x80, 16); s[0]=0xFF; It i(s); unsigned p=0; charset::UTF8 cs; cs.value( m.b, p, i); return m.g[0] == 0x5A ? 0 : bad("overrun"); }'''),
dict(id="C02-utf8-continuation",property="C02",file="charset_utf8.hpp",edits=[("if ((unsigned char)(xx & B11000000) != B10000000)","if ((unsigned char)(xx & B10000000) != B10000000)")],
 needs="a lead byte where a continuation byte is required",breaks="malformed sequence is accepted as character",
 demo=HEAD+'''int main() { char s[8]={(char)0xE2,(char)0x82,(char)0xC3,0,0,0,0,0}; It i(s); char b[8]; unsigned p=0; charset::UTF8 cs; return cs.value( b, p, i) == 0x7FFFFFFF ? 0 : bad("malformed accepted"); }'''),
dict(id="C03-chr-cache",property="C03",file="textscanner.hpp",edits=[("		state = 0;\n		cur = 0;\n		val = 0;\n		return *this;","		state = 0;\n		if (cur >= 0) val = 0;\n		cur = 0;\n		return *this;")],
 needs="query the control class of a non ASCII character after its code point and skip: the stale code point is reported for the next one",breaks="chr() after skip returns the previous character",
 demo=HEAD+'''int main() { std::string s("\\xC3\\xA4""b"); TextScanner<CStringIterator,charset::UTF8> t(( CStringIterator( s))); if (t.chr() != 0xE4) return 2; t.control(); t.skip(); return t.chr() == 'b' ? 0 : bad("stale character"); }'''),
dict(id="C03-control-class",property="C03",file="textscanner.hpp",edits=[("			(33,127,Any)\n","			(33,126,Any)\n			(127,Cntrl)\n")],
 needs="character U+007F",breaks="the documented class of DEL changes from Any to Cntrl",
 demo=HEAD+'''int main() { std::string s("\\x7F"); TextScanner<CStringIterator,charset::UTF8> t(( CStringIterator( s))); return t.control() == Any ? 0 : bad("class of 7F"); }'''),
dict(id="C04-utf16-half-unit",property="C04",file="charset_utf16.hpp",edits=[("			if (bufpos<1)\n			{\n				buf[0] = *itr;\n				++itr;\n				++bufpos;\n			}\n			buf[1] = *itr;\n			++itr;\n			++bufpos;","			char first = bufpos<1 ? *itr : buf[0];\n			if (bufpos<1) ++itr;\n			buf[1] = *itr;\n			buf[0] = first;\n			++itr;\n			bufpos = 2;")],
 needs="a chunk that ends between the two bytes of a UTF-16 unit",breaks="the first byte of the unit is lost at the suspension",
 demo=HEAD+'''#include <csetjmp>
static jmp_buf eom; static int part=0;
int main() { static const char* d="\\x01\\x41\\x01\\x42\\0\\0"; SrcIterator i( d, 1, &eom); static TextScanner<SrcIterator,charset::UTF16BE>* t; t = new TextScanner<SrcIterator,charset::UTF16BE>( charset::UTF16BE(), i);
 if (setjmp( eom)) { if (++part > 1) return bad("byte lost"); SrcIterator n; n.putInput( d+1, 5, 0); t->setSource( n); }
 if (t->chr() != 0x141) return bad("first"); t->skip(); return t->chr() == 0x142 ? 0 : bad("second"); }'''),
dict(id="C04-ucs4-refetch",property="C04",file="charset_ucs.hpp",edits=[],needs="",breaks="",demo="") if False else None,
dict(id="C05-latin9-euro",property="C05",file="codepages.hpp",edits=[("{{{8364,164}, {352,166}, {353,168}, {381,180}, {382,184}","{{{8364,164}, {352,166}, {353,168}, {381,184}, {382,180}")],
 needs="U+017D or U+017E printed in ISO-8859-15 (code page 9)",breaks="upper and lower case z with caron are swapped on output",
 demo=HEAD+'''int main() { charset::IsoLatin cs(9); std::string o; cs.print( 381, o); return o == "\\xB4" ? 0 : bad("Zcaron"); }'''),
dict(id="C05-page-index",property="C05",file="codepages.hpp",edits=[("if (idx > NofCodePages || idx == 0) throw","if (idx-1 > NofCodePages) throw")],
 needs="code page index 10",breaks="unsupported code page 10 is accepted, reading behind the tables",
 demo=HEAD+'''int main() { try { charset::IsoLatin cs(10); } catch (const textwolf::exception&) { return 0; } return bad("accepted"); }'''),
dict(id="C06-utf16-ref-order",property="C06",file="charset_utf16.hpp",edits=[("			buf.push_back( (char)(unsigned char)(((UChar)*cc >> Print1shift) & 0xFF));\n			buf.push_back( (char)(unsigned char)(((UChar)*cc >> Print2shift) & 0xFF));\n			++cc;","			buf.push_back( (char)(unsigned char)(((UChar)*cc >> Print1shift) & 0xFF));\n			if (Print2shift || *cc != ';') buf.push_back( (char)(unsigned char)(((UChar)*cc >> Print2shift) & 0xFF));\n			++cc;")],
 needs="an unrepresentable character printed in UTF-16BE",breaks="the reference is truncated by a byte",
 demo=HEAD+'''int main() { charset::UTF16BE cs; std::string o; cs.print( 0x110000, o); return o == std::string("\\0&\\0#\\0x\\0""1\\0""1\\0""0\\0""0\\0""0\\0""0\\0;",20) ? 0 : bad("reference"); }'''),
dict(id="C06-encode-size",property="C06",file="charset_interface.hpp",edits=None,needs="",breaks="",demo="") if False else None,
]
SS=[s for s in SS if s]
