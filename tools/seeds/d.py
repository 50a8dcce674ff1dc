H='''#include "textwolf.hpp"
#include <cstdio>
#include <string>
#include <cstring>
#include <csetjmp>
using namespace textwolf;
static int is( unsigned long a, unsigned long b, const char* w) { if (a == b) return 0; std::printf( "%s: got %lu expected %lu\\n", w, a, b); return 1; }
'''
SS=[
dict(id="C02-replacement-early",property="C02",file="charset_utf8.hpp",edits=[("				if ((unsigned char)(xx & B11000000) != B10000000)\n","				if ((unsigned char)(xx & B11000000) != B10000000 && ii < 4)\n")],
 needs="a six byte or longer sequence whose sixth byte is no continuation byte",breaks="it is decoded to a character instead of the replacement",
 demo=H+'''int main() { char src[] = "\\xFC\\x84\\x80\\x80\\x80\\x41 "; char b[8]; unsigned int p = 0; char* i = src; charset::UTF8 c; return is( c.value( b, p, i), 0x7FFFFFFF, "value"); }'''),
dict(id="C03-copy-start",property="C03",file="textscanner.hpp",edits=[("		:start(orig.start)\n","		:start(orig.input)\n")],
 needs="a copy of a text scanner on a character array that has advanced",breaks="the copy reports positions relative to where it was taken",
 demo=H+'''int main() { char src[] = "abcdef"; char* p = src; TextScanner<char*,charset::UTF8> s( p); s.skip(); s.skip(); s.chr(); TextScanner<char*,charset::UTF8> t( s); return is( t.getPosition(), 2, "position of the copy"); }'''),
dict(id="C03-equal-pages",property="C03",file="codepages.hpp",edits=[("return a.m_cd == b.m_cd;","if (a.m_cd == b.m_cd) return true;\n		for (unsigned int ii=0; ii<sizeof(unsigned short)*32; ii++) if (a.m_cd[ii] != b.m_cd[ii]) return false;\n		return true;")],
 needs="a copy between two code pages that differ in their upper 64 characters only",breaks="the byte is copied though it stands for another character",
 demo=H+'''int main() { char src[] = "\\xD0"; char* p = src; charset::IsoLatin a( 5), b( 1); TextScanner<char*,charset::IsoLatin> s( a, p); std::string o; s.copychar( b, o); return is( o == "&#x11e;", 1, "copied as reference"); }'''),
dict(id="C04-ucs4-count-first",property="C04",file="charset_ucs.hpp",edits=[("		for (;bufpos < 4; ++bufpos)\n		{\n			buf[ bufpos] = *itr;\n			++itr;\n		}","		while (bufpos < 4)\n		{\n			++bufpos;\n			buf[ bufpos-1] = *itr;\n			++itr;\n		}")],
 needs="a chunk that ends inside an UCS-4 character",breaks="a byte of the character is lost",
 demo=H+'''int main() { jmp_buf eom; char a[] = {0,0}; char b[] = {0x26,0x3A,0,0,0,0x41}; SrcIterator i( a, 2, &eom); TextScanner<SrcIterator,charset::UCS4BE> s( i); volatile int n = 0;
 if (setjmp( eom)) { if (n++) return 2; s.setSource( SrcIterator( b, 6, (jmp_buf*)0)); } return is( s.chr(), 0x263A, "code"); }'''),
dict(id="C04-utf8-lead-again",property="C04",file="charset_utf8.hpp",edits=[("		unsigned int bufsize = size( buf, bufpos, itr);\n		for (;bufpos < bufsize; ++bufpos)\n		{\n			buf[ bufpos] = *itr;\n			++itr;\n		}\n	}\n","		unsigned int bufsize = size( buf, bufpos, itr);\n		if (bufsize > 3 && bufpos < 3) bufpos = 1;\n		for (;bufpos < bufsize; ++bufpos)\n		{\n			buf[ bufpos] = *itr;\n			++itr;\n		}\n	}\n")],
 needs="a chunk that ends after the second byte of a four byte UTF-8 character",breaks="the second byte is overwritten by the third",
 demo=H+'''int main() { jmp_buf eom; char a[] = "\\xF0\\x9F"; char b[] = "\\x98\\x80" "ABC"; SrcIterator i( a, 2, &eom); TextScanner<SrcIterator,charset::UTF8> s( i); volatile int n = 0;
 if (setjmp( eom)) { if (n++) return 2; s.setSource( SrcIterator( b, 5, (jmp_buf*)0)); } return is( s.chr(), 0x1F600, "code"); }'''),
dict(id="C06-encode-exact-fit",property="C06",file="charset_interface.hpp",edits=[("		buf.push_back( '\\0');\n		return !buf.overflow();","		if (buf.size() < bufsize) buf.push_back( '\\0');\n		return !buf.overflow();")],
 needs="a buffer that exactly takes the reference without its terminating zero",breaks="success is reported for an unterminated string",
 demo=H+'''int main() { char b[ 9]; std::memset( b, 'x', 9); bool r = charset::Encoder::encode( 0x41, b, 6); return is( r, 0, "success for 6 bytes"); }'''),
dict(id="C06-ucs2-reference-unit",property="C06",file="charset_utf16.hpp",edits=[("		else if (ch <= 0x10FFFF)\n","		else if (ch < 0x110000+0x400)\n")],
 needs="a code above 10FFFF by less than 400 hexadecimal",breaks="it is printed as pair of surrogates that denotes another character",
 demo=H+'''int main() { std::string o; charset::UTF16BE().print( 0x110001, o); return is( o.size(), 20, "bytes printed"); }'''),
dict(id="C10-exit-again",property="C10",file="xmlscanner.hpp",edits=[("			[ EXIT     ].action(Return,Exit);","			[ EXIT     ].action(Return,Exit).fallback(SEEKTOK);")],
 needs="a call for the next element after the exit element, with data behind the end of text character",breaks="scanning goes on behind the end of the text",
 demo=H+'''int main() { char src[] = "<a/>\\0<b/>"; char* p = src; XMLScanner<char*,charset::UTF8,charset::UTF8,std::string> s( p); int n = 0; while (s.nextItem() != XMLScannerBase::Exit) if (++n > 10) return 2; return is( s.nextItem(), XMLScannerBase::Exit, "element after exit"); }'''),
dict(id="C10-comment-end",property="C10",file="xmlscanner.hpp",edits=[("[ COMENDCL ](Gt,SEEKTOK)(Dash)","[ COMENDCL ](Gt,SEEKTOK)(EndOfText,EXIT)(Dash)")],
 needs="a document that ends in a comment after its two closing dashes",breaks="it is reported as complete",
 demo=H+'''int main() { char src[] = "<a/><!-- x --"; char* p = src; XMLScanner<char*,charset::UTF8,charset::UTF8,std::string> s( p); XMLScannerBase::ElementType t; int n = 0; do { t = s.nextItem(); if (++n > 10) return 2; } while (t != XMLScannerBase::Exit && t != XMLScannerBase::ErrorOccurred); return is( t, XMLScannerBase::ErrorOccurred, "last element"); }'''),
]
SS=[s for s in SS if s['edits']]
