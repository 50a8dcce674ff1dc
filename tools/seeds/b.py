HEAD='''#include "textwolf.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/istreamiterator.hpp"
#include <cstdio>
#include <string>
#include <cstring>
#include <vector>
#include <sstream>
#include <csetjmp>
using namespace textwolf;
static int bad( const char* m) { std::printf( "%s\\n", m); return 1; }
static int is( const std::string& a, const std::string& b) { if (a == b) return 0; std::printf( "got [%s] expected [%s]\\n", a.c_str(), b.c_str()); return 1; }
typedef XMLScanner<CStringIterator,charset::UTF8,charset::UTF8,std::string> Scanner;
typedef XMLScanner<SrcIterator,charset::UTF8,charset::UTF8,std::string> ChunkScanner;
// elements as "type:text|", masked out texts as "type:-|"
static std::string scan( const std::string& doc, unsigned short mask=0xFFFF, bool pos=false)
{
 std::string rt; CStringIterator itr( doc); Scanner sc( itr); int n=0;
 for (;;) {
  Scanner::ElementType t = sc.nextItem( mask);
  std::ostringstream o; o << Scanner::getElementTypeName( t) << ':';
  if (mask & (1<<t)) o << std::string( sc.getItemPtr(), sc.getItemSize()); else o << '-';
  if (pos) o << '@' << sc.getTokenPosition();
  rt += o.str() + "|";
  if (t == Scanner::Exit || t == Scanner::ErrorOccurred || ++n > 50) return rt; }
}
static jmp_buf eom;
static std::string chunked( const std::string& doc, std::size_t cut)
{
 static std::string rt; rt.clear(); static std::string d; d = doc; static volatile int part; part = 0;
 static SrcIterator first; first = SrcIterator( d.c_str(), cut, &eom); static ChunkScanner* sc; sc = new ChunkScanner( first);
 if (setjmp( eom)) { if (++part > 1) return rt + "lost"; SrcIterator n; n.putInput( d.c_str()+cut, d.size()-cut+1, 0); sc->setSource( n); }
 for (;;) {
  ChunkScanner::ElementType t = sc->nextItem();
  rt += std::string( ChunkScanner::getElementTypeName( t)) + ":" + std::string( sc->getItemPtr(), sc->getItemSize()) + "|";
  if (t == ChunkScanner::Exit || t == ChunkScanner::ErrorOccurred) return rt; }
}
'''
X="xmlscanner.hpp"
SS=[
dict(id="C07-pi-questmarks",property="C07",file=X,edits=[("[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)","[ PITAGEND ](Gt,CONTENT).other(PITAG)")],
 needs="a processing instruction that ends with more than one question mark",breaks="the end of the processing instruction is not recognised",
 demo=HEAD+'''int main() { return is( scan( "<a><?pi x??>y</a>"), "OpenTag:a|Content:y|CloseTag:a|Exit:|"); }'''),
dict(id="C07-cdata-brackets",property="C07",file=X,edits=[("[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)","[ CDATA3   ](Gt,CONTENT).other(CDATA1)")],
 needs="a CDATA section whose content ends with a bracket",breaks="the end ]]]> is not recognised",
 demo=HEAD+'''int main() { return is( scan( "<a><![CDATA[x]]]>y</a>"), "OpenTag:a|Content:y|CloseTag:a|Exit:|"); }'''),
dict(id="C07-slash-after-unquoted",property="C07",file=X,edits=[("[ TAGAVID  ].action(ReturnIdentifier,TagAttribValue)(EndOfLine,Cntrl,Space,TAGAISK)(Slash,TAGCLIM)(Gt,CONTENT)","[ TAGAVID  ].action(ReturnIdentifier,TagAttribValue)(EndOfLine,Cntrl,Space,TAGAISK)(Slash,TAGCLSK)(Gt,CONTENT)")],
 needs="an immediately closed tag right after an unquoted attribute value",breaks="the immediate close tag element is not delivered",
 demo=HEAD+'''int main() { return is( scan( "<a><b c=d/></a>"), "OpenTag:a|OpenTag:b|TagAttribName:c|TagAttribValue:d|CloseTagIm:|CloseTag:a|Exit:|"); }'''),
dict(id="C08-crlf-lf",property="C08",file=X,edits=[("							push( (unsigned char)'\\n');\n						}\n						tokstate.eolnState = TokState::SRC;","							push( (unsigned char)'\\n');\n							tokstate.eolnState = TokState::SRC;\n						}")],
 needs="CR LF followed by another LF in a content element",breaks="the second line feed is swallowed",
 demo=HEAD+'''int main() { return is( scan( "<a>x\\r\\n\\ny</a>"), "OpenTag:a|Content:x\\n\\ny|CloseTag:a|Exit:|"); }'''),
dict(id="C08-empty-hex-ref",property="C08",file=X,edits=[("if (tokstate.base == 16) push('x');","if (tokstate.base == 16 && tokstate.pos) push('x');")],
 needs="a hexadecimal reference without digits",breaks="the x of the literal text is lost",
 demo=HEAD+'''int main() { return is( scan( "<a>q&#x;w</a>"), "OpenTag:a|Content:q&#x;w|CloseTag:a|Exit:|"); }'''),
dict(id="C08-long-name",property="C08",file=X,edits=[("while (tokstate.pos < sizeof(tokstate.buf)-1 && ch != ';'","while (tokstate.pos < sizeof(tokstate.buf)-2 && ch != ';'")],
 needs="a defined entity with a name of 15 characters",breaks="its reference is not replaced any more",
 demo=HEAD+'''int main() { Scanner::EntityMap m; m["abcdefghijklmno"] = 'Z'; std::string d("<a>&abcdefghijklmno;</a>"); CStringIterator i( d); Scanner s( i, m); s.nextItem(); s.nextItem(); return is( s.getItem(), "Z"); }'''),
dict(id="C09-numeric-resume",property="C09",file=X,edits=[("case TokState::ParsingNumericEntity: rt = parseNumericEntity(); break;","case TokState::ParsingNumericEntity: rt = parseNumericBaseEntity(); break;")],
 needs="a chunk that ends right after the &# of a numeric reference",breaks="the reference is not resolved",
 demo=HEAD+'''int main() { return is( chunked( "<a>x&#65;y</a>", 6), "OpenTag:a|Content:xAy|CloseTag:a|Exit:|"); }'''),
dict(id="C09-keyword-resume",property="C09",file=X,edits=[("for (; str[tokstate.pos] != '\\0'; m_src.skip(),tokstate.pos++)","for (tokstate.pos=0; str[tokstate.pos] != '\\0'; m_src.skip(),tokstate.pos++)")],
 needs="a chunk that ends inside the keyword xml or CDATA",breaks="the keyword is not recognised after resumption",
 demo=HEAD+'''int main() { return is( chunked( "<a><![CDATA[x]]>y</a>", 8), "OpenTag:a|Content:y|CloseTag:a|Exit:|"); }'''),
dict(id="C09-cr-at-cut",property="C09",file=X,edits=[("						push( (unsigned char)'\\n');\n						tokstate.eolnState = TokState::CR;\n					}","						push( (unsigned char)'\\n');\n						m_src.skip();\n						tokstate.eolnState = (m_src.ascii() == '\\n') ? TokState::CR : TokState::SRC;\n						continue;\n					}")],
 needs="a chunk that ends between CR and LF",breaks="two line feeds are delivered for one CR LF",
 demo=HEAD+'''int main() { return is( chunked( "<a>x\\r\\ny</a>", 5), "OpenTag:a|Content:x\\ny|CloseTag:a|Exit:|"); }'''),
dict(id="C10-unterminated-subset",property="C10",file=X,edits=[("[ ENTITYLC ](Csb,ENTITY).other( ENTITYLC)","[ ENTITYLC ](EndOfText,EXIT)(Csb,ENTITY).other( ENTITYLC)")],
 needs="a document that ends inside the internal subset of a DOCTYPE",breaks="it is reported as complete",
 demo=HEAD+'''int main() { return is( scan( "<!DOCTYPE a [<!ENTITY").substr( 0, 48), "DocAttribValue:DOCTYPE|DocAttribValue:a|ErrorOcc"); }'''),
dict(id="C11-masked-amp",property="C11",file=X,edits=[("while (isTok[ (unsigned char)(ch=m_src.control())] || ch == Amp)","while (isTok[ (unsigned char)(ch=m_src.control())])")],
 needs="a masked out content element with an entity reference",breaks="the content element is delivered over and over",
 demo=HEAD+'''int main() { return is( scan( "<a>x&amp;y</a>", 0xFFFF & ~(1<<Scanner::Content)), "OpenTag:a|Content:-|CloseTag:a|Exit:|"); }'''),
dict(id="C11-mask-bit",property="C11",file=X,edits=[("if ((mask&(1<<sd->action.arg)) != 0)","if ((mask&(1<<((sd->action.arg & 7) == 3 ? 3 : sd->action.arg))) != 0)")],
 needs="a mask that suppresses header attribute names but not immediate close tags respectively close tags",breaks="the text of close tags is missing",
 demo=HEAD+'''int main() { return is( scan( "<a>x</a>", 0xFFFF & ~(1<<Scanner::HeaderAttribName)), "OpenTag:a|Content:x|CloseTag:a|Exit:|"); }'''),
dict(id="C12-wide-first-char",property="C12",file="textscanner.hpp",edits=[("return Traits<Iterator>::getPosition( start, input) - state;","return Traits<Iterator>::getPosition( start, input) - (state & 3);")],
 needs="a document in UCS-4",breaks="the position of every element is reported four bytes too high",
 demo=HEAD+"""int main() { std::string d; const char* h="<a>x</a>"; for (; *h; ++h) {d.append( 3, '\\0'); d.push_back( *h);} d.append( 4, '\\0'); CStringIterator i( d); XMLScanner<CStringIterator,charset::UCS4BE,charset::UTF8,std::string> s( i); s.nextItem(); s.nextItem(); std::printf( "%u\\n", (unsigned)s.getTokenPosition()); return s.getTokenPosition() == 12 ? 0 : bad("position"); }"""),
dict(id="C12-docattrib-end",property="C12",file=X,edits=[("					m_tokenpos = m_src.getPosition();\n					m_outputBuf.clear();","					if (sd->nofnext) m_tokenpos = m_src.getPosition();\n					m_outputBuf.clear();")],
 needs="the end element of a DOCTYPE, of the header or of the document",breaks="the position is the one of the previous element",
 demo=HEAD+'''int main() { std::string d("<!DOCTYPE a><a></a>"); CStringIterator i( d); Scanner s( i); s.nextItem(); s.nextItem(); if (s.nextItem() != Scanner::DocAttribEnd) return 2; return s.getTokenPosition() == 12 ? 0 : bad("position"); }'''),
dict(id="C13-low-byte",property="C13",file="xmlprinter.hpp",edits=[("			if (ch < 128)\n","			if ((ch & 0xFF) < 128 && ch < 0x200)\n")],
 needs="a character U+0122, U+0126, U+013C, U+013E, ... in a printed value",breaks="it is printed as reference of the character with the same low byte",
 demo=HEAD+'''int main() { XMLPrinter<charset::UTF8,charset::UTF8,std::string> p( true); std::string o; p.printOpenTag( "a", 1, o); p.printValue( "\\xC4\\xBC", 2, o); return is( o, "<a>\\xC4\\xBC"); }'''),
dict(id="C13-content-cr",property="C13",file="xmlprinter.hpp",edits=[("		enum {nof_echr = 6};","		enum {nof_echr = 5};"),('static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};','static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};'),('static const char echr[nof_echr+1] = "<>&\\0\\b\\r";','static const char echr[nof_echr+1] = "<>&\\0\\b";')],
 needs="a carriage return in printed content",breaks="it reads back as line feed",
 demo=HEAD+'''int main() { XMLPrinter<charset::UTF8,charset::UTF8,std::string> p( true); std::string o; p.printOpenTag( "a", 1, o); p.printValue( "x\\ry", 3, o); p.printCloseTag( o); return is( scan( o).substr( 0, 22), "OpenTag:a|Content:x\\ry|"); }'''),
dict(id="C14-refused-open",property="C14",file="xmlprinter.hpp",edits=[("		if (!exitTagContext( buf)) return false;\n		printToBuffer( '<', buf);\n		printToBuffer( (const char*)src, srcsize, buf);\n\n		m_tagstack.push( src, srcsize);","		m_tagstack.push( src, srcsize);\n		if (!exitTagContext( buf)) return false;\n		printToBuffer( '<', buf);\n		printToBuffer( (const char*)src, srcsize, buf);\n")],
 needs="a tag opened after an attribute name (refused), then valid calls",breaks="the refused tag is closed instead of the open one",
 demo=HEAD+'''int main() { XMLPrinter<charset::UTF8,charset::UTF8,std::string> p( true); std::string o; p.printOpenTag( "a", 1, o); p.printAttribute( "x", 1, o); if (p.printOpenTag( "b", 1, o)) return 2; p.printValue( "v", 1, o); p.printValue( "c", 1, o); p.printCloseTag( o); return is( o, "<a x=\\"v\\">c</a>\\n"); }'''),
dict(id="C14-doctype-inside",property="C14",file="xmlprinter.hpp",edits=[("if (m_state != Content || !m_tagstack.empty())","if (m_state != Content)")],
 needs="a DOCTYPE printed inside of an element after some content",breaks="it is printed instead of refused",
 demo=HEAD+'''int main() { XMLPrinter<charset::UTF8,charset::UTF8,std::string> p( true); std::string o; p.printOpenTag( "a", 1, o); p.printValue( "c", 1, o); return p.printDoctype( "a", 0, 0, o) ? bad("DOCTYPE inside of an element") : 0; }'''),
dict(id="C15-grow-limit",property="C15",file="xmltagstack.hpp",flags="-fsanitize=address",edits=[("		if (m_pos + ofs > m_size)\n		{","		if (m_pos + nn + align > m_size)\n		{")],
 needs="a stack filled so that the text fits but not its length field",breaks="the length is written behind the memory",
 demo=HEAD+'''int main() { TagStack s; std::string t( 100, 'x'); s.push( t.c_str(), 104-8); s.push( t.c_str(), 96); s.push( t.c_str(), 48); const void* p; std::size_t n; return s.top( p, n) && n == 48 ? 0 : bad("top"); }'''),
dict(id="C15-assign-fill",property="C15",file="xmltagstack.hpp",edits=[("std::memcpy( xx, o.m_ptr, o.m_pos);\n			std::free( m_ptr);","std::memcpy( xx, o.m_ptr, m_pos < o.m_pos ? m_pos : o.m_pos);\n			std::free( m_ptr);")],
 needs="a stack assigned to one with less elements on it",breaks="the assigned stack is missing the elements on top",
 demo=HEAD+'''int main() { TagStack a,b; a.push( "abc", 3); b = a; const void* p; std::size_t n; return b.top( p, n) && n == 3 && std::memcmp( p, "abc", 3) == 0 ? 0 : bad("top of the copy"); }'''),
dict(id="C16-append-overflow",property="C16",file="staticbuffer.hpp",edits=[("		if (ccsize > m_size - m_pos)\n		{\n			m_overflow = true;","		if (ccsize > m_size - m_pos)\n		{\n			m_overflow = (m_pos < m_size);")],
 needs="an append on a buffer that is full",breaks="the overflow flag is cleared",
 demo=HEAD+'''int main() { StaticBuffer b( (std::size_t)3); b.append( "abc", 3); b.append( "d", 1); return b.overflow() ? 0 : bad("no overflow"); }'''),
dict(id="C16-at-bound",property="C16",file="staticbuffer.hpp",edits=[("	char& at( std::size_t ii) const\n	{\n		if (ii >= m_pos)","	char& at( std::size_t ii) const\n	{\n		if (ii >= m_pos && ii >= m_size)")],
 needs="at() with an index behind the content of a partly filled buffer",breaks="it does not throw",
 demo=HEAD+'''int main() { StaticBuffer b( (std::size_t)8); b.push_back( 'x'); try { b.at( 3); } catch (const textwolf::exception&) { return 0; } return bad("not refused"); }'''),
dict(id="C17-block-end",property="C17",file="istreamiterator.hpp",edits=[("		if (m_readpos+1 >= m_readsize)\n		{\n			if (m_readpos >= m_readsize) ++m_abspos;\n			fillbuf();","		if (m_readpos+1 >= m_readsize)\n		{\n			if (m_readpos >= m_readsize) ++m_abspos;\n			if (m_readsize < m_bufsize) {m_abspos += m_readsize; m_readsize = 0; m_readpos = 0;} else\n			fillbuf();")],
 needs="a stream that delivers less than the requested number of bytes before its end",breaks="the rest of the stream is lost",
 demo=HEAD+'''struct S :public IStream { int n; S():n(0){} virtual std::size_t read( void* b, std::size_t s) { if (n >= 3 || !s) return 0; *(char*)b = 'a'+n++; return 1; } virtual int errorcode() const {return 0;} };
int main() { S s; IStreamIterator i( &s, 16); std::string o; for (; *i; ++i) o.push_back( *i); return is( o, "abc"); }'''),
dict(id="C17-copy-position",property="C17",file="istreamiterator.hpp",edits=[("m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)","m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_readsize?o.m_abspos:0)")],
 needs="a copy of an iterator at the end of its stream",breaks="the copy reports position zero",
 demo=HEAD+'''int main() { std::istringstream x("abc"); StdInputStream s( x); IStreamIterator i( &s, 2); for (; *i; ++i) {} IStreamIterator j( i); return j.position() == i.position() ? 0 : bad("position of the copy"); }'''),
dict(id="C18-cut-after-name",property="C18",file="xmlhdrparser.hpp",edits=[("		unsigned char ch = nextChar();\n		for (;ch != 0; ch = nextChar())","		unsigned char ch = nextChar();\n		if (m_state == ParseAttributeName && m_item.size() > 7 && ch > 32 && ch != '=') m_item.clear();\n		for (;ch != 0; ch = nextChar())")],
 needs="input cut after the eighth character of an attribute name",breaks="the attribute is reported as unknown",
 demo=HEAD+'''int main() { XmlHdrParser p; p.putInput( "<?xml standalon", 15); if (p.parse() || p.lasterror()) return 2; p.putInput( "e='yes' encoding='x'?>", 22); return p.parse() && p.encoding() && is( p.encoding(), "x") == 0 ? 0 : bad("cut name"); }'''),
dict(id="C18-zero-count",property="C18",file="xmlhdrparser.hpp",edits=[("				m_zeroCount = 0;\n				if (ch > 32)\n				{\n					++m_charsConsumed;\n				}","				if (ch > 32)\n				{\n					m_zeroCount = 0;\n					++m_charsConsumed;\n				}")],
 needs="a header in UTF-32 with two blanks in a row",breaks="the header is rejected",
 demo=HEAD+'''int main() { std::string d; const char* h="<?xml  version='1.0' encoding='x'?>"; for (; *h; ++h) {d.append( 3, '\\0'); d.push_back( *h);} XmlHdrParser p; p.putInput( d.c_str(), d.size()); try { return p.parse() && p.encoding() ? 0 : bad("not parsed"); } catch (const textwolf::exception&) { return bad("rejected"); } }'''),
dict(id="C21-error-name",property="C21",file=X,edits=[('				"expected tag end",\n				"expected equal",','				"expected equal",\n				"expected tag end",')],
 needs="the error text of an unterminated tag or a missing equal sign",breaks="the two messages are exchanged",
 demo=HEAD+'''int main() { return is( XMLScannerBase::getErrorString( XMLScannerBase::ErrExpectedEqual), "expected equal"); }'''),
dict(id="C21-state-name",property="C21",file=X,edits=[('"ENTITYID", "ENTITYSQ", "ENTITYDQ",  "ENTITYLC",','"ENTITYID", "ENTITYDQ", "ENTITYSQ",  "ENTITYLC",')],
 needs="the name of the states in a quoted document attribute",breaks="the two names are exchanged",
 demo=HEAD+'''int main() { return is( XMLScannerBase::getStateString( XMLScannerBase::ENTITYSQ), "ENTITYSQ"); }'''),
dict(id="C03-copy-after-ascii",property="C03",file="textscanner.hpp",edits=[("			charset.fetchbytes( buf, state, input);","			if (cur <= 0 || !state) charset.fetchbytes( buf, state, input);")],
 needs="a four byte wide encoding: the ASCII view does not fetch all bytes of a character if ...",breaks="",demo="") if False else None,
dict(id="C03-position-after-view",property="C03",file="charset_utf8.hpp",edits=[],needs="",breaks="",demo="") if False else None,
]
SS=[s for s in SS if s]
