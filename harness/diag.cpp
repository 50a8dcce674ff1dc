// Harness C21: names of all diagnostic codes, and the element iterator of the scanner over an arbitrary scanner (contract of nextItem: any
// element type, any error code; getItemPtr/getItemSize: the text of the element)
#define private public
#define protected public
#include "textwolf/char.hpp"
#include "textwolf/exception.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#undef private
#undef protected
#include "v.h"
#include "spec_names.h"
using namespace textwolf;
extern "C" size_t strlen( const char* s) { size_t n=0; while (s[n]) ++n; return n;}
static bool eq( const char* a, const char* b) { unsigned int i=0; if (!a) return false; for (; b[i]; ++i) if (a[i] != b[i]) return false; return a[i] == 0; }
// enumerations: CNT(group) counts the codes
#define ONE(x) +1
#define ONE2(x,y) +1
struct GIter { char operator*() const {return 0;} GIter& operator++() {return *this;} };
struct GBuf { typedef char value_type; char x; std::size_t n; GBuf() :x(0),n(0) {} void clear() {n=0;} std::size_t size() const {return n;} const char& at( std::size_t) const {return x;} void push_back( char) {++n;} };
typedef XMLScanner<GIter,charset::UTF8,charset::UTF8,GBuf> Scanner;
uint32_t in_type, in_error; uint64_t in_size; static unsigned int g_calls; static unsigned short g_mask;
namespace textwolf {
// contract of nextItem: some element type; the error code is Ok unless an error is reported
template <> XMLScannerBase::ElementType XMLScanner<GIter,charset::UTF8,charset::UTF8,GBuf>::nextItem( unsigned short mask)
{
	++g_calls; g_mask = mask;
	in_type = v_nd32(); in_error = v_nd32(); in_size = v_nd64(); v_assume( in_type <= (uint32_t)Exit && in_error <= (uint32_t)ErrExpectedDash2);
	if (in_type == (uint32_t)ErrorOccurred) v_assume( in_error != 0);
	error = (Error)in_error; m_outputBuf.n = in_size;
	return (ElementType)in_type;
}
}
extern "C" void h_exception()
{
	v_assert( 0 CAUSES( ONE) == 1 + (int)throws_exception::CodePageIndexNotSupported, "MODEL number of causes");
#define X(x) {exception e( throws_exception::x); v_assert( eq( e.what(), #x) && e.cause == throws_exception::x, "C21 name of exception cause " #x); exception f( e); v_assert( eq( f.what(), #x), "C21 name of the cause of a copied exception " #x); \
	exception g( throws_exception::Unknown); g = e; const std::exception& b = g; v_assert( eq( b.what(), #x), "C21 name of the cause of an assigned exception " #x);}
	CAUSES( X)
#undef X
	v_cover( "exception");
}
extern "C" void h_names()
{
	v_assert( 0 ELEMENTS( ONE) == (int)XMLScannerBase::NofElementTypes && 0 CONTROLS( ONE) == (int)NofControlCharacter && 0 ACTIONS( ONE) == (int)XMLScannerBase::NofSTMActions
		&& 1 + (0 ERRORS( ONE2)) == 1 + (int)XMLScannerBase::ErrExpectedDash2 && 0 STATES( ONE) == 1 + (int)XMLScannerBase::EXIT, "MODEL number of codes");
#define X(x) v_assert( eq( XMLScannerBase::getElementTypeName( XMLScannerBase::x), #x), "C21 name of element type " #x);
	ELEMENTS( X)
#undef X
#define X(x) v_assert( eq( XMLScannerBase::getStateString( XMLScannerBase::x), #x), "C21 name of scanner state " #x);
	STATES( X)
#undef X
#define X(x) v_assert( eq( XMLScannerBase::getActionString( XMLScannerBase::x), #x), "C21 name of scanner action " #x);
	ACTIONS( X)
#undef X
#define X(x) v_assert( eq( ControlCharacterM::name( x), #x), "C21 name of control character class " #x);
	CONTROLS( X)
#undef X
#define X(x,y) v_assert( eq( XMLScannerBase::getErrorString( XMLScannerBase::x), y), "C21 message of error " #x);
	ERRORS( X)
#undef X
	v_assert( XMLScannerBase::getErrorString( XMLScannerBase::Ok) == 0, "C21 no message without error");
	v_cover( "names");
}
extern "C" void h_automaton()
{
	typedef XMLPathSelectAutomaton<charset::UTF8> A;
#define X(x) v_assert( eq( A::operationName( A::x), #x), "C21 name of operation " #x); {A::Mask m; m.reset(); m.seekop( A::x); v_assert( eq( m.seekopName(), #x), "C21 name of seek operation " #x);}
	OPERATIONS( X)
#undef X
	A::Mask m; m.reset(); v_assert( eq( m.seekopName(), "None"), "C21 name of no seek operation");
#define X(x) v_assert( eq( XmlHdrParser::stateName( XmlHdrParser::x), #x), "C21 name of header parser state " #x);
	HDRSTATES( X)
#undef X
	v_cover( "automaton");
}
static const char* g_msg[17];
static void check( const Scanner::iterator& i, Scanner& s, uint32_t type, uint32_t err, uint64_t size)
{
	const Scanner::iterator::Element& e = *i;
	v_assert( e.type() == (XMLScannerBase::ElementType)type && i->type() == e.type(), "C21 the iterator reports the type of the element");
	v_assert( e.valid() == (type != (uint32_t)XMLScannerBase::Exit && type != (uint32_t)XMLScannerBase::ErrorOccurred), "C21 an error or the end is no valid element");
	v_assert( e.name() == XMLScannerBase::getElementTypeName( (XMLScannerBase::ElementType)type), "C21 the iterator reports the name of the element type");
	if (type == (uint32_t)XMLScannerBase::ErrorOccurred)
	{
		v_cover( "error");
		const char* m = XMLScannerBase::getErrorString( (XMLScannerBase::Error)err);
		v_assert( e.error() == m && m != 0, "C21 the iterator reports the message of the error");
		v_assert( e.content() == m && e.size() == strlen( m), "C21 the content of an error element is its message");
	}
	else
	{
		v_cover( "element");
		v_assert( e.error() == 0, "C21 no error message without error");
		v_assert( e.size() == size && e.content() == s.getItemPtr(), "C21 the iterator reports the text of the element");
	}
	uint32_t ee = 99; (void)ee;
}
// scanner errors as reported by the scanner itself
extern "C" void h_geterror()
{
	GIter it; Scanner s( it); uint32_t e = v_nd32(); v_assume( e <= (uint32_t)XMLScannerBase::ErrExpectedDash2); in_error = e;
	s.error = (XMLScannerBase::Error)e;
	const char* str = 0;
	if (v_ndb())
	{
		XMLScannerBase::Error r = s.getError( &str);
		v_assert( r == (XMLScannerBase::Error)e && str == XMLScannerBase::getErrorString( r), "C21 the scanner reports the code and the message of the error");
	}
	else v_assert( s.getError( 0) == (XMLScannerBase::Error)e, "C21 the scanner reports the code of the error");
	v_assert( s.error == XMLScannerBase::Ok, "C21 the error is reported once");
	v_cover( "error code");
}
extern "C" void h_iterator()
{
	GIter it; Scanner s( it);
	Scanner::iterator none, none2( s, false), end = s.end();
	v_assert( g_calls == 0 && none->type() == XMLScannerBase::None && none2->type() == XMLScannerBase::None && end->type() == XMLScannerBase::Exit
		&& none->error() == 0 && end->error() == 0 && none->content() == 0 && end->content() == 0 && end->size() == 0 && none->size() == 0, "C21 iterators at the begin and at the end");
	Scanner::iterator i = s.begin(); v_assert( g_calls == 1 && g_mask == 0xFFFF, "C21 begin() fetches the first element");
	uint32_t t1 = in_type, e1 = in_error; uint64_t n1 = in_size;
	check( i, s, t1, e1, n1);
	v_assert( (i == end) == (t1 == (uint32_t)XMLScannerBase::Exit) && (i != end) == !(i == end), "C21 the iteration ends with the exit element");
	v_assert( (i == none) == (t1 == (uint32_t)XMLScannerBase::None) && (none == none2), "C21 comparison");
	Scanner::iterator j( i); check( j, s, t1, e1, n1);
	if (v_ndb())
	{
		Scanner::iterator& k = ++i; v_assert( g_calls == 2 && &k == &i && g_mask == 0xFFFF, "C21 an increment fetches one element");
	}
	else
	{
		Scanner::iterator k = i++; v_assert( g_calls == 2 && g_mask == 0xFFFF, "C21 an increment fetches one element");
		v_assert( k->type() == j->type() && k->content() == j->content() && k->size() == j->size(), "C21 value of the post increment");
	}
	uint32_t t2 = in_type, e2 = in_error; uint64_t n2 = in_size;
	check( i, s, t2, e2, n2);
	none = i; check( none, s, t2, e2, n2);
	++end; v_assert( g_calls == 2 && end->type() == XMLScannerBase::Exit, "C21 an increment at the end stays there");
	v_cover( "iterator");
}
