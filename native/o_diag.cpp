// Native oracle C21: all names on the real code, and the element iterator against nextItem on random documents with errors
#include "oracle.h"
#define private public
#define protected public
#include "textwolf/exception.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/charset.hpp"
#undef private
#undef protected
#include "spec_names.h"
using namespace orc; using namespace textwolf;
static void eq( const char* a, const char* b, const std::string& what) { ++cases; if (!a || strcmp( a, b)) fail( "name of " + what + " is " + (a ? quote( a) : std::string("NULL")) + " expected " + quote( b)); }
static void names()
{
#define X(x) {textwolf::exception e( throws_exception::x); eq( e.what(), #x, "exception cause " #x); textwolf::exception f( e); eq( f.what(), #x, "copied exception cause " #x); textwolf::exception g( throws_exception::Unknown); g = e; const std::exception& b = g; eq( b.what(), #x, "assigned exception cause " #x); \
	try {throw e;} catch (const std::exception& h) {eq( h.what(), #x, "caught exception cause " #x);}}
	CAUSES( X)
#undef X
#define X(x) eq( XMLScannerBase::getElementTypeName( XMLScannerBase::x), #x, "element type " #x);
	ELEMENTS( X)
#undef X
#define X(x) eq( XMLScannerBase::getStateString( XMLScannerBase::x), #x, "scanner state " #x);
	STATES( X)
#undef X
#define X(x) eq( XMLScannerBase::getActionString( XMLScannerBase::x), #x, "scanner action " #x);
	ACTIONS( X)
#undef X
#define X(x) eq( ControlCharacterM::name( x), #x, "control character class " #x);
	CONTROLS( X)
#undef X
#define X(x,y) eq( XMLScannerBase::getErrorString( XMLScannerBase::x), y, "error " #x);
	ERRORS( X)
#undef X
	if (XMLScannerBase::getErrorString( XMLScannerBase::Ok)) fail( "error message for Ok");
	typedef XMLPathSelectAutomaton<charset::UTF8> A;
#define X(x) eq( A::operationName( A::x), #x, "operation " #x); {A::Mask m; m.reset(); m.seekop( A::x); eq( m.seekopName(), #x, "seek operation " #x);}
	OPERATIONS( X)
#undef X
#define X(x) eq( XmlHdrParser::stateName( XmlHdrParser::x), #x, "header parser state " #x);
	HDRSTATES( X)
#undef X
}
static const char* frag[] = {"<?xml version=\"1.0\"?>","<a>","</a>","<b x='1'/>","<b x=1>"," text ","&amp;","&nosuch;","<!--c-->","<!-x","<![CDATA[x]]>","<!DOCTYPE a SYSTEM 'b'>","<a x","='","\"","<","<?xm","?>","\n",0};
static void run()
{
	std::string doc; unsigned int n = rndn( 8), nf=0; while (frag[nf]) ++nf;
	if (rndn( 2)) doc = "<?xml version=\"1.0\"?>\n<r>";
	for (unsigned int i=0; i<n; ++i) doc += frag[ rndn( nf)];
	typedef XMLScanner<CStringIterator,charset::UTF8,charset::UTF8,std::string> S;
	CStringIterator i1( doc), i2( doc);
	S s1( i1), s2( i2); bool post = rndn( 2);
	S::iterator it = s1.begin(), end = s1.end();
	for (unsigned int k=0; k<400; ++k)
	{
		++cases;
		XMLScannerBase::ElementType t = s2.nextItem(); const char* m = 0; XMLScannerBase::Error e = XMLScannerBase::Ok;
		std::string w = "element " + str( k) + " of " + quote( doc);
		if (it->type() != t || strcmp( it->name(), XMLScannerBase::getElementTypeName( t))) fail( w + ": iterator reports type " + it->name() + " expected " + XMLScannerBase::getElementTypeName( t));
		if (t == XMLScannerBase::ErrorOccurred)
		{
			++nontrivial; e = s2.getError( &m);
			if (!m || e == XMLScannerBase::Ok) fail( w + ": error without message");
			if (!it->error() || strcmp( it->error(), m) || !it->content() || std::string( it->content(), it->size()) != m) fail( w + ": iterator reports error " + (it->error() ? quote( it->error()) : "NULL") + " expected " + quote( m));
			if (it->valid()) fail( w + ": error is valid element");
			break;
		}
		if (it->error()) fail( w + ": iterator reports an error for " + it->name());
		if (std::string( it->content(), it->size()) != s2.getItem()) fail( w + ": iterator reports the text " + quote( std::string( it->content(), it->size())) + " expected " + quote( s2.getItem()));
		if ((it == end) != (t == XMLScannerBase::Exit) || (it != end) == (it == end)) fail( w + ": comparison with end()");
		if (it->valid() != (t != XMLScannerBase::Exit)) fail( w + ": valid()");
		if (t == XMLScannerBase::Exit) break;
		if (post) { S::iterator o = it++; if (o->type() != t) fail( w + ": value of the post increment"); } else ++it;
	}
}
int main( int argc, const char** argv) { init( argc, argv); names(); do run(); while (!timeup()); summary(); return 0; }
