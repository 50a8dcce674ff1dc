// Native oracle C18: random headers (well-formed and malformed) in all paddings, fed in pieces of any size, on copies and after clear(), against the specification
#include "oracle.h"
#include "textwolf/xmlhdrparser.hpp"
#include "spec_xmlhdr.h"
using namespace orc; using namespace textwolf;
typedef spechdr::Header<std::string> Spec;
static std::string sp() { std::string r; unsigned int n = rndn( 3); for (unsigned int i=0; i<n; ++i) r += " \t\r\n"[ rndn( 4)]; return r; }
static std::string value()
{
	static const char* v[] = {"UTF-8","UTF-16LE","isolatin-1","yes","1.0","","?>","a'b","a\"b","\xc3\xbc",0};
	if (rndn( 3)) return v[ rndn( 9)];
	std::string r; unsigned int n = rndn( 4) ? rndn( 12) : rndn( 600); for (unsigned int i=0; i<n; ++i) r += (char)(1 + rndn( 255)); return r;
}
static std::string attr()
{
	static const char* n[] = {"encoding","encoding","version","standalone","encodin","encodingx","Encoding","versio","standalone1","en coding","x"};
	std::string v = value(); char q = rndn( 2) ? '"' : '\''; std::string w; for (std::size_t i=0; i<v.size(); ++i) if (v[i] != q) w += v[i];
	return std::string( n[ rndn( rndn( 4) ? 4 : 11)]) + sp() + "=" + sp() + q + w + q;
}
static std::string header()
{
	std::string h = sp() + "<" + (rndn( 5) ? std::string() : sp()) + "?" + (rndn( 10) ? "xml" : rndn( 2) ? "xm" : "xmlx") + (rndn( 10) ? " " : "");
	unsigned int n = rndn( 4); for (unsigned int i=0; i<n; ++i) h += attr() + (rndn( 5) ? " " : "") + sp();
	h += "?>\n<a>bla</a>";
	while (rndn( 4) == 0 && !h.empty()) { unsigned int p = rndn( h.size()); switch (rndn( 3)) { case 0: h.erase( p, 1); break; case 1: h.insert( p, 1, "<>?='\"a/ \x80@[`{"[ rndn( 14)]); break; case 2: h[p] = (char)(1 + rndn( 255)); break; } }
	if (rndn( 12) == 0) h.resize( rndn( h.size()+1));
	return h;
}
static std::string pad( const std::string& h, unsigned int before, unsigned int after, unsigned int extra)
{
	std::string r; for (std::size_t i=0; i<h.size(); ++i) { r += std::string( before, '\0') + h[i] + std::string( after, '\0'); if (extra && rndn( 40) == 0) r += std::string( extra, '\0'); }
	return r;
}
static void run()
{
	static const unsigned int P[][2] = {{0,0},{1,0},{0,1},{3,0},{0,3}};
	unsigned int e = rndn( 5), extra = rndn( 10) ? 0 : 1 + rndn( 4);
	std::string h = header(), src = pad( h, P[e][0], P[e][1], extra);
	// specification
	Spec q; int out = spechdr::More; unsigned int z = 0; bool zeros = false; std::size_t used = src.size();
	for (std::size_t i=0; i<src.size() && out == spechdr::More && !zeros; ++i)
	{
		if (src[i] == 0) zeros = ++z == 4; else { z = 0; out = spechdr::step( q, (uint8_t)src[i]); }
		if (out != spechdr::More || zeros) used = i+1;
	}
	(void)used;
	for (unsigned int k=0; k<3; ++k)
	{
		++cases; if (out == spechdr::Done) ++nontrivial;
		XmlHdrParser* p = new XmlHdrParser(); std::string cut; std::size_t pos = 0; bool rt = false, ex = false;
		if (rndn( 4) == 0) { p->putInput( "<?xml encoding='x' vers", rndn( 20)); p->parse(); p->clear(); cut = " (after clear)"; }
		unsigned int max = k == 0 ? src.size() : 1 + rndn( rndn( 2) ? 4 : 60);
		do
		{
			std::size_t n = k == 0 ? src.size() : rndn( max+1); if (n > src.size() - pos) n = src.size() - pos;
			char* m = new char[ n+1]; memcpy( m, src.data()+pos, n); p->putInput( m, n); delete [] m; pos += n; cut += " " + str( n);
			if (rndn( 5) == 0) { XmlHdrParser* c = new XmlHdrParser( *p); delete p; p = c; cut += "c"; }
			try { rt = p->parse(); } catch (const textwolf::exception& x) { ex = true; if (x.cause != textwolf::exception::Cause( throws_exception::IllegalXmlHeader)) fail( "exception " + std::string( x.what())); }
		}
		while (!rt && !ex && !p->lasterror() && pos < src.size());
		std::string w = "header " + quote( h) + " padded " + str( P[e][0]) + "," + str( P[e][1]) + " source " + hex( src).substr( 0, 200) + " fed" + cut;
		if (ex != zeros) fail( w + (ex ? ": throws" : ": does not refuse a run of zero bytes"));
		if (!ex)
		{
			if (rt != (out == spechdr::Done)) fail( w + ": parse() returns " + str( rt));
			if ((p->lasterror() != 0) != (out == spechdr::Malformed)) fail( w + ": error " + (p->lasterror() ? p->lasterror() : "NULL") + (out == spechdr::Malformed ? " expected one" : " expected none"));
			if (p->lasterror() && !*p->lasterror()) fail( w + ": empty error message");
			const char* enc = p->encoding();
			if (q.enc.empty() ? enc != 0 : (!enc || q.enc != enc)) fail( w + ": encoding " + (enc ? quote( enc) : "NULL") + " expected " + quote( q.enc));
			if (p->consumedData() != src.substr( 0, pos)) fail( w + ": source kept differs");
		}
		delete p;
	}
}
int main( int argc, const char** argv) { init( argc, argv); do run(); while (!timeup()); summary(); return 0; }
