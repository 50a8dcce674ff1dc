// native oracle for C05 (ISO-8859 code pages), also the ISO-8859 part of C02, C06
#include "oracle.h"
#include "textwolf/charset.hpp"
#include "spec_charset.h"
#include "spec_iso8859.h"
using namespace textwolf;
using namespace orc;
struct Itr { const unsigned char* p; unsigned int idx; Itr( const unsigned char* p_):p(p_),idx(0){} char operator*() const {if (idx >= 1) fail("decoder reads beyond the character"); return (char)p[idx];} Itr& operator++() {++idx; return *this;} };
static void chr( charset::IsoLatin& cs, unsigned int page, uint32_t c)
{
	++cases; std::string out; cs.print( c, out);
	std::string id = "page="+str(page)+" chr="+str(c);
	int e = spec::iso_encode( page, c);
	if (e >= 0) { if (out != std::string( 1, (char)e)) fail( id+" print gives "+quote(out)+" expected byte "+str(e)); return; }
	if (prop == "C05" && out.size() == 1) fail( id+" not in the page but printed as raw byte "+quote(out));
	++nontrivial;
	bool ok = out.size() > 4 && out.substr(0,3) == "&#x" && out[out.size()-1] == ';';
	if (ok) { char* ep; ok = strtoull( out.c_str()+3, &ep, 16) == c && *ep == ';' && ep == out.c_str()+out.size()-1; }
	if (!ok) fail( id+" print gives "+quote(out)+" which is not a reference to the character");
}
static void byte( charset::IsoLatin& cs, unsigned int page, unsigned int b)
{
	++cases; unsigned char m[4] = {(unsigned char)b,0x41,0x42,0x43};
	for (int order=0; order<3; ++order)
	{
		struct {char pre[8]; char buf[8]; char post[8];} s; memset( &s, 0x5A, sizeof s); unsigned int pos=0; Itr itr(m);
		std::string id = "page="+str(page)+" byte="+str(b);
		if (order == 1) { int a = charset::IsoLatin::asciichar( s.buf, pos, itr); if (a != (b <= 127 ? (int)b : -1)) fail( id+" ascii view "+str(a)); }
		if (order == 2) { charset::IsoLatin::skip( s.buf, pos, itr); if (itr.idx != 1) fail( id+" skip consumes "+str(itr.idx)); continue; }
		uint32_t v = cs.value( s.buf, pos, itr);
		if (v != spec::iso_decode( page, (unsigned char)b)) fail( id+" decodes to "+str(v)+" expected "+str(spec::iso_decode( page, (unsigned char)b)));
		charset::IsoLatin::skip( s.buf, pos, itr);
		if (itr.idx != 1) fail( id+" consumes "+str(itr.idx));
	}
}
static bool accepted( unsigned int page) { try { charset::IsoLatin cs( page); return true; } catch (const textwolf::exception& e) { return false; } }
int main( int argc, const char** argv)
{
	init( argc, argv);
	std::multimap<std::string,std::string>::const_iterator i;
	for (i = args.lower_bound("page"); i != args.upper_bound("page"); ++i) { unsigned int p = (unsigned int)strtoul( i->second.c_str(),0,10); if (accepted( p) != (p >= 1 && p <= 9)) fail( "code page index "+str(p)+(accepted(p)?" accepted":" rejected")); }
	for (uint64_t p=0; p<20000; ++p) { unsigned int q = p < 40 ? p : (unsigned int)rnd() >> rndn(32); if (p >= 40 && p < 40+32) q = 1U << (p-40); if (accepted( q) != (q >= 1 && q <= 9)) fail( "code page index "+str(q)+(accepted(q)?" accepted":" rejected")); }
	for (unsigned int p=1; p<=9; ++p) for (unsigned int q=1; q<=9; ++q) { charset::IsoLatin a( p), b( q); if (charset::IsoLatin::is_equal( a, b) != (p == q)) fail( "is_equal of pages "+str(p)+" "+str(q)); }
	for (unsigned int p=1; p<=9; ++p)
	{
		charset::IsoLatin cs0( p); charset::IsoLatin cs( cs0);
		for (unsigned int b=0; b<256; ++b) byte( cs, p, b);
		for (i = args.lower_bound("chr"); i != args.upper_bound("chr"); ++i) chr( cs, p, (uint32_t)strtoul( i->second.c_str(),0,10));
		for (int k=0; k<32; ++k) for (int d=-3; d<=3; ++d) chr( cs, p, (uint32_t)((1ULL<<k)+d));
		for (unsigned int c=part; c<0x110000; c+=parts) chr( cs, p, c);
		for (int k=0; k<20000; ++k) { chr( cs, p, (uint32_t)rnd() >> rndn(16)); chr( cs, p, ((uint32_t)rnd() << 16) | spec::iso8859[p-1][rndn(128)]); }
	}
	summary(); return 0;
}
