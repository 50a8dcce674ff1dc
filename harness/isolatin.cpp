// Harness C05/C06: contracts of the ISO-8859 code pages.  PAGE: index 1..9
#define private public
#define protected public
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#undef private
#undef protected
#include "v.h"
#include "spec_charset.h"
#include "spec_iso8859.h"
using namespace textwolf;
enum {NB=4};
unsigned char in_b[NB]; uint32_t in_chr; uint32_t in_page;
struct GIter
{
	unsigned int idx;
	GIter() :idx(0){}
	char operator*() const {v_assert( idx < 1, "C02,C05 reads beyond the character"); return (char)in_b[idx];}
	GIter& operator++() {++idx; return *this;}
};
enum {NO=32};
struct GOut
{
	unsigned char b[NO]; unsigned int n;
	GOut():n(0){}
	void push_back( char c) {v_assert( n < NO, "C05 printing a character appends a bounded number of bytes"); if (n<NO) b[n++] = (unsigned char)c;}
};
static bool mayThrow = false;
extern "C" void v_on_throw() { 
	v_assert( mayThrow, "C05 supported code page index accepted");
#ifndef PAGE
	v_cover("rejected");
#endif
}
extern "C" void h_warm() { charset::IsoLatin cs( 1); }
#ifdef PAGE
extern "C" void h_decode()
{
	in_page = PAGE;
	for (int i=0;i<NB;++i) in_b[i]=v_nd8();
	charset::IsoLatin cs0( PAGE); charset::IsoLatin cs( cs0);
	char buf[8]; unsigned int pos=0; GIter itr;
	UChar r = cs.value( buf, pos, itr);
	v_cover("decode");
	v_assert( r == spec::iso_decode( PAGE, in_b[0]), "C05 byte decodes to the character of the standard");
	v_assert( itr.idx == 1 && pos == 1, "C02,C05 decode consumes one byte");
	v_assert( cs.value( buf, pos, itr) == r && itr.idx == 1, "C02,C05 decode can be repeated");
	unsigned int p2=0; GIter i2; char buf2[8];
	signed char a = charset::IsoLatin::asciichar( buf2, p2, i2);
	v_assert( a == (in_b[0] <= 127 ? (int)in_b[0] : -1), "C02 ascii view");
	charset::IsoLatin::skip( buf2, p2, i2); v_assert( i2.idx == 1, "C02,C05 skip consumes one byte");
	unsigned int p3=0; GIter i3; char buf3[8];
	charset::IsoLatin::skip( buf3, p3, i3); v_assert( i3.idx == 1, "C02,C05 skip consumes one byte");
}
extern "C" void h_print()
{
	in_page = PAGE; in_chr = v_nd32();
	charset::IsoLatin cs( PAGE); GOut out;
	cs.print( in_chr, out);
	int e = spec::iso_encode( PAGE, in_chr);
	if (e >= 0)
	{
		v_cover("print contained");
		v_assert( out.n == 1 && out.b[0] == (unsigned char)e, "C05 a character of the code page is printed as its byte");
	}
	else
	{
		v_cover("print reference");
		unsigned char r[64]; unsigned int rn = spec::reference( 1, in_chr, r);
		v_assert( out.n == rn, "C05,C06 unrepresentable character: length of the numeric reference");
		for (unsigned int i=0; i<16; ++i) if (i<rn) v_assert( out.b[i] == r[i], "C05,C06 unrepresentable character: numeric reference");
	}
}
#else
extern "C" void h_index()
{
	in_page = v_nd32();
	mayThrow = (in_page == 0 || in_page > 9);
	charset::IsoLatin cs( in_page);
	v_assert( !mayThrow, "C05 unsupported code page index rejected");
	v_cover("accepted");
	uint32_t other = v_nd32(); v_assume( other >= 1 && other <= 9);
	charset::IsoLatin co( other);
	v_assert( charset::IsoLatin::is_equal( cs, co) == (in_page == other), "C05 code pages are equal exactly if their indices are");
}
#endif
