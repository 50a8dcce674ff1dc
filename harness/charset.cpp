// Harness C01/C02/C06: contracts of the character set encodings.
// CS: character set class; KIND: 8,160/161 (utf16le/be),20/21 (ucs2),40/41 (ucs4)
#define private public
#define protected public
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#undef private
#undef protected
#include "v.h"
#include "spec_charset.h"
using namespace textwolf;

// ---- contract of a source iterator (input side): '*' reads the current byte any number of times, '++' advances
enum {NB=24};
unsigned char in_b[NB];
struct GIter
{
	unsigned int idx;
	GIter() :idx(0){}
	char operator*() const {v_assert( idx < NB, "C02 reads beyond the announced character"); return (char)in_b[idx];}
	GIter& operator++() {++idx; return *this;}
};
// ---- contract of an output buffer: back insertion sequence
enum {NO=128};
struct GOut
{
	unsigned char b[NO]; unsigned int n;
	GOut():n(0){}
	void push_back( char c) {v_assert( n < NO, "C01 printing a character appends a bounded number of bytes"); if (n<NO) b[n++] = (unsigned char)c;}
};
typedef charset::CS Charset;
uint32_t in_chr;

static void nd_bytes() { for (int i=0;i<NB;++i) in_b[i]=v_nd8(); }

extern "C" void h_print()
{
	in_chr = v_nd32();
	Charset cs; GOut out;
	cs.print( in_chr, out);
	unsigned char e[8]; unsigned int n = spec::encode( KIND, in_chr, e);
	if (n)
	{
		v_cover("print representable");
		v_assert( out.n == n, "C01 print appends exactly the encoded length");
		for (unsigned int i=0; i<n; ++i) v_assert( out.b[i] == e[i], "C01 print appends exactly the standard bytes");
	}
	else if (spec::needs_ref( KIND, in_chr))
	{
#if KIND != 40 && KIND != 41
		v_cover("print reference");
#endif
		unsigned char r[ 64]; unsigned int rn = spec::reference( KIND, in_chr, r);
		v_assert( out.n == rn, "C06 unrepresentable character: length of the numeric reference");
		for (unsigned int i=0; i<48; ++i) if (i<rn) v_assert( out.b[i] == r[i], "C06 unrepresentable character: numeric reference");
	}
}
// decode what the standard prescribes for chr, followed by arbitrary bytes
extern "C" void h_decode()
{
	in_chr = v_nd32(); nd_bytes();
	unsigned char e[8]; unsigned int n = spec::encode( KIND, in_chr, e);
	v_assume( n != 0);
	for (unsigned int i=0; i<n; ++i) in_b[i] = e[i];
	v_cover("decode");
	char buf[8]; for (int i=0;i<8;++i) buf[i]=(char)v_nd8();
	unsigned int pos = 0; GIter itr; Charset cs;
	UChar r = cs.value( buf, pos, itr);
	v_assert( r == in_chr, "C01 decode inverts encode");
	v_assert( itr.idx == n, "C01 decode consumes exactly the bytes of the character");
	v_assert( pos == n, "C01 decode reports the bytes fetched");
	// the character again, from the filled buffer
	UChar r2 = cs.value( buf, pos, itr);
	v_assert( r2 == in_chr && itr.idx == n && pos == n, "C01 decode can be repeated");
	// skip from the start and after the fetch
	unsigned int p2 = 0; GIter i2; char buf2[8];
	Charset::skip( buf2, p2, i2);
	v_assert( i2.idx == n, "C01 skip consumes exactly the bytes of the character");
	Charset::skip( buf, pos, itr);
	v_assert( itr.idx == n, "C01 skip after decode consumes nothing more");
	unsigned int p3 = 0; GIter i3; char buf3[8];
	signed char a = Charset::asciichar( buf3, p3, i3);
	v_assert( a == (in_chr <= 127 ? (int)in_chr : -1), "C02 ascii view");
	UChar r3 = cs.value( buf3, p3, i3);
	v_assert( r3 == in_chr && i3.idx == n, "C01 decode after the ascii view");
}
// arbitrary bytes
extern "C" void h_arbitrary()
{
	nd_bytes(); v_cover("arbitrary");
	unsigned int n = spec::announced( KIND, in_b);
	char buf[8]; unsigned int pos = 0; GIter itr; Charset cs;
	UChar r = cs.value( buf, pos, itr);
	v_assert( itr.idx == n, "C02 decode consumes the announced number of bytes");
	v_assert( pos == n, "C02 decode reports the announced number of bytes");
	uint32_t want; 
	if (spec::decode( KIND, in_b, want)) v_assert( r == want, "C02 decoded value / replacement value");
	unsigned int p2 = 0; GIter i2; char buf2[8];
	Charset::skip( buf2, p2, i2);
	v_assert( i2.idx == n, "C02 skip consumes the announced number of bytes");
	unsigned int p3 = 0; GIter i3; char buf3[8];
	signed char a = Charset::asciichar( buf3, p3, i3);
	v_assert( i3.idx == p3 && p3 <= n, "C02 ascii view does not leave the character");
	uint32_t av;
	if (spec::ascii_code( KIND, in_b, av)) v_assert( a == (av <= 127 ? (int)av : -1), "C02 ascii view");
	Charset::skip( buf3, p3, i3);
	v_assert( i3.idx == n, "C02 skip after the ascii view consumes the announced number of bytes");
	unsigned int p4 = 0; GIter i4; char buf4[8];
	Charset::fetchbytes( buf4, p4, i4);
	v_assert( p4 == n && i4.idx == n, "C02,C03 fetch gets all bytes of the character");
	for (unsigned int i=0; i<8; ++i) if (i<p4) v_assert( (unsigned char)buf4[i] == in_b[i], "C02 fetch copies the source bytes");
	UChar r4 = cs.value( buf4, p4, i4);
	v_assert( i4.idx == n && r4 == r, "C02 decode after fetch");
}
