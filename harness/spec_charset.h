// Specification of the encodings, written from the standards (RFC 3629/2279, ISO 10646); independent of /repo.
#ifndef SPEC_CHARSET_H
#define SPEC_CHARSET_H
#include <stdint.h>
namespace spec {
// kind: 8 UTF-8; 160/161 UTF-16 LE/BE; 20/21 UCS-2 LE/BE; 40/41 UCS-4 LE/BE
// bytes of the character, 0 if not representable (or not defined)
static inline unsigned int unit2( int be, uint32_t u, unsigned char* e)
{
	if (be) {e[0]=(unsigned char)(u>>8); e[1]=(unsigned char)u;} else {e[1]=(unsigned char)(u>>8); e[0]=(unsigned char)u;}
	return 2;
}
static inline unsigned int encode( int kind, uint32_t c, unsigned char* e)
{
	if (kind == 8)
	{
		if (c < 0x80) {e[0]=(unsigned char)c; return 1;}
		if (c < 0x800) {e[0]=(unsigned char)(0xC0|(c>>6)); e[1]=(unsigned char)(0x80|(c&0x3F)); return 2;}
		if (c < 0x10000) {e[0]=(unsigned char)(0xE0|(c>>12)); e[1]=(unsigned char)(0x80|((c>>6)&0x3F)); e[2]=(unsigned char)(0x80|(c&0x3F)); return 3;}
		if (c < 0x200000) {e[0]=(unsigned char)(0xF0|(c>>18)); e[1]=(unsigned char)(0x80|((c>>12)&0x3F)); e[2]=(unsigned char)(0x80|((c>>6)&0x3F)); e[3]=(unsigned char)(0x80|(c&0x3F)); return 4;}
		if (c < 0x4000000) {e[0]=(unsigned char)(0xF8|(c>>24)); e[1]=(unsigned char)(0x80|((c>>18)&0x3F)); e[2]=(unsigned char)(0x80|((c>>12)&0x3F)); e[3]=(unsigned char)(0x80|((c>>6)&0x3F)); e[4]=(unsigned char)(0x80|(c&0x3F)); return 5;}
		if (c < 0x80000000u) {e[0]=(unsigned char)(0xFC|(c>>30)); e[1]=(unsigned char)(0x80|((c>>24)&0x3F)); e[2]=(unsigned char)(0x80|((c>>18)&0x3F)); e[3]=(unsigned char)(0x80|((c>>12)&0x3F)); e[4]=(unsigned char)(0x80|((c>>6)&0x3F)); e[5]=(unsigned char)(0x80|(c&0x3F)); return 6;}
		return 0;
	}
	if (kind == 20 || kind == 21) return c <= 0xFFFF ? unit2( kind&1, c, e) : 0;
	if (kind == 40) {e[0]=(unsigned char)c; e[1]=(unsigned char)(c>>8); e[2]=(unsigned char)(c>>16); e[3]=(unsigned char)(c>>24); return 4;}
	if (kind == 41) {e[3]=(unsigned char)c; e[2]=(unsigned char)(c>>8); e[1]=(unsigned char)(c>>16); e[0]=(unsigned char)(c>>24); return 4;}
	// UTF-16
	if (c >= 0xD800 && c <= 0xDFFF) return 0;
	if (c <= 0xFFFF) return unit2( kind&1, c, e);
	if (c > 0x10FFFF) return 0;
	c -= 0x10000;
	unit2( kind&1, 0xD800 + (c>>10), e); unit2( kind&1, 0xDC00 + (c&0x3FF), e+2);
	return 4;
}
// characters for which a numeric reference must be printed
static inline bool needs_ref( int kind, uint32_t c)
{
	if (kind == 8) return c > 0x7FFFFFFFu;
	if (kind == 20 || kind == 21) return c > 0xFFFF;
	if (kind == 160 || kind == 161) return (c >= 0xD800 && c <= 0xDBFF) || c > 0x10FFFF;
	return false;
}
static inline unsigned int put_ascii( int kind, unsigned char ch, unsigned char* r)
{
	if (kind == 8 || kind == 1) {r[0]=ch; return 1;}
	if (kind == 40) {r[0]=ch; r[1]=r[2]=r[3]=0; return 4;}
	if (kind == 41) {r[3]=ch; r[0]=r[1]=r[2]=0; return 4;}
	return unit2( kind&1, ch, r);
}
// canonical reference: "&#x" lower case hex digits without leading zeros ";"
static inline unsigned int reference( int kind, uint32_t c, unsigned char* r)
{
	unsigned int n=0; bool lead=true;
	n += put_ascii( kind, '&', r+n); n += put_ascii( kind, '#', r+n); n += put_ascii( kind, 'x', r+n);
	for (int sh=28; sh>=0; sh-=4)
	{
		unsigned int d = (c >> sh) & 0xF;
		if (d == 0 && lead && sh) continue;
		lead = false;
		n += put_ascii( kind, (unsigned char)(d < 10 ? '0'+d : 'a'+(d-10)), r+n);
	}
	n += put_ascii( kind, ';', r+n);
	return n;
}
static inline uint32_t rd2( int be, const unsigned char* b) {return be ? ((uint32_t)b[0]<<8)|b[1] : ((uint32_t)b[1]<<8)|b[0];}
// number of bytes announced by the first unit
static inline unsigned int announced( int kind, const unsigned char* b)
{
	switch (kind)
	{
		case 1: return 1;
		case 8:
		{
			unsigned int c = b[0];
			if (c < 0xC0) return 1;
			if (c < 0xE0) return 2;
			if (c < 0xF0) return 3;
			if (c < 0xF8) return 4;
			if (c < 0xFC) return 5;
			if (c < 0xFE) return 6;
			return c == 0xFE ? 7 : 8;
		}
		case 20: case 21: return 2;
		case 40: case 41: return 4;
		default:
		{
			uint32_t u = rd2( kind&1, b);
			return (u >= 0xD800 && u <= 0xDBFF) ? 4 : 2;
		}
	}
}
// value the decoder has to return; false if not specified
static inline bool decode( int kind, const unsigned char* b, uint32_t& v)
{
	if (kind == 8)
	{
		unsigned int n = announced( 8, b);
		if (b[0] < 0x80) {v = b[0]; return true;}
		if (b[0] < 0xC0) {v = 0x7FFFFFFF; return true;}
		for (unsigned int i=1; i<n; ++i) if ((b[i]&0xC0) != 0x80) {v = 0x7FFFFFFF; return true;}
		if (n > 6) return false;	// FE, FF: not part of any standard
		v = b[0] & (0x7F >> n);
		for (unsigned int i=1; i<n; ++i) v = (v<<6)|(b[i]&0x3F);
		return true;
	}
	if (kind == 20 || kind == 21) {v = rd2( kind&1, b); return true;}
	if (kind == 40) {v = (uint32_t)b[0]|((uint32_t)b[1]<<8)|((uint32_t)b[2]<<16)|((uint32_t)b[3]<<24); return true;}
	if (kind == 41) {v = (uint32_t)b[3]|((uint32_t)b[2]<<8)|((uint32_t)b[1]<<16)|((uint32_t)b[0]<<24); return true;}
	uint32_t u = rd2( kind&1, b);
	if (u < 0xD800 || u > 0xDFFF) {v = u; return true;}
	if (u > 0xDBFF) return false;		// lone trail surrogate: not specified
	uint32_t w = rd2( kind&1, b+2);
	if (w < 0xDC00 || w > 0xDFFF) {v = 0xFFFF; return true;}
	v = 0x10000 + ((u-0xD800)<<10) + (w-0xDC00);
	return true;
}
static inline bool ascii_code( int kind, const unsigned char* b, uint32_t& v)
{
	if (kind == 8 || kind == 1) {v = b[0]; return true;}
	if (decode( kind, b, v)) return true;
	v = 0xFFFF; return true;		// lone trail surrogate is not ASCII in any reading
}
}
#endif
