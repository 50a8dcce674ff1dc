// Harness C06: contract of charset::Encoder::encode for every buffer size
#define private public
#include "textwolf/char.hpp"
#include "textwolf/charset_interface.hpp"
#undef private
#include "v.h"
#include "spec_charset.h"
using namespace textwolf;
uint32_t in_chr; uint64_t in_bufsize;
unsigned char g_mem[ 48];
extern "C" void h_encode()
{
	in_chr = v_nd32(); in_bufsize = v_nd64();
	unsigned char r[ 64]; unsigned int rn = spec::reference( 8, in_chr, r);
	// the buffer ends at the end of its object: writing beyond is a failed pointer check.  Sizes above 48
	// cannot make a difference that the contract allows (at most 13 bytes are written): the buffer is then larger than needed
	char* p = (char*)g_mem + (in_bufsize < sizeof(g_mem) ? sizeof(g_mem) - in_bufsize : 0);
	bool ok = charset::Encoder::encode( in_chr, p, in_bufsize);
	v_cover("encode");
	v_assert( ok == (rn + 1 <= in_bufsize), "C06 encode reports overflow exactly");
	if (ok)
	{
		v_cover("encode fits");
		for (unsigned int i=0; i<16; ++i) if (i<rn) v_assert( (unsigned char)p[i] == r[i], "C06 encode writes the reference");
		v_assert( p[rn] == 0, "C06 encode terminates the string");
	}
}
