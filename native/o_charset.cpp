// native oracle for C01, C02, C06 (Unicode encodings)
#include "oracle.h"
#include "textwolf/charset.hpp"
#include "spec_charset.h"
using namespace textwolf;
using namespace orc;
struct Itr { const unsigned char* p; unsigned int idx; Itr( const unsigned char* p_):p(p_),idx(0){} char operator*() const {if (idx >= 24) {fail("decoder reads beyond the character: "+hex(std::string((const char*)p,24)));} return (char)p[idx];} Itr& operator++() {++idx; return *this;} };

template <class CS> struct Test
{
	int kind; const char* name;
	Test( int k, const char* n):kind(k),name(n){}
	void chr( uint32_t c)
	{
		++cases;
		CS cs; std::string out; cs.print( c, out);
		unsigned char e[8]; unsigned int n = spec::encode( kind, c, e);
		std::string id = std::string("encoding=")+name+" chr="+str(c);
		if (n)
		{
			if (prop == "C06") return;
			std::string exp( (char*)e, n);
			if (prop == "C01" && out != exp) fail( id+" print gives "+hex(out)+" expected "+hex(exp));
			unsigned char b[32]; for (int i=0; i<32; ++i) b[i] = (unsigned char)rnd();
			memcpy( b, e, n);
			for (int order=0; order<3; ++order)
			{
				char buf[8]; unsigned int pos=0; Itr itr(b);
				if (order == 1)
				{
					int a = CS::asciichar( buf, pos, itr); int w = c <= 127 ? (int)c : -1;
					if (a != w && prop == "C02") fail( id+" ascii view "+str(a)+" expected "+str(w));
				}
				if (order == 2)
				{
					CS::skip( buf, pos, itr);
					if (itr.idx != n) fail( id+" skip consumes "+str(itr.idx)+" bytes, expected "+str(n));
					continue;
				}
				uint32_t v = cs.value( buf, pos, itr);
				if (v != c || itr.idx != n || pos != n) fail( id+" decoding "+hex(exp)+" gives "+str(v)+" consuming "+str(itr.idx)+" expected "+str(n));
				v = cs.value( buf, pos, itr); CS::skip( buf, pos, itr);
				if (v != c || itr.idx != n) fail( id+" repeated decoding gives "+str(v)+" consuming "+str(itr.idx));
			}
		}
		else if (spec::needs_ref( kind, c) && prop == "C06")
		{
			++nontrivial;
			unsigned char r[64]; unsigned int rn = spec::reference( kind, c, r); std::string exp( (char*)r, rn);
			// any hexadecimal reference that denotes the character is accepted
			if (out != exp)
			{
				std::string t; unsigned int us = kind == 8 ? 1 : 2; bool ok = out.size() % us == 0;
				for (std::size_t i=0; ok && i<out.size(); i+=us) { uint32_t v; if (us == 1) v = (unsigned char)out[i]; else v = spec::rd2( kind&1, (const unsigned char*)out.data()+i); if (v > 127) ok = false; else t += (char)v; }
				if (ok) { char* endp; ok = t.size() > 4 && t.substr(0,3) == "&#x" && t[t.size()-1] == ';'; if (ok) { unsigned long long v = strtoull( t.c_str()+3, &endp, 16); ok = (v == c && *endp == ';' && endp == t.c_str()+t.size()-1); } }
				if (!ok) fail( id+" print gives "+hex(out)+" which is not a reference to the character");
			}
		}
	}
	void bytes( const unsigned char* b)
	{
		++cases; ++nontrivial;
		CS cs; unsigned int n = spec::announced( kind, b); uint32_t want; bool has = spec::decode( kind, b, want);
		std::string id = std::string("encoding=")+name+" bytes="+hex(std::string((const char*)b,8));
		struct {char pre[8]; char buf[8]; char post[8];} m;
		for (int order=0; order<4; ++order)
		{
			memset( &m, 0x5A, sizeof m);
			unsigned int pos=0; Itr itr(b);
			if (order == 0 || order == 2)
			{
				if (order == 2) CS::fetchbytes( m.buf, pos, itr);
				uint32_t v = cs.value( m.buf, pos, itr);
				if (itr.idx != n || pos != n) fail( id+" decode consumes "+str(itr.idx)+" expected "+str(n));
				if (has && v != want) fail( id+" decodes to "+str(v)+" expected "+str(want));
			}
			else
			{
				if (order == 3)
				{
					int a = CS::asciichar( m.buf, pos, itr); uint32_t av;
					if (spec::ascii_code( kind, b, av) && a != (av <= 127 ? (int)av : -1)) fail( id+" ascii view "+str(a));
				}
				CS::skip( m.buf, pos, itr);
				if (itr.idx != n) fail( id+" skip consumes "+str(itr.idx)+" expected "+str(n));
			}
			for (int i=0; i<8; ++i) if (m.pre[i] != 0x5A || m.post[i] != 0x5A) fail( id+" writes outside of the 8 byte buffer");
		}
	}
	void run()
	{
		if (prop != "C02") { std::multimap<std::string,std::string>::const_iterator i = args.lower_bound("chr"); for (; i != args.upper_bound("chr"); ++i) chr( (uint32_t)strtoul( i->second.c_str(),0,10)); }
		if (prop == "C02")
		{
			unsigned char b[32]; memset( b, 0, sizeof b); bool any=false;
			for (int k=0; k<24; ++k) { std::multimap<std::string,std::string>::const_iterator i = args.find("b["+str(k)+"]"); if (i != args.end()) {b[k] = (unsigned char)atoi( i->second.c_str()); any=true;} }
			if (any) bytes( b);
			// all combinations of the interesting values of the first two bytes, edge values after
			static const unsigned char ev[] = {0,0x41,0x7F,0x80,0xBF,0xC0,0xD7,0xD8,0xDB,0xDC,0xDF,0xE0,0xFF};
			for (unsigned int x=0; x<65536; ++x) for (unsigned int k=0; k<3; ++k)
			{
				b[0]=x>>8; b[1]=x;
				for (int i=2; i<32; ++i) b[i] = k == 0 ? 0x80|(rnd()&0x3F) : ev[rndn(sizeof ev)];
				bytes( b);
				if (k == 1) { for (int i=1; i<8; ++i) b[i] = 0x80|(rnd()&0x3F); b[1+rndn(7)] = (unsigned char)rnd(); bytes( b); }
			}
			for (uint32_t c=part; c<0x110000; c+=parts*3) chr( c);
			return;
		}
		// all characters of the first 17 planes, all powers of two and their neighbours, random ones
		for (int k=0; k<32; ++k) for (int d=-3; d<=3; ++d) chr( (uint32_t)((1ULL<<k)+d));
		for (uint32_t c=part; c<0x120000; c+=parts) chr( c);
	}
};
template <class CS> static void rest( Test<CS>& t, double until) { while (now() < until) for (int k=0; k<1000; ++k) t.chr( (uint32_t)rnd() >> rndn(16)); }
#ifndef NOENC
static bool (*enc)( UChar, char*, std::size_t) = &charset::Encoder::encode;
static void encoder()
{
	for (int k=0; k<20000; ++k)
	{
		uint32_t c = (uint32_t)rnd() >> rndn(32); if (k < 33) c = k == 32 ? 0 : 1U<<k;
		std::size_t sz = rndn( 16); char m[48]; memset( m, 0x5A, sizeof m);
		bool ok = enc( c, m+16, sz); ++cases; ++nontrivial;
		unsigned char r[64]; unsigned int rn = spec::reference( 8, c, r);
		std::string id = "encode chr="+str(c)+" bufsize="+str(sz);
		if (ok != (rn + 1 <= sz)) fail( id+" returns "+str(ok));
		for (int i=0; i<48; ++i) if ((i < 16 || i >= 16+(int)sz) && m[i] != 0x5A) fail( id+" writes outside of the buffer");
		if (ok && std::string( m+16) != std::string( (char*)r, rn)) { if (strtoul( m+19, 0, 16) != c || strncmp( m+16, "&#x", 3)) fail( id+" writes "+quote( m+16)); }
	}
}
#endif
int main( int argc, const char** argv)
{
	init( argc, argv);
	Test<charset::UTF8> t1(8,"UTF-8"); Test<charset::UTF16LE> t2(160,"UTF-16LE"); Test<charset::UTF16BE> t3(161,"UTF-16BE");
	Test<charset::UCS2LE> t4(20,"UCS-2LE"); Test<charset::UCS2BE> t5(21,"UCS-2BE"); Test<charset::UCS4LE> t6(40,"UCS-4LE"); Test<charset::UCS4BE> t7(41,"UCS-4BE");
	t1.run(); t2.run(); t3.run(); t4.run(); t5.run(); t6.run(); t7.run();
	if (prop == "C06") encoder();
	double d = (t_end - now()) / 7;
	if (d > 0 && prop != "C02") { rest( t1, now()+d); rest( t2, now()+d); rest( t3, now()+d); rest( t4, now()+d); rest( t5, now()+d); rest( t6, now()+d); rest( t7, now()+d); }
	summary();
	return 0;
}
