// native oracle for C03/C04: random sequences of queries and skips, random chunks
#include "oracle.h"
#include "textwolf/charset.hpp"
#include "textwolf/textscanner.hpp"
#include "spec_charset.h"
#include "spec_control.h"
#include "spec_iso8859.h"
#include <csetjmp>
#include <sstream>
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
using namespace textwolf;
using namespace orc;
static uint64_t seedv = 0;
template <class CS> struct Test
{
	int kind; const char* name; CS cs; unsigned int page;
	Test( int k, const char* n, const CS& c, unsigned int p=0):kind(k),name(n),cs(c),page(p){}
	struct Ch { std::size_t ofs, len; uint32_t val; bool hasval; int ascii; };
	static uint32_t genchr( int kind)
	{
		for (;;)
		{
			uint32_t c; switch (rndn(5)) {case 0: c = 1+rndn(127); break; case 1: c = 1+rndn(0x900); break; case 2: c = 1+rndn(0x11000); break; case 3: c = 1+rndn(0x10FFFF); break; default: c = "<>&='\"[]-!?/ \t\r\n\x05\x7f\x80"[rndn(18)]&0xFF; break;}
			unsigned char e[8]; if (kind == 1) {if (c > 255 || !c) continue; return c;} if (spec::encode( kind, c, e)) return c;
		}
	}
	void chars( const std::string& s, std::vector<Ch>& v)
	{
		std::size_t p=0;
		while (p < s.size())
		{
			unsigned char b[16]; memset( b, 0, sizeof b); for (int i=0; i<8 && p+i < s.size(); ++i) b[i] = s[p+i];
			Ch c; c.ofs = p; c.len = spec::announced( kind, b); 
			if (kind == 1) { c.val = spec::iso_decode( page, b[0]); c.hasval = true; } else c.hasval = spec::decode( kind, b, c.val);
			uint32_t a; c.ascii = spec::ascii_code( kind, b, a) ? (a <= 127 ? (int)a : -1) : -1;
			v.push_back( c); p += c.len;
		}
	}
	struct Rec { int op; unsigned int v; };
	// performs op on the scanner; result in r
	template <class S> static void perform( S& ts, const CS& cs, int op, std::string& copy, uint64_t& r)
	{
		copy.clear();
		switch (op)
		{
			case 0: r = ts.chr(); break;
			case 1: r = *ts; break;
			case 2: r = ts.ascii(); break;
			case 3: r = ts.control(); break;
			case 4: {CS o( cs); ts.copychar( o, copy); r = 0; break;}
			case 5: ts.skip(); r = 0; break;
			case 6: ++ts; r = 0; break;
			case 7: ts++; r = 0; break;
			default: r = 0;
		}
	}
	void checkop( const std::string& id, const std::string& src, const std::vector<Ch>& v, std::size_t k, int op, const std::string& copy, uint64_t r)
	{
		if (k >= v.size()) return; const Ch& c = v[k];
		if (op <= 1 && c.hasval && r != c.val) fail( id+" chr() = "+str(r)+" expected "+str(c.val));
		if (op == 2 && r != (uint64_t)(c.ascii >= 0 ? c.ascii : 0)) fail( id+" ascii() = "+str(r)+" expected "+str(c.ascii));
		if (op == 3 && r != spec::control_class( c.ascii)) fail( id+" control() = "+str(r)+" expected "+str(spec::control_class( c.ascii)));
		if (op == 4 && copy != src.substr( c.ofs, c.len)) fail( id+" copychar gives "+hex(copy)+" expected "+hex(src.substr( c.ofs, c.len)));
	}
	template <class It> void history( const std::string& src, const std::vector<Ch>& v, const It& start, const char* itname)
	{
		std::string hist;
		TextScanner<It,CS> ts( cs, start);
		for (std::size_t k=0; k<v.size();)
		{
			int op = rndn( 9); uint64_t r=0; std::string cp; hist += (char)('0'+op);
			std::string id = std::string("encoding=")+name+" page="+str(page)+" source="+hex(src)+" ("+itname+") history(0,1=chr 2=ascii 3=control 4=copychar 5,6,7=skip 8=copy)="+hist;
			if (op == 8) { TextScanner<It,CS> t2( ts); if (t2.getPosition() != v[k].ofs) fail( id+" position of the copy"); perform( t2, cs, 0, cp, r); checkop( id, src, v, k, 0, cp, r); perform( t2, cs, 4, cp, r); checkop( id, src, v, k, 4, cp, r); if (t2.getPosition() != v[k].ofs) fail( id+" position of the copy"); continue; }
			perform( ts, cs, op, cp, r); checkop( id, src, v, k, op, cp, r);
			if (op >= 5) {++k; ++nontrivial;}
			if (k < v.size() && ts.getPosition() != v[k].ofs) fail( id+" getPosition() = "+str(ts.getPosition())+" expected "+str(v[k].ofs));
		}
	}
	static charset::IsoLatin otherpage( const charset::IsoLatin&, unsigned int q) {return charset::IsoLatin( q);}
	template <class X> static X otherpage( const X& x, unsigned int) {return x;}
	// a copy to another code page is the same character in that page
	void recode( const std::string& src, const std::vector<Ch>& v)
	{
		if (kind != 1) return;
		for (std::size_t k=0; k<v.size(); ++k)
		{
			unsigned int q = 1+rndn(9); CS o( otherpage( cs, q)); std::string out; TextScanner<CStringIterator,CS> ts( cs, CStringIterator( src.c_str()+k, (unsigned int)(src.size()-k)));
			if (rndn(2)) ts.chr();
			ts.copychar( o, out); int e = q == page ? (unsigned char)src[k] : spec::iso_encode( q, v[k].val); std::string x;
			if (e >= 0) x = std::string( 1, (char)e); else { unsigned char r[64]; x = std::string( (char*)r, spec::reference( 1, v[k].val, r)); }
			if (out != x) fail( "copychar of byte "+str((unsigned char)src[k])+" from page "+str(page)+" to page "+str(q)+" gives "+quote(out)+" expected "+quote(x));
		}
	}
	void round( bool malformed)
	{
		std::string src; unsigned int n = 1+rndn( 12);
		if (malformed) { unsigned int us = kind == 8 || kind == 1 ? 1 : (kind >= 40 && kind < 50 ? 4 : 2); for (unsigned int i=0; i<n*us*2; ++i) {static const unsigned char ev[]={0xD8,0xDB,0xDC,0xDF,0x80,0xBF,0xC0,0xE0,0xF0,0xF8,0xFC,0xFE,0xFF,0x41}; src += rndn(2) ? (char)(1+rndn(255)) : (char)ev[rndn(sizeof ev)];} src += std::string( 16, '\0'); }
		else for (unsigned int i=0; i<n; ++i) { unsigned char e[8]; uint32_t c = genchr( kind); if (kind == 1) src += (char)c; else src += std::string( (char*)e, spec::encode( kind, c, e)); }
		std::vector<Ch> v; chars( src, v);
		if (malformed) while (!v.empty() && v.back().ofs + v.back().len > src.size()) v.pop_back();
		++cases;
		// C03: unsplit, random history
		std::string pad = src + std::string( 16, '\0');
		history( src, v, CStringIterator( pad.c_str(), (unsigned int)pad.size()), "CStringIterator");
		{ char* p = &pad[0]; history( src, v, p, "char*"); }
		history( src, v, SrcIterator( pad.c_str(), pad.size(), 0), "SrcIterator");
		{ std::istringstream is( pad); StdInputStream ss( is); history( src, v, IStreamIterator( &ss, pad.size()+1), "IStreamIterator"); }
		recode( src, v);
		// C04: random chunks, random history
		{
			static jmp_buf eom; static std::string hist, cp; static uint64_t r; static int op; static std::size_t k, cpos, clen; hist.clear();
			static SrcIterator* it; static TextScanner<SrcIterator,CS>* ts; 
			cpos = 0; clen = rndn( 4);
			std::string chunk0( src.substr( 0, clen)); static std::string chunk; chunk = chunk0;
			TextScanner<SrcIterator,CS> tss( cs, SrcIterator( chunk.c_str(), chunk.size(), &eom)); ts = &tss; k=0; op=-1;
			volatile bool inop = false; volatile int guard = 0;
			if (setjmp( eom) != 0)
			{
				if (++guard > 10000) fail( "no progress");
				cpos += clen; if (cpos >= src.size()) { if (k < v.size()) fail( std::string("encoding=")+name+" page="+str(page)+" source="+hex(src)+" history="+hist+" the source ended before the scanner delivered all characters: a byte was lost"); return; }
				clen = 1+rndn( 3); if (clen > src.size()-cpos) clen = src.size()-cpos;
				chunk = src.substr( cpos, clen); hist += '|'; hist += str(clen);
				SrcIterator ni( ts->getIterator()); ni.putInput( chunk.c_str(), chunk.size(), &eom); 
				ts->setSource( ni);
			}
			while (k < v.size())
			{
				if (!inop) { op = rndn( 8); if (op == 7) op = 6; hist += (char)('0'+op); inop = true; }
				perform( *ts, cs, op, cp, r);
				std::string id = std::string("encoding=")+name+" page="+str(page)+" source="+hex(src)+" history(|n = next chunk of n bytes)="+hist;
				checkop( id, src, v, k, op, cp, r); inop = false;
				if (op >= 5) {++k; ++nontrivial;}
				if (k < v.size() && ts->getPosition() != v[k].ofs && prop == "C03") fail( id+" getPosition() = "+str(ts->getPosition())+" expected "+str(v[k].ofs));
			}
		}
	}
};
int main( int argc, const char** argv)
{
	init( argc, argv);
	Test<charset::UTF8> t1(8,"UTF-8",charset::UTF8()); Test<charset::UTF16LE> t2(160,"UTF-16LE",charset::UTF16LE()); Test<charset::UTF16BE> t3(161,"UTF-16BE",charset::UTF16BE());
	Test<charset::UCS2LE> t4(20,"UCS-2LE",charset::UCS2LE()); Test<charset::UCS2BE> t5(21,"UCS-2BE",charset::UCS2BE()); Test<charset::UCS4LE> t6(40,"UCS-4LE",charset::UCS4LE()); Test<charset::UCS4BE> t7(41,"UCS-4BE",charset::UCS4BE());
	Test<charset::IsoLatin> t8(1,"IsoLatin",charset::IsoLatin(1),1), t9(1,"IsoLatin",charset::IsoLatin(9),9);
	{ unsigned int q = 2+rndn(7); t9.page = q; t9.cs = charset::IsoLatin( q); }
	while (!timeup())
	{
		for (int m=0; m<2; ++m) { t1.round( m); t2.round( m); t3.round( m); t4.round( m); t5.round( m); t6.round( m); t7.round( m); t8.round( m); t9.round( m); }
	}
	summary(); return 0;
}
