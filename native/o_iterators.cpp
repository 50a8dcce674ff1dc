// Native oracle C17: the real iterators on random sources and block sizes (built with ASan/UBSan)
#include "oracle.h"
#include <csetjmp>
#include <algorithm>
#include "textwolf/exception.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
using namespace orc; using namespace textwolf;
struct Blocks :public IStream	// stream delivering its bytes in blocks of random size
{
	std::string s; std::size_t pos; unsigned int maxb; long failat; int err;
	Blocks( const std::string& s_, unsigned int m, long f=-1) :s(s_),pos(0),maxb(m),failat(f),err(0){}
	virtual std::size_t read( void* buf, std::size_t n)
	{
		if (failat >= 0 && (long)pos >= failat) { err = 5; return 0; }
		std::size_t k = 1 + rndn( maxb); if (k > n) k = n; if (k > s.size()-pos) k = s.size()-pos; memcpy( buf, s.data()+pos, k); pos += k; return k;
	}
	virtual int errorcode() const {return err;}
};
struct FailBuf :public std::streambuf	// a stream buffer which fails in the middle
{
	std::string s; bool done; FailBuf( const std::string& s_) :s(s_),done(false){}
	virtual int_type underflow() { if (!done && s.size()) { done = true; setg( &s[0], &s[0], &s[0]+s.size()); return traits_type::to_int_type( s[0]); } if (rndn(2)) throw std::ios_base::failure( "device"); throw std::runtime_error( "device"); }
};
static std::string source() { std::string s; unsigned int n = rndn( 4) == 0 ? rndn( 3) : rndn( 60); for (unsigned int i=0; i<n; ++i) s.push_back( (char)(rndn( 5) ? rnd() : 0)); return s; }
template <class It> static long posOf( const It& i);
template <> long posOf( const CStringIterator& i) {return i.pos();}
template <> long posOf( const SrcIterator& i) {return (long)i.position();}
template <> long posOf( const IStreamIterator& i) {return (long)i.position();}
template <class It> static void walk( It i, const std::string& s, const std::string& id)
{
	It old( i); std::size_t oldp = 0; std::size_t end = s.size() + rndn( 6);
	for (std::size_t p=0; p<=end; ++p)
	{
		for (unsigned int k=rndn( 3)+1; k>0; --k) { char c = *i, e = p < s.size() ? s[p] : 0; if (c != e) fail( id + ": byte " + str( p) + " is " + str( (int)c) + " expected " + str( (int)e)); }
		if (posOf( i) != (long)p) fail( id + ": position is " + str( posOf( i)) + " after " + str( p) + " bytes");
		if ((long)(i - old) != (long)(p - oldp)) fail( id + ": difference is " + str( (long)(i-old)) + " expected " + str( (long)(p - oldp)));
		if (rndn( 9) == 0) { It c( i); ++c; ++c; if (posOf( c) != (long)p+2) fail( id + ": position of a copy wrong"); old = i; oldp = p; }
		if (rndn( 12) == 0) { It c( old); c = i; It& r = i; i = r; i = c; }
		++i; ++cases; ++nontrivial;
	}
}
static jmp_buf g_jb;
static std::string g_got; static std::vector<long> g_pos; static SrcIterator* g_i; static std::vector<char*> g_mem; static std::vector<std::string> g_chunks; static std::size_t g_next;
static void chunks( const std::string& s)	// all bytes of the chunks, each once
{
	g_chunks.clear(); std::size_t p = 0; std::string id = "chunks";
	while (p < s.size() || g_chunks.empty()) { std::size_t k = rndn( 8); if (k > s.size()-p) k = s.size()-p; g_chunks.push_back( s.substr( p, k)); p += k; id += " " + str( k); }
	g_got.clear(); g_pos.clear(); g_next = 0; g_i = new SrcIterator();
	if (**g_i != 0) fail( "SrcIterator without source does not deliver 0");
	static volatile bool started; started = false;
	if (setjmp( g_jb) != 0 || !started)
	{
		started = true;
		if (g_i->position() != (PositionIndex)g_got.size()) fail( id + ": position " + str( (long)g_i->position()) + " at the end of a chunk, after " + str( g_got.size()) + " bytes");
		if (g_next && !g_i->endOfChunk()) fail( id + ": signal before the end of the chunk");
		std::string& c = g_chunks[ g_next]; char* m = new char[ c.size()]; memcpy( m, c.data(), c.size()); g_mem.push_back( m);
		++g_next; if (g_next == g_chunks.size()) g_i->putInput( m, c.size()); else g_i->putInput( m, c.size(), &g_jb);
	}
	for (;;)
	{
		char c = **g_i; if (g_next == g_chunks.size() && g_i->endOfChunk()) { if (c != 0) fail( id + ": no 0 at the end"); break; }
		if (g_i->position() != (PositionIndex)g_got.size()) fail( id + ": position " + str( (long)g_i->position()) + " after " + str( g_got.size()) + " bytes");
		if (g_i->endOfChunk()) fail( id + ": access beyond the chunk");
		g_got.push_back( c); ++*g_i; if (g_got.size() > s.size()) fail( id + ": more bytes than the source");
	}
	if (g_got != s) fail( id + ": delivers " + quote( g_got) + " expected " + quote( s));
	for (std::size_t i=0; i<g_mem.size(); ++i) delete [] g_mem[i]; g_mem.clear(); delete g_i; ++cases; if (g_chunks.size() > 1) ++nontrivial;
}
int main( int argc, const char** argv)
{
	init( argc, argv);
	do
	{
		std::string s = source(); char* m = new char[ s.size()]; memcpy( m, s.data(), s.size());
		walk( CStringIterator( m, s.size()), s, "CStringIterator(ptr,size) " + quote( s)); walk( CStringIterator( s), s, "CStringIterator(string) " + quote( s));
		std::string z( s.c_str()); walk( CStringIterator( s.c_str()), z, "CStringIterator(ptr) " + quote( z)); walk( CStringIterator(), "", "CStringIterator()");
		{CStringIterator c( s); unsigned int t = rndn( 80); c.pos( t); if (c.pos() != std::min<std::size_t>( t, s.size())) fail( "CStringIterator pos set");}
		walk( SrcIterator( m, s.size()), s, "SrcIterator " + quote( s));
		{SrcIterator a( m, s.size()), b( a); ++b; bool thrown = false; try {(void)(a - b);} catch (const textwolf::exception& e) {thrown = e.cause == throws_exception::IllegalParam;} if (!thrown) fail( "SrcIterator negative difference accepted");}
		unsigned int mb = rndn( 3) ? 1 + rndn( 10) : 100, bs = 1 + rndn( 12);
		{Blocks b( s, mb), b2( "other stream", 3); IStreamIterator* i = new IStreamIterator( &b, bs); std::string id = "IStreamIterator bufsize=" + str( bs) + " " + quote( s);
		 for (std::size_t p=0; p<s.size()+4; ++p) { char e = p < s.size() ? s[p] : 0; if (**i != e || **i != e) fail( id + ": byte " + str( p) + " is " + str( (int)**i)); if ((long)i->position() != (long)p) fail( id + ": position is " + str( (long)i->position()) + " after " + str( p) + " bytes");
			if (rndn( 8) == 0) {IStreamIterator c( *i); if (*c != e || c.position() != i->position()) fail( id + ": copy differs"); IStreamIterator d; d = c; *i = d; IStreamIterator& r = *i; *i = r; }
			if (rndn( 8) == 0) {id += " (assigned at " + str( p) + ")"; IStreamIterator* d = new IStreamIterator( &b2, 1 + rndn( 12)); for (unsigned int k=rndn( 4); k; --k) ++*d; *d = *i; if (*d - *i != 0) fail( id + ": assigned iterator differs"); delete i; i = d; --p; continue; }
			IStreamIterator o( *i); ++*i; if ((*i - o) != 1) fail( id + ": difference is " + str( *i - o)); ++cases; }
		 delete i; }
		{std::istringstream is( s); StdInputStream si( is); walk1:; IStreamIterator i( &si, bs); for (std::size_t p=0; p<s.size()+3; ++p) { char e = p < s.size() ? s[p] : 0; if (*i != e) fail( "StdInputStream bufsize=" + str( bs) + " " + quote( s) + ": byte " + str( p) + " is " + str( (int)*i)); ++i; }}
		if (rndn( 4) == 0)
		{
			long f = rndn( s.size() + 1); Blocks b( s, mb, f); bool thrown = false; std::size_t p = 0;
			try {IStreamIterator i( &b, bs); for (; p<s.size()+2; ++p) {char e = p < s.size() ? s[p] : 0; if (*i != e) fail( "IStreamIterator on a failing stream: byte " + str( p) + " wrong"); ++i;}} catch (const textwolf::exception& e) {thrown = e.cause == throws_exception::FileReadError;}
			if (!thrown) fail( "IStreamIterator: read error of the stream not reported");
			FailBuf fb( s); std::istream is( &fb); errno = 0; thrown = false; StdInputStream si( is);
			try {IStreamIterator i( &si, bs); for (p=0; p<s.size()+2; ++p) ++i;} catch (const textwolf::exception& e) {thrown = e.cause == throws_exception::FileReadError;}
			if (!thrown) fail( "StdInputStream: failing stream reported as end of data");
			{
				// the state of the stream when it is read: broken without end of file, or at its end
				std::istringstream ss( s + "0123456789"); StdInputStream sj( ss); std::vector<char> q( s.size() + 20); std::size_t k = rndn( s.size() + 1), got = sj.read( &q[0], k);
				if (got != k || memcmp( &q[0], s.data(), k) || sj.errorcode()) fail( "StdInputStream: " + str( k) + " bytes wrong");
				StdInputStream sk( sj); int w = rndn( 4); std::ios_base::iostate st = w == 0 ? std::ios_base::failbit : w == 1 ? std::ios_base::badbit : w == 2 ? std::ios_base::failbit|std::ios_base::badbit : std::ios_base::eofbit|std::ios_base::failbit;
				try {ss.setstate( st);} catch (const std::exception&) {}
				errno = rndn( 2) ? 0 : ENOENT; got = sk.read( &q[0], 4);
				if (w == 3 ? got != 0 || sk.errorcode() : sk.errorcode() == 0) fail( "StdInputStream on a stream in state " + str( w) + " (0=fail 1=bad 2=fail|bad 3=eof): read " + str( got) + " bytes, error " + str( sk.errorcode()));
			}
		}
		for (int k=0; k<20; ++k) chunks( source());
		{IStreamIterator d; if (d.position() != 0) fail( "IStreamIterator() position"); ++d; if (*d != 0 || d.position() != 1) fail( "IStreamIterator() delivers data"); IStreamIterator e( d); d = e;}
		delete [] m;
	}
	while (!timeup());
	summary(); return 0;
}
