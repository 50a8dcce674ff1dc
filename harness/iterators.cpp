// Harness C17: contracts of the source iterators for sources of any size (one arbitrary byte of the source, in_w, is observed)
#define private public
#include "textwolf/exception.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#undef private
#define NW 2
#include "mem.h"
using namespace textwolf;
typedef uint64_t u64;
static const u64 BIG = (u64)1<<40;
uint64_t in_size, in_pos, in_w, in_n, in_bufsize, in_read; uint8_t in_eom, in_err;
static u64 g_len; static bool g_jump, g_throw; static jmp_buf g_jb;
extern "C" size_t strlen( const char*) {return g_len;}
extern "C" void longjmp( jmp_buf b, int v) { v_cover("?jump"); v_assert( g_jump, "C17 end of chunk signalled only at the end of a non-final chunk"); v_assert( v_same( (char*)b, (char*)&g_jb) && v == 1, "C17 the jump registered"); v_assume( false);}
#ifdef KIND_CSTR
extern "C" void h_cstring()
{
	in_size = v_nd64(); in_pos = v_nd64(); in_w = v_nd64(); v_assume( in_size < ((u64)1<<32) && in_pos < ((u64)1<<32) - 1);
	char* m = v_alloc( in_size); char b = 0; if (in_pos < in_size) b = m[ in_pos];
	CStringIterator i; v_assert( *i == 0, "C17 iterator without source delivers zeros");
	++i; v_assert( *i == 0 && i.pos() == 1, "C17 iterator without source delivers zeros");
	int k = v_nd8() % 2; g_len = in_size;
	if (k) {CStringIterator j( m, (unsigned int)in_size); i.~CStringIterator(); new (&i) CStringIterator( j);}
	else {CStringIterator j( m); i = j;}
	v_assert( i.pos() == 0 && i.m_src == m && i.m_size == in_size, "C17 iterator starts at the first byte of the source");
	i.m_pos = (unsigned int)in_pos;
	v_assert( *i == b, "C17 byte of the source, then zeros"); v_assert( *i == b && i.pos() == in_pos, "C17 access does not advance"); v_cover("cstring");
	CStringIterator c( i);
	++c; v_assert( c.pos() == in_pos+1 && i.pos() == in_pos && *i == b, "C17 copies advance independently");
	char b2 = 0; if (in_pos+1 < in_size) b2 = m[ in_pos+1];
	v_assert( *c == b2, "C17 next byte of the source"); v_assert( c - i == 1, "C17 difference of positions");
	u64 t = v_nd64(); v_assume( t < ((u64)1<<32)); c.pos( (unsigned int)t); v_assert( c.pos() == (t < in_size ? t : in_size), "C17 position set");
}
#endif
#ifdef KIND_SRC
static u64 g_before;
static void make( SrcIterator& i, char* m)
{
	// an iterator at in_pos of a chunk of in_size bytes, with g_before bytes in chunks before
	i.m_start = m; i.m_end = m + in_size; i.m_itr = m + in_pos; i.m_eom = in_eom ? &g_jb : 0; i.m_abspos = (PositionIndex)(g_before + in_size);
}
static void state( const SrcIterator& i, const char* m, u64 pos, u64 size, u64 before, bool eom)
{
	v_assert( i.m_itr == m + pos && i.m_end == m + size && i.m_start == m && i.m_eom == (eom ? &g_jb : 0), "C17 place in the chunk");
	v_assert( i.position() == (PositionIndex)(before + pos), "C17 position is the number of bytes advanced over");
	v_assert( i.getPosition() == (pos <= size ? pos : 0), "C17 position in the chunk");
	v_assert( i.endOfChunk() == (pos >= size), "C17 end of chunk");
}
extern "C" void h_source()
{
	in_size = v_nd64(); in_pos = v_nd64(); in_eom = v_ndb(); g_before = v_nd64(); v_assume( in_size <= BIG && in_pos <= in_size && g_before <= BIG);
	char* m = v_alloc( in_size + 1); SrcIterator i;
	make( i, m); v_cover("source"); state( i, m, in_pos, in_size, g_before, in_eom);
	SrcIterator c( i), d; d = i; state( c, m, in_pos, in_size, g_before, in_eom); state( d, m, in_pos, in_size, g_before, in_eom);
	++c; state( c, m, in_pos+1, in_size, g_before, in_eom); state( i, m, in_pos, in_size, g_before, in_eom);
	v_assert( (c - i) == 1, "C17 difference of positions");
	if (in_pos < in_size) { v_assert( *i == m[ in_pos], "C17 byte of the source"); v_cover("byte"); }
	else if (!in_eom) { v_assert( *i == 0, "C17 zeros after the final chunk"); v_cover("final"); }
	else { v_cover("chunk end"); g_jump = true; *i; v_assert( false, "C17 end of a non-final chunk is signalled"); }
	state( i, m, in_pos, in_size, g_before, in_eom);
}
extern "C" void h_chunk()
{
	in_size = v_nd64(); in_pos = v_nd64(); in_eom = v_ndb(); g_before = v_nd64(); v_assume( in_size <= BIG && in_pos <= in_size && g_before <= BIG);
	char* m = v_alloc( in_size + 1); SrcIterator i; make( i, m);
	in_n = v_nd64(); v_assume( in_n <= BIG); char* m2 = v_alloc( in_n + 1); bool e2 = v_ndb();
	// the next chunk is attached when the current one is consumed
	v_assume( in_pos == in_size); 
	if (e2) i.putInput( m2, in_n, &g_jb); else i.putInput( m2, in_n);
	v_cover("chunk"); state( i, m2, 0, in_n, g_before + in_size, e2);
	SrcIterator n( m, in_size, in_eom ? &g_jb : 0); state( n, m, 0, in_size, 0, in_eom);
	SrcIterator z; if (e2) z.putInput( m2, in_n, &g_jb); else z.putInput( m2, in_n); state( z, m2, 0, in_n, 0, e2);
}
#endif
#ifdef KIND_STREAM
// contract of IStream::read: delivers the next bytes of the stream, at most bufsize, none only at the end of the stream
static u64 g_read; static char g_b; static bool g_eof;
struct GStream :public IStream
{
	int err;
	virtual std::size_t read( void* buf, std::size_t size)
	{
		if (in_err) { err = 5; g_throw = true; return v_nd64() % (size ? size : 1); }
		in_read = v_nd64(); if (g_eof) in_read = 0; v_assume( in_read <= size);
		v_assert( v_wok( (char*)buf, size), "C17 stream reads into the buffer"); v_assume( v_wok( (char*)buf, size));
		v_havoc( (char*)buf);
		if (in_w >= g_read && in_w - g_read < in_read) ((char*)buf)[ in_w - g_read] = g_b;
		g_read += in_read; if (!in_read) g_eof = true; err = 0;
		return in_read;
	}
	virtual int errorcode() const {return err;}
};
extern "C" void v_on_throw() { v_cover("?throw"); v_assert( g_throw, "C17 iterator throws without a stream error"); }
// the iterator stands on byte pos of the stream of which g_read bytes were read
static void state( IStreamIterator& i, u64 pos, const IStream* s)
{
	v_assert( i.m_input == s && v_ofs( i.m_buf) == 0 && v_objsize( i.m_buf) == i.m_bufsize && v_wok( i.m_buf, i.m_bufsize), "C17 buffer of the iterator");
	v_assert( i.position() == (PositionIndex)pos, "C17 position is the number of bytes advanced over");
	v_assert( i.m_readsize <= i.m_bufsize && (i.m_readsize ? i.m_readpos < i.m_readsize && i.m_abspos + (PositionIndex)i.m_readsize == (PositionIndex)g_read : i.m_readpos == 0 && g_eof && i.m_abspos >= (PositionIndex)g_read), "C17 place in the buffer");
	if (i.m_readsize && in_w >= (u64)i.m_abspos && in_w < g_read) v_assert( i.m_buf[ in_w - (u64)i.m_abspos] == g_b, "C17 buffer holds the bytes of the stream");
	char c = *i;
	if (pos == in_w && pos < g_read) v_assert( c == g_b, "C17 byte of the source");
	if (pos >= g_read) v_assert( g_eof && c == 0, "C17 zeros after the end of the stream");
}
static void arbitrary( IStreamIterator& i, IStream* s)
{
	in_bufsize = v_nd64(); in_w = v_nd64(); in_n = v_nd64(); in_pos = v_nd64(); g_read = v_nd64(); g_b = (char)v_nd8(); g_eof = v_ndb();
	v_assume( in_bufsize > 0 && in_bufsize <= BIG && in_n <= in_bufsize && g_read <= BIG && in_w <= BIG && in_n <= g_read);
	i.m_input = s; i.m_bufsize = in_bufsize; i.m_buf = v_alloc( in_bufsize); g_live = 1; i.m_readsize = in_n;
	if (in_n) { i.m_abspos = (PositionIndex)(g_read - in_n); v_assume( in_pos >= g_read - in_n && in_pos < g_read); i.m_readpos = in_pos - (g_read - in_n); }
	else { v_assume( g_eof && in_pos >= g_read && in_pos <= BIG); i.m_abspos = (PositionIndex)in_pos; i.m_readpos = 0; }
	if (in_n && in_w >= (u64)i.m_abspos && in_w < g_read) { v_assume( i.m_buf[ in_w - (u64)i.m_abspos] == g_b); watch( in_w - (u64)i.m_abspos); }
}
struct Raw { char mem[ sizeof( IStreamIterator)]; IStreamIterator& i() {return *(IStreamIterator*)(void*)mem;} };
extern "C" void h_stream()
{
	GStream s; s.err = 0; in_err = v_ndb(); Raw r; IStreamIterator& i = r.i(); arbitrary( i, &s);
	state( i, in_pos, &s);
	v_assert( *i == *i, "C17 access does not advance"); state( i, in_pos, &s);
	++i; v_cover("stream"); v_assert( !g_throw, "C17 a stream error is reported");
	state( i, in_pos+1, &s); v_assert( g_live == 1, "C17 memory");
}
extern "C" void h_stream_ctor()
{
	GStream s; s.err = 0; in_err = v_ndb(); in_bufsize = v_nd64(); in_w = v_nd64(); g_b = (char)v_nd8(); v_assume( in_bufsize > 0 && in_bufsize <= BIG); g_live = 0;
	{ IStreamIterator i( &s, in_bufsize); v_cover("ctor"); v_assert( !g_throw, "C17 a stream error is reported"); state( i, 0, &s); v_assert( i.m_bufsize == in_bufsize, "C17 buffer of the size wanted"); }
	v_assert( g_live == 0, "C17 memory released");
	{ IStreamIterator i; v_assert( *i == 0 && i.position() == 0, "C17 iterator without source delivers zeros"); ++i; v_assert( *i == 0 && i.position() == 1, "C17 iterator without source delivers zeros"); }
	v_assert( g_live == 0, "C17 memory released");
}
extern "C" void h_stream_copy()
{
	GStream s; s.err = 0; Raw r; IStreamIterator& i = r.i(); arbitrary( i, &s);
	{ IStreamIterator c( i); v_cover("copy"); state( c, in_pos, &s); state( i, in_pos, &s); v_assert( !v_same( c.m_buf, i.m_buf) && g_live == 2, "C17 copies are independent"); }
	v_assert( g_live == 1, "C17 memory released");
	GStream s2; Raw q; IStreamIterator& j = q.i(); j.m_input = &s2; j.m_bufsize = v_nd64(); v_assume( j.m_bufsize > 0 && j.m_bufsize <= BIG); j.m_buf = v_alloc( j.m_bufsize); j.m_readsize = v_nd64(); v_assume( j.m_readsize <= j.m_bufsize); j.m_readpos = v_nd64(); j.m_abspos = (PositionIndex)v_nd64(); g_live = 2;
	if (v_ndb()) { i = i; state( i, in_pos, &s); v_cover("self"); }
	else { j = i; v_cover("assign"); state( j, in_pos, &s); state( i, in_pos, &s); v_assert( !v_same( j.m_buf, i.m_buf), "C17 copies are independent"); }
	v_assert( g_live == 2, "C17 memory released");
	// difference of two iterators on the same stream
	Raw t; IStreamIterator& k = t.i(); k.m_readpos = v_nd64() % BIG; k.m_abspos = (PositionIndex)(v_nd64() % BIG); k.m_buf = 0;
	int64_t df = (int64_t)in_pos - (int64_t)(k.m_abspos + (PositionIndex)k.m_readpos);
	if (df < 2000000000 && df > -2000000000) v_assert( (i - k) == df, "C17 difference of positions");
}
#endif
#ifdef KIND_STD
// contract of std::istream (27.7.2 [istream.unformatted], 27.5.5.4 [iostate.flags]); exceptions are followed
static u64 g_base; static char g_b; static int in_how; static int g_eno; static bool g_inread;
extern "C" int* __errno_location() throw() {return &g_eno;}
namespace std {
int ios_base::exceptions() const {return m_mask;}
int ios_base::rdstate() const {return m_state;}
bool ios_base::good() const {return m_state == 0;}
bool ios_base::eof() const {return (m_state & eofbit) != 0;}
bool ios_base::fail() const {return (m_state & (failbit|badbit)) != 0;}
bool ios_base::bad() const {return (m_state & badbit) != 0;}
void ios_base::clear( int s) {m_state = s; if (m_state & m_mask) throw failure();}
void ios_base::setstate( int s) {clear( m_state | s);}
void ios_base::exceptions( int m) {m_mask = m; clear( m_state);}
size_t istream::gcount() const {return m_count;}
istream& istream::read( char* b, size_t n)
{
	v_assert( !g_inread, "C17 a block is read at once"); g_inread = true; m_count = 0;
	if (m_state) {setstate( failbit); return *this;}
	v_assert( v_wok( b, n), "C17 stream reads into the buffer"); v_assume( v_wok( b, n));
	in_read = v_nd64(); v_assume( in_read <= n && (in_how ? in_read < n : in_read == n)); m_count = in_read;
	v_havoc( b); if (in_w < in_read) b[ in_w] = g_b;
	if (in_how == 1) setstate( eofbit|failbit);
	if (in_how >= 2)
	{
		// the buffer of the stream throws: passed on, if the bad bit is in the mask
		g_eno = v_ndb() ? (int)(v_nd32() & 0x7f) : 0; m_state |= badbit;
		if (m_mask & badbit) {if (in_how == 2) throw failure(); else if (in_how == 3) throw std::runtime_error( "read"); else if (in_how == 4) throw std::bad_alloc(); else throw 1;}
	}
	return *this;
}
}
extern "C" void h_std()
{
	static u64 mem[ (sizeof(std::istream)+7)/8]; std::istream& s = *(std::istream*)(void*)mem; s.m_state = 0; s.m_mask = (int)(v_nd8() & 7); s.m_count = 0; g_eno = (int)(v_nd32() & 0x7f);
	in_size = v_nd64(); v_assume( in_size > 0 && in_size <= BIG); in_w = v_nd64(); g_b = (char)v_nd8(); in_how = v_nd8() % 6;
	char* b = v_alloc( in_size); int escaped = 0; u64 r = 0; int e = 0;
	try
	{
		StdInputStream o( s); v_assert( o.errorcode() == 0, "C17 no error before reading"); StdInputStream i( o);
		// the stream when read is called: readable, at its end or broken
		int was = v_nd8() % 4; s.m_state = was == 1 ? std::ios_base::eofbit|std::ios_base::failbit : was == 2 ? std::ios_base::badbit : was == 3 ? std::ios_base::failbit : 0; if (v_ndb() && was == 2) s.m_state |= std::ios_base::failbit;
		if (v_ndb()) i.m_errno = (int)(v_nd32() & 0x7f);
		r = ((IStream&)i).read( b, in_size); e = ((IStream&)i).errorcode();
		StdInputStream k( i); v_assert( k.m_input == &s && k.errorcode() == e, "C17 a copy reads the same stream");
		if (was == 0 && in_how <= 1)
		{
			v_assert( r == in_read && e == 0, "C17 the bytes read from the stream are delivered"); v_assert( r < in_size || in_how == 0, "C17 the bytes read from the stream are delivered");
			if (in_w < r) v_assert( b[ in_w] == g_b, "C17 the bytes read from the stream are delivered"); v_cover( "bytes"); if (in_how) v_cover( "last bytes");
		}
		else if (was == 1) {v_assert( r == 0 && e == 0, "C17 the end of the stream is no error"); v_cover( "end");}
		else {v_assert( e != 0, "C17 a stream error is reported"); v_cover( "broken");}
	}
	catch (...) {escaped = 1;}
	v_assert( !escaped, "C17 no exception of the stream passes");
}
#endif
