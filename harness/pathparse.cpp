// Harness C20: contracts of the parser of abbreviated path expressions, for expressions of any length.
//  skipSpaces, isIdentifierChar, parseNum, parseIdentifier, parseValue, parseIdentifierList (U_LEX, U_VALUE, U_LIST)
//                     the tokens of an expression: how far they reach, what they denote, and that they stop at the first character that does not fit
//  ExprState          an operation on an expression is the operation of the builder on each of its paths, an alternative multiplies them (U_EXPR)
//  addExpression      the operations called are the ones denoted by the tokens (grammar below), an expression that is not in the grammar is refused with
//                     the position of the first character that fits no expression, and then no event is assigned (U_ADD)
//
// Grammar: expression := [step | '/' ...] as the automaton qnext() below, blanks (space, tab, carriage return) are allowed behind every token but the first of "//".
#define private public
#define protected public
#include "v.h"
#include <cstddef>
#include <cstring>
#include <stdexcept>
uint32_t in_ofs, in_n, in_c; int32_t in_type, in_i, in_j; uint8_t in_op; bool in_what;
static const uint32_t BIG = 0x3FFFFFFF;
#define V_VECTOR
#ifdef U_EXPR
namespace textwolf{ }
static void* g_new; static void* g_copy;
namespace std {
// contract of std::vector: a sequence. Iterators are pointers, the index of an element is its distance to the first one.
// what: 0 the paths before the operation, 1 those with the step g_name, 2 chunks appended (the name of the one with index in_ofs is w, its contents wk)
template <class T> class vector
{
public:
	typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type;
	vector() :n(0),what(2),name(0),wwhat(9),a(v_alloc( 1)) {if (!g_new) g_new = this;} vector( const vector& o) :n(o.n),what(o.what),name(o.name),wwhat(o.wwhat),a(v_alloc( o.n*sizeof(T))) {g_copy = this;}
	vector& operator=( const vector& o) {n = o.n; what = o.what; name = o.name; wwhat = o.wwhat; return *this;}
	T& operator[]( size_t i) {v_assert( i < n, "C20 only the paths of the expression are visited"); return *((T*)a+i);} const T& operator[]( size_t i) const {return *((T*)a+i);}
	size_t size() const {return n;} bool empty() const {return n==0;}
	void push_back( const T&) {++n;}
	iterator begin() {return (T*)a;} iterator end() {return (T*)a+n;} const_iterator begin() const {return (T*)a;} const_iterator end() const {return (T*)a+n;}
	void insert( iterator p, iterator b, iterator e)
	{
		vector& src = *(vector*)g_copy; v_assert( p == end() && g_copy && &src != this && b == src.begin() && e == src.end(), "C20 the paths of every alternative are appended");
		if (n == in_ofs) {name = src.name; wwhat = src.what;}
		++n;	// chunks
	}
	void clear() {n = 0;}
	size_t n; uint8_t what; const void* name; uint8_t wwhat; char* a;
};
template <> class vector<const char*>
{
public:
	typedef const char* T; typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type;
	vector() :n(0),a(0) {} vector( const vector& o) :n(o.n),a(o.a) {}
	void push_back( const T&); T operator[]( size_t i) const {return ((T*)a)[i];} size_t size() const {return n;} bool empty() const {return n==0;}
	const_iterator begin() const {return (T*)a;} const_iterator end() const {return (T*)a+n;}
	size_t n; char* a;
};
}
#else
static void on_string( void*); static void on_vector( void*);
namespace std {
// contract of std::vector: a sequence, of which the element with index in_ofs is w
template <class T> class vector
{
public:
	typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type;
	vector() :n(0) {on_vector( this);} vector( const vector& o) :n(o.n),w(o.w) {} vector& operator=( const vector& o) {n = o.n; w = o.w; return *this;}
	size_t size() const {return n;} bool empty() const {return n==0;} void push_back( const T& x) {if (n == in_ofs) w = x; ++n;} void clear() {n = 0;}
	T& operator[]( size_t) {return w;} const T& operator[]( size_t) const {return w;}
	iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const;
	template <class I> void insert( iterator, I, I);
	size_t n; T w;
};
}
#define V_LIST
#define V_STRING
#include <iterator>
namespace std {
// contract of std::string: a sequence of characters, of which the one with index in_ofs is w, the first eight are in head; z null characters at the end
template <class C> class basic_string
{
public:
	typedef C value_type; typedef size_t size_type;
	basic_string() :n(0),w(0),z(0) {on_string( this);} basic_string( const C*) :n(0),w(0),z(0) {} basic_string( const basic_string& o) :n(o.n),w(o.w),z(o.z) {for (int i=0; i<8; ++i) head[i] = o.head[i];}
	void put( uint32_t c) {v_assert( z == 0, "C20 nothing is added to a name that is terminated"); if (n == in_ofs) w = c; if (n < 8) head[ n] = (char)c; ++n;}
	void push_back( C c) {if (c == 0) ++z; else put( (uint8_t)c);} basic_string& operator+=( C c) {push_back( c); return *this;}
	basic_string& append( size_t k, C c) {v_assert( c == 0, "C20 a name is terminated"); z += (uint32_t)k; return *this;}
	basic_string& append( const C*) {return *this;} basic_string& append( const C*, size_t) {return *this;}
	const C* c_str() const {if (n < 8) ((basic_string*)this)->head[ n] = 0; ((basic_string*)this)->head[ 8] = 0; return head;} const C* data() const {return c_str();}
	size_t size() const {return n;} size_t length() const {return n;} bool empty() const {return n==0;} void clear() {n = 0; z = 0;}
	size_t n; uint32_t w, z; char head[ 9];
};
typedef basic_string<char> string;
// contract of std::list: elements keep their place; the last one is slot
template <class T> class list
{
public:
	list() :n(0) {} void push_back( const T& x) {slot = x; ++n;} T& back() {return slot;} size_t size() const {return n;} bool empty() const {return n==0;}
	T slot; size_t n;
};
}
#endif
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/cstringiterator.hpp"
#include "spec_xml.h"
struct GCS { template <class B> void print( textwolf::UChar c, B& b) const {b.put( c);} static bool is_equal( const GCS&, const GCS&) {return true;} };
// contract of the text scanner (harness textscan.cpp, C03): the characters one by one, g_pos is the position of the current one in the text
static void on_skip(); static uint32_t g_c; static uint8_t g_cls; static uint32_t g_pos; static uint32_t g_scans/*texts opened*/; static const char* g_scansrc; static uint32_t g_scansize; static void on_open();
#include "textwolf/textscanner.hpp"
namespace textwolf {
template <> class TextScanner<CStringIterator,GCS>
{
public:
	TextScanner( const GCS&, const CStringIterator& i) {++g_scans; g_scansrc = i.m_src; g_scansize = i.m_size; v_assert( i.m_pos == 0, "C20 the expression is read from its start"); on_open();}
	UChar chr() {return g_c;} UChar operator*() {return g_c;}
	ControlCharacter control() {return (ControlCharacter)g_cls;}
	unsigned char ascii() {return g_c <= 127 ? (unsigned char)g_c : 0;}
	TextScanner& skip() {on_skip(); return *this;} TextScanner& operator++() {return skip();}
	std::size_t getPosition() const {return g_pos;}
};
}
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#undef private
#undef protected
using namespace textwolf;
typedef XMLPathSelectAutomatonParser<GCS,GCS> Parser; typedef Parser::ExprState Expr; typedef Parser::IdentifierBuf IdBuf; typedef Parser::SrcScanner Scan;
static void setchar( uint32_t c) {g_c = c; g_cls = (uint8_t)spec::cls( c);}
static void nextchar() {uint32_t c = v_nd32(); v_assume( c <= 0x10FFFF); setchar( c); uint32_t d = v_nd32(); v_assume( d >= 1 && d < 64 && g_pos < BIG); g_pos += d;}
static bool blank( uint32_t c) {return c == ' ' || c == '\t' || c == '\r';}
static bool digit( uint32_t c) {return c >= '0' && c <= '9';}
// characters of names: everything that is not white space, control character, or has a meaning in XML or in path expressions
static bool idchar( uint32_t c)
{
	if (c >= 127 || c == 5/*no meaning in this implementation*/) return true;
	if (c <= 32) return false;
	switch (c) {case '!': case '"': case '&': case '\'': case '<': case '=': case '>': case '?': case '/': case '[': case ']': case '*': case '~': case '(': case ')': case '{': case '}': case '@': case ',': case ';': return false; default: return true;}
}
static Parser* parser() {static uint64_t m[ (sizeof(Parser)+7)/8]; return (Parser*)m;}
static GCS g_cs;

#ifdef U_LEX
typedef std::string Str;
static Str* g_str; static Str g_x; static bool g_inspaces, g_innum, g_inid; static uint32_t g_val; static char g_d[8];
static void on_vector( void*) {}
static void on_string( void* s) {if (g_innum) g_str = (Str*)s;}
static Str* str() {return g_str;}
static void on_skip()
{
	v_assert( g_c != 0, "C20 nothing after the end of the expression is read");
	if (g_inspaces) v_assert( blank( g_c), "C20 blanks between the tokens");
	else if (g_innum) {v_assert( digit( g_c), "C20 a number ends at the first character that is no digit"); if (g_x.n < 8) {g_d[ g_x.n] = (char)g_c; g_val = g_val * 10 + (g_c - '0');} ++g_x.n;}
	else {v_assert( g_inid && idchar( g_c), "C20 a name ends at the first character that cannot be part of one"); g_x.put( g_c);}
	nextchar();
}
static bool same()
{
	Str* s = str(); if (!s) return true;
	if (g_innum) {bool r = s->n == g_x.n; for (uint32_t i=0; i<8; ++i) if (i < g_x.n && s->head[i] != g_d[i]) r = false; return r;}
	if (g_inid) return s->n == g_x.n && (s->n <= in_ofs || s->w == g_x.w) && s->z == 0;
	return true;
}
extern "C" uint64_t h_snap( int k) {return k == 0 ? g_x.n : g_val;}
extern "C" void h_inv_check( uint32_t) {v_assert( same(), "C20 the characters of a name or number");}
extern "C" void h_havoc( uint32_t)
{
	nextchar(); g_x.n = v_nd32(); v_assume( g_x.n < BIG); g_x.w = v_nd32(); g_val = 0;
	for (uint32_t i=0; i<8; ++i) {g_d[i] = (char)v_nd8(); if (i < g_x.n) {v_assume( digit( (uint8_t)g_d[i])); g_val = g_val * 10 + (uint32_t)(g_d[i] - '0');}}
	if (str()) {Str& s = *str(); s.n = g_x.n; s.w = g_x.w; s.z = 0; for (uint32_t i=0; i<8; ++i) s.head[i] = g_d[i];}
}
extern "C" void h_inv_assume( uint32_t) {}
extern "C" int atoi( const char* s) {int r = 0; for (uint32_t i=0; i<9 && s[i]; ++i) {v_assert( digit( (uint8_t)s[i]), "C20 the value of a number"); r = r*10 + (s[i] - '0');} return r;}
static uint64_t g_smem[ (sizeof(Scan)+7)/8];
extern "C" void h_spaces() {Scan& s = *(Scan*)g_smem; nextchar(); g_inspaces = true; Parser::skipSpaces( s); v_assert( !blank( g_c), "C20 blanks between the tokens"); v_cover( "spaces");}
extern "C" void h_idchar() {Scan& s = *(Scan*)g_smem; nextchar(); bool r = Parser::isIdentifierChar( s); v_assert( r == idchar( g_c), "C20 the characters of names"); if (r) v_cover( "yes"); else v_cover( "no");}
extern "C" void h_num()
{
	Scan& s = *(Scan*)g_smem; nextchar(); g_innum = true; g_str = 0; int r = Parser::parseNum( s);
	v_assert( !digit( g_c), "C20 a number ends at the first character that is no digit");
	v_assert( r == (g_x.n == 0 || g_x.n > 8 ? -1 : (int)g_val), "C20 the value of a number"); if (r >= 0) v_cover( "number"); else v_cover( "?no number");
}
extern "C" void h_ident()
{
	Scan& s = *(Scan*)g_smem; nextchar(); g_inid = true; static uint64_t m[ (sizeof(IdBuf)+7)/8]; IdBuf* b = new( (void*)m) IdBuf( &g_cs); g_str = &b->idlist.slot; b->idlist.n = v_nd32() & 0xFF; uint32_t n0 = (uint32_t)b->idlist.n; in_ofs = v_nd32();
	const char* r = b->parseIdentifier( s); Str& t = b->idlist.slot;
	v_assert( !idchar( g_c), "C20 a name ends at the first character that cannot be part of one");
	v_assert( b->idlist.n == n0+1 && r == t.head && t.n == g_x.n && (in_ofs >= t.n || t.w == g_x.w), "C20 the characters of a name or number");
	v_assert( t.z >= 4, "C20 a name is terminated"); v_cover( "name");
}
#endif

#ifndef U_ADD
static void on_open() {}
#endif
#if defined(U_VALUE) || defined(U_LIST)
template <> void Parser::skipSpaces( Scan&);
template <> bool Parser::isIdentifierChar( Scan&) {return idchar( g_c);}	// contract: unit h_idchar
static uint32_t g_nid; static char g_names[2]; static void on_ident();
// contract: unit h_ident
template <> const char* IdBuf::parseIdentifier( Scan&)
{
	v_assert( idchar( g_c), "C20 a name has at least one character"); const char* r = g_names + (g_nid == in_ofs ? 0 : 1); ++g_nid; on_ident();
	nextchar(); v_assume( !idchar( g_c)); return r;
}
#endif
#ifdef U_VALUE
typedef std::string Str; static Str g_x; static Str* g_str; static uint32_t g_q, g_eb;
static void on_vector( void*) {} static void on_string( void*) {} static void on_ident() {}
template <> void Parser::skipSpaces( Scan&) {v_assert( !blank( g_c), "C20 a value is as written");}
static void on_skip()
{
	v_assert( g_c != 0, "C20 nothing after the end of the expression is read");
	if (g_q == 0) {v_assert( g_c == '"' || g_c == '\'', "C20 a value is a name or quoted"); g_q = 1; g_eb = g_c;}
	else {v_assert( g_q == 1, "C20 a value ends at its closing quote"); if (g_c == g_eb) g_q = 2; else g_x.put( g_c);}
	nextchar();
}
extern "C" uint64_t h_snap( int k) {return k == 0 ? g_x.n : g_eb;}
extern "C" void h_inv_check( uint32_t) {v_assert( g_q == 1 && g_nid == 0 && g_str->n == g_x.n && (g_x.n <= in_ofs || g_str->w == g_x.w) && g_str->z == 0, "C20 a value is as written");}
extern "C" void h_havoc( uint32_t) {nextchar(); g_x.n = v_nd32(); v_assume( g_x.n < BIG); g_x.w = v_nd32(); g_str->n = g_x.n; g_str->w = g_x.w; g_str->z = 0;}
extern "C" void h_inv_assume( uint32_t) {}
static uint64_t g_smem[ (sizeof(Scan)+7)/8], g_bmem[ (sizeof(IdBuf)+7)/8];
extern "C" void h_value()
{
	Scan& s = *(Scan*)g_smem; nextchar(); in_c = g_c; in_ofs = v_nd32(); IdBuf* b = new( (void*)g_bmem) IdBuf( &g_cs); g_str = &b->idlist.slot;
	const char* r = b->parseValue( s);
	if (in_c == '"' || in_c == '\'')
	{
		v_assert( g_eb == in_c && g_nid == 0 && (g_q == 2 || (g_q == 1 && g_c == 0)), "C20 a value ends at its closing quote");
		v_assert( r == g_str->head && g_str->n == g_x.n && (in_ofs >= g_x.n || g_str->w == g_x.w), "C20 a value is as written"); v_assert( g_str->z >= 4, "C20 a name is terminated"); v_cover( "quoted");
	}
	else if (idchar( in_c)) {v_assert( g_q == 0 && g_nid == 1 && r == g_names + (in_ofs == 0 ? 0 : 1), "C20 a value is as written"); v_cover( "name");}
	else {v_assert( r == 0 && g_q == 0 && g_nid == 0 && g_c == in_c, "C20 a value is a name or quoted"); v_cover( "none");}
}
#endif
#ifdef U_LIST
typedef std::vector<const char*> Vec; static Vec* g_vec; static uint32_t g_q;	// 0 at the opening bracket, 1 a name follows, 2 after a name, 3 closed
static void on_string( void*) {} static void on_vector( void* v) {if (!g_vec) g_vec = (Vec*)v;}
template <> void Parser::skipSpaces( Scan&) {if (blank( g_c)) {nextchar(); v_assume( !blank( g_c));}}
static void on_skip()
{
	v_assert( g_c != 0, "C20 nothing after the end of the expression is read");
	bool ok = g_q == 0 ? g_c == '{' : g_q == 2 && (g_c == ',' || g_c == '}'); v_assert( ok, "C20 a list of names ends at its bracket or at the first character that does not fit");
	g_q = g_q == 0 || g_c == ',' ? 1 : 3; nextchar();
}
static void on_ident() {v_assert( g_q == 1, "C20 names of a list are separated by commas"); g_q = 2;}
extern "C" uint64_t h_snap( int) {return g_nid;}
extern "C" void h_inv_check( uint32_t) {v_assert( g_vec && g_vec->n == g_nid && (g_nid <= in_ofs || g_vec->w == g_names) && ((g_q == 0 && g_nid == 0 && g_c == '{') || (g_q == 2 && g_nid >= 1 && g_c == ',')), "C20 the names of a list");}
extern "C" void h_havoc( uint32_t) {nextchar(); g_nid = v_nd32(); v_assume( g_nid < BIG); if (g_nid) {v_assume( g_c == ','); g_q = 2;} else {v_assume( g_c == '{'); g_q = 0;} g_vec->n = g_nid; g_vec->w = g_names;}
extern "C" void h_inv_assume( uint32_t) {}
static uint64_t g_smem[ (sizeof(Scan)+7)/8], g_bmem[ (sizeof(IdBuf)+7)/8];
extern "C" void h_list()
{
	Scan& s = *(Scan*)g_smem; nextchar(); v_assume( g_c == '{'); in_ofs = v_nd32(); IdBuf* b = new( (void*)g_bmem) IdBuf( &g_cs);
	Vec r = b->parseIdentifierList( s, '{', '}');
	if (r.n != 0) {v_assert( g_q == 3 && r.n == g_nid && (in_ofs >= r.n || r.w == g_names), "C20 the names of a list"); v_cover( "list");}
	else {v_assert( (g_q == 1 && !idchar( g_c) && !blank( g_c)) || (g_q == 2 && g_c != ',' && g_c != '}' && !blank( g_c)), "C20 every list of names is accepted"); v_cover( "refused");}
}
#endif

#ifdef U_EXPR
typedef Parser::PathElement PathElement; typedef std::vector<PathElement> Paths;
static const char g_names[3] = {0,0,0}; static uint32_t g_k, g_count, g_n0;
enum Op {oTO,oFROM,oRANGE,oINDEX,oATTR,oTAG,oTYPE,oDESC,oCLOSE,oCOND,oCONTENT,oTAGALT,oATTRALT};
static Paths* g_paths;
static void rec( const PathElement* e, uint8_t o, int a, int b, const void* n, const void* v)
{
	v_assert( v_same( (char*)e, g_paths->a) && v_ofs( (char*)e) < g_paths->n*sizeof(PathElement), "C20 only the paths of the expression are visited"); uint32_t cur = (uint32_t)(e - (const PathElement*)g_paths->a);
	v_assert( o == in_op && (o > oINDEX || a == in_i) && (o != oRANGE || b == in_j) && ((o != oATTR && o != oTAG && o != oCOND) || n == g_names) && (o != oCOND || v == g_names+1) && (o != oTYPE || a == in_type), "C20 the operation of the builder");
	if (cur == in_ofs) ++g_count; g_k = cur+1;
}
#define ELEMOP(SIG,O,A,B,N,V) template <> PathElement& Parser::ThisAutomaton::PathElement::SIG {rec( this, O, A, B, N, V); return *this;}
ELEMOP( TO( int i), oTO, i, 0, 0, 0) ELEMOP( FROM( int i), oFROM, i, 0, 0, 0) ELEMOP( RANGE( int i, int j), oRANGE, i, j, 0, 0) ELEMOP( INDEX( int i), oINDEX, i, 0, 0, 0)
ELEMOP( selectAttribute( const char* n), oATTR, 0, 0, n, 0) ELEMOP( selectTag( const char* n), oTAG, 0, 0, n, 0) ELEMOP( assignType( int t), oTYPE, t, 0, 0, 0) ELEMOP( forAllDescendants(), oDESC, 0, 0, 0, 0)
ELEMOP( selectCloseTag(), oCLOSE, 0, 0, 0, 0) ELEMOP( ifAttribute( const char* n, const char* v), oCOND, 0, 0, n, v) ELEMOP( selectContent(), oCONTENT, 0, 0, 0, 0)
static void on_skip() {}
#ifdef U_ALT
static void step( Paths& p, const char* n, uint8_t o) {v_assert( in_op == o && p.what == 0 && p.n == g_n0 && !v_same( (char*)&p, (char*)g_new), "C20 every alternative continues all paths"); p.what = 1; p.name = n;}
template <> void Expr::selectTag( const char* n) {step( statelist, n, oTAGALT);}
template <> void Expr::selectAttribute( const char* n) {step( statelist, n, oATTRALT);}
static Paths* nw() {return (Paths*)g_new;} static std::vector<const char*> g_alt; static const char* wname() {return in_ofs < g_alt.n ? g_alt[ in_ofs] : 0;}
extern "C" uint64_t h_snap( int) {return g_new ? nw()->n : 0;}
extern "C" const void* h_psnap( int) {return (const char**)g_alt.a + (g_new ? nw()->n : 0);}
extern "C" void h_inv_check( uint32_t) {v_assert( nw()->what == 2 && nw()->n <= g_alt.n && (nw()->n <= in_ofs || (nw()->name == wname() && nw()->wwhat == 1)), "C20 an alternative multiplies the paths");}
extern "C" void h_havoc( uint32_t) {nw()->n = v_nd32(); v_assume( nw()->n <= g_alt.n); nw()->name = wname(); nw()->wwhat = 1;}
extern "C" void h_inv_assume( uint32_t) {}
#else
extern "C" uint64_t h_snap( int) {return g_k;}
extern "C" const void* h_psnap( int) {return (const PathElement*)g_paths->a + g_k;}
extern "C" void h_inv_check( uint32_t) {v_assert( g_count == (in_ofs < g_k ? 1U : 0U), "C20 an operation is applied to every path once");}
extern "C" void h_havoc( uint32_t) {g_k = v_nd32(); v_assume( g_k <= g_n0); g_count = in_ofs < g_k ? 1 : 0;}
extern "C" void h_inv_assume( uint32_t) {}
#endif
static uint64_t g_emem[ (sizeof(Expr)+7)/8];
extern "C" void h_op()
{
	Expr& e = *(Expr*)g_emem; g_n0 = v_nd32(); v_assume( g_n0 < BIG); e.statelist.n = g_n0; e.statelist.what = 0; e.statelist.a = v_alloc( g_n0*sizeof(PathElement)); in_op = v_nd8(); in_ofs = v_nd32(); in_i = (int)v_nd32(); in_j = (int)v_nd32(); in_type = (int)v_nd32();
#ifdef U_ALT
	std::vector<const char*>& alt = g_alt; alt.n = v_nd32(); v_assume( alt.n < BIG); size_t n = alt.n; alt.a = v_alloc( n*8); g_new = g_copy = 0;
	if (v_ndb()) {in_op = oTAGALT; e.selectTagAlt( alt); v_cover( "tags");} else {in_op = oATTRALT; e.selectAttributeAlt( alt); v_cover( "attributes");}
	v_assert( e.statelist.what == 2 && e.statelist.n == n && (in_ofs >= n || (e.statelist.name == wname() && e.statelist.wwhat == 1)), "C20 an alternative multiplies the paths");
#else
	g_paths = &e.statelist;
	switch (in_op)
	{
		case oTO: e.TO( in_i); break; case oFROM: e.FROM( in_i); break; case oRANGE: e.RANGE( in_i, in_j); break; case oINDEX: e.INDEX( in_i); break; case oATTR: e.selectAttribute( g_names); break; case oTAG: e.selectTag( g_names); break;
		case oTYPE: e.assignType( in_type); break; case oDESC: e.forAllDescendants(); break; case oCLOSE: e.selectCloseTag(); break; case oCOND: e.ifAttribute( g_names, g_names+1); break; case oCONTENT: e.selectContent(); break; default: return;
	}
	v_assert( e.statelist.n == g_n0 && e.statelist.what == 0 && (in_ofs >= g_n0 || g_count == 1), "C20 an operation is applied to every path once"); v_cover( "operation");
	Expr c( e); v_assert( c.statelist.n == g_n0 && c.statelist.what == 0, "C20 a copy has the same paths");
	Expr r( parser()); v_assert( r.statelist.n == 1, "C20 an expression starts at the root");
#endif
}
#endif

#ifdef U_ADD
static void ns_skip(); extern uint32_t g_nsx;
enum Q {S,T,A,TI,AI,CO,CN,SL,B0,B1,B2,B3,B4,N1,N2,N3,P1,ERR};
enum Op {oFROM,oRANGE,oINDEX,oATTR,oTAG,oDESC,oCLOSE,oCOND,oCONTENT,oTAGALT,oATTRALT};
struct Rec { uint8_t op; int a, b; const void* n; const void* v; };
static Rec g_want[3], g_got[3]; static uint32_t g_nwant, g_ngot, g_q, g_assigned; static int g_type; static Rec g_tok;	// the operation being read
static char g_idmem[8]; static uint32_t g_id;
static void on_string( void*) {} static void on_vector( void*) {}
static void want( uint8_t op, int a, int b, const void* n, const void* v) {v_assert( g_nwant < 3, "MODEL operations of a step"); Rec& r = g_want[ g_nwant++]; r.op = op; r.a = a; r.b = b; r.n = n; r.v = v;}
static void got( uint8_t op, int a, int b, const void* n, const void* v) {v_assert( g_ngot < 3 && g_assigned == 0, "C20 the operations of an expression"); if (g_ngot >= 3) return; Rec& r = g_got[ g_ngot++]; r.op = op; r.a = a; r.b = b; r.n = n; r.v = v;}
static bool agree()
{
	if (g_nwant != g_ngot) return false;
	for (uint32_t i=0; i<3; ++i) if (i < g_nwant) {const Rec& x = g_want[i]; const Rec& y = g_got[i]; if (x.op != y.op || x.a != y.a || x.b != y.b || x.n != y.n || x.v != y.v) return false;}
	return true;
}
static bool tagpos() {return g_q == S || g_q == T || g_q == SL;}
static bool steppos() {return g_q == S || g_q == TI || g_q == CN;}
static bool viable( uint32_t c)
{
	if (g_q == ERR || c == 0) return false;
	if (blank( c)) return g_q != S;
	switch (g_q)
	{
		case S: return c == '@' || c == '/' || c == '[' || c == '(' || c == '*' || c == '{' || c == '~' || idchar( c);
		case T: case SL: return c == '@' || c == '[' || c == '(' || c == '*' || c == '{' || idchar( c) || (g_q == SL && c == '/');
		case A: return c == '*' || c == '{' || idchar( c);
		case TI: case CN: return c == '@' || c == '/' || c == '[' || c == '(' || c == '~';
		case B0: return c == '@' || digit( c); case B1: return idchar( c); case B2: return c == '='; case B3: return c == '"' || c == '\'' || idchar( c); case B4: case N3: return c == ']';
		case N1: return c == ',' || c == ']'; case N2: return c == ']' || digit( c); case P1: return c == ')';
		default: return false;
	}
}
static void on_skip()
{
	if (g_nsx == 1) {ns_skip(); return;}
	uint32_t c = g_c, q = ERR; v_assert( c != 0, "C20 nothing after the end of the expression is read");
	switch (c)
	{
		case '@': if (tagpos() || steppos()) q = A; else if (g_q == B0) q = B1; break;
		case '/': if (steppos()) q = SL; else if (g_q == SL) {q = T; want( oDESC, 0, 0, 0, 0);} break;
		case '[': if (tagpos() || steppos()) q = B0; break;
		case '(': if (tagpos() || steppos()) q = P1; break;
		case ')': if (g_q == P1) {q = CO; want( oCONTENT, 0, 0, 0, 0);} break;
		case '*': if (tagpos()) {q = TI; want( oTAG, 0, 0, 0, 0);} else if (g_q == A) {q = AI; want( oATTR, 0, 0, 0, 0);} break;
		case '~': if (steppos()) {q = CO; want( oCLOSE, 0, 0, 0, 0);} break;
		case '=': if (g_q == B2) q = B3; break;
		case ',': if (g_q == N1) q = N2; break;
		case ']':
			if (g_q == B4) {q = CN; want( oCOND, 0, 0, g_tok.n, g_tok.v);} else if (g_q == N1) {q = CN; want( oINDEX, g_tok.a, 0, 0, 0);}
			else if (g_q == N2) {q = CN; want( oFROM, g_tok.a, 0, 0, 0);} else if (g_q == N3) {q = CN; want( oRANGE, g_tok.a, g_tok.b, 0, 0);}
			break;
		default: break;
	}
	v_assert( q != ERR, "C20 an invalid expression is refused at the first character that does not fit"); g_q = q; nextchar();
}
// contracts: units h_spaces, h_idchar, h_num, h_ident, h_value, h_list, h_op
template <> void Parser::skipSpaces( Scan&) {if (!blank( g_c)) return; v_assert( g_q != S, "C20 blanks between the tokens"); if (g_q == SL) g_q = T; nextchar(); v_assume( !blank( g_c));}
template <> bool Parser::isIdentifierChar( Scan&) {return idchar( g_c);}
template <> int Parser::parseNum( Scan&)
{
	if (!digit( g_c)) return -1;
	v_assert( g_q == B0 || g_q == N2, "C20 an invalid expression is refused at the first character that does not fit"); nextchar(); v_assume( !digit( g_c));
	if (v_ndb()) {g_q = ERR; return -1;}	// number too big
	int r = (int)v_nd32(); v_assume( r >= 0 && r <= 99999999); if (g_q == B0) {g_tok.a = r; g_q = N1;} else {g_tok.b = r; g_q = N3;} return r;
}
template <> const char* IdBuf::parseIdentifier( Scan&)
{
	v_assert( idchar( g_c), "C20 a name has at least one character"); const char* r = g_idmem + (g_id < 7 ? g_id++ : 7); nextchar(); v_assume( !idchar( g_c));
	if (tagpos()) {want( oTAG, 0, 0, r, 0); g_q = TI;} else if (g_q == A) {want( oATTR, 0, 0, r, 0); g_q = AI;}
	else {v_assert( g_q == B1, "C20 an invalid expression is refused at the first character that does not fit"); g_tok.n = r; g_q = B2;}
	return r;
}
template <> const char* IdBuf::parseValue( Scan&)
{
	if (g_c != '"' && g_c != '\'' && !idchar( g_c)) return 0;
	v_assert( g_q == B3, "C20 an invalid expression is refused at the first character that does not fit"); const char* r = g_idmem + (g_id < 7 ? g_id++ : 7); nextchar(); g_tok.v = r; g_q = B4; return r;
}
static const char* g_listmem;
template <> std::vector<const char*> IdBuf::parseIdentifierList( Scan&, unsigned char b, unsigned char e)
{
	v_assert( b == '{' && e == '}', "C20 brackets of alternatives"); std::vector<const char*> r; if (g_c != '{') return r;
	v_assert( tagpos() || g_q == A, "C20 an invalid expression is refused at the first character that does not fit"); nextchar();
	if (v_ndb()) {g_q = ERR; return r;}
	r.n = v_nd32(); v_assume( r.n >= 1 && r.n < BIG); r.w = g_idmem + (g_id < 7 ? g_id++ : 7); const void* id = r.w;
	if (g_q == A) {want( oATTRALT, (int)r.n, 0, id, 0); g_q = AI;} else {want( oTAGALT, (int)r.n, 0, id, 0); g_q = TI;}
	return r;
}
template <> Expr::ExprState( Parser* p) {v_assert( p == parser(), "C20 the expression is added to the automaton");}
template <> void Expr::selectTagAlt( std::vector<const char*> a) {got( oTAGALT, (int)a.n, 0, a.w, 0);}
template <> void Expr::selectAttributeAlt( std::vector<const char*> a) {got( oATTRALT, (int)a.n, 0, a.w, 0);}
template <> void Expr::FROM( int a) {got( oFROM, a, 0, 0, 0);} template <> void Expr::RANGE( int a, int b) {got( oRANGE, a, b, 0, 0);} template <> void Expr::INDEX( int a) {got( oINDEX, a, 0, 0, 0);}
template <> void Expr::selectTag( const char* n) {got( oTAG, 0, 0, n, 0);} template <> void Expr::selectAttribute( const char* n) {got( oATTR, 0, 0, n, 0);} template <> void Expr::forAllDescendants() {got( oDESC, 0, 0, 0, 0);}
template <> void Expr::selectCloseTag() {got( oCLOSE, 0, 0, 0, 0);} template <> void Expr::selectContent() {got( oCONTENT, 0, 0, 0, 0);} template <> void Expr::ifAttribute( const char* n, const char* v) {got( oCOND, 0, 0, n, v);}
template <> void Expr::assignType( int t) {++g_assigned; g_type = t;}
// first pass: two colons in a row outside of quotes are refused. g_nsx 0 not in this pass, 1 in it, 2 done; g_quote the quote we are in, g_colon: the last character was a colon at g_colonpos
static char* g_src; uint32_t g_nsx; static uint32_t g_quote, g_colonpos; static bool g_colon;
static void on_open()
{
	v_assert( g_scansrc == g_src && g_scansize == in_n, "C20 the expression is read from its start"); if (g_scans == 1) {g_nsx = 1; g_quote = 0; g_colon = false; nextchar(); return;}
	v_assert( g_scans == 2 && g_nsx == 1 && g_c == 0, "C20 namespaces are refused"); g_nsx = 2; g_q = S; nextchar();
}
static void ns_skip()
{
	v_assert( g_c != 0, "C20 nothing after the end of the expression is read"); v_assert( !(g_colon && g_c == ':'), "C20 namespaces are refused"); g_colon = false;
	if (g_quote) {if (g_c == g_quote) g_quote = 0;} else if (g_c == '"' || g_c == '\'') g_quote = g_c; else if (g_c == ':') {g_colon = true; g_colonpos = g_pos;}
	nextchar();
}
extern "C" uint64_t h_snap( int k) {return k == 0 ? (g_q == SL ? (uint64_t)T : g_q) : k == 1 ? g_quote : k == 2 ? g_colon : g_c;}
extern "C" void h_inv_check( uint32_t)
{
	if (g_nsx == 1) {v_assert( !(g_colon && g_c == ':'), "C20 namespaces are refused"); return;}
	v_assert( agree(), "C20 the operations of an expression"); v_assert( g_q <= SL && !(g_q == SL && g_c == '/') && !(g_q != S && blank( g_c)) && g_assigned == 0, "C20 the tokens of an expression");
}
extern "C" void h_havoc( uint32_t)
{
	if (g_nsx == 1) {g_quote = v_ndb() ? 0 : v_ndb() ? '"' : '\''; g_colon = v_ndb(); g_colonpos = v_nd32(); nextchar(); v_assume( !g_colon || (!g_quote && g_c != ':')); return;}
	nextchar(); g_q = v_nd8(); v_assume( g_q <= CN && (g_q == S || !blank( g_c))); g_nwant = g_ngot = 0; g_id = 0;
}
extern "C" void h_inv_assume( uint32_t) {}
extern "C" void h_add()
{
	in_n = v_nd32(); v_assume( in_n < BIG); g_src = v_alloc( in_n); in_ofs = v_nd32(); in_type = (int)v_nd32(); g_q = S;
	int r = parser()->addExpression( in_type, g_src, in_n);
	if (g_nsx == 1) {v_assert( g_colon && g_c == ':' && !g_quote && r == (int)g_colonpos+1, "C20 namespaces are refused"); v_assert( g_assigned == 0, "C20 an invalid expression selects nothing"); v_cover( "namespace"); return;}
	v_assert( g_nsx == 2, "C20 namespaces are refused");
	if (r == 0)
	{
		v_assert( g_c == 0 && (g_q == S || g_q == TI || g_q == AI || g_q == CO || g_q == CN), "C20 an invalid expression is refused at the first character that does not fit");
		v_assert( agree(), "C20 the operations of an expression"); v_assert( g_assigned == 1 && g_type == in_type, "C20 the event of the expression is assigned"); v_cover( "valid");
	}
	else
	{
		v_assert( !viable( g_c) && !(g_c == 0 && (g_q == S || g_q == TI || g_q == AI || g_q == CO || g_q == CN)), "C20 every valid expression is accepted");
		v_assert( r == (int)g_pos+1, "C20 the position of the error"); v_assert( g_assigned == 0, "C20 an invalid expression selects nothing"); v_cover( "refused");
	}
}
#endif
