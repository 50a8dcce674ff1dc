// Harness C19 (automaton): contracts of the builder of path automata, for automata, names and chains of any size.
//  State::defineKey/defineNext/defineOutput   the state holds a copy of the key, the mask of the operation, its follow state and its range
//  XMLPathSelectAutomaton::defineNext(s,...)  returns the follow state of a transition of the chain of s that is the same in element type, key and
//                     reach, or appends exactly one new state with that transition at the end of the chain; no other state is changed
//  XMLPathSelectAutomaton::defineOutput(s,..) appends exactly one output state at the end of the chain of s; no other state is changed
//  PathElement        every operation defines the steps, the output and the range it denotes
//  parseStaticToken   the key is the name or value given with the character references replaced; anything that is not a name is refused
#define private public
#define protected public
#include "v.h"
#include <cstddef>
#include <cstring>
#include <map>
#include <list>
#include <stdexcept>
#include <string>
#include <limits>
#include <iostream>
#include <sstream>
#ifndef U_TOKEN
#define V_VECTOR
template <class T> struct Get;
namespace std {
template <class T> class vector
{
public:
	typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type;
	vector() :n(0) {}
	T& operator[]( size_t i) {return Get<T>::at( *this, i);}
	const T& operator[]( size_t i) const {return Get<T>::at( *(vector*)this, i);}
	T& at( size_t i) {return Get<T>::at( *this, i);}
	T& back() {return Get<T>::at( *this, n-1);}
	size_t size() const {return n;}
	bool empty() const {return n==0;}
	void push_back( const T& x) {Get<T>::push( *this, x);}
	iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const;
	size_t n;
};
}
#endif
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#include "spec_xml.h"
typedef textwolf::charset::UTF8 CS;
#ifdef U_TOKEN
// contract of the text scanner (harness textscan.cpp, C03): the characters one by one
static void on_skip(); static uint32_t g_c; static uint8_t g_cls;/*its class*/ static uint32_t g_nskip;
struct GIt { int x; };
struct GCS { template <class B> void print( textwolf::UChar c, B& b) const {b.put( c);} static bool is_equal( const GCS&, const GCS&) {return true;} };
#include "textwolf/textscanner.hpp"
namespace textwolf {
template <> class TextScanner<GIt,GCS>
{
public:
	GIt input; TextScanner( const GCS&) {} TextScanner( const GCS&, const GIt& i) :input(i) {} TextScanner( const GIt& i) :input(i) {} TextScanner( const TextScanner& o) :input(o.input) {}
	UChar chr() {return g_c;} UChar operator*() {return g_c;}
	ControlCharacter control() {return (ControlCharacter)g_cls;}
	unsigned char ascii() {return g_c <= 127 ? (unsigned char)g_c : 0;}
	TextScanner& skip() {on_skip(); return *this;} TextScanner& operator++() {return skip();}
};
}
#endif
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#undef private
#undef protected
using namespace textwolf;
typedef XMLScannerBase XB;
typedef XMLPathSelectAutomaton<CS> Atm; typedef Atm::State State; typedef Atm::Mask Mask; typedef Atm::PathElement PathElement;

// the element types of a step (match) and the ones after which it cannot be found anymore (reject)
#define B(t) (1U << XB::t)
static uint32_t posmask( uint32_t op)
{
	switch (op)
	{
		case Atm::OpenTag: return B(OpenTag)|B(HeaderStart); case Atm::CloseTag: return B(CloseTag)|B(CloseTagIm)|B(HeaderEnd); case Atm::Attribute: return B(TagAttribName)|B(HeaderAttribName);
		case Atm::ThisAttributeValue: case Atm::AttributeValue: return B(TagAttribValue)|B(HeaderAttribValue); case Atm::Content: return B(Content); default: return B(HeaderEnd);
	}
}
static uint32_t negmask( uint32_t op)
{
	switch (op)
	{
		case Atm::Attribute: case Atm::AttributeValue: return B(Content); case Atm::ThisAttributeValue: return B(TagAttribName)|B(HeaderAttribName)|B(Content)|B(OpenTag); default: return 0;
	}
}
uint32_t in_op, in_keysize, in_from, in_n, in_next, in_ofs; int32_t in_start, in_end, in_type, in_i, in_j; bool in_follow, in_haskey, in_hassrc, in_what;
static uint32_t op() {uint32_t o = v_nd8(); v_assume( o <= Atm::ContentStart); return o;}
static const uint32_t BIG = 0x3FFFFFFF;

#ifdef U_KEY
static State* g_st; static char* g_key; static char* g_src; static uint32_t g_len;
static char* g_k0;
extern "C" uint64_t h_snap( int k)
{
	if (k == 0) return g_st->key && v_same( g_st->key, g_k0) == false && in_haskey && in_ofs < in_keysize && v_rok( g_st->key, in_keysize) && g_st->key[ in_ofs] == g_key[ in_ofs] ? 0xFFFFFFFFU : in_ofs;
	return g_len;
}
extern "C" void h_inv_check( uint32_t k)
{
	v_assert( g_st->next == 5 && g_st->link == 7 && g_st->core.typeidx == 9, "C19 defining the key of a state leaves the rest");
	if (in_haskey) v_assert( g_st->key && v_ofs( g_st->key) == 0 && v_wok( g_st->key, in_keysize) && g_st->keysize == in_keysize, "C19 the state has its own copy of the key");
	if (g_st->srckey) {v_assume( v_objsize( g_st->srckey) == (uint64_t)g_len+1);}	// the length found is the one of the case considered
}
extern "C" void h_havoc( uint32_t) {if (g_st->key) v_havoc( g_st->key); if (g_st->srckey) v_havoc( g_st->srckey);}
extern "C" void h_inv_assume( uint32_t) {}
static uint64_t g_stmem[ (sizeof(State)+7)/8];
extern "C" void h_key()
{
	g_st = new( g_stmem) State(); g_st->next = 5; g_st->link = 7; g_st->core.typeidx = 9;
	bool had = v_ndb(); if (had) {g_st->key = new char[ 3]; g_st->srckey = new char[ 3]; g_st->keysize = 3;}
	g_k0 = g_st->key; 
	in_keysize = v_nd32(); v_assume( in_keysize < BIG); in_haskey = v_ndb(); in_ofs = v_nd32(); g_key = v_alloc( in_keysize); g_len = v_nd32(); v_assume( g_len < BIG); g_src = v_alloc( (uint64_t)g_len+1); v_assume( g_src[ g_len] == 0); in_hassrc = v_ndb();
	g_st->defineKey( in_keysize, in_haskey ? g_key : 0, in_hassrc ? g_src : 0);
	v_assert( g_st->next == 5 && g_st->link == 7 && g_st->core.typeidx == 9, "C19 defining the key of a state leaves the rest");
	if (in_haskey)
	{
		v_assert( g_st->keysize == in_keysize && g_st->key && v_ofs( g_st->key) == 0 && v_objsize( g_st->key) >= in_keysize && !v_same( g_st->key, g_key), "C19 the state has its own copy of the key");
		if (in_ofs < in_keysize) v_assert( g_st->key[ in_ofs] == g_key[ in_ofs], "C19 the state has its own copy of the key");
	}
	else v_assert( g_st->key == 0, "C19 a step without name matches every name");
	if (in_hassrc) v_cover( "with source"); if (in_haskey) v_cover( "with key"); if (had) v_cover( "redefined");
	g_st->~State(); v_cover( "destroyed");
}
#endif

#if defined(U_STATE) || defined(U_NEXT) || defined(U_PATH)
template <> struct Get<State>
{
	static State& at( std::vector<State>& v, std::size_t i); static void push( std::vector<State>& v, const State& s);
};
#endif
#ifdef U_STATE
State& Get<State>::at( std::vector<State>&, std::size_t) {static uint64_t m[ (sizeof(State)+7)/8]; return *(State*)m;}
void Get<State>::push( std::vector<State>&, const State&) {}
static uint32_t g_nkey, g_ks; static const char* g_k; static const char* g_sk;
template <> void Atm::State::defineKey( unsigned int n, const char* k, const char* s) {++g_nkey; g_ks = n; g_k = k; g_sk = s;}
static uint64_t g_stmem[ (sizeof(State)+7)/8];
extern "C" void h_state()
{
	State& s = *new( g_stmem) State(); char kk, ss; in_op = op(); in_keysize = v_nd32(); in_next = v_nd32(); in_follow = v_ndb(); const char* k = v_ndb() ? &kk : 0;
	v_assert( s.core.typeidx == 0 && s.core.cnt_start == 0 && s.core.cnt_end == -1 && s.next == -1 && s.link == -1 && s.key == 0 && s.core.mask.pos == 0 && s.core.mask.neg == 0 && !s.core.follow, "C19 a new state matches nothing");
	if (v_ndb())
	{
		s.defineNext( (Atm::Operation)in_op, in_keysize, k, &ss, (int)in_next, in_follow);
		v_assert( s.core.mask.pos == posmask( in_op) && s.core.mask.neg == negmask( in_op), "C19 a step matches the element types of its operation");
		v_assert( g_nkey == 1 && g_ks == in_keysize && g_k == k && g_sk == &ss, "C19 a step matches its name"); v_assert( s.next == (int)in_next && s.core.follow == in_follow, "C19 a step activates its follow state");
		v_assert( s.core.typeidx == 0 && s.link == -1 && s.core.cnt_end == -1 && s.core.cnt_start == 0, "C19 a step reports no event"); v_cover( "step");
	}
	else
	{
		Mask m; m.seekop( (Atm::Operation)in_op); v_assert( m.pos == posmask( in_op) && m.neg == negmask( in_op), "C19 a step matches the element types of its operation"); m.pos = v_nd16(); m.neg = v_nd16();
		in_type = (int32_t)v_nd32(); in_start = (int32_t)v_nd32(); in_end = (int32_t)v_nd32();
		s.defineOutput( m, in_type, in_follow, in_start, in_end);
		v_assert( s.core.mask.pos == m.pos && s.core.mask.neg == m.neg && s.core.typeidx == in_type && s.core.follow == in_follow && s.core.cnt_start == in_start && s.core.cnt_end == in_end, "C19 an output state reports its event for its elements");
		v_assert( s.next == -1 && s.link == -1 && s.key == 0 && g_nkey == 0, "C19 an output state activates nothing"); v_cover( "output");
	}
	Mask e; e.match( (XB::ElementType)3); Mask f; v_assert( e.pos == 8 && f.pos == 0 && f.empty() && e.matches( (XB::ElementType)3) && !e.matches( (XB::ElementType)4), "C19 mask of element types");
}
#endif

#ifdef U_NEXT
// the automaton: states 0..g_n0-1 as given, then the ones appended. The state last visited on the chain is g_cur, its contents g_slot
static bool g_first; static uint32_t g_n0; static uint32_t g_cur; static bool g_have; static uint64_t g_slotmem[ (sizeof(State)+7)/8], g_newmem[2][ (sizeof(State)+7)/8];
static State* slot() {return (State*)g_slotmem;} static State* fresh( int k) {return (State*)g_newmem[k];}
static State g_s0; static uint32_t g_npush; static int32_t g_at; static char* g_key; static uint32_t g_d; static bool g_dif; static bool g_arr;
static void load( uint32_t i)
{
	State& s = *slot(); s.core.mask.pos = v_nd16(); s.core.mask.neg = v_nd16(); s.core.follow = v_ndb(); s.core.typeidx = (int32_t)v_nd32(); s.core.cnt_start = (int32_t)v_nd32(); s.core.cnt_end = (int32_t)v_nd32();
	s.link = (int32_t)v_nd32(); s.next = (int32_t)v_nd32(); s.srckey = 0; s.keysize = v_nd32(); v_assume( s.keysize < BIG);
	v_assume( s.link >= -1 && (s.link == -1 || ((uint32_t)s.link > i && (uint32_t)s.link < g_n0)) && s.next >= -1 && (s.next == -1 || ((uint32_t)s.next > i && (uint32_t)s.next < g_n0)));
	// key: none, the same, or one that differs in size or at byte g_d
	uint8_t k = v_nd8() & 3; g_dif = false;
	if (k == 0) s.key = 0;
	else if (k == 1 && in_haskey) {s.key = g_key; s.keysize = in_keysize; g_d = in_keysize;}
	else {s.key = v_alloc( s.keysize); g_dif = true; g_d = v_nd32(); if (in_haskey && s.keysize == in_keysize) {v_assume( g_d < in_keysize); v_assume( s.key[ g_d] != g_key[ g_d]);}}
	if (s.key) v_assume( s.next != -1); if (s.core.typeidx) v_assume( s.next == -1 && s.key == 0);
	if (g_first) v_assume( s.key == 0 && s.core.typeidx == 0 && s.core.mask.pos == 0 && s.core.mask.neg == 0 && s.link == -1 && s.next == -1 && !s.core.follow && s.core.cnt_start == 0 && s.core.cnt_end == -1);
	g_cur = i; g_have = true; g_s0.core.mask = s.core.mask; g_s0.core.follow = s.core.follow; g_s0.core.typeidx = s.core.typeidx; g_s0.core.cnt_start = s.core.cnt_start; g_s0.core.cnt_end = s.core.cnt_end; g_s0.link = s.link; g_s0.next = s.next; g_s0.keysize = s.keysize; g_s0.key = s.key;
}
static bool sameCore( const State& a, const State& b) {return a.core.mask.pos == b.core.mask.pos && a.core.mask.neg == b.core.mask.neg && a.core.follow == b.core.follow && a.core.typeidx == b.core.typeidx && a.core.cnt_start == b.core.cnt_start && a.core.cnt_end == b.core.cnt_end && a.next == b.next && a.keysize == b.keysize && a.key == b.key;}
static bool g_linked;	// the chain has been extended
static void unchanged() {if (g_have) v_assert( sameCore( *slot(), g_s0) && (slot()->link == g_s0.link || (g_linked && g_s0.link == -1)), "C19 defining a path leaves the states of other paths");}
State& Get<State>::at( std::vector<State>& v, std::size_t i)
{
	v_assert( i < v.n, "C19 state index in range"); v_assume( i < v.n);
	if (i >= g_n0) {v_assert( i - g_n0 < 2, "C19 state index in range"); return *fresh( i == g_n0 ? 0 : 1);}
	if (g_have && i == g_cur) return *slot();
	if (g_have) {v_assert( (int32_t)i == slot()->link, "C19 only the chain of the state is looked at"); v_assume( (int32_t)i == slot()->link); unchanged(); v_assert( slot()->link == g_s0.link, "C19 the chain is extended at its end");}
	else v_assert( i == in_from, "C19 only the chain of the state is looked at");
	load( (uint32_t)i); return *slot();
}
void Get<State>::push( std::vector<State>& v, const State& s)
{
	v_assert( g_npush < 3 && v.n < 2*(uint64_t)BIG, "C19 number of states defined"); v_assert( s.core.typeidx == 0 && s.core.cnt_start == 0 && s.core.cnt_end == -1 && s.next == -1 && s.link == -1 && s.key == 0 && s.core.mask.pos == 0 && s.core.mask.neg == 0 && !s.core.follow, "C19 a new state matches nothing");
	if (v.n >= g_n0) {State* f = fresh( v.n == g_n0 ? 0 : 1); f->core.mask.pos = f->core.mask.neg = 0; f->core.follow = false; f->core.typeidx = 0; f->core.cnt_start = 0; f->core.cnt_end = -1; f->next = f->link = -1; f->key = 0; f->srckey = 0; f->keysize = 0;}
	++v.n; ++g_npush;
}
static uint32_t g_ndef; static uint32_t g_defat;
template <> void Atm::State::defineNext( Atm::Operation o, unsigned int ks, const char* k, const char* sk, int nx, bool f)
{
	v_assert( core.mask.pos == 0 && core.mask.neg == 0 && core.typeidx == 0 && core.cnt_end == -1, "C19 a step is defined in a new state");
	++g_ndef; g_defat = this == fresh(0) ? 0 : this == fresh(1) ? 1 : 2;
	v_assert( (uint32_t)o == in_op && ks == in_keysize && k == g_key && f == in_follow, "C19 the step defined is the one of the path");
	core.mask.pos = posmask( in_op); core.mask.neg = negmask( in_op); keysize = ks; key = (char*)k; core.follow = f; next = nx;
}
static bool g_back, g_in; static uint32_t g_cur0;
// g_in: the loop was entered to compare the key of the state with an otherwise equal transition, it stays at this state
static bool fits() {const State& t = *slot(); return g_have && in_haskey && t.key && t.keysize == in_keysize && t.core.follow == in_follow && t.core.mask.pos == posmask( in_op) && t.core.mask.neg == negmask( in_op);}
extern "C" uint64_t h_snap( int k)
{
	uint32_t cur = g_have ? g_cur : in_from, nx = g_have ? (uint32_t)slot()->link : in_from;
	return k == 0 ? (uint64_t)cur : k == 1 ? (uint64_t)nx : k == 2 ? (uint64_t)(g_back && nx != 0xFFFFFFFFU ? nx : cur) : g_d;
}
extern "C" void h_inv_check( uint32_t k)
{
	unchanged(); v_assert( g_npush == (g_first ? 1U : 0U) && !g_linked && g_ndef == 0 && (!g_have || slot()->link == g_s0.link), "C19 the chain is extended at its end");
	g_back = (k & 1) != 0; if (!g_back) g_in = fits(); else if (g_in) v_assert( g_have && g_cur == g_cur0 && fits(), "C19 the key compared is the one of the state");
}
extern "C" void h_havoc( uint32_t)
{
	// at the state to look at next, at the state looked at last, or at the start
	g_cur0 = g_cur; if (g_in) return;
	g_back = v_ndb(); g_have = v_ndb(); if (g_have) {uint32_t i = v_nd32(); v_assume( i < g_n0 && (i == in_from || i > in_from)); load( i);}
}
extern "C" void h_inv_assume( uint32_t) {}
static uint64_t g_amem[ (sizeof(Atm)+7)/8];
extern "C" void h_next()
{
	Atm& a = *(Atm*)g_amem; in_op = op(); in_keysize = v_nd32(); v_assume( in_keysize < BIG); in_haskey = v_ndb(); g_key = in_haskey ? v_alloc( in_keysize) : 0; if (!in_haskey) in_keysize = 0;
	in_follow = v_ndb(); in_n = v_nd32(); v_assume( in_n < BIG); g_n0 = in_n; a.states.n = in_n; in_from = v_nd32(); v_assume( in_from < in_n || (in_n == 0 && in_from == 0)); char sk;
	g_first = in_n == 0; if (g_first) {g_n0 = 1; g_d = 0;}
	g_linked = false; int rt;
	rt = a.defineNext( (int)in_from, (Atm::Operation)in_op, in_keysize, g_key, &sk, in_follow);
	g_linked = g_npush > (g_first ? 1U : 0U);
	unchanged();
	if (!g_linked)
	{
		v_assert( g_have && slot()->key && rt == slot()->next && slot()->core.mask.pos == posmask( in_op) && slot()->core.mask.neg == negmask( in_op) && slot()->core.follow == in_follow && slot()->keysize == in_keysize && in_haskey && !g_dif, "C19 a step is shared only with an equal one of the same state");
		v_cover( "shared");
	}
	else if (g_defat == 0)
	{
		v_assert( g_ndef == 1 && slot()->link == (int)g_n0 && fresh(0)->link == -1, "C19 a new step is linked to the end of the chain");
		v_assert( g_npush == (g_first ? 3U : 2U) && rt == (int)g_n0+1 && fresh(0)->next == rt && fresh(1)->next == -1 && fresh(1)->link == -1 && fresh(1)->key == 0 && fresh(1)->core.mask.pos == 0 && fresh(1)->core.typeidx == 0, "C19 a new step leads to a new state"); v_cover( "new");
	}
	else v_assert( false, "C19 a new step is linked to the end of the chain");
}
extern "C" void h_output()
{
	Atm& a = *(Atm*)g_amem; in_n = v_nd32(); v_assume( in_n < BIG); g_n0 = in_n; a.states.n = in_n; in_from = v_nd32(); v_assume( in_from < in_n || (in_n == 0 && in_from == 0)); Mask m; m.pos = v_nd16(); m.neg = v_nd16();
	in_type = (int32_t)v_nd32(); in_start = (int32_t)v_nd32(); in_end = (int32_t)v_nd32(); in_follow = v_ndb(); g_key = 0;
	g_first = in_n == 0; if (g_first) {g_n0 = 1; g_d = 0;} g_linked = false;
	int rt = a.defineOutput( (int)in_from, m, in_type, in_follow, in_start, in_end);
	g_linked = true; unchanged();
	State& f = *fresh(0);
	v_assert( g_npush == (g_first ? 2U : 1U) && rt == (int)g_n0 && slot()->link == rt && f.link == -1 && f.next == -1 && f.key == 0, "C19 a new event is linked to the end of the chain");
	v_assert( f.core.mask.pos == m.pos && f.core.mask.neg == m.neg && f.core.typeidx == in_type && f.core.cnt_start == in_start && f.core.cnt_end == in_end && f.core.follow == in_follow, "C19 an output state reports its event for its elements"); v_cover( "new");
}
#endif

#ifdef U_PATH
State& Get<State>::at( std::vector<State>&, std::size_t) {static uint64_t m[ (sizeof(State)+7)/8]; return *(State*)m;}
void Get<State>::push( std::vector<State>&, const State&) {}
struct Call { int from; uint32_t op; const char* src; uint32_t n; char k0; bool key, follow, value; int rt; };
static Call g_call[3]; static uint32_t g_ncall; static uint32_t g_parsed; static const char* g_psrc; static uint32_t g_plen; static char g_pc; static bool g_pvalue; static bool g_refused;
template <> template <> bool XMLScanner<char*,CS,CS,std::string>::parseStaticToken<std::string>( const IsTokenCharMap& m, InputReader r, std::string& b)
{
	++g_parsed; g_psrc = r.getIterator(); b.clear(); g_plen = v_nd8() & 7; g_pc = (char)v_nd8(); for (uint32_t i=0; i<g_plen; ++i) b.push_back( g_pc);
	bool name = m[ Any] && m[ Undef] && m[ Dash] && !m[ Space] && !m[ EndOfLine] && !m[ Cntrl] && !m[ Equal] && !m[ Gt] && !m[ Lt] && !m[ Slash] && !m[ Sq] && !m[ Dq] && !m[ Amp] && !m[ EndOfText] && !m[ Exclam] && !m[ Questm] && !m[ Osb] && !m[ Csb];
	bool value = m[ Any] && m[ Undef] && m[ Dash] && m[ Space] && m[ EndOfLine] && m[ Cntrl] && m[ Equal] && m[ Gt] && m[ Slash] && m[ Sq] && m[ Dq] && !m[ Amp] && !m[ EndOfText] && m[ Exclam] && m[ Questm] && m[ Osb] && m[ Csb];
	v_assert( name || value, "C19 the characters of names and values"); g_pvalue = value;
	bool ok = v_ndb(); g_refused = !ok; return ok;
}
extern "C" void v_on_throw() {v_assert( g_refused, "C19 every name is accepted"); v_cover( "refused");}
template <> int Atm::defineNext( int s, Operation o, unsigned int n, const char* k, const char* src, bool f)
{
	v_assert( !g_refused, "C19 a name that cannot be one is refused"); v_assert( g_ncall < 3, "MODEL number of steps"); Call& c = g_call[ g_ncall++]; c.from = s; c.op = o; c.src = src; c.n = n; c.key = k != 0; c.k0 = k && n ? k[ n-1] : 0; c.follow = f; c.rt = (int)(v_nd32() >> 1);
	if (k) {v_assert( g_parsed == 1 && g_psrc == src && n == g_plen && (n == 0 || (k[0] == g_pc && k[ n-1] == g_pc)), "C19 the key of a step is the name given"); v_assert( g_pvalue == (o == ThisAttributeValue), "C19 the characters of names and values"); g_parsed = 0;}
	else v_assert( n == 0, "C19 a step without name matches every name");
	return c.rt;
}
static uint32_t g_nout; static int g_ofrom, g_otype, g_ostart, g_oend, g_ort; static bool g_ofollow; static Mask g_omask;
template <> int Atm::defineOutput( int s, const Mask& m, int t, bool f, int a, int b) {++g_nout; g_ofrom = s; g_omask = m; g_otype = t; g_ofollow = f; g_ostart = a; g_oend = b; return g_ort = (int)(v_nd32() >> 1);}
static Atm* atm() {static uint64_t m[ (sizeof(Atm)+7)/8]; return (Atm*)m;}
static void step( uint32_t k, int from, uint32_t o, const char* src, bool follow)
{
	const Call& c = g_call[k];
	v_assert( c.from == from && c.op == o && c.src == src && c.key == (src != 0) && c.follow == follow, "C19 an operation defines the step it denotes");
}
extern "C" void h_path()
{
	PathElement e = **atm(); v_assert( e.xs == atm() && e.stateidx == 0 && !e.follow && e.range.start == 0 && e.range.end == -1 && e.printOpMask.pos == 0, "C19 a path starts at the root");
	e.stateidx = (int)(v_nd32() >> 1); e.follow = in_follow = v_ndb(); e.printOpMask.pos = v_nd16(); e.printOpMask.neg = v_nd16(); e.range.start = (int)(v_nd32() >> 1); e.range.end = (int)(v_nd32() >> 1); if (v_ndb()) {e.range.start = 0; e.range.end = -1;}
	PathElement o( e); v_assert( o.xs == e.xs && o.stateidx == e.stateidx && o.range.start == e.range.start && o.range.end == e.range.end && o.follow == e.follow && o.printOpMask.pos == e.printOpMask.pos && o.printOpMask.neg == e.printOpMask.neg, "C19 a copy of a path continues at the same place");
	char nm[2], vl[2]; nm[0] = (char)v_nd8(); nm[1] = 0; vl[0] = (char)v_nd8(); vl[1] = 0; const char* n = v_ndb() ? nm : 0; const char* v = v_ndb() ? vl : 0; in_what = v_ndb();
	in_i = (int)(v_nd32() >> 2); in_j = (int)(v_nd32() >> 2); in_type = (int)v_nd32(); uint32_t steps = 0, out = 0; PathElement* r = &e; in_op = v_nd8();
	int rs = o.range.start, re = o.range.end; bool fol = in_follow; Mask pm = o.printOpMask; int lo = 0, hi = -1;	// range asked for
	#define UNB 0x7FFFFFFF
	switch (in_op)
	{
		case 0: r = in_what ? &e.selectTag( n) : &e[n]; step( 0, o.stateidx, Atm::OpenTag, n, in_follow); steps = 1; fol = false; v_cover( "tag"); break;
		case 1: r = &e.selectCloseTag(); step( 0, o.stateidx, Atm::CloseTag, 0, in_follow); steps = 1; fol = false; v_cover( "close tag"); break;
		case 2: r = in_what ? &e.selectAttribute( n) : &e(n); step( 0, o.stateidx, Atm::Attribute, n, in_follow); steps = 1; fol = false; pm.pos = posmask( Atm::ThisAttributeValue); pm.neg = negmask( Atm::ThisAttributeValue); v_cover( "attribute"); break;
		case 3: r = in_what ? &e.ifAttribute( n, v) : &e(n,v); step( 0, o.stateidx, Atm::Attribute, n, in_follow); step( 1, g_call[0].rt, Atm::ThisAttributeValue, v, false); steps = 2; fol = false; v_cover( "condition"); break;
		case 4: r = in_what ? &e.selectContent() : &e(); pm.pos = posmask( Atm::Content); pm.neg = negmask( Atm::Content); v_cover( "content"); break;
		case 5: r = in_what ? &e.forAllDescendants() : &(e--); fol = true; v_cover( "descendants"); break;
		case 6: r = &e.TO( in_i); lo = 0; hi = in_i+1; v_cover( "to"); break;
		case 7: r = &e.FROM( in_i); lo = in_i; hi = UNB; v_cover( "from"); break;
		case 8: r = &e.RANGE( in_i, in_what ? in_j : -1); lo = in_i; hi = in_what ? in_j+1 : UNB; v_cover( "range"); break;
		case 9: r = &e.INDEX( in_i); lo = in_i; hi = in_i+1; v_cover( "index"); break;
		default:
			r = in_what ? &e.assignType( in_type) : &(e = in_type); out = 1;
			v_assert( g_ofrom == o.stateidx && g_otype == in_type && g_omask.pos == o.printOpMask.pos && g_omask.neg == o.printOpMask.neg && g_ofollow == in_follow && g_ostart == o.range.start && g_oend == o.range.end, "C19 the event is reported for the elements of the path"); v_cover( "event"); break;
	}
	if (hi != -1) {rs = rs > lo ? rs : lo; re = re == -1 || hi < re ? hi : re;}	// both ranges hold
	v_assert( e.range.start == rs && (e.range.end == re), "C19 the index range of a path");
	v_assert( r == &e && e.xs == atm() && g_ncall == steps && g_nout == out, "C19 an operation defines the step it denotes");
	v_assert( e.stateidx == (out ? g_ort : steps ? g_call[ steps-1].rt : o.stateidx), "C19 a path continues after its last step");
	v_assert( e.follow == fol && e.printOpMask.pos == pm.pos && e.printOpMask.neg == pm.neg, "C19 the elements reported by a path");
	v_assert( g_parsed == 0, "C19 a name that cannot be one is refused");
}
#endif

#ifdef U_TOKEN
// the text in code points; the token read so far: n characters, the one with index in_ofs is w
struct GB { uint32_t n, w; typedef char value_type; GB() :n(0),w(0) {} void clear() {n = 0; w = 0;} void put( uint32_t c) {if (n == in_ofs) w = c; ++n;} };
typedef XMLScanner<GIt,GCS,GCS,GB> Scan;
static GB* g_b; static GB g_x/*expected*/; static uint32_t g_ref; static uint64_t g_val; static bool g_bad;	// 0 no reference, 1 after &, 2 after #, 3 decimal, 4 after x / hexadecimal
static void setchar( uint32_t c) {g_c = c; g_cls = (uint8_t)spec::cls( c);}
static void nextchar() {uint32_t c = v_nd32(); v_assume( c <= 0x10FFFF); setchar( c);}
static uint32_t hexv( uint32_t c) {return c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : 99;}
static Scan::IsTokenCharMap* g_map;
static bool istok() {return (*g_map)[ g_cls];}
static uint64_t shifted() {return g_ref == 4 ? g_val << 4 : g_val * 10;}
static void on_skip()
{
	v_assert( g_c != 0, "C19 nothing after the end of the name is read");
	if (g_ref == 0) {if (istok()) g_x.put( g_c); else if (g_c == '&') {g_ref = 1; g_val = 0;} else v_assert( false, "C19 a name ends at a character that is not part of it");}
	else if (g_ref == 1) {v_assert( g_c == '#', "C19 only numeric references are known"); g_ref = 2;}
	else if (g_ref == 2 && g_c == 'x') g_ref = 4;
	else if (g_c == ';') {v_assert( g_val != 0 && g_val < 0xFFFFFFFFU, "C19 the character of a reference exists"); g_x.put( (uint32_t)g_val); g_ref = 0;}
	else {if (g_ref == 2) g_ref = 3; v_assert( hexv( g_c) < (g_ref == 4 ? 16U : 10U), "C19 digits of a reference"); g_val = shifted() + hexv( g_c);}
	nextchar();
}
#ifdef U_ENTITY
static const bool g_inref = true;
#else
static const bool g_inref = false;
#define U_ENTITY 0
template <> UChar Scan::parseStaticNumericEntityValue( InputReader&)
{
	v_assert( g_c == '&' && g_ref == 0, "C19 a reference starts with &"); on_skip(); v_assume( g_c == '#'); on_skip();
	UChar r = v_nd32(); if (v_ndb()) {g_ref = 5; return 0;}
	v_assume( r != 0 && r < 0xFFFFFFFFU); g_ref = 3; g_val = r; setchar( ';'); return r;
}
#endif
extern "C" uint64_t h_snap( int k) {return k == 0 ? g_val : k == 1 ? (g_ref == 4 ? 16 : 10) : (uint64_t)(g_c <= 127 ? g_c : 0);}
static bool invariant() {return g_b->n == g_x.n && g_b->w == g_x.w && (g_inref ? g_ref >= 2 && g_ref <= 4 && !(g_ref == 2 && (g_c == 'x' || g_val != 0)) && (g_ref == 4) == (U_ENTITY == 16) : g_ref == 0) && g_val < 0xFFFFFFFFU && g_x.n < BIG;}
extern "C" void h_inv_check( uint32_t) {v_assert( g_b->n == g_x.n && (g_b->n <= in_ofs || g_b->w == g_x.w), "C19 the key of a step is the name given"); v_assert( (g_inref ? g_ref >= 2 && g_ref <= 4 && !(g_ref == 2 && (g_c == 'x' || g_val != 0)) : g_ref == 0) && g_val < 0xFFFFFFFFU, "C19 references in a name");}
extern "C" void h_havoc( uint32_t) {g_x.n = v_nd32(); g_x.w = v_nd32(); g_b->n = g_x.n; g_b->w = g_x.w; g_ref = v_nd8(); g_val = v_nd64(); nextchar();}
extern "C" void h_inv_assume( uint32_t) {v_assume( invariant());}
#if U_ENTITY
extern "C" void h_entity()
{
	GB b; g_b = &b; GIt i; i.x = 0; XB::IsTagCharMap tm; g_map = (Scan::IsTokenCharMap*)&tm; in_ofs = 0; setchar( '&'); Scan::InputReader r( i);
	UChar v = Scan::parseStaticNumericEntityValue( r);
	if (v != 0) {v_assert( g_c == ';' && g_ref >= 2 && v == g_val, "C19 a reference denotes its character"); v_cover( "reference");}
	else
	{
		v_assert( g_ref != 0, "C19 a reference starts with &"); bool bad = g_ref == 1 ? g_c != '#' : g_c == ';' ? g_val == 0 : !(g_ref == 2 && g_c == 'x') && (hexv( g_c) >= (g_ref == 4 ? 16U : 10U) || shifted() + hexv( g_c) >= 0xFFFFFFFFU);
		v_assert( bad, "C19 every name is accepted"); v_cover( "refused");
	}
}
#else
extern "C" void h_token()
{
	GB b; g_b = &b; GIt i; i.x = 0; in_ofs = v_nd32(); nextchar(); XB::IsTagCharMap tm; XB::IsValueCharMap vm; in_what = v_ndb(); g_map = in_what ? (Scan::IsTokenCharMap*)&tm : (Scan::IsTokenCharMap*)&vm;
	bool rt = Scan::parseStaticToken( *g_map, i, b);
	if (rt)
	{
		v_assert( g_c == 0 && g_ref == 0, "C19 a name that cannot be one is refused");
		v_assert( b.n == g_x.n && (in_ofs >= b.n || b.w == g_x.w), "C19 the key of a step is the name given"); v_cover( "name");
	}
	else
	{
		bool bad = g_ref == 5 || (g_ref == 0 && g_c != 0 && g_c != '&' && !istok());
		v_assert( bad, "C19 every name is accepted"); v_cover( "refused");
	}
}
#endif
#endif
