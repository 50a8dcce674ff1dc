// Harness C19 (selection): contracts of XMLPathSelect, function by function, for automata, token lists and nesting of any size.
//  expand(i):  every state on the link chain of i, in order, becomes a waiting token (and a follow if it searches all descendants) or, if it
//              has no element type of its own, a result reported at once; the masks of the scope cover the masks of its tokens
//  match(i):   the token i fires exactly if element type and key fit: it expands its follow state, or reports its type if its index is in the
//              range; a token is given up only if its range ends or if a rejecting element makes a further match impossible; other tokens stay
//  fetch():    visits every waiting token of the scope and every follow of the scopes around it, each exactly once, then the results of expand
//  initProcessElement/closeProcessElement: open and close tags delimit the scopes; a close tag ends exactly one scope, restoring its tokens
// The contracts are on the abstraction: tokens by number of element w (any), scopes by the innermost one of the stack.
#define private public
#define protected public
#include "v.h"
#include <cstddef>
#include <cstring>
#include <map>
#include <list>
#include <stdexcept>
#include <string>
#include <limits>
#include <iostream>
#include <sstream>
#define V_VECTOR
template <class T> struct Get;
namespace std {
template <class T> class vector
{
public:
	typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type;
	vector() :n(0) {}
	T& operator[]( size_t i) {return Get<T>::at( *this, i);}
	const T& operator[]( size_t i) const {return Get<T>::at( *(vector*)this, i);}
	size_t size() const {return n;}
	bool empty() const {return n==0;}
	void push_back( const T&);
	iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const;
	T elem; size_t n;
};
}
#include "textwolf/char.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/xmlpathselect.hpp"
#undef private
#undef protected
using namespace textwolf;
typedef charset::UTF8 CS;
typedef XMLPathSelectAutomaton<CS> Atm; typedef Atm::State State; typedef Atm::Token Token; typedef Atm::Scope Scope; typedef Atm::Mask Mask;
typedef XMLScannerBase XB;
enum Mode {Expand, Match, Fetch, Element}; static int g_mode;
uint32_t in_idx, in_n, in_type, in_keysize, in_to, in_from, in_w, in_ntok, in_nfol, in_posmask, in_negmask; int32_t in_start, in_end, in_typeidx; bool in_follow, in_eq, in_anykey, in_nokey;
static uint32_t g_n;	// number of states of the automaton
static const uint32_t BIG = 0x3FFFFFFF;

// --- the automaton: arbitrary, as the builder defines it (harness pathatm.cpp)
static bool aut( const State& s, uint32_t i)
{
	const Atm::Core& c = s.core;
	return s.link >= -1 && (s.link == -1 || ((uint32_t)s.link > i && (uint32_t)s.link < g_n)) && s.next >= -1 && (s.next == -1 || ((uint32_t)s.next > i && (uint32_t)s.next < g_n))
		&& c.mask.pos < 0x8000 && c.mask.neg < 0x8000 && c.cnt_start >= 0 && (c.cnt_end > 0 || (c.cnt_end == -1 && c.cnt_start == 0)) && (c.typeidx == 0 ? c.cnt_end == -1 : s.next == -1 && s.key == 0);
}
static uint32_t g_cur; static bool g_acc;	// state accessed in this path segment
static int32_t g_next;				// state of the chain to handle next
static const char* g_skey;
static State* g_stp;
static void arbitrary( State& s, uint32_t i)
{
	s.core.mask.pos = v_nd16(); s.core.mask.neg = v_nd16(); s.core.follow = v_ndb(); s.core.typeidx = (int32_t)v_nd32(); s.core.cnt_start = (int32_t)v_nd32(); s.core.cnt_end = (int32_t)v_nd32();
	s.next = (int32_t)v_nd32(); s.link = (int32_t)v_nd32(); s.keysize = 0; s.key = 0; s.srckey = 0;
	v_assume( aut( s, i));
}
template <> struct Get<State>
{
	static State& at( std::vector<State>& v, std::size_t i)
	{
		v_assert( i < g_n, "C19 state index in range"); v_assume( i < g_n);
		g_stp = &v.elem;
		if (g_acc && g_cur == i) return v.elem;
		if (g_mode == Expand)
		{
			v_assert( !g_acc, "C19 every state of the chain is handled"); v_assume( !g_acc);
			v_assert( (int32_t)i == g_next, "C19 the states of the chain are handled in order"); v_assume( (int32_t)i == g_next);
			arbitrary( v.elem, (uint32_t)i);
		}
		else v_assert( i == g_cur, "C19 looks at the state of the token");
		g_cur = (uint32_t)i; g_acc = true;
		return v.elem;
	}
};
static bool covers( const Mask& a, const Mask& b) {return (b.pos & ~a.pos) == 0;}

// --- the stacks
static Token g_slot[3]; static int g_live;	// token w is g_slot[g_live], every other one g_slot[2]
static uint32_t g_ntok, g_ntrig, g_nfol; static uint32_t g_tokat, g_folval; static int32_t g_trigval;	// pushed in this path segment
template <typename E> struct Stk;
template <> struct Stk<Token>
{
	std::size_t n;
	Stk() :n(0) {}
	std::size_t size() const {return n;}
	bool empty() const {return n==0;}
	Token& operator[]( std::size_t i) {v_assert( i < n, "C19 token index in range"); return g_slot[ i == in_w ? g_live : 2];}
	const Token& operator[]( std::size_t i) const {v_assert( i < n, "C19 token index in range"); return g_slot[ i == in_w ? g_live : 2];}
	void push_back( const Token& t)
	{
		v_assert( g_mode == Expand, "MODEL push of a token");
		v_assert( g_acc && t.stateidx == (int32_t)g_cur && t.core.mask.pos == g_stp->core.mask.pos && t.core.mask.neg == g_stp->core.mask.neg && t.core.follow == g_stp->core.follow
			&& t.core.typeidx == g_stp->core.typeidx && t.core.cnt_start == g_stp->core.cnt_start && t.core.cnt_end == g_stp->core.cnt_end, "C19 the waiting token represents its state");
		g_tokat = (uint32_t)n; ++g_ntok; ++n;
	}
	void resize( std::size_t k) {v_assert( k <= n, "C19 closing a scope only removes tokens"); n = k;}
};
static uint32_t g_fk, g_fv; static bool g_fseen;	// follows looked at last (index, value)
template <> struct Stk<unsigned int>
{
	std::size_t n; unsigned int elem;
	Stk() :n(0) {}
	std::size_t size() const {return n;}
	bool empty() const {return n==0;}
	const unsigned int& operator[]( std::size_t i) const
	{
		v_assert( i < n, "C19 follow index in range"); v_assert( g_mode == Fetch, "MODEL access of follows"); v_assume( i < n);
		Stk* me = (Stk*)this;
		if (g_fseen && g_fk == i) {me->elem = g_fv; return elem;}
		uint32_t v = v_nd32(); v_assume( v < BIG);
		if (g_fseen) v_assume( g_fk < i ? g_fv < v : v < g_fv);	// ascending
		me->elem = v; g_fseen = true; g_fk = (uint32_t)i; g_fv = v; return elem;
	}
	void push_back( unsigned int v) {v_assert( g_mode == Expand, "MODEL push of a follow"); g_folval = v; ++g_nfol; ++n;}
	void resize( std::size_t k) {v_assert( k <= n, "C19 closing a scope only removes follows"); n = k;}
};
static bool g_popped;
template <> struct Stk<int>
{
	std::size_t n; int elem;
	Stk() :n(0) {}
	std::size_t size() const {return n;}
	bool empty() const {return n==0;}
	int& back() {v_assert( n > 0, "C19 stack of results not empty"); return elem;}
	void pop_back() {v_assert( n > 0, "C19 stack of results not empty"); g_trigval = elem; elem = (int32_t)v_nd32(); v_assume( elem != 0); --n; ++g_ntrig;}
	void push_back( int v) {v_assert( g_mode == Expand, "MODEL push of a result"); g_trigval = v; ++g_ntrig; ++n;}
};
static Scope g_pushed; static uint32_t g_npush, g_npop;
template <> struct Stk<Scope>
{
	std::size_t n; Scope elem;
	Stk() :n(0) {}
	std::size_t size() const {return n;}
	bool empty() const {return n==0;}
	Scope& back() {v_assert( n > 0, "C19 stack of scopes not empty"); return elem;}
	void pop_back() {v_assert( n > 0, "C19 stack of scopes not empty"); --n; ++g_npop;}
	void push_back( const Scope& s) {g_pushed = s; ++g_npush; ++n;}
};
typedef XMLPathSelect<CS,Stk> Sel;
static Sel* g_s;
static uint64_t g_selmem[ (sizeof(Sel)+7)/8], g_atmmem[ (sizeof(Atm)+7)/8];
static Sel::Context g_ctx0;	// at the call or at the start of the path segment

static void mask( Mask& m) {m.pos = v_nd16(); m.neg = v_nd16(); v_assume( m.pos < 0x8000 && m.neg < 0x8000);}
static void token( Token& t)
{
	mask( t.core.mask); t.core.follow = v_ndb(); t.core.typeidx = (int32_t)v_nd32(); t.core.cnt_start = (int32_t)v_nd32(); t.core.cnt_end = (int32_t)v_nd32(); t.stateidx = (int32_t)v_nd32();
	v_assume( t.stateidx >= 0 && (uint32_t)t.stateidx < g_n && t.core.cnt_start >= 0 && t.core.cnt_end >= -1 && (t.core.cnt_end != -1 || t.core.cnt_start == 0) && (t.core.typeidx != 0 || t.core.cnt_end == -1) && (t.core.cnt_end != 0 || t.core.mask.pos == 0));
}
static bool same( const Token& a, const Token& b) {return a.stateidx == b.stateidx && a.core.mask.pos == b.core.mask.pos && a.core.mask.neg == b.core.mask.neg && a.core.follow == b.core.follow && a.core.typeidx == b.core.typeidx && a.core.cnt_start == b.core.cnt_start && a.core.cnt_end == b.core.cnt_end;}
static void scope( Scope& s)
{
	mask( s.mask); mask( s.followMask); s.range.tokenidx_from = v_nd32(); s.range.tokenidx_to = v_nd32(); s.range.followidx = v_nd32();
	v_assume( s.range.tokenidx_from <= s.range.tokenidx_to && s.range.tokenidx_to < BIG && s.range.followidx < BIG && covers( s.mask, s.followMask));
}
// a scope covers token w: its mask the ones of its tokens, its follow mask the ones of the follows visible in it
static bool covered( const Scope& s, uint32_t from, uint32_t to)
{
	const Token& t = g_slot[ g_live];
	if (in_w >= to) return true;
	if (in_w >= from && !covers( s.mask, t.core.mask)) return false;
	return !t.core.follow || covers( s.followMask, t.core.mask);
}
static Sel& arbitrary()
{
	Sel& s = *(Sel*)g_selmem; g_s = &s; Atm& a = *(Atm*)g_atmmem; s.atm = &a; g_n = v_nd32(); v_assume( g_n < BIG); a.states.n = g_n; in_n = g_n;
	in_w = v_nd32(); g_live = 0;
	s.tokens.n = v_nd32(); s.follows.n = v_nd32(); s.triggers.n = v_nd32(); s.triggers.elem = (int32_t)v_nd32(); s.scopestk.n = v_nd32();
	v_assume( s.tokens.n < BIG && s.follows.n < BIG && s.triggers.n < BIG && s.scopestk.n < BIG && s.triggers.elem != 0);
	scope( s.context.scope); scope( s.scopestk.elem);
	s.context.type = (XB::ElementType)v_nd8(); v_assume( s.context.type <= XB::Exit); s.context.keysize = v_nd32(); s.context.key = 0; s.context.scope_iter = v_nd32();
	token( g_slot[0]); token( g_slot[2]);
	v_assume( s.context.scope.range.tokenidx_to <= s.tokens.n && s.context.scope.range.followidx <= s.follows.n);
	return s;
}
static bool sameScope( const Scope& a, const Scope& b) {return a.mask.pos == b.mask.pos && a.followMask.pos == b.followMask.pos && a.range.tokenidx_from == b.range.tokenidx_from && a.range.tokenidx_to == b.range.tokenidx_to && a.range.followidx == b.range.followidx;}

// --- expand
static uint64_t g_n0tok, g_n0fol, g_n0trig;
static void start()
{
	g_acc = false; g_ntok = g_ntrig = g_nfol = 0; g_ctx0 = g_s->context;
	g_n0tok = g_s->tokens.n; g_n0fol = g_s->follows.n; g_n0trig = g_s->triggers.n;
}
static void expandSegment( bool returned)
{
	Sel& s = *g_s;
	if (g_acc)
	{
		State& st = *g_stp;
		if (st.core.mask.pos == 0 && st.core.typeidx != 0)
			v_assert( g_ntrig == 1 && g_trigval == st.core.typeidx && g_ntok == 0 && g_nfol == 0, "C19 an event without own element type is reported when its path matches");
		else
		{
			v_assert( g_ntok == 1 && g_ntrig == 0, "C19 every follow state waits for its element"); v_assume( g_ntok == 1);
			v_assert( g_nfol == (st.core.follow ? 1U : 0U) && (!st.core.follow || g_folval == g_tokat), "C19 exactly the searches in all descendants are active in inner scopes");
			v_assert( covers( s.context.scope.mask, st.core.mask) && (!st.core.follow || covers( s.context.scope.followMask, st.core.mask)), "C19 the masks of the scope cover its tokens");
		}
		g_next = st.link;
	}
	else v_assert( g_ntok == 0 && g_nfol == 0 && g_ntrig == 0, "C19 only follow states wait for elements");
	if (returned) v_assert( g_next == -1, "C19 all follow states are handled");
	v_assert( covers( s.context.scope.mask, g_ctx0.scope.mask) && covers( s.context.scope.followMask, g_ctx0.scope.followMask) && covers( s.context.scope.mask, s.context.scope.followMask), "C19 the masks of the scope cover its tokens");
	v_assert( s.context.type == g_ctx0.type && s.context.scope_iter == g_ctx0.scope_iter && s.context.scope.range.tokenidx_from == g_ctx0.scope.range.tokenidx_from && s.context.scope.range.tokenidx_to == g_ctx0.scope.range.tokenidx_to
		&& s.context.scope.range.followidx == g_ctx0.scope.range.followidx && g_npush == 0 && g_npop == 0, "C19 expansion does not move in the document");
}
static bool g_segs;
#ifdef U_EXPAND
extern "C" void h_expand()
{
	Sel& s = arbitrary(); g_mode = Expand; in_idx = v_nd32(); g_next = (int32_t)in_idx; v_assume( g_next >= -1 && (g_next == -1 || in_idx < g_n));
	start(); g_segs = true;
	s.expand( g_next);
	expandSegment( true); v_cover( "expanded");
}
#endif
// --- the loops
static uint32_t g_d; static uint32_t g_visit; static int32_t g_res/*result found but not delivered yet*/; static void fetchSegment( bool, int); static bool fetchStart();
extern "C" uint64_t h_snap( int) {return g_mode == Match ? g_d : g_mode == Expand ? (uint64_t)(uint32_t)g_next : (uint64_t)(uint32_t)g_res;}
static bool g_entry;	// the loop is entered, not repeated
extern "C" void h_inv_check( uint32_t k)
{
	g_entry = (k & 1) == 0;
	if (g_mode == Expand) expandSegment( false);
	if (g_mode == Fetch) fetchSegment( false, 0);
}
extern "C" void h_havoc( uint32_t)
{
	Sel& s = *g_s;
	if (g_mode == Expand)
	{
		s.tokens.n = v_nd32(); s.follows.n = v_nd32(); s.triggers.n = v_nd32(); v_assume( s.tokens.n < BIG && s.follows.n < BIG && s.triggers.n < BIG);
		mask( s.context.scope.mask); mask( s.context.scope.followMask); v_assume( covers( s.context.scope.mask, s.context.scope.followMask));
		g_next = (int32_t)v_nd32(); v_assume( g_next >= -1 && (g_next == -1 || (uint32_t)g_next < g_n));
	}
	if (g_mode == Fetch) {s.context.scope_iter = v_nd32(); s.triggers.n = v_nd32(); s.triggers.elem = (int32_t)v_nd32(); g_visit = v_nd32(); g_fseen = false; g_res = (int32_t)v_nd32();}
}
extern "C" void h_inv_assume( uint32_t)
{
	if (g_mode == Expand) start();
	if (g_mode == Fetch) v_assume( fetchStart());
}
// --- match
#ifdef U_MATCH
static uint32_t g_nexp; static int32_t g_expidx; static Token g_t0;
template <> void Sel::expand( int i)	// contract: appends tokens; references to tokens become invalid
{
	++g_nexp; g_expidx = i;
	uint32_t k = v_nd32(); v_assume( k < 1000); tokens.n += k;
	g_slot[1] = g_slot[0]; g_live = 1; token( g_slot[0]);
	mask( context.scope.mask); mask( context.scope.followMask);
}
extern "C" void h_match()
{
	Sel& s = arbitrary(); g_mode = Match; in_idx = v_nd32(); v_assume( in_idx < s.tokens.n); in_w = in_idx;
	Token& t = g_slot[0]; g_cur = (uint32_t)t.stateidx; State& st = ((Atm*)g_atmmem)->states.elem; g_stp = &st; arbitrary( st, g_cur);
	v_assume( st.core.typeidx == t.core.typeidx && st.core.follow == t.core.follow);
	// keys: equal in size and content, or different at byte g_d (or in size)
	in_nokey = v_ndb(); in_anykey = v_ndb(); in_eq = v_ndb(); in_keysize = s.context.keysize; char* k = v_alloc( in_keysize); s.context.key = in_nokey ? 0 : k;
	if (t.core.typeidx != 0 || in_anykey) {st.key = 0; in_anykey = true; g_d = 0;}
	else if (in_eq) {st.key = k; st.keysize = in_keysize; g_d = in_keysize;}
	else
	{
		st.keysize = v_nd32(); st.key = v_alloc( st.keysize); g_d = v_nd32();
		if (st.keysize == in_keysize) {v_assume( g_d < in_keysize); v_assume( st.key[ g_d] != k[ g_d]);}
	}
	g_t0 = t; Token o0 = g_slot[2]; g_ctx0 = s.context; g_nexp = 0; in_type = s.context.type; in_posmask = t.core.mask.pos; in_negmask = t.core.mask.neg; in_start = t.core.cnt_start; in_end = t.core.cnt_end; in_typeidx = t.core.typeidx; in_follow = t.core.follow; in_to = s.context.scope.range.tokenidx_to;
	int rt = s.match( in_idx);
	// specification
	Token x = g_t0; int r = 0; bool fire = false;
	if (!in_nokey && in_idx < in_to)
	{
		if (x.core.mask.pos & (1 << in_type))
		{
			if (x.core.typeidx == 0) fire = in_anykey || in_eq;
			else if (x.core.cnt_end == -1) r = x.core.typeidx;
			else
			{
				if (x.core.cnt_start > 0) --x.core.cnt_start; else r = x.core.typeidx;
				if (--x.core.cnt_end == 0) {x.core.mask.pos = 0; x.core.mask.neg = 0;}
			}
		}
		if (!x.core.follow && (x.core.mask.neg & (1 << in_type))) {x.core.mask.pos = 0; x.core.mask.neg = 0;}
	}
	const Token& y = g_slot[ g_live];
	if (x.core.typeidx == 0) v_assert( g_nexp == (fire ? 1U : 0U) || (fire && st.next == -1), "C19 a step of a path matches exactly if element type and name fit");
	if (g_nexp) v_assert( g_expidx == st.next, "C19 a matching step activates its follow states");
	v_assert( rt == r, "C19 an event is reported exactly for the matching elements with an index in the range");
	v_assert( y.core.mask.pos == x.core.mask.pos, "C19 a step stays active until its range ends or it cannot match anymore");
	v_assert( x.core.mask.pos == 0 || same( x, y), "C19 the index of the next match");
	v_assert( same( o0, g_slot[2]), "C19 matching one token leaves the others");
	v_assert( s.context.type == g_ctx0.type && s.context.scope_iter == g_ctx0.scope_iter && s.context.scope.range.tokenidx_from == g_ctx0.scope.range.tokenidx_from && s.context.scope.range.tokenidx_to == g_ctx0.scope.range.tokenidx_to
		&& s.context.scope.range.followidx == g_ctx0.scope.range.followidx && g_npush == 0 && g_npop == 0 && g_ntrig == 0, "C19 matching a token does not move in the document");
	if (fire) v_cover( "fired"); if (r) v_cover( "reported"); if (in_nokey) v_cover( "done");
}
#endif
#ifdef U_FETCH
static uint32_t g_visit0; static bool g_called; static int g_mrt; static uint32_t g_tn0; static int g_elem0; static uint32_t g_f0v, g_f0k; static bool g_f0;
static bool g_closed; static Scope g_sc0;
template <> void Sel::closeProcessElement() {g_closed = true;}
// candidate number k of the scope: its tokens, then the follows below them
template <> int Sel::match( unsigned int idx)
{
	const Scope& c = g_sc0;
	uint32_t nt = c.range.tokenidx_to - c.range.tokenidx_from;
	v_assert( !g_called, "MODEL one candidate at a time"); v_assume( !g_called);
	if (g_visit < nt) v_assert( idx == c.range.tokenidx_from + g_visit, "C19 every token of the scope is tried");
	else
	{
		v_assert( g_fseen && g_fk == g_visit - nt && g_fv == idx, "C19 every search active in outer scopes is tried");
		v_assert( g_fk < c.range.followidx && idx < c.range.tokenidx_from, "C19 no token is tried twice");
	}
	g_called = true; ++g_visit;
	g_mrt = (int32_t)v_nd32();
	uint32_t k = v_nd32(); v_assume( k < 1000); triggers.n += k; if (k) {triggers.elem = (int32_t)v_nd32(); v_assume( triggers.elem != 0);} tokens.n += v_nd8(); follows.n += v_nd8();
	g_tn0 = (uint32_t)triggers.n; g_elem0 = triggers.elem;
	return g_mrt;
}
static bool fetchStart()
{
	Sel& s = *g_s; g_called = false; g_ntrig = 0; g_tn0 = (uint32_t)s.triggers.n; g_elem0 = s.triggers.elem; g_visit0 = g_visit;
	return s.triggers.n < BIG && s.triggers.elem != 0 && g_visit < 2*BIG && s.context.scope_iter == s.context.scope.range.tokenidx_from + g_visit
		&& g_visit <= (s.context.scope.range.tokenidx_to - s.context.scope.range.tokenidx_from) + s.context.scope.range.followidx;
}
static void fetchSegment( bool returned, int rt)
{
	Sel& s = *g_s; uint32_t nt = g_sc0.range.tokenidx_to - g_sc0.range.tokenidx_from;
	v_assert( s.context.scope_iter == s.context.scope.range.tokenidx_from + g_visit, "C19 every candidate is tried once");
	v_assert( s.context.scope.range.tokenidx_from == g_sc0.range.tokenidx_from && s.context.scope.range.tokenidx_to == g_sc0.range.tokenidx_to && s.context.scope.range.followidx == g_sc0.range.followidx && s.context.type == g_ctx0.type, "C19 trying the candidates does not move in the document");
	bool r = g_called && g_mrt != 0;
	if (g_res != 0) v_assert( returned && !g_called && g_ntrig == 0, "C19 every result is delivered once");
	else
	{
		v_assert( g_called || g_ntrig || returned || g_entry, "C19 fetching ends");
		if (r || g_ntrig) g_res = r ? g_mrt : g_elem0;
		v_assert( g_ntrig == (g_res != 0 && !r ? 1U : 0U), "C19 every result is delivered once");
	}
	if (!returned) return;
	v_assert( rt == g_res, "C19 only results are delivered");
	if (rt != 0) { v_assert( !g_closed, "C19 the scope is open until all results are delivered"); v_cover( "result");}
	else
	{
		v_assert( s.context.key == 0 && g_closed, "C19 the element is done");
		if ((g_sc0.mask.pos & (1 << s.context.type)) != 0)
		{
			v_assert( g_visit >= nt, "C19 every token of the scope is tried");
			bool last = g_visit - nt == s.context.scope.range.followidx || (g_fseen && g_fk == g_visit - nt && g_fv >= g_sc0.range.tokenidx_from);
			v_assert( last, "C19 every search active in outer scopes is tried");
			v_assert( s.triggers.n == 0, "C19 all results are delivered"); v_cover( "end");
		}
		else v_cover( "nothing to match");
	}
}
extern "C" void h_fetch()
{
	Sel& s = arbitrary(); g_mode = Fetch; char x; s.context.key = v_ndb() ? &x : 0; g_visit = v_nd32(); g_sc0 = s.context.scope;
	g_fseen = false; g_res = 0; v_assume( fetchStart()); g_ctx0 = s.context; g_closed = false;
	int rt = s.fetch();
	fetchSegment( true, rt);
}
#else
static void fetchSegment( bool, int) {}
static bool fetchStart() {return true;}
#endif
#ifdef U_ELEM
// pending: the scope of a close tag not closed yet
extern "C" void h_init()
{
	Sel& s = arbitrary(); g_mode = Element;
	bool wopen = s.context.type == XB::OpenTag, wclose = s.context.type == XB::CloseTag || s.context.type == XB::CloseTagIm;
	v_assume( s.scopestk.n > 0 || !wopen); bool pop = wclose && s.scopestk.n > 0;
	Scope& c = s.context.scope; Scope& b = s.scopestk.elem;
	// invariant: the scopes are nested, the masks cover the tokens
	v_assume( in_w < s.tokens.n && covered( c, c.range.tokenidx_from, (uint32_t)s.tokens.n));
	if (s.scopestk.n > 0) v_assume( b.range.tokenidx_to <= (wopen ? c.range.tokenidx_to : c.range.tokenidx_from) && b.range.followidx <= c.range.followidx && (in_w >= b.range.tokenidx_to || covered( b, b.range.tokenidx_from, b.range.tokenidx_to)));
	if (wopen) v_assume( b.range.tokenidx_to == c.range.tokenidx_to && b.range.tokenidx_from == c.range.tokenidx_from && b.range.followidx == c.range.followidx);
	// a token of an outer scope which is not a follow is not waiting here; a scope that has just been opened waits only for what the open tag activated
	Scope c0 = c, b0 = b; uint64_t nt = s.tokens.n, nf = s.follows.n, ns = s.scopestk.n; Token t0 = g_slot[0];
	in_type = v_nd8(); v_assume( in_type <= XB::Exit); char x; int ks = (int)(v_nd32() >> 1);
	s.initProcessElement( (XB::ElementType)in_type, &x, ks);
	const Scope base = pop ? b0 : c0;
	uint64_t etok = pop ? b0.range.tokenidx_to : nt, efol = pop ? b0.range.followidx : nf;
	uint32_t efrom = wopen ? c0.range.tokenidx_to : base.range.tokenidx_from;
	v_assert( s.context.type == (XB::ElementType)in_type && s.context.key == &x && s.context.keysize == (unsigned int)ks, "C19 the element to match is the one pushed");
	v_assert( s.tokens.n == etok && s.follows.n == efol, "C19 the close tag ends the scope of its open tag");
	v_assert( c.range.tokenidx_from == efrom && c.range.tokenidx_to == etok && c.range.followidx == efol && s.context.scope_iter == efrom, "C19 the tokens of the scope are the candidates");
	v_assert( g_npop == (pop ? 1U : 0U), "C19 the close tag ends exactly one scope");
	bool open = in_type == XB::OpenTag;
	v_assert( g_npush == (open ? 1U : 0U) && s.scopestk.n == ns - (pop?1:0) + (open?1:0), "C19 the open tag opens exactly one scope");
	if (open)
	{
		v_assert( g_pushed.range.tokenidx_from == efrom && g_pushed.range.tokenidx_to == etok && g_pushed.range.followidx == efol && covers( g_pushed.mask, base.mask) && covers( g_pushed.followMask, base.followMask), "C19 the scope around is restored at the close tag");
		v_assert( (c.mask.pos & (1 << XB::OpenTag)) != 0, "C19 the open tag is matched in the scope around");
		if (in_w < etok) v_assert( covered( g_pushed, efrom, (uint32_t)etok), "C19 the masks of the scope cover its tokens");
		v_assert( covered( c, (uint32_t)etok, (uint32_t)etok) && (in_w >= etok || !t0.core.follow || covers( c.followMask, t0.core.mask)), "C19 the masks of the scope cover its tokens");
		v_cover( "open");
	}
	else
	{
		if (in_w < etok) v_assert( covered( c, efrom, (uint32_t)etok), "C19 the masks of the scope cover its tokens");
	}
	v_assert( covers( c.mask, c.followMask), "C19 the masks of the scope cover its tokens");
	v_assert( same( t0, g_slot[0]), "C19 the waiting tokens are not changed"); v_assert( g_ntrig == 0 && g_ntok == 0 && g_nfol == 0, "C19 no result is lost");
	if (pop) v_cover( "closed before"); if (wopen) v_cover( "opened before");
}
extern "C" void h_close()
{
	Sel& s = arbitrary(); g_mode = Element; Scope& c = s.context.scope; Scope& b = s.scopestk.elem; Scope c0 = c, b0 = b; char x; s.context.key = &x;
	if (s.scopestk.n > 0) v_assume( b.range.tokenidx_to <= s.tokens.n && b.range.followidx <= s.follows.n);
	in_type = s.context.type; uint64_t nt = s.tokens.n, nf = s.follows.n, ns = s.scopestk.n; bool cl = in_type == XB::CloseTag || in_type == XB::CloseTagIm;
	unsigned int times = 1 + (v_nd8() & 1); s.closeProcessElement(); if (times > 1) s.closeProcessElement();
	bool pop = cl && ns > 0;
	v_assert( s.scopestk.n == ns - (pop?1:0), "C19 the close tag ends exactly one scope");
	v_assert( s.tokens.n == (pop ? b0.range.tokenidx_to : nt) && s.follows.n == (pop ? b0.range.followidx : nf), "C19 the close tag ends the scope of its open tag");
	v_assert( sameScope( c, pop ? b0 : c0), "C19 the scope around is restored at the close tag");
	v_assert( g_npush == 0 && g_ntrig == 0, "C19 no result is lost");
	if (pop) v_cover( "closed"); else v_cover( "nothing to close");
}
#endif
#ifdef U_ITER
static uint32_t g_ninit, g_nfetch, g_nclose; static int g_rt[4]; static int g_itype; static const char* g_ikey; static int g_iks;
template <> int Sel::fetch() {v_assert( g_nfetch < 4, "MODEL number of results"); return g_rt[ g_nfetch++];}
template <> void Sel::initProcessElement( XB::ElementType t, const char* k, int n) {v_assert( g_nfetch == 0, "C19 the results belong to the element pushed"); g_itype = t; g_ikey = k; g_iks = n; ++g_ninit;}
template <> void Sel::closeProcessElement() {++g_nclose;}
extern "C" void h_iter()
{
	Sel& s = arbitrary(); g_mode = Element; for (int i=0; i<4; ++i) g_rt[i] = (int32_t)v_nd32(); char x; in_type = v_nd8(); v_assume( in_type <= XB::Exit); int ks = (int)(v_nd32() >> 1);
	Sel::iterator e = s.end(); v_assert( g_ninit == 0 && g_nfetch == 0, "C19 the end iterator does not move");
	{
		Sel::iterator i = s.push( (XB::ElementType)in_type, &x, ks);
		v_assert( g_ninit == 1 && g_itype == (int)in_type && g_ikey == &x && g_iks == ks && g_nfetch == 1, "C19 the element pushed is matched"); v_assert( *i == g_rt[0] && *i.operator->() == g_rt[0], "C19 iterator delivers the results");
		v_assert( (i == e) == (g_rt[0] == 0) && (i != e) == (g_rt[0] != 0), "C19 iteration ends after the last result");
		Sel::iterator j( i), k; k = j; v_assert( *j == g_rt[0] && *k == g_rt[0] && g_nfetch == 1, "C19 copies of an iterator");
		++i; v_assert( *i == g_rt[1] && g_nfetch == 2, "C19 iterator delivers the results");
		Sel::iterator l = i++; v_assert( *i == g_rt[2] && *l == g_rt[1] && g_nfetch == 3, "C19 iterator delivers the results");
		v_cover( "iterated");
	}
	v_assert( g_ninit == 1 && g_nfetch == 3 && g_nclose == 0, "C19 copies and their end do not change the selection");
}
#endif
#ifdef U_CTOR
static uint32_t g_nexp;
template <> void Sel::expand( int i) {v_assert( i == 0, "C19 matching starts at the root"); ++g_nexp; tokens.n = v_nd8(); triggers.n = v_nd8();}
extern "C" void h_ctor()
{
	g_n = v_nd32(); Atm& a = *(Atm*)g_atmmem; a.states.n = g_n; g_mode = Element;
	Sel s( &a);
	v_assert( g_nexp == (g_n ? 1U : 0U) && s.atm == &a && s.scopestk.n == 0 && s.follows.n == 0, "C19 matching starts at the root"); v_cover( "new");
	v_assert( s.context.scope.range.tokenidx_from == 0 && s.context.scope.range.tokenidx_to == 0 && s.context.type != XB::OpenTag && s.context.type != XB::CloseTag && s.context.type != XB::CloseTagIm, "C19 matching starts outside of any tag");
	Sel& o = arbitrary(); unsigned int k = g_nexp; char x; o.context.key = &x;
	Sel c( o);
	v_assert( g_nexp == k && c.atm == o.atm && c.tokens.n == o.tokens.n && c.follows.n == o.follows.n && c.triggers.n == o.triggers.n && c.scopestk.n == o.scopestk.n && sameScope( c.context.scope, o.context.scope)
		&& c.context.type == o.context.type && c.context.key == o.context.key && c.context.keysize == o.context.keysize && c.context.scope_iter == o.context.scope_iter, "C19 a copy continues where the original stands"); v_cover( "copy");
}
#endif
