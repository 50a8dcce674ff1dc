// Native oracle C19: random sets of path expressions against the element sequences of random documents. The real XMLPathSelect is compared per element
// with a reference evaluator that handles every path on its own: a partial match is an object waiting in a scope of the document for its next step.
// The elements come from a generator (well-formed sequences) or from the real scanner reading the serialised document. In between the selector is
// copied, and the results are fetched by pre- or postincrement or with copies of the iterator.
#include "oracle.h"
#include "textwolf/charset.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/xmlpathselect.hpp"
#include <algorithm>
using namespace orc; using namespace textwolf;
typedef XMLPathSelectAutomaton<charset::UTF8> Atm; typedef XMLPathSelect<charset::UTF8> Sel; typedef XMLScannerBase XB;
enum Op {Open, Close, Attr, ThisVal};
struct Step { Op op; bool follow; bool any; std::string key, src; };
enum Out {OutNone, OutVal, OutCont};
struct Path { std::vector<Step> steps; Out out; bool follow; int from, to/*exclusive, -1 none*/; int type; std::string text; };
struct Elem { XB::ElementType type; std::string val; };

// --- reference: waiting objects
struct Wait { const Path* p; std::size_t step; int scope; int at; int cnt; bool dead; };
struct Ref
{
	const std::vector<Path>& paths; std::vector<Wait> w; std::vector<int> parent/*of scope, -1 root*/; std::vector<bool> closed; int cur, idx; std::vector<int> ev;
	std::vector<int> atstart;
	Ref( const std::vector<Path>& ps) :paths(ps),cur(0),idx(0) { parent.push_back(-1); closed.push_back(false); for (std::size_t i=0; i<ps.size(); ++i) arrive( &ps[i], 0, 0, -1, atstart); }
	void arrive( const Path* p, std::size_t step, int scope, int at, std::vector<int>& out)
	{
		if (step == p->steps.size() && p->out == OutNone) {out.push_back( p->type); return;}	// an event without own type is reported at once
		Wait x = {p,step,scope,at,0,false}; w.push_back( x);
	}
	bool inside( int s, int anc) const { while (s >= 0 && s != anc) s = parent[s]; return s == anc; }
	static bool fits( const Wait& x, const Elem& e, int i)
	{
		bool val = e.type == XB::TagAttribValue || e.type == XB::HeaderAttribValue;
		if (x.step == x.p->steps.size()) return x.p->out == OutVal ? val && i == x.at+1 : e.type == XB::Content;
		const Step& s = x.p->steps[ x.step];
		if (!s.any && s.key != e.val) return false;
		switch (s.op)
		{
			case Open: return e.type == XB::OpenTag || e.type == XB::HeaderStart;
			case Close: return e.type == XB::CloseTag || e.type == XB::CloseTagIm || e.type == XB::HeaderEnd;
			case Attr: return e.type == XB::TagAttribName || e.type == XB::HeaderAttribName;
			default: return val && i == x.at+1;
		}
	}
	std::vector<int> elem( const Elem& e)
	{
		std::vector<int> out = atstart; atstart.clear(); int es = cur, ns = cur;
		if (e.type == XB::OpenTag) {ns = (int)parent.size(); parent.push_back( cur); closed.push_back( false);}
		std::size_t n = w.size();
		for (std::size_t k=0; k<n; ++k)
		{
			Wait x = w[k]; bool fol = x.step == x.p->steps.size() ? x.p->follow : x.p->steps[ x.step].follow;
			if (closed[ x.scope] || !(fol ? inside( es, x.scope) : es == x.scope) || !fits( x, e, idx)) continue;
			if (x.step == x.p->steps.size())
			{
				int c = w[k].cnt++;
				if (x.p->to == -1 || (c >= x.p->from && c < x.p->to)) out.push_back( x.p->type);
			}
			else arrive( x.p, x.step+1, ns, idx, out);
		}
		if ((e.type == XB::CloseTag || e.type == XB::CloseTagIm) && cur != 0) {closed[cur] = true; ns = parent[cur];}
		cur = ns; ++idx; std::sort( out.begin(), out.end()); return out;
	}
};
// --- generators
static const char* g_names[] = {"a","b","c","ab","\xC3\xA4","x-1","xml"};
static const char* g_namesrc[] = {"a","b","c","ab","&#228;","x-1","xml"};
static const char* g_vals[] = {"1","2","","a b","x=\"y\"","\xC3\xA4/'","1 "};
static const char* g_valsrc[] = {"1","2","","a b","x=\"y\"","&#xe4;/'","1&#32;"};
static unsigned int g_nn, g_nv; static std::string g_longname, g_longname2;
static std::string name() {if (g_longname.size() && rndn(8) == 0) return rndn(2) ? g_longname : g_longname2; return g_names[ rndn( g_nn)];}
static std::string val() {return g_vals[ rndn( g_nv)];}
static void tag( std::vector<Elem>& d, int depth)
{
	Elem o = {XB::OpenTag, name()}; d.push_back( o);
	unsigned int na = rndn(10) < 6 ? 0 : 1+rndn(3);
	for (unsigned int i=0; i<na; ++i) { Elem n = {XB::TagAttribName, name()}, v = {XB::TagAttribValue, val()}; d.push_back( n); d.push_back( v); }
	if (rndn(4) == 0) { Elem c = {XB::CloseTagIm, ""}; d.push_back( c); return; }
	unsigned int k = depth > 4 ? rndn(2) : rndn(5);
	for (unsigned int i=0; i<k && d.size() < 60; ++i)
	{
		if (rndn(3) == 0) { Elem c = {XB::Content, val() + "."}; d.push_back( c); if (rndn(3)==0) {Elem c2 = {XB::Content, "t"}; d.push_back( c2);} }
		else tag( d, depth+1);
	}
	Elem c = {XB::CloseTag, o.val}; d.push_back( c);
}
static std::vector<Elem> doc()
{
	std::vector<Elem> d;
	if (rndn(2))
	{
		Elem h = {XB::HeaderStart, "xml"}; d.push_back( h);
		unsigned int na = rndn(3); for (unsigned int i=0; i<na; ++i) { Elem n = {XB::HeaderAttribName, name()}, v = {XB::HeaderAttribValue, val()}; d.push_back( n); d.push_back( v); }
		Elem e = {XB::HeaderEnd, ""}; d.push_back( e);
	}
	if (rndn(4) == 0) { Elem a = {XB::DocAttribValue, "a"}, e = {XB::DocAttribEnd, ""}; d.push_back( a); d.push_back( e); }
	tag( d, 0); if (rndn(8) == 0) tag( d, 2);
	if (rndn(2)) { Elem e = {XB::Exit, ""}; d.push_back( e); }
	return d;
}
// --- one case
static std::string g_desc;
static void build( Atm& a, Path& p, std::vector<Step>* prefix)
{
	Atm::PathElement e = *a; std::ostringstream t; unsigned int n = 1+rndn(3), i = 0; p.follow = false; p.out = OutNone; p.from = 0; p.to = -1;
	std::vector<Step> pre; if (prefix) pre = *prefix;
	while (i < n || i < pre.size())
	{
		Step s; s.follow = rndn(4) == 0; s.any = false; unsigned int k = rndn(10); int src = -1; 
		s.op = k < 6 || i == 0 ? Open : k < 9 ? Attr : Close; if (i == 0 && rndn(8) == 0) s.op = Attr;
		if (s.op == Open || s.op == Attr)
		{
			s.any = rndn(6) == 0; src = rndn( g_nn); s.key = g_names[src]; s.src = rndn(2) ? g_namesrc[src] : g_names[src];
			if (g_longname.size() && rndn(4) == 0) s.key = s.src = rndn(2) ? g_longname : g_longname2;
		}
		else s.any = true;
		if (i < pre.size()) s = pre[i];
		if (s.follow) {if (rndn(2)) e--; else e.forAllDescendants(); t << "--";}
		const char* k0 = s.any ? 0 : s.src.c_str();
		if (s.op == Open) {if (rndn(2)) e[k0]; else e.selectTag( k0); t << "[" << (k0?k0:"*") << "]"; p.steps.push_back( s);}
		else if (s.op == Close) {e.selectCloseTag(); t << "[close]"; p.steps.push_back( s); ++i; break;}
		else
		{
			bool cond = i < pre.size() ? (i+1 < pre.size() && pre[i+1].op == ThisVal) : rndn(2);
			p.steps.push_back( s);
			if (cond)
			{
				Step v; v.op = ThisVal; v.follow = false; v.any = rndn(6) == 0; int x = rndn( g_nv); v.key = g_vals[x]; v.src = rndn(2) ? g_valsrc[x] : g_vals[x];
				if (i < pre.size()) v = pre[++i];
				const char* v0 = v.any ? 0 : v.src.c_str();
				if (rndn(2)) e( k0, v0); else e.ifAttribute( k0, v0);
				t << "(" << (k0?k0:"*") << "," << (v0?quote(v0):"*") << ")"; p.steps.push_back( v);
			}
			else {if (rndn(2)) e( k0); else e.selectAttribute( k0); t << "(" << (k0?k0:"*") << ")"; p.out = OutVal; ++i; break;}
		}
		++i;
	}
	if (p.out == OutNone && p.steps.back().op != Close && rndn(2))
	{
		if (rndn(4) == 0) {p.follow = true; e--; t << "--";}
		if (rndn(2)) e(); else e.selectContent(); p.out = OutCont; t << "()";
	}
	if (p.out != OutNone && rndn(3) == 0)
	{
		int a0 = rndn(3), b = rndn(4) ? a0 + rndn(3) : rndn(3); long from = 0, to = 0x7FFFFFFF;
		for (unsigned int r = 1+rndn(2); r; --r) switch (rndn(5))
		{
			case 0: e.INDEX(a0); t << ".INDEX" << a0; from = std::max<long>(from,a0); to = std::min<long>(to,a0+1); break;
			case 1: e.RANGE(a0,b); t << ".RANGE" << a0 << "," << b; from = std::max<long>(from,a0); to = std::min<long>(to,b+1); break;
			case 2: e.FROM(a0); t << ".FROM" << a0; from = std::max<long>(from,a0); break;
			case 3: e.TO(b); t << ".TO" << b; to = std::min<long>(to,b+1); break;
			case 4: e.RANGE(a0,-1); t << ".RANGE" << a0 << ",-1"; from = std::max<long>(from,a0); break;
		}
		p.from = (int)from; p.to = (int)to;
	}
	if (rndn(2)) e = p.type; else e.assignType( p.type);
	t << "=" << p.type; p.text = t.str();
	// the same element may report more than one event
	if (rndn(12) == 0 && prefix) ;
}
struct Ptr { Sel* p; Ptr( Sel* x) :p(x) {} ~Ptr() {delete p;} Sel* operator->() {return p;} Sel& operator*() {return *p;} void swap( Ptr& o) {Sel* t = p; p = o.p; o.p = t;} private: Ptr( const Ptr&); };
static std::string names( const std::vector<int>& v) {std::string r; for (std::size_t i=0; i<v.size(); ++i) r += " " + str(v[i]); return "{" + r + " }";}
static void feed( const std::vector<Path>& paths, Atm& a, const std::vector<Elem>& d, bool copies)
{
	Ref ref( paths); Ptr s( new Sel( &a)); bool some = false;
	std::vector<int> early;	// events reported at the start are delivered with the first element that is looked at
	std::vector<int> pend = ref.atstart; ref.atstart.clear(); std::sort( pend.begin(), pend.end());
	for (std::size_t i=0; i<d.size(); ++i)
	{
		if (copies && rndn(6) == 0) {Ptr c( new Sel( *s)); s.swap( c); if (rndn(2)) {Sel::iterator x = c->push( XB::OpenTag, "a", 1); if (x != c->end()) ++x;}}
		std::vector<int> exp = ref.elem( d[i]), got;
		char* key = (char*)malloc( d[i].val.size() ? d[i].val.size() : 1); memcpy( key, d[i].val.data(), d[i].val.size());
		unsigned int mode = rndn(3);
		if (mode == 0) for (Sel::iterator it = rndn(2) ? s->push( d[i].type, key, (int)d[i].val.size()) : s->push( d[i].type, d[i].val), e = s->end(); it != e; ++it) got.push_back( *it);
		else if (mode == 1) {Sel::iterator it = s->push( d[i].type, key, (int)d[i].val.size()), e; while (!(it == e)) got.push_back( *it++);}
		else {Sel::iterator it, e = s->end(); it = s->push( d[i].type, key, (int)d[i].val.size()); while (it != e) {Sel::iterator c( it); got.push_back( *c.operator->()); if (rndn(2)) {++c; it = c;} else {it.assign( c); ++it;}} }
		free( key); std::sort( got.begin(), got.end());
		if (exp.size()) some = true;
		if (got != exp)
		{
			std::ostringstream o; o << "element " << i << " reports " << names( got) << " instead of " << names( exp) << ": paths";
			for (std::size_t k=0; k<paths.size(); ++k) o << " " << paths[k].text; o << " document";
			for (std::size_t k=0; k<=i; ++k) o << " " << XB::getElementTypeName( d[k].type) << quote( d[k].val);
			fail( o.str());
		}
	}
	++cases; if (some) ++nontrivial;
}
static std::string serialise( const std::vector<Elem>& d, bool& hdr)
{
	std::string r; bool open = false; hdr = false;
	for (std::size_t i=0; i<d.size(); ++i)
	{
		const Elem& e = d[i]; std::string q; for (std::size_t k=0; k<e.val.size(); ++k) q += e.val[k] == '"' ? std::string("&quot;") : std::string( 1, e.val[k]);
		bool close = open && e.type != XB::TagAttribName && e.type != XB::TagAttribValue && e.type != XB::CloseTagIm; if (close) {r += ">"; open = false;}
		switch (e.type)
		{
			case XB::OpenTag: r += "<" + e.val; open = true; break;
			case XB::TagAttribName: case XB::HeaderAttribName: r += " " + e.val + "="; break;
			case XB::TagAttribValue: case XB::HeaderAttribValue: r += "\"" + q + "\""; break;
			case XB::CloseTagIm: r += "/>"; open = false; break;
			case XB::CloseTag: r += "</" + e.val + ">"; break;
			case XB::Content: r += q; break;
			case XB::HeaderStart: r += "<?xml"; hdr = true; break; case XB::HeaderEnd: r += "?>\n"; break;
			default: break;
		}
	}
	return r;
}
int main( int argc, const char** argv)
{
	init( argc, argv);
	while (!timeup())
	{
		g_nn = 2 + rndn(6); g_nv = 2 + rndn(6); g_longname = rndn(6) ? std::string() : std::string( rndn(2) ? 1 + rndn( 300) : 200 + rndn( 3000), 'n');
		g_longname2 = g_longname; if (g_longname.size()) switch (rndn(3)) {case 0: g_longname2[ rndn( (unsigned int)g_longname.size())] = 'm'; break; case 1: g_longname2 += 'n'; break; default: g_longname2[ g_longname.size()-1] = 'o'; break;}
		Atm a; std::vector<Path> paths( 1+rndn(5));
		for (std::size_t i=0; i<paths.size(); ++i)
		{
			paths[i].type = 1 + (int)i; std::vector<Step> pre;
			if (i && rndn(2)) {const std::vector<Step>& q = paths[ rndn( (unsigned int)i)].steps; pre.assign( q.begin(), q.begin() + rndn( (unsigned int)q.size()+1)); if (pre.size() && (pre.back().op == Attr || pre.back().op == Close)) pre.clear();}
			try { build( a, paths[i], &pre); }
			catch (const std::exception& e) { fail( std::string("path ") + paths[i].text + " refused: " + e.what()); }
		}
		std::vector<Elem> d = doc();
		feed( paths, a, d, true);
		if (rndn(3) == 0)
		{
			// the same with the elements the real scanner finds
			bool hdr; std::string txt = serialise( d, hdr); char* t = (char*)malloc( txt.size()+1); memcpy( t, txt.c_str(), txt.size()+1);
			typedef XMLScanner<CStringIterator,charset::UTF8,charset::UTF8,std::string> Scan;
			Scan sc( CStringIterator( t, txt.size())); std::vector<Elem> sd;
			for (int k=0; k<1000; ++k) { XB::ElementType ty = sc.nextItem(); Elem e = {ty, std::string( sc.getItemPtr(), sc.getItemSize())}; sd.push_back( e); if (ty == XB::Exit || ty == XB::ErrorOccurred) break; }
			feed( paths, a, sd, false); free( t);
		}
		// a name that cannot be one is refused and not cut
		if (rndn(8) == 0)
		{
			static const char* bad[] = {"a b","a>","<a","a=","a/","a\"","&#0;","&amp;","a&","&#xZ;","&#12"}; const char* b = bad[ rndn( sizeof(bad)/sizeof(bad[0]))]; bool thrown = false;
			try { if (rndn(2)) (*a)[ b] = 77; else (*a)[ "a"]( b) = 77; } catch (const exception& x) { thrown = x.cause == throws_exception::IllegalAttributeName; }
			if (!thrown) fail( std::string("the illegal name ") + quote( b) + " in a path is not refused");
			++cases;
		}
	}
	summary(); return 0;
}
