PH='''#include "textwolf.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include <cstdio>
#include <string>
#include <cstring>
#include <sstream>
using namespace textwolf;
typedef XMLPathSelectAutomatonParser<> Atm; typedef XMLPathSelect<charset::UTF8> Sel; typedef XMLScannerBase XB;
static std::string ev;
static void feed( Sel& s, XB::ElementType t, const char* k) { Sel::iterator i = s.push( t, k, std::strlen( k)), e = s.end(); for (; i!=e; ++i) { std::ostringstream o; o << *i << ":" << k << " "; ev += o.str(); } }
static void doc( Sel& s, const char* d) { for (; *d; d += 2) { char k[2] = {d[1],0}; feed( s, *d == '<' ? XB::OpenTag : *d == '>' ? XB::CloseTag : *d == '@' ? XB::TagAttribName : *d == '=' ? XB::TagAttribValue : XB::Content, k); } }
static int is( const std::string& a, const std::string& b) { if (a == b) return 0; std::printf( "got '%s' expected '%s'\\n", a.c_str(), b.c_str()); return 1; }
static int add( Atm& a, int t, const char* e) { return a.addExpression( t, e, std::strlen( e)); }
template <class A> static std::string show( const A& a) { std::ostringstream o; for (std::size_t i=0; i<a.states.size(); ++i) { const typename A::State& s = a.states[i]; o << s.core.mask.pos << "/" << s.core.mask.neg << " " << s.core.follow << " " << s.core.typeidx << " " << s.core.cnt_start << "," << s.core.cnt_end << " " << (s.key ? std::string( s.key, s.keysize) : "-") << " " << s.next << " " << s.link << "; "; } return o.str(); }
'''
SEL="xmlpathselect.hpp"; AT="xmlpathautomaton.hpp"; PA="xmlpathautomatonparse.hpp"
SS=[
dict(id="C19-share-follow",property="C19",file=AT,edits=[("(states[ee].core.follow == follow) && (mask","(!follow || states[ee].core.follow == follow) && (mask")],
 needs="a step in all descendants defined before the same step for children only",breaks="the children step is also found in deeper descendants",
 demo=PH+'''int main() { Atm a; (*a)["r"]--["b"] = 1; (*a)["r"]["b"] = 2; Sel s( &a); doc( s, "<r<x<b"); return is( ev, "1:b "); }'''),
dict(id="C19-key-compare-end",property="C19",file=SEL,edits=[("for (ii=0; ii<context.keysize && st.key[ii] == context.key[ii]; ii++);","for (ii=0; ii<context.keysize && (st.key[ii] == context.key[ii] || ii >= 64); ii++);")],
 needs="names longer than 64 bytes that differ behind",breaks="they are taken as equal",
 demo=PH+'''int main() { std::string x( 70, 'x'), y( 70, 'x'); y[ 66] = 'y'; Atm a; (*a)[ x.c_str()] = 1; Sel s( &a); feed( s, XB::OpenTag, y.c_str()); return is( ev, ""); }'''),
dict(id="C19-mask-join",property="C19",file=SEL,edits=[("					context.scope.followMask.join( st.core.mask);","					if (context.scope.followMask.empty()) context.scope.followMask.join( st.core.mask);")],
 needs="two descendant searches for different element types active",breaks="the second one finds nothing in deeper scopes",
 demo=PH+'''int main() { Atm a; (*a)--["b"] = 1; (*a)--("i") = 2; Sel s( &a); doc( s, "<x@i=v"); return is( ev, "2:v "); }'''),
dict(id="C19-range-start",property="C19",file=SEL,edits=[("						if (tk->core.cnt_start <= 0)\n						{\n							rt = tk->core.typeidx;","						if (tk->core.cnt_start <= 0 || tk->core.cnt_end == 0)\n						{\n							rt = tk->core.typeidx;")],
 needs="an empty index range, lower bound not below the upper one",breaks="the last element of it is reported",
 demo=PH+'''int main() { Atm a; (*a)["a"]().FROM(2).TO(1) = 1; Sel s( &a); doc( s, "<a.x.y.z"); return is( ev, ""); }'''),
dict(id="C19-copy-follows",property="C19",file=SEL,edits=[("tokens.push_back( Token( st, stateidx));","tokens.push_back( Token( st, stateidx)); if (st.core.follow && st.core.cnt_end == 0) tokens.back().core.mask.reset();")],
 needs="",breaks="",demo="") if False else None,
dict(id="C20-quote-kind",property="C20",file=PA,edits=[("for (++src; *src && *src != eb; ++src)","for (++src; *src && *src != eb && *src != '\\n'; ++src)")],
 needs="a condition with a quoted value that contains an end of line",breaks="the expression is refused",
 demo=PH+'''int main() { Atm a,b; if (add( a, 1, "a[@x='p\\nq']")) return 1; (*b)["a"]("x","p\\nq") = 1; return is( show( a), show( b)); }'''),
dict(id="C20-second-alternative",property="C20",file=PA,edits=[("				alt_path.selectAttribute( *ai);","				if (ai != alt.begin() && statelist.size() > 1) break;\n				alt_path.selectAttribute( *ai);")],
 needs="alternatives of attributes behind alternatives of tags",breaks="only the first attribute is selected",
 demo=PH+'''int main() { Atm a,b; if (add( a, 1, "/{a,b}@{x,y}")) return 1; Atm::PathElement p = (*b)["a"], q = (*b)["b"], r = p, s = q; p("x") = 1; q("x") = 1; Atm c; { Atm::PathElement p = (*c)["a"], q = (*c)["b"]; Atm::PathElement p1=p,q1=q,p2=p,q2=q; p1.selectAttribute("x"); q1.selectAttribute("x"); p2.selectAttribute("y"); q2.selectAttribute("y"); p1.assignType(1); q1.assignType(1); p2.assignType(1); q2.assignType(1);} return is( show( a), show( c)); }'''),
dict(id="C20-error-position",property="C20",file=PA,edits=[("						if (range_start < 0) return src.getPosition()+1;","						if (range_start < 0) return src.getPosition();")],
 needs="an index of more than eight digits",breaks="the position of the error is one too low",
 demo=PH+'''int main() { Atm a; int r = add( a, 1, "a[123456789]"); if (r != 12) std::printf( "error at %d\\n", r); return r != 12; }'''),
dict(id="C20-range-first",property="C20",file=PA,edits=[("								expr.RANGE( range_start, range_end);","								if (range_end < range_start) expr.RANGE( range_end, range_start); else expr.RANGE( range_start, range_end);")],
 needs="a range with its upper bound below its lower one",breaks="it selects elements instead of none",
 demo=PH+'''int main() { Atm a,b; if (add( a, 1, "a[3,1]()")) return 1; (*b)["a"].RANGE(3,1)() = 1; return is( show( a), show( b)); }'''),
dict(id="C20-names-moved",property="C20",file=PA,flags="-fsanitize=address",edits=[("		std::list<std::string> idlist;","		std::vector<std::string> idlist;"),("			:atmcharset(atmcharset_){}\n		~IdentifierBuf","			:atmcharset(atmcharset_){idlist.reserve( 4);}\n		~IdentifierBuf")],
 needs="alternatives with more than four names",breaks="the names are moved while they are referenced",
 demo=PH+'''int main() { Atm a,b; if (add( a, 1, "{a,b,c,d,e}")) return 1; const char* n[] = {"a","b","c","d","e"}; Atm::PathElement p[5] = {*b,*b,*b,*b,*b}; for (int i=0; i<5; ++i) p[i].selectTag( n[i]); for (int i=0; i<5; ++i) p[i].assignType( 1); return is( show( a), show( b)); }'''),
dict(id="C20-close-after-condition",property="C20",file=PA,edits=[("					if (state != SelectTagId && state != SelectStart && state != SelectCondition) return src.getPosition()+1;\n					++src;\n					expr.selectCloseTag","					if (state == SelectTag || state == SelectAttribute || state == SelectAttributeId) return src.getPosition()+1;\n					++src;\n					expr.selectCloseTag")],
 needs="'~' behind the selection of content",breaks="the expression is accepted",
 demo=PH+'''int main() { Atm a; int r = add( a, 1, "a()~"); if (r != 4) std::printf( "result %d\\n", r); return r != 4; }'''),
dict(id="C20-blank-in-list",property="C20",file=PA,edits=[("				rt.push_back( parseIdentifier( src));\n				skipSpaces( src);","				rt.push_back( parseIdentifier( src));\n				if (*src != ',') skipSpaces( src); else if (rt.size() > 1 && 0==std::strcmp( rt[ rt.size()-2], rt.back())) rt.pop_back();")],
 needs="",breaks="",demo="") if False else None,
]
SS=[s for s in SS if s]
