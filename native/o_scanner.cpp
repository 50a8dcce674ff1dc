// native oracle for C07..C12: the real XML scanner on generated documents against the reference transducer of harness/spec_xml.h
#include "oracle.h"
#include "textwolf/charset.hpp"
#include "textwolf/textscanner.hpp"
#include "textwolf/xmlscanner.hpp"
#include "spec_charset.h"
#include "spec_iso8859.h"
#include "spec_xml.h"
#include <csetjmp>
#include <csignal>
using namespace textwolf;
using namespace orc;
typedef std::vector<uint32_t> Text;
static std::string g_id;
struct Event { unsigned int type; Text text; std::size_t tpos, pos; unsigned int err; bool last; };
typedef std::map<std::string,uint32_t> Entities;
struct Env
{
	Text out; std::size_t tpos, cur; const Entities* em;
	Env() :tpos(0),cur(0),em(0) {}
	void clear() {out.clear();}
	void append( uint32_t c) {out.push_back( c);}
	void character( uint32_t c) {out.push_back( c);}
	void append( const uint64_t* w, unsigned int n) {for (unsigned int i=0; i<n; ++i) out.push_back( spec::charat( w, i));}
	void tokenpos() {tpos = cur;}
	bool lookup( const spec::State& q, uint32_t& c) const
	{
		if (!em) return false;
		std::string s; for (unsigned int i=0; i<q.n; ++i) s += (char)spec::charat( q.w, i);
		Entities::const_iterator i = em->find( s); if (i == em->end()) return false; c = i->second; return true;
	}
};
// reference: the elements of a text
static void reference( const Text& doc, const std::vector<std::size_t>& pos, unsigned int mask, const Entities* em, std::vector<Event>& ev)
{
	spec::State q; spec::setstate( q, spec::START); Env env; env.em = em; std::size_t i = 0;
	for (;;)
	{
		uint32_t c = i < doc.size() ? doc[i] : 0; unsigned int res; env.cur = pos[i];
		unsigned int oc = spec::run( q, c, mask, env, res);
		if (c == 0 && (oc == spec::ocConsumed || oc == spec::ocConsumedEvent) && i < doc.size()) {/*embedded end of text*/}
		if (oc == spec::ocConsumed || oc == spec::ocConsumedEvent) ++i;
		if (oc == spec::ocConsumed) continue;
		Event e; e.type = oc == spec::ocError ? (unsigned int)spec::eError : res; e.err = oc == spec::ocError ? res : 0; e.text = env.out; e.tpos = env.tpos; e.pos = pos[i]; e.last = false;
		if (e.type == spec::eError || e.type == spec::eExit) e.last = true;
		ev.push_back( e); if (e.last) return;
	}
}
static std::string utf8( const Text& t) { std::string s; for (std::size_t i=0; i<t.size(); ++i) {unsigned char e[8]; s += std::string( (char*)e, spec::encode( 8, t[i], e));} return s; }
// ------------------------------------------------------------------ documents
static const char* g_prefix[] = { // to reach the states of the automaton
	"", "<", "<?", 0, 0, "<?xml ?", "<?xml ?>", "<?xml ", "<?xml a", "<?xml a ", "<?xml a=", "<?xml a=b", "<?xml a='", "<?xml a=\"", "<?xml a='b'",
	"<?xml?>", "<a>", "<a>x", "<a>x<!-- -->", "<a><", "<a", "<a></a", "<a></a ", "<a ", "<a b", "<a b ", "<a b=", "<a b=c", "<a b='", "<a b=\"", "<a b='c'",
	"<a/", "<!", "<!DOCTYPE ", "<!D>", "<!D", "<!D '", "<!D \"", "<!D [", "<!-", "<!--", "<!-- -", "<!-- --", "<![CDATA", "<![CDATA[", "<![CDATA[ ]", "<![CDATA[ ]]", "<a></a>" };
static void ascii( Text& t, const char* s) { while (*s) t.push_back( (unsigned char)*s++); }
static uint32_t anychar()
{
	switch (rndn( 8))
	{
		case 0: return 1+rndn( 127); case 1: return 0x80+rndn( 0x780); case 2: return 0x800+rndn( 0xD000); case 3: return 0x10000+rndn( 0x1000); case 4: return 0xA0+rndn( 0x60);
		default: return (unsigned char)"abcAZ019_:;#x.-<>&='\"[]!?/ \t\r\n\n\r\x05\x0b\x7f"[ rndn( 37)];
	}
}
static const char* g_names[] = {"lt","gt","amp","apos","quot","nbsp","a","foo","Foo","x","verylongname123","verylongname1234","ltt","l","quotx","am","ap","apo","nb","g","n"};
static void piece( Text& t)
{
	static const char* p[] = {"<","</",">","/>","/","?","?>","!","<!","<!--","--","-->","-","--->","<![CDATA[","]","]]","]]>","]]]>","[","<?","<?xml","<!DOCTYPE","<!ENTITY a '","'","\"","=","a","bc"," ","\t","\r","\n","\r\n","\n\r","\r\r\n","&","&#","&#x",";","#","x","&#65;","&#x41;","&#xFFFFFFFF;","&#x100000000;","&#4294967295;","&#4294967296;","&#0;","&#x;","&#;","&;","&#1234567890123456;","&#123456789012345;","&#x00000000000041;","&#x000000000000041;","&#xg;","&#1a;","&lt","&amp ;","a='b'","b=\"c\"","c=d"," e ","\x7f","\x05","\x0b","&#8364;","&#xe4;"};
	static const unsigned int np = sizeof p/sizeof p[0];
	switch (rndn( 10))
	{
		case 0: t.push_back( anychar()); break;
		case 1: {t.push_back( '&'); ascii( t, g_names[ rndn( sizeof g_names/sizeof g_names[0])]); if (rndn( 8)) t.push_back( ';'); break;}
		case 2: {t.push_back( '&'); t.push_back( '#'); unsigned int n = rndn( 19); if (rndn( 2)) t.push_back( 'x'); for (unsigned int i=0; i<n; ++i) t.push_back( (unsigned char)"0123456789abcdefABCDEFg"[ rndn( rndn( 3) ? 10 : 23)]); if (rndn( 4)) t.push_back( ';'); break;}
		default: ascii( t, p[ rndn( np)]);
	}
}
static void ws( Text& t) { for (unsigned int n=rndn( 3); n; --n) t.push_back( (unsigned char)" \t\r\n"[ rndn( 4)]); }
static void name( Text& t) { for (unsigned int n=1+rndn( 5); n; --n) t.push_back( rndn( 5) ? (uint32_t)(unsigned char)"abcXYZ019:_.-"[ rndn( 13)] : 0xC0+rndn( 0x40)); }
static void value( Text& t, bool sq, bool dq)
{
	for (unsigned int n=rndn( 8); n; --n)
	{
		if (rndn( 4) == 0) {t.push_back( '&'); ascii( t, rndn( 4) ? g_names[ rndn( 6)] : "#x41"); t.push_back( ';'); continue;}
		uint32_t c = anychar(); if (c == '<' || c == '&' || (sq && c == '\'') || (dq && c == '"')) continue; t.push_back( c);
	}
}
static void attr( Text& t) { t.push_back( ' '); ws( t); name( t); ws( t); t.push_back( '='); ws( t); switch (rndn( 3)) {case 0: name( t); break; case 1: t.push_back( '\''); value( t, true, false); t.push_back( '\''); break; default: t.push_back( '"'); value( t, false, true); t.push_back( '"');} }
static void element( Text& t, int depth)
{
	t.push_back( '<'); name( t); for (unsigned int n=rndn( 3); n; --n) attr( t); ws( t);
	if (rndn( 4) == 0) {t.push_back( '/'); ws( t); t.push_back( '>'); return;}
	t.push_back( '>');
	for (unsigned int n=rndn( depth > 3 ? 2 : 4); n; --n) switch (rndn( 6))
	{
		case 0: case 1: element( t, depth+1); break;
		case 2: ascii( t, "<!--"); for (unsigned int k=rndn( 6); k; --k) {static const char* z[]={"-"," ","--a",">","x","<"}; ascii( t, z[ rndn( 6)]);} ascii( t, "-->"); break;
		case 3: ascii( t, "<![CDATA["); for (unsigned int k=rndn( 6); k; --k) {static const char* z[]={"]","]] ",">","<","x","&"}; ascii( t, z[ rndn( 6)]);} ascii( t, "]]>"); break;
		case 4: ascii( t, "<?pi "); for (unsigned int k=rndn( 6); k; --k) {static const char* z[]={"?"," ","x","<","&","??"}; ascii( t, z[ rndn( 6)]);} ascii( t, "?>"); break;
		default: value( t, false, false);
	}
	ascii( t, "</"); name( t); ws( t); t.push_back( '>');
}
static void document( Text& t)
{
	unsigned int m = rndn( 10);
	if (m < 5)
	{
		if (rndn( 2)) {ascii( t, "<?xml"); for (unsigned int n=rndn( 3); n; --n) attr( t); ws( t); ascii( t, "?>"); ws( t);}
		if (rndn( 3) == 0) {ascii( t, "<!DOCTYPE "); name( t); if (rndn( 2)) {ascii( t, " 'x' \"y\"");} if (rndn( 2)) ascii( t, " [ <!ENTITY a 'b'> ]"); ws( t); ascii( t, ">"); ws( t);}
		element( t, 0); ws( t);
		for (unsigned int k=rndn( 4); k; --k) if (rndn( 2) && !t.empty())	// mutation
		{
			std::size_t at = rndn( (unsigned int)t.size()); Text x; 
			switch (rndn( 4)) {case 0: t.erase( t.begin()+at); break; case 1: t[at] = anychar(); break; case 2: piece( x); t.insert( t.begin()+at, x.begin(), x.end()); break; default: t.resize( at);}
		}
	}
	else
	{
		unsigned int s = rndn( sizeof g_prefix/sizeof g_prefix[0]); ascii( t, g_prefix[s] ? g_prefix[s] : "<a><?x ?");
		for (unsigned int n=rndn( 12); n; --n) piece( t);
		if (rndn( 2)) {static const char* z[]={">","'>","\">","]>","-->","]]>","?>"," />"}; ascii( t, z[ rndn( 8)]); if (rndn( 2)) ascii( t, "x</a>");}
	}
	for (std::size_t i=0; i<t.size(); ++i) if (t[i] == 0) t[i] = 'z';
}
// the documents suggested by the counterexamples of the verifier
static bool hinted( Text& t, Entities& em, unsigned int& mask)
{
	typedef std::multimap<std::string,std::string>::const_iterator I;
	if (!args.count( "st")) return false;
	std::vector<std::string> sts; std::pair<I,I> r = args.equal_range( "st"); for (; r.first != r.second; ++r.first) sts.push_back( r.first->second);
	unsigned int st = atoi( sts[ rndn( sts.size())].c_str()); if (st >= sizeof g_prefix/sizeof g_prefix[0]) return false;
	ascii( t, g_prefix[st] ? g_prefix[st] : st == 3 ? "<a><?x " : "<a><?x ?");
	std::string nm; for (int i=0; i<19; ++i) { I a = args.find( "ename["+str(i)+"]"); if (a == args.end()) break; int c = atoi( a->second.c_str()); if (!c) break; nm += (char)c; }
	if (!nm.empty()) em[ nm] = 0x41+rndn( 0x200);
	I a = args.find( "mask"); if (a != args.end()) mask = atoi( a->second.c_str());
	if (rndn( 2) && !nm.empty()) { t.push_back( '&'); for (std::size_t i=0; i<nm.size(); ++i) t.push_back( (unsigned char)nm[i]); if (rndn( 3)) t.push_back( ';'); }
	for (unsigned int n=rndn( 6); n; --n) { if (rndn( 3)) { I c = args.find( "chr["+str(rndn( 4))+"]"); if (c != args.end()) { uint32_t x = (uint32_t)strtoul( c->second.c_str(), 0, 10); if (x && x < 0xD800) t.push_back( x); continue; } } piece( t); }
	return true;
}
// ------------------------------------------------------------------ runs of the real code
struct GuardIter	// one terminating null character is there, nothing after it
{
	const char* p; std::size_t idx, end;
	GuardIter() :p(0),idx(0),end(0) {}
	GuardIter( const char* p_, std::size_t e) :p(p_),idx(0),end(e) {}
	char operator*() const { if (idx >= end) fail( g_id+" the scanner reads byte "+str(idx)+" behind the terminating null character"); return p[idx]; }
	GuardIter& operator++() {++idx; return *this;}
};
namespace textwolf { template <> struct Traits<GuardIter> { static inline std::size_t getPosition( const GuardIter&, const GuardIter& i) {return i.idx;} }; }
static std::string show( unsigned int type, const std::string& text, std::size_t tp, std::size_t p, unsigned int err) { return std::string("type ")+str(type)+" text "+quote( text)+" token position "+str(tp)+" position "+str(p)+(type == spec::eError ? " error "+str(err) : ""); }
static void onalarm( int) { static const char m[] = " the scanner does not terminate\n"; ssize_t r = write( 1, "FAIL property=", 14); r = write( 1, prop.c_str(), prop.size()); r = write( 1, " ", 1); r = write( 1, g_id.c_str(), g_id.size()); r = write( 1, m, sizeof m-1); (void)r; _exit( 1); }
template <class CS, class OCS> struct Test
{
	int kind; const char* name; CS cs; OCS ocs; unsigned int page;
	Test( int k, const char* n, const CS& c, const OCS& oc, unsigned int p) :kind(k),name(n),cs(c),ocs(oc),page(p) {}
	bool printok( const Text& t, std::string& s) { s.clear(); for (std::size_t i=0; i<t.size(); ++i) {std::string x; ocs.print( t[i], x); s += x;} return true; }
	template <class SC> bool check( SC& sc, const Event& e, unsigned int mask, const std::string& how)
	{
		XMLScannerBase::ElementType ty = sc.nextItem( (unsigned short)mask);
		++nontrivial;
		return compare( sc, ty, e, mask, how);
	}
	template <class SC> bool compare( SC& sc, unsigned int ty, const Event& e, unsigned int mask, const std::string& how)
	{
		std::string want; printok( e.text, want); std::string got = sc.getItem();
		unsigned int err = ty == spec::eError ? sc.getError() : 0;
		bool ok = ty == e.type && (ty != spec::eError || err == e.err), full = ok && ty != spec::eError, masked = !((mask >> e.type) & 1) || e.type == spec::eHeaderStart;
		if (ok && full) ok = sc.getPosition() == e.pos;
		if (full && !masked) ok = ok && got == want && sc.getItemSize() == want.size() && sc.getTokenPosition() == e.tpos && (want.empty() || std::memcmp( sc.getItemPtr(), want.data(), want.size()) == 0);
		if (full && e.type == spec::eHeaderStart) ok = ok && got == want;
		if (!ok) fail( g_id+" "+how+": got "+show( ty, got, sc.getTokenPosition(), sc.getPosition(), err)+" expected "+show( e.type, want, e.tpos, e.pos, e.err));
		return !e.last;
	}
	void round()
	{
		Text doc; std::map<std::string,uint32_t> em; unsigned int mask = 0xFFFF;
		bool h = (rndn( 2) && hinted( doc, em, mask)); if (!h) document( doc);
		if (kind == 1) { Text d; for (std::size_t i=0; i<doc.size(); ++i) if (doc[i] < 256 && doc[i]) d.push_back( spec::iso_decode( page, (unsigned char)doc[i])); doc.clear(); for (std::size_t i=0; i<d.size(); ++i) if (spec::iso_encode( page, d[i]) > 0) doc.push_back( d[i]); }
		Text dd; std::string src; std::vector<std::size_t> pos;
		for (std::size_t i=0; i<doc.size(); ++i)
		{
			unsigned char e[8]; unsigned int n;
			if (kind == 1) {e[0] = (unsigned char)spec::iso_encode( page, doc[i]); n = 1;} else n = spec::encode( kind, doc[i], e);
			if (!n) continue;
			pos.push_back( src.size()); dd.push_back( doc[i]); src += std::string( (char*)e, n);
		}
		doc.swap( dd); pos.push_back( src.size());
		unsigned int nz; {unsigned char e[8]; nz = kind == 1 ? 1 : spec::put_ascii( kind, 0, e);}
		pos.push_back( src.size()+nz);
		bool useem = rndn( 3) != 0;
		for (unsigned int n=rndn( 6); n; --n) em[ g_names[ 4+rndn( 17)]] = 1+rndn( 0x2FF);
		typename XMLScanner<GuardIter,CS,OCS,std::string>::EntityMap m1; std::vector<std::string*> keep;
		for (Entities::iterator i=em.begin(); i!=em.end(); ++i) {keep.push_back( new std::string( i->first)); m1[ keep.back()->c_str()] = i->second;}
		if (prop == "C11" && (!h || rndn( 2))) mask = rndn( 3) ? (unsigned int)rndn( 0x10000) : 0xFFFFu ^ (1u << rndn( 15));
		if (prop != "C11") mask = 0xFFFF;
		++cases;
		std::vector<Event> ev, ev0; reference( doc, pos, mask, useem ? &em : 0, ev);
		g_id = std::string("encoding=")+name+" page="+str(page)+" mask="+str(mask)+" document(UTF-8)="+quote( utf8( doc))+" bytes="+hex( src);
		if (useem) {g_id += " entities="; for (Entities::iterator i=em.begin(); i!=em.end(); ++i) g_id += i->first+":"+str(i->second)+",";}
		alarm( 20);
		if (prop != "C09")
		{
			std::string buf = src + std::string( nz, '\0');
			if (prop == "C10" || rndn( 2))
			{
				typedef XMLScanner<GuardIter,CS,OCS,std::string> S; GuardIter it( buf.data(), buf.size()); S sc( cs, it);
				S sce( cs, it, m1); S* p = useem ? &sce : &sc;
				for (std::size_t i=0; i<ev.size(); ++i) if (!check( *p, ev[i], mask, "element "+str(i))) break;
				if (ev.back().type == spec::eExit && prop == "C10") { if (p->nextItem() != spec::eExit) fail( g_id+" the end of the document is not reported again"); }
			}
			else
			{
				typedef XMLScanner<SrcIterator,CS,OCS,std::string> S; SrcIterator it( src.data(), src.size());
				S sc( cs, it), sce( cs, it, m1); S* p = useem ? &sce : &sc;
				for (std::size_t i=0; i<ev.size(); ++i) if (!check( *p, ev[i], mask, "element "+str(i))) break;
			}
		}
		if (prop == "C09" || rndn( 4) == 0)
		{
			typedef XMLScanner<SrcIterator,CS,OCS,std::string> S;
			static jmp_buf eom; static S* sc; static std::size_t cpos, clen; static std::string chunk, hist; static std::size_t i; static std::vector<Event>* evp; static int guard;
			hist.clear(); i = 0; evp = &ev; guard = 0; cpos = 0;
			static int mode; mode = rndn( 4); clen = mode == 0 ? 1 : rndn( 4); if (clen > src.size()) clen = src.size();
			chunk = src.substr( 0, clen); bool last0 = false;
			SrcIterator it( chunk.data(), chunk.size(), &eom); (void)last0;
			sc = useem ? new S( cs, it, m1) : new S( cs, it);
			static std::string old; 
			if (setjmp( eom) != 0)
			{
				if (++guard > 100000) fail( g_id+" no progress with chunks "+hist);
				if (mode == 3 || rndn( 3) == 0) { S* c = new S( *sc); delete sc; sc = c; hist += 'c'; }
				cpos += clen; clen = mode == 0 ? 1 : 1+rndn( mode == 1 ? 3 : 12);
				bool fin = cpos+clen >= src.size(); if (cpos > src.size()) cpos = src.size(); if (fin) clen = src.size()-cpos;
				old = chunk; chunk = std::string( src, cpos, clen); hist += '|'; hist += str( clen);
				if (rndn( 2)) sc->getIterator().putInput( chunk.data(), chunk.size(), fin ? 0 : &eom);
				else { SrcIterator ni( sc->getIterator()); ni.putInput( chunk.data(), chunk.size(), fin ? 0 : &eom); sc->setSource( ni); }
			}
			for (; i<evp->size(); ++i)
			{
				unsigned int ty = sc->nextItem( (unsigned short)mask); ++nontrivial;
				bool r = compare( *sc, ty, (*evp)[i], mask, "element "+str(i)+" fed in chunks (c: scanner copied) "+str( chunk.size())+" bytes last, sizes so far "+hist);
				if (!r) break;
				if (mode == 3 && rndn( 3) == 0) { S* c = new S( *sc); delete sc; sc = c; hist += 'C'; }
			}
			delete sc; sc = 0;
		}
		alarm( 0);
		for (std::size_t i=0; i<keep.size(); ++i) delete keep[i];
	}
};
int main( int argc, const char** argv)
{
	init( argc, argv);
	signal( SIGALRM, onalarm);
	using namespace charset;
	Test<UTF8,UTF8> a1(8,"UTF-8",UTF8(),UTF8(),0); Test<UTF16LE,UTF8> a2(160,"UTF-16LE",UTF16LE(),UTF8(),0); Test<UTF16BE,UTF16BE> a3(161,"UTF-16BE",UTF16BE(),UTF16BE(),0);
	Test<UCS2LE,UTF8> a4(20,"UCS-2LE",UCS2LE(),UTF8(),0); Test<UCS2BE,UCS2BE> a5(21,"UCS-2BE",UCS2BE(),UCS2BE(),0); Test<UCS4LE,UTF16LE> a6(40,"UCS-4LE",UCS4LE(),UTF16LE(),0); Test<UCS4BE,UTF8> a7(41,"UCS-4BE",UCS4BE(),UTF8(),0);
	Test<IsoLatin,UTF8> a8(1,"IsoLatin",IsoLatin(9),UTF8(),9); Test<IsoLatin,IsoLatin> a9(1,"IsoLatin",IsoLatin(2),IsoLatin(),2), a10(1,"IsoLatin",IsoLatin(4),IsoLatin(),4); Test<UTF8,IsoLatin> a11(8,"UTF-8",UTF8(),IsoLatin(),0);
	while (!timeup())
	{
		for (int k=0; k<6; ++k) a1.round();
		a2.round(); a3.round(); a4.round(); a5.round(); a6.round(); a7.round(); a8.round(); a9.round(); a10.round(); a11.round();
	}
	summary(); return 0;
}
