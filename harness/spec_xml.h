// Specification of the XML scanner: a character transducer stating the documented grammar (C07), the text of the elements (C08),
// the token positions (C12) and the effect of masks (C11). Independent of the table in xmlscanner.hpp; shared with the native oracle.
#ifndef SPEC_XML_H
#define SPEC_XML_H
#include <stdint.h>
#include "spec_control.h"
namespace spec {
// control classes (values of ControlCharacter)
enum {cUndef,cEot,cEol,cCntrl,cSpace,cAmp,cLt,cEq,cGt,cSlash,cDash,cExclam,cQuest,cSq,cDq,cOsb,cCsb,cAny};
static inline unsigned int cls( uint32_t c) { return c < 128 ? control_class( (int)c) : (unsigned int)cUndef; }
// element types
enum {eNone,eError,eHeaderStart,eHeaderAttribName,eHeaderAttribValue,eHeaderEnd,eDocAttribValue,eDocAttribEnd,eTagAttribName,eTagAttribValue,eOpenTag,eCloseTag,eCloseTagIm,eContent,eExit};
// errors
enum {rOk,rIllegalDocAttr,rExpOpenTag,rExpXMLTag,rUnexpEot,rSyntaxToken,rStrNotTerm,rUndefEntity,rExpTagEnd,rExpEqual,rExpTagAttr,rExpCDATA,rInternal,rUnexpEoi,rExpEol,rExpDash2};
// states of the document (numbered as the public enumeration STMState)
enum {START, STARTTAG, XTAG, PITAG, PITAGEND, XTAGEND, XTAGDONE, XTAGAISK, XTAGANAM, XTAGAESK, XTAGAVSK, XTAGAVID, XTAGAVSQ, XTAGAVDQ, XTAGAVQE,
	DOCSTART, CONTENT, TOKEN, SEEKTOK, XMLTAG, OPENTAG, CLOSETAG, TAGCLSK, TAGAISK, TAGANAM, TAGAESK, TAGAVSK, TAGAVID, TAGAVSQ, TAGAVDQ, TAGAVQE,
	TAGCLIM, ENTITYSL, ENTITY, ENTITYE, ENTITYID, ENTITYSQ, ENTITYDQ, ENTITYLC, COMDASH2, COMSEEKE, COMENDD2, COMENDCL, CDATA, CDATA1, CDATA2, CDATA3, EXIT, NSTATES};
// what a state does before it looks at the next character
enum {aNone, aReturn, aTag, aContent, aSQ, aDQ, aKeyXML, aKeyCDATA};
static inline unsigned int action( unsigned int st)
{
	switch (st)
	{
		case XTAGDONE: case TAGCLIM: case ENTITYE: case EXIT: return aReturn;
		case XTAGANAM: case XTAGAVID: case OPENTAG: case CLOSETAG: case TAGANAM: case TAGAVID: case ENTITYID: return aTag;
		case TOKEN: return aContent;
		case XTAGAVSQ: case TAGAVSQ: case ENTITYSQ: return aSQ;
		case XTAGAVDQ: case TAGAVDQ: case ENTITYDQ: return aDQ;
		case XTAG: return aKeyXML;
		case CDATA: return aKeyCDATA;
	}
	return aNone;
}
static inline unsigned int elemtype( unsigned int st)
{
	switch (st)
	{
		case XTAG: return eHeaderStart;
		case XTAGDONE: return eHeaderEnd;
		case XTAGANAM: return eHeaderAttribName;
		case XTAGAVID: case XTAGAVSQ: case XTAGAVDQ: return eHeaderAttribValue;
		case TOKEN: return eContent;
		case OPENTAG: return eOpenTag;
		case CLOSETAG: return eCloseTag;
		case TAGCLIM: return eCloseTagIm;
		case TAGANAM: return eTagAttribName;
		case TAGAVID: case TAGAVSQ: case TAGAVDQ: return eTagAttribValue;
		case ENTITYE: return eDocAttribEnd;
		case ENTITYID: case ENTITYSQ: case ENTITYDQ: return eDocAttribValue;
		case EXIT: return eExit;
	}
	return eNone;
}
// does the class belong to the text of the token of a state
static inline bool istext( unsigned int act, unsigned int c)
{
	if (act == aTag) return c == cUndef || c == cAny || c == cDash;
	if (c == cEot || c == cLt || c == cAmp) return false;
	if (act == aSQ) return c != cSq;
	if (act == aDQ) return c != cDq;
	return true;
}
static inline bool isws( unsigned int c) { return c == cEol || c == cCntrl || c == cSpace; }
// state after consuming a character of class c, NSTATES if c does not continue the state
static inline unsigned int next( unsigned int st, unsigned int c)
{
	bool ws = isws( c), eot = c == cEot;
	switch (st)
	{
		case START: if (eot) return EXIT; if (ws) return START; if (c == cLt) return STARTTAG; break;
		case STARTTAG: if (ws) return STARTTAG; if (c == cQuest) return XTAG; if (c == cExclam) return ENTITYSL; break;
		// XML header
		case XTAG: if (ws) return XTAGAISK; if (c == cQuest) return XTAGEND; break;
		case XTAGEND: if (ws) return XTAGEND; if (c == cGt) return XTAGDONE; break;
		case XTAGAISK: if (ws) return XTAGAISK; if (c == cQuest) return XTAGEND; break;
		case XTAGANAM: case XTAGAESK: if (ws) return XTAGAESK; if (c == cEq) return XTAGAVSK; break;
		case XTAGAVSK: if (ws) return XTAGAVSK; if (c == cSq) return XTAGAVSQ; if (c == cDq) return XTAGAVDQ; break;
		case XTAGAVSQ: if (c == cSq) return XTAGAVQE; break;
		case XTAGAVDQ: if (c == cDq) return XTAGAVQE; break;
		case XTAGAVID: case XTAGAVQE: if (ws) return XTAGAISK; if (c == cQuest) return XTAGEND; break;
		// processing instruction: up to the first '?>'
		case PITAG: if (eot) break; if (c == cQuest) return PITAGEND; return PITAG;
		case PITAGEND: if (eot) break; if (c == cGt) return CONTENT; if (c == cQuest) return PITAGEND; return PITAG;
		// document content
		case DOCSTART: case SEEKTOK: if (eot) return EXIT; if (ws) return st; if (c == cLt) return XMLTAG; break;
		case CONTENT: if (eot) return EXIT; if (c == cLt) return XMLTAG; break;
		case TOKEN: if (eot) return EXIT; if (ws) return CONTENT; if (c == cLt) return XMLTAG; break;
		// tags
		case XMLTAG: if (ws) return XMLTAG; if (c == cQuest) return PITAG; if (c == cExclam) return ENTITYSL; if (c == cSlash) return CLOSETAG; break;
		case OPENTAG: case TAGAVID: case TAGAVQE: case TAGAISK: if (ws) return TAGAISK; if (c == cSlash) return TAGCLIM; if (c == cGt) return CONTENT; break;
		case CLOSETAG: case TAGCLSK: case TAGCLIM: if (ws) return TAGCLSK; if (c == cGt) return CONTENT; break;
		case TAGANAM: case TAGAESK: if (ws) return TAGAESK; if (c == cEq) return TAGAVSK; break;
		case TAGAVSK: if (ws) return TAGAVSK; if (c == cSq) return TAGAVSQ; if (c == cDq) return TAGAVDQ; break;
		case TAGAVSQ: if (c == cSq) return TAGAVQE; break;
		case TAGAVDQ: if (c == cDq) return TAGAVQE; break;
		// <! ... >
		case ENTITYSL: if (c == cOsb) return CDATA; if (c == cDash) return COMDASH2; break;
		case ENTITY: if (ws) return ENTITY; if (c == cGt) return ENTITYE; if (c == cSq) return ENTITYSQ; if (c == cDq) return ENTITYDQ; if (c == cOsb) return ENTITYLC; break;
		case ENTITYID: if (ws) return ENTITY; if (c == cGt) return ENTITYE; break;
		case ENTITYSQ: if (c == cSq) return ENTITY; break;
		case ENTITYDQ: if (c == cDq) return ENTITY; break;
		case ENTITYLC: if (eot) break; return c == cCsb ? ENTITY : ENTITYLC;
		// comment: up to the first '-->'
		case COMDASH2: if (c == cDash) return COMSEEKE; break;
		case COMSEEKE: if (eot) break; return c == cDash ? COMENDD2 : COMSEEKE;
		case COMENDD2: if (eot) break; return c == cDash ? COMENDCL : COMSEEKE;
		case COMENDCL: if (eot) break; return c == cGt ? SEEKTOK : c == cDash ? COMENDCL : COMSEEKE;
		// CDATA section: up to the first ']]>'
		case CDATA: if (c == cOsb) return CDATA1; break;
		case CDATA1: if (eot) break; return c == cCsb ? CDATA2 : CDATA1;
		case CDATA2: if (eot) break; return c == cCsb ? CDATA3 : CDATA1;
		case CDATA3: if (eot) break; return c == cGt ? CONTENT : c == cCsb ? CDATA3 : CDATA1;
	}
	return NSTATES;
}
// state that takes the character instead, if it does not continue the state (NSTATES: none)
static inline unsigned int fallback( unsigned int st)
{
	switch (st)
	{
		case STARTTAG: case XMLTAG: return OPENTAG;
		case XTAGDONE: return DOCSTART;
		case XTAGAISK: return XTAGANAM;
		case XTAGAVSK: return XTAGAVID;
		case DOCSTART: case CONTENT: case SEEKTOK: return TOKEN;
		case TOKEN: return CONTENT;
		case TAGAISK: return TAGANAM;
		case TAGAVSK: return TAGAVID;
		case ENTITYSL: return ENTITY;
		case ENTITY: return ENTITYID;
		case ENTITYE: return SEEKTOK;
	}
	return NSTATES;
}
// error naming the missing construct
static inline unsigned int miss( unsigned int st)
{
	switch (st)
	{
		case START: return rExpOpenTag;
		case XTAG: return rExpXMLTag;
		case XTAGEND: case CLOSETAG: case TAGCLSK: case TAGCLIM: return rExpTagEnd;
		case XTAGANAM: case XTAGAESK: case TAGANAM: case TAGAESK: return rExpEqual;
		case XTAGAVID: case XTAGAVQE: case OPENTAG: case TAGAVID: case TAGAVQE: return rExpTagAttr;
		case XTAGAVSQ: case XTAGAVDQ: case TAGAVSQ: case TAGAVDQ: case ENTITYSQ: case ENTITYDQ: return rStrNotTerm;
		case ENTITYID: return rIllegalDocAttr;
		case COMDASH2: return rExpDash2;
		case CDATA: return rExpCDATA;
	}
	return rUnexpEot;	// the others only miss the end of text
}
#ifdef SPEC_TABLES
// the functions above tabulated (cheaper for the verifier); the harness calls tabulate() in its warm-up
struct Tables { uint8_t next[ NSTATES+1][ 18], fallback[ NSTATES+1], action[ NSTATES+1], elemtype[ NSTATES+1], miss[ NSTATES+1], cls[ 128]; };
static Tables tab;
static inline void tabulate()
{
	for (unsigned int i=0; i<=NSTATES; ++i)
	{
		for (unsigned int k=0; k<18; ++k) tab.next[i][k] = (uint8_t)next( i, k);
		tab.fallback[i] = (uint8_t)fallback( i); tab.action[i] = (uint8_t)action( i); tab.elemtype[i] = (uint8_t)elemtype( i); tab.miss[i] = (uint8_t)miss( i);
	}
	for (unsigned int c=0; c<128; ++c) tab.cls[c] = (uint8_t)cls( c);
}
#define next(s,k) tab.next[s][k]
#define fallback(s) tab.fallback[s]
#define action(s) tab.action[s]
#define elemtype(s) tab.elemtype[s]
#define miss(s) tab.miss[s]
static inline unsigned int tcls( uint32_t c) { return c < 128 ? tab.cls[c] : (unsigned int)cUndef; }
#define cls(c) tcls(c)
#endif
static inline const char* keyword( unsigned int st) { return st == XTAG ? "xml" : "CDATA"; }
static inline unsigned int keylen( unsigned int st) { return st == XTAG ? 3 : 5; }
static inline unsigned int hexval( uint32_t c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return 255;
}
// progress inside of a state with an action
enum {tStart, tText, tAmp, tNum, tDigits, tName, tKey, tDone};
enum {MaxRef=16, MaxName=15};
struct State
{
	uint8_t st;		// state of the document
	uint8_t tok;		// progress in its action
	uint8_t cr;		// tText: the last character was a CR (printed as LF)
	uint8_t n;		// tDigits,tName: number of digits / characters; tKey: number of characters of the keyword
	uint8_t base;		// tDigits: 10 or 16
	uint64_t value;		// tDigits
	uint64_t w[2];		// tDigits,tName: the characters (ASCII), 8 in a word, the first in the lowest byte
};
static inline bool same( const State& a, const State& b)
{
	if (a.st != b.st || a.tok != b.tok) return false;
	if (a.tok == tText) return a.cr == b.cr;
	if (a.tok == tKey) return a.n == b.n;
	if (a.tok == tDigits || a.tok == tName)
	{
		if (a.n != b.n) return false;
		if (a.tok == tDigits && (a.base != b.base || a.value != b.value)) return false;
		if (a.w[0] != b.w[0] || a.w[1] != b.w[1]) return false;
	}
	return true;
}
static inline void setstate( State& q, unsigned int st) { q.st = (uint8_t)st; q.tok = tStart; q.cr = 0; q.n = 0; q.base = 0; q.value = 0; q.w[0] = 0; q.w[1] = 0; }
static inline void settok( State& q, unsigned int tok) { q.tok = (uint8_t)tok; q.cr = 0; q.n = 0; q.base = 0; q.value = 0; q.w[0] = 0; q.w[1] = 0; }
static inline void addchar( State& q, uint32_t c)
{
	uint64_t x = (uint64_t)(c & 0xFF) << (8*(q.n & 7));
	if (q.n < 8) q.w[0] |= x; else q.w[1] |= x;
	++q.n;
}
static inline uint8_t charat( const uint64_t* w, unsigned int i) { return (uint8_t)((i < 8 ? w[0] : w[1]) >> (8*(i & 7))); }
static inline bool nameeq( const State& q, const char* s)	// s shorter than 8
{
	uint64_t x = 0; unsigned int i=0;
	for (; s[i]; ++i) x |= (uint64_t)(uint8_t)s[i] << (8*i);
	return q.n == i && q.w[0] == x && q.w[1] == 0;
}
static inline bool predefined( const State& q, uint32_t& c)
{
	if (nameeq( q, "quot")) {c = '"'; return true;}
	if (nameeq( q, "amp")) {c = '&'; return true;}
	if (nameeq( q, "apos")) {c = '\''; return true;}
	if (nameeq( q, "lt")) {c = '<'; return true;}
	if (nameeq( q, "gt")) {c = '>'; return true;}
	if (nameeq( q, "nbsp")) {c = ' '; return true;}
	return false;
}
enum {ocNone, ocEvent, ocConsumed, ocConsumedEvent, ocError};
/// \brief Moves with character c ahead until it is consumed, an element is recognised or an error.
/// mask: bit of an element type not set: its text is not wanted
/// ENV: clear(), append(c), character(c) (the code point of the character read), append(characters,n), tokenpos() (set to the position of c), lookup(state,c&): user defined entity
template <class ENV>
static inline unsigned int run( State& q, uint32_t c, unsigned int mask, ENV& env, unsigned int& result)
{
	unsigned int k = cls( c), act, steps;
	result = 0;
	// the character does not continue the state: it belongs to another one
	for (steps=0; steps<2; ++steps)
	{
		if (action( q.st) == aNone && next( q.st, k) == NSTATES && fallback( q.st) != NSTATES) setstate( q, fallback( q.st));
	}
	act = action( q.st);
	bool pending = false;
	if (act == aReturn)
	{
		env.tokenpos(); env.clear();
		if (q.st == XTAGDONE || q.st == ENTITYE) { result = elemtype( q.st); setstate( q, fallback( q.st)); return ocEvent; }
		if (q.st == EXIT) { result = eExit; return ocEvent; }
		pending = true;
	}
	else if (act == aKeyXML || act == aKeyCDATA)
	{
		if (q.tok != tDone)
		{
			if (q.tok != tKey) settok( q, tKey);
			if (q.n < keylen( q.st))
			{
				if (c == (uint8_t)keyword( q.st)[ q.n]) { ++q.n; return ocConsumed; }
				result = k == cEot ? rUnexpEot : rSyntaxToken; return ocError;
			}
			if (act == aKeyXML) { env.append( '?'); env.append( 'x'); env.append( 'm'); env.append( 'l'); }
			settok( q, tDone);
		}
		pending = act == aKeyXML;
	}
	else if (act != aNone)
	{
		if (q.tok != tDone)
		{
			if (!((mask >> elemtype( q.st)) & 1))
			{
				settok( q, tStart);
				if (istext( act, k) || k == cAmp) return ocConsumed;
			}
			else
			{
				if (q.tok == tStart) { env.tokenpos(); env.clear(); settok( q, tText); }
				if (q.tok == tAmp) { if (c == '#') { settok( q, tNum); return ocConsumed; } settok( q, tName); }
				if (q.tok == tNum) { settok( q, tDigits); if (c == 'x') { q.base = 16; return ocConsumed; } q.base = 10; }
				if (q.tok == tDigits)
				{
					if (q.n < MaxRef && hexval( c) < q.base) { addchar( q, c); q.value = (q.base == 16 ? q.value * 16 : q.value * 10) + hexval( c); return ocConsumed; }
					if (q.n < MaxRef && c == ';' && q.n > 0 && q.value <= 0xFFFFFFFFU) { env.append( (uint32_t)q.value); settok( q, tText); return ocConsumed; }
					env.append( '&'); env.append( '#'); if (q.base == 16) env.append( 'x');
					env.append( q.w, q.n);
					settok( q, tText);
				}
				else if (q.tok == tName)
				{
					if (c == ';')
					{
						uint32_t e;
						if (predefined( q, e) || env.lookup( q, e)) { env.append( e); settok( q, tText); return ocConsumed; }
						result = rUndefEntity; return ocError;
					}
					if (q.n < MaxName && k == cAny) { addchar( q, c); return ocConsumed; }
					env.append( '&');
					env.append( q.w, q.n);
					settok( q, tText);
				}
				if (k == cAmp) { settok( q, tAmp); return ocConsumed; }
				if (istext( act, k))
				{
					if (c == '\n') { if (!q.cr) env.append( '\n'); q.cr = 0; }
					else if (c == '\r') { env.append( '\n'); q.cr = 1; }
					else { env.character( c); q.cr = 0; }
					return ocConsumed;
				}
			}
		}
		pending = true;
	}
	unsigned int nx = next( q.st, k), ty = elemtype( q.st);
	if (nx != NSTATES)
	{
		setstate( q, nx);
		if (pending) { result = ty; return ocConsumedEvent; }
		return ocConsumed;
	}
	if (pending && fallback( q.st) != NSTATES) { result = ty; setstate( q, fallback( q.st)); return ocEvent; }
	result = miss( q.st);
	return ocError;
}
}
#endif
