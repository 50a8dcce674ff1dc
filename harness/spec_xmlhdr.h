// Specification of the XML header (C18), written from the grammar '<?xml' (S Name S? '=' S? (quoted by ' or "))* S? '?>' with the attributes
// encoding, version and standalone: a character automaton.  Used by the verifier harness and by the native oracle.
#ifndef VERIF_SPEC_XMLHDR_H
#define VERIF_SPEC_XMLHDR_H
#include <stdint.h>
namespace spechdr {
enum St {Before, Opened, Target, Between, AttrName, BeforeEqual, BeforeValue, InSq, InDq};
enum Out {More, Done, Malformed};
enum Attr {aEncoding, aOther};
template <class STR> struct Header
{
	uint8_t st; uint8_t attr;
	STR item;	// name or value being read
	STR enc;	// value of the encoding attribute
	Header() :st(Before),attr(aEncoding) {}
};
static inline bool space( uint8_t c) {return c <= ' ';}
static inline bool letter( uint8_t c) {return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';}
// next character c (zero bytes of the padding do not count)
template <class STR> static inline Out step( Header<STR>& h, uint8_t c)
{
	switch (h.st)
	{
		case Before: if (space(c)) return More; if (c != '<') return Malformed; h.st = Opened; return More;
		case Opened: if (space(c)) return More; if (letter(c)) return Done/*no header, the root tag*/; if (c != '?') return Malformed; h.st = Target; return More;
		case Target:
			if (letter(c)) {h.item.push_back( (char)c); return More;}
			if (!space(c) && c != '?') return Malformed;
			if (!(h.item == "xml")) return Malformed;
			h.item.clear(); if (c == '?') return Done;
			h.st = Between; return More;
		case Between:
			if (space(c)) return More; if (c == '?') return Done; if (!letter(c)) return Malformed;
			h.item.push_back( (char)c); h.st = AttrName; return More;
		case AttrName:
			if (letter(c)) {h.item.push_back( (char)c); return More;}
			if (!space(c) && c != '=') return Malformed;
			if (h.item == "encoding") h.attr = aEncoding; else if (h.item == "version" || h.item == "standalone") h.attr = aOther; else return Malformed;
			h.item.clear(); h.st = c == '=' ? BeforeValue : BeforeEqual; return More;
		case BeforeEqual: if (space(c)) return More; if (c != '=') return Malformed; h.st = BeforeValue; return More;
		case BeforeValue: if (space(c)) return More; if (c == '\'') h.st = InSq; else if (c == '"') h.st = InDq; else return Malformed; return More;
		default:
			if (c != (h.st == InSq ? '\'' : '"')) {h.item.push_back( (char)c); return More;}
			if (h.attr == aEncoding) h.enc = h.item;
			h.item.clear(); h.st = Between; return More;
	}
}
}
#endif
