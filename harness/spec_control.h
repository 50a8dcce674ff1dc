// Specification of the control character classes (documented classes of ControlCharacter)
#ifndef SPEC_CONTROL_H
#define SPEC_CONTROL_H
namespace spec {
// ascii view a: -1 (not ASCII) or 0..127; returns the value of the enumeration ControlCharacter
static inline unsigned int control_class( int a)
{
	if (a < 0 || a > 127) return 0/*Undef*/;
	switch (a)
	{
		case 0: return 1/*EndOfText*/;
		case '\n': return 2/*EndOfLine*/;
		case '\t': case '\r': case ' ': return 4/*Space*/;
		case '&': return 5; case '<': return 6; case '=': return 7; case '>': return 8; case '/': return 9; case '-': return 10;
		case '!': return 11; case '?': return 12; case '\'': return 13; case '"': return 14; case '[': return 15; case ']': return 16;
		case 5: return 0/*Undef: pseudo end of text in the middle of a tag*/;
	}
	if (a < 32) return 3/*Cntrl*/;
	return 17/*Any*/;
}
}
#endif
