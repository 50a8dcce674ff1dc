// Specification of the diagnostic names (C21): every code with its name; used by the verifier harness and the native oracle.
// T(group, code, name)
#ifndef VERIF_SPEC_NAMES_H
#define VERIF_SPEC_NAMES_H
#define CAUSES(X) X(Unknown) X(DimOutOfRange) X(StateNumbersNotAscending) X(InvalidParamState) X(InvalidParamChar) X(DuplicateStateTransition) X(InvalidState) \
	X(IllegalParam) X(IllegalAttributeName) X(OutOfMem) X(ArrayBoundsReadWrite) X(NotAllowedOperation) X(FileReadError) X(IllegalXmlHeader) X(InvalidTagOffset) \
	X(CorruptTagStack) X(CodePageIndexNotSupported)
#define ELEMENTS(X) X(None) X(ErrorOccurred) X(HeaderStart) X(HeaderAttribName) X(HeaderAttribValue) X(HeaderEnd) X(DocAttribValue) X(DocAttribEnd) \
	X(TagAttribName) X(TagAttribValue) X(OpenTag) X(CloseTag) X(CloseTagIm) X(Content) X(Exit)
#define STATES(X) X(START) X(STARTTAG) X(XTAG) X(PITAG) X(PITAGEND) X(XTAGEND) X(XTAGDONE) X(XTAGAISK) X(XTAGANAM) X(XTAGAESK) X(XTAGAVSK) X(XTAGAVID) \
	X(XTAGAVSQ) X(XTAGAVDQ) X(XTAGAVQE) X(DOCSTART) X(CONTENT) X(TOKEN) X(SEEKTOK) X(XMLTAG) X(OPENTAG) X(CLOSETAG) X(TAGCLSK) X(TAGAISK) X(TAGANAM) \
	X(TAGAESK) X(TAGAVSK) X(TAGAVID) X(TAGAVSQ) X(TAGAVDQ) X(TAGAVQE) X(TAGCLIM) X(ENTITYSL) X(ENTITY) X(ENTITYE) X(ENTITYID) X(ENTITYSQ) X(ENTITYDQ) \
	X(ENTITYLC) X(COMDASH2) X(COMSEEKE) X(COMENDD2) X(COMENDCL) X(CDATA) X(CDATA1) X(CDATA2) X(CDATA3) X(EXIT)
#define ACTIONS(X) X(Return) X(ReturnWord) X(ReturnContent) X(ReturnIdentifier) X(ReturnSQString) X(ReturnDQString) X(ExpectIdentifierXML) X(ExpectIdentifierCDATA) X(ReturnEOF)
#define CONTROLS(X) X(Undef) X(EndOfText) X(EndOfLine) X(Cntrl) X(Space) X(Amp) X(Lt) X(Equal) X(Gt) X(Slash) X(Dash) X(Exclam) X(Questm) X(Sq) X(Dq) X(Osb) X(Csb) X(Any)
#define OPERATIONS(X) X(Content) X(OpenTag) X(CloseTag) X(Attribute) X(ThisAttributeValue) X(AttributeValue) X(ContentStart)
#define HDRSTATES(X) X(Init) X(ParseXmlOpen) X(ParseXmlHdr) X(FindAttributeName) X(ParseAttributeName) X(FindAttributeAssign) X(FindAttributeValue) X(ParseAttributeValueSq) X(ParseAttributeValueDq)
#define ERRORS(X) X(ErrIllegalDocumentAttributeDef,"illegal document attribute definition") X(ErrExpectedOpenTag,"expected open tag") \
	X(ErrExpectedXMLTag,"expected XML tag") X(ErrUnexpectedEndOfText,"unexpected end of text") X(ErrSyntaxToken,"syntax token") \
	X(ErrStringNotTerminated,"string not terminated") X(ErrUndefinedCharacterEntity,"undefined character entity") X(ErrExpectedTagEnd,"expected tag end") \
	X(ErrExpectedEqual,"expected equal") X(ErrExpectedTagAttribute,"expected tag attribute") X(ErrExpectedCDATATag,"expected CDATA tag") \
	X(ErrInternal,"internal (illegal state)") X(ErrUnexpectedEndOfInput,"unexpected end of input") X(ErrExpectedEndOfLine,"expected end of line") \
	X(ErrExpectedDash2,"expected 2nd '-' to complete marker for start of comment '<!--'")
#endif
