#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the text of the properties lives here, one call per property)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":["include/textwolf/"+f for f in files],
        "state":[{"name":a,"meaning":b,"where":"include/textwolf/"+c} for a,b,c in state],
        "mechanism":[{"name":a,"where":"include/textwolf/"+b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":hook}})

p("C01","Unicode encodings round-trip exactly",
 "For each of UTF-8, UTF-16LE/BE, UCS-2LE/BE and UCS-4LE/BE and every code point the encoding can represent (UTF-8 and UCS-4: all of U+0000..U+10FFFF and the historic extension up to 7FFFFFFF resp. FFFFFFFF; UTF-16: U+0000..U+10FFFF without surrogates; UCS-2: U+0000..U+FFFF), printing the character appends exactly the byte sequence the standard prescribes and nothing else. Decoding these bytes yields the same code point and consumes exactly these bytes.",
 ["inputs"],"every code point of every encoding, and every byte that precedes or follows it",
 "The tests encode and decode a few thousand sampled characters per encoding; length boundaries and surrogate arithmetic must be right for all 2^31 values.",
 ["charset_utf8.hpp","charset_ucs.hpp","charset_utf16.hpp"],
 [("UTF8::print/value/size","charset_utf8.hpp"),("UCS2,UCS4 print/value","charset_ucs.hpp"),("UTF16::print/value_impl","charset_utf16.hpp")])

p("C02","Decoders are total, bounded and detect malformed sequences",
 "On arbitrary input bytes, decoding or skipping one character never touches more than its 8-byte character buffer, and both consume the same number of bytes: the number announced by the first unit of the character (UTF-8: by the lead byte, a stray continuation byte counting as one; UTF-16: 4 after a lead in D800..DBFF, else 2; UCS-2: 2; UCS-4: 4; ISO-8859: 1). A UTF-8 sequence with a byte that is not a continuation byte where one is required (or a stray continuation byte as lead) decodes to the replacement value 7FFFFFFF, and a UTF-16 lead surrogate unit that is not followed by a unit in DC00..DFFF decodes to FFFF. The ASCII view of a character is the character itself when its code is at most 127 and 'not ASCII' (-1) otherwise.",
 ["inputs"],"all byte strings, for every encoding",
 "Tests feed only well-formed encoder output.",
 ["charset_utf8.hpp","charset_ucs.hpp","charset_utf16.hpp","charset_isolatin.hpp","textscanner.hpp"],
 [("charLengthTab, continuation test","charset_utf8.hpp"),("size/value_impl","charset_utf16.hpp")],
 [("buf/state","current character bytes and how many are fetched","textscanner.hpp")])

p("C03","Text scanner views of the current character agree",
 "At any point the text scanner stands on one character of the input: its code point, ASCII view, control-character class and a direct copy of it always describe that same character, no matter in which order and how often they are queried. Skipping moves to exactly the next character, whatever was queried before; the reported position is always the source offset of the first byte of the current character.",
 ["inputs","histories"],"every encoding, every input and every sequence of queries and skips",
 "Tests always use one fixed order of calls per character.",
 ["textscanner.hpp"],[("TextScanner::chr/ascii/control/skip/copychar/getPosition","textscanner.hpp")],
 [("val,cur,state,buf","cached views of the current character","textscanner.hpp")])

p("C04","Text scanning can be interrupted at any byte and resumed",
 "If the source reports the end of the current chunk while the text scanner is fetching or skipping a character of well-formed text, no byte is lost or duplicated: after the next chunk was attached, repeating the interrupted operation yields exactly what it would have yielded on the unsplit input.",
 ["inputs","schedules"],"every well-formed text in every encoding, every way to cut it into chunks",
 "Tests cut at a few fixed chunk sizes and with one call order.",
 ["textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","sourceiterator.hpp"],
 [("bufpos as resumption state","charset_utf8.hpp"),("SrcIterator::operator*","sourceiterator.hpp")],
 [("state","bytes of the current character already fetched","textscanner.hpp")])

p("C05","ISO-8859 code pages map as the standard says, both ways",
 "For each supported ISO-8859 part (1,2,3,4,9,10,13,14,15 of index 1..9), every byte decodes to the Unicode character the standard assigns (a byte the standard leaves unassigned decodes to U+FFFD), and printing a character the code page contains yields exactly its single byte. A character that the code page does not contain is never printed as a raw byte; requesting an unsupported code page index is rejected.",
 ["inputs","configurations"],"all 256 bytes and all 2^32 character codes for each code page",
 "Tests decode and encode samples of some of the pages only with themselves as oracle.",
 ["charset_isolatin.hpp","codepages.hpp"],[("IsoLatinCodePage::ucharcode/invcode, tables","codepages.hpp"),("IsoLatin::print","charset_isolatin.hpp")])

p("C06","Characters an encoding cannot represent become numeric references",
 "Printing a code point that the target encoding cannot represent (ISO-8859: not in the page; UCS-2: above FFFF; UTF-16: surrogates' lead range D800..DBFF and above 10FFFF; UTF-8: above 7FFFFFFF) emits the XML reference '&#x' hexdigits ';' in that encoding, denoting exactly this code point. The function producing such a reference writes at most the given buffer size including the terminating zero and returns false exactly if it did not fit.",
 ["inputs","configurations"],"every code point, every encoding, every buffer size",
 "Tests hardly print unrepresentable characters.",
 ["charset_interface.hpp","charset_isolatin.hpp","charset_ucs.hpp","charset_utf16.hpp","charset_utf8.hpp"],
 [("Encoder::encode","charset_interface.hpp")])

p("C07","Scanner element stream follows the documented XML grammar",
 "For every character sequence the XML scanner delivers the sequence of elements (header start, header attributes, header end, document attributes, open/close/immediate-close tags, tag attribute names and values, content, exit or error) that its documented grammar assigns to it: comments, processing instructions, CDATA sections and DOCTYPE internal subsets produce no element and end at the first '-->', '?>', ']]>' or ']' respectively, and white space around attributes, '=' and tag ends is insignificant. Character sequences outside the grammar end in an error with the code that names the missing construct.",
 ["inputs"],"all documents of any length in any supported input encoding",
 "The tests scan about a dozen generated documents; the state machine has 48 states x 18 character classes.",
 ["xmlscanner.hpp"],[("Statemachine","xmlscanner.hpp"),("XMLScanner::nextItem","xmlscanner.hpp")],
 [("state","state of the element state machine","xmlscanner.hpp"),("tokstate","token parser state","xmlscanner.hpp")])

p("C08","Element text is the source text with references resolved",
 "The text delivered with an element is exactly its source characters transcoded to the output encoding, with CR LF and CR replaced by LF, numeric references (decimal or hexadecimal, up to 15 digits with a value up to FFFFFFFF) replaced by the character they denote, the named references quot, amp, apos, lt, gt, nbsp and the user defined entities (names up to 15 characters) replaced by their character; nbsp stands for a plain space. A sequence starting with '&' that does not form such a reference is passed through literally, except that a well-formed named reference with unknown or empty name is an error.",
 ["inputs","configurations"],"all texts, all entity maps, all pairs of input/output encodings",
 "Tests use few entities, no malformed ones, and no user defined entity at all.",
 ["xmlscanner.hpp"],[("parseToken, parseEntity, fallbackEntity, pushEntity","xmlscanner.hpp")],
 [("tokstate.buf/pos/base/value","entity parsed so far","xmlscanner.hpp")])

p("C09","XML scanning is independent of how the input is cut into chunks",
 "If the input is fed in chunks and scanning is suspended whenever a chunk is exhausted and resumed with the next one, the sequence of elements with their texts and error codes is the same as for the unsplit input, for every way to cut the input including inside an encoded character, a reference, a keyword or a line break. This includes resuming on a copy taken of the suspended scanner.",
 ["inputs","schedules"],"all documents of well-formed characters, all cut positions",
 "Tests use a few chunk sizes on a few documents.",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp"],[("TokState, parseTokenRecover, expectStr","xmlscanner.hpp")],
 [("tokstate","resumption point in a token","xmlscanner.hpp")])

p("C10","Scanning always ends, and unterminated constructs are errors",
 "Every call for the next element consumes only input up to and including the first end-of-text character and returns; repeated calls reach the exit element or an error after finitely many calls, bounded by the length of the input. A document that ends inside a tag, an attribute, a quoted string, a processing instruction, a comment, a CDATA section, a document type definition or the XML header yields an error, never the exit element, and after the exit element every further call yields exit again.",
 ["inputs","histories"],"all inputs terminated by the end-of-text character",
 "Tests scan complete documents only.",
 ["xmlscanner.hpp"],[("Statemachine transitions on EndOfText","xmlscanner.hpp")])

p("C11","Masking out element texts does not change the elements",
 "Suppressing the text of selected element types by mask changes nothing but the availability of the text of these elements: the sequence of element types and the text of all elements not masked out is the same as without mask, for every document that scans without undefined-entity error.",
 ["inputs","configurations"],"all documents and all 65536 masks, changing from call to call",
 "The tests use only the default mask (and one other).",
 ["xmlscanner.hpp"],[("skipToken vs parseToken","xmlscanner.hpp")])

p("C12","Reported token positions point at the token in the source",
 "After an element with text was delivered (not masked out), the token position is the byte offset in the source (of the chunk current when the token began) of the first character of that text; for elements without text other than the header start it is the offset at which the element was recognised. The token position never exceeds the scanner position.",
 ["inputs"],"all documents, every element",
 "Positions are hardly checked by the tests.",
 ["xmlscanner.hpp","textscanner.hpp"],[("m_tokenpos","xmlscanner.hpp"),("TextScanner::getPosition","textscanner.hpp")])

p("C13","Printed values survive escaping and re-scanning",
 "Every tag attribute value printed by the XML printer is one double-quoted string in the output that contains no raw '<', '>' or '\"' and no raw '&' other than the start of a reference, and every printed content contains no raw '<', '>' or '&' other than the start of a reference; resolving the references gives back exactly the printed characters. This holds for every text of valid non-zero characters in every supported encoding pair, including control characters and characters the output encoding cannot represent.",
 ["inputs","configurations"],"all texts and all encoding pairs",
 "Tests print a handful of texts.",
 ["xmlprinter.hpp","xmlscanner.hpp"],[("printToBuffer, printEsc","xmlprinter.hpp")])

p("C14","Printer produces balanced, well-formed markup or refuses",
 "For every sequence of printer calls, each call either appends the markup it stands for, with the tag just closed always being the innermost open one, or returns false and leaves the output as it was; calls that would break well-formedness are refused: closing without open tag, a value before an attribute name, a second attribute, content or tag directly after an attribute name without value, an attribute outside of a tag, header or DOCTYPE once the document has started, a second XML header, a DOCTYPE inside a tag or an element; every refused call leaves an error message. Names are given non-empty and for the header and DOCTYPE the application encoding is ASCII compatible.",
 ["histories","inputs"],"all sequences of printer operations with any arguments",
 "Tests run one fixed good sequence.",
 ["xmlprinter.hpp","xmltagstack.hpp"],[("XMLPrinter state, exitTagContext","xmlprinter.hpp")],
 [("m_state","position in the document","xmlprinter.hpp"),("m_tagstack","open tags","xmltagstack.hpp")])

p("C15","Tag stack is a faithful LIFO of byte strings",
 "For every sequence of push, top, pop and empty, the tag stack returns exactly the pushed byte strings in last-in-first-out order, for strings of any content and length (including empty ones and ones with zero bytes); top and pop on an empty stack fail without effect. Copies and assigned stacks are independent of the original.",
 ["histories","inputs"],"all sequences of operations, all string lengths",
 "Tests only use it indirectly with shallow nesting.",
 ["xmltagstack.hpp"],[("TagStack::push/top/pop","xmltagstack.hpp")],
 [("m_ptr,m_pos,m_size","stack memory, fill, capacity","xmltagstack.hpp")])

p("C16","Fixed-size buffers never write beyond their memory",
 "A static buffer of n bytes holds after any sequence of operations exactly the first bytes that were appended, up to n of them, reports overflow if and only if something did not fit since the last clear, and never reads or writes outside its n bytes. Indexed access (operator[] and at) is granted exactly for indices below the current size and throws otherwise; resizing is limited to n bytes and fills new bytes with the given value.",
 ["histories","inputs"],"all buffer sizes, all operation sequences, all arguments",
 "No test reaches the overflow paths.",
 ["staticbuffer.hpp"],[("StaticBuffer","staticbuffer.hpp")],
 [("m_pos,m_size,m_overflow,m_ar","fill, capacity, overflow flag, memory","staticbuffer.hpp")])

p("C17","Source iterators deliver exactly the source bytes, then zeros",
 "Each source iterator (string, memory chunk, stream) delivers the bytes of its source in order, each exactly once, independent of block boundaries, and thereafter reports end of data: zero bytes for ever for strings, final chunks and streams, the registered end-of-chunk jump or exception for non-final chunks. The position reported is the number of increments since the start (of the chunk); copies advance independently.",
 ["inputs","histories"],"all sources of any length, all sequences of reads, increments and copies",
 "Tests read one stream and a few chunks.",
 ["cstringiterator.hpp","istreamiterator.hpp","sourceiterator.hpp"],
 [("CStringIterator","cstringiterator.hpp"),("IStreamIterator::fill","istreamiterator.hpp"),("SrcIterator","sourceiterator.hpp")])

p("C18","XML header parser finds the encoding in any chunking",
 "For every document header '<?xml ... ?>' (up to its terminating '?', in which a malformation is to be detected) in an ASCII compatible or zero padded (UTF-16/UCS-2/UCS-4 of either byte order) encoding, the header parser reports the value of the encoding attribute (none if there is no encoding attribute), after having consumed the header completely; feeding the header in pieces of any size gives the same result as feeding it at once. A malformed header is reported as error and never as success.",
 ["inputs","schedules"],"all headers, all encodings, all ways to cut the input",
 "Tests never use it in pieces and with one attribute order.",
 ["xmlhdrparser.hpp"],[("XmlHdrParser::parse","xmlhdrparser.hpp")],
 [("m_state,m_idx,m_item,m_attributename","parser state","xmlhdrparser.hpp")])

p("C19","Path selection reports exactly the matching elements",
 "For every document and every set of path expressions defined with the builder, an expression's event is reported with an element exactly if the element's position in the tag hierarchy, its type and the attribute conditions satisfy the expression: once for every way the path matches, with the element that completes it, in document order, no matter what other expressions are defined, how the result iterator is copied or incremented, or if the selector is copied between elements. An index range on the content or attribute value reported holds for the values found for one match of the preceding steps, all ranges given apply. Names and values of any length are compared completely, character references in them replaced; a name that cannot be one is refused.",
 ["inputs","programs"],"all documents and all automata",
 "Tests run a few dozen fixed pairs.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("XMLPathSelect","xmlpathselect.hpp")],
 [("context","active tokens, triggers and scopes","xmlpathselect.hpp")])

p("C20","Path expressions parse to the automaton they denote",
 "Every path expression in the abbreviated syntax - steps separated by '/' or '//', names, '*' or alternatives '{a,b}' for tags and (after '@') attributes, index ranges '[i]', '[i,]', '[i,j]', attribute conditions '[@name=value]', '()' for content and '~' for the closing tag, with blanks between tokens - is compiled to the same automaton as the equivalent sequence of builder calls, an alternative standing for one path per name, in every source and automaton encoding. Any other text is rejected with the position (one-based, in bytes) of the first character that cannot continue an expression, or of a namespace separator '::' outside of quotes, and no event is defined for it.",
 ["inputs","programs"],"all expressions",
 "Tests parse a few dozen fixed expressions.",
 ["xmlpathautomatonparse.hpp"],[("XMLPathSelectAutomatonParser::addExpression","xmlpathautomatonparse.hpp")])

p("C21","Every diagnostic code has its own right name",
 "Each exception cause, scanner error code, element type, scanner state and action, control character class, path automaton operation (also as seek operation of a mask) and header parser state has a printable non-empty name (the error code for 'no error' has none), and it is the name of that very code. The element iterator reports the error message of the current error exactly when the current element is an error, and element types otherwise.",
 ["inputs"],"all codes of all enumerations, all error situations",
 "Tests print at most a few of them.",
 ["exception.hpp","xmlscanner.hpp","char.hpp","xmlpathautomaton.hpp","xmlhdrparser.hpp"],[("exception::what, getErrorString, getElementTypeName, getStateString","exception.hpp")])

p("C22","Stream output writes exactly what is appended",
 "Output redirected to a std::ostream consists of exactly the characters appended, in order, each once, whatever their values and however they are passed (single or as array of any length, zero bytes included), behind what the stream already holds; copies of the output write to the same stream and an assigned output to the stream of its original. A document printed to a stream is the same as printed to a string. The stream has no pending field width.",
 ["inputs","histories"],"every sequence of characters and arrays, every stream",
 "No test uses the stream output at all.",
 ["ostreamoutput.hpp"],[("OstreamOutput::push_back/append","ostreamoutput.hpp")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
