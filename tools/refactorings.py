#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo on which the checks have to stay quiet.
usage: refactorings.py [name[:check,check]...]   (scratch copies under /tmp/rf; never touches /repo)"""
import os, shutil, subprocess, sys, time
H = 'include/textwolf/'
R = {}
def R_(name, checks, *edits): R[name] = (checks.split(), edits)

# ---- scanner ---------------------------------------------------------------
R_('token-helper', 'C07 C08 C09 C11', ('xmlscanner.hpp',
"""				unsigned char aa = m_src.ascii();
				if (aa <= 0xD)
				{
					//handling W3C requirements for end of line translation in XML:
					if (aa == '\\r')
					{
						push( (unsigned char)'\\n');
						tokstate.eolnState = TokState::CR;
					}
					else if (aa == '\\n')
					{
						if (tokstate.eolnState != TokState::CR)
						{
							push( (unsigned char)'\\n');
						}
						tokstate.eolnState = TokState::SRC;
					}
					else
					{
						copychar();
						tokstate.eolnState = TokState::SRC;
					}
				}
				else
				{
					copychar();
					tokstate.eolnState = TokState::SRC;
				}
				m_src.skip();
""",
"""				pushTokenChar( m_src.ascii());
				m_src.skip();
"""), ('xmlscanner.hpp',
"""	/// \\brief Parse a token defined by the set of valid token characters
	/// \\param [in] isTok set of valid token characters
	/// \\return true on success
	bool parseToken(""",
"""	/// \\brief Print one token character with the W3C end of line translation
	void pushTokenChar( unsigned char aa)
	{
		switch (aa)
		{
			case '\\r':
				push( (unsigned char)'\\n');
				tokstate.eolnState = TokState::CR;
				return;
			case '\\n':
				if (tokstate.eolnState != TokState::CR)
				{
					push( (unsigned char)'\\n');
				}
				break;
			default:
				copychar();
				break;
		}
		tokstate.eolnState = TokState::SRC;
	}

	/// \\brief Parse a token defined by the set of valid token characters
	/// \\param [in] isTok set of valid token characters
	/// \\return true on success
	bool parseToken("""))
R_('numeric-loop', 'C08 C09 C07', ('xmlscanner.hpp',
"""		while (tokstate.pos < sizeof(tokstate.buf))
		{
			ch = m_src.ascii();
			if (ch == ';')
			{
				if (tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
				{
					fallbackEntity();
					return true;
				}
				push( (UChar)tokstate.value);
				tokstate.init( TokState::ParsingToken);
				m_src.skip();
				return true;
			}
			else
			{
				unsigned char chval = HEX(ch);
				if (chval >= tokstate.base)
				{
					fallbackEntity();
					return true;
				}
				tokstate.buf[ tokstate.pos++] = ch;
				tokstate.value = tokstate.value * tokstate.base + chval;
				m_src.skip();
			}
		}
		fallbackEntity();
		return true;
""",
"""		for (; tokstate.pos < sizeof(tokstate.buf); m_src.skip())
		{
			ch = m_src.ascii();
			if (ch == ';')
			{
				if (tokstate.pos != 0 && tokstate.value <= 0xFFFFFFFF)
				{
					push( (UChar)tokstate.value);
					tokstate.init( TokState::ParsingToken);
					m_src.skip();
					return true;
				}
				break;
			}
			unsigned char chval = HEX(ch);
			if (chval >= tokstate.base) break;
			tokstate.value = tokstate.value * tokstate.base + chval;
			tokstate.buf[ tokstate.pos] = ch;
			++tokstate.pos;
		}
		fallbackEntity();
		return true;
"""))
R_('named-loop', 'C08 C09', ('xmlscanner.hpp',
"""		ch = m_src.ascii();
		while (tokstate.pos < sizeof(tokstate.buf)-1 && ch != ';' && m_src.control() == Any)
		{
			tokstate.buf[ tokstate.pos] = ch;
			m_src.skip();
			tokstate.pos++;
			ch = m_src.ascii();
		}
		if (ch == ';')
""",
"""		for (;;)
		{
			ch = m_src.ascii();
			if (ch == ';') break;
			if (tokstate.pos >= sizeof(tokstate.buf)-1) break;
			if (m_src.control() != Any) break;
			tokstate.buf[ tokstate.pos] = ch;
			m_src.skip();
			++tokstate.pos;
		}
		if (ch == ';')
"""))
R_('next-item', 'C07 C10 C11 C12', ('xmlscanner.hpp',
"""			if (sd->next[ ch] != -1)
			{
				state = (STMState)sd->next[ ch];
				m_src.skip();
			}
			else if (sd->fallbackState != -1)
			{
				state = (STMState)sd->fallbackState;
			}
			else if (sd->missError != -1)
			{
				error = (Error)sd->missError;
				return ErrorOccurred;
			}
			else if (ch == EndOfText)
			{
				error = ErrUnexpectedEndOfText;
				return ErrorOccurred;
			}
			else
			{
				error = ErrInternal;
				return ErrorOccurred;
			}
""",
"""			if (!doTransition( sd, ch)) return ErrorOccurred;
"""), ('xmlscanner.hpp',
"""	/// \\class End
	/// \\brief end of input tag
""",
"""private:
	/// \\brief Follow the transition for a control character
	/// \\return false on error
	bool doTransition( const ScannerStatemachine::Element* sd, ControlCharacter ch)
	{
		int nextstate = sd->next[ ch];
		if (nextstate != -1)
		{
			state = (STMState)nextstate;
			m_src.skip();
			return true;
		}
		if (sd->fallbackState != -1)
		{
			state = (STMState)sd->fallbackState;
			return true;
		}
		if (sd->missError != -1)
		{
			error = (Error)sd->missError;
		}
		else
		{
			error = (ch == EndOfText) ? ErrUnexpectedEndOfText : ErrInternal;
		}
		return false;
	}

public:
	/// \\class End
	/// \\brief end of input tag
"""))
R_('next-item2', 'C07 C09 C11 C12', ('xmlscanner.hpp',
"""						if ((mask&(1<<sd->action.arg)) != 0)
						{
							if (!parseToken( *tokenDefs[ sd->action.op])) return ErrorOccurred;
						}
						else
						{
							if (!skipToken( *tokenDefs[ sd->action.op])) return ErrorOccurred;
						}
""",
"""						const IsTokenCharMap& tokenDef = *tokenDefs[ sd->action.op];
						bool masked = (mask&(1<<sd->action.arg)) == 0;
						bool success = masked ? skipToken( tokenDef) : parseToken( tokenDef);
						if (!success) return ErrorOccurred;
"""), ('xmlscanner.hpp',
"""		do
		{
			ControlCharacter ch;
			while (isTok[ (unsigned char)(ch=m_src.control())] || ch == Amp)
			{
				m_src.skip();
			}
		}
		while (m_src.control() == Any);
		return true;
""",
"""		for (;;)
		{
			ControlCharacter ch = m_src.control();
			if (!isTok[ (unsigned char)ch] && ch != Amp && ch != Any) break;
			m_src.skip();
		}
		return true;
"""))
R_('expect-str', 'C07 C09', ('xmlscanner.hpp',
"""		bool rt = true;
		tokstate.id = TokState::ParsingKey;
		for (; str[tokstate.pos] != '\\0'; m_src.skip(),tokstate.pos++)
		{
			if (m_src.ascii() == str[ tokstate.pos]) continue;
			ControlCharacter ch = m_src.control();
			if (ch == EndOfText)
			{
				error = ErrUnexpectedEndOfText;
			}
			else
			{
				error = ErrSyntaxToken;
			}
			rt = false;
			break;
		}
		tokstate.init( TokState::ParsingDone);
		return rt;
""",
"""		tokstate.id = TokState::ParsingKey;
		while (str[tokstate.pos] != '\\0')
		{
			if (m_src.ascii() != str[ tokstate.pos])
			{
				error = (m_src.control() == EndOfText) ? ErrUnexpectedEndOfText : ErrSyntaxToken;
				tokstate.init( TokState::ParsingDone);
				return false;
			}
			m_src.skip();
			++tokstate.pos;
		}
		tokstate.init( TokState::ParsingDone);
		return true;
"""))
R_('predefined', 'C07 C08', ('xmlscanner.hpp',
"""		switch (str[0])
		{
			case 'q':
				if (str[1] == 'u' && str[2] == 'o' && str[3] == 't' && str[4] == '\\0')
				{
					push( '\\"');
					return true;
				}
				break;
""",
"""		if (std::strcmp( str, "quot") == 0)
		{
			push( '\\"');
			return true;
		}
		switch (str[0])
		{
"""))
R_('textscanner', 'C03 C04 C07 C09 C17', ('textscanner.hpp',
"""		if (val == 0)
		{
			val = charset.value( buf, state, input);
		}
		return val;
""",
"""		if (val != 0) return val;
		return val = charset.value( buf, state, input);
"""), ('textscanner.hpp',
"""		getcur();
		return cur>=0?(unsigned char)cur:0;
""",
"""		getcur();
		if (cur < 0) return 0;
		return (unsigned char)cur;
"""), ('textscanner.hpp',
"""		CharSet::skip( buf, state, input);
		state = 0;
		cur = 0;
		val = 0;
		return *this;
""",
"""		CharSet::skip( buf, state, input);
		val = 0;
		cur = 0;
		state = 0;
		return *this;
"""), ('textscanner.hpp',
"""			('\\t',Space)
			('\\r',Space)
			('\\n',EndOfLine)
			(' ',Space)
			('&',Amp)
""",
"""			('&',Amp)
			(' ',Space)
			('\\n',EndOfLine)
			('\\r',Space)
			('\\t',Space)
"""))
# ---- charsets --------------------------------------------------------------
R_('utf8', 'C01 C02 C03 C04 C09', ('charset_utf8.hpp',
"""		UChar res = (unsigned char)buf[0];
		if (res > 127)
		{
			int gg = bufpos-2;
			if (gg < 0) return MaxChar;

			res = ((unsigned char)buf[0])&(B00011111>>gg);
			for (int ii=0; ii<=gg; ii++)
			{
				unsigned char xx = (unsigned char)buf[ii+1];
				res = (res<<6) | (xx & B00111111);
				if ((unsigned char)(xx & B11000000) != B10000000)
				{
					return MaxChar;
				}
			}
		}
		return res;
""",
"""		UChar res = (unsigned char)buf[0];
		if (res <= 127) return res;
		if (bufpos < 2) return MaxChar;

		res &= (B00011111>>(bufpos-2));
		for (unsigned int ii=1; ii<bufpos; ++ii)
		{
			if (!isFollowByte( buf[ii])) return MaxChar;
			res = (res<<6) | ((unsigned char)buf[ii] & B00111111);
		}
		return res;
"""), ('charset_utf8.hpp',
"""	/// \\brief See template<class Iterator>Interface::skip(""",
"""	static bool isFollowByte( char ch)
	{
		return ((unsigned char)ch & B11000000) == B10000000;
	}

	/// \\brief See template<class Iterator>Interface::skip("""), ('charset_utf8.hpp',
"""		if (bufpos==0)
		{
			buf[0] = *itr;
			++itr;
			++bufpos;
		}
		unsigned int bufsize = size( buf, bufpos, itr);
		for (;bufpos < bufsize; ++bufpos)
		{
			buf[ bufpos] = *itr;
			++itr;
		}
""",
"""		unsigned int bufsize = size( buf, bufpos, itr);
		while (bufpos < bufsize)
		{
			buf[ bufpos] = *itr;
			++itr;
			++bufpos;
		}
"""), ('charset_utf8.hpp',
"""		unsigned int pp,sf;
		for (pp=1,sf=5; pp<5; pp++,sf+=5)
		{
			if (chr < (unsigned int)((1<<6)<<sf)) break;
		}
		rt = pp+1;
""",
"""		unsigned int pp = 1;
		unsigned int limit = (1<<11);
		while (pp < 5 && chr >= limit)
		{
			limit <<= 5;
			++pp;
		}
		rt = pp+1;
"""))
R_('utf16', 'C01 C02 C03 C04 C06 C09', ('charset_utf16.hpp',
"""			while (bufpos < bufsize)
			{
				buf[bufpos] = *itr;
				++itr;
				++bufpos;
			}
			rt -= 0xD800;
			rt *= 0x400;
			unsigned short lo = (unsigned char)buf[ 2+MSB];
			if (lo < 0xDC || lo > 0xDF) return 0xFFFF;
			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
			return rt + lo - 0xDC00 + 0x010000;
""",
"""			fetchbytes( buf, bufpos, itr);
			unsigned int lo = ((unsigned int)(unsigned char)buf[ 2+MSB] << 8) | (unsigned char)buf[ 2+LSB];
			if ((lo & 0xFC00) != 0xDC00) return 0xFFFF;
			return (((rt & 0x3FF) << 10) | (lo & 0x3FF)) + 0x010000;
"""), ('charset_utf16.hpp',
"""		if (ch <= 0xFFFF)
		{
			if ((ch - 0xD800) < 0x400)
			{
				//... reserved for encoding of characters in range [0xFFFF..0x10FFFF]
			}
			else
			{
				buf.push_back( (char)(unsigned char)((ch >> Print1shift) & 0xFF));
				buf.push_back( (char)(unsigned char)((ch >> Print2shift) & 0xFF));
				return;
			}
		}
		else if (ch <= 0x10FFFF)
		{
			ch -= 0x10000;
			unsigned short hi = (unsigned short )((ch / 0x400) + 0xD800);
			unsigned short lo = (unsigned short )((ch % 0x400) + 0xDC00);
			buf.push_back( (char)(unsigned char)((hi >> Print1shift) & 0xFF));
			buf.push_back( (char)(unsigned char)((hi >> Print2shift) & 0xFF));
			buf.push_back( (char)(unsigned char)((lo >> Print1shift) & 0xFF));
			buf.push_back( (char)(unsigned char)((lo >> Print2shift) & 0xFF));
			return;
		}
		char tb[ 32];
		char* cc = tb;
		Encoder::encode( ch, tb, sizeof(tb));
		while (*cc)
		{
			buf.push_back( (char)(unsigned char)(((UChar)*cc >> Print1shift) & 0xFF));
			buf.push_back( (char)(unsigned char)(((UChar)*cc >> Print2shift) & 0xFF));
			++cc;
		}
	}
""",
"""		if (ch > 0x10FFFF || (ch >= 0xD800 && ch <= 0xDBFF))
		{
			char tb[ 32];
			Encoder::encode( ch, tb, sizeof(tb));
			for (const char* cc = tb; *cc; ++cc) printUnit( (UChar)*cc, buf);
		}
		else if (ch <= 0xFFFF)
		{
			printUnit( ch, buf);
		}
		else
		{
			ch -= 0x10000;
			printUnit( (ch >> 10) + 0xD800, buf);
			printUnit( (ch & 0x3FF) + 0xDC00, buf);
		}
	}

	template <class Buffer_>
	static void printUnit( UChar ch, Buffer_& buf)
	{
		buf.push_back( (char)(unsigned char)((ch >> Print1shift) & 0xFF));
		buf.push_back( (char)(unsigned char)((ch >> Print2shift) & 0xFF));
	}
"""))
R_('ucs', 'C01 C02 C03 C06', ('charset_ucs.hpp',
"""		for (;bufpos < 4; ++bufpos)
		{
			buf[ bufpos] = *itr;
			++itr;
		}
""",
"""		while (bufpos < 4)
		{
			buf[ bufpos] = *itr;
			++itr;
			++bufpos;
		}
"""), ('charset_ucs.hpp',
"""		UChar res = (unsigned char)buf[B3];
		res = (res << 8) + (unsigned char)buf[B2];
		res = (res << 8) + (unsigned char)buf[B1];
		return (res << 8) + (unsigned char)buf[B0];
""",
"""		return	((UChar)(unsigned char)buf[B3] << 24)
		|	((UChar)(unsigned char)buf[B2] << 16)
		|	((UChar)(unsigned char)buf[B1] << 8)
		|	(UChar)(unsigned char)buf[B0];
"""))
R_('codepage', 'C01 C05 C06', ('codepages.hpp',
"""		char rt = 0;
		if (ch <= 128) return (char)ch;
		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
		if (rt == 0)
		{
			if (ch > 0xFFFF) return 0;
			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
			if (fi == m_invovlcd->end()) return 0;
			rt = fi->second;
		}
		return rt;
""",
"""		if (ch <= 128) return (char)ch;
		if (ch > 0xFFFF) return 0;
		if (ch <= 255)
		{
			char rt = (char)(unsigned char)m_invcd[ ch - 128];
			if (rt != 0) return rt;
		}
		std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
		return (fi == m_invovlcd->end()) ? 0 : (char)fi->second;
"""))
# ---- printer ---------------------------------------------------------------
R_('printer-text', 'C13 C14', ('xmlprinter.hpp',
"""		UChar ch;
		while ((ch = ts.chr()) != 0)
		{
			m_output.print( ch, buf);
			++ts;
		}
""",
"""		for (UChar ch = ts.chr(); ch != 0; ch = ts.chr())
		{
			m_output.print( ch, buf);
			ts.skip();
		}
"""), ('xmlprinter.hpp',
"""		const char* cc = (const char*)memchr( echr, ch, nof_echr);
		if (cc)
		{
			unsigned int ii = 0;
			const char* tt = estr[ cc-echr];
			while (tt[ii]) m_output.print( tt[ii++], buf);
		}
		else
		{
			m_output.print( ch, buf);
		}
""",
"""		for (unsigned int ei = 0; ei < nof_echr; ++ei)
		{
			if (echr[ ei] == ch)
			{
				for (const char* tt = estr[ ei]; *tt; ++tt) m_output.print( *tt, buf);
				return;
			}
		}
		m_output.print( ch, buf);
"""))
R_('printer-doc', 'C13 C14', ('xmlprinter.hpp',
"""		if (standalone)
		{
			printToBuffer( "\\" standalone=\\"", 14, buf);
			printToBuffer( standalone, std::strlen(standalone), buf);
			printToBuffer( "\\"?>\\n", 4, buf);
		}
		else
		{
			printToBuffer( "\\"?>\\n", 4, buf);
		}
		m_state = Content;
		return true;
""",
"""		m_state = Content;
		if (standalone)
		{
			printToBuffer( "\\" standalone=\\"", 14, buf);
			printToBuffer( standalone, std::strlen(standalone), buf);
		}
		printToBuffer( "\\"?>\\n", 4, buf);
		return true;
"""), ('xmlprinter.hpp',
"""			if (publicid)
			{
				if (!systemid)
				{
					m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
					return false;
				}
				printToBuffer( "<!DOCTYPE ", 10, buf);
				printToBuffer( rootid, std::strlen( rootid), buf);
				printToBuffer( " PUBLIC \\"", 9, buf);
				printToBuffer( publicid, std::strlen( publicid), buf);
				printToBuffer( "\\" \\"", 3, buf);
				printToBuffer( systemid, std::strlen( systemid), buf);
				printToBuffer( "\\">", 2, buf);
			}
			else if (systemid)
			{
				printToBuffer( "<!DOCTYPE ", 10, buf);
				printToBuffer( rootid, std::strlen( rootid), buf);
				printToBuffer( " SYSTEM \\"", 9, buf);
				printToBuffer( systemid, std::strlen( systemid), buf);
				printToBuffer( "\\">", 2, buf);
			}
			else
			{
				printToBuffer( "<!DOCTYPE ", 11, buf);
				printToBuffer( rootid, std::strlen( rootid), buf);
				printToBuffer( ">", 2, buf);
			}
""",
"""			if (publicid && !systemid)
			{
				m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
				return false;
			}
			printToBuffer( "<!DOCTYPE ", 10, buf);
			printToBuffer( rootid, std::strlen( rootid), buf);
			if (publicid)
			{
				printToBuffer( " PUBLIC \\"", 9, buf);
				printToBuffer( publicid, std::strlen( publicid), buf);
				printToBuffer( "\\" \\"", 3, buf);
			}
			else if (systemid)
			{
				printToBuffer( " SYSTEM \\"", 9, buf);
			}
			if (systemid)
			{
				printToBuffer( systemid, std::strlen( systemid), buf);
				printToBuffer( '"', buf);
			}
			printToBuffer( '>', buf);
"""), ('xmlprinter.hpp',
"""		printToBuffer( '<', buf);
		printToBuffer( (const char*)src, srcsize, buf);

		m_tagstack.push( src, srcsize);
		m_state = TagElement;
""",
"""		m_tagstack.push( src, srcsize);
		printToBuffer( '<', buf);
		printToBuffer( (const char*)src, srcsize, buf);
		m_state = TagElement;
"""), ('xmlprinter.hpp',
"""		if (m_state == TagElement)
		{
			printToBuffer( ' ', buf);
			printToBuffer( (const char*)src, srcsize, buf);
			printToBuffer( '=', buf);
			m_state = TagAttribute;
			return true;
		}
		m_lasterror = "printing attribute outside of a tag or after an attribute without value";
		return false;
""",
"""		if (m_state != TagElement)
		{
			m_lasterror = "printing attribute outside of a tag or after an attribute without value";
			return false;
		}
		m_state = TagAttribute;
		printToBuffer( ' ', buf);
		printToBuffer( (const char*)src, srcsize, buf);
		printToBuffer( '=', buf);
		return true;
"""))
R_('exit-context', 'C14', ('xmlprinter.hpp',
"""		if (m_state != Content)
		{
			if (m_state == Init)
			{
				m_lasterror = "printed xml without root element";
				return false;
			}
			if (m_state == TagAttribute)
			{
				m_lasterror = "printed tag or content after an attribute without value";
				return false;
			}
			printToBuffer( '>', buf);
			m_state = Content;
		}
		return true;
""",
"""		switch (m_state)
		{
			case Init:
				m_lasterror = "printed xml without root element";
				return false;
			case TagAttribute:
				m_lasterror = "printed tag or content after an attribute without value";
				return false;
			case TagElement:
				printToBuffer( '>', buf);
				m_state = Content;
				break;
			case Content:
				break;
		}
		return true;
"""))
# ---- tag stack, buffers ----------------------------------------------------
R_('tagstack', 'C15', ('xmltagstack.hpp',
"""		if (m_pos + ofs > m_size)
		{
			std::size_t newsize = m_size;
			while (m_pos + ofs > newsize) newsize *= 2;
			if (m_pos + ofs > newsize) throw std::bad_alloc();
			if (nn > ofs) throw exception( InvalidTagOffset);
			char* xx = (char*)std::realloc( m_ptr, newsize);
			if (!xx) throw std::bad_alloc();
			m_ptr = xx;
			m_size = newsize;
		}
		std::memcpy( m_ptr + m_pos, pp, nn);
		m_pos += ofs;
		void* tt = m_ptr + m_pos - sizeof( std::size_t);
		*(std::size_t*)(tt) = nn;
""",
"""		if (nn > ofs) throw exception( InvalidTagOffset);
		reserve( m_pos + ofs);
		std::memcpy( m_ptr + m_pos, pp, nn);
		std::memcpy( m_ptr + m_pos + nn + align, &nn, sizeof( std::size_t));
		m_pos += ofs;
"""), ('xmltagstack.hpp',
"""	/// \\brief Get the topmost tag
""",
"""	void reserve( std::size_t needed)
	{
		if (needed <= m_size) return;
		std::size_t newsize = m_size;
		do
		{
			newsize <<= 1;
		}
		while (needed > newsize);
		char* xx = (char*)std::realloc( m_ptr, newsize);
		if (!xx) throw std::bad_alloc();
		m_ptr = xx;
		m_size = newsize;
	}

	/// \\brief Get the topmost tag
"""))
R_('staticbuffer', 'C16', ('staticbuffer.hpp',
"""		if (m_pos>n)
		{
			m_pos=n;
		}
		else
		{
			if (m_size<n) n=m_size;
			while (n>m_pos) push_back(c);
		}
""",
"""		if (n > m_size) n = m_size;
		if (n > m_pos) std::memset( m_ar + m_pos, c, n - m_pos);
		m_pos = n;
"""), ('staticbuffer.hpp',
"""		if (ccsize > m_size - m_pos)
		{
			m_overflow = true;
			ccsize = m_size - m_pos;
		}
		std::memcpy( m_ar+m_pos, cc, ccsize);
		m_pos += ccsize;
""",
"""		std::size_t space = m_size - m_pos;
		std::size_t nn = ccsize;
		if (nn > space)
		{
			nn = space;
			m_overflow = true;
		}
		for (std::size_t ii=0; ii<nn; ++ii) m_ar[ m_pos + ii] = cc[ ii];
		m_pos += nn;
"""))
R_('istream', 'C17', ('istreamiterator.hpp',
"""		if (m_readpos+1 >= m_readsize)
		{
			if (m_readpos >= m_readsize) ++m_abspos;
			fillbuf();
		}
		else
		{
			++m_readpos;
		}
		return *this;
""",
"""		if (m_readpos+1 < m_readsize)
		{
			++m_readpos;
			return *this;
		}
		bool atEnd = (m_readpos >= m_readsize);
		if (atEnd) ++m_abspos;
		fillbuf();
		return *this;
"""), ('istreamiterator.hpp',
"""		m_abspos += m_readsize;
		m_readsize = 0;
		m_readpos = 0;
		if (!m_input) return false;
""",
"""		m_abspos += m_readsize;
		m_readpos = 0;
		m_readsize = 0;
		if (m_input == NULL) return false;
"""))
# ---- header parser ---------------------------------------------------------
R_('hdr-helper', 'C18', ('xmlhdrparser.hpp',
"""				case ParseAttributeValueSq:
					if (ch == '\\'')
					{
						switch (m_attributetype)
						{
							case Encoding:
								m_encoding = m_item;
								break;
							case Version:
							case Standalone:
								break;
						}
						m_item.clear();
						m_state = FindAttributeName;
						continue;
					}
					else
					{
						m_item.push_back( ch);
					}
					break;
				case ParseAttributeValueDq:
					if (ch == '\\"')
					{
						switch (m_attributetype)
						{
							case Encoding:
								m_encoding = m_item;
								break;
							case Version:
							case Standalone:
								break;
						}
						m_item.clear();
						m_state = FindAttributeName;
						continue;
					}
					else
					{
						m_item.push_back( ch);
					}
					break;
""",
"""				case ParseAttributeValueSq:
					parseAttributeValueChar( ch, '\\'');
					break;
				case ParseAttributeValueDq:
					parseAttributeValueChar( ch, '\\"');
					break;
"""), ('xmlhdrparser.hpp',
"""	unsigned char nextChar()
	{
		for (; m_zeroCount<4; m_zeroCount++)
		{
			if (m_idx >= m_src.size()) return 0;
			unsigned char ch = m_src[m_idx];
			++m_idx;
			if (ch != 0)
			{
				m_zeroCount = 0;
				if (ch > 32)
				{
					++m_charsConsumed;
				}
				return ch;
			}
		}
		throw exception( IllegalXmlHeader);
	}
""",
"""	void parseAttributeValueChar( unsigned char ch, unsigned char quote)
	{
		if (ch != quote)
		{
			m_item.push_back( ch);
			return;
		}
		if (m_attributetype == Encoding) m_encoding = m_item;
		m_item.clear();
		m_state = FindAttributeName;
	}

	unsigned char nextChar()
	{
		while (m_zeroCount < 4)
		{
			if (m_idx == m_src.size()) return 0;
			unsigned char ch = m_src[m_idx++];
			if (ch == 0)
			{
				++m_zeroCount;
				continue;
			}
			m_zeroCount = 0;
			if (ch > 32) m_charsConsumed += 1;
			return ch;
		}
		throw exception( IllegalXmlHeader);
	}
"""))
R_('hdr-loop', 'C18', ('xmlhdrparser.hpp',
"""		unsigned char ch = nextChar();
		for (;ch != 0; ch = nextChar())
		{
			switch (m_state)
""",
"""		for (;;)
		{
			unsigned char ch = nextChar();
			if (ch == 0) break;
			switch (m_state)
"""), ('xmlhdrparser.hpp',
"""					else if (((ch|32) >= 'a' && (ch|32) <= 'z') || ch == '_')
					{
						m_item.push_back(ch);
						m_state = ParseAttributeName;
					}
""",
"""					else if (isNameChar( ch))
					{
						m_state = ParseAttributeName;
						m_item.push_back(ch);
					}
"""), ('xmlhdrparser.hpp',
"""	void setError( const std::string& m)
""",
"""	static bool isNameChar( unsigned char ch)
	{
		return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '_';
	}

	void setError( const std::string& m)
"""))
# ---- path select -----------------------------------------------------------
R_('select-match', 'C19', ('xmlpathselect.hpp',
"""				else if (st.key)
				{
					if (st.keysize == context.keysize)
					{
						unsigned int ii;
						for (ii=0; ii<context.keysize && st.key[ii] == context.key[ii]; ii++);
						if (ii==context.keysize)
						{
							produce( tokenidx, st);
							tk = &tokens[ tokenidx];
						}
					}
				}
				else
				{
					produce( tokenidx, st);
					tk = &tokens[ tokenidx];
				}
""",
"""				else if (matchKey( st))
				{
					produce( tokenidx, st);
					tk = &tokens[ tokenidx];
				}
"""), ('xmlpathselect.hpp',
"""	/// \\brief check if an active token addressed by index matches to""",
"""	bool matchKey( const State& st) const
	{
		if (!st.key) return true;
		if (st.keysize != context.keysize) return false;
		for (unsigned int ii=0; ii<st.keysize; ++ii)
		{
			if (st.key[ii] != context.key[ii]) return false;
		}
		return true;
	}

	/// \\brief check if an active token addressed by index matches to"""))
R_('select-fetch', 'C19', ('xmlpathselect.hpp',
"""		int type = 0;

		if (context.scope.mask.matches( context.type))
		{
			while (!type)
			{
				if (context.scope_iter < context.scope.range.tokenidx_to)
				{
					type = match( context.scope_iter);
					++context.scope_iter;
				}
				else
				{
					unsigned int ii = context.scope_iter - context.scope.range.tokenidx_to;
					//we match all follows that are not yet been checked in the current scope
					if (ii < context.scope.range.followidx && context.scope.range.tokenidx_from > follows[ ii])
					{
						type = match( follows[ ii]);
						++context.scope_iter;
					}
					else if (!triggers.empty())
					{
						type = triggers.back();
						triggers.pop_back();
					}
					else
					{
						context.key = 0;
						context.keysize = 0;
						closeProcessElement();
						return 0; //end of all candidates
					}
				}
			}
		}
		else
		{
			context.key = 0;
			context.keysize = 0;
			closeProcessElement();
		}
		return type;
""",
"""		if (context.scope.mask.matches( context.type))
		{
			for (;;)
			{
				int type = 0;
				unsigned int iter = context.scope_iter;
				if (iter < context.scope.range.tokenidx_to)
				{
					++context.scope_iter;
					type = match( iter);
				}
				else
				{
					unsigned int ii = iter - context.scope.range.tokenidx_to;
					//we match all follows that are not yet been checked in the current scope
					if (ii < context.scope.range.followidx && context.scope.range.tokenidx_from > follows[ ii])
					{
						++context.scope_iter;
						type = match( follows[ ii]);
					}
					else if (!triggers.empty())
					{
						type = triggers.back();
						triggers.pop_back();
					}
					else
					{
						break; //end of all candidates
					}
				}
				if (type) return type;
			}
		}
		context.key = 0;
		context.keysize = 0;
		closeProcessElement();
		return 0;
"""), ('xmlpathselect.hpp',
"""		while (stateidx!=-1)
		{
			const State& st = atm->states[ stateidx];
			context.scope.mask.join( st.core.mask);
""",
"""		for (; stateidx!=-1; stateidx = atm->states[ stateidx].link)
		{
			const State& st = atm->states[ stateidx];
			context.scope.mask.join( st.core.mask);
"""), ('xmlpathselect.hpp',
"""				tokens.push_back( Token( st, stateidx));
			}
			stateidx = st.link;
""",
"""				tokens.push_back( Token( st, stateidx));
			}
"""))
R_('select-produce', 'C19', ('xmlpathselect.hpp',
"""		if (tk.core.cnt_end == -1)
		{
			expand( st.next);
		}
		else
		{
			if (tk.core.cnt_end > 0)
			{
				if (--tokens[ tokenidx].core.cnt_end == 0)
				{
					tokens[ tokenidx].core.mask.reset();
				}
				if (tk.core.cnt_start <= 0)
				{
					expand( st.next);
				}
				else
				{
					--tokens[ tokenidx].core.cnt_start;
				}
			}
		}
""",
"""		if (tk.core.cnt_end != -1)
		{
			if (tk.core.cnt_end <= 0) return;
			--tokens[ tokenidx].core.cnt_end;
			if (tk.core.cnt_end == 0)
			{
				tokens[ tokenidx].core.mask.reset();
			}
			if (tk.core.cnt_start > 0)
			{
				--tokens[ tokenidx].core.cnt_start;
				return;
			}
		}
		expand( st.next);
"""))
R_('automaton', 'C19 C20', ('xmlpathautomaton.hpp',
"""			for (int ee=stateidx; ee != -1; stateidx=ee,ee=states[ee].link)
			{
				if ((key != 0) && (states[ee].key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
				{
					unsigned int ii;
					for (ii=0; ii<keysize && states[ee].key[ii]==key[ii]; ii++);
					if (ii == keysize) return states[ee].next;
				}
			}
			if (!states[ stateidx].isempty())
			{
				while (states[ stateidx].link >= 0)
				{
					stateidx = states[ stateidx].link;
				}
				states[ stateidx].link = states.size();
""",
"""			int ee = stateidx;
			while (ee != -1)
			{
				State& cand = states[ee];
				if (key != 0 && cand.key != 0 && keysize == cand.keysize && cand.core.follow == follow && mask == cand.core.mask)
				{
					if (0==std::memcmp( cand.key, key, keysize)) return cand.next;
				}
				stateidx = ee;
				ee = cand.link;
			}
			if (!states[ stateidx].isempty())
			{
				states[ stateidx].link = states.size();
"""))
R_('range', 'C19 C20', ('xmlpathautomaton.hpp',
"""			if (range.end == -1)
			{
				range = Range( p_start, p_end);
			}
			else
			{
				if (p_end < range.end)
				{
					range.end = p_end;
				}
				if (p_start > range.start)
				{
					range.start = p_start;
				}
			}
			return *this;
""",
"""			if (range.end != -1)
			{
				p_end = std::min( p_end, range.end);
				p_start = std::max( p_start, range.start);
			}
			range.start = p_start;
			range.end = p_end;
			return *this;
"""))
# ---- path parser -----------------------------------------------------------
R_('parser-ns', 'C20', ('xmlpathautomatonparse.hpp',
"""		CStringIterator nsitr( esrc, esrcsize);
		SrcScanner nssrc( m_srccharset, nsitr);
		UChar quote = 0;
		while (*nssrc)
		{
			UChar ch = *nssrc;
			std::size_t xpos = nssrc.getPosition();
			++nssrc;
			if (quote)
			{
				if (ch == quote) quote = 0;
			}
			else if (ch == '"' || ch == '\\'')
			{
				quote = ch;
			}
			else if (ch == ':' && *nssrc == ':')
			{
				return xpos+1;
			}
		}
""",
"""		int nspos = findNamespace( esrc, esrcsize);
		if (nspos) return nspos;
"""), ('xmlpathautomatonparse.hpp',
"""private:
#define ExprState_FOREACH""",
"""private:
	int findNamespace( const char* esrc, std::size_t esrcsize) const
	{
		CStringIterator nsitr( esrc, esrcsize);
		SrcScanner nssrc( m_srccharset, nsitr);
		UChar quote = 0;
		for (UChar ch = *nssrc; ch; ch = *nssrc)
		{
			std::size_t xpos = nssrc.getPosition();
			++nssrc;
			if (quote)
			{
				if (ch == quote) quote = 0;
				continue;
			}
			if (ch == '"' || ch == '\\'') quote = ch;
			if (ch == ':' && *nssrc == ':') return xpos+1;
		}
		return 0;
	}

#define ExprState_FOREACH"""))
R_('parser-lex', 'C20', ('xmlpathautomatonparse.hpp',
"""		for (; src.control() == Space; ++src);
""",
"""		while (src.control() == Space) ++src;
"""), ('xmlpathautomatonparse.hpp',
"""		std::string num;
		for (; *src>='0' && *src<='9';++src) num.push_back( *src);
		if (num.size() == 0 || num.size() > 8) return -1;
		return std::atoi( num.c_str());
""",
"""		int rt = 0;
		unsigned int nofdigits = 0;
		for (; *src>='0' && *src<='9'; ++src)
		{
			if (++nofdigits <= 8) rt = rt * 10 + (int)(*src - '0');
		}
		return (nofdigits == 0 || nofdigits > 8) ? -1 : rt;
"""), ('xmlpathautomatonparse.hpp',
"""			if (*src != startBracket) return std::vector<const char*>();
			do
			{
				++src; skipSpaces( src);
				if (!isIdentifierChar( src)) return std::vector<const char*>();
				rt.push_back( parseIdentifier( src));
				skipSpaces( src);
			} while (*src == ',');
			if (*src != endBracket) return std::vector<const char*>();
""",
"""			const std::vector<const char*> failed;
			if (*src != startBracket) return failed;
			for (;;)
			{
				++src;
				skipSpaces( src);
				if (!isIdentifierChar( src)) return failed;
				rt.push_back( parseIdentifier( src));
				skipSpaces( src);
				if (*src != ',') break;
			}
			if (*src != endBracket) return failed;
"""), ('xmlpathautomatonparse.hpp',
"""				for (++src; *src && *src != eb; ++src)
				{
					atmcharset->print( *src, idlist.back());
				}
				if (*src) ++src;
""",
"""				++src;
				while (*src && *src != eb)
				{
					atmcharset->print( *src, idlist.back());
					++src;
				}
				if (*src == eb) ++src;
"""))
R_('parser-main', 'C20', ('xmlpathautomatonparse.hpp',
"""		for (; *src; skipSpaces( src))
		{
			switch (*src)
			{
				case '@':""",
"""		UChar cur;
		while ((cur = *src) != 0)
		{
			switch (cur)
			{
				case '@':"""), ('xmlpathautomatonparse.hpp',
"""						expr.selectTag( idbuf.parseIdentifier( src));
						state = SelectTagId;
					}
					break;
			}
		}
""",
"""						expr.selectTag( idbuf.parseIdentifier( src));
						state = SelectTagId;
					}
					break;
			}
			skipSpaces( src);
		}
"""), ('xmlpathautomatonparse.hpp',
"""						int range_start = parseNum( src);
						if (range_start < 0) return src.getPosition()+1;
						skipSpaces( src);
						if (*src == ',')
						{
							++src; skipSpaces( src);
							if (*src == ']')
							{
								expr.FROM( range_start);
								++src;
							}
							else
							{
								if (!isIdentifierChar( src)) return src.getPosition()+1;
								int range_end = parseNum( src);
								if (range_end < 0) return src.getPosition()+1;
								skipSpaces( src);
								if (*src != ']') return src.getPosition()+1;
								expr.RANGE( range_start, range_end);
								++src;
							}
						}
						else if (*src == ']')
						{
							expr.INDEX( range_start);
							++src;
						}
						else
						{
							return src.getPosition()+1;
						}
""",
"""						if (!parseRange( src, expr)) return src.getPosition()+1;
"""), ('xmlpathautomatonparse.hpp',
"""	static void skipSpaces( SrcScanner& src)
""",
"""	static bool parseRange( SrcScanner& src, ExprState& expr)
	{
		int range_start = parseNum( src);
		if (range_start < 0) return false;
		skipSpaces( src);
		if (*src == ']')
		{
			expr.INDEX( range_start);
			++src;
			return true;
		}
		if (*src != ',') return false;
		++src;
		skipSpaces( src);
		if (*src == ']')
		{
			expr.FROM( range_start);
			++src;
			return true;
		}
		if (!isIdentifierChar( src)) return false;
		int range_end = parseNum( src);
		if (range_end < 0) return false;
		skipSpaces( src);
		if (*src != ']') return false;
		expr.RANGE( range_start, range_end);
		++src;
		return true;
	}

	static void skipSpaces( SrcScanner& src)
"""))

# ---- second set -------------------------------------------------------------
R_('entities2', 'C08 C09', ('xmlscanner.hpp',
"""		unsigned char ch;
		tokstate.id = TokState::ParsingEntity;
		ch = m_src.ascii();
		if (ch == '#')
		{
			m_src.skip();
			return parseNumericEntity();
		}
		else
		{
			return parseNamedEntity();
		}
""",
"""		tokstate.id = TokState::ParsingEntity;
		if (m_src.ascii() != '#') return parseNamedEntity();
		m_src.skip();
		return parseNumericEntity();
"""), ('xmlscanner.hpp',
"""		unsigned char ch;
		tokstate.id = TokState::ParsingNumericEntity;
		ch = m_src.ascii();
		if (ch == 'x')
		{
			tokstate.base = 16;
			m_src.skip();
			return parseNumericBaseEntity();
		}
		else
		{
			tokstate.base = 10;
			return parseNumericBaseEntity();
		}
""",
"""		tokstate.id = TokState::ParsingNumericEntity;
		bool hex = (m_src.ascii() == 'x');
		tokstate.base = hex ? 16 : 10;
		if (hex) m_src.skip();
		return parseNumericBaseEntity();
"""), ('xmlscanner.hpp',
"""				push('&');
				push('#');
				if (tokstate.base == 16) push('x');
				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
				break;
			case TokState::ParsingNamedEntity:
				push('&');
				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
				break;
		}
	}
""",
"""				push('&');
				push('#');
				if (tokstate.base == 16) push('x');
				pushRead();
				break;
			case TokState::ParsingNamedEntity:
				push('&');
				pushRead();
				break;
		}
	}

	void pushRead()
	{
		const char* cc = tokstate.buf;
		const char* ce = cc + tokstate.pos;
		while (cc != ce)
		{
			push( *cc);
			++cc;
		}
	}
"""), ('xmlscanner.hpp',
"""		if (pushPredefinedEntity( str))
		{
			return true;
		}
		else if (m_entityMap)
		{
			EntityMap::const_iterator itr = m_entityMap->find( str);
			if (itr == m_entityMap->end())
			{
				error = ErrUndefinedCharacterEntity;
				return false;
			}
			else
			{
				UChar ch = itr->second;
				push( ch);
				return true;
			}
		}
		else
		{
			error = ErrUndefinedCharacterEntity;
			return false;
		}
""",
"""		if (pushPredefinedEntity( str)) return true;
		if (m_entityMap != 0)
		{
			EntityMap::const_iterator itr = m_entityMap->find( str);
			if (itr != m_entityMap->end())
			{
				push( itr->second);
				return true;
			}
		}
		error = ErrUndefinedCharacterEntity;
		return false;
"""))
R_('parse-token2', 'C08 C09 C12', ('xmlscanner.hpp',
"""				unsigned char aa = m_src.ascii();
				if (aa <= 0xD)
				{
					//handling W3C requirements for end of line translation in XML:
					if (aa == '\\r')
					{
						push( (unsigned char)'\\n');
						tokstate.eolnState = TokState::CR;
					}
					else if (aa == '\\n')
					{
						if (tokstate.eolnState != TokState::CR)
						{
							push( (unsigned char)'\\n');
						}
						tokstate.eolnState = TokState::SRC;
					}
					else
					{
						copychar();
						tokstate.eolnState = TokState::SRC;
					}
				}
				else
				{
					copychar();
					tokstate.eolnState = TokState::SRC;
				}
				m_src.skip();
""",
"""				parseTokenChar();
				m_src.skip();
"""), ('xmlscanner.hpp',
"""	/// \\brief Parse a token defined by the set of valid token characters
	/// \\param [in] isTok set of valid token characters
	/// \\return true on success
	bool parseToken( const IsTokenCharMap& isTok)
""",
"""	/// \\brief Append the current character to the token with the end of lines translated
	void parseTokenChar()
	{
		switch (m_src.ascii())
		{
			case '\\r':
				push( (unsigned char)'\\n');
				tokstate.eolnState = TokState::CR;
				return;
			case '\\n':
				if (tokstate.eolnState != TokState::CR) push( (unsigned char)'\\n');
				break;
			default:
				copychar();
		}
		tokstate.eolnState = TokState::SRC;
	}

	/// \\brief Parse a token defined by the set of valid token characters
	/// \\param [in] isTok set of valid token characters
	/// \\return true on success
	bool parseToken( const IsTokenCharMap& isTok)
"""))
R_('skip-token2', 'C11', ('xmlscanner.hpp',
"""		do
		{
			ControlCharacter ch;
			while (isTok[ (unsigned char)(ch=m_src.control())] || ch == Amp)
			{
				m_src.skip();
			}
		}
		while (m_src.control() == Any);
		return true;
""",
"""		for (;;)
		{
			ControlCharacter ch = m_src.control();
			if (!isTok[ (unsigned char)ch] && ch != Amp && ch != Any) break;
			m_src.skip();
		}
		return true;
"""))
R_('encode2', 'C05 C06', ('charset_interface.hpp',
"""		unsigned int ii=0;
		do
		{
			bb[ii++] = HEX[ chr & 0xf];
			chr /= 16;
		}
		while (chr > 0);
		buf.push_back( '&');
		buf.push_back( '#');
		buf.push_back( 'x');
		while (ii)
		{
			buf.push_back( bb[ --ii]);
		}
		buf.push_back( ';');
		buf.push_back( '\\0');
		return !buf.overflow();
""",
"""		char* ee = bb + sizeof( bb);
		char* pp = ee;
		*--pp = ';';
		for (bool first=true; first || chr != 0; chr >>= 4, first=false)
		{
			*--pp = HEX[ chr & 0xf];
		}
		buf.append( "&#x", 3);
		buf.append( pp, ee - pp);
		buf.push_back( '\\0');
		bool success = !buf.overflow();
		return success;
"""), ('charset_isolatin.hpp',
"""		char chr_ = invcode( chr);
		if (chr_ == 0 && chr != 0)
		{
			char tb[ 32];
			char* cc = tb;
			Encoder::encode( chr, tb, sizeof(tb));
			while (*cc) buf.push_back( *cc++);
		}
		else
		{
			buf.push_back( chr_);
		}
""",
"""		const char chr_ = invcode( chr);
		if (chr_ != 0 || chr == 0)
		{
			buf.push_back( chr_);
			return;
		}
		char tb[ 32];
		Encoder::encode( chr, tb, sizeof(tb));
		for (unsigned int ii=0; tb[ii] != '\\0'; ++ii)
		{
			buf.push_back( tb[ii]);
		}
"""))
R_('sources2', 'C17', ('sourceiterator.hpp',
"""		if (m_itr >= m_end)
		{
			if (m_eom) longjmp(*m_eom,1);
			return 0;
		}
		return *m_itr;
""",
"""		if (!endOfChunk()) return *m_itr;
		if (m_eom != 0) longjmp(*m_eom,1);
		return '\\0';
"""), ('sourceiterator.hpp',
"""		m_abspos += size;
		m_start = m_itr = const_cast<char*>(buf);
		m_end = m_itr+size;
		m_eom = eom;
""",
"""		m_eom = eom;
		m_start = const_cast<char*>(buf);
		m_end = m_start + size;
		m_itr = m_start;
		m_abspos = m_abspos + size;
"""), ('sourceiterator.hpp',
"""		return (m_end >= m_itr)?(m_itr-m_start):0;
""",
"""		if (m_itr > m_end) return 0;
		return m_itr - m_start;
"""), ('cstringiterator.hpp',
"""		return (m_pos < m_size)?m_src[m_pos]:0;
""",
"""		if (m_pos >= m_size) return 0;
		return *(m_src + m_pos);
"""), ('cstringiterator.hpp',
"""{m_pos=(i<m_size)?i:m_size;}
""",
"""{m_pos=i; if (m_pos > m_size) m_pos = m_size;}
"""), ('istreamiterator.hpp',
"""			char* xx = (char*)std::malloc( o.m_bufsize);
			if (!xx) throw std::bad_alloc();
			if (o.m_readsize) std::memcpy( xx, o.m_buf, o.m_readsize);
			std::free( m_buf);
			m_input = o.m_input;
			m_buf = xx;
			m_bufsize = o.m_bufsize;
			m_readsize = o.m_readsize;
			m_readpos = o.m_readpos;
			m_abspos = o.m_abspos;
""",
"""			IStreamIterator tmp( o);
			std::swap( m_input, tmp.m_input);
			std::swap( m_buf, tmp.m_buf);
			std::swap( m_bufsize, tmp.m_bufsize);
			std::swap( m_readsize, tmp.m_readsize);
			std::swap( m_readpos, tmp.m_readpos);
			std::swap( m_abspos, tmp.m_abspos);
"""), ('istreamiterator.hpp',
"""			if (m_input->eof())
			{
				m_errno = 0;
				return m_input->gcount();
			}
			else
			{
				m_errno = errno?errno:EIO;
				return 0;
			}
""",
"""			bool atEnd = m_input->eof();
			m_errno = atEnd ? 0 : (errno?errno:EIO);
			return atEnd ? m_input->gcount() : 0;
"""))
R_('tagstack2', 'C15 C14', ('xmltagstack.hpp',
"""		if (m_pos < sizeof( std::size_t)) return 0;
		void* tt = m_ptr + (m_pos - sizeof( std::size_t));
		elementsize = *(std::size_t*)(tt);
		std::size_t align = getAlign( elementsize);
		std::size_t ofs = elementsize + align + sizeof( std::size_t);
		if (ofs > m_pos) return 0;
		return ofs;
""",
"""		const std::size_t lensize = sizeof( std::size_t);
		if (m_pos >= lensize)
		{
			std::memcpy( &elementsize, m_ptr + m_pos - lensize, lensize);
			std::size_t ofs = lensize + elementsize + getAlign( elementsize);
			if (ofs <= m_pos) return ofs;
		}
		return 0;
"""), ('xmltagstack.hpp',
"""		return (sizeof(std::size_t) - (n & (sizeof(std::size_t)-1))) & (sizeof(std::size_t)-1);
""",
"""		const std::size_t rest = n % sizeof(std::size_t);
		return rest ? sizeof(std::size_t) - rest : 0;
"""))
R_('printer-ops2', 'C14 C13', ('xmlprinter.hpp',
"""		if (m_state != Content)
		{
			if (m_state == Init)
			{
				m_lasterror = "printed xml without root element";
				return false;
			}
			if (m_state == TagAttribute)
			{
				m_lasterror = "printed tag or content after an attribute without value";
				return false;
			}
			printToBuffer( '>', buf);
			m_state = Content;
		}
		return true;
""",
"""		switch (m_state)
		{
			case Init:
				return setError( "printed xml without root element");
			case TagAttribute:
				return setError( "printed tag or content after an attribute without value");
			case TagElement:
				m_state = Content;
				printToBuffer( '>', buf);
				/* no break here ! */
			case Content:
				break;
		}
		return true;
"""), ('xmlprinter.hpp',
"""	/// \\brief Print the start of an open tag
""",
"""	bool setError( const char* msg)
	{
		m_lasterror = msg;
		return false;
	}

	/// \\brief Print the start of an open tag
"""), ('xmlprinter.hpp',
"""		if (m_state == TagElement)
		{
			printToBuffer( ' ', buf);
			printToBuffer( (const char*)src, srcsize, buf);
			printToBuffer( '=', buf);
			m_state = TagAttribute;
			return true;
		}
		m_lasterror = "printing attribute outside of a tag or after an attribute without value";
		return false;
""",
"""		if (m_state != TagElement) return setError( "printing attribute outside of a tag or after an attribute without value");
		m_state = TagAttribute;
		printToBuffer( ' ', buf);
		printToBuffer( src, srcsize, buf);
		printToBuffer( '=', buf);
		return true;
"""), ('xmlprinter.hpp',
"""		if (m_state == TagElement)
		{
			printToBuffer( '/', buf);
			printToBuffer( '>', buf);
			m_state = Content;
		}
		else if (m_state != Content)
		{
			m_lasterror = "printing close tag after an attribute without value";
			return false;
		}
		else
		{
			printToBuffer( '<', buf);
			printToBuffer( '/', buf);
			printToBuffer( (const char*)cltag, cltagsize, buf);
			printToBuffer( '>', buf);
		}
		m_tagstack.pop();
		if (m_tagstack.empty())
		{
			printToBuffer( '\\n', buf);
		}
		return true;
""",
"""		if (m_state == Content)
		{
			printToBuffer( '<', buf);
			printToBuffer( '/', buf);
			printToBuffer( (const char*)cltag, cltagsize, buf);
			printToBuffer( '>', buf);
		}
		else if (m_state == TagElement)
		{
			printToBuffer( '/', buf);
			printToBuffer( '>', buf);
		}
		else
		{
			return setError( "printing close tag after an attribute without value");
		}
		m_state = Content;
		m_tagstack.pop();
		if (m_tagstack.empty()) printToBuffer( '\\n', buf);
		return true;
"""))
R_('ostream2', 'C22', ('ostreamoutput.hpp',
"""		std::size_t ci = 0;
		for (; ci != ccsize; ++ci)
		{
			(*m_out) << cc[ ci];
		}
""",
"""		const char* ce = cc + ccsize;
		while (cc != ce)
		{
			push_back( *cc++);
		}
"""), ('ostreamoutput.hpp',
"""		(*m_out) << ch;
""",
"""		m_out->put( ch);
"""))
R_('ostream3', 'C22', ('ostreamoutput.hpp',
"""		std::size_t ci = 0;
		for (; ci != ccsize; ++ci)
		{
			(*m_out) << cc[ ci];
		}
""",
"""		while (ccsize-- > 0)
		{
			(*m_out) << *cc;
			++cc;
		}
"""))
R_('ostream4', 'C22', ('ostreamoutput.hpp',
"""		std::size_t ci = 0;
		for (; ci != ccsize; ++ci)
		{
			(*m_out) << cc[ ci];
		}
""",
"""		m_out->write( cc, (std::streamsize)ccsize);
"""))

def main(args):
    todo = []
    for a in args or R:
        n, _, c = a.partition(':')
        todo.append((n, c.split(',') if c else R[n][0]))
    base = os.environ.get('RF_DIR', '/tmp/rf')
    for n, checks in todo:
        d = os.path.join(base, n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        for f, old, new in R[n][1]:
            p = os.path.join(d, 'repo', H + f)
            s = open(p).read()
            if s.count(old) != 1:
                print(n, 'EDIT does not apply (%d)' % s.count(old), f, repr(old[:80])); break
            open(p, 'w').write(s.replace(old, new))
        else:
            for c in checks:
                t = time.time()
                env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
                try:
                    r = subprocess.run(['python3', '/verif/check.py', c], env=env, capture_output=True, text=True, timeout=1000)
                    rc, out = r.returncode, r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    rc, out = 'TIMEOUT', ''
                msg = '' if rc == 0 else ' | '.join(l for l in out.splitlines() if 'FAIL' in l or 'VIOL' in l or 'ndecid' in l or 'rror' in l)[:700]
                print('%s %s rc=%s %ds %s' % (n, c, rc, time.time() - t, msg), flush=True)
        shutil.rmtree(d + '/repo', ignore_errors=True)
main(sys.argv[1:])
