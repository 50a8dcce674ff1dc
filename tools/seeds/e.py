H='''#include "textwolf.hpp"
#include <cstdio>
#include <string>
#include <cstring>
#include <csetjmp>
using namespace textwolf;
static int is( unsigned long a, unsigned long b, const char* w) { if (a == b) return 0; std::printf( "%s: got %lu expected %lu\\n", w, a, b); return 1; }
'''
SS=[
dict(id="C22-array-length",property="C22",file="ostreamoutput.hpp",edits=[("		std::size_t ci = 0;\n		for (; ci != ccsize; ++ci)","		unsigned short ci = 0, cn = (unsigned short)ccsize;\n		for (; ci != cn; ++ci)")],
 needs="an array of more than 65535 characters appended at once",breaks="only the rest of its length divided by 65536 is written",
 demo='#include <sstream>\n#include "textwolf/ostreamoutput.hpp"\n'+H+'''int main() { std::ostringstream s; OstreamOutput o( &s); std::string v( 65537, 'x'); o.append( v.c_str(), v.size()); return is( s.str().size(), 65537, "length"); }'''),
dict(id="C22-line-end",property="C22",file="ostreamoutput.hpp",edits=[("		(*m_out) << ch;\n","		if (ch == '\\n') std::endl( *m_out); else if (ch != '\\r') (*m_out) << ch;\n")],
 needs="a carriage return appended as single character",breaks="it is lost",
 demo='#include <sstream>\n#include "textwolf/ostreamoutput.hpp"\n'+H+'''int main() { std::ostringstream s; OstreamOutput o( &s); o.push_back( 'a'); o.push_back( '\\n'); o.push_back( '\\r'); o.push_back( 'b'); return is( s.str().size(), 4, "length"); }'''),
dict(id="C17-fail-is-end",property="C17",file="istreamiterator.hpp",edits=[("			if (m_input->eof())\n","			if (m_input->eof() || !m_input->bad())\n")],
 needs="a stream whose fail bit is set without end of file when it is read",breaks="the failure is taken for the end of the data",
 demo='#include <sstream>\n#include "textwolf/istreamiterator.hpp"\n'+H+'''int main() { std::istringstream s( "abcdef"); StdInputStream i( s); char b[4]; i.read( b, 2); try { s.setstate( std::ios::failbit); } catch (...) {} i.read( b, 2); return is( i.errorcode() != 0, 1, "error"); }'''),
]
