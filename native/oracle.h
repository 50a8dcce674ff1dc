// common parts of the native replay oracles: they run the real, g++-compiled code of /repo
#ifndef VERIF_ORACLE_H
#define VERIF_ORACLE_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <iostream>
#include <ctime>
#include <sys/time.h>
#include <stdint.h>
#include <unistd.h>
namespace orc {
static uint64_t rs = 88172645463325252ULL;
static inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL >> 11; }
static inline unsigned int rndn( unsigned int n) { return (unsigned int)(rnd() % n); }
static double now() { timeval tv; gettimeofday( &tv, 0); return tv.tv_sec + tv.tv_usec*1e-6; }
static double t_end = 0; static int part=0, parts=1; static std::string prop;
static std::multimap<std::string,std::string> args;
static uint64_t cases = 0, nontrivial = 0;
static void init( int argc, const char** argv)
{
	prop = argc > 1 ? argv[1] : "";
	for (int i=2; i<argc; ++i) { std::string a( argv[i]); std::size_t p = a.find('='); if (p != std::string::npos) args.insert( std::make_pair( a.substr(0,p), a.substr(p+1))); }
	const char* s = getenv("VERIF_SEED"); uint64_t seed = s ? strtoull( s,0,10) : 1;
	rs = 88172645463325252ULL ^ (seed * 0x9E3779B97F4A7C15ULL); if (!rs) rs = 1; for (int i=0; i<20; ++i) rnd();
	const char* t = getenv("ORACLE_SECONDS"); t_end = now() + (t ? atof( t) : 5.0);
	if (args.count("part")) part = atoi( args.find("part")->second.c_str());
	if (args.count("parts")) parts = atoi( args.find("parts")->second.c_str());
	rs ^= (uint64_t)part * 0x2545F4914F6CDD1DULL; if (!rs) rs = 1; for (int i=0; i<20; ++i) rnd();	// every process its own sequence
}
static inline bool timeup() { return now() > t_end; }
static std::string hex( const std::string& s) { std::string r; char b[4]; for (std::size_t i=0; i<s.size(); ++i) { snprintf( b, sizeof b, "%02x", (unsigned char)s[i]); r += b; } return r; }
static std::string quote( const std::string& s)
{
	std::string r = "\""; char b[8];
	for (std::size_t i=0; i<s.size(); ++i) { unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c; else { snprintf( b, sizeof b, "\\x%02x", c); r += b; } }
	return r + "\"";
}
static void summary() { printf( "ORACLE cases=%llu nontrivial=%llu\n", (unsigned long long)cases, (unsigned long long)nontrivial); fflush( stdout); }
static void fail( const std::string& msg)
{
	printf( "FAIL property=%s %s\n", prop.c_str(), msg.c_str()); summary(); fflush( stdout); _exit( 1);
}
template <class T> static std::string str( const T& x) { std::ostringstream o; o << x; return o.str(); }
}
#endif
