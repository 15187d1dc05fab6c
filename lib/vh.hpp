// Common runtime for the monitors in /verif/harness: deterministic per-case random
// numbers, verdict reporting, and a record of what was observed.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

namespace vh
{
struct Rng
{
  std::uint64_t s;
  explicit Rng( std::uint64_t seed = 1 ): s( seed ) {}
  std::uint64_t next()
  {
    std::uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
  }
  // uniform in [lo,hi]
  long range( long lo, long hi ) { return lo + static_cast<long>( next() % static_cast<std::uint64_t>( hi - lo + 1 ) ); }
  std::size_t index( std::size_t n ) { return static_cast<std::size_t>( next() % n ); }
  double uni() { return static_cast<double>( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  double uni( double a, double b ) { return a + ( b - a ) * uni(); }
  bool chance( double p ) { return uni() < p; }
  template<class T> T const & pick( std::vector<T> const & v ) { return v[ index( v.size() ) ]; }
  template<class T> T pick( std::initializer_list<T> v ) { return *( v.begin() + index( v.size() ) ); }
  template<class T> void shuffle( std::vector<T> & v ) { for( std::size_t i = v.size(); i > 1; --i ) std::swap( v[i - 1], v[ index( i ) ] ); }
};

inline std::uint64_t mix( std::uint64_t a, std::uint64_t b )
{
  Rng r( a * 0x2545F4914F6CDD1Dull + b ); r.next(); return r.next();
}

inline std::string jsonEscape( std::string const & s )
{
  std::string o;
  for( unsigned char c : s )
  {
    if( c == '"' || c == '\\' ) { o += '\\'; o += static_cast<char>( c ); }
    else if( c == '\n' ) o += "\\n";
    else if( c < 0x20 || c >= 0x7f ) { char b[8]; std::snprintf( b, 8, "\\u%04x", c ); o += b; }
    else o += static_cast<char>( c );
  }
  return o;
}

struct Run
{
  std::uint64_t seed = 1;
  long start = 0, stride = 1, cases = 1, only = -1;
  std::string mode, progress, scratch = "/tmp";
  bool thorough = false;
  int progressFd = -1;
  FILE * out = nullptr;

  long caseIdx = -1;
  Rng rng;
  long evaluations = 0;
  long events = 0;           // oracle comparisons / trace events judged
  long violations = 0;
  std::set<std::uint64_t> distinct;
  std::map<std::string, long> counters;
  std::vector<std::string> samples;
  std::set<std::string> reported;

  // An observed violation: key names the oracle clause, detail the witness.
  void viol( std::string const & key, std::string const & detail )
  {
    ++violations;
    if( !reported.insert( key ).second && only < 0 ) return;
    std::fprintf( out, "{\"t\":\"viol\",\"key\":\"%s\",\"case\":%ld,\"detail\":\"%s\"}\n", jsonEscape( key ).c_str(), caseIdx,
                  jsonEscape( detail.size() <= 2000 ? detail : detail.substr( 0, 900 ) + " ... " + detail.substr( detail.size() - 1100 ) ).c_str() );
    std::fflush( out );
  }
  void count( std::string const & name, long n = 1 ) { counters[name] += n; }
  void event( long n = 1 ) { events += n; }
  // Mark the current case as non-trivial with the given signature of what it exercised.
  void nontrivial( std::uint64_t sig ) { distinct.insert( sig ); }
  void nontrivial( std::string const & sig ) { distinct.insert( std::hash<std::string>()( sig ) ); }
  void sample( std::string const & s ) { if( samples.size() < 3 ) samples.push_back( s.substr( 0, 600 ) ); }
};

template<class... T> std::string cat( T const &... v )
{
  std::ostringstream s; s.precision( 9 );
  int dummy[] = { 0, ( ( s << v ), 0 )... }; (void)dummy;
  return s.str();
}

template<class V> std::string vec( V const & v, std::size_t maxN = 40 )
{
  std::ostringstream s; s.precision( 9 ); s << "["; std::size_t n = 0;
  for( auto const & x : v ) { if( n++ ) s << ","; if( n > maxN ) { s << "..."; break; } s << x; }
  s << "]"; return s.str();
}

using CaseFn = std::function<void( Run & )>;

inline int runMain( int argc, char ** argv, CaseFn fn )
{
  Run r;
  std::string outFile;
  for( int i = 1; i + 1 < argc; i += 2 )
  {
    std::string k = argv[i], v = argv[i + 1];
    if( k == "--seed" ) r.seed = std::strtoull( v.c_str(), nullptr, 10 );
    else if( k == "--start" ) r.start = std::atol( v.c_str() );
    else if( k == "--stride" ) r.stride = std::atol( v.c_str() );
    else if( k == "--cases" ) r.cases = std::atol( v.c_str() );
    else if( k == "--only" ) r.only = std::atol( v.c_str() );
    else if( k == "--mode" ) r.mode = v;
    else if( k == "--tier" ) r.thorough = ( v == "thorough" );
    else if( k == "--progress" ) r.progress = v;
    else if( k == "--scratch" ) r.scratch = v;
    else if( k == "--out" ) outFile = v;
    else { std::fprintf( stderr, "unknown option %s\n", k.c_str() ); return 2; }
  }
  r.out = outFile.empty() ? stdout : std::fopen( outFile.c_str(), "a" );
  if( !r.out ) { std::perror( "out" ); return 2; }
  if( !r.progress.empty() ) r.progressFd = ::open( r.progress.c_str(), O_CREAT | O_WRONLY, 0644 );
  for( long c = r.start; c < r.cases; c += r.stride )
  {
    if( r.only >= 0 && c != r.only ) continue;
    r.caseIdx = c;
    r.rng = Rng( mix( r.seed, static_cast<std::uint64_t>( c ) + 0x1000 ) );
    if( r.progressFd >= 0 )
    {
      char b[32]; int n = std::snprintf( b, 32, "%-20ld", c );
      if( ::pwrite( r.progressFd, b, n, 0 ) != n ) return 2;
    }
    try { fn( r ); }
    catch( std::exception const & ex ) { r.viol( "escaped_exception", cat( "exception escaped the workload: ", ex.what() ) ); }
    ++r.evaluations;
  }
  std::fprintf( r.out, "{\"t\":\"end\",\"evaluations\":%ld,\"events\":%ld,\"violations\":%ld,\"counters\":{", r.evaluations, r.events, r.violations );
  bool first = true;
  for( auto const & e : r.counters ) { std::fprintf( r.out, "%s\"%s\":%ld", first ? "" : ",", jsonEscape( e.first ).c_str(), e.second ); first = false; }
  std::fprintf( r.out, "},\"samples\":[" );
  first = true;
  for( auto const & e : r.samples ) { std::fprintf( r.out, "%s\"%s\"", first ? "" : ",", jsonEscape( e ).c_str() ); first = false; }
  std::fprintf( r.out, "],\"distinct\":[" );
  first = true;
  for( auto e : r.distinct ) { std::fprintf( r.out, "%s\"%llx\"", first ? "" : ",", static_cast<unsigned long long>( e ) ); first = false; }
  std::fprintf( r.out, "]}\n" );
  std::fflush( r.out );
  return 0;
}
} // namespace vh

#define VH_MAIN( fn ) int main( int argc, char ** argv ) { return vh::runMain( argc, argv, fn ); }
