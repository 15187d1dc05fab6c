// Running the command line applications within a monitor: their options, and the host they play on.
#pragma once
#include "fakehost.hpp"
#include <fstream>
#include <iostream>
using vh::Rng;
using fake::Sound;
using App = int ( * )( int, char const * const * );
static vh::Run * R;

// ---------------------------------------------------------------- running an application
struct Outcome { int rc = -1; std::string text; bool ran = false; };
struct Captured { std::ostringstream o, e; std::streambuf * a, * b; Captured() { a = std::cout.rdbuf( o.rdbuf() ); b = std::cerr.rdbuf( e.rdbuf() ); } ~Captured() { std::cout.rdbuf( a ); std::cerr.rdbuf( b ); } };
static Outcome launch( App app, std::vector<std::string> const & args, std::function<void()> running )
{
  Outcome r; std::vector<std::unique_ptr<char[]>> mem; std::unique_ptr<char const *[]> argv( new char const *[args.size() + 2] );
  std::vector<std::string> all( 1, "/usr/bin/application" ); all.insert( all.end(), args.begin(), args.end() );
  for( std::size_t i = 0; i < all.size(); ++i ) { mem.emplace_back( new char[all[i].size() + 1] ); std::copy( all[i].c_str(), all[i].c_str() + all[i].size() + 1, mem.back().get() ); argv[i] = mem.back().get(); }
  argv[all.size()] = nullptr; int step = 0;
  console = [&]() -> int { switch( step++ ) { case 0: r.ran = true; running(); return R->rng.chance( 0.5 ) ? 'x' : '\n'; case 1: return '\n'; case 2: return 'q'; default: return '\n'; } };
  {
    Captured cap;
    try { r.rc = app( static_cast<int>( all.size() ), argv.get() ); } catch( std::exception const & e ) { r.rc = -2; r.text = std::string( "escaping exception: " ) + e.what(); } catch( ... ) { r.rc = -3; r.text = "escaping exception"; }
    r.text += cap.o.str() + cap.e.str();
  }
  return r;
}
static std::string quote( std::vector<std::string> const & a ) { std::string s; for( auto const & x : a ) s += " '" + x + "'"; return s; }

// ---------------------------------------------------------------- options
struct Opt { std::string name; char brief; std::string value; bool flag; };
static void writeFile( std::string const & n, std::string const & s ) { std::ofstream o( n, std::ios::binary ); o << s; }
// The same options, in the different ways to state them.
static std::vector<std::string> spell( Rng & g, std::vector<Opt> opts, std::string const & dir, bool & inFile )
{
  g.shuffle( opts ); std::vector<std::string> args; inFile = g.chance( 0.35 ); std::string file; std::vector<std::vector<std::string>> groups;
  double const share = g.pick( { 1., 0.5 } );
  for( auto const & o : opts )
  {
    if( inFile && g.chance( share ) )
    {
      std::string v; bool const plainValue = o.value.find_first_of( " =\"\\\r\n" ) == std::string::npos && !o.value.empty();
      if( plainValue && g.chance( 0.7 ) ) v = o.value;
      else { v = "\""; for( char c : o.value ) { if( c == '"' || c == '\\' ) v += '\\'; v += c; } v += "\""; }
      // A line break between quotes is kept as it is.
      std::string const nl = g.pick<std::string>( { "\n", "\n", "\r\n", " " } );
      if( o.flag ) file += ( o.brief && g.chance( 0.5 ) ? std::string( "-" ) + o.brief : "--" + o.name ) + nl;
      else if( o.brief && g.chance( 0.5 ) ) file += std::string( "-" ) + o.brief + ( g.chance( 0.5 ) ? " " : "=" ) + v + nl;
      else file += "--" + o.name + ( g.chance( 0.5 ) ? " " : "=" ) + v + nl;
      continue;
    }
    std::vector<std::string> t;
    if( o.flag ) t.push_back( o.brief && g.chance( 0.5 ) ? std::string( "-" ) + o.brief : "--" + o.name );
    else if( o.brief && g.chance( 0.5 ) ) { if( g.chance( 0.6 ) || o.value.empty() ) { t.push_back( std::string( "-" ) + o.brief ); t.push_back( o.value ); } else t.push_back( std::string( "-" ) + o.brief + o.value ); }
    else if( g.chance( 0.5 ) || o.value.empty() ) { t.push_back( "--" + o.name ); t.push_back( o.value ); }
    else t.push_back( "--" + o.name + "=" + o.value );
    groups.push_back( t );
  }
  if( inFile )
  {
    std::string const n = dir + "/" + g.pick<std::string>( { "options.txt", "my options", "o.cfg" } ); writeFile( n, file );
    std::vector<std::string> t; if( g.chance( 0.5 ) ) t.push_back( "@" + n ); else { t.push_back( "--option-file" ); t.push_back( n ); }
    groups.insert( groups.begin() + static_cast<long>( g.index( groups.size() + 1 ) ), t );
  }
  for( auto const & t : groups ) args.insert( args.end(), t.begin(), t.end() );
  return args;
}
static std::string number( std::size_t n ) { return std::to_string( n ); }

// ---------------------------------------------------------------- the host
struct Host
{
  bool jack; std::size_t ni, no, B, rate; Rng g; Sound heard; std::function<void( Sound const &, Sound & )> reference; double tolerance = 1e-4; std::string what; long blocks = 0; bool report = true, lastGood = false, strict = true; std::string mismatch;
  std::function<void( Sound & )> source;
  Host( Rng & r, bool j, std::size_t i, std::size_t o, std::size_t b, std::size_t f ): jack( j ), ni( i ), no( o ), B( b ), rate( f ), g( r.next() )
  {
    fake::misuses().clear(); fake::pa().reset(); fake::jk().reset();
    source = [this]( Sound & x ) { for( auto & v : x ) for( auto & e : v ) e = static_cast<float>( g.uni( -1, 1 ) ); };
    auto in = [this]( Sound & x ) { x.resize( std::max( x.size(), ni ) ); source( x ); heard = x; heard.resize( ni ); };
    auto out = [this]( Sound const & y, int res )
    {
      ++blocks; Sound e( no, std::vector<float>( B, 0.f ) ); mismatch.clear();
      if( reference ) reference( heard, e );
      if( res != 0 ) { mismatch = "the application reports an error to the sound system"; R->viol( "processing", what + ": " + mismatch ); return; }
      double mag = 1; for( auto const & v : e ) for( float x : v ) mag = std::max( mag, static_cast<double>( std::fabs( x ) ) );
      for( std::size_t o = 0; o < no && mismatch.empty(); ++o ) for( std::size_t k = 0; k < B; ++k ) if( !( std::fabs( y[o][k] - e[o][k] ) <= tolerance * mag ) ) { mismatch = vh::cat( "output ", o, " sample ", k, " of block ", blocks - 1, " is ", y[o][k], ", expected ", e[o][k] ); break; }
      R->event(); lastGood = mismatch.empty();
      if( strict && !lastGood ) R->viol( "output", what + ": " + mismatch );
    };
    if( jack )
    {
      auto & j = fake::jk(); j.rate = static_cast<jack_nframes_t>( rate ); j.frames = static_cast<jack_nframes_t>( B );
      j.physical( "system", "capture_", 1, static_cast<int>( ni ), true ); j.physical( "system", "playback_", 1, static_cast<int>( no ), false );
      j.capture = [in]( _jack_client &, Sound & x ) { in( x ); }; j.played = [out]( _jack_client &, Sound const & y, int res ) { out( y, res ); };
    }
    else
    {
      auto & p = fake::pa(); p.addApi( paALSA, "ALSA" ); int const d = p.addDev( 0, "Card", static_cast<int>( ni + g.range( 0, 2 ) ), static_cast<int>( no + g.range( 0, 2 ) ) );
      p.apis[0].info.defaultInputDevice = p.apis[0].info.defaultOutputDevice = d;
      p.addApi( paOSS, "OSS" ); int const d2 = p.addDev( 1, "Other card", 256, 256 ); p.apis[1].info.defaultInputDevice = p.apis[1].info.defaultOutputDevice = d2; p.settle();
      p.capture = [in]( fake::PaStreamState &, Sound & x ) { in( x ); }; p.played = [out]( fake::PaStreamState &, Sound const & y, int res ) { out( y, res == paContinue ? 0 : 1 ); };
    }
  }
  std::string backend() const { return jack ? "Jack" : "PortAudio"; }
  void run( int n ) { if( jack ) fake::jk().run( n ); else fake::pa().run( n ); }
  bool exists( std::string & why )
  {
    if( jack ) { int n = 0; for( auto & c : fake::jk().clients ) n += c->open && c->active; if( n != 1 ) { why = vh::cat( n, " running clients" ); return false; } return true; }
    int n = 0; for( auto & s : fake::pa().streams ) if( s->open && s->active )
    { ++n; if( s->in.channelCount != static_cast<int>( ni ) || s->out.channelCount != static_cast<int>( no ) || s->frames != B || s->rate != static_cast<double>( rate ) ) { why = vh::cat( "stream of ", s->in.channelCount, "/", s->out.channelCount, " channels, ", s->frames, " samples, ", s->rate, " Hz" ); return false; } }
    if( n != 1 ) { why = vh::cat( n, " running streams" ); return false; } return true;
  }
  void finished()
  {
    for( auto const & m : fake::misuses() ) R->viol( "host_misused", what + ": " + m );
    if( fake::pa().inits != 0 || fake::pa().openStreams() != 0 || fake::jk().openClients() != 0 ) R->viol( "left_behind", what + ": the sound system is still in use after the application has ended" );
    fake::pa().reset(); fake::jk().reset(); fake::misuses().clear();
  }
};
// Options of the audio interface that leave the default connection in place.
static void interfaceOptions( Rng & g, Host const & h, std::string const & dir, std::vector<Opt> & o )
{
  if( g.chance( 0.4 ) ) return;
  std::string const text = h.jack ? g.pick<std::string>( { "", "{}", "{ \"clientname\": \"my renderer\", \"autoconnect\": \"true\" }", "{\"clientname\":\"X\"}" } )
                                  : g.pick<std::string>( { "", "{}", "{ \"interleaved\": \"true\" }", "{ \"hostapi\": \"default\", \"interleaved\": false, \"sampleformat\": \"float32Bit\" }", "{ \"hostapi\": \"OSS\" }" } );
  if( g.chance( 0.5 ) ) o.push_back( { "audio-ifc-options", 0, text, false } );
  else { std::string const n = dir + "/interface options.json"; writeFile( n, g.chance( 0.3 ) && !text.empty() ? text + "\n" : text ); o.push_back( { "audio-ifc-option-file", 0, n, false } ); }
}
static void needsAutoconnect( Host const & h, std::vector<Opt> & o )
{
  // Jack ports stay unconnected unless asked for.
  if( !h.jack ) return;
  for( auto & x : o ) if( x.name == "audio-ifc-options" || x.name == "audio-ifc-option-file" )
  {
    std::string const text = "{ \"clientname\": \"app\", \"autoconnect\": \"true\" }";
    if( x.name == "audio-ifc-options" ) x.value = text; else writeFile( x.value, text );
    return;
  }
  o.push_back( { "audio-ifc-options", 0, "{ \"autoconnect\": true }", false } );
}
static void refused( App app, Host & h, std::vector<std::string> const & args, std::string const & clause )
{
  bool ran = false; Outcome const r = launch( app, args, [&] { ran = true; } );
  R->event(); R->count( "inadmissible command lines refused" );
  if( r.rc < 0 ) R->viol( "terminates:" + clause, h.what + ": " + r.text.substr( 0, 300 ) );
  else if( ran || r.rc == 0 ) R->viol( "accepted:" + clause, h.what + ": the application runs although the options are inadmissible" );
  else if( r.text.empty() ) R->viol( "silent:" + clause, h.what + ": no message" );
  h.finished();
}
static void runs( App app, Host & h, std::vector<std::string> const & args, std::function<void()> during )
{
  Outcome const r = launch( app, args, [&] { std::string why; if( !h.exists( why ) ) { R->viol( "stream", h.what + ": " + why ); return; } during(); } );
  R->event();
  if( r.rc < 0 ) R->viol( "terminates", h.what + ": " + r.text.substr( 0, 300 ) );
  else if( !r.ran ) R->viol( "refused", h.what + ": ends with " + r.text.substr( 0, 500 ) );
  else if( r.rc != 0 ) R->viol( "status", vh::cat( h.what, ": exit status ", r.rc, ", ", r.text.substr( 0, 300 ) ) );
  h.finished();
}
