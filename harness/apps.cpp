// C23: the command line applications, from their arguments to the sound on the host's devices (played by stand-ins for PortAudio and Jack).
// LIBS: apputilities signalflowspython signalflows reverbobject audiointerfaces rrl pml rcl panning objectmodel rbbl visr efl portaudio jack boost_program_options
#define VISR_PML_USE_SNDFILE_LIBRARY 1
// Set by the build of the applications.
#define VISR_MAJOR_VERSION 7
#define VISR_MINOR_VERSION 8
#define VISR_PATCH_VERSION 9
#include "fakehost.hpp"
#include "arrays.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <libaudiointerfaces/audio_interface_factory.hpp>
#include <libapputilities/options.hpp>
#include <libobjectmodel/object_vector_parser.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libefl/denormalised_number_handling.hpp>
#include <libefl/initialise_library.hpp>
#include <libefl/vector_functions.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/matrix_parameter.hpp>
#include <librbbl/fft_wrapper_factory.hpp>
#include <librcl/fir_filter_matrix.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libsignalflows/baseline_renderer.hpp>
#include <libsignalflows/time_frequency_feedthrough.hpp>
#include <libsignalflowspython/visr_renderer.hpp>
#include <libvisr/version.hpp>
#include <boost/algorithm/string.hpp>
#include <boost/filesystem.hpp>
#include <boost/tokenizer.hpp>
#include <arpa/inet.h>
#include <chrono>
#include <netinet/in.h>
#include <numeric>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

#include "app_begin.hpp"
#define main matrix_convolver_main
#include "apps/matrix_convolver/options.cpp"
#include "apps/matrix_convolver/init_filter_matrix.cpp"
#include "apps/matrix_convolver/main.cpp"
#undef main
#define main feedthrough_main
#include "apps/feedthrough/options.cpp"
#include "apps/feedthrough/signal_flow.cpp"
#include "apps/feedthrough/main.cpp"
#undef main
#define main time_frequency_feedthrough_main
#include "apps/time_frequency_feedthrough/main.cpp"
#undef main
#define main baseline_renderer_main
#include "apps/baseline_renderer/options.cpp"
#include "apps/baseline_renderer/main.cpp"
#undef main
// The full renderer's options live in the namespace of the baseline renderer.
#undef VISR_APPS_BASELINE_RENDERER_OPTIONS_HPP_INCLUDED
#define baseline_renderer visr_renderer_app
#define main visr_renderer_main
#include "apps/visr_renderer/options.cpp"
#include "apps/visr_renderer/main.cpp"
#undef main
#undef baseline_renderer
#undef getc

#include "apphost.hpp"
// Options that no application accepts.
static bool spoil( Rng & g, std::vector<Opt> & o, std::vector<std::string> & extra, std::string const & dir, std::string & clause )
{
  switch( g.index( 10 ) )
  {
    case 0: clause = "mandatory option missing"; for( std::size_t i = 0; i < o.size(); ++i ) if( o[i].name == "input-channels" ) { o.erase( o.begin() + static_cast<long>( i ) ); return true; } return false;
    case 1: clause = "backend missing"; for( std::size_t i = 0; i < o.size(); ++i ) if( o[i].name == "audio-backend" ) { o.erase( o.begin() + static_cast<long>( i ) ); return true; } return false;
    case 2: clause = "unknown backend"; for( auto & x : o ) if( x.name == "audio-backend" ) { x.value = g.pick<std::string>( { "portaudio", "JACK", "ASIO" } ); return true; } return false;
    case 3: clause = "unknown option"; if( g.chance( 0.5 ) ) extra = { "--no-such-option" }; else o.push_back( { "no-such-option", 0, "1", false } ); return true;
    case 4: clause = "number"; for( auto & x : o ) if( x.name == "input-channels" ) { x.value = g.pick<std::string>( { "two", "2x", "1.5", "0x2" } ); return true; } return false;
    case 5: clause = "both interface option forms"; writeFile( dir + "/ifc", "{}" ); for( std::size_t i = 0; i < o.size(); ) if( o[i].name.find( "audio-ifc" ) == 0 ) o.erase( o.begin() + static_cast<long>( i ) ); else ++i;
      o.push_back( { "audio-ifc-options", 0, "{}", false } ); o.push_back( { "audio-ifc-option-file", 0, dir + "/ifc", false } ); return true;
    case 6: clause = "interface option file"; for( std::size_t i = 0; i < o.size(); ) if( o[i].name.find( "audio-ifc" ) == 0 ) o.erase( o.begin() + static_cast<long>( i ) ); else ++i;
      o.push_back( { "audio-ifc-option-file", 0, dir + "/absent", false } ); return true;
    case 7: clause = "interface options"; for( std::size_t i = 0; i < o.size(); ) if( o[i].name.find( "audio-ifc" ) == 0 ) o.erase( o.begin() + static_cast<long>( i ) ); else ++i;
      o.push_back( { "audio-ifc-options", 0, "{ \"clientname\":", false } ); return true;
    case 8: clause = "option file"; extra = { g.chance( 0.5 ) ? "@" + dir + "/absent" : "--option-file=" + dir }; return true;
    default: clause = "option twice"; for( auto const & x : o ) if( x.name == "input-channels" ) { extra = { "--input-channels", x.value, "-i", x.value }; return true; } return false;
  }
}
static void information( App app, vh::Run & r, char const * name )
{
  Rng & g = r.rng; Host h( g, g.chance( 0.5 ), 1, 1, 64, 48000 ); std::vector<std::string> a; bool const version = g.chance( 0.4 );
  std::vector<Opt> o{ version ? Opt{ "version", 'v', "", true } : Opt{ "help", 'h', "", true } }; if( g.chance( 0.5 ) ) o.push_back( { "input-channels", 'i', "2", false } );
  bool inFile; a = spell( g, o, r.scratch, inFile ); h.what = std::string( name ) + quote( a ); bool ran = false; Outcome const out = launch( app, a, [&] { ran = true; } );
  r.event(); r.count( "help and version requests" );
  if( ran || out.rc != 0 ) r.viol( "information", vh::cat( h.what, ": status ", out.rc, ", ", out.text.substr( 0, 200 ) ) );
  else if( version ? out.text.find( "7.8.9" ) == std::string::npos && out.text.find( visr::version::versionString() ) == std::string::npos : ( out.text.find( "--input-channels" ) == std::string::npos || out.text.find( "--option-file" ) == std::string::npos ) )
    r.viol( "information", h.what + ": prints " + out.text.substr( 0, 300 ) );
  h.finished();
}

// ---------------------------------------------------------------- matrix convolver
static void writeWav( std::string const & n, std::vector<std::vector<float>> const & x, std::size_t rate )
{
  std::size_t const c = x.size(), len = x[0].size(); std::string d; auto u32 = [&]( std::uint32_t v ) { for( int i = 0; i < 4; ++i ) d += static_cast<char>( v >> ( 8 * i ) ); }; auto u16 = [&]( std::uint32_t v ) { for( int i = 0; i < 2; ++i ) d += static_cast<char>( v >> ( 8 * i ) ); };
  std::uint32_t const bytes = static_cast<std::uint32_t>( c * len * 4 );
  d += "RIFF"; u32( 36 + 12 + bytes ); d += "WAVEfmt "; u32( 16 ); u16( 3 ); u16( static_cast<std::uint32_t>( c ) ); u32( static_cast<std::uint32_t>( rate ) ); u32( static_cast<std::uint32_t>( rate * c * 4 ) ); u16( static_cast<std::uint32_t>( c * 4 ) ); u16( 32 ); d += "fact"; u32( 4 ); u32( static_cast<std::uint32_t>( len ) ); d += "data"; u32( bytes );
  for( std::size_t k = 0; k < len; ++k ) for( std::size_t i = 0; i < c; ++i ) { std::uint32_t v; float f = x[i][k]; std::memcpy( &v, &f, 4 ); u32( v ); }
  writeFile( n, d );
}
static void convolverCase( vh::Run & r )
{
  Rng & g = r.rng; if( g.chance( 0.03 ) ) { information( &matrix_convolver_main, r, "matrix_convolver" ); return; }
  std::size_t const ni = static_cast<std::size_t>( g.range( 1, 5 ) ), no = static_cast<std::size_t>( g.range( 1, 5 ) ), B = g.pick<std::size_t>( { 8, 16, 64, 100, 256, 1024 } ), rate = g.pick<std::size_t>( { 44100, 48000, 96000 } ); bool const full = B == 1024;
  Host h( g, g.chance( 0.5 ), ni, no, B, full ? 48000 : rate ); std::vector<Opt> o{ { "audio-backend", 'D', h.backend(), false }, { "input-channels", 'i', number( ni ), false }, { "output-channels", 'o', number( no ), false } };
  if( !full || g.chance( 0.3 ) ) { o.push_back( { "period", 'p', number( B ), false } ); o.push_back( { "sampling-frequency", 'f', number( h.rate ), false } ); }
  interfaceOptions( g, h, r.scratch, o ); needsAutoconnect( h, o );
  std::string clause; bool const wrong = g.chance( 0.3 );
  // Filters.
  std::size_t const files = g.chance( 0.06 ) ? 0 : static_cast<std::size_t>( g.range( 1, 4 ) ); std::vector<std::vector<std::vector<float>>> content( files ); std::vector<std::string> names; std::size_t longest = 0;
  for( std::size_t f = 0; f < files; ++f )
  {
    content[f].resize( static_cast<std::size_t>( g.range( 1, 4 ) ) ); std::size_t const len = static_cast<std::size_t>( g.chance( 0.2 ) ? g.range( 1, 3 ) : g.range( 1, 300 ) ); longest = std::max( longest, len );
    for( auto & c : content[f] ) { c.resize( len ); for( auto & x : c ) x = static_cast<float>( g.uni( -1, 1 ) ); }
    names.push_back( r.scratch + "/" + g.pick<std::string>( { "filters ", "brir_", "ä" } ) + number( f ) + ".wav" ); writeWav( names.back(), content[f], rate );
  }
  std::vector<std::size_t> start( files ); bool const offsets = files > 0 && g.chance( 0.5 ); std::size_t end = 0, plain = 0;
  if( offsets )
  {
    std::vector<std::size_t> order( files ); std::iota( order.begin(), order.end(), 0 ); if( g.chance( 0.6 ) ) g.shuffle( order ); std::size_t pos = 0;
    for( std::size_t f : order ) { pos += g.chance( 0.5 ) ? g.index( 4 ) : 0; start[f] = pos; pos += content[f].size(); } end = pos;
  }
  else for( std::size_t f = 0; f < files; ++f ) { start[f] = plain; plain += content[f].size(); end = plain; }
  bool overlap = false;
  if( wrong && offsets && files > 1 && g.chance( 0.3 ) ) { std::size_t const a = g.index( files ), b = ( a + 1 + g.index( files - 1 ) ) % files; start[a] = start[b] + g.index( content[b].size() ); overlap = true; clause = "overlapping filters"; }
  std::size_t maxFilters = end, length = longest;
  if( files > 0 )
  {
    std::string v; std::string const sep = g.pick<std::string>( { ",", ", ", " , " } ); for( std::size_t f = 0; f < files; ++f ) v += ( f ? sep : "" ) + ( g.chance( 0.2 ) ? "\"" + names[f] + "\"" : names[f] );
    o.push_back( { "filters", 0, v, false } );
    if( offsets ) { std::string s; for( std::size_t f = 0; f < files; ++f ) s += ( f ? std::string( g.chance( 0.5 ) ? "," : ", " ) : std::string() ) + number( start[f] ); o.push_back( { "filter-file-index-offsets", 0, s, false } ); }
  }
  if( files == 0 || g.chance( 0.3 ) ) { maxFilters = end + ( g.chance( 0.5 ) && files ? 0 : static_cast<std::size_t>( g.range( 1, 5 ) ) ); o.push_back( { "max-filters", 0, number( maxFilters ), false } ); }
  if( files == 0 || g.chance( 0.3 ) ) { length = longest + ( g.chance( 0.4 ) && files ? 0 : static_cast<std::size_t>( g.range( 1, 200 ) ) ); o.push_back( { "max-filter-length", 'l', number( length ), false } ); }
  // Routings.
  struct Route { std::size_t in, out, filter; double gain; }; std::vector<Route> routes; std::string text = "["; std::set<std::pair<std::size_t, std::size_t>> taken; bool bracketed = true;
  auto single = [&]( std::size_t x ) { return g.chance( 0.6 ) ? "\"" + number( x ) + "\"" : number( x ); };
  if( g.chance( 0.2 ) && maxFilters >= ni && ni <= no ) // one entry for all channels
  {
    bool const down = g.chance( 0.3 ); double const gain = g.chance( 0.5 ) ? 1 : 0.5; for( std::size_t i = 0; i < ni; ++i ) routes.push_back( { i, i, down ? ni - 1 - i : i, gain } );
    std::string const seq = ni > 1 ? "0:" + number( ni - 1 ) : "0"; text += "{\"input\":\"" + seq + "\", \"output\":\"" + seq + "\", \"filter\":\"" + ( down && ni > 1 ? number( ni - 1 ) + ":-1:0" : seq ) + "\"" + ( gain != 1 ? ", \"gain\":\"0.5\"" : "" ) + "}";
  }
  else for( std::size_t k = g.index( 9 ); k > 0; --k )
  {
    Route e{ g.index( ni ), g.index( no ), g.index( maxFilters ), 1 }; if( !taken.insert( { e.in, e.out } ).second ) continue; std::string gain; if( g.chance( 0.5 ) ) { e.gain = static_cast<float>( vh::cat( 0 ).size() * g.range( -8, 8 ) ) / 4; gain = ", \"gain\": " + ( g.chance( 0.5 ) ? "\"" + num( e.gain ) + "\"" : num( e.gain ) ); }
    text += ( routes.empty() ? "" : ", " ) + std::string( "{ \"input\": " ) + single( e.in ) + ", \"output\": " + single( e.out ) + ", \"filter\": " + single( e.filter ) + gain + " }"; routes.push_back( e );
  }
  text += "]"; (void)bracketed; if( !routes.empty() || g.chance( 0.3 ) ) o.push_back( { "routings", 'r', text, false } );
  if( g.chance( 0.3 ) ) o.push_back( { "max-routings", 0, number( routes.size() + g.index( 4 ) ), false } );
  if( g.chance( 0.3 ) ) o.push_back( { "fft-library", 0, g.pick<std::string>( { "default", "kissfft" } ), false } );
  if( g.chance( 0.2 ) ) o.push_back( { "dsp-optimisation", 'd', "", true } );
  std::vector<std::string> extra;
  if( wrong && !overlap )
  {
    auto set = [&]( std::string const & n, std::string const & v ) { for( auto & x : o ) if( x.name == n ) { x.value = v; return; } o.push_back( { n, 0, v, false } ); };
    switch( g.index( 12 ) )
    {
      case 0: if( files ) { clause = "absent filter file"; set( "filters", r.scratch + "/absent.wav" ); for( std::size_t i = 0; i < o.size(); ++i ) if( o[i].name == "filter-file-index-offsets" ) { o.erase( o.begin() + static_cast<long>( i ) ); break; } } break;
      case 1: if( files ) { clause = "filter file"; writeFile( names[0], "no sound" ); } break;
      case 2: if( files ) { clause = "number of offsets"; set( "filter-file-index-offsets", files == 1 ? "0,8" : "0" ); } break;
      case 3: if( longest > 1 ) { clause = "filter length"; set( "max-filter-length", number( g.index( longest ) ) ); } break;
      case 4: if( end > 0 ) { clause = "number of filters"; set( "max-filters", number( g.index( end ) ) ); } break;
      case 5: if( !routes.empty() ) { clause = "number of routings"; set( "max-routings", number( g.index( routes.size() ) ) ); } break;
      case 6: clause = "input index"; set( "routings", "[{\"input\":\"" + number( ni ) + "\",\"output\":\"0\",\"filter\":\"0\"}]" ); set( "max-routings", "1" ); break;
      case 7: clause = "output index"; set( "routings", "[{\"input\":\"0\",\"output\":\"" + number( no ) + "\",\"filter\":\"0\"}]" ); set( "max-routings", "1" ); break;
      case 8: clause = "filter index"; set( "routings", "[{\"input\":\"0\",\"output\":\"0\",\"filter\":\"" + number( maxFilters ) + "\"}]" ); set( "max-routings", "1" ); break;
      case 9: clause = "routings"; set( "routings", g.pick<std::string>( { "[{\"input\":\"0\",\"output\":\"0\"}]", "[{", "[{\"input\":\"a\",\"output\":\"0\",\"filter\":\"0\"}]" } ) ); break;
      case 10: clause = "fft library"; set( "fft-library", "no such library" ); break;
      default: if( files == 0 ) { clause = "no filters"; for( std::size_t i = 0; i < o.size(); ++i ) if( o[i].name == ( g.chance( 0.5 ) ? "max-filters" : "max-filter-length" ) ) { o.erase( o.begin() + static_cast<long>( i ) ); break; } if( std::count_if( o.begin(), o.end(), []( Opt const & x ) { return x.name == "max-filters" || x.name == "max-filter-length"; } ) == 2 ) clause.clear(); } break;
    }
    if( clause.empty() && !spoil( g, o, extra, r.scratch, clause ) ) clause.clear();
  }
  bool inFile; std::vector<std::string> a = spell( g, o, r.scratch, inFile ); a.insert( a.end(), extra.begin(), extra.end() );
  if( clause == "option file" && inFile ) { r.count( "given up" ); h.finished(); return; }
  h.what = "matrix_convolver" + quote( a ); std::uint64_t sig = std::hash<std::string>()( h.what );
  if( inFile ) r.count( "options from a file" );
  if( !clause.empty() ) { refused( &matrix_convolver_main, h, a, clause ); r.nontrivial( sig ); return; }
  // What every output consists of.
  std::vector<std::vector<float>> past( ni ); std::vector<std::vector<float> const *> filter( maxFilters, nullptr ); for( std::size_t f = 0; f < files; ++f ) for( std::size_t c = 0; c < content[f].size(); ++c ) filter[start[f] + c] = &content[f][c];
  h.reference = [&]( Sound const & x, Sound & y )
  {
    std::size_t const n0 = past[0].size(); for( std::size_t c = 0; c < ni; ++c ) past[c].insert( past[c].end(), x[c].begin(), x[c].end() );
    for( auto const & e : routes ) if( filter[e.filter] ) for( std::size_t k = 0; k < B; ++k ) { double s = 0; auto const & f = *filter[e.filter]; std::size_t const n = n0 + k; for( std::size_t i = 0; i < f.size() && i <= n; ++i ) s += static_cast<double>( f[i] ) * past[e.in][n - i]; y[e.out][k] += static_cast<float>( e.gain * s ); }
  };
  runs( &matrix_convolver_main, h, a, [&] { h.run( std::max( 3, static_cast<int>( std::min<std::size_t>( 40, 700 / B ) ) ) ); if( routes.empty() ) R->count( "convolvers without routings" ); } );
  r.count( "matrix convolvers" ); if( offsets ) r.count( "filters at offsets" ); r.nontrivial( sig ); r.sample( h.what );
}
// ---------------------------------------------------------------- feedthrough
static void feedthroughCase( vh::Run & r )
{
  Rng & g = r.rng; if( g.chance( 0.05 ) ) { information( &feedthrough_main, r, "feedthrough" ); return; }
  bool const jack = g.chance( 0.6 ); std::size_t const ni = static_cast<std::size_t>( g.range( jack ? 0 : 1, 8 ) ), no = static_cast<std::size_t>( g.range( jack ? 0 : 1, 8 ) ), B = g.pick<std::size_t>( { 4, 64, 100, 1024 } ), rate = B == 1024 ? 48000 : g.pick<std::size_t>( { 44100, 96000 } );
  Host h( g, jack, ni, no, B, rate ); std::vector<Opt> o{ { "audio-backend", 'D', h.backend(), false }, { "input-channels", 'i', number( ni ), false }, { "output-channels", 'o', number( no ), false } };
  if( B != 1024 || g.chance( 0.3 ) ) { o.push_back( { "period", 'p', number( B ), false } ); o.push_back( { "sampling-frequency", 'f', number( rate ), false } ); }
  interfaceOptions( g, h, r.scratch, o ); needsAutoconnect( h, o ); std::string clause; std::vector<std::string> extra;
  if( ni == 0 && no > 0 ) clause = "outputs without inputs"; else if( g.chance( 0.2 ) && !spoil( g, o, extra, r.scratch, clause ) ) clause.clear();
  bool inFile; std::vector<std::string> a = spell( g, o, r.scratch, inFile ); a.insert( a.end(), extra.begin(), extra.end() );
  if( clause == "option file" && inFile ) { r.count( "given up" ); h.finished(); return; }
  h.what = "feedthrough" + quote( a ); r.nontrivial( std::hash<std::string>()( h.what ) );
  if( !clause.empty() ) { refused( &feedthrough_main, h, a, clause ); return; }
  h.tolerance = 0; h.reference = [&]( Sound const & x, Sound & y ) { for( std::size_t c = 0; c < no && ni > 0; ++c ) y[c] = x[c % ni]; };
  runs( &feedthrough_main, h, a, [&] { h.run( 5 ); } ); r.count( "feedthroughs" ); r.sample( h.what );
}
// The time-frequency feedthrough has no options: what goes in comes out, some blocks later.
static void transformCase( vh::Run & r )
{
  Rng & g = r.rng; Host h( g, false, 2, 2, 256, 48000 ); h.what = "time_frequency_feedthrough"; std::vector<Sound> past; h.strict = false;
  std::vector<std::vector<float>> in( 2 ), out( 2 ); auto played = fake::pa().played;
  fake::pa().played = [&]( fake::PaStreamState & s, Sound const & y, int res ) { for( std::size_t c = 0; c < 2; ++c ) { in[c].insert( in[c].end(), h.heard[c].begin(), h.heard[c].end() ); out[c].insert( out[c].end(), y[c].begin(), y[c].end() ); } played( s, y, res ); };
  runs( &time_frequency_feedthrough_main, h, std::vector<std::string>(), [&] { h.run( 12 ); } );
  long lag = -1; for( long d = 0; d <= 1024 && lag < 0; ++d ) { double e = 0; for( std::size_t c = 0; c < 2; ++c ) for( std::size_t k = 2048; k < in[c].size(); ++k ) e = std::max( e, static_cast<double>( std::fabs( out[c][k] - in[c][k - static_cast<std::size_t>( d )] ) ) ); if( e < 1e-3 ) lag = d; }
  r.event(); if( lag < 0 ) r.viol( "transform", "time_frequency_feedthrough: the output is not the input at any delay" ); r.count( "time-frequency feedthroughs" );
}
// ---------------------------------------------------------------- renderers
struct Port // a UDP port no other monitor process uses (a TCP socket on the same number serves as the lock)
{
  int port = 0, lock = -1;
  explicit Port( Rng & g )
  {
    for( int tries = 0; tries < 50; ++tries )
    {
      sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( INADDR_ANY ); port = static_cast<int>( 20000 + g.index( 12000 ) ); a.sin_port = htons( static_cast<std::uint16_t>( port ) );
      lock = socket( AF_INET, SOCK_STREAM, 0 ); if( lock < 0 ) continue;
      if( bind( lock, reinterpret_cast<sockaddr *>( &a ), sizeof a ) == 0 && listen( lock, 1 ) == 0 )
      { int const u = socket( AF_INET, SOCK_DGRAM, 0 ); bool const ok = u >= 0 && bind( u, reinterpret_cast<sockaddr *>( &a ), sizeof a ) == 0; if( u >= 0 ) close( u ); if( ok ) return; }
      close( lock ); lock = -1;
    }
  }
  ~Port() { if( lock >= 0 ) close( lock ); }
  Port( Port const & ) = delete;
};
static void transmit( int port, std::string const & text )
{
  int const s = socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons( static_cast<std::uint16_t>( port ) ); a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); (void)sendto( s, text.data(), text.size(), 0, reinterpret_cast<sockaddr *>( &a ), sizeof a ); close( s );
}
static void rendererCase( vh::Run & r )
{
  Rng & g = r.rng; bool const visr = g.chance( 0.5 ); App const app = visr ? &visr_renderer_main : &baseline_renderer_main; std::string const name = visr ? "visr_renderer" : "baseline_renderer";
  if( g.chance( 0.05 ) ) { information( app, r, name.c_str() ); return; }
  auto top = []( Model const & x ) { std::size_t t = 0; for( auto const & s : x.reg ) t = std::max( t, s.ch ); for( auto const & s : x.subs ) t = std::max( t, s.ch ); return t; };
  Model m = makeArray( g ); if( g.chance( 0.3 ) ) for( int i = 0; i < 60 && top( m ) != m.reg.size() + m.subs.size(); ++i ) m = makeArray( g ); // an array on adjacent outputs
  std::string const array = r.scratch + "/" + g.pick<std::string>( { "array.xml", "my array.xml", "Array.XML" } ); writeFile( array, m.xml ); LoudspeakerArray la; la.loadXmlString( m.xml );
  std::size_t highest = top( m );
  bool const dense = highest == m.reg.size() + m.subs.size(); bool const said = !dense || g.chance( 0.5 ); std::size_t const ni = static_cast<std::size_t>( g.range( 1, 6 ) ), no = said ? highest + g.index( 3 ) : highest, B = g.pick<std::size_t>( { 64, 128, 256, 1024 } ), rate = B == 1024 ? 44100 : g.pick<std::size_t>( { 44100, 48000 } );
  Port scene( g ), ref( g ); if( scene.lock < 0 || ref.lock < 0 ) { r.count( "no port available" ); return; }
  Host h( g, g.chance( 0.5 ), ni, no, B, rate ); std::vector<Opt> o{ { "audio-backend", 'D', h.backend(), false }, { "input-channels", 'i', number( ni ), false }, { "array-config", 'c', array, false }, { "scene-port", 'r', number( static_cast<std::size_t>( scene.port ) ), false } };
  if( said ) o.push_back( { "output-channels", 'o', number( no ), false } );
  if( B != 1024 || g.chance( 0.3 ) ) o.push_back( { "period", 'p', number( B ), false } );
  o.push_back( { "sampling-frequency", 'f', number( rate ), false } );
  std::size_t const sections = g.chance( 0.4 ) ? static_cast<std::size_t>( g.range( 0, 3 ) ) : 0; if( sections || g.chance( 0.2 ) ) o.push_back( { "object-eq-sections", 'e', number( sections ), false } );
  bool const lf = g.chance( 0.25 ); if( lf ) o.push_back( { "low-frequency-panning", 0, "", true } );
  std::string const reverb = g.pick<std::string>( { "", "{}", "{ \"numReverbObjects\": 2, \"lateReverbFilterLength\": 0.01, \"discreteReflectionsPerObject\": 3, \"maxDiscreteReflectionDelay\": 0.1 }" } ); if( !reverb.empty() ) o.push_back( { "reverb-config", 0, reverb, false } );
  interfaceOptions( g, h, r.scratch, o ); needsAutoconnect( h, o ); std::string clause; std::vector<std::string> extra;
  if( g.chance( 0.2 ) )
  {
    auto at = [&]( std::string const & n ) -> Opt & { for( auto & x : o ) if( x.name == n ) return x; std::abort(); };
    switch( g.index( 7 ) )
    {
      case 0: clause = "absent array file"; at( "array-config" ).value = r.scratch + "/absent.xml"; break;
      case 1: clause = "array file"; writeFile( array, g.pick<std::string>( { "", "<panningConfiguration", "<panningConfiguration/>", "{}" } ) ); break;
      case 2: clause = "too few outputs"; if( highest > 1 ) { if( !said ) o.push_back( { "output-channels", 'o', "", false } ); at( "output-channels" ).value = number( g.index( highest ) ); } else clause.clear(); break;
      case 3: clause = "reverb options"; for( std::size_t i = 0; i < o.size(); ++i ) if( o[i].name == "reverb-config" ) { o.erase( o.begin() + static_cast<long>( i ) ); break; } o.push_back( { "reverb-config", 0, "{ \"numReverbObjects\": ", false } ); break;
      case 4: clause = "too many loudspeakers"; { std::ostringstream t; std::size_t const n = static_cast<std::size_t>( g.range( 65, 90 ) ); t << "<panningConfiguration dimension=\"2\" infinite=\"false\">"; for( std::size_t i = 0; i < n; ++i ) t << "<loudspeaker id=\"L" << i << "\" channel=\"" << i + 1 << "\"><polar az=\"" << 360. * static_cast<double>( i ) / static_cast<double>( n ) << "\" r=\"1\"/></loudspeaker>"; for( std::size_t i = 0; i < n; ++i ) t << "<triplet l1=\"L" << i << "\" l2=\"L" << ( i + 1 ) % n << "\"/>"; t << "</panningConfiguration>"; writeFile( array, t.str() ); if( !said ) o.push_back( { "output-channels", 'o', "", false } ); at( "output-channels" ).value = number( n ); } break;
      default: if( !spoil( g, o, extra, r.scratch, clause ) ) clause.clear();
    }
  }
  bool inFile; std::vector<std::string> a = spell( g, o, r.scratch, inFile ); a.insert( a.end(), extra.begin(), extra.end() );
  if( clause == "option file" && inFile ) { r.count( "given up" ); h.finished(); return; }
  h.what = name + quote( a ); r.nontrivial( std::hash<std::string>()( h.what ) );
  if( !clause.empty() ) { refused( app, h, a, clause ); return; }
  // The same flow, set up directly.
  static efl::BasicMatrix<float> const all( 64, 63,
#include "apps/baseline_renderer/files/quasiAllpassFIR_f64_n63_initializer_list.txt"
    , cVectorAlignmentSamples );
  pml::initialiseParameterLibrary(); efl::BasicMatrix<float> diffusion( m.reg.size(), 63, cVectorAlignmentSamples ); for( std::size_t i = 0; i < m.reg.size(); ++i ) std::copy( all.row( i ), all.row( i ) + 63, diffusion.row( i ) );
  SignalFlowContext ctx( B, rate ); signalflows::BaselineRenderer direct( ctx, "", nullptr, la, ni, no, std::max<std::size_t>( 2048, B ), diffusion, "", static_cast<std::size_t>( ref.port ), sections, reverb.empty() ? "{}" : reverb, lf ); rrl::AudioSignalFlow flow( direct );
  h.strict = false; h.source = [&]( Sound & x ) { for( std::size_t c = 0; c < x.size(); ++c ) std::fill( x[c].begin(), x[c].end(), 0.3f + 0.1f * static_cast<float>( c ) ); }; double energy = 0;
  h.reference = [&]( Sound const & x, Sound & y ) { std::vector<float const *> i( ni ); std::vector<float *> q( no ); std::vector<std::vector<float>> in( x ); std::vector<efl::BasicVector<float>> mem; std::vector<efl::BasicVector<float>> om; for( auto & v : in ) { mem.emplace_back( B, cVectorAlignmentSamples ); std::copy( v.begin(), v.end(), mem.back().data() ); } for( std::size_t c = 0; c < no; ++c ) om.emplace_back( B, cVectorAlignmentSamples ); for( std::size_t c = 0; c < ni; ++c ) i[c] = mem[c].data(); for( std::size_t c = 0; c < no; ++c ) q[c] = om[c].data(); flow.process( i.data(), q.data() ); for( std::size_t c = 0; c < no; ++c ) std::copy( om[c].data(), om[c].data() + B, y[c].begin() ); energy = 0; for( auto const & v : y ) for( float e : v ) energy += std::fabs( e ); };
  runs( app, h, a, [&] {
    long settled = 0;
    for( long phase = g.range( 1, 2 ); phase > 0; --phase )
    {
      objectmodel::ObjectVector ov; for( std::size_t c = 0; c < ni; ++c ) { std::unique_ptr<objectmodel::Object> ob; auto const id = static_cast<objectmodel::ObjectId>( c ); V const p = onSphere( g );
        switch( g.index( 3 ) ) { case 0: { auto * s = new objectmodel::PointSource( id ); ob.reset( s ); s->setX( static_cast<float>( 2 * p[0] ) ); s->setY( static_cast<float>( 2 * p[1] ) ); s->setZ( static_cast<float>( m.twoD ? 0 : 2 * p[2] ) ); } break;
          case 1: { auto * s = new objectmodel::PlaneWave( id ); ob.reset( s ); s->setIncidenceAzimuth( static_cast<float>( g.uni( 0, 360 ) ) ); s->setIncidenceElevation( 0 ); s->setReferenceDistance( 1 ); } break;
          default: ob.reset( new objectmodel::DiffuseSource( id ) ); }
        ob->resetNumberOfChannels( 1 ); ob->setChannelIndex( 0, static_cast<objectmodel::Object::ChannelIndex>( c ) ); ob->setLevel( static_cast<float>( g.uni( 0.3, 1 ) ) ); ov.insert( *ob ); }
      std::ostringstream text; objectmodel::ObjectVectorParser::encodeObjectVector( ov, text ); transmit( scene.port, text.str() ); transmit( ref.port, text.str() );
      auto const start = std::chrono::steady_clock::now(); int good = 0; long blocks = 0;
      do { h.run( 1 ); ++blocks; good = h.lastGood && energy > 0 ? good + 1 : 0; if( !good && blocks % 200 == 0 ) std::this_thread::sleep_for( std::chrono::milliseconds( 1 ) ); }
      while( good < 5 + static_cast<int>( 3000 / B ) && ( blocks < 30000 / static_cast<long>( B ) || std::chrono::steady_clock::now() - start < std::chrono::seconds( 5 ) ) );
      R->event(); if( good == 0 ) { R->viol( "rendering", vh::cat( h.what, ": after ", blocks, " blocks ", h.mismatch.empty() ? "there is no sound" : h.mismatch ) ); return; } ++settled; R->count( "scenes over the network" );
    }
    (void)settled; } );
  r.count( visr ? "VISR renderers" : "baseline renderers" ); if( !said ) r.count( "outputs by the array" ); r.sample( h.what );
}

static void oneCase( vh::Run & r )
{
  R = &r; Rng & g = r.rng;
  if( r.mode == "renderers" ) { rendererCase( r ); return; }
  double const x = g.uni( 0, 1 );
  if( x < 0.68 ) convolverCase( r ); else if( x < 0.98 ) feedthroughCase( r ); else transformCase( r );
}
int main( int argc, char ** argv ) { return vh::runMain( argc, argv, oneCase ); }
