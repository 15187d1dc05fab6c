// C22: the audio interfaces between the host's sound system (played by stand-ins for PortAudio and Jack) and a flow.
// LIBS: audiointerfaces rrl pml rbbl visr efl portaudio jack
#include "vh.hpp"
#include "fakehost.hpp"
#include <libaudiointerfaces/audio_interface.hpp>
#include <libaudiointerfaces/audio_interface_factory.hpp>
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <atomic>
#include <memory>
using namespace visr;
using audiointerfaces::AudioInterface;
using audiointerfaces::AudioInterfaceFactory;
using fake::Sound;
using vh::Rng;
// Reports from the case and from the host's thread; counting must not order the two.
struct Reports
{
  vh::Run * run = nullptr; std::atomic<long> ticks{ 0 }; std::mutex m;
  void event() { ticks.fetch_add( 1, std::memory_order_relaxed ); }
  void viol( std::string const & k, std::string const & d ) { std::lock_guard<std::mutex> l( m ); run->viol( k, d ); }
};
static Reports reports;
static Reports * const R = &reports;

// A flow whose output depends on every sample and on the number of blocks before.
struct Atom: public AtomicComponent
{
  AudioInput in; AudioOutput out; long n = 0;
  Atom( SignalFlowContext const & c, std::size_t ni, std::size_t no ): AtomicComponent( c, "atom" ), in( "in", *this, ni ), out( "out", *this, no ) {}
  static float f( Sound const & x, std::size_t o, std::size_t k, long n ) { return static_cast<float>( n * 8 + static_cast<long>( o ) ) + ( x.empty() ? 0.f : 0.5f * x[( o + n ) % x.size()][k] ); }
  void process() override
  {
    Sound x( in.width() );
    for( std::size_t c = 0; c < x.size(); ++c ) x[c].assign( in[c], in[c] + period() );
    for( std::size_t o = 0; o < out.width(); ++o ) for( std::size_t k = 0; k < period(); ++k ) out[o][k] = f( x, o, k, n );
    ++n;
  }
};
// What is on either side of the interface: the callback (with or without a flow), and the sound hardware.
struct Side
{
  std::size_t ni, no, B; Rng g; bool threaded = false;
  std::unique_ptr<Atom> atom; std::unique_ptr<rrl::AudioSignalFlow> flow;
  Sound heard;            // what the hardware captured in this cycle, by channel of the interface
  Sound produced;         // what the callback produced in this cycle
  bool called = false, throwNow = false;
  long calls = 0, n = 0;
  std::atomic<bool> dead{ true }, stopping{ false };
  std::string id;
  Side( std::size_t a, std::size_t b, std::size_t c, Rng const & r, bool th ): ni( a ), no( b ), B( c ), g( r ), threaded( th ) {}
  static void callback( void * u, float const * const * in, float * const * out, bool & status )
  {
    Side & s = *static_cast<Side *>( u );
    ++s.calls; s.called = true;
    if( s.dead ) R->viol( "callback_after_end", s.id + ": the callback is called although the interface is stopped, gone or without callback" );
    if( !s.stopping )
      for( std::size_t c = 0; c < s.ni; ++c )
        for( std::size_t k = 0; k < s.B; ++k )
          if( in[c][k] != s.heard[c][k] )
          { R->viol( "capture", vh::cat( s.id, ": captured channel ", c, " sample ", k, " of block ", s.calls - 1, " is ", in[c][k], ", the sound system delivered ", s.heard[c][k] ) ); c = s.ni - 1; break; }
    R->event();
    if( s.throwNow ) throw std::runtime_error( "deliberate" );
    if( s.flow )
    {
      rrl::AudioSignalFlow::processFunction( s.flow.get(), in, out, status );
      Sound x( s.ni ); for( std::size_t c = 0; c < s.ni; ++c ) x[c].assign( in[c], in[c] + s.B );
      s.produced.assign( s.no, std::vector<float>( s.B ) );
      for( std::size_t o = 0; o < s.no; ++o ) for( std::size_t k = 0; k < s.B; ++k ) s.produced[o][k] = Atom::f( x, o, k, s.n );
      ++s.n;
    }
    else
    {
      s.produced.assign( s.no, std::vector<float>( s.B ) );
      for( auto & v : s.produced ) for( auto & x : v ) x = static_cast<float>( s.g.uni( -1, 1 ) );
      for( std::size_t c = 0; c < s.no; ++c ) std::copy( s.produced[c].begin(), s.produced[c].end(), out[c] );
      status = true;
    }
  }
};
static std::string q( std::string const & s ) { return "\"" + s + "\""; }
static std::string boolean( Rng & g, bool b ) { return g.chance( 0.5 ) ? ( b ? "true" : "false" ) : ( b ? "\"true\"" : "\"false\"" ); }
static std::string object( Rng & g, std::vector<std::string> m )
{
  g.shuffle( m ); std::string s = "{"; 
  for( std::size_t i = 0; i < m.size(); ++i ) s += ( i ? ", " : " " ) + m[i];
  return s + " }";
}
static void misused( std::string const & what )
{
  for( auto const & m : fake::misuses() ) R->viol( "host_misused:" + m, what + ": " + m );
  fake::misuses().clear();
}
static std::vector<std::string> const brokenJson{ "{", "{ \"a\": }", "[ 1, 2", "nonsense", "{ \"hostapi\": \"default\" ", "{ \"clientname\": \"x\", }" };

// ---------------------------------------------------------------- PortAudio
struct PaPlan { std::string conf, clause; bool ok = true; int inDev = -1, outDev = -1; bool interleaved = false; };
static std::vector<std::pair<PaHostApiTypeId, std::string>> const apiTypes{ { paALSA, "ALSA" }, { paJACK, "JACK" }, { paOSS, "OSS" }, { paASIO, "ASIO" }, { paWASAPI, "WASAPI" },
  { paCoreAudio, "CoreAudio" }, { paMME, "MME" }, { paDirectSound, "DirectSound" }, { paWDMKS, "WDMKS" }, { paAudioScienceHPI, "AudioScienceHPI" } };
static std::vector<std::size_t> apiOf; // host API index -> index into apiTypes

static void paWorld( Rng & g, std::size_t ni, std::size_t no )
{
  fake::Pa & p = fake::pa(); p.reset();
  std::vector<std::size_t> order( apiTypes.size() ); for( std::size_t i = 0; i < order.size(); ++i ) order[i] = i;
  g.shuffle( order ); order.resize( g.range( 1, 4 ) ); apiOf = order;
  int id = 100;
  for( std::size_t a = 0; a < order.size(); ++a )
  {
    p.addApi( apiTypes[order[a]].first, apiTypes[order[a]].second );
    int const nd = static_cast<int>( g.range( 1, 5 ) );
    for( int d = 0; d < nd; ++d )
    {
      int const kind = static_cast<int>( g.range( 0, 3 ) );
      int const i = kind == 1 ? 0 : static_cast<int>( g.chance( 0.7 ) ? ni + g.range( 0, 3 ) : g.range( 1, 3 ) ), o = kind == 2 ? 0 : static_cast<int>( g.chance( 0.7 ) ? no + g.range( 0, 3 ) : g.range( 1, 3 ) );
      int const dev = p.addDev( static_cast<int>( a ), vh::cat( "Card ", id++, ": analogue" ), i, o );
      if( i && ( p.apis[a].info.defaultInputDevice == paNoDevice || g.chance( 0.3 ) ) && g.chance( 0.9 ) ) p.apis[a].info.defaultInputDevice = dev;
      if( o && ( p.apis[a].info.defaultOutputDevice == paNoDevice || g.chance( 0.3 ) ) && g.chance( 0.9 ) ) p.apis[a].info.defaultOutputDevice = dev;
    }
  }
  p.defApi = static_cast<int>( g.index( order.size() ) );
  p.settle();
}
static PaPlan paPlan( Rng & g, std::size_t ni, std::size_t no )
{
  fake::Pa & p = fake::pa(); PaPlan pl; std::vector<std::string> m;
  auto bad = [&]( std::string const & c ) { if( pl.ok ) pl.clause = c; pl.ok = false; };
  int api = p.defApi;
  if( g.chance( 0.6 ) )
  {
    if( g.chance( 0.2 ) ) m.push_back( "\"hostapi\": \"default\"" );
    else if( g.chance( 0.06 ) ) { m.push_back( "\"hostapi\": \"" + g.pick<std::string>( { "alsa", "Default", "PulseAudio", "", "paALSA" } ) + "\"" ); bad( "host API" ); }
    else if( g.chance( 0.08 ) )
    {
      std::size_t i = g.index( apiTypes.size() );
      m.push_back( "\"hostapi\": " + q( apiTypes[i].second ) );
      api = -1; for( std::size_t a = 0; a < apiOf.size(); ++a ) if( apiOf[a] == i ) api = static_cast<int>( a );
      if( api < 0 ) bad( "absent host API" );
    }
    else { api = static_cast<int>( g.index( apiOf.size() ) ); m.push_back( "\"hostapi\": " + q( apiTypes[apiOf[api]].second ) ); }
  }
  for( int dir = 0; dir < 2 && api >= 0; ++dir )
  {
    auto const & a = p.apis[api];
    int dev = dir ? a.info.defaultOutputDevice : a.info.defaultInputDevice;
    std::string key = dir ? "\"outputDevice\": " : "\"inputDevice\": ";
    std::size_t need = dir ? no : ni;
    if( g.chance( 0.5 ) )
    {
      if( g.chance( 0.1 ) ) m.push_back( key + "\"\"" );
      else if( g.chance( 0.08 ) ) { m.push_back( key + "\"Card 9\"" ); dev = paNoDevice; }
      else
      {
        std::vector<int> cand;
        for( int d : a.devs ) if( static_cast<std::size_t>( dir ? p.devs[d]->info.maxOutputChannels : p.devs[d]->info.maxInputChannels ) >= need ) cand.push_back( d );
        dev = cand.empty() || g.chance( 0.05 ) ? a.devs[g.index( a.devs.size() )] : g.pick( cand );
        m.push_back( key + q( p.devs[dev]->name + ( g.chance( 0.2 ) ? " (second half of a long name)" : "" ) ) );
      }
    }
    if( dev == paNoDevice ) bad( dir ? "no output device" : "no input device" );
    else if( static_cast<std::size_t>( dir ? p.devs[dev]->info.maxOutputChannels : p.devs[dev]->info.maxInputChannels ) < need ) bad( "too few channels" );
    ( dir ? pl.outDev : pl.inDev ) = dev;
  }
  if( g.chance( 0.5 ) ) { pl.interleaved = g.chance( 0.6 ); m.push_back( "\"interleaved\": " + boolean( g, pl.interleaved ) ); }
  if( g.chance( 0.4 ) )
  {
    if( g.chance( 0.12 ) )
    {
      m.push_back( "\"sampleformat\": " + q( g.pick<std::string>( { "signedInt8Bit", "unsignedInt8Bit", "signedInt16Bit", "unsignedInt16Bit", "signedInt24Bit", "unsignedInt24Bit", "signedInt32Bit", "unsignedInt32Bit" } ) ) );
      bad( "unsupported sample format" );
    }
    else if( g.chance( 0.06 ) ) { m.push_back( "\"sampleformat\": " + q( g.pick<std::string>( { "float64Bit", "", "Float32Bit", "float" } ) ) ); bad( "sample format" ); }
    else m.push_back( "\"sampleformat\": \"float32Bit\"" );
  }
  if( g.chance( 0.04 ) ) { pl.conf = g.pick( brokenJson ); bad( "text" ); return pl; }
  pl.conf = m.empty() && g.chance( 0.7 ) ? "" : object( g, m );
  return pl;
}

static void portaudioCase( vh::Run & r, bool threaded )
{
  Rng & g = r.rng; fake::misuses().clear();
  std::size_t ni = g.range( 1, 6 ), no = g.range( 1, 6 ), B = g.pick<std::size_t>( { 1, 4, 16, 64, 100 } ), rate = g.pick<std::size_t>( { 44100, 48000, 96000 } );
  paWorld( g, ni, no );
  fake::Pa & p = fake::pa(); p.threaded = threaded;
  std::uint64_t sig = vh::mix( ni * 100 + no, B );
  int const attempts = static_cast<int>( g.range( 1, 3 ) );
  for( int at = 0; at < attempts; ++at )
  {
    PaPlan pl = paPlan( g, ni, no ); std::string what = vh::cat( "PortAudio, ", ni, " in, ", no, " out, period ", B, ", options ", pl.conf );
    p.failInit = g.chance( 0.02 ); p.failOpen = g.chance( 0.03 ); p.badRate = g.chance( 0.03 ) ? static_cast<double>( rate ) : -1; p.failStart = g.chance( 0.03 );
    bool const expectOk = pl.ok && !p.failInit && !p.failOpen && p.badRate < 0;
    Side s( ni, no, B, Rng( g.next() ), threaded ); s.id = what;
    if( g.chance( 0.5 ) ) { SignalFlowContext ctx( B, rate ); s.atom.reset( new Atom( ctx, ni, no ) ); s.flow.reset( new rrl::AudioSignalFlow( *s.atom ) ); }
    std::unique_ptr<AudioInterface> ifc; std::string err;
    // An interface of another user of the library: what happens here must not affect it.
    bool const other = p.inits > 0; (void)other;
    try { ifc = AudioInterfaceFactory::create( "PortAudio", AudioInterface::Configuration( ni, no, rate, B ), pl.conf ); }
    catch( std::exception const & e ) { err = e.what(); if( err.empty() ) err = "(no text)"; }
    R->event(); misused( what );
    if( !ifc )
    {
      if( expectOk ) R->viol( "refused", what + ": refused with " + err );
      if( p.inits != 0 || p.openStreams() != 0 ) R->viol( "left_behind", vh::cat( what, ": refused (", err, "), but PortAudio stays initialised ", p.inits, " times with ", p.openStreams(), " open streams" ) );
      r.count( "inadmissible PortAudio configurations refused" ); p.reset(); paWorld( g, ni, no ); p.threaded = threaded; sig = vh::mix( sig, std::hash<std::string>()( pl.conf ) );
      continue;
    }
    if( !expectOk ) { R->viol( "accepted:" + ( pl.ok ? std::string( "failure of the sound system" ) : pl.clause ), what + ": accepted although it cannot be honoured" ); return; }
    if( ifc->numberOfCaptureChannels() != ni || ifc->numberOfPlaybackChannels() != no || ifc->period() != B || ifc->samplingFrequency() != rate )
      R->viol( "properties", what + ": the interface reports other properties" );
    if( p.openStreams() != 1 ) { R->viol( "streams", vh::cat( what, ": ", p.openStreams(), " open streams" ) ); return; }
    fake::PaStreamState * st = nullptr; for( auto & x : p.streams ) if( x->open ) st = x.get();
    if( st->in.device != pl.inDev || st->out.device != pl.outDev || st->rate != static_cast<double>( rate ) || st->frames != B || st->in.channelCount != static_cast<int>( ni ) || st->out.channelCount != static_cast<int>( no ) )
      R->viol( "stream", vh::cat( what, ": stream with devices ", st->in.device, "/", st->out.device, " (expected ", pl.inDev, "/", pl.outDev, "), channels ", st->in.channelCount, "/", st->out.channelCount, ", rate ", st->rate, ", block ", st->frames ) );
    auto sampleFormat = [&]( PaSampleFormat f ) { return ( f & ~paNonInterleaved ) == paFloat32 && ( ( f & paNonInterleaved ) != 0 ) == !pl.interleaved; };
    if( !sampleFormat( st->in.sampleFormat ) || !sampleFormat( st->out.sampleFormat ) ) { R->viol( "format", what + ": stream of another sample format" ); return; }
    int failures = 0;
    p.capture = [&]( fake::PaStreamState &, Sound & x ) { for( auto & v : x ) for( auto & e : v ) e = static_cast<float>( s.g.uni( -1, 1 ) ); s.heard = x; s.called = false; };
    p.played = [&]( fake::PaStreamState &, Sound const & y, int res )
    {
      if( s.throwNow ) { ++failures; if( s.called && res == paContinue ) R->viol( "error_ignored", what + ": the stream continues after an error" ); return; }
      if( !s.called ) { if( !s.dead ) R->viol( "block_lost", what + ": a block did not reach the callback" ); return; }
      for( std::size_t c = 0; c < s.no; ++c ) for( std::size_t k = 0; k < s.B; ++k ) if( y[c][k] != s.produced[c][k] )
      { R->viol( "playback", vh::cat( what, ": played channel ", c, " sample ", k, " is ", y[c][k], ", produced ", s.produced[c][k] ) ); return; }
      R->event();
      if( res != paContinue ) R->viol( "stopped", what + ": the stream ends although the callback succeeded" );
    };
    auto during = [&]( int n ) { if( threaded ) { long c0 = static_cast<long>( g.range( 0, 300 ) ); std::this_thread::sleep_for( std::chrono::microseconds( c0 ) ); } else p.run( n ); };
    bool const late = !threaded && g.chance( 0.2 ); // stream running before there is a callback
    if( !late ) { s.dead = false; ifc->registerCallback( &Side::callback, &s ); }
    bool started = true;
    try { ifc->start(); } catch( std::exception const & ) { started = false; }
    if( started == p.failStart ) R->viol( "start", what + ( started ? ": start() ignores an error" : ": start() fails" ) );
    if( started )
    {
      during( static_cast<int>( g.range( 0, 4 ) ) );
      if( late ) { s.dead = false; ifc->registerCallback( &Side::callback, &s ); during( 3 ); }
      long const before = threaded ? 0 : s.calls;
      if( !threaded ) { p.run( 5 ); if( s.calls != before + 5 ) R->viol( "block_count", vh::cat( what, ": ", s.calls - before, " callbacks for 5 blocks" ) ); }
      if( !threaded && g.chance( 0.25 ) )
      {
        s.throwNow = true; p.run( 1 ); r.count( "errors within the callback" );
        if( st->active ) R->viol( "error_ignored", what + ": the stream continues after an error" );
        s.throwNow = false;
      }
      if( !threaded && g.chance( 0.15 ) )
      {
        auto other = []( void *, float const * const *, float * const *, bool & ) {};
        AudioInterface::AudioCallback o = other;
        if( ifc->unregisterCallback( o ) ) R->viol( "unregister", what + ": a callback never registered is reported as removed" );
        if( !ifc->unregisterCallback( &Side::callback ) ) R->viol( "unregister", what + ": the registered callback is not removed" );
        s.dead = true; p.run( 2 );
        s.dead = false; ifc->registerCallback( &Side::callback, &s );
      }
      if( g.chance( 0.8 ) )
      {
        bool fin = true;
        try { ifc->stop(); } catch( std::exception const & e ) { fin = false; err = e.what(); }
        if( !fin ) R->viol( "stop", what + ": stop() fails with " + err );
        s.dead = true; r.count( "PortAudio streams stopped" );
        if( threaded && s.calls == 0 ) r.count( "streams stopped before their first block" );
        p.run( threaded ? 0 : 3 );
        // Whatever is called on a stopped interface has to be refused or to work.
        while( g.chance( 0.3 ) )
        {
          bool const again = g.chance( 0.5 ); bool ok = true;
          try { if( again ) ifc->start(); else ifc->stop(); } catch( std::exception const & ) { ok = false; }
          r.count( "calls after the end of a stream" );
          if( again && ok ) { s.dead = false; during( 2 ); try { ifc->stop(); } catch( std::exception const & ) {} s.dead = true; }
        }
      }
      else r.count( "running interfaces destroyed" );
    }
    // Another part of the program may use the library as well.
    bool const shared = g.chance( 0.3 ); if( shared ) Pa_Initialize();
    ifc.reset(); s.dead = true;
    sig = vh::mix( vh::mix( sig, s.calls ), std::hash<std::string>()( pl.conf ) );
    if( !threaded ) p.run( 2 ); else if( shared ) std::this_thread::sleep_for( std::chrono::microseconds( 50 ) );
    if( p.openStreams() != 0 ) R->viol( "left_behind", what + ": a stream stays open after the interface is gone" );
    if( shared ) Pa_Terminate();
    misused( what );
    if( p.inits != 0 ) R->viol( "left_behind", vh::cat( what, ": PortAudio stays initialised (", p.inits, ")" ) );
    r.count( "PortAudio streams" ); if( pl.interleaved ) r.count( "interleaved streams" ); if( threaded ) r.count( "streams in a thread of the host" );
    r.sample( what );
    p.reset(); paWorld( g, ni, no ); p.threaded = threaded;
  }
  r.nontrivial( sig );
  p.reset();
}

// ---------------------------------------------------------------- Jack
struct JackDir { std::vector<std::string> ports, ext; bool autoconn = false, overridden = false; bool ok = true; std::string clause, text; };
static std::string indices( Rng & g, std::vector<int> const & v )
{
  bool contiguous = v.size() > 1; for( std::size_t i = 1; i < v.size(); ++i ) contiguous = contiguous && v[i] == v[i - 1] + 1;
  if( contiguous && g.chance( 0.6 ) ) return vh::cat( v.front(), ":", v.back() );
  std::string s; for( std::size_t i = 0; i < v.size(); ++i ) s += ( i ? ( g.chance( 0.5 ) ? "," : ", " ) : "" ) + std::to_string( v[i] );
  return s;
}
static std::vector<int> someIndices( Rng & g, std::size_t n, int first, int span )
{
  std::vector<int> v;
  if( g.chance( 0.5 ) ) { int a = first + static_cast<int>( g.range( 0, 3 ) ); for( std::size_t i = 0; i < n; ++i ) v.push_back( a + static_cast<int>( i ) ); return v; }
  std::vector<int> all; for( int i = 0; i < span + static_cast<int>( n ); ++i ) all.push_back( first + i );
  g.shuffle( all ); v.assign( all.begin(), all.begin() + static_cast<long>( n ) ); return v;
}
static JackDir jackDir( Rng & g, bool capture, std::size_t N, bool globalAuto )
{
  JackDir d; d.autoconn = globalAuto; std::string const base = capture ? "in_" : "out_", extBase = capture ? "capture_" : "playback_";
  auto bad = [&]( std::string const & c ) { if( d.ok ) d.clause = c; d.ok = false; };
  std::vector<std::string> m;
  if( g.chance( 0.25 ) ) // nothing said about this direction
  {
    for( std::size_t i = 0; i < N; ++i ) { d.ports.push_back( base + std::to_string( i ) ); d.ext.push_back( "system:" + extBase + std::to_string( i + 1 ) ); }
    return d;
  }
  if( g.chance( 0.4 ) ) { d.autoconn = g.chance( 0.5 ); d.overridden = d.autoconn != globalAuto; m.push_back( "\"autoconnect\": " + boolean( g, d.autoconn ) ); }
  if( g.chance( 0.8 ) )
  {
    // Groups of ports.
    std::vector<std::size_t> parts;
    if( N < 2 || g.chance( 0.4 ) ) parts.push_back( N );
    else { std::size_t a = g.range( 1, static_cast<long>( N ) - 1 ); parts = { a, N - a }; if( parts[1] > 1 && g.chance( 0.4 ) ) { parts.push_back( parts[1] - 1 ); parts[1] = 1; } }
    bool const miscounted = N > 0 && g.chance( 0.08 );
    if( miscounted ) { if( g.chance( 0.5 ) ) parts.push_back( g.range( 1, 3 ) ); else parts[g.index( parts.size() )] += g.range( 1, 2 ); }
    bool const named = parts.size() > 1 || g.chance( 0.6 ) || miscounted; // with base name and indices
    std::vector<std::string> entries; int next = 0;
    bool const distinctBases = g.chance( 0.3 );
    bool anyExt = g.chance( 0.8 ) || parts.size() > 1;
    for( std::size_t e = 0; e < parts.size(); ++e )
    {
      std::vector<std::string> t; std::size_t n = parts[e];
      if( named && n > 0 )
      {
        std::string b = vh::cat( capture ? "mic" : "spk", distinctBases ? vh::cat( e, "_" ) : "_" );
        std::vector<int> idx = someIndices( g, n, next, distinctBases ? 4 : 0 );
        if( !distinctBases ) next = *std::max_element( idx.begin(), idx.end() ) + 1;
        t.push_back( "\"basename\": " + q( b ) ); t.push_back( "\"indices\": " + q( indices( g, idx ) ) );
        for( int i : idx ) d.ports.push_back( b + std::to_string( i ) );
      }
      else
      {
        std::string b = g.chance( 0.5 ) ? base : ( capture ? "mic" : "spk" );
        if( b != base || g.chance( 0.3 ) ) t.push_back( "\"basename\": " + q( b ) );
        for( std::size_t i = 0; i < N; ++i ) d.ports.push_back( b + std::to_string( i ) );
      }
      std::string client = "system", portname = extBase; std::vector<int> idx; std::vector<std::string> x;
      if( anyExt )
      {
        if( g.chance( 0.4 ) ) { client = g.pick<std::string>( { "system", "REAPER" } ); x.push_back( "\"client\": " + q( client ) ); }
        if( g.chance( 0.3 ) ) { portname = g.pick<std::string>( { extBase, capture ? "out" : "in" } ); x.push_back( "\"portname\": " + q( portname ) ); }
        if( n > 0 && ( parts.size() > 1 || g.chance( 0.6 ) ) )
        {
          std::size_t cnt = n;
          if( d.autoconn && g.chance( 0.03 ) ) cnt += g.range( 1, 2 );
          idx = someIndices( g, cnt, 1, 3 ); x.push_back( "\"indices\": " + q( indices( g, idx ) ) );
        }
        else for( std::size_t i = 0; i < N; ++i ) idx.push_back( static_cast<int>( i ) + 1 );
        t.push_back( "\"externalport\": " + object( g, x ) );
      }
      else for( std::size_t i = 0; i < N; ++i ) idx.push_back( static_cast<int>( i ) + 1 );
      for( int i : idx ) d.ext.push_back( client + ":" + portname + std::to_string( i ) );
      entries.push_back( object( g, t ) );
    }
    if( d.ports.size() != N ) bad( "number of ports" );
    if( d.autoconn && d.ext.size() != N ) bad( "number of external ports" );
    std::string list; for( std::size_t e = 0; e < entries.size(); ++e ) list += ( e ? ", " : "" ) + entries[e];
    m.push_back( "\"port\": [ " + list + " ]" );
  }
  else for( std::size_t i = 0; i < N; ++i ) { d.ports.push_back( base + std::to_string( i ) ); d.ext.push_back( "system:" + extBase + std::to_string( i + 1 ) ); }
  d.text = ( capture ? "\"capture\": " : "\"playback\": " ) + object( g, m );
  return d;
}

static void jackCase( vh::Run & r, bool threaded )
{
  Rng & g = r.rng; fake::misuses().clear();
  std::size_t ni = g.range( 0, 6 ), no = g.range( 0, 6 ), B = g.pick<std::size_t>( { 1, 4, 16, 64, 100 } ), rate = g.pick<std::size_t>( { 44100, 48000, 96000 } );
  fake::Jack & j = fake::jk();
  std::uint64_t sig = vh::mix( ni * 100 + no, B + 7 );
  int const attempts = static_cast<int>( g.range( 1, 3 ) );
  j.reset();
  for( int at = 0; at < attempts; ++at )
  {
    bool const globalAuto = g.chance( 0.6 ); bool ok = true; std::string clause, client = "VISR", server = "default";
    std::vector<std::string> m;
    if( g.chance( 0.6 ) ) { client = g.pick<std::string>( { "BaseRenderer", "VISR", "x" } ); m.push_back( "\"clientname\": " + q( client ) ); }
    if( g.chance( 0.3 ) ) { server = g.pick<std::string>( { "studio", "default" } ); m.push_back( "\"servername\": " + q( g.chance( 0.2 ) ? ( server = "default", "" ) : server ) ); }
    if( globalAuto || g.chance( 0.3 ) ) m.push_back( "\"autoconnect\": " + boolean( g, globalAuto ) );
    if( g.chance( 0.1 ) ) m.push_back( "\"verbose\": " + boolean( g, g.chance( 0.5 ) ) );
    JackDir ci = jackDir( g, true, ni, globalAuto ), po = jackDir( g, false, no, globalAuto );
    // Names that occur twice.
    bool clash = false;
    if( ci.ok && po.ok && g.chance( 0.08 ) && ni + no > 1 )
    {
      int const kind = static_cast<int>( g.range( 0, 2 ) ); std::string list, text;
      if( kind == 0 && ni > 1 ) { std::string l; for( std::size_t i = 0; i + 1 < ni; ++i ) l += std::to_string( i ) + ","; ci.text = "\"capture\": { \"port\": [ { \"basename\": \"a\", \"indices\": \"" + l + "0\" } ] }"; ci.autoconn = globalAuto; clash = true; }
      if( kind == 1 && no > 1 ) { std::string l; for( std::size_t i = 0; i + 1 < no; ++i ) l += std::to_string( i ) + ","; po.text = "\"playback\": { \"port\": [ { \"basename\": \"a\", \"indices\": \"" + l + "0\" } ] }"; po.autoconn = globalAuto; clash = true; }
      if( kind == 2 && ni > 0 && no > 0 ) { ci.text = "\"capture\": { \"port\": { \"p\": { \"basename\": \"same\" } } }"; po.text = "\"playback\": { \"port\": { \"p\": { \"basename\": \"same\" } } }"; clash = true; }
      if( clash ) { ok = false; clause = "duplicate port names"; }
    }
    if( !ci.ok ) { ok = false; clause = ci.clause; } else if( !po.ok ) { ok = false; clause = po.clause; }
    std::vector<std::string> pc; if( !ci.text.empty() ) pc.push_back( ci.text ); if( !po.text.empty() ) pc.push_back( po.text );
    if( !pc.empty() ) m.push_back( "\"portconfig\": " + object( g, pc ) );
    std::string conf = m.empty() && g.chance( 0.7 ) ? ( g.chance( 0.3 ) ? " \t" : "" ) : object( g, m );
    if( g.chance( 0.03 ) ) { conf = g.pick( brokenJson ); ok = false; clause = "text"; }
    std::string const what = vh::cat( "Jack, ", ni, " in, ", no, " out, period ", B, ", options ", conf );

    std::vector<std::pair<std::string, std::string>> expectedIn, expectedOut;
    j.reset(); j.rate = static_cast<jack_nframes_t>( rate ); j.threaded = threaded; j.frames = static_cast<jack_nframes_t>( B + g.range( 0, 1 ) * 3 );
    j.physical( "system", "capture_", 1, static_cast<int>( g.range( 0, 8 ) ), true ); j.physical( "system", "playback_", 1, static_cast<int>( g.range( 0, 8 ) ), false );
    j.physical( "REAPER", "out", 1, 4, true ); j.physical( "REAPER", "in", 1, 4, false );
    bool fault = false;
    if( g.chance( 0.12 ) )
    {
      fault = true;
      switch( g.range( 0, 3 ) )
      {
      case 0: j.failStatus = static_cast<int>( JackFailure ) | static_cast<int>( g.pick<int>( { JackServerFailed, JackNameNotUnique, 0, JackServerFailed | JackServerError, JackVersionError } ) ); break;
      case 1: j.failProc = true; break;
      case 2: j.failSize = true; break;
      default: j.rate += 1;
      }
    }
    j.failActivate = g.chance( 0.03 );
    if( g.chance( 0.05 ) && ni + no > 0 ) j.failPort = static_cast<int>( g.index( ni + no ) );
    Side s( ni, no, B, Rng( g.next() ), threaded ); s.id = what;
    if( g.chance( 0.4 ) ) { SignalFlowContext ctx( B, rate ); s.atom.reset( new Atom( ctx, ni, no ) ); s.flow.reset( new rrl::AudioSignalFlow( *s.atom ) ); }
    std::unique_ptr<AudioInterface> ifc; std::string err;
    try { ifc = AudioInterfaceFactory::create( "Jack", AudioInterface::Configuration( ni, no, rate, B ), conf ); }
    catch( std::exception const & e ) { err = e.what(); if( err.empty() ) err = "(no text)"; }
    R->event(); misused( what );
    if( !ifc )
    {
      if( ok && !fault ) R->viol( "refused", what + ": refused with " + err );
      if( j.openClients() != 0 || j.livePorts() != 0 ) R->viol( "left_behind", vh::cat( what, ": refused (", err, "), but the server keeps ", j.openClients(), " clients and ", j.livePorts(), " ports" ) );
      r.count( "inadmissible Jack configurations refused" ); sig = vh::mix( sig, std::hash<std::string>()( conf ) );
      continue;
    }
    if( !ok || fault ) { R->viol( "accepted:" + ( ok ? std::string( "failure of the server" ) : clause ), what + ": accepted although it cannot be honoured" ); ifc.reset(); j.reset(); return; }
    if( ifc->numberOfCaptureChannels() != ni || ifc->numberOfPlaybackChannels() != no || ifc->period() != B || ifc->samplingFrequency() != rate ) R->viol( "properties", what + ": the interface reports other properties" );
    if( j.openClients() != 1 || j.clients.back()->name != client ) R->viol( "client", what + ": client " + j.clients.back()->name + ", expected " + client );
    if( j.lastServer != server ) R->viol( "server", what + ": server " + j.lastServer + ", expected " + server );
    if( j.frames != B ) R->viol( "period", vh::cat( what, ": the server's period is ", j.frames ) );
    _jack_client & cl = *j.clients.back();
    // Who is connected with whom, by interface channel.
    std::vector<std::vector<std::size_t>> inFrom( ni ), outTo( no );
    auto phys = [&]( std::vector<_jack_port *> const & v, std::string const & n ) { for( std::size_t i = 0; i < v.size(); ++i ) if( v[i]->name == n ) return static_cast<long>( i ); return -1l; };
    if( ci.autoconn ) for( std::size_t c = 0; c < ni; ++c ) { long p = phys( j.physIn, ci.ext[c] ); if( p >= 0 ) inFrom[c].push_back( p ); }
    if( po.autoconn ) for( std::size_t c = 0; c < no; ++c ) { long p = phys( j.physOut, po.ext[c] ); if( p >= 0 ) outTo[c].push_back( p ); }
    j.capture = [&]( _jack_client &, Sound & x )
    {
      for( auto & v : x ) for( auto & e : v ) e = static_cast<float>( s.g.uni( -1, 1 ) );
      s.heard.assign( ni, std::vector<float>( B, 0.f ) ); s.called = false;
      for( std::size_t c = 0; c < ni; ++c ) for( std::size_t p : inFrom[c] ) for( std::size_t k = 0; k < B && k < x[p].size(); ++k ) s.heard[c][k] += x[p][k];
    };
    // A server thread runs from activation on, when the connections are still being made one by one: what counts is what the ports got.
    if( threaded ) j.filled = [&]( _jack_client & ) { for( std::size_t c = 0; c < ni; ++c ) { _jack_port * p = j.find( client + ":" + ci.ports[c] ); if( p && p->frames == B ) std::copy( p->buf.get(), p->buf.get() + B, s.heard[c].begin() ); else s.heard[c].assign( B, 0.f ); /* registered within this cycle */ } };
    j.played = [&]( _jack_client &, Sound const & y, int res )
    {
      if( s.stopping ) return;
      if( s.throwNow ) { if( s.called && res == 0 ) R->viol( "error_ignored", what + ": the error is not reported to the server" ); return; }
      if( !s.called ) { if( !s.dead && !threaded && j.frames == B ) R->viol( "block_lost", what + ": a block did not reach the callback" ); return; }
      if( res != 0 ) R->viol( "stopped", what + ": an error is reported although the callback succeeded" );
      for( std::size_t p = 0; p < y.size(); ++p )
      {
        std::vector<std::size_t> from;
        if( threaded ) { for( _jack_port * q : j.sources[p] ) for( std::size_t c = 0; c < no; ++c ) if( q->name == client + ":" + po.ports[c] ) from.push_back( c ); }
        else for( std::size_t c = 0; c < no; ++c ) for( std::size_t t : outTo[c] ) if( t == p ) from.push_back( c );
        for( std::size_t k = 0; k < B; ++k )
        {
          double e = 0; for( std::size_t c : from ) e += s.produced[c][k];
          if( std::abs( y[p][k] - e ) > 1e-5 * ( 1 + std::abs( e ) ) ) { R->viol( "playback", vh::cat( what, ": ", j.physOut[p]->name, " sample ", k, " is ", y[p][k], ", expected ", e ) ); return; }
        }
      }
      R->event();
    };
    auto during = [&]( int n ) { if( threaded ) std::this_thread::sleep_for( std::chrono::microseconds( g.range( 0, 300 ) ) ); else j.run( n ); };
    int rounds = g.chance( 0.3 ) ? 2 : 1; bool destroyed = false;
    bool const late = !threaded && g.chance( 0.2 );
    if( !late ) { s.dead = false; ifc->registerCallback( &Side::callback, &s ); }
    for( int round = 0; round < rounds; ++round )
    {
      bool started = true; s.stopping = false; s.dead = late && s.calls == 0;
      // Connections change as ports come and go: what counts is the state while the client runs.
      for( std::size_t c = 0; c < ni; ++c ) inFrom[c].clear();
      for( std::size_t c = 0; c < no; ++c ) outTo[c].clear();
      if( ci.autoconn ) for( std::size_t c = 0; c < ni; ++c ) { long p = phys( j.physIn, ci.ext[c] ); if( p >= 0 ) inFrom[c].push_back( p ); }
      if( po.autoconn ) for( std::size_t c = 0; c < no; ++c ) { long p = phys( j.physOut, po.ext[c] ); if( p >= 0 ) outTo[c].push_back( p ); }
      try { ifc->start(); } catch( std::exception const & e ) { started = false; err = e.what(); }
      bool const failing = j.failActivate || ( j.failPort >= 0 && round == 0 );
      if( started == failing ) R->viol( "start", what + ( started ? ": start() ignores an error" : ": start() fails with " + err ) );
      if( !started ) break;
      // Ports as configured.
      {
        std::lock_guard<std::mutex> l( fake::tableMutex() );
        auto check = [&]( std::vector<std::string> const & names, unsigned long flag, bool capture, std::vector<std::string> const & ext, bool autoconn )
        {
          for( std::size_t c = 0; c < names.size(); ++c )
          {
            _jack_port * p = j.find( client + ":" + names[c] );
            if( !p || !( p->flags & flag ) ) { R->viol( "ports", what + ": no port " + client + ":" + names[c] ); continue; }
            std::size_t const want = autoconn && phys( capture ? j.physIn : j.physOut, ext[c] ) >= 0 ? 1 : 0;
            if( p->conn.size() != want || ( want && ( *p->conn.begin() )->name != ext[c] ) ) R->viol( autoconn ? "connections" : "unwanted_connections", vh::cat( what, ": port ", p->name, " has ", p->conn.size(), " connections, expected ", want ? ext[c] : "none" ) );
            R->event();
          }
        };
        check( ci.ports, JackPortIsInput, true, ci.ext, ci.autoconn ); check( po.ports, JackPortIsOutput, false, po.ext, po.autoconn );
        if( static_cast<std::size_t>( j.livePorts() ) != ni + no ) R->viol( "ports", vh::cat( what, ": ", j.livePorts(), " ports" ) );
      }
      if( ci.overridden || po.overridden ) r.count( "connection settings overridden" );
      // Connections made by the user.
      if( !threaded && !ci.autoconn && ni && !j.physIn.empty() ) { std::size_t c = g.index( ni ), p = g.index( j.physIn.size() ); if( jack_connect( &cl, j.physIn[p]->name.c_str(), ( client + ":" + ci.ports[c] ).c_str() ) == 0 ) inFrom[c].push_back( p ); }
      if( !threaded && !po.autoconn && no && !j.physOut.empty() ) { std::size_t c = g.index( no ), p = g.index( j.physOut.size() ); if( jack_connect( &cl, ( client + ":" + po.ports[c] ).c_str(), j.physOut[p]->name.c_str() ) == 0 ) outTo[c].push_back( p ); }
      during( static_cast<int>( g.range( 0, 4 ) ) );
      if( late && s.dead ) { s.dead = false; ifc->registerCallback( &Side::callback, &s ); }
      long const before = threaded ? 0 : s.calls;
      if( !threaded )
      {
        j.run( 4 ); if( s.calls != before + 4 ) R->viol( "block_count", vh::cat( what, ": ", s.calls - before, " callbacks for 4 blocks" ) );
        if( g.chance( 0.1 ) )
        {
          j.frames = static_cast<jack_nframes_t>( B + 5 ); long b = s.calls; s.dead = true;
          for( auto & c : j.clients ) if( c->active ) j.cycle( *c );
          if( s.calls != b ) R->viol( "other_period", what + ": a block of another length is passed to the callback" );
          s.dead = false; j.frames = static_cast<jack_nframes_t>( B ); r.count( "blocks of another length" );
        }
        if( g.chance( 0.2 ) ) { s.throwNow = true; for( auto & c : j.clients ) if( c->active ) j.cycle( *c ); s.throwNow = false; r.count( "errors within the callback" ); }
      }
      if( threaded && g.chance( 0.15 ) )
      {
        // start() on a running interface starts it anew.
        s.stopping = true; try { ifc->start(); } catch( std::exception const & e ) { R->viol( "restart", what + ": start() on a running interface fails with " + e.what() ); }
        during( 0 ); r.count( "running interfaces restarted" );
      }
      if( g.chance( 0.15 ) ) { s.stopping = true; destroyed = true; ifc.reset(); r.count( "running interfaces destroyed" ); break; }
      s.stopping = true;
      try { ifc->stop(); } catch( std::exception const & e ) { R->viol( "stop", what + ": stop() fails with " + e.what() ); }
      s.dead = true;
      if( g.chance( 0.3 ) ) { try { ifc->stop(); } catch( std::exception const & ) {} }
      if( j.livePorts() != 0 && round + 1 == rounds ) R->viol( "left_behind", vh::cat( what, ": ", j.livePorts(), " ports stay after stop()" ) );
      if( !threaded ) j.run( 2 );
      r.count( "Jack clients stopped" );
    }
    (void)destroyed;
    ifc.reset(); s.dead = true; sig = vh::mix( vh::mix( sig, s.calls ), std::hash<std::string>()( conf ) ); if( !threaded ) j.run( 2 );
    misused( what );
    if( j.openClients() != 0 || j.livePorts() != 0 ) R->viol( "left_behind", what + ": the client stays after the interface is gone" );
    r.count( "Jack clients" ); if( threaded ) r.count( "clients in a thread of the server" );
    r.sample( what );
  }
  r.nontrivial( sig );
  j.reset();
}

static void oneCase( vh::Run & r )
{
  reports.run = &r; Rng & g = r.rng; struct Flush { ~Flush() { reports.run->event( reports.ticks.exchange( 0 ) ); } } flush;
  if( g.chance( 0.02 ) )
  {
    auto l = AudioInterfaceFactory::audioInterfacesList(); std::sort( l.begin(), l.end() );
    if( l != std::vector<std::string>{ "Jack", "PortAudio" } ) r.viol( "list", "available interfaces " + vh::vec( l ) );
    std::string n = g.pick<std::string>( { "jack", "portaudio", "", "default", "ASIO", "Jack " } );
    try { auto i = AudioInterfaceFactory::create( n, AudioInterface::Configuration( 1, 1, 48000, 64 ), "" ); r.viol( "accepted:name", "interface " + n ); } catch( std::invalid_argument const & ) { r.count( "unknown interfaces refused" ); }
    r.event(); return;
  }
  bool const threads = r.mode == "threads" || g.chance( 0.05 );
  if( g.chance( 0.5 ) ) portaudioCase( r, threads ); else jackCase( r, threads );
}
VH_MAIN( oneCase )
