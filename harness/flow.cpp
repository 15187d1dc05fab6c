// C01: a realised flow computes exactly what the flat graph of its atoms means.
#include "flowgen.hpp"
#include <libpml/empty_parameter_config.hpp>
#include <array>
using namespace fg;

static bool process( vh::Run & r, Rng & g, rrl::AudioSignalFlow & f, std::vector<std::vector<i64>> const & in, std::vector<std::vector<i64>> & out, std::size_t n )
{
  std::size_t const ni = in.size(), no = out.size();
  std::vector<std::vector<float>> ib( ni ), ob( no );
  int const entry = static_cast<int>( g.range( 0, 3 ) );
  std::size_t is = 1, os = 1;
  float const canary = -12345.0f;
  if( entry == 3 || entry == 2 )
  {
    is = g.range( 1, 4 ); os = g.range( 1, 4 );
    if( entry == 3 )
    {
      // one memory area, channel and sample strides; either may be the inner one
      bool ci = g.chance( 0.5 ), co = g.chance( 0.5 );
      std::size_t ics = ci ? 1 + g.index( 2 ) : ( n - 1 ) * is + 1 + g.index( 4 ), iss = ci ? std::max<std::size_t>( ni, 1 ) * ics + g.index( 3 ) : is;
      std::size_t ocs = co ? 1 + g.index( 2 ) : ( n - 1 ) * os + 1 + g.index( 4 ), oss = co ? std::max<std::size_t>( no, 1 ) * ocs + g.index( 3 ) : os;
      std::vector<float> im( ni ? ( ni - 1 ) * ics + ( n - 1 ) * iss + 1 : 0, canary ), om( no ? ( no - 1 ) * ocs + ( n - 1 ) * oss + 1 : 0, canary );
      for( std::size_t c = 0; c < ni; ++c ) for( std::size_t t = 0; t < n; ++t ) im[c * ics + t * iss] = static_cast<float>( in[c][t] );
      std::vector<float> const im0 = im;
      f.process( im.data(), ics, iss, om.data(), ocs, oss );
      if( im != im0 ) r.viol( "input_modified", "the strided process() variant wrote to its input memory" );
      std::vector<char> used( om.size(), 0 );
      for( std::size_t c = 0; c < no; ++c ) for( std::size_t t = 0; t < n; ++t ) { out[c][t] = static_cast<i64>( om[c * ocs + t * oss] ); used[c * ocs + t * oss] = 1; }
      for( std::size_t i = 0; i < om.size(); ++i ) if( !used[i] && om[i] != canary ) { r.viol( "gap_written", vh::cat( "strided process() wrote between the samples at offset ", i ) ); break; }
      r.count( "blocks via strided memory" );
      return true;
    }
  }
  std::vector<float const *> ip; std::vector<float *> op;
  for( std::size_t c = 0; c < ni; ++c ) { ib[c].assign( ( n - 1 ) * is + 1, canary ); for( std::size_t t = 0; t < n; ++t ) ib[c][t * is] = static_cast<float>( in[c][t] ); ip.push_back( ib[c].data() ); }
  for( std::size_t c = 0; c < no; ++c ) { ob[c].assign( ( n - 1 ) * os + 1, canary ); op.push_back( ob[c].data() ); }
  bool ok = true;
  if( entry == 0 ) ok = f.process( ip.data(), op.data() );
  else if( entry == 1 ) { ok = false; rrl::AudioSignalFlow::processFunction( &f, ip.data(), op.data(), ok ); }
  else ok = f.process( ip.data(), op.data(), is, os );
  if( !ok ) r.viol( "status", "processing a valid block reported failure" );
  for( std::size_t c = 0; c < no; ++c )
  {
    for( std::size_t t = 0; t < n; ++t ) out[c][t] = static_cast<i64>( ob[c][t * os] );
    for( std::size_t i = 0; i < ob[c].size(); ++i ) if( i % os && ob[c][i] != canary ) { r.viol( "gap_written", "process() with strides wrote between the samples" ); break; }
  }
  for( std::size_t c = 0; c < ni; ++c ) for( std::size_t t = 0; t < n; ++t ) if( ib[c][t * is] != static_cast<float>( in[c][t] ) ) { r.viol( "input_modified", "process() wrote to its input memory" ); break; }
  r.count( entry == 2 ? "blocks via strided channel pointers" : entry == 1 ? "blocks via callback" : "blocks via channel pointers" );
  return ok;
}

static void checkPortTable( vh::Run & r, Plan const & p, rrl::AudioSignalFlow & f )
{
  std::size_t off = 0, k = 0;
  bool ok = f.numberOfAudioCapturePorts() == p.topIn.size() && f.numberOfAudioPlaybackPorts() == p.topOut.size() && f.period() == p.period;
  if( ok )
  {
    for( int q : p.topIn )
    {
      APort const & a = p.aports[q];
      ok = ok && a.name == f.audioCapturePortName( k ) && f.audioCapturePortWidth( k ) == static_cast<std::size_t>( a.width ) && f.audioCapturePortOffset( k ) == off && f.audioCapturePortIndex( a.name.c_str() ) == k;
      ++k; off += a.width;
    }
    ok = ok && f.numberOfCaptureChannels() == off;
    k = off = 0;
    for( int q : p.topOut )
    {
      APort const & a = p.aports[q];
      ok = ok && a.name == f.audioPlaybackPortName( k ) && f.audioPlaybackPortWidth( k ) == static_cast<std::size_t>( a.width ) && f.audioPlaybackPortOffset( k ) == off && f.audioPlaybackPortIndex( a.name.c_str() ) == k;
      ++k; off += a.width;
    }
    ok = ok && f.numberOfPlaybackChannels() == off;
  }
  ok = ok && f.numberExternalParameterReceivePorts() == p.topPIn.size() && f.numberExternalParameterSendPorts() == p.topPOut.size();
  if( !ok ) r.viol( "port_table", "the external port table does not list the top-level ports in order: " + describe( p ) );
  r.event();
}

// A single atomic component is a flow of its own: every one of its ports is an external one.
namespace atomictop
{
using Par = pml::ScalarParameter<int>;
struct Comp: public AtomicComponent
{
  std::unique_ptr<AudioInput> in; std::unique_ptr<AudioOutput> out; std::size_t width; int gain = 0, blocks = 0; bool sawChange = false;
  std::vector<std::unique_ptr<ParameterInput<pml::MessageQueueProtocol, Par>>> mqI; std::vector<std::unique_ptr<ParameterInput<pml::DoubleBufferingProtocol, Par>>> dbI; std::vector<std::unique_ptr<ParameterInput<pml::SharedDataProtocol, Par>>> sdI;
  std::vector<std::unique_ptr<ParameterOutput<pml::MessageQueueProtocol, Par>>> mqO; std::vector<std::unique_ptr<ParameterOutput<pml::DoubleBufferingProtocol, Par>>> dbO; std::vector<std::unique_ptr<ParameterOutput<pml::SharedDataProtocol, Par>>> sdO;
  // One channel of parameters per kind and index; outputs mirror the inputs of the same index.
  Comp( SignalFlowContext const & c, std::size_t w, std::array<std::size_t, 6> n, std::vector<std::pair<int, std::size_t>> const & order ): AtomicComponent( c, "solo" ), width( w )
  {
    if( w ) in.reset( new AudioInput( "in", *this, w ) );
    mqI.resize( n[0] ); dbI.resize( n[1] ); sdI.resize( n[2] ); mqO.resize( n[3] ); dbO.resize( n[4] ); sdO.resize( n[5] ); pml::EmptyParameterConfig const cfg;
    for( auto const & o : order )
    {
      std::string const name = vh::cat( "p", o.first, "_", o.second ); char const * s = name.c_str();
      switch( o.first )
      {
      case 0: mqI[o.second].reset( new ParameterInput<pml::MessageQueueProtocol, Par>( s, *this, cfg ) ); break;
      case 1: dbI[o.second].reset( new ParameterInput<pml::DoubleBufferingProtocol, Par>( s, *this, cfg ) ); break;
      case 2: sdI[o.second].reset( new ParameterInput<pml::SharedDataProtocol, Par>( s, *this, cfg ) ); break;
      case 3: mqO[o.second].reset( new ParameterOutput<pml::MessageQueueProtocol, Par>( s, *this, cfg ) ); break;
      case 4: dbO[o.second].reset( new ParameterOutput<pml::DoubleBufferingProtocol, Par>( s, *this, cfg ) ); break;
      default: sdO[o.second].reset( new ParameterOutput<pml::SharedDataProtocol, Par>( s, *this, cfg ) );
      }
    }
    if( w ) out.reset( new AudioOutput( "out", *this, w + 1 ) );
  }
  void process() override
  {
    ++blocks;
    for( std::size_t i = 0; i < mqI.size(); ++i ) while( !mqI[i]->empty() ) { int const v = mqI[i]->front().value(); mqI[i]->pop(); if( i < mqO.size() ) mqO[i]->enqueue( Par( v + 1 ) ); }
    for( std::size_t i = 0; i < dbI.size(); ++i ) if( dbI[i]->changed() ) { gain = dbI[i]->data().value(); dbI[i]->resetChanged(); if( i < dbO.size() ) { dbO[i]->data() = Par( gain + 2 ); dbO[i]->swapBuffers(); } }
    for( std::size_t i = 0; i < sdI.size() && i < sdO.size(); ++i ) sdO[i]->data() = Par( sdI[i]->data().value() + 3 );
    for( std::size_t c = 0; c < width; ++c ) for( std::size_t t = 0; t < period(); ++t ) ( *out )[c + 1][t] = ( *in )[c][t] + static_cast<float>( gain );
    if( width ) for( std::size_t t = 0; t < period(); ++t ) ( *out )[0][t] = static_cast<float>( blocks );
  }
};
static void run( vh::Run & r )
{
  Rng & g = r.rng; std::array<std::size_t, 6> n; for( auto & x : n ) x = g.index( 3 ); std::vector<std::pair<int, std::size_t>> order; for( int k = 0; k < 6; ++k ) for( std::size_t i = 0; i < n[k]; ++i ) order.push_back( { k, i } ); g.shuffle( order );
  std::size_t const w = g.index( 4 ), B = 1 + g.index( 20 ); SignalFlowContext const ctx( B, 48000 ); Comp c( ctx, w, n, order ); std::string const log = vh::cat( "single component: ", w, " inputs, parameter ports ", n[0], n[1], n[2], n[3], n[4], n[5] );
  rrl::AudioSignalFlow f( c ); auto name = []( int k, std::size_t i ) { return vh::cat( "p", k, "_", i ); };
  if( f.numberExternalParameterReceivePorts() != n[0] + n[1] + n[2] || f.numberExternalParameterSendPorts() != n[3] + n[4] + n[5] || f.numberOfCaptureChannels() != w || f.numberOfPlaybackChannels() != ( w ? w + 1 : 0 ) ) { r.viol( "atomic_ports", log ); return; }
  int gain = 0; std::vector<std::vector<int>> queue( n[3] ); std::vector<int> dbVal( n[4], 0 ), sdVal( n[2], 0 ); std::vector<bool> dbNew( n[4], false ), sdSet( n[2], false );
  for( int b = 1; b <= 4; ++b )
  {
    for( std::size_t i = 0; i < n[0]; ++i ) for( std::size_t k = g.index( 3 ); k > 0; --k )
    { int const v = static_cast<int>( g.range( -1000, 1000 ) ); dynamic_cast<pml::MessageQueueProtocol::OutputBase &>( f.externalParameterReceivePort( name( 0, i ).c_str() ) ).enqueue( std::unique_ptr<ParameterBase>( new Par( v ) ) ); if( i < n[3] ) queue[i].push_back( v + 1 ); }
    for( std::size_t i = 0; i < n[1]; ++i ) if( g.chance( 0.6 ) )
    { auto & o = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase &>( f.externalParameterReceivePort( name( 1, i ).c_str() ) ); int const v = static_cast<int>( g.range( -1000, 1000 ) ); dynamic_cast<Par &>( o.data() ) = Par( v ); o.swapBuffers(); gain = v; if( i < n[4] ) { dbVal[i] = v + 2; dbNew[i] = true; } }
    for( std::size_t i = 0; i < n[2]; ++i ) if( b == 1 || g.chance( 0.5 ) ) { sdVal[i] = static_cast<int>( g.range( -1000, 1000 ) ); dynamic_cast<Par &>( dynamic_cast<pml::SharedDataProtocol::OutputBase &>( f.externalParameterReceivePort( name( 2, i ).c_str() ) ).data() ) = Par( sdVal[i] ); }
    std::vector<std::vector<i64>> in( w, std::vector<i64>( B ) ), out( w ? w + 1 : 0, std::vector<i64>( B ) ); for( auto & x : in ) for( auto & v : x ) v = g.range( -1000, 1000 );
    process( r, g, f, in, out, B ); r.event();
    for( std::size_t k = 0; k < out.size(); ++k ) for( std::size_t t = 0; t < B; ++t ) if( out[k][t] != ( k ? in[k - 1][t] + gain : b ) ) { r.viol( "atomic_audio", vh::cat( log, ": output ", k, " sample ", t, " of block ", b, ": ", out[k][t] ) ); return; }
    for( std::size_t i = 0; i < n[3]; ++i )
    {
      auto & q = dynamic_cast<pml::MessageQueueProtocol::InputBase &>( f.externalParameterSendPort( name( 3, i ).c_str() ) ); if( g.chance( 0.3 ) && b < 4 ) continue; std::vector<int> got;
      while( !q.empty() ) { got.push_back( dynamic_cast<Par const &>( q.front() ).value() ); q.pop(); }
      r.event(); if( got != queue[i] ) { r.viol( "atomic_messages", vh::cat( log, ": block ", b, ": ", vh::vec( got ), " instead of ", vh::vec( queue[i] ) ) ); return; } queue[i].clear();
    }
    for( std::size_t i = 0; i < n[4]; ++i )
    {
      auto & q = dynamic_cast<pml::DoubleBufferingProtocol::InputBase &>( f.externalParameterSendPort( name( 4, i ).c_str() ) ); r.event(); bool const isNew = i < n[1] && dbNew[i];
      if( q.changed() != isNew || ( isNew && dynamic_cast<Par const &>( q.data() ).value() != dbVal[i] ) ) { r.viol( "atomic_buffered", vh::cat( log, ": block ", b, ": ", q.changed(), " ", dynamic_cast<Par const &>( q.data() ).value(), " instead of ", isNew, " ", dbVal[i] ) ); return; }
      q.resetChanged(); dbNew[i] = false;
    }
    for( std::size_t i = 0; i < n[5] && i < n[2]; ++i )
    {
      int const v = dynamic_cast<Par const &>( dynamic_cast<pml::SharedDataProtocol::InputBase &>( f.externalParameterSendPort( name( 5, i ).c_str() ) ).data() ).value(); r.event();
      if( v != sdVal[i] + 3 ) { r.viol( "atomic_shared", vh::cat( log, ": block ", b, ": ", v, " instead of ", sdVal[i] + 3 ) ); return; }
    }
    if( c.time().blockCount() != static_cast<std::size_t>( b ) ) { r.viol( "time", "the block counter does not count processed blocks" ); return; }
  }
  r.count( "flows of a single component" );
}
} // namespace atomictop

static void runCase( vh::Run & r )
{
  static bool init = ( pml::initialiseParameterLibrary(), efl::initialiseLibrary(), true ); (void)init;
  if( r.rng.chance( 0.05 ) ) { atomictop::run( r ); return; }
  GenOpts o; o.maxAtoms = r.rng.chance( 0.2 ) ? 25 : 10; o.maxComposites = r.rng.chance( 0.2 ) ? 9 : 5; o.types = r.rng.chance( 0.6 ); o.params = r.rng.chance( 0.7 );
  Plan p = generate( r.rng, o );
  Rng g = r.rng;
  Built b;
  build( p, b );
  if( b.top().period() != p.period ) r.viol( "period", "component period differs from its context" );
  int const incarnations = g.chance( 0.15 ) ? 2 : 1;
  for( int inc = 0; inc < incarnations; ++inc )
  {
    std::unique_ptr<rrl::AudioSignalFlow> flow;
    try { flow.reset( new rrl::AudioSignalFlow( b.top() ) ); }
    catch( std::exception const & ex ) { r.viol( inc ? "second_flow_rejected" : "valid_flow_rejected", vh::cat( describe( p ), ": ", ex.what() ) ); return; }
    checkPortTable( r, p, *flow );
    Reference ref( p );
    for( int c : p.atoms ) { auto & a = static_cast<TestAtom &>( *b.byIdx[c] ); a.st = AtomState(); a.blocks = 0; }
    if( g.chance( 0.1 ) && !p.atoms.empty() ) { b.rec.throwAtom = static_cast<int>( g.index( p.atoms.size() ) ); b.rec.throwAt = 2; } else b.rec.throwAtom = -1;
    std::size_t const nin = flow->numberOfCaptureChannels(), nout = flow->numberOfPlaybackChannels();
    int const blocks = static_cast<int>( g.range( 2, 5 ) );
    for( int blk = 0; blk < blocks; ++blk )
    {
      for( int q : p.topPIn )
      {
        int k = p.pports[q].proto == MQ ? static_cast<int>( g.range( 0, 3 ) ) : static_cast<int>( g.range( 0, 1 ) );
        if( p.pports[q].proto == SD && blk == 0 ) k = 1;
        for( int i = 0; i < k; ++i ) { i64 v = g.range( 1, 900000 ); extSend( *flow, p.pports[q], v ); ref.send( q, v ); }
      }
      std::vector<std::vector<i64>> in( nin, std::vector<i64>( p.period ) ), out( nout, std::vector<i64>( p.period ) );
      for( auto & c : in ) for( auto & x : c ) x = g.range( 0, P - 1 );
      b.rec.log.clear();
      bool const willThrow = b.rec.throwAtom >= 0 && blk == 2;
      bool threw = false; std::string what;
      std::size_t const before = b.top().time().blockCount();
      try { process( r, g, *flow, in, out, p.period ); }
      catch( std::exception const & ex ) { threw = true; what = ex.what(); }
      if( willThrow != threw ) { r.viol( willThrow ? "component_exception_swallowed" : "unexpected_exception", describe( p ) + ": " + what ); return; }
      if( threw )
      {
        r.count( "blocks with an exception from a component" );
        if( b.top().time().blockCount() != before ) r.viol( "time_after_failure", "the block counter advanced although the block failed" );
        bool locked = !flow->parameterExchangeMutex().try_lock();
        if( locked ) r.viol( "lock_after_failure", "the exchange lock is still held after a failed block" ); else flow->parameterExchangeMutex().unlock();
        return; // component states are undefined relative to the reference now
      }
      auto const expect = ref.block( in );
      for( std::size_t c = 0; c < nout; ++c )
        if( out[c] != expect[c] ) { r.viol( "output_value", vh::cat( describe( p ), " block ", blk, " output channel ", c, " got ", vh::vec( out[c], 8 ), " expected ", vh::vec( expect[c], 8 ) ) ); break; }
      r.event( static_cast<long>( nout * p.period ) );
      // every atom exactly once, after everything it depends on
      std::vector<int> pos( p.atoms.size(), -1 );
      bool once = b.rec.log.size() == p.atoms.size();
      for( std::size_t i = 0; i < b.rec.log.size(); ++i ) { if( pos[ b.rec.log[i] ] >= 0 ) once = false; pos[ b.rec.log[i] ] = static_cast<int>( i ); }
      if( !once ) r.viol( "exactly_once", vh::cat( describe( p ), ": order ", vh::vec( b.rec.log ) ) );
      else
      {
        auto dep = [&]( int sc, int rc ) { int s = p.comps[sc].atom, d = p.comps[rc].atom; return s < 0 || d < 0 || pos[s] < pos[d]; };
        for( auto const & e : p.flatAudio ) if( !dep( p.aports[e.second.port].comp, p.aports[e.first.port].comp ) ) { r.viol( "order_audio", vh::cat( describe( p ), ": order ", vh::vec( b.rec.log ) ) ); break; }
        for( auto const & e : p.flatParam ) if( !dep( p.pports[e.second].comp, p.pports[e.first].comp ) ) { r.viol( "order_parameter", vh::cat( describe( p ), ": order ", vh::vec( b.rec.log ) ) ); break; }
      }
      // what each atom computed (also those whose outputs do not reach the top level)
      for( std::size_t a = 0; a < p.atoms.size(); ++a )
      {
        auto & at = static_cast<TestAtom &>( *b.byIdx[ p.atoms[a] ] );
        if( at.st.acc != ref.st[a].acc || at.st.runs != ref.st[a].runs ) { r.viol( "atom_state", vh::cat( describe( p ), " block ", blk, " atom ", a, " held ", vh::vec(at.st.held), " ref ", vh::vec(ref.st[a].held), " runs ", at.st.runs, " ", ref.st[a].runs) ); break; }
      }
      for( int q : p.topPOut )
      {
        auto got = extDrain( *flow, p.pports[q] ), want = ref.drain( q );
        if( got != want ) { r.viol( "external_parameter_output", vh::cat( describe( p ), " got ", vh::vec( got ), " expected ", vh::vec( want ) ) ); }
        r.event();
      }
      if( !b.rec.faults.empty() ) { r.viol( "in_component:" + b.rec.faults[0].substr( 0, b.rec.faults[0].find( ':' ) ), vh::cat( describe( p ), ": ", b.rec.faults[0] ) ); b.rec.faults.clear(); }
      r.event( b.rec.events + static_cast<long>( p.flatAudio.size() + p.flatParam.size() ) ); b.rec.events = 0;
      if( b.top().time().blockCount() != static_cast<std::size_t>( blk + 1 ) ) r.viol( "time", "the block counter does not count processed blocks" );
    }
    if( flow && p.depth >= 1 && p.flatAudio.size() > 3 ) r.nontrivial( signature( p ) );
    r.count( "flows" ); r.count( "atoms", static_cast<long>( p.atoms.size() ) ); r.count( "placeholder channels", p.placeholders ); r.count( "pass-throughs", p.detours );
    r.count( "parameter connections", static_cast<long>( p.pconns.size() ) );
    if( inc ) r.count( "flows rebuilt on the same components" );
  }
  r.sample( describe( p ) );
}
VH_MAIN( runCase )
