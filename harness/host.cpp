// C03: whatever way a host drives a flow (block by block, or in arbitrary chunks through the buffer adapter), the
// flow sees one contiguous stream and the host gets the flow's output stream.
#include "vh.hpp"
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/channel_list.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libvisr/time.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <librrl/flexible_buffer_wrapper.hpp>
#include <memory>
#include <stdexcept>
using namespace visr;
using vh::Rng;

static vh::Run * R;

// The function of the flow: integer valued, stateful over every sample of every channel.
struct Model
{
  long s = 1;
  std::size_t ni, no;
  Model( std::size_t a, std::size_t b ): ni( a ), no( b ) {}
  void sample( float const * in, float * out )
  {
    for( std::size_t c = 0; c < ni; ++c ) s = ( s * 31 + static_cast<long>( in[c] ) * static_cast<long>( c + 3 ) + 17 ) % 65521;
    s = ( s + 1 ) % 65521;
    for( std::size_t c = 0; c < no; ++c ) out[c] = static_cast<float>( ( s * static_cast<long>( 2 * c + 1 ) + static_cast<long>( c ) ) % 65521 - 30000 );
  }
};

struct Atom: public AtomicComponent
{
  std::vector<std::unique_ptr<AudioInput>> in;
  std::vector<std::unique_ptr<AudioOutput>> out;
  Model m;
  std::size_t blocks = 0;
  bool throwNext = false;
  Atom( SignalFlowContext const & ctx, char const * name, CompositeComponent * parent, std::vector<int> const & wi, std::vector<int> const & wo )
    : AtomicComponent( ctx, name, parent ), m( 0, 0 )
  {
    for( std::size_t i = 0; i < wi.size(); ++i ) { in.emplace_back( new AudioInput( vh::cat( "i", i ).c_str(), *this, wi[i] ) ); m.ni += wi[i]; }
    for( std::size_t i = 0; i < wo.size(); ++i ) { out.emplace_back( new AudioOutput( vh::cat( "o", i ).c_str(), *this, wo[i] ) ); m.no += wo[i]; }
  }
  void process() override
  {
    Time const & t = time();
    if( t.blockCount() != blocks || t.sampleCount() != blocks * period() || std::abs( t.renderingTime() - double( blocks * period() ) / double( samplingFrequency() ) ) > 1e-9 * ( 1 + t.renderingTime() ) )
      R->viol( "time", vh::cat( "in block ", blocks, " of ", period(), " samples the component sees block ", t.blockCount(), " sample ", t.sampleCount(), " time ", t.renderingTime() ) );
    R->event();
    if( throwNext ) { throwNext = false; throw std::runtime_error( "deliberate" ); }
    ++blocks;
    std::vector<float> x( m.ni + 1 ), y( m.no + 1 );
    for( std::size_t k = 0; k < period(); ++k )
    {
      std::size_t c = 0;
      for( auto & p : in ) for( std::size_t w = 0; w < p->width(); ++w ) x[c++] = ( *p )[w][k];
      m.sample( x.data(), y.data() );
      c = 0;
      for( auto & p : out ) for( std::size_t w = 0; w < p->width(); ++w ) ( *p )[w][k] = y[c++];
    }
  }
};
struct Wrap: public CompositeComponent
{
  std::vector<std::unique_ptr<AudioInput>> in;
  std::vector<std::unique_ptr<AudioOutput>> out;
  std::unique_ptr<Atom> a;
  Wrap( SignalFlowContext const & ctx, std::vector<int> const & wi, std::vector<int> const & wo ): CompositeComponent( ctx, "top" )
  {
    for( std::size_t i = 0; i < wi.size(); ++i ) in.emplace_back( new AudioInput( vh::cat( "i", i ).c_str(), *this, wi[i] ) );
    for( std::size_t i = 0; i < wo.size(); ++i ) out.emplace_back( new AudioOutput( vh::cat( "o", i ).c_str(), *this, wo[i] ) );
    a.reset( new Atom( ctx, "a", this, wi, wo ) );
    for( std::size_t i = 0; i < wi.size(); ++i ) audioConnection( *in[i], *a->in[i] );
    for( std::size_t i = 0; i < wo.size(); ++i ) audioConnection( *a->out[i], *out[i] );
  }
};

static std::vector<int> widths( Rng & g, bool allowEmpty )
{
  std::vector<int> v; int n = static_cast<int>( g.range( allowEmpty ? 0 : 1, 3 ) );
  for( int i = 0; i < n; ++i ) v.push_back( static_cast<int>( g.range( 0, 4 ) ) );
  return v;
}

static void oneCase( vh::Run & r )
{
  R = &r; Rng & g = r.rng;
  std::size_t const period = static_cast<std::size_t>( g.pick<int>( { 1, 2, 3, 4, 7, 8, 16, 17, 31, 32, 64, 100 } ) );
  SignalFlowContext ctx( period, static_cast<std::size_t>( g.pick<int>( { 1, 8000, 44100, 48000, 96000 } ) ) );
  std::vector<int> wi = widths( g, true ), wo = widths( g, true );
  std::size_t ni = 0, no = 0; for( int w : wi ) ni += w; for( int w : wo ) no += w;
  bool const atomic = g.chance( 0.4 );
  std::unique_ptr<Component> comp; Atom * atom;
  if( atomic ) { auto * a = new Atom( ctx, "top", nullptr, wi, wo ); comp.reset( a ); atom = a; }
  else { auto * c = new Wrap( ctx, wi, wo ); comp.reset( c ); atom = c->a.get(); }
  bool const adapter = g.chance( 0.75 );
  int const rebuilds = g.chance( 0.2 ) ? 2 : 1;
  for( int rb = 0; rb < rebuilds; ++rb )
  {
    rrl::AudioSignalFlow flow( *comp );
    atom->blocks = 0; // the clock restarts with the flow
    if( flow.period() != period || flow.numberOfCaptureChannels() != ni || flow.numberOfPlaybackChannels() != no || flow.numberOfAudioCapturePorts() != wi.size() || flow.numberOfAudioPlaybackPorts() != wo.size() )
      r.viol( "geometry", vh::cat( "flow reports period ", flow.period(), " in ", flow.numberOfCaptureChannels(), " out ", flow.numberOfPlaybackChannels(), " instead of ", period, " ", ni, " ", no ) );
    Model ref = atom->m;
    if( !adapter )
    {
      // block interface, with faults: a component that throws leaves the flow usable
      for( int b = 0, nb = static_cast<int>( g.range( 1, 12 ) ); b < nb; ++b )
      {
        std::vector<std::vector<float>> ib( ni, std::vector<float>( period ) ), ob( no, std::vector<float>( period, -1e9f ) );
        for( auto & c : ib ) for( auto & x : c ) x = static_cast<float>( g.range( -1000, 1000 ) );
        std::vector<float const *> ip; std::vector<float *> op;
        for( auto & c : ib ) ip.push_back( c.data() ); for( auto & c : ob ) op.push_back( c.data() );
        if( g.chance( 0.15 ) )
        {
          atom->throwNext = true; bool thrown = false;
          try { flow.process( ip.data(), op.data() ); } catch( std::exception const & ) { thrown = true; }
          if( !thrown ) r.viol( "exception_swallowed", "a component threw in process() and the caller was told the block succeeded" );
          if( !flow.parameterExchangeMutex().try_lock() ) r.viol( "mutex_leaked", "after a component threw, the parameter exchange lock stays taken" );
          else flow.parameterExchangeMutex().unlock();
          r.count( "component exceptions" ); r.event( 2 );
          continue;
        }
        flow.process( ip.data(), op.data() );
        std::vector<float> x( ni + 1 ), y( no + 1 );
        for( std::size_t t = 0; t < period; ++t )
        {
          for( std::size_t c = 0; c < ni; ++c ) x[c] = ib[c][t];
          ref.sample( x.data(), y.data() );
          for( std::size_t c = 0; c < no; ++c ) if( ob[c][t] != y[c] ) { r.viol( "block_output", vh::cat( "block ", b, " channel ", c, " sample ", t, ": ", ob[c][t], " expected ", y[c] ) ); return; }
          r.event( static_cast<long>( no ) );
        }
        r.count( "blocks" );
      }
      r.nontrivial( vh::cat( "b", atomic, period, ni, no, rb ) );
      continue;
    }
    rrl::FlexibleBufferWrapper buf( flow );
    std::vector<std::vector<float>> expect( no, std::vector<float>( period, 0.0f ) ); // the adapter's latency is one period
    std::vector<std::vector<float>> pend( ni );
    std::size_t pos = 0;
    int const calls = static_cast<int>( g.range( 1, 25 ) );
    int const style = static_cast<int>( g.range( 0, 3 ) );
    std::uint64_t sig = vh::mix( period * 64 + ni * 8 + no, atomic );
    for( int k = 0; k < calls; ++k )
    {
      std::size_t n;
      if( style == 0 ) n = g.range( 0, 3 * static_cast<long>( period ) + 2 );
      else if( style == 1 ) n = g.range( 0, 5 );
      else if( style == 2 ) n = period * g.range( 0, 3 ) + ( g.chance( 0.3 ) ? g.range( 0, 2 ) : 0 );
      else n = static_cast<std::size_t>( g.range( 1, 4 ) ) * ( period > 2 ? period / 2 : 1 ) + ( g.chance( 0.5 ) ? 1 : 0 );
      sig = vh::mix( sig, n );
      std::vector<std::vector<float>> ib( ni, std::vector<float>( n ) );
      for( auto & c : ib ) for( auto & x : c ) x = static_cast<float>( g.range( -1000, 1000 ) );
      for( std::size_t c = 0; c < ni; ++c ) pend[c].insert( pend[c].end(), ib[c].begin(), ib[c].end() );
      std::size_t const total = pos + n;
      // complete periods that are in now become visible in the expected stream
      std::vector<float> x( ni + 1 ), y( no + 1 );
      static std::size_t done; if( k == 0 ) done = 0;
      while( done + period <= total )
      {
        for( std::size_t t = 0; t < period; ++t )
        {
          for( std::size_t c = 0; c < ni; ++c ) x[c] = pend[c][done + t];
          ref.sample( x.data(), y.data() );
          for( std::size_t c = 0; c < no; ++c ) expect[c].push_back( y[c] );
        }
        done += period;
      }
      std::vector<std::vector<float>> ob( no, std::vector<float>( n ) );
      if( g.chance( 0.5 ) )
      {
        std::vector<float const *> ip; std::vector<std::unique_ptr<float[]>> mem; std::vector<float *> op;
        std::vector<std::unique_ptr<float[]>> imem;
        for( auto & c : ib ) { imem.emplace_back( new float[n] ); std::copy( c.begin(), c.end(), imem.back().get() ); ip.push_back( imem.back().get() ); }
        for( std::size_t c = 0; c < no; ++c ) { mem.emplace_back( new float[n] ); std::fill_n( mem.back().get(), n, -1e9f ); op.push_back( mem.back().get() ); }
        buf.process( ip.data(), op.data(), n );
        for( std::size_t c = 0; c < no; ++c ) ob[c].assign( op[c], op[c] + n );
        for( std::size_t c = 0; c < ni; ++c ) if( !std::equal( ib[c].begin(), ib[c].end(), ip[c] ) ) r.viol( "input_modified", "the buffer adapter wrote to the host's input" );
        r.count( "adapter calls with channel pointers" );
      }
      else
      {
        bool ci = g.chance( 0.5 ), co = g.chance( 0.5 );
        std::size_t a = g.range( 1, 3 ), b = g.range( 1, 3 );
        std::size_t ics = ci ? a : ( n ? ( n - 1 ) * a + 1 : 1 ) + g.index( 4 ), iss = ci ? std::max<std::size_t>( ni, 1 ) * a + g.index( 3 ) : a;
        std::size_t ocs = co ? b : ( n ? ( n - 1 ) * b + 1 : 1 ) + g.index( 4 ), oss = co ? std::max<std::size_t>( no, 1 ) * b + g.index( 3 ) : b;
        std::vector<float> im( ni && n ? ( ni - 1 ) * ics + ( n - 1 ) * iss + 1 : 0, 7.5f ), om( no && n ? ( no - 1 ) * ocs + ( n - 1 ) * oss + 1 : 0, -1e9f );
        for( std::size_t c = 0; c < ni; ++c ) for( std::size_t t = 0; t < n; ++t ) im[c * ics + t * iss] = ib[c][t];
        auto im0 = im;
        buf.process( im.data(), ics, iss, om.data(), ocs, oss, n );
        if( im != im0 ) r.viol( "input_modified", "the buffer adapter wrote to the host's strided input" );
        std::vector<char> used( om.size(), 0 );
        for( std::size_t c = 0; c < no; ++c ) for( std::size_t t = 0; t < n; ++t ) { ob[c][t] = om[c * ocs + t * oss]; used[c * ocs + t * oss] = 1; }
        for( std::size_t i = 0; i < om.size(); ++i ) if( !used[i] && om[i] != -1e9f ) { r.viol( "gap_written", vh::cat( "the buffer adapter wrote at offset ", i, " which belongs to no sample (channel stride ", ocs, ", sample stride ", oss, ")" ) ); break; }
        r.count( "adapter calls with strided memory" );
      }
      for( std::size_t c = 0; c < no; ++c ) for( std::size_t t = 0; t < n; ++t )
        if( ob[c][t] != expect[c][pos + t] )
        { r.viol( "adapter_output", vh::cat( "period ", period, ", call ", k, " of ", n, " frames, channel ", c, ", stream position ", pos + t, ": ", ob[c][t], " expected ", expect[c][pos + t] ) ); return; }
      r.event( static_cast<long>( no * n + 1 ) );
      pos = total;
      r.count( n == 0 ? "empty calls" : n < period ? "calls shorter than a period" : n % period ? "calls spanning periods unevenly" : "calls of whole periods" );
    }
    r.sample( vh::cat( "period ", period, " in ", ni, " out ", no, atomic ? " atomic" : " composite", " calls ", calls, " frames ", pos ) );
    if( calls > 1 && ( no || ni ) ) r.nontrivial( sig );
  }
}
VH_MAIN( oneCase )
