// C05: control threads exchange parameters with a running flow under its exchange lock.
#include "vh.hpp"
#include <atomic>
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_input.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <librrl/audio_signal_flow.hpp>
#ifdef VISR_RRL_RUNTIME_SYSTEM_PROFILING
#include <librrl/runtime_profiler.hpp>
#endif
#include <memory>
#include <thread>
using namespace visr;
using vh::Rng;
using IntPar = pml::ScalarParameter<int>;
using MtxPar = pml::MatrixParameter<float>;
static std::size_t const NR = 5, NC = 7;

// Everything in here is protected by the flow's exchange lock only.
struct Shadow
{
  std::vector<int> sent, got, echoed;
  int published = 0;    // last id a control thread published through the double buffer
  int shared = 0;       // last id written to the shared value
  int blocks = 0;
  int stateSeen = 0;
  std::vector<std::string> bad;
};

static int uniform( MtxPar const & m )
{
  float v = m( 0, 0 );
  for( std::size_t i = 0; i < NR; ++i ) for( std::size_t j = 0; j < NC; ++j ) if( m( i, j ) != v ) return -1;
  return static_cast<int>( v );
}
static void fill( MtxPar & m, int v ) { for( std::size_t i = 0; i < NR; ++i ) for( std::size_t j = 0; j < NC; ++j ) m( i, j ) = static_cast<float>( v ); }

struct Worker: public AtomicComponent
{
  AudioInput in; AudioOutput out;
  ParameterInput<pml::MessageQueueProtocol, IntPar> mq;
  ParameterInput<pml::DoubleBufferingProtocol, MtxPar> db;
  ParameterInput<pml::SharedDataProtocol, MtxPar> sd;
  ParameterOutput<pml::MessageQueueProtocol, IntPar> echo;
  ParameterOutput<pml::DoubleBufferingProtocol, MtxPar> state;
  Shadow & s;
  int gain = 0; int spin;
  Worker( SignalFlowContext const & ctx, char const * n, CompositeComponent * p, Shadow & sh, int sp )
    : AtomicComponent( ctx, n, p ), in( "in", *this, 2 ), out( "out", *this, 2 ), mq( "mq", *this, pml::EmptyParameterConfig() ), db( "db", *this, pml::MatrixParameterConfig( NR, NC ) ),
      sd( "sd", *this, pml::MatrixParameterConfig( NR, NC ) ), echo( "echo", *this, pml::EmptyParameterConfig() ), state( "state", *this, pml::MatrixParameterConfig( NR, NC ) ), s( sh ), spin( sp ) {}
  void process() override
  {
    ++s.blocks;
    for( int i = 0; i < spin; ++i ) std::this_thread::yield();
    while( !mq.empty() ) { int v = mq.front().value(); mq.pop(); s.got.push_back( v ); echo.enqueue( IntPar( v ) ); }
    if( s.got.size() != s.sent.size() ) s.bad.push_back( vh::cat( "block ", s.blocks, " has seen ", s.got.size(), " of ", s.sent.size(), " messages sent before it" ) );
    if( db.changed() ) { gain = uniform( db.data() ); db.resetChanged(); if( gain != s.published ) s.bad.push_back( vh::cat( "block ", s.blocks, " reads ", gain, " while ", s.published, " is published" ) ); }
    else if( gain != s.published ) s.bad.push_back( vh::cat( "block ", s.blocks, ": the published value ", s.published, " was never signalled" ) );
    if( uniform( sd.data() ) != s.shared ) s.bad.push_back( vh::cat( "block ", s.blocks, " reads shared value ", uniform( sd.data() ), " instead of ", s.shared ) );
    for( std::size_t c = 0; c < 2; ++c ) for( std::size_t t = 0; t < period(); ++t ) out[c][t] = in[c][t] + static_cast<float>( gain );
    fill( state.data(), s.blocks ); state.swapBuffers();
  }
};
struct Top: public CompositeComponent
{
  AudioInput in; AudioOutput out;
  ParameterInput<pml::MessageQueueProtocol, IntPar> mq;
  ParameterInput<pml::DoubleBufferingProtocol, MtxPar> db;
  ParameterInput<pml::SharedDataProtocol, MtxPar> sd;
  ParameterOutput<pml::MessageQueueProtocol, IntPar> echo;
  ParameterOutput<pml::DoubleBufferingProtocol, MtxPar> state;
  Worker w;
  Top( SignalFlowContext const & ctx, Shadow & s, int spin )
    : CompositeComponent( ctx, "top" ), in( "in", *this, 2 ), out( "out", *this, 2 ), mq( "mq", *this, pml::EmptyParameterConfig() ), db( "db", *this, pml::MatrixParameterConfig( NR, NC ) ),
      sd( "sd", *this, pml::MatrixParameterConfig( NR, NC ) ), echo( "echo", *this, pml::EmptyParameterConfig() ), state( "state", *this, pml::MatrixParameterConfig( NR, NC ) ), w( ctx, "w", this, s, spin )
  {
    audioConnection( in, w.in ); audioConnection( w.out, out );
    parameterConnection( mq, w.mq ); parameterConnection( db, w.db ); parameterConnection( sd, w.sd );
    parameterConnection( w.echo, echo ); parameterConnection( w.state, state );
  }
};

static void oneCase( vh::Run & r )
{
  Rng & g = r.rng;
  pml::initialiseParameterLibrary();
  Shadow s;
  std::size_t const period = static_cast<std::size_t>( g.pick<int>( { 1, 8, 32 } ) );
  SignalFlowContext ctx( period, 48000 );
  int const spin = static_cast<int>( g.pick<int>( { 0, 0, 1, 3 } ) );
  bool const atomic = g.chance( 0.3 );
  std::unique_ptr<Top> top; std::unique_ptr<Worker> alone;
  if( atomic ) alone.reset( new Worker( ctx, "w", nullptr, s, spin ) ); else top.reset( new Top( ctx, s, spin ) );
  rrl::AudioSignalFlow flow( atomic ? static_cast<Component &>( *alone ) : static_cast<Component &>( *top ) );
#ifdef VISR_RRL_RUNTIME_SYSTEM_PROFILING
  if( g.chance( 0.7 ) ) flow.enableRuntimeProfiling( g.index( 20 ) );
#endif
  auto & mq = dynamic_cast<pml::MessageQueueProtocol::OutputBase &>( flow.externalParameterReceivePort( "mq" ) );
  auto & db = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase &>( flow.externalParameterReceivePort( "db" ) );
  auto & sd = dynamic_cast<pml::SharedDataProtocol::OutputBase &>( flow.externalParameterReceivePort( "sd" ) );
  auto & echo = dynamic_cast<pml::MessageQueueProtocol::InputBase &>( flow.externalParameterSendPort( "echo" ) );
  auto & state = dynamic_cast<pml::DoubleBufferingProtocol::InputBase &>( flow.externalParameterSendPort( "state" ) );
  fill( dynamic_cast<MtxPar &>( db.data() ), 0 ); fill( dynamic_cast<MtxPar &>( sd.data() ), 0 );
  { std::lock_guard<rrl::AudioSignalFlow::ParameterExchangeMutexType> l( flow.parameterExchangeMutex() ); db.swapBuffers( true ); }
  int const nt = static_cast<int>( g.range( 1, 3 ) ), nblocks = static_cast<int>( g.range( 30, 150 ) );
  std::atomic<bool> stop{ false };
  std::atomic<int> nextId{ 1 };
  std::atomic<long> exchanges{ 0 }, contended{ 0 }, profReads{ 0 };
  std::vector<std::uint64_t> seeds; for( int i = 0; i <= nt; ++i ) seeds.push_back( g.next() );
  std::vector<std::thread> th;
  for( int i = 0; i < nt; ++i ) th.emplace_back( [&, i] {
    Rng q( seeds[i] );
    while( !stop )
    {
      bool have = true;
      if( q.chance( 0.3 ) ) { have = flow.parameterExchangeMutex().try_lock(); if( !have ) ++contended; }
      else flow.parameterExchangeMutex().lock();
      if( have )
      {
        for( long k = 0, n = q.range( 0, 3 ); k < n; ++k )
        {
          int id = nextId++;
          switch( q.index( 5 ) )
          {
          case 0: case 1: s.sent.push_back( id ); mq.enqueue( std::unique_ptr<ParameterBase>( new IntPar( id ) ) ); break;
          case 2: fill( dynamic_cast<MtxPar &>( db.data() ), id ); db.swapBuffers( q.chance( 0.5 ) ); s.published = id; break;
          case 3: fill( dynamic_cast<MtxPar &>( sd.data() ), id ); s.shared = id; break;
          case 4:
            while( !echo.empty() ) { s.echoed.push_back( dynamic_cast<IntPar const &>( echo.front() ).value() ); echo.pop(); }
            if( s.blocks && uniform( dynamic_cast<MtxPar const &>( state.data() ) ) != s.blocks ) s.bad.push_back( vh::cat( "the control side reads state ", uniform( dynamic_cast<MtxPar const &>( state.data() ) ), " after block ", s.blocks ) );
            if( state.changed() != ( s.stateSeen != s.blocks ) ) s.bad.push_back( "the change flag of the flow's output is wrong" );
            state.resetChanged(); s.stateSeen = s.blocks;
            break;
          }
          if( q.chance( 0.2 ) ) std::this_thread::yield();
        }
        flow.parameterExchangeMutex().unlock();
        ++exchanges;
      }
#ifdef VISR_RRL_RUNTIME_SYSTEM_PROFILING
      if( flow.runtimeProfilingEnabled() && q.chance( 0.3 ) )
      {
        auto & p = flow.runtimeProfiler();
        efl::BasicVector<double> a( p.numberOfComponents(), 0 ), b( p.numberOfComponents(), 0 );
        switch( q.index( 6 ) )
        {
        case 0: p.getStatistics( a, b ); break;
        case 1: p.getAndResetStatistics( a, b ); break;
        case 2: p.getMean( a ); break;
        case 3: p.getVariance( a ); break;
        case 4: p.resetStatistics(); p.statisticsSamples(); break;
        case 5: p.resetMeasurements(); p.measurementSamples(); break;
        }
        ++profReads;
      }
#endif
      if( q.chance( 0.4 ) ) std::this_thread::yield();
    }
  } );
  std::string audioBad;
  {
    Rng q( seeds.back() );
    std::vector<float> i0( period ), i1( period ), o0( period ), o1( period );
    for( int b = 0; b < nblocks; ++b )
    {
      for( auto & x : i0 ) x = static_cast<float>( q.range( -99, 99 ) );
      for( auto & x : i1 ) x = static_cast<float>( q.range( -99, 99 ) );
      float const * ip[] = { i0.data(), i1.data() }; float * op[] = { o0.data(), o1.data() };
      flow.process( ip, op );
      float const off = o0[0] - i0[0];
      for( std::size_t t = 0; t < period; ++t ) if( o0[t] - i0[t] != off || o1[t] - i1[t] != off ) audioBad = vh::cat( "block ", b, " mixes the parameter values ", off, " and ", o1[t] - i1[t] );
      if( q.chance( 0.3 ) ) std::this_thread::yield();
    }
  }
  stop = true;
  for( auto & t : th ) t.join();
  while( !echo.empty() ) { s.echoed.push_back( dynamic_cast<IntPar const &>( echo.front() ).value() ); echo.pop(); }
  if( !audioBad.empty() ) r.viol( "torn_block", audioBad );
  if( s.blocks != nblocks ) r.viol( "blocks", vh::cat( "the component ran ", s.blocks, " times for ", nblocks, " blocks" ) );
  if( !s.bad.empty() ) r.viol( "inconsistent", vh::cat( s.bad.size(), " observations, first: ", s.bad[0] ) );
  for( std::size_t i = 0; i < s.got.size(); ++i ) if( i >= s.sent.size() || s.got[i] != s.sent[i] ) { r.viol( "order", vh::cat( "message ", i, " received is ", s.got[i], ", sent was ", i < s.sent.size() ? s.sent[i] : -1 ) ); break; }
  if( s.echoed != s.got ) r.viol( "echo", vh::cat( "the flow sent ", s.got.size(), " messages out, ", s.echoed.size(), " arrived, or in another order" ) );
  r.event( static_cast<long>( s.got.size() + s.echoed.size() ) + 3 * nblocks );
  r.count( "messages through the flow", static_cast<long>( s.got.size() ) );
  r.count( "exchanges under the lock", exchanges ); r.count( "lock attempts that met a running block", contended ); r.count( "profiler reads during processing", profReads ); r.count( "blocks", nblocks );
  r.sample( vh::cat( nt, " control threads, ", nblocks, " blocks, ", exchanges.load(), " exchanges, ", s.got.size(), " messages" ) );
  if( exchanges > 1 && s.got.size() > 0 )
  {
    std::uint64_t h = 0; for( int v : s.got ) h = vh::mix( h, static_cast<std::uint64_t>( v ) );
    r.nontrivial( h );
  }
}
VH_MAIN( oneCase )
