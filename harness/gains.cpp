// C09: gains, mixes and routings. Every output sample is the sum of the routed inputs weighted by gains that move linearly
// from the value in effect to the value last requested, within the requested number of samples.
#include "rig.hpp"
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <librbbl/gain_fader.hpp>
#include <librbbl/gain_matrix.hpp>
#include <librcl/add.hpp>
#include <librcl/gain_matrix.hpp>
#include <librcl/gain_vector.hpp>
#include <librcl/null_source.hpp>
#include <librcl/signal_routing.hpp>
#include <librcl/sparse_gain_matrix.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <limits>
using namespace visr;
using vh::Rng;

// ---------------------------------------------------------------- oracle
struct Ramp
{
  double from = 0, to = 0; std::size_t done = 0; // samples since the target was set
  double mag = 0;                                // largest gain the current transition involves
  explicit Ramp( double v = 0 ): from( v ), to( v ), mag( std::abs( v ) ) {}
  double at( std::size_t i, std::size_t N ) const // gain applied to sample i (from 0) of the block to come
  { std::size_t const n = done + i + 1; return n >= N ? to : from + ( to - from ) * static_cast<double>( n ) / static_cast<double>( N ); }
  double now( std::size_t N ) const { return done >= N ? to : from + ( to - from ) * static_cast<double>( done ) / static_cast<double>( N ); }
  double slack = 0;                              // how far the gain in effect may lie from the model (a matrix drops tiny remainders of a transition)
  void target( double v, std::size_t N, double drop = 0 )
  {
    if( done >= N ) slack = 0; else if( done ) slack = slack * ( 1 - static_cast<double>( done ) / static_cast<double>( N ) ) + drop * static_cast<double>( N ) / static_cast<double>( done );
    double const f = now( N ); mag = std::max( std::abs( f ), std::abs( v ) ) + ( done < N ? mag : 0 ); from = f; to = v; done = 0;
  }
  void advance( std::size_t B ) { if( done < ( std::size_t( 1 ) << 40 ) ) done += B; }
};
static double gainValue( Rng & g )
{
  switch( g.index( 7 ) ) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return static_cast<double>( g.range( -4, 4 ) ); case 4: return g.uni( -1, 1 ) * 1e-7; case 5: return g.uni( -1, 1 ) * 1e3; default: return g.uni( -2, 2 ); }
}
struct Sum { double v = 0, mag = 0, abs = 0; void add( double x, double gain, double gmag, double slack = 0 ) { v += x * gain; mag += std::abs( x ) * gmag; abs += std::abs( x ) * slack; } };
static bool judge( vh::Run & r, char const * key, std::string const & ctx, double got, Sum const & w, double eps )
{
  r.event();
  double const tol = w.mag * eps + w.abs + 1e-30;
  if( std::abs( got - w.v ) <= tol ) return true;
  r.viol( key, vh::cat( ctx, ": got ", got, ", expected ", w.v, " (tolerance ", tol, ")" ) );
  return false;
}
static std::size_t period( Rng & g ) { return g.chance( 0.5 ) ? g.pick( { std::size_t( 8 ), std::size_t( 16 ), std::size_t( 32 ), std::size_t( 64 ) } ) : 1 + g.index( 50 ); }
static std::size_t steps( Rng & g, std::size_t B )
{
  switch( g.index( 6 ) ) { case 0: return 0; case 1: return B; case 2: return B * ( 1 + g.index( 4 ) ); case 3: return 1; case 4: return g.index( B + 1 ); default: return 1 + g.index( 5 * B ); }
}

// Heap storage with the alignment the caller promised, exactly sized.
template<class T> struct Buf
{
  std::vector<T *> p; std::size_t n;
  Buf( std::size_t C, std::size_t n, std::size_t alignElems ): n( n )
  { for( std::size_t c = 0; c < C; ++c ) { void * q = nullptr; std::size_t const a = std::max<std::size_t>( sizeof( void * ), alignElems * sizeof( T ) ); if( ::posix_memalign( &q, a, n * sizeof( T ) ) != 0 ) std::abort(); p.push_back( static_cast<T *>( q ) ); } }
  ~Buf() { for( auto q : p ) std::free( q ); }
  Buf( Buf const & ) = delete;
  void noise( Rng & g ) { for( auto q : p ) { std::vector<float> const s = rig::signal( g, n ); std::copy( s.begin(), s.end(), q ); } }
};

template<class T> static void fader( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const B = period( g ), N = steps( g, B ), A = g.pick( { 0, 1, 4, 8, 16 } );
  double const eps = std::is_same<T, double>::value ? 1e-12 : 2e-5;
  rbbl::GainFader<T> f( B, N, A );
  std::string const ctx = vh::cat( "fader over ", N, " samples, block ", B, " alignment ", A );
  r.event( 2 );
  if( f.interpolationSamples() != N || f.interpolationPeriods() != ( N + B - 1 ) / B ) r.viol( "fader:length", vh::cat( ctx, ": ", f.interpolationSamples(), " samples, ", f.interpolationPeriods(), " periods" ) );
  Buf<T> in( 1, B, A ), out( 1, B, A );
  int const n = 1 + static_cast<int>( g.index( 12 ) );
  for( int k = 0; k < n; ++k )
  {
    in.noise( g ); out.noise( g );
    std::vector<T> const old( out.p[0], out.p[0] + B );
    Ramp ra( gainValue( g ) ); ra.to = g.chance( 0.2 ) ? ra.from : gainValue( g ); ra.mag = std::max( std::abs( ra.from ), std::abs( ra.to ) );
    std::size_t const idx = g.chance( 0.1 ) ? 1000000 + g.index( 5 ) : g.index( f.interpolationPeriods() + 3 );
    ra.done = std::min<std::size_t>( idx, 100 ) * B;
    bool const acc = g.chance( 0.5 );
    T const a = static_cast<T>( ra.from ), b = static_cast<T>( ra.to ); ra.from = a; ra.to = b;
    try { if( acc ) f.scaleAndAccumulate( in.p[0], out.p[0], a, b, idx ); else f.scale( in.p[0], out.p[0], a, b, idx ); }
    catch( std::exception const & e ) { r.viol( "fader:refused", vh::cat( ctx, " block ", idx, ": ", e.what() ) ); return; }
    for( std::size_t i = 0; i < B; ++i )
    {
      Sum s; if( acc ) s.add( old[i], 1, 1 ); s.add( in.p[0][i], ra.at( i, N ), ra.mag );
      if( !judge( r, acc ? "fader:accumulate" : "fader:scale", vh::cat( ctx, " from ", ra.from, " to ", ra.to, " block ", idx, " sample ", i ), out.p[0][i], s, eps ) ) return;
    }
  }
  r.count( "faders" ); r.nontrivial( vh::cat( "f", sizeof( T ), ":", B, ":", N, ":", A ) );
}

template<class T> static efl::BasicMatrix<T> gains( Rng & g, std::size_t rows, std::size_t cols, std::size_t A )
{
  efl::BasicMatrix<T> m( rows, cols, A );
  for( std::size_t i = 0; i < rows; ++i ) for( std::size_t j = 0; j < cols; ++j ) m( i, j ) = static_cast<T>( gainValue( g ) );
  return m;
}

template<class T> static void matrix( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const I = g.index( 5 ), O = g.index( 5 ), B = period( g ), N = steps( g, B ), A = g.pick( { 0, 4, 8 } );
  double const eps = std::is_same<T, double>::value ? 1e-12 : 3e-5;
  std::string const ctx = vh::cat( "gain matrix ", O, "x", I, ", ", N, " samples, block ", B, " alignment ", A );
  std::unique_ptr<rbbl::GainMatrix<T>> m;
  std::vector<std::vector<Ramp>> model( O, std::vector<Ramp>( I ) );
  if( g.chance( 0.5 ) ) { T const v = static_cast<T>( gainValue( g ) ); m.reset( new rbbl::GainMatrix<T>( I, O, B, N, v, A ) ); for( auto & row : model ) for( auto & x : row ) x = Ramp( v ); }
  else
  {
    efl::BasicMatrix<T> const v = gains<T>( g, O, I, g.pick( { 0, 4, 8 } ) );
    m.reset( new rbbl::GainMatrix<T>( I, O, B, N, v, A ) );
    for( std::size_t o = 0; o < O; ++o ) for( std::size_t i = 0; i < I; ++i ) model[o][i] = Ramp( v( o, i ) );
  }
  Buf<T> in( I, B, A ), out( O, B, A );
  auto aim = [&]( efl::BasicMatrix<T> const & v ) { for( std::size_t o = 0; o < O; ++o ) for( std::size_t i = 0; i < I; ++i ) { if( model[o][i].done && model[o][i].done < N ) r.count( "targets changed within a transition" ); model[o][i].target( v( o, i ), N, 1.01 * std::numeric_limits<T>::epsilon() ); } };
  int const blocks = 2 + static_cast<int>( g.index( 12 ) );
  long changes = 0;
  for( int k = 0; k < blocks; ++k )
  {
    in.noise( g ); out.noise( g );
    if( g.chance( 0.05 ) )
    {
      bool thrown = false;
      efl::BasicMatrix<T> const bad = gains<T>( g, O + g.index( 2 ), I + 1, A );
      try { if( g.chance( 0.5 ) ) m->setNewGains( bad ); else m->process( in.p.data(), out.p.data(), bad ); } catch( std::exception const & ) { thrown = true; }
      if( !thrown ) r.viol( "matrix:dimensions", ctx + " accepted gains of a different size" );
      r.count( "mis-sized gains refused" );
    }
    int const sets = g.chance( 0.4 ) ? 1 + static_cast<int>( g.index( 3 ) ) : 0;
    for( int q = 0; q < sets; ++q ) { efl::BasicMatrix<T> const v = gains<T>( g, O, I, g.pick( { 0, 4 } ) ); m->setNewGains( v ); aim( v ); ++changes; if( q ) r.count( "targets replaced before use" ); }
    try
    {
      if( g.chance( 0.2 ) ) { efl::BasicMatrix<T> const v = gains<T>( g, O, I, 0 ); aim( v ); m->process( in.p.data(), out.p.data(), v ); ++changes; }
      else m->process( in.p.data(), out.p.data() );
    }
    catch( std::exception const & e ) { r.viol( "matrix:refused", vh::cat( ctx, " block ", k, ": ", e.what() ) ); return; }
    for( std::size_t o = 0; o < O; ++o ) for( std::size_t t = 0; t < B; ++t )
    {
      Sum s; for( std::size_t i = 0; i < I; ++i ) s.add( in.p[i][t], model[o][i].at( t, N ), model[o][i].mag, model[o][i].slack );
      if( !judge( r, "matrix:output", vh::cat( ctx, " block ", k, " output ", o, " sample ", t ), out.p[o][t], s, eps ) ) return;
    }
    for( auto & row : model ) for( auto & x : row ) x.advance( B );
  }
  r.count( "gain matrices" ); if( changes ) r.nontrivial( vh::cat( "m", sizeof( T ), ":", I, ":", O, ":", B, ":", N, ":", changes ) );
}

using rig::Block;
using rig::Rig;
static Block noise( Rng & g, std::size_t C, std::size_t B ) { Block b( C ); for( auto & x : b ) x = rig::signal( g, B ); return b; }
static SignalFlowContext context( std::size_t B ) { return SignalFlowContext( B, 48000 ); }
static std::size_t flowPeriod( Rng & g ) { return g.chance( 0.7 ) ? g.pick( { std::size_t( 8 ), std::size_t( 16 ), std::size_t( 32 ), std::size_t( 64 ) } ) : 1 + g.index( 50 ); }

static void gainMatrix( vh::Run & r )
{
  Rng & g = r.rng;
  bool const sourceless = g.chance( 0.03 ); // no inputs: all outputs are silent
  std::size_t const I = sourceless ? 0 : 1 + g.index( 4 ), O = 1 + g.index( 4 ), B = flowPeriod( g ), N = steps( g, B );
  bool const control = !sourceless && g.chance( 0.8 );
  std::string const ctx = vh::cat( "GainMatrix ", O, "x", I, ", ", N, " samples, period ", B, control ? ", controlled" : "" );
  SignalFlowContext const cx = context( B );
  rcl::GainMatrix c( cx, "g" );
  std::vector<std::vector<Ramp>> model( O, std::vector<Ramp>( I ) );
  efl::BasicMatrix<float> const init = gains<float>( g, O, I, 0 );
  bool const uniform = sourceless || g.chance( 0.5 );
  if( !uniform && g.chance( 0.1 ) )
  {
    bool thrown = false; try { c.setup( I, O, N, gains<float>( g, O + 1, I, 0 ), control ); } catch( std::exception const & ) { thrown = true; }
    if( !thrown ) r.viol( "gainMatrix:dimensions", ctx + " accepted initial gains of a different size" );
    r.count( "mis-sized gains refused" ); return;
  }
  if( uniform ) c.setup( I, O, N, sourceless ? 1.f : init( 0, 0 ), control ); else c.setup( I, O, N, init, control );
  for( std::size_t o = 0; o < O; ++o ) for( std::size_t i = 0; i < I; ++i ) model[o][i] = Ramp( uniform ? init( 0, 0 ) : init( o, i ) );
  Rig rg( c );
  std::vector<std::vector<float>> current( O, std::vector<float>( I, 0.f ) );
  bool first = true; long changes = 0;
  int const blocks = 2 + static_cast<int>( g.index( 14 ) );
  for( int k = 0; k < blocks; ++k )
  {
    if( control && ( first || g.chance( 0.3 ) ) )
    {
      efl::BasicMatrix<float> v( O, I, 0 ); if( first && g.chance( 0.5 ) ) v.copy( init ); else v.copy( gains<float>( g, O, I, 0 ) );
      auto & sh = rg.shared<pml::MatrixParameter<float>>( "gainInput" );
      for( std::size_t o = 0; o < O; ++o ) for( std::size_t i = 0; i < I; ++i )
      {
        if( !first && g.chance( 0.4 ) ) v( o, i ) = sh( o, i ); // only some of the gains change
        sh( o, i ) = v( o, i );
      }
      for( std::size_t o = 0; o < O; ++o ) for( std::size_t i = 0; i < I; ++i ) current[o][i] = v( o, i );
      first = false; ++changes;
    }
    // The shared gains are picked up in every block: each block heads for the current gains from the gains in effect.
    if( control ) for( std::size_t o = 0; o < O; ++o ) for( std::size_t i = 0; i < I; ++i )
    { if( model[o][i].done && model[o][i].done < N ) r.count( "targets changed within a transition" ); model[o][i].target( current[o][i], N, 1.2e-7 ); }
    Block const in = noise( g, I, B ); Block out;
    if( !rg.process( in, out ) ) { r.viol( "gainMatrix:refused", vh::cat( ctx, " block ", k, ": ", rg.error ) ); return; }
    for( std::size_t o = 0; o < O; ++o ) for( std::size_t t = 0; t < B; ++t )
    {
      Sum s; for( std::size_t i = 0; i < I; ++i ) s.add( in[i][t], model[o][i].at( t, N ), model[o][i].mag, model[o][i].slack );
      if( !judge( r, "gainMatrix:output", vh::cat( ctx, " block ", k, " output ", o, " sample ", t ), out[o][t], s, 3e-5 ) ) return;
    }
    for( auto & row : model ) for( auto & x : row ) x.advance( B );
  }
  r.count( "gain matrix components" ); if( sourceless ) r.count( "gain matrices without inputs" ); if( changes ) r.nontrivial( vh::cat( "G", I, ":", O, ":", B, ":", N, ":", changes ) );
}

static void gainVector( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const C = 1 + g.index( 5 ), B = flowPeriod( g ), N = steps( g, B );
  bool const control = g.chance( 0.8 ), uniform = g.chance( 0.5 );
  std::string const ctx = vh::cat( "GainVector ", C, ", ", N, " samples, period ", B );
  SignalFlowContext const cx = context( B );
  rcl::GainVector c( cx, "g" );
  auto values = [&]( std::size_t n ) { efl::BasicVector<float> v( n, g.pick( { 0, 4, 8 } ) ); for( std::size_t i = 0; i < n; ++i ) v[i] = static_cast<float>( gainValue( g ) ); return v; };
  if( g.chance( 0.03 ) )
  {
    bool thrown = false; try { c.setup( C, N, control, values( g.chance( 0.5 ) ? C - 1 : C + 1 ) ); } catch( std::exception const & ) { thrown = true; }
    if( !thrown ) r.viol( "gainVector:dimensions", ctx + " accepted initial gains of a different size" );
    r.count( "mis-sized gains refused" ); return;
  }
  efl::BasicVector<float> const init = values( C );
  if( uniform ) c.setup( C, N, control, init[0] ); else c.setup( C, N, control, init );
  std::vector<Ramp> model; for( std::size_t i = 0; i < C; ++i ) model.push_back( Ramp( uniform ? init[0] : init[i] ) );
  Rig rg( c );
  int const blocks = 2 + static_cast<int>( g.index( 14 ) ); long changes = 0;
  for( int k = 0; k < blocks; ++k )
  {
    if( control && g.chance( 0.35 ) )
    {
      int const n = g.chance( 0.2 ) ? 2 : 1;
      efl::BasicVector<float> v( 0 );
      for( int q = 0; q < n; ++q ) { v.assign( values( C ) ); rg.publish( "gainInput", rig::vct( v ) ); }
      for( std::size_t i = 0; i < C; ++i ) { if( model[i].done && model[i].done < N ) r.count( "targets changed within a transition" ); model[i].target( v[i], N ); }
      ++changes;
    }
    Block const in = noise( g, C, B ); Block out;
    if( !rg.process( in, out ) ) { r.viol( "gainVector:refused", vh::cat( ctx, " block ", k, ": ", rg.error ) ); return; }
    for( std::size_t i = 0; i < C; ++i ) for( std::size_t t = 0; t < B; ++t )
    {
      Sum s; s.add( in[i][t], model[i].at( t, N ), model[i].mag );
      if( !judge( r, "gainVector:output", vh::cat( ctx, " block ", k, " channel ", i, " sample ", t ), out[i][t], s, 3e-5 ) ) return;
    }
    for( auto & x : model ) x.advance( B );
  }
  r.count( "gain vector components" ); if( changes ) r.nontrivial( vh::cat( "V", C, ":", B, ":", N, ":", changes ) );
}

static void sparse( vh::Run & r )
{
  Rng & g = r.rng;
  using Port = rcl::SparseGainMatrix::ControlPortConfig;
  std::size_t const I = 1 + g.index( 4 ), O = 1 + g.index( 4 ), P = 1 + g.index( 6 ), B = flowPeriod( g ), N = steps( g, B );
  auto routing = [&]( bool bad )
  {
    rbbl::SparseGainRoutingList l;
    std::size_t const n = g.index( P + 1 );
    for( std::size_t i = 0; i < n; ++i ) l.addRouting( g.index( P ), g.index( O ), g.index( I ), static_cast<float>( gainValue( g ) ) );
    if( bad ) switch( g.index( 3 ) )
    {
    case 0: l.addRouting( P + g.index( 3 ), g.index( O ), g.index( I ), 1.f ); break;
    case 1: l.addRouting( g.index( P ), O + g.index( 3 ), g.index( I ), 1.f ); break;
    default: l.addRouting( g.index( P ), g.index( O ), I + g.index( 3 ), 1.f );
    }
    return l;
  };
  Port const port = g.pick( { Port::No, Port::RoutingList, Port::Gain, Port::RoutingList | Port::Gain, Port::All } );
  bool const lists = ( port & Port::RoutingList ) != Port::No, vectors = ( port & Port::Gain ) != Port::No;
  std::string const ctx = vh::cat( "SparseGainMatrix ", O, "x", I, ", ", P, " entries, ", N, " samples, period ", B );
  SignalFlowContext const cx = context( B );
  if( g.chance( 0.05 ) )
  {
    bool thrown = false; rbbl::SparseGainRoutingList const l = routing( true );
    try { rcl::SparseGainMatrix c( cx, "s", nullptr, I, O, N, P, l, port ); } catch( std::exception const & ) { thrown = true; }
    if( !thrown ) r.viol( "sparse:indices", ctx + " accepted an inadmissible initial routing" );
    r.count( "inadmissible routings refused" ); return;
  }
  rbbl::SparseGainRoutingList routes = routing( false );
  rcl::SparseGainMatrix c( cx, "s", nullptr, I, O, N, P, routes, port );
  Rig rg( c );
  std::vector<Ramp> model( P );
  for( auto const & e : routes ) model[e.entryIndex].target( e.gain, N );
  int const blocks = 2 + static_cast<int>( g.index( 14 ) ); long changes = 0;
  // The gains are faded in from zero at the start of processing; only the steady state and later changes are judged sample by sample.
  auto retarget = [&]( std::vector<double> const & v )
  { for( std::size_t e = 0; e < P; ++e ) { if( model[e].done && model[e].done < N ) r.count( "targets changed within a transition" ); model[e].target( v[e], N ); } ++changes; };
  for( int k = 0; k < blocks; ++k )
  {
    std::vector<double> v( P ); for( std::size_t e = 0; e < P; ++e ) v[e] = model[e].to;
    bool refuse = false;
    if( lists && g.chance( 0.25 ) )
    {
      refuse = g.chance( 0.12 );
      rbbl::SparseGainRoutingList const l = routing( refuse );
      pml::SparseGainRoutingListParameter p; for( auto const & e : l ) p.addRouting( e );
      rg.publish( "routingListInput", p );
      if( !refuse ) { routes = l; for( auto const & e : l ) v[e.entryIndex] = e.gain; retarget( v ); r.count( "routing lists" ); }
    }
    if( !refuse && vectors && g.chance( 0.3 ) )
    {
      pml::VectorParameter<float> p( P, 0 ); for( std::size_t e = 0; e < P; ++e ) { p[e] = static_cast<float>( gainValue( g ) ); v[e] = p[e]; }
      rg.publish( "gainInput", p ); retarget( v ); r.count( "gain vectors" );
    }
    Block const in = noise( g, I, B ); Block out;
    bool const ok = rg.process( in, out );
    if( refuse )
    {
      r.count( "inadmissible routings refused" );
      if( ok ) { r.viol( "sparse:indices", ctx + " accepted an inadmissible routing" ); return; }
      // The refused list has no effect; whether a further block of the transition is over is not observable, so wait for its end.
      for( std::size_t b = 0; b < ( N + B - 1 ) / B + 1; ++b )
        if( !rg.process( in, out ) ) { r.viol( "sparse:wedged", vh::cat( ctx, " still fails after an inadmissible routing was refused: ", rg.error ) ); return; }
      for( auto & x : model ) x.done = N + B;
    }
    else if( !ok ) { r.viol( "sparse:refused", vh::cat( ctx, " block ", k, ": ", rg.error ) ); return; }
    for( std::size_t o = 0; o < O; ++o ) for( std::size_t t = 0; t < B; ++t )
    {
      Sum s; for( auto const & e : routes ) if( e.rowIndex == o ) s.add( in[e.columnIndex][t], model[e.entryIndex].at( t, N ), model[e.entryIndex].mag );
      if( !judge( r, "sparse:output", vh::cat( ctx, " block ", k, " output ", o, " sample ", t ), out[o][t], s, 3e-5 ) ) return;
    }
    for( auto & x : model ) x.advance( B );
  }
  r.count( "sparse gain matrices" ); if( changes ) r.nontrivial( vh::cat( "S", I, ":", O, ":", P, ":", B, ":", N, ":", changes ) );
}

static void mixing( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const W = 1 + g.index( 4 ), n = g.index( 5 ), B = flowPeriod( g );
  SignalFlowContext const cx = context( B );
  Block out;
  if( g.chance( 0.2 ) )
  {
    rcl::NullSource c( cx, "n", nullptr, W ); Rig rg( c );
    for( int k = 0; k < 3; ++k )
    {
      if( !rg.process( Block(), out ) ) { r.viol( "null:refused", rg.error ); return; }
      for( auto const & ch : out ) for( float x : ch ) { r.event(); if( x != 0.f ) { r.viol( "null:output", vh::cat( "NullSource gave ", x ) ); return; } }
    }
    r.count( "null sources" ); return;
  }
  rcl::Add c( cx, "a", nullptr, W, n ); Rig rg( c );
  for( int k = 0; k < 3; ++k )
  {
    Block const in = noise( g, W * n, B );
    if( !rg.process( in, out ) ) { r.viol( "add:refused", vh::cat( "Add of ", n, " signals of width ", W, ", period ", B, ": ", rg.error ) ); return; }
    for( std::size_t w = 0; w < W; ++w ) for( std::size_t t = 0; t < B; ++t )
    {
      Sum s; for( std::size_t q = 0; q < n; ++q ) s.add( in[q * W + w][t], 1, 1 );
      if( !judge( r, "add:output", vh::cat( "Add of ", n, " signals of width ", W, ", period ", B, " channel ", w, " sample ", t ), out[w][t], s, 1e-6 ) ) return;
    }
  }
  r.count( "adders" ); r.nontrivial( vh::cat( "A", W, ":", n, ":", B ) );
}

static void routing( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const I = g.index( 5 ), O = 1 + g.index( 5 ), B = flowPeriod( g );
  std::size_t const bad = pml::SignalRoutingParameter::cInvalidIndex;
  SignalFlowContext const cx = context( B );
  rcl::SignalRouting c( cx, "r" );
  std::set<std::pair<std::size_t, std::size_t>> model; // (in,out)
  auto list = [&]( bool wrong )
  {
    pml::SignalRoutingParameter p;
    if( I ) for( std::size_t k = g.index( 2 * O + 1 ); k; --k ) p.addRouting( g.index( I ), g.index( O ) );
    if( wrong ) switch( g.index( 4 ) ) { case 0: p.addRouting( I + g.index( 3 ), g.index( O ) ); break; case 1: p.addRouting( g.index( I + 1 ), O + g.index( 3 ) ); break; case 2: p.addRouting( bad, g.index( O ) ); break; default: p.addRouting( g.index( I + 1 ), bad ); }
    return p;
  };
  auto load = [&]( pml::SignalRoutingParameter const & p ) { model.clear(); for( auto const & e : p ) model.insert( { e.input, e.output } ); };
  bool control = g.chance( 0.6 );
  std::string const ctx = vh::cat( "SignalRouting ", I, " to ", O, ", period ", B );
  if( g.chance( 0.5 ) ) c.setup( I, O, control );
  else { pml::SignalRoutingParameter const p = list( false ); c.setup( I, O, p, control ); load( p ); }
  r.event();
  bool has = true; try { c.parameterPort( "controlInput" ); } catch( std::exception const & ) { has = false; }
  if( has != control ) { r.viol( "routing:port", vh::cat( ctx, control ? ": the requested control input does not exist" : ": unexpected control input" ) ); control = has; }
  Rig rg( c );
  int const blocks = 2 + static_cast<int>( g.index( 10 ) ); long changes = 0;
  for( int k = 0; k < blocks; ++k )
  {
    if( control && g.chance( 0.4 ) )
    {
      bool const wrong = g.chance( 0.25 ); pml::SignalRoutingParameter const p = list( wrong );
      rg.publish( "controlInput", p );
      if( wrong ) r.count( "inadmissible routings refused" ); else { load( p ); r.count( "routing lists" ); }
      ++changes;
    }
    else if( g.chance( 0.4 ) )
    {
      bool thrown = false; ++changes;
      bool const wrong = g.chance( 0.2 );
      try
      {
        if( g.chance( 0.4 ) ) { pml::SignalRoutingParameter const p = list( wrong ); if( !wrong ) load( p ); c.setRouting( p ); }
        else if( wrong ) { if( g.chance( 0.5 ) ) c.setRouting( g.chance( 0.3 ) ? bad : I + g.index( 3 ), g.index( O ) ); else c.setRouting( g.index( I + 1 ), g.chance( 0.3 ) ? bad : O + g.index( 3 ) ); }
        else if( I )
        {
          std::size_t const i = g.index( I ), o = g.index( O );
          bool const taken = std::any_of( model.begin(), model.end(), [o]( std::pair<std::size_t, std::size_t> const & e ) { return e.second == o; } );
          if( !taken ) { c.setRouting( i, o ); model.insert( { i, o } ); } // what a second input to the same output does is not claimed
          else { bool const was = model.erase( { i, o } ) > 0; r.event(); if( c.removeRouting( i, o ) != was ) r.viol( "routing:removed", vh::cat( ctx, ": removeRouting(", i, ",", o, ") reported ", !was ) ); }
        }
      }
      catch( std::exception const & ) { thrown = true; }
      if( wrong ) { r.count( "inadmissible routings refused" ); if( !thrown ) { r.viol( "routing:indices", ctx + " accepted an inadmissible routing" ); return; } }
      else if( thrown ) r.viol( "routing:rejected", ctx + " refused an admissible routing" );
    }
    Block const in = noise( g, I, B ); Block out;
    if( !rg.process( in, out ) ) { r.viol( "routing:refused", vh::cat( ctx, " block ", k, ": ", rg.error ) ); return; }
    for( std::size_t o = 0; o < O; ++o ) for( std::size_t t = 0; t < B; ++t )
    {
      Sum s; for( auto const & e : model ) if( e.second == o ) s.add( in[e.first][t], 1, 1 );
      if( !judge( r, "routing:output", vh::cat( ctx, " block ", k, " output ", o, " sample ", t, " (refused routings leave the table unchanged)" ), out[o][t], s, 1e-6 ) ) return;
    }
  }
  r.count( "signal routings" ); if( changes ) r.nontrivial( vh::cat( "R", I, ":", O, ":", B, ":", vh::mix( r.seed, static_cast<std::uint64_t>( r.caseIdx ) ) ) );
}

static void one( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), true ); (void)init;
  switch( r.rng.index( 12 ) )
  {
  case 0: fader<float>( r ); break;
  case 1: fader<double>( r ); break;
  case 2: case 3: matrix<float>( r ); break;
  case 4: matrix<double>( r ); break;
  case 5: case 6: gainMatrix( r ); break;
  case 7: gainVector( r ); break;
  case 8: case 9: sparse( r ); break;
  case 10: mixing( r ); break;
  default: routing( r );
  }
}
VH_MAIN( one )
