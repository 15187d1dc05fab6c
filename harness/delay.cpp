// C07: circular buffers and delay lines give back exactly the samples written earlier: a delayed output is the
// interpolation of the input stream at the requested (gliding) delay times the requested (gliding) gain.
#include "rig.hpp"
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/circular_buffer.hpp>
#include <librbbl/multichannel_delay_line.hpp>
#include <librcl/delay_matrix.hpp>
#include <librcl/delay_vector.hpp>
#include <libvisr/signal_flow_context.hpp>
using namespace visr;
using vh::Rng;

// ---------------------------------------------------------------- oracle
// Stream of one channel, absolute time; silence before time zero and nothing after the last sample.
using Stream = std::vector<float>;
static double at( Stream const & s, long t ) { return t < 0 || t >= static_cast<long>( s.size() ) ? 0.0 : s[static_cast<std::size_t>( t )]; }

// Lagrange interpolation through the order+1 samples from 'base' on, at time T.
static double lagrange( Stream const & s, long base, int order, double T, double & mag )
{
  double y = 0; mag = 0;
  for( int k = 0; k <= order; ++k )
  {
    double c = 1;
    for( int j = 0; j <= order; ++j ) if( j != k ) c *= ( T - static_cast<double>( base + j ) ) / static_cast<double>( k - j );
    double const v = c * at( s, base + k );
    y += v; mag += std::abs( v ) + std::abs( c ) * 1e-3;
  }
  return y;
}

// What a delay line may give at time n for a delay of D samples (method delay order/2 not included).
struct Want { double lo, hi, tol; };
static Want want( Stream const & s, long n, double D, int order, double gain )
{
  double const delta = ( std::abs( D ) + order + 64 ) * 8e-7;
  Want w{ 1e300, -1e300, 0 };
  double const pos = static_cast<double>( n - order ) - D;
  long const bases[2] = { static_cast<long>( std::floor( pos - delta + 0.5 ) ), static_cast<long>( std::floor( pos + delta + 0.5 ) ) };
  double most = 0;
  for( long base : bases )
  {
    if( order == 0 ) { double const m = at( s, base ); most = std::max( most, std::abs( m ) ); w.lo = std::min( w.lo, m * gain ); w.hi = std::max( w.hi, m * gain ); continue; }
    for( int q = -1; q <= 1; ++q )
    {
      double mag;
      double const y = gain * lagrange( s, base, order, pos + q * delta + order * 0.5, mag );
      w.lo = std::min( w.lo, y ); w.hi = std::max( w.hi, y ); most = std::max( most, mag );
    }
  }
  // coefficients and products are rounded relative to their size, an interpolated gain relative to the gains it lies between
  w.tol = most * ( std::abs( gain ) * 6e-5 + 2e-6 ) + 1e-9;
  return w;
}

static void judge( vh::Run & r, char const * what, std::string const & ctx, double got, Want const & w )
{
  r.event();
  if( !( got >= w.lo - w.tol && got <= w.hi + w.tol ) )
    r.viol( what, vh::cat( ctx, ": got ", got, ", expected between ", w.lo, " and ", w.hi, " (tolerance ", w.tol, ")" ) );
}

static std::vector<std::string> const methods = { "nearestSample", "lagrangeOrder0", "lagrangeOrder1", "lagrangeOrder2", "lagrangeOrder3", "lagrangeOrder4",
                                                  "lagrangeOrder5", "lagrangeOrder6", "lagrangeOrder7", "lagrangeOrder8", "lagrangeOrder9" };
static int orderOf( std::string const & m ) { return m == "nearestSample" ? 0 : m.back() - '0'; }

using Policy = rbbl::MultichannelDelayLine<float>::MethodDelayPolicy;
static char const * policyName( Policy p ) { return p == Policy::Add ? "Add" : p == Policy::Limit ? "Limit" : "Reject"; }
// Delay in samples (float seconds times rate, as the caller can see it) as the interpolator applies it, without the method delay.
static double effective( double seconds, double fs, int order, Policy p )
{
  double const d = seconds * fs;
  return p == Policy::Add ? d : p == Policy::Limit ? std::max( d - 0.5 * order, 0.0 ) : d - 0.5 * order;
}

// ---------------------------------------------------------------- circular buffer
template<class T> static void ring( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const C = 1 + g.index( 4 ), L = g.chance( 0.2 ) ? 1 + g.index( 4 ) : 1 + g.index( 70 ), A = g.pick( { 0, 1, 4, 8, 16 } );
  rbbl::CircularBuffer<T> b( C, L, A );
  std::vector<std::vector<T>> hist( C );
  long id = 1;
  std::string const ctx = vh::cat( "ring of ", C, "x", L, " alignment ", A );
  if( b.numberOfChannels() != C || b.length() != L ) r.viol( "ring:geometry", ctx );
  int const steps = 5 + static_cast<int>( g.index( 60 ) );
  for( int s = 0; s < steps; ++s )
  {
    std::size_t const n = g.chance( 0.15 ) ? L : g.chance( 0.1 ) ? 0 : g.index( L + 1 );
    if( g.chance( 0.05 ) )
    {
      bool thrown = false;
      std::vector<T> buf( C * ( L + 4 ), T( -5 ) );
      try { b.write( buf.data(), L + 1 + g.index( 3 ), C, L + 1 + g.index( 2 ) ); } catch( std::exception const & ) { thrown = true; }
      if( !thrown ) { r.viol( "ring:overlong", ctx + " accepted a write longer than the buffer" ); return; }
      r.count( "overlong writes refused" );
    }
    std::vector<std::vector<T>> d( C, std::vector<T>( n ) );
    for( auto & ch : d ) for( auto & x : ch ) x = static_cast<T>( id++ % 100003 );
    switch( g.index( 5 ) )
    {
    case 0: { std::vector<T const *> p( C ); for( std::size_t c = 0; c < C; ++c ) p[c] = d[c].data(); b.write( p.data(), C, n ); break; }
    case 1: { std::size_t const st = n + g.index( 5 ); std::vector<T> m( C * st + 1, T( -9 ) ); for( std::size_t c = 0; c < C; ++c ) std::copy( d[c].begin(), d[c].end(), m.begin() + static_cast<long>( c * st ) ); b.write( m.data(), st, C, n ); break; }
    case 2: { efl::BasicMatrix<T> m( C, n, g.pick( { 0, 4, 8 } ) ); for( std::size_t c = 0; c < C; ++c ) for( std::size_t i = 0; i < n; ++i ) m( c, i ) = d[c][i]; b.write( m ); break; }
    case 3: { T * p = b.getFirstWritePointer(); for( std::size_t c = 0; c < C; ++c ) std::copy( d[c].begin(), d[c].end(), p + c * b.stride() ); b.commitWrite( n ); break; }
    default: { std::vector<T *> p( C ); b.getWritePointers( p.data() ); for( std::size_t c = 0; c < C; ++c ) std::copy( d[c].begin(), d[c].end(), p[c] ); b.commitWrite( n ); }
    }
    for( std::size_t c = 0; c < C; ++c ) hist[c].insert( hist[c].end(), d[c].begin(), d[c].end() );
    auto old = [&]( std::size_t c, std::size_t delay, std::size_t i ) -> T { long const t = static_cast<long>( hist[c].size() ) - static_cast<long>( delay ) + static_cast<long>( i ); return t < 0 ? T( 0 ) : hist[c][static_cast<std::size_t>( t )]; };
    auto check = [&]( std::size_t c, std::size_t delay, T const * p, char const * how )
    {
      for( std::size_t i = 0; i < delay; ++i )
      {
        r.event();
        if( p[i] != old( c, delay, i ) ) { r.viol( "ring:data", vh::cat( ctx, " after ", hist[c].size(), " samples, channel ", c, " delay ", delay, " via ", how, " sample ", i, " is ", p[i], ", expected ", old( c, delay, i ) ) ); return; }
      }
    };
    std::size_t const delay = g.chance( 0.3 ) ? L : g.index( L + 1 );
    std::size_t const c = g.index( C );
    check( c, delay, b.getReadPointer( c, delay ), "one pointer" );
    std::vector<T const *> rp( C );
    if( L > 1 )
    {
      std::size_t const dl = g.index( L );
      b.getReadPointers( dl, rp.data() );
      for( std::size_t k = 0; k < C; ++k ) check( k, dl, rp[k], "pointers, one delay" );
      std::vector<std::size_t> ds( C ); for( auto & x : ds ) x = g.index( L );
      b.getReadPointers( ds.data(), rp.data() );
      for( std::size_t k = 0; k < C; ++k ) check( k, ds[k], rp[k], "pointers, several delays" );
    }
    if( g.chance( 0.1 ) )
    {
      bool thrown = false;
      try { b.getReadPointers( L + 1 + g.index( 3 ), rp.data() ); } catch( std::exception const & ) { thrown = true; }
      if( !thrown ) r.viol( "ring:overlong_delay", ctx + " gave read pointers for a delay longer than the buffer" );
    }
  }
  r.count( "circular buffer histories" );
  r.nontrivial( vh::mix( vh::mix( C * 100 + L, A ), g.next() ) );
}

// ---------------------------------------------------------------- delay line
static void line( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const C = 1 + g.index( 3 ), B = g.chance( 0.3 ) ? 1 + g.index( 9 ) : g.pick( { 8, 16, 32, 64, 37 } );
  std::size_t const fs = g.pick( { 1000, 8000, 44100, 48000, 96000 } );
  std::string const m = g.pick( methods );
  int const order = orderOf( m );
  Policy const pol = g.pick( { Policy::Add, Policy::Limit, Policy::Reject } );
  double const maxSamples = g.chance( 0.2 ) ? static_cast<double>( g.index( 12 ) ) : g.chance( 0.5 ) ? g.uni( 0, 300 ) : static_cast<double>( g.index( 400 ) );
  float const maxSec = static_cast<float>( maxSamples / static_cast<double>( fs ) );
  rbbl::MultichannelDelayLine<float> dl( C, fs, B, maxSec, m.c_str(), pol, g.pick( { 0, 4, 8 } ) );
  std::string const ctx0 = vh::cat( m, " ", policyName( pol ), " block ", B, " rate ", fs, " maximum delay ", maxSamples, " samples, ", C, " channels" );
  r.event( 3 );
  if( dl.numberOfChannels() != C || dl.blockLength() != B ) r.viol( "line:geometry", ctx0 );
  if( std::abs( dl.methodDelaySamples() - 0.5 * order ) > 1e-6 || std::abs( dl.methodDelaySeconds() * static_cast<double>( fs ) - 0.5 * order ) > 1e-3 )
    r.viol( "line:method_delay", vh::cat( ctx0, ": reported method delay ", dl.methodDelaySamples(), " samples, ", dl.methodDelaySeconds(), " s" ) );
  std::vector<Stream> s( C );
  int const blocks = 3 + static_cast<int>( g.index( 12 ) );
  double const lowest = pol == Policy::Reject ? 0.5 * order : 0.0;
  if( pol == Policy::Reject && lowest >= maxSamples ) { r.count( "skipped: no admissible delay" ); return; }
  for( int b = 0; b < blocks; ++b )
  {
    std::size_t const st = B + g.index( 4 );
    std::vector<float> x( C * st + 1 );
    for( std::size_t c = 0; c < C; ++c )
    {
      std::vector<float> const y = rig::signal( g, B );
      std::copy( y.begin(), y.end(), x.begin() + static_cast<long>( c * st ) );
      s[c].insert( s[c].end(), y.begin(), y.end() );
    }
    dl.write( x.data(), st, C, 0 );
    int const taps = 1 + static_cast<int>( g.index( 4 ) );
    for( int t = 0; t < taps; ++t )
    {
      std::size_t const c = g.index( C ), n = g.chance( 0.7 ) ? B : 1 + g.index( B );
      auto pickDelay = [&]() -> float
      {
        double d = g.chance( 0.25 ) ? maxSamples : g.chance( 0.2 ) ? lowest : g.chance( 0.4 ) ? std::floor( g.uni( 0, maxSamples ) ) + g.pick( { 0.0, 0.5, 0.25 } ) : g.uni( lowest, maxSamples );
        d = std::min( std::max( d, lowest ), maxSamples );
        float f = static_cast<float>( d / static_cast<double>( fs ) );
        while( static_cast<double>( f * static_cast<float>( fs ) ) > std::ceil( maxSec * static_cast<float>( fs ) ) ) f = std::nextafter( f, 0.f );
        return f;
      };
      float const d0 = pickDelay(), d1 = g.chance( 0.5 ) ? d0 : pickDelay();
      float const g0 = static_cast<float>( g.uni( -2, 2 ) ), g1 = g.chance( 0.5 ) ? g0 : static_cast<float>( g.uni( -2, 2 ) );
      std::unique_ptr<float[]> out( new float[n] );
      try { dl.interpolate( out.get(), c, n, d0, d1, g0, g1 ); }
      catch( std::exception const & ex ) { r.viol( "line:refused", vh::cat( ctx0, ": delays ", d0, " to ", d1, " s refused: ", ex.what() ) ); return; }
      double const e0 = effective( d0, static_cast<double>( fs ), order, pol ), e1 = effective( d1, static_cast<double>( fs ), order, pol );
      for( std::size_t i = 0; i < n; ++i )
      {
        double const f = static_cast<double>( i + 1 ) / static_cast<double>( n );
        long const now = static_cast<long>( s[c].size() ) - static_cast<long>( n ) + static_cast<long>( i );
        judge( r, "line:value", vh::cat( ctx0, " after ", b + 1, " blocks, channel ", c, " delays ", d0 * static_cast<double>( fs ), "..", d1 * static_cast<double>( fs ), " samples, gains ", g0, "..", g1, " sample ", i, "/", n ),
               out[i], want( s[c], now, e0 + f * ( e1 - e0 ), order, g0 + f * ( static_cast<double>( g1 ) - g0 ) ) );
      }
      if( d0 != d1 ) r.count( "gliding delays" );
      r.count( "taps read" );
      if( d0 * static_cast<double>( fs ) > maxSamples - 1 ) r.count( "taps at the maximum delay" );
    }
    if( g.chance( 0.2 ) )
    { // beyond the admissible range
      float o[1024];
      bool thrown = false;
      float const over = static_cast<float>( ( std::ceil( maxSamples ) + 1.5 + g.uni( 0, 20 ) ) / static_cast<double>( fs ) );
      float const ok = static_cast<float>( std::min( maxSamples, lowest + 0.5 ) / static_cast<double>( fs ) );
      int const kind = static_cast<int>( g.index( 4 ) );
      try
      {
        if( kind == 0 ) dl.interpolate( o, 0, B, over, ok, 1, 1 );
        else if( kind == 1 ) dl.interpolate( o, 0, B, ok, over, 1, 1 );
        else if( kind == 2 ) dl.interpolate( o, C + g.index( 2 ), B, ok, ok, 1, 1 );
        else if( pol == Policy::Add ) dl.interpolate( o, 0, B, -0.5f / static_cast<float>( fs ), ok, 1, 1 );
        else if( pol == Policy::Reject && order > 0 ) dl.interpolate( o, 0, B, ok, ( 0.5f * static_cast<float>( order ) - 0.2f ) / static_cast<float>( fs ), 1, 1 );
        else thrown = true;
      }
      catch( std::exception const & ) { thrown = true; }
      r.event();
      if( !thrown ) r.viol( "line:not_refused", vh::cat( ctx0, ": request of kind ", kind, " outside the admissible range was not refused" ) );
      else r.count( "inadmissible delays refused" );
    }
  }
  r.nontrivial( vh::mix( vh::mix( B * 1000 + static_cast<std::size_t>( maxSamples ), C * 10 + static_cast<std::size_t>( order ) ), vh::mix( static_cast<std::uint64_t>( pol ), g.next() ) ) );
  r.sample( ctx0 );
}

// ---------------------------------------------------------------- components
// A value that glides linearly over 'blocks' blocks; a new target starts from where the value is.
struct Glide
{
  double from, to; long k, blocks;
  Glide( double v, long b ): from( v ), to( v ), k( 0 ), blocks( b ) {}
  double value( long j ) const { return from + ( to - from ) * static_cast<double>( std::min( j, blocks ) ) / static_cast<double>( blocks ); }
  void set( double v ) { from = value( k ); to = v; k = 0; }
  double start() const { return value( k ); }
  double end() const { return value( k + 1 ); }
  void advance() { k = std::min( blocks, k + 1 ); }
};

template<bool matrix> static void component( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const I = 1 + g.index( 4 ), O = matrix ? 1 + g.index( 4 ) : I, B = g.pick( { 4, 8, 16, 32, 64 } ), fs = g.pick( { 8000, 48000, 44100 } );
  std::string const m = g.pick( methods );
  int const order = orderOf( m );
  Policy const pol = g.pick( { Policy::Add, Policy::Limit, Policy::Reject } );
  double const maxSamples = g.chance( 0.5 ) ? g.uni( 12, 300 ) : static_cast<double>( 12 + g.index( 300 ) );
  float const maxSec = static_cast<float>( maxSamples / static_cast<double>( fs ) );
  long const ib = static_cast<long>( g.pick( { 1, 1, 2, 3, 5 } ) );
  double const lowest = pol == Policy::Reject ? 0.5 * order : 0.0;
  int const ports = static_cast<int>( g.index( 4 ) ); // 1 delay, 2 gain
  SignalFlowContext ctx( B, fs );
  auto delay = [&]() -> float { double d = g.chance( 0.2 ) ? maxSamples : g.chance( 0.2 ) ? lowest : g.uni( lowest, maxSamples ); return static_cast<float>( d / static_cast<double>( fs ) ); };
  auto gain = [&]() -> float { return static_cast<float>( g.chance( 0.1 ) ? 0.0 : g.uni( -2, 2 ) ); };
  std::size_t const rows = matrix ? O : 1, cols = I;
  std::vector<Glide> D, G;
  efl::BasicMatrix<float> md( rows, cols, 8 ), mg( rows, cols, 8 );
  efl::BasicVector<float> vd( cols, 8 ), vg( cols, 8 );
  bool const uniform = g.chance( 0.4 );
  float const ud = delay(), ug = gain();
  auto fill = [&]( bool d, bool u )
  {
    for( std::size_t i = 0; i < rows; ++i ) for( std::size_t j = 0; j < cols; ++j )
    {
      float const v = u ? ( d ? ud : ug ) : d ? delay() : gain();
      if( d ) { md( i, j ) = v; if( i == 0 ) vd[j] = v; } else { mg( i, j ) = v; if( i == 0 ) vg[j] = v; }
    }
  };
  fill( true, uniform ); fill( false, uniform );
  for( std::size_t i = 0; i < rows; ++i ) for( std::size_t j = 0; j < cols; ++j ) { D.emplace_back( md( i, j ), ib ); G.emplace_back( mg( i, j ), ib ); }
  std::unique_ptr<rcl::DelayVector> dv; std::unique_ptr<rcl::DelayMatrix> dm;
  if( matrix )
  {
    auto const cp = static_cast<rcl::DelayMatrix::ControlPortConfig>( ports );
    if( uniform ) dm.reset( new rcl::DelayMatrix( ctx, "d", nullptr, I, O, static_cast<std::size_t>( ib ) * B, maxSec, m.c_str(), pol, cp, ud, ug ) );
    else dm.reset( new rcl::DelayMatrix( ctx, "d", nullptr, I, O, static_cast<std::size_t>( ib ) * B, maxSec, m.c_str(), pol, cp, md, mg ) );
  }
  else
  {
    dv.reset( new rcl::DelayVector( ctx, "d", nullptr ) );
    auto const cp = static_cast<rcl::DelayVector::ControlPortConfig>( ports );
    if( uniform ) dv->setup( I, static_cast<std::size_t>( ib ) * B, maxSec, m.c_str(), pol, cp, ud, ug );
    else dv->setup( I, static_cast<std::size_t>( ib ) * B, maxSec, m.c_str(), pol, cp, vd, vg );
  }
  if( g.chance( 0.15 ) ) // Control data of a wrong size are refused, in the setup and afterwards.
  {
    std::size_t const badRows = matrix ? g.pick( { O, O + 1, std::size_t( 0 ) } ) : 1, badCols = badRows == O && matrix ? I + 1 : g.pick( { I - 1, I + 1, I + 7 } );
    efl::BasicMatrix<float> const bm( badRows, badCols, 8 ); efl::BasicVector<float> const bv( badCols, 8 );
    for( int kind = 0; kind < 4; ++kind )
    {
      bool thrown = false;
      try
      {
        if( kind == 0 ) { if( matrix ) dm->setDelay( bm ); else dv->setDelay( bv ); }
        else if( kind == 1 ) { if( matrix ) dm->setGain( bm ); else dv->setGain( bv ); }
        else if( matrix )
        {
          rcl::DelayMatrix x( ctx, "x", nullptr );
          x.setup( I, O, B, maxSec, m.c_str(), pol, rcl::DelayMatrix::ControlPortConfig::None, kind == 2 ? bm : md, kind == 2 ? mg : bm );
        }
        else
        {
          rcl::DelayVector x( ctx, "x", nullptr );
          x.setup( I, B, maxSec, m.c_str(), pol, rcl::DelayVector::ControlPortConfig::None, kind == 2 ? bv : vd, kind == 2 ? vg : bv );
        }
      }
      catch( std::exception const & ) { thrown = true; }
      if( thrown ) r.count( "mis-sized control data refused" );
      else r.viol( "component:not_refused", vh::cat( matrix ? "delay matrix " : "delay vector ", I, "->", O, ": ", kind < 2 ? "set" : "initial", kind % 2 ? " gains" : " delays", " of size ", badRows, " x ", badCols, " accepted" ) );
    }
  }
  rig::Rig rg( matrix ? static_cast<Component &>( *dm ) : static_cast<Component &>( *dv ) );
  std::string const ctx0 = vh::cat( matrix ? "delay matrix " : "delay vector ", I, "->", O, " ", m, " ", policyName( pol ), " block ", B, " transition ", ib, " blocks, maximum ", maxSamples, " samples, ports ", ports );
  std::vector<Stream> s( I );
  int const blocks = 6 + static_cast<int>( g.index( 14 ) );
  bool midway = false;
  for( int b = 0; b < blocks; ++b )
  {
    for( int k = 0; k < 2; ++k )
    {
      bool const isD = k == 0;
      if( !g.chance( 0.35 ) ) continue;
      int const times = g.chance( 0.15 ) ? 2 : 1; // also twice between two blocks
      bool const port = ( ports & ( isD ? 1 : 2 ) ) && g.chance( 0.7 );
      for( int t = 0; t < times; ++t )
      {
        fill( isD, false );
        auto & V = isD ? D : G;
        if( V[0].k > 0 && V[0].k < ib ) midway = true;
        if( port )
        {
          char const * const pn = isD ? "delayInput" : "gainInput";
          if( matrix ) rg.publish( pn, rig::mtx( isD ? md : mg ) );
          else rg.publish( pn, rig::vct( isD ? vd : vg ) );
          if( t + 1 < times ) continue; // only the last published value counts
        }
        else if( matrix ) { if( isD ) dm->setDelay( md ); else dm->setGain( mg ); }
        else { if( isD ) dv->setDelay( vd ); else dv->setGain( vg ); }
        for( std::size_t q = 0; q < V.size(); ++q ) V[q].set( ( isD ? md : mg )( q / cols, q % cols ) );
        r.count( isD ? "delay changes" : "gain changes" );
        if( port ) { break; }
      }
    }
    rig::Block in( I ), out;
    for( std::size_t c = 0; c < I; ++c ) { in[c] = rig::signal( g, B ); s[c].insert( s[c].end(), in[c].begin(), in[c].end() ); }
    if( !rg.process( in, out ) ) { r.viol( "component:failed", vh::cat( ctx0, ": processing of block ", b, " failed although all delays are admissible" ) ); return; }
    for( std::size_t o = 0; o < O; ++o ) for( std::size_t i = 0; i < B; ++i )
    {
      Want w{ 0, 0, 0 };
      double const f = static_cast<double>( i + 1 ) / static_cast<double>( B );
      for( std::size_t c = matrix ? 0 : o; c < ( matrix ? I : o + 1 ); ++c )
      {
        std::size_t const q = matrix ? o * cols + c : c;
        double const e0 = effective( D[q].start(), static_cast<double>( fs ), order, pol ), e1 = effective( D[q].end(), static_cast<double>( fs ), order, pol );
        double const gn = G[q].start() + f * ( G[q].end() - G[q].start() );
        Want const x = want( s[c], static_cast<long>( s[c].size() - B + i ), e0 + f * ( e1 - e0 ), order, gn );
        w.lo += x.lo; w.hi += x.hi; w.tol += x.tol + 2e-6 * 8;
      }
      judge( r, matrix ? "matrix:value" : "vector:value", vh::cat( ctx0, " block ", b, " output ", o, " sample ", i ), out[o][i], w );
    }
    for( auto & x : D ) x.advance();
    for( auto & x : G ) x.advance();
  }
  r.count( matrix ? "delay matrices" : "delay vectors" );
  if( midway ) r.count( "targets changed within a transition" );
  r.nontrivial( vh::mix( vh::mix( B * 100 + I, O * 10 + static_cast<std::size_t>( order ) ), vh::mix( static_cast<std::uint64_t>( pol ) * 8 + static_cast<std::uint64_t>( ib ), g.next() ) ) );
  r.sample( ctx0 );
}

static void one( vh::Run & r )
{
  switch( r.rng.index( 8 ) )
  {
  case 0: ring<float>( r ); break;
  case 1: ring<double>( r ); break;
  case 2: case 3: case 4: line( r ); break;
  case 5: case 6: component<false>( r ); break;
  default: component<true>( r );
  }
}
int main( int c, char ** v ) { pml::initialiseParameterLibrary(); return vh::runMain( c, v, one ); }
