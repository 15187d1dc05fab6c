// C19: time-frequency processing. Frames of the forward transform are the spectra of the windowed latest samples; the inverse
// transform overlap-adds frames; both together give back the delayed signal; frame containers keep what is put into them.
#include "rig.hpp"
#include <complex>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/time_frequency_parameter.hpp>
#include <librcl/time_frequency_inverse_transform.hpp>
#include <librcl/time_frequency_transform.hpp>
#include <libsignalflows/time_frequency_feedthrough.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/signal_flow_context.hpp>
// LIBS: rrl pml rcl panning panningdsp objectmodel reverbobject signalflows rbbl visr efl
using namespace visr;
using vh::Rng;
using C = std::complex<double>;
using TF = pml::TimeFrequencyParameter<float>;
using Fwd = rcl::TimeFrequencyTransform;
using Inv = rcl::TimeFrequencyInverseTransform;
static double const pi = 3.14159265358979323846;

struct Conf
{
  std::size_t ch, B, H, N, W, frames; int norm; std::string fft; bool own; std::vector<double> win; std::string text;
  explicit Conf( Rng & g )
  {
    ch = static_cast<std::size_t>( g.range( 1, 4 ) ); std::size_t const f = g.pick( { std::size_t( 1 ), std::size_t( 1 ), std::size_t( 2 ), std::size_t( 3 ), std::size_t( 4 ), std::size_t( 8 ) } );
    H = g.chance( 0.5 ) ? std::size_t( 1 ) << g.index( 7 ) : static_cast<std::size_t>( g.range( 1, 48 ) ); B = H * f; frames = f;
    switch( g.index( 4 ) )
    {
    case 0: N = 2 * H; break;
    case 1: N = 4 * H; break;
    default: N = std::size_t( 2 ) << g.index( 8 );
    }
    switch( g.index( 4 ) )
    {
    case 0: W = N; break;
    case 1: W = ( N + 1 ) / 2; break;
    default: W = static_cast<std::size_t>( g.range( 1, static_cast<long>( N ) ) );
    }
    norm = static_cast<int>( g.index( 3 ) ); fft = g.pick( { "kissfft", "default", "KissFFT" } ); own = g.chance( 0.5 ); win.resize( W );
    for( std::size_t i = 0; i < W; ++i ) win[i] = own ? static_cast<double>( static_cast<float>( g.uni( -1, 1 ) ) ) : 0.5 - 0.5 * std::cos( 2 * pi * static_cast<double>( i ) / static_cast<double>( W ) );
    text = vh::cat( ch, " channels, period ", B, ", hop ", H, ", dft ", N, own ? ", own window " : ", window ", W, ", normalisation ", norm );
  }
  double scale() const { return norm == 0 ? 1. : norm == 1 ? 1. / std::sqrt( static_cast<double>( N ) ) : 1. / static_cast<double>( N ); }
  std::unique_ptr<Fwd> forward( CompositeComponent * parent, SignalFlowContext const & ctx, Rng & g ) const
  {
    if( !own ) return std::unique_ptr<Fwd>( new Fwd( ctx, "fwd", parent, ch, N, W, H, fft.c_str(), static_cast<Fwd::Normalisation>( norm ) ) );
    efl::BasicVector<float> w( W, g.pick( { std::size_t( 0 ), std::size_t( 1 ), std::size_t( 4 ), std::size_t( 16 ) } ) ); for( std::size_t i = 0; i < W; ++i ) w[i] = static_cast<float>( win[i] );
    return std::unique_ptr<Fwd>( new Fwd( ctx, "fwd", parent, ch, N, w, H, fft.c_str(), static_cast<Fwd::Normalisation>( norm ) ) );
  }
};
static void forwardMode( vh::Run & r )
{
  Rng & g = r.rng; Conf c( g ); SignalFlowContext ctx( c.B, 48000 ); std::unique_ptr<Fwd> f;
  try { f = c.forward( nullptr, ctx, g ); } catch( std::exception const & e ) { r.viol( "transform_construction", c.text + ": " + e.what() ); return; }
  rig::Rig rg( *f ); std::vector<std::vector<double>> hist( c.ch, std::vector<double>( c.N + 64, 0. ) ); rig::Block in( c.ch ), out; std::size_t const bins = c.N / 2 + 1;
  if( rg.ins() != c.ch || rg.outs() != 0 ) { r.viol( "transform_ports", c.text ); return; }
  std::vector<C> tw( c.N ); for( std::size_t i = 0; i < c.N; ++i ) tw[i] = std::polar( 1., -2 * pi * static_cast<double>( i ) / static_cast<double>( c.N ) );
  if( c.W < c.H ) r.count( "windows shorter than the hop" ); if( c.W < c.N ) r.count( "zero-padded windows" ); if( c.frames > 1 ) r.count( "several frames per block" );
  for( long b = 0, nb = g.range( 2, 12 ); b < nb; ++b )
  {
    for( std::size_t i = 0; i < c.ch; ++i ) { in[i] = rig::signal( g, c.B ); for( float x : in[i] ) hist[i].push_back( x ); }
    if( !rg.process( in, out ) ) { r.viol( "transform_failed", c.text + ": " + rg.error ); return; }
    TF const & t = dynamic_cast<TF const &>( rg.sdOut( "out" ).data() );
    if( t.numberOfDftBins() != bins || t.numberOfChannels() != c.ch || t.numberOfFrames() != c.frames ) { r.viol( "frame_dimensions", vh::cat( c.text, ": ", t.numberOfDftBins(), " bins, ", t.numberOfChannels(), " channels, ", t.numberOfFrames(), " frames" ) ); return; }
    for( std::size_t fr = 0; fr < c.frames; ++fr ) for( std::size_t i = 0; i < c.ch; ++i )
    {
      std::size_t const end = hist[i].size() - ( c.frames - 1 - fr ) * c.H; std::vector<double> x( c.N, 0. ); double sum = 0;
      for( std::size_t k = 0; k < c.W; ++k ) { std::size_t const p = end + k; x[k] = p < c.W ? 0. : hist[i][p - c.W] * c.win[k]; sum += std::fabs( x[k] ); }
      for( std::size_t kk = 0; kk < 12; ++kk )
      {
        std::size_t const k = bins <= 12 ? kk : kk == 0 ? 0 : kk == 1 ? bins - 1 : g.index( bins ); if( k >= bins ) break;
        C e = 0; for( std::size_t n = 0; n < c.W; ++n ) e += x[n] * tw[k * n % c.N]; e *= c.scale(); r.event();
        std::complex<float> const gt = t.at( fr, i, k );
        if( !( std::abs( C( gt ) - e ) <= 1e-5 * ( 1e-3 + sum * c.scale() ) ) ) { r.viol( "transform_frame", vh::cat( c.text, ": block ", b, " frame ", fr, " channel ", i, " bin ", k, ": got (", gt.real(), ",", gt.imag(), "), expected (", e.real(), ",", e.imag(), ")" ) ); return; }
      }
    }
    r.count( "transformed blocks" );
  }
  r.nontrivial( c.text );
}
static void inverseMode( vh::Run & r )
{
  Rng & g = r.rng; Conf c( g ); if( g.chance( 0.1 ) ) c.N = std::max<std::size_t>( 2, ( c.H / 2 ) & ~std::size_t( 1 ) ); SignalFlowContext ctx( c.B, 48000 ); std::unique_ptr<Inv> f;
  try { f.reset( new Inv( ctx, "inv", nullptr, c.ch, c.N, c.H, c.fft.c_str(), static_cast<Inv::Normalisation>( c.norm ) ) ); }
  catch( std::exception const & e ) { if( c.N < c.H ) { r.count( "hops beyond the transform refused" ); return; } r.viol( "inverse_construction", c.text + ": " + e.what() ); return; }
  rig::Rig rg( *f ); rig::Block none, out; std::size_t const bins = c.N / 2 + 1; TF & t = rg.shared<TF>( "in" );
  if( t.numberOfDftBins() != bins || t.numberOfChannels() != c.ch || t.numberOfFrames() != c.frames || rg.outs() != c.ch || rg.ins() != 0 ) { r.viol( "inverse_dimensions", c.text ); return; }
  std::vector<std::vector<double>> acc( c.ch ); std::size_t done = 0; double mag = 0; // overlap-added signal
  std::vector<C> tw( c.N ); for( std::size_t i = 0; i < c.N; ++i ) tw[i] = std::polar( 1., 2 * pi * static_cast<double>( i ) / static_cast<double>( c.N ) );
  for( long b = 0, nb = g.range( 2, 8 ); b < nb; ++b )
  {
    for( std::size_t fr = 0; fr < c.frames; ++fr ) for( std::size_t i = 0; i < c.ch; ++i )
    {
      std::size_t const start = done + fr * c.H; acc[i].resize( std::max( acc[i].size(), start + std::max( c.N, c.H ) ), 0. ); std::vector<C> s( bins ); bool const sparse = c.N > 64; double sum = 0;
      for( std::size_t k = 0; k < bins; ++k )
      {
        if( !sparse || g.chance( 6. / static_cast<double>( bins ) ) ) s[k] = C( static_cast<float>( g.uni( -1, 1 ) ), k == 0 || k == c.N / 2 ? 0. : static_cast<double>( static_cast<float>( g.uni( -1, 1 ) ) ) );
        t.at( fr, i, k ) = std::complex<float>( static_cast<float>( s[k].real() ), static_cast<float>( s[k].imag() ) ); sum += 2 * std::abs( s[k] );
      }
      for( std::size_t k = 0; k < bins; ++k ) if( s[k] != 0. ) for( std::size_t n = 0; n < c.N; ++n ) acc[i][start + n] += ( k == 0 || k == c.N / 2 ? 1. : 2. ) * ( s[k] * tw[k * n % c.N] ).real() * c.scale();
      mag = std::max( mag, sum * c.scale() * static_cast<double>( ( c.N + c.H - 1 ) / c.H ) );
    }
    if( !rg.process( none, out ) ) { r.viol( "inverse_failed", c.text + ": " + rg.error ); return; }
    for( std::size_t i = 0; i < c.ch; ++i ) for( std::size_t n = 0; n < c.B; ++n )
    { r.event(); if( !( std::fabs( out[i][n] - acc[i][done + n] ) <= 1e-5 * ( 1e-3 + mag ) ) ) { r.viol( "inverse_output", vh::cat( c.text, ": block ", b, " channel ", i, " sample ", n, ": got ", out[i][n], ", expected ", acc[i][done + n] ) ); return; } }
    done += c.B; r.count( "inversely transformed blocks" );
  }
  if( c.N > c.H ) r.count( "overlapping frames" );
  r.nontrivial( c.text );
}
namespace
{
struct Chain: CompositeComponent // forward transform into inverse transform
{
  std::unique_ptr<Fwd> f; Inv inv; AudioInput in; AudioOutput out;
  Chain( SignalFlowContext const & ctx, Conf const & c, Rng & g )
   : CompositeComponent( ctx, "chain", nullptr ), f( c.forward( this, ctx, g ) )
   , inv( ctx, "inv", this, c.ch, c.N, c.H, c.fft.c_str(), c.norm == 0 ? Inv::Normalisation::OneOverN : c.norm == 1 ? Inv::Normalisation::Unitary : Inv::Normalisation::One )
   , in( "in", *this, c.ch ), out( "out", *this, c.ch )
  {
    audioConnection( in, f->audioPort( "in" ) ); parameterConnection( f->parameterPort( "out" ), inv.parameterPort( "in" ) ); audioConnection( inv.audioPort( "out" ), out );
  }
};
}
static void chainMode( vh::Run & r )
{
  Rng & g = r.rng; Conf c( g ); bool const feed = g.chance( 0.5 ); while( c.N < c.H ) c = Conf( g );
  if( feed ) { c.own = false; c.norm = 0; c.win.resize( c.W ); for( std::size_t i = 0; i < c.W; ++i ) c.win[i] = 0.5 - 0.5 * std::cos( 2 * pi * static_cast<double>( i ) / static_cast<double>( c.W ) ); c.text = vh::cat( "feedthrough: ", c.ch, " channels, period ", c.B, ", hop ", c.H, ", dft ", c.N, ", window ", c.W ); }
  SignalFlowContext ctx( c.B, 48000 ); std::unique_ptr<Component> f;
  try { if( feed ) f.reset( new signalflows::TimeFrequencyFeedthrough( ctx, g.pick( { "", "flow" } ), nullptr, c.ch, c.N, c.W, c.H ) ); else f.reset( new Chain( ctx, c, g ) ); }
  catch( std::exception const & e ) { r.viol( "chain_construction", c.text + ": " + e.what() ); return; }
  std::unique_ptr<rig::Rig> rg; try { rg.reset( new rig::Rig( *f ) ); } catch( std::exception const & e ) { r.viol( "chain_construction", c.text + ": " + e.what() ); return; }
  std::vector<std::vector<double>> x( c.ch, std::vector<double>( c.W, 0. ) ); rig::Block in( c.ch ), out; std::size_t t = 0; double big = 0;
  // A frame that ends at time e (exclusive) holds samples e-W .. e-1 and is played from the start of the hop it completed: e-H.
  for( long b = 0, nb = g.range( 2, 8 ); b < nb; ++b )
  {
    for( std::size_t i = 0; i < c.ch; ++i ) { in[i] = rig::signal( g, c.B ); for( float v : in[i] ) { x[i].push_back( v ); big = std::max( big, std::fabs( static_cast<double>( v ) ) ); } }
    if( !rg->process( in, out ) ) { r.viol( "chain_failed", c.text + ": " + rg->error ); return; }
    for( std::size_t i = 0; i < c.ch; ++i ) for( std::size_t n = 0; n < c.B; ++n )
    {
      std::size_t const o = t + n; double e = 0, w = 0; // frames start at m*H for m = 0, 1, ...; sample k of frame m is x[(m+1)H - W + k] * win[k]
      for( std::size_t m = o / c.H + 1; m-- > 0; ) { std::size_t const k = o - m * c.H; if( k >= c.W ) break; e += x[i][( m + 1 ) * c.H + k] * c.win[k]; w += std::fabs( c.win[k] ); }
      r.event(); if( !( std::fabs( out[i][n] - e ) <= 1e-5 * ( 1e-3 + big * ( 1 + w ) ) * 3 ) ) { r.viol( feed ? "feedthrough_output" : "chain_output", vh::cat( c.text, ": sample ", o, " of channel ", i, ": got ", out[i][n], ", expected ", e ) ); return; }
    }
    t += c.B; r.count( feed ? "feedthrough blocks" : "chained blocks" );
  }
  r.nontrivial( c.text );
}
static void refusals( vh::Run & r )
{
  Rng & g = r.rng; Conf c( g ); std::string what; std::size_t H = c.H, W = c.W, N = c.N;
  switch( g.index( 4 ) )
  {
  case 0: H = 0; what = "hop size 0"; break;
  case 1: H = c.B + 1 + g.index( 5 ); what = "hop beyond the period"; break;
  case 2: H = 2 + g.index( c.B + 1 ); if( c.B % H == 0 ) return; what = "hop that does not divide the period"; break;
  case 3: W = N + 1 + g.index( 40 ); what = "window longer than the transform"; break;
  }
  SignalFlowContext ctx( c.B, 48000 ); std::string const t = vh::cat( what, ": period ", c.B, ", hop ", H, ", dft ", N, ", window ", W ); r.event();
  for( int k = 0; k < 4; ++k )
  {
    bool const isWin = W > N; bool thrown = false;
    try
    {
      switch( k )
      {
      case 0: { Fwd f( ctx, "f", nullptr, c.ch, N, W, H ); break; }
      case 1: { efl::BasicVector<float> w( W, 4 ); for( std::size_t i = 0; i < W; ++i ) w[i] = 1.f; Fwd f( ctx, "f", nullptr, c.ch, N, w, H ); break; }
      case 2: { signalflows::TimeFrequencyFeedthrough f( ctx, "f", nullptr, c.ch, N, W, H ); break; }
      case 3: { if( isWin ) continue; Inv f( ctx, "f", nullptr, c.ch, N, H ); break; }
      }
    }
    catch( std::exception const & ) { thrown = true; }
    r.event(); if( !thrown ) { r.viol( "accepted", vh::cat( t, " accepted by ", k ) ); return; }
  }
  bool thrown = false; try { Fwd f( ctx, "f", nullptr, c.ch, N, c.W, c.H, "nofft" ); } catch( std::exception const & ) { thrown = true; }
  if( !thrown ) { r.viol( "accepted", "unknown FFT accepted" ); return; }
  r.count( "refused configurations" ); r.nontrivial( t );
}
template<class E> static void container( vh::Run & r )
{
  using P = pml::TimeFrequencyParameter<E>; Rng & g = r.rng; struct Model { std::size_t b, c, f; std::vector<std::complex<E>> v; }; std::vector<std::pair<std::unique_ptr<P>, Model>> pool; std::string log;
  auto fill = [&]( P & p, Model & m ) { m.v.resize( m.b * m.c * m.f ); std::size_t x = 0; for( std::size_t f = 0; f < m.f; ++f ) for( std::size_t c = 0; c < m.c; ++c ) for( std::size_t b = 0; b < m.b; ++b ) { std::complex<E> const v( static_cast<E>( g.uni( -9, 9 ) ), static_cast<E>( g.uni( -9, 9 ) ) ); m.v[x++] = v; switch( g.index( 3 ) ) { case 0: p.at( f, c, b ) = v; break; case 1: p.channelSlice( f, c )[b] = v; break; case 2: p.frameSlice( f )[c * p.channelStride() + b] = v; break; } } };
  auto dims = [&] { return static_cast<std::size_t>( g.range( 1, 6 ) ); };
  for( long s = g.range( 2, 14 ); s > 0; --s )
  {
    switch( pool.empty() ? 0 : g.index( 7 ) )
    {
    case 0: { Model m{ dims() * dims(), dims(), dims(), {} }; std::size_t const al = g.pick( { std::size_t( 0 ), std::size_t( 1 ), std::size_t( 4 ), std::size_t( 16 ) } ); log += vh::cat( "; new ", m.b, "x", m.c, "x", m.f ); bool const cfg = g.chance( 0.4 ); std::unique_ptr<P> p; if( cfg ) { pml::TimeFrequencyParameterConfig tc( m.b, m.c, m.f ); if( g.chance( 0.5 ) ) p.reset( new P( tc ) ); else p.reset( new P( static_cast<ParameterConfigBase const &>( tc ) ) ); } else p.reset( new P( m.b, m.c, m.f, al ) );
      m.v.assign( m.b * m.c * m.f, std::complex<E>() ); if( g.chance( 0.7 ) ) fill( *p, m ); pool.emplace_back( std::move( p ), m ); break; }
    case 1: { std::size_t const i = g.index( pool.size() ); Model m = pool[i].second; std::unique_ptr<P> p( new P( *pool[i].first ) ); log += vh::cat( "; copy ", i ); pool.emplace_back( std::move( p ), m ); r.count( "copies" ); break; }
    case 2: { std::size_t const i = g.index( pool.size() ), j = g.index( pool.size() ); *pool[i].first = *pool[j].first; pool[i].second = Model( pool[j].second ); log += vh::cat( "; ", i, " = ", j ); r.count( "assignments" ); break; }
    case 3: { std::size_t const i = g.index( pool.size() ); Model m{ dims(), dims(), dims(), {} }; pool[i].first->resize( m.b, m.c, m.f ); m.v.assign( m.b * m.c * m.f, std::complex<E>() ); pool[i].second = m; log += vh::cat( "; resize ", i ); break; }
    case 4: { std::size_t const i = g.index( pool.size() ); fill( *pool[i].first, pool[i].second ); log += vh::cat( "; fill ", i ); break; }
    case 5: { std::size_t const i = g.index( pool.size() ); auto q = pool[i].first->clone(); std::unique_ptr<P> p( dynamic_cast<P *>( q.release() ) ); if( !p ) { r.viol( "clone_type", log ); return; } Model m = pool[i].second; pool.emplace_back( std::move( p ), m ); log += vh::cat( "; clone ", i ); break; }
    case 6: { std::unique_ptr<P> p( new P( g.pick( { std::size_t( 0 ), std::size_t( 1 ), std::size_t( 8 ) } ) ) ); r.event(); if( p->numberOfChannels() != 0 || p->numberOfFrames() != 0 || p->numberOfDftBins() != 0 ) { r.viol( "empty_frames", vh::cat( log, ": ", p->numberOfFrames(), " frames" ) ); return; } P q( *p ); std::size_t const i = g.index( pool.size() ); *p = *pool[i].first; Model m = pool[i].second; pool.emplace_back( std::move( p ), m ); log += "; empty"; r.count( "empty frame sets" ); break; }
    }
    for( std::size_t i = 0; i < pool.size(); ++i )
    {
      P const & p = *pool[i].first; Model const & m = pool[i].second; std::size_t x = 0; r.event();
      if( p.numberOfDftBins() != m.b || p.numberOfChannels() != m.c || p.numberOfFrames() != m.f || p.frameStride() != p.channelStride() * m.c ) { r.viol( "frames_dimensions", vh::cat( log, ": ", i ) ); return; }
      for( std::size_t f = 0; f < m.f; ++f ) for( std::size_t c = 0; c < m.c; ++c ) for( std::size_t b = 0; b < m.b; ++b, ++x )
        if( p.at( f, c, b ) != m.v[x] || p.channelSlice( f, c )[b] != m.v[x] || p.frameSlice( f )[c * p.channelStride() + b] != m.v[x] || p.data()[f * p.frameStride() + c * p.channelStride() + b] != m.v[x] ) { r.viol( "frames_content", vh::cat( log, ": ", i, " (", f, ",", c, ",", b, ")" ) ); return; }
    }
  }
  pml::TimeFrequencyParameterConfig a( dims(), dims(), dims() ), b( g.chance( 0.5 ) ? a.numberOfDftBins() : dims(), g.chance( 0.7 ) ? a.numberOfChannels() : dims(), g.chance( 0.7 ) ? a.numberOfFrames() : dims() );
  bool const same = a.numberOfDftBins() == b.numberOfDftBins() && a.numberOfChannels() == b.numberOfChannels() && a.numberOfFrames() == b.numberOfFrames(); std::unique_ptr<ParameterConfigBase> cl = a.clone(); r.event();
  if( a.compare( static_cast<ParameterConfigBase const &>( b ) ) != same || !a.compare( *cl ) ) { r.viol( "frames_config", vh::cat( a.numberOfDftBins(), "x", a.numberOfChannels(), "x", a.numberOfFrames(), " against ", b.numberOfDftBins(), "x", b.numberOfChannels(), "x", b.numberOfFrames() ) ); return; }
  r.count( "frame containers" ); r.nontrivial( log );
}
static void one( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), true ); (void)init;
  switch( r.rng.index( 10 ) )
  {
  case 0: case 1: case 2: forwardMode( r ); break;
  case 3: case 4: inverseMode( r ); break;
  case 5: case 6: case 7: chainMode( r ); break;
  case 8: refusals( r ); break;
  case 9: if( r.rng.chance( 0.5 ) ) container<float>( r ); else container<double>( r ); break;
  }
}
VH_MAIN( one )
