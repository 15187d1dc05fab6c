// C12: equalisers. A parametric filter has the frequency response its type, frequency, quality and gain define; the biquad
// component applies the current filters to every channel; the object equaliser follows gains and filters of the scene.
#include "rig.hpp"
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/object_vector.hpp>
#include <librbbl/parametric_iir_coefficient.hpp>
#include <librbbl/parametric_iir_coefficient_calculator.hpp>
#include <librcl/biquad_iir_filter.hpp>
#include <librcl/object_gain_eq_calculator.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <array>
#include <complex>
#include <limits>
// LIBS: rrl pml rcl objectmodel rbbl visr efl
using namespace visr;
using vh::Rng;
using C = std::complex<double>;
using PB = rbbl::ParametricIirCoefficientBase;
using BC = rbbl::BiquadCoefficient<float>;
using BL = rbbl::BiquadCoefficientList<float>;
using BM = rbbl::BiquadCoefficientMatrix<float>;

// Analog prototype of a parametric filter at frequency w, with the frequency axis warped so that w0 is met exactly.
static C prototype( PB::Type t, double w, double w0, double Q, double gainDb )
{
  double const A = std::pow( 10., gainDb / 40 ), k = std::tan( w / 2 ) / std::tan( w0 / 2 );
  C const s( 0, k ), s2 = s * s; double const q = std::sqrt( A );
  switch( t )
  {
  case PB::Type::lowpass: return 1. / ( s2 + s / Q + 1. );
  case PB::Type::highpass: return s2 / ( s2 + s / Q + 1. );
  case PB::Type::bandpass: return ( s / Q ) / ( s2 + s / Q + 1. );
  case PB::Type::bandstop: return ( s2 + 1. ) / ( s2 + s / Q + 1. );
  case PB::Type::allpass: return ( s2 - s / Q + 1. ) / ( s2 + s / Q + 1. );
  case PB::Type::peak: return ( s2 + s * A / Q + 1. ) / ( s2 + s / ( A * Q ) + 1. );
  case PB::Type::lowshelf: return A * ( s2 + s * q / Q + A ) / ( A * s2 + s * q / Q + 1. );
  case PB::Type::highshelf: return A * ( A * s2 + s * q / Q + 1. ) / ( s2 + s * q / Q + A );
  }
  return 0;
}
static std::vector<PB::Type> const kTypes{ PB::Type::lowpass, PB::Type::highpass, PB::Type::bandpass, PB::Type::bandstop, PB::Type::highshelf, PB::Type::lowshelf, PB::Type::peak, PB::Type::allpass };

template<class T> static rbbl::ParametricIirCoefficient<T> parametric( Rng & g, double fs )
{
  double const f = g.chance( 0.5 ) ? fs * g.uni( 0.01, 0.49 ) : fs * 0.49 * std::pow( 10., -g.uni( 0, 2.5 ) );
  double const Q = g.chance( 0.2 ) ? 0.7071 : std::pow( 10., g.uni( -1, 1.3 ) );
  double const dB = g.pick( { 0., 6., -6., g.uni( -30, 30 ), g.uni( -3, 3 ) } );
  return rbbl::ParametricIirCoefficient<T>( g.pick( kTypes ), static_cast<T>( f ), static_cast<T>( Q ), static_cast<T>( dB ) );
}
// Compares a biquad with the response the parameters define; empty if they agree.
template<class T> static std::string response( rbbl::ParametricIirCoefficient<T> const & p, rbbl::BiquadCoefficient<T> const & c, double fs )
{
  double const w0 = 2 * M_PI * static_cast<double>( p.frequency() ) / fs, pi = M_PI;
  double const eps = 40 * static_cast<double>( std::numeric_limits<T>::epsilon() ), A = std::pow( 10., std::fabs( p.gain() ) / 40 );
  double const b0 = c.b0(), b1 = c.b1(), b2 = c.b2(), a1 = c.a1(), a2 = c.a2();
  for( double x : { b0, b1, b2, a1, a2 } ) if( !std::isfinite( x ) ) return "a coefficient is not finite";
  std::vector<double> ws{ w0, w0 / 2, std::sqrt( w0 * pi ) / 2, ( w0 + pi ) / 2, 1e-3 * w0, pi - 1e-3 * ( pi - w0 ) };
  for( int i = 1; i < 8; ++i ) ws.push_back( pi * i / 8 );
  for( double const w : ws )
  {
    C const z = std::polar( 1., -w ), N = b0 + z * ( b1 + z * b2 ), D = 1. + z * ( a1 + z * a2 ), H = prototype( p.type(), w, w0, p.quality(), p.gain() );
    double const tol = eps * A * ( 1 + std::fabs( b0 ) + std::fabs( b1 ) + std::fabs( b2 ) + std::abs( H ) * ( 1 + std::fabs( a1 ) + std::fabs( a2 ) ) );
    if( !( std::abs( N - H * D ) <= tol ) ) return vh::cat( "at ", w * fs / 2 / pi, " Hz numerator ", N, ", expected ", H * D, " (response ", H, ", tolerance ", tol, ")" );
  }
  if( !( std::fabs( a2 ) <= 1 + eps && std::fabs( a1 ) <= 1 + a2 + eps ) ) return "unstable";
  return std::string();
}
template<class T> static std::string str( rbbl::ParametricIirCoefficient<T> const & p, double fs )
{ return vh::cat( PB::typeIdToString( p.type() ), " f=", p.frequency(), " Q=", p.quality(), " gain=", p.gain(), " dB at ", fs, " Hz" ); }

template<class T> static void calculator( vh::Run & r )
{
  using PL = rbbl::ParametricIirCoefficientList<T>;
  Rng & g = r.rng;
  T const fs = static_cast<T>( g.pick( { 48000., 44100., 96000., 8000., 192000. } ) );
  std::size_t const n = g.index( 6 ), room = g.chance( 0.15 ) ? g.index( 6 ) : n + g.index( 4 );
  PL ps( n, rbbl::ParametricIirCoefficient<T>() ); std::string text;
  for( std::size_t i = 0; i < n; ++i ) { ps[i] = parametric<T>( g, fs ); text += str( ps[i], fs ) + "; "; }
  rbbl::BiquadCoefficientList<T> cs( room ); for( auto & c : cs ) for( std::size_t k = 0; k < 5; ++k ) c[k] = static_cast<T>( g.uni( -9, 9 ) );
  bool threw = false;
  try { rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<T>( ps, cs, fs ); } catch( std::invalid_argument const & ) { threw = true; }
  r.event();
  if( threw != ( n > room ) ) { r.viol( "calc_refusal", vh::cat( n, " filters for ", room, " sections ", threw ? "refused" : "accepted" ) ); return; }
  if( threw ) { r.count( "filters without room refused" ); return; }
  for( std::size_t i = 0; i < room; ++i )
  {
    r.event();
    if( i >= n ) { T const flat[5] = { 1, 0, 0, 0, 0 }; if( !std::equal( flat, flat + 5, cs[i].data() ) ) { r.viol( "calc_rest", vh::cat( "section ", i, " beyond the ", n, " filters is not flat: ", cs[i][0], " ", cs[i][1] ) ); return; } continue; }
    std::string const d = response( ps[i], cs[i], fs );
    if( !d.empty() ) { r.viol( vh::cat( "calc_", PB::typeIdToString( ps[i].type() ) ), str( ps[i], fs ) + ": " + d ); return; }
    auto const one = rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<T>( ps[i], fs );
    std::string const d1 = response( ps[i], one, fs );
    if( !d1.empty() ) { r.viol( "calc_single", str( ps[i], fs ) + ": " + d1 ); return; }
  }
  r.count( "parametric filters computed", static_cast<long>( n ) ); if( n ) r.nontrivial( text );
}

// ---------------------------------------------------------------- biquad component
static BC biquad( Rng & g )
{
  switch( g.index( 4 ) )
  {
  case 0: return BC();
  case 1: return BC( static_cast<float>( g.uni( -1, 1 ) ), static_cast<float>( g.uni( -1, 1 ) ), static_cast<float>( g.uni( -1, 1 ) ), static_cast<float>( g.uni( -0.4, 0.4 ) ), static_cast<float>( g.uni( -0.4, 0.4 ) ) );
  case 2: return BC( static_cast<float>( g.range( -2, 2 ) ), static_cast<float>( g.range( -2, 2 ) ), 0, 0, 0 );
  default: return rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<float>( rbbl::ParametricIirCoefficient<float>( g.pick( kTypes ), static_cast<float>( g.uni( 1500, 20000 ) ), static_cast<float>( g.uni( 0.3, 3 ) ), static_cast<float>( g.uni( -12, 12 ) ) ), 48000.f );
  }
}
struct Model // cascades of second-order sections in transposed direct form, whose state outlives changes of the coefficients
{
  std::size_t ch, sec; std::vector<std::vector<BC>> c; std::vector<std::vector<std::array<double, 2>>> s; std::vector<double> bound;
  Model( std::size_t ch, std::size_t sec ): ch( ch ), sec( sec ), c( ch, std::vector<BC>( sec ) ), s( ch, std::vector<std::array<double, 2>>( sec, { 0, 0 } ) ), bound( ch, 1 ) {}
  // One output sample and the magnitude its rounding error scales with.
  double tick( std::size_t i, double x )
  {
    for( std::size_t k = 0; k < sec; ++k )
    {
      BC const & q = c[i][k]; auto & w = s[i][k];
      double const y = q.b0() * x + w[0];
      w[0] = w[1] + q.b1() * x - q.a1() * y; w[1] = q.b2() * x - q.a2() * y; x = y;
      bound[i] = std::max( { bound[i], std::fabs( w[0] ), std::fabs( w[1] ), std::fabs( y ) } );
    }
    return x;
  }
};
static void component( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const B = g.chance( 0.5 ) ? g.pick( { std::size_t( 8 ), std::size_t( 32 ), std::size_t( 64 ) } ) : 1 + g.index( 50 ), ch = g.index( 5 ), sec = g.index( 5 );
  SignalFlowContext const ctx( B, 48000 ); bool const ctl = g.chance( 0.6 );
  Model m( ch, sec ); std::string log = vh::cat( ch, " channels, ", sec, " sections, period ", B );
  auto matrix = [&]( std::size_t a, std::size_t b ) { BM q( a, b ); for( std::size_t i = 0; i < a; ++i ) for( std::size_t j = 0; j < b; ++j ) q( i, j ) = biquad( g ); return q; };
  auto list = [&]( std::size_t b ) { BL q( b ); for( auto & e : q ) e = biquad( g ); return q; };
  std::unique_ptr<rcl::BiquadIirFilter> f; bool refuse = false, threw = false; int const how = static_cast<int>( g.index( 4 ) ); log += vh::cat( ", initialisation ", how );
  try
  {
    if( how == 0 ) f.reset( new rcl::BiquadIirFilter( ctx, "eq", nullptr, ch, sec, ctl ) );
    else if( how == 1 ) { BC const b = biquad( g ); for( auto & l : m.c ) l.assign( sec, b ); f.reset( new rcl::BiquadIirFilter( ctx, "eq", nullptr, ch, sec, b, ctl ) ); }
    else if( how == 2 ) { refuse = g.chance( 0.1 ); BL const l = list( refuse ? sec + 1 : sec ); if( !refuse ) for( auto & x : m.c ) x.assign( l.begin(), l.end() ); f.reset( new rcl::BiquadIirFilter( ctx, "eq", nullptr, ch, sec, l, ctl ) ); }
    else { if( ch == 0 ) return; refuse = g.chance( 0.1 ); BM const q = matrix( refuse && g.chance( 0.5 ) ? ch + 1 : ch, refuse && g.chance( 0.6 ) ? sec + 1 : sec ); refuse = q.numberOfFilters() != ch || q.numberOfSections() != sec; if( !refuse ) for( std::size_t i = 0; i < ch; ++i ) m.c[i].assign( q[i].begin(), q[i].end() ); f.reset( new rcl::BiquadIirFilter( ctx, "eq", nullptr, ch, sec, q, ctl ) ); }
  }
  catch( std::invalid_argument const & ) { threw = true; }
  r.event();
  if( threw != refuse ) { r.viol( "eq_construction", vh::cat( log, threw ? ": valid coefficients refused" : ": mis-sized coefficients accepted" ) ); return; }
  if( threw ) { r.count( "mis-sized coefficients refused" ); return; }
  rig::Rig rg( *f ); rig::Block in( ch ), out; long const blocks = g.range( 2, 6 );
  for( long b = 0; b < blocks; ++b )
  {
    bool bad = false;
    for( int e = static_cast<int>( g.index( 3 ) ); e > 0; --e )
    {
      std::size_t const i = g.index( ch + 1 ), k = g.index( sec + 1 ); bool ref = false; threw = false; char const * what = "";
      try
      {
        switch( g.index( 3 ) )
        {
        case 0: { what = "setCoefficients"; BC const q = biquad( g ); ref = i >= ch || k >= sec; if( !ref ) m.c[i][k] = q; f->setCoefficients( i, k, q ); } break;
        case 1: { what = "setChannelCoefficients"; BL const q = list( g.chance( 0.1 ) ? sec + 1 : sec ); ref = i >= ch || q.size() != sec; if( !ref ) m.c[i].assign( q.begin(), q.end() ); f->setChannelCoefficients( i, q ); } break;
        default: { if( !ch ) break; what = "setCoefficientMatrix"; BM const q = matrix( g.chance( 0.1 ) ? ch + 1 : ch, g.chance( 0.1 ) ? sec + 1 : sec ); ref = q.numberOfFilters() != ch || q.numberOfSections() != sec; if( !ref ) for( std::size_t j = 0; j < ch; ++j ) m.c[j].assign( q[j].begin(), q[j].end() ); f->setCoefficientMatrix( q ); }
        }
      }
      catch( std::invalid_argument const & ) { threw = true; }
      r.event(); log += vh::cat( "; block ", b, " ", what, " ", i, ",", k, ref ? " (inadmissible)" : "" );
      if( threw != ref ) { r.viol( "eq_setter", vh::cat( log, threw ? ": refused" : ": accepted" ) ); return; }
      r.count( ref ? "mis-sized coefficients refused" : "filter changes" );
    }
    if( ctl && ch && g.chance( 0.5 ) )
    {
      bad = g.chance( 0.15 );
      BM const q = matrix( bad && g.chance( 0.5 ) ? ch + 1 : ch, bad && g.chance( 0.6 ) ? sec + 1 : sec ); bad = q.numberOfFilters() != ch || q.numberOfSections() != sec;
      auto & port = rg.db<pml::BiquadParameterMatrix<float>>( "eqInput" ); auto & d = dynamic_cast<pml::BiquadParameterMatrix<float> &>( port.data() );
      d.resize( q.numberOfFilters(), q.numberOfSections() ); for( std::size_t i = 0; i < q.numberOfFilters(); ++i ) for( std::size_t j = 0; j < q.numberOfSections(); ++j ) d( i, j ) = q( i, j );
      port.swapBuffers(); log += vh::cat( "; block ", b, bad ? " mis-sized" : "", " parameter" );
      if( !bad ) for( std::size_t j = 0; j < ch; ++j ) m.c[j].assign( q[j].begin(), q[j].end() );
      r.count( bad ? "mis-sized parameters sent" : "filter parameters sent" );
    }
    for( auto & c : in ) c = rig::signal( g, B );
    bool const ok = rg.process( in, out ); r.event();
    if( ok == bad ) { r.viol( bad ? "eq_missized_accepted" : "eq_block_failed", vh::cat( log, "; block ", b, ok ? " processed with a mis-sized parameter" : " failed: " + rg.error ) ); return; }
    if( !ok ) continue;
    for( std::size_t i = 0; i < ch; ++i ) for( std::size_t t = 0; t < B; ++t )
    {
      double const w = m.tick( i, in[i][t] ); r.event();
      if( !( std::fabs( out[i][t] - w ) <= 3e-4 * m.bound[i] ) ) { r.viol( "eq_output", vh::cat( log, "; block ", b, " channel ", i, " sample ", t, ": got ", out[i][t], ", expected ", w, " (tolerance ", 3e-4 * m.bound[i], ")" ) ); return; }
    }
  }
  r.count( "equaliser runs" ); if( ch && sec ) r.nontrivial( log );
}

// ---------------------------------------------------------------- object gains and equalisers
static void objects( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const ch = 1 + g.index( 12 ), sec = g.index( 5 ); double const fs = g.pick( { 48000., 44100. } );
  SignalFlowContext const ctx( 16, static_cast<SamplingFrequencyType>( fs ) );
  rcl::ObjectGainEqCalculator calc( ctx, "calc", nullptr, ch, sec ); rig::Rig rg( calc );
  auto & gp = rg.dbOut( "gainOut" ); auto & ep = rg.dbOut( "eqOut" ); rig::Block none, out; std::string log = vh::cat( ch, " channels, ", sec, " sections" );
  std::vector<double> gain( ch, 0 ); std::vector<std::vector<rbbl::ParametricIirCoefficient<float>>> eq( ch ); std::vector<bool> listed( ch, false ); bool known = false;
  for( long b = g.range( 1, 5 ); b > 0; --b )
  {
    bool bad = false, sent = g.chance( 0.8 );
    if( sent )
    {
      objectmodel::ObjectVector ov; std::vector<std::size_t> free( ch ); for( std::size_t i = 0; i < ch; ++i ) free[i] = i; g.shuffle( free );
      std::vector<double> ng( ch, 0 ); auto ne = eq; std::vector<bool> nl( ch, false ); unsigned id = static_cast<unsigned>( g.index( 5 ) ); log += "; scene";
      for( std::size_t n = g.index( 5 ); n > 0; --n )
      {
        id += 1 + static_cast<unsigned>( g.index( 3 ) );
        std::size_t const k = g.chance( 0.6 ) ? 1 : g.index( 4 ); if( free.size() < k ) break;
        std::unique_ptr<objectmodel::Object> o;
        if( g.chance( 0.5 ) && k == 1 ) o.reset( new objectmodel::PointSource( id ) );
        else if( g.chance( 0.5 ) ) o.reset( new objectmodel::ChannelObject( id ) );
        else o.reset( new objectmodel::HoaSource( id ) );
        o->resetNumberOfChannels( k );
        float const level = static_cast<float>( g.pick( { 0., 1., g.uni( 0, 2 ), -0.5 } ) ); o->setLevel( level );
        std::size_t ns = g.index( sec + 1 ); if( g.chance( 0.05 ) ) { ns = sec + 1; if( k ) bad = true; }
        rbbl::ParametricIirCoefficientList<float> ps( ns, rbbl::ParametricIirCoefficient<float>() ); for( std::size_t i = 0; i < ns; ++i ) ps[i] = parametric<float>( g, fs );
        o->setEqCoefficients( ps ); log += vh::cat( " [", id, " level ", level, " filters ", ns, " channels" );
        for( std::size_t c = 0; c < k; ++c )
        {
          std::size_t s = free.back(); free.pop_back();
          if( g.chance( 0.03 ) ) { s = ch + g.index( 3 ); bad = true; } else { ng[s] = level; ne[s].assign( ps.begin(), ps.end() ); nl[s] = true; }
          o->setChannelIndex( c, static_cast<objectmodel::Object::ChannelIndex>( s ) ); log += vh::cat( " ", s );
        }
        log += "]"; ov.insert( *o );
      }
      auto & port = rg.db<pml::ObjectVector>( "objectIn" ); static_cast<objectmodel::ObjectVector &>( dynamic_cast<pml::ObjectVector &>( port.data() ) ).assign( ov ); port.swapBuffers();
      if( bad ) log += " inadmissible"; else { gain = ng; eq = ne; listed = nl; known = true; }
    }
    bool const ok = rg.process( none, out ); r.event();
    if( ok == bad ) { r.viol( bad ? "object_accepted" : "object_failed", vh::cat( log, ok ? ": accepted" : ": failed: " + rg.error ) ); return; }
    r.count( bad ? "inadmissible scenes refused" : "object equaliser blocks" );
    if( sent && !bad && !( gp.changed() && ep.changed() ) ) { r.viol( "object_unchanged", log + ": no new gains or filters" ); return; }
    if( ( !sent || bad ) && ( gp.changed() || ep.changed() ) ) { r.viol( "object_changed", log + ": new gains or filters without an admissible scene" ); return; }
    gp.resetChanged(); ep.resetChanged();
    if( !known ) continue;
    auto const & gv = dynamic_cast<pml::VectorParameter<float> const &>( gp.data() ); auto const & ev = dynamic_cast<pml::BiquadParameterMatrix<float> const &>( ep.data() );
    if( gv.size() != ch || ev.numberOfFilters() != ch || ev.numberOfSections() != sec ) { r.viol( "object_size", log ); return; }
    for( std::size_t i = 0; i < ch; ++i )
    {
      r.event();
      if( gv[i] != static_cast<float>( gain[i] ) ) { r.viol( "object_gain", vh::cat( log, ": gain of channel ", i, " is ", gv[i], ", expected ", gain[i] ) ); return; }
      if( !listed[i] ) continue;
      for( std::size_t k = 0; k < sec; ++k )
      {
        float const flat[5] = { 1, 0, 0, 0, 0 }; r.event();
        std::string const d = k < eq[i].size() ? response( eq[i][k], ev( i, k ), fs ) : std::equal( flat, flat + 5, ev( i, k ).data() ) ? std::string() : std::string( "not flat" );
        if( !d.empty() ) { r.viol( "object_eq", vh::cat( log, ": channel ", i, " section ", k, ": ", d ) ); return; }
      }
    }
  }
  r.count( "object equaliser runs" ); r.nontrivial( log );
}
static void oneCase( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), true ); (void)init;
  switch( r.rng.index( 6 ) ) { case 0: calculator<float>( r ); break; case 1: calculator<double>( r ); break; case 2: case 3: component( r ); break; default: objects( r ); }
}
VH_MAIN( oneCase )
