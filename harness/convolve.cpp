// C08: fast convolution is convolution: the partitioned frequency-domain convolvers and the FIR matrix components give
// the sum of the directly convolved, weighted and crossfaded signals for every block size, filter length, alignment and
// history of routing and filter changes; inadmissible settings are refused and change nothing.
#include "rig.hpp"
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <librbbl/crossfading_convolver_uniform.hpp>
#include <librbbl/fft_wrapper_base.hpp>
#include <librbbl/fft_wrapper_factory.hpp>
#include <librbbl/filter_routing.hpp>
#include <librbbl/interpolating_convolver_uniform.hpp>
#include <librbbl/interpolation_parameter.hpp>
#include <librbbl/multichannel_convolver_uniform.hpp>
#include <librcl/crossfading_fir_filter_matrix.hpp>
#include <librcl/fir_filter_matrix.hpp>
#include <librcl/interpolating_fir_filter_matrix.hpp>
#include <libvisr/signal_flow_context.hpp>
using namespace visr;
using vh::Rng;
using vh::cat;
using Fir = std::vector<double>;

// ---------------------------------------------------------------- oracle
struct Slot { Fir in, out; long age; double magIn = 0, magOut = 0; };  // age: samples since the crossfade began
struct Route { std::size_t slot; double gain; };
struct Model
{
  std::size_t ins, outs, B, L, maxRoute, maxFilt;
  long T = 0; // crossfade time
  std::vector<Slot> slots;
  std::map<std::pair<std::size_t, std::size_t>, Route> routes; // (in,out)
  std::vector<std::vector<double>> x; // input history
  static double conv( Fir const & f, std::vector<double> const & s, long n )
  {
    double y = 0;
    for( long k = 0; k < static_cast<long>( f.size() ) && k <= n; ++k ) y += f[k] * s[n - k];
    return y;
  }
  static double norm( Fir const & f ) { double v = 0; for( double a : f ) v += a * a; return std::sqrt( v ); }
  double recent( std::size_t c ) const
  {
    double v = 0; auto const & s = x[c]; std::size_t const w = L + 3 * B;
    for( std::size_t i = s.size() > w ? s.size() - w : 0; i < s.size(); ++i ) v += s[i] * s[i];
    return std::sqrt( v );
  }
  // expected output of the last block, and its tolerance
  void block( double eps, std::vector<std::vector<double>> & y, std::vector<double> & tol )
  {
    y.assign( outs, std::vector<double>( B, 0.0 ) ); tol.assign( outs, 0.0 );
    long const n0 = static_cast<long>( x.empty() ? 0 : x[0].size() ) - static_cast<long>( B );
    for( auto const & e : routes )
    {
      Slot const & s = slots[e.second.slot];
      auto const & in = x[e.first.first];
      for( std::size_t i = 0; i < B; ++i )
      {
        long const age = s.age + static_cast<long>( i );
        double const r = age >= T ? 1.0 : static_cast<double>( age + 1 ) / static_cast<double>( T );
        double v = r * conv( s.in, in, n0 + static_cast<long>( i ) );
        if( r < 1.0 ) v += ( 1.0 - r ) * conv( s.out, in, n0 + static_cast<long>( i ) );
        y[e.first.second][i] += e.second.gain * v;
      }
      tol[e.first.second] += std::abs( e.second.gain ) * ( std::max( s.magIn, norm( s.in ) ) + ( s.age < T ? std::max( s.magOut, norm( s.out ) ) : 0.0 ) ) * recent( e.first.first );
    }
    for( double & t : tol ) t = t * eps * 40 + 1e-30;
    for( Slot & s : slots ) s.age = std::min( s.age + static_cast<long>( B ), T + static_cast<long>( B ) );
  }
  // mag: size of the filters f was mixed from, which is what rounding errors scale with
  void setFilter( std::size_t i, Fir const & f, bool fade, double mag = 0 )
  {
    Slot & s = slots[i];
    if( fade ) { s.out = s.in; s.magOut = s.magIn; s.age = 0; }
    s.in = f; s.magIn = mag;
  }
  void allFilters( std::vector<Fir> const & f )
  {
    for( std::size_t i = 0; i < slots.size(); ++i ) slots[i] = Slot{ i < f.size() ? f[i] : Fir(), Fir(), T };
  }
  void setRoutes( rbbl::FilterRoutingList const & l )
  {
    routes.clear();
    for( auto const & e : l ) routes[{ e.inputIndex, e.outputIndex }] = Route{ e.filterIndex, e.gainLinear };
  }
};
template<class S> static double epsOf() { return sizeof( S ) == 4 ? 6e-8 : 1.2e-16; }

template<class S> static std::vector<S> fir( Rng & g, std::size_t n )
{
  std::vector<S> f( n, S( 0 ) );
  if( n ) switch( g.index( 4 ) )
  {
  case 0: f[g.index( n )] = 1; break;
  case 1: f[n - 1] = static_cast<S>( g.uni( -1, 1 ) ); f[0] = 1; break;
  default: for( auto & v : f ) v = static_cast<S>( g.uni( -1, 1 ) );
  }
  return f;
}
template<class V> static Fir dbl( V const & v ) { return Fir( v.begin(), v.end() ); }
template<class S> static efl::BasicMatrix<S> firMatrix( std::vector<std::vector<S>> const & f, std::size_t rows, std::size_t len, std::size_t al )
{
  efl::BasicMatrix<S> m( rows, len, al );
  for( std::size_t i = 0; i < rows; ++i ) for( std::size_t j = 0; j < len; ++j ) m( i, j ) = j < f[i].size() ? f[i][j] : S( 0 );
  return m;
}
template<class S> static std::vector<std::vector<S>> firs( Rng & g, std::size_t rows, std::size_t len )
{
  std::vector<std::vector<S>> f;
  for( std::size_t i = 0; i < rows; ++i ) f.push_back( fir<S>( g, len ) );
  return f;
}
static rbbl::FilterRoutingList routingList( Rng & g, std::size_t n, std::size_t ins, std::size_t outs, std::size_t filters )
{
  rbbl::FilterRoutingList l;
  std::vector<std::pair<std::size_t, std::size_t>> all;
  for( std::size_t i = 0; i < ins; ++i ) for( std::size_t j = 0; j < outs; ++j ) all.push_back( { i, j } );
  g.shuffle( all );
  for( std::size_t k = 0; k < std::min( n, all.size() ); ++k )
    l.addRouting( all[k].first, all[k].second, g.index( filters ), g.chance( 0.3 ) ? 1.0 : g.uni( -2, 2 ) );
  return l;
}
template<class F> static bool throws( F f ) { try { f(); } catch( std::exception const & ) { return true; } return false; }

static bool gFfts = false; // the FFTS library overreads its tables by one entry and is observed in a build without bounds checks
struct Shape { std::size_t ins, outs, B, L, maxRoute, maxFilt, al; char const * fft; std::string txt; };
static Shape shape( Rng & g, bool wantFfts )
{
  Shape s;
  s.ins = g.range( 1, 4 ); s.outs = g.range( 1, 4 );
  s.B = g.chance( 0.5 ) ? g.pick( { 1, 2, 4, 8, 16, 32, 64 } ) : g.range( 1, 40 );
  s.L = g.chance( 0.2 ) ? s.B * g.range( 1, 4 ) : g.range( 1, 110 );
  s.maxRoute = g.range( 1, static_cast<long>( s.ins * s.outs ) + 1 ); s.maxFilt = g.range( 1, 6 );
  s.al = g.pick( { 0, 1, 2, 4, 8, 16 } );
  s.fft = g.pick( { "default", "kissfft", "KissFFT" } );
  if( wantFfts && gFfts && g.chance( 0.8 ) ) { s.fft = "ffts"; s.B = g.pick( { 16, 32, 64 } ); s.al = g.pick( { 4, 8, 16 } ); }
  s.txt = cat( "ins=", s.ins, " outs=", s.outs, " B=", s.B, " L=", s.L, " maxRoutings=", s.maxRoute, " maxFilters=", s.maxFilt, " alignment=", s.al, " fft=", s.fft );
  return s;
}
static Model modelOf( Shape const & s, long T, std::size_t slots )
{
  Model m; m.ins = s.ins; m.outs = s.outs; m.B = s.B; m.L = s.L; m.maxRoute = s.maxRoute; m.maxFilt = slots; m.T = T;
  m.slots.assign( slots, Slot{ {}, {}, T } ); m.x.assign( s.ins, {} );
  return m;
}
static bool judge( vh::Run & r, Model & m, double eps, std::function<double( std::size_t, std::size_t )> got, std::string const & ctx, char const * what )
{
  std::vector<std::vector<double>> y; std::vector<double> tol;
  m.block( eps, y, tol );
  for( std::size_t o = 0; o < m.outs; ++o ) for( std::size_t i = 0; i < m.B; ++i )
  {
    r.event();
    double const v = got( o, i );
    if( !( std::abs( v - y[o][i] ) <= tol[o] ) )
    {
      r.viol( cat( what, "-output" ), cat( ctx, ": output ", o, " sample ", i, " at time ", m.x[0].size() - m.B + i, " is ", v, ", direct convolution gives ", y[o][i], " (tolerance ", tol[o], ")" ) );
      return false;
    }
  }
  return true;
}
template<class S, class C> static bool runBlock( vh::Run & r, Rng & g, C & c, Model & m, Shape const & s, std::string const & ctx, char const * what )
{
  std::size_t const al = g.chance( 0.5 ) ? s.al : 0;
  efl::BasicMatrix<S> in( s.ins, s.B, al ), out( s.outs, s.B, al );
  for( std::size_t i = 0; i < s.ins; ++i )
  {
    auto const v = rig::signal( g, s.B );
    for( std::size_t j = 0; j < s.B; ++j ) { in( i, j ) = static_cast<S>( v[j] ); m.x[i].push_back( static_cast<double>( in( i, j ) ) ); }
  }
  for( std::size_t i = 0; i < s.outs; ++i ) for( std::size_t j = 0; j < s.B; ++j ) out( i, j ) = S( 1e6 );
  try { c.process( in.data(), in.stride(), out.data(), out.stride(), al ); }
  catch( std::exception const & e ) { r.viol( cat( what, "-process-failed" ), cat( ctx, ": process() threw ", e.what() ) ); return false; }
  r.count( "convolver blocks" );
  return judge( r, m, epsOf<S>(), [&]( std::size_t o, std::size_t i ) { return static_cast<double>( out( o, i ) ); }, ctx, what );
}
// Routing operations common to the three convolvers. False: stop the case.
template<class C> static bool routingOp( vh::Run & r, Rng & g, C & c, Model & m, std::string const & ctx, char const * what )
{
  switch( g.index( 7 ) )
  {
  case 0: case 1: case 2:
  {
    std::size_t const i = g.index( m.ins ), o = g.index( m.outs ), f = g.index( m.maxFilt );
    double const gain = static_cast<float>( g.uni( -2, 2 ) );
    bool const full = m.routes.count( { i, o } ) == 0 && m.routes.size() >= m.maxRoute;
    bool const t = throws( [&] { if( g.chance( 0.5 ) ) c.setRoutingEntry( i, o, f, gain ); else c.setRoutingEntry( rbbl::FilterRouting( i, o, f, gain ) ); } );
    r.event();
    if( t != full ) { r.viol( cat( what, full ? "-excess-routing-accepted" : "-routing-refused" ), cat( ctx, ": setRoutingEntry ", i, "->", o, " filter ", f, " with ", m.routes.size(), " routings set" ) ); return false; }
    if( full ) r.count( "routings beyond the maximum refused" ); else { m.routes[{ i, o }] = Route{ f, gain }; r.count( "routings set" ); }
    break;
  }
  case 3:
  {
    std::size_t i = g.index( m.ins ), o = g.index( m.outs ), f = g.index( m.maxFilt );
    std::size_t const kind = g.index( 3 );
    std::size_t const beyond = g.chance( 0.5 ) ? 0 : g.range( 0, 12 );
    if( kind == 0 ) i = m.ins + beyond; else if( kind == 1 ) o = m.outs + beyond; else f = m.maxFilt + beyond;
    bool const t = throws( [&] { c.setRoutingEntry( i, o, f, 1 ); } );
    r.event(); r.count( "inadmissible indices refused", t );
    if( !t ) { r.viol( cat( what, "-inadmissible-routing-accepted" ), cat( ctx, ": setRoutingEntry ", i, "->", o, " filter ", f, " accepted" ) ); return false; }
    break;
  }
  case 4:
  {
    std::size_t const i = g.index( m.ins ), o = g.index( m.outs );
    bool const was = m.routes.erase( { i, o } ) > 0;
    bool const res = c.removeRoutingEntry( i, o );
    r.event(); r.count( "routings removed", was );
    if( was != res ) { r.viol( cat( what, "-remove-result" ), cat( ctx, ": removeRoutingEntry( ", i, ", ", o, " ) returned ", res, " for an entry that ", was ? "existed" : "did not exist" ) ); return false; }
    break;
  }
  case 5: if( g.chance( 0.3 ) ) { c.clearRoutingTable(); m.routes.clear(); } break;
  default:
  {
    auto const l = routingList( g, g.range( 0, static_cast<long>( m.maxRoute ) + 1 ), m.ins, m.outs, m.maxFilt );
    bool const over = l.size() > m.maxRoute;
    bool const t = throws( [&] { c.initRoutingTable( l ); } );
    r.event(); r.count( "routing tables set" );
    if( t != over ) { r.viol( cat( what, "-routing-table" ), cat( ctx, ": table of ", l.size(), over ? " accepted" : " refused" ) ); return false; }
    if( over ) { c.clearRoutingTable(); m.routes.clear(); } else m.setRoutes( l );
  }
  }
  if( c.numberOfRoutingPoints() != m.routes.size() ) { r.viol( cat( what, "-routing-count" ), cat( ctx, ": ", c.numberOfRoutingPoints(), " routing points reported, ", m.routes.size(), " set" ) ); return false; }
  return true;
}

// ---------------------------------------------------------------- multichannel convolver
template<class S> static void multichannel( vh::Run & r, Rng & g )
{
  Shape const s = shape( g, sizeof( S ) == 4 );
  Model m = modelOf( s, 0, s.maxFilt );
  std::size_t const n0 = g.range( 0, static_cast<long>( s.maxFilt ) ), l0 = g.range( 1, static_cast<long>( s.L ) );
  auto const f0 = firs<S>( g, n0, l0 );
  auto const r0 = routingList( g, g.range( 0, static_cast<long>( s.maxRoute ) ), s.ins, s.outs, s.maxFilt );
  rbbl::MultichannelConvolverUniform<S> c( s.ins, s.outs, s.B, s.L, s.maxRoute, s.maxFilt, r0, n0 ? firMatrix( f0, n0, l0, g.pick( { 0, 4, 8, 16 } ) ) : efl::BasicMatrix<S>(), s.al, s.fft );
  std::vector<Fir> d; for( auto const & f : f0 ) d.push_back( dbl( f ) );
  m.allFilters( d ); m.setRoutes( r0 );
  std::string const ctx = cat( sizeof( S ) == 4 ? "float " : "double ", "multichannel convolver ", s.txt );
  if( c.maxNumberOfFilterEntries() != s.maxFilt || c.maxNumberOfRoutingPoints() != s.maxRoute || c.maxFilterLength() != s.L || c.blockLength() != s.B )
    r.viol( "multichannel-dimensions", ctx );
  long const blocks = g.range( 2, 14 );
  for( long b = 0; b < blocks; ++b )
  {
    long const ops = g.chance( 0.5 ) ? 0 : g.range( 1, 4 );
    for( long k = 0; k < ops; ++k )
    {
      if( g.chance( 0.5 ) ) { if( !routingOp( r, g, c, m, ctx, "multichannel" ) ) return; continue; }
      switch( g.index( 6 ) )
      {
      case 0: c.clearFilters(); m.allFilters( {} ); break;
      case 1:
      {
        std::size_t n = g.range( 0, static_cast<long>( s.maxFilt ) ), l = g.range( 1, static_cast<long>( s.L ) );
        bool bad = g.chance( 0.2 ); if( bad ) { if( g.chance( 0.5 ) ) { n = s.maxFilt + g.range( 1, 3 ); } else { n = std::max<std::size_t>( n, 1 ); l = s.L + g.range( 1, 5 ); } }
        auto const f = firs<S>( g, n, l );
        bool const t = throws( [&] { c.initFilters( firMatrix( f, n, l, g.pick( { 0, 4, 8 } ) ) ); } );
        r.event();
        if( t != bad ) { r.viol( "multichannel-init-filters", cat( ctx, ": filter set ", n, "x", l, t ? " refused" : " accepted" ) ); return; }
        if( bad ) { r.count( "inadmissible filters refused" ); c.clearFilters(); m.allFilters( {} ); }
        else { std::vector<Fir> e; for( auto const & v : f ) e.push_back( dbl( v ) ); m.allFilters( e ); r.count( "filter sets" ); }
        break;
      }
      default:
      {
        std::size_t i = g.index( s.maxFilt ), l = g.range( 0, static_cast<long>( s.L ) ); std::size_t const al = g.pick( { 0, 0, 4, 8, 16 } );
        bool const bad = g.chance( 0.15 ); if( bad ) { if( g.chance( 0.5 ) ) i = s.maxFilt + g.range( 0, 8 ); else l = s.L + g.range( 1, 8 ); }
        auto const f = fir<S>( g, l ); efl::BasicVector<S> v( l, al ); for( std::size_t k2 = 0; k2 < l; ++k2 ) v[k2] = f[k2];
        bool const t = throws( [&] { c.setImpulseResponse( v.data(), l, i, al ); } );
        r.event();
        if( t != bad ) { r.viol( "multichannel-set-filter", cat( ctx, ": filter ", i, " of length ", l, t ? " refused" : " accepted" ) ); return; }
        if( bad ) r.count( "inadmissible filters refused" ); else { m.setFilter( i, dbl( f ), false ); r.count( "filters set" ); }
      }
      }
    }
    if( !runBlock<S>( r, g, c, m, s, ctx, "multichannel" ) ) return;
  }
  r.count( "multichannel convolvers" ); r.nontrivial( vh::mix( g.next(), s.B * 131 + s.L ) ); r.sample( ctx );
}

// ---------------------------------------------------------------- crossfading convolver
template<class S> static void crossfading( vh::Run & r, Rng & g )
{
  Shape const s = shape( g, sizeof( S ) == 4 );
  long const T = g.chance( 0.15 ) ? 0 : g.range( 1, 5 * static_cast<long>( s.B ) );
  Model m = modelOf( s, T, s.maxFilt );
  std::size_t const n0 = g.range( 0, static_cast<long>( s.maxFilt ) ), l0 = g.range( 1, static_cast<long>( s.L ) );
  auto const f0 = firs<S>( g, n0, l0 );
  auto const r0 = routingList( g, g.range( 0, static_cast<long>( s.maxRoute ) ), s.ins, s.outs, s.maxFilt );
  std::string const ctx = cat( sizeof( S ) == 4 ? "float " : "double ", "crossfading convolver ", s.txt, " transition=", T );
  if( g.chance( 0.1 ) )
  {
    std::size_t const n = s.maxFilt + g.range( 1, static_cast<long>( s.maxFilt ) + 1 ); auto const f = firs<S>( g, n, l0 );
    r.event(); r.count( "inadmissible filters refused" );
    if( !throws( [&] { rbbl::CrossfadingConvolverUniform<S> x( s.ins, s.outs, s.B, s.L, s.maxRoute, s.maxFilt, T, r0, firMatrix( f, n, l0, 4 ), s.al, s.fft ); } ) )
      r.viol( "crossfading-excess-initial-filters", cat( ctx, ": constructed with ", n, " initial filters" ) );
  }
  rbbl::CrossfadingConvolverUniform<S> c( s.ins, s.outs, s.B, s.L, s.maxRoute, s.maxFilt, T, r0, n0 ? firMatrix( f0, n0, l0, g.pick( { 0, 4, 8, 16 } ) ) : efl::BasicMatrix<S>(), s.al, s.fft );
  std::vector<Fir> d; for( auto const & f : f0 ) d.push_back( dbl( f ) );
  m.allFilters( d ); m.setRoutes( r0 );
  if( c.maxNumberOfFilterEntries() != s.maxFilt || c.maxNumberOfRoutingPoints() != s.maxRoute || c.maxFilterLength() != s.L || c.blockLength() != s.B )
    r.viol( "crossfading-dimensions", cat( ctx, ": reports maxNumberOfFilterEntries ", c.maxNumberOfFilterEntries(), " maxNumberOfRoutingPoints ", c.maxNumberOfRoutingPoints() ) );
  long const blocks = g.range( 2, 14 );
  for( long b = 0; b < blocks; ++b )
  {
    long const ops = g.chance( 0.5 ) ? 0 : g.range( 1, 4 );
    for( long k = 0; k < ops; ++k )
    {
      if( g.chance( 0.4 ) ) { if( !routingOp( r, g, c, m, ctx, "crossfading" ) ) return; continue; }
      switch( g.index( 9 ) )
      {
      case 0: c.clearFilters(); for( Slot & q : m.slots ) { q.in.clear(); q.out.clear(); } break;
      case 1:
      {
        std::size_t n = g.range( 0, static_cast<long>( s.maxFilt ) ), l = g.range( 1, static_cast<long>( s.L ) );
        bool bad = g.chance( 0.2 ); if( bad ) { if( g.chance( 0.5 ) ) { n = s.maxFilt + g.range( 1, 3 ); } else { n = std::max<std::size_t>( n, 1 ); l = s.L + g.range( 1, 5 ); } }
        auto const f = firs<S>( g, n, l );
        bool const t = throws( [&] { c.initFilters( firMatrix( f, n, l, g.pick( { 0, 4, 8 } ) ) ); } );
        r.event();
        if( t != bad ) { r.viol( "crossfading-init-filters", cat( ctx, ": filter set ", n, "x", l, t ? " refused" : " accepted" ) ); return; }
        if( bad ) { r.count( "inadmissible filters refused" ); c.initFilters( firMatrix( firs<S>( g, 0, 1 ), 0, 1, 0 ) ); m.allFilters( {} ); }
        else { std::vector<Fir> e; for( auto const & v : f ) e.push_back( dbl( v ) ); m.allFilters( e ); r.count( "filter sets" ); }
        break;
      }
      default:
      {
        std::size_t i = g.index( s.maxFilt ), l = g.range( 0, static_cast<long>( s.L ) ); std::size_t const al = g.pick( { 0, 0, 4, 8, 16 } );
        bool const fade = g.chance( 0.75 ), transformed = g.chance( 0.3 );
        bool const bad = g.chance( 0.15 ); if( bad ) { if( g.chance( 0.5 ) ) i = s.maxFilt + g.range( 0, 8 ); else l = s.L + g.range( 1, 8 ); }
        auto const f = fir<S>( g, l ); efl::BasicVector<S> v( l, al ); for( std::size_t k2 = 0; k2 < l; ++k2 ) v[k2] = f[k2];
        bool const t = throws( [&] {
          if( transformed ) { efl::BasicVector<std::complex<S>> w( c.dftFilterRepresentationSize(), al / 2 ); c.transformImpulseResponse( v.data(), l, w.data(), al ); c.setTransformedFilter( w.data(), i, fade, al / 2 ); }
          else c.setImpulseResponse( v.data(), l, i, fade, al ); } );
        r.event();
        if( t != bad ) { r.viol( "crossfading-set-filter", cat( ctx, ": filter ", i, " of length ", l, t ? " refused" : " accepted" ) ); return; }
        if( bad ) r.count( "inadmissible filters refused" );
        else
        {
          if( m.slots[i].age < T ) r.count( fade ? "crossfades restarted" : "crossfades continued with a new target" );
          m.setFilter( i, dbl( f ), fade ); r.count( fade ? "crossfades started" : "filters replaced at once" );
        }
      }
      }
    }
    if( !runBlock<S>( r, g, c, m, s, ctx, "crossfading" ) ) return;
  }
  r.count( "crossfading convolvers" ); r.nontrivial( vh::mix( g.next(), s.B * 131 + s.L ) ); r.sample( ctx );
}

// ---------------------------------------------------------------- interpolating convolver
static rbbl::InterpolationParameter interpolant( Rng & g, std::size_t id, std::size_t n, std::size_t filters )
{
  rbbl::InterpolationParameter p( id, n );
  for( std::size_t i = 0; i < n; ++i ) { p.setIndex( i, g.index( filters ) ); p.setWeight( i, static_cast<float>( g.chance( 0.2 ) ? 0.0 : g.uni( -1, 1 ) ) ); }
  return p;
}
static double mixedMag( std::vector<Fir> const & store, rbbl::InterpolationParameter const & p )
{
  double v = 0;
  for( std::size_t i = 0; i < p.numberOfInterpolants(); ++i ) v += std::abs( p.weight( i ) ) * Model::norm( store[p.index( i )] );
  return v;
}
static Fir mixed( std::vector<Fir> const & store, rbbl::InterpolationParameter const & p )
{
  Fir f;
  for( std::size_t i = 0; i < p.numberOfInterpolants(); ++i )
  {
    Fir const & s = store[p.index( i )];
    if( f.size() < s.size() ) f.resize( s.size(), 0.0 );
    for( std::size_t k = 0; k < s.size(); ++k ) f[k] += p.weight( i ) * s[k];
  }
  return f;
}
template<class S> static void interpolating( vh::Run & r, Rng & g )
{
  Shape const s = shape( g, sizeof( S ) == 4 );
  long const T = g.chance( 0.15 ) ? 0 : g.range( 1, 5 * static_cast<long>( s.B ) );
  Model m = modelOf( s, T, s.maxRoute ); // one interpolated filter per routing point
  std::size_t const n0 = g.range( 0, static_cast<long>( s.maxFilt ) ), l0 = g.range( 1, static_cast<long>( s.L ) ), ni = g.range( 1, 4 );
  auto const f0 = firs<S>( g, n0, l0 );
  auto const r0 = routingList( g, g.range( 0, static_cast<long>( s.maxRoute ) ), s.ins, s.outs, s.maxRoute );
  std::string const ctx = cat( sizeof( S ) == 4 ? "float " : "double ", "interpolating convolver ", s.txt, " transition=", T, " interpolants=", ni );
  std::vector<Fir> store( s.maxFilt ); for( std::size_t i = 0; i < n0; ++i ) store[i] = dbl( f0[i] );
  rbbl::InterpolationParameterSet i0;
  for( std::size_t k = 0; k < s.maxRoute; ++k ) if( g.chance( 0.5 ) ) { auto const p = interpolant( g, k, ni, s.maxFilt ); i0.insert( p ); m.setFilter( k, mixed( store, p ), false, mixedMag( store, p ) ); }
  m.setRoutes( r0 );
  using Conv = rbbl::InterpolatingConvolverUniform<S>;
  std::unique_ptr<Conv> cp;
  try { cp.reset( new Conv( s.ins, s.outs, s.B, s.L, s.maxRoute, s.maxFilt, ni, T, r0, i0, n0 ? firMatrix( f0, n0, l0, g.pick( { 0, 4, 8, 16 } ) ) : efl::BasicMatrix<S>(), s.al, s.fft ) ); }
  catch( std::exception const & e ) { r.viol( "interpolating-construction", cat( ctx, ": ", e.what() ) ); return; }
  Conv & c = *cp;
  if( c.maxNumberOfFilterEntries() != s.maxFilt || c.maxNumberOfRoutingPoints() != s.maxRoute || c.maxFilterLength() != s.L || c.blockLength() != s.B || c.numberOfInterpolants() != ni )
    r.viol( "interpolating-dimensions", cat( ctx, ": reports maxNumberOfFilterEntries ", c.maxNumberOfFilterEntries(), " maxNumberOfRoutingPoints ", c.maxNumberOfRoutingPoints() ) );
  long const blocks = g.range( 2, 14 );
  for( long b = 0; b < blocks; ++b )
  {
    long const ops = g.chance( 0.5 ) ? 0 : g.range( 1, 4 );
    for( long k = 0; k < ops; ++k )
    {
      if( g.chance( 0.35 ) ) { if( !routingOp( r, g, c, m, ctx, "interpolating" ) ) return; continue; }
      switch( g.index( 10 ) )
      {
      case 0: c.clearFilters(); for( Slot & q : m.slots ) { q.in.clear(); q.out.clear(); } store.assign( s.maxFilt, Fir() ); break;
      case 1: c.clearInterpolants(); for( Slot & q : m.slots ) { q.in.clear(); q.out.clear(); } break;
      case 2:
      {
        std::size_t n = g.range( 0, static_cast<long>( s.maxFilt ) ), l = g.range( 1, static_cast<long>( s.L ) );
        bool bad = g.chance( 0.2 ); if( bad ) { if( g.chance( 0.5 ) ) { n = s.maxFilt + g.range( 1, 3 ); } else { n = std::max<std::size_t>( n, 1 ); l = s.L + g.range( 1, 5 ); } }
        auto const f = firs<S>( g, n, l );
        bool const t = throws( [&] { c.initFilters( firMatrix( f, n, l, g.pick( { 0, 4, 8 } ) ) ); } );
        r.event();
        if( t != bad ) { r.viol( "interpolating-init-filters", cat( ctx, ": filter set ", n, "x", l, t ? " refused" : " accepted" ) ); return; }
        if( bad ) r.count( "inadmissible filters refused" );
        else { store.assign( s.maxFilt, Fir() ); for( std::size_t i = 0; i < n; ++i ) store[i] = dbl( f[i] ); r.count( "filter sets" ); }
        break;
      }
      case 3: case 4: case 5:
      {
        std::size_t i = g.index( s.maxFilt ), l = g.range( 0, static_cast<long>( s.L ) ); std::size_t const al = g.pick( { 0, 0, 4, 8, 16 } );
        bool const bad = g.chance( 0.15 ); if( bad ) { if( g.chance( 0.5 ) ) i = s.maxFilt + g.range( 0, 8 ); else l = s.L + g.range( 1, 8 ); }
        auto const f = fir<S>( g, l ); efl::BasicVector<S> v( l, al ); for( std::size_t k2 = 0; k2 < l; ++k2 ) v[k2] = f[k2];
        bool const t = throws( [&] { c.setImpulseResponse( v.data(), l, i, al ); } );
        r.event();
        if( t != bad ) { r.viol( "interpolating-set-filter", cat( ctx, ": filter ", i, " of length ", l, t ? " refused" : " accepted" ) ); return; }
        if( bad ) r.count( "inadmissible filters refused" ); else { store[i] = dbl( f ); r.count( "filters set" ); }
        break;
      }
      default:
      {
        std::size_t id = g.index( s.maxRoute ), n = ni;
        bool const fade = g.chance( 0.75 );
        std::size_t const kind = g.chance( 0.2 ) ? g.range( 1, 3 ) : 0;
        if( kind == 1 ) id = s.maxRoute + g.range( 0, 8 );
        if( kind == 2 ) n = ni + 1;
        auto p = interpolant( g, id, n, s.maxFilt );
        if( kind == 3 ) p.setIndex( g.index( n ), s.maxFilt + g.range( 0, 8 ) );
        bool const t = throws( [&] { c.setInterpolant( p, fade ); } );
        r.event();
        if( t != ( kind != 0 ) ) { r.viol( "interpolating-interpolant", cat( ctx, ": interpolant id ", id, " indices ", vh::vec( p.indices() ), t ? " refused" : " accepted" ) ); return; }
        if( kind ) r.count( "inadmissible interpolants refused" ); else { m.setFilter( id, mixed( store, p ), fade, mixedMag( store, p ) ); r.count( "interpolants set" ); }
      }
      }
    }
    if( !runBlock<S>( r, g, c, m, s, ctx, "interpolating" ) ) return;
  }
  r.count( "interpolating convolvers" ); r.nontrivial( vh::mix( g.next(), s.B * 131 + s.L ) ); r.sample( ctx );
}

// ---------------------------------------------------------------- components
using FilterMsg = pml::IndexedValueParameter<std::size_t, std::vector<float>>;
static pml::FilterRoutingParameter routingMsg( rbbl::FilterRouting const & e )
{
  pml::FilterRoutingParameter p{ pml::EmptyParameterConfig() }; static_cast<rbbl::FilterRouting &>( p ) = e;
  return p;
}
static void component( vh::Run & r, Rng & g )
{
  int const kind = static_cast<int>( g.index( 3 ) );
  char const * const what = kind == 0 ? "fir-matrix" : kind == 1 ? "crossfading-fir-matrix" : "interpolating-fir-matrix";
  Shape const s = shape( g, false );
  long const T = kind == 0 || g.chance( 0.15 ) ? 0 : g.range( 1, 5 * static_cast<long>( s.B ) );
  std::size_t const slots = kind == 2 ? s.maxRoute : s.maxFilt, ni = g.range( 1, 3 );
  Model m = modelOf( s, T, slots );
  std::size_t const n0 = g.range( 0, static_cast<long>( s.maxFilt ) ), l0 = g.range( 1, static_cast<long>( s.L ) );
  auto const f0 = firs<float>( g, n0, l0 );
  auto const r0 = routingList( g, g.range( 0, static_cast<long>( s.maxRoute ) ), s.ins, s.outs, slots );
  efl::BasicMatrix<float> const fm = n0 ? firMatrix( f0, n0, l0, g.pick( { 0, 4, 8, 16 } ) ) : efl::BasicMatrix<float>();
  std::string const ctx = cat( what, " ", s.txt, " transition=", T, " interpolants=", ni );
  std::vector<Fir> store( s.maxFilt ); for( std::size_t i = 0; i < n0; ++i ) store[i] = dbl( f0[i] );
  rbbl::InterpolationParameterSet i0;
  if( kind == 2 ) { for( std::size_t k = 0; k < s.maxRoute; ++k ) if( g.chance( 0.5 ) ) { auto const p = interpolant( g, k, ni, s.maxFilt ); i0.insert( p ); m.setFilter( k, mixed( store, p ), false, mixedMag( store, p ) ); } }
  else m.allFilters( store );
  m.setRoutes( r0 );
  SignalFlowContext sc( s.B, 48000 );
  bool const ports = g.chance( 0.85 );
  std::unique_ptr<AtomicComponent> comp;
  rcl::FirFilterMatrix * fir0 = nullptr; rcl::CrossfadingFirFilterMatrix * fir1 = nullptr; rcl::InterpolatingFirFilterMatrix * fir2 = nullptr;
  using P0 = rcl::FirFilterMatrix::ControlPortConfig; using P1 = rcl::CrossfadingFirFilterMatrix::ControlPortConfig; using P2 = rcl::InterpolatingFirFilterMatrix::ControlPortConfig;
  if( kind == 0 ) comp.reset( fir0 = new rcl::FirFilterMatrix( sc, "f", nullptr, s.ins, s.outs, s.L, s.maxFilt, s.maxRoute, fm, r0, ports ? P0::All : P0::None, s.fft ) );
  else if( kind == 1 ) comp.reset( fir1 = new rcl::CrossfadingFirFilterMatrix( sc, "f", nullptr, s.ins, s.outs, s.L, s.maxFilt, s.maxRoute, T, fm, r0, ports ? P1::All : P1::None, s.fft ) );
  else comp.reset( fir2 = new rcl::InterpolatingFirFilterMatrix( sc, "f", nullptr, s.ins, s.outs, s.L, s.maxFilt, s.maxRoute, ni, T, fm, i0, r0, ports ? P2::Filters | P2::Interpolants : P2::None, s.fft ) );
  rig::Rig rg( *comp );
  auto silence = [&] { return rig::Block( s.ins, std::vector<float>( s.B, 0.f ) ); };
  auto feed = [&]( rig::Block const & in, bool mayFail ) -> bool
  {
    rig::Block out;
    bool const ok = rg.process( in, out );
    if( !ok && mayFail ) return true;
    if( !ok ) { r.viol( cat( what, "-process-failed" ), cat( ctx, ": ", rg.error ) ); return false; }
    for( std::size_t i = 0; i < s.ins; ++i ) for( float v : in[i] ) m.x[i].push_back( v );
    r.count( "component blocks" );
    return judge( r, m, epsOf<float>(), [&]( std::size_t o, std::size_t i ) { return static_cast<double>( out[o][i] ); }, ctx, what );
  };
  long const blocks = g.range( 2, 12 );
  for( long b = 0; b < blocks; ++b )
  {
    if( ports && g.chance( 0.12 ) )
    {
      // a message that cannot be honoured arrives while the signal is silent: reported, and nothing else changes
      for( std::size_t k = 0; k < ( s.L + 2 * s.B ) / s.B + 2 + static_cast<std::size_t>( T ) / s.B; ++k ) if( !feed( silence(), false ) ) return;
      std::size_t const which = g.index( kind == 1 ? 2 : 4 );
      if( which == 0 ) rg.send( "filterInput", FilterMsg( s.maxFilt + g.index( 5 ), fir<float>( g, g.range( 1, static_cast<long>( s.L ) ) ) ) );
      else if( which == 1 ) rg.send( "filterInput", FilterMsg( g.index( s.maxFilt ), fir<float>( g, s.L + g.range( 1, 9 ) ) ) );
      else if( kind == 0 && which == 3 )
      {
        rbbl::FilterRoutingList l; l.addRouting( s.ins, 0, 0, 1.0 );
        pml::FilterRoutingListParameter p; static_cast<rbbl::FilterRoutingList &>( p ) = l;
        rg.publish( "allRoutings", p );
      }
      else if( kind == 0 )
      {
        rbbl::FilterRouting bad( g.index( s.ins ), g.index( s.outs ), g.index( s.maxFilt ), 1.0 );
        if( g.chance( 0.5 ) ) bad.inputIndex = s.ins + g.index( 3 ); else bad.filterIndex = s.maxFilt + g.index( 3 );
        rg.send( "singleRouting", routingMsg( bad ) );
      }
      else
      {
        auto p = interpolant( g, g.index( s.maxRoute ), ni, s.maxFilt );
        if( which == 2 ) p.setIndex( 0, s.maxFilt + g.index( 4 ) ); else p.setId( s.maxRoute + g.index( 4 ) );
        pml::InterpolationParameter q( pml::InterpolationParameterConfig{ ni } ); static_cast<rbbl::InterpolationParameter &>( q ) = p;
        rg.send( "interpolantInput", q );
      }
      if( !feed( silence(), true ) ) return;
      r.count( "inadmissible messages" );
      if( kind == 0 && which == 3 )
      {
        // which of the entries of a refused table are in use is not specified: set it anew
        auto const l = routingList( g, g.range( 0, static_cast<long>( s.maxRoute ) ), s.ins, s.outs, s.maxFilt );
        pml::FilterRoutingListParameter p; static_cast<rbbl::FilterRoutingList &>( p ) = l;
        rg.publish( "allRoutings", p ); m.setRoutes( l );
      }
      if( !feed( silence(), false ) ) return;
    }
    long const ops = g.chance( 0.4 ) ? 0 : g.range( 1, 4 );
    std::vector<std::function<void()>> filt, allr, single, intp; // the components serve their inputs in this order
    for( long k = 0; k < ops && ports; ++k )
    {
      std::size_t const pick = g.index( 4 );
      if( pick < 2 )
      {
        std::size_t const i = g.index( s.maxFilt ); auto const f = fir<float>( g, g.chance( 0.05 ) ? 0 : g.range( 1, static_cast<long>( s.L ) ) );
        rg.send( "filterInput", FilterMsg( i, f ) );
        filt.push_back( [&, i, f] { if( kind == 2 ) store[i] = dbl( f ); else m.setFilter( i, dbl( f ), kind == 1 ); } );
        r.count( "filter messages" );
      }
      else if( kind == 0 )
      {
        if( pick == 2 )
        {
          if( s.maxRoute < s.ins * s.outs ) continue; // a single routing could exceed the maximum
          rbbl::FilterRouting e( g.index( s.ins ), g.index( s.outs ), g.index( s.maxFilt ), g.uni( -2, 2 ) );
          rg.send( "singleRouting", routingMsg( e ) );
          single.push_back( [&, e] { m.routes[{ e.inputIndex, e.outputIndex }] = Route{ e.filterIndex, e.gainLinear }; } );
        }
        else
        {
          auto const l = routingList( g, g.range( 0, static_cast<long>( s.maxRoute ) ), s.ins, s.outs, s.maxFilt );
          pml::FilterRoutingListParameter p; static_cast<rbbl::FilterRoutingList &>( p ) = l;
          rg.publish( "allRoutings", p );
          allr.clear(); allr.push_back( [&, l] { m.setRoutes( l ); } );
        }
        r.count( "routing messages" );
      }
      else if( kind == 2 )
      {
        auto const p = interpolant( g, g.index( s.maxRoute ), ni, s.maxFilt );
        pml::InterpolationParameter q( pml::InterpolationParameterConfig{ ni } ); static_cast<rbbl::InterpolationParameter &>( q ) = p;
        rg.send( "interpolantInput", q );
        intp.push_back( [&, p] { m.setFilter( p.id(), mixed( store, p ), true, mixedMag( store, p ) ); } );
        r.count( "interpolant messages" );
      }
    }
    for( auto * l : { &filt, &allr, &single, &intp } ) for( auto & f : *l ) f();
    rig::Block in; for( std::size_t i = 0; i < s.ins; ++i ) in.push_back( rig::signal( g, s.B ) );
    if( !feed( in, false ) ) return;
  }
  r.count( "FIR matrix components" ); r.nontrivial( vh::mix( g.next(), s.B * 131 + s.L ) ); r.sample( ctx );
}

// ---------------------------------------------------------------- transforms
template<class S> static void transform( vh::Run & r, Rng & g )
{
  bool const ffts = sizeof( S ) == 4 && gFfts;
  std::size_t const N = ffts ? std::size_t( 1 ) << g.range( 5, 9 ) : 2 * g.range( 1, 100 );
  char const * name = ffts ? "FFTS" : g.pick( { "default", "kissfft", "KissFFT" } );
  auto const w = rbbl::FftWrapperFactory<S>::create( name, N, 8 );
  efl::BasicVector<S> x( N, 16 ), back( N, 16 ); efl::BasicVector<std::complex<S>> X( N / 2 + 1, 8 );
  double n2 = 0;
  auto const sig = rig::signal( g, N );
  for( std::size_t i = 0; i < N; ++i ) { x[i] = sig[i]; n2 += double( x[i] ) * x[i]; }
  w->forwardTransform( x.data(), X.data() );
  double const fs = w->forwardScalingFactor(), is = w->inverseScalingFactor();
  double const tol = std::sqrt( n2 ) * std::sqrt( double( N ) ) * epsOf<S>() * 24 + 1e-30;
  std::string const ctx = cat( name, sizeof( S ) == 4 ? " float" : " double", " transform of size ", N );
  for( std::size_t k = 0; k <= N / 2; ++k )
  {
    std::complex<double> y = 0;
    for( std::size_t i = 0; i < N; ++i ) y += double( x[i] ) * std::polar( 1.0, -2 * M_PI * double( ( k * i ) % N ) / double( N ) );
    r.event();
    if( !( std::abs( y * fs - std::complex<double>( X[k] ) ) <= tol ) ) { r.viol( "transform-forward", cat( ctx, ": bin ", k, " is ", X[k], ", definition gives ", y * fs ) ); return; }
  }
  w->inverseTransform( X.data(), back.data() );
  for( std::size_t i = 0; i < N; ++i )
  {
    r.event();
    double const want = double( x[i] ) * fs * is * double( N );
    if( !( std::abs( want - back[i] ) <= tol * std::sqrt( double( N ) ) ) ) { r.viol( "transform-inverse", cat( ctx, ": sample ", i, " returns as ", back[i], " instead of ", want ) ); return; }
  }
  r.count( "transforms" );
}

static void theCase( vh::Run & r )
{
  gFfts = r.mode == "ffts";
  Rng & g = r.rng;
  switch( g.index( 10 ) )
  {
  case 0: case 1: if( g.chance( 0.75 ) ) multichannel<float>( r, g ); else multichannel<double>( r, g ); break;
  case 2: case 3: case 4: if( g.chance( 0.75 ) ) crossfading<float>( r, g ); else crossfading<double>( r, g ); break;
  case 5: case 6: if( g.chance( 0.75 ) ) interpolating<float>( r, g ); else interpolating<double>( r, g ); break;
  case 7: if( g.chance( 0.7 ) ) transform<float>( r, g ); else transform<double>( r, g ); break;
  default: component( r, g );
  }
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return vh::runMain( argc, argv, theCase ); }
