// C17: renderers. Every object of the scene is played on the configured loudspeakers: level, equaliser, panning, diffuse part,
// listener compensation, subwoofers, output equaliser, delay and gain, on the stated channels, all others being silent.
#include "rig.hpp"
#include "arrays.hpp"
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/object_vector_parser.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/object_vector.hpp>
#include <librbbl/parametric_iir_coefficient.hpp>
#include <libsignalflows/baseline_renderer.hpp>
#include <libsignalflows/bunch_renderer.hpp>
#include <librcl/delay_vector.hpp>
#include <librcl/gain_matrix.hpp>
#include <libsignalflows/core_renderer.hpp>
#include <libsignalflows/delay_vector.hpp>
#include <libsignalflows/gain_matrix.hpp>
#include <libsignalflowspython/visr_renderer.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <arpa/inet.h>
#include <chrono>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
// LIBS: signalflowspython signalflows reverbobject rrl pml rcl panning objectmodel rbbl visr efl
using Sig = std::vector<double>;
static double const kFs = 48000;

// ---------------------------------------------------------------- scenes
enum Kind { point, psd, plane, diffuse, channels, hoa };
using Bq = std::array<double, 5>;
struct Item { Kind kind; V pos{ { 0, 0, 0 } }; double az = 0, el = 0, diffuseness = 0, level = 1; std::vector<std::size_t> ch; std::vector<std::vector<std::size_t>> outs; std::vector<Bq> eq; };
// The built-in ambisonic decoder: directions of the regular array and one row of gains per harmonic.
struct Decoder
{
  std::vector<V> dir; std::vector<Sig> gain;
  Decoder()
  {
    std::string const xml =
#include "libpanning/test/matlab/arrays/t-design_t8_P40.xml.cpp"
      ; std::string const text =
#include "libpanning/test/matlab/arrays/decode_N8_P40_t-design_t8_P40.txt.cpp"
      ;
    for( std::size_t p = 0; ( p = xml.find( "<cart ", p ) ) != std::string::npos; ++p ) { V v; for( std::size_t c = 0; c < 3; ++c ) { std::string const key = vh::cat( static_cast<char>( 'x' + c ), "=\"" ); v[c] = std::strtod( xml.c_str() + xml.find( key, p ) + 3, nullptr ); } dir.push_back( unit( v ) ); }
    std::istringstream lines( text ); for( std::string line; std::getline( lines, line ); ) { Sig row; for( std::size_t i = 0; i + 8 <= line.size(); ) { std::size_t const w = line[i] == '-' ? 9 : 8; row.push_back( std::strtod( line.substr( i, w ).c_str(), nullptr ) ); i += w; } if( row.size() != dir.size() ) { std::fprintf( stderr, "decoder row of %zu elements for %zu loudspeakers\n", row.size(), dir.size() ); std::exit( 3 ); } gain.push_back( row ); }
  }
};
static Decoder const & decoder() { static Decoder const d; return d; }
// Loudspeaker gains of the harmonics; false if a direction of the decoder is not determined well.
static bool decoded( Geometry const & geo, V listener, std::vector<Sig> * out )
{
  Decoder const & dc = decoder(); if( out ) out->assign( dc.gain.size(), Sig( geo.nr, 0 ) ); if( geo.det < 0.1 ) return false;
  for( std::size_t j = 0; j < dc.dir.size(); ++j )
  {
    V d = ::sub( dc.dir[j], listener ); if( geo.twoD ) d[2] = 0; double const dist = len( d ); if( dist < 0.1 ) return false; auto const cand = candidates( geo, mul( d, 1 / dist ), 1e-6 ); if( cand.empty() ) return false;
    double sum = 0; for( double x : cand[0].g ) sum += x * x; if( sum < 0.04 ) return false; if( out ) { auto const p = powered( cand[0].g ); for( std::size_t h = 0; h < out->size(); ++h ) for( std::size_t i = 0; i < geo.nr; ++i ) ( *out )[h][i] += dc.gain[h][j] * p[i]; }
  }
  return true;
}
static Bq const kFlat{ { 1, 0, 0, 0, 0 } };
static V direction( Item const & t, V listener, bool twoD ) { V d = t.kind == plane ? polar( t.az, t.el, 1 ) : ::sub( t.pos, listener ); if( twoD ) d[2] = 0; return unit( d ); }
// True if the source lies well within one triplet and is played by regular loudspeakers.
static bool clear( Geometry const & geo, V d )
{
  auto const c = candidates( geo, d, 0 ); if( c.size() != 1 || c[0].least < 0.03 ) return false; double s = 0; for( double x : c[0].g ) s += std::fabs( x ); return s > 0.2;
}
static bool panned( Item const & t ) { return t.kind == point || t.kind == psd || t.kind == plane; }
// True if a loudspeaker can be named in the text of a scene.
static bool label( std::string const & id ) { for( char ch : id ) if( !std::isalnum( static_cast<unsigned char>( ch ) ) && ch != '_' ) return false; return true; }
struct Scene { std::vector<Item> items; objectmodel::ObjectVector ov; };
static bool makeScene( Rng & g, ArrayRun const & ar, std::size_t I, std::size_t sections, bool all, Scene & s, std::string & log, bool text = false )
{
  Geometry const geo = geometry( ar.a, ar.listener ); if( geo.det < 0.05 ) return false; bool const ambisonic = decoded( geo, ar.listener, nullptr ); s.items.clear(); s.ov.clear(); log += "; scene"; std::size_t const n = ar.m.reg.size();
  std::vector<std::size_t> free( I ); for( std::size_t i = 0; i < I; ++i ) free[i] = i; g.shuffle( free ); unsigned id = static_cast<unsigned>( g.index( 3 ) );
  while( !free.empty() )
  {
    Item t; t.kind = static_cast<Kind>( g.index( 6 ) ); std::size_t order = 0; if( t.kind == hoa ) { if( !ambisonic ) t.kind = point; else order = g.index( static_cast<std::size_t>( std::sqrt( static_cast<double>( free.size() ) ) + 1e-9 ) ); } std::size_t const m = t.kind == channels ? std::min<std::size_t>( free.size(), 1 + g.index( 3 ) ) : t.kind == hoa ? ( order + 1 ) * ( order + 1 ) : 1; for( std::size_t k = 0; k < m; ++k ) { t.ch.push_back( free.back() ); free.pop_back(); }
    if( !all && g.chance( 0.25 ) ) continue;
    if( panned( t ) )
    {
      bool ok = false; for( int tries = 0; tries < 200 && !ok; ++tries )
      {
        auto const & tr = geo.tri[g.index( geo.tri.size() )]; V d{ { 0, 0, 0 } }; for( std::size_t c = 0; c < ( geo.twoD ? 2u : 3u ); ++c ) { double const w = g.uni( 0.1, 1 ); for( std::size_t x = 0; x < 3; ++x ) d[x] += w * geo.l[tr[c]][x]; }
        d = unit( d ); double const dist = g.uni( 0.7, 4 );
        if( t.kind == plane ) { t.el = geo.twoD ? 0 : static_cast<float>( std::asin( d[2] ) * 180 / M_PI ); t.az = static_cast<float>( std::atan2( d[1], d[0] ) * 180 / M_PI ); if( g.chance( 0.2 ) ) t.az = static_cast<float>( t.az + 360 ); }
        else { for( std::size_t x = 0; x < 3; ++x ) t.pos[x] = static_cast<float>( ar.listener[x] + dist * d[x] ); if( geo.twoD ) t.pos[2] = 0; }
        ok = clear( geo, direction( t, ar.listener, geo.twoD ) );
      }
      if( !ok ) return false;
    }
    id += 1 + static_cast<unsigned>( g.index( 3 ) ); std::unique_ptr<objectmodel::Object> o; auto place = [&]( auto * p ) { p->setX( static_cast<float>( t.pos[0] ) ); p->setY( static_cast<float>( t.pos[1] ) ); p->setZ( static_cast<float>( t.pos[2] ) ); };
    switch( t.kind )
    {
    case point: { auto * p = new objectmodel::PointSource( id ); o.reset( p ); place( p ); break; }
    case psd: { auto * p = new objectmodel::PointSourceWithDiffuseness( id ); o.reset( p ); place( p ); t.diffuseness = static_cast<float>( g.pick( { 0., 1., g.uni(), g.uni() } ) ); p->setDiffuseness( static_cast<float>( t.diffuseness ) ); break; }
    case plane: { auto * p = new objectmodel::PlaneWave( id ); o.reset( p ); p->setIncidenceAzimuth( static_cast<float>( t.az ) ); p->setIncidenceElevation( static_cast<float>( t.el ) ); p->setReferenceDistance( static_cast<float>( g.uni( 0.5, 10 ) ) ); break; }
    case diffuse: o.reset( new objectmodel::DiffuseSource( id ) ); break;
    case hoa: { auto * p = new objectmodel::HoaSource( id ); o.reset( p ); p->setOrder( order ); break; }
    case channels: { auto * p = new objectmodel::ChannelObject( id ); o.reset( p ); t.diffuseness = static_cast<float>( g.pick( { 0., g.uni() } ) ); p->setDiffuseness( static_cast<float>( t.diffuseness ) ); break; }
    }
    o->resetNumberOfChannels( m ); for( std::size_t k = 0; k < m; ++k ) o->setChannelIndex( k, static_cast<objectmodel::Object::ChannelIndex>( t.ch[k] ) );
    if( t.kind == channels )
    {
      objectmodel::ChannelObject::OutputChannelContainer lists( m ); t.outs.resize( m );
      for( std::size_t k = 0; k < m; ++k ) for( std::size_t x = g.index( 4 ); x > 0; --x ) { std::size_t const q = g.index( n ); if( text && !label( ar.m.reg[q].id ) ) continue; if( std::find( t.outs[k].begin(), t.outs[k].end(), q ) == t.outs[k].end() ) { t.outs[k].push_back( q ); lists[k].push_back( ar.m.reg[q].id ); } }
      static_cast<objectmodel::ChannelObject *>( o.get() )->setOutputChannels( lists );
    }
    if( g.chance( 0.6 ) ) { t.level = static_cast<float>( g.pick( { 0., 0.5, g.uni( 0, 2 ) } ) ); } o->setLevel( static_cast<float>( t.level ) );
    if( sections && g.chance( 0.7 ) )
    {
      std::size_t const cnt = 1 + g.index( sections ); rbbl::ParametricIirCoefficientList<float> ps( cnt, rbbl::ParametricIirCoefficient<float>() );
      for( std::size_t k = 0; k < cnt; ++k )
      {
        float const f = static_cast<float>( g.uni( 300, 12000 ) ), Q = static_cast<float>( g.uni( 0.5, 3 ) ), dB = static_cast<float>( g.uni( -12, 12 ) ); double const A = std::pow( 10., dB / 40. ), w = 2 * M_PI * f / kFs, al = std::sin( w ) / 2 / Q, a0 = 1 + al / A;
        ps[k] = rbbl::ParametricIirCoefficient<float>( rbbl::ParametricIirCoefficientBase::Type::peak, f, Q, dB ); t.eq.push_back( Bq{ { ( 1 + al * A ) / a0, -2 * std::cos( w ) / a0, ( 1 - al * A ) / a0, -2 * std::cos( w ) / a0, ( 1 - al / A ) / a0 } } );
      }
      o->setEqCoefficients( ps );
    }
    log += vh::cat( " [", t.kind, " ", str( t.pos ), " ", t.az, " ", t.el, " d", t.diffuseness, " l", t.level, " ch", vh::vec( t.ch ), " eq", t.eq.size(), "]" ); s.ov.insert( *o ); s.items.push_back( t );
  }
  return true;
}

// ---------------------------------------------------------------- model
struct Ramp { double from = 0, to = 0; std::size_t done = 0; void target( double v, std::size_t N ) { from = done >= N ? to : from + ( to - from ) * static_cast<double>( done ) / static_cast<double>( N ); to = v; done = 0; } double at( std::size_t i, std::size_t N ) const { std::size_t const n = done + i + 1; return n >= N ? to : from + ( to - from ) * static_cast<double>( n ) / static_cast<double>( N ); } };
struct Biquad { Bq c = kFlat; double s1 = 0, s2 = 0; double operator()( double x ) { double const y = c[0] * x + s1; s1 = c[1] * x - c[3] * y + s2; s2 = c[2] * x - c[4] * y; return y; } };
static Bq const kLow{ { 0.001921697757295, 0.003843395514590, 0.001921697757295, -1.824651307057289, 0.832338098086468 } }, kHigh{ { -0.914247351285939, 1.828494702571878, -0.914247351285939, -1.824651307057289, 0.832338098086468 } };
struct Config { std::size_t I = 1, O = 1, B = 16, N = 0, sections = 0; bool tracking = false, split = false; std::vector<std::vector<float>> fir; };
// Target gains of one object channel for all loudspeakers.
static void targets( Geometry const & geo, Config const & c, Item const & t, std::size_t sub, V listener, std::vector<Sig> const & harmonics, Sig & L, Sig & H, Sig & D )
{
  std::size_t const n = geo.nr; Norm const lf = c.split ? Norm::Amplitude : Norm::Energy;
  if( panned( t ) )
  {
    auto const cand = candidates( geo, direction( t, listener, geo.twoD ), 1e-6 ); if( cand.empty() ) return; Sig root( cand[0].g ); for( double & x : root ) x = std::sqrt( std::max( x, 0. ) );
    L = scaled( cand[0].g, lf, 1 - t.diffuseness ); H = scaled( root, Norm::Energy, 1 - t.diffuseness ); D = scaled( Sig( n, t.kind == psd ? 1. : 0. ), Norm::Energy, t.diffuseness );
  }
  else if( t.kind == hoa ) { L = harmonics[sub]; if( c.split ) H = L; }
  else if( t.kind == diffuse ) D = scaled( Sig( n, 1. ), Norm::Energy, 1 );
  else { Sig v( n, 0 ); for( auto s : t.outs[sub] ) v[s] = 1; L = scaled( v, lf, 1 - t.diffuseness ); H = scaled( v, Norm::Energy, 1 - t.diffuseness ); D = scaled( v, Norm::Energy, t.diffuseness ); }
}
struct Chain
{
  Config c; ArrayRun const & ar; std::size_t n; std::vector<Ramp> og; std::vector<std::vector<Biquad>> eq, outEq; std::vector<Biquad> low, high; std::vector<std::vector<Ramp>> L, H, D; std::vector<Sig> tL, tH, tD;
  std::vector<Sig> mixed, comp, final; std::vector<std::vector<bool>> unsure, unsureFinal; std::vector<Sig> diffuse; std::vector<double> lg, ld, lgOld; double mag = 0; std::size_t T = 0;
  Chain( Config const & cfg, ArrayRun const & a ): c( cfg ), ar( a ), n( a.m.reg.size() ), og( cfg.I, Ramp{ 1, 1, 0 } ), eq( cfg.I, std::vector<Biquad>( cfg.sections ) ), low( cfg.I ), high( cfg.I ), L( n, std::vector<Ramp>( cfg.I ) ), H( L ), D( L ), tL( n, Sig( cfg.I, 0 ) ), tH( tL ), tD( tL ),
    mixed( n ), comp( n ), final( n + a.m.subs.size() ), unsure( n ), unsureFinal( n + a.m.subs.size() ), diffuse( n ), lg( n, 1 ), ld( n, 0 ), lgOld( n, 1 )
  {
    for( auto & b : low ) b.c = kLow; for( auto & b : high ) b.c = kHigh;
    if( ar.m.eqs ) for( std::size_t i = 0; i < final.size(); ++i ) { std::vector<Biquad> f( ar.m.sections ); int const q = i < n ? ar.m.reg[i].eq : ar.m.subs[i - n].eq; if( q >= 0 ) { auto const & src = ar.m.filters[static_cast<std::size_t>( q )]; for( std::size_t k = 0; k < src.size(); ++k ) f[k].c = Bq{ { src[k][0], src[k][1], src[k][2], src[k][3], src[k][4] } }; } outEq.push_back( f ); }
  }
  void scene( std::vector<Item> const & items )
  {
    std::vector<bool> listed( c.I, false );
    for( auto const & t : items ) for( std::size_t k = 0; k < t.ch.size(); ++k ) { std::size_t const ch = t.ch[k]; listed[ch] = true; og[ch].target( t.level, c.N ); for( std::size_t s = 0; s < c.sections; ++s ) eq[ch][s].c = s < t.eq.size() ? t.eq[s] : kFlat; }
    for( std::size_t ch = 0; ch < c.I; ++ch ) if( !listed[ch] ) og[ch].target( 0, c.N );
  }
  void panning( std::vector<Item> const & items )
  {
    for( std::size_t l = 0; l < n; ++l ) for( std::size_t i = 0; i < c.I; ++i ) tL[l][i] = tH[l][i] = tD[l][i] = 0;
    Geometry const geo = geometry( ar.a, ar.listener ); std::vector<Sig> harmonics; decoded( geo, ar.listener, &harmonics );
    for( auto const & t : items ) for( std::size_t k = 0; k < t.ch.size(); ++k ) { Sig l( n, 0 ), h( n, 0 ), d( n, 0 ); targets( geo, c, t, k, ar.listener, harmonics, l, h, d ); for( std::size_t x = 0; x < n; ++x ) { tL[x][t.ch[k]] = l[x]; tH[x][t.ch[k]] = h[x]; tD[x][t.ch[k]] = d[x]; } }
  }
  void compensate()
  {
    double far = 0; std::vector<double> d( n ); for( std::size_t i = 0; i < n; ++i ) far = std::max( far, d[i] = len( ::sub( ar.m.pos( i ), ar.listener ) ) ); for( std::size_t i = 0; i < n; ++i ) { lg[i] = d[i] / far; ld[i] = ( far - d[i] ) / 344; }
  }
  static double back( std::vector<double> const & x, long i ) { return i < 0 ? 0 : x[static_cast<std::size_t>( i )]; }
  static long nearest( double d ) { return static_cast<long>( std::floor( d * kFs + 0.5 ) ); }
  static bool halfway( double d ) { double const f = d * kFs - std::floor( d * kFs ); return std::fabs( f - 0.5 ) < 0.02; }
  void block( rig::Block const & in, bool moved )
  {
    for( std::size_t l = 0; l < n; ++l ) for( std::size_t i = 0; i < c.I; ++i ) { L[l][i].target( tL[l][i], c.N ); H[l][i].target( tH[l][i], c.N ); D[l][i].target( tD[l][i], c.N ); }
    for( std::size_t t = 0; t < c.B; ++t )
    {
      std::vector<double> dir( n, 0 ), dif( n, 0 );
      for( std::size_t i = 0; i < c.I; ++i )
      {
        double x = in[i][t] * og[i].at( t, c.N ); mag = std::max( mag, std::fabs( x ) ); for( auto & b : eq[i] ) { x = b( x ); mag = std::max( mag, std::fabs( x ) ); }
        double lo = x, hi = 0; if( c.split ) { lo = low[i]( x ); hi = high[i]( x ); }
        for( std::size_t l = 0; l < n; ++l ) { dir[l] += lo * L[l][i].at( t, c.N ) + ( c.split ? hi * H[l][i].at( t, c.N ) : 0 ); dif[l] += x * D[l][i].at( t, c.N ); }
      }
      for( std::size_t l = 0; l < n; ++l )
      {
        diffuse[l].push_back( dif[l] ); double y = dir[l]; auto const & h = c.fir[l]; for( std::size_t k = 0; k < h.size() && k <= T; ++k ) y += h[k] * diffuse[l][T - k];
        mixed[l].push_back( y ); mag = std::max( mag, std::fabs( y ) );
      }
      // Listener compensation: the change takes one block, in which samples are not judged.
      for( std::size_t l = 0; l < n; ++l )
      {
        bool u = moved && c.tracking; if( halfway( ld[l] ) ) u = true; comp[l].push_back( c.tracking ? lg[l] * back( mixed[l], static_cast<long>( T ) - nearest( ld[l] ) ) : mixed[l].back() ); unsure[l].push_back( u );
      }
      for( std::size_t o = 0; o < final.size(); ++o )
      {
        double v = 0; bool u = false; if( o < n ) { v = comp[o][T]; u = unsure[o][T]; } else for( auto const & w : ar.m.subs[o - n].weights ) { v += w.second * comp[w.first][T]; if( unsure[w.first][T] ) u = true; }
        if( ar.m.eqs ) for( auto & b : outEq[o] ) { v = b( v ); mag = std::max( mag, std::fabs( v ) ); } if( ar.m.eqs && T && unsureFinal[o][T - 1] ) u = true; // a filter remembers
        mag = std::max( mag, std::fabs( v ) ); final[o].push_back( v ); unsureFinal[o].push_back( u );
      }
      ++T;
    }
    for( auto & x : og ) x.done += c.B; for( auto * m : { &L, &H, &D } ) for( auto & row : *m ) for( auto & x : row ) x.done += c.B;
  }
  // The sample of an output channel, and whether it is determined.
  double output( std::size_t k, std::size_t t, bool & sure ) const
  {
    double const gain = k < n ? ar.m.reg[k].gain : ar.m.subs[k - n].gain, d = k < n ? ar.m.reg[k].delay : ar.m.subs[k - n].delay; long const i = static_cast<long>( t ) - nearest( d );
    sure = !halfway( d ) && ( i < 0 || !unsureFinal[k][static_cast<std::size_t>( i )] ); return gain * back( final[k], i );
  }
  std::size_t channel( std::size_t k ) const { return ( k < n ? ar.m.reg[k].ch : ar.m.subs[k - n].ch ) - 1; }
};
static Config config( Rng & g, ArrayRun const & ar, std::string & log )
{
  Config c; c.I = static_cast<std::size_t>( g.range( 1, g.chance( 0.3 ) ? 14 : 6 ) ); c.B = g.pick( { std::size_t( 8 ), std::size_t( 16 ), std::size_t( 32 ), std::size_t( 64 ) } ); c.N = g.pick( { std::size_t( 0 ), std::size_t( 1 ), c.B, c.B / 2 + 1, 3 * c.B, std::size_t( 4096 ) } ); c.sections = g.pick( { std::size_t( 0 ), std::size_t( 1 ), std::size_t( 3 ) } );
  c.tracking = g.chance( 0.4 ); c.split = g.chance( 0.5 ); std::size_t top = 0; for( auto const & s : ar.m.reg ) top = std::max( top, s.ch ); for( auto const & s : ar.m.subs ) top = std::max( top, s.ch ); c.O = top + ( g.chance( 0.5 ) ? 0 : g.index( 4 ) );
  std::size_t const rows = ar.m.reg.size() + ( g.chance( 0.7 ) ? 0 : g.index( 3 ) ), len = g.pick( { std::size_t( 1 ), std::size_t( 5 ), c.B, static_cast<std::size_t>( g.range( 1, 100 ) ) } );
  for( std::size_t i = 0; i < rows; ++i ) { std::vector<float> h( len ); for( auto & x : h ) x = static_cast<float>( g.uni( -1, 1 ) ); c.fir.push_back( h ); }
  log += vh::cat( ar.m.xml, ": ", c.I, " inputs, ", c.O, " outputs, period ", c.B, ", interpolation ", c.N, ", ", c.sections, " sections", c.tracking ? ", tracking" : "", c.split ? ", two bands" : "", ", ", rows, " decorrelators of ", len ); return c;
}
static efl::BasicMatrix<float> filters( Config const & c ) { efl::BasicMatrix<float> f( c.fir.size(), c.fir.empty() ? 0 : c.fir[0].size(), cVectorAlignmentSamples ); for( std::size_t i = 0; i < c.fir.size(); ++i ) for( std::size_t j = 0; j < c.fir[i].size(); ++j ) f( i, j ) = c.fir[i][j]; return f; }
static bool compare( vh::Run & r, Chain const & m, rig::Block const & out, std::size_t from, std::string const & log )
{
  std::vector<bool> used( m.c.O, false );
  for( std::size_t k = 0; k < m.final.size(); ++k )
  {
    used[m.channel( k )] = true;
    for( std::size_t t = 0; t < m.c.B; ++t )
    {
      bool sure; double const e = m.output( k, from + t, sure ); if( !sure ) { r.count( "undetermined samples" ); continue; } r.event(); double const x = out[m.channel( k )][t], tol = 2e-4 * m.mag * ( 1 + std::fabs( k < m.n ? m.ar.m.reg[k].gain : m.ar.m.subs[k - m.n].gain ) );
      if( !( std::fabs( x - e ) <= tol ) ) { r.viol( k < m.n ? "loudspeaker" : "subwoofer", vh::cat( log, ": ", k < m.n ? "loudspeaker " : "subwoofer ", k < m.n ? k : k - m.n, " (channel ", m.channel( k ) + 1, ") sample ", from + t, ": got ", x, ", expected ", e, " (tolerance ", tol, ")" ) ); return false; }
    }
  }
  for( std::size_t o = 0; o < m.c.O; ++o ) if( !used[o] ) { r.count( "silent channels" ); for( float x : out[o] ) if( x != 0 ) { r.viol( "not_silent", vh::cat( log, ": unused channel ", o + 1, " has ", x ) ); return false; } }
  return true;
}
static void core( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ); std::string log; Config c = config( g, ar, log ); SignalFlowContext ctx( c.B, static_cast<std::size_t>( kFs ) ); efl::BasicMatrix<float> const fir = filters( c );
  if( g.chance( 0.1 ) )
  {
    bool refused = false; int const kind = static_cast<int>( g.index( 3 ) ); std::size_t top = 0; for( auto const & s : ar.m.reg ) top = std::max( top, s.ch ); for( auto const & s : ar.m.subs ) top = std::max( top, s.ch ); efl::BasicMatrix<float> few( ar.m.reg.size() - 1, 4, 0 ); few.zeroFill();
    try { signalflows::CoreRenderer bad( ctx, "core", nullptr, ar.a, c.I, kind == 0 ? top - 1 : kind == 1 ? g.index( top ) : c.O, c.N, kind == 2 ? few : fir, "", c.sections, "", c.split ); } catch( std::exception const & ) { refused = true; }
    r.event(); if( !refused ) { r.viol( vh::cat( "accepted_", kind ), log ); return; } r.count( "inadmissible configurations refused" );
  }
  std::unique_ptr<signalflows::CoreRenderer> core; std::unique_ptr<rig::Rig> rg;
  try { core.reset( new signalflows::CoreRenderer( ctx, "core", nullptr, ar.a, c.I, c.O, c.N, fir, c.tracking ? "1.0,0,0,0,0,0" : "", c.sections, "", c.split ) ); rg.reset( new rig::Rig( *core ) ); } catch( std::exception const & e ) { r.viol( vh::cat( "construction", c.tracking ? "_tracking" : "" ), log + ": " + e.what() ); return; }
  Chain m( c, ar ); Scene s; rig::Block out; long const blocks = g.range( 3, 20 ); bool started = false, everMoved = false;
  for( long b = 0; b < blocks; ++b )
  {
    bool moved = false;
    if( c.tracking && ( b == 0 || ( !ar.m.eqs && g.chance( 0.2 ) ) ) && g.chance( 0.8 ) )
    {
      V const old = ar.listener; bool ok = false; for( int tries = 0; tries < 10 && !ok; ++tries ) { ar.listener = listenerIn( g, ar.m ); Geometry const geo = geometry( ar.a, ar.listener ); ok = geo.det > 0.05; for( auto const & t : s.items ) if( panned( t ) && !clear( geo, direction( t, ar.listener, geo.twoD ) ) ) ok = false; else if( t.kind == hoa && !decoded( geo, ar.listener, nullptr ) ) ok = false; }
      if( !ok ) ar.listener = old; else { moved = true; everMoved = true; rg->publish( "trackingPositionInput", pml::ListenerPosition( static_cast<float>( ar.listener[0] ), static_cast<float>( ar.listener[1] ), static_cast<float>( ar.listener[2] ) ) ); m.compensate(); log += vh::cat( "; block ", b, " listener ", str( ar.listener ) ); r.count( "listener moves" ); }
    }
    bool const fresh = ( b == ( c.tracking ? 1 : 0 ) && !g.chance( 0.1 ) ) || g.chance( 0.2 );
    if( fresh )
    {
      log += vh::cat( "; block ", b ); if( !makeScene( g, ar, c.I, c.sections, c.sections > 0, s, log ) ) { r.count( "scenes given up" ); return; }
      auto & port = rg->db<pml::ObjectVector>( "objectDataInput" ); static_cast<objectmodel::ObjectVector &>( dynamic_cast<pml::ObjectVector &>( port.data() ) ).assign( s.ov ); port.swapBuffers(); m.scene( s.items ); started = true; r.count( "scenes" ); r.count( "objects", static_cast<long>( s.items.size() ) ); for( auto const & t : s.items ) if( t.kind == hoa ) r.count( "ambisonic objects" );
    }
    if( fresh || moved ) m.panning( s.items );
    rig::Block in; for( std::size_t i = 0; i < c.I; ++i ) in.push_back( b == 0 && c.tracking ? std::vector<float>( c.B, 0.f ) : rig::signal( g, c.B ) );
    if( !rg->process( in, out ) ) { r.viol( "processing", vh::cat( log, ": block ", b, ": ", rg->error ) ); return; }
    m.block( in, moved && b > 0 ); if( !compare( r, m, out, static_cast<std::size_t>( b ) * c.B, log ) ) return; r.count( "blocks" );
  }
  if( !started ) return; r.nontrivial( log ); r.count( "renderings" ); if( ar.m.eqs ) r.count( "renderings with output equalisers" ); if( !ar.m.subs.empty() ) r.count( "renderings with subwoofers" ); if( c.tracking ) r.count( "renderings with tracking" ); if( c.split ) r.count( "renderings in two bands" ); if( !ar.m.virt.empty() ) r.count( "renderings with virtual loudspeakers" );
}
// Renderers controlled through the network: after a message, the output settles to that of the new scene and listener position.
struct Port // a UDP port no other monitor process uses (a TCP socket on the same number serves as the lock)
{
  int port = 0, lock = -1;
  explicit Port( Rng & g, int fixed = 0 )
  {
    for( int tries = 0; tries < 50; ++tries )
    {
      sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( INADDR_ANY ); port = fixed ? fixed : static_cast<int>( 20000 + g.index( 12000 ) ); a.sin_port = htons( static_cast<std::uint16_t>( port ) );
      lock = socket( AF_INET, SOCK_STREAM, 0 ); if( lock < 0 ) continue;
      if( bind( lock, reinterpret_cast<sockaddr *>( &a ), sizeof a ) == 0 && listen( lock, 1 ) == 0 )
      {
        int const u = socket( AF_INET, SOCK_DGRAM, 0 ); bool const ok = u >= 0 && bind( u, reinterpret_cast<sockaddr *>( &a ), sizeof a ) == 0; if( u >= 0 ) close( u );
        if( ok ) return;
      }
      close( lock ); lock = -1; if( fixed ) std::this_thread::sleep_for( std::chrono::milliseconds( 100 ) );
    }
  }
  ~Port() { if( lock >= 0 ) close( lock ); }
  Port( Port const & ) = delete;
};
static void transmit( int port, std::string const & text )
{
  int const s = socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons( static_cast<std::uint16_t>( port ) ); a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); (void)sendto( s, text.data(), text.size(), 0, reinterpret_cast<sockaddr *>( &a ), sizeof a ); close( s );
}
static void network( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ); while( ar.m.eqs ) ar = ArrayRun( g ); std::string log; Config c = config( g, ar, log ); bool const bunch = g.chance( 0.3 ), plain = !bunch && g.chance( 0.1 ), visr = !bunch && !plain && g.chance( 0.4 ); c.split = false; c.N = 0; c.sections = 0; for( auto & h : c.fir ) h.resize( 1 );
  if( bunch ) c.tracking = false; if( plain ) { c.tracking = false; c.N = 4096; c.fir.assign( c.O, std::vector<float>( 1, 0.f ) ); }
  Port port( g, plain ? 4242 : 0 ), tracker( g, c.tracking ? 8888 : 0 ); if( port.lock < 0 || tracker.lock < 0 ) { r.count( "no port available" ); return; }
  log = vh::cat( bunch ? "bunch" : plain ? "default" : visr ? "visr" : "baseline", " renderer ", log ); SignalFlowContext ctx( c.B, static_cast<std::size_t>( kFs ) ); std::unique_ptr<CompositeComponent> ren; std::unique_ptr<rig::Rig> rg; std::string const track = c.tracking ? "1.0,0,0,0,0,0" : "";
  try
  {
    auto const p = static_cast<std::size_t>( port.port );
    if( bunch ) ren.reset( new signalflows::BunchRenderer( ctx, "", nullptr, ar.a, c.I, c.O, c.N, filters( c ), track, p, "" ) );
    else if( plain ) ren.reset( new signalflows::BaselineRenderer( ctx, "", nullptr, ar.a, c.I, c.O ) );
    else if( visr ) ren.reset( new signalflowspython::VisrRenderer( ctx, "", nullptr, ar.a, c.I, c.O, c.N, filters( c ), track, p, c.sections, "", c.split ) );
    else ren.reset( new signalflows::BaselineRenderer( ctx, "", nullptr, ar.a, c.I, c.O, c.N, filters( c ), track, p, c.sections, "", c.split ) );
    rg.reset( new rig::Rig( *ren ) );
  }
  catch( std::exception const & e ) { r.viol( vh::cat( "construction_", bunch ? "bunch" : plain ? "default" : visr ? "visr" : "baseline", c.tracking ? "_tracking" : "" ), log + ": " + e.what() ); return; }
  Scene s; rig::Block out; bool moved = false;
  for( long phase = g.range( 1, 4 ); phase > 0; --phase )
  {
    if( c.tracking && g.chance( 0.6 ) )
    {
      V const old = ar.listener; bool ok = false; for( int tries = 0; tries < 10 && !ok; ++tries ) { ar.listener = listenerIn( g, ar.m ); Geometry const geo = geometry( ar.a, ar.listener ); ok = geo.det > 0.05; for( auto const & t : s.items ) if( panned( t ) && !clear( geo, direction( t, ar.listener, geo.twoD ) ) ) ok = false; else if( t.kind == hoa && !decoded( geo, ar.listener, nullptr ) ) ok = false; } if( !ok ) ar.listener = old;
      else { log += "; listener " + str( ar.listener ); std::ostringstream t; t.precision( 9 ); t << "{\"x\":" << ar.listener[0] << ",\"y\":" << ar.listener[1] << ",\"z\":" << ar.listener[2] << ",\"nsecs\":0,\"face\":1,\"quaternion\":[1,0,0,0]}"; transmit( tracker.port, t.str() ); moved = true; r.count( "positions over the network" ); }
    }
    if( s.items.empty() ) { if( !makeScene( g, ar, c.I, c.sections, true, s, log, true ) ) { r.count( "scenes given up" ); return; } }
    else // objects that are not mentioned remain, so that only known ones are sent again
    {
      std::size_t k = 0; for( auto & o : s.ov ) { Item * t = nullptr; for( auto & i : s.items ) if( i.ch[0] == o.channelIndex( 0 ) ) t = &i; if( !t ) { r.viol( "internal", log ); return; } if( k++ == 0 || g.chance( 0.7 ) ) { t->level = static_cast<float>( g.uni( 0, 2 ) ); o.setLevel( static_cast<float>( t->level ) ); log += vh::cat( "; level of ", t->ch[0], " ", t->level ); } }
    }
    std::ostringstream text; objectmodel::ObjectVectorParser::encodeObjectVector( s.ov, text ); transmit( port.port, text.str() ); if( std::getenv( "SHOW" ) ) std::fprintf( stderr, "%s\n", text.str().c_str() ); r.count( "scenes over the network" );
    Chain m( c, ar ); if( c.tracking && moved ) m.compensate(); m.panning( s.items ); Sig x( c.I ), level( c.I, 0 ), e( c.O, 0 ), y( m.n, 0 ); rig::Block in; for( auto & v : x ) { v = static_cast<float>( g.uni( -1, 1 ) ); in.emplace_back( c.B, static_cast<float>( v ) ); }
    for( auto const & t : s.items ) for( auto ch : t.ch ) level[ch] = t.level; double mag = 1;
    for( std::size_t l = 0; l < m.n; ++l ) { for( std::size_t i = 0; i < c.I; ++i ) y[l] += x[i] * level[i] * ( m.tL[l][i] + c.fir[l][0] * m.tD[l][i] ); y[l] *= m.lg[l]; e[m.channel( l )] = y[l] * ar.m.reg[l].gain; mag = std::max( mag, std::fabs( e[m.channel( l )] ) ); }
    for( std::size_t k = 0; k < ar.m.subs.size(); ++k ) { double v = 0; for( auto const & w : ar.m.subs[k].weights ) v += w.second * y[w.first]; e[m.channel( m.n + k )] = v * ar.m.subs[k].gain; mag = std::max( mag, std::fabs( e[m.channel( m.n + k )] ) ); }
    auto const start = std::chrono::steady_clock::now(); std::string wrong; long blocks = 0; std::size_t good = 0;
    do
    {
      if( !rg->process( in, out ) ) { r.viol( "processing", log + ": " + rg->error ); return; } ++blocks; wrong.clear();
      for( std::size_t o = 0; o < c.O && wrong.empty(); ++o ) for( float v : out[o] ) if( !( std::fabs( v - e[o] ) <= 1e-3 * mag ) ) { wrong = vh::cat( "channel ", o + 1, " is ", v, ", expected ", e[o] ); break; }
      good = wrong.empty() ? good + 1 : 0; if( good == 0 && blocks % 1000 == 0 ) std::this_thread::sleep_for( std::chrono::milliseconds( 1 ) );
    } while( good < 5 && ( blocks < 60000 / static_cast<long>( c.B ) || std::chrono::steady_clock::now() - start < std::chrono::seconds( 5 ) ) );
    r.event(); if( good == 0 ) { r.viol( vh::cat( "network_", bunch ? "bunch" : visr ? "visr" : "baseline", c.tracking ? "_tracking" : "" ), vh::cat( log, ": after ", blocks, " blocks ", wrong ) ); return; }
  }
  r.nontrivial( log ); r.count( bunch ? "bunch renderings" : plain ? "default renderings" : visr ? "VISR renderings" : "baseline renderings" );
}
// The delay vector and gain matrix as top-level signal flows do what the processing components do.
static void flows( vh::Run & r )
{
  Rng & g = r.rng; bool const delays = g.chance( 0.6 ); std::size_t const I = static_cast<std::size_t>( g.range( 1, 6 ) ), O = delays ? I : static_cast<std::size_t>( g.range( 1, 6 ) ), B = g.pick( { std::size_t( 8 ), std::size_t( 16 ), std::size_t( 64 ) } ), N = g.pick( { delays ? B : std::size_t( 0 ), B, 3 * B } );
  SignalFlowContext ctx( B, static_cast<std::size_t>( kFs ) ); std::string const method = g.pick( { std::string( "nearestSample" ), std::string( "lagrangeOrder0" ), std::string( "lagrangeOrder1" ), std::string( "lagrangeOrder3" ) } ); std::string log = vh::cat( delays ? "delay vector " : "gain matrix ", I, " ", O, " period ", B, " interpolation ", N, " ", method );
  efl::BasicMatrix<float> first( O, I, cVectorAlignmentSamples ); for( std::size_t o = 0; o < O; ++o ) for( std::size_t i = 0; i < I; ++i ) first( o, i ) = static_cast<float>( g.uni( -1, 1 ) );
  std::unique_ptr<Component> flow, part; std::unique_ptr<rig::Rig> a, b;
  try
  {
    if( delays )
    {
      flow.reset( new signalflows::DelayVector( ctx, "flow", nullptr, I, N, method.c_str() ) ); auto * d = new rcl::DelayVector( ctx, "part", nullptr ); part.reset( d ); d->setup( I, N, 0.02f, method.c_str(), rcl::DelayVector::MethodDelayPolicy::Limit, rcl::DelayVector::ControlPortConfig::All, 0.0f, 1.0f );
    }
    else { flow.reset( new signalflows::GainMatrix( ctx, "flow", nullptr, I, O, first, N ) ); auto * d = new rcl::GainMatrix( ctx, "part", nullptr ); part.reset( d ); d->setup( I, O, N, first, false ); }
    a.reset( new rig::Rig( *flow ) ); b.reset( new rig::Rig( *part ) );
  }
  catch( std::exception const & e ) { r.viol( delays ? "delay_flow" : "gain_flow", log + ": " + e.what() ); return; }
  if( flow->name() != "flow" ) { r.viol( "flow_name", log + ": name is " + flow->name() ); return; }
  for( long k = g.range( 1, 8 ); k > 0; --k )
  {
    if( delays && g.chance( 0.6 ) ) { bool const gain = g.chance( 0.5 ); pml::VectorParameter<float> v( I, cVectorAlignmentSamples ); for( std::size_t i = 0; i < I; ++i ) v[i] = static_cast<float>( gain ? g.uni( -1, 1 ) : g.uni( 0, 0.02 ) ); a->publish( gain ? "globalGainInput" : "globalDelayInput", v ); b->publish( gain ? "gainInput" : "delayInput", v ); }
    rig::Block in, x, y; for( std::size_t i = 0; i < I; ++i ) in.push_back( rig::signal( g, B ) );
    if( !a->process( in, x ) || !b->process( in, y ) ) { r.viol( "flow_processing", log + ": " + a->error + b->error ); return; }
    r.event(); if( x != y ) { r.viol( delays ? "delay_flow" : "gain_flow", log + ": output differs" ); return; }
  }
  r.nontrivial( log ); r.count( delays ? "delay vector flows" : "gain matrix flows" );
}
static void one( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), true ); (void)init;
  if( r.mode == "network" ) network( r ); else if( r.rng.chance( 0.15 ) ) flows( r ); else core( r );
}
VH_MAIN( one )
