// C14: loudspeaker arrays and panning. An array description means what it says; sources are panned to the triplet that encloses
// them with gains that reproduce their direction; scenes turn into gain matrices with the stated normalisation.
#include "rig.hpp"
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libpanning/AllRAD.h>
#include <libpanning/CAP_VBAP.h>
#include <libpanning/LoudspeakerArray.h>
#include <libpanning/VBAP.h>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/object_vector.hpp>
#include <librbbl/biquad_coefficient.hpp>
#include <librcl/cap_gain_calculator.hpp>
#include <librcl/diffusion_gain_calculator.hpp>
#include <librcl/hoa_allrad_gain_calculator.hpp>
#include <librcl/panning_calculator.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <array>
#include <dirent.h>
#include <limits>
// LIBS: rrl pml rcl panning objectmodel rbbl visr efl
#include "arrays.hpp"

static void arrayTexts( vh::Run & r )
{
  Rng & g = r.rng; LoudspeakerArray a; std::string log;
  for( long step = g.range( 1, 4 ); step > 0; --step )
  {
    Defect const d = g.chance( 0.5 ) ? none : static_cast<Defect>( g.range( 1, numDefects - 1 ) ); Model const m = makeArray( g, d ); bool ok = true; std::string err; log = vh::cat( "defect ", d, ": ", m.xml );
    try
    {
      switch( g.index( 3 ) )
      {
      case 0: a.loadXmlString( m.xml ); break;
      case 1: { std::istringstream s( m.xml ); a.loadXmlStream( s ); break; }
      default: { std::string const f = vh::cat( r.scratch, "/array", getpid(), ".xml" ); { FILE * o = std::fopen( f.c_str(), "w" ); std::fputs( m.xml.c_str(), o ); std::fclose( o ); } try { a.loadXmlFile( f ); } catch( ... ) { ::unlink( f.c_str() ); throw; } ::unlink( f.c_str() ); }
      }
    }
    catch( std::exception const & e ) { ok = false; err = e.what(); }
    r.event();
    if( ok != ( d == none ) ) { r.viol( ok ? vh::cat( "array_accepted_", d ) : std::string( "array_refused" ), log + ( ok ? "" : ": " + err ) ); return; }
    if( !ok ) { r.count( "inadmissible arrays refused" ); continue; }
    std::string diff = differs( a, m ); r.event();
    if( !diff.empty() ) { r.viol( "array", log + ": " + diff ); return; }
    LoudspeakerArray b; if( g.chance( 0.5 ) ) b.loadXmlString( makeArray( g ).xml ); b = a; diff = differs( b, m ); r.event();
    if( !diff.empty() ) { r.viol( "array_copy", log + ": copy: " + diff ); return; }
    auto throws = [&]( std::function<void()> f ) { try { f(); } catch( std::exception const & ) { return true; } return false; };
    if( !throws( [&] { a.getPosition( "nowhere" ); } ) || !throws( [&] { a.getSpeakerIndexFromId( "nowhere" ); } ) || !throws( [&] { a.loudspeakerId( a.getNumSpeakers() ); } ) || !throws( [&] { a.getSubwooferChannel( a.getNumSubwoofers() ); } ) ) { r.viol( "array_lookup", log + ": unknown speakers found" ); return; }
    r.count( "arrays read" ); r.nontrivial( m.xml );
  }
}

static void vbap( vh::Run & r )
{
  Rng & g = r.rng; LoudspeakerArray a; std::string log; V listener{ { 0, 0, 0 } }; bool const real = !configFiles().empty() && g.chance( 0.15 ); Model m;
  if( real ) { std::string const f = g.pick( configFiles() ); try { a.loadXmlFile( f ); } catch( std::exception const & e ) { r.viol( "config_file", f + ": " + e.what() ); return; } log = f; r.count( "supplied arrays read" ); if( a.getNumTriplets() == 0 ) return; }
  else { m = makeArray( g ); a.loadXmlString( m.xml ); log = m.xml; }
  bool const cap = g.chance( 0.3 ); std::unique_ptr<panning::VBAP> vb; std::unique_ptr<panning::CAP_VBAP> cv; std::size_t const n = a.getNumRegularSpeakers();
  if( !real && g.chance( 0.5 ) ) listener = listenerIn( g, m );
  auto const X = [&]( std::size_t c ) { return static_cast<float>( listener[c] ); };
  if( cap ) cv.reset( new panning::CAP_VBAP( a, X( 0 ), X( 1 ), X( 2 ) ) ); else vb.reset( new panning::VBAP( a, X( 0 ), X( 1 ), X( 2 ) ) );
  std::vector<V> sp; for( std::size_t i = 0; i < a.getNumSpeakers(); ++i ) sp.push_back( V{ { a.getPosition( i ).x, a.getPosition( i ).y, a.getPosition( i ).z } } );
  std::vector<std::array<std::size_t, 3>> tri; for( std::size_t i = 0; i < a.getNumTriplets(); ++i ) tri.push_back( a.getTriplet( i ) );
  for( long k = g.range( 3, 20 ); k > 0; --k )
  {
    if( !real && g.chance( 0.15 ) ) { listener = listenerIn( g, m ); if( cap ) cv->setListenerPosition( X( 0 ), X( 1 ), X( 2 ) ); else vb->setListenerPosition( X( 0 ), X( 1 ), X( 2 ) ); r.count( "listener moves" ); }
    bool const plane = g.chance( 0.3 ), normed = g.chance( 0.5 ); V const from = plane ? V{ { 0, 0, 0 } } : listener; V const s = source( g, sp, tri, a.is2D(), from ); V d = sub( s, from ); if( a.is2D() ) d[2] = 0; double const dist = len( d ); if( dist < 0.05 ) continue;
    bool const shift = !( cap && a.isInfinite() ); Geometry const geo = geometry( a, listener, shift ); double const tol = dist * ( 1e-5 + 8e-6 / std::max( geo.det, 1e-3 ) );
    auto const cand = candidates( geo, d, tol ); if( cand.empty() || ( real && cand[0].least < 0 ) ) { r.count( "directions no triplet covers" ); if( !real && shift ) r.viol( "internal_mesh", log ); continue; }
    std::vector<float> out( n + 2, -7.f ); float const px = static_cast<float>( s[0] ), py = static_cast<float>( s[1] ), pz = static_cast<float>( s[2] );
    try
    {
      if( cap ) { if( normed ) cv->calculateGains( px, py, pz, out.data(), plane ); else cv->calculateGainsUnNormalised( px, py, pz, out.data(), plane ); }
      else { if( normed ) vb->calculateGains( px, py, pz, out.data(), plane ); else vb->calculateGainsUnNormalised( px, py, pz, out.data(), plane ); }
    }
    catch( std::exception const & e ) { r.viol( "no_gains", vh::cat( log, ": listener ", str( listener ), " source ", str( s ), plane ? " plane wave" : "", ": ", e.what() ) ); return; }
    r.event();
    bool match = false; double best = 1e9;
    for( auto const & c : cand )
    {
      std::vector<double> e = normed ? powered( c.g ) : c.g; double sum = 0; for( double x : c.g ) sum += x * x; sum = std::sqrt( sum );
      double const t = normed ? tol / std::max( sum, 1e-9 ) * 2 + 1e-5 : tol * ( 1 + a.getNumSpeakers() ); double worst = 0; for( std::size_t i = 0; i < n; ++i ) { double const x = std::fabs( out[i] - e[i] ); worst = std::max( worst, x == x ? x : 1e9 ); }
      if( normed && sum < tol * 4 ) { match = true; break; } // all energy discarded by virtual speakers
      best = std::min( best, worst ); if( worst <= t ) match = true;
    }
    if( !match && cap && cand[0].least < tol ) { match = true; for( std::size_t i = 0; i < n; ++i ) if( out[i] != 0 ) match = false; if( match ) r.count( "silent boundaries" ); } // on the boundary within rounding
    if( !match ) { r.viol( cap ? "vbip_gains" : "vbap_gains", vh::cat( log, ": listener ", str( listener ), " source ", str( s ), plane ? " plane wave" : "", normed ? " normalised" : "", ": gains ", vh::vec( out ), ", expected ", vh::vec( normed ? powered( cand[0].g ) : cand[0].g ), " error ", best ) ); return; }
    r.count( cap ? "vector base intensity gains" : "vector base amplitude gains" ); if( cand[0].least < tol ) r.count( "sources on boundaries" ); if( plane ) r.count( "plane waves" );
  }
  r.nontrivial( vh::cat( log, r.caseIdx ) );
}

static void setScene( rig::Rig & rg, char const * portName, objectmodel::ObjectVector const & ov )
{ auto & port = rg.db<pml::ObjectVector>( portName ); static_cast<objectmodel::ObjectVector &>( dynamic_cast<pml::ObjectVector &>( port.data() ) ).assign( ov ); port.swapBuffers(); }
enum Kind { point, psd, plane, diffuse, channels, hoa };
struct Item { Kind kind; V pos; double az, el, diffuseness; std::vector<std::size_t> ch; std::vector<std::vector<std::size_t>> outs; std::vector<bool> unknown; std::size_t order; };
// A random scene; channel numbers are unique, a few are outside the admissible range if allowed.
static objectmodel::ObjectVector scene( Rng & g, std::size_t ch, LoudspeakerArray const & a, std::vector<V> const & sp, std::vector<std::array<std::size_t, 3>> const & tri, V listener, std::vector<Item> & items, bool wild, std::size_t maxOrder, std::string & log )
{
  objectmodel::ObjectVector ov; items.clear(); std::vector<std::size_t> free( ch ); for( std::size_t i = 0; i < ch; ++i ) free[i] = i; g.shuffle( free ); unsigned id = 0; log += "; scene";
  auto channel = [&] { if( wild && g.chance( 0.05 ) ) return ch + g.index( 4 ); std::size_t const c = free.back(); free.pop_back(); return c; };
  for( std::size_t k = g.index( 6 ); k > 0 && !free.empty(); --k )
  {
    Item t; t.kind = static_cast<Kind>( g.index( 6 ) ); t.az = t.el = t.diffuseness = 0; t.order = 0; id += 1 + static_cast<unsigned>( g.index( 3 ) ); std::unique_ptr<objectmodel::Object> o;
    t.pos = source( g, sp, tri, a.is2D(), listener ); std::size_t n = 1;
    switch( t.kind )
    {
    case point: { auto * p = new objectmodel::PointSource( id ); o.reset( p ); p->setX( static_cast<float>( t.pos[0] ) ); p->setY( static_cast<float>( t.pos[1] ) ); p->setZ( static_cast<float>( t.pos[2] ) ); break; }
    case psd: { auto * p = new objectmodel::PointSourceWithDiffuseness( id ); o.reset( p ); p->setX( static_cast<float>( t.pos[0] ) ); p->setY( static_cast<float>( t.pos[1] ) ); p->setZ( static_cast<float>( t.pos[2] ) ); t.diffuseness = static_cast<float>( g.pick( { 0., 1., g.uni() } ) ); p->setDiffuseness( static_cast<float>( t.diffuseness ) ); break; }
    case plane: { auto * p = new objectmodel::PlaneWave( id ); o.reset( p ); t.az = static_cast<float>( g.pick( { 0., 90., 180., -30., g.uni( -180, 360 ) } ) ); t.el = static_cast<float>( g.pick( { 0., g.uni( -89, 89 ) } ) ); if( a.is2D() ) t.el = 0; p->setIncidenceAzimuth( static_cast<float>( t.az ) ); p->setIncidenceElevation( static_cast<float>( t.el ) ); p->setReferenceDistance( static_cast<float>( g.uni( 0.5, 10 ) ) ); break; }
    case diffuse: o.reset( new objectmodel::DiffuseSource( id ) ); break;
    case channels: { auto * p = new objectmodel::ChannelObject( id ); o.reset( p ); n = 1 + g.index( 3 ); t.diffuseness = static_cast<float>( g.pick( { 0., g.uni() } ) ); p->setDiffuseness( static_cast<float>( t.diffuseness ) ); break; }
    case hoa: { auto * p = new objectmodel::HoaSource( id ); o.reset( p ); t.order = g.index( maxOrder + 1 ); p->setOrder( static_cast<objectmodel::HoaSource::Order>( t.order ) ); n = ( t.order + 1 ) * ( t.order + 1 ); break; }
    }
    if( free.size() < n ) break;
    o->resetNumberOfChannels( n ); log += vh::cat( " [", t.kind, " ", str( t.pos ), " ", t.az, " ", t.el, " ", t.diffuseness, " ch" );
    for( std::size_t c = 0; c < n; ++c ) { t.ch.push_back( channel() ); o->setChannelIndex( c, static_cast<objectmodel::Object::ChannelIndex>( t.ch.back() ) ); log += vh::cat( " ", t.ch.back() ); }
    if( t.kind == channels )
    {
      objectmodel::ChannelObject * p = static_cast<objectmodel::ChannelObject *>( o.get() ); objectmodel::ChannelObject::OutputChannelContainer lists( n ); t.outs.resize( n );
      for( std::size_t c = 0; c < n; ++c ) for( std::size_t x = g.index( 4 ); x > 0; --x )
      {
        std::size_t const spk = g.index( a.getNumRegularSpeakers() ); if( std::find( t.outs[c].begin(), t.outs[c].end(), spk ) != t.outs[c].end() ) continue;
        if( wild && g.chance( 0.05 ) ) { lists[c].push_back( "nowhere" ); log += " unknown"; continue; }
        t.outs[c].push_back( spk ); lists[c].push_back( a.loudspeakerId( spk ) ); log += " ->" + a.loudspeakerId( spk );
      }
      p->setOutputChannels( lists );
    }
    log += "]"; ov.insert( *o ); items.push_back( t );
  }
  return ov;
}
static void panner( vh::Run & r )
{
  using PC = rcl::PanningCalculator; Rng & g = r.rng; ArrayRun ar( g ); std::size_t const ch = static_cast<std::size_t>( g.range( 1, 12 ) ), n = ar.a.getNumRegularSpeakers();
  SignalFlowContext ctx( static_cast<std::size_t>( 1 ) << g.index( 6 ), 48000 ); int const mode = static_cast<int>( g.range( 1, 7 ) ); bool const adaptive = g.chance( 0.5 );
  Norm const lfn = static_cast<Norm>( g.index( 3 ) ), hfn = static_cast<Norm>( g.index( 3 ) ), dfn = static_cast<Norm>( g.index( 3 ) ); ar.listener = g.chance( 0.5 ) ? listenerIn( g, ar.m ) : ar.listener;
  Norm const lf = lfn != Norm::Default ? lfn : ( mode & 2 ) ? Norm::Amplitude : Norm::Energy, hf = hfn == Norm::Default ? Norm::Energy : hfn, df = dfn == Norm::Default ? Norm::Energy : dfn;
  PC pc( ctx, "pan", nullptr, ch, ar.a, adaptive, static_cast<PC::PanningMode>( mode ), lfn, hfn, dfn, pml::ListenerPosition( static_cast<float>( ar.listener[0] ), static_cast<float>( ar.listener[1] ), static_cast<float>( ar.listener[2] ) ) ); rig::Rig rg( pc );
  std::string log = vh::cat( ar.m.xml, ": ", ch, " objects, outputs ", mode, " norms ", static_cast<int>( lfn ), static_cast<int>( hfn ), static_cast<int>( dfn ) ); std::vector<Item> items; bool known = false; rig::Block none, out;
  for( long b = g.range( 1, 5 ); b > 0; --b )
  {
    if( g.chance( 0.7 ) ) { setScene( rg, "objectVectorInput", scene( g, ch, ar.a, ar.sp, ar.tri, ar.listener, items, true, 1, log ) ); known = true; r.count( "scenes" ); }
    if( adaptive && g.chance( 0.4 ) ) { ar.listener = listenerIn( g, ar.m ); rg.publish( "listenerPosition", pml::ListenerPosition( static_cast<float>( ar.listener[0] ), static_cast<float>( ar.listener[1] ), static_cast<float>( ar.listener[2] ) ) ); log += "; listener " + str( ar.listener ); r.count( "listener moves" ); }
    if( !rg.process( none, out ) ) { r.viol( "panner_failed", log + ": " + rg.error ); return; }
    if( !known ) continue;
    Geometry const geo = geometry( ar.a, ar.listener );
    auto get = [&]( char const * port ) -> efl::BasicMatrix<float> const & { return dynamic_cast<pml::MatrixParameter<float> const &>( rg.sdOut( port ).data() ); };
    std::vector<int> owner( ch, -1 ); std::vector<std::size_t> sub( ch, 0 ); for( std::size_t i = 0; i < items.size(); ++i ) for( std::size_t c = 0; c < items[i].ch.size(); ++c ) if( items[i].ch[c] < ch ) { owner[items[i].ch[c]] = static_cast<int>( i ); sub[items[i].ch[c]] = c; }
    for( std::size_t c = 0; c < ch; ++c )
    {
      std::vector<double> L( n, 0 ), H( n, 0 ), D( n, 0 ); auto column = [&]( char const * port, std::vector<double> & v ) { auto const & mx = get( port ); if( mx.numberOfRows() != n || mx.numberOfColumns() != ch ) { v.assign( n, NAN ); return; } for( std::size_t i = 0; i < n; ++i ) v[i] = mx( i, c ); };
      if( mode & 1 ) column( "vbapGains", L ); if( mode & 2 ) column( "vbipGains", H ); if( mode & 4 ) column( "diffuseGains", D ); r.event();
      std::vector<double> eL( n, 0 ), eH( n, 0 ), eD( n, 0 ); Item const * t = owner[c] < 0 ? nullptr : &items[static_cast<std::size_t>( owner[c] )]; bool match = false;
      auto same = [&]( std::vector<double> const & x, std::vector<double> const & e, double tol, bool squares ) { double mx = 0; for( double v : e ) mx = std::max( mx, std::fabs( v ) ); for( std::size_t i = 0; i < n; ++i ) { double const dlt = squares ? ( x[i] < 0 ? 1e9 : std::fabs( x[i] * x[i] - e[i] * e[i] ) / std::max( mx, 1e-9 ) ) : std::fabs( x[i] - e[i] ); if( !( dlt <= tol ) ) return false; } return true; };
      if( t && ( t->kind == point || t->kind == psd || t->kind == plane ) )
      {
        V d = t->kind == plane ? polar( t->az, t->el, 1 ) : ::sub( t->pos, ar.listener ); if( geo.twoD ) d[2] = 0; double const dist = len( d ); if( dist < 0.05 ) continue; d = mul( d, 1 / dist );
        double const tol = 1e-5 + 1e-5 / geo.det; auto const cand = candidates( geo, d, tol ); if( cand.empty() ) { r.viol( "internal_mesh", log ); return; }
        for( auto const & cd : cand )
        {
          double sum = 0; for( double x : cd.g ) sum += std::fabs( x ); if( sum < 20 * tol ) { match = true; break; }
          double const t2 = 4 * tol / sum + 1e-5; std::vector<double> root( cd.g ); for( double & x : root ) x = std::sqrt( std::max( x, 0. ) );
          eL = scaled( cd.g, lf, 1 - t->diffuseness ); eH = scaled( root, hf, 1 - t->diffuseness ); eD = scaled( std::vector<double>( n, t->kind == psd ? 1. : 0. ), df, t->diffuseness );
          if( ( !( mode & 1 ) || same( L, eL, t2, false ) ) && ( !( mode & 2 ) || same( H, eH, 4 * t2 * static_cast<double>( n ), true ) ) && ( !( mode & 4 ) || same( D, eD, 1e-5, false ) ) ) { match = true; break; }
        }
        r.count( t->kind == plane ? "panned plane waves" : "panned point sources" );
      }
      else
      {
        if( t && t->kind == diffuse ) { eD = scaled( std::vector<double>( n, 1. ), df, 1 ); r.count( "diffuse sources" ); }
        if( t && t->kind == channels ) { std::vector<double> v( n, 0 ); for( auto s : t->outs[sub[c]] ) v[s] = 1; eL = scaled( v, lf, 1 - t->diffuseness ); eH = scaled( v, hf, 1 - t->diffuseness ); eD = scaled( v, df, t->diffuseness ); r.count( "channel objects" ); }
        if( t && t->kind == hoa && t->ch.size() == 1 && false ) eL = eL;
        match = ( !( mode & 1 ) || same( L, eL, 1e-5, false ) ) && ( !( mode & 2 ) || same( H, eH, 1e-5, false ) ) && ( !( mode & 4 ) || same( D, eD, 1e-5, false ) );
      }
      if( !match ) { r.viol( t ? vh::cat( "panned_", t->kind ) : std::string( "panned_unused" ), vh::cat( log, ": object channel ", c, ": gains ", vh::vec( L ), " ", vh::vec( H ), " ", vh::vec( D ), ", expected ", vh::vec( eL ), " ", vh::vec( eH ), " ", vh::vec( eD ) ) ); return; }
    }
  }
  r.count( "panning runs" ); r.nontrivial( log );
}
// Amplitude panning for a listener with a given orientation: the gains that reproduce the source's direction along the ears' axis.
static std::vector<double> ampPan( Geometry const & full, std::vector<V> const & rel, V src, V listener, V axis, bool plane, bool hf, double & cond )
{
  (void)full; std::size_t const n = rel.size(); V const s = plane ? src : sub( src, listener ); double const dist = len( s ), dist0 = len( src ); V const u = unit( s ); std::vector<double> g( n, 1 ); cond = 1;
  if( n >= 3 )
  {
    std::vector<double> a( n ); double b = 0, c = 0; for( std::size_t i = 0; i < n; ++i ) { a[i] = dot( axis, sub( rel[i], u ) ); b += a[i]; c += a[i] * a[i]; }
    double const D = c * static_cast<double>( n ) - b * b; cond = D / ( static_cast<double>( n * n ) ); double mx = 0, mn = 0;
    for( std::size_t i = 0; i < n; ++i ) { g[i] = ( c - b * a[i] ) / D * dist0 / ( dist + 0.01 ); mx = std::max( mx, g[i] ); mn = std::min( mn, g[i] ); }
    if( mx > 9.9 || mn < -9.9 ) cond = 0;
  }
  else if( n == 2 )
  {
    g[0] = dot( axis, sub( u, rel[1] ) ); g[1] = -dot( axis, sub( u, rel[0] ) ); double const d = std::fabs( g[0] + g[1] ); cond = d; if( d < 0.05 ) { cond = 0; return g; }
    for( double & x : g ) x /= d;
    if( hf ) { if( g[0] * g[1] > 0 ) { g[0] = std::sqrt( std::fabs( g[0] ) ); g[1] = std::sqrt( std::fabs( g[1] ) ); double const e = std::hypot( g[0], g[1] ); g[0] /= e; g[1] /= e; } else g[0] = g[1] = 0; }
    double mx = std::max( std::fabs( g[0] ), std::fabs( g[1] ) ); if( mx > 1.5 ) for( double & x : g ) x *= 1.5 / mx;
    for( double & x : g ) x *= dist0 / std::max( dist, 0.001 ); mx = std::max( std::fabs( g[0] ), std::fabs( g[1] ) ); if( mx > 10 ) for( double & x : g ) x *= 10 / mx;
    if( hf && std::fabs( g[0] * g[1] ) < 1e-3 ) cond = 0;
  }
  return g;
}
static void compensated( vh::Run & r )
{
  using CC = rcl::CAPGainCalculator; Rng & g = r.rng; ArrayRun ar( g ); 
  if( g.chance( 0.3 ) )
  { // stereo
    ar.m = Model(); double const w = std::floor( g.uni( 20, 80 ) ); ar.m.twoD = true;
    ar.m.xml = vh::cat( "<panningConfiguration dimension=\"2\"><loudspeaker id=\"L\" channel=\"1\"><polar az=\"", w, "\" r=\"1\"/></loudspeaker><loudspeaker id=\"R\" channel=\"2\"><polar az=\"", -w, "\" r=\"1\"/></loudspeaker><triplet l1=\"L\" l2=\"R\"/></panningConfiguration>" );
    ar.a.loadXmlString( ar.m.xml ); ar.sp.clear(); ar.tri.clear(); for( std::size_t i = 0; i < 2; ++i ) ar.sp.push_back( V{ { ar.a.getPosition( i ).x, ar.a.getPosition( i ).y, 0 } } ); ar.tri.push_back( { { 0, 1, 0 } } );
    Spk s; s.pos = ar.sp[0]; ar.m.reg.push_back( s ); s.pos = ar.sp[1]; ar.m.reg.push_back( s ); ar.m.tri.push_back( { { 0, 1, 0 } } );
  }
  std::size_t const ch = static_cast<std::size_t>( g.range( 1, 8 ) ), n = ar.a.getNumRegularSpeakers(); bool const second = g.chance( 0.5 ), hf = g.chance( 0.4 ); SignalFlowContext ctx( 16, 48000 );
  std::unique_ptr<CC> pc; { LoudspeakerArray copy; copy = ar.a; pc.reset( new CC( ctx, "cap", nullptr, ch, copy, hf ? CC::PanningMode::HF : CC::PanningMode::LF, second ) ); }
  rig::Rig rg( *pc ); std::string log = vh::cat( ar.m.xml, ": ", ch, " objects", hf ? " HF" : "", second ? " second output" : "" ); std::vector<Item> items; bool scened = false, placed = false; double yaw = 0; rig::Block none, out;
  for( long b = g.range( 1, 5 ); b > 0; --b )
  {
    if( g.chance( 0.7 ) || !scened ) { setScene( rg, "objectVectorInput", scene( g, ch, ar.a, ar.sp, ar.tri, ar.listener, items, true, 1, log ) ); scened = true; r.count( "scenes" ); }
    if( g.chance( 0.6 ) || !placed )
    {
      ar.listener = listenerIn( g, ar.m ); yaw = static_cast<float>( g.pick( { 0., M_PI / 2, g.uni( -M_PI, M_PI ) } ) ); pml::ListenerPosition lp( static_cast<float>( ar.listener[0] ), static_cast<float>( ar.listener[1] ), static_cast<float>( ar.listener[2] ) ); lp.setOrientationYPR( static_cast<float>( yaw ), 0, 0 );
      rg.publish( "listenerPosition", lp ); placed = true; log += vh::cat( "; listener ", str( ar.listener ), " yaw ", yaw ); r.count( "listener moves" );
    }
    if( !rg.process( none, out ) ) { r.viol( "cap_failed", log + ": " + rg.error ); return; }
    Geometry const geo = geometry( ar.a, ar.listener, !ar.a.isInfinite() ); std::vector<V> rel; for( std::size_t i = 0; i < n; ++i ) rel.push_back( unit( sub( ar.sp[i], ar.listener ) ) );
    auto const & G = dynamic_cast<pml::MatrixParameter<float> const &>( rg.sdOut( "gainOutput" ).data() ); pml::MatrixParameter<float> const * H = second ? &dynamic_cast<pml::MatrixParameter<float> const &>( rg.sdOut( "hfGainOutput" ).data() ) : nullptr;
    std::vector<Item const *> owner( ch, nullptr ); for( auto const & t : items ) if( t.ch.size() == 1 && t.ch[0] < ch ) owner[t.ch[0]] = &t;
    for( std::size_t c = 0; c < ch; ++c )
    {
      Item const * t = owner[c]; std::vector<double> got( n ), e( n, 0 ), gh( n, 0 ); for( std::size_t i = 0; i < n; ++i ) { got[i] = G( i, c ); if( H ) gh[i] = ( *H )( i, c ); } r.event();
      if( t && ( t->kind == point || t->kind == psd || t->kind == plane ) )
      {
        bool const pw = t->kind == plane; V const src = pw ? polar( t->az, t->el, 1 ) : t->pos; double const level = 1 - t->diffuseness; V d = pw ? src : sub( src, ar.listener ); if( len( d ) < 0.1 || len( src ) < 0.1 ) continue; double cond;
        e = ampPan( geo, rel, src, ar.listener, V{ { -std::sin( yaw ), std::cos( yaw ), 0 } }, pw, hf, cond );
        if( cond >= 0.01 ) { double mx = 0; for( double x : e ) mx = std::max( mx, std::fabs( x ) ); for( std::size_t i = 0; i < n; ++i ) if( !near( got[i], level * e[i], ( 1 + mx ) * ( n == 2 && hf ? 5e-3 : 2e-4 ) ) ) { r.viol( vh::cat( "cap_gains_", t->kind ), vh::cat( log, ": object channel ", c, ": gains ", vh::vec( got ), ", expected ", vh::vec( e ), " at level ", level ) ); return; } r.count( "compensated gains" ); }
        else for( double x : got ) if( x != x ) { r.viol( "cap_nan", vh::cat( log, ": object channel ", c, ": gains ", vh::vec( got ) ) ); return; }
        if( H )
        {
          for( double x : gh ) if( !( x >= 0 && x <= 1.0001 ) ) { r.viol( "cap_hf_range", vh::cat( log, ": object channel ", c, ": gains ", vh::vec( gh ) ) ); return; }
          if( geo.twoD ) d[2] = 0; double const dist = len( d ); if( dist < 0.1 ) continue; d = mul( d, 1 / dist ); double const tol = 1e-5 + 1e-5 / std::max( geo.det, 1e-3 ); auto const cand = candidates( geo, d, tol ); bool match = cand.empty() || cand[0].least < tol;
          for( auto const & cd : cand ) { double sum = 0; for( double x : cd.g ) sum += x; if( sum < 20 * tol ) { match = true; break; } bool ok = true; for( std::size_t i = 0; i < n; ++i ) if( !near( gh[i] * gh[i], level * level * std::max( cd.g[i], 0. ) / sum, 4 * tol / sum + 1e-4 ) ) ok = false; if( ok ) match = true; }
          if( !match ) { r.viol( "cap_hf_gains", vh::cat( log, ": object channel ", c, ": gains ", vh::vec( gh ), ", expected roots of ", vh::vec( cand[0].g ), " at level ", level ) ); return; }
          r.count( "high-frequency gains" );
        }
      }
      else for( std::size_t i = 0; i < n; ++i ) if( got[i] != 0 || gh[i] != 0 ) { r.viol( "cap_unused", vh::cat( log, ": object channel ", c, ": gains ", vh::vec( got ), vh::vec( gh ), ", expected none" ) ); return; }
    }
  }
  r.count( "compensated panning runs" ); r.nontrivial( log );
}
static void ambisonics( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ), reg( g ); std::size_t const n = ar.a.getNumRegularSpeakers(), order = g.index( 4 ), harm = ( order + 1 ) * ( order + 1 ), nreg = reg.a.getNumRegularSpeakers(); if( ar.a.is2D() != reg.a.is2D() && ar.a.is2D() ) return;
  efl::BasicMatrix<float> dec( harm, nreg, 8 ); for( std::size_t i = 0; i < harm; ++i ) for( std::size_t j = 0; j < nreg; ++j ) dec( i, j ) = static_cast<float>( g.uni( -1, 1 ) );
  std::string log = vh::cat( ar.m.xml, " regular ", reg.m.xml, " order ", order ); V listener = g.chance( 0.5 ) ? listenerIn( g, ar.m ) : V{ { 0, 0, 0 } };
  auto expected = [&]( std::vector<std::vector<double>> & e, double & tol ) {
    Geometry const geo = geometry( ar.a, listener ); e.assign( harm, std::vector<double>( n, 0 ) ); tol = 1e-4;
    for( std::size_t j = 0; j < nreg; ++j )
    {
      V d = sub( reg.sp[j], listener ); if( geo.twoD ) d[2] = 0; double const dist = len( d ), t = 1e-5 + 1e-5 / geo.det; if( dist < 0.1 ) return false; auto const cand = candidates( geo, mul( d, 1 / dist ), t ); if( cand.empty() ) return false;
      double sum = 0; for( double x : cand[0].g ) sum += x * x; sum = std::sqrt( sum ); if( sum < 30 * t ) return false; tol += 6 * t / sum; auto const p = powered( cand[0].g ); for( std::size_t h = 0; h < harm; ++h ) for( std::size_t i = 0; i < n; ++i ) e[h][i] += dec( h, j ) * p[i];
    }
    return true; };
  std::vector<std::vector<double>> e; double tol; if( !expected( e, tol ) ) return;
  if( g.chance( 0.4 ) )
  {
    panning::AllRAD ad( reg.a, ar.a, dec, static_cast<unsigned>( order ) ); ad.setListenerPosition( static_cast<float>( listener[0] ), static_cast<float>( listener[1] ), static_cast<float>( listener[2] ) );
    for( std::size_t h = 0; h < harm; ++h ) for( std::size_t i = 0; i < n; ++i ) { r.event(); if( !near( ad.decodingGains()( h, i ), e[h][i], tol ) ) { r.viol( "allrad", vh::cat( log, ": listener ", str( listener ), ": harmonic ", h, " speaker ", i, " is ", ad.decodingGains()( h, i ), ", expected ", e[h][i] ) ); return; } }
    r.count( "ambisonic decoders" ); r.nontrivial( log ); return;
  }
  if( reg.a.getNumSpeakers() != nreg )
  { // the component has no use for virtual speakers in the regular array; it may refuse them but not misuse memory
    try { SignalFlowContext ctx( 16, 48000 ); rcl::HoaAllRadGainCalculator x( ctx, "hoa", nullptr, 4, reg.a, ar.a, dec ); } catch( std::exception const & ) {} return;
  }
  std::size_t const ch = static_cast<std::size_t>( g.range( 1, 20 ) ); bool const adaptive = g.chance( 0.5 ); SignalFlowContext ctx( 16, 48000 );
  rcl::HoaAllRadGainCalculator hc( ctx, "hoa", nullptr, ch, reg.a, ar.a, dec, pml::ListenerPosition( static_cast<float>( listener[0] ), static_cast<float>( listener[1] ), static_cast<float>( listener[2] ) ), adaptive ); rig::Rig rg( hc ); std::vector<Item> items; rig::Block none, out;
  auto & in = rg.shared<pml::MatrixParameter<float>>( "gainInput" ); bool bad = false;
  for( long b = g.range( 1, 5 ); b > 0; --b )
  {
    for( std::size_t i = 0; i < n; ++i ) for( std::size_t c = 0; c < ch; ++c ) in( i, c ) = static_cast<float>( g.uni( -1, 1 ) );
    bool const over = g.chance( 0.15 );
    if( g.chance( 0.8 ) || bad ) { setScene( rg, "objectInput", scene( g, ch, ar.a, ar.sp, ar.tri, listener, items, over, over ? order + 1 : order, log ) ); bad = false; for( auto const & t : items ) if( t.kind == hoa ) { if( t.order > order ) bad = true; for( auto c : t.ch ) if( c >= ch ) bad = true; } }
    if( adaptive && g.chance( 0.4 ) ) { V const old = listener; listener = listenerIn( g, ar.m ); if( !expected( e, tol ) ) { listener = old; if( !expected( e, tol ) ) return; } else { rg.publish( "listenerInput", pml::ListenerPosition( static_cast<float>( listener[0] ), static_cast<float>( listener[1] ), static_cast<float>( listener[2] ) ) ); log += "; listener " + str( listener ); } }
    bool const ok = rg.process( none, out ); r.event();
    if( ok == bad ) { r.viol( bad ? "hoa_accepted" : "hoa_failed", log + ": " + rg.error ); return; }
    if( bad ) { r.count( "inadmissible ambisonic sources refused" ); continue; }
    auto const & G = dynamic_cast<pml::MatrixParameter<float> const &>( rg.sdOut( "gainOutput" ).data() ); std::vector<int> harmonic( ch, -1 ); for( auto const & t : items ) if( t.kind == hoa ) for( std::size_t c = 0; c < t.ch.size(); ++c ) harmonic[t.ch[c]] = static_cast<int>( c );
    for( std::size_t i = 0; i < n; ++i ) for( std::size_t c = 0; c < ch; ++c )
    {
      double const x = harmonic[c] < 0 ? in( i, c ) : e[static_cast<std::size_t>( harmonic[c] )][i]; r.event();
      if( !near( G( i, c ), x, harmonic[c] < 0 ? 0 : tol ) ) { r.viol( "hoa_gains", vh::cat( log, ": speaker ", i, " channel ", c, " is ", G( i, c ), ", expected ", x ) ); return; }
    }
  }
  r.count( "ambisonic gain runs" ); r.nontrivial( log );
}
static void diffusion( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ); std::size_t const ch = static_cast<std::size_t>( g.range( 1, 10 ) ); SignalFlowContext ctx( 16, 48000 ); rcl::DiffusionGainCalculator dc( ctx, "diff", nullptr, ch ); rig::Rig rg( dc ); std::vector<Item> items; rig::Block none, out; std::string log;
  for( long b = g.range( 1, 4 ); b > 0; --b )
  {
    if( g.chance( 0.8 ) ) setScene( rg, "objectInput", scene( g, ch, ar.a, ar.sp, ar.tri, ar.listener, items, true, 1, log ) );
    if( !rg.process( none, out ) ) { r.viol( "diffusion_failed", log + ": " + rg.error ); return; }
    auto const & G = dynamic_cast<pml::MatrixParameter<float> const &>( rg.sdOut( "gainOutput" ).data() ); std::vector<double> e( ch, 0 ); for( auto const & t : items ) if( t.ch.size() == 1 && t.ch[0] < ch ) e[t.ch[0]] = t.kind == diffuse ? 1 : t.kind == psd ? t.diffuseness : 0;
    for( std::size_t c = 0; c < ch; ++c ) { r.event(); if( !near( G( 0, c ), e[c], 1e-6 ) ) { r.viol( "diffusion", vh::cat( log, ": channel ", c, " is ", G( 0, c ), ", expected ", e[c] ) ); return; } }
  }
  r.count( "diffusion gain runs" ); r.nontrivial( log );
}
static void oneCase( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), true ); (void)init;
  switch( r.rng.index( 10 ) ) { case 0: case 1: arrayTexts( r ); break; case 2: case 3: case 4: vbap( r ); break; case 5: case 6: panner( r ); break; case 7: compensated( r ); break; case 8: ambisonics( r ); break; default: diffusion( r ); }
}
VH_MAIN( oneCase )
