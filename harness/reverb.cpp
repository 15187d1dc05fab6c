// C20: reverberant objects. Discrete reflections are delayed, weighted, filtered and panned copies of the object signal; the late
// part is the object signal through a filter of enveloped noise bands, decorrelated per loudspeaker; unused channels are silent.
#include "rig.hpp"
#include "arrays.hpp"
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/point_source_with_reverb.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <librbbl/parametric_iir_coefficient.hpp>
#include <libreverbobject/late_reverb_filter_calculator.hpp>
#include <libreverbobject/late_reverb_parameter.hpp>
#include <libreverbobject/reverb_object_renderer.hpp>
#include <libreverbobject/reverb_parameter_calculator.hpp>
#include <libsignalflows/core_renderer.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <complex>
#include <fstream>
// LIBS: signalflows reverbobject rrl pml rcl panning objectmodel rbbl visr efl
using Sig = std::vector<double>;
using objectmodel::PointSourceWithReverb;
using IndexedFilter = pml::IndexedValueParameter<std::size_t, std::vector<float>>;
static std::size_t const kBands = 9, kBiquads = 10;
using Bq = std::array<float, 5>;
static Bq const kFlat{ { 1, 0, 0, 0, 0 } };

// ---------------------------------------------------------------- scenes
struct Refl { V pos; float delay = 0, level = 0; std::vector<Bq> eq; };
struct Late { float onset = 0; std::array<float, kBands> level{}, decay{}, attack{}; bool operator==( Late const & o ) const { return onset == o.onset && level == o.level && decay == o.decay && attack == o.attack; } };
struct Source { unsigned id = 0; std::size_t ch = 0; float level = 1; V pos{ { 1, 0, 0 } }; std::vector<Refl> refl; Late late; };
struct Setup { std::size_t fs = 48000, B = 16, I = 1, N = 1, R = 0, F = 1; double maxDelay = 1; };
static PointSourceWithReverb object( Source const & s )
{
  PointSourceWithReverb o( s.id ); o.resetNumberOfChannels( 1 ); o.setChannelIndex( 0, static_cast<objectmodel::Object::ChannelIndex>( s.ch ) ); o.setLevel( s.level ); o.setX( static_cast<float>( s.pos[0] ) ); o.setY( static_cast<float>( s.pos[1] ) ); o.setZ( static_cast<float>( s.pos[2] ) );
  o.setNumberOfDiscreteReflections( s.refl.size() );
  for( std::size_t k = 0; k < s.refl.size(); ++k )
  {
    auto & d = o.discreteReflection( k ); auto const & f = s.refl[k]; d.setPosition( static_cast<float>( f.pos[0] ), static_cast<float>( f.pos[1] ), static_cast<float>( f.pos[2] ) ); d.setDelay( f.delay ); d.setLevel( f.level );
    for( std::size_t q = 0; q < f.eq.size(); ++q ) d.setReflectionFilter( q, rbbl::BiquadCoefficient<float>( f.eq[q][0], f.eq[q][1], f.eq[q][2], f.eq[q][3], f.eq[q][4] ) );
  }
  o.setLateReverbOnset( s.late.onset ); o.setLateReverbLevels( s.late.level.data(), kBands ); o.setLateReverbDecayCoeffs( s.late.decay.data(), kBands ); o.setLateReverbAttackTimes( s.late.attack.data(), kBands ); return o;
}
static Late lateIn( Rng & g, Setup const & s, bool quiet = true )
{
  Late l; if( quiet && g.chance( 0.15 ) ) return l; double const room = static_cast<double>( s.F - 1 ), onset = g.chance( 0.3 ) ? 0 : std::floor( g.uni( 0, 0.6 * room ) ); l.onset = static_cast<float>( onset / static_cast<double>( s.fs ) );
  for( std::size_t b = 0; b < kBands; ++b )
  {
    if( !g.chance( 0.2 ) ) l.level[b] = static_cast<float>( g.uni( 0, 2 ) );
    l.attack[b] = static_cast<float>( g.chance( 0.3 ) ? 0 : std::floor( g.uni( 0, room - onset ) ) / static_cast<double>( s.fs ) ); l.decay[b] = static_cast<float>( g.chance( 0.2 ) ? 0 : -g.uni( 0, 6 ) * static_cast<double>( s.fs ) / static_cast<double>( s.F ) );
  }
  return l;
}
// A change of one value only.
static void nudge( Rng & g, Setup const & s, Late & l )
{
  Late const n = lateIn( g, s, false ); std::size_t const b = g.index( kBands ); double const room = static_cast<double>( s.F - 1 ) / static_cast<double>( s.fs ) - static_cast<double>( l.onset );
  switch( g.index( 4 ) ) { case 0: if( n.onset < l.onset ) l.onset = n.onset; break; case 1: l.level[b] = n.level[b]; break; case 2: l.decay[b] = n.decay[b]; break; default: if( static_cast<double>( n.attack[b] ) < room ) l.attack[b] = n.attack[b]; }
}
// The direction of a source well inside one triplet.
static bool clear( Geometry const & geo, V d )
{
  auto const c = candidates( geo, d, 0 ); if( c.size() != 1 || c[0].least < 0.03 ) return false; double s = 0; for( double x : c[0].g ) s += x * x; return s > 0.04;
}
static bool place( Rng & g, Geometry const & geo, V & pos )
{
  for( int tries = 0; tries < 100; ++tries )
  {
    auto const & tr = geo.tri[g.index( geo.tri.size() )]; V d{ { 0, 0, 0 } }; for( std::size_t c = 0; c < ( geo.twoD ? 2u : 3u ); ++c ) { double const w = g.uni( 0.1, 1 ); for( std::size_t x = 0; x < 3; ++x ) d[x] += w * geo.l[tr[c]][x]; }
    pos = fl( mul( unit( d ), g.uni( 0.3, 6 ) ) ); if( geo.twoD ) pos[2] = 0; if( clear( geo, unit( pos ) ) ) return true;
  }
  return false;
}
static std::vector<Bq> equaliser( Rng & g )
{
  std::vector<Bq> v; if( g.chance( 0.3 ) ) return v;
  for( std::size_t k = g.index( g.chance( 0.3 ) ? kBiquads + 1 : 4 ); k > 0; --k )
  {
    double const rad = g.uni( 0, 0.8 ), ang = g.uni( 0, M_PI ), a1 = -2 * rad * std::cos( ang ), a2 = rad * rad, dc = 1 + std::fabs( a1 ) + a2; v.push_back( g.chance( 0.2 ) ? kFlat : Bq{ { static_cast<float>( g.uni( -1, 1 ) / dc ), static_cast<float>( g.uni( -1, 1 ) / dc ), static_cast<float>( g.uni( -1, 1 ) / dc ), static_cast<float>( a1 ), static_cast<float>( a2 ) } } );
  }
  return v;
}
static bool source( Rng & g, Setup const & c, Geometry const & geo, Source & s )
{
  s.refl.clear(); std::size_t const n = c.R == 0 ? 0 : g.chance( 0.3 ) ? c.R : g.index( c.R + 1 );
  for( std::size_t k = 0; k < n; ++k )
  {
    Refl f; if( !place( g, geo, f.pos ) ) return false; f.delay = static_cast<float>( g.pick( { 0., g.uni( 0, 4 ) / static_cast<double>( c.fs ), std::floor( g.uni( 0, c.maxDelay * static_cast<double>( c.fs ) ) ) / static_cast<double>( c.fs ), g.uni( 0, c.maxDelay ), c.maxDelay } ) ); f.level = static_cast<float>( g.pick( { 0., 1., g.uni( 0, 1 ), g.uni( -1, 1 ) } ) ); f.eq = equaliser( g ); s.refl.push_back( f );
  }
  s.late = lateIn( g, c ); return place( g, geo, s.pos );
}
static std::string str( Source const & s )
{
  std::string o = vh::cat( "{id ", s.id, " ch ", s.ch, " level ", s.level, " late onset ", s.late.onset, " levels ", vh::vec( s.late.level ), " decay ", vh::vec( s.late.decay ), " attack ", vh::vec( s.late.attack ) );
  for( auto const & f : s.refl ) o += vh::cat( " reflection ", str( f.pos ), " delay ", f.delay, " level ", f.level, " eq ", f.eq.size() ); return o + "}";
}
// A new scene: objects come, go, keep or change their properties and channels.
static bool scene( Rng & g, Setup const & c, Geometry const & geo, std::vector<Source> & v )
{
  std::vector<Source> next; for( auto & s : v ) if( g.chance( 0.7 ) ) { next.push_back( s ); if( g.chance( 0.3 ) ) { if( g.chance( 0.5 ) ) nudge( g, c, next.back().late ); else next.back().late = lateIn( g, c ); } if( g.chance( 0.3 ) && !source( g, c, geo, next.back() ) ) return false; }
  std::size_t const want = g.index( c.N + 1 ); while( next.size() < want ) { Source s; s.id = static_cast<unsigned>( g.index( g.chance( 0.5 ) ? 10 : 100000 ) ); bool dup = false; for( auto const & o : next ) if( o.id == s.id ) dup = true; if( dup ) continue; s.ch = 0; if( !source( g, c, geo, s ) ) return false; next.push_back( s ); }
  for( auto & s : next ) { if( g.chance( 0.3 ) ) s.level = static_cast<float>( g.uni( 0, 2 ) ); }
  std::vector<std::size_t> free( c.I ); for( std::size_t i = 0; i < c.I; ++i ) free[i] = i; g.shuffle( free ); for( std::size_t k = 0; k < next.size(); ++k ) if( g.chance( 0.5 ) || next[k].ch >= c.I ) next[k].ch = free[k];
  for( std::size_t a = 0; a < next.size(); ++a ) for( std::size_t b = 0; b < a; ++b ) if( next[a].ch == next[b].ch ) { for( std::size_t k = 0; k < next.size(); ++k ) next[k].ch = free[k]; }
  v = next; return true;
}
static void publish( rig::Rig & rg, char const * port, std::vector<Source> const & v, Rng * other = nullptr, std::size_t I = 0 )
{
  auto & p = rg.db<pml::ObjectVector>( port ); auto & ov = dynamic_cast<pml::ObjectVector &>( p.data() ); ov.clear(); for( auto const & s : v ) ov.insert( object( s ) );
  if( other ) for( std::size_t k = other->index( 3 ); k > 0; --k ) { unsigned const id = 200000u + static_cast<unsigned>( k ); objectmodel::DiffuseSource d( id ); d.resetNumberOfChannels( 1 ); d.setChannelIndex( 0, static_cast<unsigned>( other->index( I ) ) ); ov.insert( d ); }
  p.swapBuffers();
}
static Sig envelope( Late const & l, std::size_t b, std::size_t F, double fs )
{
  Sig e( F, 0 ); double const on = std::round( static_cast<double>( l.onset ) * fs ), at = std::round( static_cast<double>( l.attack[b] ) * fs );
  for( std::size_t n = 0; n < F; ++n ) { double const t = static_cast<double>( n ) - on; e[n] = t < 0 ? 0 : l.level[b] * ( t < at ? t / at : std::exp( static_cast<double>( l.decay[b] ) / fs * ( t - at ) ) ); }
  return e;
}
static Late probe( std::size_t b ) { Late l; l.level[b] = 1; return l; }

// ---------------------------------------------------------------- parameters of the reverberation, block by block
static void parameters( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ); Geometry const geo = geometry( ar.a, V{ { 0, 0, 0 } } ); if( geo.det < 0.05 ) { r.count( "arrays given up" ); return; }
  Setup c; c.B = 16; c.N = static_cast<std::size_t>( g.range( 0, 5 ) ); c.R = static_cast<std::size_t>( g.range( 0, 4 ) ); c.I = std::max<std::size_t>( c.N, 1 ) + g.index( 4 ); c.F = 200; c.maxDelay = 0.5; std::size_t const L = ar.m.reg.size();
  std::string log = vh::cat( ar.m.xml, ": ", c.N, " objects, ", c.R, " reflections" ); SignalFlowContext ctx( c.B, c.fs ); reverbobject::ReverbParameterCalculator calc( ctx, "calc", nullptr );
  std::unique_ptr<rig::Rig> rg; try { calc.setup( ar.a, c.N, c.R, kBiquads, 0.01f, kBands ); rg.reset( new rig::Rig( calc ) ); } catch( std::exception const & e ) { r.viol( "parameters_construction", log + ": " + e.what() ); return; }
  std::vector<Source> sc; std::map<unsigned, std::size_t> channel; std::vector<Late> told( c.N ); std::vector<bool> known( c.N, false ); rig::Block out; long const blocks = g.range( 3, 25 );
  // The signal of the array object, if it is refused: published scenes that cannot be rendered must fail, and leave later blocks intact.
  for( long b = 0; b < blocks; ++b )
  {
    bool bad = false;
    if( b == 0 || g.chance( 0.6 ) )
    {
      if( !scene( g, c, geo, sc ) ) { r.count( "scenes given up" ); return; }
      std::vector<Source> sent = sc;
      if( g.chance( 0.1 ) ) { bad = true; if( g.chance( 0.5 ) && !sent.empty() ) { Refl f; f.pos = V{ { 1, 0, 0 } }; while( sent[0].refl.size() <= c.R ) sent[0].refl.push_back( f ); } else while( sent.size() <= c.N ) { Source s; s.id = 300000u + static_cast<unsigned>( sent.size() ); sent.push_back( s ); } }
      publish( *rg, "objectInput", sent, &g, c.I );
      if( bad ) { bool const ok = rg->process( {}, out ); r.event(); if( ok ) { r.viol( "excess_accepted", log + vh::cat( ": block ", b, " with ", sent.size(), " objects" ) ); return; } r.count( "scenes refused" ); return; }
    }
    if( !rg->process( {}, out ) ) { r.viol( "parameters_processing", log + ": " + rg->error ); return; }
    auto const & route = dynamic_cast<pml::SignalRoutingParameter const &>( rg->dbOut( "signalRoutingOut" ).data() ); auto const & gain = dynamic_cast<efl::BasicVector<float> const &>( rg->dbOut( "discreteGainOut" ).data() ); auto const & delay = dynamic_cast<efl::BasicVector<float> const &>( rg->dbOut( "discreteDelayOut" ).data() );
    auto const & eq = dynamic_cast<pml::BiquadParameterMatrix<float> const &>( rg->dbOut( "discreteEqOut" ).data() ); auto const & pan = dynamic_cast<efl::BasicMatrix<float> const &>( rg->sdOut( "discretePanningGainOut" ).data() ); auto const & lg = dynamic_cast<efl::BasicVector<float> const &>( rg->dbOut( "lateGainOut" ).data() );
    auto const & ld = dynamic_cast<efl::BasicVector<float> const &>( rg->dbOut( "lateDelayOut" ).data() ); std::string const at = log + vh::cat( ": block ", b, " scene " ) + [&] { std::string o; for( auto const & s : sc ) o += str( s ); return o; }(); r.event();
    std::vector<long> input( c.N, -1 ); for( auto const & e : route ) { if( e.output >= c.N || input[e.output] >= 0 ) { r.viol( "routing_entry", at ); return; } input[e.output] = static_cast<long>( e.input ); }
    std::map<unsigned, std::size_t> now; std::vector<Source const *> user( c.N, nullptr );
    for( auto const & s : sc )
    {
      std::size_t hit = c.N; for( std::size_t k = 0; k < c.N; ++k ) if( input[k] == static_cast<long>( s.ch ) ) { if( hit < c.N ) { r.viol( "routed_twice", at ); return; } hit = k; }
      if( hit == c.N ) { r.viol( "not_routed", vh::cat( at, ": object ", s.id ) ); return; } auto const old = channel.find( s.id ); if( old != channel.end() && old->second != hit ) { r.viol( "channel_changed", vh::cat( at, ": object ", s.id, " moved from ", old->second, " to ", hit ) ); return; } now[s.id] = hit; user[hit] = &s;
    }
    for( std::size_t k = 0; k < c.N; ++k ) if( !user[k] && input[k] >= 0 ) { r.viol( "stale_routing", vh::cat( at, ": channel ", k ) ); return; }
    channel = now; std::vector<Late> want( c.N ); auto & q = rg->mqOut( "lateSubbandOut" ); std::vector<bool> fresh( c.N, false );
    while( !q.empty() ) { auto const & m = dynamic_cast<reverbobject::LateReverbParameter const &>( q.front() ); auto const & p = m.getReverbParameters(); if( m.index() >= c.N || fresh[m.index()] ) { r.viol( "late_message", vh::cat( at, ": message for channel ", m.index() ) ); return; } Late l; l.onset = p.onsetDelay(); l.level = p.levels(); l.decay = p.decayCoeffs(); l.attack = p.attackTimes(); if( known[m.index()] && told[m.index()] == l ) { r.viol( "late_repeated", vh::cat( at, ": channel ", m.index() ) ); return; } told[m.index()] = l; known[m.index()] = fresh[m.index()] = true; q.pop(); r.count( "late parameter messages" ); }
    for( std::size_t k = 0; k < c.N; ++k )
    {
      Late const w = user[k] ? user[k]->late : Late(); if( !known[k] || !( told[k] == w ) ) { r.viol( "late_parameters", vh::cat( at, ": channel ", k ) ); return; } if( lg[k] != ( user[k] ? 1.f : 0.f ) || ld[k] != 0 ) { r.viol( "late_gain", vh::cat( at, ": channel ", k, " gain ", lg[k], " delay ", ld[k] ) ); return; }
      for( std::size_t i = 0; i < c.R; ++i )
      {
        std::size_t const x = k * c.R + i; Refl const * f = user[k] && i < user[k]->refl.size() ? &user[k]->refl[i] : nullptr; r.event(); if( gain[x] != ( f ? f->level : 0.f ) || delay[x] != ( f ? f->delay : 0.f ) ) { r.viol( "reflection_gain_delay", vh::cat( at, ": channel ", k, " reflection ", i, ": gain ", gain[x], " delay ", delay[x] ) ); return; }
        for( std::size_t s = 0; s < kBiquads; ++s ) { Bq const w = f && s < f->eq.size() ? f->eq[s] : kFlat; auto const & h = eq( x, s ); for( std::size_t y = 0; y < 5; ++y ) if( h[y] != w[y] ) { r.viol( "reflection_filter", vh::cat( at, ": channel ", k, " reflection ", i, " section ", s ) ); return; } }
        Sig e( L, 0 ); if( f ) e = powered( candidates( geo, unit( f->pos ), 1e-6 )[0].g ); for( std::size_t l = 0; l < L; ++l ) if( !( std::fabs( pan( l, x ) - e[l] ) <= 2e-4 * ( f ? 1 : 0 ) ) ) { r.viol( "reflection_panning", vh::cat( at, ": channel ", k, " reflection ", i, " loudspeaker ", l, ": ", pan( l, x ), ", expected ", e[l] ) ); return; }
      }
    }
    r.count( "parameter blocks" );
  }
  r.nontrivial( log + vh::cat( blocks, sc.size() ) );
}
// ---------------------------------------------------------------- late reverberation filters
static void filters( vh::Run & r )
{
  Rng & g = r.rng; Setup c; c.fs = g.pick( { std::size_t( 48000 ), std::size_t( 44100 ), std::size_t( 96000 ) } ); c.N = static_cast<std::size_t>( g.range( 1, 4 ) ); c.F = static_cast<std::size_t>( g.pick( { g.range( 2, 40 ), g.range( 2, 3000 ) } ) ); std::size_t const limit = g.index( 4 );
  std::string log = vh::cat( c.N, " objects, ", c.F, " samples at ", c.fs, ", limit ", limit ); SignalFlowContext ctx( 16, c.fs ); std::unique_ptr<reverbobject::LateReverbFilterCalculator> calc; std::unique_ptr<rig::Rig> rg;
  try { calc.reset( new reverbobject::LateReverbFilterCalculator( ctx, "calc", nullptr, c.N, static_cast<float>( static_cast<double>( c.F ) / static_cast<double>( c.fs ) ), kBands, limit ) ); rg.reset( new rig::Rig( *calc ) ); } catch( std::exception const & e ) { r.viol( "filter_construction", log + ": " + e.what() ); return; }
  std::vector<std::vector<Sig>> noise( c.N, std::vector<Sig>( kBands ) ); std::vector<std::pair<std::size_t, Late>> pending; std::size_t head = 0, probes = c.N * kBands, length = 0; rig::Block out; long const total = static_cast<long>( probes ) + g.range( 5, 40 );
  std::vector<std::pair<std::size_t, std::size_t>> order; for( std::size_t o = 0; o < c.N; ++o ) for( std::size_t b = 0; b < kBands; ++b ) order.emplace_back( o, b ); g.shuffle( order );
  while( head < static_cast<std::size_t>( total ) )
  {
    for( std::size_t k = g.index( 8 ); k > 0 && pending.size() < static_cast<std::size_t>( total ); --k )
    {
      std::size_t const n = pending.size(); std::size_t const o = n < probes ? order[n].first : g.index( c.N ); Late const l = n < probes ? probe( order[n].second ) : lateIn( g, c ); pending.emplace_back( o, l ); Source s; s.late = l; rg->send( "subbandInput", reverbobject::LateReverbParameter( o, object( s ).lateReverb() ) );
    }
    if( !rg->process( {}, out ) ) { r.viol( "filter_processing", log + ": " + rg->error ); return; }
    std::size_t const due = std::min( limit == 0 ? c.N : limit, pending.size() - head ); auto & q = rg->mqOut( "lateFilterOutput" ); std::size_t got = 0;
    for( ; !q.empty(); q.pop(), ++got, ++head )
    {
      auto const & m = dynamic_cast<IndexedFilter const &>( q.front() ); r.event(); std::vector<float> const & v = m.value(); if( head >= pending.size() || m.index() != pending[head].first ) { r.viol( "filter_order", vh::cat( log, ": update ", head, " is for object ", m.index() ) ); return; }
      if( length == 0 ) { length = v.size(); if( length < c.F || length > c.F + 1 ) { r.viol( "filter_length", vh::cat( log, ": ", length ) ); return; } } if( v.size() != length ) { r.viol( "filter_length", vh::cat( log, ": ", v.size(), " after ", length ) ); return; }
      Late const & l = pending[head].second; if( head < probes ) { noise[m.index()][order[head].second].assign( v.begin(), v.end() ); continue; }
      Sig e( length, 0 ), mag( length, 1e-12 ); for( std::size_t b = 0; b < kBands; ++b ) { Sig const env = envelope( l, b, length, static_cast<double>( c.fs ) ); for( std::size_t n = 0; n < length; ++n ) { e[n] += env[n] * noise[m.index()][b][n]; mag[n] += std::fabs( env[n] * noise[m.index()][b][n] ); } }
      for( std::size_t n = 0; n < length; ++n ) if( !( std::fabs( v[n] - e[n] ) <= 2e-4 * mag[n] ) ) { Source s; s.late = l; r.viol( "late_filter", vh::cat( log, ": ", str( s ), " object ", m.index(), " tap ", n, ": ", v[n], ", expected ", e[n] ) ); return; }
      r.count( "late filters" );
    }
    if( got != due ) { r.viol( "filter_updates", vh::cat( log, ": ", got, " filters, expected ", due ) ); return; }
  }
  // The noise: present in every band, different for every object, confined to its band.
  for( std::size_t o = 0; o < c.N && length >= 1500; ++o )
  {
    double low = 0, high = 0; std::vector<double> const & t = noise[o][kBands - 1]; for( std::size_t n = 1; n < length; ++n ) { low += std::pow( t[n] + t[n - 1], 2 ); high += std::pow( t[n] - t[n - 1], 2 ); } r.event(); if( !( high > 3 * low ) ) { r.viol( "band", vh::cat( log, ": highest band of object ", o, " is not high-pass: ", low, " ", high ) ); return; }
    for( std::size_t p = 0; p < o; ++p ) { double xy = 0, xx = 0, yy = 0; for( std::size_t n = 0; n < length; ++n ) { xy += t[n] * noise[p][kBands - 1][n]; xx += t[n] * t[n]; yy += std::pow( noise[p][kBands - 1][n], 2 ); } r.event(); if( !( std::fabs( xy ) < 0.5 * std::sqrt( xx * yy ) ) ) { r.viol( "noise_correlated", vh::cat( log, ": objects ", p, " and ", o, ": ", xy / std::sqrt( xx * yy ) ) ); return; } r.count( "noise pairs" ); }
    double prev = 0; for( std::size_t b = 4; b < kBands; ++b ) { double d = 0, e = 0; for( std::size_t n = 1; n < length; ++n ) { d += std::pow( noise[o][b][n] - noise[o][b][n - 1], 2 ); e += std::pow( noise[o][b][n], 2 ); } r.event(); if( !( d / e > prev * 1.2 ) ) { r.viol( "band_order", vh::cat( log, ": object ", o, " band ", b, ": ", d / e, " after ", prev ) ); return; } prev = d / e; }
  }
  r.nontrivial( log );
}
// ---------------------------------------------------------------- whole renderer
static void wav( std::string const & file, std::vector<std::vector<float>> const & rows, std::size_t fs )
{
  std::ofstream o( file, std::ios::binary ); auto u32 = [&]( std::uint32_t v ) { o.write( reinterpret_cast<char const *>( &v ), 4 ); }; auto u16 = [&]( std::uint16_t v ) { o.write( reinterpret_cast<char const *>( &v ), 2 ); }; std::size_t const n = rows[0].size(), ch = rows.size();
  o << "RIFF"; u32( static_cast<std::uint32_t>( 36 + 4 * n * ch ) ); o << "WAVEfmt "; u32( 16 ); u16( 3 ); u16( static_cast<std::uint16_t>( ch ) ); u32( static_cast<std::uint32_t>( fs ) ); u32( static_cast<std::uint32_t>( fs * ch * 4 ) ); u16( static_cast<std::uint16_t>( 4 * ch ) ); u16( 32 ); o << "data"; u32( static_cast<std::uint32_t>( 4 * n * ch ) );
  for( std::size_t t = 0; t < n; ++t ) for( auto const & v : rows ) o.write( reinterpret_cast<char const *>( &v[t] ), 4 );
}
static double at( Sig const & v, long i ) { return i < 0 || i >= static_cast<long>( v.size() ) ? 0 : v[static_cast<std::size_t>( i )]; }
// Third-order interpolation of a signal delayed by a number of samples; at least the 1.5 samples that the interpolation needs.
static Sig delayed( Sig const & x, double d )
{
  d = std::max( d, 1.5 ); Sig y( x.size() );
  for( std::size_t n = 0; n < x.size(); ++n )
  {
    double const T = static_cast<double>( n ) - d; long const base = static_cast<long>( std::floor( T ) ) - 1; double v = 0; for( int k = 0; k < 4; ++k ) { double w = 1; for( int j = 0; j < 4; ++j ) if( j != k ) w *= ( T - static_cast<double>( base + j ) ) / ( k - j ); v += w * at( x, base + k ); }
    y[n] = v;
  }
  return y;
}
static Sig filtered( Sig x, Bq const & c ) { double s1 = 0, s2 = 0; for( auto & v : x ) { double const y = c[0] * v + s1; s1 = c[1] * v - c[3] * y + s2; s2 = c[2] * v - c[4] * y; v = y; } return x; }
// Least squares solution n of y = h * n.
static Sig deconvolved( Sig const & y, Sig const & h, std::size_t F )
{
  std::vector<Sig> A( F, Sig( F, 0 ) ); Sig b( F, 0 ); std::size_t const H = h.size();
  for( std::size_t i = 0; i < F; ++i ) { for( std::size_t k = 0; k < H; ++k ) b[i] += h[k] * at( y, static_cast<long>( i + k ) ); for( std::size_t j = 0; j <= i && i - j < H; ++j ) {} for( std::size_t j = 0; j < F; ++j ) { long const lag = std::labs( static_cast<long>( i ) - static_cast<long>( j ) ); double v = 0; for( std::size_t k = 0; k + static_cast<std::size_t>( lag ) < H; ++k ) v += h[k] * h[k + static_cast<std::size_t>( lag )]; A[i][j] = v; } }
  for( std::size_t j = 0; j < F; ++j ) { std::size_t const lo = j > H ? j - H : 0; double d = A[j][j]; for( std::size_t k = lo; k < j; ++k ) d -= A[j][k] * A[j][k]; A[j][j] = std::sqrt( d ); for( std::size_t i = j + 1; i < std::min( F, j + H ); ++i ) { double v = A[i][j]; for( std::size_t k = lo; k < j; ++k ) v -= A[i][k] * A[j][k]; A[i][j] = v / A[j][j]; } for( std::size_t i = j + H; i < F; ++i ) A[i][j] = 0; }
  for( std::size_t i = 0; i < F; ++i ) { for( std::size_t k = i > H ? i - H : 0; k < i; ++k ) b[i] -= A[i][k] * b[k]; b[i] /= A[i][i]; }
  for( std::size_t i = F; i-- > 0; ) { for( std::size_t k = i + 1; k < std::min( F, i + H ); ++k ) b[i] -= A[k][i] * b[k]; b[i] /= A[i][i]; }
  return b;
}
struct Player
{
  rig::Rig & rg; Setup const & c; std::size_t O; std::string error;
  bool play( std::vector<Sig> const & in, std::vector<Sig> * out ) // whole blocks
  {
    std::size_t const n = in[0].size(); if( out ) out->assign( O, Sig() ); rig::Block x( in.size(), std::vector<float>( c.B ) ), y;
    for( std::size_t t = 0; t < n; t += c.B ) { for( std::size_t i = 0; i < in.size(); ++i ) for( std::size_t k = 0; k < c.B; ++k ) x[i][k] = static_cast<float>( in[i][t + k] ); if( !rg.process( x, y ) ) { error = rg.error; return false; } if( out ) for( std::size_t o = 0; o < O; ++o ) ( *out )[o].insert( ( *out )[o].end(), y[o].begin(), y[o].end() ); }
    return true;
  }
  std::size_t whole( std::size_t n ) const { return ( n + c.B - 1 ) / c.B * c.B; }
  bool silence( std::size_t n ) { return play( std::vector<Sig>( c.I, Sig( whole( n ), 0 ) ), nullptr ); }
};
static Sig early( Source const & s, Geometry const & geo, Sig const & x, double fs, std::size_t loudspeaker, double & mag )
{
  Sig y( x.size(), 0 );
  for( auto const & f : s.refl )
  {
    double const p = powered( candidates( geo, unit( f.pos ), 1e-6 )[0].g )[loudspeaker]; if( p == 0 ) continue; Sig v = delayed( x, static_cast<double>( f.delay ) * fs ); for( auto & e : v ) e *= f.level; for( auto const & q : f.eq ) { v = filtered( v, q ); for( double e : v ) mag = std::max( mag, std::fabs( e ) ); }
    for( std::size_t n = 0; n < y.size(); ++n ) { y[n] += p * v[n]; mag = std::max( mag, std::fabs( v[n] ) ); }
  }
  return y;
}
static void whole( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ); Geometry const geo = geometry( ar.a, V{ { 0, 0, 0 } } ); if( geo.det < 0.05 ) { r.count( "arrays given up" ); return; } std::size_t const L = ar.m.reg.size();
  Setup c; c.fs = g.pick( { std::size_t( 48000 ), std::size_t( 44100 ) } ); double const fs = static_cast<double>( c.fs ); c.B = g.pick( { std::size_t( 16 ), std::size_t( 32 ), std::size_t( 64 ) } ); c.N = g.index( 4 ); c.R = g.index( 4 ); c.I = std::max<std::size_t>( 1, c.N ) + g.index( 3 ); bool const calibrate = g.chance( 0.15 );
  c.F = static_cast<std::size_t>( calibrate ? 1500 : g.range( 2, 60 ) ); c.maxDelay = static_cast<float>( g.uni( 8, 400 ) / fs ); double const fade = g.chance( 0.3 ) ? 0 : g.uni( 1, 200 ) / fs; std::size_t const limit = g.index( 4 ); bool const file = !calibrate || g.chance( 0.6 ); bool const gainGiven = g.chance( 0.5 ); double const dB = std::floor( g.uni( -12, 6 ) ), dg = gainGiven ? std::pow( 10., dB / 20 ) : 1 / std::sqrt( static_cast<double>( L ) );
  std::string json = "{"; bool any = false; auto key = [&]( char const * k, std::string const & v ) { json += ( any ? ", " : " " ) + vh::cat( "\"", k, "\": ", v ); any = true; }; auto number = []( double v ) { char b[40]; std::snprintf( b, 40, "%.9g", v ); return std::string( b ); };
  if( c.N || g.chance( 0.5 ) ) key( "numReverbObjects", vh::cat( c.N ) ); if( c.R || g.chance( 0.5 ) ) key( "discreteReflectionsPerObject", vh::cat( c.R ) ); key( "lateReverbFilterLength", number( static_cast<double>( c.F ) / fs ) ); key( "maxDiscreteReflectionDelay", number( c.maxDelay ) ); key( "lateReverbCrossfadeTime", number( fade ) ); if( limit != 1 || g.chance( 0.5 ) ) key( "lateReverbFilterUpdatesPerPeriod", vh::cat( limit ) ); if( gainGiven ) key( "lateReverbDecorrelationGain", number( dB ) );
  std::vector<std::vector<float>> taps; std::size_t const D = static_cast<std::size_t>( g.range( 1, 30 ) ); std::string const name = vh::cat( r.scratch, "/decorrelation_", ::getpid(), ".wav" ); bool few = false; std::vector<std::size_t> tap( L ); std::size_t best = 0;
  if( file )
  {
    std::size_t rows = L + ( g.chance( 0.3 ) ? g.index( 3 ) : 0 ); few = g.chance( 0.04 ); if( few ) rows = 1 + g.index( L ) - 0; few = rows < L; for( std::size_t l = 0; l < rows; ++l ) { taps.emplace_back( D, 0.f ); std::size_t const t = g.index( D ); taps[l][t] = static_cast<float>( g.uni( 0.2, 1 ) ); if( l < L ) { tap[l] = t; if( taps[l][t] > taps[best][tap[best]] ) best = l; } } wav( name, taps, c.fs ); key( "lateReverbDecorrelationFilters", "\"" + name + "\"" );
  }
  json += " }"; std::string log = vh::cat( ar.m.xml, ": ", L, " loudspeakers, ", c.I, " inputs, period ", c.B, ", rate ", c.fs, ", config ", json ); SignalFlowContext ctx( c.B, c.fs );
  if( g.chance( 0.04 ) )
  {
    std::string bad = json; switch( g.index( 3 ) ) { case 0: bad.pop_back(); break; case 1: bad = "numReverbObjects"; break; default: bad = "{ \"numReverbObjects\": 1, \"lateReverbDecorrelationFilters\": \"" + name + ".none\" }"; } bool refused = false; try { reverbobject::ReverbObjectRenderer x( ctx, "rev", nullptr, bad, ar.a, c.I ); } catch( std::exception const & ) { refused = true; }
    r.event(); if( !refused ) { r.viol( "bad_configuration", bad ); return; } r.count( "inadmissible configurations refused" ); if( file ) ::unlink( name.c_str() ); return;
  }
  std::unique_ptr<reverbobject::ReverbObjectRenderer> rev; std::unique_ptr<rig::Rig> rg; bool refused = false; std::string why;
  try { rev.reset( new reverbobject::ReverbObjectRenderer( ctx, "rev", nullptr, json, ar.a, c.I ) ); rg.reset( new rig::Rig( *rev ) ); } catch( std::exception const & e ) { refused = true; why = e.what(); }
  if( file ) ::unlink( name.c_str() ); if( few ) { r.event(); if( !refused ) r.viol( "few_decorrelators", log ); r.count( "inadmissible configurations refused" ); return; } if( refused ) { r.viol( vh::cat( "construction", c.N ? "" : "_no_objects", c.R ? "" : "_no_reflections" ), log + ": " + why ); return; }
  Player p{ *rg, c, L, "" }; std::size_t const tail = c.F + 1 + 4 + ( file ? D : 512 ), settle = static_cast<std::size_t>( std::ceil( fade * fs ) ) + ( ( limit == 0 ? 1 : c.N ) + 4 ) * c.B + 2 * c.B + tail + static_cast<std::size_t>( c.maxDelay * fs ) + 400;
  // Probe the noise of every channel and band.
  std::vector<std::vector<Sig>> noise( c.N, std::vector<Sig>( kBands ) ); Sig const h{ -0.0625, 0.5625, 0.5625, -0.0625 }; std::vector<Sig> energies( c.N, Sig( L, 0 ) );
  std::map<unsigned, std::size_t> id2ch; std::vector<Source> probes; for( std::size_t k = 0; k < c.N; ++k ) { Source s; s.id = static_cast<unsigned>( 10 * k + 3 ); s.ch = k; s.late = Late(); probes.push_back( s ); }
  for( std::size_t b = calibrate ? kBands - 1 : 0; b < kBands && c.N; ++b )
  {
    for( auto & s : probes ) s.late = probe( b ); publish( *rg, "objectIn", probes ); if( !p.silence( settle ) ) { r.viol( "processing", log + ": " + p.error ); return; }
    for( std::size_t k = 0; k < c.N; ++k )
    {
      std::vector<Sig> in( c.I, Sig( p.whole( tail ), 0 ) ), out; in[k][0] = 1; if( !p.play( in, &out ) ) { r.viol( "processing", log + ": " + p.error ); return; }
      if( !file || calibrate )
      {
        for( std::size_t l = 0; l < L; ++l ) for( double v : out[l] ) energies[k][l] += v * v; if( file ) continue;
        continue;
      }
      Sig y( c.F + 4, 0 ); for( std::size_t n = 0; n < y.size(); ++n ) y[n] = at( out[best], static_cast<long>( n + tap[best] ) ) / ( dg * taps[best][tap[best]] ); noise[k][b] = deconvolved( y, h, c.F + 1 );
    }
  }
  if( calibrate && c.N )
  {
    // The energy of the late part against that of the filters of the same kind computed separately.
    reverbobject::LateReverbFilterCalculator calc( ctx, "calc", nullptr, 4, static_cast<float>( static_cast<double>( c.F ) / fs ), kBands, 0 ); rig::Rig cr( calc ); double e = 0; rig::Block none; for( std::size_t o = 0; o < 4; ++o ) { Source s; s.late = probe( kBands - 1 ); cr.send( "subbandInput", reverbobject::LateReverbParameter( o, object( s ).lateReverb() ) ); }
    if( !cr.process( {}, none ) ) { r.viol( "filter_processing", log ); return; } auto & q = cr.mqOut( "lateFilterOutput" ); for( ; !q.empty(); q.pop() ) { Sig x; for( float v : dynamic_cast<IndexedFilter const &>( q.front() ).value() ) x.push_back( v ); Sig y( x.size() + 3, 0 ); for( std::size_t n = 0; n < y.size(); ++n ) for( std::size_t k = 0; k < 4; ++k ) y[n] += h[k] * at( x, static_cast<long>( n ) - static_cast<long>( k ) ); for( double v : y ) e += v * v / 4; }
    for( std::size_t k = 0; k < c.N; ++k ) for( std::size_t l = 0; l < L; ++l ) { double const ratio = energies[k][l] / ( e * std::pow( dg * ( file ? taps[l][tap[l]] : 1 ), 2 ) ); r.event(); if( !( ratio > 0.5 && ratio < 2 ) ) { r.viol( file ? "late_energy_file" : "late_energy_default", vh::cat( log, ": channel ", k, " loudspeaker ", l, ": energy is ", ratio, " times the expected one" ) ); return; } r.count( "late energies" ); }
    r.count( file ? "energies with decorrelation filters from a file" : "energies with default decorrelation" ); r.nontrivial( log ); return;
  }
  // Scenes.
  std::vector<Source> sc = probes; for( auto & s : sc ) { s.late = lateIn( g, c ); } std::vector<std::map<unsigned, std::size_t>> could( 1 ); for( std::size_t k = 0; k < c.N; ++k ) could[0][probes[k].id] = k; // assignments of objects to channels that agree with everything heard
  { Geometry const & ge = geo; for( auto & s : sc ) if( !source( g, c, ge, s ) ) { r.count( "scenes given up" ); return; } }
  for( long phase = 0, phases = g.range( 1, 5 ); phase < phases; ++phase )
  {
    if( phase && !scene( g, c, geo, sc ) ) { r.count( "scenes given up" ); return; } log += vh::cat( "; scene", phase ); for( auto const & s : sc ) log += str( s ); publish( *rg, "objectIn", sc, &g, c.I ); if( !p.silence( settle ) ) { r.viol( "processing", log + ": " + p.error ); return; }
    std::size_t const T = p.whole( static_cast<std::size_t>( g.range( 20, 700 ) ) ); std::vector<Sig> in( c.I, Sig( T ) ), out; for( auto & v : in ) { auto const f = g.chance( 0.2 ) ? std::vector<float>( T, 0.f ) : rig::signal( g, T ); for( std::size_t n = 0; n < T; ++n ) v[n] = f[n]; } if( !p.play( in, &out ) ) { r.viol( "processing", log + ": " + p.error ); return; }
    double mag = 0.01; std::vector<Sig> want( L, Sig( T, 0 ) ); for( auto const & s : sc ) for( std::size_t l = 0; l < L; ++l ) { Sig const e = early( s, geo, in[s.ch], fs, l, mag ); for( std::size_t n = 0; n < T; ++n ) want[l][n] += e[n]; }
    // Late parts for each object in each channel.
    std::map<unsigned, std::vector<Sig>> late; for( auto const & s : sc ) for( std::size_t k = 0; k < c.N; ++k ) { Sig f( c.F + 1, 0 ); for( std::size_t b = 0; b < kBands; ++b ) { Sig const e = envelope( s.late, b, c.F + 1, fs ); for( std::size_t n = 0; n < f.size(); ++n ) f[n] += e[n] * noise[k][b][n]; } Sig const x = delayed( in[s.ch], 0 ); Sig y( T, 0 ); for( std::size_t n = 0; n < T; ++n ) { double v = 0, m = 0; for( std::size_t t = 0; t < f.size() && t <= n; ++t ) { v += f[t] * x[n - t]; m += std::fabs( f[t] * x[n - t] ); } y[n] = v; mag = std::max( mag, m ); } late[s.id].push_back( y ); }
    std::vector<std::map<unsigned, std::size_t>> next; std::string wrong; double least = 1e300;
    for( auto const & a : could )
    {
      std::vector<std::map<unsigned, std::size_t>> ext( 1 ); for( auto const & s : sc ) { auto const f = a.find( s.id ); if( f != a.end() ) ext[0][s.id] = f->second; }
      for( auto const & s : sc ) if( !a.count( s.id ) ) { std::vector<std::map<unsigned, std::size_t>> more; for( auto const & e : ext ) for( std::size_t k = 0; k < c.N; ++k ) { bool used = false; for( auto const & u : e ) if( u.second == k ) used = true; if( !used ) { more.push_back( e ); more.back()[s.id] = k; } } ext = more; }
      for( auto const & e : ext )
      {
        double worst = 0; std::string where; for( std::size_t l = 0; l < L; ++l ) for( std::size_t n = 0; n < T; ++n ) { double v = want[l][n]; if( file ) for( auto const & s : sc ) v += dg * taps[l][tap[l]] * at( late[s.id][e.at( s.id )], static_cast<long>( n ) - static_cast<long>( tap[l] ) ); double const d = std::fabs( out[l][n] - v ); if( !( d <= worst ) ) { worst = std::isnan( d ) ? 1e300 : d; where = vh::cat( "loudspeaker ", l, " sample ", n, ": ", out[l][n], ", expected ", v ); } }
        if( worst <= 1e-3 * mag ) { if( std::find( next.begin(), next.end(), e ) == next.end() ) next.push_back( e ); } else if( worst < least ) { least = worst; wrong = where; }
      }
    }
    r.event( static_cast<long>( L * T ) ); if( next.empty() ) { r.viol( vh::cat( "output", c.R ? "" : "_late", fade > 0 ? "" : "_nofade" ), vh::cat( log, " magnitude ", mag, ": ", wrong ) ); return; } could = next; r.count( "scenes rendered" ); r.count( "objects rendered", static_cast<long>( sc.size() ) );
  }
  r.nontrivial( log );
}
// ---------------------------------------------------------------- within a complete renderer
static void core( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ); while( ar.m.eqs ) ar = ArrayRun( g ); Geometry const geo = geometry( ar.a, V{ { 0, 0, 0 } } ); if( geo.det < 0.05 ) { r.count( "arrays given up" ); return; } std::size_t const L = ar.m.reg.size(); Setup c; double const fs = 48000; c.B = 32; c.N = static_cast<std::size_t>( g.range( 1, 3 ) ); c.R = static_cast<std::size_t>( g.range( 1, 3 ) ); c.I = c.N + g.index( 3 ); c.maxDelay = 0.005; c.F = 30;
  std::size_t O = 0; for( auto const & s : ar.m.reg ) O = std::max( O, s.ch ); for( auto const & s : ar.m.subs ) O = std::max( O, s.ch ); std::size_t const sections = g.index( 3 ); bool const split = g.chance( 0.4 ); std::string const json = vh::cat( "{\"numReverbObjects\":", c.N, ",\"discreteReflectionsPerObject\":", c.R, ",\"maxDiscreteReflectionDelay\":0.005,\"lateReverbFilterLength\":", 30 / fs, ",\"lateReverbCrossfadeTime\":0.001}" );
  std::string log = vh::cat( ar.m.xml, ": core renderer, ", c.I, " inputs, ", sections, " sections", split ? ", two bands" : "", ", config ", json ); SignalFlowContext ctx( c.B, 48000 ); efl::BasicMatrix<float> fir( L, 1, cVectorAlignmentSamples ); fir.zeroFill(); std::unique_ptr<signalflows::CoreRenderer> with, without; std::unique_ptr<rig::Rig> a, b;
  try { with.reset( new signalflows::CoreRenderer( ctx, "a", nullptr, ar.a, c.I, O, c.B, fir, "", sections, json, split ) ); without.reset( new signalflows::CoreRenderer( ctx, "b", nullptr, ar.a, c.I, O, c.B, fir, "", sections, "", split ) ); a.reset( new rig::Rig( *with ) ); b.reset( new rig::Rig( *without ) ); } catch( std::exception const & e ) { r.viol( "core_construction", log + ": " + e.what() ); return; }
  Player pa{ *a, c, O, "" }, pb{ *b, c, O, "" }; std::vector<Source> sc; double far = 0; for( auto const & s : ar.m.reg ) far = std::max( far, s.delay ); for( auto const & s : ar.m.subs ) far = std::max( far, s.delay );
  for( long phase = g.range( 1, 3 ); phase > 0; --phase )
  {
    if( !scene( g, c, geo, sc ) ) { r.count( "scenes given up" ); return; } bool const late = g.chance( 0.2 ); for( auto & s : sc ) { s.late = late ? probe( kBands - 1 ) : Late(); if( late ) { s.refl.clear(); s.level = 1; } }
    for( auto & s : sc ) log += str( s ); std::vector<std::vector<Bq>> eq( sc.size() );
    for( auto * x : { a.get(), b.get() } ) { auto & p = x->db<pml::ObjectVector>( "objectDataInput" ); auto & ov = dynamic_cast<pml::ObjectVector &>( p.data() ); ov.clear(); for( std::size_t k = 0; k < sc.size(); ++k ) { PointSourceWithReverb o = object( sc[k] ); if( sections ) { Rng q( vh::mix( r.seed + static_cast<std::uint64_t>( phase ), static_cast<std::uint64_t>( r.caseIdx ) * 16 + k ) ); std::size_t const cnt = q.index( sections + 1 ); eq[k].clear(); rbbl::ParametricIirCoefficientList<float> ps( cnt, rbbl::ParametricIirCoefficient<float>() ); for( std::size_t s = 0; s < cnt; ++s ) { float const f = static_cast<float>( q.uni( 300, 12000 ) ), Q = static_cast<float>( q.uni( 0.5, 3 ) ), dB = static_cast<float>( q.uni( -12, 12 ) ); double const A = std::pow( 10., dB / 40. ), w = 2 * M_PI * f / fs, al = std::sin( w ) / 2 / Q, a0 = 1 + al / A; ps[s] = rbbl::ParametricIirCoefficient<float>( rbbl::ParametricIirCoefficientBase::Type::peak, f, Q, dB ); eq[k].push_back( Bq{ { static_cast<float>( ( 1 + al * A ) / a0 ), static_cast<float>( -2 * std::cos( w ) / a0 ), static_cast<float>( ( 1 - al * A ) / a0 ), static_cast<float>( -2 * std::cos( w ) / a0 ), static_cast<float>( ( 1 - al / A ) / a0 ) } } ); } o.setEqCoefficients( ps ); } ov.insert( o ); } p.swapBuffers(); }
    std::size_t const flush = 1500 + static_cast<std::size_t>( far * fs ), T = pa.whole( static_cast<std::size_t>( g.range( 200, 500 ) ) + static_cast<std::size_t>( far * fs ) ); if( !pa.silence( flush ) || !pb.silence( flush ) ) { r.viol( "core_processing", log + ": " + pa.error + pb.error ); return; }
    std::vector<Sig> in( c.I, Sig( T ) ), x, y; for( auto & v : in ) { auto const f = rig::signal( g, T ); for( std::size_t n = 0; n < T; ++n ) v[n] = f[n]; } if( !pa.play( in, &x ) || !pb.play( in, &y ) ) { r.viol( "core_processing", log + ": " + pa.error + pb.error ); return; }
    double mag = 0.01; for( auto const & v : y ) for( double e : v ) mag = std::max( mag, std::fabs( e ) ); std::vector<Sig> sp( L, Sig( T, 0 ) );
    if( late ) { double e = 0, loud = 0; for( auto const & s : sc ) for( double v : in[s.ch] ) loud += v * v; for( std::size_t o = 0; o < O; ++o ) for( std::size_t n = 0; n < T; ++n ) e += std::pow( x[o][n] - y[o][n], 2 ); bool audible = false; for( auto const & s : ar.m.reg ) if( s.gain > 0.05 ) audible = true; r.event(); if( !sc.empty() && loud > 1 && audible && !( e > 1e-8 * loud ) ) { r.viol( "core_no_late_part", log ); return; } r.count( "late parts heard" ); continue; }
    for( std::size_t k = 0; k < sc.size(); ++k ) { Sig v = in[sc[k].ch]; for( double & e : v ) e *= sc[k].level; for( auto const & q : eq[k] ) v = filtered( v, q ); for( std::size_t l = 0; l < L; ++l ) { Sig const e = early( sc[k], geo, v, fs, l, mag ); for( std::size_t n = 0; n < T; ++n ) sp[l][n] += e[n]; } }
    auto check = [&]( Sig const & v, double gain, double delay, std::size_t ch ) { double const f = delay * fs - std::floor( delay * fs ); if( std::fabs( f - 0.5 ) < 0.02 ) { r.count( "undetermined delays" ); return true; } long const d = static_cast<long>( std::floor( delay * fs + 0.5 ) ); for( std::size_t n = 0; n < T; ++n ) { r.event(); double const e = gain * at( v, static_cast<long>( n ) - d ), is = x[ch - 1][n] - y[ch - 1][n]; if( !( std::fabs( is - e ) <= 1e-3 * mag * ( 1 + std::fabs( gain ) ) ) ) { r.viol( "core_output", vh::cat( log, ": channel ", ch, " sample ", n, ": reverberation is ", is, ", expected ", e ) ); return false; } } return true; };
    for( std::size_t l = 0; l < L; ++l ) if( !check( sp[l], ar.m.reg[l].gain, ar.m.reg[l].delay, ar.m.reg[l].ch ) ) return;
    for( auto const & s : ar.m.subs ) { Sig v( T, 0 ); for( auto const & w : s.weights ) for( std::size_t n = 0; n < T; ++n ) v[n] += w.second * sp[w.first][n]; if( !check( v, s.gain, s.delay, s.ch ) ) return; }
    r.count( "core renderings" );
  }
  r.nontrivial( log );
}
static void one( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), true ); (void)init; double const x = r.rng.uni();
  if( x < 0.4 ) parameters( r ); else if( x < 0.5 ) filters( r ); else if( x < 0.85 ) whole( r ); else core( r );
}
VH_MAIN( one )
