// LIBS: rrl pml rcl objectmodel rbbl visr efl
// C10: object scenes. Messages mean what their text says, a scene survives encoding and decoding, a refused message changes
// nothing, and object vectors behave as maps from id to independent objects.
#include "rig.hpp"
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/object_factory.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/object_vector_parser.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source_extent.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libobjectmodel/point_source_with_reverb.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/string_parameter.hpp>
#include <librcl/scene_decoder.hpp>
#include <librcl/scene_encoder.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <iostream>
#include <limits>
using namespace visr;
namespace om = visr::objectmodel;
using vh::Rng;
using IirBase = rbbl::ParametricIirCoefficientBase;

// ---------------------------------------------------------------- model of an object
struct Eq { int type; float f, q, gain; };
struct Refl { float x, y, z, delay, level; std::vector<std::array<float, 5>> biq; };
struct Obj
{
  om::ObjectTypeId t = om::ObjectTypeId::PointSource;
  unsigned id = 0, group = 0, priority = 0; float level = 0;
  std::vector<unsigned> ch; std::vector<Eq> eq;
  float x = 0, y = 0, z = 0, lock = 0, az = 0, el = 0, ref = 0, diff = 0, w = 0, h = 0, d = 0;
  unsigned order = 0;
  std::vector<std::vector<std::string>> out;
  std::vector<Refl> refl; float onset = 0; std::array<float, 9> lev{}, att{}, dec{};
};
using Scene = std::map<unsigned, Obj>;
using T = om::ObjectTypeId;
static std::vector<T> const kTypes{ T::PointSource, T::PointSourceExtent, T::PlaneWave, T::DiffuseSource, T::PointSourceWithDiffuseness, T::HoaSource, T::ChannelObject, T::PointSourceWithReverb };
static char const * typeName( T t )
{
  switch( t )
  {
  case T::PointSource: return "point"; case T::PointSourceExtent: return "pointextent"; case T::PlaneWave: return "plane"; case T::DiffuseSource: return "diffuse";
  case T::PointSourceWithDiffuseness: return "pointdiffuse"; case T::HoaSource: return "hoa"; case T::ChannelObject: return "channel"; case T::PointSourceWithReverb: return "pointreverb"; default: return "?";
  }
}
static char const * const kEqName[] = { "lowpass", "highpass", "bandpass", "bandstop", "highshelf", "lowshelf", "peak", "allpass" };
static IirBase::Type const kEqType[] = { IirBase::Type::lowpass, IirBase::Type::highpass, IirBase::Type::bandpass, IirBase::Type::bandstop, IirBase::Type::highshelf, IirBase::Type::lowshelf, IirBase::Type::peak, IirBase::Type::allpass };
static bool isPoint( T t ) { return t == T::PointSource || t == T::PointSourceExtent || t == T::PointSourceWithDiffuseness || t == T::PointSourceWithReverb; }

static float num( Rng & g )
{
  switch( g.index( 6 ) ) { case 0: return 0; case 1: return static_cast<float>( g.range( -5, 5 ) ); case 2: return static_cast<float>( g.uni( -1, 1 ) * 1e-5 ); case 3: return static_cast<float>( g.uni( -1, 1 ) * 1e6 ); default: return static_cast<float>( g.uni( -2, 2 ) ); }
}
static Obj randomObj( Rng & g, unsigned id )
{
  Obj o; o.t = g.pick( kTypes ); o.id = id; o.group = g.chance( 0.2 ) ? static_cast<unsigned>( g.next() ) : static_cast<unsigned>( g.index( 5 ) ); o.priority = static_cast<unsigned>( g.chance( 0.5 ) ? g.index( 10 ) : g.index( 256 ) );
  o.level = std::abs( num( g ) );
  std::size_t n = g.chance( 0.1 ) ? 0 : 1 + g.index( 4 );
  if( o.t == T::HoaSource ) { o.order = static_cast<unsigned>( g.index( 4 ) ); n = ( o.order + 1 ) * ( o.order + 1 ); }
  if( g.chance( 0.4 ) ) { unsigned const s = static_cast<unsigned>( g.index( 100 ) ); for( std::size_t i = 0; i < n; ++i ) o.ch.push_back( s + static_cast<unsigned>( i ) ); }
  else for( std::size_t i = 0; i < n; ++i ) o.ch.push_back( static_cast<unsigned>( g.chance( 0.05 ) ? 0x7fffffff : g.index( 200 ) ) );
  if( g.chance( 0.3 ) ) for( std::size_t i = 0, k = 1 + g.index( 3 ); i < k; ++i ) o.eq.push_back( Eq{ static_cast<int>( g.index( 8 ) ), static_cast<float>( g.uni( 20, 20000 ) ), static_cast<float>( g.uni( 0.1, 5 ) ), g.chance( 0.4 ) ? 0.f : static_cast<float>( g.uni( -20, 20 ) ) } );
  if( isPoint( o.t ) ) { o.x = num( g ); o.y = num( g ); o.z = num( g ); if( g.chance( 0.2 ) ) o.lock = g.chance( 0.3 ) ? std::numeric_limits<float>::infinity() : static_cast<float>( g.uni( 0.1, 200 ) ); }
  if( o.t == T::PlaneWave ) { o.az = static_cast<float>( g.uni( -360, 360 ) ); o.el = static_cast<float>( g.uni( -90, 90 ) ); o.ref = std::abs( num( g ) ); }
  if( o.t == T::PointSourceWithDiffuseness || o.t == T::PointSourceExtent || o.t == T::ChannelObject ) o.diff = g.chance( 0.3 ) ? 0.f : static_cast<float>( g.uni( 0, 1 ) );
  if( o.t == T::PointSourceExtent ) { o.w = std::abs( num( g ) ); o.h = std::abs( num( g ) ); o.d = g.chance( 0.5 ) ? 0.f : std::abs( num( g ) ); }
  if( o.t == T::ChannelObject ) for( std::size_t i = 0; i < n; ++i )
  {
    std::vector<std::string> l; std::size_t const k = g.chance( 0.7 ) ? 1 : g.index( 4 );
    for( std::size_t j = 0; j < k; ++j ) { std::string s; for( std::size_t m = 0, e = 1 + g.index( 6 ); m < e; ++m ) s += g.pick( { 'a', 'M', '0', '9', '@', '_', 'Z', '3', 'z' } ); l.push_back( s ); }
    o.out.push_back( l );
  }
  if( o.t == T::PointSourceWithReverb )
  {
    for( std::size_t i = 0, k = g.chance( 0.3 ) ? 0 : g.index( 5 ); i < k; ++i )
    {
      Refl r{ num( g ), num( g ), num( g ), std::abs( num( g ) ), std::abs( num( g ) ), {} };
      for( std::size_t j = 0, m = g.index( 11 ); j < m; ++j ) { std::array<float, 5> b; for( auto & v : b ) v = num( g ); r.biq.push_back( b ); }
      o.refl.push_back( r );
    }
    o.onset = std::abs( num( g ) );
    for( auto * a : { &o.lev, &o.att, &o.dec } ) for( auto & v : *a ) v = num( g );
  }
  return o;
}

// ---------------------------------------------------------------- comparison of the real object with the model
static bool near( float a, float b, double rel ) { if( a == b || ( std::isnan( a ) && std::isnan( b ) ) ) return true; return std::abs( double( a ) - b ) <= rel * std::max( std::abs( double( a ) ), std::abs( double( b ) ) ) + 1e-37; }
struct Cmp
{
  std::string why; double tol;
  explicit Cmp( double tol ): tol( tol ) {}
  void f( char const * what, float got, float want, double t = -1 ) { if( why.empty() && !near( got, want, t < 0 ? tol : t ) ) why = vh::cat( what, " ", got, " instead of ", want ); }
  void a( char const * what, float got, float want, double abs ) { if( why.empty() && !( std::abs( double( got ) - want ) <= abs ) ) why = vh::cat( what, " ", got, " instead of ", want ); }
  template<class A, class B> void e( char const * what, A const & got, B const & want ) { if( why.empty() && !( got == want ) ) why = vh::cat( what, " ", got, " instead of ", want ); }
};
// posAbs: slack for positions that were given in spherical coordinates
static std::string diff( om::Object const & r, Obj const & m, double tol, double posAbs = 0 )
{
  Cmp c( tol );
  c.e( "type", static_cast<int>( r.type() ), static_cast<int>( m.t ) ); if( !c.why.empty() ) return c.why;
  c.e( "id", r.id(), m.id ); c.e( "group", r.groupId(), m.group ); c.e( "priority", static_cast<unsigned>( r.priority() ), m.priority ); c.f( "level", r.level(), m.level );
  c.e( "number of channels", r.numberOfChannels(), m.ch.size() ); if( !c.why.empty() ) return c.why;
  for( std::size_t i = 0; i < m.ch.size(); ++i ) c.e( "channel", r.channelIndex( i ), m.ch[i] );
  c.e( "number of eq sections", r.eqCoefficients().size(), m.eq.size() ); if( !c.why.empty() ) return c.why;
  for( std::size_t i = 0; i < m.eq.size(); ++i )
  {
    auto const & q = r.eqCoefficients()[i];
    c.e( "eq type", static_cast<int>( q.type() ), static_cast<int>( kEqType[m.eq[i].type] ) ); c.f( "eq frequency", q.frequency(), m.eq[i].f ); c.f( "eq quality", q.quality(), m.eq[i].q ); c.a( "eq gain", q.gain(), m.eq[i].gain, 2e-7 + tol * std::abs( m.eq[i].gain ) );
  }
  if( auto p = dynamic_cast<om::PointSource const *>( &r ) )
  {
    c.a( "x", p->x(), m.x, posAbs + tol * std::abs( m.x ) ); c.a( "y", p->y(), m.y, posAbs + tol * std::abs( m.y ) ); c.a( "z", p->z(), m.z, posAbs + tol * std::abs( m.z ) ); c.f( "channel lock distance", p->channelLockDistance(), m.lock );
    c.e( "channel lock", p->channelLock(), m.lock > 0 );
  }
  if( auto p = dynamic_cast<om::PlaneWave const *>( &r ) ) { c.f( "azimuth", p->incidenceAzimuth(), m.az ); c.f( "elevation", p->incidenceElevation(), m.el ); c.f( "reference distance", p->referenceDistance(), m.ref ); }
  if( auto p = dynamic_cast<om::PointSourceWithDiffuseness const *>( &r ) ) c.f( "diffuseness", p->diffuseness(), m.diff );
  if( auto p = dynamic_cast<om::PointSourceExtent const *>( &r ) ) { c.f( "width", p->width(), m.w ); c.f( "height", p->height(), m.h ); c.f( "depth", p->depth(), m.d ); }
  if( auto p = dynamic_cast<om::HoaSource const *>( &r ) ) c.e( "order", p->order(), m.order );
  if( auto p = dynamic_cast<om::ChannelObject const *>( &r ) )
  {
    c.f( "diffuseness", p->diffuseness(), m.diff ); c.e( "number of outputs", p->outputChannels().size(), m.out.size() ); if( !c.why.empty() ) return c.why;
    for( std::size_t i = 0; i < m.out.size(); ++i ) c.e( "output", vh::vec( p->outputChannel( i ) ), vh::vec( m.out[i] ) );
  }
  if( auto p = dynamic_cast<om::PointSourceWithReverb const *>( &r ) )
  {
    c.e( "number of reflections", p->numberOfDiscreteReflections(), m.refl.size() ); if( !c.why.empty() ) return c.why;
    for( std::size_t i = 0; i < m.refl.size(); ++i )
    {
      auto const & a = p->discreteReflection( i ); auto const & b = m.refl[i];
      c.f( "reflection x", a.positionX(), b.x ); c.f( "reflection y", a.positionY(), b.y ); c.f( "reflection z", a.positionZ(), b.z ); c.f( "reflection delay", a.delay(), b.delay ); c.f( "reflection level", a.level(), b.level );
      c.e( "number of reflection filters", a.reflectionFilters().size(), std::size_t( 10 ) ); if( !c.why.empty() ) return c.why;
      for( std::size_t j = 0; j < 10; ++j ) for( std::size_t k = 0; k < 5; ++k ) c.f( "reflection filter", a.reflectionFilter( j )[k], j < b.biq.size() ? b.biq[j][k] : ( k == 0 ? 1.f : 0.f ) );
    }
    c.f( "late onset", p->lateReverbOnset(), m.onset );
    for( std::size_t i = 0; i < 9; ++i ) { c.f( "late level", p->lateReverbLevels()[i], m.lev[i], 1e-5 ); c.f( "attack time", p->lateReverbAttackTimes()[i], m.att[i], 1e-5 ); c.f( "decay", p->lateReverbDecayCoeffs()[i], m.dec[i], 1e-5 ); }
  }
  return c.why;
}
static std::string diff( om::ObjectVector const & v, Scene const & s, double tol, double posAbs = 0 )
{
  if( v.size() != s.size() || v.empty() != s.empty() ) return vh::cat( "scene of ", v.size(), " objects instead of ", s.size() );
  auto it = s.begin();
  for( auto const & o : v )
  {
    if( it == s.end() ) return "more objects than the size says";
    std::string const d = diff( o, it->second, tol, posAbs ); if( !d.empty() ) return vh::cat( typeName( it->second.t ), " object ", it->first, ": ", d );
    ++it;
  }
  return it == s.end() ? "" : "fewer objects than the size says";
}

// ---------------------------------------------------------------- text of a message
struct Writer
{
  Rng & g; bool spherical = false;
  static std::string exact( float v ) { char b[64]; std::snprintf( b, 64, "%.9g", double( v ) ); return b; }
  std::string n( float v ) { std::string const s = exact( v ); return std::isinf( v ) || g.chance( 0.2 ) ? "\"" + s + "\"" : s; }
  std::string u( unsigned v ) { std::string const s = std::to_string( v ); return g.chance( 0.2 ) ? "\"" + s + "\"" : s; }
  std::string ws() { return g.chance( 0.8 ) ? "" : g.pick( { " ", "\n", "\t ", "  " } ); }
  using KV = std::vector<std::pair<std::string, std::string>>;
  std::string object( KV kv )
  {
    if( g.chance( 0.05 ) ) kv.emplace_back( "unknownAttribute", g.pick( { "1", "\"x\"", "{\"a\":2}", "[1,2]" } ) );
    g.shuffle( kv ); std::string s = "{";
    for( std::size_t i = 0; i < kv.size(); ++i ) s += ( i ? "," : "" ) + ws() + "\"" + kv[i].first + "\"" + ws() + ":" + ws() + kv[i].second;
    return s + ws() + "}";
  }
  std::string array( std::vector<std::string> const & v ) { std::string s = "["; for( std::size_t i = 0; i < v.size(); ++i ) s += ( i ? "," : "" ) + ws() + v[i]; return s + ws() + "]"; }
  std::string channels( std::vector<unsigned> const & c )
  {
    std::string s; std::size_t i = 0;
    while( i < c.size() )
    {
      if( i ) s += g.chance( 0.5 ) ? "," : ", ";
      std::size_t e = i; while( e + 1 < c.size() && c[e + 1] == c[e] + 1 ) ++e;
      if( e > i && g.chance( 0.7 ) ) { s += g.chance( 0.5 ) ? vh::cat( c[i], ":", c[e] ) : vh::cat( c[i], " : 1 : ", c[e] ); i = e + 1; }
      else s += std::to_string( c[i++] );
    }
    return "\"" + s + "\"";
  }
  std::string list( std::array<float, 9> const & a ) { std::string s; for( std::size_t i = 0; i < 9; ++i ) s += ( i ? ( g.chance( 0.5 ) ? "," : ", " ) : "" ) + exact( a[i] ); return "\"" + s + "\""; }
  std::string position( float x, float y, float z, bool sph )
  {
    if( !sph ) { KV p{ { "x", n( x ) }, { "y", n( y ) } }; if( z != 0 || g.chance( 0.5 ) ) p.emplace_back( "z", n( z ) ); return object( p ); }
    double const rad = std::sqrt( double( x ) * x + double( y ) * y + double( z ) * z ), deg = 180 / 3.14159265358979323846;
    return object( { { "az", n( static_cast<float>( std::atan2( double( y ), double( x ) ) * deg ) ) }, { "el", n( static_cast<float>( std::asin( rad > 0 ? z / rad : 0 ) * deg ) ) }, { "radius", n( static_cast<float>( rad ) ) } } );
  }
  KV fields( Obj const & o )
  {
    KV f{ { "type", vh::cat( "\"", typeName( o.t ), "\"" ) }, { "id", u( o.id ) }, { "group", u( o.group ) }, { "priority", u( o.priority ) }, { "level", n( o.level ) }, { "channels", channels( o.ch ) } };
    if( !o.eq.empty() || g.chance( 0.05 ) )
    {
      std::vector<std::string> l;
      for( auto const & e : o.eq ) { KV q{ { "type", vh::cat( "\"", kEqName[e.type], "\"" ) }, { "f", n( e.f ) }, { "q", n( e.q ) } }; if( e.gain != 0 || g.chance( 0.3 ) ) q.emplace_back( "gain", n( e.gain ) ); l.push_back( object( q ) ); }
      f.emplace_back( "eq", array( l ) );
    }
    if( isPoint( o.t ) ) { f.emplace_back( "position", position( o.x, o.y, o.z, spherical ) ); if( o.lock != 0 || g.chance( 0.1 ) ) f.emplace_back( "channelLock", n( o.lock ) ); }
    if( o.t == T::PlaneWave ) f.emplace_back( "direction", object( { { "az", n( o.az ) }, { "el", n( o.el ) }, { "refdist", n( o.ref ) } } ) );
    if( o.t == T::PointSourceWithDiffuseness || o.t == T::PointSourceExtent || ( o.t == T::ChannelObject && ( o.diff != 0 || g.chance( 0.5 ) ) ) ) f.emplace_back( "diffuseness", n( o.diff ) );
    if( o.t == T::PointSourceExtent ) { f.emplace_back( "width", n( o.w ) ); f.emplace_back( "height", n( o.h ) ); if( o.d != 0 || g.chance( 0.5 ) ) f.emplace_back( "depth", n( o.d ) ); }
    if( o.t == T::HoaSource ) f.emplace_back( "order", u( o.order ) );
    if( o.t == T::ChannelObject )
    {
      std::string s;
      for( std::size_t i = 0; i < o.out.size(); ++i )
      {
        if( i ) s += g.chance( 0.5 ) ? "," : ", ";
        if( o.out[i].size() == 1 && g.chance( 0.7 ) ) s += o.out[i][0];
        else { s += g.chance( 0.5 ) ? "[" : "[ "; for( std::size_t j = 0; j < o.out[i].size(); ++j ) s += ( j ? ", " : "" ) + o.out[i][j]; s += "]"; }
      }
      f.emplace_back( "outputChannels", "\"" + s + "\"" );
    }
    if( o.t == T::PointSourceWithReverb )
    {
      KV room; std::vector<std::string> l;
      for( auto const & r : o.refl )
      {
        std::vector<std::string> b;
        for( auto const & c : r.biq ) { KV q{ { "b0", n( c[0] ) }, { "b1", n( c[1] ) }, { "b2", n( c[2] ) }, { "a1", n( c[3] ) }, { "a2", n( c[4] ) } }; if( g.chance( 0.2 ) ) q.emplace_back( "a0", "1.0" ); b.push_back( object( q ) ); }
        l.push_back( object( { { "position", position( r.x, r.y, r.z, false ) }, { "delay", n( r.delay ) }, { "level", n( r.level ) }, { "biquadsos", array( b ) } } ) );
      }
      if( !l.empty() || g.chance( 0.5 ) ) room.emplace_back( "ereflect", array( l ) );
      room.emplace_back( "lreverb", object( { { "delay", n( o.onset ) }, { "level", list( o.lev ) }, { "attacktime", list( o.att ) }, { "decayconst", list( o.dec ) } } ) );
      f.emplace_back( "room", object( room ) );
    }
    return f;
  }
  std::string message( std::vector<std::string> const & objs ) { return ws() + object( { { "objects", array( objs ) } } ) + ws(); }
};
// One message whose application makes the objects appear in the scene, in order.
static std::string message( Writer & w, std::vector<Obj> const & objs ) { std::vector<std::string> l; for( auto const & o : objs ) l.push_back( w.object( w.fields( o ) ) ); return w.message( l ); }

// A message with at least one inadmissible object; the kind of defect is returned in what.
static std::string badMessage( Writer & w, std::vector<Obj> objs, std::string & what )
{
  Rng & g = w.g;
  std::size_t const k = g.index( objs.size() );
  std::vector<std::string> l;
  auto set = []( Writer::KV & f, std::string const & key, std::string const & v ) { for( auto & e : f ) if( e.first == key ) { e.second = v; return true; } return false; };
  auto drop = []( Writer::KV & f, std::string const & key ) { for( std::size_t i = 0; i < f.size(); ++i ) if( f[i].first == key ) { f.erase( f.begin() + static_cast<long>( i ) ); return true; } return false; };
  Obj & o = objs[k];
  for( std::size_t i = 0; i < objs.size(); ++i )
  {
    if( i != k ) { l.push_back( w.object( w.fields( objs[i] ) ) ); continue; }
    bool done = false; Writer::KV f;
    while( !done )
    {
      f = w.fields( o );
      switch( g.index( 17 ) )
      {
      case 0: { std::string const key = g.pick( { "type", "id", "group", "priority", "level" } ); done = drop( f, key ); what = "missing " + key; break; }
      case 1: { std::string const key = g.pick( { "id", "group", "priority", "level" } ); done = set( f, key, g.pick( { "\"abc\"", "\"\"", "\"1x\"", "{}", "[1]", "null", "true" } ) ); what = "no number: " + key; break; }
      case 2: done = set( f, "type", g.pick( { "\"unknown\"", "\"\"", "\"extended\"", "7", "\"Point\"" } ) ); what = "unknown type"; break;
      case 3: done = drop( f, "position" ); what = "missing position"; break;
      case 4: done = set( f, "position", g.pick( { "{}", "{\"x\":1}", "{\"y\":1,\"z\":2}", "{\"x\":1,\"y\":1,\"az\":3}", "{\"az\":1}", "{\"az\":1,\"radius\":2}", "{\"radius\":2}", "1", "{\"x\":\"a\",\"y\":1}", "{\"az\":1,\"el\":2,\"x\":1,\"y\":2}" } ) ); what = "incomplete position"; break;
      case 5: if( o.t == T::PlaneWave ) { done = set( f, "direction", g.pick( { "{}", "{\"az\":1,\"el\":2}", "{\"az\":1,\"refdist\":2}", "{\"el\":1,\"refdist\":2}", "{\"az\":\"x\",\"el\":1,\"refdist\":2}" } ) ); what = "incomplete direction"; } break;
      case 6: if( o.t == T::PointSourceExtent ) { std::string const key = g.pick( { "width", "height", "diffuseness" } ); done = drop( f, key ); what = "missing " + key; } break;
      case 7: if( o.t == T::HoaSource ) { done = set( f, "order", std::to_string( g.pick( { o.order + 1, o.order + 2, 65535u, 4294967295u, 65536u } ) ) ); what = "order not matching the channels"; } break;
      case 8: if( o.t == T::HoaSource && g.chance( 0.5 ) ) { done = set( f, "channels", "\"\"" ) && set( f, "order", g.pick( { "65535", "4294967295", "\"-1\"" } ) ); what = "huge order without channels"; } break;
      case 9: if( o.t == T::ChannelObject ) { std::string s; for( std::size_t j = 0; j < o.ch.size() + 1; ++j ) s += ( j ? ",a" : "a" ); done = set( f, "outputChannels", "\"" + s + "\"" ); what = "too many outputs"; } break;
      case 10: if( o.t == T::ChannelObject && o.ch.size() > 1 ) { done = set( f, "outputChannels", g.pick( { "\"a\"", "\"\"", "\"[a, b, c, d, e]\"" } ) ); what = "too few outputs"; } break;
      case 11: if( o.t == T::ChannelObject && !o.ch.empty() ) { done = g.chance( 0.5 ) ? drop( f, "outputChannels" ) : set( f, "outputChannels", g.pick( { "\"[a\"", "\"a,,b\"", "\"[a]]\"", "\"a;b\"", "\",\"" } ) ); what = "malformed outputs"; } break;
      case 12: if( o.t == T::PointSourceWithReverb ) { Obj p = o; p.refl.resize( std::max<std::size_t>( 1, p.refl.size() ), Refl{ 1, 0, 0, 0, 0, {} } ); p.refl[g.index( p.refl.size() )].biq.resize( 11 + g.index( 3 ) ); f = w.fields( p ); done = true; what = "too many reflection filters"; } break;
      case 13: if( o.t == T::PointSourceWithReverb ) { done = set( f, "room", g.pick( { "{}", "{\"lreverb\":{\"delay\":1,\"level\":\"1,2,3\",\"attacktime\":\"0,0,0,0,0,0,0,0,0\",\"decayconst\":\"0,0,0,0,0,0,0,0,0\"}}", "{\"lreverb\":{\"delay\":1,\"level\":\"0:7\",\"attacktime\":\"0,0,0,0,0,0,0,0,0\",\"decayconst\":\"0,0,0,0,0,0,0,0,0\"}}",
                 "{\"lreverb\":{\"delay\":1,\"level\":\"0:8\",\"attacktime\":\"0:0:8\",\"decayconst\":\"0:8\"}}", "{\"lreverb\":{\"delay\":1,\"level\":\"0:8\",\"attacktime\":\"0:8\",\"decayconst\":\"1e30:1e31\"}}", "{\"lreverb\":{\"delay\":1,\"level\":\"0:8\",\"attacktime\":\"16777216:1:16777220\",\"decayconst\":\"0:8\"}}",
                 "{\"lreverb\":{\"delay\":1,\"level\":\"0:8\",\"decayconst\":\"0:8\"}}", "{\"lreverb\":{\"level\":\"0:8\",\"attacktime\":\"0:8\",\"decayconst\":\"0:8\"}}", "{\"ereflect\":[{\"delay\":1,\"level\":1,\"biquadsos\":[]}],\"lreverb\":{\"delay\":1,\"level\":\"0:8\",\"attacktime\":\"0:8\",\"decayconst\":\"0:8\"}}" } ) ); what = "inadmissible room"; } break;
      case 14: { drop( f, "eq" ); f.emplace_back( "eq", g.pick( { "[{\"type\":\"lowpass\",\"f\":100}]", "[{\"type\":\"nothing\",\"f\":100,\"q\":1}]", "[{\"f\":100,\"q\":1}]", "[1]", "[{\"type\":\"peak\",\"f\":\"x\",\"q\":1}]", "[{\"type\":\"peak\",\"f\":1,\"q\":1},{\"type\":\"peak\",\"f\":1}]" } ) ); done = true; what = "inadmissible eq"; break; }
      case 15: done = set( f, "priority", g.pick( { "256", "1000", "-300", "\"x\"" } ) ); what = "priority out of range"; break;
      default: if( o.t == T::PointSourceWithDiffuseness ) { done = drop( f, "diffuseness" ); what = "missing diffuseness"; } break;
      }
    }
    l.push_back( w.object( f ) );
  }
  return w.message( l );
}
// A text that is no message at all.
static std::string brokenText( Writer & w, std::vector<Obj> const & objs )
{
  Rng & g = w.g;
  switch( g.index( 4 ) )
  {
  case 0: { std::string s = message( w, objs ); while( !s.empty() && std::strchr( " \n\t", s.back() ) ) s.pop_back(); return s.substr( 0, g.index( s.size() ) ); }
  case 1: return g.pick( { "", "{}", "[]", "1", "{\"object\":[]}", "{\"objects\":[1]}", "{\"objects\":[{}]}", "null", "{\"objects\":[[]]}" } );
  case 2: return message( w, objs ) + g.pick( { "}", "x", "{}", "]" } );
  default: { std::string s = message( w, objs ); std::size_t const p = s.find_last_of( '}' ); s[p] = ']'; return s; }
  }
}

static void applyTo( Scene & s, std::vector<Obj> const & l ) { for( auto const & o : l ) { s.erase( o.id ); s.emplace( o.id, o ); } }
static std::vector<Obj> someObjects( Rng & g, Scene const & s, std::size_t maxN )
{
  std::vector<Obj> l;
  for( std::size_t i = 0, n = g.index( maxN + 1 ); i < n; ++i )
  {
    unsigned id = g.chance( 0.1 ) ? static_cast<unsigned>( g.next() % 0xffffffffu ) : static_cast<unsigned>( g.index( 8 ) );
    if( !s.empty() && g.chance( 0.3 ) ) { auto it = s.begin(); std::advance( it, static_cast<long>( g.index( s.size() ) ) ); id = it->first; }
    Obj o = randomObj( g, id );
    if( s.count( id ) && g.chance( 0.5 ) ) { while( o.t != s.at( id ).t ) o = randomObj( g, id ); }
    l.push_back( o );
  }
  return l;
}

struct Silent { std::streambuf * b; std::ostringstream s; Silent(): b( std::cerr.rdbuf( s.rdbuf() ) ) {} ~Silent() { std::cerr.rdbuf( b ); if( std::getenv( "LOUD" ) ) std::cerr << s.str(); } };

static void history( vh::Run & r )
{
  Rng & g = r.rng; Silent silent;
  om::ObjectVector v; Scene s; double posAbs = 0; // slack of positions given in spherical coordinates
  int const n = 2 + static_cast<int>( g.index( 8 ) ); bool refused = false; std::size_t total = 0;
  for( int step = 0; step < n; ++step )
  {
    std::vector<Obj> l = someObjects( g, s, 4 ); std::string what; std::string text; bool bad = false, fill = g.chance( 0.15 );
    Writer w{ g }; total += l.size();
    switch( g.index( 6 ) )
    {
    case 0: if( !l.empty() ) { text = badMessage( w, l, what ); bad = true; break; } // fall through
    case 1: if( g.chance( 0.5 ) ) { text = brokenText( w, l ); what = "broken text"; bad = true; break; } // fall through
    case 2: if( g.chance( 0.3 ) ) { w.spherical = true; for( auto & o : l ) { o.x = static_cast<float>( g.uni( -3, 3 ) ); o.y = static_cast<float>( g.uni( -3, 3 ) ); o.z = static_cast<float>( g.uni( -3, 3 ) ); } posAbs = 1e-5; } // fall through
    default: text = message( w, l ); what = "valid";
    }
    std::string const ctx = vh::cat( "step ", step, " (", fill ? "fill, " : "update, ", what, ") ", text );
    bool threw = false; std::string err; r.event();
    try
    {
      if( fill ) switch( g.index( 3 ) ) { case 0: om::ObjectVectorParser::fillObjectVector( text, v ); break; case 1: om::ObjectVectorParser::fillObjectVector( text.c_str(), v ); break; default: { std::istringstream is( text ); om::ObjectVectorParser::fillObjectVector( is, v ); } }
      else switch( g.index( 3 ) ) { case 0: om::ObjectVectorParser::updateObjectVector( text, v ); break; case 1: om::ObjectVectorParser::updateObjectVector( text.c_str(), v ); break; default: { std::istringstream is( text ); om::ObjectVectorParser::updateObjectVector( is, v ); } }
    }
    catch( std::exception const & e ) { threw = true; err = e.what(); }
    if( threw != bad ) { r.viol( bad ? "scene:accepted" : "scene:refused", vh::cat( ctx, bad ? " was accepted" : " was refused: ", err ) ); return; }
    if( bad ) { r.count( "inadmissible messages refused" ); refused = true; } else { r.count( "messages decoded" ); if( fill ) s.clear(); applyTo( s, l ); }
    std::string const d = diff( v, s, 1e-6, posAbs ); r.event( static_cast<long>( s.size() ) + 1 );
    if( !d.empty() ) { r.viol( bad ? "scene:refused message had an effect" : "scene:decoded", vh::cat( d, " after ", ctx ) ); return; }
  }
  // encoding
  std::ostringstream os; r.event();
  try { om::ObjectVectorParser::encodeObjectVector( v, os ); }
  catch( std::exception const & e ) { r.viol( "scene:encode", vh::cat( "encoding failed: ", e.what() ) ); return; }
  om::ObjectVector back;
  try { om::ObjectVectorParser::fillObjectVector( os.str(), back ); }
  catch( std::exception const & e ) { r.viol( "scene:round trip refused", vh::cat( os.str(), ": ", e.what() ) ); return; }
  std::string const d = diff( back, s, 1e-6, posAbs ); if( !d.empty() ) r.viol( "scene:round trip", vh::cat( os.str(), ": ", d ) );
  r.count( "scenes encoded and decoded" ); r.count( "objects compared", static_cast<long>( s.size() ) );
  if( total > 1 ) r.nontrivial( vh::cat( "h", n, refused, s.size(), std::hash<std::string>()( os.str() ) ) );
  r.sample( vh::cat( n, " messages, ", s.size(), " objects, last encoding ", os.str().substr( 0, 300 ) ) );
}

// Mutated text: whatever happens, no crash; a refusal leaves the scene alone; what is accepted can be encoded and decoded again to the same text.
static void fuzz( vh::Run & r )
{
  Rng & g = r.rng; Silent silent; Writer w{ g };
  std::vector<Obj> l = someObjects( g, {}, 3 ); if( l.empty() ) l.push_back( randomObj( g, 1 ) );
  std::string t = message( w, l );
  for( int i = 0, n = static_cast<int>( g.index( 4 ) ); i < n && !t.empty(); ++i )
  {
    std::size_t const p = g.index( t.size() );
    switch( g.index( 5 ) )
    {
    case 0: t.erase( p, 1 + g.index( 8 ) ); break;
    case 1: t.insert( p, 1, static_cast<char>( 32 + g.index( 95 ) ) ); break;
    case 2: t[p] = static_cast<char>( 32 + g.index( 95 ) ); break;
    case 3: t[p] = static_cast<char>( 1 + g.index( 255 ) ); break;
    default: { std::size_t const q = g.index( t.size() ); t.insert( q, t.substr( p, 1 + g.index( 30 ) ) ); break; }
    }
  }
  // a range of more than a million entries is a legitimate, but expensive request
  for( std::size_t i = 0; i < t.size(); ++i ) if( t[i] == ':' ) { std::size_t k = i + 1; while( k < t.size() && ( t[k] == ' ' || t[k] == '+' || t[k] == '0' ) ) ++k; std::size_t e = k; while( e < t.size() && std::isdigit( static_cast<unsigned char>( t[e] ) ) ) ++e; if( e - k > 6 ) t.erase( k, e - k - 6 ); }
  if( g.chance( 0.7 ) && !t.empty() ) // replace a number by a hostile one
  {
    std::size_t a = t.find_first_of( "0123456789", g.index( t.size() ) );
    if( a != std::string::npos )
    {
      std::size_t b = a; while( b < t.size() && std::strchr( "0123456789.+-eE", t[b] ) ) ++b;
      t.replace( a, b - a, g.pick( { "-1", "0", "1e30", "1e-40", "-5", "65536", "4294967295", "4294967296", "99999999999999999999", "1:3", "3:1", "5:-1:0", "1:0:4", "1:2:3:4", "0:2147483647:2147483647", "nan", "inf", "-inf", "1e39", "0x10", "--1", "2147483648", "2147483640:3:2147483647", "5:-2147483648:0" } ) );
    }
  }
  om::ObjectVector v; om::ObjectVectorParser::updateObjectVector( message( w, { randomObj( g, 77 ) } ), v );
  std::ostringstream before; om::ObjectVectorParser::encodeObjectVector( v, before );
  bool threw = false; r.event();
  try { om::ObjectVectorParser::updateObjectVector( t, v ); }
  catch( std::exception const & ) { threw = true; }
  std::ostringstream after;
  try { om::ObjectVectorParser::encodeObjectVector( v, after ); } catch( std::exception const & e ) { r.viol( "fuzz:accepted scene cannot be encoded", vh::cat( t, ": ", e.what() ) ); return; }
  if( threw ) { r.count( "mutated messages refused" ); if( before.str() != after.str() ) r.viol( "scene:refused message had an effect", t ); return; }
  r.count( "mutated messages accepted" );
  bool invalidIndex = false; for( auto const & o : v ) for( std::size_t i = 0; i < o.numberOfChannels(); ++i ) invalidIndex = invalidIndex || o.channelIndex( i ) > 0x7fffffffu;
  if( invalidIndex ) { r.viol( "fuzz:channel index", vh::cat( t, ": ", after.str() ) ); return; }
  om::ObjectVector back; std::ostringstream again;
  try { om::ObjectVectorParser::fillObjectVector( after.str(), back ); om::ObjectVectorParser::encodeObjectVector( back, again ); }
  catch( std::exception const & e ) { r.viol( "fuzz:accepted scene cannot be decoded", vh::cat( t, " gives ", after.str(), ": ", e.what() ) ); return; }
  if( again.str() != after.str() ) r.viol( "fuzz:round trip", vh::cat( after.str(), " gives ", again.str() ) );
  r.nontrivial( vh::cat( "f", std::hash<std::string>()( t ) ) );
}

// ---------------------------------------------------------------- object vectors and objects
static std::unique_ptr<om::Object> real( Rng & g, Obj const & m )
{
  std::unique_ptr<om::Object> p = om::ObjectFactory::create( m.t, m.id );
  p->setGroupId( m.group ); p->setPriority( static_cast<om::Object::Priority>( m.priority ) ); p->setLevel( m.level ); p->resetNumberOfChannels( m.ch.size() );
  for( std::size_t i = 0; i < m.ch.size(); ++i ) p->setChannelIndex( i, m.ch[i] );
  rbbl::ParametricIirCoefficientList<float> eq; eq.resize( m.eq.size() ); for( std::size_t i = 0; i < m.eq.size(); ++i ) eq[i] = rbbl::ParametricIirCoefficient<float>( kEqType[m.eq[i].type], m.eq[i].f, m.eq[i].q, m.eq[i].gain );
  p->setEqCoefficients( eq );
  if( auto q = dynamic_cast<om::PointSource *>( p.get() ) ) { q->setX( m.x ); q->setY( m.y ); q->setZ( m.z ); if( std::isinf( m.lock ) ) q->setChannelLock(); else if( m.lock > 0 ) q->setChannelLock( m.lock ); else q->unsetChannelLock(); }
  if( auto q = dynamic_cast<om::PlaneWave *>( p.get() ) ) { q->setIncidenceAzimuth( m.az ); q->setIncidenceElevation( m.el ); q->setReferenceDistance( m.ref ); }
  if( auto q = dynamic_cast<om::PointSourceWithDiffuseness *>( p.get() ) ) q->setDiffuseness( m.diff );
  if( auto q = dynamic_cast<om::PointSourceExtent *>( p.get() ) ) { q->setWidth( m.w ); q->setHeight( m.h ); q->setDepth( m.d ); }
  if( auto q = dynamic_cast<om::HoaSource *>( p.get() ) ) q->setOrder( m.order );
  if( auto q = dynamic_cast<om::ChannelObject *>( p.get() ) )
  {
    q->setDiffuseness( m.diff ); bool single = true; for( auto const & o : m.out ) single = single && o.size() == 1;
    if( single && !m.out.empty() && g.chance( 0.5 ) ) { std::vector<std::string> flat; for( auto const & o : m.out ) flat.push_back( o[0] ); q->setOutputChannels( flat.data(), flat.size() ); } else q->setOutputChannels( m.out );
  }
  if( auto q = dynamic_cast<om::PointSourceWithReverb *>( p.get() ) )
  {
    q->setNumberOfDiscreteReflections( m.refl.size() );
    for( std::size_t i = 0; i < m.refl.size(); ++i )
    {
      auto & a = q->discreteReflection( i ); a.setPosition( m.refl[i].x, m.refl[i].y, m.refl[i].z ); a.setDelay( m.refl[i].delay ); a.setLevel( m.refl[i].level );
      rbbl::BiquadCoefficientList<float> b( m.refl[i].biq.size() ); for( std::size_t j = 0; j < m.refl[i].biq.size(); ++j ) for( std::size_t k = 0; k < 5; ++k ) b[j][k] = m.refl[i].biq[j][k];
      a.setReflectionFilters( b );
    }
    q->setLateReverbOnset( m.onset ); q->setLateReverbLevels( m.lev ); q->setLateReverbAttackTimes( m.att.data(), 9 ); q->setLateReverbDecayCoeffs( m.dec );
  }
  return p;
}
static void vectors( vh::Run & r )
{
  Rng & g = r.rng;
  pml::ObjectVector v[2]; Scene s[2]; std::string log;
  int const n = 3 + static_cast<int>( g.index( 25 ) );
  for( int i = 0; i < n; ++i )
  {
    int const a = static_cast<int>( g.index( 2 ) ), b = g.chance( 0.2 ) ? a : 1 - a; unsigned const id = g.chance( 0.05 ) ? 0xfffffffeu : static_cast<unsigned>( g.index( 6 ) );
    r.event();
    switch( g.index( 11 ) )
    {
    case 0: { Obj const o = randomObj( g, id ); std::unique_ptr<om::Object> p = real( g, o ); v[a].insert( *p ); p->setLevel( 99.f ); p.reset(); applyTo( s[a], { o } ); log += vh::cat( " insert copy ", id ); break; }
    case 1: { Obj const o = randomObj( g, id ); v[a].insert( real( g, o ) ); applyTo( s[a], { o } ); log += vh::cat( " insert ", id ); break; }
    case 2:
    {
      bool threw = false; try { v[a].remove( id ); } catch( std::exception const & ) { threw = true; }
      if( threw == ( s[a].erase( id ) > 0 ) ) r.viol( "vector:remove", vh::cat( log, ": remove ", id, threw ? " refused" : " accepted" ) ); log += vh::cat( " remove ", id ); break;
    }
    case 3: if( g.chance( 0.3 ) ) { v[a].clear(); s[a].clear(); log += " clear"; } break;
    case 4: v[a] = v[b]; s[a] = s[b]; log += vh::cat( " assign ", a, b ); break;
    case 5: static_cast<om::ObjectVector &>( v[a] ).assign( v[b] ); s[a] = s[b]; log += vh::cat( " assign ", a, b ); break;
    case 6: v[a].swap( v[b] ); if( a != b ) std::swap( s[a], s[b] ); log += " swap"; break;
    case 7: { pml::ObjectVector c( v[a] ); std::string const d = diff( c, s[a], 0 ); if( !d.empty() ) r.viol( "vector:copy", vh::cat( log, ": ", d ) ); c.clear(); log += " copy"; break; }
    case 8: if( s[b].count( id ) ) { v[a].insert( v[b].at( id ) ); Obj const o = s[b].at( id ); applyTo( s[a], { o } ); log += vh::cat( " insert contained ", id, " ", a, b ); } break;
    case 9: if( s[a].count( id ) ) { float const x = num( g ); v[a].at( id ).setLevel( x ); s[a].at( id ).level = x; log += vh::cat( " modify ", id ); } break;
    default:
    {
      bool const have = s[a].count( id ) > 0; bool threw = false;
      try { pml::ObjectVector const & c = v[a]; std::string const d = diff( c.at( id ), have ? s[a].at( id ) : Obj(), 0 ); if( have && !d.empty() ) r.viol( "vector:at", vh::cat( log, ": ", d ) ); } catch( std::exception const & ) { threw = true; }
      bool const found = v[a].find( id ) != v[a].end();
      if( threw == have || found != have ) r.viol( "vector:find", vh::cat( log, ": object ", id, have ? " not found" : " found" ) );
    }
    }
    for( int k = 0; k < 2; ++k ) { std::string const d = diff( v[k], s[k], 0 ); if( !d.empty() ) { r.viol( "vector:contents", vh::cat( log, ": ", d ) ); return; } }
    unsigned last = 0; bool first = true; for( auto const & o : v[a] ) { if( !first && o.id() <= last ) r.viol( "vector:order", log ); last = o.id(); first = false; }
  }
  r.count( "object vector histories" ); r.nontrivial( vh::cat( "v", std::hash<std::string>()( log ) ) );
}
// The attributes of a new object, made in memory that holds arbitrary values.
template<class O> static std::string initialOf( unsigned id, unsigned char fill )
{
  alignas( O ) static unsigned char mem[sizeof( O )]; std::memset( mem, fill, sizeof( O ) ); O * o = new( mem ) O( id ); om::Object & b = *o;
  std::string s = vh::cat( "id ", b.id(), " group ", b.groupId(), " level ", b.level(), " priority ", static_cast<int>( b.priority() ), " channels ", b.numberOfChannels(), " eq ", b.eqCoefficients().size() );
  if( auto p = dynamic_cast<om::PlaneWave *>( &b ) ) s += vh::cat( " direction ", p->incidenceAzimuth(), " ", p->incidenceElevation(), " ", p->referenceDistance() );
  if( auto p = dynamic_cast<om::PointSource *>( &b ) ) s += vh::cat( " position ", p->x(), " ", p->y(), " ", p->z(), " lock ", p->channelLock(), " ", p->channelLockDistance() );
  if( auto p = dynamic_cast<om::PointSourceWithDiffuseness *>( &b ) ) s += vh::cat( " diffuseness ", p->diffuseness() );
  if( auto p = dynamic_cast<om::PointSourceExtent *>( &b ) ) s += vh::cat( " extent ", p->width(), " ", p->height(), " ", p->depth() );
  if( auto p = dynamic_cast<om::ChannelObject *>( &b ) ) s += vh::cat( " diffuseness ", p->diffuseness(), " outputs ", p->size() );
  if( auto p = dynamic_cast<om::HoaSource *>( &b ) ) s += vh::cat( " order ", p->order() );
  if( auto p = dynamic_cast<om::PointSourceWithReverb *>( &b ) ) s += vh::cat( " reflections ", p->numberOfDiscreteReflections(), " late ", p->lateReverbOnset(), vh::vec( p->lateReverbLevels() ), vh::vec( p->lateReverbAttackTimes() ), vh::vec( p->lateReverbDecayCoeffs() ) );
  o->~O(); return s;
}
static std::string initial( T t, unsigned id, unsigned char fill )
{
  switch( t )
  {
  case T::PointSource: return initialOf<om::PointSource>( id, fill ); case T::PointSourceExtent: return initialOf<om::PointSourceExtent>( id, fill ); case T::PlaneWave: return initialOf<om::PlaneWave>( id, fill ); case T::DiffuseSource: return initialOf<om::DiffuseSource>( id, fill );
  case T::PointSourceWithDiffuseness: return initialOf<om::PointSourceWithDiffuseness>( id, fill ); case T::HoaSource: return initialOf<om::HoaSource>( id, fill ); case T::ChannelObject: return initialOf<om::ChannelObject>( id, fill ); default: return initialOf<om::PointSourceWithReverb>( id, fill );
  }
}
static void fresh( vh::Run & r )
{
  Rng & g = r.rng; T const t = g.pick( kTypes ); unsigned const id = static_cast<unsigned>( g.next() );
  r.count( "new objects" ); r.event();
  std::string const da = initial( t, id, 0xA5 ), db = initial( t, id, 0x3C );
  if( da != db ) r.viol( "object:initial", vh::cat( typeName( t ), ": a new object has ", da, " or ", db ) );
  om::PointSourceWithReverb::LateReverb const late( 0.25f ); if( late.onsetDelay() != 0.25f || late.levels()[3] != 0 || late.decayCoeffs()[8] != 0 || late.attackTimes()[0] != 0 ) r.viol( "object:late reverb", "defaults" );
  // clones are independent and complete
  Obj const o = randomObj( g, id ); std::unique_ptr<om::Object> p = real( g, o ); std::unique_ptr<om::Object> q = p->clone();
  p->setLevel( -7.f ); p->resetNumberOfChannels( 1 ); p.reset();
  std::string const d = diff( *q, o, 0 ); if( !d.empty() ) r.viol( "object:clone", vh::cat( typeName( o.t ), ": ", d ) );
}

// ---------------------------------------------------------------- components
static void decoder( vh::Run & r )
{
  Rng & g = r.rng; Silent silent;
  SignalFlowContext ctx( 16, 48000 ); rcl::SceneDecoder dec( ctx, "dec", nullptr ); rig::Rig rg( dec ); rig::Block out; rig::Block const in;
  Scene s; int const n = 1 + static_cast<int>( g.index( 8 ) ); bool any = false;
  auto & port = rg.dbOut( "objectVectorOutput" ); port.resetChanged();
  for( int b = 0; b < n; ++b )
  {
    bool changed = false; std::string log;
    for( std::size_t m = 0, k = g.index( 4 ); m < k; ++m )
    {
      std::vector<Obj> l = someObjects( g, s, 3 ); Writer w{ g }; std::string what, t; any = true;
      if( g.chance( 0.3 ) ) { if( l.empty() || g.chance( 0.4 ) ) t = brokenText( w, l ); else t = badMessage( w, l, what ); r.count( "inadmissible messages to the decoder" ); } else { t = message( w, l ); applyTo( s, l ); changed = true; }
      rg.send( "datagramInput", pml::StringParameter( t ) ); log += t;
    }
    r.event( 2 );
    if( !rg.process( in, out ) ) { r.viol( "decoder:fails", vh::cat( log, ": ", rg.error ) ); return; }
    if( port.changed() != changed ) r.viol( "decoder:change flag", vh::cat( log, ": change flag ", port.changed() ) );
    port.resetChanged();
    std::string const d = diff( dynamic_cast<pml::ObjectVector const &>( port.data() ), s, 1e-6 ); if( !d.empty() ) { r.viol( "decoder:scene", vh::cat( "block ", b, ": ", d, " after ", log ) ); return; }
  }
  r.count( "decoder runs" ); if( any ) r.nontrivial( vh::cat( "d", r.caseIdx, s.size() ) );
}
static void encoder( vh::Run & r )
{
  Rng & g = r.rng; SignalFlowContext ctx( 16, 48000 ); rcl::SceneEncoder enc( ctx, "enc", nullptr ); rig::Rig rg( enc ); rig::Block out; rig::Block const in;
  Scene s; pml::ObjectVector v;
  for( int b = 0, n = 1 + static_cast<int>( g.index( 5 ) ); b < n; ++b )
  {
    if( g.chance( 0.7 ) ) { for( auto const & o : someObjects( g, s, 3 ) ) { v.insert( real( g, o ) ); applyTo( s, { o } ); } rg.shared<pml::ObjectVector>( "objectInput" ) = v; }
    r.event();
    if( !rg.process( in, out ) ) { r.viol( "encoder:fails", rg.error ); return; }
    auto & q = rg.mqOut( "messageOutput" );
    if( q.size() != 1 ) { r.viol( "encoder:messages", vh::cat( q.size(), " messages in one block" ) ); return; }
    std::string const t = dynamic_cast<pml::StringParameter const &>( q.front() ).str(); q.pop();
    om::ObjectVector back; try { om::ObjectVectorParser::fillObjectVector( t, back ); } catch( std::exception const & e ) { r.viol( "encoder:refused", vh::cat( t, ": ", e.what() ) ); return; }
    std::string const d = diff( back, s, 1e-6 ); if( !d.empty() ) { r.viol( "encoder:scene", vh::cat( t, ": ", d ) ); return; }
  }
  r.count( "encoder runs" ); r.nontrivial( vh::cat( "e", r.caseIdx, s.size() ) );
}

static void oneCase( vh::Run & r )
{
  static bool const init = []{ pml::initialiseParameterLibrary(); return true; }(); (void)init;
  switch( r.rng.index( 10 ) )
  {
  case 0: case 1: case 2: history( r ); break;
  case 3: case 4: fuzz( r ); break;
  case 5: case 6: vectors( r ); break;
  case 7: fresh( r ); break;
  case 8: decoder( r ); break;
  default: encoder( r );
  }
}
VH_MAIN( oneCase )
