// Random loudspeaker arrays (as text and as what the text states) and a double-precision panning model, shared by the monitors.
#pragma once
#include "vh.hpp"
#include <libpanning/LoudspeakerArray.h>
#include <librbbl/biquad_coefficient.hpp>
#include <librcl/panning_calculator.hpp>
#include <array>
#include <dirent.h>
#include <limits>
using namespace visr;
using vh::Rng;
using panning::LoudspeakerArray;
using V = std::array<double, 3>;

static inline V sub( V a, V b ) { return V{ { a[0] - b[0], a[1] - b[1], a[2] - b[2] } }; }
static inline V mul( V a, double f ) { return V{ { a[0] * f, a[1] * f, a[2] * f } }; }
static inline double dot( V a, V b ) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static inline V cross( V a, V b ) { return V{ { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] } }; }
static inline double len( V a ) { return std::sqrt( dot( a, a ) ); }
static inline V unit( V a ) { double const l = len( a ); return l > 0 ? mul( a, 1 / l ) : a; }
static inline V fl( V a ) { return V{ { static_cast<float>( a[0] ), static_cast<float>( a[1] ), static_cast<float>( a[2] ) } }; }
static inline V onSphere( Rng & g ) { V v; do v = V{ { g.uni( -1, 1 ), g.uni( -1, 1 ), g.uni( -1, 1 ) } }; while( len( v ) > 1 || len( v ) < 0.1 ); return unit( v ); }
static inline V polar( double az, double el, double r ) { az *= M_PI / 180; el *= M_PI / 180; return V{ { r * std::cos( az ) * std::cos( el ), r * std::sin( az ) * std::cos( el ), r * std::sin( el ) } }; }
static inline std::string str( V v ) { return vh::cat( "(", v[0], " ", v[1], " ", v[2], ")" ); }

struct Spk { std::string id; V pos{ { 0, 0, 0 } }; std::size_t ch = 0; double gain = 1, delay = 0; int eq = -1; std::map<std::size_t, double> routes; };
struct Sub { std::size_t ch = 0; double gain = 1, delay = 0; int eq = -1; std::map<std::size_t, double> weights; };
struct Model
{
  bool twoD = false, infinite = false; std::vector<Spk> reg, virt; std::vector<Sub> subs; std::vector<std::array<std::size_t, 3>> tri; // indices: regular speakers by channel, then virtual
  bool eqs = false; std::size_t sections = 0; std::vector<std::vector<std::array<float, 5>>> filters; std::string xml;
  V pos( std::size_t i ) const { return i < reg.size() ? reg[i].pos : virt[i - reg.size()].pos; }
  Spk & at( std::size_t i ) { return i < reg.size() ? reg[i] : virt[i - reg.size()]; }
};
static inline std::string num( double v ) { std::ostringstream s; s.precision( 9 ); s << v; return s.str(); }
static inline double rounded( double v ) { return static_cast<float>( std::strtod( num( v ).c_str(), nullptr ) ); }

// Directions and triplets of a closed array.
static inline bool directions( Rng & g, bool twoD, std::vector<V> & dir, std::vector<std::array<std::size_t, 3>> & tri )
{
  dir.clear(); tri.clear();
  if( twoD )
  {
    std::size_t const n = static_cast<std::size_t>( g.range( 3, 12 ) ); double const start = g.chance( 0.4 ) ? 0 : g.uni( 0, 360 );
    std::vector<double> az( n ); bool const even = g.chance( 0.4 ); double sum = 0; std::vector<double> w( n );
    for( auto & x : w ) { x = even ? 1 : g.uni( 0.5, 1.5 ); sum += x; }
    double a = start; for( std::size_t i = 0; i < n; ++i ) { az[i] = a; a += 360 * w[i] / sum; if( 360 * w[i] / sum > 160 ) return false; dir.push_back( polar( az[i], 0, 1 ) ); }
    for( std::size_t i = 0; i < n; ++i ) { std::size_t const j = ( i + 1 ) % n; tri.push_back( g.chance( 0.5 ) ? std::array<std::size_t, 3>{ { i, j, 0 } } : std::array<std::size_t, 3>{ { j, i, 0 } } ); }
  }
  else
  {
    double const jitter = g.chance( 0.3 ) ? 0 : g.uni( 0, 0.4 );
    for( int i = 0; i < 6; ++i ) { V v{ { 0, 0, 0 } }; v[static_cast<std::size_t>( i / 2 )] = i % 2 ? -1 : 1; for( auto & x : v ) x += g.uni( -1, 1 ) * jitter; dir.push_back( unit( v ) ); }
    for( std::size_t i = g.index( 9 ), tries = 0; i > 0 && tries < 100; ++tries ) { V v = onSphere( g ); bool ok = true; for( auto & d : dir ) if( dot( d, v ) > 0.92 ) ok = false; if( ok ) { dir.push_back( v ); --i; } }
    std::size_t const n = dir.size();
    for( std::size_t i = 0; i < n; ++i ) for( std::size_t j = i + 1; j < n; ++j ) for( std::size_t k = j + 1; k < n; ++k )
    {
      V const nrm = cross( sub( dir[j], dir[i] ), sub( dir[k], dir[i] ) ); double const d = dot( nrm, dir[i] ); if( std::fabs( d ) < 1e-9 ) continue;
      bool face = true; for( std::size_t m = 0; m < n && face; ++m ) if( m != i && m != j && m != k && ( dot( nrm, dir[m] ) - d ) * d > -1e-6 * std::fabs( d ) ) face = false;
      if( !face ) continue;
      std::vector<std::size_t> t{ i, j, k }; g.shuffle( t ); tri.push_back( { { t[0], t[1], t[2] } } );
      if( std::fabs( dot( dir[i], cross( dir[j], dir[k] ) ) ) < 0.02 ) return false;
    }
    if( tri.size() != 2 * n - 4 ) return false;
  }
  g.shuffle( tri ); return true;
}
static std::vector<std::string> const kIdChars{ "M", "U", "+", "-", "0", "30", "_", "@", "&amp;", "(", ")", "/", ":", "x", "9", "A" };
static inline std::string plain( std::string s ) { std::string o; for( std::size_t i = 0; i < s.size(); ++i ) { if( s.compare( i, 5, "&amp;" ) == 0 ) { o += '&'; i += 4; } else o += s[i]; } return o; }
static inline std::string xmlText( std::string const & s ) { std::string o; for( char c : s ) { if( c == '&' ) o += "&amp;"; else o += c; } return o; }

enum Defect { none, dupId, badId, emptyId, noId, noChannel, channelZero, dupChannel, bothGains, bothCoords, noCoords, twoCarts, noZ, noR, noL3, badTriplet, badRoute, routeToVirtual, routeNoGain, badSub, subToVirtual, weightCount, dupSubChannel, subCollision, badEq, longFilter, badDimension, twoEqs, noRoot, broken, dupVirtualId, subZero, numDefects };

// A random description of a closed array. Positions are those the text states.
static inline Model makeArray( Rng & g, Defect defect = none )
{
  Model m; std::vector<V> dir; std::vector<std::array<std::size_t, 3>> tri;
  m.twoD = ( defect == noZ || defect == noL3 ) ? false : g.chance( 0.35 );
  while( !directions( g, m.twoD, dir, tri ) ) {}
  std::size_t const n = dir.size(), minReg = m.twoD ? 2 : 3;
  bool const needVirt = defect == badRoute || defect == routeToVirtual || defect == routeNoGain || defect == subToVirtual || defect == dupVirtualId;
  std::size_t nv = ( needVirt || g.chance( 0.5 ) ) ? 1 + g.index( std::max<std::size_t>( 1, n / 3 ) ) : 0; nv = std::min( nv, n - minReg );
  bool const sameRadius = g.chance( 0.4 );
  std::vector<std::size_t> order( n ); for( std::size_t i = 0; i < n; ++i ) order[i] = i; g.shuffle( order ); // order[k]: direction of the k-th speaker of the model
  std::vector<std::size_t> where( n ); for( std::size_t i = 0; i < n; ++i ) where[order[i]] = i;
  std::size_t const nr = n - nv; m.reg.resize( nr ); m.virt.resize( nv ); m.infinite = g.chance( 0.15 );
  m.eqs = defect == badEq || defect == longFilter || defect == twoEqs || g.chance( 0.3 );
  if( m.eqs )
  {
    m.sections = static_cast<std::size_t>( g.range( 1, 3 ) );
    for( std::size_t k = static_cast<std::size_t>( g.range( 1, 3 ) ); k > 0; --k )
    {
      std::vector<std::array<float, 5>> f( static_cast<std::size_t>( g.range( 1, static_cast<long>( m.sections ) ) ) ); for( auto & s : f ) { for( auto & c : s ) c = static_cast<float>( rounded( g.uni( -1, 1 ) ) ); s[4] = static_cast<float>( rounded( 0.7 * s[4] ) ); s[3] = static_cast<float>( rounded( s[3] * ( 1 + s[4] ) * 0.9 ) ); } // stable
      m.filters.push_back( f );
    }
  }
  std::set<std::string> ids; auto newId = [&] { std::string s; do { s.clear(); for( long k = g.range( 1, 4 ); k > 0; --k ) s += plain( g.pick( kIdChars ) ); } while( !ids.insert( s ).second ); return s; };
  std::set<std::size_t> chans; while( chans.size() < nr ) chans.insert( static_cast<std::size_t>( g.range( 1, g.chance( 0.7 ) ? static_cast<long>( nr ) : 64 ) ) );
  auto ci = chans.begin(); for( auto & s : m.reg ) { s.ch = *ci++; s.id = newId(); if( g.chance( 0.3 ) ) s.gain = g.uni( 0, 2 ); if( g.chance( 0.3 ) ) s.delay = g.uni( 0, 0.1 ); if( m.eqs && g.chance( 0.5 ) ) s.eq = static_cast<int>( g.index( m.filters.size() ) ); }
  for( auto & s : m.virt ) { s.id = newId(); for( std::size_t k = g.index( 4 ); k > 0; --k ) s.routes[g.index( nr )] = g.pick( { 0., -3., -6., g.uni( -40, 0 ) } ); }
  for( std::size_t k = ( defect == badSub || defect == subToVirtual || defect == weightCount || defect == subCollision || defect == subZero || g.chance( 0.4 ) ) ? 1 + g.index( 2 ) : 0; k > 0; --k )
  {
    Sub s; do s.ch = static_cast<std::size_t>( g.range( 1, 80 ) ); while( !chans.insert( s.ch ).second );
    for( long c = g.range( 1, 4 ); c > 0; --c ) s.weights[g.index( nr )] = 1;
    if( g.chance( 0.5 ) ) for( auto & w : s.weights ) w.second = rounded( g.uni( 0, 1 ) );
    if( g.chance( 0.3 ) ) s.gain = g.uni( 0, 2 ); if( g.chance( 0.3 ) ) s.delay = g.uni( 0, 0.1 ); if( m.eqs && g.chance( 0.5 ) ) s.eq = static_cast<int>( g.index( m.filters.size() ) );
    m.subs.push_back( s );
  }
  // The text.
  auto blanks = [&] { return std::string( g.chance( 0.1 ) ? g.index( 3 ) : 0, ' ' ); };
  auto attr = [&]( char const * name, std::string const & v ) { return std::string( " " ) + name + "=\"" + v + "\""; };
  auto idText = [&]( std::string const & id ) { return blanks() + xmlText( id ) + blanks(); };
  std::size_t const victim = g.index( nr ), vvictim = nv ? g.index( nv ) : 0, svictim = m.subs.empty() ? 0 : g.index( m.subs.size() );
  auto coords = [&]( std::size_t k, bool hit ) {
    double const r = sameRadius ? 1. : g.uni( 0.8, 1.3 ); V const p = mul( dir[order[k]], r ); Spk & s = m.at( k ); std::string o;
    if( hit && defect == noCoords ) return o;
    if( g.chance( 0.5 ) || ( hit && ( defect == noZ || defect == twoCarts ) ) )
    {
      s.pos = V{ { rounded( p[0] ), rounded( p[1] ), m.twoD ? 0. : rounded( p[2] ) } };
      o = "<cart" + attr( "x", num( s.pos[0] ) ) + attr( "y", num( s.pos[1] ) ); if( !m.twoD || g.chance( 0.3 ) ) { if( !( hit && defect == noZ ) ) o += attr( "z", num( s.pos[2] ) ); } o += "/>";
      if( hit && defect == twoCarts ) o += o;
    }
    else
    {
      double const az = rounded( std::atan2( p[1], p[0] ) * 180 / M_PI ), el = rounded( m.twoD ? 0 : std::asin( std::max( -1., std::min( 1., p[2] / r ) ) ) * 180 / M_PI ), rr = rounded( r );
      s.pos = polar( az, el, rr ); o = "<polar" + attr( "az", num( az ) ); if( !m.twoD || g.chance( 0.3 ) ) o += attr( "el", num( el ) ); if( !( hit && defect == noR ) ) o += attr( "r", num( rr ) ); o += "/>";
    }
    if( hit && defect == noR && o.find( " r=" ) == std::string::npos && o.find( "<cart" ) == 0 ) o = "<polar" + attr( "az", "0" ) + attr( "el", "0" ) + "/>";
    if( hit && defect == bothCoords ) { o += o.find( "<cart" ) == 0 ? "<polar az=\"0\" el=\"0\" r=\"1\"/>" : "<cart x=\"1\" y=\"0\" z=\"0\"/>"; }
    return o; };
  auto adjust = [&]( double & gain, double & delay, int eq, bool hit ) {
    std::string o; gain = rounded( gain );
    if( gain != 1 || g.chance( 0.3 ) )
    { if( gain > 0 && g.chance( 0.5 ) ) { double const dB = rounded( 20 * std::log10( gain ) ); gain = std::pow( 10., dB / 20 ); o += attr( "gainDB", num( dB ) ); if( hit && defect == bothGains ) o += attr( "gain", "1" ); } else { o += attr( "gain", num( gain ) ); if( hit && defect == bothGains ) o += attr( "gainDB", "0" ); } }
    else if( hit && defect == bothGains ) o += attr( "gainDB", "0" ) + attr( "gain", "1" );
    delay = rounded( delay ); if( delay != 0 || g.chance( 0.3 ) ) o += attr( "delay", num( delay ) );
    if( hit && defect == badEq ) o += attr( "eq", "missing" ); else if( eq >= 0 ) o += attr( "eq", "f" + std::to_string( eq ) );
    return o; };
  std::vector<std::string> regular, later;
  for( std::size_t k = 0; k < nr; ++k )
  {
    bool const hit = k == victim; Spk & s = m.reg[k]; std::string o = "<loudspeaker";
    std::string id = idText( s.id ); if( hit ) { if( defect == dupId ) id = xmlText( m.reg[( k + 1 ) % nr].id ); else if( defect == badId ) id += g.pick( { "%", ".", "a b", "&lt;", "," } ); else if( defect == emptyId ) id = blanks(); }
    if( !( hit && defect == noId ) ) o += attr( "id", id );
    std::size_t ch = s.ch; if( hit && defect == channelZero ) ch = 0; if( hit && defect == dupChannel ) ch = m.reg[( k + 1 ) % nr].ch;
    if( !( hit && defect == noChannel ) ) o += attr( "channel", std::to_string( ch ) );
    o += adjust( s.gain, s.delay, s.eq, hit ) + ">" + coords( k, hit ) + "</loudspeaker>"; regular.push_back( o );
  }
  g.shuffle( regular ); // the order of the text is not the order of the channels
  for( std::size_t k = 0; k < nv; ++k )
  {
    bool const hit = k == vvictim; Spk & s = m.virt[k]; std::string o = "<virtualspeaker" + attr( "id", hit && defect == dupVirtualId ? xmlText( m.reg[victim].id ) : idText( s.id ) ) + ">" + coords( nr + k, false );
    for( auto & rt : s.routes ) { rt.second = rounded( rt.second ); o += "<route" + attr( "lspId", idText( m.reg[rt.first].id ) ) + attr( "gainDB", num( rt.second ) ) + "/>"; }
    if( hit && defect == badRoute ) o += "<route lspId=\"nowhere\" gainDB=\"0\"/>";
    if( hit && defect == routeToVirtual ) o += "<route" + attr( "lspId", xmlText( m.virt[g.index( k + 1 )].id ) ) + attr( "gainDB", "0" ) + "/>";
    if( hit && defect == routeNoGain ) o += "<route" + attr( "lspId", xmlText( m.reg[0].id ) ) + "/>";
    later.push_back( o + "</virtualspeaker>" );
  }
  std::vector<std::string> trips; std::size_t const tvictim = g.index( tri.size() );
  for( std::size_t k = 0; k < tri.size(); ++k )
  {
    bool const hit = k == tvictim; std::array<std::size_t, 3> t{ { where[tri[k][0]], where[tri[k][1]], where[tri[k][2]] } };
    std::string o = "<triplet"; for( std::size_t c = 0; c < ( m.twoD ? 2u : 3u ); ++c ) { if( hit && c == 2 && defect == noL3 ) continue; o += attr( c == 0 ? "l1" : c == 1 ? "l2" : "l3", hit && c == 1 && defect == badTriplet ? "nowhere" : idText( m.at( t[c] ).id ) ); }
    m.tri.push_back( t ); trips.push_back( o + "/>" );
  }
  std::vector<std::string> subs;
  for( std::size_t k = 0; k < m.subs.size(); ++k )
  {
    bool const hit = k == svictim; Sub & s = m.subs[k]; std::string list, weights; bool ones = true; std::vector<std::pair<std::size_t, double>> w( s.weights.begin(), s.weights.end() ); g.shuffle( w );
    for( auto & e : w ) { list += ( list.empty() ? "" : "," ) + std::string( g.chance( 0.2 ) ? " " : "" ) + xmlText( m.reg[e.first].id ); weights += ( weights.empty() ? "" : "," ) + std::string( g.chance( 0.2 ) ? " " : "" ) + num( e.second ); if( e.second != 1 ) ones = false; }
    if( hit && ( defect == badSub || defect == subToVirtual ) ) { list += "," + ( defect == badSub ? std::string( "nowhere" ) : xmlText( m.virt[vvictim].id ) ); weights += ",1"; }
    if( hit && defect == weightCount ) { weights += ",0.5"; ones = false; }
    std::size_t ch = s.ch; if( hit && defect == subCollision ) ch = m.reg[victim].ch; if( hit && defect == subZero ) ch = 0;
    subs.push_back( "<subwoofer" + attr( "channel", std::to_string( ch ) ) + attr( "assignedLoudspeakers", list ) + ( ones && g.chance( 0.7 ) ? "" : attr( "weights", weights ) ) + adjust( s.gain, s.delay, s.eq, false ) + "/>" );
    if( hit && defect == dupSubChannel ) subs.push_back( subs.back() );
  }
  if( defect == dupSubChannel && m.subs.empty() ) for( int k = 0; k < 2; ++k ) subs.push_back( "<subwoofer channel=\"90\"" + attr( "assignedLoudspeakers", xmlText( m.reg[0].id ) ) + "/>" );
  std::string eqText;
  if( m.eqs )
  {
    eqText = "<outputEqConfiguration type=\"iir\"" + attr( "numberOfBiquads", std::to_string( m.sections ) ) + ">";
    for( std::size_t k = 0; k < m.filters.size(); ++k )
    {
      eqText += "<filterSpec" + attr( "name", "f" + std::to_string( k ) ) + ">"; auto f = m.filters[k]; if( defect == longFilter && k == 0 ) while( f.size() <= m.sections ) f.push_back( f[0] );
      for( auto & s : f ) eqText += "<biquad" + attr( "b0", num( s[0] ) ) + attr( "b1", num( s[1] ) ) + attr( "b2", num( s[2] ) ) + attr( "a1", num( s[3] ) ) + attr( "a2", num( s[4] ) ) + "/>";
      eqText += "</filterSpec>";
    }
    eqText += "</outputEqConfiguration>"; if( defect == twoEqs ) eqText += eqText;
    if( defect == longFilter ) { std::string const o = regular[0]; std::size_t const p = o.find( " eq=" ); regular[0] = p == std::string::npos ? o.substr( 0, 12 ) + " eq=\"f0\"" + o.substr( 12 ) : o.substr( 0, p ) + " eq=\"f0\"" + o.substr( o.find( '"', p + 5 ) + 1 ); }
  }
  std::vector<std::vector<std::string>> parts{ regular, later, trips, subs, { eqText } }; g.shuffle( parts ); // kinds of elements may come in any order
  std::string const root = defect == noRoot ? "configuration" : "panningConfiguration";
  std::string dim = m.twoD ? attr( "dimension", "2" ) : g.chance( 0.5 ) ? attr( "dimension", "3" ) : ""; if( defect == badDimension ) dim = attr( "dimension", g.pick( { "4", "1", "two", "" } ) );
  m.xml = "<" + root + dim + ( m.infinite ? attr( "infinite", g.pick( { "true", "1" } ) ) : g.chance( 0.2 ) ? attr( "infinite", "false" ) : "" ) + ">";
  if( m.infinite && m.xml.find( "\"true\"" ) != std::string::npos ) { std::size_t const p = m.xml.find( "\"true\"" ); m.xml.replace( p, 6, "\"1\"" ); }
  if( m.xml.find( "\"false\"" ) != std::string::npos ) { std::size_t const p = m.xml.find( "\"false\"" ); m.xml.replace( p, 7, "\"0\"" ); }
  for( auto & p : parts ) for( auto & s : p ) { m.xml += s; if( g.chance( 0.1 ) ) m.xml += "\n <!-- remark -->"; }
  m.xml += "</" + root + ">"; if( defect == broken ) m.xml.resize( m.xml.size() - 1 - g.index( 12 ) );
  return m;
}
static inline bool near( double a, double b, double tol ) { return std::fabs( a - b ) <= tol; } // false for NaN
// Compares an array with its description; empty if they agree.
static inline std::string differs( LoudspeakerArray const & a, Model const & m )
{
  using vh::cat; std::size_t const nr = m.reg.size(), nv = m.virt.size();
  if( a.getNumRegularSpeakers() != nr || a.getNumSpeakers() != nr + nv || a.getNumTriplets() != m.tri.size() || a.getNumSubwoofers() != m.subs.size() ) return cat( "sizes are ", a.getNumRegularSpeakers(), " ", a.getNumSpeakers(), " ", a.getNumTriplets(), " ", a.getNumSubwoofers() );
  if( a.is2D() != m.twoD || a.isInfinite() != m.infinite ) return "dimension or distance";
  for( std::size_t i = 0; i < nr + nv; ++i )
  {
    Spk const & s = i < nr ? m.reg[i] : m.virt[i - nr]; auto const & p = a.getPosition( i );
    if( !near( p.x, s.pos[0], 2e-6 ) || !near( p.y, s.pos[1], 2e-6 ) || !near( p.z, s.pos[2], 2e-6 ) ) return cat( "position of ", s.id, " is (", p.x, " ", p.y, " ", p.z, "), expected ", str( s.pos ) );
    if( a.loudspeakerId( i ) != s.id || a.getSpeakerIndexFromId( s.id ) != i ) return cat( "identifier ", s.id, " and index ", i, " do not correspond" );
    if( &a.getPosition( s.id ) != &p ) return "position by identifier";
    if( i >= nr ) continue;
    if( a.channelIndex( i ) != s.ch || a.getSpeakerChannel( i ) != s.ch || a.getSpeakerChannelFromId( s.id ) != s.ch || a.getLoudspeakerChannels()[i] != s.ch ) return cat( "channel of ", s.id, " is ", a.channelIndex( i ), ", expected ", s.ch );
    if( !near( a.getLoudspeakerGainAdjustment( i ), s.gain, 1e-5 * ( 1 + s.gain ) ) || !near( a.getLoudspeakerDelayAdjustment( i ), s.delay, 1e-6 ) ) return cat( "adjustment of ", s.id, " is ", a.getLoudspeakerGainAdjustment( i ), " ", a.getLoudspeakerDelayAdjustment( i ) );
  }
  for( std::size_t v = 0; v < nv; ++v ) for( std::size_t i = 0; i < nr; ++i )
  {
    auto const f = m.virt[v].routes.find( i ); double const e = f == m.virt[v].routes.end() ? 0 : std::pow( 10., f->second / 20 );
    if( !near( a.getReroutingCoefficient( v, i ), e, 1e-5 * e ) || !near( a.getReroutingCoefficients()( v, i ), e, 1e-5 * e ) ) return cat( "route from ", m.virt[v].id, " to ", m.reg[i].id, " is ", a.getReroutingCoefficient( v, i ), ", expected ", e );
  }
  for( std::size_t k = 0; k < m.tri.size(); ++k ) for( std::size_t c = 0; c < ( m.twoD ? 2u : 3u ); ++c ) if( a.getTriplet( k )[c] != m.tri[k][c] ) return cat( "triplet ", k );
  for( std::size_t k = 0; k < m.subs.size(); ++k )
  {
    Sub const & s = m.subs[k];
    if( a.getSubwooferChannel( k ) != s.ch || a.getSubwooferChannels()[k] != s.ch ) return cat( "channel of subwoofer ", k );
    if( !near( a.getSubwooferGainAdjustment( k ), s.gain, 1e-5 * ( 1 + s.gain ) ) || !near( a.getSubwooferDelayAdjustment( k ), s.delay, 1e-6 ) ) return cat( "adjustment of subwoofer ", k );
    for( std::size_t i = 0; i < nr; ++i ) { auto const f = s.weights.find( i ); double const e = f == s.weights.end() ? 0 : f->second; if( !near( a.getSubwooferGain( k, i ), e, 1e-5 ) ) return cat( "weight of speaker ", i, " in subwoofer ", k, " is ", a.getSubwooferGain( k, i ), ", expected ", e ); }
  }
  if( a.outputEqualisationPresent() != m.eqs ) return "presence of equalisers";
  if( m.eqs )
  {
    auto const & e = a.outputEqualisationBiquads();
    if( a.outputEqualisationNumberOfBiquads() != m.sections || e.numberOfFilters() != nr + m.subs.size() || e.numberOfSections() != m.sections ) return "size of equalisers";
    for( std::size_t i = 0; i < nr + m.subs.size(); ++i ) for( std::size_t k = 0; k < m.sections; ++k )
    {
      int const q = i < nr ? m.reg[i].eq : m.subs[i - nr].eq; std::array<float, 5> f{ { 1, 0, 0, 0, 0 } }; if( q >= 0 && k < m.filters[static_cast<std::size_t>( q )].size() ) f = m.filters[static_cast<std::size_t>( q )][k];
      auto const & c = e( i, k ); float const got[5] = { c.b0(), c.b1(), c.b2(), c.a1(), c.a2() };
      for( std::size_t x = 0; x < 5; ++x ) if( !near( got[x], f[x], 1e-6 ) ) return cat( "equaliser ", i, " section ", k, " coefficient ", x, " is ", got[x], ", expected ", f[x] );
    }
  }
  return std::string();
}
// Reference gains of all speakers for the triplets that enclose a source (direction relative to the listener), best first.
struct Candidate { std::vector<double> g; double least; };
struct Geometry { bool twoD; std::vector<V> l; std::vector<std::array<std::size_t, 3>> tri; std::vector<std::vector<double>> route; std::size_t nr; double det; };
static inline Geometry geometry( LoudspeakerArray const & a, V listener, bool shift = true )
{
  Geometry o; o.twoD = a.is2D(); o.nr = a.getNumRegularSpeakers(); o.det = 1e9;
  for( std::size_t i = 0; i < a.getNumSpeakers(); ++i ) { auto const & p = a.getPosition( i ); V v{ { p.x, p.y, p.z } }; if( shift ) v = sub( v, listener ); if( o.twoD ) v[2] = 0; o.l.push_back( unit( v ) ); }
  for( std::size_t i = 0; i < a.getNumTriplets(); ++i ) o.tri.push_back( a.getTriplet( i ) );
  for( std::size_t v = 0; v < a.getNumSpeakers() - o.nr; ++v ) { o.route.emplace_back( o.nr ); for( std::size_t i = 0; i < o.nr; ++i ) o.route.back()[i] = a.getReroutingCoefficient( v, i ); }
  for( auto & t : o.tri ) { V const l3 = o.twoD ? V{ { 0, 0, 1 } } : o.l[t[2]]; o.det = std::min( o.det, std::fabs( dot( o.l[t[0]], cross( o.l[t[1]], l3 ) ) ) ); }
  return o;
}
static inline std::vector<Candidate> candidates( Geometry const & a, V s, double slack )
{
  std::vector<Candidate> out; if( a.twoD ) s[2] = 0;
  for( auto & t : a.tri )
  {
    V const l1 = a.l[t[0]], l2 = a.l[t[1]], l3 = a.twoD ? V{ { 0, 0, 1 } } : a.l[t[2]]; double const det = dot( l1, cross( l2, l3 ) ); if( std::fabs( det ) < 1e-4 ) continue;
    double const g1 = dot( s, cross( l2, l3 ) ) / det, g2 = dot( s, cross( l3, l1 ) ) / det, g3 = dot( s, cross( l1, l2 ) ) / det;
    double const least = a.twoD ? std::min( g1, g2 ) : std::min( g1, std::min( g2, g3 ) ); if( least < -slack ) continue;
    Candidate c; c.least = least; std::vector<double> all( a.l.size(), 0 ); all[t[0]] = g1; all[t[1]] = g2; if( !a.twoD ) all[t[2]] = g3;
    c.g.assign( all.begin(), all.begin() + static_cast<long>( a.nr ) ); for( std::size_t v = 0; v < a.route.size(); ++v ) for( std::size_t i = 0; i < a.nr; ++i ) c.g[i] += a.route[v][i] * all[a.nr + v];
    out.push_back( c );
  }
  std::sort( out.begin(), out.end(), []( Candidate const & x, Candidate const & y ) { return x.least > y.least; } ); return out;
}
static inline std::vector<double> powered( std::vector<double> v ) { double e = 0; for( double x : v ) e += x * x; if( e > 0 ) for( double & x : v ) x /= std::sqrt( e ); return v; }
static inline std::vector<std::string> const & configFiles()
{
  static std::vector<std::string> const files = [] {
    std::vector<std::string> o; for( std::string d : { "/repo/config/generic", "/repo/config/bbc" } ) if( DIR * dir = opendir( d.c_str() ) ) { while( dirent * e = readdir( dir ) ) { std::string const n = e->d_name; if( n.size() > 4 && n.substr( n.size() - 4 ) == ".xml" ) o.push_back( d + "/" + n ); } closedir( dir ); }
    std::sort( o.begin(), o.end() ); return o; }();
  return files;
}
static inline V listenerIn( Rng & g, Model const & m )
{
  for( int tries = 0; tries < 20; ++tries )
  {
    V l{ { 0, 0, 0 } }; if( tries < 19 ) for( std::size_t c = 0; c < ( m.twoD ? 2u : 3u ); ++c ) l[c] = static_cast<float>( g.uni( -0.3, 0.3 ) );
    bool ok = true; double const want = m.twoD ? 0.05 : 0.02;
    for( auto & t : m.tri ) { V const a = unit( sub( m.pos( t[0] ), l ) ), b = unit( sub( m.pos( t[1] ), l ) ), c = m.twoD ? V{ { 0, 0, 1 } } : unit( sub( m.pos( t[2] ), l ) ); V const a0 = m.pos( t[0] ), b0 = m.pos( t[1] ), c0 = m.twoD ? V{ { 0, 0, 1 } } : m.pos( t[2] ); double const d = dot( a, cross( b, c ) ), d0 = dot( a0, cross( b0, c0 ) ); if( d * d0 <= 0 || std::fabs( d ) < want ) ok = false; }
    if( ok ) return l;
  }
  return V{ { 0, 0, 0 } };
}
// A source: anywhere, or exactly at a speaker, on an edge or in the middle of a triplet.
static inline V source( Rng & g, std::vector<V> const & speakers, std::vector<std::array<std::size_t, 3>> const & tri, bool twoD, V from )
{
  V s; auto const & t = tri[g.index( tri.size() )]; V const a = speakers[t[0]], b = speakers[t[1]], c = twoD ? b : speakers[t[2]];
  switch( g.index( 6 ) )
  {
  case 0: s = a; break;
  case 1: { double const w = g.chance( 0.5 ) ? 0.5 : g.uni(); s = V{ { a[0] * w + b[0] * ( 1 - w ), a[1] * w + b[1] * ( 1 - w ), a[2] * w + b[2] * ( 1 - w ) } }; break; }
  case 2: s = V{ { ( a[0] + b[0] + c[0] ) / 3, ( a[1] + b[1] + c[1] ) / 3, ( a[2] + b[2] + c[2] ) / 3 } }; break;
  case 3: { s = V{ { 0, 0, 0 } }; s[g.index( twoD ? 2 : 3 )] = g.chance( 0.5 ) ? 1 : -1; break; }
  default: s = mul( onSphere( g ), g.uni( 0.5, 5 ) ); if( twoD && std::hypot( s[0], s[1] ) < 0.1 ) s = V{ { 1, 0, 0 } };
  }
  if( g.chance( 0.3 ) ) { V const d = mul( sub( s, from ), g.pick( { 0.5, 2., 7. } ) ); s = V{ { from[0] + d[0], from[1] + d[1], from[2] + d[2] } }; }
  return fl( s );
}
struct ArrayRun
{
  Model m; LoudspeakerArray a; std::vector<V> sp; std::vector<std::array<std::size_t, 3>> tri; V listener{ { 0, 0, 0 } };
  explicit ArrayRun( Rng & g ): m( makeArray( g ) ) { a.loadXmlString( m.xml ); for( std::size_t i = 0; i < a.getNumSpeakers(); ++i ) sp.push_back( V{ { a.getPosition( i ).x, a.getPosition( i ).y, a.getPosition( i ).z } } ); for( std::size_t i = 0; i < a.getNumTriplets(); ++i ) tri.push_back( a.getTriplet( i ) ); }
};
using Norm = rcl::PanningCalculator::Normalisation;
// Gains g >= 0 scaled to the given norm and level.
static inline std::vector<double> scaled( std::vector<double> v, Norm n, double level )
{
  double s = 0; for( double x : v ) s += n == Norm::Energy ? x * x : std::fabs( x ); if( n == Norm::Energy ) s = std::sqrt( s ); for( double & x : v ) x = s > 1e-6 ? x / s * level : 0; return v;
}
