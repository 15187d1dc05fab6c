// C13: rotations and positions. Quaternions, points and listener positions are followed through histories of operations by a
// double-precision model in which every rotation is a 3x3 matrix built from elementary rotations.
#include "vh.hpp"
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/listener_position.hpp>
#include <librbbl/position_3d.hpp>
#include <librbbl/quaternion.hpp>
#include <array>
#include <limits>
using namespace visr;
using vh::Rng;
using V = std::array<double, 3>;
using M = std::array<V, 3>;

static V operator+( V a, V b ) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
static V operator*( double s, V a ) { return { s * a[0], s * a[1], s * a[2] }; }
static double dot( V a, V b ) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double len( V a ) { return std::sqrt( dot( a, a ) ); }
static V mul( M const & m, V v ) { return { dot( m[0], v ), dot( m[1], v ), dot( m[2], v ) }; }
static M mul( M const & a, M const & b ) { M r; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; return r; }
static M tr( M const & a ) { M r; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) r[i][j] = a[j][i]; return r; }
static M elementary( int axis, double t ) // right-handed rotation around x, y or z
{
  M r{ { { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } } }; int const a = ( axis + 1 ) % 3, b = ( axis + 2 ) % 3;
  r[axis][axis] = 1; r[a][a] = r[b][b] = std::cos( t ); r[a][b] = -std::sin( t ); r[b][a] = std::sin( t ); return r;
}
static M ypr( double y, double p, double o ) { return mul( elementary( 2, y ), mul( elementary( 1, p ), elementary( 0, o ) ) ); }
static M axisAngle( V a, double t ) // Rodrigues
{
  a = ( 1 / len( a ) ) * a; double const c = std::cos( t ), s = std::sin( t ); M r;
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) r[i][j] = ( 1 - c ) * a[i] * a[j] + ( i == j ? c : 0 );
  r[0][1] -= s * a[2]; r[0][2] += s * a[1]; r[1][0] += s * a[2]; r[1][2] -= s * a[0]; r[2][0] -= s * a[1]; r[2][1] += s * a[0]; return r;
}
static double angleOf( M const & m ) // rotation angle in [0,pi]
{
  V const v{ m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1] };
  return std::atan2( len( v ), m[0][0] + m[1][1] + m[2][2] - 1 );
}
template<class Q> static M matrix( Q const & q ) // image of the unit vectors, independent of the code under test
{
  double const w = q.w(), x = q.x(), y = q.y(), z = q.z();
  return { { { w * w + x * x - y * y - z * z, 2 * ( x * y - w * z ), 2 * ( x * z + w * y ) }, { 2 * ( x * y + w * z ), w * w - x * x + y * y - z * z, 2 * ( y * z - w * x ) }, { 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), w * w - x * x - y * y + z * z } } };
}
static double dist( M const & a, M const & b ) { double d = 0; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { double const e = std::fabs( a[i][j] - b[i][j] ); if( !( e <= d ) ) d = e; } return d; }
static double angle( Rng & g ) { return g.pick( { 0., M_PI / 2, -M_PI / 2, M_PI, -M_PI, g.uni( -M_PI, M_PI ), g.uni( -M_PI, M_PI ), g.uni( -1e-3, 1e-3 ), g.uni( -10, 10 ) } ); }
static V direction( Rng & g )
{
  if( g.chance( 0.3 ) ) { V v{ 0, 0, 0 }; v[g.index( 3 )] = g.chance( 0.5 ) ? 1 : -1; return v; }
  for( ;; ) { V const v{ g.uni( -1, 1 ), g.uni( -1, 1 ), g.uni( -1, 1 ) }; if( len( v ) > 0.1 ) return v; }
}
static std::string str( V v ) { return vh::cat( "(", v[0], ",", v[1], ",", v[2], ")" ); }

template<class T> struct Geo
{
  using Q = rbbl::Quaternion<T>; using P = rbbl::Position3D<T>;
  vh::Run & r; Rng & g; double eps = 64 * static_cast<double>( std::numeric_limits<T>::epsilon() ); std::string log;
  explicit Geo( vh::Run & r ): r( r ), g( r.rng ) {}
  static V v( P const & p ) { return { static_cast<double>( p.x() ), static_cast<double>( p.y() ), static_cast<double>( p.z() ) }; }
  static P p( V a ) { return P( static_cast<T>( a[0] ), static_cast<T>( a[1] ), static_cast<T>( a[2] ) ); }
  bool near( char const * key, std::string const & what, double got, double want, double tol )
  { r.event(); if( std::fabs( got - want ) <= tol ) return true; r.viol( key, vh::cat( log, what, ": got ", got, ", expected ", want ) ); return false; }
  bool near( char const * key, std::string const & what, V got, V want, double tol )
  { r.event(); double d = 0; for( int i = 0; i < 3; ++i ) { double const e = std::fabs( got[i] - want[i] ); if( !( e <= d ) ) d = e; } if( d <= tol ) return true; r.viol( key, vh::cat( log, what, ": got ", str( got ), ", expected ", str( want ) ) ); return false; }
  bool near( char const * key, std::string const & what, M const & got, M const & want, double tol )
  { r.event(); if( dist( got, want ) <= tol ) return true; r.viol( key, vh::cat( log, what, ": rotation ", str( got[0] ), str( got[1] ), str( got[2] ), ", expected ", str( want[0] ), str( want[1] ), str( want[2] ) ) ); return false; }
  Q unit( M & m )
  {
    if( g.chance( 0.5 ) ) { double const y = static_cast<T>( angle( g ) ), q = static_cast<T>( angle( g ) ), o = static_cast<T>( angle( g ) ); m = ypr( y, q, o ); log += vh::cat( " ypr ", y, " ", q, " ", o, ";" ); return Q::fromYPR( static_cast<T>( y ), static_cast<T>( q ), static_cast<T>( o ) ); }
    V const a = v( p( g.uni( 0.2, 5 ) * direction( g ) ) ); double const t = static_cast<T>( angle( g ) ); m = axisAngle( a, t ); log += vh::cat( " axis ", str( a ), " angle ", t, ";" ); return Q::fromRotationVector( p( a ), static_cast<T>( t ) );
  }
  // Everything a unit quaternion says about the rotation m.
  bool check( Q const & q, M const & m, double tol )
  {
    if( !near( "rotation", " quaternion", matrix( q ), m, tol ) || !near( "norm", " norm", q.norm(), 1, tol ) || !near( "norm", " squared norm", q.normSquare(), 1, tol ) ) return false;
    double const y = q.yaw(), a = q.pitch(), o = q.roll();
    if( !( std::fabs( a ) <= M_PI / 2 + 1e-6 && std::fabs( y ) <= M_PI + 1e-6 && std::fabs( o ) <= M_PI + 1e-6 ) ) { r.viol( "ypr_range", vh::cat( log, " angles ", y, " ", a, " ", o ) ); return false; }
    // Near the poles yaw and roll are not separable, and the pitch is ill-conditioned.
    double const c = std::sqrt( std::max( 0., 1 - m[2][0] * m[2][0] ) );
    if( c > 0.05 ) { if( !near( "ypr", vh::cat( " angles ", y, " ", a, " ", o ), ypr( y, a, o ), m, 40 * tol / c ) ) return false; r.count( "yaw, pitch and roll" ); }
    else if( !near( "pitch", " pitch at a pole", a, std::asin( std::max( -1., std::min( 1., -m[2][0] ) ) ), 4 * std::sqrt( tol ) ) ) return false;
    double const t = q.rotationAngle(); V const ax = v( q.rotationVector() );
    if( !near( "axis", " length of the rotation axis", len( ax ), 1, tol ) || !near( "axis", vh::cat( " axis ", str( ax ), " angle ", t ), axisAngle( ax, t ), m, 8 * tol + 4 * static_cast<double>( std::numeric_limits<T>::epsilon() ) ) ) return false;
    return true;
  }
  void quaternions()
  {
    M m, n; Q q = unit( m ); double tol = eps;
    if( !check( q, m, tol ) ) return;
    for( long k = g.range( 1, 8 ); k > 0; --k )
    {
      switch( g.index( 9 ) )
      {
      case 0: { Q const s = unit( n ); q = q * s; m = mul( m, n ); log += " times"; } break;
      case 1: { Q const s = unit( n ); q *= s; m = mul( m, n ); log += " *="; } break;
      case 2: { Q const s = unit( n ); q.rotate( s ); m = mul( n, m ); log += " rotated by"; } break;
      case 3: if( g.chance( 0.5 ) ) q.conjugate(); else q = rbbl::conjugate( q ); m = tr( m ); log += " conjugated"; break;
      case 4: { double const s = g.pick( { 2., -3., 0.01, 1000. } ); bool const adj = g.chance( 0.5 ); log += vh::cat( " scaled by ", s, " and normalised ", adj ); q *= static_cast<T>( s ); if( g.chance( 0.5 ) ) q.normalise( adj ); else q = rbbl::normalise( q, adj ); r.event(); if( adj && q.w() < 0 ) { r.viol( "normalise_sign", vh::cat( log, ": w is ", q.w() ) ); return; } } break;
      case 5: { double const s = g.pick( { 4., 0.5, -2. } ); log += vh::cat( " built with components times ", s, " and normalised" ); T const f = static_cast<T>( s ); q = Q( f * q.w(), f * q.x(), f * q.y(), f * q.z(), true ); } break;
      case 6: { log += " set"; Q s; s.set( q.w(), q.x(), q.y(), q.z() ); Q u( 0, 0, 0, 0 ); u.setZ( s.z() ); u.setX( s.x() ); u.setW( s.w() ); u.setY( s.y() ); q = u; } break;
      case 7: log += " negated"; q = -q; break;
      default: { log += " twice, halved"; Q s( q ); s += q; s -= Q( 0, 0, 0, 0 ); if( g.chance( 0.5 ) ) q = s / T( 2 ); else if( g.chance( 0.5 ) ) q = T( 0.5 ) * s; else q = s - q; } break;
      }
      tol += eps;
      if( !check( q, m, tol ) ) return;
    }
    // distance and interpolation between two rotations
    M a, b; log += " | between"; Q qa = unit( a ), qb = unit( b ); if( g.chance( 0.15 ) ) { qb = qa; b = a; log += " equal"; }
    if( g.chance( 0.3 ) ) qb = -qb;
    double const theta = angleOf( mul( tr( a ), b ) ), at = 8 * std::sqrt( eps );
    if( !near( "quat_angle", " distance", rbbl::angleNormalised( qa, qb ), theta, at ) ) return;
    if( !near( "quat_angle", " distance of scaled quaternions", rbbl::angle( T( 3 ) * qa, T( 0.25 ) * qb ), theta, at ) ) return;
    r.count( "distances of rotations" );
    double const d = static_cast<double>( qa.w() ) * qb.w() + static_cast<double>( qa.x() ) * qb.x() + static_cast<double>( qa.y() ) * qb.y() + static_cast<double>( qa.z() ) * qb.z();
    if( !near( "quat_dot", " dot product", rbbl::dot( qa, qb ), d, eps ) ) return;
    if( d < -0.98 ) return; // nearly opposite quaternions have no defined arc
    double const t = g.pick( { 0., 1., 0.5, g.uni() } ), om = std::acos( std::min( 1., d ) ); Q const i = rbbl::interpolateSpherical( qa, qb, static_cast<T>( t ) );
    double const c0 = om < 1e-4 ? 1 - t : std::sin( ( 1 - t ) * om ) / std::sin( om ), c1 = om < 1e-4 ? t : std::sin( t * om ) / std::sin( om ), it = at / ( 1 + std::min( 0., d ) );
    r.count( om < 1e-4 ? "interpolations between equal rotations" : "interpolations of rotations" );
    if( !near( "quat_slerp", vh::cat( " interpolated at ", t, " w" ), i.w(), c0 * qa.w() + c1 * qb.w(), it ) ) return;
    if( !near( "quat_slerp", vh::cat( " interpolated at ", t ), V{ static_cast<double>( i.x() ), static_cast<double>( i.y() ), static_cast<double>( i.z() ) }, V{ c0 * qa.x() + c1 * qb.x(), c0 * qa.y() + c1 * qb.y(), c0 * qa.z() + c1 * qb.z() }, it ) ) return;
    // zero quaternions
    bool threw = false; try { Q z( 0, 0, 0, 0 ); z.normalise(); } catch( std::runtime_error const & ) { threw = true; }
    r.event(); if( !threw ) r.viol( "normalise_zero", "a zero quaternion was normalised" );
    r.count( "quaternion histories" ); r.nontrivial( log );
  }
  void positions()
  {
    V a = v( p( g.uni( 0.1, 20 ) * direction( g ) ) ); P x = p( a ); double tol = eps * ( 1 + len( a ) ), lim = 1 + len( a );
    for( long k = g.range( 1, 8 ); k > 0; --k )
    {
      M m; V const s = v( p( g.uni( 0, 10 ) * direction( g ) ) ); T const f = static_cast<T>( g.pick( { 2., -1., 0.3 } ) );
      switch( g.index( 10 ) )
      {
      case 0: { Q const q = unit( m ); x.rotate( q ); a = mul( m, a ); log += " rotated"; } break;
      case 1: { Q const q = unit( m ); x = rbbl::rotate( x, q ); a = mul( m, a ); log += " rotated"; } break;
      case 2: x.translate( p( s ) ); a = a + s; log += " translated " + str( s ); break;
      case 3: { Q const q = unit( m ); x.transform( q, p( s ) ); a = mul( m, a ) + s; log += " transformed " + str( s ); } break;
      case 4: { Q const q = unit( m ); x = rbbl::transform( x, q, p( s ) ); a = mul( m, a ) + s; log += " transformed " + str( s ); } break;
      case 5: if( g.chance( 0.5 ) ) x += p( s ); else x = x + p( s ); a = a + s; log += " plus " + str( s ); break;
      case 6: if( g.chance( 0.5 ) ) x -= p( s ); else x = x - p( s ); a = a + -1. * s; log += " minus " + str( s ); break;
      case 7: if( g.chance( 0.5 ) ) x *= f; else x = f * x; a = static_cast<double>( f ) * a; log += vh::cat( " times ", f ); break;
      case 8: x = x / f; a = ( 1 / static_cast<double>( f ) ) * a; log += vh::cat( " over ", f ); break;
      default: x = -x; a = -1. * a; log += " negated";
      }
      lim = std::max( { lim, len( a ), len( s ) } ); tol = 4 * tol + 4 * eps * ( 1 + lim );
      if( !near( "position", " position", v( x ), a, tol ) || !near( "position_norm", " norm", x.norm(), len( a ), 2 * tol ) || !near( "position_norm", " squared norm", x.normSquare(), dot( a, a ), tol * ( 2 * len( a ) + 1 ) ) ) return;
      a = v( x ); tol = eps * ( 1 + len( a ) );
    }
    if( len( a ) > 0.01 )
    {
      P n = x; n.normalise(); if( !near( "normalise", " normalised", v( n ), ( 1 / len( a ) ) * a, eps ) || !near( "normalise", " normalised", v( rbbl::normalise( x ) ), ( 1 / len( a ) ) * a, eps ) ) return;
      V const b = g.chance( 0.25 ) ? v( p( g.uni( 0.5, 2 ) * g.pick( { 1., -1. } ) * a ) ) : v( p( g.uni( 0.1, 5 ) * direction( g ) ) ); P const y = p( b ); log += " and " + str( b );
      double const co = std::max( -1., std::min( 1., dot( a, b ) / len( a ) / len( b ) ) ), th = std::acos( co ), at = 8 * std::sqrt( eps );
      if( !near( "angle", " angle", rbbl::angle( x, y ), th, at ) || !near( "angle", " angle of unit vectors", rbbl::angleNormalised( rbbl::normalise( x ), rbbl::normalise( y ) ), th, at ) || !near( "dot", " dot product", rbbl::dot( x, y ), dot( a, b ), eps * ( 1 + len( a ) * len( b ) ) ) ) return;
      if( co > -0.98 )
      {
        double const t = static_cast<T>( g.pick( { 0., 1., 0.5, g.uni() } ) ), rad = ( 1 - t ) * len( a ) + t * len( b );
        double const c0 = th < 1e-4 ? 1 - t : std::sin( ( 1 - t ) * th ) / std::sin( th ), c1 = th < 1e-4 ? t : std::sin( t * th ) / std::sin( th );
        V const w = rad * ( ( c0 / len( a ) ) * a + ( c1 / len( b ) ) * b ); r.count( th < 1e-4 ? "interpolations on a ray" : "interpolations of positions" );
        if( !near( "slerp", vh::cat( " interpolated at ", t ), v( rbbl::interpolateSpherical( x, y, static_cast<T>( t ) ) ), w, 2 * at * ( 1 + rad ) / ( 1 + std::min( 0., co ) ) ) ) return;
      }
    }
    bool threw = false; try { P z( 0, 0, 0 ); z.normalise(); } catch( std::runtime_error const & ) { threw = true; }
    r.event(); if( !threw ) r.viol( "normalise_zero", "a zero vector was normalised" );
    threw = false; try { rbbl::angle( P( 0, 0, 0 ), x ); } catch( std::runtime_error const & ) { threw = true; }
    r.event(); if( !threw ) r.viol( "angle_zero", "the angle to a zero vector was computed" );
    r.count( "position histories" ); r.nontrivial( log );
  }
};
static void listener( vh::Run & r )
{
  using L = pml::ListenerPosition; Geo<float> e( r ); Rng & g = r.rng; std::string & log = e.log;
  V a{ 0, 0, 0 }; M m = ypr( 0, 0, 0 ); L l; double tol = e.eps;
  auto coords = [&]{ return Geo<float>::v( Geo<float>::p( g.uni( 0, 5 ) * direction( g ) ) ); };
  auto fl = []( double x ) { return static_cast<float>( x ); };
  switch( g.index( 5 ) )
  {
  case 0: break;
  case 1: { a = coords(); float const y = fl( angle( g ) ), q = fl( angle( g ) ), o = fl( angle( g ) ); m = ypr( y, q, o ); l = L( fl( a[0] ), fl( a[1] ), fl( a[2] ), y, q, o ); log += " scalars"; } break;
  case 2: { a = coords(); float const y = fl( angle( g ) ), q = fl( angle( g ) ), o = fl( angle( g ) ); m = ypr( y, q, o ); l = L( Geo<float>::p( a ), L::OrientationYPR{ { y, q, o } } ); log += " vectors"; } break;
  case 3: { a = coords(); auto const q = e.unit( m ); l = L( Geo<float>::p( a ), q ); log += " quaternion"; } break;
  default: { a = coords(); V const d = coords(); if( len( d ) < 0.1 ) return; float const t = fl( angle( g ) ); m = axisAngle( d, t ); l = L::fromRotationVector( Geo<float>::p( a ), Geo<float>::p( d ), t ); log += " rotation vector"; }
  }
  std::uint64_t tm = 0; unsigned face = 0; std::size_t nl = l.numberOfListeners();
  for( long k = g.range( 0, 8 ); k >= 0; --k )
  {
    V const s = coords(); M n; tol += e.eps * ( 1 + len( a ) );
    switch( g.index( 14 ) )
    {
    case 0: l.translate( Geo<float>::p( s ) ); a = a + s; log += " translate"; break;
    case 1: l.rotate( e.unit( n ) ); a = mul( n, a ); m = mul( n, m ); log += " rotate"; break;
    case 2: l.rotatePosition( e.unit( n ) ); a = mul( n, a ); log += " rotatePosition"; break;
    case 3: l.rotateOrientation( e.unit( n ) ); m = mul( n, m ); log += " rotateOrientation"; break;
    case 4: l.transform( e.unit( n ), Geo<float>::p( s ) ); a = mul( n, a ) + s; m = mul( n, m ); log += " transform"; break;
    case 5: l.setX( fl( s[0] ) ); a[0] = s[0]; log += " setX"; break;
    case 6: l.setY( fl( s[1] ) ); a[1] = s[1]; log += " setY"; break;
    case 7: l.setZ( fl( s[2] ) ); a[2] = s[2]; log += " setZ"; break;
    case 8: a = s; if( g.chance( 0.3 ) ) l.set( fl( s[0] ), fl( s[1] ), fl( s[2] ) ); else if( g.chance( 0.5 ) ) l.setPosition( Geo<float>::p( s ) ); else if( g.chance( 0.5 ) ) l.setPosition( fl( s[0] ), fl( s[1] ), fl( s[2] ) ); else { a[2] = 0; l.setPosition( fl( s[0] ), fl( s[1] ) ); } log += " setPosition"; break;
    case 9: l.setOrientationQuaternion( e.unit( m ) ); log += " setOrientationQuaternion"; break;
    case 10: { float const y = fl( angle( g ) ), q = fl( angle( g ) ), o = fl( angle( g ) ); m = ypr( y, q, o ); if( g.chance( 0.5 ) ) l.setOrientationYPR( y, q, o ); else l.setOrientationYPR( L::OrientationYPR{ { y, q, o } } ); log += vh::cat( " setOrientationYPR ", y, " ", q, " ", o ); } break;
    case 11: { V const d = coords(); if( len( d ) < 0.1 ) break; float const t = fl( angle( g ) ); m = axisAngle( d, t ); l.setOrientationRotationVector( Geo<float>::p( d ), t ); log += " setOrientationRotationVector"; } break;
    case 12: tm = g.next(); face = static_cast<unsigned>( g.next() ); nl = g.index( 9 ); l.setTimeNs( tm ); l.setFaceID( face ); l.setNumberOfListeners( nl ); log += " attributes"; break;
    default: { L c( l ); L d; d = c; c.setX( 77 ); l = g.chance( 0.5 ) ? std::move( d ) : static_cast<L const &>( d ); log += " copied"; }
    }
    if( !e.near( "listener_position", " listener", Geo<float>::v( l.position() ), a, tol * 8 * ( 1 + len( a ) ) ) || !e.near( "listener_position", " x", V{ l.x(), l.y(), l.z() }, a, tol * 8 * ( 1 + len( a ) ) ) || !e.check( l.orientationQuaternion(), m, tol * 2 ) ) return;
    auto const o = l.orientationYPR(); auto const & q = l.orientationQuaternion(); r.event();
    if( o[0] != l.yaw() || o[1] != l.pitch() || o[2] != l.roll() || l.yaw() != q.yaw() || l.pitch() != q.pitch() || l.roll() != q.roll() || l.orientationRotationAngle() != q.rotationAngle() || Geo<float>::v( l.orientationRotationVector() ) != Geo<float>::v( q.rotationVector() ) ) { r.viol( "listener_orientation", log + ": orientation accessors disagree" ); return; }
    if( l.timeNs() != tm || l.faceID() != face || l.numberOfListeners() != nl ) { r.viol( "listener_attributes", log + ": attributes changed" ); return; }
  }
  r.count( "listener histories" ); r.nontrivial( log );
}
static void oneCase( vh::Run & r )
{
  switch( r.rng.index( 5 ) )
  {
  case 0: { Geo<float> e( r ); e.quaternions(); } break;
  case 1: { Geo<double> e( r ); e.quaternions(); } break;
  case 2: { Geo<float> e( r ); e.positions(); } break;
  case 3: { Geo<double> e( r ); e.positions(); } break;
  default: listener( r );
  }
}
VH_MAIN( oneCase )
