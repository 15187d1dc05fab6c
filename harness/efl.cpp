// C06: vector, matrix and conversion primitives compute the documented element-wise result for
// every length, alignment and stride, whichever instruction-set variant is in use.
// LIBS: efl
#include "vh.hpp"
#include <complex>
#include <libefl/aligned_array.hpp>
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libefl/filter_functions.hpp>
#include <libefl/initialise_library.hpp>
#include <libefl/lagrange_coefficient_calculator.hpp>
#include <libefl/matrix_functions.hpp>
#include <libefl/vector_conversions.hpp>
#include <libefl/vector_functions.hpp>
#if defined( __x86_64__ )
#include <libefl/intel_x86_64/vector_functions.hpp>
#define HAVE_X86 1
#endif
using namespace visr;
using vh::Rng;

template<class T> struct Real { using type = T; static bool const cplx = false; };
template<class T> struct Real<std::complex<T>> { using type = T; static bool const cplx = true; };
template<class T> struct Name;
template<> struct Name<float> { static char const * get() { return "float"; } };
template<> struct Name<double> { static char const * get() { return "double"; } };
template<> struct Name<std::complex<float>> { static char const * get() { return "complex<float>"; } };
template<> struct Name<std::complex<double>> { static char const * get() { return "complex<double>"; } };

template<class T> struct Rand { static T get( Rng & g, bool exact ) { return exact ? static_cast<T>( g.range( -64, 64 ) ) : static_cast<T>( g.uni( -2, 2 ) ); } };
template<class T> struct Rand<std::complex<T>> { static std::complex<T> get( Rng & g, bool e ) { T a = Rand<T>::get( g, e ); return std::complex<T>( a, Rand<T>::get( g, e ) ); } };
using LC = std::complex<long double>;
template<class T> LC wide( T v ) { return LC( v ); }
template<class T> LC wide( std::complex<T> v ) { return LC( v.real(), v.imag() ); }

// A block of n elements at a chosen offset from an aligned address; the end of the block is the end of the allocation.
template<class T> struct Buf
{
  char * raw; T * p; std::size_t n, off; std::vector<T> shadow;
  Buf( std::size_t n_, std::size_t align, bool misalign, Rng & g, bool exact ): n( n_ )
  {
    std::size_t const unit = align ? align : 1;
    std::size_t const A = 64;
    std::size_t elems = align ? unit * g.index( 3 ) : g.index( 9 );
    if( misalign ) elems = unit * g.index( 2 ) + 1 + g.index( unit - 1 );
    off = elems;
    std::size_t bytes = ( elems + n ) * sizeof( T );
    if( bytes == 0 ) bytes = 1;
    std::size_t const al = std::max<std::size_t>( A, unit * sizeof( T ) );
    raw = static_cast<char *>( std::malloc( bytes + 2 * al ) );
    // place the block so that it ends where the allocation ends
    char * base = raw;
    while( reinterpret_cast<std::uintptr_t>( base ) % al ) ++base;
    std::size_t const lead = static_cast<std::size_t>( base - raw );
    char * exactRaw = static_cast<char *>( std::realloc( raw, lead + bytes ) );
    if( exactRaw != raw )
    {
      // moved: settle for an aligned allocation with slack
      std::free( exactRaw );
      void * q = nullptr;
      if( posix_memalign( &q, al, bytes ) ) std::abort();
      raw = static_cast<char *>( q ); base = raw;
    }
    p = reinterpret_cast<T *>( base ) + elems;
    for( std::size_t i = 0; i < elems; ++i ) new( reinterpret_cast<T *>( base ) + i ) T( static_cast<T>( 77 ) );
    for( std::size_t i = 0; i < n; ++i ) p[i] = Rand<T>::get( g, exact );
    shadow.assign( p - elems, p + n );
  }
  ~Buf() { std::free( raw ); }
  Buf( Buf const & ) = delete;
  bool unchanged() const { return std::equal( shadow.begin(), shadow.end(), p - off ); }
  bool prefixUnchanged() const { return std::equal( shadow.begin(), shadow.begin() + static_cast<long>( off ), p - off ); }
  T old( std::size_t i ) const { return shadow[off + i]; }
};

enum Variant { Wrapped, Ref, Sse, Avx, Fma };
static char const * const varName[] = { "library", "reference", "SSE", "AVX", "FMA" };

template<class T> struct Judge
{
  vh::Run & r; std::string what; bool exact; std::size_t n;
  void near( std::size_t i, T got, LC want, long double mag )
  {
    r.event();
    long double const eps = std::numeric_limits<typename Real<T>::type>::epsilon();
    long double const err = std::abs( wide( got ) - want );
    if( !( err <= ( exact ? 0.0L : 8 * eps * ( mag + 1e-30L ) ) ) )
      r.viol( "value:" + what.substr( 0, what.find( ' ' ) ), vh::cat( what, " n=", n, " element ", i, " is ", got, ", expected ", static_cast<double>( want.real() ), "+", static_cast<double>( want.imag() ), "i" ) );
  }
};

#if HAVE_X86
template<class T> struct X86 { static bool const mul = false, madd = false, cadd = false, ramp = false; };
template<> struct X86<float> { static bool const mul = true, madd = true, cadd = true, ramp = true; };
template<> struct X86<double> { static bool const mul = true, madd = true, cadd = false, ramp = false; };
template<> struct X86<std::complex<float>> { static bool const mul = true, madd = true, cadd = true, ramp = false; };
namespace ix = efl::intel_x86_64;
template<class T, bool have> struct Call
{
  static efl::ErrorCode mul( Variant v, T const * a, T const * b, T * c, std::size_t n, std::size_t al )
  { return v == Sse ? ix::vectorMultiply<T, ix::Feature::SSE>( a, b, c, n, al ) : v == Avx ? ix::vectorMultiply<T, ix::Feature::AVX>( a, b, c, n, al ) : ix::vectorMultiply<T, ix::Feature::FMA>( a, b, c, n, al ); }
  static efl::ErrorCode madd( Variant v, T const * a, T const * b, T * c, std::size_t n, std::size_t al )
  { return v == Sse ? ix::vectorMultiplyAddInplace<T, ix::Feature::SSE>( a, b, c, n, al ) : v == Avx ? ix::vectorMultiplyAddInplace<T, ix::Feature::AVX>( a, b, c, n, al ) : ix::vectorMultiplyAddInplace<T, ix::Feature::FMA>( a, b, c, n, al ); }
  static efl::ErrorCode cadd( Variant v, T k, T const * b, T * c, std::size_t n, std::size_t al )
  { return v == Sse ? ix::vectorMultiplyConstantAddInplace<T, ix::Feature::SSE>( k, b, c, n, al ) : v == Avx ? ix::vectorMultiplyConstantAddInplace<T, ix::Feature::AVX>( k, b, c, n, al ) : ix::vectorMultiplyConstantAddInplace<T, ix::Feature::FMA>( k, b, c, n, al ); }
  static efl::ErrorCode ramp( Variant v, T const * a, T const * b, T * c, T x, T y, std::size_t n, bool acc, std::size_t al )
  { return v == Sse ? ix::vectorRampScaling<T, ix::Feature::SSE>( a, b, c, x, y, n, acc, al ) : v == Avx ? ix::vectorRampScaling<T, ix::Feature::AVX>( a, b, c, x, y, n, acc, al ) : ix::vectorRampScaling<T, ix::Feature::FMA>( a, b, c, x, y, n, acc, al ); }
};
#endif

template<class T> static void vectorCase( vh::Run & r )
{
  Rng & g = r.rng;
  using R = typename Real<T>::type;
  bool const exact = g.chance( 0.5 );
  std::size_t const n = g.chance( 0.15 ) ? g.index( 3 ) : g.chance( 0.9 ) ? g.index( 70 ) : 200 + g.index( 200 );
  std::size_t const align = static_cast<std::size_t>( g.pick<int>( { 0, 0, 1, 2, 4, 8, 16 } ) );
  bool const mis = align >= 2 && g.chance( 0.15 );
  int const misWho = static_cast<int>( g.index( 3 ) );
  Buf<T> a( n, align, mis && misWho == 0, g, exact ), b( n, align, mis && misWho == 1, g, exact ), c( n, align, false, g, exact ), d( n, align, mis && misWho == 2, g, exact );
  T const k = Rand<T>::get( g, exact ), k2 = Rand<T>::get( g, exact );
  int const op = static_cast<int>( g.index( 24 ) );
  Variant var = Wrapped;
  if( g.chance( 0.35 ) ) var = Ref;
#if HAVE_X86
  else if( g.chance( 0.6 ) )
  {
    static bool const fma = __builtin_cpu_supports( "fma" ) && __builtin_cpu_supports( "avx2" ), avx = __builtin_cpu_supports( "avx" ), sse = __builtin_cpu_supports( "sse4.2" );
    Variant w = g.pick<Variant>( { Sse, Avx, Fma } );
    if( ( w == Fma && fma ) || ( w == Avx && avx ) || ( w == Sse && sse ) ) var = w;
  }
#endif
  if( var == Ref ) efl::uninitialiseLibrary(); else efl::initialiseLibrary();
  static char const * const names[] = { "zero", "fill", "copy", "ramp", "add", "addInplace", "addConstant", "addConstantInplace", "subtract", "subtractInplace", "subtractConstant",
    "subtractConstantInplace", "multiply", "multiplyInplace", "multiplyConstant", "multiplyConstantInplace", "multiplyAdd", "multiplyAddInplace", "multiplyConstantAdd", "multiplyConstantAddInplace",
    "copyStrided", "fillStrided", "rampScaling", "rampScalingAccumulate" };
  Judge<T> J{ r, vh::cat( names[op], " ", Name<T>::get(), " ", varName[var], " align=", align ), exact, n };
  T * D = d.p; T const * A = a.p; T const * B = b.p; T const * C = c.p;
  // which operands the function takes, for the misalignment clause
  bool usesA = false, usesB = false, usesD = true, usesC = false, written = true;
  efl::ErrorCode e = efl::noError;
  auto want = [&]( std::function<LC( std::size_t )> f, std::function<long double( std::size_t )> m ) {
    for( std::size_t i = 0; i < n; ++i ) J.near( i, D[i], f( i ), m( i ) );
  };
  auto wA = [&]( std::size_t i ) { return wide( a.old( i ) ); };
  auto wB = [&]( std::size_t i ) { return wide( b.old( i ) ); };
  auto wC = [&]( std::size_t i ) { return wide( c.old( i ) ); };
  auto wD = [&]( std::size_t i ) { return wide( d.old( i ) ); };
  LC const K = wide( k ), K2 = wide( k2 );
  std::function<LC( std::size_t )> f; std::function<long double( std::size_t )> m = [&]( std::size_t i ) { return std::abs( f( i ) ); };
  bool judged = true;
  switch( op )
  {
  case 0: e = efl::vectorZero( D, n, align ); f = [&]( std::size_t ) { return LC( 0 ); }; break;
  case 1: e = efl::vectorFill( k, D, n, align ); f = [&]( std::size_t ) { return K; }; break;
  case 2: e = efl::vectorCopy( A, D, n, align ); usesA = true; f = wA; break;
  case 3:
  {
    bool const si = g.chance( 0.5 ), ei = g.chance( 0.5 );
    if( n == 1 && si && ei && k != k2 ) { judged = false; written = true; e = efl::vectorRamp( D, n, k, k, si, ei, align ); f = [&]( std::size_t ) { return K; }; judged = true; break; }
    e = efl::vectorRamp( D, n, k, k2, si, ei, align );
    long double const steps = static_cast<long double>( n ) + 1 - ( si ? 1 : 0 ) - ( ei ? 1 : 0 );
    J.exact = false;
    f = [=]( std::size_t i ) { return K + ( K2 - K ) * ( steps ? ( static_cast<long double>( i ) + ( si ? 0 : 1 ) ) / steps : 0.0L ); };
    m = [&]( std::size_t i ) { (void)i; return static_cast<long double>( n + 4 ) * ( std::abs( K ) + std::abs( K2 ) ); };
    J.what += vh::cat( si ? " startInclusive" : "", ei ? " endInclusive" : "" );
    break;
  }
  case 4: e = efl::vectorAdd( A, B, D, n, align ); usesA = usesB = true; f = [&]( std::size_t i ) { return wA( i ) + wB( i ); }; break;
  case 5: e = efl::vectorAddInplace( A, D, n, align ); usesA = true; f = [&]( std::size_t i ) { return wA( i ) + wD( i ); }; break;
  case 6: e = efl::vectorAddConstant( k, A, D, n, align ); usesA = true; f = [&]( std::size_t i ) { return wA( i ) + K; }; break;
  case 7: e = efl::vectorAddConstantInplace( k, D, n, align ); f = [&]( std::size_t i ) { return wD( i ) + K; }; break;
  case 8: e = efl::vectorSubtract( A, B, D, n, align ); usesA = usesB = true; f = [&]( std::size_t i ) { return wA( i ) - wB( i ); }; break;
  case 9: e = efl::vectorSubtractInplace( A, D, n, align ); usesA = true; f = [&]( std::size_t i ) { return wA( i ) - wD( i ); }; break;
  case 10: e = efl::vectorSubtractConstant( k, A, D, n, align ); usesA = true; f = [&]( std::size_t i ) { return wA( i ) - K; }; break;
  case 11: e = efl::vectorSubtractConstantInplace( k, D, n, align ); f = [&]( std::size_t i ) { return wD( i ) - K; }; break;
  case 12:
    usesA = usesB = true; f = [&]( std::size_t i ) { return wA( i ) * wB( i ); }; m = [&]( std::size_t i ) { return std::abs( wA( i ) ) * std::abs( wB( i ) ); };
#if HAVE_X86
    if constexpr( X86<T>::mul ) { if( var >= Sse ) { e = Call<T, true>::mul( var, A, B, D, n, align ); break; } }
#endif
    e = efl::vectorMultiply( A, B, D, n, align ); break;
  case 13: e = efl::vectorMultiplyInplace( A, D, n, align ); usesA = true; f = [&]( std::size_t i ) { return wA( i ) * wD( i ); }; m = [&]( std::size_t i ) { return std::abs( wA( i ) ) * std::abs( wD( i ) ); }; break;
  case 14: e = efl::vectorMultiplyConstant( k, A, D, n, align ); usesA = true; f = [&]( std::size_t i ) { return wA( i ) * K; }; m = [&]( std::size_t i ) { return std::abs( wA( i ) ) * std::abs( K ); }; break;
  case 15: e = efl::vectorMultiplyConstantInplace( k, D, n, align ); f = [&]( std::size_t i ) { return wD( i ) * K; }; m = [&]( std::size_t i ) { return std::abs( wD( i ) ) * std::abs( K ); }; break;
  case 16: e = efl::vectorMultiplyAdd( A, B, C, D, n, align ); usesA = usesB = usesC = true; f = [&]( std::size_t i ) { return wA( i ) * wB( i ) + wC( i ); }; m = [&]( std::size_t i ) { return std::abs( wA( i ) ) * std::abs( wB( i ) ) + std::abs( wC( i ) ); }; break;
  case 17:
    usesA = usesB = true; f = [&]( std::size_t i ) { return wA( i ) * wB( i ) + wD( i ); }; m = [&]( std::size_t i ) { return std::abs( wA( i ) ) * std::abs( wB( i ) ) + std::abs( wD( i ) ); };
#if HAVE_X86
    if constexpr( X86<T>::madd ) { if( var >= Sse ) { e = Call<T, true>::madd( var, A, B, D, n, align ); break; } }
#endif
    e = efl::vectorMultiplyAddInplace( A, B, D, n, align ); break;
  case 18: e = efl::vectorMultiplyConstantAdd( k, A, C, D, n, align ); usesA = usesC = true; f = [&]( std::size_t i ) { return wA( i ) * K + wC( i ); }; m = [&]( std::size_t i ) { return std::abs( wA( i ) ) * std::abs( K ) + std::abs( wC( i ) ); }; break;
  case 19:
    usesA = true; f = [&]( std::size_t i ) { return wA( i ) * K + wD( i ); }; m = [&]( std::size_t i ) { return std::abs( wA( i ) ) * std::abs( K ) + std::abs( wD( i ) ); };
    // this function takes the promised alignment on trust
    if( mis && ( misWho == 0 || misWho == 2 ) ) { r.count( "skipped: broken alignment promise" ); return; }
#if HAVE_X86
    if constexpr( X86<T>::cadd ) { if( var >= Sse ) { e = Call<T, true>::cadd( var, k, A, D, n, align ); break; } }
#endif
    e = efl::vectorMultiplyConstantAddInplace( k, A, D, n, align ); break;
  case 20: case 21:
  {
    // strides: operate on a sub-grid of the buffers
    std::size_t const ss = 1 + g.index( 4 ), ds = 1 + g.index( 4 );
    std::size_t const cnt = n ? std::min( ( n - 1 ) / ss, ( n - 1 ) / ds ) + 1 : 0;
    if( op == 20 ) { e = efl::vectorCopyStrided( A, D, ss, ds, cnt, align ); usesA = true; }
    else e = efl::vectorFillStrided( k, D, ds, op == 21 && n ? ( n - 1 ) / ds + 1 : 0, align );
    std::size_t const written2 = op == 20 ? cnt : n ? ( n - 1 ) / ds + 1 : 0;
    if( e == efl::noError )
      for( std::size_t i = 0; i < n; ++i )
      {
        r.event();
        T w = ( i % ds == 0 && i / ds < written2 ) ? ( op == 20 ? a.old( i / ds * ss ) : k ) : d.old( i );
        if( D[i] != w ) { r.viol( vh::cat( "value:", names[op] ), vh::cat( J.what, " n=", n, " strides ", ss, "/", ds, " element ", i, " is ", D[i], ", expected ", w ) ); break; }
      }
    judged = false; break;
  }
  case 22: case 23:
  {
    bool const acc = op == 23; usesA = usesB = true;
    J.exact = exact;
    f = [=, &a, &b, &d]( std::size_t i ) { return ( K + K2 * wide( b.old( i ) ) ) * wide( a.old( i ) ) + ( acc ? wide( d.old( i ) ) : LC( 0 ) ); };
    m = [=, &a, &b, &d]( std::size_t i ) { return 2 * ( std::abs( K ) + std::abs( K2 * wide( b.old( i ) ) ) ) * std::abs( wide( a.old( i ) ) ) + std::abs( wide( d.old( i ) ) ); };
#if HAVE_X86
    if constexpr( X86<T>::ramp ) { if( var >= Sse ) { e = Call<T, true>::ramp( var, A, B, D, k, k2, n, acc, align ); break; } }
#endif
    e = efl::vectorRampScaling( A, B, D, k, k2, n, acc, align ); break;
  }
  }
  bool const broken = mis && ( ( misWho == 0 && usesA ) || ( misWho == 1 && usesB ) || ( misWho == 2 && usesD ) );
  if( broken )
  {
    if( e != efl::alignmentError ) r.viol( vh::cat( "alignment:", names[op] ), vh::cat( J.what, ": returned ", efl::errorMessage( e ), " for a misaligned operand" ) );
    if( !d.unchanged() ) r.viol( vh::cat( "alignment_written:", names[op] ), vh::cat( J.what, " wrote its result although it reported an error" ) );
    r.count( "misaligned operands reported" );
  }
  else
  {
    if( e != efl::noError ) r.viol( vh::cat( "error:", names[op] ), vh::cat( J.what, " n=", n, ": ", efl::errorMessage( e ) ) );
    else if( judged ) want( f, m );
    if( !d.prefixUnchanged() ) r.viol( vh::cat( "before:", names[op] ), vh::cat( J.what, " n=", n, " wrote in front of the result" ) );
  }
  if( !a.unchanged() || !b.unchanged() || !c.unchanged() ) r.viol( vh::cat( "operand_changed:", names[op] ), vh::cat( J.what, " n=", n, " changed an operand" ) );
  (void)usesC; (void)written;
  r.count( vh::cat( "operations on the ", varName[var], " variant" ) );
  if( n > 0 ) r.nontrivial( vh::cat( J.what, n ) );
  r.sample( vh::cat( J.what, " n=", n, exact ? " integer values" : " real values" ) );
}

template<class S, class D> static void convertCase( vh::Run & r, char const * name )
{
  Rng & g = r.rng;
  std::size_t const n = g.index( 40 ), is = 1 + g.index( 3 ), os = 1 + g.index( 3 );
  int const how = static_cast<int>( g.index( 4 ) );
  std::size_t const si = how == 1 || how == 3 ? is : 1, so = how == 2 || how == 3 ? os : 1;
  std::vector<S> in( n ? ( n - 1 ) * si + 1 : 0 ); std::vector<D> out( n ? ( n - 1 ) * so + 1 : 0 );
  double const lim = std::min<double>( std::is_integral<D>::value ? std::pow( 2.0, 8.0 * sizeof( D ) - 1 ) * 0.99 : 1e9, std::is_integral<S>::value ? std::pow( 2.0, 8.0 * sizeof( S ) - 1 ) * 0.99 : 1e9 );
  double const range = g.chance( 0.5 ) ? std::min( lim, 100.0 ) : lim;
  for( auto & x : in ) { double v = g.uni( -range, range ); if( g.chance( 0.3 ) ) v = std::floor( v ) + 0.5; if( std::fabs( v ) > lim ) v = 0; x = static_cast<S>( v ); }
  for( auto & x : out ) x = static_cast<D>( 99 );
  std::vector<S> const in0 = in;
  efl::ErrorCode e = how == 0 ? efl::vectorConvert<S, D>( in.data(), out.data(), n, 0 ) : how == 1 ? efl::vectorConvertInputStride<S, D>( in.data(), out.data(), n, si, 0 )
    : how == 2 ? efl::vectorConvertOutputStride<S, D>( in.data(), out.data(), n, so, 0 ) : efl::vectorConvertInputOutputStride<S, D>( in.data(), out.data(), n, si, so, 0 );
  if( e != efl::noError ) r.viol( "convert_error", vh::cat( name, ": ", efl::errorMessage( e ) ) );
  if( in != in0 ) r.viol( "convert_operand", vh::cat( name, " changed its input" ) );
  for( std::size_t i = 0; i < out.size(); ++i )
  {
    r.event();
    D w = static_cast<D>( 99 );
    if( i % so == 0 )
    {
      S const s = in0[ i / so * si ];
      if( std::is_floating_point<S>::value && std::is_integral<D>::value ) w = static_cast<D>( std::nearbyintl( static_cast<long double>( s ) ) ); else w = static_cast<D>( s );
    }
    if( out[i] != w ) { r.viol( "convert_value", vh::cat( name, " strides ", si, "/", so, " element ", i, " is ", static_cast<double>( out[i] ), ", expected ", static_cast<double>( w ) ) ); break; }
  }
  r.count( "conversions" );
  if( n ) r.nontrivial( vh::cat( name, n, si, so ) );
}

template<class T> static void containerCase( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const al = static_cast<std::size_t>( g.pick<int>( { 0, 1, 2, 4, 8, 16, 32 } ) ), al2 = static_cast<std::size_t>( g.pick<int>( { 0, 1, 2, 4, 8, 16, 32 } ) );
  std::size_t nr = g.index( 7 ), nc = g.index( 12 );
  efl::BasicMatrix<T> m( nr, nc, al );
  std::vector<std::vector<T>> ref( nr, std::vector<T>( nc, T( 0 ) ) );
  auto judge = [&]( efl::BasicMatrix<T> const & q, std::vector<std::vector<T>> const & w, char const * when ) {
    std::size_t const R = w.size(), C = R ? w[0].size() : q.numberOfColumns();
    if( q.numberOfRows() != R || q.numberOfColumns() != C ) { r.viol( "matrix_shape", vh::cat( "after ", when, ": ", q.numberOfRows(), "x", q.numberOfColumns(), " instead of ", R, "x", C ) ); return; }
    if( q.stride() < q.numberOfColumns() ) r.viol( "matrix_stride", vh::cat( "after ", when, ": stride ", q.stride() ) );
    for( std::size_t i = 0; i < R; ++i )
    {
      if( C && q.alignmentElements() > 1 && reinterpret_cast<std::uintptr_t>( q.row( i ) ) % ( q.alignmentElements() * sizeof( T ) ) ) { r.viol( "matrix_alignment", vh::cat( "after ", when, ": row ", i, " of a matrix with alignment ", q.alignmentElements(), " is misaligned" ) ); return; }
      for( std::size_t j = 0; j < C; ++j )
      {
        r.event();
        if( q( i, j ) != w[i][j] || q.at( i, j ) != w[i][j] || q.row( i )[j] != w[i][j] ) { r.viol( "matrix_value", vh::cat( "after ", when, ": (", i, ",", j, ") is ", q( i, j ), " instead of ", w[i][j] ) ); return; }
      }
    }
    bool thrown = false;
    try { q.at( g.chance( 0.5 ) ? R : R ? R - 1 : 0, C ); } catch( std::out_of_range const & ) { thrown = true; }
    if( !thrown ) r.viol( "matrix_at", "at() accepted an index past the end" );
  };
  judge( m, ref, "construction" );
  for( int step = 0, ns = static_cast<int>( g.range( 1, 12 ) ); step < ns; ++step )
    switch( g.index( 8 ) )
    {
    case 0: if( nr && nc ) { std::size_t i = g.index( nr ), j = g.index( nc ); m( i, j ) = ref[i][j] = Rand<T>::get( g, true ); } break;
    case 1: if( nr ) { std::vector<T> v( nc ); for( auto & x : v ) x = Rand<T>::get( g, true ); std::size_t i = g.index( nr ); m.setRow( i, v.data() ); ref[i] = v; judge( m, ref, "setRow" ); } break;
    case 2: if( nc ) { std::vector<T> v( nr ); for( auto & x : v ) x = Rand<T>::get( g, true ); std::size_t j = g.index( nc ); m.setColumn( j, v.data() ); for( std::size_t i = 0; i < nr; ++i ) ref[i][j] = v[i]; judge( m, ref, "setColumn" ); } break;
    case 3: nr = g.index( 7 ); nc = g.index( 12 ); m.resize( nr, nc ); ref.assign( nr, std::vector<T>( nc, T( 0 ) ) ); judge( m, ref, "resize" ); break;
    case 4: { T v = Rand<T>::get( g, true ); m.fillValue( v ); for( auto & x : ref ) for( auto & y : x ) y = v; judge( m, ref, "fillValue" ); break; }
    case 5: m.zeroFill(); for( auto & x : ref ) for( auto & y : x ) y = T( 0 ); judge( m, ref, "zeroFill" ); break;
    case 6:
    {
      efl::BasicMatrix<T> o( nr, nc, al2 ); o.copy( m ); judge( o, ref, "copy between alignments" ); judge( m, ref, "being copied" );
      bool thrown = false; efl::BasicMatrix<T> bad( nr + 1, nc, al2 ); try { bad.copy( m ); } catch( std::invalid_argument const & ) { thrown = true; }
      if( !thrown ) r.viol( "matrix_copy_shape", "copy() accepted a matrix of another shape" );
      break;
    }
    case 7:
    {
      efl::BasicMatrix<T> o( nr, nc, al ); for( std::size_t i = 0; i < nr; ++i ) for( std::size_t j = 0; j < nc; ++j ) o( i, j ) = T( 5 );
      std::vector<std::vector<T>> five( nr, std::vector<T>( nc, T( 5 ) ) );
      o.swap( m ); judge( o, ref, "swap" ); judge( m, five, "swap" ); ref = five;
      efl::BasicMatrix<T> moved( std::move( m ) ); judge( moved, ref, "move construction" );
      m = efl::BasicMatrix<T>( nr, nc, al ); m.copy( moved ); judge( m, ref, "move assignment" );
      break;
    }
    }
  std::size_t const vn = g.index( 20 );
  efl::BasicVector<T> v( vn, al ), w( vn, al2 );
  for( std::size_t i = 0; i < vn; ++i ) { if( v[i] != T( 0 ) ) r.viol( "vector_zero", "a new vector is not zero" ); v[i] = Rand<T>::get( g, true ); }
  w.copy( v ); efl::BasicVector<T> x( al2 ); x.assign( v );
  if( w.size() != vn || x.size() != vn ) r.viol( "vector_size", "copy or assign changed the length" );
  for( std::size_t i = 0; i < vn; ++i ) { r.event(); if( w.at( i ) != v[i] || x[i] != v[i] ) { r.viol( "vector_value", vh::cat( "copied element ", i, " differs" ) ); break; } }
  if( vn && al > 1 && reinterpret_cast<std::uintptr_t>( v.data() ) % ( al * sizeof( T ) ) ) r.viol( "vector_alignment", vh::cat( "vector with alignment ", al, " is misaligned" ) );
  r.count( "container histories" );
  r.nontrivial( vh::cat( "c", Name<T>::get(), al, al2, nr, nc, vn ) );
}

template<class T> static void productCase( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const R = g.index( 6 ), C = g.index( 6 ), K = g.index( 7 );
  // strides in elements: row-major or column-major with padding
  auto layout = [&]( std::size_t rows, std::size_t cols, std::size_t & rs, std::size_t & cs ) { std::size_t pad = g.index( 3 ); if( g.chance( 0.5 ) ) { cs = 1 + ( g.chance( 0.3 ) ? 1 : 0 ); rs = cols * cs + pad; } else { rs = 1 + ( g.chance( 0.3 ) ? 1 : 0 ); cs = rows * rs + pad; } return rows && cols ? ( rows - 1 ) * rs + ( cols - 1 ) * cs + 1 : std::size_t( 0 ); };
  std::size_t ar, ac, br, bc, cr, cc;
  std::vector<T> A( layout( R, K, ar, ac ) ), B( layout( K, C, br, bc ) ), D( layout( R, C, cr, cc ) );
  for( auto & x : A ) x = static_cast<T>( g.range( -9, 9 ) );
  for( auto & x : B ) x = static_cast<T>( g.range( -9, 9 ) );
  for( auto & x : D ) x = static_cast<T>( 1000 );
  std::vector<T> const D0 = D;
  efl::ErrorCode e = efl::product<T>( A.data(), B.data(), D.data(), R, C, K, ar, ac, br, bc, cr, cc );
  if( e != efl::noError ) r.viol( "product_error", "matrix product failed" );
  std::vector<T> W = D0;
  for( std::size_t i = 0; i < R; ++i ) for( std::size_t j = 0; j < C; ++j ) { T s = 0; for( std::size_t k = 0; k < K; ++k ) s += A[i * ar + k * ac] * B[k * br + j * bc]; W[i * cr + j * cc] = s; }
  r.event( static_cast<long>( R * C ) );
  if( W != D ) r.viol( "product_value", vh::cat( R, "x", K, " times ", K, "x", C, ": got ", vh::vec( D ), " expected ", vh::vec( W ) ) );
  r.count( "matrix products" ); r.nontrivial( vh::cat( "p", R, ",", C, ",", K, ",", ar, ",", br, ",", cr ) );
}

template<class T, std::size_t N, bool rev> static void lagrange( vh::Run & r )
{
  Rng & g = r.rng;
  efl::LagrangeCoefficientCalculator<T, N, rev> calc;
  for( int rep = 0; rep < 4; ++rep )
  {
    T const mu = static_cast<T>( g.uni( -0.5, 0.5 ) + ( N % 2 ? 0.0 : 0.0 ) );
    T c[N + 1]; calc.calculateCoefficients( mu, c );
    for( std::size_t i = 0; i <= N; ++i )
    {
      long double const half = 0.5L * N;
      auto node = [&]( std::size_t k ) { return rev ? half - k : static_cast<long double>( k ) - half; };
      long double w = 1, scale = 1;
      for( std::size_t k = 0; k <= N; ++k ) if( k != i ) { w *= ( static_cast<long double>( mu ) - node( k ) ) / ( node( i ) - node( k ) ); scale = std::max( scale, std::fabs( w ) ); }
      r.event();
      if( !( std::fabs( static_cast<long double>( c[i] ) - w ) <= 200 * std::numeric_limits<T>::epsilon() * scale ) ) { r.viol( "lagrange", vh::cat( "order ", N, rev ? " reversed" : "", " mu=", mu, " coefficient ", i, " is ", c[i], ", expected ", static_cast<double>( w ) ) ); return; }
    }
  }
}
template<class T, bool rev> static void lagrangeAny( vh::Run & r, std::size_t n )
{
  switch( n )
  {
  case 0: lagrange<T, 0, rev>( r ); break; case 1: lagrange<T, 1, rev>( r ); break; case 2: lagrange<T, 2, rev>( r ); break; case 3: lagrange<T, 3, rev>( r ); break; case 4: lagrange<T, 4, rev>( r ); break;
  case 5: lagrange<T, 5, rev>( r ); break; case 6: lagrange<T, 6, rev>( r ); break; case 7: lagrange<T, 7, rev>( r ); break; case 8: lagrange<T, 8, rev>( r ); break; default: lagrange<T, 9, rev>( r ); break;
  }
}

template<class T> static void biquadCase( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const sec = g.index( 5 ), cs = 5 + g.index( 4 ), ss = 2 + g.index( 3 );
  std::vector<T> coef( sec ? ( sec - 1 ) * cs + 5 : 0 ), state( sec ? ( sec - 1 ) * ss + 2 : 0, T( 0 ) );
  for( auto & x : coef ) x = static_cast<T>( g.uni( -0.45, 0.45 ) );
  std::vector<std::array<long double, 4>> h( sec, { 0, 0, 0, 0 } );
  bool const inplace = g.chance( 0.3 );
  for( int blk = 0; blk < 3; ++blk )
  {
    std::size_t const n = g.index( 20 );
    std::vector<T> x( n ), y( n ); for( auto & v : x ) v = static_cast<T>( g.uni( -1, 1 ) );
    std::vector<long double> w( x.begin(), x.end() );
    for( std::size_t s = 0; s < sec; ++s ) for( auto & v : w ) { T const * c = &coef[s * cs]; auto & q = h[s]; long double o = c[0] * v + c[1] * q[0] + c[2] * q[1] - c[3] * q[2] - c[4] * q[3]; q[1] = q[0]; q[0] = v; q[3] = q[2]; q[2] = o; v = o; }
    if( inplace ) { y = x; efl::iirFilterBiquadsSingleChannel<T>( y.data(), y.data(), state.data(), coef.data(), n, sec, ss, cs, 0 ); }
    else efl::iirFilterBiquadsSingleChannel<T>( x.data(), y.data(), state.data(), coef.data(), n, sec, ss, cs, 0 );
    for( std::size_t i = 0; i < n; ++i ) { r.event(); if( !( std::fabs( y[i] - w[i] ) <= 2000 * std::numeric_limits<T>::epsilon() * ( 1 + std::fabs( w[i] ) ) ) ) { r.viol( "biquad", vh::cat( sec, " sections, block ", blk, " sample ", i, ": ", y[i], " expected ", static_cast<double>( w[i] ) ) ); return; } }
  }
  r.count( "biquad cascades" ); r.nontrivial( vh::cat( "b", sec, cs, ss, r.caseIdx ) );
}

#define CONV( S, D ) convertCase<S, D>( r, #S " to " #D )
static void oneCase( vh::Run & r )
{
  Rng & g = r.rng;
  switch( g.index( 14 ) )
  {
  default:
    switch( g.index( 4 ) ) { case 0: vectorCase<float>( r ); break; case 1: vectorCase<double>( r ); break; case 2: vectorCase<std::complex<float>>( r ); break; case 3: vectorCase<std::complex<double>>( r ); break; }
    break;
  case 0:
    switch( g.index( 16 ) )
    {
    case 0: CONV( float, int16_t ); break; case 1: CONV( float, int32_t ); break; case 2: CONV( double, int16_t ); break; case 3: CONV( double, int32_t ); break;
    case 4: CONV( int16_t, float ); break; case 5: CONV( int32_t, float ); break; case 6: CONV( int32_t, double ); break; case 7: CONV( int8_t, float ); break;
    case 8: CONV( float, int8_t ); break; case 9: CONV( double, int8_t ); break; case 10: CONV( float, double ); break; case 11: CONV( double, float ); break;
    case 12: CONV( int64_t, double ); break; case 13: CONV( double, int64_t ); break; case 14: CONV( float, float ); break; case 15: CONV( int16_t, double ); break;
    }
    break;
  case 1: switch( g.index( 4 ) ) { case 0: containerCase<float>( r ); break; case 1: containerCase<double>( r ); break; case 2: containerCase<std::complex<float>>( r ); break; case 3: containerCase<std::complex<double>>( r ); break; } break;
  case 2: if( g.chance( 0.5 ) ) productCase<float>( r ); else productCase<double>( r ); break;
  case 3:
  {
    std::size_t const n = g.index( 10 ); bool const rev = g.chance( 0.5 ), dbl = g.chance( 0.5 );
    if( dbl ) { if( rev ) lagrangeAny<double, true>( r, n ); else lagrangeAny<double, false>( r, n ); } else { if( rev ) lagrangeAny<float, true>( r, n ); else lagrangeAny<float, false>( r, n ); }
    r.count( "interpolation coefficient sets" ); r.nontrivial( vh::cat( "l", n, rev, dbl, r.caseIdx ) ); break;
  }
  case 4: if( g.chance( 0.5 ) ) biquadCase<float>( r ); else biquadCase<double>( r ); break;
  }
}
VH_MAIN( oneCase )
