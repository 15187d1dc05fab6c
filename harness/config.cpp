// C11: configuration texts. A routing table, matrix, vector, filter or listener position has exactly the content its text
// (or file) states; inadmissible texts are refused as a whole; written texts read back as the same value.
#define VISR_PML_USE_SNDFILE_LIBRARY 1 // as the libraries are built
#include "vh.hpp"
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/biquad_coefficient.hpp>
#include <librbbl/float_sequence.hpp>
#include <librbbl/index_sequence.hpp>
#include <librbbl/parametric_iir_coefficient.hpp>
#include <libvisr/channel_list.hpp>
#include <boost/property_tree/ptree.hpp>
#include <complex>
#include <fstream>
using namespace visr;
using vh::Rng;

static std::string ws( Rng & g ) { static char const * w[] = { "", "", "", " ", "  ", "\t", "\n", " \r\n" }; return w[g.index( 8 )]; }
static std::string num( Rng & g, double v )
{
  char b[64];
  switch( g.index( 4 ) ) { case 0: std::snprintf( b, 64, "%.17g", v ); break; case 1: std::snprintf( b, 64, "%.16e", v ); break; case 2: std::snprintf( b, 64, "%.17G", v ); break; default: std::snprintf( b, 64, "%+.17g", v ); }
  return b;
}
// Numbers as JSON allows them.
static std::string jnum( Rng & g, double v ) { char b[64]; std::snprintf( b, 64, g.chance( 0.5 ) ? "%.17g" : "%.16e", v ); return g.chance( 0.5 ) ? std::string( b ) : vh::cat( "\"", b, "\"" ); }
static double value( Rng & g )
{
  switch( g.index( 7 ) ) { case 0: return 0; case 1: return 1; case 2: return static_cast<double>( g.range( -20, 20 ) ); case 3: return g.uni( -1, 1 ) * 1e-6; case 4: return g.uni( -1, 1 ) * 1e7; default: return g.uni( -3, 3 ); }
}
template<class T> static bool close( T a, double b ) { return std::abs( static_cast<double>( a ) - b ) <= ( std::is_same<T, float>::value ? 2e-6 : 1e-14 ) * ( std::abs( b ) + 1e-12 ); }
static bool close( std::complex<float> a, double b ) { return a.imag() == 0 && close( a.real(), b ); }
static bool close( std::complex<double> a, double b ) { return a.imag() == 0 && close( a.real(), b ); }

template<class F> static bool refuses( F f ) { try { f(); } catch( std::exception const & ) { return true; } return false; }
// Damage a text; the result is usually inadmissible.
static std::string mutate( Rng & g, std::string s )
{
  int const n = 1 + static_cast<int>( g.index( 3 ) );
  static char const junk[] = "0123456789,:;=%{}[]\"\\ -+.eE\n\txyz<>/\x01\xff";
  for( int k = 0; k < n; ++k )
  {
    if( s.empty() ) { s += junk[g.index( sizeof junk - 1 )]; continue; }
    std::size_t const p = g.index( s.size() );
    switch( g.index( 5 ) )
    {
    case 0: s.erase( p, 1 + g.index( 4 ) ); break;
    case 1: s[p] = junk[g.index( sizeof junk - 1 )]; break;
    case 2: s.insert( p, 1, junk[g.index( sizeof junk - 1 )] ); break;
    case 3: s.resize( p ); break;
    default: { std::size_t const q = g.index( s.size() ), l = std::min<std::size_t>( s.size() - q, 1 + g.index( 8 ) ); s.insert( p, s.substr( q, l ) ); }
    }
  }
  // Keep ranges small enough to be expanded: no runs of more than 4 digits.
  std::string o; int digits = 0;
  for( char c : s ) { if( c >= '0' && c <= '9' ) { if( ++digits > 4 ) continue; } else digits = 0; if( ( c == 'e' || c == 'E' ) && digits == 0 && !o.empty() && o.back() >= '0' && o.back() <= '9' ) c = 'x'; o += c; }
  return o;
}

// ---------------------------------------------------------------- index and value lists
static std::string indexText( Rng & g, std::vector<std::size_t> & out, std::size_t wanted, bool spaced = true )
{
  out.clear(); std::string s;
  auto sp = [&] { return spaced ? ws( g ) : std::string(); };
  while( out.size() < wanted )
  {
    if( !s.empty() ) s += sp() + "," + sp();
    std::size_t const left = wanted - out.size();
    long const a = g.range( 0, 60 );
    int kind = static_cast<int>( g.index( 3 ) );
    if( left == 1 && kind ) { if( g.chance( 0.7 ) ) kind = 0; }
    if( kind == 0 ) { s += vh::cat( a ); out.push_back( a ); }
    else if( kind == 1 ) { long const n = g.range( 1, static_cast<long>( left ) ); s += vh::cat( a, sp(), ":", sp(), a + n - 1 ); for( long i = 0; i < n; ++i ) out.push_back( a + i ); }
    else
    {
      long const n = g.range( 1, static_cast<long>( left ) ); long inc = g.range( -7, 7 ); if( !inc ) inc = 3;
      long b = inc > 0 ? a : a + ( n - 1 ) * -inc;               // first
      long end = b + ( n - 1 ) * inc; if( inc > 0 ) end += g.range( 0, inc - 1 ); else end -= std::min<long>( end, g.range( 0, -inc - 1 ) );
      s += vh::cat( b, sp(), ":", sp(), inc, sp(), ":", sp(), end );
      for( long i = 0; i < n; ++i ) out.push_back( b + i * inc );
    }
  }
  return s;
}
static std::string floatText( Rng & g, std::vector<double> & out, std::size_t wanted, bool spaced = true )
{
  out.clear(); std::string s;
  auto sp = [&] { return spaced ? ws( g ) : std::string(); };
  while( out.size() < wanted )
  {
    if( !s.empty() ) s += sp() + "," + sp();
    std::size_t const left = wanted - out.size();
    int kind = static_cast<int>( g.index( 3 ) ); if( left == 1 && g.chance( 0.7 ) ) kind = 0;
    if( kind == 0 ) { double const v = value( g ); s += num( g, v ); out.push_back( v ); continue; }
    double inc = kind == 1 ? 1.0 : g.pick( { 0.5, 0.25, 2.0, -0.75, -1.0, 3.0, -0.125 } ), a = static_cast<double>( g.range( -40, 40 ) ) / 8;
    long const n = g.range( 1, static_cast<long>( left ) );
    double const end = a + ( n - 1 ) * inc + ( g.chance( 0.5 ) ? 0 : inc * 0.5 );
    // Short numbers, so that the ends of the range are exact.
    s += vh::cat( a, sp(), ":", sp() ); if( kind == 2 ) s += vh::cat( inc, sp(), ":", sp() ); s += vh::cat( end );
    for( long i = 0; i < n; ++i ) out.push_back( a + static_cast<double>( i ) * inc );
  }
  return s;
}
template<class T> static void floats( vh::Run & r )
{
  Rng & g = r.rng;
  std::vector<double> want; std::string const t = ws( g ) + floatText( g, want, 1 + g.index( 12 ) ) + ws( g );
  rbbl::FloatSequence<T> const s( t );
  r.event( static_cast<long>( want.size() ) );
  bool ok = s.size() == want.size();
  for( std::size_t i = 0; ok && i < want.size(); ++i ) ok = close( s[i], want[i] );
  if( !ok ) r.viol( "list:values", vh::cat( "\"", t, "\" read as ", vh::vec( std::vector<T>( s.begin(), s.end() ) ), ", expected ", vh::vec( want ) ) );
}
static void lists( vh::Run & r )
{
  Rng & g = r.rng;
  std::vector<std::size_t> want; std::size_t const n = g.index( 12 );
  std::string const t = ws( g ) + indexText( g, want, n ) + ws( g );
  {
    rbbl::IndexSequence const s( t );
    r.event( static_cast<long>( want.size() ) + 1 );
    if( std::vector<std::size_t>( s.begin(), s.end() ) != want ) r.viol( "list:indices", vh::cat( "\"", t, "\" read as ", vh::vec( std::vector<std::size_t>( s.begin(), s.end() ) ), ", expected ", vh::vec( want ) ) );
  }
  if( g.chance( 0.5 ) ) floats<float>( r ); else floats<double>( r );
  static std::vector<std::string> const bad = { "-1", "1,", ",1", "1:2:3:4", "1::2", "0:0:4", "a", "1 2", "3,-4", "2:x", "0x1", "1;2", "5:-2", "1.5" };
  std::string const b = g.pick( bad );
  r.event();
  if( !refuses( [&] { rbbl::IndexSequence s( b ); } ) ) r.viol( "list:accepted", vh::cat( "the index list \"", b, "\" was accepted" ) );
  static std::vector<std::string> const fbad = { "1.0,", "1:2:3:4", "0:0:4", "a", "1 2", "", "1:inf", "2:x" };
  std::string const fb = g.pick( fbad );
  if( !refuses( [&] { rbbl::FloatSequence<float> s( fb ); } ) ) r.viol( "list:accepted", vh::cat( "the value list \"", fb, "\" was accepted" ) );
  // Channel lists print in the same notation.
  std::vector<std::size_t> chan; for( std::size_t i = 0; i < n; ++i ) { std::size_t c; do c = g.chance( 0.5 ) && i ? chan.back() + 1 : g.index( 30 ); while( i && c == chan.back() ); chan.push_back( c ); }
  ChannelList const cl( chan );
  r.event();
  if( std::vector<std::size_t>( cl.begin(), cl.end() ) != chan ) r.viol( "list:channels", vh::cat( "channel list of ", vh::vec( chan ) ) );
  std::ostringstream os; os << cl;
  rbbl::IndexSequence const back( os.str() );
  if( std::vector<std::size_t>( back.begin(), back.end() ) != chan ) r.viol( "list:printed", vh::cat( "the channel list ", vh::vec( chan ), " prints as \"", os.str(), "\"" ) );
  // Ranges exclude their end.
  std::size_t const a = g.index( 20 ), e = g.index( 20 ); long const st = g.range( -4, 4 );
  bool const okRange = st > 0 ? e >= a : st < 0 && e <= a;
  std::vector<std::size_t> rw; if( okRange ) for( long v = static_cast<long>( a ); st > 0 ? v < static_cast<long>( e ) : v > static_cast<long>( e ); v += st ) rw.push_back( v );
  try
  {
    ChannelRange const cr( a, e, st ); ChannelList const l( cr );
    r.event( 2 );
    bool ok = okRange && cr.size() == rw.size() && std::vector<std::size_t>( l.begin(), l.end() ) == rw;
    for( std::size_t i = 0; ok && i < rw.size(); ++i ) ok = cr.at( i ) == rw[i] && cr[i] == rw[i];
    if( ok && !refuses( [&] { cr.at( rw.size() ); } ) ) ok = false;
    if( !ok ) r.viol( "list:range", vh::cat( "range ", a, ":", st, ":", e, " gives ", vh::vec( std::vector<std::size_t>( l.begin(), l.end() ) ), ", expected ", vh::vec( rw ) ) );
  }
  catch( std::exception const & x ) { if( okRange ) r.viol( "list:range", vh::cat( "range ", a, ":", st, ":", e, " refused: ", x.what() ) ); }
  r.count( "lists" ); if( n > 1 ) r.nontrivial( t );
}

// ---------------------------------------------------------------- routing tables
struct Route { std::size_t a, b, c; double gain; }; // input/output/filter or entry/row/column
using FMap = std::map<std::pair<std::size_t, std::size_t>, std::pair<std::size_t, double>>;
using GMap = std::map<std::size_t, std::pair<std::pair<std::size_t, std::size_t>, double>>;
static std::string listField( Rng & g, std::string const & name, std::string const & text ) { bool plain = text.find_first_not_of( "0123456789" ) == std::string::npos && ( text.size() == 1 || text[0] != '0' ); return vh::cat( "\"", name, "\"", g.chance( 0.5 ) ? ": " : ":", plain && g.chance( 0.5 ) ? text : vh::cat( "\"", text, "\"" ) ); }
// Text of a routing table; names gives the three index fields. defect: 0 none, else a planted inadmissibility.
static std::string tableText( Rng & g, std::array<char const *, 3> names, bool sparse, int defect, std::vector<Route> & out )
{
  out.clear();
  std::size_t const n = g.index( 6 ), bad = defect ? g.index( n + 1 ) : ~std::size_t( 0 );
  std::string s = "[";
  for( std::size_t k = 0; k < n + ( defect ? 1 : 0 ); ++k )
  {
    if( k ) s += g.chance( 0.5 ) ? ", " : ",\n";
    std::size_t const len = g.chance( 0.4 ) ? 1 : 2 + g.index( 5 );
    std::array<std::vector<std::size_t>, 3> v; std::array<std::string, 3> t; std::vector<double> gain; std::string gt;
    std::array<bool, 3> wide; for( auto & w : wide ) w = g.chance( 0.6 );
    if( len > 1 ) { if( sparse ) wide[0] = true; else if( !wide[0] && !wide[1] ) wide[g.index( 2 )] = true; }
    for( int f = 0; f < 3; ++f )
    {
      std::size_t w = wide[f] ? len : 1;
      if( k == bad && defect == 1 + f ) w = len + 1 + ( len == 1 ? 1 : 0 );
      t[f] = indexText( g, v[f], w, false );
    }
    if( k == bad && defect <= 3 && defect >= 1 )
    { // two different lengths greater than one among the index lists
      int const o = ( defect - 1 + 1 + static_cast<int>( g.index( 2 ) ) ) % 3; // another field
      std::size_t const w = sparse || o != 2 ? std::max<std::size_t>( 2, len ) : len;
      t[o] = indexText( g, v[o], std::max<std::size_t>( 2, w ), false );
      if( v[defect - 1].size() == v[o].size() ) t[defect - 1] = indexText( g, v[defect - 1], v[o].size() + 1, false );
    }
    std::size_t const N = std::max( std::max( v[0].size(), v[1].size() ), v[2].size() );
    bool const haveGain = sparse || g.chance( 0.7 ) || ( k == bad && defect == 4 );
    if( haveGain ) gt = floatText( g, gain, k == bad && defect == 4 ? N + 1 : ( N > 1 && g.chance( 0.5 ) ? N : 1 ), false );
    std::vector<std::string> fields;
    for( int f = 0; f < 3; ++f ) { if( k == bad && defect == 5 && f == 0 ) continue; std::string x = t[f]; if( k == bad && defect == 6 && f == 1 ) x = g.pick( { "-1", "a", "1,", "1.5", "0:0:3" } ); fields.push_back( listField( g, names[f], x ) ); }
    if( haveGain ) fields.push_back( vh::cat( "\"gain\": ", gain.size() == 1 && gt.find( ':' ) == std::string::npos && gt[0] != '+' && g.chance( 0.5 ) ? gt : vh::cat( "\"", gt, "\"" ) ) );
    g.shuffle( fields );
    s += "{"; for( std::size_t i = 0; i < fields.size(); ++i ) s += ( i ? "," : "" ) + fields[i]; s += "}";
    if( k != bad ) for( std::size_t i = 0; i < N; ++i ) { auto at = [&]( int f ) { return v[f].size() == 1 ? v[f][0] : v[f][i]; }; out.push_back( { at( 0 ), at( 1 ), at( 2 ), !haveGain ? 1.0 : gain.size() == 1 ? gain[0] : gain[i] } ); }
  }
  return s + "]";
}
static FMap content( rbbl::FilterRoutingList const & l ) { FMap m; for( auto const & e : l ) m[{ e.inputIndex, e.outputIndex }] = { e.filterIndex, e.gainLinear }; return m; }
static GMap content( rbbl::SparseGainRoutingList const & l ) { GMap m; for( auto const & e : l ) m[e.entryIndex] = { { e.rowIndex, e.columnIndex }, e.gain }; return m; }
static void apply( FMap & m, Route const & x ) { m[{ x.a, x.b }] = { x.c, x.gain }; }
static void apply( GMap & m, Route const & x ) { m[x.a] = { { x.b, x.c }, x.gain }; }
template<class M> static bool same( M const & a, M const & b )
{
  if( a.size() != b.size() ) return false;
  for( auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j ) if( i->first != j->first || i->second.first != j->second.first || !close( static_cast<float>( i->second.second ), j->second.second ) ) return false;
  return true;
}
static std::string show( FMap const & m ) { std::string s; for( auto const & e : m ) s += vh::cat( e.first.first, ">", e.first.second, " f", e.second.first, " g", e.second.second, "; " ); return s; }
static std::string show( GMap const & m ) { std::string s; for( auto const & e : m ) s += vh::cat( e.first, ": ", e.second.first.first, ",", e.second.first.second, " g", e.second.second, "; " ); return s; }
template<class L, class M> static void tables( vh::Run & r, std::array<char const *, 3> names, bool sparse, std::function<void( L &, Rng &, M & )> edit )
{
  Rng & g = r.rng;
  L list; M model;
  int const n = 1 + static_cast<int>( g.index( 6 ) ); std::string sig;
  for( int k = 0; k < n; ++k )
  {
    int const what = static_cast<int>( g.index( 6 ) );
    std::string t, key = "table:content"; std::vector<Route> rt;
    if( what == 0 ) { edit( list, g, model ); r.count( "table edits" ); key = "table:edited"; t = "(edited)"; }
    else
    {
      int const defect = what == 1 ? 1 + static_cast<int>( g.index( 6 ) ) : 0;
      t = tableText( g, names, sparse, defect, rt ); bool const mut = what == 2; if( mut ) t = mutate( g, t );
      bool ok = true; std::string err;
      try { list.parseJson( t ); } catch( std::exception const & e ) { ok = false; err = e.what(); }
      r.event();
      if( defect && ok ) { r.viol( "table:accepted", vh::cat( "an inadmissible table (", defect, ") was accepted: ", t ) ); return; }
      if( defect ) { r.count( "inadmissible tables refused" ); key = "table:refusal_changed"; }
      else if( mut ) { r.count( ok ? "mutated texts accepted" : "mutated texts refused" ); if( ok ) model = content( list ); key = "table:refusal_changed"; }
      else if( !ok ) { r.viol( "table:refused", vh::cat( "an admissible table was refused (", err, "): ", t ) ); return; }
      else { model.clear(); for( auto const & x : rt ) apply( model, x ); r.count( "tables read" ); }
      sig += t;
    }
    r.event( static_cast<long>( model.size() ) );
    if( list.size() != model.size() || list.empty() != model.empty() || !same( content( list ), model ) ) { r.viol( key, vh::cat( "after \"", t, "\": table ", show( content( list ) ), " expected ", show( model ) ) ); return; }
  }
  if( n > 1 ) r.nontrivial( sig );
}
static void filterTables( vh::Run & r )
{
  tables<pml::FilterRoutingListParameter, FMap>( r, { "input", "output", "filter" }, false, []( pml::FilterRoutingListParameter & l, Rng & g, FMap & m )
  {
    std::size_t const a = g.index( 8 ), b = g.index( 8 ), c = g.index( 20 ); double const v = value( g );
    switch( g.index( 3 ) )
    {
    case 0: l.addRouting( a, b, c, static_cast<float>( v ) ); m[{ a, b }] = { c, v }; break;
    case 1: { bool const had = m.erase( { a, b } ); if( l.removeRouting( a, b ) != had ) m[{ 999, 999 }] = { 0, 0 }; break; }
    default: { auto const & e = l.getEntry( a, b ); auto const i = m.find( { a, b } ); if( i == m.end() ? e.filterIndex != rbbl::FilterRouting::cInvalidIndex : e.filterIndex != i->second.first ) m[{ 998, 998 }] = { 0, 0 }; }
    }
  } );
}
static void gainTables( vh::Run & r )
{
  tables<pml::SparseGainRoutingListParameter, GMap>( r, { "index", "row", "column" }, true, []( pml::SparseGainRoutingListParameter & l, Rng & g, GMap & m )
  {
    std::size_t const a = g.index( 8 ), b = g.index( 8 ), c = g.index( 20 ); double const v = value( g );
    switch( g.index( 6 ) )
    {
    case 0: l.addRouting( a, b, c, static_cast<float>( v ) ); m[a] = { { b, c }, v }; break;
    case 3: { bool const had = m.erase( a ); if( l.removeRouting( a ) != had ) m[997] = { { 0, 0 }, 0 }; break; }
    case 4: // all entries of a routing point (column = input, row = output), mostly of one that exists
    {
      std::size_t row = b, col = c; if( !m.empty() && g.chance( 0.7 ) ) { auto i = m.begin(); std::advance( i, static_cast<long>( g.index( m.size() ) ) ); row = i->second.first.first; col = i->second.first.second; if( g.chance( 0.2 ) ) std::swap( row, col ); }
      bool had = false; for( auto i = m.begin(); i != m.end(); ) if( i->second.first.first == row && i->second.first.second == col ) { i = m.erase( i ); had = true; } else ++i;
      if( l.removeRouting( col, row ) != had ) m[996] = { { 0, 0 }, 0 };
      break;
    }
    case 1: { bool const had = m.erase( a ); if( l.removeRouting( rbbl::SparseGainRouting( a, b, c ) ) != had ) m[999] = { { 0, 0 }, 0 }; break; }
    case 2: l.clear(); m.clear(); break;
    default: { auto const & e = l.getEntry( a ); auto const i = m.find( a ); if( i == m.end() ? e.rowIndex != rbbl::SparseGainRouting::cInvalidIndex : ( e.rowIndex != i->second.first.first || e.columnIndex != i->second.first.second ) ) m[998] = { { 0, 0 }, 0 }; }
    }
  } );
}
static void signalTables( vh::Run & r )
{
  Rng & g = r.rng;
  pml::SignalRoutingParameter l; std::map<std::size_t, std::size_t> m; // output -> input
  int const n = 2 + static_cast<int>( g.index( 10 ) ); std::string sig;
  for( int k = 0; k < n; ++k )
  {
    std::size_t const a = g.index( 10 ), b = g.index( 10 ); std::string t = "(edit)"; char const * key = "signals:edit"; bool ok = true;
    switch( g.index( 9 ) )
    {
    case 0: l.addRouting( a, b ); m[b] = a; break;
    case 1: { bool const had = m.erase( b ); ok = l.removeEntry( b ) == had; break; }
    case 2: { bool const had = m.count( b ) && m[b] == a; if( had ) m.erase( b ); ok = l.removeEntry( pml::SignalRoutingParameter::Entry{ a, b } ) == had; break; }
    case 3: { auto const i = m.find( b ); std::size_t const none = pml::SignalRoutingParameter::cInvalidIndex, want = i == m.end() ? none : i->second; ok = l.getInput( b ) == want && l.getEntry( b ).input == want; std::size_t o = none; for( auto const & e : m ) if( e.second == a ) { o = e.first; break; } std::size_t const got = l.getOutput( a ); ok = ok && ( got == o || ( got != none && m.count( got ) && m[got] == a ) ); break; }
    case 4: if( g.chance( 0.3 ) ) { l.clear(); m.clear(); } break;
    default:
    {
      std::map<std::size_t, std::size_t> nm; t = ws( g ); int const e = 1 + static_cast<int>( g.index( 6 ) );
      for( int i = 0; i < e; ++i ) { std::size_t const in = g.index( 12 ), out = g.index( 12 ); if( i ) t += ws( g ) + "," + ws( g ); t += vh::cat( in, ws( g ), "=", ws( g ), out ); nm[out] = in; }
      t += ws( g );
      static std::vector<std::string> const bad = { "", ",", "1=", "=2", "1=2,", "1=2 x", "a=b", "1==2", "-1=2", "1=2;3=4", "1" };
      int const kind = static_cast<int>( g.index( 5 ) );
      if( kind == 0 ) t = g.chance( 0.5 ) ? g.pick( bad ) : t + "?";
      if( kind == 1 ) t = mutate( g, t );
      bool const res = l.parse( t ); key = "signals:text"; sig += t;
      if( kind == 1 ) { if( res ) { m.clear(); for( auto const & e : l ) m[e.output] = e.input; } r.count( res ? "mutated texts accepted" : "mutated texts refused" ); }
      else if( kind == 0 ) { ok = !res; r.count( "inadmissible tables refused" ); }
      else { ok = res; m = nm; r.count( "signal routing texts" ); }
    }
    }
    std::map<std::size_t, std::size_t> got; for( auto const & e : l ) got[e.output] = e.input;
    r.event( 1 + static_cast<long>( m.size() ) );
    if( !ok || got != m || l.size() != m.size() || l.empty() != m.empty() ) { r.viol( key, vh::cat( "signal routing after \"", t, "\": ", l.size(), " entries, expected ", m.size(), ok ? "" : ", wrong result" ) ); return; }
  }
  r.nontrivial( sig );
}

// ---------------------------------------------------------------- matrices and vectors
static void put32( std::string & s, std::uint32_t v ) { for( int i = 0; i < 4; ++i ) s += static_cast<char>( v >> ( 8 * i ) ); }
static void put16( std::string & s, unsigned v ) { s += static_cast<char>( v ); s += static_cast<char>( v >> 8 ); }
static std::string wav( Rng & g, std::size_t C, std::size_t N, std::vector<std::vector<double>> & m )
{
  bool const flt = g.chance( 0.5 ); unsigned const bytes = flt ? 4 : 2;
  m.assign( C, std::vector<double>( N ) ); std::string d;
  for( std::size_t i = 0; i < N; ++i ) for( std::size_t c = 0; c < C; ++c )
  {
    if( flt ) { float const v = static_cast<float>( g.uni( -1, 1 ) ); m[c][i] = v; std::uint32_t u; std::memcpy( &u, &v, 4 ); put32( d, u ); }
    else { int const v = static_cast<int>( g.range( -32768, 32767 ) ); m[c][i] = v / 32768.0; put16( d, static_cast<unsigned>( v ) & 0xffff ); }
  }
  std::string s = "RIFF"; put32( s, static_cast<std::uint32_t>( 36 + d.size() ) ); s += "WAVEfmt "; put32( s, 16 ); put16( s, flt ? 3 : 1 ); put16( s, static_cast<unsigned>( C ) ); put32( s, 48000 ); put32( s, static_cast<std::uint32_t>( 48000 * C * bytes ) ); put16( s, static_cast<unsigned>( C * bytes ) ); put16( s, 8 * bytes );
  s += "data"; put32( s, static_cast<std::uint32_t>( d.size() ) ); return s + d;
}
template<class T> static void matrices( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const R = g.index( 6 ), C = 1 + g.index( 7 ), A = g.pick( { 0, 1, 4, 8, 16 } );
  std::vector<std::vector<double>> m( R, std::vector<double>( C ) );
  std::string t, kind = "matrix text"; int const src = static_cast<int>( g.index( 4 ) ); // string, stream, text file, audio file
  std::string const file = r.scratch + vh::cat( "/c11-", ::getpid(), ".tmp" );
  int defect = g.chance( 0.3 ) ? 1 + static_cast<int>( g.index( 4 ) ) : 0;
  auto read = [&]() -> pml::MatrixParameter<T> {
    if( src == 0 ) return pml::MatrixParameter<T>::fromString( t, A );
    if( src == 1 ) { std::istringstream s( t ); return pml::MatrixParameter<T>::fromStream( s, A ); }
    { std::ofstream o( file, std::ios::binary ); o << t; }
    if( src == 2 ) return pml::MatrixParameter<T>::fromTextFile( file, A );
    return pml::MatrixParameter<T>::fromAudioFile( file, A );
  };
  if( src == 3 )
  {
    t = wav( g, R + 1, C + g.index( 30 ), m ); kind = "audio file";
    if( defect > 1 ) defect = 0; if( defect ) t[g.index( 4 )] = 'x';
  }
  else
  {
    for( auto & row : m ) for( auto & x : row ) x = value( g );
    auto rowText = [&]( std::size_t i, std::size_t cols ) { std::string s; auto const h = [&] { return std::string( g.chance( 0.5 ) ? "" : " " ); }; for( std::size_t j = 0; j < cols; ++j ) { if( j ) s += g.chance( 0.5 ) ? h() + "," + h() : std::string( g.chance( 0.5 ) ? " " : " \t " ); s += num( g, i < R && j < C ? m[i][j] : 1 ); } return h() + s + h(); };
    bool lineEnd = true; // text so far ends a line
    auto sep = [&]( bool comment ) { if( g.chance( 0.2 ) && !comment ) { t += ";"; lineEnd = false; } else { t += g.chance( 0.2 ) ? "\r\n" : "\n"; lineEnd = true; } };
    std::size_t const badRow = defect ? g.index( R + 1 ) : ~std::size_t( 0 );
    std::size_t const rows = R + ( defect ? 1 : 0 );
    if( defect == 1 && rows < 2 ) defect = 2;
    for( std::size_t i = 0, k = 0; k < rows; ++k )
    {
      while( g.chance( 0.15 ) ) { bool const c = g.chance( 0.7 ); if( c ) t += " % note 1, 2"; sep( c ); }
      if( k == badRow ) switch( defect ) { case 1: t += rowText( R, C + 1 ); break; case 2: t += rowText( R, C ) + " x"; break; case 3: t += rowText( R, C ) + ",,"; break; default: t += "[" + rowText( R, C ) + "]"; }
      else t += rowText( i++, C );
      bool const c = g.chance( 0.15 ); if( c ) t += "% 3 4";
      if( k + 1 < rows || g.chance( 0.3 ) ) sep( c ); else lineEnd = false;
    }
    (void)lineEnd;
  }
  r.event();
  try
  {
    pml::MatrixParameter<T> const p = read();
    if( defect ) { r.viol( "matrix:accepted", vh::cat( "an inadmissible ", kind, " (", defect, ") was accepted: ", t ) ); return; }
    bool ok = p.numberOfRows() == m.size() && ( m.empty() || p.numberOfColumns() == m[0].size() );
    for( std::size_t i = 0; ok && i < m.size(); ++i ) for( std::size_t j = 0; ok && j < m[i].size(); ++j ) { r.event(); ok = close( p( i, j ), m[i][j] ); }
    if( !ok ) { r.viol( "matrix:content", vh::cat( kind, " of ", m.size(), " rows read as ", p.numberOfRows(), "x", p.numberOfColumns(), ": ", src == 3 ? "" : t ) ); return; }
    r.count( src == 3 ? "audio files read" : "matrix texts read" );
  }
  catch( std::exception const & e ) { if( !defect ) { r.viol( "matrix:refused", vh::cat( "an admissible ", kind, " was refused (", e.what(), "): ", src == 3 ? "" : t ) ); return; } r.count( "inadmissible texts refused" ); }
  if( src == 0 ) { std::string const u = mutate( g, t ); r.count( refuses( [&] { pml::MatrixParameter<T>::fromString( u, A ); } ) ? "mutated texts refused" : "mutated texts accepted" ); }
  if( g.chance( 0.05 ) && !( refuses( [&] { pml::MatrixParameter<T>::fromTextFile( r.scratch + "/nofile", A ); } ) && refuses( [&] { pml::MatrixParameter<T>::fromAudioFile( r.scratch, A ); } ) ) ) r.viol( "matrix:accepted", "a file that does not exist was read" );
  if( R * C > 1 ) r.nontrivial( vh::mix( src * 4 + defect, std::hash<std::string>()( t ) ) );
}
template<class T> static void vectors( vh::Run & r )
{
  Rng & g = r.rng;
  std::size_t const N = g.index( 12 ), A = g.pick( { 0, 1, 4, 8, 16 } ); int const src = static_cast<int>( g.index( 4 ) );
  std::vector<double> v( N ); for( auto & x : v ) x = value( g );
  std::string t; int defect = g.chance( 0.3 ) ? 1 + static_cast<int>( g.index( 3 ) ) : 0;
  std::string const file = r.scratch + vh::cat( "/c11-", ::getpid(), ".tmp" );
  if( src == 3 ) { std::vector<std::vector<double>> m; t = wav( g, defect == 1 ? 2 : 1, N, m ); v = m[0]; if( defect > 1 ) { defect = 2; t[g.index( 4 )] = 'x'; } }
  else
  {
    for( std::size_t i = 0; i < N; ++i ) { if( i ) { if( g.chance( 0.15 ) ) t += " % note 7\n"; else t += g.chance( 0.5 ) ? ws( g ) + "," + ws( g ) : std::string( g.chance( 0.5 ) ? " " : "\n" ); } t += num( g, v[i] ); }
    if( defect ) t += defect == 1 ? " x" : defect == 2 ? ",," : " 3;";
    else if( g.chance( 0.2 ) ) t = "% first line, 1\n" + t; else if( g.chance( 0.1 ) ) t += "% last";
  }
  auto read = [&]() -> pml::VectorParameter<T> {
    if( src == 0 ) return pml::VectorParameter<T>::fromString( t, A );
    if( src == 1 ) { std::istringstream s( t ); return pml::VectorParameter<T>::fromStream( s, A ); }
    { std::ofstream o( file, std::ios::binary ); o << t; }
    if( src == 2 ) return pml::VectorParameter<T>::fromTextFile( file, A );
    return pml::VectorParameter<T>::fromAudioFile( file, A );
  };
  r.event();
  try
  {
    pml::VectorParameter<T> const p = read();
    if( defect ) { r.viol( "vector:accepted", vh::cat( "an inadmissible text (", defect, ", source ", src, ") was accepted: ", src == 3 ? "" : t ) ); return; }
    bool ok = p.size() == v.size(); for( std::size_t i = 0; ok && i < v.size(); ++i ) { r.event(); ok = close( p[i], v[i] ); }
    if( !ok ) { r.viol( "vector:content", vh::cat( "vector of ", v.size(), " elements read as ", p.size(), " (source ", src, "): ", src == 3 ? "" : t ) ); return; }
    r.count( src == 3 ? "audio files read" : "vector texts read" );
  }
  catch( std::exception const & e ) { if( !defect ) { r.viol( "vector:refused", vh::cat( "an admissible text was refused (", e.what(), "): ", src == 3 ? "" : t ) ); return; } r.count( "inadmissible texts refused" ); }
  if( N > 1 ) r.nontrivial( vh::mix( src, std::hash<std::string>()( t ) ) );
}

// ---------------------------------------------------------------- listener positions
struct Rot { double m[3][3]; };
static Rot fromQuat( double w, double x, double y, double z )
{ return { { { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - w * z ), 2 * ( x * z + w * y ) }, { 2 * ( x * y + w * z ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - w * x ) }, { 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), 1 - 2 * ( x * x + y * y ) } } }; }
static Rot mul( Rot const & a, Rot const & b ) { Rot c; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { c.m[i][j] = 0; for( int k = 0; k < 3; ++k ) c.m[i][j] += a.m[i][k] * b.m[k][j]; } return c; }
static Rot ypr( double y, double p, double q )
{
  Rot const Z = { { { std::cos( y ), -std::sin( y ), 0 }, { std::sin( y ), std::cos( y ), 0 }, { 0, 0, 1 } } }, Y = { { { std::cos( p ), 0, std::sin( p ) }, { 0, 1, 0 }, { -std::sin( p ), 0, std::cos( p ) } } }, X = { { { 1, 0, 0 }, { 0, std::cos( q ), -std::sin( q ) }, { 0, std::sin( q ), std::cos( q ) } } };
  return mul( mul( Z, Y ), X );
}
static Rot axis( double x, double y, double z, double a )
{
  double const n = std::sqrt( x * x + y * y + z * z ); x /= n; y /= n; z /= n; double const c = std::cos( a ), s = std::sin( a ), d = 1 - c;
  return { { { c + x * x * d, x * y * d - z * s, x * z * d + y * s }, { y * x * d + z * s, c + y * y * d, y * z * d - x * s }, { z * x * d - y * s, z * y * d + x * s, c + z * z * d } } };
}
static double dist( Rot const & a, Rot const & b ) { double d = 0; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) d = std::max( d, std::abs( a.m[i][j] - b.m[i][j] ) ); return d; }
static Rot rotOf( pml::ListenerPosition const & p ) { auto const & q = p.orientationQuaternion(); return fromQuat( q.w(), q.x(), q.y(), q.z() ); }
static void listeners( vh::Run & r )
{
  Rng & g = r.rng;
  double const x = g.uni( -5, 5 ), y = g.uni( -5, 5 ), z = g.uni( -5, 5 ), pi = 3.14159265358979323846;
  double a = g.uni( -pi, pi ), b = g.uni( -1.48, 1.48 ), c = g.uni( -pi, pi );
  std::uint64_t const time = g.chance( 0.5 ) ? 0 : g.next() >> g.index( 64 ); unsigned const face = g.chance( 0.5 ) ? 0 : static_cast<unsigned>( g.next() ); std::size_t const nl = g.chance( 0.5 ) ? 1 : g.index( 9 );
  std::vector<std::string> f; Rot want = ypr( 0, 0, 0 );
  bool const hx = g.chance( 0.9 ), hy = g.chance( 0.9 ), hz = g.chance( 0.9 );
  if( hx ) f.push_back( "\"x\": " + jnum( g, x ) ); if( hy ) f.push_back( "\"y\":" + jnum( g, y ) ); if( hz ) f.push_back( "\"z\": " + jnum( g, z ) );
  int const form = static_cast<int>( g.index( 5 ) );
  switch( form )
  {
  case 0: break;
  case 1: f.push_back( "\"orientation\": { }" ); break;
  case 2: { bool const hp = g.chance( 0.8 ), hr = g.chance( 0.8 ); std::string s = "\"orientation\": { \"yaw\": " + jnum( g, a * 180 / pi ); if( hp ) s += ", \"pitch\": " + jnum( g, b * 180 / pi ); if( hr ) s += ", \"roll\": " + jnum( g, c * 180 / pi ); f.push_back( s + " }" ); want = ypr( a, hp ? b : 0, hr ? c : 0 ); break; }
  case 3: { double q[4], n = 0; for( auto & e : q ) { e = g.uni( -1, 1 ); n += e * e; } n = std::sqrt( n ); for( auto & e : q ) e /= n; f.push_back( vh::cat( "\"orientation\": { \"quaternion\": { \"w\": ", jnum( g, q[0] ), ", \"x\": ", jnum( g, q[1] ), ", \"y\": ", jnum( g, q[2] ), ", \"z\": ", jnum( g, q[3] ), " } }" ) ); want = fromQuat( q[0], q[1], q[2], q[3] ); break; }
  default: { double const vx = g.uni( -2, 2 ), vy = g.uni( -2, 2 ), vz = g.uni( 0.1, 2 ); f.push_back( vh::cat( "\"orientation\": { \"rotationVector\": { \"angle\": ", jnum( g, a * 180 / pi ), ", \"x\": ", jnum( g, vx ), ", \"y\": ", jnum( g, vy ), ", \"z\": ", jnum( g, vz ), " } }" ) ); want = axis( vx, vy, vz, a ); }
  }
  if( time ) f.push_back( vh::cat( "\"timeStamp\": ", time ) ); if( face ) f.push_back( vh::cat( "\"faceId\": ", face ) ); if( nl != 1 ) f.push_back( vh::cat( "\"numListeners\": ", nl ) );
  g.shuffle( f );
  std::string t = "{"; for( std::size_t i = 0; i < f.size(); ++i ) t += ( i ? ", " : " " ) + f[i]; t += " }";
  auto judge = [&]( pml::ListenerPosition const & p, char const * key, std::string const & text, double tol ) {
    r.event( 5 );
    double const px = hx ? x : 0, py = hy ? y : 0, pz = hz ? z : 0;
    double const d = std::max( { std::abs( p.x() - px ), std::abs( p.y() - py ), std::abs( p.z() - pz ) } ), e = dist( rotOf( p ), want );
    if( d <= 1e-5 && e <= tol && p.timeNs() == time && p.faceID() == face && p.numberOfListeners() == nl ) return true;
    r.viol( key, vh::cat( text, ": position ", p, ", position error ", d, ", rotation error ", e, ", listeners ", p.numberOfListeners() ) ); return false;
  };
  pml::ListenerPosition p( 9, 9, 9, 1, 1, 1 ); p.setTimeNs( 77 ); p.setFaceID( 5 ); p.setNumberOfListeners( 7 );
  if( g.chance( 0.5 ) ) p.parseJson( t ); else p = pml::ListenerPosition::fromJson( t );
  if( !judge( p, "listener:content", t, 2e-5 ) ) return;
  for( auto fmt : { pml::ListenerPosition::RotationFormat::YPR, pml::ListenerPosition::RotationFormat::RotationVector, pml::ListenerPosition::RotationFormat::Quaternion } )
  {
    // Yaw, pitch and roll do not determine the rotation near the poles.
    if( fmt == pml::ListenerPosition::RotationFormat::YPR && std::abs( want.m[2][0] ) > 0.98 ) continue;
    bool const pretty = g.chance( 0.5 ); std::string s;
    if( g.chance( 0.5 ) ) s = p.writeJson( fmt, pretty ); else { std::ostringstream os; p.writeJson( os, fmt, pretty ); s = os.str(); }
    pml::ListenerPosition const q = pml::ListenerPosition::fromJson( s );
    if( !judge( q, "listener:written", s, 2e-4 ) ) return;
    if( ( std::count( s.begin(), s.end(), '\n' ) > 1 ) != pretty ) { r.viol( "listener:layout", vh::cat( "written ", pretty ? "pretty" : "plain", ": ", s ) ); return; }
    r.count( "listener positions written and read" );
  }
  // Inadmissible and damaged texts
  static std::vector<std::string> const bad = { "", "{", "{ \"x\": 1, }", "{ \"orientation\": { \"yaw\": 10, \"quaternion\": { \"w\": 1, \"x\": 0, \"y\": 0, \"z\": 0 } } }", "{ \"orientation\": { \"quaternion\": { \"w\": 1, \"x\": 0, \"y\": 0 } } }", "{ \"orientation\": { \"rotationVector\": { \"x\": 1, \"y\": 0, \"z\": 0 } } }", "{ \"orientation\": { \"rotationVector\": { \"x\": 0, \"y\": 0, \"z\": 0, \"angle\": 5 } } }" };
  bool const mut = g.chance( 0.7 ); std::string const u = mut ? mutate( g, t ) : g.pick( bad );
  pml::ListenerPosition k( p ); bool const ref = refuses( [&] { k.parseJson( u ); } );
  r.event();
  if( !mut ) { if( !ref ) r.viol( "listener:accepted", vh::cat( "accepted: ", u ) ); else r.count( "inadmissible texts refused" ); }
  else r.count( ref ? "mutated texts refused" : "mutated texts accepted" );
  r.nontrivial( t ); r.count( "listener positions read" );
}

// ---------------------------------------------------------------- filters
template<class T> static bool eq( rbbl::BiquadCoefficient<T> const & q, std::vector<double> const & c ) { for( int i = 0; i < 5; ++i ) if( !close( q[i], c[i] ) ) return false; return true; }
static std::string biquadText( Rng & g, bool xml, std::vector<double> & c, int defect )
{
  c.resize( 5 ); for( auto & v : c ) v = value( g ); bool const a0 = g.chance( 0.5 ); double const d = g.pick( { 2.0, -4.0, 0.5, 1.0 } );
  static char const * n[] = { "b0", "b1", "b2", "a1", "a2" };
  std::vector<std::string> f; int const skip = defect == 1 ? static_cast<int>( g.index( 5 ) ) : -1, junk = defect == 2 ? static_cast<int>( g.index( 5 ) ) : -1;
  for( int i = 0; i < 5; ++i ) { if( i == skip ) continue; std::string const v = i == junk ? "\"1,x\"" : xml ? vh::cat( "\"", num( g, c[i] ), "\"" ) : jnum( g, c[i] ); f.push_back( xml ? vh::cat( n[i], "=", v ) : vh::cat( "\"", n[i], "\": ", v ) ); }
  if( a0 ) { f.push_back( xml ? vh::cat( "a0=\"", d, "\"" ) : vh::cat( "\"a0\": ", d ) ); for( auto & v : c ) v /= d; }
  g.shuffle( f );
  std::string s = xml ? "<biquad " : "{ "; for( std::size_t i = 0; i < f.size(); ++i ) s += ( i ? ( xml ? " " : ", " ) : "" ) + f[i];
  return s + ( xml ? "/>" : " }" );
}
template<class T> static void biquads( vh::Run & r )
{
  Rng & g = r.rng; bool const xml = g.chance( 0.4 ); int const level = xml ? static_cast<int>( g.index( 2 ) ) : static_cast<int>( g.index( 3 ) );
  int const defect = g.chance( 0.25 ) ? 1 + static_cast<int>( g.index( level == 2 ? 3 : 2 ) ) : 0;
  std::size_t const R = level == 2 ? g.index( 5 ) : 1, C = level == 0 ? 1 : g.index( 5 );
  std::size_t const badR = g.index( R + 1 ) % std::max<std::size_t>( R, 1 ), badC = C ? g.index( C ) : 0;
  bool const ragged = defect == 3 && R > 1, bad = ragged || ( ( defect == 1 || defect == 2 ) && R && C );
  std::vector<std::vector<std::vector<double>>> want( R ); std::string t;
  if( level == 2 ) t += "[";
  for( std::size_t i = 0; i < R; ++i )
  {
    std::size_t cols = C; if( ragged && i == badR ) cols = C && g.chance( 0.5 ) ? C - 1 : C + 1;
    want[i].resize( cols ); if( i ) t += ", ";
    if( level > 0 ) t += xml ? "<filterSpec>" : "[";
    for( std::size_t j = 0; j < cols; ++j ) { if( j && !xml ) t += ", "; t += biquadText( g, xml, want[i][j], bad && defect < 3 && i == badR && j == badC ? defect : 0 ); }
    if( level > 0 ) t += xml ? "</filterSpec>" : "]";
  }
  if( level == 2 ) t += "]";
  r.event();
  std::string back; bool ok = true;
  try
  {
    if( level == 0 ) { auto const q = xml ? rbbl::BiquadCoefficient<T>::fromXml( t ) : rbbl::BiquadCoefficient<T>::fromJson( t ); ok = eq( q, want[0][0] ); q.writeJson( back ); if( !eq( rbbl::BiquadCoefficient<T>::fromJson( back ), want[0][0] ) ) r.viol( "filter:written", vh::cat( t, " written as ", back ) ); }
    else if( level == 1 )
    {
      auto const l = xml ? rbbl::BiquadCoefficientList<T>::fromXml( t ) : rbbl::BiquadCoefficientList<T>::fromJson( t );
      auto chk = [&]( rbbl::BiquadCoefficientList<T> const & l ) { bool o = l.size() == C; for( std::size_t j = 0; o && j < C; ++j ) o = eq( l[j], want[0][j] ); return o; };
      ok = bad || chk( l ); if( C ) { l.writeJson( back ); if( !bad && !chk( rbbl::BiquadCoefficientList<T>::fromJson( back ) ) ) r.viol( "filter:written", vh::cat( t, " written as ", back ) ); }
    }
    else
    {
      auto const m = rbbl::BiquadCoefficientMatrix<T>::fromJson( t );
      if( !bad ) { ok = m.numberOfFilters() == R && ( R == 0 || m.numberOfSections() == C ); for( std::size_t i = 0; ok && i < R; ++i ) for( std::size_t j = 0; ok && j < C; ++j ) { r.event(); ok = eq( m( i, j ), want[i][j] ); } }
      if( !bad && ok && R && C )
      { // shorter filters are padded with flat sections, longer ones and wrong indices refused
        rbbl::BiquadCoefficientMatrix<T> n( m ); rbbl::BiquadCoefficientList<T> l( m[g.index( R )] ), s( g.index( C + 2 ) ); std::size_t const k = g.index( R + 1 );
        for( std::size_t j = 0; j < s.size(); ++j ) s[j] = rbbl::BiquadCoefficient<T>( T( j + 2 ), 1, 2, 3, 4 );
        bool const adm = k < R && s.size() <= C; r.event();
        bool const ref = refuses( [&] { n.setFilter( k, s ); } );
        bool good = ref == !adm;
        if( good && adm ) for( std::size_t j = 0; j < C; ++j ) for( int e = 0; e < 5; ++e ) good = good && n( k, j )[e] == ( j < s.size() ? s[j][e] : T( e == 0 ) );
        if( !good ) r.viol( "filter:set", vh::cat( "setFilter(", k, ") with ", s.size(), " sections in a ", R, "x", C, " matrix: ", ref ? "refused" : "accepted" ) );
      }
    }
    if( bad ) { r.viol( "filter:accepted", vh::cat( "an inadmissible text (", defect, ") was accepted: ", t ) ); return; }
    if( !ok ) { r.viol( "filter:content", vh::cat( "wrong coefficients read from ", t ) ); return; }
    r.count( xml ? "XML filters read" : "JSON filters read" );
  }
  catch( std::exception const & e ) { if( !bad ) { r.viol( "filter:refused", vh::cat( "an admissible text was refused (", e.what(), "): ", t ) ); return; } r.count( "inadmissible texts refused" ); }
  std::string const u = mutate( g, t );
  bool const ref = refuses( [&] { if( level == 2 ) rbbl::BiquadCoefficientMatrix<T>::fromJson( u ); else if( level == 1 ) xml ? rbbl::BiquadCoefficientList<T>::fromXml( u ) : rbbl::BiquadCoefficientList<T>::fromJson( u ); else xml ? rbbl::BiquadCoefficient<T>::fromXml( u ) : rbbl::BiquadCoefficient<T>::fromJson( u ); } );
  r.count( ref ? "mutated texts refused" : "mutated texts accepted" );
  if( R * C > 1 ) r.nontrivial( t );
}
template<class T> static void parametric( vh::Run & r )
{
  using P = rbbl::ParametricIirCoefficient<T>; using L = rbbl::ParametricIirCoefficientList<T>;
  static std::vector<std::string> const types = { "lowpass", "highpass", "bandpass", "bandstop", "peak", "lowshelf", "highshelf", "allpass" };
  static std::vector<typename P::Type> const ids = { P::Type::lowpass, P::Type::highpass, P::Type::bandpass, P::Type::bandstop, P::Type::peak, P::Type::lowshelf, P::Type::highshelf, P::Type::allpass };
  Rng & g = r.rng; bool const xml = g.chance( 0.4 ), single = !xml && g.chance( 0.3 ); std::size_t const n = single ? 1 : g.index( 6 );
  struct W { std::size_t type; double f, q, gain; }; std::vector<W> want; std::string t = single || xml ? "" : "[";
  int const defect = n && g.chance( 0.25 ) ? 1 + static_cast<int>( g.index( 4 ) ) : 0; std::size_t const bad = n ? g.index( n ) : 0;
  for( std::size_t i = 0; i < n; ++i )
  {
    W w{ g.index( 8 ), g.uni( 10, 20000 ), g.uni( 0.1, 20 ), g.chance( 0.4 ) ? 0 : g.uni( -30, 30 ) }; int const d = i == bad ? defect : 0;
    std::vector<std::string> f; auto add = [&]( char const * k, std::string const & v, bool quote ) { f.push_back( xml ? vh::cat( k, "=\"", v, "\"" ) : vh::cat( "\"", k, "\": ", quote ? vh::cat( "\"", v, "\"" ) : v ) ); };
    char b[64]; auto fmt = [&]( double v ) { std::snprintf( b, 64, "%.17g", v ); return std::string( b ); };
    if( d != 1 ) add( "type", d == 2 ? "notch" : types[w.type], true );
    if( d != 3 ) add( "f", fmt( w.f ), g.chance( 0.5 ) );
    add( "q", d == 4 ? "1.0q" : fmt( w.q ), d == 4 || g.chance( 0.5 ) );
    if( w.gain != 0 || g.chance( 0.3 ) ) add( "gain", fmt( w.gain ), g.chance( 0.5 ) );
    g.shuffle( f ); if( i && !xml ) t += ", "; t += xml ? "<eq " : "{ "; for( std::size_t k = 0; k < f.size(); ++k ) t += ( k ? ( xml ? " " : ", " ) : "" ) + f[k]; t += xml ? "/>" : " }";
    want.push_back( w );
  }
  if( !single && !xml ) t += "]";
  auto eqp = [&]( P const & p, W const & w ) { r.event( 4 ); return p.type() == ids[w.type] && close( p.frequency(), w.f ) && close( p.quality(), w.q ) && close( p.gain(), w.gain ); };
  L keep( 2, P() ); P one( P::Type::peak, 1, 2, 3 );
  try
  {
    bool ok = true; std::string back;
    if( single ) { one.loadJson( t ); ok = eqp( one, want[0] ); one.writeJson( back ); if( !defect && !eqp( P::fromJson( back ), want[0] ) ) r.viol( "parametric:written", vh::cat( t, " written as ", back ) ); }
    else
    {
      if( xml ) keep.loadXml( t ); else keep.loadJson( t );
      auto chk = [&]( L const & l ) { bool o = l.size() == n; for( std::size_t i = 0; o && i < n; ++i ) o = eqp( l[i], want[i] ); return o; };
      ok = chk( keep ); if( n ) { keep.writeJson( back ); if( !defect && ok && !( [&] { L l; l.loadJson( back ); return chk( l ); } )() ) r.viol( "parametric:written", vh::cat( t, " written as ", back ) ); }
    }
    if( defect ) { r.viol( "parametric:accepted", vh::cat( "an inadmissible text (", defect, ") was accepted: ", t ) ); return; }
    if( !ok ) { r.viol( "parametric:content", vh::cat( "wrong parameters read from ", t ) ); return; }
    r.count( "parametric filters read", static_cast<long>( n ) );
  }
  catch( std::exception const & e )
  {
    if( !defect ) { r.viol( "parametric:refused", vh::cat( "an admissible text was refused (", e.what(), "): ", t ) ); return; }
    r.event(); if( keep.size() != 2 || one.type() != P::Type::peak || one.frequency() != 1 || one.quality() != 2 || one.gain() != 3 ) { r.viol( "parametric:refusal_changed", vh::cat( "a refused text changed the object: ", t ) ); return; }
    r.count( "inadmissible texts refused" );
  }
  std::string const u = mutate( g, t ); r.count( refuses( [&] { L l; if( xml ) l.loadXml( u ); else l.loadJson( u ); } ) ? "mutated texts refused" : "mutated texts accepted" );
  if( n > 1 ) r.nontrivial( t );
}

static void testCase( vh::Run & r )
{
  switch( r.caseIdx % 12 )
  {
  case 0: lists( r ); break;
  case 1: case 2: filterTables( r ); break;
  case 3: case 4: gainTables( r ); break;
  case 5: signalTables( r ); break;
  case 6: switch( r.rng.index( 4 ) ) { case 0: matrices<float>( r ); break; case 1: matrices<double>( r ); break; case 2: matrices<std::complex<float>>( r ); break; default: matrices<std::complex<double>>( r ); } break;
  case 7: switch( r.rng.index( 4 ) ) { case 0: vectors<float>( r ); break; case 1: vectors<double>( r ); break; case 2: vectors<std::complex<float>>( r ); break; default: vectors<std::complex<double>>( r ); } break;
  case 8: case 9: listeners( r ); break;
  case 10: if( r.rng.chance( 0.5 ) ) biquads<float>( r ); else biquads<double>( r ); break;
  default: if( r.rng.chance( 0.5 ) ) parametric<float>( r ); else parametric<double>( r );
  }
}
VH_MAIN( testCase )
