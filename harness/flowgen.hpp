// Random signal flows: a flat dataflow graph of atoms is generated first (the reference meaning), then realised as a random
// hierarchy of composites with placeholder ports, channel permutations, fan-out, detours and parameter connections.
#pragma once
#include "vh.hpp"
#include <libefl/initialise_library.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/string_parameter.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_input.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libvisr/time.hpp>
#include <complex>
#include <memory>

namespace fg
{
using namespace visr;
using vh::Rng;
using i64 = std::int64_t;
static constexpr i64 P = 1048573;

enum Type { F32, F64, I8, U8, I16, U16, I32, U32, C64, C128, LD, NTYPES };
inline i64 modulus( int t ) { return ( t == I8 || t == U8 ) ? 127 : ( t == I16 || t == U16 ) ? 32749 : P; }
enum Proto { MQ, DB, SD };
enum PType { PInt, PMat };

struct AChan { int port, ch; bool operator<( AChan const & r ) const { return port != r.port ? port < r.port : ch < r.ch; } };
struct APort { int comp; bool in; int type; int width; std::string name; bool lateWidth = false; };
struct PPort { int comp; bool in; int proto, ptype, rows, cols; std::string name; bool external = false; };
struct Comp { int parent; bool composite; std::string name; std::vector<int> ap, pp; int atom = -1; };
struct AConn { int parent, s, r; std::vector<std::size_t> si, ri; int style = 0; };
struct PConn { int parent, s, r; int style = 0; };

struct Plan
{
  std::size_t period = 8;
  std::vector<Comp> comps;   // 0 is the top level
  std::vector<APort> aports;
  std::vector<PPort> pports;
  std::vector<AConn> aconns;
  std::vector<PConn> pconns;
  std::vector<int> atoms;    // component indices in topological order
  std::vector<int> order;    // construction order
  std::map<AChan, AChan> flatAudio;          // receive channel -> send channel
  std::map<int, int> flatParam;              // receive port -> send port
  std::map<int, std::vector<int>> fanParam;  // send port -> receive ports
  std::vector<int> topIn, topOut, topPIn, topPOut;
  bool cyclic = false;
  int depth = 0, placeholders = 0, detours = 0, nonContig = 0;
};

inline int depthOf( Plan const & p, int c ) { int d = 0; while( c > 0 ) { c = p.comps[c].parent; ++d; } return d; }
inline int lca( Plan const & p, int a, int b )
{
  int da = depthOf( p, a ), db = depthOf( p, b );
  while( da > db ) { a = p.comps[a].parent; --da; }
  while( db > da ) { b = p.comps[b].parent; --db; }
  while( a != b ) { a = p.comps[a].parent; b = p.comps[b].parent; }
  return a;
}

struct GenOpts { int maxAtoms = 10, maxComposites = 5; bool params = true, types = true; bool forceParams = false; int cycle = 0; };

inline Plan generate( Rng & g, GenOpts o )
{
  Plan p;
  p.period = g.chance( 0.3 ) ? g.pick( { 1, 2, 3, 5, 7 } ) : g.pick( { 4, 8, 16, 17, 31, 32, 33, 64 } );
  p.comps.push_back( { -1, true, "top", {}, {} } );
  int nc = static_cast<int>( g.range( 0, o.maxComposites ) );
  for( int i = 0; i < nc; ++i )
  {
    int par = g.chance( 0.4 ) ? static_cast<int>( p.comps.size() ) - 1 : static_cast<int>( g.index( p.comps.size() ) );
    p.comps.push_back( { par, true, "c" + std::to_string( i ), {}, {} } );
  }
  int const nComposite = nc + 1;
  auto addA = [&]( int comp, bool in, int type, int width ) {
    p.aports.push_back( { comp, in, type, width, ( in ? "ai" : "ao" ) + std::to_string( p.comps[comp].ap.size() ), g.chance( 0.2 ) } );
    p.comps[comp].ap.push_back( static_cast<int>( p.aports.size() ) - 1 );
    return static_cast<int>( p.aports.size() ) - 1;
  };
  auto addP = [&]( int comp, bool in, int proto, int ptype, int r, int c ) {
    p.pports.push_back( { comp, in, proto, ptype, r, c, ( in ? "pi" : "po" ) + std::to_string( p.comps[comp].pp.size() ) } );
    p.comps[comp].pp.push_back( static_cast<int>( p.pports.size() ) - 1 );
    return static_cast<int>( p.pports.size() ) - 1;
  };
  std::map<int, std::vector<AChan>> src; // by type, in order of creation
  std::set<AChan> unused;
  auto offer = [&]( int port ) {
    for( int c = 0; c < p.aports[port].width; ++c ) { src[ p.aports[port].type ].push_back( { port, c } ); unused.insert( { port, c } ); }
  };
  std::vector<std::pair<AChan, AChan>> edges;
  auto feed = [&]( int port ) { // connect every channel of a receive port
    auto const & s = src[ p.aports[port].type ];
    int const w = p.aports[port].width;
    int mode = static_cast<int>( g.range( 0, 3 ) );
    std::size_t base = g.index( s.size() );
    for( int c = 0; c < w; ++c )
    {
      AChan from;
      if( mode == 0 ) from = s[ ( base + c ) % s.size() ];                       // contiguous run
      else if( mode == 1 ) from = s[ ( base + s.size() * 8 - c ) % s.size() ];   // reversed
      else if( mode == 2 ) from = s[ g.chance( 0.5 ) ? base : g.index( s.size() ) ];
      else from = s[ g.index( s.size() ) ];
      if( mode == 3 && !unused.empty() && g.chance( 0.4 ) )
      {
        auto it = unused.begin(); std::advance( it, g.index( unused.size() ) );
        if( p.aports[ it->port ].type == p.aports[port].type ) from = *it;
      }
      edges.push_back( { from, AChan{ port, c } } );
      unused.erase( from );
      p.flatAudio[ AChan{ port, c } ] = from;
    }
  };
  int nin = static_cast<int>( g.range( 0, 3 ) );
  for( int i = 0; i < nin; ++i ) { int q = addA( 0, true, F32, g.chance( 0.15 ) ? 0 : static_cast<int>( g.range( 1, 5 ) ) ); p.topIn.push_back( q ); offer( q ); }
  int na = static_cast<int>( g.range( 1, o.maxAtoms ) );
  struct PSrc { int port; int uses = 0; };
  std::vector<PSrc> psrc;
  std::vector<std::pair<int, int>> pedges;
  int npin = o.params && g.chance( 0.4 ) ? static_cast<int>( g.range( 1, 2 ) ) : 0;
  auto newPSrc = [&]( int comp, bool in ) {
    int pt = static_cast<int>( g.range( 0, 1 ) );
    int q = addP( comp, in, static_cast<int>( g.range( 0, 2 ) ), pt, static_cast<int>( g.range( 1, 3 ) ), static_cast<int>( g.range( 1, 3 ) ) );
    psrc.push_back( { q, 0 } );
    return q;
  };
  for( int i = 0; i < npin; ++i ) { int q = newPSrc( 0, true ); p.pports[q].external = true; p.topPIn.push_back( q ); }
  auto takeParam = [&]( int comp, bool in, std::size_t k ) {
    PPort const s = p.pports[ psrc[k].port ];
    int q = addP( comp, in, s.proto, s.ptype, s.rows, s.cols );
    ++psrc[k].uses;
    pedges.push_back( { psrc[k].port, q } );
    p.flatParam[q] = psrc[k].port;
    p.fanParam[ psrc[k].port ].push_back( q );
    return q;
  };
  auto newAtom = [&]() {
    int c = static_cast<int>( p.comps.size() );
    p.comps.push_back( { static_cast<int>( g.index( nComposite ) ), false, "a" + std::to_string( p.atoms.size() ), {}, {} } );
    p.comps[c].atom = static_cast<int>( p.atoms.size() );
    p.atoms.push_back( c );
    return c;
  };
  for( int a = 0; a < na; ++a )
  {
    int c = newAtom();
    int ni = static_cast<int>( g.range( 0, 2 ) ), no = static_cast<int>( g.range( 0, 2 ) );
    for( int i = 0; i < ni; ++i )
    {
      std::vector<int> av; for( auto const & e : src ) if( !e.second.empty() ) av.push_back( e.first );
      if( av.empty() ) break;
      int q = addA( c, true, g.pick( av ), g.chance( 0.1 ) ? 0 : static_cast<int>( g.range( 1, 6 ) ) );
      feed( q );
    }
    if( o.params && ( g.chance( 0.4 ) || o.forceParams ) )
    {
      int np = static_cast<int>( g.range( 1, 2 ) );
      for( int i = 0; i < np && !psrc.empty(); ++i )
      {
        std::size_t k = g.index( psrc.size() );
        if( p.pports[ psrc[k].port ].proto == MQ && psrc[k].uses ) continue;
        takeParam( c, true, k );
      }
    }
    // sources of this atom become visible only after its inputs are chosen: no cycles
    for( int i = 0; i < no; ++i )
    {
      int ty = ( !o.types || g.chance( 0.7 ) ) ? F32 : static_cast<int>( g.range( 0, NTYPES - 1 ) );
      offer( addA( c, false, ty, g.chance( 0.1 ) ? 0 : static_cast<int>( g.range( 1, 5 ) ) ) );
    }
    if( o.params && ( g.chance( 0.4 ) || o.forceParams ) ) newPSrc( c, false );
  }
  // everything sent must be received somewhere
  std::map<int, std::vector<AChan>> left;
  for( AChan const & u : unused ) left[ p.aports[u.port].type ].push_back( u );
  std::vector<AChan> toTop;
  for( auto & e : left )
  {
    bool top = e.first == F32 && g.chance( 0.6 );
    if( top ) { toTop = e.second; continue; }
    int c = newAtom();
    std::size_t k = 0;
    g.shuffle( e.second );
    while( k < e.second.size() )
    {
      std::size_t w = std::min<std::size_t>( e.second.size() - k, g.range( 1, 6 ) );
      int q = addA( c, true, e.first, static_cast<int>( w ) );
      for( std::size_t i = 0; i < w; ++i ) { AChan r{ q, static_cast<int>( i ) }; edges.push_back( { e.second[k + i], r } ); p.flatAudio[r] = e.second[k + i]; }
      k += w;
    }
  }
  for( std::size_t k = 0; k < psrc.size(); ++k )
  {
    if( psrc[k].uses && !( p.pports[ psrc[k].port ].proto != MQ && g.chance( 0.2 ) ) ) continue;
    if( g.chance( 0.4 ) ) { int q = takeParam( 0, false, k ); p.pports[q].external = true; p.topPOut.push_back( q ); }
    else takeParam( newAtom(), true, k );
  }
  int nout = static_cast<int>( g.range( toTop.empty() ? 0 : 1, 3 ) );
  if( !toTop.empty() )
  {
    g.shuffle( toTop );
    int q = addA( 0, false, F32, static_cast<int>( toTop.size() ) );
    p.topOut.push_back( q );
    for( std::size_t i = 0; i < toTop.size(); ++i ) { AChan r{ q, static_cast<int>( i ) }; edges.push_back( { toTop[i], r } ); p.flatAudio[r] = toTop[i]; }
    --nout;
  }
  for( int i = 0; i < nout; ++i )
  {
    if( src[F32].empty() ) break;
    int q = addA( 0, false, F32, g.chance( 0.1 ) ? 0 : static_cast<int>( g.range( 1, 5 ) ) );
    p.topOut.push_back( q ); feed( q );
  }
  if( o.cycle )
  {
    // feed an output of an atom back into itself or into something it depends on
    std::map<int, std::set<int>> pred; // component -> direct predecessors
    for( auto const & e : p.flatAudio ) pred[ p.aports[e.first.port].comp ].insert( p.aports[e.second.port].comp );
    for( auto const & e : p.flatParam ) pred[ p.pports[e.first].comp ].insert( p.pports[e.second].comp );
    std::vector<std::pair<int, int>> cand; // (port of v, u)
    auto ancestors = [&]( int c ) {
      std::set<int> a{ c }; std::vector<int> st{ c };
      while( !st.empty() ) { int x = st.back(); st.pop_back(); for( int y : pred[x] ) if( y != 0 && a.insert( y ).second ) st.push_back( y ); }
      return a;
    };
    for( int c : p.atoms )
    {
      auto an = ancestors( c );
      if( o.cycle == 1 ) { for( int q : p.comps[c].ap ) if( !p.aports[q].in && p.aports[q].width > 0 ) for( int u : an ) cand.push_back( { q, u } ); }
      else for( std::size_t k = 0; k < psrc.size(); ++k ) if( p.pports[ psrc[k].port ].comp == c && !( p.pports[ psrc[k].port ].proto == MQ && psrc[k].uses ) ) for( int u : an ) cand.push_back( { static_cast<int>( k ), u } );
    }
    if( !cand.empty() )
    {
      auto pick = g.pick( cand );
      if( o.cycle == 1 )
      {
        int q = addA( pick.second, true, p.aports[ pick.first ].type, 1 );
        AChan s{ pick.first, static_cast<int>( g.index( p.aports[ pick.first ].width ) ) }, r{ q, 0 };
        edges.push_back( { s, r } ); p.flatAudio[r] = s;
      }
      else takeParam( pick.second, true, pick.first );
      p.cyclic = true;
    }
  }
  // ---- hierarchical realisation
  struct Pend { int comp; bool in; int type; int port = -1, ch = -1; };
  std::vector<Pend> pend; // placeholder channels to be grouped into ports
  struct End { bool placeholder; AChan a; int pend; };
  struct Local { int parent; End s, r; };
  std::vector<Local> locals;
  auto newPend = [&]( int comp, bool in, int type ) { pend.push_back( { comp, in, type } ); return static_cast<int>( pend.size() ) - 1; };
  std::map<std::tuple<AChan, int, bool>, std::vector<int>> crossing;
  auto home = [&]( int comp ) { return comp == 0 ? 0 : p.comps[comp].parent; };
  auto local = [&]( int parent, End s, End r, int type ) {
    std::vector<int> kids;
    for( int c = 1; c < nComposite; ++c ) if( p.comps[c].parent == parent ) kids.push_back( c );
    if( !kids.empty() && g.chance( 0.06 ) )
    {
      int q = g.pick( kids );
      int in = newPend( q, true, type ), out = newPend( q, false, type );
      locals.push_back( { parent, s, End{ true, {}, in } } );
      locals.push_back( { q, End{ true, {}, in }, End{ true, {}, out } } );
      locals.push_back( { parent, End{ true, {}, out }, r } );
      ++p.detours;
    }
    else locals.push_back( { parent, s, r } );
  };
  for( auto const & e : edges )
  {
    int const type = p.aports[ e.first.port ].type;
    int a = home( p.aports[ e.first.port ].comp ), b = home( p.aports[ e.second.port ].comp );
    int m = lca( p, a, b );
    End cur{ false, e.first, -1 };
    while( a != m )
    {
      auto & cr = crossing[ std::make_tuple( e.first, a, false ) ];
      if( !cr.empty() && g.chance( 0.7 ) ) cur = End{ true, {}, g.pick( cr ) };
      else { int q = newPend( a, false, type ); cr.push_back( q ); End nx{ true, {}, q }; local( a, cur, nx, type ); cur = nx; }
      a = p.comps[a].parent;
    }
    std::vector<int> down; for( int c = b; c != m; c = p.comps[c].parent ) down.push_back( c );
    std::reverse( down.begin(), down.end() );
    int in = m;
    for( int c : down )
    {
      auto & cr = crossing[ std::make_tuple( e.first, c, true ) ];
      if( !cr.empty() && g.chance( 0.7 ) ) cur = End{ true, {}, g.pick( cr ) };
      else { int q = newPend( c, true, type ); cr.push_back( q ); End nx{ true, {}, q }; local( in, cur, nx, type ); cur = nx; }
      in = c;
    }
    local( in, cur, End{ false, e.second, -1 }, type );
  }
  // placeholders nothing leaves from are dropped (a send channel must be connected)
  std::vector<char> live( pend.size(), 1 );
  for( bool again = true; again; )
  {
    again = false;
    std::vector<char> out( pend.size(), 0 );
    for( Local const & l : locals ) if( l.s.placeholder ) out[l.s.pend] = 1;
    for( std::size_t i = 0; i < pend.size(); ++i ) if( live[i] && !out[i] ) { live[i] = 0; again = true; }
    locals.erase( std::remove_if( locals.begin(), locals.end(), [&]( Local const & l ) { return l.r.placeholder && !live[l.r.pend]; } ), locals.end() );
  }
  {
    std::map<std::tuple<int, bool, int>, std::vector<int>> groups;
    for( std::size_t i = 0; i < pend.size(); ++i ) if( live[i] ) groups[ std::make_tuple( pend[i].comp, pend[i].in, pend[i].type ) ].push_back( static_cast<int>( i ) );
    for( auto & gr : groups )
    {
      if( g.chance( 0.5 ) ) g.shuffle( gr.second );
      std::size_t k = 0;
      while( k < gr.second.size() )
      {
        std::size_t w = std::min<std::size_t>( gr.second.size() - k, g.range( 1, 7 ) );
        int q = addA( std::get<0>( gr.first ), std::get<1>( gr.first ), std::get<2>( gr.first ), static_cast<int>( w ) );
        for( std::size_t i = 0; i < w; ++i ) { pend[ gr.second[k + i] ].port = q; pend[ gr.second[k + i] ].ch = static_cast<int>( i ); }
        k += w;
      }
    }
    for( int c = 1; c < nComposite; ++c ) if( g.chance( 0.1 ) ) addA( c, g.chance( 0.5 ), F32, 0 );
    p.placeholders = static_cast<int>( pend.size() );
  }
  {
    std::map<std::tuple<int, int, int>, std::vector<std::pair<std::size_t, std::size_t>>> by;
    for( Local const & l : locals )
    {
      AChan s = l.s.placeholder ? AChan{ pend[l.s.pend].port, pend[l.s.pend].ch } : l.s.a;
      AChan r = l.r.placeholder ? AChan{ pend[l.r.pend].port, pend[l.r.pend].ch } : l.r.a;
      by[ std::make_tuple( l.parent, s.port, r.port ) ].push_back( { s.ch, r.ch } );
    }
    for( auto & e : by )
    {
      auto & v = e.second;
      if( g.chance( 0.6 ) ) g.shuffle( v );
      bool identity = v.size() == static_cast<std::size_t>( p.aports[ std::get<1>( e.first ) ].width ) && v.size() == static_cast<std::size_t>( p.aports[ std::get<2>( e.first ) ].width );
      if( identity ) for( auto const & x : v ) if( x.first != x.second ) identity = false;
      std::size_t k = 0;
      while( k < v.size() )
      {
        std::size_t n = identity ? v.size() : std::min<std::size_t>( v.size() - k, g.range( 1, 5 ) );
        AConn c{ std::get<0>( e.first ), std::get<1>( e.first ), std::get<2>( e.first ), {}, {}, static_cast<int>( g.range( 0, 1 ) ) };
        if( identity && g.chance( 0.5 ) ) c.style = 2;
        for( std::size_t i = 0; i < n; ++i ) { c.si.push_back( v[k + i].first ); c.ri.push_back( v[k + i].second ); }
        p.aconns.push_back( c );
        k += n;
      }
    }
    g.shuffle( p.aconns );
  }
  // ---- parameter connections
  {
    std::map<std::tuple<int, int, bool>, std::vector<int>> cross;
    for( auto const & e : pedges )
    {
      PPort const s = p.pports[ e.first ];
      int a = home( s.comp ), b = home( p.pports[ e.second ].comp );
      int m = lca( p, a, b );
      int cur = e.first;
      while( a != m )
      {
        auto & cr = cross[ std::make_tuple( e.first, a, false ) ];
        if( !cr.empty() && g.chance( 0.6 ) ) cur = g.pick( cr );
        else { int q = addP( a, false, s.proto, s.ptype, s.rows, s.cols ); cr.push_back( q ); p.pconns.push_back( { a, cur, q, static_cast<int>( g.range( 0, 1 ) ) } ); cur = q; }
        a = p.comps[a].parent;
      }
      std::vector<int> down; for( int c = b; c != m; c = p.comps[c].parent ) down.push_back( c );
      std::reverse( down.begin(), down.end() );
      int in = m;
      for( int c : down )
      {
        auto & cr = cross[ std::make_tuple( e.first, c, true ) ];
        if( !cr.empty() && g.chance( 0.6 ) ) cur = g.pick( cr );
        else { int q = addP( c, true, s.proto, s.ptype, s.rows, s.cols ); cr.push_back( q ); p.pconns.push_back( { in, cur, q, static_cast<int>( g.range( 0, 1 ) ) } ); cur = q; }
        in = c;
      }
      p.pconns.push_back( { in, cur, e.second, static_cast<int>( g.range( 0, 1 ) ) } );
    }
    for( bool again = true; again; )
    {
      again = false;
      std::set<int> out; for( PConn const & c : p.pconns ) out.insert( c.s );
      for( std::size_t i = 0; i < p.pconns.size(); ++i )
      {
        PPort const & q = p.pports[ p.pconns[i].r ];
        if( q.comp != 0 && p.comps[q.comp].composite && !out.count( p.pconns[i].r ) )
        {
          auto & v = p.comps[q.comp].pp; v.erase( std::remove( v.begin(), v.end(), p.pconns[i].r ), v.end() );
          p.pconns.erase( p.pconns.begin() + i ); again = true; break;
        }
      }
    }
    g.shuffle( p.pconns );
  }
  // ---- names and construction order
  for( std::size_t c = 0; c < p.comps.size(); ++c ) p.depth = std::max( p.depth, depthOf( p, static_cast<int>( c ) ) );
  std::vector<int> rest;
  for( std::size_t c = 0; c < p.comps.size(); ++c ) rest.push_back( static_cast<int>( c ) );
  g.shuffle( rest );
  std::vector<bool> done( p.comps.size(), false );
  while( p.order.size() < p.comps.size() )
    for( int c : rest )
      if( !done[c] && ( c == 0 || done[ p.comps[c].parent ] ) ) { done[c] = true; p.order.push_back( c ); }
  if( g.chance( 0.5 ) ) // the same name may be used in different composites
    for( int par = 0; par < nComposite; ++par )
    {
      int k = 0;
      for( std::size_t c = 1; c < p.comps.size(); ++c ) if( p.comps[c].parent == par ) p.comps[c].name = "n" + std::to_string( k++ );
    }
  return p;
}

// ---- components
struct AudioIn { std::unique_ptr<AudioPortBase> port; std::function<i64( int, std::size_t )> get; std::function<char const *( int )> ptr; };
struct AudioOut { std::unique_ptr<AudioPortBase> port; std::function<void( int, std::size_t, i64 )> set; std::function<char const *( int )> ptr; };

template<class T> struct Conv { static T to( i64 v ) { return static_cast<T>( v ); } static i64 from( T v ) { return static_cast<i64>( v ); } };
template<class T> struct Conv<std::complex<T>>
{
  static std::complex<T> to( i64 v ) { return { static_cast<T>( v ), static_cast<T>( P - v ) }; }
  static i64 from( std::complex<T> v ) { return static_cast<i64>( v.real() ) + static_cast<i64>( v.imag() ) == P ? static_cast<i64>( v.real() ) : -1; }
};
template<class T> AudioIn makeInT( APort const & a, Component & c )
{
  auto * q = a.lateWidth ? new AudioInputT<T>( a.name.c_str(), c ) : new AudioInputT<T>( a.name.c_str(), c, a.width );
  if( a.lateWidth ) q->setWidth( a.width );
  AudioIn r; r.port.reset( q );
  r.get = [q]( int ch, std::size_t t ) { return Conv<T>::from( ( *q )[ch][t] ); };
  r.ptr = [q]( int ch ) { return reinterpret_cast<char const *>( ( *q )[ch] ); };
  return r;
}
template<class T> AudioOut makeOutT( APort const & a, Component & c )
{
  auto * q = a.lateWidth ? new AudioOutputT<T>( a.name.c_str(), c ) : new AudioOutputT<T>( a.name.c_str(), c, a.width );
  if( a.lateWidth ) q->setWidth( a.width );
  AudioOut r; r.port.reset( q );
  r.set = [q]( int ch, std::size_t t, i64 v ) { ( *q )[ch][t] = Conv<T>::to( v ); };
  r.ptr = [q]( int ch ) { return reinterpret_cast<char const *>( ( *q )[ch] ); };
  return r;
}
#define FG_TYPES( X ) X( F32, float ) X( F64, double ) X( I8, std::int8_t ) X( U8, std::uint8_t ) X( I16, std::int16_t ) X( U16, std::uint16_t ) \
  X( I32, std::int32_t ) X( U32, std::uint32_t ) X( C64, std::complex<float> ) X( C128, std::complex<double> ) X( LD, long double )
inline AudioIn makeIn( APort const & a, Component & c )
{
  switch( a.type ) {
#define X( e, T ) case e: return makeInT<T>( a, c );
    FG_TYPES( X )
#undef X
  }
  throw std::logic_error( "type" );
}
inline AudioOut makeOut( APort const & a, Component & c )
{
  switch( a.type ) {
#define X( e, T ) case e: return makeOutT<T>( a, c );
    FG_TYPES( X )
#undef X
  }
  throw std::logic_error( "type" );
}

// Parameter values are plain integers < 2^20, carried by a scalar or by every element of a float matrix.
template<class PT> struct PVal;
template<> struct PVal<pml::ScalarParameter<int>>
{
  static pml::EmptyParameterConfig config( PPort const & ) { return pml::EmptyParameterConfig(); }
  static void set( pml::ScalarParameter<int> & d, i64 v ) { d = static_cast<int>( v ); }
  static i64 get( pml::ScalarParameter<int> const & d, PPort const & ) { return d.value(); }
  static pml::ScalarParameter<int> make( PPort const &, i64 v ) { return pml::ScalarParameter<int>( static_cast<int>( v ) ); }
};
template<> struct PVal<pml::MatrixParameter<float>>
{
  static pml::MatrixParameterConfig config( PPort const & p ) { return pml::MatrixParameterConfig( p.rows, p.cols ); }
  static void set( pml::MatrixParameter<float> & d, i64 v )
  {
    for( std::size_t r = 0; r < d.numberOfRows(); ++r ) for( std::size_t c = 0; c < d.numberOfColumns(); ++c ) d( r, c ) = static_cast<float>( v + r * 3 + c );
  }
  static i64 get( pml::MatrixParameter<float> const & d, PPort const & p )
  {
    if( static_cast<int>( d.numberOfRows() ) != p.rows || static_cast<int>( d.numberOfColumns() ) != p.cols ) return -2;
    i64 v = static_cast<i64>( d( 0, 0 ) );
    if( v == 0 ) { bool z = true; for( int r = 0; r < p.rows; ++r ) for( int c = 0; c < p.cols; ++c ) z = z && d( r, c ) == 0.0f; if( z ) return 0; }
    for( int r = 0; r < p.rows; ++r ) for( int c = 0; c < p.cols; ++c ) if( static_cast<i64>( d( r, c ) ) != v + r * 3 + c ) return -3;
    return v;
  }
  static pml::MatrixParameter<float> make( PPort const & p, i64 v ) { pml::MatrixParameter<float> m( p.rows, p.cols ); set( m, v ); return m; }
};
struct ParamIn
{
  std::unique_ptr<ParameterPortBase> port;
  std::function<std::vector<i64>()> drain;  // MQ: all messages. DB: {changed?,value}; SD: {value}
};
struct ParamOut { std::unique_ptr<ParameterPortBase> port; std::function<void( i64 )> send; };

template<class PT> ParamIn makePInT( PPort const & p, Component & c )
{
  ParamIn r;
  auto cfg = PVal<PT>::config( p );
  if( p.proto == MQ )
  {
    auto * q = new ParameterInput<pml::MessageQueueProtocol, PT>( p.name.c_str(), c, cfg ); r.port.reset( q );
    r.drain = [q, p]() { std::vector<i64> v; std::size_t n = q->size(); while( !q->empty() ) { v.push_back( PVal<PT>::get( q->front(), p ) ); q->pop(); } if( n != v.size() ) v.push_back( -9 ); return v; };
  }
  else if( p.proto == DB )
  {
    auto * q = new ParameterInput<pml::DoubleBufferingProtocol, PT>( p.name.c_str(), c, cfg ); r.port.reset( q );
    r.drain = [q, p]() { std::vector<i64> v{ q->changed() ? 1 : 0, PVal<PT>::get( q->data(), p ) }; q->resetChanged(); return v; };
  }
  else
  {
    auto * q = new ParameterInput<pml::SharedDataProtocol, PT>( p.name.c_str(), c, cfg ); r.port.reset( q );
    r.drain = [q, p]() { return std::vector<i64>{ PVal<PT>::get( q->data(), p ) }; };
  }
  return r;
}
template<class PT> ParamOut makePOutT( PPort const & p, Component & c )
{
  ParamOut r;
  auto cfg = PVal<PT>::config( p );
  if( p.proto == MQ )
  {
    auto * q = new ParameterOutput<pml::MessageQueueProtocol, PT>( p.name.c_str(), c, cfg ); r.port.reset( q );
    r.send = [q, p]( i64 v ) { q->enqueue( PVal<PT>::make( p, v ) ); };
  }
  else if( p.proto == DB )
  {
    auto * q = new ParameterOutput<pml::DoubleBufferingProtocol, PT>( p.name.c_str(), c, cfg ); r.port.reset( q );
    r.send = [q]( i64 v ) { PVal<PT>::set( q->data(), v ); q->swapBuffers(); };
  }
  else
  {
    auto * q = new ParameterOutput<pml::SharedDataProtocol, PT>( p.name.c_str(), c, cfg ); r.port.reset( q );
    r.send = [q]( i64 v ) { PVal<PT>::set( q->data(), v ); };
  }
  return r;
}
inline ParamIn makePIn( PPort const & p, Component & c ) { return p.ptype == PInt ? makePInT<pml::ScalarParameter<int>>( p, c ) : makePInT<pml::MatrixParameter<float>>( p, c ); }
inline ParamOut makePOut( PPort const & p, Component & c ) { return p.ptype == PInt ? makePOutT<pml::ScalarParameter<int>>( p, c ) : makePOutT<pml::MatrixParameter<float>>( p, c ); }

// The computation of an atom, shared by the component under the runtime system and by the reference evaluation.
// Everything it produces depends on all its inputs, on its parameters and on how often it ran.
struct AtomState { i64 runs = 0; i64 acc = 1; std::vector<i64> held; };
struct AtomIO
{
  std::vector<std::vector<std::vector<i64>>> in;   // port, channel, sample
  std::vector<std::vector<i64>> pin;               // what each parameter input delivered
  std::vector<std::vector<std::vector<i64>>> out;
  std::vector<std::vector<i64>> pout;              // what to send on each parameter output (several: MQ messages)
};
inline int sends( int proto, i64 runs, int id )
{
  if( proto == MQ ) return static_cast<int>( ( runs + id ) % 3 );
  if( proto == DB ) return ( runs + id ) % 3 != 0;
  return 1;
}
inline void evalAtom( Plan const & p, int atom, AtomState & st, AtomIO & io, std::size_t n )
{
  Comp const & c = p.comps[ p.atoms[atom] ];
  ++st.runs;
  i64 ps = atom + 1;
  std::size_t k = 0;
  for( auto const & v : io.pin )
  {
    if( st.held.size() <= k ) st.held.resize( k + 1, 0 );
    for( i64 x : v ) st.held[k] = ( st.held[k] * 31 + x + 5 ) % P;
    ps = ( ps * 17 + st.held[k] ) % P;
    ++k;
  }
  i64 sum = 0;
  std::vector<i64> per( n, 0 );
  i64 w = 3;
  for( auto const & port : io.in ) for( auto const & ch : port )
  {
    for( std::size_t t = 0; t < n; ++t ) { per[t] = ( per[t] + w * ch[t] ) % P; sum = ( sum * 3 + ch[t] ) % P; }
    w = ( w * 7 + 1 ) % 1009;
  }
  st.acc = ( st.acc * 5 + sum + ps + st.runs ) % P;
  io.out.clear(); io.pout.clear();
  for( int q : c.ap ) if( !p.aports[q].in )
  {
    i64 m = modulus( p.aports[q].type );
    std::vector<std::vector<i64>> chs;
    for( int ch = 0; ch < p.aports[q].width; ++ch )
    {
      std::vector<i64> v( n );
      for( std::size_t t = 0; t < n; ++t ) v[t] = ( per[t] * ( ch + 2 ) + st.acc + q * 13 + ch * 101 + static_cast<i64>( t ) + st.runs * 7 ) % m;
      chs.push_back( v );
    }
    io.out.push_back( chs );
  }
  for( int q : c.pp ) if( !p.pports[q].in )
  {
    std::vector<i64> v;
    int s = sends( p.pports[q].proto, st.runs, atom );
    for( int i = 0; i < s; ++i ) v.push_back( ( st.acc + i * 77 + q ) % 900001 );
    io.pout.push_back( v );
  }
}

struct Recorder { std::vector<int> log; std::vector<std::string> faults; long events = 0; int throwAtom = -1; long throwAt = -1; };

class TestAtom: public AtomicComponent
{
public:
  TestAtom( SignalFlowContext const & ctx, std::string const & name, CompositeComponent * parent, Plan const & plan, int atom, Recorder & rec )
    : AtomicComponent( ctx, name.c_str(), parent ), p( plan ), id( atom ), r( rec )
  {
    Comp const & c = p.comps[ p.atoms[atom] ];
    for( int q : c.ap ) { if( p.aports[q].in ) ins.push_back( makeIn( p.aports[q], *this ) ); else outs.push_back( makeOut( p.aports[q], *this ) ); }
    for( int q : c.pp ) { if( p.pports[q].in ) pins.push_back( makePIn( p.pports[q], *this ) ); else pouts.push_back( makePOut( p.pports[q], *this ) ); }
  }
  void process() override
  {
    r.log.push_back( id );
    if( id == r.throwAtom && st.runs == r.throwAt ) { ++st.runs; throw std::runtime_error( "injected" ); }
    std::size_t const n = period();
    if( time().blockCount() != blocks ) r.faults.push_back( vh::cat( "time: atom ", id, " sees block ", time().blockCount(), " expected ", blocks ) );
    if( time().sampleCount() != blocks * n ) r.faults.push_back( vh::cat( "time: atom ", id, " sees sample ", time().sampleCount(), " expected ", blocks * n ) );
    ++blocks;
    AtomIO io;
    for( auto & in : ins )
    {
      if( in.port->width() ) checkMem( *in.port, in.ptr, n );
      std::vector<std::vector<i64>> chs( in.port->width(), std::vector<i64>( n ) );
      for( std::size_t ch = 0; ch < chs.size(); ++ch ) for( std::size_t t = 0; t < n; ++t ) chs[ch][t] = in.get( static_cast<int>( ch ), t );
      io.in.push_back( chs );
    }
    for( auto & q : pins ) io.pin.push_back( q.drain() );
    evalAtom( p, id, st, io, n );
    for( std::size_t o = 0; o < outs.size(); ++o )
    {
      if( outs[o].port->width() ) checkMem( *outs[o].port, outs[o].ptr, n );
      for( std::size_t ch = 0; ch < io.out[o].size(); ++ch ) for( std::size_t t = 0; t < n; ++t ) outs[o].set( static_cast<int>( ch ), t, io.out[o][ch][t] );
    }
    for( std::size_t o = 0; o < pouts.size(); ++o ) for( i64 v : io.pout[o] ) pouts[o].send( v );
    // the inputs must not have been disturbed by writing the outputs
    std::size_t k = 0;
    for( auto & in : ins )
    {
      for( std::size_t ch = 0; ch < io.in[k].size(); ++ch ) for( std::size_t t = 0; t < n; ++t )
        if( in.get( static_cast<int>( ch ), t ) != io.in[k][ch][t] ) { r.faults.push_back( vh::cat( "alias: atom ", id, " input changed while writing outputs" ) ); break; }
      ++k;
    }
    r.events += 2 + static_cast<long>( ins.size() + outs.size() );
  }
  template<class F> void checkMem( AudioPortBase & port, F const & ptr, std::size_t n )
  {
    // whole rows: consecutive channels are one stride apart and do not overlap
    if( port.channelStrideBytes() < n * port.sampleSize() ) r.faults.push_back( vh::cat( "stride: atom ", id, " channel rows overlap" ) );
    for( std::size_t ch = 0; ch < port.width(); ++ch )
      if( reinterpret_cast<std::uintptr_t>( ptr( static_cast<int>( ch ) ) ) % port.alignmentBytes() != 0 ) { r.faults.push_back( vh::cat( "alignment: atom ", id, " channel ", ch ) ); break; }
  }
  Plan const & p; int id; Recorder & r;
  AtomState st;
  std::size_t blocks = 0;
  std::vector<AudioIn> ins; std::vector<AudioOut> outs; std::vector<ParamIn> pins; std::vector<ParamOut> pouts;
};

class TestComposite: public CompositeComponent
{
public:
  TestComposite( SignalFlowContext const & ctx, std::string const & name, CompositeComponent * parent, Plan const & p, int comp ): CompositeComponent( ctx, name.c_str(), parent )
  {
    for( int q : p.comps[comp].ap ) { if( p.aports[q].in ) ports[q] = makeIn( p.aports[q], *this ).port; else ports[q] = makeOut( p.aports[q], *this ).port; }
    for( int q : p.comps[comp].pp ) { if( p.pports[q].in ) pports[q] = makePIn( p.pports[q], *this ).port; else pports[q] = makePOut( p.pports[q], *this ).port; }
  }
  std::map<int, std::unique_ptr<AudioPortBase>> ports;
  std::map<int, std::unique_ptr<ParameterPortBase>> pports;
};

struct Built
{
  std::unique_ptr<SignalFlowContext> ctx;
  std::vector<std::unique_ptr<Component>> comps; // construction order
  std::vector<Component *> byIdx;
  Recorder rec;
  ~Built() { while( !comps.empty() ) comps.pop_back(); }
  Component & top() { return *byIdx[0]; }
};

inline AudioPortBase & aport( Plan const & p, Built & b, int q ) { return b.byIdx[ p.aports[q].comp ]->audioPort( p.aports[q].name ); }
inline ParameterPortBase & pport( Plan const & p, Built & b, int q ) { return b.byIdx[ p.pports[q].comp ]->parameterPort( p.pports[q].name ); }

inline void connectAudio( Plan const & p, Built & b, AConn const & c )
{
  auto & par = static_cast<CompositeComponent &>( *b.byIdx[c.parent] );
  if( c.style == 2 ) par.audioConnection( aport( p, b, c.s ), aport( p, b, c.r ) );
  else if( c.style == 1 ) par.audioConnection( aport( p, b, c.s ), ChannelList( c.si ), aport( p, b, c.r ), ChannelList( c.ri ) );
  else
  {
    auto nm = [&]( int q ) { return p.aports[q].comp == c.parent ? std::string( "this" ) : p.comps[ p.aports[q].comp ].name; };
    par.audioConnection( nm( c.s ).c_str(), p.aports[c.s].name.c_str(), ChannelList( c.si ), nm( c.r ).c_str(), p.aports[c.r].name.c_str(), ChannelList( c.ri ) );
  }
}
inline void connectParam( Plan const & p, Built & b, PConn const & c )
{
  auto & par = static_cast<CompositeComponent &>( *b.byIdx[c.parent] );
  if( c.style == 1 ) par.parameterConnection( pport( p, b, c.s ), pport( p, b, c.r ) );
  else
  {
    auto nm = [&]( int q ) { return p.pports[q].comp == c.parent ? std::string( "this" ) : p.comps[ p.pports[q].comp ].name; };
    par.parameterConnection( nm( c.s ).c_str(), p.pports[c.s].name.c_str(), nm( c.r ).c_str(), p.pports[c.r].name.c_str() );
  }
}
inline void build( Plan const & p, Built & b )
{
  b.ctx.reset( new SignalFlowContext( p.period, 48000 ) );
  b.byIdx.assign( p.comps.size(), nullptr );
  for( int c : p.order )
  {
    Comp const & k = p.comps[c];
    auto * parent = k.parent < 0 ? nullptr : static_cast<CompositeComponent *>( b.byIdx[k.parent] );
    std::unique_ptr<Component> obj;
    if( k.composite ) obj.reset( new TestComposite( *b.ctx, k.name, parent, p, c ) );
    else obj.reset( new TestAtom( *b.ctx, k.name, parent, p, k.atom, b.rec ) );
    b.byIdx[c] = obj.get();
    b.comps.push_back( std::move( obj ) );
  }
  for( AConn const & c : p.aconns ) connectAudio( p, b, c );
  for( PConn const & c : p.pconns ) connectParam( p, b, c );
}

// Reference evaluation of one block on the flat graph.
struct Reference
{
  Plan const & p;
  std::vector<AtomState> st;
  std::map<int, std::vector<i64>> box;        // per param receive port: pending (MQ) or {changed,value}/{value}
  std::map<int, std::vector<std::vector<i64>>> chan; // send port -> channel data
  explicit Reference( Plan const & plan ): p( plan ), st( plan.atoms.size() )
  {
    for( auto const & e : p.flatParam )
    {
      int proto = p.pports[e.first].proto;
      if( proto == DB ) box[e.first] = { 0, 0 }; else if( proto == SD ) box[e.first] = { 0 }; else box[e.first] = {};
    }
  }
  void send( int port, i64 v )
  {
    auto it = p.fanParam.find( port );
    if( it == p.fanParam.end() ) return;
    for( int r : it->second )
    {
      if( p.pports[port].proto == MQ ) box[r].push_back( v );
      else if( p.pports[port].proto == DB ) box[r] = { 1, v };
      else box[r] = { v };
    }
  }
  std::vector<i64> drain( int r )
  {
    std::vector<i64> v = box[r];
    if( p.pports[r].proto == MQ ) box[r].clear(); else if( p.pports[r].proto == DB ) box[r][0] = 0;
    return v;
  }
  // ext: samples of all top-level input channels, in port order. Returns the top-level output channels.
  std::vector<std::vector<i64>> block( std::vector<std::vector<i64>> const & ext )
  {
    std::size_t k = 0;
    for( int q : p.topIn ) { chan[q].clear(); for( int c = 0; c < p.aports[q].width; ++c ) chan[q].push_back( ext[k++] ); }
    for( std::size_t a = 0; a < p.atoms.size(); ++a )
    {
      Comp const & c = p.comps[ p.atoms[a] ];
      AtomIO io;
      for( int q : c.ap ) if( p.aports[q].in )
      {
        std::vector<std::vector<i64>> chs;
        for( int ch = 0; ch < p.aports[q].width; ++ch ) { AChan s = p.flatAudio.at( { q, ch } ); chs.push_back( chan.at( s.port ).at( s.ch ) ); }
        io.in.push_back( chs );
      }
      for( int q : c.pp ) if( p.pports[q].in ) io.pin.push_back( drain( q ) );
      evalAtom( p, static_cast<int>( a ), st[a], io, p.period );
      k = 0; for( int q : c.ap ) if( !p.aports[q].in ) chan[q] = io.out[k++];
      k = 0; for( int q : c.pp ) if( !p.pports[q].in ) { for( i64 v : io.pout[k] ) send( q, v ); ++k; }
    }
    std::vector<std::vector<i64>> out;
    for( int q : p.topOut ) for( int c = 0; c < p.aports[q].width; ++c ) { AChan s = p.flatAudio.at( { q, c } ); out.push_back( chan.at( s.port ).at( s.ch ) ); }
    return out;
  }
};

// External parameter endpoints of a flow.
inline void extSend( rrl::AudioSignalFlow & f, PPort const & p, i64 v )
{
  CommunicationProtocolBase::Output & o = f.externalParameterReceivePort( p.name.c_str() );
  auto fill = [&]( ParameterBase & d ) { if( p.ptype == PInt ) PVal<pml::ScalarParameter<int>>::set( dynamic_cast<pml::ScalarParameter<int> &>( d ), v ); else PVal<pml::MatrixParameter<float>>::set( dynamic_cast<pml::MatrixParameter<float> &>( d ), v ); };
  if( p.proto == MQ )
  {
    std::unique_ptr<ParameterBase> m;
    if( p.ptype == PInt ) m.reset( new pml::ScalarParameter<int>( PVal<pml::ScalarParameter<int>>::make( p, v ) ) ); else m.reset( new pml::MatrixParameter<float>( PVal<pml::MatrixParameter<float>>::make( p, v ) ) );
    dynamic_cast<pml::MessageQueueProtocol::OutputBase &>( o ).enqueue( std::move( m ) );
  }
  else if( p.proto == DB ) { auto & d = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase &>( o ); fill( d.data() ); d.swapBuffers(); }
  else fill( dynamic_cast<pml::SharedDataProtocol::OutputBase &>( o ).data() );
}
inline std::vector<i64> extDrain( rrl::AudioSignalFlow & f, PPort const & p )
{
  CommunicationProtocolBase::Input & o = f.externalParameterSendPort( p.name.c_str() );
  auto val = [&]( ParameterBase const & d ) { return p.ptype == PInt ? PVal<pml::ScalarParameter<int>>::get( dynamic_cast<pml::ScalarParameter<int> const &>( d ), p ) : PVal<pml::MatrixParameter<float>>::get( dynamic_cast<pml::MatrixParameter<float> const &>( d ), p ); };
  if( p.proto == MQ ) { auto & q = dynamic_cast<pml::MessageQueueProtocol::InputBase &>( o ); std::vector<i64> v; while( !q.empty() ) { v.push_back( val( q.front() ) ); q.pop(); } return v; }
  if( p.proto == DB ) { auto & q = dynamic_cast<pml::DoubleBufferingProtocol::InputBase &>( o ); std::vector<i64> v{ q.changed() ? 1 : 0, val( q.data() ) }; q.resetChanged(); return v; }
  return { val( dynamic_cast<pml::SharedDataProtocol::InputBase &>( o ).data() ) };
}
inline std::uint64_t signature( Plan const & p )
{
  std::uint64_t h = vh::mix( p.comps.size(), p.period );
  for( auto const & c : p.comps ) h = vh::mix( h, c.parent * 2 + c.composite );
  for( auto const & c : p.aconns ) { h = vh::mix( h, c.parent * 1000003ull + c.s * 1009 + c.r ); for( auto x : c.si ) h = vh::mix( h, x ); for( auto x : c.ri ) h = vh::mix( h, x ); }
  for( auto const & c : p.pconns ) h = vh::mix( h, c.parent * 1000003ull + c.s * 1009 + c.r );
  return h;
}
inline std::string describe( Plan const & p )
{
  return vh::cat( "period ", p.period, ", ", p.comps.size(), " components (", p.atoms.size(), " atoms, depth ", p.depth, "), ", p.aconns.size(), " audio connections over ", p.flatAudio.size(),
                  " channels, ", p.placeholders, " placeholder channels, ", p.detours, " pass-throughs, ", p.pconns.size(), " parameter connections" );
}
} // namespace fg
