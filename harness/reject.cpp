// C02: a flow with one defect in its structure is refused with an exception; nothing else happens.
#include "flowgen.hpp"
using namespace fg;

// Where a port is visible as a sender / receiver inside a composite.
static bool sendsIn( Plan const & p, int comp, bool in, int parent ) { return comp == parent ? in : ( p.comps[comp].parent == parent && !in ); }

struct Mutated { std::string name; std::function<void( Built & )> late; bool ok = false; };

static Mutated mutate( Plan & p, Rng & g, int kind )
{
  Mutated m;
  auto nonEmpty = [&]() { std::vector<std::size_t> v; for( std::size_t i = 0; i < p.aconns.size(); ++i ) v.push_back( i ); return v; };
  auto isPh = [&]( int comp ) { return p.comps[comp].composite && comp != 0; };
  switch( kind )
  {
  case 0: { m.name = "receive channel not connected";
    auto v = nonEmpty(); if( v.empty() ) break;
    std::size_t i = g.pick( v ); auto & c = p.aconns[i]; if( c.style == 2 ) c.style = 1;
    std::size_t k = g.index( c.si.size() ); c.si.erase( c.si.begin() + k ); c.ri.erase( c.ri.begin() + k );
    if( c.si.empty() ) p.aconns.erase( p.aconns.begin() + i );
    m.ok = true; break; }
  case 1: { m.name = "receive channel connected twice";
    auto v = nonEmpty(); if( v.empty() ) break;
    AConn c = p.aconns[ g.pick( v ) ];
    std::size_t k = g.index( c.ri.size() );
    std::vector<AChan> s;
    for( std::size_t q = 0; q < p.aports.size(); ++q ) if( p.aports[q].type == p.aports[c.r].type && sendsIn( p, p.aports[q].comp, p.aports[q].in, c.parent ) ) for( int ch = 0; ch < p.aports[q].width; ++ch ) s.push_back( { static_cast<int>( q ), ch } );
    if( g.chance( 0.3 ) ) { s.clear(); s.push_back( { c.s, static_cast<int>( c.si[k] ) } ); }
    AChan from = g.pick( s );
    p.aconns.push_back( { c.parent, from.port, c.r, { static_cast<std::size_t>( from.ch ) }, { c.ri[k] }, static_cast<int>( g.range( 0, 1 ) ) } );
    m.ok = true; break; }
  case 2: case 3: { m.name = kind == 2 ? "send index out of range" : "receive index out of range";
    auto v = nonEmpty(); if( v.empty() ) break;
    auto & c = p.aconns[ g.pick( v ) ]; if( c.style == 2 ) c.style = 1;
    std::size_t w = p.aports[ kind == 2 ? c.s : c.r ].width;
    std::size_t bad = w + ( g.chance( 0.6 ) ? 0 : g.chance( 0.5 ) ? g.index( 5 ) : 1000000 );
    std::size_t k = g.index( c.si.size() );
    if( kind == 2 ) c.si[k] = bad; else c.ri[k] = bad;
    m.ok = true; break; }
  case 4: { m.name = "index lists of different length";
    auto v = nonEmpty(); if( v.empty() ) break;
    auto & c = p.aconns[ g.pick( v ) ]; if( c.style == 2 ) c.style = 1;
    if( g.chance( 0.5 ) ) c.si.push_back( c.si[0] ); else c.ri.pop_back();
    m.ok = true; break; }
  case 5: { m.name = "audio connection against the port directions";
    auto v = nonEmpty(); if( v.empty() ) break;
    auto & c = p.aconns[ g.pick( v ) ];
    std::swap( c.s, c.r ); std::swap( c.si, c.ri ); if( c.style == 2 ) c.style = 1;
    m.ok = true; break; }
  case 6: { m.name = "audio connection registered in the wrong composite";
    std::vector<std::pair<std::size_t, int>> v;
    for( std::size_t i = 0; i < p.aconns.size(); ++i ) for( std::size_t c = 0; c < p.comps.size(); ++c )
      if( p.comps[c].composite && static_cast<int>( c ) != p.aconns[i].parent && !( sendsIn( p, p.aports[p.aconns[i].s].comp, p.aports[p.aconns[i].s].in, static_cast<int>( c ) ) && sendsIn( p, p.aports[p.aconns[i].r].comp, !p.aports[p.aconns[i].r].in, static_cast<int>( c ) ) ) ) v.push_back( { i, static_cast<int>( c ) } );
    if( v.empty() ) break;
    auto x = g.pick( v ); p.aconns[x.first].parent = x.second; if( p.aconns[x.first].style == 0 ) p.aconns[x.first].style = 1;
    m.ok = true; break; }
  case 7: { m.name = "different sample types";
    std::vector<int> v;
    for( auto const & c : p.aconns ) { if( p.aports[c.r].comp != 0 ) v.push_back( c.r ); if( p.aports[c.s].comp != 0 ) v.push_back( c.s ); }
    if( v.empty() ) break;
    int q = g.pick( v ); int t; do t = static_cast<int>( g.range( 0, NTYPES - 1 ) ); while( t == p.aports[q].type );
    p.aports[q].type = t; m.ok = true; break; }
  case 8: case 9: m.name = kind == 8 ? "audio feedback loop" : "feedback loop through parameters"; m.ok = p.cyclic; break;
  case 10: { m.name = "closed loop of placeholder ports";
    std::vector<int> v; for( std::size_t c = 1; c < p.comps.size(); ++c ) if( p.comps[c].composite ) v.push_back( static_cast<int>( c ) );
    if( v.empty() ) break;
    int q = g.pick( v ), par = p.comps[q].parent;
    std::vector<int> at; for( int a : p.atoms ) if( p.comps[a].parent == par || p.comps[a].parent == q ) at.push_back( a );
    if( at.empty() ) break;
    int reader = g.pick( at );
    auto add = [&]( int comp, bool in, char const * n ) { p.aports.push_back( { comp, in, F32, 1, n } ); p.comps[comp].ap.push_back( static_cast<int>( p.aports.size() ) - 1 ); return static_cast<int>( p.aports.size() ) - 1; };
    int x = add( q, true, "loopin" ), y = add( q, false, "loopout" ), z = add( reader, true, "loopread" );
    p.aconns.push_back( { q, x, y, { 0 }, { 0 }, 1 } );
    p.aconns.push_back( { par, y, x, { 0 }, { 0 }, 1 } );
    if( p.comps[reader].parent == par ) p.aconns.push_back( { par, y, z, { 0 }, { 0 }, 1 } ); else p.aconns.push_back( { q, x, z, { 0 }, { 0 }, 1 } );
    m.ok = true; break; }
  case 11: { m.name = "parameter input not connected";
    if( p.pconns.empty() ) break;
    p.pconns.erase( p.pconns.begin() + g.index( p.pconns.size() ) ); m.ok = true; break; }
  case 12: { m.name = "different parameter types";
    if( p.pconns.empty() ) break;
    auto & c = g.pick( p.pconns ); int q = g.chance( 0.5 ) ? c.s : c.r;
    const_cast<PPort &>( p.pports[q] ).ptype = 1 - p.pports[q].ptype; m.ok = true; break; }
  case 13: { m.name = "different protocols";
    if( p.pconns.empty() ) break;
    auto & c = g.pick( p.pconns ); int q = g.chance( 0.5 ) ? c.s : c.r;
    p.pports[q].proto = static_cast<int>( ( p.pports[q].proto + g.range( 1, 2 ) ) % 3 ); m.ok = true; break; }
  case 14: { m.name = "different parameter configurations";
    std::vector<int> v; for( auto const & c : p.pconns ) if( p.pports[c.r].ptype == PMat ) { v.push_back( c.r ); v.push_back( c.s ); }
    if( v.empty() ) break;
    int q = g.pick( v ); if( g.chance( 0.5 ) ) ++p.pports[q].rows; else ++p.pports[q].cols;
    m.ok = true; break; }
  case 15: { m.name = "two senders for one parameter input";
    std::vector<PConn> v;
    for( auto const & c : p.pconns ) v.push_back( c );
    if( v.empty() ) break;
    PConn c = g.pick( v );
    // a new sending atom next to the receiver
    int a = static_cast<int>( p.comps.size() );
    p.comps.push_back( { c.parent, false, "second", {}, {} } ); p.comps[a].atom = static_cast<int>( p.atoms.size() ); p.atoms.push_back( a ); p.order.push_back( a );
    PPort s = p.pports[c.r]; s.comp = a; s.in = false; s.name = "out"; s.external = false;
    p.pports.push_back( s ); int q = static_cast<int>( p.pports.size() ) - 1; p.comps[a].pp.push_back( q );
    p.pconns.insert( p.pconns.begin() + g.index( p.pconns.size() + 1 ), PConn{ c.parent, q, c.r, 1 } );
    if( isPh( p.pports[c.r].comp ) ) m.name = "two senders for one parameter placeholder";
    m.ok = true; break; }
  case 16: { m.name = "message queue with two receivers";
    std::vector<PConn> v; for( auto const & c : p.pconns ) if( p.pports[c.s].proto == MQ ) v.push_back( c );
    if( v.empty() ) break;
    PConn c = g.pick( v );
    int a = static_cast<int>( p.comps.size() );
    p.comps.push_back( { c.parent, false, "second", {}, {} } ); p.comps[a].atom = static_cast<int>( p.atoms.size() ); p.atoms.push_back( a ); p.order.push_back( a );
    PPort s = p.pports[c.s]; s.comp = a; s.in = true; s.name = "in"; s.external = false;
    p.pports.push_back( s ); int q = static_cast<int>( p.pports.size() ) - 1; p.comps[a].pp.push_back( q );
    p.pconns.push_back( { c.parent, c.s, q, 1 } ); m.ok = true; break; }
  case 17: { m.name = "parameter connection against the port directions";
    if( p.pconns.empty() ) break;
    auto & c = g.pick( p.pconns ); auto & cc = const_cast<PConn &>( c ); std::swap( cc.s, cc.r ); m.ok = true; break; }
  case 18: { m.name = "duplicate component name";
    std::vector<std::pair<int, int>> v;
    for( std::size_t a = 1; a < p.comps.size(); ++a ) for( std::size_t b = a + 1; b < p.comps.size(); ++b ) if( p.comps[a].parent == p.comps[b].parent ) v.push_back( { static_cast<int>( a ), static_cast<int>( b ) } );
    if( v.empty() ) break;
    auto x = g.pick( v ); p.comps[x.first].name = p.comps[x.second].name; m.ok = true; break; }
  case 19: { m.name = "duplicate audio port name";
    std::vector<std::pair<int, int>> v;
    for( auto const & c : p.comps ) for( std::size_t a = 0; a < c.ap.size(); ++a ) for( std::size_t b = a + 1; b < c.ap.size(); ++b ) v.push_back( { c.ap[a], c.ap[b] } );
    if( v.empty() ) break;
    auto x = g.pick( v ); p.aports[x.first].name = p.aports[x.second].name; m.ok = true; break; }
  case 20: { m.name = "duplicate parameter port name";
    std::vector<std::pair<int, int>> v;
    for( auto const & c : p.comps ) for( std::size_t a = 0; a < c.pp.size(); ++a ) for( std::size_t b = a + 1; b < c.pp.size(); ++b ) v.push_back( { c.pp[a], c.pp[b] } );
    if( v.empty() ) break;
    auto x = g.pick( v ); p.pports[x.first].name = p.pports[x.second].name; m.ok = true; break; }
  case 21: { m.name = "connection names an unknown component or port";
    bool audio = g.chance( 0.5 ), sender = g.chance( 0.5 ), port = g.chance( 0.5 );
    if( audio && !p.aconns.empty() )
    {
      AConn c = g.pick( p.aconns );
      m.late = [c, &p, sender, port]( Built & b ) {
        auto nm = [&]( int q ) { return p.aports[q].comp == c.parent ? std::string( "this" ) : p.comps[ p.aports[q].comp ].name; };
        static_cast<CompositeComponent &>( *b.byIdx[c.parent] ).audioConnection( ( sender && !port ) ? "nosuch" : nm( c.s ).c_str(), ( sender && port ) ? "nosuch" : p.aports[c.s].name.c_str(), ChannelList( c.si ),
          ( !sender && !port ) ? "nosuch" : nm( c.r ).c_str(), ( !sender && port ) ? "nosuch" : p.aports[c.r].name.c_str(), ChannelList( c.ri ) ); };
      m.ok = true;
    }
    else if( !p.pconns.empty() )
    {
      PConn c = g.pick( p.pconns );
      m.late = [c, &p, sender, port]( Built & b ) {
        auto nm = [&]( int q ) { return p.pports[q].comp == c.parent ? std::string( "this" ) : p.comps[ p.pports[q].comp ].name; };
        static_cast<CompositeComponent &>( *b.byIdx[c.parent] ).parameterConnection( ( sender && !port ) ? "nosuch" : nm( c.s ).c_str(), ( sender && port ) ? "nosuch" : p.pports[c.s].name.c_str(),
          ( !sender && !port ) ? "nosuch" : nm( c.r ).c_str(), ( !sender && port ) ? "nosuch" : p.pports[c.r].name.c_str() ); };
      m.ok = true;
    }
    break; }
  case 22: { m.name = "whole-port connection of different widths";
    std::vector<std::size_t> v; for( std::size_t i = 0; i < p.aconns.size(); ++i ) if( p.aports[p.aconns[i].s].width != p.aports[p.aconns[i].r].width ) v.push_back( i );
    if( v.empty() ) break;
    p.aconns[ g.pick( v ) ].style = 2; m.ok = true; break; }
  case 23: { m.name = "port shrunk after it was connected";
    auto v = nonEmpty(); if( v.empty() ) break;
    auto c = g.pick( p.aconns ); bool s = g.chance( 0.5 );
    std::size_t k = *std::max_element( s ? c.si.begin() : c.ri.begin(), s ? c.si.end() : c.ri.end() ); int q = s ? c.s : c.r;
    m.late = [q, k, &p]( Built & b ) { aport( p, b, q ).setWidth( k ); };
    m.ok = true; break; }
  case 24: { m.name = "port widened after it was connected";
    auto v = nonEmpty(); if( v.empty() ) break;
    auto c = g.pick( p.aconns ); int q = c.r;
    m.late = [q, &p]( Built & b ) { aport( p, b, q ).setWidth( p.aports[q].width + 1 ); };
    m.ok = true; break; }
  case 25: { m.name = "send channel not connected";
    std::vector<int> v; for( auto const & c : p.aconns ) v.push_back( c.s );
    if( v.empty() ) break;
    int q = g.pick( v ); m.late = [q, &p]( Built & b ) { aport( p, b, q ).setWidth( p.aports[q].width + 1 ); };
    m.ok = true; break; }
  case 26: { m.name = "closed loop of parameter placeholders";
    std::vector<int> v; for( std::size_t c = 1; c < p.comps.size(); ++c ) if( p.comps[c].composite ) v.push_back( static_cast<int>( c ) );
    if( v.empty() ) break;
    int q = g.pick( v ), par = p.comps[q].parent;
    std::vector<int> at; for( int a : p.atoms ) if( p.comps[a].parent == par || p.comps[a].parent == q ) at.push_back( a );
    if( at.empty() ) break;
    int reader = g.pick( at ), proto = static_cast<int>( g.range( 1, 2 ) );
    auto add = [&]( int comp, bool in, char const * n ) { p.pports.push_back( { comp, in, proto, PInt, 1, 1, n } ); p.comps[comp].pp.push_back( static_cast<int>( p.pports.size() ) - 1 ); return static_cast<int>( p.pports.size() ) - 1; };
    int x = add( q, true, "loopin" ), y = add( q, false, "loopout" ), z = add( reader, true, "loopread" );
    p.pconns.push_back( { q, x, y, 1 } ); p.pconns.push_back( { par, y, x, 1 } );
    if( p.comps[reader].parent == par ) p.pconns.push_back( { par, y, z, 1 } ); else p.pconns.push_back( { q, x, z, 1 } );
    m.ok = true; break; }
  }
  return m;
}
static int const KINDS = 27;

static void runCase( vh::Run & r )
{
  static bool init = ( pml::initialiseParameterLibrary(), efl::initialiseLibrary(), true ); (void)init;
  int const kind = static_cast<int>( r.caseIdx % KINDS );
  for( int attempt = 0; attempt < 40; ++attempt )
  {
    GenOpts o; o.maxAtoms = 8; o.types = r.rng.chance( 0.6 ); o.forceParams = r.rng.chance( 0.5 );
    o.cycle = kind == 8 ? 1 : kind == 9 ? 2 : 0;
    Plan p = generate( r.rng, o );
    Mutated m = mutate( p, r.rng, kind );
    if( !m.ok ) continue;
    Built b;
    bool refused = false; std::string why;
    try
    {
      build( p, b );
      if( m.late ) m.late( b );
      rrl::AudioSignalFlow flow( b.top() );
    }
    catch( std::exception const & ex ) { refused = true; why = ex.what(); }
    r.event();
    if( !refused ) r.viol( "accepted:" + m.name, vh::cat( "a flow with the defect \"", m.name, "\" was accepted: ", describe( p ) ) );
    r.count( "refused: " + m.name );
    r.nontrivial( vh::mix( signature( p ), kind ) );
    r.sample( vh::cat( m.name, " in ", describe( p ), " -> ", why.substr( 0, 160 ) ) );
    return;
  }
  r.count( "no candidate" );
}
VH_MAIN( runCase )
