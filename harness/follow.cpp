// C18: what follows the listener and the scene. Loudspeakers are levelled and delayed for the listener's position; channel objects
// are routed to the loudspeakers they name; rendering channels stay with their objects.
#include "rig.hpp"
#include "arrays.hpp"
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <librbbl/object_channel_allocator.hpp>
#include <librcl/channel_object_routing_calculator.hpp>
#include <librcl/listener_compensation.hpp>
#include <libvisr/signal_flow_context.hpp>
// LIBS: rrl pml rcl panning objectmodel rbbl visr efl

static void compensation( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ); std::size_t const n = ar.m.reg.size(); SignalFlowContext ctx( static_cast<std::size_t>( g.range( 1, 64 ) ), 48000 );
  std::unique_ptr<rcl::ListenerCompensation> c; { LoudspeakerArray copy; copy = ar.a; c.reset( new rcl::ListenerCompensation( ctx, "lc", nullptr, copy ) ); }
  rig::Rig rg( *c ); rig::Block none, out; std::string log = ar.m.xml; if( !ar.m.virt.empty() ) r.count( "arrays with virtual loudspeakers" );
  auto & gp = rg.dbOut( "gainOutput" ); auto & dp = rg.dbOut( "delayOutput" );
  for( long b = g.range( 1, 6 ); b > 0; --b )
  {
    bool const move = g.chance( 0.7 ); V p{ { 0, 0, 0 } };
    if( move )
    {
      switch( g.index( 5 ) )
      {
      case 0: break;
      case 1: p = ar.m.pos( g.index( n ) ); break; // at a loudspeaker
      case 2: for( auto & x : p ) x = g.uni( -50, 50 ); break;
      default: for( auto & x : p ) x = g.uni( -1, 1 );
      }
      p = fl( p ); pml::ListenerPosition lp( static_cast<float>( p[0] ), static_cast<float>( p[1] ), static_cast<float>( p[2] ) ); if( g.chance( 0.3 ) ) lp.setOrientationYPR( static_cast<float>( g.uni( -3, 3 ) ), 0.f, 0.f ); // orientation is irrelevant
      rg.publish( "positionInput", lp ); log += "; listener " + str( p ); r.count( "listener positions" );
    }
    if( !rg.process( none, out ) ) { r.viol( "compensation_failed", log + ": " + rg.error ); return; }
    r.event(); if( gp.changed() != move || dp.changed() != move ) { r.viol( "compensation_output", vh::cat( log, ": gains ", gp.changed() ? "" : "not ", "changed, delays ", dp.changed() ? "" : "not ", "changed" ) ); return; }
    if( !move ) continue;
    gp.resetChanged(); dp.resetChanged(); auto const & gv = dynamic_cast<pml::VectorParameter<float> const &>( gp.data() ); auto const & dv = dynamic_cast<pml::VectorParameter<float> const &>( dp.data() );
    if( gv.size() != n || dv.size() != n ) { r.viol( "compensation_size", log ); return; }
    double far = 0; std::vector<double> d( n ); for( std::size_t i = 0; i < n; ++i ) far = std::max( far, d[i] = len( ::sub( ar.m.pos( i ), p ) ) );
    for( std::size_t i = 0; i < n; ++i )
    {
      r.event(); if( !near( gv[i], d[i] / far, 1e-5 ) ) { r.viol( "compensation_gain", vh::cat( log, ": loudspeaker ", i, ": got ", gv[i], ", expected ", d[i] / far ) ); return; }
      if( !near( dv[i], ( far - d[i] ) / 344, 1e-7 * ( 1 + far ) ) ) { r.viol( "compensation_delay", vh::cat( log, ": loudspeaker ", i, ": got ", dv[i], ", expected ", ( far - d[i] ) / 344 ) ); return; }
    }
    r.count( "compensations" );
  }
  r.nontrivial( log );
}
static void channelRouting( vh::Run & r )
{
  Rng & g = r.rng; ArrayRun ar( g ); std::size_t const n = ar.m.reg.size(), ch = static_cast<std::size_t>( g.range( 1, 8 ) ); SignalFlowContext ctx( 16, 48000 );
  rcl::ChannelObjectRoutingCalculator c( ctx, "cr", nullptr, ch, ar.a ); rig::Rig rg( c ); rig::Block none, out; std::string log = vh::cat( ar.m.xml, ": ", ch, " channels" ); auto & port = rg.dbOut( "routingOut" );
  for( long b = g.range( 1, 5 ); b > 0; --b )
  {
    bool const fresh = g.chance( 0.8 ); std::map<std::size_t, std::set<std::size_t>> claims; // by loudspeaker
    if( fresh )
    {
      objectmodel::ObjectVector ov; log += "; scene"; unsigned id = 0;
      for( std::size_t k = g.index( 5 ); k > 0; --k )
      {
        id += 1 + static_cast<unsigned>( g.index( 4 ) ); auto pickChannel = [&] { if( g.chance( 0.15 ) ) { r.count( "inadmissible channels" ); return ch + g.index( 3 ); } return g.index( ch ); };
        if( g.chance( 0.2 ) ) { objectmodel::PointSource p( id ); p.resetNumberOfChannels( 1 ); p.setChannelIndex( 0, static_cast<objectmodel::Object::ChannelIndex>( pickChannel() ) ); ov.insert( p ); log += " point"; continue; }
        objectmodel::ChannelObject o( id ); std::size_t const m = g.index( 4 ); o.resetNumberOfChannels( m ); objectmodel::ChannelObject::OutputChannelContainer lists( m ); log += vh::cat( " channels", m );
        for( std::size_t x = 0; x < m; ++x )
        {
          std::size_t const s = pickChannel(); o.setChannelIndex( x, static_cast<objectmodel::Object::ChannelIndex>( s ) ); log += vh::cat( " ", s, "->" );
          std::size_t const outs = g.chance( 0.8 ) ? 1 : g.pick( { std::size_t( 0 ), std::size_t( 2 ), std::size_t( 3 ) } ); bool admissible = outs == 1 && s < ch; std::size_t target = 0;
          for( std::size_t y = 0; y < outs; ++y )
          {
            if( g.chance( 0.1 ) ) { lists[x].push_back( "nowhere" ); admissible = false; r.count( "unknown loudspeakers" ); log += "nowhere,"; }
            else if( !ar.m.virt.empty() && g.chance( 0.05 ) ) { lists[x].push_back( ar.m.virt[0].id ); admissible = false; r.count( "channels for virtual loudspeakers" ); log += "virtual,"; }
            else { target = g.index( n ); lists[x].push_back( ar.m.reg[target].id ); log += ar.m.reg[target].id + ","; }
          }
          if( outs != 1 ) r.count( "channels without a single loudspeaker" );
          if( admissible ) claims[target].insert( s );
        }
        o.setOutputChannels( lists ); ov.insert( o );
      }
      auto & in = rg.db<pml::ObjectVector>( "objectIn" ); static_cast<objectmodel::ObjectVector &>( dynamic_cast<pml::ObjectVector &>( in.data() ) ).assign( ov ); in.swapBuffers(); r.count( "scenes" );
    }
    if( !rg.process( none, out ) ) { r.viol( "routing_failed", log + ": " + rg.error ); return; }
    r.event(); if( port.changed() != fresh ) { r.viol( "routing_output", log ); return; }
    if( !fresh ) continue;
    port.resetChanged(); auto const & rt = dynamic_cast<pml::SignalRoutingParameter const &>( port.data() ); std::string got; std::size_t count = 0; bool bad = false;
    for( auto const & e : rt ) { ++count; got += vh::cat( " ", e.input, "=", e.output ); auto const f = claims.find( e.output ); if( f == claims.end() || !f->second.count( e.input ) || rt.getInput( e.output ) != e.input ) bad = true; }
    r.event(); if( bad || count != claims.size() || rt.size() != count ) { r.viol( "routing", vh::cat( log, ": routings are", got, ", expected ", claims.size(), " of the scene" ) ); return; }
    r.count( "routings", static_cast<long>( count ) );
  }
  r.nontrivial( log );
}
static void allocation( vh::Run & r )
{
  Rng & g = r.rng; std::size_t const ch = g.chance( 0.05 ) ? 0 : static_cast<std::size_t>( g.range( 1, 12 ) ); rbbl::ObjectChannelAllocator a( ch ); std::map<objectmodel::ObjectId, std::size_t> model; std::string log = vh::cat( ch, " channels" ); long const idRange = g.pick( { 4l, 12l, 40l, 1000000l } );
  for( long k = g.range( 1, 25 ); k > 0; --k )
  {
    std::set<objectmodel::ObjectId> ids; std::size_t const want = g.chance( 0.1 ) ? ch + 1 + g.index( 2 ) : g.index( ch + 1 );
    for( auto const & m : model ) if( g.chance( 0.7 ) && ids.size() < want ) ids.insert( m.first );
    for( int tries = 0; ids.size() < want && tries < 200; ++tries ) ids.insert( static_cast<objectmodel::ObjectId>( g.range( 0, idRange ) ) );
    std::vector<objectmodel::ObjectId> v( ids.begin(), ids.end() ); g.shuffle( v ); log += "; " + vh::vec( v ); bool refused = false;
    try { a.setObjects( v ); } catch( std::invalid_argument const & ) { refused = true; } catch( std::exception const & e ) { r.viol( "allocation_failed", log + ": " + e.what() ); return; }
    r.event(); if( refused != ( v.size() > ch ) ) { r.viol( "allocation_admission", vh::cat( log, ": ", refused ? "refused" : "accepted" ) ); return; }
    if( refused ) r.count( "excessive objects refused" );
    std::map<objectmodel::ObjectId, std::size_t> now; std::size_t used = 0;
    for( std::size_t c = 0; c < ch; ++c ) { auto const id = a.getObjectForChannel( c ); if( id == objectmodel::Object::cInvalidObjectId ) continue; ++used; if( !now.insert( { id, c } ).second ) { r.viol( "allocated_twice", vh::cat( log, ": object ", id ) ); return; } }
    r.event(); if( a.numberUsedChannels() != used || a.maxChannels() != ch ) { r.viol( "allocation_count", log ); return; }
    std::set<objectmodel::ObjectId> expected = ids; if( refused ) { expected.clear(); for( auto const & m : model ) expected.insert( m.first ); }
    if( now.size() != expected.size() ) { r.viol( "allocation_set", vh::cat( log, ": ", now.size(), " channels in use" ) ); return; }
    for( auto const & e : now ) { r.event(); if( !expected.count( e.first ) ) { r.viol( "allocation_set", vh::cat( log, ": channel ", e.second, " belongs to object ", e.first ) ); return; } auto const f = model.find( e.first ); if( f != model.end() ) { r.count( "objects that stayed" ); if( f->second != e.second ) { r.viol( "allocation_moved", vh::cat( log, ": object ", e.first, " moved from channel ", f->second, " to ", e.second ) ); return; } } }
    model = now; r.count( "allocations" );
    if( g.chance( 0.2 ) ) { bool t = false; try { a.getObjectForChannel( ch + g.index( 3 ) ); } catch( std::invalid_argument const & ) { t = true; } if( !t ) { r.viol( "allocation_lookup", log + ": object of a channel that does not exist" ); return; } r.count( "absent channels refused" ); }
  }
  r.nontrivial( log );
}
static void one( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), true ); (void)init;
  switch( r.rng.index( 3 ) ) { case 0: compensation( r ); break; case 1: channelRouting( r ); break; default: allocation( r ); }
}
VH_MAIN( one )
