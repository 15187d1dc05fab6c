// LIBS: pml objectmodel rbbl visr efl
// C04: parameter ports: what the receivers read is what the senders published, for every protocol and every type.
#include "pvalues.hpp"
#include <deque>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libvisr/communication_protocol_factory.hpp>
using namespace pv;

static std::vector<Kind> const & all() { static std::vector<Kind> k = kinds(); return k; }
struct Ctx { vh::Run & r; Rng & g; Kind const & k; Dims d; std::unique_ptr<ParameterConfigBase> cfg; };

// an endpoint of the wrong protocol is refused and the protocol stays as it was
template<class F> static bool refuses( F f ) { try { f(); } catch( std::exception const & ) { return true; } return false; }

static void messageQueue( Ctx & x )
{
  vh::Run & r = x.r; Rng & g = x.g;
  auto prot = CommunicationProtocolFactory::createProtocol( pml::MessageQueueProtocol::staticType(), x.k.type, *x.cfg );
  auto in = CommunicationProtocolFactory::createInput( pml::MessageQueueProtocol::staticType() );
  auto out = CommunicationProtocolFactory::createOutput( pml::MessageQueueProtocol::staticType() );
  auto * I = dynamic_cast<pml::MessageQueueProtocol::InputBase *>( in.get() );
  auto * O = dynamic_cast<pml::MessageQueueProtocol::OutputBase *>( out.get() );
  if( g.chance( 0.5 ) ) { prot->connectInput( I ); prot->connectOutput( O ); } else { prot->connectOutput( O ); prot->connectInput( I ); }
  std::deque<std::string> q;
  std::unique_ptr<pml::MessageQueueProtocol::InputBase> I2; std::unique_ptr<pml::MessageQueueProtocol::OutputBase> O2;
  for( long s = 0, n = g.range( 5, 80 ); s < n; ++s )
  {
    switch( g.index( 10 ) )
    {
    case 0: case 1: case 2: case 3:
    {
      auto v = x.k.make( g, x.d );
      q.push_back( x.k.str( *v ) );
      auto c = v->clone();
      O->enqueue( std::move( c ) );
      // the sender may go on changing its own object
      v->assign( *x.k.make( g, x.d ) );
      r.count( "messages sent" );
      break;
    }
    case 4: case 5: case 6:
      if( q.empty() )
      {
        if( !refuses( [&] { I->front(); } ) || !refuses( [&] { I->pop(); } ) ) r.viol( "mq_empty", "reading an empty message queue is not refused" );
      }
      else
      {
        std::string got = x.k.str( I->front() ), again = x.k.str( I->front() );
        if( got != q.front() ) { r.viol( "mq_order", vh::cat( "message queue of ", x.k.name, " delivers ", got, " where ", q.front(), " is next of ", q.size() ) ); return; }
        if( again != got ) r.viol( "mq_front", "looking at the front message changes it" );
        I->pop(); q.pop_front();
        r.count( "messages received" ); r.event();
      }
      break;
    case 7:
      if( g.chance( 0.2 ) ) { I->clear(); q.clear(); }
      break;
    case 8: // arity: a second endpoint is refused, the first goes on working
    {
      pml::MessageQueueProtocol::InputBase i; pml::MessageQueueProtocol::OutputBase o;
      pml::DoubleBufferingProtocol::InputBase wi; pml::SharedDataProtocol::OutputBase wo;
      if( !refuses( [&] { prot->connectInput( &i ); } ) || !refuses( [&] { prot->connectOutput( &o ); } ) ) r.viol( "mq_arity", "a message queue accepts a second endpoint on one side" );
      if( !refuses( [&] { prot->connectInput( &wi ); } ) || !refuses( [&] { prot->connectOutput( &wo ); } ) ) r.viol( "mq_type", "a message queue accepts an endpoint of another protocol" );
      if( prot->disconnectInput( &i ) || prot->disconnectOutput( &o ) || prot->disconnectInput( &wi ) || prot->disconnectOutput( &wo ) ) r.viol( "mq_disconnect", "disconnecting an endpoint that is not connected reports success" );
      r.event( 6 ); r.count( "refused endpoints", 4 );
      break;
    }
    case 9: // replace endpoints: nothing is lost
      if( g.chance( 0.4 ) )
      {
        bool ok = prot->disconnectInput( I ) && prot->disconnectOutput( O );
        if( !ok || I->getProtocol() || O->getProtocol() ) r.viol( "mq_disconnect", "disconnecting a connected endpoint fails" );
        I2.reset( new pml::MessageQueueProtocol::InputBase ); O2.reset( new pml::MessageQueueProtocol::OutputBase );
        in.reset(); out.reset();
        I = I2.get(); O = O2.get();
        prot->connectInput( I ); prot->connectOutput( O );
        in = std::move( I2 ); out = std::move( O2 );
        r.count( "endpoints replaced" );
      }
      break;
    }
    if( I->size() != q.size() || O->size() != q.size() || I->empty() != q.empty() || O->empty() != q.empty() ) { r.viol( "mq_size", vh::cat( "message queue holds ", I->size(), " messages instead of ", q.size() ) ); return; }
    r.event( 4 );
  }
  r.count( "message queue histories" );
}

static void doubleBuffer( Ctx & x )
{
  vh::Run & r = x.r; Rng & g = x.g;
  auto const ty = pml::DoubleBufferingProtocol::staticType();
  auto prot = CommunicationProtocolFactory::createProtocol( ty, x.k.type, *x.cfg );
  struct In { std::unique_ptr<CommunicationProtocolBase::Input> own; pml::DoubleBufferingProtocol::InputBase * p; bool changed; };
  std::vector<In> ins;
  auto add = [&]() {
    In i; i.own = CommunicationProtocolFactory::createInput( ty ); i.p = dynamic_cast<pml::DoubleBufferingProtocol::InputBase *>( i.own.get() ); i.changed = false;
    prot->connectInput( i.p ); ins.push_back( std::move( i ) );
  };
  auto out = CommunicationProtocolFactory::createOutput( ty );
  auto * O = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase *>( out.get() );
  prot->connectOutput( O );
  for( long i = 0, n = g.range( 1, 4 ); i < n; ++i ) add();
  std::string const initial = x.k.str( ins[0].p->data() );
  std::string published = initial, front = x.k.str( O->data() );
  bool const dims = true; (void)dims;
  for( long s = 0, n = g.range( 5, 60 ); s < n; ++s )
  {
    switch( g.index( 8 ) )
    {
    case 0: case 1: case 2:
    {
      auto v = x.k.make( g, x.d );
      O->data().assign( *v ); front = x.k.str( *v );
      if( x.k.str( O->data() ) != front ) r.viol( "assign", vh::cat( "assigning a ", x.k.name, " gives ", x.k.str( O->data() ), " instead of ", front ) );
      r.count( "writes" );
      break;
    }
    case 3: case 4:
    {
      bool const copy = g.chance( 0.6 );
      O->swapBuffers( copy );
      published = front;
      if( copy )
      {
        if( x.k.str( O->data() ) != published ) { r.viol( "db_copy", vh::cat( "after publishing with copy, the sender of ", x.k.name, " holds ", x.k.str( O->data() ), " instead of the published ", published ) ); return; }
      }
      else front = x.k.str( O->data() );
      for( In & i : ins ) i.changed = true;
      r.count( copy ? "published with copy" : "published" );
      break;
    }
    case 5: { In & i = ins[ g.index( ins.size() ) ]; i.p->resetChanged(); i.changed = false; break; }
    case 6:
      if( g.chance( 0.4 ) && ins.size() > 1 )
      {
        std::size_t k = g.index( ins.size() );
        if( !prot->disconnectInput( ins[k].p ) || ins[k].p->getProtocol() ) r.viol( "db_disconnect", "disconnecting a connected receiver fails" );
        ins.erase( ins.begin() + static_cast<long>( k ) );
        r.count( "receivers removed" );
      }
      else if( ins.size() < 6 ) { add(); ins.back().changed = ins.back().p->changed(); r.count( "receivers added" ); }
      break;
    case 7:
    {
      pml::DoubleBufferingProtocol::OutputBase o; pml::MessageQueueProtocol::InputBase wi; pml::SharedDataProtocol::OutputBase wo; pml::DoubleBufferingProtocol::InputBase stray;
      if( !refuses( [&] { prot->connectOutput( &o ); } ) ) r.viol( "db_arity", "a double buffer accepts a second sender" );
      if( !refuses( [&] { prot->connectInput( &wi ); } ) || !refuses( [&] { prot->connectOutput( &wo ); } ) ) r.viol( "db_type", "a double buffer accepts an endpoint of another protocol" );
      if( prot->disconnectInput( &stray ) || prot->disconnectOutput( &o ) || prot->disconnectInput( &wi ) ) r.viol( "db_disconnect", "disconnecting an endpoint that is not connected reports success" );
      r.event( 4 ); r.count( "refused endpoints", 3 );
      break;
    }
    }
    for( In & i : ins )
    {
      std::string got = x.k.str( i.p->data() );
      if( got != published ) { r.viol( "db_value", vh::cat( "a receiver of ", x.k.name, " reads ", got, " while ", published, " is published" ) ); return; }
      if( i.p->changed() != i.changed ) { r.viol( "db_changed", vh::cat( "the change flag of a receiver is ", i.p->changed(), " instead of ", i.changed ) ); return; }
      r.event( 2 );
    }
  }
  r.count( "double buffer histories" );
}

static void sharedData( Ctx & x )
{
  vh::Run & r = x.r; Rng & g = x.g;
  auto const ty = pml::SharedDataProtocol::staticType();
  auto prot = CommunicationProtocolFactory::createProtocol( ty, x.k.type, *x.cfg );
  std::vector<std::unique_ptr<CommunicationProtocolBase::Input>> ins;
  auto out = CommunicationProtocolFactory::createOutput( ty );
  auto * O = dynamic_cast<pml::SharedDataProtocol::OutputBase *>( out.get() );
  prot->connectOutput( O );
  for( long i = 0, n = g.range( 1, 4 ); i < n; ++i ) { ins.push_back( CommunicationProtocolFactory::createInput( ty ) ); prot->connectInput( ins.back().get() ); }
  std::string cur = x.k.str( O->data() );
  for( long s = 0, n = g.range( 5, 40 ); s < n; ++s )
  {
    if( g.chance( 0.6 ) ) { auto v = x.k.make( g, x.d ); O->data().assign( *v ); cur = x.k.str( *v ); r.count( "writes" ); }
    else if( g.chance( 0.3 ) )
    {
      if( ins.size() > 1 && g.chance( 0.5 ) ) { if( !prot->disconnectInput( ins.back().get() ) || ins.back()->getProtocol() ) r.viol( "sd_disconnect", "disconnecting a connected receiver fails" ); ins.pop_back(); }
      else { ins.push_back( CommunicationProtocolFactory::createInput( ty ) ); prot->connectInput( ins.back().get() ); }
      pml::SharedDataProtocol::OutputBase o; pml::MessageQueueProtocol::InputBase wi;
      if( !refuses( [&] { prot->connectOutput( &o ); } ) || !refuses( [&] { prot->connectInput( &wi ); } ) ) r.viol( "sd_arity", "a shared data connection accepts a second sender or a foreign endpoint" );
      r.event( 2 ); r.count( "refused endpoints", 2 );
    }
    for( auto & i : ins )
    {
      std::string got = x.k.str( dynamic_cast<pml::SharedDataProtocol::InputBase *>( i.get() )->data() );
      if( got != cur ) { r.viol( "sd_value", vh::cat( "a receiver of ", x.k.name, " reads ", got, " while the shared value is ", cur ) ); return; }
      r.event();
    }
  }
  r.count( "shared data histories" );
}

// copies are equal and independent, foreign types are refused
static void values( Ctx & x )
{
  vh::Run & r = x.r; Rng & g = x.g;
  auto a = x.k.make( g, x.d ), b = x.k.make( g, x.d );
  std::string const sa = x.k.str( *a ), sb = x.k.str( *b );
  auto c = a->clone();
  if( c->type() != x.k.type || x.k.str( *c ) != sa ) r.viol( "clone", vh::cat( "the clone of a ", x.k.name, " is ", x.k.str( *c ), " instead of ", sa ) );
  c->assign( *b );
  if( x.k.str( *c ) != sb || x.k.str( *a ) != sa || x.k.str( *b ) != sb ) r.viol( "independence", vh::cat( "changing the copy of a ", x.k.name, " changed the original, or copied wrongly: ", x.k.str( *c ), " / ", x.k.str( *a ), " instead of ", sb, " / ", sa ) );
  a.reset();
  if( x.k.str( *c ) != sb ) r.viol( "independence", "a copy depends on the original's lifetime" );
  Kind const & o = g.pick( all() );
  if( o.type != x.k.type )
  {
    auto f = o.make( g, x.d );
    if( !refuses( [&] { b->assign( *f ); } ) ) r.viol( "foreign_assign", vh::cat( "a ", x.k.name, " accepts the value of a ", o.name ) );
    if( x.k.str( *b ) != sb ) r.viol( "foreign_assign", "a refused assignment changed the target" );
  }
  auto p = ParameterFactory::create( x.k.type, *x.cfg );
  if( !p || p->type() != x.k.type ) r.viol( "factory", vh::cat( "the factory makes the wrong type for ", x.k.name ) );
  p->assign( *b );
  if( x.k.str( *p ) != sb ) r.viol( "assign", vh::cat( "assigning to a factory-made ", x.k.name, " gives ", x.k.str( *p ), " instead of ", sb ) );
  r.event( 8 ); r.count( "value checks" );
}

static void oneCase( vh::Run & r )
{
  Rng & g = r.rng;
  Kind const & k = all()[ static_cast<std::size_t>( r.caseIdx ) % all().size() ];
  Dims d{ static_cast<std::size_t>( g.range( 1, 4 ) ), static_cast<std::size_t>( g.range( 1, 9 ) ), static_cast<std::size_t>( g.range( 1, 3 ) ) };
  Ctx x{ r, g, k, d, k.config( d ) };
  int what = static_cast<int>( g.index( 4 ) );
  if( what == 0 ) messageQueue( x ); else if( what == 1 ) doubleBuffer( x ); else if( what == 2 ) sharedData( x ); else values( x );
  r.count( vh::cat( "type ", k.name ) );
  if( what != 3 ) r.nontrivial( vh::mix( g.next(), what ) );
  r.sample( vh::cat( k.name, " via ", what == 0 ? "message queue" : what == 1 ? "double buffering" : what == 2 ? "shared data" : "copies" ) );
}
VH_MAIN( oneCase )
