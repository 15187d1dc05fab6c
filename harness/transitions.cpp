// C15: timed panning gains. Every object's gains follow, sample by sample, the linear transitions requested for it, each starting at its
// time stamp, taking its transition time, and starting from the gains in effect there; a later request replaces one not started yet.
// LIBS: panningdsp pml rrl visr efl rbbl
#include "rig.hpp"
#include <libefl/aligned_array.hpp>
#include <libefl/basic_matrix.hpp>
#include <libpanningdsp/initialise_parameter_library.hpp>
#include <libpanningdsp/panning_gain_matrix.hpp>
#include <libpanningdsp/panning_matrix_parameter.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
using namespace visr;
using panningdsp::PanningMatrixParameter;
using panningdsp::TimeType;
using panningdsp::cTimeStampInfinity;
using vh::Rng;
using Gains = std::vector<double>;

// ---------------------------------------------------------------- oracle
struct Transition { bool set = false; TimeType start = 0, duration = 0; Gains to; };
struct Object
{
  Gains from, to; TimeType start = 0, duration = 0; bool moving = false; Transition next; double slack = 0; // rounding of the gain an interrupted transition left off at
  double gain( std::size_t l, TimeType n ) const { if( !moving || n >= start + duration ) return to[l]; return from[l] + ( to[l] - from[l] ) * static_cast<double>( n - start ) / static_cast<double>( duration ); }
  void begin( TimeType n )
  {
    if( !moving || n >= start + duration ) slack = 0; else for( std::size_t l = 0; l < to.size(); ++l ) slack = std::max( slack, 1e-6 * std::max( std::fabs( from[l] ), std::fabs( to[l] ) ) );
    for( std::size_t l = 0; l < to.size(); ++l ) from[l] = gain( l, n );
    to = next.to; start = n; duration = next.duration; moving = duration > 0; next.set = false; 
  }
};
struct Msg { std::vector<TimeType> start, duration; std::vector<Gains> gains; };
static std::string str( Msg const & m )
{
  std::string s = "{"; for( std::size_t o = 0; o < m.start.size(); ++o ) if( m.start[o] != cTimeStampInfinity ) s += vh::cat( " ", o, "@", m.start[o], "+", m.duration[o], vh::vec( m.gains[o] ) ); return s + " }";
}
static Gains gainsOf( Rng & g, std::size_t n ) { Gains v( n ); int const k = static_cast<int>( g.index( 5 ) ); for( auto & x : v ) x = static_cast<float>( k == 0 ? 0 : k == 1 ? static_cast<double>( g.range( -2, 2 ) ) : k == 2 ? g.uni( -1, 1 ) * 100 : g.uni( -1, 1 ) ); return v; }
static Msg message( Rng & g, std::size_t objs, std::size_t lsps, TimeType now, std::size_t B, std::vector<Object> const & model, bool late )
{
  Msg m; for( std::size_t o = 0; o < objs; ++o )
  {
    m.gains.push_back( gainsOf( g, lsps ) ); TimeType s, d;
    switch( g.index( 8 ) )
    {
    case 0: s = now; break;
    case 1: s = now + B * static_cast<TimeType>( g.range( 1, 3 ) ); break;
    case 2: s = now + B - 1; break;
    case 3: s = model[o].moving ? std::max<TimeType>( now, model[o].start + model[o].duration ) : now + 1; break;                 // adjoining
    case 4: s = model[o].next.set ? std::max<TimeType>( now, model[o].next.start + static_cast<TimeType>( g.range( 0, 3 ) ) ) : now; break; // around one not started yet
    case 5: s = now + static_cast<TimeType>( g.range( 0, static_cast<long>( 5 * B ) ) ); break;
    default: s = now + static_cast<TimeType>( g.range( 0, static_cast<long>( B ) ) );
    }
    switch( g.index( 7 ) ) { case 0: d = 0; break; case 1: d = 1; break; case 2: d = B; break; case 3: d = B * static_cast<TimeType>( g.range( 1, 6 ) ); break; case 4: d = static_cast<TimeType>( g.range( 1, 100000 ) ); break; default: d = static_cast<TimeType>( g.range( 1, static_cast<long>( 4 * B ) ) ); }
    if( g.chance( 0.35 ) ) s = cTimeStampInfinity;
    else if( late && now > 0 && g.chance( 0.3 ) ) s = now - static_cast<TimeType>( g.range( 1, static_cast<long>( std::min<TimeType>( now, 2 * B ) ) ) );
    m.start.push_back( s ); m.duration.push_back( d );
  }
  return m;
}
static PanningMatrixParameter param( Msg const & m, std::size_t lsps, std::size_t align )
{
  PanningMatrixParameter p( m.start.size(), lsps, align );
  for( std::size_t o = 0; o < m.start.size(); ++o ) { p.timeStamps()[o] = m.start[o]; p.transitionTimes()[o] = m.duration[o]; for( std::size_t l = 0; l < lsps; ++l ) p.gains()( o, l ) = static_cast<float>( m.gains[o][l] ); }
  return p;
}
// true if an object's request lies in the past
static bool apply( vh::Run & r, std::vector<Object> & model, Msg const & m, TimeType now )
{
  bool late = false;
  for( std::size_t o = 0; o < model.size(); ++o )
  {
    if( m.start[o] == cTimeStampInfinity ) continue;
    if( m.start[o] < now ) { late = true; r.count( "requests in the past" ); continue; }
    Object & ob = model[o]; if( ob.next.set ) r.count( "requests replaced before their start" ); if( ob.moving && m.start[o] < ob.start + ob.duration ) r.count( "transitions interrupted" ); else r.count( "transitions requested" );
    ob.next.set = true; ob.next.start = m.start[o]; ob.next.duration = m.duration[o]; ob.next.to = m.gains[o];
  }
  return late;
}
static void component( vh::Run & r )
{
  Rng & g = r.rng; std::size_t const B = g.pick( { std::size_t( 1 ), std::size_t( 4 ), std::size_t( 7 ), std::size_t( 16 ), std::size_t( 32 ), std::size_t( 64 ), std::size_t( 100 ) } );
  std::size_t const objs = g.chance( 0.03 ) ? 0 : static_cast<std::size_t>( g.range( 1, 5 ) ), lsps = static_cast<std::size_t>( g.range( 1, 9 ) );
  SignalFlowContext ctx( B, 48000 ); std::vector<Object> model( objs ); for( auto & o : model ) { o.from.assign( lsps, 0 ); o.to = o.from; }
  std::string log = vh::cat( objs, " objects, ", lsps, " loudspeakers, period ", B ); int const ctor = static_cast<int>( g.index( 3 ) ); std::unique_ptr<panningdsp::PanningGainMatrix> c;
  efl::BasicMatrix<float> init( objs, lsps, g.pick( { std::size_t( 0 ), std::size_t( 1 ), cVectorAlignmentSamples } ) );
  if( ctor ) for( std::size_t o = 0; o < objs; ++o ) { model[o].to = gainsOf( g, lsps ); for( std::size_t l = 0; l < lsps; ++l ) init( o, l ) = static_cast<float>( model[o].to[l] ); log += vh::cat( " initially ", vh::vec( model[o].to ) ); }
  if( ctor && g.chance( 0.1 ) )
  {
    bool refused = false; try { panningdsp::PanningGainMatrix bad( ctx, "bad", nullptr, objs + 1, lsps, init ); } catch( std::exception const & ) { refused = true; }
    if( !refused ) { r.viol( "initial_size_accepted", log ); return; } r.count( "mis-sized initial gains refused" );
  }
  if( ctor == 0 ) c.reset( new panningdsp::PanningGainMatrix( ctx, "m", nullptr, objs, lsps ) );
  else if( ctor == 1 ) c.reset( new panningdsp::PanningGainMatrix( ctx, "m", nullptr, objs, lsps, init ) );
  else { Msg const m = message( g, objs, lsps, 0, B, model, false ); apply( r, model, m, 0 ); log += " initial transitions " + str( m ); PanningMatrixParameter const p = param( m, lsps, cVectorAlignmentSamples ); c.reset( new panningdsp::PanningGainMatrix( ctx, "m", nullptr, objs, lsps, init, p ) ); }
  rig::Rig rg( *c ); TimeType now = 0; long const blocks = g.range( 2, 30 ); double const rate = g.pick( { 0.2, 0.5, 0.9 } ); bool const late = g.chance( 0.25 );
  for( long k = 0; k < blocks; ++k )
  {
    bool failing = false; for( auto & o : model ) if( o.next.set && o.next.start == now ) { o.begin( now ); r.count( "stored transitions due when a block starts" ); } // before a message of this block can replace it
    if( g.chance( rate ) )
    {
      Msg const m = message( g, objs, lsps, now, B, model, late ); log += vh::cat( "; block at ", now, " ", str( m ) );
      try { rg.publish( "gainInput", param( m, lsps, cVectorAlignmentSamples ) ); } catch( std::exception const & e ) { r.viol( "publish_failed", log + ": " + e.what() ); return; }
      failing = apply( r, model, m, now );
    }
    rig::Block in, out; for( std::size_t i = 0; i < objs; ++i ) in.push_back( g.chance( 0.5 ) ? std::vector<float>( B, 1.f ) : rig::signal( g, B ) );
    bool ok = rg.process( in, out );
    if( !ok && failing ) { r.count( "late requests reported" ); ok = rg.process( in, out ); } // the block is repeated, the late request ignored
    if( !ok ) { r.viol( "block_failed", vh::cat( log, ": block at ", now, ": ", rg.error ) ); return; }
    for( std::size_t l = 0; l < lsps; ++l ) for( std::size_t t = 0; t < B; ++t ) if( out[l][t] == -12345.f ) { r.viol( "not_written", log ); return; }
    std::vector<std::vector<double>> sum( lsps, std::vector<double>( B, 0 ) ), mag = sum;
    for( std::size_t o = 0; o < objs; ++o )
      for( std::size_t t = 0; t < B; ++t )
      {
        Object & ob = model[o]; if( ob.next.set && ob.next.start == now + t ) ob.begin( now + t );
        for( std::size_t l = 0; l < lsps; ++l ) { double const x = in[o][t]; sum[l][t] += x * ob.gain( l, now + t + 1 ); mag[l][t] += std::fabs( x ) * ( ob.moving ? std::fabs( ob.from[l] ) : 0 ) + std::fabs( x * ob.to[l] ); if( ob.moving ) mag[l][t] += std::fabs( x ) * ob.slack * 1e5; }
      }
    for( std::size_t l = 0; l < lsps; ++l ) for( std::size_t t = 0; t < B; ++t )
    {
      r.event(); double const tol = mag[l][t] * 1e-5 + 1e-30;
      if( !( std::fabs( out[l][t] - sum[l][t] ) <= tol ) ) { r.viol( "output", vh::cat( log, ": loudspeaker ", l, " sample ", now + t, ": got ", out[l][t], ", expected ", sum[l][t], " (tolerance ", tol, ")" ) ); return; }
    }
    now += B; r.count( "blocks" );
  }
  if( objs && blocks > 2 ) r.nontrivial( log ); r.count( "component runs" );
}
// ---------------------------------------------------------------- values
static bool equal( PanningMatrixParameter const & p, Msg const & m, std::size_t lsps )
{
  if( p.numberOfObjects() != m.start.size() || p.numberOfLoudspeakers() != lsps || p.timeStamps().size() != m.start.size() || p.transitionTimes().size() != m.start.size() ) return false;
  for( std::size_t o = 0; o < m.start.size(); ++o ) { if( p.timeStamps()[o] != m.start[o] || p.transitionTimes()[o] != m.duration[o] ) return false; for( std::size_t l = 0; l < lsps; ++l ) if( p.gains()( o, l ) != static_cast<float>( m.gains[o][l] ) ) return false; }
  return true;
}
static void values( vh::Run & r )
{
  Rng & g = r.rng; struct Val { std::unique_ptr<PanningMatrixParameter> p; Msg m; std::size_t lsps; }; std::vector<Val> vals; std::string log;
  auto fresh = [&]( std::size_t o, std::size_t l ) { std::vector<Object> dummy( o ); return message( g, o, l, 0, 16, dummy, false ); };
  for( long k = g.range( 2, 12 ); k > 0; --k )
  {
    std::size_t const o = static_cast<std::size_t>( g.range( 1, 5 ) ), l = static_cast<std::size_t>( g.range( 1, 5 ) ); Val v; std::size_t const align = g.pick( { std::size_t( 0 ), std::size_t( 1 ), std::size_t( 4 ), std::size_t( 8 ) } );
    int const op = static_cast<int>( g.index( vals.empty() ? 3 : 7 ) ); log += vh::cat( " op ", op, " ", o, "x", l, " a", align );
    try
    {
      if( op == 0 ) { v.m = fresh( o, l ); v.lsps = l; v.p.reset( new PanningMatrixParameter( param( v.m, l, align ) ) ); }
      else if( op == 1 )
      {
        v.lsps = l; pml::MatrixParameterConfig const cfg( o, l ); ParameterConfigBase const & base = cfg; if( g.chance( 0.5 ) ) v.p.reset( new PanningMatrixParameter( base ) ); else { auto q = ParameterFactory::create( PanningMatrixParameter::staticType(), cfg ); v.p.reset( dynamic_cast<PanningMatrixParameter *>( q.release() ) ); }
        v.m.start.assign( o, cTimeStampInfinity ); v.m.duration = v.m.start; v.m.gains.assign( o, Gains( l, 0 ) ); // nothing requested
      }
      else if( op == 2 )
      {
        v.m = fresh( o, l ); v.lsps = l; efl::BasicMatrix<float> m( o, l, align ); efl::AlignedArray<TimeType> s( o, align ), d( o, align ); for( std::size_t i = 0; i < o; ++i ) { s[i] = v.m.start[i]; d[i] = v.m.duration[i]; for( std::size_t j = 0; j < l; ++j ) m( i, j ) = static_cast<float>( v.m.gains[i][j] ); }
        v.p.reset( new PanningMatrixParameter( m, s, d ) );
      }
      else if( op == 3 ) { Val & w = vals[g.index( vals.size() )]; v.m = w.m; v.lsps = w.lsps; v.p.reset( new PanningMatrixParameter( *w.p ) ); }
      else if( op == 4 ) { Val & a = vals[g.index( vals.size() )]; Val & b = vals[g.index( vals.size() )]; *a.p = *b.p; a.m = b.m; a.lsps = b.lsps; r.count( "assignments" ); }
      else if( op == 5 ) { Val & w = vals[g.index( vals.size() )]; std::unique_ptr<ParameterBase> q = w.p->clone(); v.m = w.m; v.lsps = w.lsps; v.p.reset( dynamic_cast<PanningMatrixParameter *>( q.release() ) ); if( !v.p ) { r.viol( "clone_type", log ); return; } }
      else { Val & w = vals[g.index( vals.size() )]; std::size_t const i = g.index( w.m.start.size() ); w.m.start[i] = static_cast<TimeType>( g.range( 0, 1000 ) ); w.p->timeStamps()[i] = w.m.start[i]; w.m.duration[i] = 7; w.p->transitionTimes()[i] = 7; w.m.gains[i][0] = 0.25; w.p->gains()( i, 0 ) = 0.25f; }
    }
    catch( std::exception const & e ) { r.viol( "value_failed", log + ": " + e.what() ); return; }
    if( v.p ) vals.push_back( std::move( v ) );
    for( auto const & w : vals ) { r.event(); if( !equal( *w.p, w.m, w.lsps ) ) { r.viol( vh::cat( "value_", op ), vh::cat( log, ": a value of ", w.m.start.size(), "x", w.lsps, " is ", w.p->numberOfObjects(), "x", w.p->numberOfLoudspeakers(), " or differs" ) ); return; } }
  }
  if( g.chance( 0.3 ) )
  {
    efl::BasicMatrix<float> m( 2, 3, 0 ); m.zeroFill(); bool refused = false; int const k = static_cast<int>( g.index( 3 ) );
    try { if( k == 0 ) PanningMatrixParameter p( m, { TimeType( 1 ) }, { TimeType( 1 ), TimeType( 2 ) } ); else if( k == 1 ) PanningMatrixParameter p( { { 1.f, 2.f }, { 3.f } }, { TimeType( 1 ), TimeType( 2 ) }, { TimeType( 1 ), TimeType( 2 ) } );
      else { efl::AlignedArray<TimeType> s( 2, 0 ), d( 3, 0 ); s[0] = s[1] = d[0] = d[1] = d[2] = 1; PanningMatrixParameter p( m, s, d ); } }
    catch( std::exception const & ) { refused = true; }
    if( !refused ) { r.viol( vh::cat( "bad_value_accepted_", k ), log ); return; } r.count( "inconsistent values refused" );
  }
  r.nontrivial( log ); r.count( "value histories" );
}
static void one( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), panningdsp::initialiseParameterLibrary(), true ); (void)init;
  if( r.rng.chance( 0.2 ) ) values( r ); else component( r );
}
VH_MAIN( one )
