// C24: components written in Python as parts of signal flows built, run and taken down in C++.
// LIBS: pythoncomponents pythonsupport apputilities audiointerfaces rrl pml rcl rbbl visr efl portaudio jack boost_program_options
#define VISR_MAJOR_VERSION 7
#define VISR_MINOR_VERSION 8
#define VISR_PATCH_VERSION 9
#include "fakehost.hpp"
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <mutex>
#include <numeric>
#include <sys/stat.h>
#include <thread>
#include <boost/filesystem.hpp>
#include <libapputilities/options.hpp>
#include <libaudiointerfaces/audio_interface_factory.hpp>
#include <libefl/denormalised_number_handling.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpythoncomponents/wrapper.hpp>
#include <libpythonsupport/initialisation_guard.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <librrl/integrity_checking.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/impl/audio_port_base_implementation.hpp>
#include <libvisr/impl/component_implementation.hpp>
#include <libvisr/impl/composite_component_implementation.hpp>
#include <libvisr/impl/parameter_port_base_implementation.hpp>
#include <libvisr/polymorphic_parameter_input.hpp>
#include <libvisr/polymorphic_parameter_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libvisr/version.hpp>
#include "app_begin.hpp"
#define main python_runner_main
#include "apps/python_runner/options.cpp"
#include "apps/python_runner/main.cpp"
#undef main
#undef getc
#include "apphost.hpp"
using namespace visr;
using vh::cat;
using SZ = std::size_t;
using pythoncomponents::Wrapper;

static std::mutex violMutex;
static void viol( std::string const & k, std::string const & d ) { std::lock_guard<std::mutex> l( violMutex ); R->viol( k, d ); }

// ---------------------------------------------------------------- description of a component
enum Kind { MIX, PERM, COUNT, GAINDB, GAINSD, ECHO_, CTL, RAISE, RCLGAIN, RCLADD, COMPOSITE };
enum PType { MQF, MQS, DBV, SDV };
struct ChRef { int node; SZ port, ch; };
struct APort { std::string name; SZ width; };
struct PPort { std::string name; PType type; bool input; SZ size; };
struct Comp
{
  Kind kind = COMPOSITE; std::string cls, name; int uid = 0; std::vector<APort> in, out; std::vector<PPort> par;
  std::vector<std::string> keys; std::vector<std::vector<float>> coef; std::vector<SZ> perm; // key i of the arguments holds coef i
  std::vector<std::unique_ptr<Comp>> child; std::vector<std::vector<std::vector<ChRef>>> feed; std::vector<std::vector<ChRef>> outFeed;
  struct Link { SZ a; std::string pa; SZ b; std::string pb; }; std::vector<Link> links;
};
using Block = std::vector<std::vector<float>>; // [channel][sample]
// State of the model of one system.
struct Model
{
  std::map<int, long> count; std::map<int, std::vector<float>> gain; std::map<std::string, std::vector<float>> msgF; std::map<std::string, std::vector<std::string>> msgS;
  std::map<std::string, std::vector<float>> dbv; std::map<std::string, bool> dbNew; std::map<std::string, std::vector<float>> sdv; std::map<std::string, std::string> link; std::map<std::string, std::vector<float>> outF; std::map<std::string, std::vector<std::string>> outS; int raised = -1;
};
static std::vector<Block> evaluate( Comp const & c, std::vector<Block> const & in, SZ B, Model & m )
{
  std::vector<Block> out; for( auto const & p : c.out ) out.emplace_back( p.width, std::vector<float>( B, 0.f ) );
  std::string const u = std::to_string( c.uid );
  switch( c.kind )
  {
    case MIX: for( SZ i = 0; i < in.size(); ++i ) for( SZ ch = 0; ch < out[0].size(); ++ch ) for( SZ k = 0; k < B; ++k ) out[0][ch][k] += c.coef[0][i] * in[i][ch][k]; break;
    case PERM: for( SZ ch = 0; ch < out[0].size(); ++ch ) out[0][ch] = in[0][c.perm[ch]]; break;
    case COUNT: { long const n = m.count[c.uid]++; for( SZ ch = 0; ch < out[0].size(); ++ch ) for( SZ k = 0; k < B; ++k ) out[0][ch][k] = in[0][ch][k] + static_cast<float>( n ); break; }
    case GAINDB:
    {
      auto & gn = m.gain[c.uid]; if( gn.empty() ) gn = c.coef[0]; if( m.dbNew["g" + u] ) { gn = m.dbv["g" + u]; m.dbNew["g" + u] = false; }
      for( SZ ch = 0; ch < out[0].size(); ++ch ) for( SZ k = 0; k < B; ++k ) out[0][ch][k] = in[0][ch][k] * gn[ch]; break;
    }
    case GAINSD: { auto & gn = m.sdv["g" + u]; gn.resize( out[0].size() ); for( SZ ch = 0; ch < out[0].size(); ++ch ) for( SZ k = 0; k < B; ++k ) out[0][ch][k] = in[0][ch][k] * gn[ch]; break; }
    case ECHO_:
      if( c.par[0].type == MQF ) { std::vector<float> v; v.swap( m.msgF["i" + u] ); for( float & x : v ) x = x * c.coef[0][0]; auto l = m.link.find( "o" + u ); auto & d = l == m.link.end() ? m.outF["o" + u] : m.msgF[l->second]; d.insert( d.end(), v.begin(), v.end() ); }
      else { std::vector<std::string> v; v.swap( m.msgS["i" + u] ); for( auto & x : v ) x = x + "/" + u; auto l = m.link.find( "o" + u ); auto & d = l == m.link.end() ? m.outS["o" + u] : m.msgS[l->second]; d.insert( d.end(), v.begin(), v.end() ); }
      break;
    case CTL:
    {
      std::vector<float> v; v.swap( m.msgF["i" + u] ); if( v.empty() ) break; std::vector<float> g; for( SZ i = 0; i < c.par[1].size; ++i ) g.push_back( v.back() * static_cast<float>( i + 1 ) );
      std::string const d = m.link.count( "o" + u ) ? m.link["o" + u] : "o" + u; m.dbv[d] = g; m.dbNew[d] = true; break;
    }
    case RAISE: { auto & q = m.msgF["i" + u]; if( !q.empty() ) { q.erase( q.begin() ); m.raised = c.uid; } out[0] = in[0]; break; }
    case RCLGAIN: for( SZ ch = 0; ch < out[0].size(); ++ch ) for( SZ k = 0; k < B; ++k ) out[0][ch][k] = in[0][ch][k] * c.coef[0][ch]; break;
    case RCLADD: for( SZ i = 0; i < in.size(); ++i ) for( SZ ch = 0; ch < out[0].size(); ++ch ) for( SZ k = 0; k < B; ++k ) out[0][ch][k] += in[i][ch][k]; break;
    case COMPOSITE:
    {
      std::vector<std::vector<Block>> res;
      auto get = [&]( ChRef const & f ) -> std::vector<float> const & { return f.node < 0 ? in[f.port][f.ch] : res[static_cast<SZ>( f.node )][f.port][f.ch]; };
      for( SZ i = 0; i < c.child.size(); ++i )
      {
        std::vector<Block> ci; for( auto const & p : c.feed[i] ) { Block b; for( auto const & f : p ) b.push_back( get( f ) ); ci.push_back( b ); }
        res.push_back( evaluate( *c.child[i], ci, B, m ) );
      }
      for( SZ p = 0; p < out.size(); ++p ) for( SZ ch = 0; ch < out[p].size(); ++ch ) out[p][ch] = get( c.outFeed[p][ch] );
    }
  }
  return out;
}
// ---------------------------------------------------------------- generation
struct Gen
{
  Rng & g; int uid = 0, key = 0; bool stateless = false; std::vector<std::pair<std::string, std::vector<float>>> args; bool messages = true; int raiser = -1; bool big = false;
  explicit Gen( Rng & r ): g( r ) {}
  std::vector<float> values( SZ n ) { std::vector<float> v( n ); for( auto & x : v ) x = static_cast<float>( g.range( -16, 16 ) ) / 8; return v; }
  void arg( Comp & c, std::vector<float> v ) { c.keys.push_back( "k" + std::to_string( key++ ) ); c.coef.push_back( v ); args.push_back( { c.keys.back(), v } ); }
  std::unique_ptr<Comp> leaf( bool raise )
  {
    std::unique_ptr<Comp> c( new Comp ); c->uid = uid++; std::string const u = std::to_string( c->uid ); c->name = g.pick<std::string>( { "leaf", "mixer ", "a.b_" } ) + u;
    SZ const w = static_cast<SZ>( g.range( 1, 4 ) ); auto mono = [&] { c->in = { { "in", w } }; c->out = { { "out", w } }; };
    int k = raise ? static_cast<int>( RAISE ) : g.pick<int>( { MIX, MIX, PERM, COUNT, GAINDB, GAINSD, ECHO_, CTL, RCLGAIN, RCLADD } );
    if( stateless && ( k == COUNT || k == ECHO_ || k == CTL || k == GAINDB ) ) k = PERM;
    c->kind = static_cast<Kind>( k );
    switch( c->kind )
    {
      case MIX: { SZ const n = static_cast<SZ>( g.range( 0, 3 ) ); for( SZ i = 0; i < n; ++i ) c->in.push_back( { "in" + std::to_string( i ), w } ); c->out = { { g.pick<std::string>( { "out", "sum", "0" } ), w } }; arg( *c, values( n ) ); break; }
      case PERM: { SZ const v = static_cast<SZ>( g.range( 1, 5 ) ); c->in = { { "in", w } }; c->out = { { "out", v } }; for( SZ i = 0; i < v; ++i ) c->perm.push_back( g.index( w ) ); break; }
      case COUNT: mono(); break;
      case GAINDB: mono(); arg( *c, values( w ) ); c->par = { { "g" + u, DBV, true, w } }; break;
      case GAINSD: mono(); c->par = { { "g" + u, SDV, true, w } }; break;
      case ECHO_: { PType const t = g.chance( 0.5 ) ? MQF : MQS; arg( *c, values( 1 ) ); c->par = { { "i" + u, t, true, 0 }, { "o" + u, t, false, 0 } }; break; }
      case CTL: c->par = { { "i" + u, MQF, true, 0 }, { "o" + u, DBV, false, static_cast<SZ>( g.range( 1, 4 ) ) } }; break;
      case RAISE: mono(); c->par = { { "i" + u, MQF, true, 0 } }; raiser = c->uid; break;
      case RCLGAIN: mono(); arg( *c, values( w ) ); break;
      case RCLADD: { SZ const n = static_cast<SZ>( g.range( 1, 3 ) ); for( SZ i = 0; i < n; ++i ) c->in.push_back( { "in" + std::to_string( i ), w } ); c->out = { { "out", w } }; break; }
      default: break;
    }
    return c;
  }
  // Connects the ports of the children of c, creates outer ports, and hands on the unconnected parameter ports.
  void wire( Comp & c )
  {
    for( SZ i = 0, n = static_cast<SZ>( g.range( 1, 3 ) ); i < n; ++i ) c.in.push_back( { g.pick<std::string>( { "in", "input_", "x " } ) + std::to_string( i ), static_cast<SZ>( g.range( 1, 4 ) ) } );
    std::vector<std::vector<ChRef>> senders; // by port
    for( SZ p = 0; p < c.in.size(); ++p ) { senders.emplace_back(); for( SZ ch = 0; ch < c.in[p].width; ++ch ) senders.back().push_back( { -1, p, ch } ); }
    auto pick = [&]( SZ width )
    {
      std::vector<ChRef> r; std::vector<SZ> same; for( SZ i = 0; i < senders.size(); ++i ) if( senders[i].size() == width ) same.push_back( i );
      if( !same.empty() && g.chance( 0.6 ) ) return senders[g.chance( 0.6 ) ? same.back() : g.pick( same )];
      for( SZ k = 0; k < width; ++k ) { auto const & s = senders[g.chance( 0.6 ) ? senders.size() - 1 : g.index( senders.size() )]; r.push_back( s[g.index( s.size() )] ); } return r;
    };
    for( SZ i = 0; i < c.child.size(); ++i )
    {
      c.feed.emplace_back(); for( auto const & p : c.child[i]->in ) c.feed.back().push_back( pick( p.width ) );
      for( SZ p = 0; p < c.child[i]->out.size(); ++p ) { senders.emplace_back(); for( SZ ch = 0; ch < c.child[i]->out[p].width; ++ch ) senders.back().push_back( { static_cast<int>( i ), p, ch } ); }
    }
    for( SZ i = 0, n = static_cast<SZ>( g.range( 1, 3 ) ); i < n; ++i ) { SZ const w = senders.back().size() < 6 && g.chance( 0.5 ) ? senders.back().size() : static_cast<SZ>( g.range( 1, 5 ) ); c.out.push_back( { g.pick<std::string>( { "out", "output_", "y " } ) + std::to_string( i ), w } ); c.outFeed.push_back( pick( w ) ); }
    // Every channel that is sent needs a receiver.
    {
      std::set<std::pair<SZ, SZ>> heard; std::map<std::array<long, 2>, SZ> at; std::vector<ChRef> rest; SZ idx = 0;
      for( SZ s = 0; s < senders.size(); ++s ) at[{ { senders[s][0].node, static_cast<long>( senders[s][0].port ) } }] = s;
      auto mark = [&]( std::vector<ChRef> const & v ) { for( auto const & f : v ) heard.insert( { at[{ { f.node, static_cast<long>( f.port ) } }], f.ch } ); };
      for( auto const & k : c.feed ) for( auto const & p : k ) mark( p ); for( auto const & p : c.outFeed ) mark( p );
      for( SZ s = 0; s < senders.size(); ++s ) for( auto const & f : senders[s] ) if( !heard.count( { s, f.ch } ) ) rest.push_back( f );
      while( !rest.empty() ) { SZ const n = std::min<SZ>( rest.size(), static_cast<SZ>( g.range( 1, 12 ) ) ); c.out.push_back( { "rest" + std::to_string( idx++ ), n } ); c.outFeed.emplace_back( rest.begin(), rest.begin() + static_cast<long>( n ) ); rest.erase( rest.begin(), rest.begin() + static_cast<long>( n ) ); }
    }
    // Parameters.
    std::set<std::string> used;
    for( SZ a = 0; a < c.child.size(); ++a ) for( auto const & po : c.child[a]->par ) if( !po.input ) for( SZ b = a + 1; b < c.child.size(); ++b )
    {
      bool done = false;
      for( auto const & pi : c.child[b]->par ) if( pi.input && pi.type == po.type && pi.size == po.size && !used.count( pi.name ) && g.chance( 0.7 ) ) { used.insert( pi.name ); used.insert( po.name ); c.links.push_back( { a, po.name, b, pi.name } ); done = true; break; }
      if( done ) break;
    }
    for( auto const & k : c.child ) for( auto const & p : k->par ) if( !used.count( p.name ) ) c.par.push_back( p );
    if( g.chance( 0.5 ) ) g.shuffle( c.par );
  }
  std::unique_ptr<Comp> composite( int depth, bool raise )
  {
    std::unique_ptr<Comp> c( new Comp ); c->uid = uid++; c->name = g.pick<std::string>( { "comp", "sub flow ", "C" } ) + std::to_string( c->uid ); SZ const n = static_cast<SZ>( g.range( 1, 4 ) ), at = g.index( n );
    for( SZ i = 0; i < n; ++i ) { bool const r = raise && i == at; c->child.push_back( depth > 0 && g.chance( 0.35 ) ? composite( depth - 1, r ) : leaf( r ) ); }
    wire( *c ); return c;
  }
};
// ---------------------------------------------------------------- Python text
static char const * const atoms = R"PY(
class Mix( visr.AtomicComponent ):
    def __init__( self, context, name, parent, inputs, output, width, coef ):
        super().__init__( context, name, parent )
        self.out = visr.AudioOutputFloat( output, self, width )
        self.ins = [ visr.AudioInputFloat( n, self, width ) for n in inputs ]
        self.coef = coef
    def process( self ):
        acc = np.zeros( [ self.out.width, self.period() ], dtype=np.float32 )
        for c, i in zip( self.coef, self.ins ):
            acc += np.float32( c ) * np.array( i )
        self.out.set( acc )

class Perm( visr.AtomicComponent ):
    def __init__( self, context, name, parent, width, perm ):
        super( Perm, self ).__init__( context, name, parent )
        self.inp = visr.AudioInputFloat( "in", self, width )
        self.out = visr.AudioOutputFloat( "out", self, len( perm ) )
        self.perm = perm
    def process( self ):
        self.out.set( self.inp.data()[ self.perm, : ] )

class Count( visr.AtomicComponent ):
    def __init__( self, context, name, parent, width ):
        super().__init__( context, name, parent )
        self.inp = visr.AudioInputFloat( "in", self, width )
        self.out = visr.AudioOutputFloat( "out", self, width )
        self.n = 0
    def process( self ):
        self.out.data()[:] = np.array( self.inp ) + np.float32( self.n )
        self.n += 1

class Gain( visr.AtomicComponent ):
    def __init__( self, context, name, parent, width, port, protocol, initial=None ):
        super().__init__( context, name, parent )
        self.inp = visr.AudioInputFloat( "in", self, width )
        self.out = visr.AudioOutputFloat( "out", self, width )
        self.ctl = visr.ParameterInput( port, self, pml.VectorParameterFloat.staticType, protocol.staticType, pml.VectorParameterConfig( width ) )
        self.db = protocol is pml.DoubleBufferingProtocol
        self.gain = initial
    def process( self ):
        p = self.ctl.protocolInput()
        if not self.db or p.changed():
            self.gain = np.array( p.data(), dtype=np.float32 )
            if self.db:
                p.resetChanged()
        self.out.set( self.inp.data() * np.array( self.gain, dtype=np.float32 )[ :, np.newaxis ] )

class Echo( visr.AtomicComponent ):
    def __init__( self, context, name, parent, uid, text, factor ):
        super().__init__( context, name, parent )
        ty = pml.StringParameter if text else pml.Float
        mq = pml.MessageQueueProtocol.staticType
        self.i = visr.ParameterInput( "i%d" % uid, self, ty.staticType, mq, pml.EmptyParameterConfig() )
        self.o = visr.ParameterOutput( "o%d" % uid, self, ty.staticType, mq, pml.EmptyParameterConfig() )
        self.uid, self.text, self.factor = uid, text, factor
    def process( self ):
        q = self.i.protocolInput()
        while not q.empty():
            if self.text:
                m = pml.StringParameter( q.front().str + "/%d" % self.uid )
            else:
                m = pml.Float( float( np.float32( q.front().value ) * np.float32( self.factor ) ) )
            q.pop()
            self.o.protocolOutput().enqueue( m )

class Ctl( visr.AtomicComponent ):
    def __init__( self, context, name, parent, uid, size ):
        super().__init__( context, name, parent )
        self.i = visr.ParameterInput( "i%d" % uid, self, pml.Float.staticType, pml.MessageQueueProtocol.staticType, pml.EmptyParameterConfig() )
        self.o = visr.ParameterOutput( "o%d" % uid, self, pml.VectorParameterFloat.staticType, pml.DoubleBufferingProtocol.staticType, pml.VectorParameterConfig( size ) )
        self.size = size
    def process( self ):
        q = self.i.protocolInput()
        v = None
        while not q.empty():
            v = q.front().value
            q.pop()
        if v is not None:
            x = np.float32( v ) * np.arange( 1, self.size + 1, dtype=np.float32 )
            self.o.protocolOutput().set( pml.VectorParameterFloat( x ), swapBuffers=True )

class OwnError( Exception ):
    def __init__( self, text ):
        super().__init__( text )
        self.me = self

mishaps = [ ValueError, OwnError, SystemExit, KeyboardInterrupt, RuntimeError, MemoryError ]

class Raise( visr.AtomicComponent ):
    def __init__( self, context, name, parent, uid, width ):
        super().__init__( context, name, parent )
        self.inp = visr.AudioInputFloat( "in", self, width )
        self.out = visr.AudioOutputFloat( "out", self, width )
        self.i = visr.ParameterInput( "i%d" % uid, self, pml.Float.staticType, pml.MessageQueueProtocol.staticType, pml.EmptyParameterConfig() )
        self.uid = uid
    def process( self ):
        q = self.i.protocolInput()
        if not q.empty():
            q.pop()
            data = self.inp.data()
            raise mishaps[ self.uid % len( mishaps ) ]( "mishap in component %d" % self.uid )
        self.out.set( self.inp.data() )

def rclGain( context, name, parent, width, gains ):
    c = rcl.GainVector( context, name, parent )
    c.setup( numberOfChannels=width, interpolationSteps=16, controlInputs=False, initialGainsLinear=efl.BasicVectorFloat( np.array( gains, dtype=np.float32 ) ) )
    return c

class Gone( object ):
    def __init__( self, path ):
        self.path = path
    def __del__( self, open=open ):
        open( self.path, "a" ).write( "gone\n" )
)PY";
static std::string py( std::vector<float> const & v ) { std::string s = "["; for( SZ i = 0; i < v.size(); ++i ) s += cat( i ? ", " : "", v[i] ); return s + "]"; }
static std::string pys( std::vector<std::string> const & v ) { std::string s = "["; for( SZ i = 0; i < v.size(); ++i ) s += ( i ? ", \"" : "\"" ) + v[i] + "\""; return s + "]"; }
static std::string pyn( std::vector<SZ> const & v ) { std::string s = "["; for( SZ i = 0; i < v.size(); ++i ) s += cat( i ? "," : "", v[i] ); return s + "]"; }
// Expression creating c as a child of "self".
static std::string create( Comp const & c, std::string const & atom )
{
  std::string const head = "( context, \"" + c.name + "\", self, ", a = atom; auto key = [&]( SZ i ) { return "P[\"" + c.keys[i] + "\"]"; };
  switch( c.kind )
  {
    case MIX: { std::vector<std::string> n; for( auto const & p : c.in ) n.push_back( p.name ); return a + "Mix" + head + pys( n ) + ", \"" + c.out[0].name + "\", " + cat( c.out[0].width ) + ", " + key( 0 ) + " )"; }
    case PERM: return a + "Perm" + head + cat( c.in[0].width ) + ", " + pyn( c.perm ) + " )";
    case COUNT: return a + "Count" + head + cat( c.in[0].width ) + " )";
    case GAINDB: return a + "Gain" + head + cat( c.in[0].width, ", \"g", c.uid, "\", pml.DoubleBufferingProtocol, initial=" ) + key( 0 ) + " )";
    case GAINSD: return a + "Gain" + head + cat( c.in[0].width, ", \"g", c.uid, "\", pml.SharedDataProtocol )" );
    case ECHO_: return a + "Echo" + head + cat( c.uid, ", ", c.par[0].type == MQS ? "True" : "False", ", " ) + key( 0 ) + "[0] )";
    case CTL: return a + "Ctl" + head + cat( c.uid, ", ", c.par[1].size, " )" );
    case RAISE: return a + "Raise" + head + cat( c.uid, ", ", c.in[0].width, " )" );
    case RCLGAIN: return a + "rclGain" + head + cat( c.in[0].width ) + ", " + key( 0 ) + " )";
    case RCLADD: return "rcl.Add( context, \"" + c.name + "\", self, width=" + cat( c.out[0].width, ", numInputs=", c.in.size() ) + " )";
    case COMPOSITE: return c.cls + head + "P )";
  }
  return "";
}
static std::string const ptype( PPort const & p )
{
  std::string const v = p.type == MQF ? "pml.Float" : p.type == MQS ? "pml.StringParameter" : "pml.VectorParameterFloat";
  return v + ".staticType, pml." + ( p.type == DBV ? "DoubleBufferingProtocol" : p.type == SDV ? "SharedDataProtocol" : "MessageQueueProtocol" ) + ".staticType, " + ( p.type == DBV || p.type == SDV ? cat( "pml.VectorParameterConfig( ", p.size, " )" ) : "pml.EmptyParameterConfig()" );
}
static std::string inName( Comp const & c, SZ p ) { return c.kind == RCLADD ? cat( "in", p ) : c.in[p].name; }
// The runs of consecutive channels from one sender.
struct Piece { int node; SZ port; std::vector<SZ> from, to; };
static std::vector<Piece> pieces( std::vector<ChRef> const & f, Rng & g )
{
  std::vector<Piece> r; for( SZ k = 0; k < f.size(); ++k )
  {
    Piece * p = nullptr; for( auto & x : r ) if( x.node == f[k].node && x.port == f[k].port ) p = &x;
    if( !p ) { r.push_back( { f[k].node, f[k].port, {}, {} } ); p = &r.back(); } p->from.push_back( f[k].ch ); p->to.push_back( k );
  }
  g.shuffle( r ); return r;
}
static std::string ports( Comp const & c, Rng & g )
{
  std::string t; std::vector<std::string> lines;
  for( SZ i = 0; i < c.in.size(); ++i ) lines.push_back( cat( "        self.ai", i, " = visr.AudioInputFloat( \"", c.in[i].name, "\", self, ", c.in[i].width, " )\n" ) );
  for( SZ i = 0; i < c.out.size(); ++i ) lines.push_back( cat( "        self.ao", i, " = visr.AudioOutputFloat( \"", c.out[i].name, "\", self, ", c.out[i].width, " )\n" ) );
  for( SZ i = 0; i < c.par.size(); ++i ) lines.push_back( cat( "        self.p_", c.par[i].name, " = visr.Parameter", c.par[i].input ? "Input" : "Output", "( \"", c.par[i].name, "\", self, ", ptype( c.par[i] ), " )\n" ) );
  // Inputs and outputs may alternate; their order among themselves counts.
  std::vector<std::string> a( lines.begin(), lines.begin() + static_cast<long>( c.in.size() ) ), b( lines.begin() + static_cast<long>( c.in.size() ), lines.begin() + static_cast<long>( c.in.size() + c.out.size() ) ), d( lines.begin() + static_cast<long>( c.in.size() + c.out.size() ), lines.end() );
  std::array<std::vector<std::string> *, 3> q{ { &a, &b, &d } }; std::array<SZ, 3> at{ { 0, 0, 0 } };
  for( SZ left = lines.size(); left > 0; --left ) { SZ s; do s = g.index( 3 ); while( at[s] == q[s]->size() ); t += ( *q[s] )[at[s]++]; }
  return t;
}
// The classes of c and what it contains; atoms are reached by the prefix.
static std::string classes( Comp & c, std::string const & atom, Rng & g, std::vector<std::string> & bases )
{
  std::string t; for( auto & k : c.child ) if( k->kind == COMPOSITE ) t += classes( *k, atom, g, bases );
  c.cls = cat( "Composite", c.uid ); bases.push_back( c.cls );
  t += "class " + c.cls + "( visr.CompositeComponent ):\n    def __init__( self, context, name, parent, P ):\n        super( " + c.cls + ", self ).__init__( context, name, parent )\n" + ports( c, g );
  for( SZ i = 0; i < c.child.size(); ++i ) t += cat( "        self.c", i, " = ", create( *c.child[i], atom ), "\n" );
  auto send = [&]( Piece const & p ) { return p.node < 0 ? cat( "self.ai", p.port ) : cat( "self.c", p.node, ".audioPort( \"", c.child[static_cast<SZ>( p.node )]->out[p.port].name, "\" )" ); };
  auto sendN = [&]( Piece const & p ) { return p.node < 0 ? cat( "\"\", \"", c.in[p.port].name, "\"" ) : cat( "\"", c.child[static_cast<SZ>( p.node )]->name, "\", \"", c.child[static_cast<SZ>( p.node )]->out[p.port].name, "\"" ); };
  auto connect = [&]( std::vector<ChRef> const & f, std::string const & rx, std::string const & rxN )
  {
    for( auto const & p : pieces( f, g ) )
    {
      SZ const sw = p.node < 0 ? c.in[p.port].width : c.child[static_cast<SZ>( p.node )]->out[p.port].width; bool whole = p.from.size() == sw && p.to.size() == f.size(); for( SZ i = 0; whole && i < p.from.size(); ++i ) whole = p.from[i] == i && p.to[i] == i;
      if( whole && g.chance( 0.7 ) ) t += "        self.audioConnection( " + send( p ) + ", " + rx + " )\n";
      else if( g.chance( 0.5 ) ) t += "        self.audioConnection( " + send( p ) + ", " + pyn( p.from ) + ", " + rx + ", " + pyn( p.to ) + " )\n";
      else t += "        self.audioConnection( " + sendN( p ) + ", visr.ChannelList( " + pyn( p.from ) + " ), " + rxN + ", visr.ChannelList( " + pyn( p.to ) + " ) )\n";
    }
  };
  for( SZ i = 0; i < c.child.size(); ++i ) for( SZ p = 0; p < c.child[i]->in.size(); ++p ) connect( c.feed[i][p], cat( "self.c", i, ".audioPort( \"", inName( *c.child[i], p ), "\" )" ), cat( "\"", c.child[i]->name, "\", \"", inName( *c.child[i], p ), "\"" ) );
  for( SZ p = 0; p < c.out.size(); ++p ) connect( c.outFeed[p], cat( "self.ao", p ), cat( "\"this\", \"", c.out[p].name, "\"" ) );
  auto has = [&]( std::string const & n ) { for( auto const & p : c.par ) if( p.name == n ) return true; return false; };
  for( SZ i = 0; i < c.child.size(); ++i ) for( auto const & p : c.child[i]->par ) if( has( p.name ) )
  {
    std::string const inner = cat( "self.c", i, ".parameterPort( \"", p.name, "\" )" ), outer = "self.p_" + p.name, innerN = cat( "\"", c.child[i]->name, "\", \"", p.name, "\"" ), outerN = "\"\", \"" + p.name + "\"";
    t += "        self.parameterConnection( " + ( g.chance( 0.6 ) ? ( p.input ? outer + ", " + inner : inner + ", " + outer ) : ( p.input ? outerN + ", " + innerN : innerN + ", " + outerN ) ) + " )\n";
  }
  for( auto const & l : c.links ) t += cat( "        self.parameterConnection( self.c", l.a, ".parameterPort( \"", l.pa, "\" ), self.c", l.b, ".parameterPort( \"", l.pb, "\" ) )\n" );
  return t + "\n";
}
static void collectLinks( Comp const & c, std::map<std::string, std::string> & m ) { for( auto const & l : c.links ) m[l.pa] = l.pb; for( auto const & k : c.child ) collectLinks( *k, m ); }
static SZ leaves( Comp const & c ) { SZ n = c.kind != COMPOSITE; for( auto const & k : c.child ) n += leaves( *k ); return n; }

// ---------------------------------------------------------------- a module holding a component, and how to ask for it
static long moduleNumber = 0;
struct Source { std::unique_ptr<Comp> comp; std::string module, cls, positional, keyword, path, gone, text, arrangement; int raiser = -1; };
static std::string arguments( Gen & gen, Rng & g, Source & s )
{
  // Distribute the arguments over positional ones, keyword ones and defaults; the rest of the signature only occupies room.
  auto & a = gen.args; SZ const np = g.index( a.size() + 1 ); std::string sig, pos, kw, pack = "{ "; std::vector<std::string> kws;
  for( SZ i = 0; i < a.size(); ++i )
  {
    std::string const v = py( a[i].second ); pack += ( i ? ", \"" : "\"" ) + a[i].first + "\": " + a[i].first;
    if( i < np ) { sig += ", " + a[i].first; pos += v + ", "; }
    else if( g.chance( 0.3 ) ) sig += ", " + a[i].first + "=" + v;
    else { sig += ", " + a[i].first + "=None"; kws.push_back( ( g.chance( 0.5 ) ? "'" : "\"" ) + a[i].first + "\": " + v ); if( kws.back()[0] == '\'' ) kws.back() = "'" + a[i].first + "': " + v; }
  }
  g.shuffle( kws ); for( auto const & k : kws ) kw += ( kw.empty() ? "" : ", " ) + k;
  s.positional = np == 0 ? g.pick<std::string>( { "", "()" } ) : g.chance( 0.5 ) ? pos.substr( 0, pos.size() - 1 ) : "( " + pos + ")";
  s.keyword = kw.empty() ? g.pick<std::string>( { "", "{}" } ) : g.chance( 0.7 ) ? "{" + kw + "}" : "dict( [ " + [&] { std::string r; for( auto const & k : kws ) { SZ const c = k.find( ':' ); r += "( " + k.substr( 0, c ) + ", " + k.substr( c + 1 ) + " ), "; } return r; }() + "] )";
  return sig + "|" + pack + " }";
}
static void put( std::string const & file, std::string const & text ) { boost::filesystem::create_directories( boost::filesystem::path( file ).parent_path() ); std::ofstream o( file ); o << text; }
static Source makeSource( Rng & g, std::string const & scratch, bool stateless, bool raise, bool atomicRoot, int firstUid )
{
  Source s; Gen gen( g ); gen.uid = firstUid; gen.stateless = stateless; long const id = moduleNumber++;
  s.comp = atomicRoot ? nullptr : gen.composite( static_cast<int>( g.range( 0, 2 ) ), raise );
  if( atomicRoot ) { do { gen.args.clear(); s.comp = gen.leaf( raise ); } while( s.comp->kind == RCLADD || s.comp->kind == RCLGAIN ); }
  s.raiser = gen.raiser;
  std::string const sp = arguments( gen, g, s ), sig = sp.substr( 0, sp.find( '|' ) ), pack = sp.substr( sp.find( '|' ) + 1 );
  s.gone = cat( scratch, "/gone", id ); std::string const imports = "import visr\nimport numpy as np\nimport pml\nimport rcl\nimport efl\n";
  int const layout = static_cast<int>( g.index( 6 ) ); s.arrangement = cat( "layout ", layout );
  std::string const dir = cat( scratch, "/", g.pick<std::string>( { "modules", "py-dir", "p.q" } ), id ), name = cat( "flow", id ); std::string atomModule, atomText;
  std::vector<std::string> bases; bool const separate = layout == 1 || layout == 3; std::string const prefix = separate ? "lib." : "";
  std::string body = atomicRoot ? "" : classes( *s.comp, prefix, g, bases );
  std::string root = "class Root" + std::string( atomicRoot ? "" : "( " + s.comp->cls + " )" ) + ":\n    def __init__( self, context, name, parent" + sig + " ):\n        super().__init__( context, name, parent, " + pack + " )\n        self.gone = Gone( \"" + s.gone + "\" )\n";
  if( atomicRoot )
  {
    // The atomic component itself, with its constructor's own arguments taken from those passed.
    std::string c = create( *s.comp, "" ); SZ const open = c.find( "( context, " ); std::string const base = c.substr( 0, open ); std::string rest = c.substr( c.find( ", self, ", open ) + 8 );
    root = "class Root( " + prefix + base + " ):\n    def __init__( self, context, name, parent" + sig + " ):\n        P = " + pack + "\n        super().__init__( context, name, parent, " + rest + "\n        self.gone = " + prefix + "Gone( \"" + s.gone + "\" )\n";
  }
  else if( separate ) root.replace( root.find( "self.gone = Gone" ) + 12, 4, "lib.Gone" );
  s.cls = "Root"; std::string const nested = [&] { std::string r = "class Outer:\n"; std::string l = root; r += "    pass\n" + l + "class Inner:\n    pass\nInner.Deep = Root\nOuter.Inner = Inner\ndel Root\n"; return r; }();
  switch( layout )
  {
    case 0: put( dir + "/" + name + ".py", imports + atoms + body + root ); s.module = name; s.path = dir; break;
    case 1: // A helper module in a second directory; directories that are on the search path already may be named, too.
    {
      int const k = static_cast<int>( g.index( 4 ) ); std::string const known = scratch + "/known"; std::string const first = k == 0 ? known : dir;
      atomModule = cat( "atomlib", id ); put( first + "/" + name + ".py", imports + "import " + atomModule + " as lib\n" + body + root ); put( dir + "_2/" + atomModule + ".py", imports + atoms ); s.module = name;
      std::vector<std::string> list{ first, dir + "_2" }; if( k == 1 ) list.insert( list.begin() + static_cast<long>( g.index( 3 ) ), known ); else if( k == 0 && g.chance( 0.3 ) ) list.erase( list.begin() ); else if( g.chance( 0.3 ) ) std::swap( list[0], list[1] );
      for( auto const & l : list ) s.path += ( s.path.empty() ? "" : g.pick<std::string>( { ",", ", ", " ", " , ", ",," } ) ) + l;
      if( g.chance( 0.3 ) ) s.path = g.pick<std::string>( { " ", ",", ", " } ) + s.path + g.pick<std::string>( { " ", "," } ); s.arrangement += cat( " ", s.path ); break;
    }
    case 2: // A package.
      put( dir + "/" + name + "/__init__.py", "from .inner import Root\n" ); put( dir + "/" + name + "/inner.py", imports + "from .parts import *\n" + body + root ); put( dir + "/" + name + "/parts.py", imports + atoms ); s.module = g.chance( 0.5 ) ? name : name + ".inner"; s.path = dir; break;
    case 3: // A package with a sub-package; the class is named relative to it.
      put( dir + "/" + name + "/__init__.py", "from . import sub\n" ); put( dir + "/" + name + "/sub/__init__.py", "from . import deep\nfrom .deep import Root\n" ); put( dir + "/" + name + "/sub/deep.py", imports + "from . import lib\n" + body + root ); put( dir + "/" + name + "/sub/lib.py", imports + atoms ); s.path = dir;
      switch( g.index( 4 ) ) { case 0: s.module = name; s.cls = "sub.Root"; break; case 1: s.module = name + ".sub"; s.cls = "deep.Root"; break; case 2: s.module = name; s.cls = " sub . deep.  Root "; break; default: s.module = name + ".sub.deep"; } break;
    case 4: put( dir + "/" + name + ".py", imports + atoms + body + nested ); s.module = name; s.cls = g.pick<std::string>( { "Outer.Inner.Deep", "Outer .Inner. Deep", " Inner.Deep" } ); s.path = dir; break;
    default: // A factory function; the directory is on the search path already.
      put( scratch + "/known/" + name + ".py", imports + atoms + body + root + "def factory( *args, **kw ):\n    return Root( *args, **kw )\n" ); s.module = name; s.cls = g.pick<std::string>( { "factory", "Root" } ); s.path = g.chance( 0.5 ) ? "" : scratch + "/known"; break;
  }
  s.text = body + root;
  return s;
}
static std::unique_ptr<Wrapper> wrap( SignalFlowContext const & ctx, std::string const & name, CompositeComponent * parent, Source const & s )
{
  // The strings need to live no longer than the call.
  std::vector<std::string> t{ name, s.module, s.cls, s.positional, s.keyword, s.path };
  std::unique_ptr<Wrapper> w;
  if( s.path.empty() ) { if( s.keyword.empty() ) { if( s.positional.empty() ) w.reset( new Wrapper( ctx, t[0].c_str(), parent, t[1].c_str(), t[2].c_str() ) ); else w.reset( new Wrapper( ctx, t[0].c_str(), parent, t[1].c_str(), t[2].c_str(), t[3].c_str() ) ); } else w.reset( new Wrapper( ctx, t[0].c_str(), parent, t[1].c_str(), t[2].c_str(), t[3].c_str(), t[4].c_str() ) ); }
  else w.reset( new Wrapper( ctx, t[0].c_str(), parent, t[1].c_str(), t[2].c_str(), t[3].c_str(), t[4].c_str(), t[5].c_str() ) );
  for( auto & x : t ) std::fill( x.begin(), x.end(), '#' );
  return w;
}
static void checkPorts( Wrapper & w, Source const & s, std::string const & name )
{
  R->event(); auto const & impl = w.implementation(); std::vector<APort> in, out; std::set<std::string> par, want;
  for( auto p : impl.audioPorts() ) ( p->direction() == PortBase::Direction::Input ? in : out ).push_back( { p->name(), p->width() } );
  for( auto p : impl.parameterPorts() ) par.insert( cat( p->name(), p->direction() == PortBase::Direction::Input ? "<" : ">", static_cast<long>( p->parameterType() ), "/", static_cast<long>( p->protocolType() ) ) );
  for( auto const & p : s.comp->par ) want.insert( cat( p.name, p.input ? "<" : ">", static_cast<long>( p.type == MQF ? pml::ScalarParameter<float>::staticType() : p.type == MQS ? pml::StringParameter::staticType() : pml::VectorParameter<float>::staticType() ), "/", static_cast<long>( p.type == DBV ? pml::DoubleBufferingProtocol::staticType() : p.type == SDV ? pml::SharedDataProtocol::staticType() : pml::MessageQueueProtocol::staticType() ) ) );
  auto same = []( std::vector<APort> const & a, std::vector<APort> const & b ) { bool r = a.size() == b.size(); for( SZ i = 0; r && i < a.size(); ++i ) r = a[i].name == b[i].name && a[i].width == b[i].width; return r; };
  if( !same( in, s.comp->in ) || !same( out, s.comp->out ) ) viol( "audio_ports", cat( "the audio ports of the wrapper differ from those of the component\n", s.text ) );
  if( par != want ) viol( "parameter_ports", cat( "the parameter ports of the wrapper differ from those of the component: ", vh::vec( par ), " instead of ", vh::vec( want ), "\n", s.text ) );
  if( w.name() != name + "_wrapper" || !w.isComposite() ) viol( "name", cat( "the wrapper is called ", w.name() ) );
}
// ---------------------------------------------------------------- systems
struct Top: CompositeComponent
{
  std::vector<std::unique_ptr<AudioInputBase>> ai; std::vector<std::unique_ptr<AudioOutputBase>> ao; std::vector<std::unique_ptr<PolymorphicParameterInput>> pi; std::vector<std::unique_ptr<PolymorphicParameterOutput>> po; std::vector<std::unique_ptr<Wrapper>> w;
  Top( SignalFlowContext const & ctx, char const * name ): CompositeComponent( ctx, name, nullptr ) {}
  using CompositeComponent::audioConnection; using CompositeComponent::parameterConnection;
  void finish( Comp & c, Rng & g )
  {
    for( auto const & p : c.in ) { ai.emplace_back( new AudioInputBase( p.name.c_str(), *this, AudioSampleType::floatId, p.width ) ); }
    for( auto const & p : c.out ) { ao.emplace_back( new AudioOutputBase( p.name.c_str(), *this, AudioSampleType::floatId, p.width ) ); }
    auto connect = [&]( std::vector<ChRef> const & f, AudioPortBase & rx )
    {
      for( auto const & p : pieces( f, g ) )
      {
        AudioPortBase & tx = p.node < 0 ? static_cast<AudioPortBase &>( *ai[p.port] ) : w[static_cast<SZ>( p.node )]->audioPort( c.child[static_cast<SZ>( p.node )]->out[p.port].name.c_str() );
        audioConnection( tx, ChannelList( p.from ), rx, ChannelList( p.to ) );
      }
    };
    for( SZ i = 0; i < c.child.size(); ++i ) for( SZ p = 0; p < c.child[i]->in.size(); ++p ) connect( c.feed[i][p], w[i]->audioPort( inName( *c.child[i], p ).c_str() ) );
    for( SZ p = 0; p < c.out.size(); ++p ) connect( c.outFeed[p], *ao[p] );
    for( SZ i = 0; i < c.child.size(); ++i ) for( auto const & p : c.child[i]->par ) for( auto const & q : c.par ) if( q.name == p.name )
    {
      ParameterPortBase & inner = w[i]->parameterPort( p.name.c_str() ); auto const & ic = inner.implementation();
      if( p.input ) { pi.emplace_back( new PolymorphicParameterInput( p.name.c_str(), *this, ic.parameterType(), ic.protocolType(), ic.parameterConfig() ) ); parameterConnection( *pi.back(), inner ); }
      else { po.emplace_back( new PolymorphicParameterOutput( p.name.c_str(), *this, ic.parameterType(), ic.protocolType(), ic.parameterConfig() ) ); parameterConnection( inner, *po.back() ); }
    }
    for( auto const & l : c.links ) parameterConnection( w[l.a]->parameterPort( l.pa.c_str() ), w[l.b]->parameterPort( l.pb.c_str() ) );
  }
};
struct System
{
  Rng g; SZ B; std::vector<Source> src; std::unique_ptr<Comp> outer; Comp * desc = nullptr; std::unique_ptr<Top> top; std::unique_ptr<Wrapper> alone; std::unique_ptr<rrl::AudioSignalFlow> flow; Model m; std::vector<Comp *> all; std::string what; std::vector<PPort> par; int raiser = -1; long raisedTimes = 0, blocks = 0, messages = 0, params = 0; bool bad = false;
  System( Rng & r, SZ b ): g( r.next() ), B( b ) {}
  void build( std::string const & scratch )
  {
    bool const composite = g.chance( 0.5 ), raise = g.chance( 0.2 ); SZ const n = composite ? static_cast<SZ>( g.range( 1, 3 ) ) : 1, at = g.index( n ); int uid = 0;
    for( SZ i = 0; i < n; ++i ) { src.push_back( makeSource( g, scratch, raise, raise && i == at, g.chance( 0.3 ), uid ) ); uid += 1000; if( src.back().raiser >= 0 ) raiser = src.back().raiser; what += src.back().arrangement + "(" + src.back().positional + ";" + src.back().keyword + ") " + src.back().text; }
    SignalFlowContext const ctx( B, 48000 );
    if( composite )
    {
      outer.reset( new Comp ); Gen gen( g ); top.reset( new Top( ctx, "top" ) );
      for( SZ i = 0; i < n; ++i ) { std::string const nm = cat( "part", i ); top->w.push_back( wrap( ctx, nm, top.get(), src[i] ) ); checkPorts( *top->w.back(), src[i], nm ); outer->child.push_back( std::move( src[i].comp ) ); }
      gen.wire( *outer ); top->finish( *outer, g ); desc = outer.get();
    }
    else { alone = wrap( ctx, "flow", nullptr, src[0] ); checkPorts( *alone, src[0], "flow" ); desc = src[0].comp.get(); }
    std::stringstream msg; if( !rrl::checkConnectionIntegrity( top ? static_cast<Component &>( *top ) : *alone, true, msg ) ) viol( "integrity", "the connections are reported to be faulty: " + msg.str() + "\n" + what );
    flow.reset( new rrl::AudioSignalFlow( top ? static_cast<Component &>( *top ) : *alone ) ); collectLinks( *desc, m.link );
    R->count( "wrapped Python components", static_cast<long>( n ) ); R->count( "components written in Python or created there", static_cast<long>( leaves( *desc ) ) ); if( composite ) R->count( "flows mixing C++ and Python composites" ); if( !m.link.empty() ) R->count( "flows with parameter connections between Python components" );
    SZ ni = 0, no = 0; for( auto const & p : desc->in ) ni += p.width; for( auto const & p : desc->out ) no += p.width;
    if( flow->numberOfCaptureChannels() != ni || flow->numberOfPlaybackChannels() != no ) { viol( "channels", "number of channels of the flow\n" + what ); bad = true; }
  }
  void block()
  {
    if( bad ) return; bool raise = false;
    // Parameters.
    for( auto const & p : desc->par ) if( p.input )
    {
      if( raiser >= 0 && p.name == "i" + std::to_string( raiser ) )
      { if( g.chance( 0.4 ) ) { m.msgF[p.name].push_back( 1 ); raise = true; dynamic_cast<pml::MessageQueueProtocol::OutputBase &>( flow->externalParameterReceivePort( p.name.c_str() ) ).enqueue( std::unique_ptr<ParameterBase>( new pml::ScalarParameter<float>( 1.f ) ) ); } continue; }
      if( p.type == MQF ) for( SZ k = g.index( 4 ); k > 0; --k ) { float const v = static_cast<float>( g.range( -64, 64 ) ) / 16; m.msgF[p.name].push_back( v ); dynamic_cast<pml::MessageQueueProtocol::OutputBase &>( flow->externalParameterReceivePort( p.name.c_str() ) ).enqueue( std::unique_ptr<ParameterBase>( new pml::ScalarParameter<float>( v ) ) ); ++messages; }
      else if( p.type == MQS ) for( SZ k = g.index( 4 ); k > 0; --k ) { std::string const v = g.pick<std::string>( { "", "gain", "a b", "x\ty", "ä" } ) + std::to_string( g.index( 1000 ) ); m.msgS[p.name].push_back( v ); dynamic_cast<pml::MessageQueueProtocol::OutputBase &>( flow->externalParameterReceivePort( p.name.c_str() ) ).enqueue( std::unique_ptr<ParameterBase>( new pml::StringParameter( v ) ) ); ++messages; }
      else if( g.chance( 0.5 ) )
      {
        std::vector<float> v( p.size ); for( auto & x : v ) x = static_cast<float>( g.range( -64, 64 ) ) / 16; ++params;
        if( p.type == DBV ) { auto & o = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase &>( flow->externalParameterReceivePort( p.name.c_str() ) ); auto & d = dynamic_cast<pml::VectorParameter<float> &>( o.data() ); for( SZ i = 0; i < p.size; ++i ) d[i] = v[i]; o.swapBuffers(); m.dbv[p.name] = v; m.dbNew[p.name] = true; }
        else { auto & d = dynamic_cast<pml::VectorParameter<float> &>( dynamic_cast<pml::SharedDataProtocol::OutputBase &>( flow->externalParameterReceivePort( p.name.c_str() ) ).data() ); for( SZ i = 0; i < p.size; ++i ) d[i] = v[i]; m.sdv[p.name] = v; }
      }
    }
    std::vector<Block> in; std::vector<std::vector<float>> store; std::vector<float const *> ip; std::vector<float *> op; SZ no = 0; for( auto const & p : desc->out ) no += p.width;
    for( auto const & p : desc->in ) { Block b( p.width, std::vector<float>( B ) ); for( auto & c : b ) for( auto & x : c ) x = static_cast<float>( g.uni( -1, 1 ) ); in.push_back( b ); }
    for( auto const & b : in ) for( auto const & c : b ) store.push_back( c ); for( auto const & c : store ) ip.push_back( c.data() );
    std::vector<std::vector<float>> res( no, std::vector<float>( B, 77.f ) ); for( auto & c : res ) op.push_back( c.data() );
    bool threw = false; std::string text;
    try { flow->process( ip.data(), op.data() ); } catch( std::exception const & e ) { threw = true; text = e.what(); } catch( ... ) { threw = true; text = "(not a std::exception)"; }
    ++blocks; m.raised = -1; std::vector<Block> const want = evaluate( *desc, in, B, m );
    if( threw != raise ) { viol( threw ? "process_throws" : "exception_lost", cat( "block ", blocks - 1, ": ", threw ? "process() throws " + text : std::string( "an exception in Python did not reach the caller" ), "\n", what ) ); bad = true; return; }
    if( raise ) { ++raisedTimes; if( text.find( cat( "mishap in component ", raiser ) ) == std::string::npos ) viol( "exception_text", "the message of the Python exception is not passed on: " + text ); return; }
    SZ ch = 0; for( SZ p = 0; p < want.size(); ++p ) for( auto const & c : want[p] )
    { for( SZ k = 0; k < B; ++k ) if( !( std::fabs( res[ch][k] - c[k] ) <= 1e-5 * ( 1 + std::fabs( c[k] ) ) ) ) { viol( "output", cat( "block ", blocks - 1, " output ", ch, " sample ", k, " is ", res[ch][k], " instead of ", c[k], "\n", what ) ); bad = true; return; } ++ch; }
    for( auto const & p : desc->par ) if( !p.input )
    {
      if( p.type == DBV )
      {
        auto & i = dynamic_cast<pml::DoubleBufferingProtocol::InputBase &>( flow->externalParameterSendPort( p.name.c_str() ) );
        if( i.changed() != m.dbNew[p.name] ) { viol( "double_buffer", cat( "block ", blocks - 1, ": the change of ", p.name, m.dbNew[p.name] ? " is not" : " is", " signalled\n", what ) ); bad = true; }
        else if( i.changed() ) { i.resetChanged(); m.dbNew[p.name] = false; auto const & d = dynamic_cast<pml::VectorParameter<float> const &>( i.data() ); for( SZ k = 0; k < p.size; ++k ) if( d[k] != m.dbv[p.name][k] ) { viol( "double_buffer", cat( "block ", blocks - 1, ": value of ", p.name, "\n", what ) ); bad = true; break; } }
        continue;
      }
      auto & q = dynamic_cast<pml::MessageQueueProtocol::InputBase &>( flow->externalParameterSendPort( p.name.c_str() ) );
      if( p.type == MQF ) { std::vector<float> v; while( !q.empty() ) { v.push_back( dynamic_cast<pml::ScalarParameter<float> const &>( q.front() ).value() ); q.pop(); } if( v != m.outF[p.name] ) { viol( "messages", cat( "block ", blocks - 1, " ", p.name, ": ", vh::vec( v ), " instead of ", vh::vec( m.outF[p.name] ), "\n", what ) ); bad = true; } m.outF[p.name].clear(); }
      else { std::vector<std::string> v; while( !q.empty() ) { v.push_back( dynamic_cast<pml::StringParameter const &>( q.front() ).str() ); q.pop(); } if( v != m.outS[p.name] ) { viol( "messages", cat( "block ", blocks - 1, " ", p.name, ": ", vh::vec( v ), " instead of ", vh::vec( m.outS[p.name] ), "\n", what ) ); bad = true; } m.outS[p.name].clear(); }
    }
  }
  void takeDown()
  {
    for( auto const & s : src ) if( boost::filesystem::exists( s.gone ) ) viol( "released_early", "a Python component is destroyed while the flow is in use\n" + what );
    flow.reset(); if( top && g.chance( 0.5 ) ) { g.shuffle( top->w ); while( !top->w.empty() ) top->w.pop_back(); } top.reset(); alone.reset(); R->event();
    for( auto const & s : src ) if( !boost::filesystem::exists( s.gone ) ) viol( "not_released", "a Python component outlives its wrapper\n" + what );
    for( auto const & s : src ) boost::filesystem::remove( s.gone );
  }
};
static void initialise( vh::Run & r )
{
  static bool done = false; if( done ) return; done = true;
  // With and without the parameter library set up by C++ first; Python's pml module does it as well.
  bool const before = ( r.start % 3 ) != 1; if( before && r.start % 3 == 0 ) pml::initialiseParameterLibrary();
  if( !pythonsupport::InitialisationGuard::initialise() || !pythonsupport::InitialisationGuard::initialise() ) r.viol( "initialise", "InitialisationGuard::initialise() returns false" );
  if( before && r.start % 3 == 2 ) pml::initialiseParameterLibrary();
  boost::filesystem::create_directories( r.scratch + "/known" );
  // Put the directory of known modules on the path, as any search path stays there.
  put( r.scratch + "/known/first_module.py", "import visr\nclass First( visr.CompositeComponent ):\n    def __init__( self, c, n, p ):\n        super().__init__( c, n, p )\n" );
  SignalFlowContext const ctx( 8, 48000 ); Wrapper first( ctx, "first", nullptr, "first_module", "First", "", "", ( r.scratch + "/known" ).c_str() );
}
static void typedCase( vh::Run & r );
static void flowCase( vh::Run & r )
{
  initialise( r ); Rng & g = r.rng; if( g.chance( 0.15 ) ) { typedCase( r ); return; }
  SZ const B = g.pick<SZ>( { 1, 4, 8, 16, 64 } ); SZ const n = g.chance( 0.3 ) ? 2 : 1; std::vector<std::unique_ptr<System>> s;
  int const scheme = static_cast<int>( g.index( 5 ) ); std::string sig = cat( "scheme", scheme, n );
  for( SZ i = 0; i < n; ++i )
  {
    s.emplace_back( new System( g, B ) );
    try { if( scheme == 4 && i == 0 ) { std::exception_ptr e; std::thread t( [&] { try { s[i]->build( r.scratch ); } catch( ... ) { e = std::current_exception(); } } ); t.join(); if( e ) std::rethrow_exception( e ); } else s[i]->build( r.scratch ); }
    catch( std::exception const & e ) { r.viol( "refused", cat( "a flow cannot be created: ", e.what(), "\n", s[i]->what ) ); return; }
    sig += cat( ":", s[i]->desc->in.size(), s[i]->desc->out.size(), s[i]->desc->par.size(), s[i]->src.size(), s[i]->src[0].arrangement, s[i]->raiser >= 0 );
  }
  int const blocks = static_cast<int>( g.range( 2, 8 ) );
  switch( scheme )
  {
    case 0: case 4: for( int b = 0; b < blocks; ++b ) for( auto & x : s ) x->block(); break;
    case 1: for( int b = 0; b < blocks; ++b ) for( auto & x : s ) { std::thread t( [&] { x->block(); } ); t.join(); } r.count( "flows run by a new thread for each block" ); break;
    case 2: { std::vector<std::thread> t; for( auto & x : s ) t.emplace_back( [&x, blocks] { for( int b = 0; b < blocks; ++b ) x->block(); } ); for( auto & x : t ) x.join(); r.count( "flows run by threads of their own", static_cast<long>( n ) ); break; }
    default:
    {
      // The main thread creates and takes down others meanwhile.
      std::vector<std::thread> t; for( auto & x : s ) t.emplace_back( [&x, blocks] { for( int b = 0; b < 2 * blocks; ++b ) x->block(); } );
      { System other( g, B ); try { std::unique_lock<std::mutex> l( violMutex, std::defer_lock ); other.build( r.scratch ); other.block(); other.block(); other.takeDown(); } catch( std::exception const & e ) { viol( "refused", cat( "a flow cannot be created: ", e.what(), "\n", other.what ) ); } }
      for( auto & x : t ) x.join(); r.count( "flows created while another one runs" );
    }
  }
  for( auto & x : s ) { r.event( x->blocks ); r.count( "blocks", x->blocks ); r.count( "messages", x->messages ); r.count( "parameter values", x->params ); r.count( "exceptions raised in Python", x->raisedTimes ); }
  std::string what = s[0]->what;
  if( scheme == 4 && !s.empty() ) { std::thread t( [&] { s[0]->takeDown(); } ); t.join(); s.erase( s.begin() ); r.count( "flows created and taken down by another thread" ); }
  for( auto & x : s ) x->takeDown();
  r.nontrivial( sig ); r.sample( what );
}
// Ports of other sample types between two wrapped components.
static void typedCase( vh::Run & r )
{
  static std::vector<std::array<char const *, 2>> const types{ { { "Float", "np.float32" } }, { { "Double", "np.float64" } }, { { "LongDouble", "np.longdouble" } }, { { "Int8", "np.int8" } }, { { "Uint8", "np.uint8" } }, { { "Int16", "np.int16" } }, { { "Uint16", "np.uint16" } }, { { "Int32", "np.int32" } }, { { "Uint32", "np.uint32" } }, { { "ComplexFloat", "np.complex64" } }, { { "ComplexDouble", "np.complex128" } } };
  Rng & g = r.rng; SZ const B = g.pick<SZ>( { 1, 8, 24 } ); SignalFlowContext const ctx( B, 48000 ); long const id = moduleNumber++; std::string const dir = cat( r.scratch, "/typed", id ), mod = cat( "typed", id );
  SZ const n = static_cast<SZ>( g.range( 1, 4 ) ), w = static_cast<SZ>( g.range( 1, 4 ) ); std::vector<SZ> t; for( SZ i = 0; i < n; ++i ) t.push_back( g.index( types.size() ) );
  std::string a = "class A( visr.AtomicComponent ):\n    def __init__( self, c, n, p ):\n        super().__init__( c, n, p )\n" + cat( "        self.i = visr.AudioInputFloat( 'in', self, ", w, " )\n" ), ap = "    def process( self ):\n", b = "class B( visr.AtomicComponent ):\n    def __init__( self, c, n, p ):\n        super().__init__( c, n, p )\n", bp = "    def process( self ):\n        acc = np.zeros( [ self.o.width, self.period() ], dtype=np.float64 )\n", k = "class C( visr.CompositeComponent ):\n    def __init__( self, c, n, p ):\n        super().__init__( c, n, p )\n        self.a = A( c, 'a', self )\n" + cat( "        self.i = visr.AudioInputFloat( 'in', self, ", w, " )\n        self.audioConnection( self.i, self.a.i )\n" );
  for( SZ i = 0; i < n; ++i )
  {
    a += cat( "        self.t", i, " = visr.AudioOutput", types[t[i]][0], "( 't", i, "', self, ", w, " )\n" ); ap += cat( "        self.t", i, ".set( np.array( self.i.data(), dtype=", types[t[i]][1], " )", std::string( types[t[i]][0] ).find( "Complex" ) == 0 ? " * np.array( 1 + 2j, dtype=" + std::string( types[t[i]][1] ) + " )" : std::string(), " )\n" );
    b += cat( "        self.t", i, " = visr.AudioInput", types[t[i]][0], "( 't", i, "', self, ", w, " )\n" ); bp += cat( "        x = self.t", i, ".data()\n        acc += ", i + 1, " * ", std::string( types[t[i]][0] ).find( "Complex" ) == 0 ? "( np.imag( x ) - np.real( x ) )" : "np.array( x, dtype=np.float64 )", "\n" );
    k += cat( "        self.t", i, " = visr.AudioOutput", types[t[i]][0], "( 't", i, "', self, ", w, " )\n        self.audioConnection( self.a.t", i, ", self.t", i, " )\n" );
  }
  b += cat( "        self.o = visr.AudioOutputFloat( 'out', self, ", w, " )\n" ); bp += "        self.o.set( np.array( acc, dtype=np.float32 ) )\n"; std::string const text = "import visr\nimport numpy as np\n" + a + ap + b + bp + k; put( dir + "/" + mod + ".py", text );
  try
  {
    Top top( ctx, "top" ); top.w.emplace_back( new Wrapper( ctx, "a", &top, mod.c_str(), g.chance( 0.5 ) ? "A" : "C", "", "", dir.c_str() ) ); top.w.emplace_back( new Wrapper( ctx, "b", &top, mod.c_str(), "B", "", "", dir.c_str() ) );
    AudioInputBase in( "in", top, AudioSampleType::floatId, w ); AudioOutputBase out( "out", top, AudioSampleType::floatId, w ); top.audioConnection( in, top.w[0]->audioPort( "in" ) ); top.audioConnection( top.w[1]->audioPort( "out" ), out );
    for( SZ i = 0; i < n; ++i ) { std::string const p = cat( "t", i ); top.audioConnection( top.w[0]->audioPort( p.c_str() ), top.w[1]->audioPort( p.c_str() ) ); }
    rrl::AudioSignalFlow flow( top );
    for( int blk = 0; blk < 3; ++blk )
    {
      std::vector<float> x( w * B ), y( w * B, -1.f ); for( auto & v : x ) v = static_cast<float>( g.range( 0, 120 ) ); std::vector<float const *> ip; std::vector<float *> op; for( SZ i = 0; i < w; ++i ) { ip.push_back( &x[i * B] ); op.push_back( &y[i * B] ); }
      flow.process( ip.data(), op.data() ); r.event(); for( SZ q = 0; q < w * B; ++q ) if( y[q] != x[q] * static_cast<float>( n * ( n + 1 ) / 2 ) ) { r.viol( "typed", cat( "output ", q / B, " sample ", q % B, " is ", y[q], " for the input ", x[q], "\n", text ) ); return; }
    }
    r.count( "flows with ports of other sample types" );
  }
  catch( std::exception const & e ) { r.viol( "typed", cat( "ports of other sample types: ", e.what(), "\n", text ) ); }
  for( SZ x : t ) r.nontrivial( std::string( "typed" ) + types[x][0] );
}
// ---------------------------------------------------------------- refusals
static void refusalCase( vh::Run & r )
{
  initialise( r ); Rng & g = r.rng; SZ const B = g.pick<SZ>( { 1, 8, 64 } ); SignalFlowContext const ctx( B, 48000 ); long const id = moduleNumber++;
  std::string const dir = cat( r.scratch, "/bad", id ), mod = cat( "bad", id ); std::string text = "import visr\nimport numpy as np\nimport rcl\nimport pml\nclass Good( visr.AtomicComponent ):\n    def __init__( self, context, name, parent, gain, width=2 ):\n        super().__init__( context, name, parent )\n        self.inp = visr.AudioInputFloat( 'in', self, width )\n        self.out = visr.AudioOutputFloat( 'out', self, width )\n        self.gain = np.float32( gain )\n    def process( self ):\n        self.out.set( self.inp.data() * self.gain )\n";
  std::string m = mod, c = "Good", pos = "2,", kw, path = dir, expect; std::string clause; std::string badModule;
  auto add = [&]( std::string const & cls ) { text += cls; };
  switch( g.index( 20 ) )
  {
    case 0: clause = "absent module"; m = mod + "x"; expect = m; break;
    case 1: clause = "absent class"; c = "Missing"; expect = "Missing"; break;
    case 2: clause = "absent namespace"; c = g.pick<std::string>( { "sub.Good", "Good.Inner", "np.Good" } ); break;
    case 3: clause = "positional arguments"; pos = g.pick<std::string>( { "[1", "undefined_name,", "1,,", "1; 2", "import os" } ); break;
    case 4: clause = "keyword arguments"; kw = g.pick<std::string>( { "{ 'width': ", "{ width: 2 }", "3", "'width'", "[ 'width' ]" } ); break;
    case 5: clause = "number of arguments"; pos = g.pick<std::string>( { "1, 2, 3", "" } ); break;
    case 6: clause = "unknown keyword"; kw = "{ 'colour': 3 }"; expect = "colour"; break;
    case 7: clause = "duplicate argument"; kw = "{ 'gain': 3 }"; expect = "gain"; break;
    case 8: case 9: case 10: // The constructor fails with parts already there, which may refer to each other.
    {
      clause = "constructor raises"; c = "Fails"; expect = "planned failure"; bool const atomic = g.chance( 0.4 );
      std::string t = std::string( "class Fails( visr." ) + ( atomic ? "Atomic" : "Composite" ) + "Component ):\n    def __init__( self, context, name, parent, *args ):\n"; if( g.chance( 0.15 ) ) t += "        raise RuntimeError( 'planned failure' )\n";
      t += "        super().__init__( context, name, parent )\n        self.inp = visr.AudioInputFloat( 'in', self, 2 )\n        self.out = visr.AudioOutputFloat( 'out', self, 2 )\n";
      if( !atomic ) { t += "        self.a = Good( context, 'a', self, 1 )\n        self.b = rcl.Add( context, 'b', self, width=2, numInputs=2 )\n"; if( g.chance( 0.5 ) ) t += "        self.audioConnection( self.inp, self.a.audioPort( 'in' ) )\n"; if( g.chance( 0.4 ) ) t += "        self.a.parent = self\n        self.a.other = [ self.a, self.b ]\n" ; }
      if( g.chance( 0.5 ) ) t += "        self.me = self\n"; if( g.chance( 0.3 ) ) t += "        global kept\n        kept = self\n"; if( g.chance( 0.3 ) ) t += "        global keptPort\n        keptPort = self.out\n"; if( g.chance( 0.3 ) && !atomic ) t += "        global keptChild\n        keptChild = self.a\n";
      t += g.pick<std::string>( { "        raise RuntimeError( 'planned failure' )\n", "        try:\n            1 / 0\n        except Exception as ex:\n            raise ValueError( 'planned failure' ) from ex\n", "        self.again = Good( context, 'planned failure', self, 'x' )\n" } ); if( t.find( "again" ) != std::string::npos ) { expect.clear(); if( atomic ) t += "        raise TypeError()\n"; } add( t ); break;
    }
    case 11: clause = "no component"; c = "Plain"; add( "class Plain:\n    def __init__( self, *args, **kw ):\n        pass\n" ); break;
    case 12: clause = "not callable"; c = "number"; add( "number = 3\n" ); break;
    case 13: clause = "absent directory"; path = g.pick<std::string>( { dir + "x", dir + "," + dir + "x", dir + " " + dir + "x", dir + "x, " + dir } ); expect = dir + "x"; break;
    case 14: clause = "module syntax"; add( "class Unfinished( visr\n" ); break;
    case 15: clause = "module raises"; add( "raise RuntimeError( 'planned failure' )\n" ); expect = "planned failure"; break;
    case 16: clause = "no base constructor"; c = "Bare"; add( "class Bare( visr.AtomicComponent ):\n    def __init__( self, context, name, parent, gain ):\n        self.gain = gain\n" ); break;
    case 17: clause = "C++ exception"; c = "Inner"; add( std::string( "class Inner( visr.CompositeComponent ):\n    def __init__( self, context, name, parent, gain ):\n        super().__init__( context, name, parent )\n" ) + g.pick<std::string>( { "        self.r = rcl.SignalRouting( context, 'r', self, 1, 1, pml.SignalRoutingParameter( [ pml.SignalRoutingParameter.Entry( 5, 5 ) ] ), controlInput=False )\n", "        self.a = visr.AudioInputFloat( 'x', self, 2 )\n        self.b = visr.AudioInputFloat( 'x', self, 2 )\n", "        self.a = Good( context, 'a', self, 1 )\n        self.b = Good( context, 'a', self, 1 )\n" } ) ); break;
    case 18: clause = "returns something else"; c = "make"; add( g.pick<std::string>( { "def make( *args ):\n    return 3\n", "def make( *args ):\n    return None\n", "def make( *args ):\n    return Good\n" } ) ); break;
    default: clause = "dotted module"; m = g.pick<std::string>( { mod + ".Good", mod + ".sub", "." + mod, "" } ); break;
  }
  // The broken module apart from a working one, which the rest of the flow uses.
  std::string const goodMod = mod + "g"; put( dir + "/" + goodMod + ".py", "import visr\nimport numpy as np\nclass Good( visr.AtomicComponent ):\n    def __init__( self, context, name, parent, gain, width=2 ):\n        super().__init__( context, name, parent )\n        self.inp = visr.AudioInputFloat( 'in', self, width )\n        self.out = visr.AudioOutputFloat( 'out', self, width )\n        self.gain = np.float32( gain )\n    def process( self ):\n        self.out.set( self.inp.data() * self.gain )\n" );
  put( dir + "/" + mod + ".py", text ); std::string const what = cat( clause, ": module '", m, "' class '", c, "' arguments '", pos, "' '", kw, "' path '", path, "'\n", text ); bool const inside = g.chance( 0.6 ), other = g.chance( 0.3 );
  auto attempt = [&]( CompositeComponent * parent )
  {
    bool threw = false; std::string msg; r.event(); r.count( "refusals" );
    auto body = [&] { try { Wrapper w( ctx, "part", parent, m.c_str(), c.c_str(), pos.c_str(), kw.c_str(), path.c_str() ); } catch( std::exception const & e ) { threw = true; msg = e.what(); } catch( ... ) { threw = true; msg = "(not a std::exception)"; } };
    if( other ) { std::thread t( body ); t.join(); } else body();
    if( !threw ) r.viol( "accepted:" + clause, what );
    else if( msg == "(not a std::exception)" ) r.viol( "exception_type:" + clause, what );
    else if( !expect.empty() && msg.find( expect ) == std::string::npos ) r.viol( "message:" + clause, "the message does not tell the reason: " + msg + "\n" + what );
  };
  if( !inside ) attempt( nullptr );
  // Whatever was refused, the enclosing composite is as if it had not been tried.
  Top top( ctx, "top" ); Source good; good.module = goodMod; good.cls = "Good"; good.positional = "2,"; good.path = dir;
  if( inside ) { SZ const n = static_cast<SZ>( g.range( 1, 2 ) ); for( SZ i = 0; i < n; ++i ) attempt( &top ); }
  try
  {
    Gen gen( g ); top.w.push_back( wrap( ctx, "part", &top, good ) ); AudioInputBase in( "in", top, AudioSampleType::floatId, 2 ); AudioOutputBase out( "out", top, AudioSampleType::floatId, 2 );
    top.audioConnection( in, top.w[0]->audioPort( "in" ) ); top.audioConnection( top.w[0]->audioPort( "out" ), out ); if( inside && g.chance( 0.3 ) ) { std::unique_ptr<rrl::AudioSignalFlow> f( new rrl::AudioSignalFlow( top ) ); }
    rrl::AudioSignalFlow flow( top ); std::vector<float> x( 2 * B ), y( 2 * B ); for( auto & v : x ) v = static_cast<float>( g.uni( -1, 1 ) ); float const * ip[2] = { &x[0], &x[B] }; float * op[2] = { &y[0], &y[B] };
    flow.process( ip, op ); r.event(); for( SZ k = 0; k < 2 * B; ++k ) if( y[k] != 2 * x[k] ) { r.viol( "after_refusal", "output after " + what ); break; }
  }
  catch( std::exception const & e ) { r.viol( "after_refusal", cat( e.what(), " after ", what ) ); }
  r.nontrivial( clause + c + ( inside ? "i" : "t" ) + ( other ? "o" : "m" ) );
}
// ---------------------------------------------------------------- the runner application
static void runnerCase( vh::Run & r )
{
  initialise( r ); Rng & g = r.rng; App const app = &python_runner_main; SZ const B = g.pick<SZ>( { 8, 16, 64, 1024 } ), rate = g.pick<SZ>( { 44100, 48000 } );
  Source s; SZ ni = 0, no = 0; do { s = makeSource( g, r.scratch, true, false, false, 0 ); ni = no = 0; for( auto const & p : s.comp->in ) ni += p.width; for( auto const & p : s.comp->out ) no += p.width; } while( !s.comp->par.empty() );
  Host h( g, g.chance( 0.5 ), ni, no, B, B == 1024 ? 48000 : rate ); Model m; collectLinks( *s.comp, m.link );
  h.reference = [&]( Sound const & x, Sound & y ) { std::vector<Block> in; SZ ch = 0; for( auto const & p : s.comp->in ) { in.emplace_back(); for( SZ k = 0; k < p.width; ++k ) in.back().push_back( x[ch++] ); } ch = 0; for( auto const & b : evaluate( *s.comp, in, B, m ) ) for( auto const & c : b ) y[ch++] = c; };
  std::vector<Opt> o{ { "audio-backend", 'D', h.backend(), false }, { "module-name", 'm', s.module, false }, { "python-class-name", 'c', s.cls, false } };
  if( !s.path.empty() ) o.push_back( { "module-search-path", 'd', s.path, false } ); if( !s.positional.empty() ) o.push_back( { "positional-arguments", 'a', s.positional, false } ); if( !s.keyword.empty() ) o.push_back( { "keyword-arguments", 'k', s.keyword, false } );
  if( g.chance( 0.4 ) ) o.push_back( { "object-name", 'n', g.pick<std::string>( { "MyFlow", "my flow" } ), false } );
  if( B != 1024 || g.chance( 0.5 ) ) o.push_back( { "period", 'p', std::to_string( B ), false } ); if( h.rate != 48000 || g.chance( 0.5 ) ) o.push_back( { "sampling-frequency", 'f', std::to_string( h.rate ), false } );
  interfaceOptions( g, h, r.scratch, o ); needsAutoconnect( h, o ); std::string clause; std::vector<std::string> extra;
  auto drop = [&]( std::string const & n ) { o.erase( std::remove_if( o.begin(), o.end(), [&]( Opt const & x ) { return x.name == n; } ), o.end() ); };
  auto set = [&]( std::string const & n, std::string const & v ) { drop( n ); o.push_back( { n, 0, v, false } ); };
  if( g.chance( 0.35 ) ) switch( g.index( 9 ) )
  {
    case 0: clause = "no module"; drop( "module-name" ); break;
    case 1: clause = "no class"; drop( "python-class-name" ); break;
    case 2: clause = "absent module"; set( "module-name", s.module + "x" ); break;
    case 3: clause = "absent class"; set( "python-class-name", "Nothing" ); break;
    case 4: clause = "absent directory"; set( "module-search-path", r.scratch + "/nowhere" ); break;
    case 5: clause = "positional arguments"; set( "positional-arguments", "(1" ); break;
    case 6: clause = "unknown keyword"; set( "keyword-arguments", "{ 'colour': 1 }" ); break;
    case 7: clause = "unknown option"; extra = { "--no-such-option" }; break;
    default: clause = "number"; set( "period", "many" ); break;
  }
  bool inFile; std::vector<std::string> a = spell( g, o, r.scratch, inFile ); a.insert( a.end(), extra.begin(), extra.end() ); h.what = "python_runner" + quote( a ) + "\n" + s.text; r.nontrivial( clause + s.arrangement + ( h.jack ? "j" : "p" ) + ( inFile ? "f" : "" ) );
  if( !clause.empty() ) { refused( app, h, a, clause ); return; }
  runs( app, h, a, [&] { h.run( static_cast<int>( g.range( 1, 6 ) ) ); r.count( "blocks played by the application", h.blocks ); } ); r.count( "runs of the application" );
  if( !boost::filesystem::exists( s.gone ) ) r.viol( "not_released", "a Python component outlives the application\n" + h.what ); boost::filesystem::remove( s.gone );
}
int main( int argc, char ** argv )
{
  return vh::runMain( argc, argv, []( vh::Run & r ) {
    R = &r; if( r.mode == "flows" ) flowCase( r ); else if( r.mode == "refusals" ) refusalCase( r ); else if( r.mode == "runner" ) runnerCase( r ); else { std::fprintf( stderr, "unknown mode\n" ); std::exit( 2 ); }
  } );
}
