// C16: control messages. Datagrams cross the network components unaltered, once and in order; tracker and OSC messages are decoded as
// written; inadmissible ones are skipped without effect on the others.
#include "rig.hpp"
#include <arpa/inet.h>
#include <array>
#include <cstring>
#include <deque>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/string_parameter.hpp>
#include <librcl/position_decoder.hpp>
#include <librcl/scalar_osc_decoder.hpp>
#include <librcl/udp_receiver.hpp>
#include <librcl/udp_sender.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace visr;
using vh::Rng;
using pml::StringParameter;

// ---------------------------------------------------------------- network
struct Port // a UDP port no other monitor process uses (a TCP socket on the same number serves as the lock)
{
  int lock = -1; int port = 0;
  explicit Port( Rng & g )
  {
    for( int tries = 0; tries < 400; ++tries )
    {
      port = static_cast<int>( g.range( 21000, 31000 ) ); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons( static_cast<std::uint16_t>( port ) ); a.sin_addr.s_addr = htonl( INADDR_ANY );
      lock = socket( AF_INET, SOCK_STREAM, 0 ); if( lock < 0 ) continue;
      if( bind( lock, reinterpret_cast<sockaddr *>( &a ), sizeof a ) == 0 && listen( lock, 1 ) == 0 )
      {
        int const u = socket( AF_INET, SOCK_DGRAM, 0 ); bool const ok = u >= 0 && bind( u, reinterpret_cast<sockaddr *>( &a ), sizeof a ) == 0; if( u >= 0 ) close( u );
        if( ok ) return;
      }
      close( lock ); lock = -1;
    }
  }
  ~Port() { if( lock >= 0 ) close( lock ); }
  Port( Port const & ) = delete;
};
static std::string bytes( Rng & g, std::size_t n )
{
  std::string s( n, '\0' ); int const k = static_cast<int>( g.index( 4 ) );
  for( auto & c : s ) c = k == 0 ? static_cast<char>( g.range( 32, 126 ) ) : k == 1 ? static_cast<char>( g.range( -128, 127 ) ) : k == 2 ? ( g.chance( 0.3 ) ? '\0' : 'x' ) : static_cast<char>( 'a' + g.range( 0, 25 ) );
  return s;
}
static std::string show( std::string const & s ) { std::string o = vh::cat( s.size(), ":" ); for( std::size_t i = 0; i < s.size() && i < 24; ++i ) { char b[8]; std::snprintf( b, sizeof b, std::isprint( static_cast<unsigned char>( s[i] ) ) ? "%c" : "\\x%02x", static_cast<unsigned char>( s[i] ) ); o += b; } return o; }
static void network( vh::Run & r )
{
  Rng & g = r.rng; Port port( g ); if( port.lock < 0 ) { r.count( "no port available" ); return; }
  bool const asyncS = g.chance( 0.5 ), asyncR = g.chance( 0.5 ); bool const raw = g.chance( 0.25 ); // raw: datagrams come from a plain socket
  SignalFlowContext ctx( 16, 48000 ); std::string log = vh::cat( asyncS ? "asynchronous" : "synchronous", " sender, ", asyncR ? "asynchronous" : "synchronous", " receiver", raw ? ", plain socket" : "" );
  std::unique_ptr<rcl::UdpReceiver> rcv; std::unique_ptr<rcl::UdpSender> snd;
  try
  {
    rcv.reset( new rcl::UdpReceiver( ctx, "receiver", nullptr, static_cast<std::size_t>( port.port ), asyncR ? rcl::UdpReceiver::Mode::Asynchronous : rcl::UdpReceiver::Mode::Synchronous ) );
    snd.reset( new rcl::UdpSender( ctx, "sender", nullptr, 0, g.chance( 0.5 ) ? "127.0.0.1" : "localhost", static_cast<std::size_t>( port.port ), asyncS ? rcl::UdpSender::Mode::Asynchronous : rcl::UdpSender::Mode::Synchronous ) );
  }
  catch( std::exception const & e ) { r.viol( "network_setup", log + ": " + e.what() ); return; }
  std::deque<std::string> expected; std::size_t sent = 0, got = 0;
  {
    rig::Rig rr( *rcv ), sr( *snd ); rig::Block none, out; int sock = raw ? socket( AF_INET, SOCK_DGRAM, 0 ) : -1; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons( static_cast<std::uint16_t>( port.port ) ); a.sin_addr.s_addr = htonl( INADDR_LOOPBACK );
    bool failed = false;
    auto take = [&]()
    {
      if( !rr.process( none, out ) ) { r.viol( "receiver_failed", log + ": " + rr.error ); failed = true; return; }
      auto & in = rr.mqOut( "messageOutput" );
      while( !in.empty() )
      {
        auto const & p = dynamic_cast<StringParameter const &>( in.front() ); std::string const s( p.str(), p.size() ); ++got; r.event();
        if( expected.empty() ) { r.viol( "unexpected_message", vh::cat( log, ": received ", show( s ), " after all ", sent, " messages had arrived" ) ); failed = true; return; }
        if( s != expected.front() ) { r.viol( asyncS && !raw ? "message_changed_async" : "message_changed", vh::cat( log, ": message ", got, " of ", sent, " is ", show( s ), ", expected ", show( expected.front() ) ) ); failed = true; return; }
        expected.pop_front(); in.pop(); r.count( "messages received" );
      }
    };
    for( long k = g.range( 1, 6 ); k > 0 && !failed; --k )
    {
      std::size_t room = 60000; bool oversize = false;
      for( long m = g.range( 0, 10 ); m > 0; --m )
      {
        std::size_t n = g.chance( 0.05 ) ? 0 : g.chance( 0.7 ) ? g.index( 100 ) : g.index( 8192 ); if( g.chance( 0.02 ) ) n = 40000; if( n > room ) n = g.index( 20 ); room -= std::min( room, n );
        if( !raw && g.chance( 0.02 ) ) { oversize = true; sr.send( "messageInput", StringParameter( bytes( g, 66000 ) ) ); r.count( "messages too long for the network" ); log += "; oversize message"; continue; }
        std::string const s = bytes( g, n ); ++sent; expected.push_back( s );
        if( raw ) { if( sendto( sock, s.data(), s.size(), 0, reinterpret_cast<sockaddr *>( &a ), sizeof a ) < 0 ) { expected.pop_back(); --sent; } } else sr.send( "messageInput", StringParameter( s ) );
      }
      log += vh::cat( "; ", expected.size(), " messages" );
      if( !raw ) for( int tries = 0; !sr.process( none, out ); ++tries ) if( !oversize || tries > 10 ) { r.viol( "sender_failed", log + ": " + sr.error ); failed = true; break; }
      if( g.chance( 0.5 ) && !failed ) take();
      if( g.chance( 0.5 ) ) for( int t = 0; t < 4000 && !expected.empty() && !failed; ++t ) { take(); if( !expected.empty() ) std::this_thread::sleep_for( std::chrono::milliseconds( t < 100 ? 1 : 5 ) ); }
      if( !expected.empty() && room < 40000 ) for( int t = 0; t < 4000 && !expected.empty() && !failed; ++t ) { take(); if( !expected.empty() ) std::this_thread::sleep_for( std::chrono::milliseconds( 1 ) ); } // within the socket's buffer
    }
    for( int t = 0; t < 4000 && !expected.empty() && !failed; ++t ) { take(); if( !expected.empty() ) std::this_thread::sleep_for( std::chrono::milliseconds( t < 100 ? 1 : 5 ) ); }
    if( !failed && !expected.empty() ) { r.viol( "messages_lost", vh::cat( log, ": ", expected.size(), " of ", sent, " messages did not arrive, next ", show( expected.front() ) ) ); failed = true; }
    if( !failed ) take(); // nothing arrives twice
    if( sock >= 0 ) close( sock );
    if( failed ) return;
  }
  r.count( "network histories" ); if( sent > 1 ) r.nontrivial( vh::cat( log, r.seed, ":", r.caseIdx ) );
}

// ---------------------------------------------------------------- tracker positions
struct Pose { double x = 0, y = 0, z = 0, yaw = 0, pitch = 0, roll = 0; long face = 0; long long time = 0; int listeners = 1; };
static std::string jsonOf( Rng & g, Pose & p )
{
  std::vector<std::string> f; auto num = [&]( double v ) { return vh::cat( v ); };
  if( g.chance( 0.9 ) ) f.push_back( "\"x\": " + num( p.x ) ); else p.x = 0;
  if( g.chance( 0.9 ) ) f.push_back( "\"y\":" + num( p.y ) ); else p.y = 0;
  if( g.chance( 0.9 ) ) f.push_back( "\"z\" : " + num( p.z ) ); else p.z = 0;
  if( g.chance( 0.7 ) ) f.push_back( vh::cat( "\"orientation\": {\"yaw\": ", p.yaw, ", \"pitch\": ", p.pitch, ", \"roll\": ", p.roll, "}" ) ); else p.yaw = p.pitch = p.roll = 0;
  if( g.chance( 0.9 ) ) f.push_back( vh::cat( "\"faceId\": ", p.face ) ); else p.face = 0;
  if( g.chance( 0.9 ) ) f.push_back( vh::cat( "\"timeStamp\": ", p.time ) ); else p.time = 0;
  if( g.chance( 0.3 ) ) f.push_back( vh::cat( "\"numListeners\": ", p.listeners ) ); else p.listeners = 1;
  g.shuffle( f ); std::string s = "{"; for( auto const & x : f ) s += ( s.size() > 1 ? ", " : " " ) + x; return s + " }";
}
using M3 = std::array<std::array<double, 3>, 3>;
static M3 mul( M3 const & a, M3 const & b ) { M3 c{}; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) for( int k = 0; k < 3; ++k ) c[i][j] += a[i][k] * b[k][j]; return c; }
static M3 rot( double yaw, double pitch, double roll ) // right-handed, about z, then y, then x
{
  double const cy = std::cos( yaw ), sy = std::sin( yaw ), cp = std::cos( pitch ), sp = std::sin( pitch ), cr = std::cos( roll ), sr = std::sin( roll );
  return mul( mul( M3{ { { { cy, -sy, 0 } }, { { sy, cy, 0 } }, { { 0, 0, 1 } } } }, M3{ { { { cp, 0, sp } }, { { 0, 1, 0 } }, { { -sp, 0, cp } } } } ), M3{ { { { 1, 0, 0 } }, { { 0, cr, -sr } }, { { 0, sr, cr } } } } );
}
static void positions( vh::Run & r )
{
  Rng & g = r.rng; SignalFlowContext ctx( 16, 48000 ); double const deg = M_PI / 180; bool const moved = g.chance( 0.6 ); auto coord = [&]() { return static_cast<double>( static_cast<float>( g.chance( 0.3 ) ? static_cast<double>( g.range( -3, 3 ) ) : g.uni( -5, 5 ) ) ); };
  double const ox = moved ? coord() : 0, oy = moved ? coord() : 0, oz = moved ? coord() : 0, Y = moved ? g.uni( -3, 3 ) : 0, P = moved ? g.uni( -1.5, 1.5 ) : 0, R = moved ? g.uni( -3, 3 ) : 0;
  std::unique_ptr<rcl::PositionDecoder> c; pml::ListenerPosition::PositionType const off( static_cast<float>( ox ), static_cast<float>( oy ), static_cast<float>( oz ) );
  if( !moved && g.chance( 0.5 ) ) c.reset( new rcl::PositionDecoder( ctx, "d", nullptr ) );
  else if( g.chance( 0.5 ) ) c.reset( new rcl::PositionDecoder( ctx, "d", nullptr, off, pml::ListenerPosition::OrientationYPR{ { static_cast<float>( Y ), static_cast<float>( P ), static_cast<float>( R ) } } ) );
  else c.reset( new rcl::PositionDecoder( ctx, "d", nullptr, off, pml::ListenerPosition::OrientationQuaternion::fromYPR( static_cast<float>( Y ), static_cast<float>( P ), static_cast<float>( R ) ) ) );
  M3 const T = rot( Y, P, R ); rig::Rig rg( *c ); rig::Block none, out; std::string log = vh::cat( "offset ", ox, " ", oy, " ", oz, " rotation ", Y, " ", P, " ", R ); auto & port = rg.dbOut( "positionOutput" ); bool any = false; Pose current; long long clock = g.range( 0, 1000 );
  for( long b = g.range( 1, 6 ); b > 0; --b )
  {
    bool found = false; Pose best; log += "; block:";
    for( long m = g.range( 0, 5 ); m > 0; --m )
    {
      Pose p; p.x = coord(); p.y = coord(); p.z = coord(); p.yaw = g.uni( -170, 170 ); p.pitch = g.uni( -80, 80 ); p.roll = g.uni( -170, 170 ); p.face = g.chance( 0.05 ) ? 4294967295L : g.range( 0, 3 ); p.listeners = static_cast<int>( g.range( 1, 4 ) );
      clock += g.range( 0, 100 ); p.time = g.chance( 0.2 ) ? std::max( 0LL, clock - g.range( 1, 300 ) ) : clock; if( g.chance( 0.05 ) ) p.time = 0; std::string text = jsonOf( g, p ); bool good = true;
      if( g.chance( 0.15 ) )
      {
        good = false; switch( g.index( 4 ) ) { case 0: text = text.substr( 0, g.index( text.size() - 1 ) ); break; case 1: text = bytes( g, g.index( 20 ) ) + "?"; break; case 2: text = "{\"x\": 1, \"orientation\": {\"yaw\": 1, \"quaternion\": {\"w\":1,\"x\":0,\"y\":0,\"z\":0}}}"; break; default: text = "{\"x\": 3, \"orientation\": {\"quaternion\": {\"w\":1,\"x\":0,\"y\":0}}}"; }
        r.count( "inadmissible positions" );
      }
      log += " " + text; rg.send( "messageInput", StringParameter( text ) );
      if( good && ( !found || p.face < best.face || ( p.face == best.face && p.time >= best.time ) ) ) { best = p; found = true; }
    }
    if( !rg.process( none, out ) ) { r.viol( "position_decoder_failed", log + ": " + rg.error ); return; }
    r.event(); if( port.changed() != found ) { r.viol( found ? "position_missing" : "position_unasked", log ); return; }
    if( found ) { current = best; any = true; port.resetChanged(); r.count( "positions decoded" ); }
    if( !any ) continue;
    auto const & q = dynamic_cast<pml::ListenerPosition const &>( port.data() ); M3 const O = mul( T, rot( current.yaw * deg, current.pitch * deg, current.roll * deg ) ); double const v[3] = { current.x, current.y, current.z }, o[3] = { ox, oy, oz }; double const got[3] = { q.x(), q.y(), q.z() };
    for( int i = 0; i < 3; ++i ) { double const e = o[i] + T[i][0] * v[0] + T[i][1] * v[1] + T[i][2] * v[2]; if( std::fabs( got[i] - e ) > 1e-4 ) { r.viol( "position", vh::cat( log, ": coordinate ", i, " is ", got[i], ", expected ", e ) ); return; } }
    M3 const G = rot( q.yaw(), q.pitch(), q.roll() ); for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) if( std::fabs( G[i][j] - O[i][j] ) > 4e-3 ) { r.viol( "orientation", vh::cat( log, ": ", q.yaw(), " ", q.pitch(), " ", q.roll() ) ); return; }
    if( static_cast<long>( q.faceID() ) != current.face || static_cast<long long>( q.timeNs() ) != current.time || q.numberOfListeners() != static_cast<std::size_t>( current.listeners ) ) { r.viol( "position_identity", vh::cat( log, ": face ", q.faceID(), " time ", q.timeNs() ) ); return; }
  }
  r.nontrivial( log ); r.count( "tracking runs" );
}

// ---------------------------------------------------------------- OSC
static void pad( std::string & s ) { s.push_back( '\0' ); while( s.size() % 4 ) s.push_back( '\0' ); }
static void be( std::string & s, std::uint64_t v, int n ) { for( int i = n - 1; i >= 0; --i ) s.push_back( static_cast<char>( v >> ( 8 * i ) ) ); }
template<class F, class U> static U bits( F f ) { U u; std::memcpy( &u, &f, sizeof u ); return u; }
enum Kind { boolean, integer, unsignedInteger, single, dbl };
static std::string oscMessage( Rng & g, Kind k, std::vector<double> & values, bool negative )
{
  std::string s = "/"; for( long n = g.range( 0, 9 ); n > 0; --n ) s.push_back( static_cast<char>( 'a' + g.range( 0, 25 ) ) ); if( g.chance( 0.3 ) ) s += "/v"; pad( s ); std::string tags = ",", args; auto value = [&]( bool first )
  {
    switch( k )
    {
    case boolean: { bool const b = g.chance( 0.5 ); tags += b ? 'T' : 'F'; if( first ) values.push_back( b ); break; }
    case integer: { long const v = g.chance( 0.2 ) ? g.pick( { -2147483648L, 2147483647L, 0L, -1L } ) : g.range( -1000, 1000 ); tags += 'i'; be( args, static_cast<std::uint32_t>( v ), 4 ); if( first ) values.push_back( static_cast<double>( v ) ); break; }
    case unsignedInteger: { long const v = negative ? -g.range( 1, 1000 ) : g.chance( 0.2 ) ? 2147483647L : g.range( 0, 1000 ); tags += 'i'; be( args, static_cast<std::uint32_t>( v ), 4 ); if( first && !negative ) values.push_back( static_cast<double>( v ) ); break; }
    case single: { float const v = static_cast<float>( g.chance( 0.2 ) ? g.pick( { 0., -0., 3.4e38, 1e-40 } ) : g.uni( -100, 100 ) ); tags += 'f'; be( args, bits<float, std::uint32_t>( v ), 4 ); if( first ) values.push_back( v ); break; }
    default: { double const v = g.chance( 0.2 ) ? g.pick( { 0., 1e308, 5e-324 } ) : g.uni( -100, 100 ); tags += 'd'; be( args, bits<double, std::uint64_t>( v ), 8 ); if( first ) values.push_back( v ); }
    }
  };
  value( true );
  for( long n = g.chance( 0.3 ) ? g.range( 1, 3 ) : 0; n > 0; --n ) switch( g.index( 3 ) ) { case 0: { tags += 's'; std::string t( static_cast<std::size_t>( g.range( 0, 6 ) ), 'q' ); pad( t ); args += t; break; } case 1: { tags += 'b'; std::size_t const len = static_cast<std::size_t>( g.range( 0, 6 ) ); be( args, len, 4 ); args += std::string( len, '\7' ); while( args.size() % 4 ) args.push_back( '\0' ); break; } default: value( false ); }
  pad( tags ); return s + tags + args;
}
static std::string oscBundle( Rng & g, Kind k, std::vector<double> & values, int depth )
{
  std::string s( "#bundle\0", 8 ); be( s, g.next(), 8 ); long const n = g.range( 1, 4 );
  for( long i = 0; i < n; ++i ) { std::string const e = depth > 0 && g.chance( 0.3 ) ? oscBundle( g, k, values, depth - 1 ) : oscMessage( g, k, values, false ); be( s, e.size(), 4 ); s += e; }
  return s;
}
template<class T> static bool drain( vh::Run & r, pml::MessageQueueProtocol::InputBase & in, std::vector<double> const & e, std::string const & log )
{
  std::vector<double> got; while( !in.empty() ) { got.push_back( static_cast<double>( dynamic_cast<pml::ScalarParameter<T> const &>( in.front() ).value() ) ); in.pop(); }
  r.event( static_cast<long>( got.size() ) + 1 ); r.count( "OSC values", static_cast<long>( got.size() ) ); if( got == e ) return true;
  r.viol( "osc_values", vh::cat( log, ": values ", vh::vec( got ), ", expected ", vh::vec( e ) ) ); return false;
}
static void osc( vh::Run & r )
{
  Rng & g = r.rng; Kind const k = static_cast<Kind>( g.index( 5 ) ); static char const * const names[] = { "bool", "int", "uint", "float", "double" }; SignalFlowContext ctx( 16, 48000 ); rcl::ScalarOscDecoder c( ctx, "osc", nullptr ); c.setup( names[k] ); std::string log = names[k];
  if( g.chance( 0.05 ) ) { rcl::ScalarOscDecoder d( ctx, "osc2", nullptr ); bool refused = false; try { d.setup( g.pick( { "short", "", "Bool", "int " } ) ); } catch( std::exception const & ) { refused = true; } if( !refused ) { r.viol( "osc_type_accepted", log ); return; } r.count( "unknown OSC types refused" ); }
  rig::Rig rg( c ); rig::Block none, out;
  for( long b = g.range( 1, 4 ); b > 0; --b )
  {
    std::vector<double> e; bool fuzzy = false; log += "; block";
    for( long m = g.range( 0, 4 ); m > 0; --m )
    {
      std::vector<double> v; bool const negative = k == unsignedInteger && g.chance( 0.2 ); std::string s = negative || g.chance( 0.6 ) ? oscMessage( g, k, v, negative ) : oscBundle( g, k, v, 2 );
      if( negative ) r.count( "negative values" );
      if( g.chance( 0.25 ) )
      {
        r.count( "mutated OSC packets" );
        switch( g.index( 5 ) )
        {
        case 0: s.resize( s.size() - static_cast<std::size_t>( g.range( 1, 3 ) ) ); v.clear(); break;             // not a multiple of four
        case 1: s[0] = 'x'; v.clear(); break;
        case 2: s.clear(); v.clear(); break;
        case 3: for( long n = g.range( 1, 4 ); n > 0; --n ) s[g.index( s.size() )] = static_cast<char>( g.chance( 0.4 ) ? g.pick( { 0, 1, 4, -1, 127 } ) : g.range( -128, 127 ) ); fuzzy = true; break;
        default: s = s.substr( 0, 4 * g.index( s.size() / 4 + 1 ) ); fuzzy = true;
        }
      }
      log += " " + show( s ); e.insert( e.end(), v.begin(), v.end() ); rg.send( "datagramInput", StringParameter( s ) );
    }
    if( !rg.process( none, out ) ) { r.viol( "osc_failed", log + ": " + rg.error ); return; }
    auto & in = rg.mqOut( "dataOut" ); if( fuzzy ) { while( !in.empty() ) in.pop(); r.count( "blocks with arbitrary packets" ); continue; }
    bool ok = true; switch( k ) { case boolean: ok = drain<bool>( r, in, e, log ); break; case integer: ok = drain<int>( r, in, e, log ); break; case unsignedInteger: ok = drain<unsigned>( r, in, e, log ); break; case single: ok = drain<float>( r, in, e, log ); break; default: ok = drain<double>( r, in, e, log ); }
    if( !ok ) return;
  }
  r.nontrivial( log ); r.count( "OSC runs" );
}
static void one( vh::Run & r )
{
  static bool const init = ( pml::initialiseParameterLibrary(), true ); (void)init;
  double const c = r.rng.uni(); if( c < 0.06 ) network( r ); else if( c < 0.5 ) positions( r ); else osc( r );
}
VH_MAIN( one )
