// Stand-ins for the PortAudio and Jack client libraries.  They replace the real libraries' functions within a monitor's
// process, play the part of the sound hardware and server, and note every use of them that their documentation forbids.
#pragma once
#include "vh.hpp"
#include <atomic>
#include <cstdarg>
#include <condition_variable>
#include <jack/jack.h>
#include <memory>
#include <mutex>
#include <portaudio.h>
#include <thread>

namespace fake
{
inline std::mutex & tableMutex() { static std::mutex m; return m; }
inline std::vector<std::string> & misuses() { static std::vector<std::string> v; return v; }
inline void misuse( std::string const & s ) { misuses().push_back( s ); }

// ---------------------------------------------------------------- PortAudio
struct PaStreamState
{
  PaStreamParameters in, out; bool hasIn = false, hasOut = false; double rate = 0; unsigned long frames = 0;
  PaStreamCallback * cb = nullptr; void * user = nullptr;
  bool started = false, open = true; std::atomic<bool> active{ false }, quit{ false };
  std::thread th; long cycles = 0; int lastResult = paContinue;
};
// One block of sound, [channel][sample].
using Sound = std::vector<std::vector<float>>;
struct PaDev { PaDeviceInfo info; std::string name; };
struct PaApi { PaHostApiInfo info; std::string name; std::vector<int> devs; };
struct Pa
{
  int inits = 0; bool failInit = false, failOpen = false, failStart = false; double badRate = -1;
  std::vector<PaApi> apis; std::vector<std::unique_ptr<PaDev>> devs; int defApi = 0;
  std::vector<std::unique_ptr<PaStreamState>> streams; // closed ones stay, to recognise stale pointers
  // The sound hardware: fills the captured block; sees the played block.  Called by the streaming thread or run().
  std::function<void( PaStreamState &, Sound & )> capture;
  std::function<void( PaStreamState &, Sound const &, int )> played;
  bool threaded = false;
  void reset() { for( auto & s : streams ) if( s->th.joinable() ) { s->quit = true; s->th.join(); } *this = Pa(); }
  int openStreams() const { int n = 0; for( auto & s : streams ) n += s->open; return n; }
  // One block through a stream.
  int block( PaStreamState & s )
  {
    std::size_t const ni = s.hasIn ? s.in.channelCount : 0, no = s.hasOut ? s.out.channelCount : 0, B = s.frames;
    Sound in( ni, std::vector<float>( B ) ), out( no, std::vector<float>( B, -777.f ) );
    if( capture ) capture( s, in );
    bool const sepIn = s.hasIn && ( s.in.sampleFormat & paNonInterleaved ), sepOut = s.hasOut && ( s.out.sampleFormat & paNonInterleaved );
    // Memory of exactly the size the format implies, new for every call.
    std::vector<std::unique_ptr<float[]>> mem;
    std::unique_ptr<float const *[]> ip; std::unique_ptr<float *[]> op; std::unique_ptr<float[]> iv, ov;
    void const * inArg = nullptr; void * outArg = nullptr;
    if( sepIn )
    {
      ip.reset( new float const *[ni] );
      for( std::size_t c = 0; c < ni; ++c ) { mem.emplace_back( new float[B] ); std::copy( in[c].begin(), in[c].end(), mem.back().get() ); ip[c] = mem.back().get(); }
      inArg = ip.get();
    }
    else if( s.hasIn )
    {
      iv.reset( new float[ni * B] );
      for( std::size_t c = 0; c < ni; ++c ) for( std::size_t k = 0; k < B; ++k ) iv[k * ni + c] = in[c][k];
      inArg = iv.get();
    }
    if( sepOut )
    {
      op.reset( new float *[no] );
      for( std::size_t c = 0; c < no; ++c ) { mem.emplace_back( new float[B] ); std::fill( mem.back().get(), mem.back().get() + B, -777.f ); op[c] = mem.back().get(); }
      outArg = op.get();
    }
    else if( s.hasOut ) { ov.reset( new float[no * B] ); std::fill( ov.get(), ov.get() + no * B, -777.f ); outArg = ov.get(); }
    PaStreamCallbackTimeInfo ti{ 0, 0, 0 };
    int res;
    try { res = s.cb( inArg, outArg, B, &ti, 0, s.user ); }
    catch( ... ) { misuse( "an exception left the stream callback" ); res = paAbort; }
    for( std::size_t c = 0; c < no; ++c ) for( std::size_t k = 0; k < B; ++k ) out[c][k] = sepOut ? op[c][k] : ov[k * no + c];
    ++s.cycles; s.lastResult = res;
    if( played ) played( s, out, res );
    if( res != paContinue ) s.active = false;
    return res;
  }
  // Unthreaded: n blocks through every active stream.
  void run( int n ) { for( int i = 0; i < n; ++i ) for( std::size_t k = 0; k < streams.size(); ++k ) if( streams[k]->open && streams[k]->active ) block( *streams[k] ); }
  void addApi( PaHostApiTypeId type, std::string const & name )
  {
    PaApi a; a.name = name; a.info = PaHostApiInfo(); a.info.structVersion = 1; a.info.type = type; a.info.deviceCount = 0;
    a.info.defaultInputDevice = a.info.defaultOutputDevice = paNoDevice; apis.push_back( a );
  }
  int addDev( int api, std::string const & name, int ins, int outs )
  {
    std::unique_ptr<PaDev> d( new PaDev() ); d->name = name; d->info = PaDeviceInfo(); d->info.structVersion = 2; d->info.hostApi = api;
    d->info.maxInputChannels = ins; d->info.maxOutputChannels = outs; d->info.defaultSampleRate = 48000;
    d->info.defaultLowInputLatency = ins ? 0.01 : -1; d->info.defaultLowOutputLatency = outs ? 0.01 : -1;
    devs.push_back( std::move( d ) ); int const i = static_cast<int>( devs.size() ) - 1;
    apis[api].devs.push_back( i ); apis[api].info.deviceCount = static_cast<int>( apis[api].devs.size() );
    return i;
  }
  // Like std::move assignment needs: fix up name pointers.
  void settle()
  {
    for( auto & a : apis ) a.info.name = a.name.c_str();
    for( auto & d : devs ) d->info.name = d->name.c_str();
  }
  PaError check( PaStreamParameters const * p, bool input )
  {
    if( !p ) return paFormatIsSupported;
    if( p->device < 0 || p->device >= static_cast<int>( devs.size() ) ) return paInvalidDevice;
    if( p->channelCount < 1 ) return paInvalidChannelCount;
    PaDeviceInfo const & d = devs[p->device]->info;
    if( p->channelCount > ( input ? d.maxInputChannels : d.maxOutputChannels ) ) return paInvalidChannelCount;
    return paFormatIsSupported;
  }
};
inline Pa & pa() { static Pa p; return p; }
inline PaStreamState * paStream( PaStream * s, char const * what )
{
  for( auto & p : pa().streams ) if( p.get() == s ) { if( p->open ) return p.get(); misuse( std::string( what ) + " on a closed stream" ); return nullptr; }
  if( s ) misuse( std::string( what ) + " on a pointer that is no stream" );
  return nullptr;
}
inline void paHalt( PaStreamState & s ) { s.quit = true; if( s.th.joinable() ) s.th.join(); s.active = false; s.started = false; }
} // namespace fake

extern "C" {
PaError Pa_Initialize( void ) { if( fake::pa().failInit ) return paInternalError; ++fake::pa().inits; return paNoError; }
PaError Pa_Terminate( void )
{
  fake::Pa & p = fake::pa();
  if( p.inits == 0 ) { fake::misuse( "Pa_Terminate without Pa_Initialize" ); return paNotInitialized; }
  if( --p.inits == 0 ) for( auto & s : p.streams ) if( s->open ) { fake::paHalt( *s ); s->open = false; }
  return paNoError;
}
static bool paReady( char const * what ) { if( fake::pa().inits > 0 ) return true; fake::misuse( std::string( what ) + " while PortAudio is not initialised" ); return false; }
const char * Pa_GetErrorText( PaError e ) { return e == paNoError ? "Success" : "stand-in error"; }
PaHostApiIndex Pa_GetHostApiCount( void ) { return paReady( "Pa_GetHostApiCount" ) ? static_cast<int>( fake::pa().apis.size() ) : static_cast<int>( paNotInitialized ); }
PaHostApiIndex Pa_GetDefaultHostApi( void ) { return paReady( "Pa_GetDefaultHostApi" ) ? fake::pa().defApi : static_cast<int>( paNotInitialized ); }
PaHostApiIndex Pa_HostApiTypeIdToHostApiIndex( PaHostApiTypeId t )
{
  if( !paReady( "Pa_HostApiTypeIdToHostApiIndex" ) ) return paNotInitialized;
  for( std::size_t i = 0; i < fake::pa().apis.size(); ++i ) if( fake::pa().apis[i].info.type == t ) return static_cast<int>( i );
  return paHostApiNotFound;
}
const PaHostApiInfo * Pa_GetHostApiInfo( PaHostApiIndex i )
{
  if( !paReady( "Pa_GetHostApiInfo" ) || i < 0 || i >= static_cast<int>( fake::pa().apis.size() ) ) return nullptr;
  return &fake::pa().apis[i].info;
}
PaDeviceIndex Pa_HostApiDeviceIndexToDeviceIndex( PaHostApiIndex i, int d )
{
  if( !paReady( "Pa_HostApiDeviceIndexToDeviceIndex" ) ) return paNotInitialized;
  if( i < 0 || i >= static_cast<int>( fake::pa().apis.size() ) ) return paInvalidHostApi;
  if( d < 0 || d >= fake::pa().apis[i].info.deviceCount ) return paInvalidDevice;
  return fake::pa().apis[i].devs[d];
}
PaDeviceIndex Pa_GetDeviceCount( void ) { return static_cast<int>( fake::pa().devs.size() ); }
const PaDeviceInfo * Pa_GetDeviceInfo( PaDeviceIndex i )
{
  if( !paReady( "Pa_GetDeviceInfo" ) || i < 0 || i >= static_cast<int>( fake::pa().devs.size() ) ) return nullptr;
  return &fake::pa().devs[i]->info;
}
PaError Pa_IsFormatSupported( const PaStreamParameters * i, const PaStreamParameters * o, double rate )
{
  if( !paReady( "Pa_IsFormatSupported" ) ) return paNotInitialized;
  if( !i && !o ) return paInvalidDevice;
  PaError e = fake::pa().check( i, true ); if( e == paFormatIsSupported ) e = fake::pa().check( o, false );
  if( e == paFormatIsSupported && rate == fake::pa().badRate ) e = paInvalidSampleRate;
  return e;
}
PaError Pa_OpenStream( PaStream ** s, const PaStreamParameters * i, const PaStreamParameters * o, double rate, unsigned long frames, PaStreamFlags, PaStreamCallback * cb, void * user )
{
  if( !paReady( "Pa_OpenStream" ) ) return paNotInitialized;
  PaError const e = Pa_IsFormatSupported( i, o, rate );
  if( e != paFormatIsSupported ) return e;
  if( fake::pa().failOpen ) return paDeviceUnavailable;
  std::unique_ptr<fake::PaStreamState> st( new fake::PaStreamState() );
  if( i ) { st->in = *i; st->hasIn = true; }
  if( o ) { st->out = *o; st->hasOut = true; }
  st->rate = rate; st->frames = frames; st->cb = cb; st->user = user;
  *s = st.get(); fake::pa().streams.push_back( std::move( st ) );
  return paNoError;
}
PaError Pa_StartStream( PaStream * p )
{
  fake::PaStreamState * s = fake::paStream( p, "Pa_StartStream" );
  if( !s ) return paBadStreamPtr;
  if( s->started ) return paStreamIsNotStopped;
  if( fake::pa().failStart ) return paUnanticipatedHostError;
  if( s->th.joinable() ) s->th.join();
  s->started = true; s->active = true; s->quit = false;
  if( fake::pa().threaded ) s->th = std::thread( [s] { while( !s->quit && s->active ) { fake::pa().block( *s ); std::this_thread::yield(); } } );
  return paNoError;
}
PaError Pa_StopStream( PaStream * p )
{
  fake::PaStreamState * s = fake::paStream( p, "Pa_StopStream" );
  if( !s ) return paBadStreamPtr;
  if( !s->started ) return paStreamIsStopped;
  fake::paHalt( *s ); return paNoError;
}
PaError Pa_AbortStream( PaStream * p ) { return Pa_StopStream( p ); }
PaError Pa_CloseStream( PaStream * p )
{
  fake::PaStreamState * s = fake::paStream( p, "Pa_CloseStream" );
  if( !s ) return paBadStreamPtr;
  fake::paHalt( *s ); s->open = false; return paNoError;
}
PaError Pa_IsStreamStopped( PaStream * p ) { fake::PaStreamState * s = fake::paStream( p, "Pa_IsStreamStopped" ); return s ? ( s->started ? 0 : 1 ) : static_cast<int>( paBadStreamPtr ); }
PaError Pa_IsStreamActive( PaStream * p ) { fake::PaStreamState * s = fake::paStream( p, "Pa_IsStreamActive" ); return s ? ( s->active ? 1 : 0 ) : static_cast<int>( paBadStreamPtr ); }
}

// ---------------------------------------------------------------- Jack
struct _jack_port
{
  std::string name; unsigned long flags = 0; _jack_client * owner = nullptr; bool alive = true;
  std::unique_ptr<float[]> buf; std::size_t frames = 0; std::set<_jack_port *> conn;
};
struct _jack_client
{
  std::string name; bool open = true, active = false;
  JackProcessCallback proc = nullptr; void * procArg = nullptr;
  JackBufferSizeCallback bs = nullptr; void * bsArg = nullptr;
  JackShutdownCallback down = nullptr; void * downArg = nullptr;
  JackXRunCallback xrun = nullptr; void * xrunArg = nullptr;
  std::thread th; std::atomic<bool> quit{ false }; std::atomic<int> failures{ 0 };
  long cycles = 0;
};
namespace fake
{
struct Jack
{
  jack_nframes_t rate = 48000, frames = 1024;
  int failStatus = 0, failPort = -1; bool failProc = false, failActivate = false, failSize = false, threaded = false;
  std::vector<std::unique_ptr<_jack_client>> clients; std::vector<std::unique_ptr<_jack_port>> ports;
  std::string lastServer; int registered = 0;
  std::function<void( _jack_client &, Sound & )> capture;                 // fills the physical capture channels
  std::function<void( _jack_client &, Sound const &, int )> played;       // sees the physical playback channels
  std::vector<_jack_port *> physIn, physOut;
  std::vector<std::vector<_jack_port *>> sources;                         // the ports whose sum each playback channel got in this cycle
  std::function<void( _jack_client & )> filled;                           // called under the table lock when the input buffers are filled
  void reset() { for( auto & c : clients ) if( c->th.joinable() ) { c->quit = true; c->th.join(); } *this = Jack(); }
  int openClients() const { int n = 0; for( auto & c : clients ) n += c->open; return n; }
  int livePorts() const { int n = 0; for( auto & p : ports ) n += p->alive && p->owner; return n; }
  _jack_port * find( std::string const & n ) { for( auto & p : ports ) if( p->alive && p->name == n ) return p.get(); return nullptr; }
  _jack_port * add( _jack_client * c, std::string const & n, unsigned long flags )
  { ports.emplace_back( new _jack_port() ); auto & p = *ports.back(); p.name = n; p.flags = flags; p.owner = c; return &p; }
  void physical( std::string const & client, std::string const & base, int first, int n, bool capturePorts )
  {
    for( int i = 0; i < n; ++i )
      ( capturePorts ? physIn : physOut ).push_back( add( nullptr, client + ":" + base + std::to_string( first + i ), JackPortIsPhysical | ( capturePorts ? JackPortIsOutput : JackPortIsInput ) ) );
  }
  void drop( _jack_port & p ) { for( auto * o : p.conn ) o->conn.erase( &p ); p.conn.clear(); }
  // One cycle of the server for one active client.
  int cycle( _jack_client & c )
  {
    Sound in( physIn.size(), std::vector<float>( frames ) ), out( physOut.size(), std::vector<float>( frames, 0.f ) );
    if( capture ) capture( c, in );
    std::vector<_jack_port *> mine;
    {
      std::lock_guard<std::mutex> l( tableMutex() );
      for( auto & p : ports ) { if( !p->buf || p->frames != frames ) { p->buf.reset( new float[frames] ); p->frames = frames; } }
      for( std::size_t i = 0; i < physIn.size(); ++i ) std::copy( in[i].begin(), in[i].end(), physIn[i]->buf.get() );
      for( auto & p : ports ) if( p->alive && p->owner == &c )
      {
        if( p->flags & JackPortIsInput )
        {
          std::fill( p->buf.get(), p->buf.get() + frames, 0.f );
          for( auto * s : p->conn ) for( std::size_t k = 0; k < frames; ++k ) p->buf[k] += s->buf[k];
        }
        else std::fill( p->buf.get(), p->buf.get() + frames, 0.f );
      }
      if( filled ) filled( c );
    }
    int res = 0;
    if( c.proc )
    {
      try { res = c.proc( frames, c.procArg ); }
      catch( ... ) { std::lock_guard<std::mutex> l( tableMutex() ); misuse( "an exception left the process callback" ); res = 1; }
    }
    {
      std::lock_guard<std::mutex> l( tableMutex() );
      sources.assign( physOut.size(), {} );
      for( std::size_t i = 0; i < physOut.size(); ++i ) sources[i].assign( physOut[i]->conn.begin(), physOut[i]->conn.end() );
      for( std::size_t i = 0; i < physOut.size(); ++i ) for( auto * s : physOut[i]->conn ) if( s->buf ) for( std::size_t k = 0; k < frames; ++k ) out[i][k] += s->buf[k];
    }
    ++c.cycles; if( res ) ++c.failures;
    if( played ) played( c, out, res );
    return res;
  }
  void run( int n ) { for( int i = 0; i < n; ++i ) for( std::size_t k = 0; k < clients.size(); ++k ) if( clients[k]->open && clients[k]->active ) if( cycle( *clients[k] ) ) clients[k]->active = false; }
};
inline Jack & jk() { static Jack j; return j; }
inline bool jackClient( jack_client_t * c, char const * what )
{
  for( auto & p : jk().clients ) if( p.get() == c ) { if( p->open ) return true; misuse( std::string( what ) + " on a closed client" ); return false; }
  misuse( std::string( what ) + " on a pointer that is no client" ); return false;
}
inline bool jackPort( jack_port_t * c, char const * what, bool note = true )
{
  for( auto & p : jk().ports ) if( p.get() == c ) { if( p->alive ) return true; if( note ) misuse( std::string( what ) + " on an unregistered port" ); return false; }
  if( note ) misuse( std::string( what ) + " on a pointer that is no port" ); return false;
}
inline void jackHalt( _jack_client & c ) { c.quit = true; if( c.th.joinable() ) c.th.join(); c.active = false; }
} // namespace fake

extern "C" {
jack_client_t * jack_client_open( const char * name, jack_options_t options, jack_status_t * status, ... )
{
  fake::Jack & j = fake::jk(); int st = j.failStatus;
  if( options & JackServerName ) { va_list ap; va_start( ap, status ); char const * s = va_arg( ap, char const * ); j.lastServer = s ? s : "(null)"; va_end( ap ); }
  if( !st ) for( auto & c : j.clients ) if( c->open && c->name == name ) st = JackFailure | JackNameNotUnique;
  if( status ) *status = static_cast<jack_status_t>( st );
  if( st & JackFailure ) return nullptr;
  j.clients.emplace_back( new _jack_client() ); j.clients.back()->name = name;
  return j.clients.back().get();
}
int jack_client_close( jack_client_t * c )
{
  if( !fake::jackClient( c, "jack_client_close" ) ) return -1;
  fake::jackHalt( *c ); std::lock_guard<std::mutex> l( fake::tableMutex() );
  for( auto & p : fake::jk().ports ) if( p->alive && p->owner == c ) { fake::jk().drop( *p ); p->alive = false; }
  c->open = false; return 0;
}
int jack_set_process_callback( jack_client_t * c, JackProcessCallback cb, void * arg )
{
  if( !fake::jackClient( c, "jack_set_process_callback" ) || fake::jk().failProc ) return -1;
  if( c->active ) { fake::misuse( "callback set on an active client" ); return -1; }
  c->proc = cb; c->procArg = arg; return 0;
}
int jack_set_buffer_size_callback( jack_client_t * c, JackBufferSizeCallback cb, void * arg ) { if( !fake::jackClient( c, "jack_set_buffer_size_callback" ) ) return -1; c->bs = cb; c->bsArg = arg; return 0; }
int jack_set_sample_rate_callback( jack_client_t * c, JackSampleRateCallback, void * ) { return fake::jackClient( c, "jack_set_sample_rate_callback" ) ? 0 : -1; }
void jack_on_shutdown( jack_client_t * c, JackShutdownCallback cb, void * arg ) { if( fake::jackClient( c, "jack_on_shutdown" ) ) { c->down = cb; c->downArg = arg; } }
int jack_set_xrun_callback( jack_client_t * c, JackXRunCallback cb, void * arg ) { if( !fake::jackClient( c, "jack_set_xrun_callback" ) ) return -1; c->xrun = cb; c->xrunArg = arg; return 0; }
int jack_set_buffer_size( jack_client_t * c, jack_nframes_t n )
{
  if( !fake::jackClient( c, "jack_set_buffer_size" ) || fake::jk().failSize ) return -1;
  fake::jk().frames = n;
  if( c->bs ) c->bs( n, c->bsArg );
  return 0;
}
jack_nframes_t jack_get_sample_rate( jack_client_t * c ) { return fake::jackClient( c, "jack_get_sample_rate" ) ? fake::jk().rate : 0; }
jack_nframes_t jack_get_buffer_size( jack_client_t * c ) { return fake::jackClient( c, "jack_get_buffer_size" ) ? fake::jk().frames : 0; }
int jack_activate( jack_client_t * c )
{
  if( !fake::jackClient( c, "jack_activate" ) || fake::jk().failActivate ) return -1;
  if( c->active ) return 0;
  if( c->th.joinable() ) c->th.join();
  c->active = true; c->quit = false;
  if( fake::jk().threaded ) c->th = std::thread( [c] { while( !c->quit ) { if( fake::jk().cycle( *c ) ) break; std::this_thread::yield(); } } );
  return 0;
}
int jack_deactivate( jack_client_t * c )
{
  if( !fake::jackClient( c, "jack_deactivate" ) ) return -1;
  fake::jackHalt( *c ); std::lock_guard<std::mutex> l( fake::tableMutex() );
  for( auto & p : fake::jk().ports ) if( p->alive && p->owner == c ) fake::jk().drop( *p );
  return 0;
}
jack_port_t * jack_port_register( jack_client_t * c, const char * name, const char * type, unsigned long flags, unsigned long )
{
  if( !fake::jackClient( c, "jack_port_register" ) ) return nullptr;
  std::lock_guard<std::mutex> l( fake::tableMutex() );
  fake::Jack & j = fake::jk();
  if( std::string( type ) != JACK_DEFAULT_AUDIO_TYPE ) fake::misuse( "port of another type" );
  std::string const full = c->name + ":" + name;
  if( j.registered++ == j.failPort || j.find( full ) ) return nullptr;
  return j.add( c, full, flags );
}
int jack_port_unregister( jack_client_t * c, jack_port_t * p )
{
  if( !fake::jackClient( c, "jack_port_unregister" ) ) return -1;
  std::lock_guard<std::mutex> l( fake::tableMutex() );
  if( !fake::jackPort( p, "jack_port_unregister" ) ) return -1;
  fake::jk().drop( *p ); p->alive = false; return 0;
}
void * jack_port_get_buffer( jack_port_t * p, jack_nframes_t n )
{
  std::lock_guard<std::mutex> l( fake::tableMutex() );
  if( !fake::jackPort( p, "jack_port_get_buffer" ) ) return nullptr;
  if( n != fake::jk().frames ) fake::misuse( "jack_port_get_buffer for another number of frames" );
  if( !p->buf || p->frames != n ) { p->buf.reset( new float[n] ); p->frames = n; std::fill( p->buf.get(), p->buf.get() + n, 0.f ); }
  return p->buf.get();
}
int jack_connect( jack_client_t * c, const char * src, const char * dst )
{
  if( !fake::jackClient( c, "jack_connect" ) ) return -1;
  std::lock_guard<std::mutex> l( fake::tableMutex() );
  _jack_port * s = fake::jk().find( src ), * d = fake::jk().find( dst );
  if( !s || !d || !( s->flags & JackPortIsOutput ) || !( d->flags & JackPortIsInput ) ) return -1;
  if( ( s->owner && !s->owner->active ) || ( d->owner && !d->owner->active ) ) return -1;
  if( !s->conn.insert( d ).second ) return 17;
  d->conn.insert( s ); return 0;
}
int jack_disconnect( jack_client_t * c, const char * src, const char * dst )
{
  if( !fake::jackClient( c, "jack_disconnect" ) ) return -1;
  std::lock_guard<std::mutex> l( fake::tableMutex() );
  _jack_port * s = fake::jk().find( src ), * d = fake::jk().find( dst );
  if( !s || !d || !s->conn.erase( d ) ) return -1;
  d->conn.erase( s ); return 0;
}
int jack_port_disconnect( jack_client_t * c, jack_port_t * p )
{
  if( !fake::jackClient( c, "jack_port_disconnect" ) ) return -1;
  std::lock_guard<std::mutex> l( fake::tableMutex() );
  if( !fake::jackPort( p, "jack_port_disconnect" ) ) return -1;
  fake::jk().drop( *p ); return 0;
}
const char * jack_port_name( const jack_port_t * p ) { return p ? p->name.c_str() : nullptr; }
}
