// Drives one component as a top-level flow: audio blocks in and out, parameters through the flow's external ports.
#pragma once
#include "vh.hpp"
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <libvisr/component.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <memory>

namespace rig
{
using Block = std::vector<std::vector<float>>; // [channel][sample]
struct Rig
{
  std::unique_ptr<visr::rrl::AudioSignalFlow> flow;
  std::size_t B;
  std::string error;
  explicit Rig( visr::Component & c ): flow( new visr::rrl::AudioSignalFlow( c ) ), B( flow->period() ) {}
  std::size_t ins() const { return flow->numberOfCaptureChannels(); }
  std::size_t outs() const { return flow->numberOfPlaybackChannels(); }
  // One block; false if the flow reported a failure.
  bool process( Block const & in, Block & out )
  {
    std::vector<float const *> ip( ins() + 1 ); std::vector<float *> op( outs() + 1 );
    out.assign( outs(), std::vector<float>( B, -12345.f ) );
    for( std::size_t i = 0; i < ins(); ++i ) ip[i] = in[i].data();
    for( std::size_t i = 0; i < outs(); ++i ) op[i] = out[i].data();
    bool status = true;
    try { visr::rrl::AudioSignalFlow::processFunction( flow.get(), ip.data(), op.data(), status ); }
    catch( std::exception const & e ) { error = e.what(); return false; }
    return status;
  }
  template<class T> visr::pml::DoubleBufferingProtocol::OutputBase & db( char const * port )
  { return dynamic_cast<visr::pml::DoubleBufferingProtocol::OutputBase &>( flow->externalParameterReceivePort( port ) ); }
  // Publish a double-buffered value.
  template<class T> void publish( char const * port, T const & v )
  {
    auto & o = dynamic_cast<visr::pml::DoubleBufferingProtocol::OutputBase &>( flow->externalParameterReceivePort( port ) );
    dynamic_cast<T &>( o.data() ) = v;
    o.swapBuffers();
  }
  template<class T> void send( char const * port, T const & v )
  {
    auto & o = dynamic_cast<visr::pml::MessageQueueProtocol::OutputBase &>( flow->externalParameterReceivePort( port ) );
    std::unique_ptr<visr::ParameterBase> p( new T( v ) );
    o.enqueue( std::move( p ) );
  }
  template<class T> T & shared( char const * port )
  {
    auto & o = dynamic_cast<visr::pml::SharedDataProtocol::OutputBase &>( flow->externalParameterReceivePort( port ) );
    return dynamic_cast<T &>( o.data() );
  }
  // Receiving ends.
  visr::pml::DoubleBufferingProtocol::InputBase & dbOut( char const * port )
  { return dynamic_cast<visr::pml::DoubleBufferingProtocol::InputBase &>( flow->externalParameterSendPort( port ) ); }
  visr::pml::MessageQueueProtocol::InputBase & mqOut( char const * port )
  { return dynamic_cast<visr::pml::MessageQueueProtocol::InputBase &>( flow->externalParameterSendPort( port ) ); }
  visr::pml::SharedDataProtocol::InputBase & sdOut( char const * port )
  { return dynamic_cast<visr::pml::SharedDataProtocol::InputBase &>( flow->externalParameterSendPort( port ) ); }
};
template<class E> visr::pml::MatrixParameter<E> mtx( visr::efl::BasicMatrix<E> const & m )
{
  visr::pml::MatrixParameter<E> p( m.numberOfRows(), m.numberOfColumns() );
  for( std::size_t i = 0; i < m.numberOfRows(); ++i ) for( std::size_t j = 0; j < m.numberOfColumns(); ++j ) p( i, j ) = m( i, j );
  return p;
}
template<class E> visr::pml::VectorParameter<E> vct( visr::efl::BasicVector<E> const & v )
{
  visr::pml::VectorParameter<E> p( v.size(), 0 );
  for( std::size_t i = 0; i < v.size(); ++i ) p[i] = v[i];
  return p;
}
// Random audio: noise, impulses, silence, ramps.
inline std::vector<float> signal( vh::Rng & g, std::size_t n )
{
  std::vector<float> v( n, 0.f );
  switch( g.index( 5 ) )
  {
  case 0: break;
  case 1: v[g.index( n )] = 1.f; break;
  case 2: for( auto & x : v ) x = static_cast<float>( g.range( -8, 8 ) ); break;
  default: for( auto & x : v ) x = static_cast<float>( g.uni( -1, 1 ) );
  }
  return v;
}
} // namespace rig
