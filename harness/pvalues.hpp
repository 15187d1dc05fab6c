// Random values of every parameter type, with an exact textual rendering used as equality.
#pragma once
#include "vh.hpp"
#include <complex>
#include <libpml/biquad_parameter.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/time_frequency_parameter.hpp>
#include <libpml/time_frequency_parameter_config.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <libpml/object_vector.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/channel_object.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/constants.hpp>
#include <memory>

namespace pv
{
using namespace visr;
using vh::Rng;

inline float rf( Rng & g ) { return static_cast<float>( g.range( -4096, 4096 ) ) / 16.0f; }
template<class T> struct Num { static T make( Rng & g ) { return static_cast<T>( rf( g ) ); } };
template<> struct Num<bool> { static bool make( Rng & g ) { return g.chance( 0.5 ); } };
template<> struct Num<unsigned> { static unsigned make( Rng & g ) { return static_cast<unsigned>( g.next() ); } };
template<> struct Num<int> { static int make( Rng & g ) { return static_cast<int>( g.next() ); } };
template<class T> struct Num<std::complex<T>> { static std::complex<T> make( Rng & g ) { T a = static_cast<T>( rf( g ) ); return { a, static_cast<T>( rf( g ) ) }; } };

struct Dims { std::size_t r, c, f; };

// One entry per parameter type: configuration, creation of a random value that fits it, rendering, in-place change.
struct Kind
{
  std::string name;
  ParameterType type;
  std::function<std::unique_ptr<ParameterConfigBase>( Dims const & )> config;
  std::function<std::unique_ptr<ParameterBase>( Rng &, Dims const & )> make;
  std::function<std::string( ParameterBase const & )> str;
};

template<class P, class C, class M, class S> Kind kind( std::string const & name, C cfg, M make, S str )
{
  Kind k;
  k.name = name;
  k.type = P::staticType();
  k.config = [cfg]( Dims const & d ) { return std::unique_ptr<ParameterConfigBase>( cfg( d ) ); };
  k.make = [make]( Rng & g, Dims const & d ) { return std::unique_ptr<ParameterBase>( make( g, d ) ); };
  k.str = [str]( ParameterBase const & p ) { return str( dynamic_cast<P const &>( p ) ); };
  return k;
}
inline ParameterConfigBase * emptyCfg( Dims const & ) { return new pml::EmptyParameterConfig(); }

template<class T> void scalars( std::vector<Kind> & v, char const * n )
{
  using P = pml::ScalarParameter<T>;
  v.push_back( kind<P>( vh::cat( "scalar ", n ), emptyCfg, []( Rng & g, Dims const & ) { return new P( Num<T>::make( g ) ); }, []( P const & p ) { return vh::cat( p.value() ); } ) );
}
template<class T> void arrays( std::vector<Kind> & v, char const * n )
{
  using V = pml::VectorParameter<T>; using M = pml::MatrixParameter<T>;
  v.push_back( kind<V>( vh::cat( "vector ", n ), []( Dims const & d ) { return new pml::VectorParameterConfig( d.c ); },
    []( Rng & g, Dims const & d ) { auto * p = new V( d.c, cVectorAlignmentSamples ); for( std::size_t i = 0; i < d.c; ++i ) p->data()[i] = Num<T>::make( g ); return p; },
    []( V const & p ) { std::string s = vh::cat( p.size(), ":" ); for( std::size_t i = 0; i < p.size(); ++i ) s += vh::cat( p[i], " " ); return s; } ) );
  v.push_back( kind<M>( vh::cat( "matrix ", n ), []( Dims const & d ) { return new pml::MatrixParameterConfig( d.r, d.c ); },
    []( Rng & g, Dims const & d ) { auto * p = new M( d.r, d.c, cVectorAlignmentSamples ); for( std::size_t i = 0; i < d.r; ++i ) for( std::size_t j = 0; j < d.c; ++j ) ( *p )( i, j ) = Num<T>::make( g ); return p; },
    []( M const & p ) { std::string s = vh::cat( p.numberOfRows(), "x", p.numberOfColumns(), ":" ); for( std::size_t i = 0; i < p.numberOfRows(); ++i ) for( std::size_t j = 0; j < p.numberOfColumns(); ++j ) s += vh::cat( p( i, j ), " " ); return s; } ) );
}
template<class T> void tfs( std::vector<Kind> & v, char const * n )
{
  using P = pml::TimeFrequencyParameter<T>;
  v.push_back( kind<P>( vh::cat( "tf ", n ), []( Dims const & d ) { return new pml::TimeFrequencyParameterConfig( d.c, d.r, d.f ); },
    []( Rng & g, Dims const & d ) { auto * p = new P( d.c, d.r, d.f, cVectorAlignmentSamples ); for( std::size_t f = 0; f < d.f; ++f ) for( std::size_t i = 0; i < d.r; ++i ) for( std::size_t j = 0; j < d.c; ++j ) p->at( f, i, j ) = Num<std::complex<T>>::make( g ); return p; },
    []( P const & p ) { std::size_t nf = p.numberOfChannels() ? p.numberOfFrames() : 0; std::string s = vh::cat( nf, "x", p.numberOfChannels(), "x", p.numberOfDftBins(), ":" ); for( std::size_t f = 0; f < nf; ++f ) for( std::size_t i = 0; i < p.numberOfChannels(); ++i ) for( std::size_t j = 0; j < p.numberOfDftBins(); ++j ) s += vh::cat( p.at( f, i, j ), " " ); return s; } ) );
}
template<class T> void biquads( std::vector<Kind> & v, char const * n )
{
  using P = pml::BiquadParameterMatrix<T>;
  v.push_back( kind<P>( vh::cat( "biquads ", n ), []( Dims const & d ) { return new pml::MatrixParameterConfig( d.r, d.c ); },
    []( Rng & g, Dims const & d ) { auto * p = new P( d.r, d.c ); for( std::size_t i = 0; i < d.r; ++i ) for( std::size_t j = 0; j < d.c; ++j ) for( int k = 0; k < 5; ++k ) ( *p )( i, j )[k] = Num<T>::make( g ); return p; },
    []( P const & p ) { std::string s = vh::cat( p.numberOfFilters(), "x", p.numberOfSections(), ":" ); for( std::size_t i = 0; i < p.numberOfFilters(); ++i ) for( std::size_t j = 0; j < p.numberOfSections(); ++j ) for( int k = 0; k < 5; ++k ) s += vh::cat( p( i, j )[k], " " ); return s; } ) );
}

inline std::vector<Kind> kinds()
{
  pml::initialiseParameterLibrary();
  std::vector<Kind> v;
  scalars<bool>( v, "bool" ); scalars<int>( v, "int" ); scalars<unsigned>( v, "unsigned" ); scalars<float>( v, "float" ); scalars<double>( v, "double" );
  scalars<std::complex<float>>( v, "cfloat" ); scalars<std::complex<double>>( v, "cdouble" );
  arrays<float>( v, "float" ); arrays<double>( v, "double" ); arrays<std::complex<float>>( v, "cfloat" ); arrays<std::complex<double>>( v, "cdouble" );
  tfs<float>( v, "float" ); tfs<double>( v, "double" );
  biquads<float>( v, "float" ); biquads<double>( v, "double" );
  {
    using P = pml::StringParameter;
    v.push_back( kind<P>( "string", emptyCfg, []( Rng & g, Dims const & ) { std::string s; for( long i = 0, n = g.range( 0, 40 ); i < n; ++i ) s += static_cast<char>( g.range( 32, 126 ) ); return new P( s ); }, []( P const & p ) { return vh::cat( p.size(), ":", p.str() ); } ) );
  }
  {
    using P = pml::SignalRoutingParameter;
    v.push_back( kind<P>( "signal routing", emptyCfg, []( Rng & g, Dims const & ) { auto * p = new P(); for( long i = 0, n = g.range( 0, 9 ); i < n; ++i ) p->addRouting( g.index( 8 ), g.index( 8 ) ); return p; },
      []( P const & p ) { std::string s; for( auto const & e : p ) s += vh::cat( e.input, "=", e.output, " " ); return s; } ) );
  }
  {
    using P = pml::FilterRoutingListParameter;
    v.push_back( kind<P>( "filter routings", emptyCfg, []( Rng & g, Dims const & ) { auto * p = new P(); for( long i = 0, n = g.range( 0, 9 ); i < n; ++i ) p->addRouting( g.index( 5 ), g.index( 5 ), g.index( 9 ), rf( g ) ); return p; },
      []( P const & p ) { std::string s; for( auto const & e : p ) s += vh::cat( e.inputIndex, ">", e.outputIndex, "@", e.filterIndex, "*", e.gainLinear, " " ); return s; } ) );
  }
  {
    using P = pml::FilterRoutingParameter;
    v.push_back( kind<P>( "filter routing", emptyCfg, []( Rng & g, Dims const & ) { return new P( g.index( 5 ), g.index( 5 ), g.index( 9 ), rf( g ) ); },
      []( P const & e ) { return vh::cat( e.inputIndex, ">", e.outputIndex, "@", e.filterIndex, "*", e.gainLinear ); } ) );
  }
  {
    using P = pml::SparseGainRoutingListParameter;
    v.push_back( kind<P>( "sparse gains", emptyCfg, []( Rng & g, Dims const & ) { auto * p = new P(); for( long i = 0, n = g.range( 0, 9 ); i < n; ++i ) p->addRouting( g.index( 12 ), g.index( 5 ), g.index( 9 ), rf( g ) ); return p; },
      []( P const & p ) { std::string s; for( auto const & e : p ) s += vh::cat( e.entryIndex, ":", e.rowIndex, ",", e.columnIndex, "*", e.gain, " " ); return s; } ) );
  }
  {
    using P = pml::SparseGainRoutingParameter;
    v.push_back( kind<P>( "sparse gain", emptyCfg, []( Rng & g, Dims const & ) { return new P( g.index( 5 ), g.index( 5 ), g.index( 9 ), rf( g ) ); },
      []( P const & e ) { return vh::cat( e.entryIndex, ":", e.rowIndex, ",", e.columnIndex, "*", e.gain ); } ) );
  }
  {
    using P = pml::InterpolationParameter;
    v.push_back( kind<P>( "interpolation", []( Dims const & d ) { return new pml::InterpolationParameterConfig( d.c ); }, []( Rng & g, Dims const & d ) {
      auto * p = new P( g.index( 9 ), d.c ); for( std::size_t i = 0; i < d.c; ++i ) { p->setIndex( i, g.index( 99 ) ); p->setWeight( i, rf( g ) ); } return p; },
      []( P const & p ) { return vh::cat( p.id(), vh::vec( p.indices() ), vh::vec( p.weights() ) ); } ) );
  }
  {
    using P = pml::IndexedStringType;
    v.push_back( kind<P>( "indexed string", emptyCfg, []( Rng & g, Dims const & ) { return new P( g.index( 99 ), vh::cat( "s", g.next() ) ); }, []( P const & p ) { return vh::cat( p.index(), p.value() ); } ) );
  }
  {
    using P = pml::IndexedVectorFloatType;
    v.push_back( kind<P>( "indexed float vector", emptyCfg, []( Rng & g, Dims const & ) { std::vector<float> x( g.index( 6 ) ); for( auto & e : x ) e = rf( g ); return new P( g.index( 99 ), x ); }, []( P const & p ) { return vh::cat( p.index(), vh::vec( p.value() ) ); } ) );
  }
  {
    using P = pml::IndexedVectorDoubleType;
    v.push_back( kind<P>( "indexed double vector", emptyCfg, []( Rng & g, Dims const & ) { std::vector<double> x( g.index( 6 ) ); for( auto & e : x ) e = rf( g ); return new P( g.index( 99 ), x ); }, []( P const & p ) { return vh::cat( p.index(), vh::vec( p.value() ) ); } ) );
  }
  {
    using P = pml::ListenerPosition;
    v.push_back( kind<P>( "listener", emptyCfg, []( Rng & g, Dims const & ) { auto * p = new P( rf( g ), rf( g ), rf( g ), rf( g ) / 100, rf( g ) / 100, rf( g ) / 100 ); p->setTimeNs( g.next() ); p->setFaceID( static_cast<unsigned>( g.index( 99 ) ) ); return p; },
      []( P const & p ) { auto q = p.orientationQuaternion(); return vh::cat( p.x(), " ", p.y(), " ", p.z(), " ", q.w(), " ", q.x(), " ", q.y(), " ", q.z(), " ", p.timeNs(), " ", p.faceID() ); } ) );
  }
  {
    using P = pml::ObjectVector;
    v.push_back( kind<P>( "objects", emptyCfg, []( Rng & g, Dims const & ) {
      auto * p = new P();
      for( long i = 0, n = g.range( 0, 5 ); i < n; ++i )
      {
        unsigned id = static_cast<unsigned>( g.index( 20 ) );
        if( g.chance( 0.5 ) ) { objectmodel::PointSource o( id ); o.setX( rf( g ) ); o.setY( rf( g ) ); o.setZ( rf( g ) ); o.setLevel( rf( g ) ); o.resetNumberOfChannels( 1 ); o.setChannelIndex( 0, static_cast<unsigned>( g.index( 64 ) ) ); p->insert( o ); }
        else { objectmodel::PlaneWave o( id ); o.setIncidenceAzimuth( rf( g ) ); o.setLevel( rf( g ) ); o.setPriority( static_cast<unsigned>( g.index( 9 ) ) ); o.resetNumberOfChannels( 1 ); o.setChannelIndex( 0, static_cast<unsigned>( g.index( 64 ) ) ); p->insert( o ); }
      }
      return p; },
      []( P const & p ) {
        std::string s = vh::cat( p.size(), ":" );
        for( objectmodel::Object const & o : p )
        {
          s += vh::cat( o.id(), " t", static_cast<int>( o.type() ), " l", o.level(), " p", o.priority(), " c", o.numberOfChannels() ? o.channelIndex( 0 ) : -1u );
          if( auto const * ps = dynamic_cast<objectmodel::PointSource const *>( &o ) ) s += vh::cat( " ", ps->x(), ",", ps->y(), ",", ps->z() );
          if( auto const * pw = dynamic_cast<objectmodel::PlaneWave const *>( &o ) ) s += vh::cat( " ", pw->incidenceAzimuth() );
          s += ";";
        }
        return s; } ) );
  }
  return v;
}
} // namespace pv
