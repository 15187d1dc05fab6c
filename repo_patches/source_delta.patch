From a42095f8558525717ece7f62efe9286593ce4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 001/203] fix: internal routing of non-float audio demands no
 more alignment than the signal pool provides

---
 src/librrl/signal_routing_internal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librrl/signal_routing_internal.cpp b/src/librrl/signal_routing_internal.cpp
index a379abb..031ddab 100644
--- a/src/librrl/signal_routing_internal.cpp
+++ b/src/librrl/signal_routing_internal.cpp
@@ -57,7 +57,7 @@ void SignalRoutingInternal<SampleType>::process()
   for( std::size_t chIdx(0); chIdx < outputWidth; ++chIdx )
   {
     std::size_t const inIdx = mInputIndices[chIdx];
-    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize, cVectorAlignmentSamples );
+    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize, cVectorAlignmentBytes / sizeof( SampleType ) );
     if( res != efl::noError )
     {
       throw std::runtime_error( "rrl::SignalRoutingInternal: Copying of sample vector failed." );
-- 
2.43.0


From 76d1651dea4049d1e89b7d9bd7c6acb81b04c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 002/203] fix: internal signal routing supports the complex
 audio sample types like the other types

---
 src/librrl/signal_routing_internal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/librrl/signal_routing_internal.cpp b/src/librrl/signal_routing_internal.cpp
index 031ddab..29f888d 100644
--- a/src/librrl/signal_routing_internal.cpp
+++ b/src/librrl/signal_routing_internal.cpp
@@ -87,6 +87,8 @@ std::unique_ptr<AtomicComponent> createSignalRoutingComponent( AudioSampleType::
   case AudioSampleType::int16Id: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<int16_t>( context, name, parent, inputWidth, signalIndices ) );
   case AudioSampleType::uint32Id: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<uint32_t>( context, name, parent, inputWidth, signalIndices ) );
   case AudioSampleType::int32Id: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<int32_t>( context, name, parent, inputWidth, signalIndices ) );
+  case AudioSampleType::complexFloatId: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<std::complex<float> >( context, name, parent, inputWidth, signalIndices ) );
+  case AudioSampleType::complexDoubleId: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<std::complex<double> >( context, name, parent, inputWidth, signalIndices ) );
   default: throw std::invalid_argument( "createSignalRoutingComponent(): Sample type not supported.");
   }
 }
-- 
2.43.0


From ea41566560c59721895096699354a2b5cc8ce974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:25 +0000
Subject: [PATCH 003/203] fix: audio connections between different sample types
 are refused

---
 src/librrl/integrity_checking.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/librrl/integrity_checking.cpp b/src/librrl/integrity_checking.cpp
index e3ca1b4..1707742 100644
--- a/src/librrl/integrity_checking.cpp
+++ b/src/librrl/integrity_checking.cpp
@@ -151,6 +151,11 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
+      if( connection.first.port()->sampleType() != connection.second.port()->sampleType() )
+      {
+        messages << "The send and receive sample types of the audio connection " << connection.first << "->" << connection.second << " do not match." << std::endl;
+        result = false;
+      }
       (sendPortEntryIt->second)++;
       (receivePortEntryIt->second) ++;
     }
@@ -170,12 +175,6 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
-      if( recEntry.first.port()->sampleType() != recEntry.first.port()->sampleType() )
-      {
-        messages << "The send and receive sample types of the connection " << recEntry.first << "->" << recEntry.second << "do not match.\n";
-        result = false;
-        continue;
-      }
     }
 
     // Ths might be turned into a warning instead, but requiring the user to terminate all dangling outputs reduces potential modelling errors.
-- 
2.43.0


From ba47ddfed3d0b8efc7ade09fd61c0edcc5fa85eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 004/203] fix: every sender connected to a parameter
 placeholder takes part in the connection checks

---
 src/librrl/parameter_connection_map.cpp | 40 +++++++++++++++----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/librrl/parameter_connection_map.cpp b/src/librrl/parameter_connection_map.cpp
index 40c9f69..0d538cb 100644
--- a/src/librrl/parameter_connection_map.cpp
+++ b/src/librrl/parameter_connection_map.cpp
@@ -10,6 +10,9 @@
 
 #include <ciso646>
 #include <iostream>
+#include <set>
+#include <stdexcept>
+#include <vector>
 
 namespace visr
 {
@@ -107,27 +110,34 @@ ParameterConnectionMap resolvePlaceholders( ParameterConnectionMap const & fullC
     }
     else // The sender is a placeholder
     {
-      std::size_t const recursionLimit = fullConnections.size(); // Last line of defence against a closed loop in the flow.
-      std::size_t recursionCount = 1;
-
-      ParameterConnectionMap::const_iterator findIt = fullConnections.find( rawConnection.second );
-      for( ;; )
+      // Follow the connections back to the concrete senders. A placeholder can have several incoming connections, all of
+      // which take effect (or are rejected later, if the communication protocol does not admit them).
+      std::set<impl::ParameterPortBaseImplementation *> visitedPlaceholders{ rawConnection.second };
+      std::vector<impl::ParameterPortBaseImplementation *> pendingPlaceholders{ rawConnection.second };
+      while( not pendingPlaceholders.empty() )
       {
-        if( findIt == fullConnections.end() )
+        impl::ParameterPortBaseImplementation * const placeholder = pendingPlaceholders.back();
+        pendingPlaceholders.pop_back();
+        auto const senders = fullConnections.equal_range( placeholder );
+        if( senders.first == senders.second )
         {
           throw std::invalid_argument( "Unexpected error: unconnected receive port." );
         }
-
-        if( not isPlaceholderPort( findIt->second ) )
-        {
-          flatConnections.insert( std::make_pair( rawConnection.first, findIt->second ) );
-          break;
-        }
-        if( ++recursionCount >= recursionLimit )
+        for( auto senderIt = senders.first; senderIt != senders.second; ++senderIt )
         {
-          throw std::runtime_error( "Audio signal connections: closed loop detected in placeholder port connections." );
+          if( not isPlaceholderPort( senderIt->second ) )
+          {
+            flatConnections.insert( std::make_pair( rawConnection.first, senderIt->second ) );
+          }
+          else if( visitedPlaceholders.insert( senderIt->second ).second )
+          {
+            pendingPlaceholders.push_back( senderIt->second );
+          }
+          else
+          {
+            throw std::runtime_error( "Parameter connections: closed loop or ambiguous path detected in placeholder port connections." );
+          }
         }
-        findIt = fullConnections.find( findIt->second );
       }
     }
   }
-- 
2.43.0


From 916fc84e89b8e8f12492494fd7acd313d69984c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 005/203] fix: the buffer adapter honours the playback sample
 stride for every chunk of a call

---
 src/librrl/flexible_buffer_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 48dffc4..d00694f 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -158,7 +158,7 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
 
     SampleType const * readPtr =
         mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
-    SampleType * outputWritePtr = playbackSamples + processedFrames;
+    SampleType * outputWritePtr = playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
-- 
2.43.0


From bdc4a01eed9a1b30cb8262a01831d70b02c026f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:59 +0000
Subject: [PATCH 006/203] fix: the buffer adapter serves flows without capture
 or playback channels

---
 src/librrl/flexible_buffer_wrapper.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index d00694f..de33caf 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -84,8 +84,9 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      // Flows without inputs have no read position.
+      SampleType const * procInputPtr{ numCaptureChannels > 0
+          ? mInputBuffer.getReadPointer( 0, cInternalPeriod ) : nullptr };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -94,8 +95,8 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
       mOutputBufferLevel += cInternalPeriod;
     }
 
-    SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+    SampleType const * readPtr = numPlaybackChannels > 0
+        ? mOutputBuffer.getReadPointer( 0, mOutputBufferLevel ) : nullptr;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
@@ -146,8 +147,9 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      // Flows without inputs have no read position.
+      SampleType const * procInputPtr{ numCaptureChannels > 0
+          ? mInputBuffer.getReadPointer( 0, cInternalPeriod ) : nullptr };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -156,8 +158,8 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
       mOutputBufferLevel += cInternalPeriod;
     }
 
-    SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+    SampleType const * readPtr = numPlaybackChannels > 0
+        ? mOutputBuffer.getReadPointer( 0, mOutputBufferLevel ) : nullptr;
     SampleType * outputWritePtr = playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
-- 
2.43.0


From 0d580f1bc300ceb281a01eb7383cbb5fb8c4774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 007/203] fix: the profiler reads its sample count only under
 the exchange lock

---
 src/librrl/runtime_profiler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librrl/runtime_profiler.cpp b/src/librrl/runtime_profiler.cpp
index 49baa03..2878e70 100644
--- a/src/librrl/runtime_profiler.cpp
+++ b/src/librrl/runtime_profiler.cpp
@@ -257,13 +257,14 @@ void RuntimeProfiler::getMean( efl::BasicVector<TimeType> & val ) const
   {
     throw std::invalid_argument( "Return value buffer has wrong size." );
   }
+  std::lock_guard< AudioSignalFlow::ParameterExchangeMutexType > guard{
+    mFlow.parameterExchangeMutex() };
   if( mStatisticsSampleCounter < 1 )
   {
     val.fillValue( std::numeric_limits<TimeType>::quiet_NaN() );
   }
+  else
   {
-    std::lock_guard< AudioSignalFlow::ParameterExchangeMutexType > guard{
-    mFlow.parameterExchangeMutex() };
     val.copy( mRunningMean );
   }
 }
-- 
2.43.0


From bc30e8327775995c807cd5c3ceaaa41e07f25f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:54 +0000
Subject: [PATCH 008/203] fix: unaligned SIMD multiply-constant-add stores its
 four-element tail unaligned

---
 src/libefl/intel_x86_64/vector_multiply_add.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libefl/intel_x86_64/vector_multiply_add.cpp b/src/libefl/intel_x86_64/vector_multiply_add.cpp
index 0958bbb..5781847 100644
--- a/src/libefl/intel_x86_64/vector_multiply_add.cpp
+++ b/src/libefl/intel_x86_64/vector_multiply_add.cpp
@@ -410,7 +410,7 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
         __m128 mulRes = _mm_mul_ps( a, c );
         acc = _mm_add_ps( mulRes, acc );
 #endif
-    _mm_store_ps( y, acc );
+    _mm_storeu_ps( y, acc );
     y += 4;
   }
   while( cnt > 0 ) // Remaining scalar elements
-- 
2.43.0


From c214a2fdc53be71375f4a53811bd0c1d56cb8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:54 +0000
Subject: [PATCH 009/203] fix: single-element ramps meet in the middle when
 both or none of the end points are included

---
 src/libefl/reference/vector_functions_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libefl/reference/vector_functions_impl.hpp b/src/libefl/reference/vector_functions_impl.hpp
index 3455d68..63a5a3c 100644
--- a/src/libefl/reference/vector_functions_impl.hpp
+++ b/src/libefl/reference/vector_functions_impl.hpp
@@ -71,7 +71,10 @@ ErrorCode vectorRamp( T * const dest, std::size_t numElements, T startVal, T end
     {
       dest[0] = static_cast<T>(0.5f)*(startVal+endVal);
     }
-    dest[0] = startInclusive ? startVal : endVal;
+    else
+    {
+      dest[0] = startInclusive ? startVal : endVal;
+    }
     return noError;
   }
   std::size_t const numSteps = numElements + 1 - (startInclusive ? 1 : 0) - (endInclusive ? 1 : 0);
-- 
2.43.0


From 760ee2b1399ce88a4c314dcccc57eb3c6cbfa456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:24 +0000
Subject: [PATCH 010/203] fix: delay lines keep the additional samples the
 interpolator reads at the maximum delay

---
 src/librbbl/multichannel_delay_line.cpp |  5 ++++-
 src/librbbl/multichannel_delay_line.hpp | 11 ++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 4d9634b..75f7401 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -31,9 +31,12 @@ MultichannelDelayLine<SampleType>::MultichannelDelayLine( std::size_t numberOfCh
   , cSamplingFrequency( static_cast<SampleType>(samplingFrequency) )
   , cMaxDelaySamples( std::ceil( maxDelaySeconds * samplingFrequency ) )
   , cMethodDelayPolicy( methodDelayPolicy )
-  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples)+blockLength, alignment ) // Ideally this would include the implementation delay.
   , mInterpolator( FractionalDelayFactory<SampleType>::create( interpolationMethod, blockLength ) )
   , cMethodDelay( mInterpolator ? mInterpolator->methodDelay() : static_cast<SampleType>(0.0) )
+  // The interpolator reads up to twice the method delay beyond the nominal delay.
+  , mRingbuffer( numberOfChannels,
+                 static_cast<std::size_t>(cMaxDelaySamples) + static_cast<std::size_t>( std::ceil( 2 * cMethodDelay ) ) + blockLength,
+                 alignment )
 {
   if( not mInterpolator )
   {
diff --git a/src/librbbl/multichannel_delay_line.hpp b/src/librbbl/multichannel_delay_line.hpp
index cedeb4b..1a5694d 100644
--- a/src/librbbl/multichannel_delay_line.hpp
+++ b/src/librbbl/multichannel_delay_line.hpp
@@ -163,11 +163,6 @@ private:
    */
   MethodDelayPolicy const cMethodDelayPolicy;
 
-  /**
-   * Circular buffer holding the delayed values.
-   */
-  rbbl::CircularBuffer<SampleType> mRingbuffer;
-
   /**
    * The fractional delay algorihm object.
    * @note this needs to be a shared pointer, because the object is dynamically 
@@ -179,6 +174,12 @@ private:
    * The method delay (implementation delay) of the selected fractional delay algorithm in samples.
    */
   SampleType cMethodDelay;
+
+  /**
+   * Circular buffer holding the delayed values.
+   * @note The length depends on the method delay of the fractional delay algorithm.
+   */
+  rbbl::CircularBuffer<SampleType> mRingbuffer;
 };
 
 } // namespace rbbl
-- 
2.43.0


From 213961c4ccceb4ef4382d796d1df84c0c8563c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:24 +0000
Subject: [PATCH 011/203] fix: delay lines report the method delay, not the
 maximum delay

---
 src/librbbl/multichannel_delay_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 75f7401..ea8710f 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -62,13 +62,13 @@ std::size_t MultichannelDelayLine<SampleType>::blockLength() const
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySeconds() const
 {
-  return cMaxDelaySamples / cSamplingFrequency;
+  return cMethodDelay / cSamplingFrequency;
 }
 
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySamples() const
 {
-  return cMaxDelaySamples;
+  return cMethodDelay;
 }
 
 template< typename SampleType >
-- 
2.43.0


From 838b89d0d8d0031a9295861e7e51412041d079eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:24 +0000
Subject: [PATCH 012/203] fix: a delay or gain set within a transition starts
 from the values currently in effect

---
 src/librcl/delay_matrix.cpp | 2 +-
 src/librcl/delay_vector.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librcl/delay_matrix.cpp b/src/librcl/delay_matrix.cpp
index 5a27d7f..9576abf 100644
--- a/src/librcl/delay_matrix.cpp
+++ b/src/librcl/delay_matrix.cpp
@@ -176,7 +176,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index 7f4b999..ae4ea22 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -141,7 +141,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
-- 
2.43.0


From 7952270cfe0282a956d39a98a5a3eb526fce3260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:14 +0000
Subject: [PATCH 013/203] fix: delays at the limits of the admissible range are
 not refused because of rounding

---
 src/librbbl/multichannel_delay_line.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index ea8710f..76291ff 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -108,10 +108,13 @@ SampleType MultichannelDelayLine<SampleType>::
 adjustDelay( SampleType rawDelay ) const
 {
   rawDelay *= cSamplingFrequency; // Scale from seconds to samples.
-  if( rawDelay > cMaxDelaySamples )
+  // Delays at the limits of the admissible range might exceed it by rounding, e.g., within a transition.
+  SampleType const relativeTolerance = 4 * std::numeric_limits<SampleType>::epsilon();
+  if( rawDelay > cMaxDelaySamples * (1 + relativeTolerance) )
   {
     throw std::out_of_range( "LagrangeInterpolator::interpolate(): Delay exceeds the maximum admissible value." );
   }
+  rawDelay = std::min( rawDelay, cMaxDelaySamples );
   switch( cMethodDelayPolicy )
   {
     case MethodDelayPolicy::Add:
@@ -123,11 +126,11 @@ adjustDelay( SampleType rawDelay ) const
     case MethodDelayPolicy::Limit:
       return std::max( rawDelay - cMethodDelay, static_cast<SampleType>(0.0) );
     case MethodDelayPolicy::Reject:
-      if( rawDelay < cMethodDelay )
+      if( rawDelay < cMethodDelay * (1 - relativeTolerance) )
       {
         throw std::out_of_range( "LagrangeInterpolator::interpolate(): Delay is smaller than the method delay and the \"Reject\" strategy is selected." );
       }
-      return rawDelay - cMethodDelay;
+      return std::max( rawDelay - cMethodDelay, static_cast<SampleType>(0.0) );
   }
   throw std::logic_error( "LagrangeInterpolator::interpolate(): Unhandled method delay adjustment policy type" );
 }
-- 
2.43.0


From f033f5538a8da34d7af332b685ece7411132521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:12 +0000
Subject: [PATCH 014/203] fix: filter partitions are not dropped when the block
 length is not a multiple of the alignment

---
 src/librbbl/core_convolver_uniform.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index 42855b0..d232257 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -236,9 +236,10 @@ transformImpulseResponse( SampleType const * ir, std::size_t irLength, Frequency
     {
       // The following multiply calls assumes that the blocklength is a multiple of the alignment.
       // Multiply the the filter by the computed scaling constants to compensate for the FFT normalisation.
-      if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, std::min( mAlignment, alignment ) ) != efl::noError )
+      // The start of a partition is aligned only if the block length is a multiple of the alignment.
+      if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, 0 ) != efl::noError )
       {
-        std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
+        throw std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
       }
     }
     FrequencyDomainType * blockResult = result + partitionIdx * mDftRepresentationSizePadded;
-- 
2.43.0


From ebf088fe93ab909bcdec0e36c73663fc6ece2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:23 +0000
Subject: [PATCH 015/203] fix: removeRoutingEntry reports whether an entry was
 removed

---
 src/librbbl/crossfading_convolver_uniform.cpp  | 4 +---
 src/librbbl/multichannel_convolver_uniform.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 2747fcd..8ac8e3b 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -258,9 +258,7 @@ bool CrossfadingConvolverUniform< SampleType >::removeRoutingEntry(
     std::size_t inputIdx, std::size_t outputIdx )
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
-  auto const eraseRange = mRoutingTable.equal_range( testEntry );
-  mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return mRoutingTable.erase( testEntry ) > 0;
 }
 
 template< typename SampleType >
diff --git a/src/librbbl/multichannel_convolver_uniform.cpp b/src/librbbl/multichannel_convolver_uniform.cpp
index cd91426..9747a54 100644
--- a/src/librbbl/multichannel_convolver_uniform.cpp
+++ b/src/librbbl/multichannel_convolver_uniform.cpp
@@ -127,9 +127,7 @@ template< typename SampleType>
 bool MultichannelConvolverUniform<SampleType>::removeRoutingEntry( std::size_t inputIdx, std::size_t outputIdx )
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
-  auto const eraseRange = mRoutingTable.equal_range( testEntry );
-  mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return mRoutingTable.erase( testEntry ) > 0;
 }
 
 template< typename SampleType>
-- 
2.43.0


From b1c45712791b8478a5aec522e7ec5a60fdbe7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:47 +0000
Subject: [PATCH 016/203] fix: the crossfading convolver works for block
 lengths that are not a multiple of the alignment

---
 src/librbbl/crossfading_convolver_uniform.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 8ac8e3b..9f4fb9e 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -139,13 +139,15 @@ void CrossfadingConvolverUniform< SampleType >::processOutputs(
 
     std::size_t const outputAlignment =
         std::min( alignment, mCoreConvolver.alignment() );
-    std::size_t const coreAlignment = mCoreConvolver.alignment();
+    // The start of a ramp block is aligned only if the block length is a
+    // multiple of the alignment.
+    std::size_t const rampAlignment = 0;
 
     efl::ErrorCode res;
     std::size_t const rampBlock = mCurrentRampBlock[ routing.filterIdx ];
     if( ( res = efl::vectorMultiplyInplace(
               mCrossoverRamps.row( 0 ) + rampBlock * blockSize,
-              mTimeDomainTempOutput.row( 0 ), blockSize, coreAlignment ) ) !=
+              mTimeDomainTempOutput.row( 0 ), blockSize, rampAlignment ) ) !=
         efl::noError )
     {
       throw std::runtime_error(
@@ -154,7 +156,7 @@ void CrossfadingConvolverUniform< SampleType >::processOutputs(
     if( ( res = efl::vectorMultiplyAddInplace(
               mCrossoverRamps.row( 1 ) + rampBlock * blockSize,
               mTimeDomainTempOutput.row( 1 ), mTimeDomainTempOutput.row( 0 ),
-              blockSize, coreAlignment ) ) != efl::noError )
+              blockSize, rampAlignment ) ) != efl::noError )
     {
       throw std::runtime_error(
           "CrossfadingConvolver: Multiplication with fade-out ramp failed." );
-- 
2.43.0


From e99f521675eb7848d495ee3627f0b1505056692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:47 +0000
Subject: [PATCH 017/203] fix: the crossfading convolver refuses filter indices
 beyond its number of filters

---
 src/librbbl/crossfading_convolver_uniform.cpp | 14 ++++++++++++++
 src/librbbl/crossfading_convolver_uniform.hpp |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 9f4fb9e..64bc795 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -296,6 +296,13 @@ void CrossfadingConvolverUniform< SampleType >::setImpulseResponse(
 {
   // TODO: Avoid code duplication in setTransformedFilter().
 
+  if( filterIdx >= mMaxNumFilters )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setImpulseResponse(): Filter index exceeds "
+        "the admissible range." );
+  }
+
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
   std::size_t const newFilterIndex =
@@ -325,6 +332,13 @@ void CrossfadingConvolverUniform< SampleType >::setTransformedFilter(
     bool startTransition,
     std::size_t alignment )
 {
+  if( filterIdx >= mMaxNumFilters )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setTransformedFilter(): Filter index exceeds "
+        "the admissible range." );
+  }
+
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
   std::size_t const newFilterIndex =
diff --git a/src/librbbl/crossfading_convolver_uniform.hpp b/src/librbbl/crossfading_convolver_uniform.hpp
index 9aff0b0..2e76eac 100644
--- a/src/librbbl/crossfading_convolver_uniform.hpp
+++ b/src/librbbl/crossfading_convolver_uniform.hpp
@@ -112,7 +112,7 @@ public:
 
   std::size_t maxNumberOfFilterEntries() const
   {
-    return mCoreConvolver.maxNumberOfFilterEntries();
+    return mMaxNumFilters;
   }
 
   std::size_t maxFilterLength() const
-- 
2.43.0


From 1f44cdae96caf27d595a0f7868ff38ab3a1aff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:47 +0000
Subject: [PATCH 018/203] fix: filters loaded into the crossfading convolver
 become active whatever filter set was in use

---
 src/librbbl/crossfading_convolver_uniform.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 64bc795..8625be5 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -4,6 +4,7 @@
 
 #include <libefl/vector_functions.hpp>
 
+#include <algorithm>
 #include <complex>
 #include <stdexcept>
 
@@ -29,7 +30,7 @@ CrossfadingConvolverUniform< SampleType >::CrossfadingConvolverUniform(
                    blockLength,
                    maxFilterLength,
                    2 * maxFilterEntries,
-                   initialFilters,
+                   efl::BasicMatrix< SampleType >( alignment ),
                    alignment,
                    fftImplementation )
  , mMaxNumberOfRoutingPoints( maxRoutingPoints )
@@ -44,6 +45,7 @@ CrossfadingConvolverUniform< SampleType >::CrossfadingConvolverUniform(
  , mCurrentRampBlock( maxFilterEntries, mNumRampBlocks - 1 )
  , mCrossoverRamps( 2, blockLength * mNumRampBlocks, alignment )
 {
+  initFilters( initialFilters );
   initRoutingTable( initialRoutings );
   efl::ErrorCode ret;
   if( ( ret = efl::vectorRamp( mCrossoverRamps.row( 0 ), transitionSamples,
@@ -273,7 +275,17 @@ template< typename SampleType >
 void CrossfadingConvolverUniform< SampleType >::initFilters(
     efl::BasicMatrix< SampleType > const & newFilters )
 {
+  if( newFilters.numberOfRows() > mMaxNumFilters )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::initFilters(): The initializer exceeds "
+        "the maximum number of filter entries." );
+  }
   mCoreConvolver.initFilters( newFilters );
+  // The new filters are stored in the first filter set.
+  std::fill( mCurrentFilterOutput.begin(), mCurrentFilterOutput.end(), 0 );
+  std::fill( mCurrentRampBlock.begin(), mCurrentRampBlock.end(),
+             mNumRampBlocks - 1 );
 }
 
 template< typename SampleType >
-- 
2.43.0


From 23636896aaac50d910f488d81c189f2d4fd1722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:47 +0000
Subject: [PATCH 019/203] fix: replacing a filter without a new crossfade keeps
 the filter a running crossfade starts from

---
 src/librbbl/crossfading_convolver_uniform.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 8625be5..408ffc7 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -316,7 +316,9 @@ void CrossfadingConvolverUniform< SampleType >::setImpulseResponse(
   }
 
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
-  std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
+  // Without a new transition, the present target filter is replaced.
+  std::size_t const newFilterSet =
+      startTransition ? ( ( oldFilterSet == 0 ) ? 1 : 0 ) : oldFilterSet;
   std::size_t const newFilterIndex =
       ( newFilterSet == 0 ) ? filterIdx : filterIdx + mMaxNumFilters;
 
@@ -352,7 +354,9 @@ void CrossfadingConvolverUniform< SampleType >::setTransformedFilter(
   }
 
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
-  std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
+  // Without a new transition, the present target filter is replaced.
+  std::size_t const newFilterSet =
+      startTransition ? ( ( oldFilterSet == 0 ) ? 1 : 0 ) : oldFilterSet;
   std::size_t const newFilterIndex =
       ( newFilterSet == 0 ) ? filterIdx : filterIdx + mMaxNumFilters;
 
-- 
2.43.0


From e255396cbe1b7d7199b71e0ed908707a86b1c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:47 +0000
Subject: [PATCH 020/203] fix: the interpolating convolver provides the
 requested number of routing points and interpolated filters

---
 src/librbbl/interpolating_convolver_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/interpolating_convolver_uniform.cpp b/src/librbbl/interpolating_convolver_uniform.cpp
index d853546..dcca262 100644
--- a/src/librbbl/interpolating_convolver_uniform.cpp
+++ b/src/librbbl/interpolating_convolver_uniform.cpp
@@ -33,8 +33,8 @@ InterpolatingConvolverUniform< SampleType >::InterpolatingConvolverUniform(
        numberOfOutputs,
        blockLength,
        maxFilterLength,
-       maxFilterEntries,
        maxRoutingPoints,
+       maxRoutingPoints, // one interpolated filter for each routing point
        transitionSamples,
        initialRoutings,
        efl::BasicMatrix< SampleType >(
-- 
2.43.0


From 879a0c95497a4ac914b88f52d0cb337b4caa6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:18 +0000
Subject: [PATCH 021/203] fix: the FIR filter matrices drop a message they
 refuse instead of failing in every later block

---
 src/librcl/crossfading_fir_filter_matrix.cpp   |  4 ++--
 src/librcl/fir_filter_matrix.cpp               | 12 ++++++------
 src/librcl/interpolating_fir_filter_matrix.cpp |  9 ++++-----
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/librcl/crossfading_fir_filter_matrix.cpp b/src/librcl/crossfading_fir_filter_matrix.cpp
index 132d759..7a46d91 100644
--- a/src/librcl/crossfading_fir_filter_matrix.cpp
+++ b/src/librcl/crossfading_fir_filter_matrix.cpp
@@ -83,13 +83,13 @@ void CrossfadingFirFilterMatrix::process()
     {
       pml::IndexedValueParameter< std::size_t, std::vector< SampleType > > const
           newFilter = mSetFilterInput->front();
+      mSetFilterInput->pop();
 
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[ 0 ],
+        setFilter( newFilter.index(), newFilter.value().data(),
                    newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
diff --git a/src/librcl/fir_filter_matrix.cpp b/src/librcl/fir_filter_matrix.cpp
index 71acad3..3ba0b4c 100644
--- a/src/librcl/fir_filter_matrix.cpp
+++ b/src/librcl/fir_filter_matrix.cpp
@@ -80,12 +80,12 @@ void FirFilterMatrix::process()
     while( not mSetFilterInput->empty() )
     {
       pml::IndexedValueParameter<std::size_t, std::vector<SampleType> > const newFilter = mSetFilterInput->front();
+      mSetFilterInput->pop();
 
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[0], newFilter.value().size() );
-        mSetFilterInput->pop();
+        setFilter( newFilter.index(), newFilter.value().data(), newFilter.value().size() );
       }
       catch( std::exception const & ex )
       {
@@ -98,6 +98,7 @@ void FirFilterMatrix::process()
   if( mAllRoutingsInput and mAllRoutingsInput->changed() )
   {
     rbbl::FilterRoutingList const & routings{ mAllRoutingsInput->data() };
+    mAllRoutingsInput->resetChanged();
     try
     {
       setRoutings( routings );
@@ -106,22 +107,21 @@ void FirFilterMatrix::process()
     {
       status( StatusMessage::Error, "FirFilterMatrix: Error while resetting filter routings: ", ex.what() );
     }
-    mAllRoutingsInput->resetChanged();
   }
   if( mSingleRoutingInput )
   {
     while( not mSingleRoutingInput->empty() )
     {
+      rbbl::FilterRouting const entry{ mSingleRoutingInput->front() };
+      mSingleRoutingInput->pop();
       try
       {
-        rbbl::FilterRouting const & entry{ mSingleRoutingInput->front() };
         addRouting( entry );
       }
       catch( std::exception const & ex )
       {
         status( StatusMessage::Error, "FirFilterMatrix: Error while setting filter routing: ", ex.what() );      
-      }      
-      mSingleRoutingInput->pop();
+      }
     }
   }
   mConvolver->process( mInput.data(), mInput.channelStrideSamples(), 
diff --git a/src/librcl/interpolating_fir_filter_matrix.cpp b/src/librcl/interpolating_fir_filter_matrix.cpp
index f838f81..42d4f86 100644
--- a/src/librcl/interpolating_fir_filter_matrix.cpp
+++ b/src/librcl/interpolating_fir_filter_matrix.cpp
@@ -97,13 +97,13 @@ void InterpolatingFirFilterMatrix::process()
     {
       pml::IndexedValueParameter< std::size_t, std::vector< SampleType > > const
           newFilter = mSetFilterInput->front();
+      mSetFilterInput->pop();
 
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[ 0 ],
+        setFilter( newFilter.index(), newFilter.value().data(),
                    newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
@@ -122,13 +122,12 @@ void InterpolatingFirFilterMatrix::process()
   {
     while( not mInterpolantInput->empty() )
     {
+      rbbl::InterpolationParameter const param = mInterpolantInput->front();
+      mInterpolantInput->pop();
       try
       {
-        rbbl::InterpolationParameter const & param = mInterpolantInput->front();
-
         setInterpolant( param, true/*startTransition*/ );
         // Argument checking is done inside the method.
-        mInterpolantInput->pop();
       }
       catch( std::exception const & ex )
       {
-- 
2.43.0


From 4389d24fbed240919cd3c976d940f90692d573ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 022/203] fix: gain transitions work for block lengths that are
 not a multiple of the alignment

---
 src/librbbl/gain_fader.cpp | 11 +++++++++--
 src/librbbl/gain_fader.hpp |  5 +++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/gain_fader.cpp b/src/librbbl/gain_fader.cpp
index d8ef10d..2938db4 100644
--- a/src/librbbl/gain_fader.cpp
+++ b/src/librbbl/gain_fader.cpp
@@ -49,7 +49,7 @@ void GainFader<ElementType>::scale( ElementType const * input, ElementType * out
   efl::ErrorCode res;
   if( (res = efl::vectorRampScaling( input, mInterpolationRamp.data() + blockIndex * mBlockSize,
     output, startGain, endGain-startGain, mBlockSize, false/*accumulate*/,
-    mInterpolationRamp.alignmentElements() )) != efl::noError )
+    rampAlignment() )) != efl::noError )
   {
     throw std::runtime_error( detail::composeMessageString( "GainFader: Error during scaling operation: ", efl::errorMessage( res )));
   }
@@ -64,12 +64,19 @@ void GainFader<ElementType>::scaleAndAccumulate( ElementType const * input, Elem
   efl::ErrorCode res;
   if( (res = efl::vectorRampScaling( input, mInterpolationRamp.data() + blockIndex * mBlockSize,
     outputAcc, startGain, endGain-startGain, mBlockSize, true/*accumulate*/,
-    mInterpolationRamp.alignmentElements() )) != efl::noError )
+    rampAlignment() )) != efl::noError )
   {
     throw std::runtime_error( detail::composeMessageString( "GainFader: Error during scaling operation: ", efl::errorMessage( res )));
   }
 }
 
+template< typename ElementType >
+std::size_t GainFader< ElementType >::rampAlignment() const
+{
+  std::size_t const alignment = mInterpolationRamp.alignmentElements();
+  return ( ( alignment > 0 ) and ( mBlockSize % alignment == 0 ) ) ? alignment : 0;
+}
+
 template< typename ElementType >
 void GainFader< ElementType >::setupRamp( std::size_t blockSize,
                                           std::size_t interpolationSteps )
diff --git a/src/librbbl/gain_fader.hpp b/src/librbbl/gain_fader.hpp
index 0f8baad..b161e79 100644
--- a/src/librbbl/gain_fader.hpp
+++ b/src/librbbl/gain_fader.hpp
@@ -99,6 +99,11 @@ private:
   void setupRamp( std::size_t blockSize,
                   std::size_t interpolationSteps );
 
+  /**
+   * The alignment (in elements) that holds for the ramp section of every block.
+   */
+  std::size_t rampAlignment() const;
+
   /**
    * The number of samples processed in each invocation of process.
    */
-- 
2.43.0


From 20196ddca5bdbbd80da4b8a9b7d105315a48aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 023/203] fix: a gain set before the previous transition has
 begun starts from the gain in effect

---
 src/librbbl/gain_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/gain_matrix.cpp b/src/librbbl/gain_matrix.cpp
index eab873e..b7d091d 100644
--- a/src/librbbl/gain_matrix.cpp
+++ b/src/librbbl/gain_matrix.cpp
@@ -126,7 +126,7 @@ void GainMatrix<ElementType>::setGainsInternal( efl::BasicMatrix<ElementType> co
   {
     mPreviousGains.swap( mNextGains );
   }
-  else // previous transition is not yet complete.
+  else if( mInterpolationCounter > 0 ) // previous transition is not yet complete (if it has not begun, the previous gains are still in effect).
   {
     // Set the previous gains according to the currently reached interpolation ratio.
     ElementType const ratio = std::min( static_cast<ElementType>(1.0),
-- 
2.43.0


From 66aba3676cd0819cb133a9faeb6ba255aa0179d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 024/203] fix: the gain vector refuses initial gains of a
 different size

---
 src/librcl/gain_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 97bad89..0e9c848 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -47,6 +47,10 @@ void GainVector::setup( std::size_t numberOfChannels,
                           bool controlInputs,
                           efl::BasicVector< SampleType > const & initialGainsLinear )
 {
+  if( initialGainsLinear.size() != numberOfChannels )
+  {
+    throw std::invalid_argument( "GainVector::setup(): The number of initial gains does not match the number of channels." );
+  }
   mNumberOfChannels = numberOfChannels;
   mInput.setWidth(numberOfChannels);
   mOutput.setWidth(numberOfChannels);
-- 
2.43.0


From d2dab4398a072eb3c142c4831b6d7c5b81e51592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 025/203] fix: a gain vector changed within a transition starts
 from the gains in effect

---
 src/librcl/gain_vector.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 0e9c848..db1895f 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -107,10 +107,23 @@ void GainVector::setGain( efl::BasicVector< SampleType > const & newGains )
     throw std::invalid_argument("GainVector::setGain(): The number of elements in the argument does not match the number of channels.");
   }
 
-  // Copy the current gain value to the previous gain value.
-  if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+  // The new transition starts from the gains currently in effect.
+  std::size_t const interpolationSamples = mFader->interpolationSamples();
+  std::size_t const elapsedSamples = mInterpolationCounter * period();
+  if( elapsedSamples >= interpolationSamples )
   {
-    throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
+    if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+    {
+      throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
+    }
+  }
+  else
+  {
+    SampleType const ratio = static_cast<SampleType>( elapsedSamples ) / static_cast<SampleType>( interpolationSamples );
+    for( std::size_t chIdx( 0 ); chIdx < mNumberOfChannels; ++chIdx )
+    {
+      mCurrentGains[chIdx] += ratio * (mNextGains[chIdx] - mCurrentGains[chIdx]);
+    }
   }
 
   if (efl::vectorCopy(newGains.data(), mNextGains.data(), mNumberOfChannels) != efl::noError)
-- 
2.43.0


From 450a4197352fdf1c08c03d7c20c9710da2b192bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 026/203] fix: sparse gain matrix transitions start from the
 gains in effect and refused routings are dropped

---
 src/librcl/sparse_gain_matrix.cpp | 41 +++++++++++++++++++++++++------
 src/librcl/sparse_gain_matrix.hpp | 10 ++++++++
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/librcl/sparse_gain_matrix.cpp b/src/librcl/sparse_gain_matrix.cpp
index 7a2e044..e2acb81 100644
--- a/src/librcl/sparse_gain_matrix.cpp
+++ b/src/librcl/sparse_gain_matrix.cpp
@@ -49,6 +49,7 @@ SparseGainMatrix::SparseGainMatrix( SignalFlowContext const & context,
   mPreviousGains.fillValue( 0.0f);
   mNextGains.fillValue( 0.0f );
 
+  checkRoutings( initialRoutings );
   setRoutings( initialRoutings );
 }
 
@@ -56,10 +57,11 @@ void SparseGainMatrix::process()
 {
   if( mRoutingListInput and mRoutingListInput->changed() )
   {
-    mPreviousGains.swap( mNextGains );
-    setRoutings( mRoutingListInput->data() );
-    mRampIndex = 0;
-    mRoutingListInput->resetChanged();
+    mRoutingListInput->resetChanged(); // A list that is refused must not be applied again in the next block.
+    pml::SparseGainRoutingListParameter const & newRoutings = mRoutingListInput->data();
+    checkRoutings( newRoutings );
+    startTransition();
+    setRoutings( newRoutings );
   }
   if( mRoutingPointInput )
   {
@@ -73,9 +75,8 @@ void SparseGainMatrix::process()
   if( mGainInput and mGainInput->changed() )
   {
     pml::VectorParameter<SampleType> const & newGains = mGainInput->data();
-    mNextGains.swap( mPreviousGains );
+    startTransition();
     mNextGains.assign( newGains );
-    mRampIndex = 0;
     mGainInput->resetChanged();
   }
 
@@ -93,7 +94,26 @@ void SparseGainMatrix::process()
   mRampIndex = std::min( mRampIndex+1, mGainRamp.interpolationPeriods() );
 }
 
-void SparseGainMatrix::setRoutings( rbbl::SparseGainRoutingList const & newRoutings )
+void SparseGainMatrix::startTransition()
+{
+  std::size_t const interpolationSamples = mGainRamp.interpolationSamples();
+  std::size_t const elapsedSamples = mRampIndex * period();
+  if( elapsedSamples >= interpolationSamples )
+  {
+    mPreviousGains.assign( mNextGains );
+  }
+  else
+  {
+    SampleType const ratio = static_cast<SampleType>( elapsedSamples ) / static_cast<SampleType>( interpolationSamples );
+    for( std::size_t entryIdx( 0 ); entryIdx < mNumRoutingPoints; ++entryIdx )
+    {
+      mPreviousGains[entryIdx] += ratio * (mNextGains[entryIdx] - mPreviousGains[entryIdx]);
+    }
+  }
+  mRampIndex = 0;
+}
+
+void SparseGainMatrix::checkRoutings( rbbl::SparseGainRoutingList const & newRoutings )
 {
   std::size_t const numInputs{ mInput.width() };
   std::size_t const numOutputs{ mOutput.width() };
@@ -112,6 +132,13 @@ void SparseGainMatrix::setRoutings( rbbl::SparseGainRoutingList const & newRouti
     {
       status( StatusMessage::Error, "Column index '", r.columnIndex, "' exceeds number of input channels (", numInputs, ")." );
     }
+  }
+}
+
+void SparseGainMatrix::setRoutings( rbbl::SparseGainRoutingList const & newRoutings )
+{
+  for( auto r : newRoutings )
+  {
     mNextGains[ r.entryIndex ] = r.gain;
   }
   mRoutings = newRoutings;
diff --git a/src/librcl/sparse_gain_matrix.hpp b/src/librcl/sparse_gain_matrix.hpp
index c50f0a1..d38070f 100644
--- a/src/librcl/sparse_gain_matrix.hpp
+++ b/src/librcl/sparse_gain_matrix.hpp
@@ -84,6 +84,16 @@ public:
   void process( ) override;
 
 private:
+  /**
+   * Start a new transition from the gains currently in effect.
+   */
+  void startTransition();
+
+  /**
+   * Check a routing list, throws an exception if it contains an inadmissible index.
+   */
+  void checkRoutings( rbbl::SparseGainRoutingList const & newRoutings );
+
   void setRoutings( rbbl::SparseGainRoutingList const & newRoutings );
 
   efl::BasicVector<SampleType> mPreviousGains;
-- 
2.43.0


From f9079a2c1d0ff97673722dd3044dbf0a664ced72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 027/203] fix: signal routing with an initial routing provides
 the requested control input

---
 src/librcl/signal_routing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index 9886466..e1a0ae1 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -40,7 +40,7 @@ void SignalRouting::setup( std::size_t inputWidth,
                            pml::SignalRoutingParameter const & initialRouting,
                            bool controlPort /*= false*/)
 {
-  setup( inputWidth, outputWidth );
+  setup( inputWidth, outputWidth, controlPort );
   for( auto e : initialRouting )
   {
     pml::SignalRoutingParameter::IndexType const in = e.input;
-- 
2.43.0


From 1f8cefd1e6284c8e4789769c79b93e0ca860ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 028/203] fix: signal routing refuses the invalid input index

---
 src/librcl/signal_routing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index e1a0ae1..50ff826 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -129,7 +129,7 @@ void SignalRouting::checkRoutingIndexRanges( pml::SignalRoutingParameter::IndexT
 {
   // it is legal to have an cInvalidIndex value as input - this is the same as 
   // having no routing for this output
-  if( (in != pml::SignalRoutingParameter::cInvalidIndex) and( in >= mInput.width() ) )
+  if( in >= mInput.width() )
   {
     throw std::invalid_argument( "SignalRouting: routing specification with invalid input index." );
   }
-- 
2.43.0


From 238ee569df9c62401993a3f24fd186e5e820952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 029/203] fix: a refused signal routing list leaves the
 routings unchanged

---
 src/librcl/signal_routing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index 50ff826..a1114ce 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -102,14 +102,15 @@ void SignalRouting::process()
 
 void SignalRouting::setRouting( pml::SignalRoutingParameter const & newRouting )
 {
-  mRoutings.clear();
+  RoutingTable tmpRouting;
   for( auto e : newRouting )
   {
     pml::SignalRoutingParameter::IndexType const in = e.input;
     pml::SignalRoutingParameter::IndexType const out = e.output;
     checkRoutingIndexRanges( in, out );
-    mRoutings.insert( std::make_tuple(out,in ) );
+    tmpRouting.insert( std::make_tuple(out,in ) );
   }
+  mRoutings.swap( tmpRouting ); // strong exception safety.
 }
 
 void SignalRouting::setRouting( pml::SignalRoutingParameter::IndexType in, pml::SignalRoutingParameter::IndexType out )
-- 
2.43.0


From 89f9474f180819c05760f7228b2e0425c3c5ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 030/203] fix: inadmissible index sequences are reported by
 std::exception types and do not overflow

---
 src/librbbl/index_sequence.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/librbbl/index_sequence.cpp b/src/librbbl/index_sequence.cpp
index 6b9a782..c9a4fa8 100644
--- a/src/librbbl/index_sequence.cpp
+++ b/src/librbbl/index_sequence.cpp
@@ -51,7 +51,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const val = mStack[0];
         if( val < 0 )
         {
-          throw("IndexSequence: Indices must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: Indices must be greater or equal than zero." );
         }
         mContents.push_back( static_cast<IndexType>(val) );
         break;
@@ -62,7 +62,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[1];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         IndexType val = static_cast<IndexType>(mStack[0]);
         while( val <= static_cast<IndexType>(end) )
@@ -78,18 +78,18 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[2];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         if( inc == 0 )
         {
-          throw("IndexSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "IndexSequence: The increment of a range must not be zero." );
         }
-        int val = start;
+        long long val = start;
         if( inc > 0 )
         {
           while( val <= end )
           {
-            mContents.push_back( val );
+            mContents.push_back( static_cast<IndexType>(val) );
             val += inc;
           }
         }
@@ -97,7 +97,7 @@ IndexSequence::IndexSequence( std::string const & val )
         {
           while( val >= end )
           {
-            mContents.push_back( val );
+            mContents.push_back( static_cast<IndexType>(val) );
             val += inc;
           }
         }
-- 
2.43.0


From 7cacc017d338611e199eb5f5da3fd76c0f39229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 031/203] fix: float sequence ranges that cannot advance are
 refused instead of looping forever

---
 src/librbbl/float_sequence.cpp | 43 +++++++++++++++-------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index aa1df4b..f1b5481 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -74,12 +74,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
       }
       case 2:
       {
-        ElementType val = mStack[0];
-        ElementType const end = mStack[1];
-        while( val <= end )
-        {
-          mContents.push_back( val++ );
-        }
+        appendRange( mStack[0], static_cast<ElementType>(1.0), mStack[1] );
         break;
       }
       case 3:
@@ -90,25 +85,9 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
 
         if( std::abs(inc) < std::numeric_limits<ElementType>::epsilon() )
         {
-          throw("FloatSequence: The increment of a range must not be zero.");
-        }
-        ElementType val = start;
-        if( inc > 0 )
-        {
-          while( val <= end )
-          {
-            mContents.push_back( val );
-            val += inc;
-          }
-        }
-        else // inc < 0
-        {
-          while( val >= end )
-          {
-            mContents.push_back( val );
-            val += inc;
-          }
+          throw std::invalid_argument( "FloatSequence: The increment of a range must not be zero." );
         }
+        appendRange( start, inc, end );
         break;
       }
       default:
@@ -117,6 +96,22 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
       mStack.clear();
     }
 
+    void appendRange( ElementType start, ElementType inc, ElementType end )
+    {
+      if( not( std::isfinite( start ) and std::isfinite( inc ) and std::isfinite( end ) ) )
+      {
+        throw std::invalid_argument( "FloatSequence: The values of a range must be finite." );
+      }
+      for( ElementType val = start; inc > 0 ? val <= end : val >= end; val += inc )
+      {
+        if( val + inc == val )
+        {
+          throw std::invalid_argument( "FloatSequence: The increment is too small for the values of the range." );
+        }
+        mContents.push_back( val );
+      }
+    }
+
     std::vector<ElementType> mStack;
     ContainerType mContents;
   };
-- 
2.43.0


From 4e5aef7429e57bb9bbae46bfa5aa0dfa5bafe75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 032/203] fix: float sequences are parsed with the precision of
 their element type

---
 src/librbbl/float_sequence.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index f1b5481..4d4cbee 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -121,7 +121,8 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
   // TODO: find a workaround around this likely GCC compiler bug which
   // prevents us from using the completely type-correct version.
   // auto const atom = ((qi::real_parser<typename ElementType>()[boost::bind( &ParseState::push, &state, _1 )] % qi::char_( ":" ))[boost::bind( &ParseState::finish, &state )] % (qi::char_( ',' )));
-  auto const atom = boost::proto::deep_copy(((qi::float_[boost::bind( &ParseState::push, &state, _1 )] % qi::char_( ":" ))[boost::bind( &ParseState::finish, &state )] % (qi::char_( ',' ))));
+  qi::real_parser<ElementType> const number{};
+  auto const atom = boost::proto::deep_copy(((number[boost::bind( &ParseState::push, &state, _1 )] % qi::char_( ":" ))[boost::bind( &ParseState::finish, &state )] % (qi::char_( ',' ))));
   bool const parseRet = qi::phrase_parse( first, last, atom,
     qi::ascii::space );
 
-- 
2.43.0


From 78cf8ada29efec73cfb7c86b64b9dc81128f1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 033/203] fix: HOA orders whose number of channels overflows
 are refused

---
 src/libobjectmodel/hoa_source_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libobjectmodel/hoa_source_parser.cpp b/src/libobjectmodel/hoa_source_parser.cpp
index dc920e2..efffd12 100644
--- a/src/libobjectmodel/hoa_source_parser.cpp
+++ b/src/libobjectmodel/hoa_source_parser.cpp
@@ -24,7 +24,9 @@ parse( boost::property_tree::ptree const & tree, Object & src ) const
 
     // parse point source-specific data members
     HoaSource::Order const order = tree.get<HoaSource::Order>( "order" );
-    if( (order + 1) * (order + 1) != hoaSrc.numberOfChannels() )
+    std::size_t const numChannels = hoaSrc.numberOfChannels();
+    std::size_t const numHarmonics = static_cast<std::size_t>(order) + 1;
+    if( (numHarmonics > numChannels) or (numHarmonics * numHarmonics != numChannels) )
     {
       throw std::invalid_argument( "Number of channel signals differs from the value expected for thus HOA order." );
     }
-- 
2.43.0


From ff47054d832a1bcd45898f0825d029d64050b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 034/203] fix: channelLock() is false when no lock distance is
 set

---
 src/libobjectmodel/point_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source.cpp b/src/libobjectmodel/point_source.cpp
index 45a8bfd..6b5c23c 100644
--- a/src/libobjectmodel/point_source.cpp
+++ b/src/libobjectmodel/point_source.cpp
@@ -49,7 +49,7 @@ void PointSource::setZ( Coordinate newZ )
 
 bool PointSource::channelLock() const
 {
-  return mChannelLockDistance >= cNoChannelLock;
+  return mChannelLockDistance > cNoChannelLock;
 }
 
 PointSource::Coordinate PointSource::channelLockDistance() const
-- 
2.43.0


From da9eee12a761bf3fa59162120abb55771b16bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 035/203] fix: the encoding of a point source with extent
 contains the mandatory diffuseness

---
 src/libobjectmodel/point_source_extent_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_extent_parser.cpp b/src/libobjectmodel/point_source_extent_parser.cpp
index 3eb4de1..dda19fa 100644
--- a/src/libobjectmodel/point_source_extent_parser.cpp
+++ b/src/libobjectmodel/point_source_extent_parser.cpp
@@ -41,7 +41,7 @@ write( Object const & obj, boost::property_tree::ptree & tree ) const
   // note: cannot check for object type id since obj might be a subclass of PointSource
   PointSourceExtent const& pseObj = dynamic_cast<PointSourceExtent const&>(obj);
 
-  PointSourceParser::write( obj, tree );
+  PointSourceWithDiffusenessParser::write( obj, tree );
   tree.put<PointSource::Coordinate>( "width", pseObj.width() );
   tree.put<PointSource::Coordinate>( "height", pseObj.height() );
   tree.put<PointSource::Coordinate>( "depth", pseObj.depth() );
-- 
2.43.0


From 8b47b30c607f839fd7fb5f01ce44f08dddf142c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 036/203] fix: channel objects without channels can be encoded

---
 src/libobjectmodel/channel_object_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libobjectmodel/channel_object_parser.cpp b/src/libobjectmodel/channel_object_parser.cpp
index 2dfe62c..89d6bfb 100644
--- a/src/libobjectmodel/channel_object_parser.cpp
+++ b/src/libobjectmodel/channel_object_parser.cpp
@@ -149,10 +149,11 @@ std::ostream & operator<<( std::ostream & str, ChannelObject::OutputChannelList
 
 std::ostream & operator<<( std::ostream & str, ChannelObject::OutputChannelContainer const & outChannels )
 {
-  if( not outChannels.empty() )
+  if( outChannels.empty() )
   {
-    str << outChannels[0];
+    return str;
   }
+  str << outChannels[0];
   for( ChannelObject::OutputChannelContainer::const_iterator runIt( outChannels.begin() + 1 );
     runIt != outChannels.end(); ++runIt )
   {
-- 
2.43.0


From 95600257e94803ebb27ba081f6d9783e7d845a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 037/203] fix: ChannelObject::setOutputChannels() sets the
 given output channels

---
 src/libobjectmodel/channel_object.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libobjectmodel/channel_object.cpp b/src/libobjectmodel/channel_object.cpp
index 35ce389..a2ff134 100644
--- a/src/libobjectmodel/channel_object.cpp
+++ b/src/libobjectmodel/channel_object.cpp
@@ -68,6 +68,10 @@ void ChannelObject::setOutputChannels(OutputChannelId const * val, std::size_t n
   // TODO: Devise proper way to enforce class invariants between the channel count set by the base class and the output channel vector of this object.
   // TODO: Same problem for HOA objects.
   mOutputChannels.resize(numValues);
+  for( std::size_t idx( 0 ); idx < numValues; ++idx )
+  {
+    mOutputChannels[idx] = OutputChannelList( 1, val[idx] );
+  }
   // TODO: Define semanticvs (or remove method altogether.
   // std::copy( val, val + numValues, OutputChannelsPerInput( 1, mOutputChannels.begin() ) );
 }
-- 
2.43.0


From 83006b675da8688639f81cbcbfc3407996bbc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 038/203] fix: new objects have a defined level, priority and
 direction

---
 src/libobjectmodel/object.cpp     | 2 ++
 src/libobjectmodel/plane_wave.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/libobjectmodel/object.cpp b/src/libobjectmodel/object.cpp
index 5091e20..d853dac 100644
--- a/src/libobjectmodel/object.cpp
+++ b/src/libobjectmodel/object.cpp
@@ -29,6 +29,8 @@ namespace objectmodel
 Object::Object( ObjectId id )
  : mObjectId( id )
  , mGroupId( cDefaultGroupId )
+ , mLevel( static_cast<LevelType>(0.0) )
+ , mPriority( 0 )
 {
 }
 
diff --git a/src/libobjectmodel/plane_wave.cpp b/src/libobjectmodel/plane_wave.cpp
index 5e29668..f28e7fe 100644
--- a/src/libobjectmodel/plane_wave.cpp
+++ b/src/libobjectmodel/plane_wave.cpp
@@ -9,6 +9,9 @@ namespace objectmodel
 
 PlaneWave::PlaneWave( ObjectId id )
  : Object( id )
+ , mIncidenceAzimuth( static_cast<Direction>(0.0) )
+ , mIncidenceElevation( static_cast<Direction>(0.0) )
+ , mReferenceDistance( static_cast<Coordinate>(0.0) )
 {
 }
 
-- 
2.43.0


From 98f7c7019e8bd501e429a7b88998968d9dc29a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 039/203] fix: assigning an object vector to itself keeps its
 contents

---
 src/libobjectmodel/object_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libobjectmodel/object_vector.cpp b/src/libobjectmodel/object_vector.cpp
index 9854fdc..2d46ad7 100644
--- a/src/libobjectmodel/object_vector.cpp
+++ b/src/libobjectmodel/object_vector.cpp
@@ -25,6 +25,10 @@ ObjectVector& ObjectVector::operator=( ObjectVector && rhs ) = default;
 
 void ObjectVector::assign( ObjectVector const & rhs )
 {
+  if( this == &rhs )
+  {
+    return;
+  }
   mObjects.clear();
   for( ObjectContainer::value_type const & v : rhs.mObjects )
   {
-- 
2.43.0


From 30afabb9c3a52a0cdb9c1ff9cdca9952b1ec1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 040/203] fix: inserting an object that is contained in the
 vector is safe

---
 src/libobjectmodel/object_vector.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/libobjectmodel/object_vector.cpp b/src/libobjectmodel/object_vector.cpp
index 2d46ad7..345123f 100644
--- a/src/libobjectmodel/object_vector.cpp
+++ b/src/libobjectmodel/object_vector.cpp
@@ -64,12 +64,7 @@ Object & ObjectVector::at( ObjectId id )
 
 void ObjectVector::insert( Object const &  obj )
 {
-  ObjectContainer::iterator findIt = mObjects.find( obj.id() );
-  if( findIt != mObjects.end() )
-  {
-    mObjects.erase( findIt );
-  }
-  mObjects.insert( obj.clone() );
+  insert( obj.clone() ); // Clone first, because obj might be contained in this vector.
 }
 
 void ObjectVector::insert( std::unique_ptr<Object> &&  obj )
-- 
2.43.0


From 3d9452b48ce98d170fc5be674df082ceae8ab553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:51 +0000
Subject: [PATCH 041/203] fix: late reverb parameters can be constructed with
 default coefficients

---
 src/libobjectmodel/point_source_with_reverb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_with_reverb.cpp b/src/libobjectmodel/point_source_with_reverb.cpp
index 396a7f0..ba1e6d4 100644
--- a/src/libobjectmodel/point_source_with_reverb.cpp
+++ b/src/libobjectmodel/point_source_with_reverb.cpp
@@ -127,7 +127,7 @@ namespace // unnamed
   {
     std::fill( coeff.begin(), coeff.end(), defaultValue );
   }
-  if( initVal.size() == 1 )
+  else if( initVal.size() == 1 )
   {
     std::fill( coeff.begin(), coeff.end(), *(initVal.begin()) );
   }
-- 
2.43.0


From c909624d4f059ee31db98a3012accc32c34eea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:25 +0000
Subject: [PATCH 042/203] fix: an erroneous object message leaves the scene
 unchanged

---
 src/libobjectmodel/object_vector_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libobjectmodel/object_vector_parser.cpp b/src/libobjectmodel/object_vector_parser.cpp
index 8c7c982..8f43665 100644
--- a/src/libobjectmodel/object_vector_parser.cpp
+++ b/src/libobjectmodel/object_vector_parser.cpp
@@ -70,17 +70,21 @@ updateObjectVector( std::basic_istream<char> & message, ObjectVector & res )
     throw std::invalid_argument( std::string( "Error while parsing a json object message: " ) + ex.what() );
   }
 //  BOOST_FOREACH( ptree::value_type &v, propTree.get_child( "objects") )
+  // Apply the message to a copy, such that an erroneous message leaves the scene unchanged.
+  ObjectVector updated;
+  updated.assign( res );
   for( auto v: propTree.get_child( "objects") )
   {
     try
     {
-      parseObject( v.second, res );
+      parseObject( v.second, updated );
     }
     catch( std::exception const & ex )
     {
       throw std::invalid_argument( std::string( "Error while parsing the json message content: " ) + ex.what( ) );
     }
   }
+  updated.swap( res );
 }
 
 /*static*/ void ObjectVectorParser::
-- 
2.43.0


From a49a283f58ed44a8f9fa65ec26a64635178194fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:25 +0000
Subject: [PATCH 043/203] fix: an unlimited channel lock distance survives
 encoding and decoding

---
 src/libobjectmodel/point_source_parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_parser.cpp b/src/libobjectmodel/point_source_parser.cpp
index 4c1b1e2..9cf4172 100644
--- a/src/libobjectmodel/point_source_parser.cpp
+++ b/src/libobjectmodel/point_source_parser.cpp
@@ -33,7 +33,14 @@ parse( boost::property_tree::ptree const & tree, Object & src ) const
     pointSrc.setY( yPos );
     pointSrc.setZ( zPos );
 
-    pointSrc.setChannelLock( tree.get<PointSource::Coordinate>("channelLock", static_cast<PointSource::Coordinate>( 0.0 ) ) );
+    if( tree.get<std::string>( "channelLock", std::string() ) == "inf" ) // Encoding of an unlimited lock distance, not understood as a number.
+    {
+      pointSrc.setChannelLock();
+    }
+    else
+    {
+      pointSrc.setChannelLock( tree.get<PointSource::Coordinate>("channelLock", static_cast<PointSource::Coordinate>( 0.0 ) ) );
+    }
   }
   // TODO: distinguish between boost property_tree parse errors and bad dynamic casts.
   catch( std::exception const & ex )
-- 
2.43.0


From f0eed04e52d8355c9c5528c7419013b32c2e0928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:47 +0000
Subject: [PATCH 044/203] fix: the scene decoder applies every message to the
 scene published last

---
 src/librcl/scene_decoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/librcl/scene_decoder.cpp b/src/librcl/scene_decoder.cpp
index 5a8e730..c1b003b 100644
--- a/src/librcl/scene_decoder.cpp
+++ b/src/librcl/scene_decoder.cpp
@@ -29,14 +29,14 @@ SceneDecoder::~SceneDecoder()
 
 void SceneDecoder::process()
 {
-  objectmodel::ObjectVector & objects = mObjectVectorOutput.data();
   while( not mDatagramInput.empty() )
   {
     char const * nextMsg = mDatagramInput.front().str();
     try
     {
-      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, objects );
-      mObjectVectorOutput.swapBuffers();
+      // Retrieve the current buffer for each message, because swapBuffers() exchanges the buffers.
+      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, mObjectVectorOutput.data() );
+      mObjectVectorOutput.swapBuffers( true /* the next message updates the scene just published */ );
     }
     catch( std::exception const & ex )
     {
-- 
2.43.0


From 0a9a1b09b36813d8ad1a382aaeaf268258eb6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 045/203] fix: parametric IIR coefficient lists can be written
 as JSON

---
 src/librbbl/parametric_iir_coefficient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 38d5732..524cdbd 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -418,7 +418,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeJson( boost::property
   {
     boost::property_tree::ptree child;
     el.writeJson( child );
-    tree.add_child("", child ); // Adding unnamed childs creates a JSON array.
+    tree.push_back( std::make_pair( "", child ) ); // Adding unnamed childs creates a JSON array.
   }
 }
 
-- 
2.43.0


From e49b3eaabe3d3761c765314831c977332ad289a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 046/203] fix: writing a parametric IIR coefficient as JSON
 writes its content

---
 src/librbbl/parametric_iir_coefficient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 524cdbd..909781d 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -296,6 +296,7 @@ void ParametricIirCoefficient< CoefficientType >::writeJson( std::basic_ostream<
 {
   boost::property_tree::ptree tree;
   writeJson( tree );
+  boost::property_tree::write_json( stream, tree );
 }
 
 template< typename CoefficientType >
-- 
2.43.0


From fb9df607bf01d020ae3dbdb8033f0e7398939574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 047/203] fix: gain routing tables with index lists of
 different sizes are refused

---
 src/librbbl/sparse_gain_routing.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/sparse_gain_routing.cpp b/src/librbbl/sparse_gain_routing.cpp
index 6a5da9e..9dd636f 100644
--- a/src/librbbl/sparse_gain_routing.cpp
+++ b/src/librbbl/sparse_gain_routing.cpp
@@ -79,11 +79,7 @@ SparseGainRoutingList& SparseGainRoutingList::operator=( const SparseGainRouting
     std::size_t numEntries = entryIndices.size( );
     if( rowIndices.size( ) != numEntries )
     {
-      if( numEntries == 1 )
-      {
-        numEntries = entryIndices.size( );
-      }
-      else if( rowIndices.size( ) != 1 )
+      if( rowIndices.size( ) != 1 ) // The entry indices must be unique, that is, a scalar index denotes a single entry.
       {
         throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
       }
@@ -92,7 +88,7 @@ SparseGainRoutingList& SparseGainRoutingList::operator=( const SparseGainRouting
     // routings for the same (input,output) combination.
     if( columnIndices.size( ) != numEntries )
     {
-      if( (numEntries == 1) and( columnIndices.size( ) != 1 ) )
+      if( columnIndices.size( ) != 1 )
       {
         throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
       }
-- 
2.43.0


From 080eaf598befb7cb0c2d51019fbf66332c02f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 048/203] fix: filter routing tables with a filter list of a
 different size are refused

---
 src/librbbl/filter_routing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/filter_routing.cpp b/src/librbbl/filter_routing.cpp
index aa6d76d..09e2dfd 100644
--- a/src/librbbl/filter_routing.cpp
+++ b/src/librbbl/filter_routing.cpp
@@ -94,7 +94,7 @@ FilterRoutingList::FilterRoutingList( std::initializer_list<FilterRouting> const
     // routings for the same (input,output) combination.
     if( filterIndices.size( ) != numEntries )
     {
-      if( (numEntries == 1) and( filterIndices.size( ) != 1 ) )
+      if( filterIndices.size( ) != 1 )
       {
         throw std::invalid_argument( "FilterRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
       }
-- 
2.43.0


From f7814b63b5e12173f1289f8be33614a394653d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 049/203] fix: biquad matrices with rows of different sizes are
 refused

---
 src/librbbl/biquad_coefficient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index c2c512a..e535e9e 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -554,7 +554,7 @@ void BiquadCoefficientMatrix<CoeffType>::loadJson( boost::property_tree::ptree c
     assert( numBiquads != unInitMarker ); // Check that initialisation is performed during the first run.
     if( rowFilters.size() != numBiquads )
     {
-      std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
+      throw std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
     }
     setFilter( rowIdx, rowFilters );
   }
-- 
2.43.0


From 0c0a3137da2e2ca58addf52cb9d556b22531178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 050/203] fix: ListenerPosition::writeJson() honours the pretty
 print argument

---
 src/libpml/listener_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/listener_position.cpp b/src/libpml/listener_position.cpp
index 239173f..c43e710 100644
--- a/src/libpml/listener_position.cpp
+++ b/src/libpml/listener_position.cpp
@@ -395,7 +395,7 @@ std::string ListenerPosition::writeJson( RotationFormat rotationFormat,
                                          bool prettyPrint /*=false*/ ) const
 {
   std::stringstream stream;
-  writeJson( stream, rotationFormat );
+  writeJson( stream, rotationFormat, prettyPrint );
   return stream.str();
 }
 
-- 
2.43.0


From 259ee342377bc3df0b1c4619a9d9795f8ddbdf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 051/203] fix: BiquadCoefficientMatrix::setFilter() accepts
 empty filters

---
 src/librbbl/biquad_coefficient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index e535e9e..48a064a 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -469,8 +469,8 @@ void BiquadCoefficientMatrix<CoeffType>::setFilter( std::size_t filterIdx, Biqua
     throw std::invalid_argument( "BiquadCoefficientMatrix::setFilter(): The number index exceeds maximum admissible value." );
   }
   BiquadCoefficientList<CoeffType> & row = mRows[filterIdx];
-  std::copy( &newFilter[0], &newFilter[0] + newFilter.size(), &row[0] );
-  std::fill_n( &row[0] + newFilter.size(),
+  std::copy( newFilter.begin(), newFilter.end(), row.begin() );
+  std::fill_n( row.begin() + newFilter.size(),
     numberOfSections()
     - newFilter.size(), BiquadCoefficient<CoeffType>() );
 }
-- 
2.43.0


From f7b8fd55cce1b73f3b19eaefa7886c8559418923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 052/203] fix: empty channel lists can be printed

---
 src/libvisr/channel_list.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libvisr/channel_list.cpp b/src/libvisr/channel_list.cpp
index d4f6fb3..74e2ec3 100644
--- a/src/libvisr/channel_list.cpp
+++ b/src/libvisr/channel_list.cpp
@@ -181,6 +181,10 @@ void ChannelList::appendIndex( IndexType index )
 
 std::ostream & operator<<( std::ostream & str, ChannelList const channels )
 {
+  if( channels.size() == 0 )
+  {
+    return str;
+  }
   for( ChannelList::const_iterator runIt(channels.begin());; )
   {
     ChannelList::const_iterator lookAheadIt( runIt );
-- 
2.43.0


From aed60c6bb1295b7efd30ea3cbd26f94e054daacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 053/203] fix: comments in vector texts extend to the end of
 the line

---
 src/libpml/vector_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpml/vector_parameter.cpp b/src/libpml/vector_parameter.cpp
index 82bd9c0..f33ef07 100644
--- a/src/libpml/vector_parameter.cpp
+++ b/src/libpml/vector_parameter.cpp
@@ -121,8 +121,8 @@ VectorParameter<ElementType>::fromString( std::string const & initStr, std::size
 #else
 (*(qi::real_parser<typename TranslateType< ElementType>::type >()[phoenix::push_back( phoenix::ref( v ), qi::_1 )]
 #endif
-  % -qi::char_( ',' )) >> *(qi::char_( '%' ) >> *qi::char_)),
-  boost::spirit::ascii::space );
+  % -qi::char_( ',' ))),
+  boost::spirit::ascii::space | (qi::char_( '%' ) >> *(qi::char_ - qi::eol)) ); // Comments extend to the end of the line.
   if( !parseRes or (startIt != endIt) )
   {
     throw std::invalid_argument( "VectorParameter::fromStream(): Error while parsing line." );
-- 
2.43.0


From 49b4e51d01d17122d2877389f2118a3b07438454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 054/203] fix: incompletely read audio files are refused

---
 src/libpml/matrix_parameter.cpp | 6 +++---
 src/libpml/vector_parameter.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libpml/matrix_parameter.cpp b/src/libpml/matrix_parameter.cpp
index 0b85f74..03bdbc3 100644
--- a/src/libpml/matrix_parameter.cpp
+++ b/src/libpml/matrix_parameter.cpp
@@ -274,7 +274,7 @@ MatrixParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
   {
     throw std::invalid_argument( "MatrixParameter::fromAudioFile(): The specified file name does not exist." );
   }
-  SF_INFO fileInfo;
+  SF_INFO fileInfo{};
   SNDFILE* fileHandle = nullptr;
   fileHandle = sf_open( file.string().c_str(), SFM_READ, &fileInfo );
   if( not fileHandle )
@@ -291,12 +291,12 @@ MatrixParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
     sf_count_t const numReadRaw = read_samples<ElementType>( fileHandle, tmpStorage, numRows*numCols );
     if( numReadRaw < 0 )
     {
-      std::invalid_argument( "MatrixParameter::fromAudioFile(): Reading the audio data failed." );
+      throw std::invalid_argument( "MatrixParameter::fromAudioFile(): Reading the audio data failed." );
     }
     std::size_t const numRead = static_cast<std::size_t>(numReadRaw);
     if( numRead != numRows * numCols )
     {
-      std::invalid_argument( "MatrixParameter::fromAudioFile(): Reading the audio data reeturned a wrong number of arguments." );
+      throw std::invalid_argument( "MatrixParameter::fromAudioFile(): Reading the audio data reeturned a wrong number of arguments." );
     }
     // De-interleaving, might be implemented in a library function
     for( std::size_t rowIdx(0); rowIdx < numRows; ++rowIdx )
diff --git a/src/libpml/vector_parameter.cpp b/src/libpml/vector_parameter.cpp
index f33ef07..931b88c 100644
--- a/src/libpml/vector_parameter.cpp
+++ b/src/libpml/vector_parameter.cpp
@@ -212,7 +212,7 @@ VectorParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
   {
     throw std::invalid_argument( "VectorParameter::fromAudioFile(): The specified file name does not exist." );
   }
-  SF_INFO fileInfo;
+  SF_INFO fileInfo{};
   SNDFILE* fileHandle = nullptr;
   fileHandle = sf_open( file.string().c_str(), SFM_READ, &fileInfo );
   if( not fileHandle )
@@ -232,12 +232,12 @@ VectorParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
     sf_count_t const numReadRaw = read_samples<ElementType>( fileHandle, resultVec, numElements );
     if( numReadRaw < 0 )
     {
-      std::invalid_argument( "VectorParameter::fromAudioFile(): Reading the audio data failed." );
+      throw std::invalid_argument( "VectorParameter::fromAudioFile(): Reading the audio data failed." );
     }
     std::size_t const numRead = static_cast<std::size_t>(numReadRaw);
     if( numRead != numElements )
     {
-      std::invalid_argument( "VectorParameter::fromAudioFile(): Reading the audio data returned a wrong number of arguments." );
+      throw std::invalid_argument( "VectorParameter::fromAudioFile(): Reading the audio data returned a wrong number of arguments." );
     }
     sf_close( fileHandle );
     fileHandle = nullptr;
-- 
2.43.0


From ff844313c3285f3d8e6495a5e2d851a9f26c61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 055/203] fix: BiquadIirFilter is flat unless coefficients are
 given

---
 src/librcl/biquad_iir_filter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/librcl/biquad_iir_filter.cpp b/src/librcl/biquad_iir_filter.cpp
index 24a08fe..43105d5 100644
--- a/src/librcl/biquad_iir_filter.cpp
+++ b/src/librcl/biquad_iir_filter.cpp
@@ -46,6 +46,14 @@ BiquadIirFilter::BiquadIirFilter( SignalFlowContext const & context,
            cVectorAlignmentSamples )
 {
   mState.zeroFill();
+  rbbl::BiquadCoefficient< SampleType > const flat;
+  for( std::size_t channelIdx( 0 ); channelIdx < cNumberOfChannels; ++channelIdx )
+  {
+    for( std::size_t biquadIdx( 0 ); biquadIdx < cNumberOfBiquadSections; ++biquadIdx )
+    {
+      setCoefficientsInternal( channelIdx, biquadIdx, flat );
+    }
+  }
 }
 
 BiquadIirFilter::BiquadIirFilter(
-- 
2.43.0


From 4674798d9a24ff0f4ddb68791ac3b856377082a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 056/203] fix: BiquadIirFilter continues after a refused
 parameter

---
 src/librcl/biquad_iir_filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/biquad_iir_filter.cpp b/src/librcl/biquad_iir_filter.cpp
index 43105d5..cd29557 100644
--- a/src/librcl/biquad_iir_filter.cpp
+++ b/src/librcl/biquad_iir_filter.cpp
@@ -218,8 +218,8 @@ void BiquadIirFilter::process()
 {
   if( mEqInput and mEqInput->changed() )
   {
+    mEqInput->resetChanged(); // Also if the parameter is refused.
     setCoefficientMatrix( mEqInput->data() );
-    mEqInput->resetChanged();
   }
   std::size_t const numSamples{ period() };
   std::size_t const alignment{ mInput.alignmentSamples() };
-- 
2.43.0


From fa1c38b2a99b1d25f7d77447e3bf35cc97327ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 057/203] fix: ObjectGainEqCalculator continues after a refused
 object vector

---
 src/librcl/object_gain_eq_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/object_gain_eq_calculator.cpp b/src/librcl/object_gain_eq_calculator.cpp
index 54c90b7..0a50174 100644
--- a/src/librcl/object_gain_eq_calculator.cpp
+++ b/src/librcl/object_gain_eq_calculator.cpp
@@ -40,13 +40,13 @@ void ObjectGainEqCalculator::process()
 {
   if( mObjectInput.changed() )
   {
+    mObjectInput.resetChanged(); // Also if the object vector is refused.
     pml::ObjectVector const & ov = mObjectInput.data();
     pml::VectorParameter<CoefficientType> & gains = mGainOutput.data();
     rbbl::BiquadCoefficientMatrix<CoefficientType> & eqMatrix = mEqOutput.data();
     process( ov, gains, eqMatrix );
     mGainOutput.swapBuffers();
     mEqOutput.swapBuffers();
-    mObjectInput.resetChanged();
   }
 }
 
-- 
2.43.0


From 84a131980e431980d336c43bc9ad5b41fb88295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 058/203] fix: Quaternion constructor normalises on request

---
 src/librbbl/quaternion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b78f958..b1bed45 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -26,6 +26,10 @@ Quaternion< CoordinateType >::Quaternion( Coordinate w, Coordinate x,
                                           bool normalise /*= false*/ )
  : mQuat{ w, x, y, z }
 {
+  if( normalise )
+  {
+    this->normalise();
+  }
 }
 
 template< typename CoordinateType >
-- 
2.43.0


From 78192b3a67fb3fd000b2021661d2b7c3ab65742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 059/203] fix: angular distance between quaternions

---
 src/librbbl/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b1bed45..0c9ef4c 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -338,7 +338,7 @@ CoordinateType angleNormalised( Quaternion< CoordinateType > const& q1,
   // First (w) component of the difference rotation quaternion q1*conj(q2)
   // Note: Despite the above formula, this is the standard dot product (according to the source)
   CT const wDot{ dot( q1, q2 ) };
-  CT const wDiff{ std::sqrt( std::abs( wDot ) ) };
+  CT const wDiff{ std::abs( wDot ) }; // Opposite quaternions represent the same rotation.
   // Clip using min/max to avoid arguments with  abs( x ) > 1.0 due to numerical errors.
   return static_cast<CT>(2.0)* std::acos( std::max( std::min( wDiff, static_cast<CT>(1.0) ),
     static_cast<CT>(-1.0) ) );
-- 
2.43.0


From a2b51fdfbda5d968464ddf8d35a279139b76edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 060/203] fix: spherical interpolation between equal
 quaternions

---
 src/librbbl/quaternion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index 0c9ef4c..0ac54a5 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -381,6 +381,10 @@ interpolateSpherical( Quaternion< CoordinateType > const& pos0,
       std::max( static_cast< CoordinateType >(-1.0),
         dot( normalise(pos0), normalise(pos1) ) ) ) );
   CoordinateType const sinOmega = std::sin( omega );
+  if( omega < std::numeric_limits< CoordinateType >::epsilon() )
+  {
+    return (static_cast<CoordinateType>(1.0)-tInterp) * pos0 + tInterp * pos1;
+  }
   CoordinateType const sf1 = std::sin((static_cast<CoordinateType>(1.0)-tInterp)*omega) / sinOmega;
   CoordinateType const sf2 = std::sin(tInterp*omega) / sinOmega;
   return sf1 * pos0 + sf2 * pos1;
-- 
2.43.0


From 1569951a6e3dad3ccaae4260c48232380ec8f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:32 +0000
Subject: [PATCH 061/203] fix: CAP_VBAP read outside the positions for 2D
 arrays

---
 src/libpanning/CAP_VBAP.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/libpanning/CAP_VBAP.cpp b/src/libpanning/CAP_VBAP.cpp
index 877cdfc..da0fe7a 100644
--- a/src/libpanning/CAP_VBAP.cpp
+++ b/src/libpanning/CAP_VBAP.cpp
@@ -160,9 +160,16 @@ namespace panning
       l2Y = mPositions( triplet[1], 1 );
       l2Z = mPositions( triplet[1], 2 );
      
-      l3X = mPositions( triplet[2], 0 );
-      l3Y = mPositions( triplet[2], 1 );
-      l3Z = mPositions( triplet[2], 2 );
+      if( mArrayIs2D ) // triplet[2] is no valid index in this case.
+      {
+          l3X = 0; l3Y = 0; l3Z = 1;
+      }
+      else
+      {
+          l3X = mPositions( triplet[2], 0 );
+          l3Y = mPositions( triplet[2], 1 );
+          l3Z = mPositions( triplet[2], 2 );
+      }
 
    
       // Calc speaker positions relative to listener.
-- 
2.43.0


From f9924fbddb2885eca10c8625fd76dcaf4033e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:37 +0000
Subject: [PATCH 062/203] fix: CAPGainCalculator keeps its array configuration

---
 src/librcl/cap_gain_calculator.cpp | 3 ++-
 src/librcl/cap_gain_calculator.hpp | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index fa7ece5..fbc995a 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -52,7 +52,8 @@ CAPGainCalculator::CAPGainCalculator( SignalFlowContext const & context,
   mLevels.resize( mNumberOfObjects );
   mLevels = 0.0f;
 
-  mCapCalculator.setLoudspeakerArray( &arrayConfig );
+  mArray = arrayConfig;
+  mCapCalculator.setLoudspeakerArray( &mArray );
   mCapCalculator.setNumSources( numberOfObjects );
 
   // Set initial positions
diff --git a/src/librcl/cap_gain_calculator.hpp b/src/librcl/cap_gain_calculator.hpp
index ebea7c1..1665f5f 100644
--- a/src/librcl/cap_gain_calculator.hpp
+++ b/src/librcl/cap_gain_calculator.hpp
@@ -132,6 +132,11 @@ private:
    */
   std::vector<panning::XYZ> mSourcePositions;
 
+  /**
+   * A copy of the array configuration, referenced by the calculator object.
+   */
+  panning::LoudspeakerArray mArray;
+
   /**
    * The calculator object to generate the panning matrix coefficients.
    */
-- 
2.43.0


From 83adafbafab6034aacf2ebfbce32980d123c380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:38 +0000
Subject: [PATCH 063/203] fix: loudspeaker ids surrounded by blanks

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 23b5f40..30feea5 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -358,6 +358,7 @@ namespace panning
     {
       ptree const childTree = treeIt->second;
       std::string id = childTree.get<std::string>( "<xmlattr>.id" );
+      boost::trim_if( id, boost::is_any_of( "\t " ) );
       //      if(std::find(m_channel.begin(),m_channel.end(),m_channel[w]) == m_channel.end()) std::cout<<"NOTFIND"<<std::endl;
       ChannelIndex const chIdx = childTree.get<ChannelIndex>( "<xmlattr>.channel" );
       size_t offset = std::distance(m_channel.begin(),std::find(m_channel.begin(),m_channel.end(),chIdx));
-- 
2.43.0


From 9fa99fa07bba3c24c4cac621bbeffff3c8874ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:38 +0000
Subject: [PATCH 064/203] fix: LoudspeakerArray can be loaded again

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 30feea5..13466c2 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -273,6 +273,7 @@ namespace panning
     std::size_t const numTotalSpeakers = numRegularSpeakers + numVirtualSpeakers;
     std::size_t const numSubwoofers = std::distance( subwooferNodes.first, subwooferNodes.second );
     
+    m_id.clear();
     m_position.resize( numTotalSpeakers );
     m_channel.resize( numRegularSpeakers );
     
-- 
2.43.0


From ab06551972d4f89835497fd41da17c7f5172d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:38 +0000
Subject: [PATCH 065/203] fix: refuse routes from virtual to virtual
 loudspeakers

---
 src/libpanning/LoudspeakerArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 13466c2..4752424 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -408,6 +408,10 @@ namespace panning
         {
           throw std::invalid_argument( "LoudspeakerArray::loadXml(): Cannot find loudspeaker id in virtual speaker routing." );
         }
+        if( m_id[lspId] >= numRegularSpeakers )
+        {
+          throw std::invalid_argument( "LoudspeakerArray::loadXml(): Virtual loudspeakers can only be routed to regular loudspeakers." );
+        }
         //std::cout <<"RER: "<< i - numRegularSpeakers << " => " << m_id[lspId] << '\n';
         m_reRoutingCoeff( i - numRegularSpeakers, m_id[lspId] ) = efl::dB2linear( gainDB );
       }
-- 
2.43.0


From 8ececcd84a37e6a5aaee99f7219b3c7a3a5f2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:38 +0000
Subject: [PATCH 066/203] fix: refuse virtual loudspeakers assigned to
 subwoofers

---
 src/libpanning/LoudspeakerArray.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 4752424..e6bdeca 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -495,6 +495,11 @@ namespace panning
       {
         throw std::invalid_argument( "At least one of the specified loudspeaker index in subwoofer's list does not exist." );
       }
+      if( std::find_if( speakerIndices.begin(), speakerIndices.end(),
+                       [&]( std::string const & val ) { return m_id[val] >= numRegularSpeakers; } ) != speakerIndices.end() )
+      {
+        throw std::invalid_argument( "Only regular loudspeakers can be assigned to a subwoofer." );
+      }
       
       boost::optional<std::string> const weightStr = subNode.get_optional<std::string>( "<xmlattr>.weights" );
       if( weightStr )
-- 
2.43.0


From e2e34b2e29c850aa51f23bafe847ae18692aae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 067/203] fix: refuse subwoofer channel zero

---
 src/libpanning/LoudspeakerArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index e6bdeca..374a550 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -484,6 +484,10 @@ namespace panning
     {
       ptree const subNode = subIt->second;
       ChannelIndex const subChannel = subNode.get<std::size_t>( "<xmlattr>.channel" );
+      if( subChannel < 1 )
+      {
+        throw std::invalid_argument( "LoudspeakerArray::loadXml(): The subwoofer channel id must be greater or equal than one." );
+      }
       m_subwooferChannels[subIdx] = subChannel;
       
       std::string speakerIndicesStr = subNode.get<std::string>( "<xmlattr>.assignedLoudspeakers" );
-- 
2.43.0


From 8c2f05cf7bb455e5256117e4be75637bac572b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 068/203] fix: copy the output equalisers of a LoudspeakerArray

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 374a550..0454c46 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -74,6 +74,7 @@ namespace panning
     m_subwooferGains.copy( rhs.m_subwooferGains );
     m_gainAdjustment.assign( rhs.m_gainAdjustment );
     m_delayAdjustment.assign( rhs.m_delayAdjustment );
+    mOutputEqs.reset( rhs.mOutputEqs ? new rbbl::BiquadCoefficientMatrix<SampleType>( *rhs.mOutputEqs ) : nullptr );
     return *this;
   }
   
-- 
2.43.0


From b5d7525347b5d32b2f129543779c6b16e6688956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 069/203] fix: speaker list of the subwoofer in the bbc 0+2+0
 configuration

---
 config/bbc/bs2051-0+2+0.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/bbc/bs2051-0+2+0.xml b/config/bbc/bs2051-0+2+0.xml
index 2b6f35d..a7310dc 100644
--- a/config/bbc/bs2051-0+2+0.xml
+++ b/config/bbc/bs2051-0+2+0.xml
@@ -9,7 +9,7 @@
    <virtualspeaker id="3">
       <cart x="-1.994" y="0" z="0"/>
    </virtualspeaker>
-   <subwoofer assignedLoudspeakers="1:2" channel="33" delay="0" gainDB="0" weights="1.000000, 1.000000"/>
+   <subwoofer assignedLoudspeakers="1, 2" channel="33" delay="0" gainDB="0" weights="1.000000, 1.000000"/>
    <triplet l1="1" l2="2"/>
    <triplet l1="1" l2="3"/>
    <triplet l1="2" l2="3"/>
-- 
2.43.0


From 806168b076b6a50f2a51068585131826be41d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 070/203] fix: PanningCalculator took plane wave angles as
 radians

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index ad855a4..083fd57 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -273,7 +273,7 @@ void PanningCalculator::process()
       if( pw )
       {
         SampleType x,y,z;
-        std::tie( x, y, z ) = efl::spherical2cartesian( pw->incidenceAzimuth(), pw->incidenceElevation(), pw->referenceDistance() );
+        std::tie( x, y, z ) = efl::spherical2cartesian( efl::degree2radian( pw->incidenceAzimuth() ), efl::degree2radian( pw->incidenceElevation() ), pw->referenceDistance() );
         mVbapCalculator->calculateGainsUnNormalised( x, y, z, &mTmpGains[0], true /*planeWave*/ );
         diffuseRatio = 0.0f;
         objectHandled = true;
-- 
2.43.0


From 70ce8a52589574069a986ef50576d30ba6345db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 071/203] fix: PanningCalculator follows listener movements
 with static objects

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 083fd57..ddb3ef5 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -182,7 +182,7 @@ void PanningCalculator::process()
     mListenerPositionInput->resetChanged( );
   }
 
-  if( mObjectVectorInput->changed() )
+  if( listenerPosChanged or mObjectVectorInput->changed() )
   {
     objectmodel::ObjectVector const & objects = mObjectVectorInput->data( );
 #if 1
-- 
2.43.0


From caf0ad6f87b0dae6008388a2d03b0eee6475b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 072/203] fix: PanningCalculator wrote outside the gain matrix
 for excessive object channels

---
 src/librcl/panning_calculator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index ddb3ef5..92c1205 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -219,9 +219,10 @@ void PanningCalculator::process()
         for( std::size_t chIdx(0); chIdx < numChannels; ++chIdx )
         {
           std::size_t const objChannelIdx = co->channelIndex( chIdx );
-          if( chIdx >= mNumberOfObjects )
+          if( objChannelIdx >= mNumberOfObjects )
           {
-            status( StatusMessage::Warning, "Object channel index for channel object (", chIdx,  ") exceeds admissible range." );
+            status( StatusMessage::Warning, "Object channel index for channel object (", objChannelIdx,  ") exceeds admissible range." );
+            continue;
           }
           mTmpGains.zeroFill();
           objectmodel::ChannelObject::OutputChannelList const & outputChannels = co->outputChannel( chIdx );
@@ -260,6 +261,11 @@ void PanningCalculator::process()
         continue;
       }
       objectmodel::Object::ChannelIndex const objChannelIdx = obj.channelIndex(0);
+      if( objChannelIdx >= mNumberOfObjects )
+      {
+        status( StatusMessage::Warning, "Object channel index (", objChannelIdx, ") exceeds admissible range." );
+        continue;
+      }
       objectmodel::DiffuseSource const * ds = dynamic_cast<objectmodel::DiffuseSource const *>(&obj);
       if( ds and diffuseGains )
       {
-- 
2.43.0


From 9bc98122ec0b15b41657a2885ef738236302e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 073/203] fix: PanningCalculator ignores unknown output labels
 of channel objects

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 92c1205..ca1ef54 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -231,7 +231,8 @@ void PanningCalculator::process()
             ChannelLabelLookup::const_iterator findIdx = mLabelLookup.find( outLabel );
             if( findIdx == mLabelLookup.end() )
             {
-              status( StatusMessage::Warning, "Object channel index for channel object (", chIdx, ") exceeds admissible range." );
+              status( StatusMessage::Warning, "Unknown output channel label \"", outLabel, "\" of channel object." );
+              continue;
             }
             assert( findIdx->second < mNumberOfRegularLoudspeakers ); // The lookup contains only regular loudspeakers
             mTmpGains[findIdx->second] = 1.0f; // Normalisation and direct/diffuse scaling is performed later on
-- 
2.43.0


From 1490f6493478994a5a2df94a350ae9e68f3e726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 074/203] fix: NaN high-frequency gains in PanningCalculator

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index ca1ef54..5a93c24 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -311,7 +311,7 @@ void PanningCalculator::process()
         }
         if( hfGains )
         {
-          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), [](SampleType val ){ return std::sqrt(val); } );
+          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), [](SampleType val ){ return std::sqrt( std::max( val, static_cast<SampleType>(0.0) ) ); } );
           normalise( mTmpHfGains.data(), hfGains->data() + objChannelIdx, mNumberOfRegularLoudspeakers,
             mHfNormalisation, hfGains->stride(), directRatio );
         }
-- 
2.43.0


From 6de9b6945ff2d5ac5f9eb9fbc7cb3da075a7f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 075/203] fix: CAPGainCalculator follows listener movements
 with static objects

---
 src/librcl/cap_gain_calculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index fbc995a..8afe75e 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -82,7 +82,8 @@ void CAPGainCalculator::setNearTripletBoundaryCosTheta(SampleType ct)
 
 void CAPGainCalculator::process()
 {
-  if( mListenerPositionInput.changed() )
+  bool const listenerPosChanged = mListenerPositionInput.changed();
+  if( listenerPosChanged )
   {
     pml::ListenerPosition const & listener = mListenerPositionInput.data();
     // Set the listener position and orientation
@@ -99,7 +100,7 @@ void CAPGainCalculator::process()
   }
 
   // TODO: decide whether to always process
-  if (mObjectVectorInput.changed() or mListenerPositionInput.changed())
+  if (mObjectVectorInput.changed() or listenerPosChanged)
   {
     efl::BasicMatrix<CoefficientType> & gains = mGainOutput.data();
     assert((gains.numberOfRows() == mNumberOfLoudspeakers) and (gains.numberOfColumns() == mNumberOfObjects));
-- 
2.43.0


From 627138464030479e74857c4257daa4405ac625e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 076/203] fix: CAPGainCalculator ignored the diffuseness of
 point sources

---
 src/librcl/cap_gain_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index 8afe75e..244bec2 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -154,8 +154,9 @@ void CAPGainCalculator::process( objectmodel::ObjectVector const & objects,
     case objectmodel::ObjectTypeId::PointSourceWithDiffuseness:
     {
       objectmodel::PointSourceWithDiffuseness const & psdSrc = dynamic_cast<objectmodel::PointSourceWithDiffuseness const &>(obj);
+      mSourcePositions[channelId].set( psdSrc.x(), psdSrc.y(), psdSrc.z() );
       mLevels[channelId] = (static_cast<objectmodel::LevelType>(1.0)-psdSrc.diffuseness()); // Adjust the amount of direct sound according to the diffuseness
-      // Fall through intentionally
+      break;
     }
     case objectmodel::ObjectTypeId::PointSource:
     {
-- 
2.43.0


From 841f7d4c721c32a5c61b8be205b445d54716e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 077/203] fix: NaN gains of the CAP high-frequency mode

---
 src/libpanning/CAP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpanning/CAP.cpp b/src/libpanning/CAP.cpp
index 1003f8a..22d2ba9 100644
--- a/src/libpanning/CAP.cpp
+++ b/src/libpanning/CAP.cpp
@@ -151,8 +151,8 @@ int CAP::calcGains(){
             // Experimental CAP - VBIP hybrid for HF
             if (m_HFmode) {
                 if (g1*g2 > 0) { // both -ve or +ve
-                    g1 = sqrt(g1); // gain remapping
-                    g2 = sqrt(g2);
+                    g1 = sqrt(std::abs(g1)); // gain remapping
+                    g2 = sqrt(std::abs(g2));
                     Afloat f = 1/sqrt(g1*g1 + g2*g2);
                     g1 = g1 * f; //  energy normalisation
                     g2 = g2 * f;
-- 
2.43.0


From b1f3076f5c85d069eadebc30bb905aa1d8282c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 078/203] fix: AllRAD treated virtual loudspeakers of the
 regular array as regular

---
 src/libpanning/AllRAD.cpp                 | 2 +-
 src/librcl/hoa_allrad_gain_calculator.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libpanning/AllRAD.cpp b/src/libpanning/AllRAD.cpp
index 0835734..87e1b58 100644
--- a/src/libpanning/AllRAD.cpp
+++ b/src/libpanning/AllRAD.cpp
@@ -26,7 +26,7 @@ AllRAD::AllRAD(LoudspeakerArray const & regularArray,
  , mNumberOfHarmonics( (maxHoaOrder + 1) * (maxHoaOrder + 1) )
  , mRegularDecodeCoefficients( decodeCoeffs.numberOfRows( ), decodeCoeffs.numberOfColumns( ), decodeCoeffs.alignmentElements( ) )
  , mRealDecodeCoefficients( mNumberOfHarmonics, realArray.getNumRegularSpeakers(), decodeCoeffs.alignmentElements() )
- , mRegularArraySize( regularArray.getNumSpeakers( ) )
+ , mRegularArraySize( regularArray.getNumRegularSpeakers( ) )
  , mRegularToRealDecodeCoefficients( mRegularArraySize, realArray.getNumRegularSpeakers(), decodeCoeffs.alignmentElements() )
 {
   if( decodeCoeffs.numberOfRows() != mNumberOfHarmonics )
diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 056d86b..58fef64 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -36,9 +36,9 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mGainMatrixOutput( "gainOutput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
   , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this ) : nullptr )
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
-  , mRealDecodeMatrix( regularArrayConfig.getNumSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
+  , mRealDecodeMatrix( regularArrayConfig.getNumRegularSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-  std::size_t const numRegularSpeakers = regularArrayConfig.getNumSpeakers();
+  std::size_t const numRegularSpeakers = regularArrayConfig.getNumRegularSpeakers();
   std::size_t const numHarmonicSignals = decodeMatrix.numberOfRows();
 
   // Deduce the Ambisonics order from the number of harmonic signals
-- 
2.43.0


From 774952ff402a3831530c23b32cea9432793e4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 079/203] fix: listener position input of
 HoaAllRadGainCalculator has no configuration

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 58fef64..a55bd78 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -34,7 +34,7 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mObjectInput( "objectInput", *this, pml::EmptyParameterConfig() )
   , mGainMatrixInput( "gainInput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
   , mGainMatrixOutput( "gainOutput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
-  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this ) : nullptr )
+  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this, pml::EmptyParameterConfig() ) : nullptr )
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
   , mRealDecodeMatrix( regularArrayConfig.getNumRegularSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-- 
2.43.0


From dc8acb23fde78a3bbe465dd343d6cec97b282e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 080/203] fix: HoaAllRadGainCalculator read outside the decoder
 matrix for large HOA orders

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index a55bd78..56bd897 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -117,6 +117,10 @@ void HoaAllRadGainCalculator::process()
       {
         throw std::runtime_error( "The number of harmonic signals is inconsistent with the HOA order." );
       }
+      if( numHoaSignals > decodeGains.numberOfRows() )
+      {
+        throw std::runtime_error( "The HOA order of the object exceeds the order of the decoder matrix." );
+      }
       for( std::size_t sigIdx( 0 ); sigIdx < numHoaSignals; ++sigIdx )
       {
         std::size_t const chIdx = hoaSrc.channelIndex( sigIdx );
-- 
2.43.0


From 6b45f2b177998712d5e85448d41ced3c7dcaad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 081/203] fix: CAPGainCalculator discarded the high-frequency
 mapping of the panning gains

---
 src/librcl/cap_gain_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index 244bec2..09d900e 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -215,7 +215,7 @@ void CAPGainCalculator::process( objectmodel::ObjectVector const & objects,
       panning::XYZ const & pos = mSourcePositions[chIdx];
       objectmodel::LevelType const level = mLevels[chIdx];
       mVbipCalculator->calculateGainsUnNormalised(pos.x, pos.y, pos.z, &mTempHfGains[0], pos.isInfinite );
-      std::for_each(mTempHfGains.begin(), mTempHfGains.end(), [](Afloat & val) { return std::sqrt(std::max(val, 0.0f)); });
+      std::for_each(mTempHfGains.begin(), mTempHfGains.end(), [](Afloat & val) { val = std::sqrt(std::max(val, 0.0f)); });
       Afloat const sigNorm = std::sqrt(std::accumulate(mTempHfGains.begin(), mTempHfGains.end(), 0.0f,
         [](SampleType acc, SampleType val) { return acc + val * val; }));
       Afloat const normedLevel = level / std::max(sigNorm, std::numeric_limits<SampleType>::epsilon());
-- 
2.43.0


From ab2f12c18368bcaafd7c3612552a7a92fcf6b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 082/203] fix: assign PanningMatrixParameters with different
 numbers of objects and loudspeakers

---
 src/libpanningdsp/panning_matrix_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpanningdsp/panning_matrix_parameter.cpp b/src/libpanningdsp/panning_matrix_parameter.cpp
index 10fa5aa..df8d315 100644
--- a/src/libpanningdsp/panning_matrix_parameter.cpp
+++ b/src/libpanningdsp/panning_matrix_parameter.cpp
@@ -157,8 +157,8 @@ PanningMatrixParameter& PanningMatrixParameter::operator=(PanningMatrixParameter
   {
     mTimeStamps.resize(rhs.numberOfObjects());
     mTransitionTimes.resize(rhs.numberOfObjects());
-    mGains.resize(rhs.numberOfLoudspeakers(),
-      rhs.numberOfObjects());
+    mGains.resize(rhs.numberOfObjects(),
+      rhs.numberOfLoudspeakers());
     copy(rhs.timeStamps(), timeStamps());
     copy(rhs.transitionTimes(), transitionTimes());
     mGains.copy(rhs.gains());
-- 
2.43.0


From f80c4fa2004bc0d388a522d1d71386089b5b19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 083/203] fix: refuse PanningMatrixParameters with an
 inconsistent number of time stamps or transition times

---
 src/libpanningdsp/panning_matrix_parameter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libpanningdsp/panning_matrix_parameter.cpp b/src/libpanningdsp/panning_matrix_parameter.cpp
index df8d315..39ec7bb 100644
--- a/src/libpanningdsp/panning_matrix_parameter.cpp
+++ b/src/libpanningdsp/panning_matrix_parameter.cpp
@@ -102,6 +102,12 @@ PanningMatrixParameter::PanningMatrixParameter(visr::efl::BasicMatrix<SampleType
  , mTimeStamps( createCopy( timeStamps, gains.alignmentElements() ) )
  , mTransitionTimes( createCopy( transitionTimes, gains.alignmentElements() ) )
 {
+  if( (timeStamps.size() != gains.numberOfRows())
+   or (transitionTimes.size() != gains.numberOfRows()) )
+  {
+    throw std::invalid_argument( "PanningMatrixParameter: The number of time stamps"
+      " or transition times does not match the number of objects." );
+  }
   mGains.copy( gains );
 }
 
-- 
2.43.0


From 45392775b63fce7a0610124c5c72a07c2c4d5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 084/203] fix: PanningGainMatrix applies the other transitions
 of a message with a late one, and does not report it again in every block

---
 src/libpanningdsp/panning_gain_matrix.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index aad12a4..224f3b3 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -260,8 +260,10 @@ void PanningGainMatrix::processParameters()
   if( mGainInput.changed() )
   {
     TimeType const currentTime{ time().sampleCount() };
-    updateTransitions( currentTime, mGainInput.data() );
+    // Reset the flag first: reporting an error must not leave the message in
+    // place, because its time stamps cannot become valid later.
     mGainInput.resetChanged();
+    updateTransitions( currentTime, mGainInput.data() );
   }
 }
 
@@ -270,13 +272,24 @@ updateTransitions(  TimeType currentTime,
     PanningMatrixParameter const & newParams )
 {
   std::size_t const numObjs{ mTargetGains.numberOfRows() };
+  bool startTimesValid{ true };
   for( std::size_t objIdx{ 0 }; objIdx < numObjs; ++objIdx )
   {
+    if( newParams.timeStamps()[objIdx] < currentTime )
+    {
+      // Ignore this transition, but do not prevent those of other objects.
+      startTimesValid = false;
+      continue;
+    }
     updateTransition( objIdx, currentTime,
       newParams.timeStamps()[objIdx],
       newParams.transitionTimes()[objIdx],
       newParams.gains().row( objIdx ) );
   }
+  if( not startTimesValid )
+  {
+    status( StatusMessage::Error, "Time stamp of gain change is in the past." );
+  }
 }
 
 void PanningGainMatrix::updateTransition( std::size_t objIdx,
@@ -289,11 +302,7 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
   {
     return;
   }
-  if( startTime < currentTime )
-  {
-    status( StatusMessage::Error, "Time stamp of gain change is in the past." );
-    return;
-  }
+  assert( startTime >= currentTime ); // Checked by the caller.
   std::size_t const numLsp{ mTargetGains.numberOfColumns() };
   // Special case: we have to update the data members immediately.
   if( startTime == currentTime )
-- 
2.43.0


From c9a99872e360afcf37fdf2c40e341d8585ddc64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 085/203] fix: PanningGainMatrix interrupts transitions at the
 start time of the next one, at their present gain

---
 src/libpanningdsp/panning_gain_matrix.cpp | 132 +++++++++-------------
 src/libpanningdsp/panning_gain_matrix.hpp |   9 ++
 2 files changed, 63 insertions(+), 78 deletions(-)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index 224f3b3..75d681e 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -185,48 +185,31 @@ void PanningGainMatrix::processAudio()
       assert( currentTime >= mPreviousTime[ objIdx ] );
       assert( currentTime < mTargetTime[ objIdx ] );
       assert( mPendingTransitions[0].timeStamps()[objIdx] > currentTime );
-      Time::IntegerTimeType const duration{ std::min( 
-        mTargetTime[ objIdx ], blockEndTime ) - currentTime };
+      // A stored transition takes effect at its start time, even if the present
+      // one is not completed then.
+      TimeType const segmentEndTime{ std::min( std::min( mTargetTime[ objIdx ],
+        mPendingTransitions[0].timeStamps()[objIdx] ), blockEndTime ) };
+      Time::IntegerTimeType const duration{ segmentEndTime - currentTime };
       assert( duration > 0 ); // Otherwise this is a logical error,
       processAudioSingleSlope( objIdx, currentTime, bufferOffset, duration, accumulateFlag, 
         0 /*Alignment not guaranteed for arbitrary offsets.*/  );
 
       currentTime += duration;
       bufferOffset += duration;
-      if( currentTime == mTargetTime[objIdx] )
+      if( currentTime == mPendingTransitions[0].timeStamps()[ objIdx ] )
       {
+        // The stored transition becomes the present one.
+        startTransition( objIdx, currentTime,
+          mPendingTransitions[0].transitionTimes()[ objIdx ],
+          mPendingTransitions[0].gains().row( objIdx ) );
+      }
+      else if( currentTime == mTargetTime[objIdx] )
+      {
+        // The present transition is completed, the gains remain constant.
         mPreviousTime[ objIdx ] = currentTime;
-        TimeType const nextStartTime{ mPendingTransitions[0].timeStamps()[ objIdx ] };
-        if( nextStartTime == currentTime ) // next transition starts immediately
-        {
-          TimeType const transitionTime{ mPendingTransitions[0].transitionTimes()[ objIdx ] };
-          if( transitionTime == 0 )
-          {
-            copyRow( mPendingTransitions[0].gains().row( objIdx ),
-                mPreviousGains.row( objIdx ),
-                numLsp, visr::cVectorAlignmentSamples );
-            mTargetTime[ objIdx ] = cTimeStampInfinity;
-          }
-          else
-          {
-            copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
-                numLsp, visr::cVectorAlignmentSamples );
-            mTargetTime[ objIdx ] = currentTime + transitionTime;
-          }
-          copyRow( mPendingTransitions[0].gains().row( objIdx ),
-              mTargetGains.row( objIdx ),
-              numLsp, visr::cVectorAlignmentSamples );
-          mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
-          mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
-        }
-        else // There's a gap to the next transition
-        {
-          mTargetTime[ objIdx ] = nextStartTime;
-          copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
-              numLsp, visr::cVectorAlignmentSamples );
-          // mTargetGains remain unchanged.
-
-        }
+        mTargetTime[ objIdx ] = cTimeStampInfinity;
+        copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
+            numLsp, visr::cVectorAlignmentSamples );
       }
     } // while(true)
   }
@@ -307,53 +290,12 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
   // Special case: we have to update the data members immediately.
   if( startTime == currentTime )
   {
-    mPreviousTime[ objIdx ] = currentTime;
-    if( duration == 0 ) // Immediate change w/o interpolation (e.g., jump position)
-    {
-      copyRow( gains, mPreviousGains.row( objIdx ), numLsp, 
-        0 /*Do not assume special alignment*/ );
-      copyRow( gains, mTargetGains.row( objIdx ), numLsp, 
-        0 /*Do not assume special alignment*/ );
-      mTargetTime[ objIdx ] = cTimeStampInfinity;
-    }
-    else
-    {
-      // Adjust the current target gains by computing the value at 
-      // startTime
-      GainType const alpha = interpolationRatio( currentTime,
-          mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
-      // TODO: turn into a vector function.
-      for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
-      {
-        mPreviousGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
-          + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
-      }
-      copyRow( gains, mTargetGains.row( objIdx ), numLsp,
-        0 /*Do not assume special alignment*/ );
-      mTargetTime[ objIdx ] = currentTime + duration;
-    }
-    // Clear next pending transition
-    mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
-    mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
-    copyRow( mTargetGains.row( objIdx ), mPendingTransitions[0].gains().row( objIdx ), numLsp );
+    startTransition( objIdx, currentTime, duration, gains );
   }
   else
   {
-    if( startTime < mTargetTime[ objIdx ] )
-    {
-      // Adjust the current target gains by computing the value at 
-      // startTime
-      GainType const alpha = interpolationRatio( currentTime,
-          mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
-      std::size_t const numLsp{ mTargetGains.numberOfColumns() };
-      // TODO: turn into a vector function.
-      for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
-      {
-        mTargetGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
-          + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
-      }
-      mTargetTime[ objIdx ] = startTime;
-    }
+    // Store the transition. The present one proceeds unaltered until then,
+    // because the stored transition might be replaced before its start time.
     mPendingTransitions[0].timeStamps()[ objIdx ] = startTime;
     mPendingTransitions[0].transitionTimes()[ objIdx ] = duration;
     copyRow( gains, mPendingTransitions[0].gains().row( objIdx ),
@@ -361,6 +303,40 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
   }
 }
 
+void PanningGainMatrix::startTransition( std::size_t objIdx,
+  TimeType currentTime,
+  TimeType duration,
+  SampleType const * gains )
+{
+  std::size_t const numLsp{ mTargetGains.numberOfColumns() };
+  if( duration == 0 ) // Immediate change w/o interpolation (e.g., jump position)
+  {
+    copyRow( gains, mPreviousGains.row( objIdx ), numLsp,
+      0 /*Do not assume special alignment*/ );
+    mTargetTime[ objIdx ] = cTimeStampInfinity;
+  }
+  else
+  {
+    // The new transition begins at the present gain, i.e., the value of a
+    // transition in progress evaluated at currentTime.
+    GainType const alpha = interpolationRatio( currentTime,
+        mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
+    // TODO: turn into a vector function.
+    for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
+    {
+      mPreviousGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
+        + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
+    }
+    mTargetTime[ objIdx ] = currentTime + duration;
+  }
+  mPreviousTime[ objIdx ] = currentTime;
+  copyRow( gains, mTargetGains.row( objIdx ), numLsp,
+    0 /*Do not assume special alignment*/ );
+  // Clear the stored transition.
+  mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
+  mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
+}
+
 void PanningGainMatrix::scaleSignal( SampleType const * input, SampleType * output,
     std::size_t startIdx, std::size_t duration,
     SampleType gainStart, SampleType gainInc, bool accumulate, std::size_t alignment )
diff --git a/src/libpanningdsp/panning_gain_matrix.hpp b/src/libpanningdsp/panning_gain_matrix.hpp
index d5f0731..876bed2 100644
--- a/src/libpanningdsp/panning_gain_matrix.hpp
+++ b/src/libpanningdsp/panning_gain_matrix.hpp
@@ -204,6 +204,15 @@ private:
                          TimeType duration,
                          SampleType const * gains );
 
+  /**
+   * Begin a transition at \p currentTime, starting from the gains at this time.
+   * Discards the stored transition of this object.
+   */
+  void startTransition( std::size_t objIndex,
+                        TimeType currentTime,
+                        TimeType duration,
+                        SampleType const * gains );
+
   void scaleSignal( SampleType const * input,
                     SampleType * output,
                     std::size_t startIdx,
-- 
2.43.0


From 08a86b30af18df2577b14962602cdf0faac7251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:07 +0000
Subject: [PATCH 086/203] fix: PositionDecoder ignored positions of a smaller
 face id with an older time stamp, and the largest face id

---
 src/librcl/position_decoder.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/librcl/position_decoder.cpp b/src/librcl/position_decoder.cpp
index 93b26b4..253a009 100644
--- a/src/librcl/position_decoder.cpp
+++ b/src/librcl/position_decoder.cpp
@@ -9,8 +9,8 @@
 #include <librbbl/quaternion.hpp>
 
 #include <algorithm>
+#include <ciso646>
 #include <iostream>
-#include <limits>
 #include <sstream>
 
 namespace visr
@@ -51,8 +51,7 @@ void PositionDecoder::process()
 {
   pml::ListenerPosition newPos;
   pml::ListenerPosition foundPos;
-  pml::ListenerPosition::IdType smallestFaceId = std::numeric_limits<unsigned int>::max();
-  pml::ListenerPosition::TimeType latestTimeStamp = 0;
+  bool positionFound = false; // Did we actually receive a valid message?
   while( !mDatagramInput.empty() )
   {
     char const * nextMsg = mDatagramInput.front().str();
@@ -60,15 +59,14 @@ void PositionDecoder::process()
     try
     {
       newPos.parseJson( msgStream );
-      if( newPos.faceID() <= smallestFaceId )
+      // Use the smallest face ID.
+      // For a given face ID, update the position only if the timestamp is not older than the previously received timestamp.
+      if( not positionFound
+        or ( newPos.faceID() < foundPos.faceID() )
+        or ( ( newPos.faceID() == foundPos.faceID() ) and ( newPos.timeNs() >= foundPos.timeNs() ) ) )
       {
-        // for a given face ID, update the position only if the timestamp is not older than the previously received timestamp.
-        if( newPos.timeNs() >= latestTimeStamp )
-        {
-          foundPos = newPos;
-          smallestFaceId = foundPos.faceID();
-          latestTimeStamp = foundPos.timeNs();
-        }
+        foundPos = newPos;
+        positionFound = true;
       }
     }
     catch( std::exception const & ex )
@@ -78,8 +76,7 @@ void PositionDecoder::process()
     }
     mDatagramInput.pop();
   }
-  // Did we actually receive a valid message?
-  if( smallestFaceId != std::numeric_limits<unsigned int>::max() )
+  if( positionFound )
   {
     mPositionOutput.data() = translatePosition( foundPos );
     mPositionOutput.swapBuffers();
-- 
2.43.0


From b0095188a4cc3b1970a25d1e7342671873f8814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:07 +0000
Subject: [PATCH 087/203] fix: UdpSender cut asynchronous messages at zero
 bytes

---
 src/librcl/udp_sender.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index 6235fec..a668c6f 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -188,8 +188,9 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
       bool const transmissionPending = not mInternalMessageBuffer.empty();
       while( not messageInput.empty() )
       {
-        char const * nextMsg = messageInput.front().str();
-        mInternalMessageBuffer.push_back( pml::StringParameter( nextMsg ) );
+        pml::StringParameter const & nextMsg = messageInput.front();
+        // Use the size, because messages may contain zero bytes.
+        mInternalMessageBuffer.push_back( pml::StringParameter( std::string( nextMsg.str(), nextMsg.size() ) ) );
         messageInput.pop();
       }
       if( not mInternalMessageBuffer.empty() and not transmissionPending )
-- 
2.43.0


From 8eaaccd27482201e2d9bc3123580fa919d5f67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:07 +0000
Subject: [PATCH 088/203] fix: UdpSender retried a synchronous message that
 cannot be sent forever

---
 src/librcl/udp_sender.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index a668c6f..0c18c20 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -168,14 +168,15 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
     // we don't operate an internal message queue in this mode.
     while( not messageInput.empty() )
     {
-      pml::StringParameter const & nextMsg = messageInput.front( );
+      // Remove the message first, a message that cannot be sent must not block the following ones.
+      std::string const nextMsg( messageInput.front().str(), messageInput.front().size() );
+      messageInput.pop( );
       // boost::system::error_code err;
-      std::size_t bytesSent = mSocket->send_to( boost::asio::buffer(nextMsg.str(), nextMsg.size()), mRemoteEndpoint );
+      std::size_t bytesSent = mSocket->send_to( boost::asio::buffer(nextMsg.data(), nextMsg.size()), mRemoteEndpoint );
       if( bytesSent != nextMsg.size() )
       {
         throw std::runtime_error( "Number of sent bytes differs from message size." );
       }
-      messageInput.pop( );
     }
     break;
   case Mode::Asynchronous:
-- 
2.43.0


From 03f953292bf10e78a782ce1c9bf914be80771daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:07 +0000
Subject: [PATCH 089/203] fix: a failed asynchronous transmission of UdpSender
 terminated the process

---
 src/librcl/udp_sender.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index 0c18c20..fa4da92 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -16,6 +16,7 @@
 #endif
 
 #include <ciso646>
+#include <iostream>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -41,7 +42,7 @@ public:
 private:
     /**
     * Callback function triggered by the ASIO library.
-    * @throw std::runtime_error if \p error is set or the number of transferred bytes differs from the expected value.
+    * Reports an error if \p error is set or the number of transferred bytes differs from the expected value.
     */
     void handleSentData(const boost::system::error_code& error,
         std::size_t numBytesTransferred);
@@ -211,18 +212,20 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
 void UdpSender::Impl::handleSentData(const boost::system::error_code& error,
     std::size_t numBytesTransferred)
 {
-    if (error != boost::system::errc::success)
-    {
-        throw std::runtime_error("UdpSender: Asynchronous send operation resulted in an error.");
-    }
 #ifndef VISR_DISABLE_THREADS
     boost::lock_guard<boost::mutex> lock(mMutex);
 #endif
     assert(not mInternalMessageBuffer.empty());
     pml::StringParameter & currMsg = mInternalMessageBuffer.front();
-    if (currMsg.size() != numBytesTransferred)
+    // Errors are reported, but not thrown: this is executed in the service thread,
+    // where an exception would terminate the process, and the remaining messages can still be sent.
+    if (error)
+    {
+        std::cerr << "UdpSender: Asynchronous send operation resulted in an error: " << error.message() << std::endl;
+    }
+    else if (currMsg.size() != numBytesTransferred)
     {
-        throw std::runtime_error("UdpSender: Asynchronous send operation transmitted less bytes than the message length.");
+        std::cerr << "UdpSender: Asynchronous send operation transmitted less bytes than the message length." << std::endl;
     }
     mInternalMessageBuffer.pop_front();
     if (not mInternalMessageBuffer.empty())
-- 
2.43.0


From 0c1147c3dc4855df9768d72aacbfafd422dbbe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 090/203] fix: compute the listener compensation for the
 regular loudspeakers only

---
 src/librcl/listener_compensation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/librcl/listener_compensation.cpp b/src/librcl/listener_compensation.cpp
index 547b735..c3baa5f 100644
--- a/src/librcl/listener_compensation.cpp
+++ b/src/librcl/listener_compensation.cpp
@@ -106,7 +106,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -118,7 +118,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
       max_rad = gainComp[i];
   }
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     gainComp[i] = (gainComp[i]/max_rad);
   }
@@ -137,7 +137,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -149,7 +149,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
       max_rad = delayComp[i];
   }
 
-  for ( std::size_t i = 0; i < m_array.getNumSpeakers(); i++){
+  for ( std::size_t i = 0; i < mNumberOfLoudspeakers; i++){
 
     delayComp[i] = std::abs(delayComp[i]-max_rad)/c_0;
   }
-- 
2.43.0


From 936f9d758132c6f12bfb819d759c9d61b2caf1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:30 +0000
Subject: [PATCH 091/203] fix: check channel indices of the channel routing
 against the number of object channels

---
 src/librcl/channel_object_routing_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/channel_object_routing_calculator.cpp b/src/librcl/channel_object_routing_calculator.cpp
index 64f014e..422199b 100644
--- a/src/librcl/channel_object_routing_calculator.cpp
+++ b/src/librcl/channel_object_routing_calculator.cpp
@@ -82,7 +82,7 @@ void ChannelObjectRoutingCalculator::process( pml::ObjectVector const & objects,
     assert(numberOfChannelSignals == chObj.outputChannels().size()); // class invariant
     for( std::size_t chIdx(0); chIdx < numberOfChannelSignals; ++chIdx )
     {
-      if (chObj.channelIndex(chIdx) > cNumberOfObjectChannels)
+      if (chObj.channelIndex(chIdx) >= cNumberOfObjectChannels)
       {
         // TODO: Use error reporting API (when defined)
         std::cerr << "ChannelObjectRoutingCalculator: Object channel index exceeds channel range." << std::endl;
-- 
2.43.0


From 59f69cdbe53cd90064752e2ffc44cfc55558bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:30 +0000
Subject: [PATCH 092/203] fix: reject channel ids beyond the number of channels
 in ObjectChannelAllocator::getObjectForChannel

---
 src/librbbl/object_channel_allocator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/librbbl/object_channel_allocator.cpp b/src/librbbl/object_channel_allocator.cpp
index 53ef0b5..7bb8947 100644
--- a/src/librbbl/object_channel_allocator.cpp
+++ b/src/librbbl/object_channel_allocator.cpp
@@ -6,6 +6,7 @@
 #include <cassert>
 #include <ciso646>
 #include <limits>
+#include <stdexcept>
 
 #include <tuple>
 
@@ -101,6 +102,10 @@ setObjects( std::vector<objectmodel::ObjectId > const & objectIds )
 objectmodel::ObjectId ObjectChannelAllocator::
 getObjectForChannel( std::size_t channelId ) const
 {
+  if( channelId >= mMaxChannels )
+  {
+    throw std::invalid_argument( "ObjectChannelAllocator::getObjectForChannel(): The channel id exceeds the number of rendering channels." );
+  }
   assert( mLookup.size() == numberUsedChannels() );
   ObjectChannelLookup::const_iterator const findIt =
     std::find_if( mLookup.begin(), mLookup.end(), [channelId]( ObjectChannelLookup::value_type const & v ) { return v.second == channelId; } );
-- 
2.43.0


From edf0762d95182cda1959e8b7f8d6f23376983cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:52 +0000
Subject: [PATCH 093/203] fix: connect subwoofers and output equalisers of
 CoreRenderer with listener tracking

---
 src/libsignalflows/core_renderer.cpp | 49 +++++++++++-----------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index 6d0a8dd..d0beb8d 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -265,39 +265,28 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
   if( trackingEnabled )
   {
     audioConnection( mDirectDiffuseMix.audioPort("out"), mListenerGainDelayCompensation->audioPort("in") );
-    audioConnection( mListenerGainDelayCompensation->audioPort("out"), mSubwooferMix.audioPort("in") );
-    if( outputEqSupport )
-    {
-      audioConnection( mListenerGainDelayCompensation->audioPort("out"), mOutputEqualisationFilter->audioPort("in") );
-    }
-    else
-    {
-      audioConnection( mListenerGainDelayCompensation->audioPort("out"), ChannelRange( 0, numberOfLoudspeakers ),
-                       mOutputAdjustment.audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
-    }
+  }
+  // The loudspeaker signals before output equalisation and adjustment.
+  AudioPortBase & loudspeakerSignals = trackingEnabled ? mListenerGainDelayCompensation->audioPort("out") : mDirectDiffuseMix.audioPort("out");
+  audioConnection( loudspeakerSignals, mSubwooferMix.audioPort("in") );
+  if( outputEqSupport )
+  {
+    audioConnection( loudspeakerSignals,
+                    ChannelRange( 0, numberOfLoudspeakers ),
+                    mOutputEqualisationFilter->audioPort("in"),
+                    ChannelRange( 0, numberOfLoudspeakers ) );
+    audioConnection( mSubwooferMix.audioPort("out"),
+                    ChannelRange( 0, numberOfSubwoofers ),
+                    mOutputEqualisationFilter->audioPort("in"),
+                    ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
+    audioConnection( mOutputEqualisationFilter->audioPort("out"), mOutputAdjustment.audioPort("in") );
   }
   else
   {
-    audioConnection( mDirectDiffuseMix.audioPort("out"), mSubwooferMix.audioPort("in") );
-    if( outputEqSupport )
-    {
-      audioConnection( mDirectDiffuseMix.audioPort("out"),
-                      ChannelRange( 0, numberOfLoudspeakers ),
-                      mOutputEqualisationFilter->audioPort("in"),
-                      ChannelRange( 0, numberOfLoudspeakers ) );
-      audioConnection( mSubwooferMix.audioPort("out"),
-                      ChannelRange( 0, numberOfSubwoofers ),
-                      mOutputEqualisationFilter->audioPort("in"),
-                      ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
-      audioConnection( mOutputEqualisationFilter->audioPort("out"), mOutputAdjustment.audioPort("in") );
-    }
-    else
-    {
-      audioConnection( mDirectDiffuseMix.audioPort("out"), ChannelRange( 0, numberOfLoudspeakers ),
-                       mOutputAdjustment.audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
-      audioConnection( mSubwooferMix.audioPort("out"), ChannelRange( 0, numberOfSubwoofers ),
-                       mOutputAdjustment.audioPort("in"), ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
-    }
+    audioConnection( loudspeakerSignals, ChannelRange( 0, numberOfLoudspeakers ),
+                     mOutputAdjustment.audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
+    audioConnection( mSubwooferMix.audioPort("out"), ChannelRange( 0, numberOfSubwoofers ),
+                     mOutputAdjustment.audioPort("in"), ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
   }
 
   // Connect to the external playback channels, including the silencing of unused channels.
-- 
2.43.0


From 03a1c2ce69a565d06c42f39a51826a0c1f1da45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:52 +0000
Subject: [PATCH 094/203] fix: pass the tracked listener position to the HOA
 decoder of CoreRenderer

---
 src/libsignalflows/core_renderer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index d0beb8d..3953dfc 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -217,6 +217,10 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
   parameterConnection( mObjectVectorInput, mAllradGainCalculator->parameterPort("objectInput") );
   parameterConnection( mGainCalculator.parameterPort( "vbapGains" ), mAllradGainCalculator->parameterPort( "gainInput" ) );
   parameterConnection( mAllradGainCalculator->parameterPort( "gainOutput" ), mVbapMatrix.parameterPort( "gainInput" ) );
+  if( trackingEnabled )
+  {
+    parameterConnection( *mTrackingPositionInput, mAllradGainCalculator->parameterPort( "listenerInput" ) );
+  }
 
   //////////////////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From 7726b15fcf60e9083fb5681264cd1ca525fcf832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:14 +0000
Subject: [PATCH 095/203] fix: play the high-frequency part of HOA sources with
 frequency-dependent panning

---
 src/libsignalflows/core_renderer.cpp | 15 ++++++++++++++-
 src/libsignalflows/core_renderer.hpp |  5 +++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index 3953dfc..f88cb1d 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -171,7 +171,6 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
     mPanningFilterbank.reset( new rcl::BiquadIirFilter(context, "PanningFilterbank", this,
        2*numberOfInputs, 1, coeffMatrix ) );
     mVbipMatrix->setup( numberOfInputs, numberOfLoudspeakers, interpolationPeriod, 0.0f );
-    parameterConnection( mGainCalculator.parameterPort("vbipGains"), mVbipMatrix->parameterPort( "gainInput") );
 
     audioConnection( mObjectEq.audioPort("out"), ChannelRange( 0, numberOfInputs ), mPanningFilterbank->audioPort("in"), ChannelRange( 0, numberOfInputs ) );
     audioConnection( mObjectEq.audioPort("out"), ChannelRange( 0, numberOfInputs ), mPanningFilterbank->audioPort("in"), ChannelRange( numberOfInputs, 2*numberOfInputs ) );
@@ -221,6 +220,20 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
   {
     parameterConnection( *mTrackingPositionInput, mAllradGainCalculator->parameterPort( "listenerInput" ) );
   }
+  if( frequencyDependentPanning )
+  {
+    // HOA sources are decoded identically in both bands.
+    mAllradHighFrequencyGainCalculator.reset( new rcl::HoaAllRadGainCalculator( context, "AllRadHighFrequencyGainCalculator", this,
+                                              numberOfInputs, allRadRegArray, loudspeakerConfiguration, allRadDecoderGains,
+                                              pml::ListenerPosition(), trackingEnabled ) );
+    parameterConnection( mObjectVectorInput, mAllradHighFrequencyGainCalculator->parameterPort( "objectInput" ) );
+    parameterConnection( mGainCalculator.parameterPort( "vbipGains" ), mAllradHighFrequencyGainCalculator->parameterPort( "gainInput" ) );
+    parameterConnection( mAllradHighFrequencyGainCalculator->parameterPort( "gainOutput" ), mVbipMatrix->parameterPort( "gainInput" ) );
+    if( trackingEnabled )
+    {
+      parameterConnection( *mTrackingPositionInput, mAllradHighFrequencyGainCalculator->parameterPort( "listenerInput" ) );
+    }
+  }
 
   //////////////////////////////////////////////////////////////////////////////////////
 
diff --git a/src/libsignalflows/core_renderer.hpp b/src/libsignalflows/core_renderer.hpp
index 41dd1ea..fe80d0f 100644
--- a/src/libsignalflows/core_renderer.hpp
+++ b/src/libsignalflows/core_renderer.hpp
@@ -117,6 +117,11 @@ private:
 
   std::unique_ptr< rcl::HoaAllRadGainCalculator > mAllradGainCalculator;
 
+  /**
+   * HOA decoder for the high-frequency gain matrix (only for dual-band panning).
+   */
+  std::unique_ptr< rcl::HoaAllRadGainCalculator > mAllradHighFrequencyGainCalculator;
+
   rcl::GainMatrix mVbapMatrix;
 
   /**
-- 
2.43.0


From cb9df2dfdefdd29aec6e823b611629a12f0c6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 096/203] fix: connect all output channels of BunchRenderer

---
 src/libsignalflows/bunch_renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsignalflows/bunch_renderer.cpp b/src/libsignalflows/bunch_renderer.cpp
index 6bf584f..91df31a 100644
--- a/src/libsignalflows/bunch_renderer.cpp
+++ b/src/libsignalflows/bunch_renderer.cpp
@@ -47,7 +47,7 @@ BunchRenderer::BunchRenderer( SignalFlowContext const & context,
   parameterConnection("SceneDecoder", "objectVectorOutput", "CoreRenderer", "objectDataInput" );
 
   audioConnection("", "input", ChannelRange(0, numberOfInputs), "CoreRenderer", "audioIn", ChannelRange(0, numberOfInputs) );
-  audioConnection("CoreRenderer", "audioOut", ChannelRange(0, numberOfOutputs), "", "output", ChannelRange(0, numberOfInputs) );
+  audioConnection("CoreRenderer", "audioOut", ChannelRange(0, numberOfOutputs), "", "output", ChannelRange(0, numberOfOutputs) );
 }
 
 BunchRenderer::~BunchRenderer( )
-- 
2.43.0


From dafcf91df824564ad0bff81a08bdd28cad7afae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 097/203] fix: connect the tracking receiver of
 BaselineRenderer to the position decoder

---
 src/libsignalflows/baseline_renderer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsignalflows/baseline_renderer.cpp b/src/libsignalflows/baseline_renderer.cpp
index 1a2baf9..35ba2a5 100644
--- a/src/libsignalflows/baseline_renderer.cpp
+++ b/src/libsignalflows/baseline_renderer.cpp
@@ -61,6 +61,7 @@ BaselineRenderer::BaselineRenderer( SignalFlowContext const & context,
   {
     mTrackingReceiver.reset( new rcl::UdpReceiver( context, "TrackingReceiver", this, 8888, rcl::UdpReceiver::Mode::Synchronous) );
     mTrackingPositionDecoder.reset( new rcl::PositionDecoder( context, "TrackingPositionDecoder", this ) );
+    parameterConnection( mTrackingReceiver->parameterPort("messageOutput"), mTrackingPositionDecoder->parameterPort("messageInput") );
     parameterConnection( mTrackingPositionDecoder->parameterPort("positionOutput"), mCoreRenderer.parameterPort("trackingPositionInput") );
   }
 }
-- 
2.43.0


From f2bb5e52792f692a650705c909a3d19ede314de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 098/203] fix: the default diffusion filters of
 BaselineRenderer had a length of zero (division by zero)

---
 src/libsignalflows/baseline_renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsignalflows/baseline_renderer.cpp b/src/libsignalflows/baseline_renderer.cpp
index 35ba2a5..842c23e 100644
--- a/src/libsignalflows/baseline_renderer.cpp
+++ b/src/libsignalflows/baseline_renderer.cpp
@@ -25,7 +25,7 @@ BaselineRenderer::BaselineRenderer( SignalFlowContext const & context,
  )
   : BaselineRenderer( context, name, parent, loudspeakerConfiguration, numberOfInputs, numberOfOutputs, 
                       4096ul,
-                      efl::BasicMatrix<SampleType>(numberOfOutputs, 0, cVectorAlignmentSamples ), 
+                      efl::BasicMatrix<SampleType>(numberOfOutputs, 1, cVectorAlignmentSamples ), 
     std::string(), 4242, 0 /*number of EQ sections*/, std::string(), false )
 {}
 
-- 
2.43.0


From ca1ba4e49db86fd634ab7a3a3ec375d8a76b2a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:49 +0000
Subject: [PATCH 099/203] fix: the DelayVector signal flow ignored its name

---
 src/libsignalflows/delay_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsignalflows/delay_vector.cpp b/src/libsignalflows/delay_vector.cpp
index 98f34c7..cd5bcfc 100644
--- a/src/libsignalflows/delay_vector.cpp
+++ b/src/libsignalflows/delay_vector.cpp
@@ -16,7 +16,7 @@ DelayVector::DelayVector( SignalFlowContext const & context,
                           std::size_t numberOfChannels,
                           std::size_t interpolationPeriod,
                           char const * interpolationMethod )
-  : CompositeComponent( context, "", parent )
+  : CompositeComponent( context, name, parent )
   , mDelay( context, "DelayVector", this )
   , mInput( "input", *this )
   , mOutput( "output", *this )
-- 
2.43.0


From b55ebfd16c6afb5bd30003910a2ad3afe5513914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:49 +0000
Subject: [PATCH 100/203] fix: the GainMatrix signal flow connected ports that
 do not exist

---
 src/libsignalflows/gain_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libsignalflows/gain_matrix.cpp b/src/libsignalflows/gain_matrix.cpp
index d6aa290..e3e2381 100644
--- a/src/libsignalflows/gain_matrix.cpp
+++ b/src/libsignalflows/gain_matrix.cpp
@@ -31,8 +31,8 @@ GainMatrix::GainMatrix( SignalFlowContext const & context,
   mOutput.setWidth( cNumberOfOutputs );
 
   audioConnection( "", "input", ChannelRange( 0, cNumberOfInputs ),
-                           "GainMatrix", "input", ChannelRange( 0, cNumberOfInputs ) );
-  audioConnection( "GainMatrix", "output", ChannelRange( 0, cNumberOfOutputs ),
+                           "GainMatrix", "in", ChannelRange( 0, cNumberOfInputs ) );
+  audioConnection( "GainMatrix", "out", ChannelRange( 0, cNumberOfOutputs ),
                            "", "output", ChannelRange( 0, cNumberOfOutputs ) );
 
 #else
-- 
2.43.0


From e215a5e6f913da147526bc985cee009317544ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:49 +0000
Subject: [PATCH 101/203] fix: connect the tracking receiver of VisrRenderer to
 the position decoder

---
 src/libsignalflowspython/visr_renderer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsignalflowspython/visr_renderer.cpp b/src/libsignalflowspython/visr_renderer.cpp
index 309f923..50f7666 100644
--- a/src/libsignalflowspython/visr_renderer.cpp
+++ b/src/libsignalflowspython/visr_renderer.cpp
@@ -75,6 +75,7 @@ VisrRenderer::VisrRenderer( SignalFlowContext const & context,
     mTrackingReceiver.reset( new rcl::UdpReceiver( context, "TrackingReceiver", this, 8888, rcl::UdpReceiver::Mode::Synchronous) );
     mTrackingPositionDecoder.reset( new rcl::PositionDecoder( context, "TrackingPositionDecoder", this ) );
 
+    parameterConnection( mTrackingReceiver->parameterPort("messageOutput"), mTrackingPositionDecoder->parameterPort("messageInput") );
     parameterConnection( mTrackingPositionDecoder->parameterPort("positionOutput"), mCoreRenderer.parameterPort("trackingPositionInput") );
   }
 }
-- 
2.43.0


From 9bb8e23fa74b3d11f83d74afbf73ea06f3f0dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:19 +0000
Subject: [PATCH 102/203] fix: the GainMatrix signal flow left the control
 input of its matrix unconnected

---
 src/libsignalflows/gain_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsignalflows/gain_matrix.cpp b/src/libsignalflows/gain_matrix.cpp
index e3e2381..68644e4 100644
--- a/src/libsignalflows/gain_matrix.cpp
+++ b/src/libsignalflows/gain_matrix.cpp
@@ -25,7 +25,7 @@ GainMatrix::GainMatrix( SignalFlowContext const & context,
  , mInput( "input", *this )
  , mOutput( "output", *this )
 {
-  mMatrix.setup( cNumberOfInputs, cNumberOfOutputs, cInterpolationSteps, initialMatrix );
+  mMatrix.setup( cNumberOfInputs, cNumberOfOutputs, cInterpolationSteps, initialMatrix, false /* no control inputs */ );
 #if 1
   mInput.setWidth( cNumberOfInputs );
   mOutput.setWidth( cNumberOfOutputs );
-- 
2.43.0


From c7fa0b73c271b2ab79316f93ec40677e4bd846bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 103/203] fix: numberOfFrames() of an empty
 TimeFrequencyParameter divided by zero

---
 src/libpml/time_frequency_parameter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/time_frequency_parameter.hpp b/src/libpml/time_frequency_parameter.hpp
index 7991510..f6ed1cf 100644
--- a/src/libpml/time_frequency_parameter.hpp
+++ b/src/libpml/time_frequency_parameter.hpp
@@ -131,7 +131,7 @@ public:
   /**
    * Return the number of time/frequency frames in a single TimeFrequencyParameter message.
    */
-  std::size_t numberOfFrames() const { return mData.numberOfRows() / mNumberOfChannels; }
+  std::size_t numberOfFrames() const { return mNumberOfChannels == 0 ? 0 : mData.numberOfRows() / mNumberOfChannels; }
 
   /**
    * Return the stride (in number of complex elements) between successive audio channels within the same frame.
-- 
2.43.0


From 6bc64d9ec14608f9c44e4ca3c6d923d4ceeda101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 104/203] fix: TimeFrequencyTransform failed for transforms
 longer and for windows shorter than the input buffer expected

---
 src/librcl/time_frequency_transform.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 32b8405..cc8d344 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -57,7 +57,7 @@ std::size_t inputBufferSize( std::size_t windowLen,
         "The period size must be an integer multiple of the hop size." );
   }
   std::size_t const hopsPerPeriod{ period / hopSize };
-  return windowLen + ( hopsPerPeriod - 1 ) * hopSize;
+  return std::max( windowLen, hopSize ) + ( hopsPerPeriod - 1 ) * hopSize;
 }
 
 } // unnamed namespace
@@ -150,17 +150,8 @@ TimeFrequencyTransform::TimeFrequencyTransform(
       window.data(), window.data() + window.size(), mWindow.data(),
       [scaleFactor]( SampleType val ) { return scaleFactor * val; } );
 
-  // If the transform size is larger than the hop size, we have to prepend
-  // the input signal with zeros for the first transforms.
-  if( dftSize > hopSize )
-  {
-    std::size_t const padSamples{ cDftSize - hopSize };
-    efl::BasicVector< SampleType > initData( padSamples, cAlignment );
-    initData.zeroFill();
-    mInputBuffer.write(
-        initData.data(), 0 /*stride=0 means writing same vector*/,
-        cNumberOfChannels, padSamples, cVectorAlignmentSamples );
-  }
+  // The input buffer is initially zero, thus the input signal is preceded by
+  // zeros in the first transforms.
 }
 
 TimeFrequencyTransform::~TimeFrequencyTransform() = default;
-- 
2.43.0


From 9ccf83844205e232cf176d24c76e4e7b741b3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 105/203] fix: TimeFrequencyTransform assumed an alignment that
 its input buffer does not have

---
 src/librcl/time_frequency_transform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index cc8d344..58a66ae 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -170,7 +170,8 @@ void TimeFrequencyTransform::process()
     {
       efl::ErrorCode res = efl::vectorMultiply(
           mInputBuffer.getReadPointer( channelIndex, blockStartIndex ),
-          mWindow.data(), mCalcBuffer.data(), cWindowLength, cAlignment );
+          mWindow.data(), mCalcBuffer.data(), cWindowLength,
+          0 /* The read position is generally not aligned. */ );
       if( res != efl::noError )
       {
         throw std::runtime_error(
-- 
2.43.0


From 2af769030aea17b2999efeb5e68f1e9ec5311256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 106/203] fix: refuse hop sizes and windows the time-frequency
 transforms cannot process

---
 src/librcl/time_frequency_inverse_transform.cpp | 9 +++++++--
 src/librcl/time_frequency_transform.cpp         | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 4ec185f..2d4c99a 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -58,9 +58,9 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
  , cNumberOfDftBins(
        pml::TimeFrequencyParameter< SampleType >::numberOfBinsRealToComplex(
            dftSize ) )
- , cFramesPerPeriod( period() / hopSize )
+ , cFramesPerPeriod( hopSize == 0 ? 0 : period() / hopSize )
  , cHopSize( hopSize )
- , mAccumulationBuffer( cNumberOfChannels, dftSize - cHopSize, cAlignment )
+ , mAccumulationBuffer( cNumberOfChannels, dftSize > hopSize ? dftSize - hopSize : 0, cAlignment )
  , mFftWrapper( rbbl::FftWrapperFactory< SampleType >::create(
        fftImplementation, dftSize, cAlignment ) )
  , mCalcBuffer( dftSize, cAlignment )
@@ -72,6 +72,11 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
                cNumberOfDftBins, numberOfChannels, cFramesPerPeriod ) )
  , mOutput( "out", *this, numberOfChannels )
 {
+  if( ( hopSize == 0 ) or ( hopSize > dftSize ) )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyInverseTransform: The hop size must be between 1 and the DFT size." );
+  }
   if( period() % hopSize != 0 )
   {
     throw std::invalid_argument(
diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 58a66ae..05d247f 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -100,7 +100,7 @@ TimeFrequencyTransform::TimeFrequencyTransform(
  , cDftSize( dftSize )
  , cNumberOfDftBins( pml::TimeFrequencyParameter<SampleType>::numberOfBinsRealToComplex( dftSize ) )
  , cWindowLength( window.size() )
- , cFramesPerPeriod( context.period() / hopSize )
+ , cFramesPerPeriod( hopSize == 0 ? 0 : context.period() / hopSize )
  , cHopSize( hopSize )
  , mInputBuffer( numberOfChannels,
                  inputBufferSize( window.size(), hopSize, period() ),
@@ -122,6 +122,11 @@ TimeFrequencyTransform::TimeFrequencyTransform(
         "TimeFrequencyTransform: Invalid hop size (no integer number of hops "
         "per audio processing period)." );
   }
+  if( window.size() > dftSize )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyTransform: The window must not be longer than the DFT." );
+  }
   efl::vectorZero( mCalcBuffer.data(), mCalcBuffer.size(),
                    mCalcBuffer.alignmentElements() );
 
-- 
2.43.0


From fe2f35f4771aaa5823fe52f52b0e6655931a00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 107/203] fix: TimeFrequencyInverseTransform played only the
 last of several frames per block

---
 .../time_frequency_inverse_transform.cpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 2d4c99a..cc7a70c 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -124,17 +124,15 @@ void TimeFrequencyInverseTransform::process()
         throw std::runtime_error(
             "TimeFrequencyInverseTransform: Storing partial results failed." );
       }
-    }
-    // Copy first portion of accumulated result to output port.
-    // Also applies the DFT scaling.
-    // if( ( res = efl::vectorCopy( mCalcBuffer.data(), mOutput[ channelIdx ],
-    //                              period(), cAlignment ) ) != efl::noError )
-    if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
-        mCalcBuffer.data(), mOutput[ channelIdx ],
-        period(), cAlignment ) ) != efl::noError )
-    {
-      throw std::runtime_error(
-          "TimeFrequencyInverseTransform: Error while copying output data." );
+      // Copy the completed hop to the output port.
+      // Also applies the DFT scaling.
+      if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
+          mCalcBuffer.data(), mOutput[ channelIdx ] + frameIdx * cHopSize,
+          cHopSize, 0 /* Hops are generally not aligned. */ ) ) != efl::noError )
+      {
+        throw std::runtime_error(
+            "TimeFrequencyInverseTransform: Error while copying output data." );
+      }
     }
   }
 }
-- 
2.43.0


From ca804dc3736eb974a9fd63c89d27107722cb8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:26 +0000
Subject: [PATCH 108/203] fix: TimeFrequencyFeedthrough attenuated the signal
 because its two transforms normalised differently

---
 src/libsignalflows/time_frequency_feedthrough.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsignalflows/time_frequency_feedthrough.cpp b/src/libsignalflows/time_frequency_feedthrough.cpp
index ebc011c..639c668 100644
--- a/src/libsignalflows/time_frequency_feedthrough.cpp
+++ b/src/libsignalflows/time_frequency_feedthrough.cpp
@@ -18,7 +18,8 @@ TimeFrequencyFeedthrough::TimeFrequencyFeedthrough( SignalFlowContext const & co
 #ifndef JUST_FEEDTHROUGH
   // Use default FFT implementation
  , mForwardTransform( context, "ForwardTransform", this, numberOfChannels, dftSize, windowLength, hopSize )
- , mInverseTransform( context, "InverseTransform", this, numberOfChannels, dftSize, hopSize )
+ , mInverseTransform( context, "InverseTransform", this, numberOfChannels, dftSize, hopSize, "default",
+                      rcl::TimeFrequencyInverseTransform::Normalisation::Unitary ) // matches the normalisation of the forward transform
 #endif
  , mInput( "input", *this )
  , mOutput( "output", *this )
-- 
2.43.0


From 168307e6490e027887dda71498d99ba98979d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:20 +0000
Subject: [PATCH 109/203] fix: Python process() read wrong memory for input
 arrays with negative strides

---
 src/python/rrl/audio_signal_flow.cpp       | 10 +++++++---
 src/python/rrl/flexible_buffer_wrapper.cpp | 11 ++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index 31d4b89..e7acc90 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -49,6 +49,10 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
     throw std::invalid_argument( "AudioSignalFlow::process(): Dimension 0 input of the input matrix does not match the block size of the signal flow." );
   }
 
+  // The runtime system addresses the samples by nonnegative strides that are multiples of the sample size, while
+  // Numpy arrays (e.g., reversed views) may have arbitrary strides. This creates a copy only if it is needed.
+  py::array_t<SampleType, py::array::c_style> const samples( input );
+
   py::array outputSignal( py::dtype::of<SampleType>(),
   { flow.numberOfPlaybackChannels(), flow.period() },
   { sizeof( SampleType )*flow.period(), sizeof( SampleType ) } // TODO: Take care of alignment
@@ -58,9 +62,9 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
 
   try
   {
-    flow.process( static_cast<SampleType const *>(input.data()),
-                  input.strides(0)/sizeof(SampleType),
-                  input.strides(1)/sizeof(SampleType),
+    flow.process( static_cast<SampleType const *>(samples.data()),
+                  samples.strides(0)/sizeof(SampleType),
+                  samples.strides(1)/sizeof(SampleType),
                   static_cast<SampleType *>(outputSignal.mutable_data()),
                   outChannelStride,
                   outSampleStride );
diff --git a/src/python/rrl/flexible_buffer_wrapper.cpp b/src/python/rrl/flexible_buffer_wrapper.cpp
index a224c3b..acd5af1 100644
--- a/src/python/rrl/flexible_buffer_wrapper.cpp
+++ b/src/python/rrl/flexible_buffer_wrapper.cpp
@@ -60,6 +60,11 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
   }
   std::size_t const numFrames = static_cast< std::size_t >( input.shape( 1 ) );
 
+  // The runtime system addresses the samples by nonnegative strides that are
+  // multiples of the sample size, while Numpy arrays (e.g., reversed views) may
+  // have arbitrary strides. This creates a copy only if it is needed.
+  py::array_t< SampleType, py::array::c_style > const samples( input );
+
   py::array outputSignal(
       py::dtype::of< SampleType >(),
       { mFlow.numberOfPlaybackChannels(), numFrames },
@@ -74,9 +79,9 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
   try
   {
     visr::rrl::FlexibleBufferWrapper::process(
-        static_cast< SampleType const * >( input.data() ),
-        input.strides( 0 ) / sizeof( SampleType ),
-        input.strides( 1 ) / sizeof( SampleType ),
+        static_cast< SampleType const * >( samples.data() ),
+        samples.strides( 0 ) / sizeof( SampleType ),
+        samples.strides( 1 ) / sizeof( SampleType ),
         static_cast< SampleType * >( outputSignal.mutable_data() ),
         outChannelStride, outSampleStride,
         numFrames );
-- 
2.43.0


From 00391a9a78e27370dc4bed80ca0853d29740910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:20 +0000
Subject: [PATCH 110/203] fix: Python audio ports presented the padded channel
 stride as block size

---
 src/python/visr/audio_port.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index d7cdf4e..d0142db 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -33,6 +33,14 @@ namespace py = pybind11;
 namespace // unnamed
 {
 
+/**
+ * The number of samples per channel a port provides. This can be smaller than the channel stride, because channels are aligned.
+ */
+std::size_t blockSize( AudioPortBase const & port )
+{
+  return port.implementation().parent().period();
+}
+
 template<typename DataType>
 py::array_t<DataType> getInputBuffer( AudioInputT<DataType> & port )
 {
@@ -40,7 +48,7 @@ py::array_t<DataType> getInputBuffer( AudioInputT<DataType> & port )
     sizeof(DataType),
     py::format_descriptor<DataType>::format(),
     2 /* number of dimensions */,
-    { port.width(), port.channelStrideSamples() },
+    { port.width(), blockSize( port ) },
     { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
   );
   return py::array_t<DataType>( info );
@@ -53,7 +61,7 @@ py::array_t<DataType> getOutputBuffer( AudioOutputT<DataType> & port )
     sizeof( DataType ),
     py::format_descriptor<DataType>::format(),
     2 /* number of dimensions */,
-    { port.width(), port.channelStrideSamples() },
+    { port.width(), blockSize( port ) },
     { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) } ) );
 }
 
@@ -64,7 +72,7 @@ py::array_t<DataType> getInputChannel( AudioInputT<DataType> & port, std::size_t
     sizeof( DataType ),
     py::format_descriptor<DataType>::format(),
     1 /* number of dimensions */,
-    { port.channelStrideSamples() },
+    { blockSize( port ) },
     { sizeof( DataType ) }
   );
   return py::array_t<DataType>( info );
@@ -77,7 +85,7 @@ py::array_t<DataType> getOutputChannel( AudioOutputT<DataType> & port, std::size
     sizeof( DataType ),
     py::format_descriptor<DataType>::format(),
     1 /* number of dimensions */,
-    { port.channelStrideSamples() },
+    { blockSize( port ) },
     { sizeof( DataType ) } ) );
 }
 
@@ -87,20 +95,21 @@ void setOutputBuffer( AudioOutputT<DataType> & port, py::array_t<DataType> & mat
   py::buffer_info info = matrix.request();
   // TODO: check compatibility of matrices.
   std::size_t const numChannels = port.width();
-  std::size_t const bufferSize = port.channelStrideSamples();  // Should be blockSize
+  std::size_t const bufferSize = blockSize( port );
   if( (info.ndim != 2) or (info.shape[0] != static_cast<py::ssize_t>(numChannels))
       or (info.shape[1] != static_cast<py::ssize_t>(bufferSize) ) )  {
     throw std::invalid_argument( "AudioOutputPort.set(): matrix shape does not match." );
   }
   // Perform copying
   // TODO: Replace by optimised implementation
-  std::size_t const stride0 = info.strides[0] / sizeof(DataType);
-  std::size_t const stride1 = info.strides[1] / sizeof(DataType);
+  // Strides can be negative.
+  py::ssize_t const stride0 = info.strides[0] / static_cast<py::ssize_t>(sizeof(DataType));
+  py::ssize_t const stride1 = info.strides[1] / static_cast<py::ssize_t>(sizeof(DataType));
   DataType const * srcPtr = matrix.data();
   for( std::size_t chIdx(0); chIdx < numChannels; ++chIdx )
   {
     DataType * destPtr = port[chIdx];
-    DataType const * chPtr = srcPtr + stride0 * chIdx;
+    DataType const * chPtr = srcPtr + stride0 * static_cast<py::ssize_t>(chIdx);
     for( std::size_t sampleIdx(0); sampleIdx < bufferSize; ++sampleIdx, ++destPtr, chPtr += stride1 )
     {
       *destPtr = *chPtr;
@@ -121,7 +130,7 @@ void exportAudioInput( py::module & m, char const * name )
       sizeof( DataType ),
       py::format_descriptor<DataType>::format(),
       2 /* number of dimensions */,
-      { port.width(), port.channelStrideSamples() },
+      { port.width(), blockSize( port ) },
       { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
     );
   } )
@@ -144,7 +153,7 @@ void exportAudioOutput( py::module & m, char const * name )
       sizeof( DataType ),
       py::format_descriptor<DataType>::format(),
       2 /* number of dimensions */,
-      { port.width(), port.channelStrideSamples() },
+      { port.width(), blockSize( port ) },
       { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
     );
   } )
-- 
2.43.0


From e286043ed529d9bb2f7ed6685acf2863ad3dbef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:20 +0000
Subject: [PATCH 111/203] fix: writes to the arrays Python audio outputs return
 were lost

---
 src/python/visr/audio_port.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index d0142db..7702948 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -54,15 +54,15 @@ py::array_t<DataType> getInputBuffer( AudioInputT<DataType> & port )
   return py::array_t<DataType>( info );
 }
 
+/**
+ * Return the samples of an output port as a writable view, that is, assignments to the array elements are written to the port.
+ */
 template<typename DataType>
 py::array_t<DataType> getOutputBuffer( AudioOutputT<DataType> & port )
 {
-  return py::array_t<DataType>( py::buffer_info( port.data(),
-    sizeof( DataType ),
-    py::format_descriptor<DataType>::format(),
-    2 /* number of dimensions */,
-    { port.width(), blockSize( port ) },
-    { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) } ) );
+  return py::array_t<DataType>( { port.width(), blockSize( port ) },
+    { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) },
+    port.data(), py::cast( &port, py::return_value_policy::reference ) );
 }
 
 template<typename DataType>
@@ -78,15 +78,14 @@ py::array_t<DataType> getInputChannel( AudioInputT<DataType> & port, std::size_t
   return py::array_t<DataType>( info );
 }
 
+/**
+ * Return a channel of an output port as a writable view.
+ */
 template<typename DataType>
 py::array_t<DataType> getOutputChannel( AudioOutputT<DataType> & port, std::size_t index )
 {
-  return py::array_t<DataType>( py::buffer_info( const_cast<DataType*>(port.at( index )),
-    sizeof( DataType ),
-    py::format_descriptor<DataType>::format(),
-    1 /* number of dimensions */,
-    { blockSize( port ) },
-    { sizeof( DataType ) } ) );
+  return py::array_t<DataType>( { blockSize( port ) }, { sizeof( DataType ) },
+    port.at( index ), py::cast( &port, py::return_value_policy::reference ) );
 }
 
 template<typename DataType>
-- 
2.43.0


From e2727150850e7cbce0fdcaece96a8b0ac901bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:21 +0000
Subject: [PATCH 112/203] fix: BasicVector.set() read wrong memory for arrays
 with negative strides

---
 src/python/efl/basic_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/efl/basic_vector.cpp b/src/python/efl/basic_vector.cpp
index 4cbf0c3..4bffc60 100644
--- a/src/python/efl/basic_vector.cpp
+++ b/src/python/efl/basic_vector.cpp
@@ -33,7 +33,7 @@ void setData( BasicVector<DataType> & param, py::array_t<DataType> & vec )
   }
   // Perform copying
   // TODO: Replace by optimised implementation
-  std::size_t const stride = info.strides[0] / sizeof( DataType );
+  py::ssize_t const stride = info.strides[0] / static_cast<py::ssize_t>(sizeof( DataType )); // Can be negative
   DataType const * srcPtr = vec.data();
   DataType * destPtr = param.data();
   for( std::size_t elIdx( 0 ); elIdx < numElements; ++elIdx, ++destPtr, srcPtr += stride )
-- 
2.43.0


From b59e5f841265fad8109625f0abeebfe3e15fb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:21 +0000
Subject: [PATCH 113/203] fix: Python objects obtained from a signal flow could
 outlive it

---
 src/python/rrl/audio_signal_flow.cpp       | 12 ++++++------
 src/python/rrl/flexible_buffer_wrapper.cpp |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index e7acc90..f0b1392 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -136,8 +136,8 @@ R"(Python binding for the mutex type used by AudioSignalFlow to guard the exchan
 
   py::class_< ParameterExchangeMutexGuard >( cls, "ParameterExchangeMutexGuard",
 R"( Context manager to acquire the parameter exchange critical section lock with the Python "with" statement.)")
-    .def( py::init< ParameterExchangeMutex & >(), R"( Construct the context manager from the parameter exchange critical section mutex.)" )
-    .def( py::init< AudioSignalFlow & >(), R"(Convenience constructor the context manager directly from the AudioSignalFlow.)" )
+    .def( py::init< ParameterExchangeMutex & >(), py::keep_alive<1, 2>(), R"( Construct the context manager from the parameter exchange critical section mutex.)" )
+    .def( py::init< AudioSignalFlow & >(), py::keep_alive<1, 2>(), R"(Convenience constructor the context manager directly from the AudioSignalFlow.)" )
     .def( "__enter__", &ParameterExchangeMutexGuard::enter, py::return_value_policy::reference,
 R"(Implement the "__enter__" method of the ContextManager API. Called within the with statment, usually not called directly by users.)" )
     .def( "__exit__", &ParameterExchangeMutexGuard::exit,
@@ -152,8 +152,8 @@ R"(Implement the "__exit__" method of the ContextManager API. Called within the
    .def_property_readonly( "numberOfPlaybackChannels", &AudioSignalFlow::numberOfPlaybackChannels )
    .def_property_readonly( "numberParameterReceivePorts", &AudioSignalFlow::numberExternalParameterReceivePorts )
    .def_property_readonly( "numberParameterSendPorts", &AudioSignalFlow::numberExternalParameterSendPorts )
-   .def( "parameterReceivePort", &AudioSignalFlow::externalParameterReceivePort, py::arg("portName"), py::return_value_policy::reference )
-   .def( "parameterSendPort", &AudioSignalFlow::externalParameterSendPort, py::arg("portName"), py::return_value_policy::reference )
+   .def( "parameterReceivePort", &AudioSignalFlow::externalParameterReceivePort, py::arg("portName"), py::return_value_policy::reference_internal )
+   .def( "parameterSendPort", &AudioSignalFlow::externalParameterSendPort, py::arg("portName"), py::return_value_policy::reference_internal )
    .def( "parameterReceivePorts", &AudioSignalFlow::externalParameterReceiveEndpoints, py::return_value_policy::reference )
    .def( "parameterSendPorts", &AudioSignalFlow::externalParameterSendEndpoints )
    .def( "audioCapturePortName", &AudioSignalFlow::audioCapturePortName, py::arg("index"), py::return_value_policy::reference )
@@ -176,13 +176,13 @@ R"(Implement the "__exit__" method of the ContextManager API. Called within the
      },
      py::return_value_policy::take_ownership, "process() variant for flows with no audio inputs." )
    .def( "parameterExchangeMutex", &AudioSignalFlow::parameterExchangeMutex,
-     py::return_value_policy::reference, R"(Obtain the mutex for guarding the parameter data exchange,)" )
+     py::return_value_policy::reference_internal, R"(Obtain the mutex for guarding the parameter data exchange,)" )
 #ifdef VISR_RRL_RUNTIME_SYSTEM_PROFILING
    .def( "runtimeProfilingEnabled", &AudioSignalFlow::runtimeProfilingEnabled )
    .def( "enableRuntimeProfiling", &AudioSignalFlow::enableRuntimeProfiling, py::arg( "measurementBufferSize" ) )
    .def( "disableRuntimeProfiling", &AudioSignalFlow::disableRuntimeProfiling )
    .def( "runtimeProfiler", static_cast< visr::rrl::RuntimeProfiler &(AudioSignalFlow::*)()>(
-      &AudioSignalFlow::runtimeProfiler ), py::return_value_policy::reference )
+      &AudioSignalFlow::runtimeProfiler ), py::return_value_policy::reference_internal )
 #endif
   ;
 }
diff --git a/src/python/rrl/flexible_buffer_wrapper.cpp b/src/python/rrl/flexible_buffer_wrapper.cpp
index acd5af1..cb50226 100644
--- a/src/python/rrl/flexible_buffer_wrapper.cpp
+++ b/src/python/rrl/flexible_buffer_wrapper.cpp
@@ -101,7 +101,7 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
 void exportFlexibleBufferWrapper( py::module &m )
 {
   py::class_< FlexibleBufferWrapper >( m, "FlexibleBufferWrapper" )
-      .def( py::init< visr::rrl::AudioSignalFlow & >(), py::arg( "flow" ) )
+      .def( py::init< visr::rrl::AudioSignalFlow & >(), py::arg( "flow" ), py::keep_alive< 1, 2 >() )
       .def("process", &FlexibleBufferWrapper::process,
           py::arg( "input" ),
           py::return_value_policy::take_ownership )
-- 
2.43.0


From 798b9833ce91f7cd6dac9c65c8c6e16e837adfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:21 +0000
Subject: [PATCH 114/203] fix: strided vector conversions in Python did not
 check the array sizes

---
 src/python/efl/vector_conversions.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/python/efl/vector_conversions.cpp b/src/python/efl/vector_conversions.cpp
index 470e7ef..6af469d 100644
--- a/src/python/efl/vector_conversions.cpp
+++ b/src/python/efl/vector_conversions.cpp
@@ -27,6 +27,14 @@ namespace python
 namespace // unnamed
 {
 
+/**
+ * The number of elements an array must have to access \p numElements elements with a given stride.
+ */
+std::size_t requiredSize( std::size_t numElements, std::size_t stride )
+{
+  return numElements == 0 ? 0 : (numElements - 1) * stride + 1;
+}
+
 // template< typename InputType, typename OutputType >
 // ErrorCode vectorConvert( InputType const * const src,
 //                          OutputType * const dest,
@@ -58,7 +66,7 @@ void exportVectorConvertInputStride( py::module & m )
          []( Container<InputType> const & src, Container<OutputType> & dest, std::size_t numElements,
          std::size_t inputStride,  std::size_t alignment )
    {
-     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
+     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, requiredSize( numElements, inputStride ), "src" );
      OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
      detail::checkError( efl::vectorConvertInputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride,
@@ -82,7 +90,7 @@ void exportVectorConvertOutputStride( py::module & m )
          std::size_t outputStride,  std::size_t alignment )
    {
      InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
-     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
+     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, requiredSize( numElements, outputStride ), "dest" );
      detail::checkError( efl::vectorConvertOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, outputStride,
        alignment ) );
@@ -105,8 +113,8 @@ void exportVectorConvertInputOutputStride( py::module & m )
          []( Container<InputType> const & src, Container<OutputType> & dest, std::size_t numElements,
          std::size_t inputStride, std::size_t outputStride,  std::size_t alignment )
    {
-     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
-     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
+     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, requiredSize( numElements, inputStride ), "src" );
+     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, requiredSize( numElements, outputStride ), "dest" );
      detail::checkError( efl::vectorConvertInputOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride, outputStride,
        alignment ) );
-- 
2.43.0


From 5d6a5fb056a5ae0783b661a7d1857f6eecbfe83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:21 +0000
Subject: [PATCH 115/203] fix: vector functions in Python discarded their
 result if its data type did not match

---
 src/python/efl/filter_functions.cpp   |  2 +-
 src/python/efl/vector_conversions.cpp |  8 ++---
 src/python/efl/vector_functions.cpp   | 44 +++++++++++++--------------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/python/efl/filter_functions.cpp b/src/python/efl/filter_functions.cpp
index b861372..a0b8a1a 100644
--- a/src/python/efl/filter_functions.cpp
+++ b/src/python/efl/filter_functions.cpp
@@ -48,7 +48,7 @@ void export_iirFilterBiquadsSingleChannel( py::module & m )
        coeffStride * numSections, "coeffs" );
      checkError( visr::efl::iirFilterBiquadsSingleChannel<T>( inputPtr, outputPtr, statesPtr,
          coeffsPtr, numElements, numSections, stateStride, coeffStride, alignment ) );
-	 }, py::arg("input"), py::arg("output"), py::arg("states"), py::arg("coeffs"),
+	 }, py::arg("input"), py::arg("output").noconvert(), py::arg("states").noconvert(), py::arg("coeffs"),
     py::arg("numElements"), py::arg( "numSections" ),
     py::arg("stateStride") = 2, py::arg("coeffStride") = 0,
     py::arg("alignment")=0 );
diff --git a/src/python/efl/vector_conversions.cpp b/src/python/efl/vector_conversions.cpp
index 6af469d..ba10c88 100644
--- a/src/python/efl/vector_conversions.cpp
+++ b/src/python/efl/vector_conversions.cpp
@@ -49,7 +49,7 @@ void exportVectorConvert( py::module & m )
      InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
      OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
      detail::checkError( efl::vectorConvert<InputType, OutputType>( srcPtr, destPtr, numElements, alignment ) );
-   }, py::arg( "src" ), py::arg("dest"), py::arg("numElements"), py::arg("alignment")=0 );
+   }, py::arg( "src" ), py::arg("dest").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 // template< typename InputType, typename OutputType >
@@ -71,7 +71,7 @@ void exportVectorConvertInputStride( py::module & m )
      detail::checkError( efl::vectorConvertInputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride,
        alignment ) );
-   }, py::arg( "src" ), py::arg("dest"), py::arg("numElements"),
+   }, py::arg( "src" ), py::arg("dest").noconvert(), py::arg("numElements"),
    py::arg("inputStride"), py::arg("alignment")=0 );
 }
 
@@ -94,7 +94,7 @@ void exportVectorConvertOutputStride( py::module & m )
      detail::checkError( efl::vectorConvertOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, outputStride,
        alignment ) );
-   }, py::arg( "src" ), py::arg("dest"), py::arg("numElements"),
+   }, py::arg( "src" ), py::arg("dest").noconvert(), py::arg("numElements"),
    py::arg("outputStride"), py::arg("alignment")=0 );
 }
 
@@ -118,7 +118,7 @@ void exportVectorConvertInputOutputStride( py::module & m )
      detail::checkError( efl::vectorConvertInputOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride, outputStride,
        alignment ) );
-   }, py::arg( "src" ), py::arg("dest"), py::arg("numElements"),
+   }, py::arg( "src" ), py::arg("dest").noconvert(), py::arg("numElements"),
    py::arg( "inputStride" ), py::arg("outputStride"), py::arg("alignment")=0 );
 }
 
diff --git a/src/python/efl/vector_functions.cpp b/src/python/efl/vector_functions.cpp
index 0722566..863e62d 100644
--- a/src/python/efl/vector_functions.cpp
+++ b/src/python/efl/vector_functions.cpp
@@ -34,7 +34,7 @@ void exportVectorZero( py::module & m )
 	 {
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements, "dest" );
 	   detail::checkError( visr::efl::vectorZero<T>( destPtr, numElements, alignment ) );
-	 }, py::arg("dest"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("dest").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 template< template<typename> class Container, typename T >
@@ -45,7 +45,7 @@ void exportVectorFill( py::module & m )
 	 {
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements, "dest" );
 	   detail::checkError( visr::efl::vectorFill<T>( value, destPtr, numElements, alignment ) );
-	 }, py::arg("value"), py::arg("dest"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("value"), py::arg("dest").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 template< template<typename> class Container, typename T >
@@ -57,7 +57,7 @@ void exportVectorCopy( py::module & m )
 	   T const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer( src, numElements, "src" );
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements, "dest" );
 	   detail::checkError( visr::efl::vectorCopy<T>( srcPtr, destPtr, numElements, alignment ) );
-	 }, py::arg("src"), py::arg("dest"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("src"), py::arg("dest").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 template< template<typename> class Container, typename T >
@@ -71,7 +71,7 @@ void exportVectorCopyStrided( py::module & m )
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements*destStrideSamples, "dest" );
 	   detail::checkError( visr::efl::vectorCopyStrided<T>( srcPtr, destPtr, sourceStrideSamples,
                                                           destStrideSamples, numElements, alignment ) );
-	 }, py::arg("src"), py::arg("dest"), py::arg( "srcStride")=1, py::arg( "destStride")=1, py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("src"), py::arg("dest").noconvert(), py::arg( "srcStride")=1, py::arg( "destStride")=1, py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 template< template<typename> class Container, typename T >
@@ -84,7 +84,7 @@ void exportVectorRamp( py::module & m )
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements, "dest" );
 	   detail::checkError( visr::efl::vectorRamp<T>( destPtr, numElements,
 						 startVal, endVal, startInclusive, endInclusive, alignment ) );
-	 }, py::arg("dest"), py::arg("numElements"), py::arg("startVal"), py::arg("endVal"),
+	 }, py::arg("dest").noconvert(), py::arg("numElements"), py::arg("startVal"), py::arg("endVal"),
 	    py::arg("startInclusive")=true, py::arg("endInclusive")=true, py::arg("alignment")=0 );
 }
 
@@ -99,7 +99,7 @@ void exportVectorAdd( py::module & m )
 	   T const * const op2Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer( op2, numElements, "op2" );
 	   T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( result, numElements, "result" );
 	   detail::checkError( visr::efl::vectorAdd<T>( op1Ptr, op2Ptr, resultPtr, numElements, alignment ) );
-	 }, py::arg("op1"), py::arg("op2"), py::arg("result"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("op1"), py::arg("op2"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 //template<typename T>
@@ -117,7 +117,7 @@ void exportVectorAddInplace(py::module & m)
     T const * const addend1Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(addend1, numElements, "addend1");
     T * const addend2ResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(addend2Result, numElements, "addend2Result");
     detail::checkError(visr::efl::vectorAddInplace<T>(addend1Ptr, addend2ResultPtr, numElements, alignment));
-  }, py::arg("addend1"), py::arg("addend2Result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("addend1"), py::arg("addend2Result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -136,7 +136,7 @@ void exportVectorAddConstant(py::module & m)
     T const * const addendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(addend, numElements, "addend");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "result");
     detail::checkError(visr::efl::vectorAddConstant<T>(constantValue, addendPtr, resultPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("addend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("addend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -153,7 +153,7 @@ void exportVectorAddConstantInplace(py::module & m)
   {
     T * const addendResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(addendResult, numElements, "addendResult");
     detail::checkError(visr::efl::vectorAddConstantInplace<T>(constantValue, addendResultPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("addendResult"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("addendResult").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -173,7 +173,7 @@ void exportVectorSubtract(py::module & m)
     T const * const minuendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(minuend, numElements, "op2");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "result");
     detail::checkError(visr::efl::vectorSubtract<T>(subtrahendPtr, minuendPtr, resultPtr, numElements, alignment));
-  }, py::arg("subtrahend"), py::arg("minuend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("subtrahend"), py::arg("minuend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -191,7 +191,7 @@ void exportVectorSubtractInplace(py::module & m)
     T const * const minuendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(minuend, numElements, "addend1");
     T * const subtrahendResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(subtrahendResult, numElements, "addend2Result");
     detail::checkError(visr::efl::vectorSubtractInplace<T>(minuendPtr, subtrahendResultPtr, numElements, alignment));
-  }, py::arg("minuend"), py::arg("subtrahendResult"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("minuend"), py::arg("subtrahendResult").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -210,7 +210,7 @@ void exportVectorSubtractConstant(py::module & m)
     T const * const subtrahendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(subtrahend, numElements, "subtrahend");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "result");
     detail::checkError(visr::efl::vectorSubtractConstant<T>(constantMinuend, subtrahendPtr, resultPtr, numElements, alignment));
-  }, py::arg("constantMinuend"), py::arg("subtrahend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantMinuend"), py::arg("subtrahend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -227,7 +227,7 @@ void exportVectorSubtractConstantInplace(py::module & m)
   {
     T * const subtrahendResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(subtrahendResult, numElements, "subtrahendResult");
     detail::checkError(visr::efl::vectorSubtractConstantInplace<T>(constantMinuend, subtrahendResultPtr, numElements, alignment));
-  }, py::arg("constantMinuend"), py::arg("subtrahendResult"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantMinuend"), py::arg("subtrahendResult").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 template< template<typename> class Container, typename T >
@@ -241,7 +241,7 @@ void exportVectorMultiply( py::module & m )
 	   T const * const op2Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer( op2, numElements, "op2" );
 	   T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( result, numElements, "result" );
 	   detail::checkError( visr::efl::vectorMultiply<T>( op1Ptr, op2Ptr, resultPtr, numElements, alignment ) );
-	 }, py::arg("factor1"), py::arg("factor2"), py::arg("result"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("factor1"), py::arg("factor2"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 // template<typename T>
@@ -259,7 +259,7 @@ void exportVectorMultiplyInplace( py::module & m )
              T const * const factor1Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer( factor1, numElements, "factor1" );
              T * const factor2ResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( factor2Result, numElements, "factor2Result" );
              detail::checkError( visr::efl::vectorMultiplyInplace<T>( factor1Ptr, factor2ResultPtr, numElements, alignment ) );
-           }, py::arg("factor1"), py::arg("factor2Result"), py::arg("numElements"), py::arg("alignment")=0 );
+           }, py::arg("factor1"), py::arg("factor2Result").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 // template<typename T>
@@ -278,7 +278,7 @@ void exportVectorMultiplyConstant(py::module & m)
     T const * const factorPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(factor, numElements, "factor");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "result");
     detail::checkError(visr::efl::vectorMultiplyConstant<T>(constantValue, factorPtr, resultPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("factor"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("factor"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -295,7 +295,7 @@ void exportVectorMultiplyConstantInplace(py::module & m)
   {
     T * const factorResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(factorResult, numElements, "factorResult");
     detail::checkError(visr::efl::vectorMultiplyConstantInplace<T>( constantValue, factorResultPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("factorResult"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("factorResult").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -318,7 +318,7 @@ void exportVectorMultiplyAdd(py::module & m)
     T const * const addendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(addend, numElements, "addend");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "");
     detail::checkError(visr::efl::vectorMultiplyAdd<T>(factor1Ptr, factor2Ptr, addendPtr, resultPtr, numElements, alignment));
-  }, py::arg("factor1"), py::arg("factor2"), py::arg("addend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("factor1"), py::arg("factor2"), py::arg("addend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -339,7 +339,7 @@ void exportVectorMultiplyAddInplace(py::module & m)
     T const * const factor2Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(factor2, numElements, "factor2");
     T * const accumulatorPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(accumulator, numElements, "accumulator");
     detail::checkError(visr::efl::vectorMultiplyAddInplace<T>(factor1Ptr, factor2Ptr, accumulatorPtr, numElements, alignment));
-  }, py::arg("factor1"), py::arg("factor2"), py::arg("accumulator"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("factor1"), py::arg("factor2"), py::arg("accumulator").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -360,7 +360,7 @@ void exportVectorMultiplyConstantAdd(py::module & m)
     T const * const addendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(addend, numElements, "addend");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "");
     detail::checkError(visr::efl::vectorMultiplyConstantAdd<T>(constFactor, factorPtr, addendPtr, resultPtr, numElements, alignment));
-  }, py::arg("constantFactor"), py::arg("factor"), py::arg("addend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantFactor"), py::arg("factor"), py::arg("addend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -379,7 +379,7 @@ void exportVectorMultiplyConstantAddInplace(py::module & m)
     T const * const factorPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(factor, numElements, "factor");
     T * const accumulatorPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(accumulator, numElements, "accumulator");
     detail::checkError(visr::efl::vectorMultiplyConstantAddInplace<T>(constFactor, factorPtr, accumulatorPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("factor"), py::arg("accumulator"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("factor"), py::arg("accumulator").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -405,7 +405,7 @@ void exportVectorRampScaling(py::module & m)
     T * const outputPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(output, numElements, "output");
     detail::checkError(visr::efl::vectorRampScaling<T>(inputPtr, rampPtr, outputPtr,
       baseGain, rampGain, numElements, accumulate, alignment));
-  }, py::arg("input"), py::arg("ramp"), py::arg("output"), py::arg( "baseGain" ),
+  }, py::arg("input"), py::arg("ramp"), py::arg("output").noconvert(), py::arg( "baseGain" ),
     py::arg( "rampGain" ), py::arg("numElements"), py::arg( "accumulate" ) = false, py::arg("alignment") = 0 );
 }
 
-- 
2.43.0


From eed641badf87457180767d23ee4953c022b82ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:21 +0000
Subject: [PATCH 116/203] fix: len() of a Python channel list failed

---
 src/python/visr/channel_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/visr/channel_list.cpp b/src/python/visr/channel_list.cpp
index 826d91d..ac9084e 100644
--- a/src/python/visr/channel_list.cpp
+++ b/src/python/visr/channel_list.cpp
@@ -38,7 +38,7 @@ void exportChannelList( pybind11::module& m )
     .def( pybind11::init<ChannelRange const & >() )
     .def( "__str__", [](ChannelList const & self ){ std::stringstream outStr; outStr << self; return outStr.str();} )
     .def_property_readonly( "size", &ChannelList::size)
-    .def_property_readonly( "__len__", &ChannelList::size )
+    .def( "__len__", &ChannelList::size )
     .def( "__getitem__", static_cast<ChannelList::IndexType(ChannelList::*)(std::size_t)const>(&ChannelList::at) )
     .def( "__setitem__", [](ChannelList& cl, std::size_t index, ChannelList::IndexType val ){ cl.at(index) =val; } )
     .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());} )
-- 
2.43.0


From 93046b5ad22763ebeb02dd29d2659b94037788f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:00 +0000
Subject: [PATCH 117/203] fix: Python biquad filter function read past the end
 of the coefficients

---
 src/python/efl/filter_functions.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/efl/filter_functions.cpp b/src/python/efl/filter_functions.cpp
index a0b8a1a..7fce3f2 100644
--- a/src/python/efl/filter_functions.cpp
+++ b/src/python/efl/filter_functions.cpp
@@ -40,12 +40,14 @@ void export_iirFilterBiquadsSingleChannel( py::module & m )
       std::size_t stateStride, std::size_t coeffStride,
       std::size_t alignment )
 	 {
+     std::size_t const cNumberOfStates = 2; // State variables per biquad section
+     std::size_t const cNumberOfCoeffs = 5; // Filter coefficients per biquad section
 	   T const * inputPtr = ContainerAccess<Container, T >::constantPointer( input, numElements, "input" );
      T * outputPtr = ContainerAccess<Container, T >::mutablePointer( output, numElements, "dest" );
      T * statesPtr = ContainerAccess<Container, T >::mutablePointer( states,
-       numSections*stateStride, "states" );
+       numSections == 0 ? 0 : (numSections-1)*stateStride + cNumberOfStates, "states" );
      T const * coeffsPtr = ContainerAccess<Container, T >::constantPointer( coeffs,
-       coeffStride * numSections, "coeffs" );
+       numSections == 0 ? 0 : (numSections-1)*coeffStride + cNumberOfCoeffs, "coeffs" );
      checkError( visr::efl::iirFilterBiquadsSingleChannel<T>( inputPtr, outputPtr, statesPtr,
          coeffsPtr, numElements, numSections, stateStride, coeffStride, alignment ) );
 	 }, py::arg("input"), py::arg("output").noconvert(), py::arg("states").noconvert(), py::arg("coeffs"),
-- 
2.43.0


From b7b5229a27e8416700b5777e5ca6a26c7018eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:00 +0000
Subject: [PATCH 118/203] fix: coordinate indices of Python positions were not
 checked

---
 src/python/rbbl/position_3d.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/python/rbbl/position_3d.cpp b/src/python/rbbl/position_3d.cpp
index 2975aa8..cfb1d14 100644
--- a/src/python/rbbl/position_3d.cpp
+++ b/src/python/rbbl/position_3d.cpp
@@ -23,6 +23,13 @@ namespace py = pybind11;
 
 namespace 
 {
+  void checkIndex( std::size_t idx )
+  {
+    if( idx >= 3 ) // An IndexError also terminates Python's iteration over the coordinates.
+    {
+      throw py::index_error( "Position3D: Coordinate index out of range." );
+    }
+  }
 
   template< typename Coordinate >
   void exportPosition3D( pybind11::module & m, char const * className )
@@ -54,9 +61,9 @@ namespace
           );
         } )
       .def( "__getitem__", []( Position3D< Coordinate > const & pos, std::size_t idx )
-         { return pos[ idx ]; }, py::arg( "index" ) )
+         { checkIndex( idx ); return pos[ idx ]; }, py::arg( "index" ) )
       .def( "__setitem__", []( Position3D< Coordinate > & pos, std::size_t idx, Coordinate val )
-         { pos[ idx ] = val; }, py::arg( "index" ), py::arg( "value" ) )
+         { checkIndex( idx ); pos[ idx ] = val; }, py::arg( "index" ), py::arg( "value" ) )
       .def( "set", &Position3D< Coordinate >::set )
       .def( "set", []( Position3D< Coordinate > & self, 
          std::array< Coordinate, 3 > const & vec )
-- 
2.43.0


From 1418f82e2f2030d94a9c47db3fee179b9ec707b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:00 +0000
Subject: [PATCH 119/203] fix: indices of Python biquad coefficient matrices
 were not checked

---
 src/python/rbbl/biquad_coefficient.cpp | 36 ++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index 3e6f086..5383339 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -7,6 +7,7 @@
 
 #include <array>
 #include <string>
+#include <utility>
 #include <sstream>
 #include <vector>
 
@@ -121,6 +122,30 @@ namespace
       ;
   }
 
+  void checkIndex( std::size_t idx, std::size_t size )
+  {
+    if( idx >= size ) // An IndexError also terminates Python's iteration over the filters.
+    {
+      throw py::index_error( "BiquadCoefficientMatrix: Index out of range." );
+    }
+  }
+
+  /**
+   * Return the filter and section indices of an index tuple, throw an exception if they do not denote an element of the matrix.
+   */
+  template< typename CoeffType >
+  std::pair<std::size_t, std::size_t> matrixIndex( BiquadCoefficientMatrix<CoeffType> const & matrix, pybind11::tuple const & idx )
+  {
+    if( idx.size() != 2 )
+    {
+      throw py::index_error( "BiquadCoefficientMatrix: An element index must consist of a filter and a section index." );
+    }
+    std::pair<std::size_t, std::size_t> const ret( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() );
+    checkIndex( ret.first, matrix.numberOfFilters() );
+    checkIndex( ret.second, matrix.numberOfSections() );
+    return ret;
+  }
+
   template< typename CoeffType >
   void exportBiquadCoefficientMatrix( pybind11::module & m, char const * className )
   {
@@ -131,12 +156,13 @@ namespace
      .def_property_readonly( "numberOfFilters", &BiquadCoefficientMatrix<CoeffType>::numberOfFilters )
      .def_property_readonly( "numberOfSections", &BiquadCoefficientMatrix<CoeffType>::numberOfSections )
      .def( "resize", &BiquadCoefficientMatrix<CoeffType>::resize, py::arg("numberOfFilters"), py::arg( "numberOfBiquads" ) )
-     .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, std::size_t idx, BiquadCoefficientList<CoeffType> const & val ){ self[idx] = val; } )
-     .def( "__getitem__", static_cast<BiquadCoefficientList<CoeffType> const &(BiquadCoefficientMatrix<CoeffType>::*)( std::size_t) const >
-      (&BiquadCoefficientMatrix<CoeffType>::operator[] ) )
+     .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, std::size_t idx, BiquadCoefficientList<CoeffType> const & val ){ self.setFilter( idx, val ); } )
+     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> const & self, std::size_t idx )
+        { checkIndex( idx, self.numberOfFilters() ); return self[ idx ]; } )
       .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx, BiquadCoefficient<CoeffType> const & val )
-        { self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ) = val; } )
-     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx ) { return self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ); }, pybind11::arg( "index" ) )
+        { std::pair<std::size_t, std::size_t> const pos = matrixIndex( self, idx ); self( pos.first, pos.second ) = val; } )
+     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx )
+        { std::pair<std::size_t, std::size_t> const pos = matrixIndex( self, idx ); return self( pos.first, pos.second ); }, pybind11::arg( "index" ) )
      .def( "setFilter", &BiquadCoefficientMatrix<CoeffType>::setFilter, py::arg( "filterIdx" ), py::arg( "newFilters" ) )
      .def( "loadJson", static_cast< void( BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson ) )
      .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson) )
-- 
2.43.0


From 4ca7b182dbd0de0d616b7015746a99973b25c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:00 +0000
Subject: [PATCH 120/203] fix: text representations of Python biquad lists and
 matrices

---
 src/python/rbbl/biquad_coefficient.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index 5383339..5a78071 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -116,9 +116,9 @@ namespace
       .def( "__getitem__", static_cast<BiquadCoefficient<CoeffType> const &(BiquadCoefficientList<CoeffType>::*)(std::size_t)const>(&BiquadCoefficientList<CoeffType>::at ) )
       .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); } ) 
       .def( "loadJson", static_cast< void( BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson ) )
-      .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson) )
-      .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
-      .def( "writeXml", [](BiquadCoefficientList<CoeffType> const & self ){ std::string str; self.writeXml( str ); return self; } )
+      .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadXml) )
+      .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
+      .def( "writeXml", [](BiquadCoefficientList<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
       ;
   }
 
@@ -165,9 +165,9 @@ namespace
         { std::pair<std::size_t, std::size_t> const pos = matrixIndex( self, idx ); return self( pos.first, pos.second ); }, pybind11::arg( "index" ) )
      .def( "setFilter", &BiquadCoefficientMatrix<CoeffType>::setFilter, py::arg( "filterIdx" ), py::arg( "newFilters" ) )
      .def( "loadJson", static_cast< void( BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson ) )
-     .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson) )
-     .def( "writeJson", []( BiquadCoefficientMatrix<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
-     .def( "writeXml", [](BiquadCoefficientMatrix<CoeffType> const & self ){ std::string str; self.writeXml( str ); return self; } )
+     .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadXml) )
+     .def( "writeJson", []( BiquadCoefficientMatrix<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
+     .def( "writeXml", [](BiquadCoefficientMatrix<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
     ;
   }
 
-- 
2.43.0


From 8e5c9fad7f43e1d9ab129c5970f77ec13c1be25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:19 +0000
Subject: [PATCH 121/203] fix: Python components whose setup fails stayed
 registered in their parent

---
 src/python/rcl/delay_vector.cpp                 | 17 +++++++++--------
 src/python/rcl/gain_matrix.cpp                  | 13 +++++++------
 src/python/rcl/signal_routing.cpp               | 10 ++++++----
 .../reverb_parameter_calculator.cpp             |  6 ++++--
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/python/rcl/delay_vector.cpp b/src/python/rcl/delay_vector.cpp
index 882f6fc..3687dd5 100644
--- a/src/python/rcl/delay_vector.cpp
+++ b/src/python/rcl/delay_vector.cpp
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <ciso646>
+#include <memory>
 #include <vector>
 
 namespace visr
@@ -82,10 +83,10 @@ void exportDelayVector( py::module & m )
           std::size_t numberOfChannels, std::size_t interpolationSteps, SampleType maxDelay, const char * interpolationMethod,
           DelayVector::MethodDelayPolicy methodDelayPolicy, DelayVector::ControlPortConfig controlInputs, SampleType initialDelay, SampleType initialGain)
       {
-        DelayVector * inst = new DelayVector( context, name, parent );
+        std::unique_ptr<DelayVector> inst( new DelayVector( context, name, parent ) ); // Unregister from the parent if setup() fails.
         inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
                     methodDelayPolicy, controlInputs, initialDelay, initialGain );
-        return inst;
+        return inst.release();
       }),
       py::arg( "context" ), py::arg( "name" ), py::arg( "parent" ),
       py::arg( "numberOfChannels" ),
@@ -101,10 +102,10 @@ void exportDelayVector( py::module & m )
         DelayVector::MethodDelayPolicy methodDelayPolicy, DelayVector::ControlPortConfig controlInputs, efl::BasicVector< SampleType > const & initialDelaysSeconds,
         efl::BasicVector< SampleType > const & initialGainsLinear )
       {
-        DelayVector * inst = new DelayVector( context, name, parent );
+        std::unique_ptr<DelayVector> inst( new DelayVector( context, name, parent ) ); // Unregister from the parent if setup() fails.
         inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
           methodDelayPolicy, controlInputs, initialDelaysSeconds, initialGainsLinear );
-        return inst;
+        return inst.release();
       }),
       py::arg( "context" ), py::arg( "name" ), py::arg( "parent" ),
       py::arg( "numberOfChannels" ),
@@ -125,10 +126,10 @@ void exportDelayVector( py::module & m )
           efl::BasicVector<SampleType> delays{ bindinghelpers::vectorFromNdArray<SampleType>(initialDelaysSeconds, alignment ) };
           efl::BasicVector<SampleType> gains{ bindinghelpers::vectorFromNdArray<SampleType>(initialGainsLinear, alignment ) };
 
-          DelayVector * inst = new DelayVector( context, name, parent );
+          std::unique_ptr<DelayVector> inst( new DelayVector( context, name, parent ) ); // Unregister from the parent if setup() fails.
           inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
           methodDelayPolicy, controlInputs, delays, gains );
-          return inst;
+          return inst.release();
         } ),
           py::arg( "context" ), py::arg( "name" ), py::arg( "parent" ),
         py::arg( "numberOfChannels" ),
@@ -151,10 +152,10 @@ void exportDelayVector( py::module & m )
           fillBasicVector<SampleType>( delays, initialDelaysSeconds );
           fillBasicVector<SampleType>( gains, initialGainsLinear );
 
-          DelayVector * inst = new DelayVector( context, name, parent );
+          std::unique_ptr<DelayVector> inst( new DelayVector( context, name, parent ) ); // Unregister from the parent if setup() fails.
           inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
           methodDelayPolicy, controlInputs, delays, gains );
-          return inst;
+          return inst.release();
         } ),
           py::arg( "context" ), py::arg( "name" ), py::arg( "parent" ),
         py::arg( "numberOfChannels" ),
diff --git a/src/python/rcl/gain_matrix.cpp b/src/python/rcl/gain_matrix.cpp
index 17b9660..9d3c70e 100644
--- a/src/python/rcl/gain_matrix.cpp
+++ b/src/python/rcl/gain_matrix.cpp
@@ -13,6 +13,7 @@
 #include <pybind11/pybind11.h>
 
 #include <ciso646>
+#include <memory>
 #include <stdexcept>
 
 namespace visr
@@ -36,9 +37,9 @@ void exportGainMatrix( pybind11::module & m )
                           SampleType initialGain,
                           bool controlInput )
       {
-        GainMatrix * inst = new GainMatrix( context, name, parent );
+        std::unique_ptr<GainMatrix> inst( new GainMatrix( context, name, parent ) ); // Unregister from the parent if setup() fails.
         inst->setup( numberOfInputs, numberOfOutputs, interpolationSteps, initialGain, controlInput );
-        return inst;
+        return inst.release();
       }),  py::arg("context"), py::arg("name"), py::arg("parent"), py::arg("numberOfInputs"),
         py::arg( "numberOfOutputs" ), py::arg( "interpolationSteps" ) = 0,
         py::arg( "initialGains" ) = static_cast<SampleType>(1.0),
@@ -50,9 +51,9 @@ void exportGainMatrix( pybind11::module & m )
                        efl::BasicMatrix< SampleType > const & initialGains,
                        bool controlInput )
        {
-         GainMatrix * inst = new GainMatrix( context, name, parent );
+         std::unique_ptr<GainMatrix> inst( new GainMatrix( context, name, parent ) ); // Unregister from the parent if setup() fails.
          inst->setup( numberOfInputs, numberOfOutputs, interpolationSteps, initialGains, controlInput );
-         return inst;
+         return inst.release();
        }),  py::arg("context"), py::arg("name"), py::arg("parent"), py::arg("numberOfInputs"),
        py::arg("numberOfOutputs"), py::arg("interpolationSteps"), py::arg("initialGains"),
        py::arg("controlInput") = true )
@@ -68,9 +69,9 @@ void exportGainMatrix( pybind11::module & m )
           {
             throw std::invalid_argument( "Size of the initial gains matrix does not match the expected shape" );
           }
-          GainMatrix * inst = new GainMatrix( context, name, parent );
+          std::unique_ptr<GainMatrix> inst( new GainMatrix( context, name, parent ) ); // Unregister from the parent if setup() fails.
           inst->setup( numberOfInputs, numberOfOutputs, interpolationSteps, gains, controlInput );
-          return inst;
+          return inst.release();
         }),  py::arg("context"), py::arg("name"), py::arg("parent"), py::arg("numberOfInputs"),
         py::arg("numberOfOutputs"), py::arg("interpolationSteps"), py::arg("initialGains"),
         py::arg("controlInput") = true )
diff --git a/src/python/rcl/signal_routing.cpp b/src/python/rcl/signal_routing.cpp
index 0115223..bf9984f 100644
--- a/src/python/rcl/signal_routing.cpp
+++ b/src/python/rcl/signal_routing.cpp
@@ -10,6 +10,8 @@
 
 #include <pybind11/pybind11.h>
 
+#include <memory>
+
 namespace visr
 {
 namespace python
@@ -30,9 +32,9 @@ void exportSignalRouting( pybind11::module & m )
                         std::size_t outputWidth,
                         bool controlInput )
       {
-        SignalRouting * inst = new SignalRouting( context, name, parent );
+        std::unique_ptr<SignalRouting> inst( new SignalRouting( context, name, parent ) ); // Unregister from the parent if setup() fails.
        inst->setup( inputWidth, outputWidth, controlInput );
-       return inst;
+       return inst.release();
       }),  py::arg("context"), py::arg("name"), py::arg("parent"),
       py::arg( "inputWidth" ), py::arg( "outputWidth" ), py::arg( "controlInput" ) = true,
       "Constructor with an empty initial routing." )
@@ -43,9 +45,9 @@ void exportSignalRouting( pybind11::module & m )
                         pml::SignalRoutingParameter const & initialRouting,
                         bool controlInput )
       {
-        SignalRouting * inst = new SignalRouting( context, name, parent );
+        std::unique_ptr<SignalRouting> inst( new SignalRouting( context, name, parent ) ); // Unregister from the parent if setup() fails.
         inst->setup( inputWidth, outputWidth, initialRouting, controlInput );
-        return inst;
+        return inst.release();
       }),  py::arg("context"), py::arg("name"), py::arg("parent"),
       py::arg( "inputWidth" ), py::arg( "outputWidth" ), py::arg( "initialRouting" ),
       py::arg( "controlInput" ) = true,
diff --git a/src/python/reverbobject/reverb_parameter_calculator.cpp b/src/python/reverbobject/reverb_parameter_calculator.cpp
index b47a49a..d0f7a3f 100644
--- a/src/python/reverbobject/reverb_parameter_calculator.cpp
+++ b/src/python/reverbobject/reverb_parameter_calculator.cpp
@@ -10,6 +10,8 @@
 
 #include <pybind11/pybind11.h>
 
+#include <memory>
+
 namespace visr
 {
 namespace python
@@ -35,10 +37,10 @@ void exportReverbParameterCalculator( py::module& m )
           SampleType lateReflectionLengthSeconds,
           std::size_t numLateReflectionSubBandFilters )
       {
-        ReverbParameterCalculator * inst = new ReverbParameterCalculator( context, name, parent );
+        std::unique_ptr<ReverbParameterCalculator> inst( new ReverbParameterCalculator( context, name, parent ) ); // Unregister from the parent if setup() fails.
         inst->setup( arrayConfig, numberOfObjects, numberOfDiscreteReflectionsPerSource,
                      numBiquadSectionsReflectionFilters, lateReflectionLengthSeconds, numLateReflectionSubBandFilters );
-        return inst;
+        return inst.release();
       }),
       py::arg( "context" ), py::arg( "name" ),
       py::arg( "parent" ),
-- 
2.43.0


From 3e4678ae0650b2eb3ca9a9e9171348b5421c15e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:54 +0000
Subject: [PATCH 122/203] fix: Python audio ports that are not part of a signal
 flow accessed a null pointer

---
 src/python/visr/audio_port.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index 7702948..d47e68e 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -20,6 +20,7 @@
 
 #include <ciso646>
 #include <cstdint>
+#include <stdexcept>
 
 namespace visr
 {
@@ -35,12 +36,26 @@ namespace // unnamed
 
 /**
  * The number of samples per channel a port provides. This can be smaller than the channel stride, because channels are aligned.
+ * @throw std::logic_error If the port has no samples yet because it is not part of a signal flow.
  */
 std::size_t blockSize( AudioPortBase const & port )
 {
+  if( (port.width() > 0) and not port.implementation().initialised() )
+  {
+    throw std::logic_error( "Audio port: The samples can be accessed only after a signal flow has been created." );
+  }
   return port.implementation().parent().period();
 }
 
+/**
+ * The number of samples per channel provided by the buffer protocol.
+ * Ports that have no samples yet provide an empty buffer, because buffer protocol callbacks must not throw.
+ */
+std::size_t bufferBlockSize( AudioPortBase const & port )
+{
+  return port.implementation().initialised() ? blockSize( port ) : 0;
+}
+
 template<typename DataType>
 py::array_t<DataType> getInputBuffer( AudioInputT<DataType> & port )
 {
@@ -129,7 +144,7 @@ void exportAudioInput( py::module & m, char const * name )
       sizeof( DataType ),
       py::format_descriptor<DataType>::format(),
       2 /* number of dimensions */,
-      { port.width(), blockSize( port ) },
+      { port.width(), bufferBlockSize( port ) },
       { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
     );
   } )
@@ -152,7 +167,7 @@ void exportAudioOutput( py::module & m, char const * name )
       sizeof( DataType ),
       py::format_descriptor<DataType>::format(),
       2 /* number of dimensions */,
-      { port.width(), blockSize( port ) },
+      { port.width(), bufferBlockSize( port ) },
       { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
     );
   } )
-- 
2.43.0


From d2a1fed821d7585855b3aaed11a8a8639af12747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:54 +0000
Subject: [PATCH 123/203] fix: Python VBAP gain calculation did not check the
 array receiving the gains

---
 src/libpanning/VBAP.h       |  5 +++++
 src/python/panning/vbap.cpp | 32 ++++++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/libpanning/VBAP.h b/src/libpanning/VBAP.h
index 31b916c..b81cede 100644
--- a/src/libpanning/VBAP.h
+++ b/src/libpanning/VBAP.h
@@ -66,6 +66,11 @@ public:
    * @param z Cartesian z coordinate of the new listener position
    */
   void setListenerPosition( SampleType x, SampleType y, SampleType z );
+
+  /**
+   * Return the number of regular loudspeakers, i.e., the number of gains computed by calculateGains() and calculateGainsUnNormalised().
+   */
+  std::size_t numberOfRegularLoudspeakers() const { return numRegLoudspeakers; }
   
 private:
   
diff --git a/src/python/panning/vbap.cpp b/src/python/panning/vbap.cpp
index 81963ae..2592394 100644
--- a/src/python/panning/vbap.cpp
+++ b/src/python/panning/vbap.cpp
@@ -8,6 +8,9 @@
 #include <pybind11/numpy.h>
 #include <pybind11/stl.h>
 
+#include <ciso646>
+#include <stdexcept>
+
 namespace visr
 {
 using panning::VBAP;
@@ -20,6 +23,27 @@ namespace panning
 
 namespace py = pybind11;
 
+namespace // unnamed
+{
+
+/**
+ * Return the pointer to the elements of an array that receives the loudspeaker gains, after checking that it can hold them.
+ */
+SampleType * gainPointer( VBAP const & vbap, pybind11::array_t<SampleType> & gains )
+{
+  if( (gains.ndim() != 1) or (gains.shape( 0 ) < static_cast<py::ssize_t>( vbap.numberOfRegularLoudspeakers() )) )
+  {
+    throw std::invalid_argument( "VBAP: The gains argument must be a vector with an element for each regular loudspeaker." );
+  }
+  if( (gains.shape( 0 ) > 1) and (gains.strides( 0 ) != static_cast<py::ssize_t>( sizeof( SampleType ) )) )
+  {
+    throw std::invalid_argument( "VBAP: The gains argument must be contiguous." );
+  }
+  return gains.mutable_data(); // Throws if the array is not writeable.
+}
+
+} // unnamed namespace
+
 void exportVBAP(pybind11::module & m)
 {
   pybind11::class_<VBAP>(m, "VBAP")
@@ -29,12 +53,12 @@ void exportVBAP(pybind11::module & m)
          pybind11::arg("listenerPosZ")=0.0)
     .def( "calculateGains",
           [](VBAP const & self, SampleType x, SampleType y, SampleType z, pybind11::array_t<SampleType> & gains, bool planeWave)
-          { self.calculateGains(x, y, z, static_cast<SampleType*>(gains.request().ptr), planeWave); },
-          py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains"), py::arg("planeWave") = false)
+          { self.calculateGains(x, y, z, gainPointer( self, gains ), planeWave); },
+          py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains").noconvert(), py::arg("planeWave") = false)
     .def( "calculateGainsUnNormalised",
           []( VBAP const & self, SampleType x , SampleType y, SampleType z, pybind11::array_t<SampleType> & gains, bool planeWave )
-          { self.calculateGainsUnNormalised( x, y, z, static_cast<SampleType*>(gains.request().ptr), planeWave ); },
-          py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains"), py::arg("planeWave")=false )
+          { self.calculateGainsUnNormalised( x, y, z, gainPointer( self, gains ), planeWave ); },
+          py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains").noconvert(), py::arg("planeWave")=false )
     .def("setListenerPosition", &VBAP::setListenerPosition, py::arg("x"), py::arg("y"), py::arg("z") )
     ;
 }
-- 
2.43.0


From 7d3c41cc3ae93af607eeb54cde2c60504ee8bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:54 +0000
Subject: [PATCH 124/203] fix: fromJson() of Python routing lists required an
 additional argument

---
 src/python/rbbl/filter_routing.cpp      | 2 +-
 src/python/rbbl/sparse_gain_routing.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/rbbl/filter_routing.cpp b/src/python/rbbl/filter_routing.cpp
index e0ec8d3..d8f2e9b 100644
--- a/src/python/rbbl/filter_routing.cpp
+++ b/src/python/rbbl/filter_routing.cpp
@@ -43,7 +43,7 @@ void exportFilterRouting( pybind11::module & m)
         }),
     pybind11::arg("entries"), "Constructor from Python list or iterable of type FilterRouting" )
     .def( pybind11::init<const FilterRoutingList &>() )
-    .def_static( "fromJson", [](FilterRoutingList &, std::string const & str ){ return FilterRoutingList::fromJson( str ); } )
+    .def_static( "fromJson", []( std::string const & str ){ return FilterRoutingList::fromJson( str ); } )
     .def( "parseJson", static_cast<void(FilterRoutingList::*)(std::string const &)>(&FilterRoutingList::parseJson), pybind11::arg("initString") )
     .def_property_readonly("empty", &FilterRoutingList::empty )
     .def_property_readonly("size", &FilterRoutingList::size )
diff --git a/src/python/rbbl/sparse_gain_routing.cpp b/src/python/rbbl/sparse_gain_routing.cpp
index 22cec37..5caec1f 100644
--- a/src/python/rbbl/sparse_gain_routing.cpp
+++ b/src/python/rbbl/sparse_gain_routing.cpp
@@ -42,7 +42,7 @@ void exportSparseGainRouting( pybind11::module & m)
         }),
     pybind11::arg("entries"), "Constructor from Python list or iterable of type FilterRouting" )
     .def( pybind11::init<const SparseGainRoutingList &>(), "Copy constructor" )
-    .def_static( "fromJson", []( SparseGainRoutingList &, std::string const & str ){ return SparseGainRoutingList::fromJson( str ); } )
+    .def_static( "fromJson", []( std::string const & str ){ return SparseGainRoutingList::fromJson( str ); } )
     .def( "parseJson", static_cast<void(SparseGainRoutingList::*)(std::string const &)>(&SparseGainRoutingList::parseJson), pybind11::arg("initString") )
     .def_property_readonly("empty", &SparseGainRoutingList::empty )
     .def_property_readonly("size", &SparseGainRoutingList::size )
-- 
2.43.0


From a2551bb3c64f9fc69ed816b3496d202dd6848ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:54 +0000
Subject: [PATCH 125/203] fix: shape of Python late reverberation coefficients
 was not checked

---
 src/python/objectmodel/point_source_with_reverb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/objectmodel/point_source_with_reverb.cpp b/src/python/objectmodel/point_source_with_reverb.cpp
index 0ebcee4..e6a4648 100644
--- a/src/python/objectmodel/point_source_with_reverb.cpp
+++ b/src/python/objectmodel/point_source_with_reverb.cpp
@@ -63,7 +63,7 @@ void setArray( PointSourceWithReverb::LateReverb & param,
                CoeffSetter method,
                pybind11::array_t<float> const & values )
 {
-  if( values.shape()[0] != PointSourceWithReverb::cNumberOfSubBands )
+  if( (values.ndim() != 1) or (values.shape()[0] != PointSourceWithReverb::cNumberOfSubBands) )
   {
     throw std::invalid_argument( "PointSourceWithReverb::LateReverb::setArray() called with wrong array length." );
   }
-- 
2.43.0


From b56d5774b03f264daae7c31778fa04ddc423a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 126/203] fix: Python objects returned by components, ports and
 protocols could outlive their owner

---
 .../objectmodel/point_source_with_reverb.cpp       |  4 ++--
 src/python/panning/loudspeaker_array.cpp           |  4 ++--
 src/python/pml/double_buffering_protocol.cpp       |  4 ++--
 src/python/pml/message_queue_protocol.cpp          |  2 +-
 src/python/pml/shared_data_protocol.cpp            |  4 ++--
 src/python/rbbl/interpolation_parameter.cpp        |  2 +-
 src/python/rrl/audio_signal_flow.cpp               |  2 +-
 src/python/visr/audio_connection.cpp               |  4 ++--
 src/python/visr/component.cpp                      | 14 +++++++-------
 src/python/visr/composite_component.cpp            |  6 +++---
 src/python/visr/parameter_connection.cpp           |  4 ++--
 src/python/visr/parameter_port.cpp                 |  8 ++++----
 12 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/python/objectmodel/point_source_with_reverb.cpp b/src/python/objectmodel/point_source_with_reverb.cpp
index e6a4648..2bd779e 100644
--- a/src/python/objectmodel/point_source_with_reverb.cpp
+++ b/src/python/objectmodel/point_source_with_reverb.cpp
@@ -84,11 +84,11 @@ void exportPointSourceWithReverb( pybind11::module & m )
     .def( py::init<ObjectId>(), py::arg("objectId") )
     .def_property_readonly( "lateReverb",
       static_cast<PointSourceWithReverb::LateReverb const&(PointSourceWithReverb::*)()const>(&PointSourceWithReverb::lateReverb),
-      py::return_value_policy::reference )
+      py::return_value_policy::reference_internal )
     .def( "numberOfDiscreteReflections", &PointSourceWithReverb::numberOfDiscreteReflections )
     .def( "setNumberOfDiscreteReflections", &PointSourceWithReverb::setNumberOfDiscreteReflections, py::arg( "newNumber" ) )
     .def( "discreteReflection", static_cast<PointSourceWithReverb::DiscreteReflection&(PointSourceWithReverb::*)(std::size_t)>(&PointSourceWithReverb::discreteReflection),
-      py::arg( "idx" ), py::return_value_policy::reference )
+      py::arg( "idx" ), py::return_value_policy::reference_internal )
     .def( "setDiscreteReflections", &setDiscreteReflections, py::arg( "newReflections" ) )
   .def_property_readonly_static("numberOfDiscreteReflectionEqSections", []( py::object self ){ return PointSourceWithReverb::cNumDiscreteReflectionBiquads; }, "Number of wall reflection biquad sections." )
   .def_property_readonly_static("numberOfLateReflectionSubbands", []( py::object self ){ return PointSourceWithReverb::cNumberOfSubBands; }, "Number of filter subbands for the late reverb filter parameter." )
diff --git a/src/python/panning/loudspeaker_array.cpp b/src/python/panning/loudspeaker_array.cpp
index d27f84e..7847e11 100644
--- a/src/python/panning/loudspeaker_array.cpp
+++ b/src/python/panning/loudspeaker_array.cpp
@@ -102,8 +102,8 @@ void exportLoudspeakerArray( pybind11::module & m)
     .def_property_readonly("numberOfSubwoofers", &LoudspeakerArray::getNumSubwoofers)
     .def("subwooferChannelIndices", &getSubwooferChannelIndices )
     .def("subwooferChannelIndex", &LoudspeakerArray::getSubwooferChannel, pybind11::arg("subwooferIndex"))
-    .def("getSubwooferGains", &LoudspeakerArray::getSubwooferGains, pybind11::return_value_policy::reference)
-    .def("getReRoutingCoefficients", &LoudspeakerArray::getReroutingCoefficients, pybind11::return_value_policy::reference)
+    .def("getSubwooferGains", &LoudspeakerArray::getSubwooferGains, pybind11::return_value_policy::reference_internal)
+    .def("getReRoutingCoefficients", &LoudspeakerArray::getReroutingCoefficients, pybind11::return_value_policy::reference_internal)
     .def("getReRoutingCoefficient", &LoudspeakerArray::getReroutingCoefficient, pybind11::arg("virtualSpeakerIdx"), pybind11::arg("realSpeakerIdx"))
     .def("getLoudspeakerGainAdjustment", &LoudspeakerArray::getLoudspeakerGainAdjustment, pybind11::arg("speakerIdx"))
     .def("getLoudspeakerDelayAdjustment", &LoudspeakerArray::getLoudspeakerDelayAdjustment, pybind11::arg("speakerIdx"))
diff --git a/src/python/pml/double_buffering_protocol.cpp b/src/python/pml/double_buffering_protocol.cpp
index 3b9d922..f2b684a 100644
--- a/src/python/pml/double_buffering_protocol.cpp
+++ b/src/python/pml/double_buffering_protocol.cpp
@@ -29,14 +29,14 @@ void exportDoubleBufferingProtocol( pybind11::module & m)
 
   pybind11::class_<DoubleBufferingProtocol::InputBase, CommunicationProtocolBase::Input>( doubleBuffering, "InputBase" )
     .def( pybind11::init<>() )
-    .def( "data", &DoubleBufferingProtocol::InputBase::data, pybind11::return_value_policy::reference )
+    .def( "data", &DoubleBufferingProtocol::InputBase::data, pybind11::return_value_policy::reference_internal )
     .def( "changed", &DoubleBufferingProtocol::InputBase::changed )
     .def( "resetChanged", &DoubleBufferingProtocol::InputBase::resetChanged )
     ;
 
   pybind11::class_<DoubleBufferingProtocol::OutputBase, CommunicationProtocolBase::Output>( doubleBuffering, "OutputBase" )
     .def( pybind11::init<>() )
-    .def( "data", &DoubleBufferingProtocol::OutputBase::data, pybind11::return_value_policy::reference )
+    .def( "data", &DoubleBufferingProtocol::OutputBase::data, pybind11::return_value_policy::reference_internal )
     .def( "set",
     []( DoubleBufferingProtocol::OutputBase & self, visr::ParameterBase const & data, bool swapBuffers )
     {
diff --git a/src/python/pml/message_queue_protocol.cpp b/src/python/pml/message_queue_protocol.cpp
index 3f29b36..1f3e828 100644
--- a/src/python/pml/message_queue_protocol.cpp
+++ b/src/python/pml/message_queue_protocol.cpp
@@ -31,7 +31,7 @@ void exportMessageQueueProtocol( pybind11::module & m)
     .def( pybind11::init<>() )
     .def( "empty", &MessageQueueProtocol::InputBase::empty, "Query whether the queue is empty." )
     .def( "size", &MessageQueueProtocol::InputBase::size, "Return the number of elements in the queue" )
-    .def( "front", &MessageQueueProtocol::InputBase::front, pybind11::return_value_policy::reference, "Return a reference to the next element in the queue, throw an exception if the queue is empty." )
+    .def( "front", &MessageQueueProtocol::InputBase::front, pybind11::return_value_policy::reference_internal, "Return a reference to the next element in the queue, throw an exception if the queue is empty." )
     .def( "pop", &MessageQueueProtocol::InputBase::pop, "Clear the front-most element from the queue. If the queue is empty, an exception is thrown." )
     .def( "clear", &MessageQueueProtocol::InputBase::clear, "Clear all elements from the queue" )
     ;
diff --git a/src/python/pml/shared_data_protocol.cpp b/src/python/pml/shared_data_protocol.cpp
index b72b0a1..399e03a 100644
--- a/src/python/pml/shared_data_protocol.cpp
+++ b/src/python/pml/shared_data_protocol.cpp
@@ -29,12 +29,12 @@ void exportSharedDataProtocol( pybind11::module & m)
 
   pybind11::class_<SharedDataProtocol::InputBase, CommunicationProtocolBase::Input>( doubleBuffering, "InputBase" )
     .def( pybind11::init<>() )
-    .def( "data", &SharedDataProtocol::InputBase::data, pybind11::return_value_policy::reference )
+    .def( "data", &SharedDataProtocol::InputBase::data, pybind11::return_value_policy::reference_internal )
     ;
 
   pybind11::class_<SharedDataProtocol::OutputBase, CommunicationProtocolBase::Output>( doubleBuffering, "OutputBase" )
     .def( pybind11::init<>() )
-    .def( "data", &SharedDataProtocol::OutputBase::data, pybind11::return_value_policy::reference )
+    .def( "data", &SharedDataProtocol::OutputBase::data, pybind11::return_value_policy::reference_internal )
     ;
 
 }
diff --git a/src/python/rbbl/interpolation_parameter.cpp b/src/python/rbbl/interpolation_parameter.cpp
index a2a8a3b..0fbd17c 100644
--- a/src/python/rbbl/interpolation_parameter.cpp
+++ b/src/python/rbbl/interpolation_parameter.cpp
@@ -57,7 +57,7 @@ void exportInterpolationParameter( pybind11::module & m)
   	  	  	// C++14 would allow searching for a key without constructing an element.
   	  	  	InterpolationParameterSet::iterator const findIt = self.find( cmp );
   	  	  	return (findIt == self.end()) ? nullptr : &(*findIt);
-  		  }, py::arg("index"), py::return_value_policy::reference, "Return an interpolation parameter for a given filter index" )
+  		  }, py::arg("index"), py::return_value_policy::reference_internal, "Return an interpolation parameter for a given filter index" )
 	;
 }
 
diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index f0b1392..dfd34bc 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -154,7 +154,7 @@ R"(Implement the "__exit__" method of the ContextManager API. Called within the
    .def_property_readonly( "numberParameterSendPorts", &AudioSignalFlow::numberExternalParameterSendPorts )
    .def( "parameterReceivePort", &AudioSignalFlow::externalParameterReceivePort, py::arg("portName"), py::return_value_policy::reference_internal )
    .def( "parameterSendPort", &AudioSignalFlow::externalParameterSendPort, py::arg("portName"), py::return_value_policy::reference_internal )
-   .def( "parameterReceivePorts", &AudioSignalFlow::externalParameterReceiveEndpoints, py::return_value_policy::reference )
+   .def( "parameterReceivePorts", &AudioSignalFlow::externalParameterReceiveEndpoints, py::return_value_policy::reference_internal )
    .def( "parameterSendPorts", &AudioSignalFlow::externalParameterSendEndpoints )
    .def( "audioCapturePortName", &AudioSignalFlow::audioCapturePortName, py::arg("index"), py::return_value_policy::reference )
    .def( "audioPlaybackPortName", &AudioSignalFlow::audioPlaybackPortName, py::arg( "index" ), py::return_value_policy::reference )
diff --git a/src/python/visr/audio_connection.cpp b/src/python/visr/audio_connection.cpp
index 2b78ded..74e7a62 100644
--- a/src/python/visr/audio_connection.cpp
+++ b/src/python/visr/audio_connection.cpp
@@ -32,12 +32,12 @@ void exportAudioConnection( pybind11::module& m )
                            []( impl::AudioConnection const & self ) -> AudioPortBase const &
                            {
                              return self.sender()->containingPort();
-                           }, pybind11::return_value_policy::reference )
+                           }, pybind11::return_value_policy::reference_internal )
    .def_property_readonly( "receiver",
                            []( impl::AudioConnection const & self ) -> AudioPortBase const &
                            {
                              return self.receiver()->containingPort();
-                           }, pybind11::return_value_policy::reference )
+                           }, pybind11::return_value_policy::reference_internal )
    .def_property_readonly( "sendIndices", &impl::AudioConnection::sendIndices )
    .def_property_readonly( "receiveIndices", &impl::AudioConnection::receiveIndices )
    .def( "__str__", []( impl::AudioConnection const & conn )
diff --git a/src/python/visr/component.cpp b/src/python/visr/component.cpp
index e57f634..1b41b20 100644
--- a/src/python/visr/component.cpp
+++ b/src/python/visr/component.cpp
@@ -67,14 +67,14 @@ void exportComponent( pybind11::module& m )
     .def( "isComposite", &Component::isComposite )
     .def( "samplingFrequency", &Component::samplingFrequency ) 
     .def( "period", &Component::period )
-    .def( "time", &Component::time, pybind11::return_value_policy::reference )
+    .def( "time", &Component::time, pybind11::return_value_policy::reference_internal )
     .def( "isTopLevel", &Component::isTopLevel )
-    .def( "audioPort", static_cast<AudioPortBase&(Component::*)(std::string const &)>(&Component::audioPort), pybind11::arg("portName"), "Return an audio port object by name", pybind11::return_value_policy::reference )
-    .def( "parameterPort", static_cast<ParameterPortBase&(Component::*)(std::string const &)>(&Component::parameterPort), pybind11::arg( "portName" ), "Return a parameter port object by name", pybind11::return_value_policy::reference )
+    .def( "audioPort", static_cast<AudioPortBase&(Component::*)(std::string const &)>(&Component::audioPort), pybind11::arg("portName"), "Return an audio port object by name", pybind11::return_value_policy::reference_internal )
+    .def( "parameterPort", static_cast<ParameterPortBase&(Component::*)(std::string const &)>(&Component::parameterPort), pybind11::arg( "portName" ), "Return a parameter port object by name", pybind11::return_value_policy::reference_internal )
     .def( "status", static_cast<void(Component::*)(::visr::StatusMessage::Kind, char const*)>(&Component::status), pybind11::arg("statusId"), pybind11::arg("message") )
       .def_property_readonly(
           "audioPorts",
-          []( Component & comp )
+          pybind11::cpp_function( []( Component & comp )
           {
             impl::ComponentImplementation::AudioPortContainer & portList =
                 comp.implementation().audioPorts();
@@ -82,11 +82,11 @@ void exportComponent( pybind11::module& m )
                 impl::ComponentImplementation::AudioPortContainer >;
             return pybind11::make_iterator( IterWrapper{ portList.begin() },
                                             IterWrapper{ portList.end() } );
-          },
+          }, pybind11::keep_alive<0, 1>() ),
           "Return an iterator over the audio ports of this component." )
       .def_property_readonly(
           "parameterPorts",
-          []( Component & comp )
+          pybind11::cpp_function( []( Component & comp )
           {
             impl::ComponentImplementation::ParameterPortContainer & portList =
                 comp.implementation().parameterPorts();
@@ -94,7 +94,7 @@ void exportComponent( pybind11::module& m )
                 impl::ComponentImplementation::ParameterPortContainer >;
             return pybind11::make_iterator( IterWrapper{ portList.begin() },
                                             IterWrapper{ portList.end() } );
-          },
+          }, pybind11::keep_alive<0, 1>() ),
           "Return an iterator over the parameter ports of this component." )
     ;
 }
diff --git a/src/python/visr/composite_component.cpp b/src/python/visr/composite_component.cpp
index 69b4925..8189645 100644
--- a/src/python/visr/composite_component.cpp
+++ b/src/python/visr/composite_component.cpp
@@ -103,17 +103,17 @@ void exportCompositeComponent( pybind11::module& m )
        {
          impl::CompositeComponentImplementation & implCC = compositeComp->implementation();
          return pybind11::make_iterator( ComponentIterator{ implCC.componentBegin() }, ComponentIterator{ implCC.componentEnd() } );
-       }, "Return a Python iterator over the contained components at this level of hierarchy." )
+       }, "Return a Python iterator over the contained components at this level of hierarchy.", pybind11::keep_alive<0, 1>() )
     .def( "audioConnections", []( CompositeComponent * compositeComp )
     {
       impl::CompositeComponentImplementation & implCC = compositeComp->implementation();
       return pybind11::make_iterator( implCC.audioConnectionBegin(), implCC.audioConnectionEnd() );
-    }, "Return an iterator over all audio connections in the component" )
+    }, "Return an iterator over all audio connections in the component", pybind11::keep_alive<0, 1>() )
     .def( "parameterConnections", []( CompositeComponent * compositeComp )
     {
       impl::CompositeComponentImplementation & implCC = compositeComp->implementation();
       return pybind11::make_iterator( implCC.parameterConnectionBegin(), implCC.parameterConnectionEnd() );
-    }, "Return an iterator over all parameter connections in the component." )
+    }, "Return an iterator over all parameter connections in the component.", pybind11::keep_alive<0, 1>() )
     ;
 }
 
diff --git a/src/python/visr/parameter_connection.cpp b/src/python/visr/parameter_connection.cpp
index 147aa76..212c7ba 100644
--- a/src/python/visr/parameter_connection.cpp
+++ b/src/python/visr/parameter_connection.cpp
@@ -32,12 +32,12 @@ void exportParameterConnection( pybind11::module& m )
                            []( impl::ParameterConnection const & self ) -> ParameterPortBase &
                            {
                              return self.sender()->containingPort();
-                           }, pybind11::return_value_policy::reference )
+                           }, pybind11::return_value_policy::reference_internal )
    .def_property_readonly( "receiver",
                            []( impl::ParameterConnection const & self ) -> ParameterPortBase &
                            {
                              return self.receiver()->containingPort();
-                           }, pybind11::return_value_policy::reference )
+                           }, pybind11::return_value_policy::reference_internal )
    .def( "__str__", []( impl::ParameterConnection const & conn )
    {
      std::stringstream repr;
diff --git a/src/python/visr/parameter_port.cpp b/src/python/visr/parameter_port.cpp
index 5359e97..024def7 100644
--- a/src/python/visr/parameter_port.cpp
+++ b/src/python/visr/parameter_port.cpp
@@ -44,14 +44,14 @@ void exportParameterPort( pybind11::module & m)
     ;
 
   pybind11::class_<ParameterInputBase, ParameterPortBase>( m, "ParameterInputBase" )
-    .def( "protocolInput", &ParameterInputBase::protocolInput, pybind11::return_value_policy::reference )
-    .def_property_readonly( "protocol", &ParameterInputBase::protocolInput, pybind11::return_value_policy::reference,
+    .def( "protocolInput", &ParameterInputBase::protocolInput, pybind11::return_value_policy::reference_internal )
+    .def_property_readonly( "protocol", &ParameterInputBase::protocolInput, pybind11::return_value_policy::reference_internal,
       "Access the port's protocol as a Python property" )
     ;
 
   pybind11::class_<ParameterOutputBase, ParameterPortBase>( m, "ParameterOutputBase" )
-    .def( "protocolOutput", &ParameterOutputBase::protocolOutput, pybind11::return_value_policy::reference )
-    .def_property_readonly( "protocol", &ParameterOutputBase::protocolOutput, pybind11::return_value_policy::reference,
+    .def( "protocolOutput", &ParameterOutputBase::protocolOutput, pybind11::return_value_policy::reference_internal )
+    .def_property_readonly( "protocol", &ParameterOutputBase::protocolOutput, pybind11::return_value_policy::reference_internal,
       "Access the port's protocol as a Python property" );
 
   pybind11::class_<PolymorphicParameterInput, ParameterInputBase>( m, "ParameterInput" )
-- 
2.43.0


From e33e23b24ac4a1072ed1acbd8cc2e77e545b8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 127/203] fix: Python iterators could outlive the container
 they refer to

---
 src/python/efl/basic_vector.cpp             | 2 +-
 src/python/objectmodel/object_vector.cpp    | 2 +-
 src/python/pml/signal_routing_parameter.cpp | 2 +-
 src/python/rbbl/biquad_coefficient.cpp      | 2 +-
 src/python/rbbl/filter_routing.cpp          | 2 +-
 src/python/rbbl/interpolation_parameter.cpp | 2 +-
 src/python/rbbl/sparse_gain_routing.cpp     | 2 +-
 src/python/visr/channel_list.cpp            | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/python/efl/basic_vector.cpp b/src/python/efl/basic_vector.cpp
index 4bffc60..d2b7dac 100644
--- a/src/python/efl/basic_vector.cpp
+++ b/src/python/efl/basic_vector.cpp
@@ -87,7 +87,7 @@ void exportBasicVector( py::module & m, char const * className )
   .def( "set", &setData<DataType> )
   .def( "__getitem__", []( BasicVector<DataType> const & vec, std::size_t idx ) { return vec.at( idx ); }, py::arg( "index" ) )
   .def( "__setitem__", []( BasicVector<DataType> & vec, std::size_t idx, DataType val ) { vec.at( idx ) = val; }, py::arg( "index" ), py::arg( "value" ) )
-  .def( "__iter__", []( BasicVector<DataType> & vec ){ return py::make_iterator(vec.data(), vec.data()+vec.size() ); }, "Return an iterator pair to the contents of the vector" )
+  .def( "__iter__", []( BasicVector<DataType> & vec ){ return py::make_iterator(vec.data(), vec.data()+vec.size() ); }, py::keep_alive<0, 1>(), "Return an iterator pair to the contents of the vector" )
   ;
 }
 
diff --git a/src/python/objectmodel/object_vector.cpp b/src/python/objectmodel/object_vector.cpp
index 74b3b53..0007eb0 100644
--- a/src/python/objectmodel/object_vector.cpp
+++ b/src/python/objectmodel/object_vector.cpp
@@ -30,7 +30,7 @@ void exportObjectVector( py::module & m )
        }
        return inst;
      }), py::arg("objects"), "Create an object vector out of a Pyhon list of objects." )
-    .def( "__iter__", [](ObjectVector& ov){ return py::make_iterator(ov.begin(), ov.end() ); }, py::return_value_policy::reference_internal, "Return a Python iterator over all contained objects." )
+    .def( "__iter__", [](ObjectVector& ov){ return py::make_iterator(ov.begin(), ov.end() ); }, py::keep_alive<0, 1>(), "Return a Python iterator over all contained objects." )
     .def_property_readonly( "size", &ObjectVector::size, "Return the number of objects in the vector" )
     .def_property_readonly( "empty", &ObjectVector::empty, "Return whether the object vector is empty." )
     .def( "at", static_cast<Object&(ObjectVector::*)(ObjectId)>(&ObjectVector::at), py::return_value_policy::reference_internal, py::arg("id"), "Return a reference to an object with the given id." )
diff --git a/src/python/pml/signal_routing_parameter.cpp b/src/python/pml/signal_routing_parameter.cpp
index e069239..8992d1c 100644
--- a/src/python/pml/signal_routing_parameter.cpp
+++ b/src/python/pml/signal_routing_parameter.cpp
@@ -46,7 +46,7 @@ void exportSignalRoutingParameter( py::module & m)
                        }
                        return inst;
                      } ), py::arg("initList") )
-   .def( "__iter__", [](SignalRoutingParameter& sr){ return py::make_iterator(sr.begin(), sr.end()); }, "Return a Python iterator over the contained routings." )
+   .def( "__iter__", [](SignalRoutingParameter& sr){ return py::make_iterator(sr.begin(), sr.end()); }, py::keep_alive<0, 1>(), "Return a Python iterator over the contained routings." )
    .def_property_readonly("size", &SignalRoutingParameter::size )
    .def( "swap", &SignalRoutingParameter::swap )
    .def_property_readonly("empty", &SignalRoutingParameter::empty )
diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index 5a78071..65ecfd6 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -114,7 +114,7 @@ namespace
       .def( "__len__", &BiquadCoefficientList<CoeffType>::size )
       .def( "__setitem__", []( BiquadCoefficientList<CoeffType> & self, std::size_t idx, BiquadCoefficient<CoeffType> const & val ){ self.at(idx) = val; } )
       .def( "__getitem__", static_cast<BiquadCoefficient<CoeffType> const &(BiquadCoefficientList<CoeffType>::*)(std::size_t)const>(&BiquadCoefficientList<CoeffType>::at ) )
-      .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); } ) 
+      .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); }, py::keep_alive<0, 1>() ) 
       .def( "loadJson", static_cast< void( BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson ) )
       .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadXml) )
       .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
diff --git a/src/python/rbbl/filter_routing.cpp b/src/python/rbbl/filter_routing.cpp
index d8f2e9b..450e634 100644
--- a/src/python/rbbl/filter_routing.cpp
+++ b/src/python/rbbl/filter_routing.cpp
@@ -48,7 +48,7 @@ void exportFilterRouting( pybind11::module & m)
     .def_property_readonly("empty", &FilterRoutingList::empty )
     .def_property_readonly("size", &FilterRoutingList::size )
     .def( "__len__", &FilterRoutingList::size )
-    .def( "__iter__", [](FilterRoutingList & fr ){ return pybind11::make_iterator(fr.begin(), fr.end() ); } )
+    .def( "__iter__", [](FilterRoutingList & fr ){ return pybind11::make_iterator(fr.begin(), fr.end() ); }, pybind11::keep_alive<0, 1>() )
     .def( "__repr__", [](FilterRoutingList const & frl )
     {
       std::stringstream ret;
diff --git a/src/python/rbbl/interpolation_parameter.cpp b/src/python/rbbl/interpolation_parameter.cpp
index 0fbd17c..b7d1d9f 100644
--- a/src/python/rbbl/interpolation_parameter.cpp
+++ b/src/python/rbbl/interpolation_parameter.cpp
@@ -49,7 +49,7 @@ void exportInterpolationParameter( pybind11::module & m)
   			} ), py::arg( "interpolantList") )
   	.def( "__len__", &InterpolationParameterSet::size )
   	.def_property_readonly( "size", &InterpolationParameterSet::size )
-  	.def( "__iter__", [](InterpolationParameterSet & self){ return py::make_iterator(self.begin(), self.end() ); } )
+  	.def( "__iter__", [](InterpolationParameterSet & self){ return py::make_iterator(self.begin(), self.end() ); }, py::keep_alive<0, 1>() )
   	.def( "insert", [](InterpolationParameterSet & self, InterpolationParameter const & val ) { self.insert( val ); } )
   	.def( "__getitem__", [](InterpolationParameterSet & self, InterpolationParameter::IdType id )
   		  {
diff --git a/src/python/rbbl/sparse_gain_routing.cpp b/src/python/rbbl/sparse_gain_routing.cpp
index 5caec1f..55f3e2d 100644
--- a/src/python/rbbl/sparse_gain_routing.cpp
+++ b/src/python/rbbl/sparse_gain_routing.cpp
@@ -48,7 +48,7 @@ void exportSparseGainRouting( pybind11::module & m)
     .def_property_readonly("size", &SparseGainRoutingList::size )
     .def( "swap", &SparseGainRoutingList::swap, py::arg( "rhs") )
     .def( "__len__", &SparseGainRoutingList::size )
-    .def( "__iter__", [](SparseGainRoutingList & sgr ){ return pybind11::make_iterator(sgr.begin(), sgr.end() ); } )
+    .def( "__iter__", [](SparseGainRoutingList & sgr ){ return pybind11::make_iterator(sgr.begin(), sgr.end() ); }, pybind11::keep_alive<0, 1>() )
     .def( "__getitem__", &SparseGainRoutingList::getEntry )
     .def( "__repr__", [](SparseGainRoutingList const & sgr )
     {
diff --git a/src/python/visr/channel_list.cpp b/src/python/visr/channel_list.cpp
index ac9084e..70da344 100644
--- a/src/python/visr/channel_list.cpp
+++ b/src/python/visr/channel_list.cpp
@@ -41,7 +41,7 @@ void exportChannelList( pybind11::module& m )
     .def( "__len__", &ChannelList::size )
     .def( "__getitem__", static_cast<ChannelList::IndexType(ChannelList::*)(std::size_t)const>(&ChannelList::at) )
     .def( "__setitem__", [](ChannelList& cl, std::size_t index, ChannelList::IndexType val ){ cl.at(index) =val; } )
-    .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());} )
+    .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());}, pybind11::keep_alive<0, 1>() )
     ;
 }
 
-- 
2.43.0


From 8f2dab814071638591695659dc604b86e9d80fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:17 +0000
Subject: [PATCH 128/203] fix: ports destroyed after their component accessed
 freed memory

---
 src/libvisr/impl/component_implementation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libvisr/impl/component_implementation.cpp b/src/libvisr/impl/component_implementation.cpp
index 52fb28f..1a97607 100644
--- a/src/libvisr/impl/component_implementation.cpp
+++ b/src/libvisr/impl/component_implementation.cpp
@@ -45,6 +45,15 @@ ComponentImplementation::ComponentImplementation( Component & component,
 
 ComponentImplementation::~ComponentImplementation()
 {
+  // Ports that outlive the component (e.g., when created in Python) must not try to unregister later.
+  for( AudioPortBaseImplementation * port : mAudioPorts )
+  {
+    port->removeParent();
+  }
+  for( ParameterPortBaseImplementation * port : mParameterPorts )
+  {
+    port->removeParent();
+  }
   if( not isTopLevel() )
   {
     mParent->unregisterChildComponent( this );
-- 
2.43.0


From 9cdc859a5f1abe9252f4af02e587c2797e5c4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:57 +0000
Subject: [PATCH 129/203] fix: Python vectors had no length and could not be
 passed to DelayVector

---
 src/python/efl/basic_vector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/efl/basic_vector.cpp b/src/python/efl/basic_vector.cpp
index d2b7dac..2f78e39 100644
--- a/src/python/efl/basic_vector.cpp
+++ b/src/python/efl/basic_vector.cpp
@@ -82,6 +82,7 @@ void exportBasicVector( py::module & m, char const * className )
         } ), py::arg( "values" ), py::arg( "alignment" ) = visr::cVectorAlignmentSamples, "Create a BasicVector from a Python list." )
     .def_property_readonly( "size", &BasicVector<DataType>::size )
     .def_property_readonly( "alignment", &BasicVector<DataType>::alignmentElements, "Return the alignment of the numeric data (in number of elements)." )
+  .def( "__len__", &BasicVector<DataType>::size, "Return the number of elements. Also used if a vector is passed as a Python sequence." )
   .def( "resize", []( BasicVector<DataType> & vp, std::size_t newSize ) { vp.resize(newSize); }, py::arg( "numberOfElements" ) )
   .def( "zeroFill", []( BasicVector<DataType> & vp ) { vp.zeroFill(); } )
   .def( "set", &setData<DataType> )
-- 
2.43.0


From 1bf5edf0751a1ce7116f0c5992535004fa206e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:16 +0000
Subject: [PATCH 130/203] fix: SparseGainRoutingList removed the wrong routing
 when given an input and an output

---
 src/librbbl/sparse_gain_routing.cpp | 23 ++++++++++++++++++-----
 src/librbbl/sparse_gain_routing.hpp | 12 ++++++------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/librbbl/sparse_gain_routing.cpp b/src/librbbl/sparse_gain_routing.cpp
index 9dd636f..a8548e6 100644
--- a/src/librbbl/sparse_gain_routing.cpp
+++ b/src/librbbl/sparse_gain_routing.cpp
@@ -136,6 +136,11 @@ void SparseGainRoutingList::addRouting( SparseGainRouting const & newEntry )
   }
 }
 
+bool SparseGainRoutingList::removeRouting( IndexType const & entryIndex )
+{
+  return removeRouting( SparseGainRouting( entryIndex, SparseGainRouting::cInvalidIndex, SparseGainRouting::cInvalidIndex ) );
+}
+
 bool SparseGainRoutingList::removeRouting( SparseGainRouting const & entry )
 {
   RoutingsType::const_iterator const findIt = mRoutings.find( entry );
@@ -149,13 +154,21 @@ bool SparseGainRoutingList::removeRouting( SparseGainRouting const & entry )
 
 bool SparseGainRoutingList::removeRouting( SparseGainRouting::IndexType inputIdx, SparseGainRouting::IndexType outputIdx )
 {
-  RoutingsType::const_iterator const findIt = mRoutings.find( SparseGainRouting( inputIdx, outputIdx, SparseGainRouting::cInvalidIndex ) );
-  if( findIt != mRoutings.end() )
+  // The routings are ordered by entry index, and several entries can denote the same routing point.
+  bool found( false );
+  for( RoutingsType::const_iterator it = mRoutings.begin(); it != mRoutings.end(); )
   {
-    mRoutings.erase( findIt );
-    return true;
+    if( (it->columnIndex == inputIdx) and (it->rowIndex == outputIdx) )
+    {
+      it = mRoutings.erase( it );
+      found = true;
+    }
+    else
+    {
+      ++it;
+    }
   }
-  return false;
+  return found;
 }
 
 void SparseGainRoutingList::parseJson( std::string const & encoded )
diff --git a/src/librbbl/sparse_gain_routing.hpp b/src/librbbl/sparse_gain_routing.hpp
index a1eb6cb..404518e 100644
--- a/src/librbbl/sparse_gain_routing.hpp
+++ b/src/librbbl/sparse_gain_routing.hpp
@@ -202,17 +202,17 @@ public:
 
 
   /**
-   * Remove a routing entry speficied by the input and output indices of \p entry.
-   * The filterIndex and gainValue attributes of \p entry are ignored.
-   * @param entry The routing entry (specified by the input and output index) to be removed.
+   * Remove a routing entry speficied by the entry index of \p entry.
+   * The row and column indices and the gain of \p entry are ignored.
+   * @param entry The routing entry (specified by the entry index) to be removed.
    * @return \p true if the removal was successful, and \p false if no element has been removed.
    */
   bool removeRouting( SparseGainRouting const & entry );
 
   /**
-  * Remove a routing entry speficied by the input and the output index.
-  * @param inputIdx The input index of the routing to be removed.
-  * @param outputIdx The output index of the routing to be removed.
+  * Remove the routing entries speficied by the input and the output index.
+  * @param inputIdx The input index (i.e., the matrix column) of the routing to be removed.
+  * @param outputIdx The output index (i.e., the matrix row) of the routing to be removed.
   * @return \p true if the removal was successful, and \p false if no element has been removed.
   */
   bool removeRouting( IndexType inputIdx, IndexType outputIdx );
-- 
2.43.0


From 9ad78c4d3f2ac8445c87f9b564b94e4abb2b04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 131/203] fix: Python process() deadlocked if another thread
 held the parameter exchange mutex

---
 src/python/rrl/audio_signal_flow.cpp       | 15 +++++++++++----
 src/python/rrl/flexible_buffer_wrapper.cpp | 13 +++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index dfd34bc..af59181 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -60,12 +60,19 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
   std::size_t const outChannelStride = outputSignal.strides(0) / sizeof(DataType);
   std::size_t const outSampleStride = outputSignal.strides( 1 ) / sizeof( DataType );
 
+  SampleType const * const inputPtr = samples.data();
+  SampleType * const outputPtr = static_cast<SampleType *>(outputSignal.mutable_data());
+  std::size_t const inChannelStride = samples.strides(0)/sizeof(SampleType);
+  std::size_t const inSampleStride = samples.strides(1)/sizeof(SampleType);
   try
   {
-    flow.process( static_cast<SampleType const *>(samples.data()),
-                  samples.strides(0)/sizeof(SampleType),
-                  samples.strides(1)/sizeof(SampleType),
-                  static_cast<SampleType *>(outputSignal.mutable_data()),
+    // Do not hold the interpreter lock while waiting for the parameter exchange mutex, because the thread owning
+    // the mutex might need it to proceed. Components implemented in Python acquire the interpreter lock when called.
+    py::gil_scoped_release release;
+    flow.process( inputPtr,
+                  inChannelStride,
+                  inSampleStride,
+                  outputPtr,
                   outChannelStride,
                   outSampleStride );
   }
diff --git a/src/python/rrl/flexible_buffer_wrapper.cpp b/src/python/rrl/flexible_buffer_wrapper.cpp
index cb50226..f59bdfe 100644
--- a/src/python/rrl/flexible_buffer_wrapper.cpp
+++ b/src/python/rrl/flexible_buffer_wrapper.cpp
@@ -76,13 +76,18 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
   std::size_t const outSampleStride =
       outputSignal.strides( 1 ) / sizeof( DataType );
 
+  SampleType const * const inputPtr = samples.data();
+  SampleType * const outputPtr =
+      static_cast< SampleType * >( outputSignal.mutable_data() );
+  std::size_t const inChannelStride = samples.strides( 0 ) / sizeof( SampleType );
+  std::size_t const inSampleStride = samples.strides( 1 ) / sizeof( SampleType );
   try
   {
+    // Do not hold the interpreter lock while waiting for the parameter exchange
+    // mutex, because the thread owning the mutex might need it to proceed.
+    py::gil_scoped_release release;
     visr::rrl::FlexibleBufferWrapper::process(
-        static_cast< SampleType const * >( samples.data() ),
-        samples.strides( 0 ) / sizeof( SampleType ),
-        samples.strides( 1 ) / sizeof( SampleType ),
-        static_cast< SampleType * >( outputSignal.mutable_data() ),
+        inputPtr, inChannelStride, inSampleStride, outputPtr,
         outChannelStride, outSampleStride,
         numFrames );
   }
-- 
2.43.0


From 04487eec25897edb6cc0cfff66686310dbfc373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 132/203] fix: JackInterface did not detect duplicate capture
 port names

The check combined the playback names with a list of capture names that was still empty.
---
 src/libaudiointerfaces/jack_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 306222a..d756292 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -190,7 +190,7 @@ namespace visr
       config.loadPortConfig(ptree, config.mPlaybackPortNames, mOutExternalPortNames, mNumPlaybackChannels, config.mOutAutoConnect, "out_" );
 
       // Check port name uniqueness (over capture and playback.
-      auto allPortNames( mCapturePortNames );
+      auto allPortNames( config.mCapturePortNames );
       allPortNames.insert( allPortNames.end(), config.mPlaybackPortNames.begin(),config.mPlaybackPortNames.end() );
       std::sort(allPortNames.begin(),allPortNames.end());
       auto const adjIt = std::adjacent_find(allPortNames.begin(), allPortNames.end());
-- 
2.43.0


From 8038dbf6f18fc49abf79982fb60bc9095ef40a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 133/203] fix: JackInterface wrote beyond its port name lists
 if a configuration named too many ports

The total was only compared with the number of ports after all names had been stored.
---
 src/libaudiointerfaces/jack_interface.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index d756292..355af17 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -764,6 +764,10 @@ namespace visr
           {
             throw std::invalid_argument( "JackInterface: the number of "+portType+" ports addressed with indices cannot be greater than the requested number of "+portType+" ports" );
           }
+          if( globalIdx + inNumEntries > numPorts )
+          {
+            throw std::invalid_argument( "JackInterface: the total number of "+portType+" ports addressed with indices must be equal to the requested number of "+portType+" ports" );
+          }
           for( std::size_t entryIdx( 0 ) ; entryIdx < inNumEntries; ++entryIdx, ++globalIdx )
           {
             std::stringstream str;
@@ -775,6 +779,10 @@ namespace visr
             baseName = portType;
           }
           
+          if( globalIdx > 0 )
+          {
+            throw std::invalid_argument( "JackInterface: the total number of "+portType+" ports addressed with indices must be equal to the requested number of "+portType+" ports" );
+          }
           for(std::size_t entryIdx( 0 ); entryIdx < numPorts; ++entryIdx, ++globalIdx)
           {
             std::stringstream str;
@@ -802,7 +810,10 @@ namespace visr
           if(extIndicesStr){
             rbbl::IndexSequence const extInIndices( *extIndicesStr );
             std::size_t const extInNumEntries = extInIndices.size( );
-            
+            if( extGlobalIdx + extInNumEntries > numPorts )
+            {
+              throw std::invalid_argument( "JackInterface: the total number of external "+portType+" ports addressed with indices must be equal to the requested number of external "+portType+" ports" );
+            }
             
             for( std::size_t extEntryIdx( 0 ); extEntryIdx < extInNumEntries; ++extEntryIdx,++extGlobalIdx )
             {
@@ -812,7 +823,10 @@ namespace visr
               extPortNames[extGlobalIdx] = str.str();
             }
           }else{
-            
+            if( extGlobalIdx > 0 )
+            {
+              throw std::invalid_argument( "JackInterface: the total number of external "+portType+" ports addressed with indices must be equal to the requested number of external "+portType+" ports" );
+            }
             for( std::size_t extEntryIdx( 0 ); extEntryIdx < numPorts; ++extEntryIdx,++extGlobalIdx )
             {
               std::stringstream str;
-- 
2.43.0


From 89261db1879961c7d56213d385e0d0e55be72173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 134/203] fix: JackInterface ignored the autoconnect settings
 of the capture and playback ports

The setting of a direction only affected which external port names were computed,
while the ports were connected according to the global setting.
---
 src/libaudiointerfaces/jack_interface.cpp | 2 +-
 src/libaudiointerfaces/jack_interface.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 355af17..19fd9df 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -715,7 +715,7 @@ namespace visr
     void JackInterface::Config::loadPortConfig(boost::optional<boost::property_tree::ptree> tree,
                                                std::vector< std::string > & portNames, std::vector< std::string > & extPortNames,
                                                std::size_t numPorts,
-                                               bool autoConn,
+                                               bool & autoConn,
                                                std::string const & portType )
     {
       
diff --git a/src/libaudiointerfaces/jack_interface.hpp b/src/libaudiointerfaces/jack_interface.hpp
index 7a52fea..c85cfe5 100644
--- a/src/libaudiointerfaces/jack_interface.hpp
+++ b/src/libaudiointerfaces/jack_interface.hpp
@@ -34,7 +34,7 @@ namespace audiointerfaces
                           std::vector< std::string > &portNames,
                           std::vector< std::string > & extPortNames,
                           std::size_t numPorts,
-                          bool autoConn,
+                          bool & autoConn,
                           std::string const & portType );
       std::string mClientName;
       std::string mInExtClientName;
-- 
2.43.0


From 3a813b4abf71323ab7261a62ac49edb2bd2b8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 135/203] fix: JackInterface accessed the first element of
 empty buffer lists

This is undefined for interfaces without capture or without playback channels.
---
 src/libaudiointerfaces/jack_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 19fd9df..434d734 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -614,7 +614,7 @@ namespace visr
         setPlaybackBuffers( numFrames );
         bool res;
         // Exceptions are caught by the calling static function.
-        (*mCallback)(mCallbackUserData, &mCaptureSampleBuffers[0], &mPlaybackSampleBuffers[0], res);
+        (*mCallback)(mCallbackUserData, mCaptureSampleBuffers.data(), mPlaybackSampleBuffers.data(), res);
       }
       else
       {
-- 
2.43.0


From 9aed2c0a0921fdec0fd39038addad4a170d47c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 136/203] fix: JackInterface::stop() removed the ports while
 the process callback could use them

The process callback runs in a thread of the Jack library until the client is deactivated.
---
 src/libaudiointerfaces/jack_interface.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 434d734..52baff4 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -14,6 +14,7 @@
 #include <boost/property_tree/ini_parser.hpp>
 #include <boost/algorithm/string/trim.hpp>
 
+#include <atomic>
 #include <cassert>
 #include <ciso646> // should not be necessary in C++11, but MSVC is non-compliant here
 #include <iostream>
@@ -139,7 +140,8 @@ namespace visr
       jack_client_t* mClient;
       
       
-      bool mInitialised;
+      // Written by start() and stop(), read by the process callback.
+      std::atomic<bool> mInitialised;
       
       
       std::string mClientName;
@@ -493,9 +495,7 @@ namespace visr
     {
       if( mInitialised )
       {
-        disconnectPorts( mVerbosePortConnections );
-        unregisterPorts();
-        mInitialised = false;
+        stop();
       }
       int const res = jack_activate( mClient );
       if( res != 0 )
@@ -514,9 +514,10 @@ namespace visr
         return;
       }
       mInitialised = false;
+      // Deactivate first: this waits for a running process callback, which accesses the ports.
+      int const res = jack_deactivate( mClient );
       disconnectPorts( mVerbosePortConnections );
       unregisterPorts(); // This ensures that the port pointers are properly reset.
-      int const res = jack_deactivate( mClient );
       if( res != 0 )
       {
         throw std::runtime_error( "JackInterface::Impl::stop() returned an error." );
-- 
2.43.0


From 1ad803ee5412cde786f9a1cd5a4c31d0627fea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 137/203] fix: JackInterface left its client open if the
 construction failed

---
 src/libaudiointerfaces/jack_interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 52baff4..f61a187 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -18,6 +18,7 @@
 #include <cassert>
 #include <ciso646> // should not be necessary in C++11, but MSVC is non-compliant here
 #include <iostream>
+#include <memory>
 
 #include <sstream>
 #include <stdexcept>
@@ -248,6 +249,8 @@ namespace visr
         }
         throw std::invalid_argument( detail::composeMessageString( "JackInterface: Opening of client failed: ", statusMsg.str() ) );
       }
+      // Close the client if one of the following steps fails, as the destructor is not called in this case.
+      std::unique_ptr<jack_client_t, int(*)(jack_client_t*)> clientGuard( mClient, &jack_client_close );
       if( jack_set_process_callback( mClient, &Impl::processCallbackFunction, this ) != 0 )
       {
         throw std::logic_error( "JackInterface: Error registering process callback." );
@@ -278,6 +281,7 @@ namespace visr
       {
         throw std::logic_error( "JackInterface: The sample rate of the server differs from the requested sample rate of the client." );
       }
+      clientGuard.release();
     }
     
     JackInterface::Impl::~Impl()
-- 
2.43.0


From 1780e3ddff69dedb36a03036444987d005aae1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 138/203] fix: PortaudioInterface left the PortAudio library
 initialised if the construction failed

---
 .../portaudio_interface.cpp                   | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index 5037a75..dbb8e7f 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -89,6 +89,34 @@ namespace // unnamed
   
 } // unnamed namespace
   
+  /**
+   * Holds an initialisation of the PortAudio library. The numbers of initialisations and terminations must match.
+   */
+  class PortaudioInitialisation
+  {
+  public:
+    PortaudioInitialisation()
+    {
+      PaError const ret = Pa_Initialize();
+      if( ret != paNoError )
+      {
+        char const * msg = Pa_GetErrorText( ret );
+        throw std::runtime_error( visr::detail::composeMessageString( "Initialisation of PortAudio library failed: ", msg, "." ) );
+      }
+    }
+
+    ~PortaudioInitialisation()
+    {
+      if( Pa_Terminate() != paNoError )
+      {
+        std::cerr << "Termination of PortAudio library failed." << std::endl;
+      }
+    }
+
+    PortaudioInitialisation( PortaudioInitialisation const & ) = delete;
+    PortaudioInitialisation & operator=( PortaudioInitialisation const & ) = delete;
+  };
+
   /******************************************************************************/
   /* Definition of the internal implementation class PortaudioInterface::Impl   */
   
@@ -140,6 +168,8 @@ namespace // unnamed
      */
     void transferPlaybackBuffers( void * output );
     
+    PortaudioInitialisation const mInitialisation;
+
     std::size_t const mNumCaptureChannels;
     
     std::size_t const mNumPlaybackChannels;
@@ -333,13 +363,6 @@ namespace // unnamed
     }
     
     PaError ret;
-    // Initialise the portaudio library. Multiple calls of this constructur should be no problem, since the number of initialize and deInitialize must match.
-    if( (ret = Pa_Initialize()) != paNoError )
-    {
-      char const * msg = Pa_GetErrorText( ret );
-      throw std::runtime_error( visr::detail::composeMessageString( "Initialisation of PortAudio library failed: ", msg, "." ) );
-    }
-    
     PaHostApiTypeId apiType;
     try
     {
@@ -413,12 +436,7 @@ namespace // unnamed
   
   PortaudioInterface::Impl::~Impl()
   {
-    PaError ret;
-    // Shutdown the portaudio library.
-    if( (ret = Pa_Terminate( )) != paNoError )
-    {
-      std::cerr << "Termination of PortAudio library failed." << std::endl;
-    }
+    // The portaudio library is shut down when mInitialisation is destroyed.
   }
   
   
-- 
2.43.0


From f0c41e3da619b679ac08b12c79c2bcca5492aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 139/203] fix: PortaudioInterface used its stream after closing
 it, and did not close it when destroyed

start() or stop() after stop() passed the pointer of the closed stream to PortAudio. An
interface destroyed without stop() kept receiving callbacks if PortAudio was still
initialised by another interface.
---
 src/libaudiointerfaces/portaudio_interface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index dbb8e7f..2fd5066 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -436,6 +436,11 @@ namespace // unnamed
   
   PortaudioInterface::Impl::~Impl()
   {
+    // Without this, the stream continues to call this object if the library is also used elsewhere.
+    if( mStream != nullptr )
+    {
+      Pa_CloseStream( mStream );
+    }
     // The portaudio library is shut down when mInitialisation is destroyed.
   }
   
@@ -484,6 +489,7 @@ namespace // unnamed
       throw std::runtime_error( "PortaudioInterface: Stopping of audio stream failed." );
     }
     ret = Pa_CloseStream( mStream );
+    mStream = nullptr; // A closed stream must not be used any more.
     if( ret != paNoError )
     {
       throw std::runtime_error( "PortaudioInterface: Closing of audio stream failed." );
-- 
2.43.0


From 01fc5b09a1898b80949105d9a9abb064f8d7f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 140/203] fix: PortaudioInterface terminated the program for
 sample formats it does not support

The format was only checked within the PortAudio callback, outside of the block that
catches exceptions. Unsupported formats are now refused when the interface is created.
---
 src/libaudiointerfaces/portaudio_interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index 2fd5066..48065ab 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -349,6 +349,10 @@ namespace // unnamed
     
     PortaudioInterface::Config config = parseSpecificConf(conf);
     mSampleFormat = config.mSampleFormat;
+    if( mSampleFormat != Config::SampleFormat::float32Bit )
+    {
+      throw std::invalid_argument( "PortaudioInterface: At the moment, only the sample format \"float32Bit\" is supported." );
+    }
     mInterleaved = config.mInterleaved;
     mHostApiName = config.mHostApi;
     
-- 
2.43.0


From c4ea518e8c6a9fa515a8ceaa70a169cd9b832f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 141/203] fix: matrix_convolver computed the overlap and the
 number of filters wrongly for filter file offsets

---
 src/apps/matrix_convolver/init_filter_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apps/matrix_convolver/init_filter_matrix.cpp b/src/apps/matrix_convolver/init_filter_matrix.cpp
index b730ff1..61868e3 100644
--- a/src/apps/matrix_convolver/init_filter_matrix.cpp
+++ b/src/apps/matrix_convolver/init_filter_matrix.cpp
@@ -134,12 +134,12 @@ void initFilterMatrix( std::string const & filterList,
     [&startIndex]( std::size_t a, std::size_t b ) { return startIndex[a] < startIndex[b]; } );
   for( std::size_t runIdx( 1 ); runIdx < numFilterFiles; ++runIdx )
   {
-    if( startIndex[orderByStartIndex[runIdx] - 1] > endIndex[orderByStartIndex[runIdx]] ) // "==" is legal due to the one-past-end convention of endIndex
+    if( endIndex[orderByStartIndex[runIdx - 1]] > startIndex[orderByStartIndex[runIdx]] ) // "==" is legal due to the one-past-end convention of endIndex
     {
       throw std::invalid_argument( "MatrixConvolver::initFilter(): The index ranges of the filters overlap." );
     }
   }
-  std::size_t const maxUsedIndex = endIndex.back(); // one past end
+  std::size_t const maxUsedIndex = *std::max_element( endIndex.begin(), endIndex.end() ); // one past end
   if( maxFilterEntries != std::numeric_limits<std::size_t>::max( ) // special value? 
     and( maxUsedIndex > maxFilterEntries ) )
   {
-- 
2.43.0


From 7edd7c145b754eb307b89e0af23a012b59a6845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 142/203] fix: feedthrough did not terminate if there are
 outputs but no inputs

---
 src/apps/feedthrough/signal_flow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/apps/feedthrough/signal_flow.cpp b/src/apps/feedthrough/signal_flow.cpp
index 7343679..16d6844 100644
--- a/src/apps/feedthrough/signal_flow.cpp
+++ b/src/apps/feedthrough/signal_flow.cpp
@@ -36,7 +36,8 @@ Feedthrough::Feedthrough( SignalFlowContext & context,
   else
   {
     std::size_t startOutChannel{ 0 };
-    while( startOutChannel < outputChannels )
+    // Without inputs, the outputs remain unconnected (which is detected when the flow is checked.)
+    while( (inputChannels > 0) && (startOutChannel < outputChannels) )
     {
       std::size_t currChannels = std::min( inputChannels, outputChannels-startOutChannel );
       audioConnection( mInput, ChannelRange( 0, currChannels ),
-- 
2.43.0


From 3d57783ebd257fb7ae917ba8d8527e8658deb15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 143/203] fix: errors in option files terminated the
 applications

---
 src/libapputilities/options.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libapputilities/options.cpp b/src/libapputilities/options.cpp
index 565a76e..aabc6b5 100644
--- a/src/libapputilities/options.cpp
+++ b/src/libapputilities/options.cpp
@@ -86,7 +86,15 @@ Options::ParseResult Options::parse( int argc, char const * const * argv, std::o
     std::vector<std::string> args;
     std::copy(tok.begin(), tok.end(), std::back_inserter(args));
     // Parse the file and store the options
-    store(boost::program_options::command_line_parser(args).options(mDescription).run(), mVariablesMap);
+    try
+    {
+      store(boost::program_options::command_line_parser(args).options(mDescription).run(), mVariablesMap);
+    }
+    catch( std::exception const & ex )
+    {
+      errMsg << "Error while parsing the option file: " << ex.what();
+      return ParseResult::Failure;
+    }
   }
 
   if( getOption<bool>( "help" ) )
-- 
2.43.0


From bf515af91838d0fbad40b43006ff8a1e024d8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 144/203] fix: time_frequency_feedthrough requested a sample
 format that does not exist

The configuration still used the number of the format, but the PortAudio interface
reads its name.
---
 src/apps/time_frequency_feedthrough/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apps/time_frequency_feedthrough/main.cpp b/src/apps/time_frequency_feedthrough/main.cpp
index 89f43e2..4b17d07 100644
--- a/src/apps/time_frequency_feedthrough/main.cpp
+++ b/src/apps/time_frequency_feedthrough/main.cpp
@@ -51,7 +51,7 @@ int main( int argc, char const * const * argv )
         
         type = "Jack";
 #else
-        specConf = "{\"sampleformat\": 8, \"interleaved\": \"false\", \"hostapi\" : \"default\"}";
+        specConf = "{\"sampleformat\": \"float32Bit\", \"interleaved\": \"false\", \"hostapi\" : \"default\"}";
         type = "PortAudio";
 #endif
         
-- 
2.43.0


From c94f5e54f3767ee560cc859bd4889334385c6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 145/203] fix: time_frequency_feedthrough did not initialise
 the parameter library

Constructing its signal flow failed because no communication protocol was registered.
---
 src/apps/time_frequency_feedthrough/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/apps/time_frequency_feedthrough/main.cpp b/src/apps/time_frequency_feedthrough/main.cpp
index 4b17d07..83519f1 100644
--- a/src/apps/time_frequency_feedthrough/main.cpp
+++ b/src/apps/time_frequency_feedthrough/main.cpp
@@ -15,6 +15,8 @@
 #include <librrl/audio_signal_flow.hpp>
 #include <libaudiointerfaces/audio_interface.hpp>
 
+#include <libpml/initialise_parameter_library.hpp>
+
 #include <libsignalflows/time_frequency_feedthrough.hpp>
 
 #include <algorithm>
@@ -32,6 +34,8 @@ int main( int argc, char const * const * argv )
     {
         efl::DenormalisedNumbers::State const oldDenormNumbersState
         = efl::DenormalisedNumbers::setDenormHandling();
+
+        pml::initialiseParameterLibrary();
         
         std::size_t const numberOfChannels = 2;
         std::size_t const period = 256;
-- 
2.43.0


From a50440a79e734d34bd2123c2e33f4113ff0bb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 146/203] fix: the renderer applications read beyond the
 built-in diffusion filters for more than 64 loudspeakers

---
 src/apps/baseline_renderer/main.cpp | 6 ++++++
 src/apps/visr_renderer/main.cpp     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/apps/baseline_renderer/main.cpp b/src/apps/baseline_renderer/main.cpp
index e4b2f52..f0d0ae2 100644
--- a/src/apps/baseline_renderer/main.cpp
+++ b/src/apps/baseline_renderer/main.cpp
@@ -30,6 +30,7 @@
 #include <iostream>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 
 int main( int argc, char const * const * argv )
 {
@@ -142,6 +143,11 @@ int main( int argc, char const * const * argv )
 #include "files/quasiAllpassFIR_f64_n63_initializer_list.txt"
                                                         , cVectorAlignmentSamples );
         
+        if( numberOfLoudspeakers > diffusionFiltersInFile )
+        {
+            throw std::invalid_argument( "The number of loudspeakers exceeds the number of available diffusion filters." );
+        }
+
         // Create a second filter matrix that matches the number of required filters.
         efl::BasicMatrix<SampleType> diffusionCoeffs( numberOfLoudspeakers, diffusionFilterLength, cVectorAlignmentSamples );
         for( std::size_t idx( 0 ); idx < diffusionCoeffs.numberOfRows( ); ++idx )
diff --git a/src/apps/visr_renderer/main.cpp b/src/apps/visr_renderer/main.cpp
index 982443b..5415f29 100644
--- a/src/apps/visr_renderer/main.cpp
+++ b/src/apps/visr_renderer/main.cpp
@@ -36,6 +36,7 @@
 #include <iostream>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 
 int main( int argc, char const * const * argv )
 {
@@ -146,6 +147,11 @@ int main( int argc, char const * const * argv )
 #include "files/quasiAllpassFIR_f64_n63_initializer_list.txt"
                                                         , cVectorAlignmentSamples );
         
+        if( numberOfLoudspeakers > diffusionFiltersInFile )
+        {
+            throw std::invalid_argument( "The number of loudspeakers exceeds the number of available diffusion filters." );
+        }
+
         // Create a second filter matrix that matches the number of required filters.
         efl::BasicMatrix<SampleType> diffusionCoeffs( numberOfLoudspeakers, diffusionFilterLength, cVectorAlignmentSamples );
         for( std::size_t idx( 0 ); idx < diffusionCoeffs.numberOfRows( ); ++idx )
-- 
2.43.0


From 5e72f0ea87028f0a0e8fa6af9c79bcbbbd9e387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:33 +0000
Subject: [PATCH 147/203] fix: release the Python objects of a wrapped
 component under the interpreter lock if its creation fails

---
 src/libpythoncomponents/wrapper.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/libpythoncomponents/wrapper.cpp b/src/libpythoncomponents/wrapper.cpp
index c99616a..896ce4b 100644
--- a/src/libpythoncomponents/wrapper.cpp
+++ b/src/libpythoncomponents/wrapper.cpp
@@ -34,6 +34,7 @@
 #include <iostream>
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace visr
@@ -54,6 +55,18 @@ public:
                  char const * positionalArguments,
                  char const * keywordArguments,
                  char const * moduleSearchPath = nullptr );
+
+  /**
+  * Create an object while holding the Python global interpreter lock.
+  * If the constructor throws, the lock is still held when the Python objects that have been created so far are released.
+  */
+  template< typename... Args >
+  static Impl * create( Args &&... args )
+  {
+    // Ensure that we have a thread state for the current thread.
+    pythonsupport::GilEnsureGuard guard;
+    return new Impl( std::forward<Args>( args )... );
+  }
 private:
   /**
   * A vector holding an arbitrary number of input ports
@@ -93,8 +106,8 @@ Wrapper::Wrapper( SignalFlowContext const & context,
                               char const * keywordArguments,
                               char const * moduleSearchPath /*= nullptr*/ )
   : CompositeComponent( context, (std::string(name)+std::string("_wrapper")).c_str(), parent )
-  , mImpl( new Impl( context, name, this, moduleName, componentClassName,
-                    positionalArguments, keywordArguments, moduleSearchPath ) )
+  , mImpl( Impl::create( context, name, this, moduleName, componentClassName,
+                         positionalArguments, keywordArguments, moduleSearchPath ) )
 {}
 
 
@@ -107,9 +120,6 @@ Wrapper::Impl::Impl( SignalFlowContext const & context,
                            char const * keywordArguments,
                            char const * moduleSearchPath)
 {
-  // Ensure that we have a thread state for the current thread.
-  pythonsupport::GilEnsureGuard guard;
-
   py::object main     = py::module::import("__main__");
   py::object globals  = main.attr("__dict__");
   // Cleverer alternative?
-- 
2.43.0


From fdd84432501941dec53b3d82e4147d066f313552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:33 +0000
Subject: [PATCH 148/203] fix: refuse a Python component class that yields no
 component

---
 src/libpythoncomponents/wrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpythoncomponents/wrapper.cpp b/src/libpythoncomponents/wrapper.cpp
index 896ce4b..2483563 100644
--- a/src/libpythoncomponents/wrapper.cpp
+++ b/src/libpythoncomponents/wrapper.cpp
@@ -199,6 +199,10 @@ Wrapper::Impl::Impl( SignalFlowContext const & context,
 
     throw std::runtime_error( detail::composeMessageString("Wrapper: Error casting the Python object of component \"", name, "\" to the C++ base type. Reason: ",ex.what() ) );
   }
+  if( mComponent == nullptr ) // A Python "None" is cast to a null pointer.
+  {
+    throw std::runtime_error( detail::composeMessageString("Wrapper: The Python class of component \"", name, "\" does not provide a component object." ) );
+  }
   impl::ComponentImplementation & compImpl = mComponent->implementation();
   // Collect the audio ports of the contained components, create matching external ports on the outside of 'this;
   // composite component, and connect them. This additional set of connections will be removed by the 'flattening' phase, leaving only an additional level in the full names.
-- 
2.43.0


From a13a709591f04750e44e33d7b841d709af67efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 149/203] fix: binaural controllers overwrite the radii in the
 caller's HRIR positions

---
 .../visr_bst/controllers/dynamic_hrir_controller.py         | 6 ++++--
 .../visr_bst/controllers/virtual_loudspeaker_controller.py  | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index d5226bd..a42d732 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -183,8 +183,10 @@ class DynamicHrirController( visr.AtomicComponent ):
 
         # Normalise the hrir positions to unit radius (to let the k-d tree
         # lookup work as expected.)
-        hrirPositions[:,2] = 1.0
-        self.hrirPos = sph2cart(np.array( hrirPositions, copy = True, dtype = np.float32 ))
+        # Operate on a copy to leave the argument unchanged.
+        hrirDirections = np.array( hrirPositions, copy = True, dtype = np.float32 )
+        hrirDirections[:,2] = 1.0
+        self.hrirPos = sph2cart( hrirDirections )
         self.hrirInterpolation = hrirInterpolation
         if self.hrirInterpolation:
             self.lastPosition = np.repeat( [[np.nan, np.nan, np.nan]], self.numberOfObjects, axis=0 )
diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 0f08ba0..1eeb2e8 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -160,8 +160,9 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
             # polar->Cartesian plus normalisation to unit radius
             self.hrirPos = np.array(np.stack( ( np.cos(hrirPositions[:,0]), np.sin(hrirPositions[:,0])), axis = 1), dtype=np.float32 )
         elif hrirPosDim == 3:
-            hrirPositions[:,2] = 1.0 # Normalise to unit vectors
-            self.hrirPos = sph2cart( np.array(hrirPositions, dtype=np.float32 ) )
+            hrirDirections = np.array( hrirPositions, copy = True, dtype = np.float32 ) # Leave the argument unchanged.
+            hrirDirections[:,2] = 1.0 # Normalise to unit vectors
+            self.hrirPos = sph2cart( hrirDirections )
         else:
             raise ValueError( 'HRIR position data has unsupported vector dimension.' )
 
-- 
2.43.0


From 3c9e17542794ed2e22ae5cf6fcfc4adba20c9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 150/203] fix: objects which are neither point sources nor
 plane waves disturb the dynamic HRIR controller

---
 .../packages/visr_bst/controllers/dynamic_hrir_controller.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index a42d732..ecc5b47 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -241,6 +241,8 @@ class DynamicHrirController( visr.AtomicComponent ):
                             r = src.referenceDistance
                             sph = np.asarray([az,el,r])
                             pos = np.asarray(sph2cart( sph ))
+                        else: # Other object types are not rendered.
+                            continue
                         posNormed = 1.0/np.sqrt(np.sum(np.square(pos))) * pos
                         ch = src.channels[0]
                         self.sourcePos[ch,:] = posNormed
-- 
2.43.0


From c7dde2f299f6e14899f66f775bd47c27bf68bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 151/203] fix: normalise the HRIR interpolation weights by
 their sum instead of multiplying with it

---
 .../packages/visr_bst/controllers/dynamic_hrir_controller.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index ecc5b47..1f02fca 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -264,7 +264,7 @@ class DynamicHrirController( visr.AtomicComponent ):
             #Select the gains for the matching triplets.
             unNormedGains = allGains[matchingTriplet,:,range(0,self.numberOfObjects)]
             gainNorm = np.linalg.norm( unNormedGains, ord=1, axis = -1 )
-            gains = np.repeat( gainNorm[:,np.newaxis], 3, axis=-1 ) * unNormedGains
+            gains = unNormedGains / gainNorm[:,np.newaxis]
         else: # No interpolation
             dotprod = self.hrirPos @ translatedSourcePos.T
             #make it a 2D array
-- 
2.43.0


From 3cee80d80d2e9c9a4fbb3e092caf860b3c3f3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 152/203] fix: dynamic HRIR controller applies combined head
 rotations in the wrong order

---
 .../packages/visr_bst/controllers/dynamic_hrir_controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index 1f02fca..851cfab 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -210,8 +210,9 @@ class DynamicHrirController( visr.AtomicComponent ):
         if self.useHeadTracking and self.trackingInputProtocol.changed():
             htrack = self.trackingInputProtocol.data()
             ypr = htrack.orientationYPR
-            # np.negative is to obtain the opposite rotation of the head rotation, i.e. the inverse matrix of head rotation matrix
-            self.rotationMatrix = np.asarray( calcRotationMatrix(np.negative(ypr) ), dtype=np.float32 )
+            # The source positions (row vectors) are subject to the opposite rotation of the head rotation. calcRotationMatrix( ypr )
+            # is the inverse of the head rotation matrix.
+            self.rotationMatrix = np.asarray( calcRotationMatrix( np.asarray(ypr) ).T, dtype=np.float32 )
             self.trackingInputProtocol.resetChanged()
 
         if self.objectInputProtocol.changed():
-- 
2.43.0


From 37b3f8ad38a499fbfbd3669745aada3e45f9d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:26 +0000
Subject: [PATCH 153/203] fix: dynamic HRIR renderer ignores the
 headOrientation argument

---
 .../controllers/dynamic_hrir_controller.py    | 20 +++++++++++++++----
 .../renderers/dynamic_hrir_renderer.py        |  3 ++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index 851cfab..53a0254 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -66,6 +66,7 @@ class DynamicHrirController( visr.AtomicComponent ):
                   hrirInterpolation = False, # HRTF interpolation selection: False: Nearest neighbour, True: Barycentric (3-point) interpolation
                   channelAllocation = False, # Whether to allocate object channels dynamically (not tested yet)
                   hrirDelays = None,         # Matrix of delays associated with filter dataset. Dimension: # filters * 2
+                  headOrientation = None     # Static or initial head orientation (yaw, pitch, roll).
                   ):
         """
         Constructor.
@@ -99,6 +100,9 @@ class DynamicHrirController( visr.AtomicComponent ):
         hrirDelays: numpy.ndarray
             Matrix of delays associated with filter dataset. Dimension: # filters * 2. Default None means there are no separate
             delays, i.e., they must be contained in the HRIR data.
+        headOrientation: array-like, optional
+            Head orientation as yaw, pitch and (optionally) roll. Either static (when no head tracking is used) or used until the
+            first tracking update.
         """
         # Call base class (AtomicComponent) constructor
         super( DynamicHrirController, self ).__init__( context, name, parent )
@@ -121,7 +125,7 @@ class DynamicHrirController( visr.AtomicComponent ):
         else:
             self.useHeadTracking = False
             self.trackingInputProtocol = None # Flag that head tracking is not used.
-        self.rotationMatrix = np.identity( 3, dtype=np.float32 )
+        self.rotationMatrix = self._sourceRotation( (0.0, 0.0, 0.0) if headOrientation is None else headOrientation )
 
         self.interpolatingConvolver = interpolatingConvolver
         if interpolatingConvolver:
@@ -206,13 +210,21 @@ class DynamicHrirController( visr.AtomicComponent ):
                                         dtype = np.float32 ), self.numberOfObjects, axis = 0 )
             self.levels = np.zeros( (self.numberOfObjects), dtype = np.float32 )
 
+    @staticmethod
+    def _sourceRotation( headOrientation ):
+        """
+        Matrix to apply to source positions (row vectors), which are subject to the opposite rotation of the head rotation.
+        calcRotationMatrix() returns the inverse of the head rotation matrix.
+        """
+        ypr = np.zeros( 3, dtype=np.float32 )
+        ypr[:len(headOrientation)] = headOrientation
+        return np.asarray( calcRotationMatrix( ypr ).T, dtype=np.float32 )
+
     def process( self ):
         if self.useHeadTracking and self.trackingInputProtocol.changed():
             htrack = self.trackingInputProtocol.data()
             ypr = htrack.orientationYPR
-            # The source positions (row vectors) are subject to the opposite rotation of the head rotation. calcRotationMatrix( ypr )
-            # is the inverse of the head rotation matrix.
-            self.rotationMatrix = np.asarray( calcRotationMatrix( np.asarray(ypr) ).T, dtype=np.float32 )
+            self.rotationMatrix = self._sourceRotation( ypr )
             self.trackingInputProtocol.resetChanged()
 
         if self.objectInputProtocol.changed():
diff --git a/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py b/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
index c321794..d4b5fec 100644
--- a/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
+++ b/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
@@ -155,7 +155,8 @@ class DynamicHrirRenderer( visr.CompositeComponent ):
                                                                   dynamicILD = dynamicILD,
                                                                   hrirInterpolation = hrirInterpolation,
                                                                   interpolatingConvolver = interpolatingConvolver,
-                                                                  hrirDelays = hrirDelays
+                                                                  hrirDelays = hrirDelays,
+                                                                  headOrientation = headOrientation
                                                                   )
 
         self.parameterConnection( self.objectVectorInput, self.dynamicHrirController.parameterPort("objectVector"))
-- 
2.43.0


From 7e7986692a1d1282e14b2fe4e62a948a6fab06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:11 +0000
Subject: [PATCH 154/203] fix: spherical harmonics rotation matrices of order 0

---
 .../packages/visr_bst/util/spherical_harmonics_rotation.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py b/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
index 1aac2a9..872ff39 100644
--- a/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
+++ b/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
@@ -8,7 +8,7 @@ Created on Sat Mar 17 16:59:20 2018
 import numpy as np
 
 def allSphericalHarmonicsRotationMatrices( order, R ):
-    allRs = [ np.asarray([1.0], dtype=R.dtype), R ]
+    allRs = [ np.asarray([[1.0]], dtype=R.dtype), R ][:order+1]
     for currOrder in range(2, order+1 ):
         allRs.append( sphericalHarmonicsRotationMatrix( currOrder, R, allRs[-1] ) )
     return allRs
@@ -40,7 +40,7 @@ def sphericalHarmonicsRotationMatrix( order, R1, Rminus1 = None ):
         Rotation matrix for the SHs of order 'order', dimension (2*order+1)x(2*order+1)
     """
     if order == 0:
-        return np.asarray( [1,0], dtype = R1.dtype )
+        return np.asarray( [[1.0]], dtype = R1.dtype )
     if order == 1:
         return R1
     if Rminus1 is None:
-- 
2.43.0


From 930d7f816cb4ee55ef095862cea1ab6b523fba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:11 +0000
Subject: [PATCH 155/203] fix: HOA renderer applies combined head rotations in
 the wrong order

---
 .../visr_bst/hoa_components/hoa_rotation_matrix_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py b/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
index ac8a5ed..193f457 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
@@ -114,8 +114,8 @@ class HoaRotationMatrixCalculator( visr.AtomicComponent ):
         """
         if (self.orientationInputProtocol is not None ) and self.orientationInputProtocol.changed():
             head = self.orientationInputProtocol.data()
-            ypr = - np.array(head.orientationYPR, dtype = np.float32 ) # negative because we rotate the sound field in the opposite
-            # direction of the head orientation.
+            # calcRotationMatrix() yields the inverse of the head rotation, which is the rotation of the sound field.
+            ypr = np.array(head.orientationYPR, dtype = np.float32 )
             R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr) )
             self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
             self.orientationInputProtocol.resetChanged()
-- 
2.43.0


From 4ffdb859f0a4509f7c4fe75597ea2e571bc81546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:11 +0000
Subject: [PATCH 156/203] fix: HOA object renderer applies combined head
 rotations in the wrong order

---
 .../visr_bst/hoa_components/hoa_coefficient_rotation.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
index f04b9a9..3f06fec 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
@@ -107,8 +107,8 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         """
         if self.trackingInputProtocol.changed():
             head = self.trackingInputProtocol.data()
-            ypr = - np.array(head.orientationYPR, dtype = np.float32 ) # negative because we rotate the sound field in the opposite
-            # direction of the head orientation.
+            # calcRotationMatrix() yields the inverse of the head rotation, which is the rotation of the sound field.
+            ypr = np.array(head.orientationYPR, dtype = np.float32 )
             R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr) )
             self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
             self.trackingInputProtocol.resetChanged()
@@ -117,7 +117,7 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         coeffOut = np.array( self.coefficientOutputProtocol.data(), copy = False )
 
         for order,R in enumerate(self.rotationMatrices):
-            coeffOut[ (order**2):((order+1)**2), : ] = np.matmul( R.T, coeffIn[ (order**2):((order+1)**2), : ] )
+            coeffOut[ (order**2):((order+1)**2), : ] = np.matmul( R, coeffIn[ (order**2):((order+1)**2), : ] )
 
 #        # Order 0 remains unchanged
 #        coeffOut[0,:] = coeffIn[0,:]
-- 
2.43.0


From fe6ce0276a1bde6cd4d283e216ff7c3bc528f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:12 +0000
Subject: [PATCH 157/203] fix: HOA object renderer ignores the headOrientation
 argument

---
 .../hoa_coefficient_rotation.py               | 23 ++++++++++++++-----
 .../hoa_object_to_binaural_renderer.py        | 15 +++++++-----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
index 3f06fec..d54bc47 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
@@ -50,7 +50,7 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
                   context, name, parent,
                   numberOfObjects,
                   hoaOrder,
-                  dynamicUpdates = False,
+                  dynamicUpdates = True,
                   headOrientation = None
                   ):
         """
@@ -68,6 +68,9 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
             The number of objects to be rendered, i.e., columns in the received spherical harmonics matrices.
         hoaOrder: int
             The order of the spherical harmonics. Defines the number of rows of the processed matrices ((hoaOrder+1)^2)
+        dynamicUpdates: bool
+            Whether the orientation is updated at runtime. If True, a parameter input
+            "tracking" is instantiated that receives pml.ListenerPositions
         headOrientation: array-like (2- or 3- element) or NoneType
             The initial head rotation or the static head orientation if dynamic updates are deactivated. Given as yaw, pitch, roll.
         """
@@ -91,13 +94,21 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         self.coefficientOutputProtocol = self.coefficientOutput.protocolOutput()
 
         # Instantiate the head tracker input.
-        self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
-                                                  pml.DoubleBufferingProtocol.staticType,
-                                                  pml.EmptyParameterConfig() )
-        self.trackingInputProtocol = self.trackingInput.protocolInput()
+        if dynamicUpdates:
+            self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
+                                                      pml.DoubleBufferingProtocol.staticType,
+                                                      pml.EmptyParameterConfig() )
+            self.trackingInputProtocol = self.trackingInput.protocolInput()
+        else:
+            self.trackingInputProtocol = None
 
         if headOrientation is None:
             headOrientation = np.zeros( (3), np.float32 )
+        else:
+            headOrientation = np.asarray( headOrientation, dtype = np.float32 )
+            if headOrientation.size < 3:
+                headOrientation = np.concatenate( (headOrientation,
+                    np.zeros( 3-headOrientation.size, dtype=np.float32) ) )
         R1 = rotationMatrixReorderingACN( calcRotationMatrix( headOrientation ) )
         self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
 
@@ -105,7 +116,7 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         """
         Processing function, called from the runtime system in every iteration of the signal flow.
         """
-        if self.trackingInputProtocol.changed():
+        if (self.trackingInputProtocol is not None) and self.trackingInputProtocol.changed():
             head = self.trackingInputProtocol.data()
             # calcRotationMatrix() yields the inverse of the head rotation, which is the rotation of the sound field.
             ypr = np.array(head.orientationYPR, dtype = np.float32 )
diff --git a/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py b/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
index 5545dca..d7771a2 100644
--- a/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
+++ b/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
@@ -162,14 +162,17 @@ class HoaObjectToBinauralRenderer( visr.CompositeComponent ):
         self.audioConnection( self.encoderMatrix.audioPort("out"), self.binauralFilterBank.audioPort("in") )
         self.audioConnection( self.binauralFilterBank.audioPort("out"), self.binauralOutput )
 
-        if headTracking:
-            self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
-                                              pml.DoubleBufferingProtocol.staticType,
-                                              pml.EmptyParameterConfig() )
+        if headTracking or (headOrientation is not None):
             self.coefficientRotator = HoaCoefficientRotation( context, 'coefficientRotator', self,
                                                               numberOfObjects = numberOfObjects,
-                                                              hoaOrder = maxHoaOrder)
-            self.parameterConnection( self.trackingInput, self.coefficientRotator.parameterPort("tracking") )
+                                                              hoaOrder = maxHoaOrder,
+                                                              dynamicUpdates = headTracking,
+                                                              headOrientation = headOrientation )
+            if headTracking:
+                self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
+                                                  pml.DoubleBufferingProtocol.staticType,
+                                                  pml.EmptyParameterConfig() )
+                self.parameterConnection( self.trackingInput, self.coefficientRotator.parameterPort("tracking") )
             self.parameterConnection( self.objectEncoder.parameterPort("coefficientOutput"),
                                      self.coefficientRotator.parameterPort("coefficientInput") )
             self.parameterConnection( self.coefficientRotator.parameterPort("coefficientOutput"),
-- 
2.43.0


From f64b182d6e36059cdaf2e84af912f10973580b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:12 +0000
Subject: [PATCH 158/203] fix: HOA binaural renderer cannot be created without
 head tracking

---
 src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py b/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
index 79eaab9..7158440 100644
--- a/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
+++ b/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
@@ -178,6 +178,6 @@ class HoaBinauralRenderer( visr.CompositeComponent ):
                 self.parameterConnection( self.trackingInput,
                                          self.rotationCalculator.parameterPort("orientation") )
         else:
-            self.audioConnection( self.hoaSignalInput, self.binauralFilterbank.audioPort("in") )
+            self.audioConnection( self.hoaSignalInput, self.binauralFilterBank.audioPort("in") )
 
         self.audioConnection( self.binauralFilterBank.audioPort("out"), self.binauralOutput )
-- 
2.43.0


From cb88b302be43e705001790b798cf0238c4c6502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:12 +0000
Subject: [PATCH 159/203] fix: HOA object encoder fails for plane waves and for
 other object types

---
 .../visr_bst/hoa_components/hoa_object_encoder.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py b/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
index 03ca0fb..44ea110 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
@@ -41,7 +41,7 @@ import objectmodel as om
 import rbbl
 
 # Helper functions contained in the
-from visr_bst.util import cart2sph
+from visr_bst.util import cart2sph, sph2cart, deg2rad
 from visr_bst.util import allSphHarmRealACN
 
 # Standard Python packages
@@ -134,12 +134,17 @@ class HoaObjectEncoder( visr.AtomicComponent ):
                 pos = np.zeros( (self.numberOfObjects,3), dtype=coeffOut.dtype )
                 pos[:,0] = 1.0 # Set unused sources to a valid direction.
                 for src in ov:
+                    if not isinstance( src, (om.PointSource, om.PlaneWave) ):
+                        continue
                     chIdx = src.channels[0]
-                    if chIdx > self.numberOfObjects:
+                    if chIdx >= self.numberOfObjects:
                         warnings.warn('The number of dynamically instantiated sound objects is more than the maximum number specified')
                         continue
                     levels[chIdx] = src.level
-                    pos[chIdx,:] = src.position
+                    if isinstance( src, om.PlaneWave ):
+                        pos[chIdx,:] = sph2cart( np.array( [deg2rad(src.azimuth), deg2rad(src.elevation), 1.0] ) )
+                    else:
+                        pos[chIdx,:] = src.position
                 sphPos = cart2sph( pos[:,0], pos[:,1], pos[:,2] )
                 shCoeffs = allSphHarmRealACN( self.hoaOrder, np.pi/2-sphPos[1,:], sphPos[0,:], dtype = coeffOut.dtype )
                 res = shCoeffs * levels[np.newaxis,:]
-- 
2.43.0


From f45fcc5ed34b13401fe0d48f9331c040c46795d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:12 +0000
Subject: [PATCH 160/203] fix: realtime HOA renderers without tracking receiver
 leave a parameter port unconnected

---
 .../realtime_renderers/realtime_hoa_binaural_renderer.py        | 2 +-
 .../realtime_hoa_object_to_binaural_renderer.py                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_binaural_renderer.py b/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_binaural_renderer.py
index c7c6f46..74eaabb 100644
--- a/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_binaural_renderer.py
+++ b/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_binaural_renderer.py
@@ -106,7 +106,7 @@ class RealtimeHoaBinauralRenderer(visr.CompositeComponent ):
                                                         sofaFile = sofaFile,
                                                         decodingFilters = decodingFilters,
                                                         interpolationSteps = interpolationSteps,
-                                                        headTracking = headTracking,
+                                                        headTracking = headTracking and enableTracking,
                                                         headOrientation = headOrientation,
                                                         fftImplementation = fftImplementation
                                                         )
diff --git a/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py b/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
index 472a0a3..3e4246f 100644
--- a/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
+++ b/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
@@ -126,7 +126,7 @@ class RealtimeHoaObjectToBinauralRenderer(visr.CompositeComponent ):
                                                         sofaFile = sofaFile,
                                                         decodingFilters = decodingFilters,
                                                         interpolationSteps = interpolationSteps,
-                                                        headTracking = headTracking,
+                                                        headTracking = headTracking and enableTracking,
                                                         headOrientation = headOrientation,
                                                         fftImplementation = fftImplementation
                                                         )
-- 
2.43.0


From ccc048f39119b9f8103b2c005b666e51db0240cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:12 +0000
Subject: [PATCH 161/203] fix: realtime HOA object renderer connects to a port
 which does not exist

---
 .../realtime_hoa_object_to_binaural_renderer.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py b/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
index 3e4246f..cca976f 100644
--- a/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
+++ b/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
@@ -136,7 +136,7 @@ class RealtimeHoaObjectToBinauralRenderer(visr.CompositeComponent ):
                                                          pml.DoubleBufferingProtocol.staticType,
                                                          pml.EmptyParameterConfig() )
             self.parameterConnection( self.objectVectorInput,
-                                     self.hoaBinauralRenderer.parameterPort("objects"))
+                                     self.hoaBinauralRenderer.parameterPort("objectVector"))
         else:
             self.sceneReceiver = rcl.UdpReceiver( context, "SceneReceiver", self,
                                                  port = int(sceneReceiveUdpPort) )
@@ -144,7 +144,7 @@ class RealtimeHoaObjectToBinauralRenderer(visr.CompositeComponent ):
             self.parameterConnection( self.sceneReceiver.parameterPort("messageOutput"),
                                  self.sceneDecoder.parameterPort("datagramInput") )
             self.parameterConnection( self.sceneDecoder.parameterPort( "objectVectorOutput"),
-                                 self.hoaBinauralRenderer.parameterPort("objects"))
+                                 self.hoaBinauralRenderer.parameterPort("objectVector"))
 
         if enableTracking:
             if headTrackingPositionalArguments == None:
-- 
2.43.0


From fba0e3a4be1c33556bf1dd5dbd9bbcef026e8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 162/203] fix: virtual loudspeaker renderers ignore or invert
 the headOrientation argument

---
 .../controllers/virtual_loudspeaker_controller.py         | 8 ++++----
 .../realtime_virtual_loudspeaker_renderer.py              | 2 +-
 .../visr_bst/renderers/virtual_loudspeaker_renderer.py    | 1 +
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 1eeb2e8..f62d849 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -179,7 +179,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
         if headOrientation is None:
             headOrientation = np.array( [0.0, 0.0, 0.0 ], self.hrirPos.dtype )
         else:
-            headOrientation = np.asarray( headOrientation )
+            headOrientation = np.asarray( headOrientation, dtype=self.hrirPos.dtype )
         self.headDir = orientationToDirectionVector( headOrientation, self.hrirPos.shape[-1] )
 
     def process( self ):
@@ -187,7 +187,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
         if self.useHeadTracking and self.trackingInputProtocol.changed():
             htrack = self.trackingInputProtocol.data()
             ypr = np.asarray(htrack.orientationYPR, dtype=self.hrirPos.dtype)
-            self.headDir = orientationToDirectionVector( -ypr, self.hrirPos.shape[-1] )
+            self.headDir = orientationToDirectionVector( ypr, self.hrirPos.shape[-1] )
             self.trackingInputProtocol.resetChanged()
 
         # Obtain access to the delay output
@@ -254,7 +254,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
 def orientationToDirectionVector( ypr, dimension ):
     """ Local function to convert an yaw-pitch-roll vector into a direction vector. """
     if ypr.shape[-1] < 3:
-        ypr = np.concatenate( ypr, np.zeros( 3-ypr.shape[-1], dtype=ypr.dtype ))
-    rotMtx = calcRotationMatrix( - ypr )
+        ypr = np.concatenate( (ypr, np.zeros( 3-ypr.shape[-1], dtype=ypr.dtype )) )
+    rotMtx = calcRotationMatrix( ypr )
     dirVec = np.dot( np.array( [1.0, 0.0, 0.0], dtype=ypr.dtype), rotMtx )
     return dirVec[:dimension]
diff --git a/src/python/packages/visr_bst/realtime_renderers/realtime_virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/realtime_renderers/realtime_virtual_loudspeaker_renderer.py
index 028e26f..d76622b 100644
--- a/src/python/packages/visr_bst/realtime_renderers/realtime_virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/realtime_renderers/realtime_virtual_loudspeaker_renderer.py
@@ -156,7 +156,7 @@ class RealtimeVirtualLoudspeakerRenderer(visr.CompositeComponent ):
                                                        hrirPositions = hrirPositions,
                                                        hrirData = hrirData,
                                                        hrirDelays = hrirDelays,
-                                                       headOrientation = None,
+                                                       headOrientation = headOrientation,
                                                        headTracking = enableTracking,
                                                        dynamicITD = dynamicITD,
                                                        hrirInterpolation = hrirInterpolation,
diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 5e9b1b4..154a6e0 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -161,6 +161,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
         self.virtualLoudspeakerController = VirtualLoudspeakerController( context, "VirtualLoudspeakerController", self,
                                                                   hrirPositions=hrirPositions,
                                                                   hrirData = hrirData,
+                                                                  headOrientation = headOrientation,
                                                                   headTracking = headTracking,
                                                                   dynamicITD = dynamicITD,
                                                                   hrirInterpolation = hrirInterpolation,
-- 
2.43.0


From 14214b0dbd6e9fabc0605bbba1efa609472b38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 163/203] fix: virtual loudspeaker controller sends alternating
 delays while the filter is kept

---
 .../visr_bst/controllers/virtual_loudspeaker_controller.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index f62d849..231b16a 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -230,6 +230,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
                 delays = np.dot( np.moveaxis(self.dynamicDelays[indices,:],0,-1), normedGains)
                 delayVec[0:self.numberOfLoudspeakers] = delays[0,:]
                 delayVec[self.numberOfLoudspeakers:] = delays[1,:]
+                self.delayOutputProtocol.swapBuffers()
 
         else:  # hrirInterpolation == False
             dotprod = self.hrirPos @ self.headDir.T
@@ -247,9 +248,9 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
                     delayVec[0:self.numberOfLoudspeakers] = self.dynamicDelays[hrirIndex,0,:]
                     delayVec[self.numberOfLoudspeakers:] = self.dynamicDelays[hrirIndex,1,:]
 
+                    self.delayOutputProtocol.swapBuffers()
+
                 self.lastHrirIndex = hrirIndex
-        if self.dynamicITD:
-            self.delayOutputProtocol.swapBuffers()
 
 def orientationToDirectionVector( ypr, dimension ):
     """ Local function to convert an yaw-pitch-roll vector into a direction vector. """
-- 
2.43.0


From e712520faf283a72a513cecbdff09ab4155e2e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 164/203] fix: interpolating convolver of the virtual
 loudspeaker renderer fits only interpolation in 2D grids

---
 .../virtual_loudspeaker_controller.py         | 20 +++++++++++++------
 .../renderers/virtual_loudspeaker_renderer.py |  7 +++++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 231b16a..1e1f571 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -237,12 +237,20 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
             hrirIndex = np.argmax( dotprod, axis = 0 )
             if self.lastHrirIndex != hrirIndex:
                 for chIdx in range(0,self.numberOfLoudspeakers):
-                    leftCmd  = pml.IndexedVectorFloat( chIdx,
-                                                      self.hrirs[hrirIndex,0,chIdx,:])
-                    rightCmd = pml.IndexedVectorFloat( chIdx+self.numberOfLoudspeakers,
-                                                      self.hrirs[hrirIndex,1,chIdx,:])
-                    self.filterOutputProtocol.enqueue( leftCmd )
-                    self.filterOutputProtocol.enqueue( rightCmd )
+                    if self.interpolationOutputProtocol is not None:
+                        leftIndex = int(hrirIndex*2+0)*self.numberOfLoudspeakers + chIdx
+                        rightIndex = int(hrirIndex*2+1)*self.numberOfLoudspeakers + chIdx
+                        self.interpolationOutputProtocol.enqueue(
+                            pml.InterpolationParameter( chIdx, [leftIndex], [1.0] ) )
+                        self.interpolationOutputProtocol.enqueue(
+                            pml.InterpolationParameter( chIdx+self.numberOfLoudspeakers, [rightIndex], [1.0] ) )
+                    else:
+                        leftCmd  = pml.IndexedVectorFloat( chIdx,
+                                                          self.hrirs[hrirIndex,0,chIdx,:])
+                        rightCmd = pml.IndexedVectorFloat( chIdx+self.numberOfLoudspeakers,
+                                                          self.hrirs[hrirIndex,1,chIdx,:])
+                        self.filterOutputProtocol.enqueue( leftCmd )
+                        self.filterOutputProtocol.enqueue( rightCmd )
 
                 if self.dynamicITD:
                     delayVec[0:self.numberOfLoudspeakers] = self.dynamicDelays[hrirIndex,0,:]
diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 154a6e0..580016f 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -173,6 +173,9 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
             self.parameterConnection( self.trackingInput, self.virtualLoudspeakerController.parameterPort("headTracking"))
 
 
+        # Number of filters contributing to an interpolated filter, depending on the dimension of the grid.
+        numberOfInterpolants = hrirPositions.shape[-1] if hrirInterpolation else 1
+
         # Define the routing for the binaural convolver such that it matches the organisation of the
         # flat BRIR matrix.
         filterRouting = rbbl.FilterRoutingList()
@@ -208,7 +211,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                  maxFilters=numFilters,
                                                  filterLength=firLength,
                                                  maxRoutings=2*numberOfLoudspeakers,
-                                                 numberOfInterpolants=2, # TODO: Find out from
+                                                 numberOfInterpolants=numberOfInterpolants,
                                                  transitionSamples=interpolationSteps,
                                                  filters = filterReshaped,
                                                  routings=filterRouting,
@@ -262,7 +265,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                  maxFilters=numFilters,
                                                  filterLength=firLength,
                                                  maxRoutings=2*numberOfLoudspeakers,
-                                                 numberOfInterpolants=2, # TODO: Find out from
+                                                 numberOfInterpolants=numberOfInterpolants,
                                                  transitionSamples=interpolationSteps,
                                                  filters = filterReshaped,
                                                  routings=filterRouting,
-- 
2.43.0


From ada1e2f24c93533a6468b6f214986d9957ad7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 165/203] fix: virtual loudspeaker renderer cannot combine
 dynamicITD and interpolatingConvolver

---
 .../packages/visr_bst/renderers/virtual_loudspeaker_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 580016f..6c4da25 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -215,7 +215,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                  transitionSamples=interpolationSteps,
                                                  filters = filterReshaped,
                                                  routings=filterRouting,
-                                                 controlInputs=rcl.InterpolatingFirFilterMatrix.ControlPortConfig.Filters,
+                                                 controlInputs=rcl.InterpolatingFirFilterMatrix.ControlPortConfig.Interpolants,
                                                  fftImplementation=fftImplementation
                                                  )
 
-- 
2.43.0


From 28746d3ab85b896481a455f7d7c758240c82e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 166/203] fix: virtual loudspeaker renderer cannot be created
 with static late filters

---
 .../renderers/virtual_loudspeaker_renderer.py         | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 6c4da25..b029198 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -308,16 +308,19 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
             raise ValueError("The arguments 'staticLateSofaFile' and 'staticLateFilters' cannot both be given." )
         if (staticLateSofaFile is not None):
             latePos, lateFilters, lateDelay = readSofaFile( staticLateSofaFile )
-            staticLateDelays = np.squeeze( lateDelay )
+            staticLateDelays = None if lateDelay is None else np.squeeze( lateDelay )
             staticLateFilters = np.squeeze(lateFilters)
 
         if( staticLateFilters is not None ):
-            flatDelays = staticLateDelays.flatten( order='C' )
+            if staticLateDelays is None:
+                flatDelays = np.zeros( (2*numberOfLoudspeakers), dtype=np.float32 )
+            else:
+                flatDelays = staticLateDelays.flatten( order='C' )
             self.staticLateDelays = rcl.DelayVector( context, 'staticLateDelays', self,
                                                     2*numberOfLoudspeakers,
                                                     interpolationSteps=context.period,
                                                     interpolationType='nearestSample',
-                                                    initialGain = np.ones( (numberOfLoudspeakers), dtype=np.float32 ),
+                                                    initialGain = np.ones( (2*numberOfLoudspeakers), dtype=np.float32 ),
                                                     initialDelay = flatDelays )
             lateFilterRouting = rbbl.FilterRoutingList(
                     [rbbl.FilterRouting(i,
@@ -330,7 +333,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
             self.staticLateFilters = rcl.FirFilterMatrix( context, "staticlateFilters", self,
                                                          numberOfInputs = 2*numberOfLoudspeakers,
                                                          numberOfOutputs = 2,
-                                                         filterLength=staticLateFilters.shape[-1],
+                                                         filterLength=flatLateFilters.shape[-1],
                                                          maxFilters = 2*numberOfLoudspeakers,
                                                          maxRoutings = 2*numberOfLoudspeakers,
                                                          routings = lateFilterRouting,
-- 
2.43.0


From 95db3e8e34e9b3f9f20a14506085c3a9d14bcab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 167/203] fix: object to virtual loudspeaker renderer modifies
 its objectRendererOptions argument

---
 .../visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
index 97b581a..2c088d6 100644
--- a/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
@@ -159,6 +159,7 @@ class ObjectToVirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                           pml.DoubleBufferingProtocol.staticType,
                                           pml.EmptyParameterConfig() )
 
+        objectRendererOptions = dict( objectRendererOptions ) # Leave the argument and the default value unchanged.
         objectRendererOptions["loudspeakerConfiguration"] = loudspeakerConfiguration
         objectRendererOptions["numberOfInputs"] = numberOfObjects
         objectRendererOptions["numberOfOutputs"] = numArraySpeakers
-- 
2.43.0


From 5dc8d60ba1c7a5d50974ec2f114718dcf1502cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 168/203] fix: object to virtual loudspeaker renderer connects
 the null source to the wrong inputs

---
 .../renderers/object_to_virtual_loudspeaker_renderer.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
index 2c088d6..99e436d 100644
--- a/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
@@ -205,11 +205,11 @@ class ObjectToVirtualLoudspeakerRenderer( visr.CompositeComponent ):
             loudspeakerRouting = list(range(numArraySpeakers)) # Plain[0,1,...] routing
 
         if numVirtualSpeakers > numArraySpeakers:
-            unconnectedSpeakers = list(set(range(numVirtualSpeakers)) - set(outRoutings) )
+            unconnectedSpeakers = list(set(range(numVirtualSpeakers)) - set(loudspeakerRouting) )
             self.nullSource = NullSource( context, "NullSource", self, width=1 )
             self.audioConnection( self.nullSource.audioPort("out"), [0]*len(unconnectedSpeakers),
                                  self.virtualLoudspeakerRenderer.audioPort("audioIn"),
-                                 loudspeakerRouting )
+                                 unconnectedSpeakers )
         self.audioConnection( self.objectRenderer.audioPort("audioOut"), outRoutings,
                              self.virtualLoudspeakerRenderer.audioPort("audioIn"),
                              loudspeakerRouting )
-- 
2.43.0


From 4a341ccd19ee0f1bc6746302a58c4cdaf9d4fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 169/203] fix: delay vector reads beyond initial delays or
 gains with too few elements

---
 src/librcl/delay_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index ae4ea22..338f325 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -59,6 +59,10 @@ void DelayVector::setup( std::size_t numberOfChannels,
                           efl::BasicVector< SampleType > const & initialDelaysSeconds,
                           efl::BasicVector< SampleType > const & initialGainsLinear )
 {
+  if( ( initialDelaysSeconds.size() != numberOfChannels ) || ( initialGainsLinear.size() != numberOfChannels ) )
+  {
+    throw std::invalid_argument( "DelayVector::setup(): The number of initial delays and gains must match the number of channels." );
+  }
   if( interpolationSteps % period() != 0 )
   {
     // Replace by status() call?
-- 
2.43.0


From 84b75f48e70c32c4291d95fe1f266c412c5a4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 170/203] fix: head trackers lose or mix up messages which
 arrive in several pieces

---
 .../packages/visr_bst/tracker/hdm_tracker.py  | 38 ++++--------------
 .../packages/visr_bst/tracker/razor_ahrs.py   | 39 +++++--------------
 2 files changed, 17 insertions(+), 60 deletions(-)

diff --git a/src/python/packages/visr_bst/tracker/hdm_tracker.py b/src/python/packages/visr_bst/tracker/hdm_tracker.py
index 83e5f38..904ef5f 100644
--- a/src/python/packages/visr_bst/tracker/hdm_tracker.py
+++ b/src/python/packages/visr_bst/tracker/hdm_tracker.py
@@ -166,36 +166,14 @@ class HdMTracker(visr.AtomicComponent ):
 
 
     def parse_message (self, read):
-         last = read.rfind(";")
-         if last == -1:
-              self.message+=read
-              #print(" no endl: "+repr(self.message))
-         else:
-             ndlast = read.rfind(";", 0, last)
-             if ndlast == -1:
-                 #print(" just one endl bef: "+repr(self.message))
-                 self.message+= read[:last+1]
-                 #print(" just one endl: "+repr(self.message))
-                 if self.message.count(';') >= 1:
-                         lastM = self.message.rfind(";")
-                         ndlastM = self.message.rfind(";", 0, lastM)
-                         lastN = self.message[ndlastM+1:lastM].rfind(";")
-#                         lastR = self.message[ndlastM+2:lastM].rfind("\r")
-                         if lastN != -1:
-                             ndlastM = lastN
-#                         if lastR != -1:
-#                             ndlastM = lastR
-#                         print(" message sent: "+repr(self.message[ndlastM+2:lastM+2]))
-                         self.send_data(self.message[ndlastM+1:lastM+1])
-                         self.message = read[last:]
-                 else:
-                    self.message+= read[last+1:]
-                    #print(" not sent: "+repr(self.message))
-             else:
-#                  print(" message sent: "+repr(read[ndlast+2:last+2]))#+" ( in mem "+repr(read[last:])+" ) over total "+(repr(read)))
-                  self.send_data(read[ndlast+1:last+1])
-                  self.sent = True
-                  self.message = read[last:]
+         # Messages can be split at any position, including within a separator.
+         self.message += read
+         last = self.message.rfind(";")
+         if last != -1:
+             ndlast = self.message.rfind(";", 0, last)
+             self.send_data(self.message[ndlast+1:last+1])
+             self.sent = True
+             self.message = self.message[last+1:]
          self.parsedN = self.parsedN+1
 
     def process( self ):
diff --git a/src/python/packages/visr_bst/tracker/razor_ahrs.py b/src/python/packages/visr_bst/tracker/razor_ahrs.py
index 9217f49..a55c9a6 100644
--- a/src/python/packages/visr_bst/tracker/razor_ahrs.py
+++ b/src/python/packages/visr_bst/tracker/razor_ahrs.py
@@ -168,36 +168,15 @@ class RazorAHRS(visr.AtomicComponent ):
 
 
     def parse_message (self, read):
-         last = read.rfind("\r\n")
-         if last == -1:
-              self.message+=read
-              #print(" no endl: "+repr(self.message))
-         else:
-             ndlast = read.rfind("\r\n", 0, last)
-             if ndlast == -1:
-                 #print(" just one endl bef: "+repr(self.message))
-                 self.message+= read[:last+2]
-                 #print(" just one endl: "+repr(self.message))
-                 if self.message.count('\r\n') >= 2:
-                         lastM = self.message.rfind("\r\n")
-                         ndlastM = self.message.rfind("\r\n", 0, lastM)
-                         lastN = self.message[ndlastM+2:lastM].rfind("\n")
-                         lastR = self.message[ndlastM+2:lastM].rfind("\r")
-                         if lastN != -1:
-                             ndlastM = lastN
-                         if lastR != -1:
-                             ndlastM = lastR
-                         #print(" message sent: "+repr(self.message[ndlastM+2:lastM+2]))
-                         self.send_data(self.message[ndlastM+2:lastM+2])
-                         self.message = read[last:]
-                 else:
-                    self.message+= read[last+2:]
-                    #print(" not sent: "+repr(self.message))
-             else:
-                  #print(" message sent: "+repr(read[ndlast+2:last+2]))#+" ( in mem "+repr(read[last:])+" ) over total "+(repr(read)))
-                  self.send_data(read[ndlast+2:last+2])
-                  self.sent = True
-                  self.message = read[last:]
+         # Messages can be split at any position, including within a separator.
+         self.message += read
+         last = self.message.rfind("\r\n")
+         if last != -1:
+             ndlast = self.message.rfind("\r\n", 0, last)
+             if ndlast != -1: # The first message received might be incomplete.
+                 self.send_data(self.message[ndlast+2:last+2])
+                 self.sent = True
+             self.message = self.message[last:]
          self.parsedN = self.parsedN+1
 
     def process( self ):
-- 
2.43.0


From 7224172f9aed442ee5ce2760258f78e6b59ce2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 171/203] fix: second calibration of the HdM head tracker is
 relative to the first

---
 src/python/packages/visr_bst/tracker/hdm_tracker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/visr_bst/tracker/hdm_tracker.py b/src/python/packages/visr_bst/tracker/hdm_tracker.py
index 904ef5f..2f764b7 100644
--- a/src/python/packages/visr_bst/tracker/hdm_tracker.py
+++ b/src/python/packages/visr_bst/tracker/hdm_tracker.py
@@ -142,7 +142,7 @@ class HdMTracker(visr.AtomicComponent ):
           if np.array(yprVec).size != 3:
             raise ValueError( 'yaw pitch roll bad format:'+str(np.array(yprVec)))
 
-          self.orientationYPR = yprVec # Store the current position
+          self.orientationYPR = self.yprTranslation @ yprVecRaw # Store the current position, without the offset.
 #          print(yprvec)
           
           ypr = self.trackingOutput.protocolOutput().data()
@@ -150,9 +150,9 @@ class HdMTracker(visr.AtomicComponent ):
 
           # [deg2rad(yprvec[0]+self.yawOffset),deg2rad(yprvec[1]+self.pitchOffset),deg2rad(yprvec[2]+self.rollOffset)]
 
-          ypr.orientationYPR = [deg2rad(self.orientationYPR[0]),
-                                deg2rad(self.orientationYPR[1]),
-                                deg2rad(self.orientationYPR[2])]
+          ypr.orientationYPR = [deg2rad(yprVec[0]),
+                                deg2rad(yprVec[1]),
+                                deg2rad(yprVec[2])]
 
           self.sentN = self.sentN+1
 #          print("%d serial parsing %f sec"%(self.procN,time.time()-self.start))
-- 
2.43.0


From dc644dc5d2074c54f0a1b0e603153a1399073bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 172/203] fix: array configuration files in Cartesian
 coordinates cannot be written

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 513b40e..1218092 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -399,8 +399,8 @@ def writePositionNode( xmlNode, pos, sphericalPositions, twoDconfig ):
         sphNode.set( "r", str(radius) )
     else:
         cartNode = ET.SubElement( xmlNode, "cart" )
-        cartNode.set( "x", str(round(pos,10)) )
-        cartNode.set( "y", str(round(pos,10)) )
+        cartNode.set( "x", str(round(pos[0],10)) )
+        cartNode.set( "y", str(round(pos[1],10)) )
         if not twoDconfig:
-            cartNode.set( "z", str(pos) )
+            cartNode.set( "z", str(round(pos[2],10)) )
 
-- 
2.43.0


From 2a9bc6fc9bc90d283ec40b359928efc70b144847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 173/203] fix: array configuration files only from position
 arrays and label lists, not from other array-like arguments

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 1218092..78bfad4 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -130,10 +130,10 @@ def createArrayConfigFile( outputFileName,
 
     """
 
-    lspVecDim = lspPositions.shape[0]
-
-    if len( lspPositions.shape ) != 2 or (lspVecDim not in [2,3]):
+    lspPositions = np.asarray( lspPositions )
+    if len( lspPositions.shape ) != 2 or (lspPositions.shape[0] not in [2,3]):
         raise ValueError( "The loudspeaker position data must be a 2D array with leading dimension 2 or 3" )
+    lspVecDim = lspPositions.shape[0]
 
     numRealLoudspeakers = lspPositions.shape[-1]
 
@@ -152,6 +152,7 @@ def createArrayConfigFile( outputFileName,
     else:
         if len( loudspeakerLabels ) != numRealLoudspeakers:
             raise ValueError( "If the 'loudspeakerLabels' argument is given, its length must match the number of real loudspeakers." )
+        loudspeakerLabels = [ str(label) for label in loudspeakerLabels ] # Any array-like argument is allowed.
 
     if virtualLoudspeakers is None:
         numVirtualLoudspeakers = 0
-- 
2.43.0


From 6b4acf72acdc271f34c8e6eaa0c54323de423db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 174/203] fix: the ignored third coordinate changes radii,
 gains and delays of 2D array configurations

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 78bfad4..9f93c19 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -137,6 +137,10 @@ def createArrayConfigFile( outputFileName,
 
     numRealLoudspeakers = lspPositions.shape[-1]
 
+    if twoDconfig: # The third coordinate is ignored if present.
+        lspPositions = lspPositions[:2,:]
+        lspVecDim = 2
+
     if lspVecDim == 2:
         lspPositions = np.concatenate( (lspPositions, np.zeros( (1, numRealLoudspeakers), dtype=lspPositions.dtype)), axis = 0 )
 
-- 
2.43.0


From 1d6e486acdb7a2124f9870f259060ce9eeaf28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 175/203] fix: distance compensation of array configurations is
 lost for lists and changes the caller's arrays

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 9f93c19..d414dad 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -231,6 +231,8 @@ def createArrayConfigFile( outputFileName,
     if distanceAttenuation:
         if lspGainDB is None:
             lspGainDB = np.zeros( numRealLoudspeakers )
+        else:
+            lspGainDB = np.array( lspGainDB, dtype=np.float64 ) # Leave the argument unchanged.
         lspDistances = np.linalg.norm( lspPositions, ord=2, axis = 0 )
         # Calculate the gain adjustment such that the farthest loudspeaker has 0 dB,
         # and closer loudspeakers a negative dB gain
@@ -241,6 +243,8 @@ def createArrayConfigFile( outputFileName,
     if distanceDelay:
         if lspDelays is None:
             lspDelays = np.zeros( numRealLoudspeakers )
+        else:
+            lspDelays = np.array( lspDelays, dtype=np.float64 ) # Leave the argument unchanged.
         lspDistances = np.linalg.norm( lspPositions, ord=2, axis = 0 )
         # Calculate the delay adjustment such that the farthest loudspeaker has 0 s,
         # and closer loudspeakers a positive delay
-- 
2.43.0


From 0427eeeaaf832bd7a9726831cc4eb16bc6977f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 176/203] fix: triplets given as loudspeaker labels cannot be
 used in array configurations

---
 .../loudspeakerconfig/createArrayConfigFile.py        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index d414dad..cc2d502 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -214,12 +214,13 @@ def createArrayConfigFile( outputFileName,
         Lnorm = allLoudspeakers / Lnorms[np.newaxis,:]
 
         hull = ConvexHull( Lnorm.T )
-        triplets = hull.simplices
+        labeledTriplets = [[ allLabels[i] for i in polygon ] for polygon in hull.simplices ]
     else: # Use an existing triplet configuration, which is a list of label triplets.
-        # TODO: Perform checking of the triplets
-        pass
-
-    labeledTriplets = [[ allLabels[i] for i in polygon ] for polygon in triplets ]
+        labeledTriplets = [[ str(label) for label in polygon ] for polygon in triplets ]
+        for polygon in labeledTriplets:
+            for label in polygon:
+                if label not in allLabels:
+                    raise ValueError( "The label '%s' in the triplet configuration does not denote an existing loudspeaker." % label )
 
     if lspDelays is not None:
         if len(lspDelays) != numRealLoudspeakers:
-- 
2.43.0


From 47119a33ae5f40c92b81a999c708de635e4dbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 177/203] fix: names of subwoofers are not written to array
 configurations

---
 src/python/packages/loudspeakerconfig/createArrayConfigFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index cc2d502..602b7ca 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -358,7 +358,7 @@ def createArrayConfigFile( outputFileName,
         for idx, subCfg in enumerate( subwooferConfig ):
             subNode = ET.SubElement( xmlRoot, "subwoofer" )
             subName = subCfg["name"] if "name" in subCfg else "sub_"+str(idx+1)
-            subNode.set( "name", "subName" )
+            subNode.set( "name", subName )
             subChannel = subCfg["channel"]
             if subChannel in channelIndices:
                 raise ValueError( "The output channel %d used by subwoofer '%s' is already used as a loudspeaker channel."
-- 
2.43.0


From ac3aac9cc94daad57d11d74d30cde2850e0cc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 178/203] fix: refuse array configurations with repeated
 channel indices

---
 src/python/packages/loudspeakerconfig/createArrayConfigFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 602b7ca..6de6783 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -149,6 +149,8 @@ def createArrayConfigFile( outputFileName,
     else:
         if len( channelIndices ) != numRealLoudspeakers:
             raise ValueError( "If the 'channelIndices' argument is given, its length must match the number of real loudspeakers." )
+        if len( set( channelIndices ) ) != numRealLoudspeakers:
+            raise ValueError( "The channel indices of the real loudspeakers must be unique." )
 
     if loudspeakerLabels is None:
         # Create default numbering 1...numRealLoudspeakers
-- 
2.43.0


From 2356623ea963f0dcc6afd037365781c38ffa060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 179/203] fix: refuse loudspeaker labels which cannot be read
 from array configurations

---
 src/python/packages/loudspeakerconfig/createArrayConfigFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 6de6783..6a844ed 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -185,7 +185,7 @@ def createArrayConfigFile( outputFileName,
     allLabels = loudspeakerLabels + virtualLoudspeakerLabels
 
     # Check loudspeaker labels with regular expression and for uniqueness.
-    labelRegex = re.compile( r"^[a-zA-Z0-9&\\(\)\\\+:_-]+$" )
+    labelRegex = re.compile( r"^[a-zA-Z0-9&()+:_-]+\Z" )
     invalidLabels = []
     for label in loudspeakerLabels:
         if not bool(labelRegex.match(label) ):
-- 
2.43.0


From 6e1e09349668f90a6c349e2157057da489c13184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 180/203] fix: error messages of array configurations for
 unknown loudspeakers and repeated equalisers

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 6a844ed..1235a84 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -305,10 +305,10 @@ def createArrayConfigFile( outputFileName,
                 assocLsp = eqSpec["loudspeakers"]
                 for lsp in assocLsp:
                     if lsp not in loudspeakerLabels:
-                        raise ValueError( "The loudspeaker label '%s' in the EQ specification '%' does not name an existing real loudspeaker."
+                        raise ValueError( "The loudspeaker label '%s' in the EQ specification '%s' does not name an existing real loudspeaker."
                                          % (lsp, eqId) )
                     if lsp in loudspeakerEqs:
-                        raise ValueError( "The loudspeaker label '%s' in the EQ specification '%' already has another EQ '."
+                        raise ValueError( "The loudspeaker label '%s' in the EQ specification '%s' already has another EQ."
                                          % (lsp, eqId) )
                     loudspeakerEqs[lsp] = eqId
 
@@ -375,7 +375,7 @@ def createArrayConfigFile( outputFileName,
             labelsNotFound = [ label for label in assignedSpeakers
                               if label not in loudspeakerLabels]
             if len( labelsNotFound ) > 0:
-                raise ValueError( "Subwoofer configuration '%s% contains unknown associated speakers: %s"
+                raise ValueError( "Subwoofer configuration '%s' contains unknown associated speakers: %s"
                                  % (subName, str(labelsNotFound) ))
             assignedSpeakersString = ", ".join( str(x) for x in assignedSpeakers )
             subNode.set( "assignedLoudspeakers", assignedSpeakersString )
-- 
2.43.0


From 7e5c527a35081a609e57e944ada8d9c62922aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 181/203] fix: default name of array configurations from SOFA
 files does not replace the extension

---
 .../packages/loudspeakerconfig/createArrayConfigFromSofa.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py b/src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py
index 2c48f48..42cf83b 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py
@@ -41,7 +41,7 @@ def createArrayConfigFromSofa( sofaFile, xmlFile = None, lspLabels = None, twoDS
         raise ValueError( "SOFA file does not exist.")
 
     if xmlFile is None:
-        xmlFile = os.path.basename(sofaFile) + '.xml'
+        xmlFile = os.path.splitext(sofaFile)[0] + '.xml'
 
     fh = h5py.File( sofaFile )
 
-- 
2.43.0


From 26392f41ff0cd66ee291812204c877e15304afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 182/203] fix: array configurations without virtual
 loudspeakers if None is passed

---
 src/python/packages/loudspeakerconfig/createArrayConfigFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 1235a84..43cd465 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -164,6 +164,7 @@ def createArrayConfigFile( outputFileName,
         numVirtualLoudspeakers = 0
         virtualLoudspeakerPos = np.zeros( (3,0), dtype=lspPositions.dtype )
         virtualLoudspeakerLabels = []
+        virtualLoudspeakers = []
     else:
         numVirtualLoudspeakers = len( virtualLoudspeakers )
         # TODO: Make the virtual loudspeaker ID optional
-- 
2.43.0


From 8cbaa8cab9be68795ec2337a52f23f07bc6e1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 183/203] fix: metadapter cannot be imported in current Python
 versions (distutils and time.clock were removed)

---
 .../packages/metadapter/core/metadapter_engine.py      |  5 ++++-
 .../processors/Nuendo_height_fix_processor.py          |  2 +-
 .../processors/adapt_diffuseness_processor.py          |  2 +-
 .../metadapter/processors/adapt_position_processor.py  |  2 +-
 .../processors/attenuate_action_processor.py           |  2 +-
 src/python/packages/metadapter/processors/az_remap.py  |  2 +-
 .../metadapter/processors/compress_above_processor.py  |  2 +-
 .../metadapter/processors/compress_below_processor.py  |  2 +-
 .../metadapter/processors/compress_height_processor.py |  2 +-
 .../processors/print_advanced_metadata_processor.py    |  2 +-
 .../metadapter/processors/print_object_coordinate.py   |  2 +-
 .../metadapter/processors/semantic_stereo_processor.py |  2 +-
 .../packages/metadapter/processors/solo_processor.py   |  2 +-
 .../metadapter/processors/spat_message_processor.py    |  2 +-
 src/python/packages/metadapter/processors/utilities.py | 10 ++++++++++
 15 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/python/packages/metadapter/core/metadapter_engine.py b/src/python/packages/metadapter/core/metadapter_engine.py
index 8fd2383..73561e2 100644
--- a/src/python/packages/metadapter/core/metadapter_engine.py
+++ b/src/python/packages/metadapter/core/metadapter_engine.py
@@ -17,7 +17,10 @@ from copy import deepcopy
 import json
 import os.path
 from collections import namedtuple
-from time import clock
+try:
+    from time import monotonic as clock
+except ImportError: # Python 2
+    from time import clock
 
 import xml.etree.ElementTree as et
 
diff --git a/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py b/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
index 2f9969b..d2cb351 100644
--- a/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
+++ b/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
@@ -2,7 +2,7 @@
 # Not necessary in more up-to-date ADM files or Nuendo sessions
 # Richard Hughes, University of Salford, r.j.hughes@salford.ac.uk
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/adapt_diffuseness_processor.py b/src/python/packages/metadapter/processors/adapt_diffuseness_processor.py
index 298537d..acd0f45 100644
--- a/src/python/packages/metadapter/processors/adapt_diffuseness_processor.py
+++ b/src/python/packages/metadapter/processors/adapt_diffuseness_processor.py
@@ -5,7 +5,7 @@ Created on Thu Jan 21 17:10:05 2016
 @author: af5u13
 """
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/adapt_position_processor.py b/src/python/packages/metadapter/processors/adapt_position_processor.py
index 4f487e4..6e2b027 100644
--- a/src/python/packages/metadapter/processors/adapt_position_processor.py
+++ b/src/python/packages/metadapter/processors/adapt_position_processor.py
@@ -5,7 +5,7 @@ Created on Thu Jan 21 17:10:05 2016
 @author: af5u13
 """
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/attenuate_action_processor.py b/src/python/packages/metadapter/processors/attenuate_action_processor.py
index 90803e3..a542a12 100644
--- a/src/python/packages/metadapter/processors/attenuate_action_processor.py
+++ b/src/python/packages/metadapter/processors/attenuate_action_processor.py
@@ -5,7 +5,7 @@ Created on Thu Jan 21 17:10:05 2016
 @author: af5u13
 """
 
-from distutils.util import strtobool
+from .utilities import strtobool
 from copy import deepcopy
 
 from metadapter import SequenceProcessorInterface
diff --git a/src/python/packages/metadapter/processors/az_remap.py b/src/python/packages/metadapter/processors/az_remap.py
index 5ede954..b07bdbb 100644
--- a/src/python/packages/metadapter/processors/az_remap.py
+++ b/src/python/packages/metadapter/processors/az_remap.py
@@ -5,7 +5,7 @@ Created on Thu Jan 21 17:10:05 2016
 @author: af5u13
 """
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/compress_above_processor.py b/src/python/packages/metadapter/processors/compress_above_processor.py
index cd80284..53f3bbd 100644
--- a/src/python/packages/metadapter/processors/compress_above_processor.py
+++ b/src/python/packages/metadapter/processors/compress_above_processor.py
@@ -2,7 +2,7 @@
 # Note: won't affect channel based source types or reverberant part of point sources
 # Richard Hughes, University of Salford, r.j.hughes@salford.ac.uk
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/compress_below_processor.py b/src/python/packages/metadapter/processors/compress_below_processor.py
index cf930d9..0473daf 100644
--- a/src/python/packages/metadapter/processors/compress_below_processor.py
+++ b/src/python/packages/metadapter/processors/compress_below_processor.py
@@ -2,7 +2,7 @@
 # Note: won't affect channel based source types or reverberant part of point sources
 # Richard Hughes, University of Salford, r.j.hughes@salford.ac.uk
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/compress_height_processor.py b/src/python/packages/metadapter/processors/compress_height_processor.py
index 7d45a60..17dd516 100644
--- a/src/python/packages/metadapter/processors/compress_height_processor.py
+++ b/src/python/packages/metadapter/processors/compress_height_processor.py
@@ -2,7 +2,7 @@
 # Note: won't affect channel based source types or reverberant part of point sources
 # Richard Hughes, University of Salford, r.j.hughes@salford.ac.uk
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/print_advanced_metadata_processor.py b/src/python/packages/metadapter/processors/print_advanced_metadata_processor.py
index 451c2d4..18a3856 100644
--- a/src/python/packages/metadapter/processors/print_advanced_metadata_processor.py
+++ b/src/python/packages/metadapter/processors/print_advanced_metadata_processor.py
@@ -1,7 +1,7 @@
 # Read advanced metadata xml chunk from BWF/ADM file and print result
 # Richard Hughes, University of Salford, r.j.hughes@salford.ac.uk
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/print_object_coordinate.py b/src/python/packages/metadapter/processors/print_object_coordinate.py
index 9c7440a..99acb6e 100644
--- a/src/python/packages/metadapter/processors/print_object_coordinate.py
+++ b/src/python/packages/metadapter/processors/print_object_coordinate.py
@@ -1,6 +1,6 @@
 # Basic debug utility - print of object coordinates to screen
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/semantic_stereo_processor.py b/src/python/packages/metadapter/processors/semantic_stereo_processor.py
index 8d82344..118b81a 100755
--- a/src/python/packages/metadapter/processors/semantic_stereo_processor.py
+++ b/src/python/packages/metadapter/processors/semantic_stereo_processor.py
@@ -5,7 +5,7 @@ Created on Thu Jan 21 17:10:05 2016
 @author: af5u13
 """
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/solo_processor.py b/src/python/packages/metadapter/processors/solo_processor.py
index 732c4d6..27d9fd8 100755
--- a/src/python/packages/metadapter/processors/solo_processor.py
+++ b/src/python/packages/metadapter/processors/solo_processor.py
@@ -6,7 +6,7 @@ Created on Fri Sept 2 2016
 """
 
 import math
-from distutils.util import strtobool
+from .utilities import strtobool
 
 #from metadata_processor_interface import MetadataProcessorInterface
 from metadapter import SequenceProcessorInterface
diff --git a/src/python/packages/metadapter/processors/spat_message_processor.py b/src/python/packages/metadapter/processors/spat_message_processor.py
index 5f727b7..1b4bba5 100644
--- a/src/python/packages/metadapter/processors/spat_message_processor.py
+++ b/src/python/packages/metadapter/processors/spat_message_processor.py
@@ -5,7 +5,7 @@ Created on Thu Jan 21 17:10:05 2016
 @author: af5u13
 """
 
-from distutils.util import strtobool
+from .utilities import strtobool
 
 from metadapter import SequenceProcessorInterface
 
diff --git a/src/python/packages/metadapter/processors/utilities.py b/src/python/packages/metadapter/processors/utilities.py
index c0121a7..4f26488 100644
--- a/src/python/packages/metadapter/processors/utilities.py
+++ b/src/python/packages/metadapter/processors/utilities.py
@@ -1,3 +1,13 @@
+def strtobool(val):
+    """ Convert a textual truth value to 1 or 0, as the function in the former 'distutils' package. """
+    val = val.lower()
+    if val in ('y', 'yes', 't', 'true', 'on', '1'):
+        return 1
+    if val in ('n', 'no', 'f', 'false', 'off', '0'):
+        return 0
+    raise ValueError("invalid truth value %r" % (val,))
+
+
 def parse_object_type(obj):
     # THIS FUNCTION DETERMINES THE OBJECT TYPE AND THE VERSION OF OBJECT POSITION THAT'S USED
     # It returns
-- 
2.43.0


From b6c4590b070ddf0556ce350b3f9ea638a9226be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 184/203] fix: conditional, sourcemerge and splitsink elements
 cannot be used in Python 3

---
 .../packages/metadapter/condition_processors/__init__.py      | 4 ++--
 .../metadapter/condition_processors/select_group_condition.py | 4 ++--
 src/python/packages/metadapter/core/composite_conditional.py  | 4 ++--
 src/python/packages/metadapter/core/composite_source_merge.py | 4 ++--
 src/python/packages/metadapter/core/composite_split_sink.py   | 4 ++--
 src/python/packages/metadapter/merge_processors/__init__.py   | 4 ++--
 .../merge_processors/branch_order_merge_processor.py          | 2 +-
 src/python/packages/metadapter/sink_processors/__init__.py    | 4 ++--
 .../metadapter/sink_processors/print_scene_processor.py       | 2 +-
 src/python/packages/metadapter/source_processors/__init__.py  | 4 ++--
 .../metadapter/source_processors/static_scene_source.py       | 2 +-
 11 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/python/packages/metadapter/condition_processors/__init__.py b/src/python/packages/metadapter/condition_processors/__init__.py
index 6164b21..37ca08e 100644
--- a/src/python/packages/metadapter/condition_processors/__init__.py
+++ b/src/python/packages/metadapter/condition_processors/__init__.py
@@ -10,9 +10,9 @@ Created on Thu Jan 28 10:08:15 2016
 # Additional, use it to initialize the contents of the directory:
 # Register the contained container classes.
 
-from condition_processors.condition_processor_factory import ConditionProcessorFactory
+from .condition_processor_factory import ConditionProcessorFactory
 
-from condition_processors.select_group_condition import SelectGroupConditionProcessor
+from .select_group_condition import SelectGroupConditionProcessor
 
 print( 'condition_processors/__init__.py: Initialization called.' )
 ConditionProcessorFactory.registerProcessorClass( 'SelectGroup', SelectGroupConditionProcessor )
diff --git a/src/python/packages/metadapter/condition_processors/select_group_condition.py b/src/python/packages/metadapter/condition_processors/select_group_condition.py
index 9260679..88abfb2 100644
--- a/src/python/packages/metadapter/condition_processors/select_group_condition.py
+++ b/src/python/packages/metadapter/condition_processors/select_group_condition.py
@@ -7,7 +7,7 @@ Created on Thu Jan 21 17:10:05 2016
 
 import re
 
-from condition_processor_interface import ConditionProcessorInterface
+from ..core.condition_processor_interface import ConditionProcessorInterface
 
 class SelectGroupConditionProcessor(ConditionProcessorInterface):
     def __init__(self, arguments ):
@@ -27,7 +27,7 @@ class SelectGroupConditionProcessor(ConditionProcessorInterface):
             else:
                 groups = [int(x) for x in re.split( ' *, *', groupString ) ]
                 for groupIt in groups:
-                    if not self.groupLookup.has_key( groupIt ):
+                    if groupIt not in self.groupLookup:
                         self.groupLookup[ groupIt ] = []
                     self.groupLookup[ groupIt ].append( branchIndex )
             branchIndex = branchIndex + 1
diff --git a/src/python/packages/metadapter/core/composite_conditional.py b/src/python/packages/metadapter/core/composite_conditional.py
index fae276e..2a3e022 100644
--- a/src/python/packages/metadapter/core/composite_conditional.py
+++ b/src/python/packages/metadapter/core/composite_conditional.py
@@ -22,8 +22,8 @@ class CompositeConditional(SequenceProcessorInterface):
         # Common constructor code goes here. (nothing needs to be done at the time being)
     
         # Lazy imports to avoid cyclic dependencies.
-        from condition_processors.condition_processor_factory import ConditionProcessorFactory
-        from merge_processors.merge_processor_factory import MergeProcessorFactory
+        from ..condition_processors.condition_processor_factory import ConditionProcessorFactory
+        from ..merge_processors.merge_processor_factory import MergeProcessorFactory
         
         # TODO: Move the construction code into a common facility (shared by all object types)
         self.verbose = verbose
diff --git a/src/python/packages/metadapter/core/composite_source_merge.py b/src/python/packages/metadapter/core/composite_source_merge.py
index c76f6f1..040b1f0 100644
--- a/src/python/packages/metadapter/core/composite_source_merge.py
+++ b/src/python/packages/metadapter/core/composite_source_merge.py
@@ -15,8 +15,8 @@ class CompositeSourceMerge(SequenceProcessorInterface):
         # Common constructor code goes here. (nothing needs to be done at the time being)
 
         # Lazy imports to avoid cyclic dependencies.
-        from source_processors.source_processor_factory import SourceProcessorFactory
-        from merge_processors.merge_processor_factory import MergeProcessorFactory
+        from ..source_processors.source_processor_factory import SourceProcessorFactory
+        from ..merge_processors.merge_processor_factory import MergeProcessorFactory
         
         self.verbose = verbose
 
diff --git a/src/python/packages/metadapter/core/composite_split_sink.py b/src/python/packages/metadapter/core/composite_split_sink.py
index 8b3f916..2c542de 100644
--- a/src/python/packages/metadapter/core/composite_split_sink.py
+++ b/src/python/packages/metadapter/core/composite_split_sink.py
@@ -15,8 +15,8 @@ class CompositeSplitSink(SequenceProcessorInterface):
         # Common constructor code goes here. (nothing needs to be done at the time being)
 
         # Lazy imports to avoid cyclic dependencies.
-        from sink_processors.sink_processor_factory import SinkProcessorFactory
-        from condition_processors.condition_processor_factory import ConditionProcessorFactory
+        from ..sink_processors.sink_processor_factory import SinkProcessorFactory
+        from ..condition_processors.condition_processor_factory import ConditionProcessorFactory
         
         self.verbose = verbose
 
diff --git a/src/python/packages/metadapter/merge_processors/__init__.py b/src/python/packages/metadapter/merge_processors/__init__.py
index 089b166..a72dc42 100644
--- a/src/python/packages/metadapter/merge_processors/__init__.py
+++ b/src/python/packages/metadapter/merge_processors/__init__.py
@@ -10,9 +10,9 @@ Created on Thu Jan 28 10:08:15 2016
 # Additional, use it to initialize the contents of the directory:
 # Register the contained container classes.
 
-from merge_processors.merge_processor_factory import MergeProcessorFactory
+from .merge_processor_factory import MergeProcessorFactory
 
-from merge_processors.branch_order_merge_processor import BranchOrderMergeProcessor
+from .branch_order_merge_processor import BranchOrderMergeProcessor
 
 print( 'merge_processors/__init__.py: Initialization called.' )
 MergeProcessorFactory.registerProcessorClass( 'BranchOrderMerge', BranchOrderMergeProcessor )
diff --git a/src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py b/src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py
index 47ce971..ec2ac14 100644
--- a/src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py
+++ b/src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py
@@ -8,7 +8,7 @@ Created on Thu Jan 21 17:10:05 2016
 from itertools import chain
 from itertools import groupby
 
-from merge_processor_interface import MergeProcessorInterface
+from ..core.merge_processor_interface import MergeProcessorInterface
 
 class BranchOrderMergeProcessor(MergeProcessorInterface):
     def __init__(self, arguments ):
diff --git a/src/python/packages/metadapter/sink_processors/__init__.py b/src/python/packages/metadapter/sink_processors/__init__.py
index a123186..e1bfe16 100644
--- a/src/python/packages/metadapter/sink_processors/__init__.py
+++ b/src/python/packages/metadapter/sink_processors/__init__.py
@@ -12,9 +12,9 @@ print( 'sink_processors/__init__.py: Initialization called.' )
 # Additional, use it to initialize the contents of the directory:
 # Register the contained container classes.
 
-from sink_processors.sink_processor_factory import SinkProcessorFactory
+from .sink_processor_factory import SinkProcessorFactory
 
-from sink_processors.print_scene_processor import PrintSceneProcessor
+from .print_scene_processor import PrintSceneProcessor
 
 SinkProcessorFactory.registerProcessorClass( 'PrintSceneProcessor', PrintSceneProcessor )
 print( 'sink_processors/__init__.py: Initialization finished.' )
diff --git a/src/python/packages/metadapter/sink_processors/print_scene_processor.py b/src/python/packages/metadapter/sink_processors/print_scene_processor.py
index 461b91c..6e7405a 100644
--- a/src/python/packages/metadapter/sink_processors/print_scene_processor.py
+++ b/src/python/packages/metadapter/sink_processors/print_scene_processor.py
@@ -6,7 +6,7 @@ Created on Fri Jan 06 10:00:00 2017
 """
 from copy import deepcopy
 
-from sink_processor_interface import SinkProcessorInterface
+from ..core.sink_processor_interface import SinkProcessorInterface
 
 class PrintSceneProcessor(SinkProcessorInterface):
     def __init__(self, arguments ):
diff --git a/src/python/packages/metadapter/source_processors/__init__.py b/src/python/packages/metadapter/source_processors/__init__.py
index a597063..ad4a311 100644
--- a/src/python/packages/metadapter/source_processors/__init__.py
+++ b/src/python/packages/metadapter/source_processors/__init__.py
@@ -12,9 +12,9 @@ print( 'source_processors/__init__.py: Initialization called.' )
 # Additional, use it to initialize the contents of the directory:
 # Register the contained container classes.
 
-from source_processors.source_processor_factory import SourceProcessorFactory
+from .source_processor_factory import SourceProcessorFactory
 
-from source_processors.static_scene_source import StaticSceneSource
+from .static_scene_source import StaticSceneSource
 
 SourceProcessorFactory.registerProcessorClass( 'StaticSceneSource', StaticSceneSource )
 print( 'source_processors/__init__.py: Initialization finished.' )
diff --git a/src/python/packages/metadapter/source_processors/static_scene_source.py b/src/python/packages/metadapter/source_processors/static_scene_source.py
index ee63c3e..a2ae403 100644
--- a/src/python/packages/metadapter/source_processors/static_scene_source.py
+++ b/src/python/packages/metadapter/source_processors/static_scene_source.py
@@ -8,7 +8,7 @@ Created on Fri Jan 06 10:00:00 2017
 from json import loads
 from copy import deepcopy
 
-from source_processor_interface import SourceProcessorInterface
+from ..core.source_processor_interface import SourceProcessorInterface
 
 class StaticSceneSource(SourceProcessorInterface):
     def __init__(self, arguments ):
-- 
2.43.0


From 5645cd0f438badcc9c0c2310bd639ca82f458cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 185/203] fix: conditional elements are refused for having no
 branches

---
 src/python/packages/metadapter/core/composite_conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/core/composite_conditional.py b/src/python/packages/metadapter/core/composite_conditional.py
index 2a3e022..c000cbc 100644
--- a/src/python/packages/metadapter/core/composite_conditional.py
+++ b/src/python/packages/metadapter/core/composite_conditional.py
@@ -46,7 +46,7 @@ class CompositeConditional(SequenceProcessorInterface):
 
         # Instantiate the branches
         branchNodes = xmlConfig.findall( 'branch' )
-        numberOfBranches = len( self.branches )
+        numberOfBranches = len( branchNodes )
         if numberOfBranches < 1:
             raise ValueError( 'Composite conditionals must contain at least one branch.' )
         self.branchNames = []
-- 
2.43.0


From a95e92d51a7282cc5bd72457383afd4d39e9b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 186/203] fix: merge of conditional branches uses the order of
 the branches instead of the requested order

---
 src/python/packages/metadapter/core/composite_conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/core/composite_conditional.py b/src/python/packages/metadapter/core/composite_conditional.py
index c000cbc..32c1532 100644
--- a/src/python/packages/metadapter/core/composite_conditional.py
+++ b/src/python/packages/metadapter/core/composite_conditional.py
@@ -94,7 +94,7 @@ class CompositeConditional(SequenceProcessorInterface):
                 raise RuntimeError( 'The branch ids defined in the merge processor do not match the ids of the processing branches.')        
             self.mergeBranchIndices = []
             for branchId in mergeBranchNames:
-                processingBranchId = mergeBranchNames.index( branchId )
+                processingBranchId = self.branchNames.index( branchId )
                 self.mergeBranchIndices.append( processingBranchId )
             
     def processObjectVector( self, objectVector ):
-- 
2.43.0


From 93869721d2392eace5cbd78dc4c9554962f3d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 187/203] fix: processors that cannot be created are not
 skipped

---
 src/python/packages/metadapter/core/composite_sequence.py  | 3 ++-
 src/python/packages/metadapter/core/instantiate_subflow.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/metadapter/core/composite_sequence.py b/src/python/packages/metadapter/core/composite_sequence.py
index 93144f7..2439251 100644
--- a/src/python/packages/metadapter/core/composite_sequence.py
+++ b/src/python/packages/metadapter/core/composite_sequence.py
@@ -17,7 +17,8 @@ class CompositeSequence(SequenceProcessorInterface):
         for processorChild in xmlConfig:
             singleChildList = [ processorChild ] # The construction function expects a list, even if it is single-element.
             subProcessor = instantiateSubFlow( singleChildList, processorLookup, verbose )
-            self.processorList.append( subProcessor )
+            if subProcessor is not None: # Empty elements, or processors which could not be created.
+                self.processorList.append( subProcessor )
 
     def processObjectVector( self, objectVector ):
         """
diff --git a/src/python/packages/metadapter/core/instantiate_subflow.py b/src/python/packages/metadapter/core/instantiate_subflow.py
index 623bdf1..377da4e 100644
--- a/src/python/packages/metadapter/core/instantiate_subflow.py
+++ b/src/python/packages/metadapter/core/instantiate_subflow.py
@@ -44,7 +44,7 @@ def instantiateSubFlow( nodes, processorLookup, verbose = False ):
                 processorLookup[processorName] = newProc
                 return newProc
             except BaseException as ex:
-                print( 'Exception while creating processor \"%s\": %s, skipping.' % ( processorName, ex.message ) )
+                print( 'Exception while creating processor \"%s\": %s, skipping.' % ( processorName, str(ex) ) )
             # For the moment, continue after the error
         elif singleNode.tag == 'sequence':
             # Other option: lift up the sequence by one level and invoke instantiateSubFlow directly (recursively)
-- 
2.43.0


From af992114026a37419b74059af8bf87a36903a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 188/203] fix: group conditions never match objects whose group
 is sent as a string

---
 .../metadapter/condition_processors/select_group_condition.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/condition_processors/select_group_condition.py b/src/python/packages/metadapter/condition_processors/select_group_condition.py
index 88abfb2..26eb405 100644
--- a/src/python/packages/metadapter/condition_processors/select_group_condition.py
+++ b/src/python/packages/metadapter/condition_processors/select_group_condition.py
@@ -48,7 +48,7 @@ class SelectGroupConditionProcessor(ConditionProcessorInterface):
         # Create an empty list for each output branch
         result = [ [] for _ in range(0,self.numberOfBranches() ) ]
         for o in objectVector:
-            gid = o['group']
+            gid = int( o['group'] ) # Depending on the message sender, the group might be a string.
             for wc in self.wildCardBranches:
                 result[wc].append( o )
             if gid in self.groupLookup:
-- 
2.43.0


From a01fa0bfce77d39a29b02d2995b32488d67ea2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 189/203] fix: branches alter the objects of each other if an
 object is selected by several of them

---
 .../condition_processors/select_group_condition.py         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/metadapter/condition_processors/select_group_condition.py b/src/python/packages/metadapter/condition_processors/select_group_condition.py
index 26eb405..ee66b3b 100644
--- a/src/python/packages/metadapter/condition_processors/select_group_condition.py
+++ b/src/python/packages/metadapter/condition_processors/select_group_condition.py
@@ -5,6 +5,7 @@ Created on Thu Jan 21 17:10:05 2016
 @author: af5u13
 """
 
+from copy import deepcopy
 import re
 
 from ..core.condition_processor_interface import ConditionProcessorInterface
@@ -50,13 +51,13 @@ class SelectGroupConditionProcessor(ConditionProcessorInterface):
         for o in objectVector:
             gid = int( o['group'] ) # Depending on the message sender, the group might be a string.
             for wc in self.wildCardBranches:
-                result[wc].append( o )
+                result[wc].append( deepcopy( o ) ) # Branches must not alter the objects of each other.
             if gid in self.groupLookup:
                 branchIds = self.groupLookup[gid]
                 for branchId in branchIds:
-                    result[branchId].append( o )
+                    result[branchId].append( deepcopy( o ) )
             elif self.defaultBranch != None:
-                result[self.defaultBranch].append( o )
+                result[self.defaultBranch].append( deepcopy( o ) )
         return result
         
     def branchIds(self):
-- 
2.43.0


From 61776637dbb8474d2d8fae49181e83626133086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 190/203] fix: metadapter engine cannot be used without JSON
 control messages, or does not react to them

---
 src/python/packages/metadapter/core/metadapter_engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/metadapter/core/metadapter_engine.py b/src/python/packages/metadapter/core/metadapter_engine.py
index 73561e2..4e6a0fd 100644
--- a/src/python/packages/metadapter/core/metadapter_engine.py
+++ b/src/python/packages/metadapter/core/metadapter_engine.py
@@ -74,10 +74,11 @@ class Engine():
 
         for message in oscControlData:
             self._applyOscControlData( message )
-        for message in jsonControlData:
+        for message in jsonControlData if jsonControlData is not None else []:
             self._applyJsonControlData( message )
 
-        if self._alwaysProcess or len(objectMetadata) > 0 or len(oscControlData) > 0:
+        if self._alwaysProcess or len(objectMetadata) > 0 or len(oscControlData) > 0 \
+            or (jsonControlData is not None and len(jsonControlData) > 0):
             return self._executeProcessingChain( objectVector )
         else:
             return None
-- 
2.43.0


From 308934697bad367af6d13c4cb16f7933e4d015f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 191/203] fix: metadapter component sends invalid scenes if it
 only processes changes

---
 src/python/packages/metadapter/visrintegration/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/packages/metadapter/visrintegration/component.py b/src/python/packages/metadapter/visrintegration/component.py
index f62cd4f..e6dd950 100644
--- a/src/python/packages/metadapter/visrintegration/component.py
+++ b/src/python/packages/metadapter/visrintegration/component.py
@@ -93,6 +93,8 @@ class Component( visr.AtomicComponent ):
         newObjectVector = self._engine.process( objectMessages,
                                                 oscControlMessages,
                                                 jsonControlMessages )
+        if newObjectVector is None: # Nothing to process or to send.
+            return
         fullJsonMsg = self._encodeObjectVectorFromJson( newObjectVector )
         if self.textOutput:
             self.objectOutput.protocol.enqueue( pml.StringParameter(fullJsonMsg) )
-- 
2.43.0


From 86e236c46855bd8ac4514c63fc9f996049c56c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 192/203] fix: GroupAdaptRadius cannot be controlled at runtime

---
 .../metadapter/processors/group_adapt_radius_processor.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/processors/group_adapt_radius_processor.py b/src/python/packages/metadapter/processors/group_adapt_radius_processor.py
index c216880..96389f2 100644
--- a/src/python/packages/metadapter/processors/group_adapt_radius_processor.py
+++ b/src/python/packages/metadapter/processors/group_adapt_radius_processor.py
@@ -45,7 +45,7 @@ class GroupAdaptRadiusProcessor(SequenceProcessorInterface):
 		""" Set the parameter to a given value."""
 		if (len( valueList ) != 1):
 			raise KeyError( "GroupAdaptRadiusProcessor supports only commands consisting of a single float value" )
-		if not key in self.volumes:
+		if not key in self.adjust:
 			raise KeyError( "GroupAdaptRadiusProcessor: The command name does not correspond to a known group." )
 		self.adjust[key] = float(valueList[0])
 
-- 
2.43.0


From 1a68ecf6a32f71e36cc62a17eedb91b33e85085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 193/203] fix: height correction of objects in spherical
 coordinates mixes up the conversions

---
 .../metadapter/processors/Nuendo_height_fix_processor.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py b/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
index d2cb351..583b873 100644
--- a/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
+++ b/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
@@ -56,7 +56,7 @@ class NuendoHeightFixProcessor(SequenceProcessorInterface):
 					rad = float(obj['direction']['refdist'])
 					az = float(obj['direction']['az'])
 					el = float(obj['direction']['el'])
-					(x, y, z) = cart2sphDeg(rad,az,el)
+					(x, y, z) = sphDeg2cart(rad,az,el)
 				elif obj_type == 'point':
 					if 'x' in obj['position'].keys():
 						x = float(obj['position']['x'])
@@ -66,7 +66,7 @@ class NuendoHeightFixProcessor(SequenceProcessorInterface):
 						rad = float(obj['position']['radius'])
 						az = float(obj['position']['az'])
 						el = float(obj['position']['el'])
-						(x, y, z) = cart2sphDeg(rad,az,el)
+						(x, y, z) = sphDeg2cart(rad,az,el)
 
 				# Remap
 				if z >= 1.0:
@@ -76,13 +76,13 @@ class NuendoHeightFixProcessor(SequenceProcessorInterface):
 
 				# Update object
 				if obj_type == 'plane':
-					(rad, az, elev) = cart2sphDeg(x, y, z)
+					(rad, az, el) = cart2sphDeg(x, y, z)
 					obj['direction'] = { 'az': az, 'el': el, 'refdist': rad }
 				elif obj_type == 'point':
 					if 'x' in obj['position'].keys():
 						obj['position'] = { 'x': x, 'y': y, 'z': z }
 					else:
-						(rad, az, elev) = cart2sphDeg(x, y, z)
+						(rad, az, el) = cart2sphDeg(x, y, z)
 						obj['position'] = { 'az': az, 'el': el, 'radius': rad }
 
 		return objectVector
-- 
2.43.0


From bc586894fdcec6ebcde1b113f4d575a0c712501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 194/203] fix: Spread fails for plane waves whose direction is
 sent as strings

---
 .../packages/metadapter/processors/spread_processor.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/metadapter/processors/spread_processor.py b/src/python/packages/metadapter/processors/spread_processor.py
index caa51b6..f7f68c1 100755
--- a/src/python/packages/metadapter/processors/spread_processor.py
+++ b/src/python/packages/metadapter/processors/spread_processor.py
@@ -91,9 +91,9 @@ class SpreadProcessor(SequenceProcessorInterface):
                         orig_dist = float(obj['position']['radius'])
                 
                 elif object_type == 'plane':
-                    orig_az = obj['direction']['az']		# Get original positions
-                    orig_el = obj['direction']['el']		# ...
-                    orig_dist = obj['direction']['refdist']	# ...
+                    orig_az = float(obj['direction']['az'])		# Get original positions
+                    orig_el = float(obj['direction']['el'])		# ...
+                    orig_dist = float(obj['direction']['refdist'])	# ...
                      
 
                 adjustSpread = self.spread[group]		# Get the spread value
-- 
2.43.0


From b587282e51d105ab948088ad8120097ff1f2f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 195/203] fix: wrong branch names of sourcemerge and splitsink
 elements raise a type error

---
 src/python/packages/metadapter/core/composite_source_merge.py | 4 ++--
 src/python/packages/metadapter/core/composite_split_sink.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/metadapter/core/composite_source_merge.py b/src/python/packages/metadapter/core/composite_source_merge.py
index 040b1f0..de83a16 100644
--- a/src/python/packages/metadapter/core/composite_source_merge.py
+++ b/src/python/packages/metadapter/core/composite_source_merge.py
@@ -57,10 +57,10 @@ class CompositeSourceMerge(SequenceProcessorInterface):
             throughBranchName = xmlConfig.get( 'throughbranch' )
             sourceBranchName = xmlConfig.get( 'sourcebranch' )
         except BaseException:
-            raise( 'A source-merge construct must contain the attributes "throughbranch" and "sourcebranch" to denote the names of the respective branches of the merge processor.' )
+            raise ValueError( 'A source-merge construct must contain the attributes "throughbranch" and "sourcebranch" to denote the names of the respective branches of the merge processor.' )
 
         if (not throughBranchName in mergeBranchNames) or (not sourceBranchName in mergeBranchNames ):
-            raise( 'In a source-merge construct, the attributes "throughbranch" and "sourcebranch" must match the names of the branches of the merge processor.' )
+            raise ValueError( 'In a source-merge construct, the attributes "throughbranch" and "sourcebranch" must match the names of the branches of the merge processor.' )
 
         # Logical switch whether the source branch or the through brnach is passed first to the merge processor.
         self.sourceFirst = (sourceBranchName == mergeBranchNames[0])
diff --git a/src/python/packages/metadapter/core/composite_split_sink.py b/src/python/packages/metadapter/core/composite_split_sink.py
index 2c542de..ac7a893 100644
--- a/src/python/packages/metadapter/core/composite_split_sink.py
+++ b/src/python/packages/metadapter/core/composite_split_sink.py
@@ -57,10 +57,10 @@ class CompositeSplitSink(SequenceProcessorInterface):
             throughBranchName = xmlConfig.get( 'throughbranch' )
             sinkBranchName = xmlConfig.get( 'sinkbranch' )
         except BaseException:
-            raise( 'A split-sink construct must contain the attributes "throughbranch" and "sinkbranch" to denote the names of the respective branches of the condition processor.' )
+            raise ValueError( 'A split-sink construct must contain the attributes "throughbranch" and "sinkbranch" to denote the names of the respective branches of the condition processor.' )
 
         if (not throughBranchName in conditionBranchNames) or (not sinkBranchName in conditionBranchNames ):
-            raise( 'In a split-sink construct, the attributes "throughbranch" and "sourcebranch" must match the names of the branches of the merge processor.' )
+            raise ValueError( 'In a split-sink construct, the attributes "throughbranch" and "sourcebranch" must match the names of the branches of the merge processor.' )
 
         # Logical switch whether the source branch or the through brnach is passed first to the merge processor.
         self.sinkFirst = (sinkBranchName == conditionBranchNames[0])
-- 
2.43.0


From 672259628e598077b27b0ee5d9d6b08f64dd9d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 196/203] fix: string arguments of OSC messages do not match
 the texts metadapter processors expect

---
 src/python/packages/metadapter/core/metadapter_engine.py      | 4 +++-
 .../packages/metadapter/processors/add_reverb_processor.py    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/metadapter/core/metadapter_engine.py b/src/python/packages/metadapter/core/metadapter_engine.py
index 4e6a0fd..e04ac76 100644
--- a/src/python/packages/metadapter/core/metadapter_engine.py
+++ b/src/python/packages/metadapter/core/metadapter_engine.py
@@ -120,7 +120,9 @@ class Engine():
         try:
             msg = decodeOSC( oscMsg )
             msgAddress = msg[0]
-            msgPayload = msg[2:]
+            # String arguments are transformed from byte arrays, as the address below.
+            msgPayload = [ val.decode() if tag == 's' and not isinstance( val, str ) else val
+                          for tag, val in zip( msg[1].decode()[1:], msg[2:] ) ]
             # This will fail with OSC bundles (which need some recursive handling)
             addressParts = msgAddress[1:].split(b'/') # Avoid a split at the leading '/'
             if len( addressParts ) < 2:
diff --git a/src/python/packages/metadapter/processors/add_reverb_processor.py b/src/python/packages/metadapter/processors/add_reverb_processor.py
index d05199c..ac80a55 100644
--- a/src/python/packages/metadapter/processors/add_reverb_processor.py
+++ b/src/python/packages/metadapter/processors/add_reverb_processor.py
@@ -120,7 +120,7 @@ class AddReverbProcessor(SequenceProcessorInterface):
     # change the room library
     # OSC example: /AddReverb/roomname church
     if key == "roomname":
-      self.roomName = bytes.decode(valueList[0])
+      self.roomName = str(valueList[0])
       #print(self.roomName)
 
     # OSC examples: /AddReverb/objectlist all
-- 
2.43.0


From eb8e464e031c94ef951c2d6bd6f47f5b4d6501c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 197/203] fix: AddReverb rotates reflections by the elevation
 of objects in spherical coordinates

---
 .../packages/metadapter/processors/add_reverb_processor.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/processors/add_reverb_processor.py b/src/python/packages/metadapter/processors/add_reverb_processor.py
index ac80a55..1c4110d 100644
--- a/src/python/packages/metadapter/processors/add_reverb_processor.py
+++ b/src/python/packages/metadapter/processors/add_reverb_processor.py
@@ -26,7 +26,7 @@ def addReverbMetadataToObject(obj,reverbLibrary,roomName):
         y_pos = float(obj['position']['y'])
         azimuth_deg = numpy.arctan2(y_pos,x_pos) * 180 / numpy.pi
       else:
-        azimuth_deg = obj['position']['el']
+        azimuth_deg = float(obj['position']['az'])
       rotationValue = azimuth_deg - float(libEntry['position']['az'])
       # iterate through the early reflections to apply the rotation
       iRefl = 0
-- 
2.43.0


From 3f5b30e8858d9684e42dce06c04178af9dada649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 198/203] fix: Spread fails for objects which are neither
 points nor plane waves

---
 src/python/packages/metadapter/processors/spread_processor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/packages/metadapter/processors/spread_processor.py b/src/python/packages/metadapter/processors/spread_processor.py
index f7f68c1..d1f7577 100755
--- a/src/python/packages/metadapter/processors/spread_processor.py
+++ b/src/python/packages/metadapter/processors/spread_processor.py
@@ -94,6 +94,8 @@ class SpreadProcessor(SequenceProcessorInterface):
                     orig_az = float(obj['direction']['az'])		# Get original positions
                     orig_el = float(obj['direction']['el'])		# ...
                     orig_dist = float(obj['direction']['refdist'])	# ...
+                else: # Other objects are left unchanged.
+                    continue
                      
 
                 adjustSpread = self.spread[group]		# Get the spread value
-- 
2.43.0


From aa40c4decec414f3f1f932bbffd0472959722770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:00 +0000
Subject: [PATCH 199/203] fix: sourcemerge and splitsink elements fail if a
 processor in them cannot be created

---
 src/python/packages/metadapter/core/composite_source_merge.py | 3 ++-
 src/python/packages/metadapter/core/composite_split_sink.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/metadapter/core/composite_source_merge.py b/src/python/packages/metadapter/core/composite_source_merge.py
index de83a16..dc3ba8a 100644
--- a/src/python/packages/metadapter/core/composite_source_merge.py
+++ b/src/python/packages/metadapter/core/composite_source_merge.py
@@ -45,7 +45,8 @@ class CompositeSourceMerge(SequenceProcessorInterface):
                 if (self.sourceProcessor == None) or (self.mergeProcessor != None):
                    raise ValueError( 'All sequence processors in a source-merge construct must be between the leading <source> and the trailing <merge> processor.' )
                 subElem = instantiateSubFlow( [subNode], processorLookup, verbose )
-                self.sequenceProcessors.append( subElem )
+                if subElem is not None: # Empty elements, or processors which could not be created.
+                    self.sequenceProcessors.append( subElem )
         if (self.sourceProcessor == None) or (self.mergeProcessor == None):
             raise ValueError( 'A source-merge construct must contain exactly one source and one merge processor.' )
 
diff --git a/src/python/packages/metadapter/core/composite_split_sink.py b/src/python/packages/metadapter/core/composite_split_sink.py
index ac7a893..fa0e637 100644
--- a/src/python/packages/metadapter/core/composite_split_sink.py
+++ b/src/python/packages/metadapter/core/composite_split_sink.py
@@ -45,7 +45,8 @@ class CompositeSplitSink(SequenceProcessorInterface):
                 if (self.conditionProcessor == None) or (self.sinkProcessor != None):
                    raise ValueError( 'All sequence processors in a split-sink construct must be between the leading <condition> and the trailing <sink> processor.' )
                 subElem = instantiateSubFlow( [subNode], processorLookup, verbose )
-                self.sequenceProcessors.append( subElem )
+                if subElem is not None: # Empty elements, or processors which could not be created.
+                    self.sequenceProcessors.append( subElem )
         if (self.conditionProcessor == None) or (self.sinkProcessor == None):
             raise ValueError( 'A split-sink construct must contain exactly one condition and one sink processor.' )
 
-- 
2.43.0


From 52af1391e9bf31c329c41686dd7796454274f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:28 +0000
Subject: [PATCH 200/203] fix: NuendoHeightFix fails for objects which are
 neither points nor plane waves

---
 .../metadapter/processors/Nuendo_height_fix_processor.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py b/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
index 583b873..2f927b9 100644
--- a/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
+++ b/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
@@ -67,6 +67,8 @@ class NuendoHeightFixProcessor(SequenceProcessorInterface):
 						az = float(obj['position']['az'])
 						el = float(obj['position']['el'])
 						(x, y, z) = sphDeg2cart(rad,az,el)
+				else:
+					continue # Object types without a position are not altered.
 
 				# Remap
 				if z >= 1.0:
-- 
2.43.0


From ae3da9ffbeac53c368362f8c0914801bd9fed46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 201/203] fix: sofaExtractDelay with fdAdjust reverses the
 impulse responses

---
 src/python/packages/visr_bst/util/sofa_extract_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/util/sofa_extract_delay.py b/src/python/packages/visr_bst/util/sofa_extract_delay.py
index 9f1f443..fd5058f 100644
--- a/src/python/packages/visr_bst/util/sofa_extract_delay.py
+++ b/src/python/packages/visr_bst/util/sofa_extract_delay.py
@@ -54,7 +54,7 @@ def sofaExtractDelay( inFileName, outFileName, dtype = np.float32, fdAdjust = Fa
 
             # FD adjust causes a circular shift, which might create artifacts at
             # the end of the IR.
-            HRTFadjust = np.abs(HRTF) * np.exp( -1j*adjustedPhase )
+            HRTFadjust = np.abs(HRTF) * np.exp( 1j*adjustedPhase )
 
             hrirAdjust = np.fft.irfft( HRTFadjust )
         else:
-- 
2.43.0


From f8d5e8b80a3a60ac663b575c16f90c52311b9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 202/203] fix: sofaExtractDelay with fdAdjust fails for impulse
 responses of odd length

---
 src/python/packages/visr_bst/util/sofa_extract_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/util/sofa_extract_delay.py b/src/python/packages/visr_bst/util/sofa_extract_delay.py
index fd5058f..36bdc4a 100644
--- a/src/python/packages/visr_bst/util/sofa_extract_delay.py
+++ b/src/python/packages/visr_bst/util/sofa_extract_delay.py
@@ -56,7 +56,7 @@ def sofaExtractDelay( inFileName, outFileName, dtype = np.float32, fdAdjust = Fa
             # the end of the IR.
             HRTFadjust = np.abs(HRTF) * np.exp( 1j*adjustedPhase )
 
-            hrirAdjust = np.fft.irfft( HRTFadjust )
+            hrirAdjust = np.fft.irfft( HRTFadjust, n=hrirLen )
         else:
 
             # We don't use windowing here, because the end of the IR remains the same as in the original hrir
-- 
2.43.0


From efd9543c898fecebf2ed0b8ebbd50f8beacf616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 203/203] fix: sofaExtractDelay leaves incomplete output files
 behind if it fails

---
 src/python/packages/visr_bst/util/sofa_extract_delay.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/util/sofa_extract_delay.py b/src/python/packages/visr_bst/util/sofa_extract_delay.py
index 36bdc4a..b11c298 100644
--- a/src/python/packages/visr_bst/util/sofa_extract_delay.py
+++ b/src/python/packages/visr_bst/util/sofa_extract_delay.py
@@ -13,8 +13,9 @@ import h5py
 def sofaExtractDelay( inFileName, outFileName, dtype = np.float32, fdAdjust = False ):
     if not os.path.exists( inFileName ):
         raise ValueError( "SOFA file does not exist." )
+    shutil.copyfile( inFileName, outFileName )
+    h = None
     try:
-        shutil.copyfile( inFileName, outFileName )
         h = h5py.File( outFileName, 'r+' )
 
         # hrir = np.asarray( h.get('Data.IR'), dtype=dtype )
@@ -83,7 +84,9 @@ def sofaExtractDelay( inFileName, outFileName, dtype = np.float32, fdAdjust = Fa
 
         h.close()
     except Exception as ex:
-        if not os.path.exists( outFileName ):
+        if h is not None:
+            h.close()
+        if os.path.exists( outFileName ):
             os.remove( outFileName )
         raise ex
     return
-- 
2.43.0

