"""The properties and the manifest entries; 'python3 spec.py' rewrites properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append({'id': id, 'title': title, 'statement': statement, 'over': over, 'qtext': qtext, 'why': why, 'files': files, 'mech': mech,
              'technique': technique, 'note': note})

prop('C01', 'A flow computes its connection graph, whatever its structure',
     'For every valid signal flow, every value a component reads from an audio input or parameter input is the value produced in the same block by the port the connections lead back to (through any nesting of composites, pass-through connections, fan-out and channel permutations), and unconnected inputs read silence. The order in which components, ports and connections were declared, the nesting and the sample type make no difference to the result. Every component is executed exactly once per block, after all components it depends on.',
     ['programs', 'histories', 'configurations'],
     'all valid component hierarchies, channel routings, sample types, block sizes and numbers of blocks',
     'The tests run a few fixed flows of a few components; the space of hierarchies, permutations, pass-throughs and fan-outs is unbounded and the order of execution depends on all of it.',
     ['src/librrl/audio_signal_flow.cpp', 'src/librrl/audio_connection_map.cpp', 'src/librrl/parameter_connection_graph.cpp', 'src/librrl/scheduling_graph.cpp', 'src/librrl/signal_routing_internal.cpp', 'src/librrl/communication_area.hpp', 'src/libvisr/impl/composite_component_implementation.cpp'],
     [('flattening of composite connections', 'src/librrl/audio_connection_map.cpp'), ('execution order', 'src/librrl/scheduling_graph.cpp'), ('sample storage assignment', 'src/librrl/audio_signal_flow.cpp')],
     'random-program monitor with reference dataflow interpreter under ASan/UBSan',
     'Random graphs realised as random hierarchies run in the real runtime under address and undefined-behaviour sanitizers; every sample and parameter value compared with an independent interpreter of the flat graph. Held on the executions observed only.')
prop('C02', 'Malformed signal flows are refused when the flow is built',
     'A flow with an unconnected mandatory audio input, an input fed by two senders, mismatching channel counts, sample types, parameter types, parameter configurations or communication protocols, duplicate names, an invalid port or channel reference, or a dependency cycle is reported by an exception when it is constructed. It never starts to process and it never crashes.',
     ['programs'], 'all flows with at least one structural defect, at any place of the hierarchy',
     'The tests hold a handful of hand-made wrong flows; each defect can sit at any depth, in combination with any otherwise valid structure.',
     ['src/librrl/integrity_checking.cpp', 'src/librrl/audio_connection_map.cpp', 'src/librrl/parameter_connection_graph.cpp', 'src/librrl/scheduling_graph.cpp', 'src/libvisr/composite_component.cpp', 'src/libvisr/impl/composite_component_implementation.cpp'],
     [('integrity checks of audio and parameter connections', 'src/librrl/integrity_checking.cpp'), ('cycle detection', 'src/librrl/scheduling_graph.cpp')],
     'fault-planting monitor: one structural defect per random valid flow, under ASan/UBSan',
     '27 kinds of defects planted at random places of random valid flows; the monitor requires an exception and no sanitizer report.')
prop('C03', 'Host driving: sample-exact streams, time stamps and faults',
     'Driving a flow through its block or callback interface, or through the adapter for hosts with other period sizes, gives the host exactly the samples the flow computes, in order, with the documented initial delay of the adapter and silence before it, for every sequence of call sizes, channel layouts and memory strides. Components see a time stamp that advances by one period per block starting at zero. An exception in a component is reported to the host as an error and leaves the flow usable.',
     ['histories', 'configurations', 'fault_sequences'], 'all sequences of process calls, call sizes, strides, channel counts and components that throw at any block',
     'The tests drive fixed sizes with fixed layouts; call-size sequences relative to the period are combinatorial.',
     ['src/librrl/audio_signal_flow.cpp', 'src/librrl/flexible_buffer_wrapper.cpp', 'src/libvisr/impl/time_implementation.cpp', 'src/libvisr/time.cpp'],
     [('buffering adapter', 'src/librrl/flexible_buffer_wrapper.cpp'), ('block processing and error reporting', 'src/librrl/audio_signal_flow.cpp')],
     'host-boundary stream monitor with per-sample unique ids, under ASan/UBSan',
     'Every capture sample carries a unique value; an offline checker over the host-side log decides order, loss and duplication.')
prop('C04', 'Parameter protocols deliver exactly what their contract says',
     'Message queues deliver every sent message once and in order; double buffering shows the receiver the last published value as a whole and raises the change flag exactly once per publication; shared data is one common object for all endpoints. Copies, clones and assignments of a parameter equal their source and are independent of it, and endpoints of the wrong type or role are refused.',
     ['histories', 'inputs'], 'all operation histories on a connection, all parameter types, values and endpoint sets',
     'The tests exercise one or two sends per protocol for few types.',
     ['src/libpml/message_queue_protocol.cpp', 'src/libpml/double_buffering_protocol.cpp', 'src/libpml/shared_data_protocol.cpp', 'src/libvisr/polymorphic_parameter_input.cpp', 'src/libpml/matrix_parameter.cpp', 'src/libpml/vector_parameter.cpp'],
     [('queues', 'src/libpml/message_queue_protocol.cpp'), ('swap of buffers', 'src/libpml/double_buffering_protocol.cpp')],
     'history monitor against a sequential model, under ASan/UBSan',
     'Random histories of 5-80 operations with unique values replayed against a sequential model of each protocol.')
prop('C05', 'Control threads and the audio thread never corrupt each other',
     'While one thread processes audio, other threads that use the flow\'s exchange lock can send and receive parameters and read statistics without data races; every message arrives exactly once and in per-sender order, and every double-buffered value is seen whole. No interleaving deadlocks or loses an update.',
     ['schedules', 'histories'], 'all interleavings of one processing thread and any number of control threads following the locking protocol',
     'The tests are single threaded.',
     ['src/librrl/audio_signal_flow.cpp', 'src/librrl/runtime_profiler.cpp', 'src/libpml/message_queue_protocol.cpp', 'src/libpml/double_buffering_protocol.cpp'],
     [('exchange lock', 'src/librrl/audio_signal_flow.hpp'), ('profiler', 'src/librrl/runtime_profiler.cpp')],
     'ThreadSanitizer and history checking of concurrent exchanges with unique ids',
     'A processing thread and 1-3 control threads under TSan and ASan builds with random yields; exactly-once and order checked on the recorded histories.')
prop('C06', 'Vector, matrix and filter primitives compute their formula',
     'Every elementary vector operation gives the result of its scalar formula (bit-exact for copies, fills and conversions to within documented rounding otherwise) for every length, alignment, sample type and processor-specific variant, writes nothing outside its destination, and reports operands that break the promised alignment where it checks for it. Aligned matrices and vectors keep their values through copy, resize, swap and move, matrix products equal the sum of products, and interpolation coefficients and cascaded second-order filters follow their definition.',
     ['inputs', 'configurations'], 'all lengths, alignments, values, sample types and instruction-set variants',
     'The tests sample a few lengths and only the variant selected at start-up.',
     ['src/libefl/reference/vector_functions_impl.hpp', 'src/libefl/intel_x86_64/vector_multiply_add.cpp', 'src/libefl/initialise_library.cpp', 'src/libefl/basic_matrix.hpp', 'src/libefl/basic_vector.hpp', 'src/libefl/cartesian_spherical_conversion.hpp', 'src/libefl/lagrange_coefficient_calculator.hpp'],
     [('SIMD variants', 'src/libefl/intel_x86_64'), ('reference variants', 'src/libefl/reference')],
     'differential monitor against scalar formulas with guard zones, under ASan/UBSan',
     'Every operation of the reference, library-dispatched, SSE, AVX and FMA variants on exactly sized heap buffers at random misalignments, compared with a scalar evaluation.')

prop('C07', 'Delay lines return the sample written the stated time ago',
     'For every history of writes and reads, the circular buffer and the delay lines return the samples written exactly the requested time ago, interpolated as the chosen method defines between whole samples, up to and including the maximum delay they were set up for; requests beyond it are refused. The delay vector and delay matrix components apply the current delay and gain of each channel or path, glide linearly to new settings from the values in effect over the configured time, and continue across settings that change within a transition.',
     ['histories', 'inputs', 'configurations'], 'all delays up to the maximum, gain values, block sizes, interpolation methods, channel counts and histories of setting changes',
     'The tests listen to a few signals and check no sample values of delay components.',
     ['src/librbbl/circular_buffer.hpp', 'src/librbbl/multichannel_delay_line.cpp', 'src/librbbl/fractional_delay_factory.cpp', 'src/librbbl/lagrange_interpolator.cpp', 'src/librcl/delay_vector.cpp', 'src/librcl/delay_matrix.cpp'],
     [('sample storage', 'src/librbbl/circular_buffer.hpp'), ('delay line and interpolation', 'src/librbbl/multichannel_delay_line.cpp'), ('transitions', 'src/librcl/delay_vector.cpp')],
     'stream monitor with a double-precision delay model, under ASan/UBSan',
     'Random histories; every output sample is compared with a direct evaluation of the write history in double precision.')

prop('C08', 'Fast convolution equals direct convolution with the current filters',
     'The partitioned convolvers and the FIR filter matrix components give, for every block, the sum over the current routings of gain times the input history convolved with the current filter, independent of block length, filter length, alignment, sample type and transform library. A filter change with transition crossfades linearly from the previous to the new filter over the stated time, one without takes effect at once, and interpolated filters are the weighted sum of the stored filters. Routings, filters or interpolants beyond the stated maxima are refused, and refused settings or messages neither change the convolver nor stop it.',
     ['histories', 'inputs', 'configurations'], 'all dimensions, block and filter lengths, alignments, signals and histories of routing, filter and interpolant changes',
     'The tests print results or compare one fixed impulse response; block-size and alignment combinations and change histories are not sampled.',
     ['src/librbbl/core_convolver_uniform.cpp', 'src/librbbl/multichannel_convolver_uniform.cpp', 'src/librbbl/crossfading_convolver_uniform.cpp', 'src/librbbl/interpolating_convolver_uniform.cpp', 'src/librbbl/kiss_fft_wrapper_float.cpp', 'src/librbbl/ffts_wrapper.cpp', 'src/librcl/fir_filter_matrix.cpp', 'src/librcl/crossfading_fir_filter_matrix.cpp', 'src/librcl/interpolating_fir_filter_matrix.cpp'],
     [('partitioned convolution', 'src/librbbl/core_convolver_uniform.cpp'), ('crossfade', 'src/librbbl/crossfading_convolver_uniform.cpp'), ('message handling', 'src/librcl/fir_filter_matrix.cpp')],
     'stream monitor against direct time-domain convolution in double precision, under ASan/UBSan',
     'Random convolvers and components; every output sample is compared with direct convolution of the recorded input history, with error bounds derived from the signal and filter norms.')

prop('C09', 'Gains, mixes and routings weight every sample exactly as currently set',
     'Gain faders, gain matrices, gain vectors, sparse gain matrices, adders, null sources and signal routings give for every sample the sum of the routed inputs weighted by the gains in effect. A gain change moves linearly from the gain in effect to the new gain and reaches it after the configured number of samples, also when the change arrives within an earlier transition or replaces a target before any block was processed; period and transition lengths need not be multiples of anything. Gains of the wrong size and routings outside the channel ranges are refused without changing the current setting and without stopping later blocks.',
     ['histories', 'inputs', 'configurations'], 'all dimensions, periods, transition lengths, gain values, routings and histories of changes',
     'The tests cover one gain matrix with one update pattern and one routing; changes within a transition, odd period lengths and refused settings are not sampled.',
     ['src/librbbl/gain_fader.cpp', 'src/librbbl/gain_matrix.cpp', 'src/librcl/gain_matrix.cpp', 'src/librcl/gain_vector.cpp', 'src/librcl/sparse_gain_matrix.cpp', 'src/librcl/add.cpp', 'src/librcl/null_source.cpp', 'src/librcl/signal_routing.cpp'],
     [('gain ramps', 'src/librbbl/gain_fader.cpp'), ('transitions', 'src/librbbl/gain_matrix.cpp'), ('routing', 'src/librcl/signal_routing.cpp')],
     'stream monitor with a double-precision model of gain trajectories, under ASan/UBSan',
     'Random histories; every output sample is compared with the weighted sum of the inputs computed from the history of settings.')

prop('C10', 'Object scenes survive encoding, decoding and hostile messages',
     'A scene message has exactly the effect its text describes: every object it lists replaces the object of the same id, with all attributes (absent optional ones at their default), and other objects stay. Encoding a scene and decoding the text gives the same scene. A message that is malformed or holds an inadmissible object is refused with an exception as a whole and leaves the scene unchanged; no text crashes or hangs the decoder, and the decoding component continues with the next message and applies all messages of a block in order. A scene container behaves as a map from id to independent objects.',
     ['inputs', 'histories', 'fault_sequences'], 'all scenes of all object types, all message texts, all histories of container operations',
     'The tests decode a few fixed messages of some object types; attributes, number formats, orders and defects combine without bound.',
     ['src/libobjectmodel/object_vector_parser.cpp', 'src/libobjectmodel/object_parser.cpp', 'src/libobjectmodel/point_source_parser.cpp', 'src/libobjectmodel/channel_object_parser.cpp', 'src/libobjectmodel/point_source_with_reverb_parser.cpp', 'src/libobjectmodel/object_vector.cpp', 'src/librcl/scene_decoder.cpp', 'src/librcl/scene_encoder.cpp', 'src/librbbl/index_sequence.cpp', 'src/librbbl/float_sequence.cpp'],
     [('parsing and writing of objects', 'src/libobjectmodel/object_parser.cpp'), ('application of messages', 'src/libobjectmodel/object_vector_parser.cpp'), ('decoding component', 'src/librcl/scene_decoder.cpp')],
     'grammar-based message monitor with a scene model, fault planting and text mutation, under ASan/UBSan',
     'Random scenes are written as text by an independent writer in random notation, with or without a planted defect, and decoded by the real code; the scene is compared with a model after every message, and encoded and decoded again.')

prop('C11', 'Configuration texts mean what they state',
     'A routing table, signal routing, matrix, vector, filter, channel list or listener position read from text, JSON, XML or an audio file has exactly the content the text states (ranges expanded, scalars applied to all entries, later entries replacing earlier ones, omitted fields at their defaults); written texts read back as the same value. A text that is malformed or inadmissible (index lists of different lengths, ragged rows, missing or unreadable values, unknown types) is refused with an exception or a failure result, routing tables then keeping their content; no text crashes or hangs the reader.',
     ['inputs', 'histories'], 'all configuration texts and files, all histories of readings and edits',
     'The tests read one or two fixed texts per type and hardly any inadmissible ones.',
     ['src/librbbl/sparse_gain_routing.cpp', 'src/librbbl/filter_routing.cpp', 'src/libpml/signal_routing_parameter.cpp', 'src/libpml/matrix_parameter.cpp', 'src/libpml/vector_parameter.cpp', 'src/libpml/listener_position.cpp', 'src/librbbl/biquad_coefficient.cpp', 'src/librbbl/parametric_iir_coefficient.cpp', 'src/librbbl/index_sequence.cpp', 'src/librbbl/float_sequence.cpp', 'src/libvisr/channel_list.cpp'],
     [('routing tables', 'src/librbbl/filter_routing.cpp'), ('matrices from text and audio files', 'src/libpml/matrix_parameter.cpp'), ('listener positions', 'src/libpml/listener_position.cpp')],
     'grammar-based text monitor with independent writers and value models, defect planting and text mutation, under ASan/UBSan',
     'Random values are written as text in random notation by an independent writer, with or without a planted defect or mutation, read by the real code and compared with the value; the real writers are checked by reading their output back.')

prop('C12', 'Equalisers have the responses their parameters define',
     'A parametric filter of any type, frequency below half the sampling rate, quality and gain is turned into a stable second-order section whose frequency response is that of the analog prototype of its type, matched at the stated frequency; unused sections are flat. The biquad filter component applies to every channel the cascade of its current sections, is flat until coefficients are set, keeps its signal state over coefficient changes, and refuses coefficients of the wrong size or index without other effect, continuing with the next block. The object equaliser gives every channel of an object the level and filters of the object, gives other channels no gain, and continues after a scene that exceeds its channels or sections.',
     ['inputs', 'histories', 'configurations'], 'all filter parameters, sampling rates, dimensions, signals and histories of coefficient changes and scenes',
     'The tests check one flat filter bank and print parametric coefficients; responses, changes between blocks and refused settings are not sampled.',
     ['src/librbbl/parametric_iir_coefficient_calculator.cpp', 'src/librcl/biquad_iir_filter.cpp', 'src/librcl/object_gain_eq_calculator.cpp', 'src/libefl/reference/filter_functions_impl.hpp'],
     [('filter design', 'src/librbbl/parametric_iir_coefficient_calculator.cpp'), ('filter cascades', 'src/librcl/biquad_iir_filter.cpp'), ('object gains and filters', 'src/librcl/object_gain_eq_calculator.cpp')],
     'stream monitor with analog-prototype and double-precision filter models, under ASan/UBSan',
     'Random parameters are compared with the prototype response at many frequencies; random component histories are compared sample by sample with a double-precision cascade.')

prop('C13', 'Rotations and positions compose as in three-dimensional space',
     'Quaternions built from yaw, pitch and roll or from a rotation axis and angle, and composed, conjugated, scaled, normalised or interpolated in any order, represent the rotation that composing the elementary right-handed rotations gives; the angles, axis and distance they report describe that rotation. Positions and listener positions rotated, translated, transformed and interpolated follow the same geometry, operations on one part (position, orientation, time, identity) leave the others alone, and operations without a meaning (normalising zero) are refused.',
     ['inputs', 'histories'], 'all rotations, positions and histories of operations in both precisions',
     'The compiled tests hardly touch these classes; compositions of operations and special angles are unbounded.',
     ['src/librbbl/quaternion.cpp', 'src/librbbl/position_3d.cpp', 'src/libpml/listener_position.cpp'],
     [('quaternions', 'src/librbbl/quaternion.cpp'), ('points', 'src/librbbl/position_3d.cpp'), ('listener positions', 'src/libpml/listener_position.cpp')],
     'history monitor with a rotation-matrix model in double precision, under ASan/UBSan',
     'Random histories of operations are compared after every step with a model whose rotations are products of elementary matrices.')

prop('C14', 'Panning gains are those of the loudspeakers around the source',
     'A loudspeaker array read from text holds exactly the loudspeakers, channels, routes, subwoofers, levels, delays and filters the text states, copies included, and an inadmissible text is refused. For every such array, listener position and source, the panning gains of a point source or plane wave reproduce its direction from the listener with the loudspeakers of an enclosing triplet, virtual loudspeakers being routed as stated, normalised and mapped as the band requires; channel objects play on the loudspeakers they name, diffuse parts equally on all, and ambisonic sources through the panned decoder. Gains follow every change of scene or listener, are finite, are zero for channels without object, and an object with an inadmissible channel or label does not affect memory or the others.',
     ['inputs', 'histories', 'configurations'], 'all loudspeaker arrays, listener positions, scenes and histories of both',
     'The tests print gains of a few sources in one array and compare nothing; arrays with virtual loudspeakers, listener movements, plane waves and inadmissible objects are not sampled.',
     ['src/libpanning/LoudspeakerArray.cpp', 'src/libpanning/VBAP.cpp', 'src/libpanning/CAP_VBAP.cpp', 'src/libpanning/CAP.cpp', 'src/libpanning/AllRAD.cpp', 'src/librcl/panning_calculator.cpp', 'src/librcl/cap_gain_calculator.cpp', 'src/librcl/hoa_allrad_gain_calculator.cpp', 'src/librcl/diffusion_gain_calculator.cpp'],
     [('array configurations', 'src/libpanning/LoudspeakerArray.cpp'), ('vector base panning', 'src/libpanning/VBAP.cpp'), ('gains of scenes', 'src/librcl/panning_calculator.cpp')],
     'geometric gain monitor with an independent array generator and double-precision panning model, under ASan/UBSan',
     'Random arrays are written as text, with or without planted defects, read by the real code and compared; every gain the real panners produce over random histories of scenes and listener movements is compared with the gains of the enclosing triplets computed independently.')

prop('C15', 'Gain transitions follow their requested timing',
     'The panning gain matrix plays, sample by sample, the gains the requests define: a transition begins at its start time from the gain reached then, moves linearly to its target over its duration, jumps if the duration is zero, and stays there; requests of different objects are independent, a request replaces a stored one not begun yet, and a request in the past is reported once and ignored without affecting the others. Values of such requests keep their content through construction, copy, assignment and cloning, and inconsistent ones are refused.',
     ['inputs', 'histories', 'configurations'], 'all numbers of objects, loudspeakers and block sizes, and histories of requests',
     'The tests send one fixed sequence to one matrix and print the output; interrupted, replaced, adjoining, late and sample-offset transitions are not sampled.',
     ['src/libpanningdsp/panning_gain_matrix.cpp', 'src/libpanningdsp/panning_matrix_parameter.cpp'],
     [('transitions', 'src/libpanningdsp/panning_gain_matrix.cpp'), ('requests', 'src/libpanningdsp/panning_matrix_parameter.cpp')],
     'sample-by-sample transition monitor with a double-precision model of requested transitions, under ASan/UBSan',
     'Random histories of transition requests, including interrupting, replacing, adjoining and late ones, are sent to the real component while every output sample is compared with the gains the requests define.')
prop('C16', 'Control messages arrive unchanged and are decoded as sent',
     'Every message given to a UDP sender that the network can carry arrives at the receiver exactly once, unchanged and in order, in synchronous and asynchronous modes; a message that cannot be sent is dropped and never blocks others or ends the process. Tracking messages decode to the position and orientation of the smallest face id with the latest time stamp of a block, transformed by the configured offset; OSC values are output as sent; malformed tracking or OSC packets are reported, change nothing and harm neither memory nor later messages.',
     ['inputs', 'histories', 'schedules', 'faults'], 'all message contents and histories, packet mutations, sender modes and thread schedules over loopback',
     'The tests print what two components on one host exchange and compare nothing; failing transmissions, zero bytes, several faces and malformed packets are not sampled.',
     ['src/librcl/udp_sender.cpp', 'src/librcl/udp_receiver.cpp', 'src/librcl/position_decoder.cpp', 'src/librcl/scalar_osc_decoder.cpp'],
     [('transmission', 'src/librcl/udp_sender.cpp'), ('reception', 'src/librcl/udp_receiver.cpp'), ('tracking', 'src/librcl/position_decoder.cpp'), ('OSC values', 'src/librcl/scalar_osc_decoder.cpp')],
     'exactly-once delivery checker over loopback traffic plus decoding monitor with mutated packets, under ASan/UBSan',
     'Random traffic is sent through the real UDP components over loopback and the received log is checked for exactly-once in-order delivery; random and mutated tracking and OSC packets are decoded and compared with the values encoded.')

prop('C17', 'Renderers play every object of the scene on the configured loudspeakers',
     'For every loudspeaker configuration, scene history and listener movement, the core renderer plays on each output channel exactly the sum of the scene objects: object level and equaliser, panning gains (per band with frequency-dependent panning, ambisonic decoding included), the decorrelated diffuse part, listener compensation, then subwoofer mix, output equaliser, delay and gain of the loudspeaker or subwoofer assigned to that channel, with the configured transitions; all other channels are silent, with or without tracking, virtual loudspeakers, subwoofers and output equalisers. Renderers with network control settle to the output of the scene and listener position sent, and configurations that cannot be rendered are refused when the renderer is made.',
     ['inputs', 'histories', 'configurations'], 'all loudspeaker configurations, renderer options, scenes, audio and histories of scenes and listener positions',
     'The tests run one renderer with one configuration file and print or store the output; the combinations of tracking, bands, equalisers, subwoofers and object types, and the sound itself, are not judged.',
     ['src/libsignalflows/core_renderer.cpp', 'src/libsignalflows/baseline_renderer.cpp', 'src/libsignalflows/bunch_renderer.cpp', 'src/libsignalflowspython/visr_renderer.cpp'],
     [('rendering', 'src/libsignalflows/core_renderer.cpp'), ('network control', 'src/libsignalflows/baseline_renderer.cpp'), ('delay flow', 'src/libsignalflows/delay_vector.cpp'), ('gain flow', 'src/libsignalflows/gain_matrix.cpp')],
     'end-to-end output monitor against an independent double-precision rendering model, under ASan/UBSan',
     'Real renderers on random loudspeaker configurations process random audio, scenes and listener movements; every output sample is compared with an independent model of the complete rendering chain. Network-controlled renderers receive scenes and positions over loopback and must settle to the modelled output.')
prop('C18', 'Renderer controls follow the scene and the listener',
     'Listener compensation gives every regular loudspeaker the gain and delay that equalise its distance to the current listener; channel routing connects each channel of channel objects to the single regular loudspeaker it names and to nothing else, reporting inadmissible channels and unknown loudspeakers; channel allocation gives every object of the current list exactly one channel, keeps it as long as the object is listed, never shares a channel, and refuses more objects than channels.',
     ['inputs', 'histories', 'configurations'], 'all loudspeaker configurations, listener positions, scene and object-list histories',
     'Listener compensation and allocation have no automated test that compares results, and the routing of channel objects is tested with one scene; virtual loudspeakers, boundary channels and long histories are not sampled.',
     ['src/librcl/listener_compensation.cpp', 'src/librcl/channel_object_routing_calculator.cpp', 'src/librbbl/object_channel_allocator.cpp'],
     [('listener compensation', 'src/librcl/listener_compensation.cpp'), ('channel routing', 'src/librcl/channel_object_routing_calculator.cpp'), ('channel allocation', 'src/librbbl/object_channel_allocator.cpp')],
     'per-block monitor of computed gains, delays, routings and allocations against their specification, under ASan/UBSan',
     'Random histories of scenes, listener positions and object lists drive the real components; after every step the gains, delays, routings and allocations are compared with a reference and the invariants of the allocation are checked.')

prop('C19', 'Time-frequency transforms give the spectra and the signal back',
     'For every number of channels, block, hop, transform and window length, window and normalisation that is admitted, each frame of the time-frequency transform is the discrete Fourier transform of the window times the latest samples of the channel at that hop (silence before the start), in order and complete for every block; the inverse transform plays the overlap-added inverse transforms of all frames; both in sequence, and the feed-through flow, give back the delayed signal weighted by the overlapping windows only. Frame containers return the values put into them through every access path, copy and assignment. Hop sizes and windows that cannot be processed are refused.',
     ['inputs', 'configurations', 'histories'], 'all signals, block/hop/transform/window lengths, windows, normalisations and block histories',
     'One Python test looks at one bin set of one configuration of the forward transform; the inverse transform, several frames per block, odd sizes and the feed-through flow are not tested at all.',
     ['src/librcl/time_frequency_transform.cpp', 'src/librcl/time_frequency_inverse_transform.cpp', 'src/libsignalflows/time_frequency_feedthrough.cpp', 'src/libpml/time_frequency_parameter.cpp'],
     [('forward transform', 'src/librcl/time_frequency_transform.cpp'), ('inverse transform', 'src/librcl/time_frequency_inverse_transform.cpp'), ('feed-through', 'src/libsignalflows/time_frequency_feedthrough.cpp'), ('frames', 'src/libpml/time_frequency_parameter.hpp')],
     'per-sample and per-bin output monitor against double-precision DFT and overlap-add models, under ASan/UBSan',
     'Real transforms with random configurations process random audio and random spectra block by block; frames, output samples and container contents are compared with direct double-precision models after every block.')

prop('C20', 'Reverberant objects are rendered with their reflections and late reverberation',
     'For every loudspeaker array, configuration and history of scenes, each reverberant object (up to the configured number) keeps one rendering channel while it is listed. After a change has settled, its reverberation is the sum of its discrete reflections (the object signal delayed, weighted, filtered by the given sections and amplitude-panned from the reflection position) and of its late part: the signal through the sum over the octave bands of noise times the envelope given by level, onset, linear attack and exponential decay, through one decorrelation filter with the configured gain per loudspeaker. Late filters are recomputed once per change, in order, at most the configured number per block. Channels without object are silent and keep no routing. In a complete renderer the reverberation takes the level and equaliser of the object and passes through the output stage. Too many objects or reflections and inadmissible configurations are reported.',
     ['inputs', 'configurations', 'histories'], 'all arrays, reverberation configurations, scenes, scene histories and signals',
     'No test compares the output of the reverberation with anything: the existing ones run fixed scenes for demonstration.',
     ['src/libreverbobject/reverb_object_renderer.cpp', 'src/libreverbobject/reverb_parameter_calculator.cpp', 'src/libreverbobject/late_reverb_filter_calculator.cpp', 'src/libreverbobject/late_reverb_parameter.cpp', 'src/librbbl/object_channel_allocator.cpp', 'src/libsignalflows/core_renderer.cpp'],
     [('parameters per rendering channel', 'src/libreverbobject/reverb_parameter_calculator.cpp'), ('late filters', 'src/libreverbobject/late_reverb_filter_calculator.cpp'), ('signal flow', 'src/libreverbobject/reverb_object_renderer.cpp')],
     'per-sample output monitor with a double-precision reverberation model whose noise is probed from the running renderer, and per-block parameter monitor, under ASan/UBSan',
     'Random scenes on random arrays: every output parameter of every block, every late filter, and every output sample after settling are compared with the model; the level of the noise is judged by its energy.')

prop('C21', 'Python sees and controls the same system, safely',
     'Through the Python interface, for every array layout (any strides, sub-views, reversed, non-contiguous), data type, block size and channel count: flows, wrappers, vector functions and components created from Python compute what their C++ counterparts compute on the same numbers; arrays obtained from outputs, vectors and matrices are views of the true size to which writes take effect; Python components take part in flows, exchange messages, double-buffered and shared parameters in order and without loss, and their exceptions surface in the caller, after which the flow is still usable. Arguments of wrong shape, size, type or index are refused with an exception and change nothing, rather than being misread, truncated or dropped. Nothing obtained from an object (ports, protocols, parameter data, iterators, sub-objects, flows) uses freed memory after that object is gone, and threads that hold the parameter exchange lock never deadlock with processing.',
     ['inputs', 'configurations', 'histories', 'schedules'], 'all arrays, layouts, component histories and object lifetimes reachable from Python',
     'The Python unit tests are fixed demonstration scripts that mostly print; they never use strided arrays, wrong sizes, or objects that outlive their owner.',
     ['src/python/rrl/audio_signal_flow.cpp', 'src/python/rrl/flexible_buffer_wrapper.cpp', 'src/python/visr/audio_port.cpp', 'src/python/visr/component.cpp', 'src/python/efl', 'src/python/pml', 'src/python/rbbl', 'src/python/rcl', 'src/python/objectmodel', 'src/python/libpythonbindinghelpers'],
     [('processing from Python', 'src/python/rrl/audio_signal_flow.cpp'), ('views of audio buffers', 'src/python/visr/audio_port.cpp'), ('array conversion', 'src/python/libpythonbindinghelpers/container_access.hpp'), ('parameter data', 'src/python/pml/double_buffering_protocol.cpp')],
     'differential monitor against numpy on the Python modules built with ASan, with refusal, lifetime and deadlock monitors',
     'Random Python programs on random array layouts; every number that comes back is compared with numpy, every inadmissible call must raise, everything that outlives its owner is used again under ASan.')

prop('C22', 'Audio interfaces hand every block to the callback and back exactly',
     'For every channel count, period, sampling rate, host API, device selection, interleaving and Jack port and connection configuration, an audio interface passes every block the sound system delivers to the registered callback, channel by channel, once and in order, and passes back what the callback produced for that very block. The ports, connections, devices and stream parameters requested from the sound system are exactly those of the configuration. After stop() or destruction has returned the callback is not called again and none of its buffers is touched, also when the sound system calls from a thread of its own at that moment; an interface can be started again. Configurations that are malformed or cannot be honoured, and failures reported by the sound system, are refused with an exception and leave nothing behind (no open client or stream, no initialised library); errors within the callback end or mute the stream and never propagate into the sound system.',
     ['configurations', 'schedules', 'faults', 'histories'], 'all interface configurations, host behaviours (block lengths, failures, threads) and start/stop histories',
     'The repository has no test that runs an audio interface: they need sound hardware or a running Jack server.',
     ['src/libaudiointerfaces/portaudio_interface.cpp', 'src/libaudiointerfaces/jack_interface.cpp', 'src/libaudiointerfaces/audio_interface_factory.cpp', 'src/libaudiointerfaces/audio_interface.cpp'],
     [('PortAudio streams', 'src/libaudiointerfaces/portaudio_interface.cpp'), ('Jack clients', 'src/libaudiointerfaces/jack_interface.cpp'), ('creation by name', 'src/libaudiointerfaces/audio_interface_factory.cpp')],
     'differential monitor with a simulated PortAudio library and Jack server that record every call; ASan, and TSan with a host thread',
     'The real interface sources run against an implementation of the PortAudio and Jack functions that checks the contract of each call, injects faults, and drives the callback from the same or another thread; every sample handed over is compared with a formula of stream position and channel.')

prop('C23', 'The applications do what their command line says',
     'For every command line, option file and input file, the applications (matrix_convolver, feedthrough, time_frequency_feedthrough, baseline_renderer, visr_renderer) either process audio, from the first block the sound system delivers until the user asks them to stop, exactly as their options say, or end with a failure status and an explanatory message before they touch the sound system; help and version requests succeed. Convolvers apply the filters, file and filter offsets, channel ranges, gains, routings and routing files of their options; feedthroughs copy their inputs to their outputs; renderers interpret their array configuration, channel and object counts, interpolation, diffusion, object equalisation, reverb, tracking and network options, and render the scenes that arrive over the network as the rendering components define. Options on the command line and in an option file mean the same, and the audio interface is created with the period, sampling frequency, channel counts and interface options that were given.',
     ['configurations', 'inputs', 'histories'], 'all command lines, option files, filter files, array files and scenes',
     'The repository has no test that runs an application: they need a sound system and run until a key is pressed.',
     ['src/apps/matrix_convolver/main.cpp', 'src/apps/matrix_convolver/init_filter_matrix.cpp', 'src/apps/matrix_convolver/options.cpp', 'src/apps/baseline_renderer/main.cpp', 'src/apps/visr_renderer/main.cpp', 'src/apps/feedthrough/main.cpp', 'src/apps/time_frequency_feedthrough/main.cpp', 'src/libapputilities/options.cpp'],
     [('option parsing', 'src/libapputilities/options.cpp'), ('filter files', 'src/apps/matrix_convolver/main.cpp'), ('renderer set-up', 'src/apps/visr_renderer/main.cpp')],
     'differential monitor: main() of every application on a simulated sound system; ASan',
     'The real main() functions run in child processes with random command lines on the simulated PortAudio and Jack of C22; scenes are sent to their network ports; the captured output is compared with a reference computed from the meaning of the options, and refusals are checked for status, message and untouched sound system.')

prop('C24', 'Python components in C++ flows',
     'A component written in Python, atomic or composite, wrapped and placed in a signal flow built in C++ (or run by python_runner) is an ordinary component: for every module layout (file, package, nested package, dependencies in further search directories), dotted class name or factory, positional and keyword arguments, the wrapper has exactly the audio and parameter ports of the Python component (names, order, widths, sample types, parameter and protocol types) and the flow computes, exchanges messages and parameters, block by block, as if its parts were written in C++, whichever thread creates, processes or destroys it and whatever other flows do meanwhile. An exception raised by Python code during processing reaches the caller of process() as a C++ exception carrying its text, and the flow works again in the next block. Modules, classes, arguments, search paths or constructors that fail are refused with an exception that tells the reason, leaving the enclosing composite as it was before. The Python component lives exactly as long as its wrapper.',
     ['inputs', 'configurations', 'schedules', 'histories'], 'all Python modules, arguments, flows and threads',
     'The repository\'s tests wrap one adder with correct arguments, run it on zeros in one thread, and do not look at its output.',
     ['src/libpythoncomponents/wrapper.cpp', 'src/libpythonsupport/load_module.cpp', 'src/libpythonsupport/gil_ensure_guard.cpp', 'src/libpythonsupport/initialisation_guard.cpp', 'src/apps/python_runner/main.cpp', 'src/python/visr/atomic_component.cpp'],
     [('wrapping', 'src/libpythoncomponents/wrapper.cpp'), ('module loading', 'src/libpythonsupport/load_module.cpp'), ('application', 'src/apps/python_runner/main.cpp')],
     'differential monitor: generated Python components in C++ flows against a model; ASan',
     'Every case writes random Python modules (nested composites of Python and C++ parts with random connections and parameter ports), wraps them in C++ flows run by changing and concurrent threads of an instrumented build with an embedded interpreter, and compares every sample, message and parameter with a model evaluated from the description; failing modules, constructors and arguments are tried in between, and object lifetimes are observed from Python.')

prop('C25', 'Binaural rendering follows head and sources',
     'Each renderer of the binaural synthesis toolkit computes what its method defines, for every measurement grid, filter set, scene, head movement and combination of options. The HRIR renderer filters each point source or plane wave with the responses measured nearest to (or interpolated barycentrically between the grid points around) the direction of the source relative to the head, with the ear delays and level applied where asked for; the virtual loudspeaker renderer does so for the look direction and each loudspeaker, plus the static late part; the object to virtual loudspeaker renderer equals the object renderer followed by it; the HOA renderers rotate the sound field against the head and decode it with the given filters. All of them agree on what yaw, pitch and roll mean, separately and combined, whether given as static or initial orientation or by tracking, and in the realtime variants with a receiver; filters switch at the block of the change or cross-fade within it. Other objects do not contribute, arguments are left unchanged and arguments which do not fit each other are refused. SOFA files, spherical harmonics and their rotations are read and computed exactly; separating the delays of a SOFA set from its responses loses nothing but the leading silence, keeps the input file, and leaves no output file if it fails; and head trackers deliver the last complete report however the bytes arrive.',
     ['inputs', 'configurations', 'histories'], 'all grids, filters, scenes, head movements and options',
     'The repository has no tests of the toolkit, only example scripts that need files of measurements and a listener.',
     ['src/python/packages/visr_bst/'],
     [('HRIR control', 'src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py'), ('virtual loudspeakers', 'src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py'), ('Ambisonics', 'src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py'), ('trackers', 'src/python/packages/visr_bst/tracker/razor_ahrs.py')],
     'runtime monitor: renderer outputs against the definition of the methods in double precision; ASan',
     'Every case builds a renderer with random options on a random grid in an instrumented build, runs it over several epochs of scene changes and head movements and compares the samples of both ears with the definition evaluated from head orientation matrices and source directions; files, trackers and serial ports are stand-ins which deliver what the monitor made.')

prop('C26', 'Generated array configurations describe the requested arrays',
     'The file that createArrayConfigFile or createArrayConfigFromSofa writes for any admissible set of arguments is one the LoudspeakerArray reader accepts, and it describes the array that was asked for: positions (polar or Cartesian, two or three dimensions), channels in the given order or as given, labels (given or default), gains, delays and gains that compensate distances to the farthest loudspeaker, virtual loudspeakers and their routings, subwoofers with their assigned loudspeakers and weights, equalisers of any number of sections assigned to the named loudspeakers, and the triplets (or pairs of a planar array) given, or else the faces of the convex hull of all directions, which cover every direction. Arguments of any array-like type are accepted and left unchanged, and repeated calls with the same arguments give the same file. Arguments which do not fit each other (lengths, unknown or repeated labels, repeated or invalid channels, dimensions) raise an error and leave no file behind. The conversions of positions that the package exports invert each other.',
     ['inputs', 'configurations'], 'all arrays and options',
     'The repository has no tests of the package, only scripts which write the files that come with it.',
     ['src/python/packages/loudspeakerconfig/'],
     [('generator', 'src/python/packages/loudspeakerconfig/createArrayConfigFile.py'), ('SOFA', 'src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py')],
     'runtime monitor: files generated from random arrays read back by the (instrumented) LoudspeakerArray reader and compared with the arguments; ASan',
     'Every case draws an array and a random subset of the options, writes the file in a scratch directory, reads it with the LoudspeakerArray of an instrumented build and compares every getter with the arguments; triangulations are checked to be the hull (no direction outside any face, every direction covered); inadmissible variations of admissible arguments have to be refused.')

prop('C27', 'The metadata adapter applies the configured processing to every scene',
     'A metadapter engine keeps the latest state of every object it was sent (until the timeout, if one is set) and, in each call, returns the objects that result from applying the elements of its configuration in their order: the processors ChangeVolume, GroupVolume, GroupAdaptRadius, Spread, CompressAbove, CompressBelow, CompressHeight, NuendoHeightFix, AdaptPosition, AdaptDiffuseness, AttenuateAction, GlobalEQ, RouteToSoundbar, EditDistance, EditReverb, AddObjects, AddReverb and AzRemap do exactly what they are configured for to every object they apply to and leave everything else of it alone; sequences, conditionals (every object goes to the branches whose conditions it fulfils or else to the default, and branches do not influence each other), source merges and split sinks (nested in any way) route the objects as configured and merges arrange them in the requested order. Results never change the state kept for later calls. Valid OSC and JSON control messages change the addressed parameter of the addressed processor from that call on, OSC before JSON messages; unknown, malformed or inadmissible ones are ignored without any effect. The kind of notation (numbers or texts, Cartesian or polar) of objects does not matter. Engines which process only changes return nothing if nothing was received. The VISR component of the adapter does the same for object vectors or messages at its input and output. Unknown processors are skipped; configurations with unknown elements, repeated names, missing, misplaced or inconsistent parts are refused.',
     ['inputs', 'configurations', 'histories'], 'all configurations, scenes and controls',
     'The repository has no tests of the package, only configurations and scripts that print results.',
     ['src/python/packages/metadapter/'],
     [('engine', 'src/python/packages/metadapter/core/metadapter_engine.py'), ('structures', 'src/python/packages/metadapter/core/composite_conditional.py'), ('processors', 'src/python/packages/metadapter/processors/'), ('component', 'src/python/packages/metadapter/visrintegration/component.py')],
     'runtime monitor: random configurations, scenes and controls run through the engine and the VISR component and compared with an independent model of every processor and structure; ASan',
     'Every case draws a nested configuration, writes it to a scratch file, and runs a history of scenes and control messages through the engine or through its VISR component in an instrumented signal flow; every returned object, its order where the configuration defines it, and everything sinks print is compared with an independent model.')

NOT_APPLICABLE = []

def main():
    import checks
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
            for fn in p['files']:
                if not os.path.exists(os.path.join('/repo', fn)):
                    print('missing anchor', p['id'], fn)
    m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': NOT_APPLICABLE}
    for p in P:
        if p['id'] in checks.CHECKS:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
                                'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            print('no check for', p['id'])
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')

if __name__ == '__main__':
    main()
