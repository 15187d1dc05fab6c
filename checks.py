CHECKS = {
 'C01': {'rule': 'random flat dataflow graph of 1-25 atoms realised as a random hierarchy; non-trivial: at least one nested composite and more than three channel connections; distinct by structure hash',
         'jobs': [{'bin': 'flow', 'cfg': 'asan', 'quick': 12000, 'thorough': 200000}],
         'require': ['pass-throughs', 'parameter connections', 'blocks via callback', 'flows rebuilt on the same components', 'flows of a single component']},
 'C02': {'rule': 'a random valid flow with exactly one structural defect of 27 kinds planted at a random place; every case is non-trivial; distinct by structure hash and kind',
         'jobs': [{'bin': 'reject', 'cfg': 'asan', 'quick': 13500, 'thorough': 400000}]},
 'C03': {'rule': 'random channel geometry, period and sampling rate; atomic or composite flow; the host drives it block by block (with components that throw) or through the buffer adapter in arbitrary chunk sizes, with channel pointers or strided memory changing from call to call; non-trivial: at least two calls and one channel; distinct by geometry and chunk sequence',
         'jobs': [{'bin': 'host', 'cfg': 'asan', 'quick': 12000, 'thorough': 600000}],
         'require': ['component exceptions', 'adapter calls with strided memory', 'calls spanning periods unevenly', 'empty calls']},
 'C04': {'rule': 'random operation histories of 5-80 steps on one parameter connection: protocol, parameter type (31 types), dimensions and endpoints random; replayed against a sequential model; non-trivial: a protocol history (not the copy checks); distinct by history seed',
         'jobs': [{'bin': 'protocols', 'cfg': 'asan', 'quick': 24000, 'thorough': 1000000}],
         'require': ['messages received', 'published with copy', 'published', 'refused endpoints', 'endpoints replaced', 'receivers removed', 'shared data histories', 'value checks']},
 'C05': {'rule': 'a flow processed by one thread while 1-3 control threads exchange messages, double-buffered and shared values (all with unique ids) under its exchange lock, random yields; run under ThreadSanitizer and under AddressSanitizer; non-trivial: at least two exchanges and one message through the flow; distinct by the order in which messages arrived',
         'jobs': [{'bin': 'conc', 'cfg': 'tsan', 'mode': 'profile', 'quick': 2000, 'thorough': 20000}, {'bin': 'conc', 'cfg': 'asan', 'quick': 4000, 'thorough': 100000}],
         'require': ['messages through the flow', 'exchanges under the lock', 'lock attempts that met a running block', 'profiler reads during processing']},
 'C06': {'rule': 'one primitive operation (or container history) per case on exactly sized heap buffers: random operation, sample type, variant (reference, dispatched, SSE, AVX, FMA), length, alignment, values; non-trivial: more than one element; distinct by operation, type, variant, length class and alignment',
         'jobs': [{'bin': 'efl', 'cfg': 'asan', 'quick': 120000, 'thorough': 3000000}],
         'require': ['operations on the SSE variant', 'operations on the library variant', 'operations on the reference variant', 'misaligned operands reported', 'conversions', 'container histories', 'matrix products', 'interpolation coefficient sets', 'biquad cascades']},
 'C07': {'rule': 'random histories on the circular buffer, on the multichannel delay line, and on the delay vector and delay matrix components (all interpolators, control and ramp sources, delays and gains changing at any block); every output sample compared with a direct evaluation of the delayed and interpolated input; non-trivial: at least one delay change or two buffer operations; distinct by configuration and history',
         'jobs': [{'bin': 'delay', 'cfg': 'asan', 'quick': 40000, 'thorough': 1000000}],
         'require': ['circular buffer histories', 'taps read', 'gliding delays', 'taps at the maximum delay', 'inadmissible delays refused', 'overlong writes refused', 'delay vectors', 'delay matrices', 'delay changes', 'gain changes', 'targets changed within a transition', 'mis-sized control data refused']},
 'C08': {'rule': 'random convolver or FIR matrix component (dimensions, block length, filter length, alignment, sample type, transform library, crossfade time) driven with random signals and random routing, filter and interpolant changes between blocks; every output sample compared with direct convolution; non-trivial: at least two processed blocks; distinct by configuration and history',
         'jobs': [{'bin': 'convolve', 'cfg': 'asan', 'quick': 40000, 'thorough': 1500000}, {'bin': 'convolve', 'cfg': 'tsan', 'mode': 'ffts', 'quick': 8000, 'thorough': 100000}],
         'require': ['multichannel convolvers', 'crossfading convolvers', 'interpolating convolvers', 'FIR matrix components', 'transforms', 'crossfades restarted', 'crossfades continued with a new target', 'inadmissible filters refused', 'inadmissible indices refused', 'inadmissible interpolants refused', 'inadmissible messages', 'routings removed']},
 'C09': {'rule': 'random gain fader, gain matrix, gain vector, sparse gain matrix, adder, null source or signal routing (dimensions, period, transition length random) with gains and routings changing at any block, also within a transition; every output sample compared with the weighted sum of the inputs; non-trivial: at least one change or two inputs; distinct by configuration and history',
         'jobs': [{'bin': 'gains', 'cfg': 'asan', 'quick': 60000, 'thorough': 2000000}],
         'require': ['faders', 'gain matrices', 'gain matrix components', 'gain matrices without inputs', 'gain vector components', 'sparse gain matrices', 'adders', 'null sources', 'signal routings', 'targets changed within a transition', 'targets replaced before use', 'inadmissible routings refused', 'mis-sized gains refused']},
 'C10': {'rule': 'a history of 2-9 messages (valid, with one of 17 kinds of planted defects, or broken text) with the encoding of the resulting scene, one mutated message, a history of container operations, newly made objects, or the decoding and encoding components over several blocks; scene compared with a model after every step; non-trivial: at least two objects, or a mutated text; distinct by text or history',
         'jobs': [{'bin': 'scene', 'cfg': 'asan', 'quick': 16000, 'thorough': 400000}],
         'require': ['messages decoded', 'inadmissible messages refused', 'mutated messages accepted', 'mutated messages refused', 'scenes encoded and decoded', 'object vector histories', 'new objects', 'decoder runs', 'encoder runs', 'inadmissible messages to the decoder']},
 'C11': {'rule': 'one random routing table history, matrix, vector, listener position, filter or list per case, written in random notation, with or without a planted defect or mutation; non-trivial: more than one element or a history of several texts; distinct by text',
         'jobs': [{'bin': 'config', 'cfg': 'asan', 'quick': 120000, 'thorough': 3000000}],
         'require': ['tables read', 'inadmissible tables refused', 'table edits', 'signal routing texts', 'matrix texts read', 'vector texts read', 'audio files read', 'listener positions read', 'listener positions written and read', 'JSON filters read', 'XML filters read', 'parametric filters read', 'inadmissible texts refused', 'mutated texts accepted', 'mutated texts refused']},
 'C12': {'rule': 'a list of random parametric filters designed in either precision, a biquad filter component driven over several blocks with coefficient changes through setters and its parameter port, or an object equaliser driven with scenes; non-trivial: at least one filter, or a component with channels and sections; distinct by parameters or history',
         'jobs': [{'bin': 'eq', 'cfg': 'asan', 'quick': 80000, 'thorough': 2000000}],
         'require': ['parametric filters computed', 'filters without room refused', 'equaliser runs', 'filter changes', 'filter parameters sent', 'mis-sized coefficients refused', 'mis-sized parameters sent', 'object equaliser runs', 'inadmissible scenes refused']},
 'C13': {'rule': 'a history of up to 9 random operations on a quaternion, a position or a listener position in either precision, followed by distances and interpolations; state compared with the model after every operation; non-trivial: completed history; distinct by history',
         'jobs': [{'bin': 'geom', 'cfg': 'asan', 'quick': 300000, 'thorough': 8000000}],
         'require': ['quaternion histories', 'position histories', 'listener histories', 'yaw, pitch and roll', 'distances of rotations', 'interpolations of rotations', 'interpolations between equal rotations', 'interpolations of positions', 'interpolations on a ray']},
 'C14': {'rule': 'one random loudspeaker array (2D or 3D, virtual loudspeakers, subwoofers, filters, infinite or not) written as text, with or without one of 31 planted defects, or a panner of one of six kinds on it over several blocks with scene and listener changes; non-trivial: an array with a triplet; distinct by text and history',
         'jobs': [{'bin': 'panning', 'cfg': 'asan', 'quick': 16000, 'thorough': 500000}],
         'require': ['arrays read', 'inadmissible arrays refused', 'supplied arrays read', 'vector base amplitude gains', 'vector base intensity gains', 'sources on boundaries', 'listener moves', 'panning runs', 'compensated gains', 'high-frequency gains', 'channel objects', 'panned plane waves', 'ambisonic gain runs', 'diffusion gain runs', 'inadmissible ambisonic sources refused']},
 'C15': {'rule': 'one panning gain matrix with a random history of transition requests over up to 30 blocks, or a random history of request values; non-trivial: at least one object and three blocks; distinct by the history',
         'jobs': [{'bin': 'transitions', 'cfg': 'asan', 'quick': 12000, 'thorough': 400000}],
         'require': ['component runs', 'value histories', 'transitions requested', 'transitions interrupted', 'requests replaced before their start', 'stored transitions due when a block starts', 'requests in the past', 'late requests reported', 'mis-sized initial gains refused', 'inconsistent values refused', 'assignments']},
 'C16': {'rule': 'one history of messages over loopback UDP, of tracking messages or of OSC packets, partly mutated; non-trivial: at least one admissible message; distinct by the messages',
         'jobs': [{'bin': 'control', 'cfg': 'asan', 'quick': 20000, 'thorough': 400000}],
         'require': ['network histories', 'messages received', 'messages too long for the network', 'positions decoded', 'inadmissible positions', 'tracking runs', 'OSC runs', 'OSC values', 'mutated OSC packets', 'negative values', 'unknown OSC types refused']},
 'C17': {'rule': 'one core renderer on a random loudspeaker array (tracking, bands, equalisers, transition length, decorrelators random) over up to 20 blocks with scene and listener changes, a delay or gain flow, or a renderer controlled over loopback UDP; non-trivial: a rendered scene; distinct by configuration and history',
         'jobs': [{'bin': 'renderer', 'cfg': 'asan', 'quick': 5000, 'thorough': 200000}, {'bin': 'renderer', 'cfg': 'asan', 'mode': 'network', 'quick': 800, 'thorough': 20000}],
         'require': ['scenes', 'renderings', 'renderings with output equalisers', 'renderings with subwoofers', 'renderings with tracking', 'renderings in two bands', 'renderings with virtual loudspeakers', 'ambisonic objects', 'listener moves', 'silent channels', 'inadmissible configurations refused', 'delay vector flows', 'gain matrix flows', 'baseline renderings', 'bunch renderings', 'VISR renderings', 'default renderings', 'positions over the network']},
 'C18': {'rule': 'a history of listener positions on a random loudspeaker array, of scenes with channel objects, or of object lists; non-trivial: at least two steps; distinct by array and history',
         'jobs': [{'bin': 'follow', 'cfg': 'asan', 'quick': 24000, 'thorough': 600000}],
         'require': ['listener positions', 'compensations', 'arrays with virtual loudspeakers', 'scenes', 'inadmissible channels', 'unknown loudspeakers', 'channels for virtual loudspeakers', 'channels without a single loudspeaker', 'routings', 'allocations', 'excessive objects refused', 'objects that stayed', 'absent channels refused']},
 'C19': {'rule': 'one forward transform, inverse transform or both in sequence with a random configuration over several blocks, an inadmissible configuration, or a history of operations on frame containers; non-trivial: completed; distinct by configuration or history',
         'jobs': [{'bin': 'timefreq', 'cfg': 'asan', 'quick': 60000, 'thorough': 2000000}],
         'require': ['transformed blocks', 'inversely transformed blocks', 'chained blocks', 'feedthrough blocks', 'several frames per block', 'zero-padded windows', 'windows shorter than the hop', 'overlapping frames', 'refused configurations', 'hops beyond the transform refused', 'frame containers', 'assignments', 'empty frame sets']},
 'C20': {'rule': 'one history of scenes through the parameter calculator, the late filter calculator, the reverberation renderer or a complete renderer, on a random array with a random configuration; non-trivial: completed; distinct by configuration and history',
         'jobs': [{'bin': 'reverb', 'cfg': 'asan', 'quick': 4000, 'thorough': 150000}],
         'require': ['parameter blocks', 'scenes refused', 'late parameter messages', 'late filters', 'noise pairs', 'scenes rendered', 'objects rendered', 'core renderings', 'late parts heard', 'inadmissible configurations refused', 'energies with decorrelation filters from a file', 'energies with default decorrelation']},
 'C21': {'rule': 'one random use of the Python interface per case: containers and their views, a vector function on arrays of random layout, a signal flow with Python components, parameters between Python components, a component made from Python data, data objects, or the lifetime of something obtained from an object that is gone; non-trivial: completed; distinct by kind and dimensions',
         'jobs': [{'py': 'py_bindings.py', 'cfg': 'asanpy', 'quick': 12000, 'thorough': 400000,
                   'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1'}}],
         'require': ['flows', 'wrapper_calls', 'exceptions', 'parameter_blocks', 'messages', 'vector_functions', 'vector_ops', 'matrix_ops', 'conversions', 'biquad_calls', 'components', 'data_classes', 'rotations', 'outlived_views', 'orphaned_ports', 'mutex_sections', 'refusals']},
 'C22': {'rule': 'one PortAudio stream or Jack client per case: random (partly inadmissible) configuration on a random simulated sound system with devices, ports, faults and block lengths, started, driven, stopped, restarted or destroyed; non-trivial: a stream that ran or a refused configuration; distinct by configuration',
         'jobs': [{'bin': 'audiohost', 'cfg': 'asan', 'quick': 30000, 'thorough': 1000000}, {'bin': 'audiohost', 'cfg': 'tsan', 'mode': 'threads', 'quick': 3000, 'thorough': 60000}],
         'require': ['PortAudio streams', 'PortAudio streams stopped', 'interleaved streams', 'streams in a thread of the host', 'Jack clients', 'Jack clients stopped', 'clients in a thread of the server', 'connection settings overridden', 'errors within the callback', 'inadmissible PortAudio configurations refused', 'inadmissible Jack configurations refused', 'running interfaces destroyed', 'running interfaces restarted', 'calls after the end of a stream', 'blocks of another length', 'unknown interfaces refused']},
 'C23': {'rule': 'one command line application per case: random (partly inadmissible) options, files and scenes, run from main() to its end on a simulated sound system; non-trivial: an application that processed audio; distinct by command line',
         'jobs': [{'bin': 'apps', 'cfg': 'asan', 'quick': 6000, 'thorough': 80000}, {'bin': 'apps', 'cfg': 'asan', 'mode': 'renderers', 'quick': 1200, 'thorough': 12000}],
         'require': ['matrix convolvers', 'filters at offsets', 'feedthroughs', 'time-frequency feedthroughs', 'options from a file', 'help and version requests', 'inadmissible command lines refused', 'baseline renderers', 'VISR renderers', 'scenes over the network', 'outputs by the array', 'convolvers without routings']},
 'C24': {'rule': 'one case wraps generated Python modules in C++ flows and runs them, tries failing ones, or runs python_runner with them; distinct by ports, module layout, threading and kind of failure',
         'jobs': [{'bin': 'pycomp', 'cfg': 'asanpy', 'mode': 'flows', 'quick': 2400, 'thorough': 40000, 'env': {'PYTHONPATH': '@BUILD@/python', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1'}},
                  {'bin': 'pycomp', 'cfg': 'asanpy', 'mode': 'refusals', 'quick': 4000, 'thorough': 60000, 'env': {'PYTHONPATH': '@BUILD@/python', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1'}},
                  {'bin': 'pycomp', 'cfg': 'asanpy', 'mode': 'runner', 'quick': 1600, 'thorough': 24000, 'env': {'PYTHONPATH': '@BUILD@/python', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1'}}],
         'require': ['wrapped Python components', 'flows mixing C++ and Python composites', 'flows with parameter connections between Python components', 'flows run by a new thread for each block', 'flows run by threads of their own', 'flows created while another one runs', 'flows created and taken down by another thread',
                     'messages', 'parameter values', 'exceptions raised in Python', 'flows with ports of other sample types', 'refusals', 'runs of the application', 'blocks played by the application', 'inadmissible command lines refused']},
 'C25': {'rule': 'one binaural renderer with random options on a random grid and filter set, run over several epochs of scene changes and head movements; one spherical harmonics, rotation or SOFA computation; one history of bytes from a head tracker; or one renderer with arguments that do not fit each other; non-trivial: completed; distinct by configuration and history',
         'jobs': [{'py': 'bst.py', 'cfg': 'asanpy', 'mode': 'hrir', 'quick': 2000, 'thorough': 40000, 'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python:@REPO@/src/python/packages', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}},
                  {'py': 'bst.py', 'cfg': 'asanpy', 'mode': 'hoa', 'quick': 1600, 'thorough': 32000, 'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python:@REPO@/src/python/packages', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}},
                  {'py': 'bst.py', 'cfg': 'asanpy', 'mode': 'speakers', 'quick': 2000, 'thorough': 40000, 'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python:@REPO@/src/python/packages', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}},
                  {'py': 'bst.py', 'cfg': 'asanpy', 'mode': 'functions', 'quick': 3000, 'thorough': 60000, 'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python:@REPO@/src/python/packages', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}},
                  {'py': 'bst.py', 'cfg': 'asanpy', 'mode': 'trackers', 'quick': 1200, 'thorough': 24000, 'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python:@REPO@/src/python/packages', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}},
                  {'py': 'bst.py', 'cfg': 'asanpy', 'mode': 'refusals', 'quick': 800, 'thorough': 16000, 'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python:@REPO@/src/python/packages', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}}],
         'require': ['extracted delays', 'HRIR renderers', 'HOA renderers', 'HOA object renderers', 'realtime renderers', 'virtual loudspeaker renderers', 'object renderers', 'late parts', 'truncated responses', 'transitions', 'head movements', 'epochs', 'SOFA files', 'function cases', 'tracker reports', 'calibrations', 'refusals']},
 'C26': {'rule': 'one array configuration generated from a random array and a random subset of the options, read back and compared; one file converted from a SOFA set; one inadmissible variation of admissible arguments; or one conversion of positions; non-trivial: completed; distinct by array and options',
         'jobs': [{'py': 'arraycfg.py', 'cfg': 'asanpy', 'quick': 12000, 'thorough': 400000, 'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python:@REPO@/src/python/packages', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}}],
         'require': ['arrays', 'triangulations', 'given triangulations', 'arrays with virtual loudspeakers', 'arrays with equalisers', 'arrays with subwoofers', 'planar arrays', 'arrays with distance compensation', 'arrays in polar notation', 'arrays in Cartesian notation', 'arrays from SOFA files', 'inadmissible arrays refused', 'conversions of positions']},
 'C27': {'rule': 'one configuration of the adapter with a history of scenes and controls run through the engine or its component and compared with the model, or one inadmissible variation of a configuration; non-trivial: completed; distinct by configuration and number of steps',
         'jobs': [{'py': 'adapt.py', 'cfg': 'asanpy', 'quick': 12000, 'thorough': 400000, 'env': {'LD_PRELOAD': '@PRELOAD@', 'PYTHONPATH': '@BUILD@/python:@REPO@/src/python/packages', 'LD_LIBRARY_PATH': '@BUILD@/lib', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}}],
         'require': ['engines', 'components', 'objects', 'objects of components', 'refused configurations', 'conditionals', 'source merges', 'split sinks', 'controls', 'refused controls', 'objects in sinks', 'expired objects', 'processor ChangeVolume', 'processor GroupVolume', 'processor GroupAdaptRadius', 'processor Spread', 'processor CompressAbove', 'processor CompressBelow', 'processor CompressHeight', 'processor NuendoHeightFix', 'processor AdaptPosition', 'processor AdaptDiffuseness', 'processor AttenuateAction', 'processor GlobalEQ', 'processor RouteToSoundbar', 'processor EditDistance', 'processor EditReverb', 'processor AddObjects', 'processor AddReverb', 'processor AzRemap', 'processor NoSuchProcessor']},
}
