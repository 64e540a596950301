#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Audio buffers and views address exactly the samples they name",
 "Every read, write, clear, copy, add, channel duplication or constructor on an audio buffer, and on any view that selects a range of its channels and/or frames (also a view of a view), affects or returns exactly the samples it names and leaves all other samples unchanged. Constructors (from one channel's data, from another buffer, extended, padded, sine, step) give a buffer of the requested shape and content.",
 ["inputs","histories"],"any buffer shape (including 0 frames), any nesting of views, any sequence of operations and sample locations",
 "The tests check single hand-picked offsets on one or two shapes and never nest views, slice channels, or build a multi-channel buffer from one channel's data; the claim is over all shapes, offsets and sequences.",
 ["src/buffer/audio_buffer.rs","src/buffer/owned_audio_buffer.rs","src/buffer/borrowed_audio_buffer.rs","src/buffer/mutable_borrowed_audio_buffer.rs","src/buffer/sample_location.rs"],
 [("offset arithmetic of views","src/buffer/mutable_borrowed_audio_buffer.rs get_channel_data(_mut)"),("clipped copy/add","src/buffer/audio_buffer.rs copy_from/add_from"),("row-major storage","src/buffer/owned_audio_buffer.rs get_sample_location_range")],
 ["AudioBuffer methods of OwnedAudioBuffer / BorrowedAudioBuffer / MutableBorrowedAudioBuffer"])

p("C02","Interleaved audio maps sample-for-sample and round-trips",
 "Filling a buffer from interleaved samples puts sample i*C+c at frame i, channel c for the stated channel count C, and copying out interleaved is its exact inverse. When the buffer has fewer or more channels or frames than the interleaved data, the common part is transferred and nothing else is changed.",
 ["inputs"],"all channel counts, frame counts, data lengths, and mismatches between the stated and actual channel counts, on owned buffers and views",
 "The tests use one stereo shape with matching counts; the mapping must hold for every shape and mismatch.",
 ["src/buffer/audio_buffer.rs"],[("interleaving loops","src/buffer/audio_buffer.rs fill_from_interleaved / copy_to_interleaved")],["the destination slice / buffer"])

p("C03","Vectorised mixing equals scalar arithmetic at any length and alignment",
 "Adding one buffer into another, with or without a gain, and applying gains gives, for every sample, the same value as the plain scalar formula, whatever the length, memory alignment or offset of the two regions, and never touches samples outside the region.",
 ["inputs"],"all lengths 0..600, all frame offsets of source and destination (hence all relative alignments), all sample values",
 "The SIMD paths split each region by its run-time alignment; the tests use one length and whatever alignment the allocator gave them.",
 ["src/dsp/mod.rs","src/buffer/audio_buffer.rs","src/effects/gain/gain_processor.rs","src/effects/mixer/mixer_matrix.rs"],
 [("pre/main/post SIMD split with scalar fallback","src/dsp/mod.rs")],["add_from, gain, pan, mixer and node mixing outputs"])

p("C04","Sample-rate conversion is linear interpolation of the source",
 "Converting a buffer to another sample rate produces, at every output frame, the linear interpolation of the source at the corresponding source time, for every position up to the end of the longest buffer. Converting to the same rate is an exact copy.",
 ["inputs"],"all rate pairs, buffer lengths up to about a million frames, channel counts and contents",
 "The tests convert short sines between two rates; error that grows with position, off-by-one ends or channel mix-ups need long and arbitrary buffers.",
 ["src/buffer/audio_buffer.rs"],[("fractional read position","src/buffer/audio_buffer.rs sample_rate_convert_from")],["converted buffer contents"])

p("C05","Timestamps form an exact, ordered fixed-point time line",
 "Converting between seconds, samples and beats and back loses less than the resolution of the type, and addition, increments and comparison agree with exact arithmetic on the underlying time line (associative, commutative, monotone). Adding N samples one by one or at once differs by no more than N resolution steps.",
 ["inputs"],"all times of magnitude below 2^30 seconds, sample rates 1..384000, tempos 1..1000",
 "The tests check a few hand-picked constants; the algebra must hold over the whole range.",
 ["src/utility/timestamp.rs"],[("fixed-point I32F32","src/utility/timestamp.rs")],["Timestamp API"])

p("C06","Levels convert between dB and linear gain consistently and monotonically",
 "Converting a level between decibels and linear gain round-trips within rounding for every level above the silence floor, conversion in either direction is monotone, and nothing reports a level below the silence floor. Zero gain and the floor map to each other.",
 ["inputs"],"all finite dB values and gains",
 "The tests check a few constants; monotonicity and the region near the floor quantify over all values.",
 ["src/utility/level.rs"],[("dB/linear formulas with floor","src/utility/level.rs")],["Level API"])

p("C07","The clock counts exactly the frames processed while started",
 "The engine's current time always equals the number of frames rendered while started divided by the sample rate, without drift however the frames are split into blocks. While stopped, time is frozen, output is silence, and no scheduled event is consumed; start and stop take effect at the next processed block.",
 ["histories"],"all sequences of start, stop, repeated start/stop, blocks of any size, sample rates and engine block limits",
 "Only a fixed history can be written in a test, and none checks the clock over long, irregular histories or non-integer rates.",
 ["src/realtime/processor.rs","src/engine/root.rs"],[("frame counter converted to time","src/realtime/processor.rs update_position"),("started flag","src/realtime/processor.rs process")],["Context::current_time, output buffer"])

p("C08","Rendering does not depend on how the audio is split into blocks",
 "For the same nodes, connections, scheduled automation and events and the same input, the rendered output, recordings and meter readings are the same whether the host asks for the frames in one call or in any sequence of calls, and whatever the engine's maximum block size is.",
 ["inputs","configurations","schedules"],"any graph of any node kinds with automation and events, any partition of the timeline into calls of 1 or more frames, any maximum block size",
 "Each test renders with one block size; equality must hold for all partitions, including 1-frame blocks and blocks that end exactly at an event.",
 ["src/realtime/processor.rs","src/realtime/dsp_graph.rs","src/effects"],[("sub-block loop with frame offsets","src/realtime/processor.rs process_graph"),("per-node state carried across blocks","src/effects/*/..._processor.rs"),("events placed at a frame in a block","src/effects/utility/event_processor.rs")],["output buffer, Recorder::get_recorded_audio, envelope notifications"])

p("C09","Audio is routed exactly along the connections that exist",
 "At every block each node receives, on every input channel, exactly the sum over existing connections of the source channel that connection maps to it, plus the system input when it is the node assigned to it, and the system output carries exactly the node assigned to it. Nothing else leaks: not from removed connections, unconnected nodes, other channels, or previous blocks.",
 ["histories","inputs"],"every acyclic graph reachable by any sequence of node creation, connect (all or a range of channels), disconnect, node drop and input/output re-assignment, interleaved with blocks",
 "The tests build four fixed graphs; parallel connections, channel ranges, fan-in, re-routing and disconnection in arbitrary order are an unbounded history space.",
 ["src/realtime/dsp_graph.rs","src/realtime/graph.rs","src/realtime/topological_sort.rs","src/graph/graph_node.rs","src/buffer/buffer_pool.rs"],
 [("topological order","src/realtime/topological_sort.rs"),("buffer assignment and mixing","src/realtime/dsp_graph.rs process_dsp/prepare_input"),("edge lists","src/realtime/graph.rs")],["output buffer against a linear reference model"])

p("C10","Nodes can be removed at any time without disturbing the rest",
 "Dropping a node handle at any moment, connected or not, playing or not, removes that node and its connections, leaves every other node's audio exactly as if only those connections had been removed, and never stops or crashes the engine. The removed node's processor is not destroyed by the thread that renders audio.",
 ["histories","schedules"],"all graphs, all drop orders and moments relative to blocks and other commands, single and mass drops",
 "The tests never drop a node while an engine runs.",
 ["src/graph/graph_node.rs","src/realtime/dsp_graph.rs","src/realtime/graph.rs","src/realtime/garbage_collector.rs"],
 [("drop sends a removal command","src/graph/graph_node.rs Drop"),("removal of node and edges","src/realtime/graph.rs remove_node"),("hand-over to collector thread","src/realtime/garbage_collector.rs")],["output buffer; weak references held by node processors; deallocations on the rendering thread"])

p("C11","Parameter automation follows its schedule exactly, sample by sample",
 "At every rendered sample a parameter has the value its schedule prescribes: the last immediate change at or before that time, a straight line (or constant ratio curve) from the value at a ramp's start to its target at its end, and the target afterwards. Changes scheduled in the past apply at the next block, and any number of changes due within one sample or block are all honoured.",
 ["inputs","histories"],"any schedule of immediate changes and non-overlapping ramps at any (also fractional-sample) times, submitted in any order and at any moment, at any sample rate",
 "The tests check three hand-written schedules with one-second spacing and a loose tolerance at a few points.",
 ["src/parameter/realtime_parameter.rs","src/parameter/audio_parameter.rs","src/graph/dsp.rs"],
 [("sorted pending changes, per-frame evaluation","src/parameter/realtime_parameter.rs value_at_time")],["gain node output for constant input; AudioParameter::get_value"])

p("C12","Cancelling automation removes exactly the changes it names",
 "Cancelling all scheduled changes of a parameter removes every change that has not begun, and cancelling those ending after a time removes exactly the pending changes that end after it and keeps the others. Neither affects other parameters or changes scheduled later.",
 ["histories","inputs"],"any schedule, any cancellation time and moment, any later rescheduling",
 "One unit test cancels one change; the selective cancel has no test at all.",
 ["src/parameter/realtime_parameter.rs","src/parameter/audio_parameter.rs"],[("retain filter on pending changes","src/parameter/realtime_parameter.rs cancel_scheduled_changes*")],["gain node output"])

p("C13","Parameter values never leave their declared range",
 "Whatever value is requested for a parameter, immediately, scheduled or as a ramp target, rendering is identical to requesting that value clamped to the parameter's range, and the reported value always stays in range, at every moment of every ramp. A value in the range, its ends included, is taken exactly.",
 ["inputs"],"every parameter of every node kind, every requested finite value, method and time",
 "No test requests an out-of-range value.",
 ["src/parameter/parameter_range.rs","src/parameter/audio_parameter.rs","src/parameter/realtime_parameter.rs"],[("clamp on every setter","src/parameter/audio_parameter.rs")],["AudioParameter::get_value, output of two engines"])

p("C14","The mixer applies exactly its gain matrix",
 "Each mixer output channel is the sum over inputs of input times the current gain of that pair, with preset mixers behaving as their documented matrix. Any number of gain changes made between two blocks all apply, last one winning, and setting a gain never blocks.",
 ["inputs","histories"],"all input/output counts, all gain histories of any length between blocks",
 "Tests cover identity, mono-split and a couple of static settings, with at most a few changes between blocks.",
 ["src/effects/mixer/mixer_matrix.rs","src/effects/mixer/mixer_processor.rs","src/effects/mixer/mixer_node.rs"],[("matrix multiply-accumulate","src/effects/mixer/mixer_processor.rs"),("event channel","src/effects/mixer/mixer_node.rs")],["output buffer"])

p("C15","Gain and pan follow their per-sample laws",
 "Gain multiplies every channel by the current gain at every sample. Pan multiplies left by min(1-p,1) and right by min(1+p,1) at every sample for the current position p, is exactly transparent at centre, and mirrors under exchange of channels and sign of p.",
 ["inputs"],"all inputs, channel counts, gain and pan trajectories including per-sample ramps",
 "Tests check constant settings plus one ramp at a coarse tolerance.",
 ["src/effects/gain/gain_processor.rs","src/effects/pan/pan_processor.rs"],[("per-sample multiply by parameter values","src/effects/gain/gain_processor.rs"),("pan law","src/effects/pan/pan_processor.rs")],["output buffer"])

p("C16","The oscillator is a phase-continuous wavetable reader at any frequency",
 "An oscillator's output is the linearly interpolated, cyclic reading of its waveform at a phase advancing by frequency / sample rate each sample, without phase jumps on frequency changes, wraparound or block borders, scaled by its gain, equal on all channels. It never fails for any frequency in its range, table length or harmonic set.",
 ["inputs","histories"],"frequencies 20..20000 incl. exact divisors of the rate, wavetables of any length and content, harmonic lists, frequency automation, sample rates, long runs",
 "No test renders the oscillator; failures occur at phases only reached by specific frequency and rate pairs or after long runs.",
 ["src/effects/oscillator/oscillator_processor.rs","src/effects/oscillator/oscillator_node.rs"],[("phase accumulator and cyclic interpolation","src/effects/oscillator/oscillator_processor.rs")],["output buffer"])

p("C17","Biquad filters implement their textbook transfer function",
 "Each filter type produces, for any input and parameter setting below half the sample rate, the output of the corresponding second-order cookbook difference equation, independently per channel. The filter is linear down to very quiet signals, and its shape/frequency/gain controls are all reachable.",
 ["inputs"],"all filter types, frequencies, Q, shelf gain and gain, channel counts, input signals over the full dynamic range and any duration",
 "Tests check a few coefficient values and steady-state gains; linearity, per-channel independence and all filter types over the parameter space are not reached.",
 ["src/effects/biquad/biquad_coefficients.rs","src/effects/biquad/biquad_processor.rs","src/effects/biquad/biquad_node.rs"],[("coefficient formulas","src/effects/biquad/biquad_coefficients.rs"),("direct form recursion","src/effects/biquad/biquad_processor.rs")],["output buffer against an f64 reference filter"])

p("C18","The compressor follows its static curve and never expands or blows up",
 "For a steady level the compressor settles to the gain prescribed by threshold, ratio and a continuous soft knee; gain reduction is never negative and grows with level, output is finite for every input and setting, wet/dry mixes as documented, and below the knee the signal passes unchanged.",
 ["inputs"],"all thresholds, ratios, knees (incl. 0), times, wet/dry values, levels incl. exact equality with the threshold and knee borders",
 "Tests check four levels on one setting; exact-equality points, knee zero and continuity over the parameter space are untested.",
 ["src/effects/compressor/compressor_processor.rs","src/effects/compressor/compressor_node.rs","src/effects/utility/envelope_follower.rs"],[("gain computer","src/effects/compressor/compressor_processor.rs"),("envelope follower","src/effects/utility/envelope_follower.rs")],["output buffer"])

p("C19","Convolution equals direct convolution with the impulse",
 "The convolution node's wet output equals the direct per-channel convolution of its input with the impulse response, for every impulse length, input, block size and duration, and wet/dry mixes linearly.",
 ["inputs","schedules"],"impulse lengths 1..several thousand, channel counts, any input, any sequence of block sizes, wet/dry settings",
 "Tests check four impulses with one block size; partition boundaries depend on impulse length, block sizes and history.",
 ["src/effects/convolution/convolution_processor.rs","src/effects/convolution/convolution_node.rs"],[("partitioned overlap-add FFT","src/effects/convolution/convolution_processor.rs")],["output buffer"])

p("C20","The waveshaper applies its transfer curve and stays finite",
 "The waveshaper's wet output at every sample is its shaping function of the overdriven, clipped input within the resolution of its table, mixed with the dry signal by the mix control, per channel; built-in shapes give finite, bounded output for every input and setting.",
 ["inputs"],"all shapes (hard clip, soft saturation at every threshold, tanh, custom functions), overdrive, mix, inputs incl. beyond full scale",
 "Tests check a few points of the tables; the table ends and extreme settings are not reached.",
 ["src/effects/waveshaper/waveshaper_processor.rs","src/effects/waveshaper/shape.rs","src/effects/waveshaper/waveshaper_node.rs"],[("table lookup with interpolation","src/effects/waveshaper/waveshaper_processor.rs"),("shape functions","src/effects/waveshaper/shape.rs")],["output buffer"])

p("C21","ADSR envelopes rise, decay, hold and release as configured",
 "A note's envelope starts at its note-on time, rises monotonically to full level within the attack time, falls to the sustain level within the decay time, holds it exactly until note-off, and falls monotonically to zero within the release time, for any sustain level including zero and any stage at note-off. It is always within [0,1], is silent before the first note and after release, and submitting notes never blocks.",
 ["inputs","histories"],"all attack/decay/sustain/release settings, note on/off times and histories of any length, sample rates and block sizes",
 "Tests check one setting per stage at one block size; note-off during any stage, zero sustain and long event queues are not reached.",
 ["src/effects/adsr/adsr_envelope.rs","src/effects/adsr/adsr_processor.rs","src/effects/adsr/adsr_node.rs"],[("phase machine with coefficients","src/effects/adsr/adsr_envelope.rs"),("timed events","src/effects/adsr/adsr_processor.rs")],["output buffer for a constant input"])

p("C22","The sampler plays exactly the sample, at exactly the scheduled times",
 "A started sampler outputs the sample's own values from the requested position, beginning at the exact scheduled frame, until the sample's end or a stop, with only a short fade at starts, stops and restarts, and silence otherwise. Every start and stop is honoured, however they are spaced and in whatever order they were submitted.",
 ["inputs","histories"],"all samples (lengths 1 upwards, channel counts), start positions, event times and histories incl. retriggering within fades and simultaneous events",
 "Tests check single starts and stops with constant sample content.",
 ["src/effects/sampler/sampler_processor.rs","src/effects/sampler/sampler_voice.rs","src/effects/sampler/sampler_fade.rs","src/effects/sampler/sampler_event.rs","src/effects/utility/event_processor.rs"],[("time-ordered event queue","src/effects/utility/event_processor.rs"),("two cross-fading voices","src/effects/sampler/sampler_processor.rs")],["output buffer"])

p("C23","Sample loops repeat exactly their region until cancelled",
 "While a loop is enabled the sampler, on reaching the loop end, continues seamlessly at the loop start, so playback equals the sample with the loop region repeated, for any number of repetitions without drift. Cancelling the loop lets playback run on to the end of the sample; stopping while looping ends playback for good.",
 ["inputs","histories"],"all loop regions (any length, also shorter than a block or a fade), enable/cancel/stop/start times and orders, many repetitions",
 "Tests loop one region with constant content and check a few frames.",
 ["src/effects/sampler/sampler_processor.rs","src/effects/sampler/sampler_voice.rs"],[("loop position accounting","src/effects/sampler/sampler_processor.rs next_loop_position / process_frames")],["output buffer"])

p("C24","Recordings contain exactly the frames between start and stop",
 "Each recording holds exactly the input frames from its scheduled start to its scheduled stop, in order, on all channels, whatever the block sizes, however long it is and however rarely the application collects it. Separate recordings never mix, and recording never blocks or crashes the engine.",
 ["inputs","histories","schedules"],"all start/stop schedules, lengths, channel counts, block sizes and collection patterns",
 "Tests record one or two short passages drained after each block.",
 ["src/effects/recorder/recorder_processor.rs","src/effects/recorder/recorder_node.rs"],[("pre-allocated blocks sent over a channel","src/effects/recorder/recorder_processor.rs"),("assembly on the control side","src/effects/recorder/recorder_node.rs")],["Recorder::take_recording, Recorder::is_recording"])

p("C25","Level metering reports the true envelope at the promised rate",
 "The meter follows the attack/release envelope of every frame of its input and reports, for each channel and at the requested rate, the highest level since the last report, whatever the block sizes. If the application does not collect the reports the engine keeps running, and reporting works again once it does.",
 ["inputs","schedules","histories"],"all signals, channel counts, attack/release times, notification rates, block sizes and collection patterns",
 "Tests only cover the follower on steps; the node's notification stream has no test.",
 ["src/effects/envelope/envelope_processor.rs","src/effects/envelope/envelope_node.rs","src/effects/utility/periodic_notification.rs","src/effects/utility/envelope_follower.rs"],[("sub-block split at notification points","src/effects/envelope/envelope_processor.rs")],["Envelope::take_notifications"])

p("C26","Scheduled events depend only on their times, not on submission details",
 "Submitting the same timed changes and events in a different order, earlier or later (while still ahead of time), gives identical audio, and shifting every time by a whole number of frames shifts the output by exactly that many frames.",
 ["histories","schedules"],"all sets of timed events with distinct times across all node kinds, all submission orders, moments and shifts",
 "Each test has one submission order; the relation compares histories with each other.",
 ["src/effects/utility/event_processor.rs","src/parameter/realtime_parameter.rs","src/realtime/processor.rs"],[("time-sorted queues","src/effects/utility/event_processor.rs")],["output buffers of two engines"])

p("C27","Control-thread changes reach the audio thread in order under any timing",
 "With controls changed on one thread while another renders, every parameter and graph change takes effect in the order issued, at the start of a rendering call and no later than the first call begun after it; the events given to one node (mixer levels, recorder, sampler, envelope) likewise keep their order and are all acted on; the clock read from the control thread never goes backwards and agrees with the frames rendered; recordings and meter reports arrive complete and in order; and after quiescence the audio is that of the final state.",
 ["schedules","histories"],"all interleavings the operating system produces of a control thread and an audio thread, over generated command histories",
 "No test uses two threads; the claim quantifies over interleavings.",
 ["src/engine/root.rs","src/realtime/processor.rs","src/parameter/audio_parameter.rs"],[("unbounded FIFO command channel","src/engine/root.rs"),("atomic clock","src/realtime/processor.rs update_position")],["output buffers, Context::current_time, parameter value reads"])

p("C28","No well-formed use crashes, hangs or emits non-finite audio",
 "Any sequence of well-formed API calls, over any nodes, graphs, parameters, events and block sizes with finite input, neither panics nor hangs and, for feed-forward graphs with bounded settings, produces only finite samples.",
 ["histories","inputs","configurations"],"all histories of creating, connecting, automating, playing, dropping nodes and rendering",
 "A whole-system guarantee over unbounded histories; each unit test exercises one component.",
 ["src/realtime","src/effects","src/graph","src/engine"],[("assertions and index arithmetic throughout","src/")],["absence of panics, finiteness of the output buffer"])

p("C29","Rendering is deterministic and engines are isolated from each other",
 "Two engines given the same calls render bit-identical audio, also when other engines are created, used and dropped in between or concurrently in other threads.",
 ["histories","schedules"],"all histories and any other engines' activity",
 "No test renders twice or runs two engines; node order in a block comes from randomly seeded hash maps.",
 ["src/realtime/topological_sort.rs","src/realtime/dsp_graph.rs","src/commands/id.rs"],[("order-independent evaluation of a DAG","src/realtime/topological_sort.rs"),("global id generator","src/commands/id.rs")],["output buffers of two engines"])

p("C30","Steady-state rendering allocates no memory and never waits",
 "Once nodes are set up and commands have been taken in, rendering a block neither allocates nor frees heap memory and does not wait for another thread, for every node kind, parameter ramp, event and call size, whether or not the application collects notifications. (A recorder may extend the queue that hands over recordings, once in 31 messages.)",
 ["histories","inputs"],"all graphs of all node kinds in all playing states, automation in progress, undrained notifications",
 "No test observes allocations or waiting; a single occasional allocation only shows in specific states.",
 ["src/realtime/dsp_graph.rs","src/effects/convolution/convolution_processor.rs","src/effects/recorder/recorder_processor.rs","src/effects/sampler","src/parameter/realtime_parameter.rs"],[("buffers pre-allocated at construction","src/realtime/dsp_graph.rs"),("pre-allocated work areas","src/effects/convolution/convolution_processor.rs")],["a counting global allocator around each process call"])

p("C31","Dropped nodes and engines leave nothing behind",
 "Whatever was done with them, dropping node handles, the context and the audio process, in any order, gives back all the memory they held and ends the engine's threads; while the engine lives, the memory of dropped nodes returns as well, however often nodes are made and dropped, and what is rendered in an engine after other things sounds as it does in a new one.",
 ["histories"],"all histories of nodes of all kinds, whole or cut short, all orders of dropping, any number of repetitions",
 "No test looks at what is held after a drop; a cycle of references or a list that is never pruned only shows over repetitions.",
 ["src/realtime/dsp_graph.rs","src/realtime/garbage_collector.rs","src/realtime/graph.rs","src/engine/root.rs","src/effects/recorder/recorder_node.rs","src/effects/envelope/envelope_node.rs"],[("dropped nodes are handed to a thread that destroys them","src/realtime/garbage_collector.rs"),("weak references held by notifiers","src/engine/root.rs")],["bytes held from the global allocator, by the case that allocated them, a thread's own record among them","output buffers"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
