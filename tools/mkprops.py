#!/usr/bin/env python3
# Source of truth for properties.jsonl (kept as Python so that the text stays reviewable).
import json, sys, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

CORE="src/core/mbelib.c"; AD="src/core/mbe_adaptive.c"; UV="src/core/mbe_unvoiced_fft.c"
A24="src/ambe/ambe3600x2400.c"; A25="src/ambe/ambe3600x2450.c"; AC="src/ambe/ambe_common.c"
I72="src/imbe/imbe7200x4400.c"; I71="src/imbe/imbe7100x4400.c"; ECC="src/ecc/ecc.c"; H="include/mbelib-neo/mbelib.h"
PF="src/external/pffft/pffft.c"

prop("C01","Concurrent decoders never influence one another",
 """When several threads decode at the same time, each with its own stream state, every thread's PCM, error counts,
 status traces, decoded bits and resulting stream state are bit-for-bit what that thread's call sequence produces when it runs
 alone. This includes first use of the library in each thread, seeding the thread's noise generators, muted (comfort noise)
 frames and threads that start or end while others are in the middle of a call.""",
 ["schedules","histories"],
 "Every interleaving of library calls of any number of threads, preempted at any instruction, for every call history of each thread.",
 """The test suite is single-threaded; no test ever has two threads inside the library, so state shared by accident (a cache, a
 generator, a scratch buffer, an initialise-once flag) is invisible to it.""",
 [CORE,UV,A24,A25,I72,H],
 [("comfort noise generator","per-thread generator position",CORE),("FFT plan and unvoiced seed","per-thread plan pointer and cold-start seed",UV),
  ("DCT tables","per-thread lazily built cosine tables",I72),("pre-enhancement energy hand-off","per-thread value passed from enhancement to smoothing",AD)],
 [("thread-local storage class on every mutable static","src/internal/mbe_compiler.h"),("lazy per-thread initialisation",UV)],
 ["return values and buffers of every public call","mbe_parms after every call"])

prop("C02","Streams multiplexed on one thread do not influence one another",
 """When one thread decodes several streams in any interleaved order, each stream's error counts, status traces, decoded bits, stream
 state and PCM are bit-for-bit what the same stream produces when decoded by itself, except that muted (comfort noise) frames
 take the next frame of the thread's one comfort-noise sequence and a pending thread seed goes to the first stream that starts. Calls that take no stream state (error correction, conversion,
 silence, comfort noise, queries) never alter any stream's later results.""",
 ["histories","schedules"],
 "Every interleaving, at call granularity, of any number of streams of any codecs and of stateless calls on one thread.",
 """Tests decode one stream at a time from a fresh state; hidden per-thread state that couples streams needs two live streams with
 particular frames back to back.""",
 [CORE,AD,UV,A24,A25,I72],
 [("thread-local caches, seeds and hand-off values","everything the library keeps outside the caller's stream state",CORE)],
 [("all per-stream history lives in the three caller-owned parameter sets",H)],
 ["per-stream record of outputs and state after each call"])

prop("C03","Decoding is reproducible from the seed and the call history alone",
 """After the calling thread's generators are seeded and a stream is initialised, every later output and state value is a function only
 of the seed, the calls made and their inputs. It does not depend on what the thread or process did before, on which thread runs it,
 on addresses, on stale stack or heap contents, on the caller's old buffer contents, or on time, environment, locale or process id.""",
 ["histories","configurations"],
 "Every call history replayed under every prior activity, thread, memory contents, address placement and environment.",
 """The noise determinism test repeats one fixed sequence in one clean process; a leak of uninitialised memory, of earlier activity or of
 the environment shows only when those differ between two runs of the same history.""",
 [CORE,UV,H,"tests/test_noise_determinism.c"],
 [("comfort noise seed, unvoiced cold-start seed","reset by seeding the thread",CORE)],
 [("mbe_setThreadRngSeed",CORE),("full initialisation of all outputs and stream state",CORE)],
 ["records of two executions of one plan in different environments"])

prop("C04","A saved stream resumes exactly, anywhere, after a crash at any point",
 """The three caller-owned parameter sets are the whole state of a stream: if they are copied between calls and the decoder is later
 resumed from the copy - at other addresses, on another thread, in another process, or after the original worker died in the
 middle of a later call - then feeding the same frames yields bit-for-bit the same outputs and states as an uninterrupted decode.
 Only the content of muted (comfort noise) frames, which belongs to the thread, may differ.""",
 ["crash_points","histories"],
 "Every history, every checkpoint between calls, every crash instant inside a later call, every resume place.",
 """No test copies a stream state, and none abandons a call half way.""",
 [CORE,AD,UV,H],
 [("mbe_parms triplet","w0, bands, amplitudes, phases, noise and overlap buffers, concealment counters",H)],
 [("no pointers and no hidden per-stream data outside the parameter sets",H)],
 ["records after restore versus uninterrupted run"])

prop("C05","Allocation failure never crashes, corrupts or sticks; memory stays bounded",
 """If memory allocation inside the library fails at any point, calls still return normally with in-range audio and with the same error
 counts, status traces, decoded bits, voice parameters and counters as without the failure, and from the second consecutive freshly decoded frame after allocation succeeds again output and state
 are bit-for-bit what they would have been had no failure occurred. The library leaks nothing on a failed attempt, performs no allocation in
 steady-state decoding, and the memory it holds per thread is bounded however long it runs and given back when the thread ends.""",
 ["fault_sequences","histories"],
 "Every subset of allocations failing at every point in every call history, on every thread.",
 """No test makes an allocation fail; the only allocations happen once per thread on the first audible frame.""",
 [UV,PF,CORE],
 [("FFT plan pointer","allocated lazily per thread, retried when absent",UV)],
 [("null checks and cleanup in plan allocation",UV),("pffft setup allocation",PF)],
 ["allocator seam: requests, failures, live blocks","records versus fault-free run"])

prop("C06","Correctable channel damage never changes what is decoded",
 """For every codec, if the bits flipped on the channel stay within what each protected block can correct (three per Golay block,
 one per Hamming block, plus the AMBE C0 parity bit), the frame decoder recovers exactly the transmitted parameter bits,
 reports exactly the number of flipped protected data bits it corrected (all flips of a Hamming block; a flipped parity of an otherwise clean AMBE C0
 counts one), and the stream's voice parameters evolve as if the channel had been clean as long as no repeat, mute or tone gate is reached.
 Flips in unprotected bits change only those bits.""",
 ["fault_sequences","inputs"],
 "Every sequence of transmitted frames of every codec, under every pattern of correctable flips per frame and any loss, duplication or burst between them.",
 """Tests correct single bits of isolated blocks; the demodulation of one block depends on the data of another, so
 multi-block patterns on real frames inside a running stream are not covered.""",
 [ECC,"src/ecc/ecc_const.c",AC,I72,I71,A24,A25],
 [("frame bit matrix","channel frame as bit planes",H)],
 [("Golay and Hamming correction",ECC),("pseudo-random demodulation seeded from the first block",AC),("7100 to 7200 bit conversion",I71)],
 ["decoded bits, error counts and parameter sets from the frame and layered APIs"])

prop("C07","No history of frames or calls causes undefined behaviour or stray writes",
 """Whatever frames arrive in whatever order - valid, corrupted, random, of any codec - and whatever error counts accompany them, every
 call returns, reads and writes only the objects passed to it within their documented sizes (160 samples, 49 or 88
 bits, error count plus three status bytes, the three parameter sets), and executes no undefined operation (out-of-range index, integer overflow, invalid
 conversion, use of uninitialised data).""",
 ["histories","inputs"],
 "Every sequence of calls and frames on every codec from every reachable stream state, in the scalar and the SIMD build.",
 """The sanitizer configuration runs only the fixed test frames; out-of-range band indices, overflow and division hazards need specific
 successions of frames (band-count changes, repeats after erasures, long error runs).""",
 [CORE,AD,UV,A24,A25,I72,I71,ECC],
 [("band counts of consecutive frames","index ranges of the prediction",I72)],
 [("range checks on decoded indices",A25),("fixed-size arrays of 57 bands",H)],
 ["sanitizer reports, guard zones around every argument"])

prop("C08","Audio and stream state stay finite and in range under any fault history",
 """Every decoding call produces exactly 160 samples, each finite and within 95% of full scale, and leaves the parameter sets
 finite and in range: one to 56 bands, no negative or unbounded amplitudes or energies, valid noise generator positions, non-negative counters bounded by
 their limits. No sequence of corrupted, erased, tone or repeated frames can poison a stream so that it later produces
 non-finite, out-of-range or permanently silent audio.""",
 ["histories","fault_sequences"],
 "Every history of frames and faults, on every codec, through the float and 16-bit APIs.",
 """A single bad value (NaN or infinity) is born only by a particular succession of frame types and then persists in the
 recursive state; the tests look at a handful of frames.""",
 [CORE,AD,UV,A24,A25,I72],
 [("recursive state","log amplitudes, gain, local energy, noise overlap, phases",H)],
 [("soft clip of every output path",CORE),("guards against zero energy and zero pitch",CORE)],
 ["PCM and parameter sets after every call"])

prop("C09","Concealment and the status trace follow the documented policy exactly",
 """For every history the status string is one '=' per reported error followed by the marker of the decision taken (E erasure, T tone, R repeat,
 M mute), and the decision is the codec's policy: unreliable or undecodable frames repeat the last good frame's parameters, the fourth consecutive unusable
 frame mutes, IMBE also mutes while the smoothed error rate exceeds 8.75%, erasures mute at once, tones are recognised only when valid and clean enough.
 Counters, smoothed error rate and retained last-good parameters always agree with that policy, and a good frame clears the repeat count. The public queries (muting required, maximum repeats reached, smoothing required) answer from those counters and rates.""",
 ["histories","fault_sequences"],
 "Every sequence of clean, damaged, erased, tone and silence frames with any error counts, on every codec and API layer.",
 """The policy is a state machine over consecutive frames and error rates with thresholds; the tests pin a few single transitions.""",
 [CORE,A24,A25,I72,I71,H],
 [("repeat count, smoothed error rate, muting threshold","concealment state per stream",H)],
 [("repeat and mute decision in each codec's process call",A25),("mbe_requiresMuting",CORE)],
 ["status string, counters, audio class of each frame"])

prop("C10","Once faults stop the decoder recovers within a bounded number of frames",
 """However badly a stream was damaged, after the channel becomes clean every AMBE stream plays decoded audio again on the first clean voice
 frame and every IMBE stream as soon as its smoothed error rate has decayed below the muting limit, a bounded number of frames. From then on its voice parameters
 converge to those of a decoder that never saw a fault, and during faults the same old speech is never repeated
 for more than three frames in a row before muting.""",
 ["fault_sequences","histories"],
 "Every fault history of any length followed by any clean transmission.",
 """Recovery is liveness over a history: tests never run a damaged stream back to health, so a sticky flag, a counter that is not cleared
 or state that never forgets is not seen.""",
 [CORE,AD,A24,A25,I72],
 [("smoothed error rate","decays by 0.95 per clean frame",I72),("log amplitude prediction","leaky recursion that forgets old errors",A25)],
 [("prediction coefficient below one",I72),("repeat counter reset on good frames",I72)],
 ["status strings and parameters after the last fault"])

prop("C11","The 16-bit and float interfaces are one and the same decoder",
 """For every history, decoding through the 16-bit entry points yields exactly the library's float-to-16-bit conversion of what the float entry points
 yield, with identical error counts, status traces, decoded bits and stream state; a stream may switch between the two interfaces at any frame without any
 effect.""",
 ["histories"],
 "Every history of every codec with every per-frame choice of float or 16-bit entry point.",
 """Parity tests compare the sample conversion on fixed buffers, not the two interfaces over long faulty histories where one variant
 might update state differently.""",
 [CORE,A24,A25,I72,I71,H],
 [("stream state","must advance identically",H)],
 [("16-bit wrappers around the float call and conversion",CORE)],
 ["records of paired executions"])

prop("C12","Whole-frame decoding equals the layered calls",
 """For every frame and history, decoding a complete channel frame in one call gives exactly the same audio, error counts, status trace, decoded
 bits and stream state as calling the published layers in order: first-block correction, demodulation, data correction, (for the 7100
 format) conversion, then parameter processing with the resulting error counts; the AMBE 2450 and IMBE frame
 calls may additionally use where the errors were (first block, IMBE Hamming blocks), which only affects the repeat decision and IMBE amplitude smoothing.""",
 ["histories","inputs"],
 "Every sequence of arbitrary channel frames, with any per-frame choice between one-call and layered decoding.",
 """Tests call one layer at a time on fixed frames and never compare the two routes over a running stream.""",
 [A24,A25,AC,I72,I71],
 [("error counts handed between layers","errs and errs2",H)],
 [("frame functions composed from layer functions",AC)],
 ["records of paired executions"])

prop("C13","Tone frames sound the right tone and never disturb the voice stream",
 """A valid, sufficiently clean tone frame produces the signalled frequency or frequency pair at the signalled level, phase-continuous across consecutive tone frames,
 through the frame and data calls of each AMBE codec (single D-STAR tones included), and leaves the retained voice parameters
 untouched so that speech continues afterwards as if the tone had not been there. Invalid or too badly damaged tone frames
 are never sounded as tones, and a build with tones disabled stays silent instead.""",
 ["histories","fault_sequences","configurations"],
 "Every history mixing tone frames of every index and level with voice, erasures and damage, in builds with and without tones.",
 """Tests synthesise a tone in isolation; that it is really heard via the decoder, keeps phase and leaves the voice recursion intact is a property of
 frame sequences.""",
 [CORE,A24,A25],
 [("tone phase accumulators","continue between tone frames",CORE),("last good voice parameters","must survive tones",A25)],
 [("tone detection and verification",A25),("tone synthesis",CORE)],
 ["PCM of tone frames, parameter sets around them"])

prop("C14","Muted frames play the thread's own comfort-noise sequence",
 """Every muted or erased frame is filled with low-level noise that is the next 160 values of the calling thread's generator: a fixed sequence
 determined only by that thread's last seed (a fixed default if never seeded), advanced only by comfort-noise frames, by exactly 160 values each, of bounded
 amplitude (0.3% of full scale), and never silent, repeated or shared. Seeding one thread restarts its sequence and no other's.""",
 ["histories","schedules"],
 "Every order of muted frames, direct comfort-noise calls, seeding and other decoding on every thread.",
 """The noise test compares two consecutive fixed runs; interleaving of muting, seeding, streams and threads is not exercised.""",
 [CORE,H],
 [("comfort noise generator","48-bit linear congruential state per thread",CORE)],
 [("per-thread generator with default seed",CORE)],
 ["PCM of muted frames and of direct calls"])

prop("C15","A reused stream state switches codecs cleanly",
 """When a stream state last used by one codec is handed to another, decoding works as the new codec prescribes: AMBE after IMBE behaves
 bit-for-bit like a freshly initialised AMBE stream, and IMBE after AMBE applies IMBE muting and prediction from the state it finds, with no
 stale limit, counter or phase making it mute, misdecode or fail. Switching back and forth any number of times is equally safe.""",
 ["histories"],
 "Every sequence of codec switches at every point of every history, including while repeating, muted, in tones or after erasures.",
 """Each test initialises its own state for one codec.""",
 [A24,A25,I72,I71,CORE],
 [("muting threshold in the stream state","marks which codec family owns it",H)],
 [("AMBE default initialisation when a foreign state is found",A25),("IMBE sets its own threshold per frame",I72)],
 ["records after each switch"])

prop("C16","Inputs are read-only and advisory arguments are inert",
 """No call modifies an input it does not document as modified (parameter bits, incoming error counts, source parameter sets, channel rows not subject to
 correction), the legacy quality argument and reserved error-count argument never influence any result, and
 results do not depend on the previous contents of output buffers. Queries about a stream never change it.""",
 ["histories","inputs"],
 "Every call in every history with every value of the advisory arguments and of the output buffers' old contents.",
 """Tests pass one value for advisory arguments and do not compare inputs before and after.""",
 [H,CORE,A24,A25,I72,I71,ECC],
 [("caller buffers","inputs and outputs",H)],
 [("const qualifiers and ignored parameters",H)],
 ["byte comparison of all arguments around each call"])

prop("C17","Voice parameters follow each codec's predictive model over any history",
 """For every history, the pitch, band count, voicing decisions, spectral amplitudes and gain recovered from a voice or silence frame are those the codec
 prescribes for its bits and the last accepted frame's parameters (after losses: the parameters actually retained), including the interpolation when the band count
 changes. Every frame the codec reserves as invalid is reported as such and never used as voice.""",
 ["histories","inputs"],
 "Every sequence of parameter frames, losses and repeats from every reachable retained state, for every codec.",
 """The golden tests pin a few frames from a fresh state; the inter-frame prediction with changing band counts and after concealment is not covered.""",
 [A24,A25,I72],
 [("log amplitudes and gain of the last frame","prediction memory",H)],
 [("inverse quantisation, DCT and prediction",I72),("AMBE gain recursion",A25)],
 ["parameter sets after decoding versus an executable reference model"])

prop("C18","Synthesised speech is the continuous model waveform over any history",
 """For every history each audible frame equals the vocoder model of its parameters joined to the previous frame: voiced bands continue the previous
 frame's phase and fade or glide without jumps, unvoiced bands are the per-stream noise sequence continued without gap or repetition across
 decoded frames (a concealed frame reuses the noise of the frame it repeats), spectral enhancement and error-dependent smoothing are applied to it, and the retained phases, noise position and overlap are advanced accordingly.""",
 ["histories"],
 "Every pair of consecutive parameter states reachable through any frame and fault history, for every codec.",
 """Golden PCM tests compare hashes or samples of fixed snippets; continuity across arbitrary voiced, unvoiced, repeated and muted transitions
 needs arbitrary histories and a model.""",
 [CORE,UV,AD],
 [("phases, noise position, noise overlap and previous unvoiced spectrum","what joins a frame to the next",H)],
 [("phase update, windowed overlap-add, noise generator",UV),("enhancement and adaptive smoothing",AD)],
 ["PCM and state after each frame versus an executable reference model"])

prop("C19","Days of continuous operation never degrade or overflow a stream",
 """A stream that runs continuously - for hours or days of simulated air time, with any steady mixture of clean, corrected, muted, erased and tone
 frames - keeps behaving as at the start: no counter, accumulator, phase or threshold overflows, saturates wrongly, loses precision so that audio
 deteriorates, or drifts without bound, and decoding any later frame still matches the model.""",
 ["histories"],
 "Every steady-state traffic mix repeated for very many frames, from every reachable state.",
 """Tests run a few frames; slowly growing accumulators and rarely wrapping counters need millions.""",
 [AD,CORE,UV,A24,A25,I72],
 [("amplitude threshold, error rate, local energy, tone phase counters, noise position","values carried from frame to frame without reset",H)],
 [("clamps and modular arithmetic in the recursions",AD)],
 ["state, sanitizer reports and model comparison during long runs"])

prop("C20","Scalar and SIMD builds decode every history to the same result",
 """Fed the same history, builds with and without SIMD acceleration make identical decisions - error counts, status traces, decoded bits, voicing, band counts,
 concealment counters, noise positions - and produce parameters and audio that agree to within rounding.""",
 ["configurations","histories"],
 "Every history, across the library's build configurations.",
 """Each configuration's tests run separately against fixed expectations; the builds are never compared on the same arbitrary history.""",
 [CORE,UV,PF],
 [("vectorised voiced synthesis, conversion and FFT","alternative implementations selected at build or run time",CORE)],
 [("SIMD dispatch",CORE)],
 ["records of the same plan in both builds"])

prop("C21","Golay and Hamming block decoders implement their codes",
 """Every 23-bit word decodes to the unique codeword within distance three and every 15-bit word to the unique codeword within distance one, with the matching
 count.""",
 ["inputs"],"All 2^23 and 2^15 words.",
 "Tests try a few words.",
 [ECC,"src/ecc/ecc_const.c"],[],[("syndrome tables",ECC)],["return value and output bits"])

prop("C22","Float-to-16-bit sample conversion scales, clips and truncates correctly",
 """Each output sample is seven times the input, clipped to 95% of full scale and truncated toward zero, for every finite input and in every instruction-set variant.""",
 ["inputs","configurations"],"Every float value and buffer position.",
 "Tests sample a few buffers.",
 [CORE],[],[("conversion variants",CORE)],["mbe_floattoshort output"])

prop("C23","The reported version is the packaged version",
 """The version string, its printed form and the header macro are the same, NUL-terminated and at most 31 characters.""",
 ["configurations"],"Every build configuration.",
 "Tests only check that a string comes back.",
 [CORE,H,"CMakeLists.txt"],[],[("generated version header","include/mbelib-neo/version.h.in")],["mbe_versionString, mbe_printVersion"])

prop("C24","Diagnostics are exact and never influence decoding",
 """Ordinary builds perform no input or output of their own: outside the public dump functions no call writes to or reads from any stream, file or log, whatever
 the traffic and also when memory requests fail. A dump function writes to stderr exactly the bits it was given, in transmission order (blanks between groups
 aside), changes neither its argument nor any state, and returns also when stderr is closed, full, interrupted, accepts only part, or stalls while other threads
 decode. A build with the documented debug logging (MBE_ENABLE_DEBUG_LOGS) decodes every history bit for bit like the ordinary build whatever happens to its log
 output, without undefined behaviour, and what it logs depends on the decoded history alone.""",
 ["fault_sequences","histories","schedules","configurations"],
 "Every history of decoding and dump calls on any number of threads, every failure of the output channel, builds with and without debug logging.",
 """The tests never call the dump functions, never build with debug logging, and stderr never fails under them.""",
 [I72,I71,A24,A25,CORE,"CMakeLists.txt"],
 [("debug log statements","compiled in by MBE_DEBUG, IMBE_DEBUG, AMBE_DEBUG",I72)],
 [("mbe_dumpImbe4400Data, mbe_dumpImbe7200x4400Data, mbe_dumpImbe7200x4400Frame",I72),("mbe_dumpImbe7100x4400Data, mbe_dumpImbe7100x4400Frame",I71)],
 ["text passed to the output seam; records of the same calls without dumps and in the ordinary build"])

prop("C25","Every call finishes in bounded work and waits for no other thread",
 """Every library call returns after an amount of work, and with a depth of stack, bounded by those of ordinary calls, whatever its input bits and error counts, however long the
 stream and the thread have been in operation and however long a condition (muting, repeats, tones, one held frame) has lasted. No call waits for another thread:
 when a thread stops for good - at any instruction inside a call, during its first use of the library, or between calls - every other thread's calls still
 return.""",
 ["schedules","crash_points","histories"],
 "Every history and aged state; every point at which any subset of the threads stops.",
 """Tests run short histories on one thread, and a slow call still passes; no test stops a thread inside the library.""",
 [CORE,AD,UV,A24,A25,I72,I71],
 [("phases, noise positions, counters","accumulators that grow with time and must not make calls longer",CORE),("per-thread FFT plan","first-use initialisation without locks",UV)],
 [("synthesis loops and phase wrapping",CORE),("first-use initialisation",UV)],
 ["basic blocks executed and stack used per call; completion of the calls of the threads that go on"])

prop("C26","Release build options do not change what is decoded",
 """Built with the options releases ship with (-O3, fast-math, NDEBUG, SIMD), every history of frames, channel errors and calls gives the same statuses, error counts,
 parameter bits, frame kinds, concealment counters and noise positions as a strictly compiled build, and audio and continuous decoder state equal to within
 rounding, with no NaN or infinity the strict build does not have. No behaviour rests on assertions being compiled in, on the order of floating-point operations,
 or on NaN and infinity tests that fast-math may remove.""",
 ["configurations","histories","fault_sequences"],
 "Every history of decoding calls under channel faults, in every combination of the documented release options.",
 """The tests look at a few frames with loose limits and keep assertions on in every build; none compares a release build with a strict one.""",
 ["CMakeLists.txt","CMakePresets.json",CORE,AD,UV,A24,A25,I72],
 [("prediction memory, phases, counters","carried from frame to frame, so a decision flipped once persists",H)],
 [("synthesis, enhancement, smoothing and parameter decoding",CORE)],
 ["records and state after every call of both builds"])

prop("C27","Calls leave the host's environment alone and do not depend on it",
 """Every call returns with the calling thread's floating-point control state (rounding mode, denormal handling, exception masks, precision), signal mask and
 cancellation state, and the process's signal dispositions, timers, locale, environment variables, working directory, file creation mask, resource limits, scheduling,
 open files, threads and C library random sequence exactly as they were before it - on every path, muted, repeated, failed and tone frames, dumps and failed memory
 requests included. A host that flushes denormals to zero, as audio hosts do, gets the same statuses, error counts, bits, counters and noise positions, and audio and
 state equal to within rounding.""",
 ["configurations","histories","fault_sequences"],
 "Every history of calls under channel faults and failed memory requests, in every host environment: denormals flushed, other rounding modes, other x87 precision.",
 """Tests run in the default environment and never look at it after a call; a mode left changed by one rare path damages code outside the library.""",
 [CORE,AD,UV,A24,A25,I72,I71],
 [("floating-point control registers, process-wide settings","belong to the host; one changed by a call outlives it","the host")],
 [("every exported function",H)],
 ["control registers and process settings read back after every call; records and state of the same history in the default environment"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
