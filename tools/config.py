LEVEL_RULE = "One run = one seed = one explicit plan (operations, frames, channel flips, schedule, allocation failures, environment), executed in forked processes against the library built from the current tree; plans are compared by the hash of their full text without the seed."
ALL = ["scalar", "simd", "pat", "zero", "notones"]
CONFIG = {
 "C01": dict(stages=[dict(flavour="sched", variants=["scalar", "simd"], quick=6000, thorough=200000)],
             rule="Non-trivial: at least one thread was preempted in the middle of a library call."),
 "C02": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=12000, thorough=400000)],
             rule="Non-trivial: the plan switches between streams more than twice."),
 "C03": dict(stages=[dict(flavour="fast", variants=["scalar", "pat", "zero"], quick=12000, thorough=400000)],
             rule="Non-trivial: more than three calls compared across environments."),
 "C04": dict(stages=[dict(flavour="sched", variants=["scalar", "simd"], quick=5000, thorough=150000)],
             rule="Non-trivial: at least one stream was resumed from a checkpoint."),
}
CONFIG.update({
 "C05": dict(stages=[dict(flavour="asan", variants=["scalar", "simd"], quick=4800, thorough=100000)],
             rule="Non-trivial: at least one injected allocation failure fired."),
 "C10": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=12000, thorough=400000)],
             rule="Non-trivial: a faulty phase precedes the clean phase."),
 "C11": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=12000, thorough=400000)],
             rule="Non-trivial: more than three calls."),
 "C12": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=12000, thorough=400000)],
             rule="Non-trivial: more than three calls compared in full (audio and state) on both routes."),
 "C16": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=12000, thorough=400000)],
             rule="Every run compares two sets of advisory arguments and old output contents."),
 "C20": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=12000, thorough=400000)],
             rule="Every run compares both builds."),
})
CONFIG.update({
 "C06": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=18000, thorough=600000)],
             rule="Non-trivial: at least one frame carried correctable damage."),
 "C07": dict(stages=[dict(flavour="asan", variants=["scalar", "simd"], quick=12000, thorough=200000)],
             rule="Non-trivial: more than three calls under the sanitisers."),
 "C08": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=18000, thorough=600000)],
             rule="Every run is judged after every call."),
 "C09": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=18000, thorough=600000)],
             rule="Every run is judged after every call."),
 "C13": dict(stages=[dict(flavour="fast", variants=["scalar", "simd", "notones"], quick=18000, thorough=600000)],
             rule="Non-trivial: at least one tone-class frame."),
 "C14": dict(stages=[dict(flavour="sched", variants=["scalar", "simd"], quick=18000, thorough=600000)],
             rule="Non-trivial: more than one thread."),
 "C15": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=18000, thorough=600000)],
             rule="Non-trivial: an AMBE leg that follows IMBE use was compared with a fresh stream."),
 "C17": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=18000, thorough=600000)],
             rule="Every run compares against the model."),
 "C18": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=18000, thorough=600000)],
             rule="Every run compares against the model."),
 "C19": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=384, thorough=4000, limit=200)],
             rule="Every run is a long run (200000 frames; thorough 4.4 million) or starts from an aged state."),
})
CONFIG.update({
 "C24": dict(stages=[dict(flavour="sched", variants=["scalar", "simd", "log"], quick=8000, thorough=300000),
                     dict(flavour="asan", variants=["scalar", "simd", "log"], quick=3000, thorough=60000)],
             rule="Non-trivial: dumps among the calls, or the debug-log build, or refused memory."),
 "C25": dict(stages=[dict(flavour="sched", variants=["scalar", "simd"], quick=12000, thorough=400000)],
             rule="Non-trivial: a thread stopped for good inside or between calls while others went on, or a single thread."),
})
CONFIG.update({
 "C26": dict(stages=[dict(flavour="fast", variants=["scalar", "fmath", "fsimd"], quick=12000, thorough=400000)],
             rule="Every run compares a strict build with a release build."),
 "C27": dict(stages=[dict(flavour="fast", variants=["scalar", "simd"], quick=20000, thorough=400000)],
             rule="Every run is watched for changes of the host's environment after every call."),
})
BASE = "Seeded search over explicit plans; says nothing about plans not drawn. Trusts the compiler, the C library's mathematics and the simulator. "
TECHNIQUE = {
 "C01": "deterministic simulation: seeded preemptive thread scheduler (yield at every basic block), each thread compared with its solo run",
 "C02": "deterministic simulation: seeded multiplexing of faulty streams, each stream compared with its solo run",
 "C03": "deterministic simulation: one history replayed under different simulated environments (stale memory, prior activity, clocks, addresses)",
 "C04": "deterministic simulation: crash at arbitrary instruction, restart from durable checkpoint elsewhere, compared with uninterrupted run",
 "C05": "deterministic simulation with injected allocation failures, compared with the fault-free run; allocation accounting",
 "C10": "deterministic simulation: fault histories followed by a clean channel, progress bound and convergence to a fault-free decoder",
 "C11": "deterministic simulation: the same faulty history through both sample interfaces and seeded alternation of them",
 "C12": "deterministic simulation: the same faulty channel history through one-call, layered and alternating decoding",
 "C16": "deterministic simulation: the same faulty history under different advisory arguments and stale output buffers, guarded arguments",
 "C20": "deterministic simulation: the same faulty history in scalar and SIMD builds side by side",
}
TECHNIQUE.update({
 "C06": "deterministic simulation: channel fault injection within each block's correcting power, compared with the undamaged transmission over whole histories",
 "C07": "deterministic simulation of arbitrary frame and call histories with the library under address and undefined-behaviour sanitisers and guarded arguments",
 "C08": "deterministic simulation: fault histories, extreme and held frames; invariants on audio and every state field after every call",
 "C09": "deterministic simulation: fault histories judged call by call against a reference policy machine",
 "C13": "deterministic simulation: tone traffic under faults, waveform judged against a reference oscillator, state against the reference decoder",
 "C14": "deterministic simulation: seeded thread scheduler and mixed traffic, comfort noise judged against a reference generator per thread",
 "C15": "deterministic simulation: seeded codec switches under faults, judged by the reference decoder and against fresh streams",
 "C17": "deterministic simulation: fault histories judged call by call against an independent reference parameter decoder",
 "C18": "deterministic simulation: fault histories judged call by call against an independent reference synthesiser (spectral domain and phase)",
 "C19": "deterministic simulation of hours of air time and of aged states, sampled and judged against the reference decoder",
})
TECHNIQUE.update({
 "C24": "deterministic simulation: output seam with injected failures (dead, full, flaky, short, stalled stderr) under a seeded thread scheduler, decoding compared with quiet runs and ordinary builds",
 "C25": "deterministic simulation: threads stopped for good at arbitrary instructions or holding a lock; progress, work and stack per call bounded in counted steps, from fresh and aged states",
})
TECHNIQUE.update({
 "C26": "deterministic simulation: the same faulty history in a strict build and in release builds (two compilers; -O3, fast-math, NDEBUG, SIMD) side by side",
 "C27": "deterministic simulation: the host's environment (rounding, denormals, x87 precision) chosen per run and read back after every call, with channel faults, dumps to failing outputs and failed memory requests",
})
NOTES = {k: BASE for k in TECHNIQUE}
NOT_APPLICABLE = {
 "C21": "A pure function of one block: no schedule, time, fault or history for a simulator to control; exhaustive enumeration decides it. Its effect inside running streams is covered by C06.",
 "C22": "A pure function of one buffer: no schedule, time, fault or history for a simulator to control. That both interfaces and builds convert alike inside running streams is covered by C11 and C20.",
 "C23": "Constant strings fixed at build time: no concurrency, time, I/O, fault or history to simulate.",
}
