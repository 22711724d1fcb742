// Core types of the deterministic simulator.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "api.h"

// ---------------------------------------------------------------- PRNG (splitmix64 / xoshiro-like)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool p(double q) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < q; }
    double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    int logu(int lo, int hi);  // log-uniform integer
    template <class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= h >> 29;
    return h;
}
inline uint64_t mix64(uint64_t a, uint64_t b) { uint64_t x[2] = {a, b}; return hash_bytes(x, 16); }

// ---------------------------------------------------------------- codecs and operations
enum Codec { A24 = 0, A25 = 1, I72 = 2, I71 = 3 };
extern const char* codec_name[4];
inline bool is_ambe(int c) { return c <= A25; }
inline int nbits(int c) { return is_ambe(c) ? 49 : 88; }
inline int fr_rows(int c) { return is_ambe(c) ? 4 : (c == I72 ? 8 : 7); }
inline int fr_cols(int c) { return is_ambe(c) ? 24 : (c == I72 ? 23 : 24); }
inline int fr_bits(int c) { return fr_rows(c) * fr_cols(c); }

enum OpKind {
    K_FRAME = 0,   // whole channel frame through process*Frame[f]
    K_DATA,        // parameter bits through process*Data[f] with given errs, errs2
    K_LAYER,       // eccC0, demodulate, eccData, (convert), process*Data[f]
    K_INIT,        // mbe_initMbeParms on the stream
    K_SEED,        // mbe_setThreadRngSeed(a)
    K_COMFORT,     // mbe_synthesizeComfortNoise[f]
    K_SILENCE,     // mbe_synthesizeSilence[f]
    K_ECC,         // stateless ecc calls on a private frame
    K_QUERY,       // requiresMuting/isMaxFrameRepeat/requiresAdaptiveSmoothing/version
    K_CKPT,        // save the stream's triplet to durable storage
    K_RESTORE,     // crash + restart from the last checkpoint at new addresses
    K_CONV,        // mbe_floattoshort on a scratch buffer
    K_TONE,        // direct mbe_synthesizeTonef / dstar on the stream's cur
    K_SPEECH,      // direct mbe_synthesizeSpeech[f](cur, prev_enh)
    K_DIRTY,       // environment: overwrite stack below with pattern a
    K_MOVE,        // relocate the triplet to fresh memory
    K_MANUAL,      // decode parameters, enhance, synthesize, copy: the layered pipeline
    K_ENH,         // mbe_spectralAmpEnhance on the stream's current set
    K_SMOOTH,      // mbe_applyAdaptiveSmoothing(cur, enh), or towards prev when errs is 1
    K_DUMP,        // diagnostic print of parameter bits or of a raw frame (a: which, errs: what happens to the output, errs2: when)
    K_NKINDS
};
extern const char* kind_name[K_NKINDS];

struct Op {
    int tid = 0, stream = 0, kind = K_FRAME, codec = A25, shorty = 0;
    int errs = 0, errs2 = 0, uv = 3, a = 0, b = 0;
    std::string data;          // parameter bits '0'/'1' (49 or 88), clean
    std::vector<int> flips;    // flipped positions row*cols+col of the channel frame
    std::string note;          // generator annotation (not interpreted by the executor except where a property says so)
};

struct Sched { int tid; int64_t edges; };   // run thread tid for that many basic-block edges

struct Plan {
    std::string prop, variant = "scalar";
    uint64_t seed = 0;
    int nthreads = 1, nstreams = 1;
    std::map<std::string, long long> knob;
    std::vector<Op> ops;
    std::vector<Sched> sched;
    std::vector<int> allocfail;   // indices of library allocation requests that fail
    long long k(const char* n, long long d = 0) const { auto i = knob.find(n); return i == knob.end() ? d : i->second; }
};
std::string plan_to_text(const Plan& p);
bool plan_from_text(const std::string& t, Plan& p, std::string* err);

// ---------------------------------------------------------------- stream state
struct Triplet { mbe_parms cur, prev, enh; };

struct Rec {     // record of one executed op
    int op = -1;
    int tid = 0, errs = 0, errs2 = 0, ret = 0;
    uint64_t h_pcm = 0, h_str = 0, h_d = 0, h_fr = 0, h_cur = 0, h_prev = 0, h_enh = 0;
    uint64_t h_cur_x = 0, h_prev_x = 0, h_enh_x = 0;   // same without previousUw
    int muted = 0;        // status contains M or E
    int cold = 0;         // the call started the stream's noise sequence
    int repcount = 0, L = 0;
    uint64_t h_pcm_s = 0;          // the audio as 16-bit samples, through the library's own conversion
    uint64_t h_voice = 0;          // voice parameters retained in prev
    long long live = 0, req = 0, failed = 0;   // blocks the thread holds, requests it made, requests refused
    int b0 = -1;                   // pitch index in the decoded bits
    float peak = 0;                // largest sample of the call's audio, in units of the float interface
    float rate = 0;                // smoothed error rate after the call
    long long io_calls = 0, io_failed = 0, io_other = 0; uint64_t h_io = 0;   // input/output calls during the operation, refused, not to stderr, text written
    const char* env = nullptr;     // what of the host's environment the call left different
    long long stack = 0;           // bytes of stack below the caller
    long long work = 0;            // basic-block edges inside the library
    char str[24] = {0};
    uint64_t stamp = 0;   // completion order
};

struct Verdict {
    std::string cls, msg;
    int op = -1;
    bool bad() const { return !cls.empty(); }
};

struct Stats {
    std::map<std::string, long long> n;
    std::map<std::string, std::vector<uint64_t>> sets;   // distinct signatures, by measure
    void add(const std::string& k, long long v = 1) { n[k] += v; }
    void sig(const std::string& k, uint64_t v);
    std::string to_text() const;
    void merge_text(const std::string& t);
};

// ---------------------------------------------------------------- channel reference encoder
void ref_encode(int codec, const char* data /*0/1 values*/, char* fr /*rows*cols*/);
struct RefRx { int errs = 0, errs2 = 0, errs_c4 = 0; char d[96]; char fr[8 * 24]; };
// independent receiver: nearest-codeword decode of each block
void ref_receive(int codec, const char* fr, RefRx& rx);

// ---------------------------------------------------------------- seams
struct AllocStat { long long req = 0, failed = 0, freed = 0, live = 0, live_bytes = 0, bad_free = 0; };
void seam_reset();
void seam_set_alloc_fail(const std::vector<int>& idx);
extern long long g_alloc_req;           // library allocation requests so far (process wide)
AllocStat seam_alloc_stat(int tid);     // tid < 0: whole process
void seam_set_fill(uint64_t pattern);   // what fresh heap memory contains
void seam_set_env(uint64_t envseed);    // values of clocks, rand, getenv, pids
long long seam_env_calls();
// what happens to output the library writes
enum { IO_OK = 0, IO_DEAD, IO_FULL, IO_FLAKY, IO_SHORT, IO_STALL, NIO };
extern const char* io_name[NIO];
struct IoState { int mode = 0, k = 0, stalls = 0; long long calls = 0, failed = 0, other = 0; std::string text; };
IoState& seam_io();                     // of the executing thread
extern thread_local int tl_tid;         // simulated thread id, -1 outside
extern thread_local bool tl_inlib;      // inside a library call

// ---------------------------------------------------------------- scheduler
struct SchedResult { uint64_t trace_hash = 0; long long switches = 0, midcall = 0; std::vector<uint64_t> points; };
void sched_point_blocked();             // current thread cannot go on (lock held by a parked thread)
bool sched_active();

// ---------------------------------------------------------------- execution
struct ExecHooks {
    // called in the executing thread around each op
    std::function<void(int opi, const Op&, const Triplet& pre)> before;
    std::function<void(int opi, const Op&, const struct OpIO&)> after;
};
struct OpIO {                  // full view of one call, for value oracles
    const Triplet* pre; const Triplet* post;
    const float* pcmf; const short* pcms; bool shorty;
    const char* err_str; int errs, errs2;
    const char* d;             // decoded bits after the call
    const char* fr_in; const char* fr_out;
    int tid;
    int ret;
};
enum { HOST_FTZ = 1, HOST_ROUND = 2, HOST_X87 = 4 };   // bits 8,9: which rounding
void host_enter(int host, int i);
const char* host_leave();
struct ExecOpt {
    bool short_all = false, float_all = false; // force one sample interface

    const Api* api = nullptr;
    int only_tid = -1;         // run only this thread's ops
    int only_stream = -2;      // run only this stream's ops (plus streamless ops)
    bool multi = false;        // use simulated threads and the schedule
    uint64_t fill = 0xA5, envseed = 1, dirty = 0;
    int outfill = 0x5A;        // previous content of output buffers and of uninitialised stream state
    int prior = 0;             // prior activity seed executed on the thread before the plan
    int heap_pad = 0;          // shifts the addresses of caller memory
    long long align = 0;       // alignment of caller buffers: -1 none, else seed; 0 takes the plan's
    int prior_main = 0;        // prior activity elsewhere in the process
    int op_from = 0, op_to = 1 << 30;          // execute only this range of ops (process restarts)
    long long stop_slot = -1;                  // the process dies after this many scheduling slots
    std::map<int, Triplet> ckpt_in;            // durable storage at start
    bool allocfail = false;    // inject the plan's allocation failures
    bool guard = false;        // report stray writes and modified inputs
    bool nan_ok = false;
    int host = -1;             // the host's environment: HOST_ bits; watched when not negative
    const long long* work_max = nullptr;    // by kind: a call that takes more basic blocks than this ends the process (exit 73)
    ExecHooks hooks;
};
struct ExecResult {
    std::vector<Rec> rec;      // one per executed op, in plan order
    SchedResult sr;
    Verdict v;                 // violation detected by hooks or executor invariants
    std::vector<AllocStat> alloc_exit;      // per simulated thread, after it ended
    std::vector<long long> live_first_audio;   // live blocks of the thread right after its first audible op
    std::vector<long long> req_steady;         // allocation requests after the second audible op
    long long env_calls = 0, bad_free = 0;
    bool inconclusive = false;
    std::map<int, Triplet> ckpt_out;           // durable storage at the end
};
extern uint64_t g_loghash;   // folds every record of every execution of this process
void exec_plan(const Plan& p, const ExecOpt& o, ExecResult& r);
// exec_plan in a forked child; false if it died (crash class in *crash). Stats and verdict of hooks come back too.
bool exec_forked(const Plan& p, const ExecOpt& o, ExecResult& r, Stats* st, std::string* crash, int timeout_s = 15);
const char* rec_diff(const Rec& a, const Rec& b, unsigned skip = 0);   // first differing field or null
enum { SK_PCM = 1, SK_STATE = 2, SK_UW = 4, SK_D = 8, SK_STR = 16, SK_ERRS = 32, SK_FR = 64 };
bool plan_audible(const Op& op);
void lib_frame(const Api* A, int codec, bool sh, void* pcm, int* e, int* e2, char* str, char* fr, char* d, mbe_parms* c, mbe_parms* p, mbe_parms* n, int uv);
void lib_data(const Api* A, int codec, bool sh, void* pcm, const int* e, const int* e2, char* str, const char* d, mbe_parms* c, mbe_parms* p, mbe_parms* n, int uv);
void lib_layers(const Api* A, int codec, char* fr, char* d, int* e, int* e2);
#include <set>
std::set<std::string>& known_classes();   // listed findings: counted, not reported
void report_known(Verdict& v, Stats& s, const std::string& cls, int op, const char* msg);
void report(Verdict& v, const std::string& cls, int op, const char* fmt, ...);

// ---------------------------------------------------------------- properties
struct Property {
    const char* id;
    std::function<void(Rng&, Plan&, bool thorough)> gen;
    std::function<void(const Plan&, Verdict&, Stats&)> check;
};
const std::vector<Property>& properties();
const Property* find_property(const std::string& id);

// run fn in a forked child; false (with crash class) if it died. Output through a pipe as bytes.
bool run_forked(const std::function<void(std::string&)>& fn, std::string& out, std::string& crash, int timeout_s = 15);   // seconds of processor time
