// Executable reference decoder: predicts, from the state before a call and the received bits, everything observable
// after it. Exact where the library's arithmetic is exact, with derived tolerances elsewhere.
#pragma once
#include "props.h"

enum RefCat {
    RC_MARK = 1, RC_COUNT = 2, RC_RATE = 4, RC_THRESH = 8, RC_VOICE = 16, RC_ENH = 32, RC_PHASE = 64, RC_NOISE = 128,
    RC_UW = 256, RC_PCM = 512, RC_TONE = 1024, RC_COMFORT = 2048, RC_RETAIN = 4096, RC_ECC = 8192, RC_REPEAT = 16384, RC_ALL = 32767
};
struct RefThread { bool pending = false; uint32_t unv = 0; bool seeded = false; uint64_t c48 = 0; bool known = true; };
struct RefHand { int cur = 0; double rm0 = 0; bool prev = false, enh = false; };   // energy before enhancement that a prepared set still carries (2: not known)
struct RefCtx {
    const Plan* p = nullptr; std::string prop; unsigned cats = RC_ALL; bool tones = true;
    std::map<int, RefThread> th;
    std::map<int, RefHand> hand, hand_ckpt;   // by stream
    Verdict* v = nullptr; Stats* s = nullptr;
    int cur_op = -1;
    int action = 0;      // of the last decoding call
    bool mis(RefCat c, const char* what, const char* fmt, ...);
};
enum RefAction { RA_NONE = 0, RA_VOICE, RA_REPEAT, RA_MUTE, RA_RESET, RA_ERASE, RA_TONE, RA_BADTONE_VOICE, RA_BADTONE_NOISE, RA_HEADROOM, RA_N };
extern const char* ra_name[RA_N];
// executes the model of one call and compares; true if all agreed
bool ref_step(RefCtx& c, int i, const Op& op, const OpIO& io);
void ref_init_imbe(mbe_parms& m);
void ref_init_ambe(mbe_parms& m);
// next 160 comfort values of a thread
void ref_comfort(RefThread& t, double out[160]);
void ref_seed(RefThread& t, uint32_t seed);
ExecHooks ref_hooks(RefCtx& c);
