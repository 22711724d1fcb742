#include <memory>
// Executes a plan against one variant of the library: memory, calls, simulated threads and their schedule, crashes.
#include "sim.h"
#include <alloca.h>
#include <math.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <set>

// ------------------------------------------------------------------------------------------- guarded buffers
static const size_t GZ = 64;
static thread_local uint64_t t_align = 0;   // 0: every caller buffer is aligned like malloc's; else each has its own offset
static size_t align_off(size_t el) { if (!t_align) return 0; t_align = mix64(t_align, 0x51); return (t_align >> 20) % (64 / el) * el; }
struct GBuf {
    unsigned char* raw = nullptr; unsigned char* p = nullptr; size_t n = 0;
    GBuf(size_t n_, int fill, size_t el = 1) : n(n_) {
        size_t off = align_off(el);
#ifdef SIM_ASAN
        raw = (unsigned char*)malloc(n + off); p = raw + off;   // the sanitizer surrounds it with red zones
#else
        raw = (unsigned char*)malloc(n + 2 * GZ + off); p = raw + GZ + off;
        memset(p - GZ, 0xC7, GZ); memset(p + n, 0xC7, GZ);
#endif
        memset(p, fill, n);
    }
    bool ok() const {
#ifndef SIM_ASAN
        for (size_t i = 0; i < GZ; i++) if (p[(ptrdiff_t)i - (ptrdiff_t)GZ] != 0xC7 || p[n + i] != 0xC7) return false;
#endif
        return true;
    }
    ~GBuf() { free(raw); }
    GBuf(const GBuf&) = delete;
};
struct StreamMem {
    GBuf *cur = nullptr, *prev = nullptr, *enh = nullptr; bool init = false;
    Triplet ckpt; bool has_ckpt = false;
    mbe_parms* C() { return (mbe_parms*)cur->p; }
    mbe_parms* P() { return (mbe_parms*)prev->p; }
    mbe_parms* E() { return (mbe_parms*)enh->p; }
    void fresh(int fill) { cur = new GBuf(sizeof(mbe_parms), fill, 8); prev = new GBuf(sizeof(mbe_parms), fill, 8); enh = new GBuf(sizeof(mbe_parms), fill, 8); }
    void drop() { if (cur) { memset(cur->p, 0xDD, cur->n); memset(prev->p, 0xDD, prev->n); memset(enh->p, 0xDD, enh->n); delete cur; delete prev; delete enh; } cur = prev = enh = nullptr; }
    Triplet snap() { Triplet t; memcpy(&t.cur, cur->p, sizeof t.cur); memcpy(&t.prev, prev->p, sizeof t.prev); memcpy(&t.enh, enh->p, sizeof t.enh); return t; }
    void load(const Triplet& t) { memcpy(cur->p, &t.cur, sizeof t.cur); memcpy(prev->p, &t.prev, sizeof t.prev); memcpy(enh->p, &t.enh, sizeof t.enh); }
};
static uint64_t hparm(const mbe_parms* m, bool uw) {
    if (uw) return hash_bytes(m, sizeof *m);
    mbe_parms c = *m; memset(c.previousUw, 0, sizeof c.previousUw);
    return hash_bytes(&c, sizeof c);
}
static uint64_t hvoice(const mbe_parms* m) {
    int L = m->L < 0 ? 0 : m->L > 56 ? 56 : m->L;
    uint64_t h = hash_bytes(&m->w0, sizeof m->w0); h = hash_bytes(&m->L, sizeof m->L, h); h = hash_bytes(&m->K, sizeof m->K, h); h = hash_bytes(&m->gamma, sizeof m->gamma, h);
    h = hash_bytes(m->Vl + 1, sizeof(int) * (size_t)L, h); h = hash_bytes(m->Ml + 1, sizeof(float) * (size_t)L, h); h = hash_bytes(m->log2Ml, sizeof(float) * (size_t)(L + 1), h);
    return h;
}
bool plan_audible(const Op& op) { return op.kind == K_FRAME || op.kind == K_DATA || op.kind == K_LAYER || op.kind == K_SPEECH || op.kind == K_MANUAL; }

// ------------------------------------------------------------------------------------------- simulated threads
struct SimThread {
    int tid = 0; pthread_t th; sem_t go; bool created = false, finished = false, dead = false, midcall = false, blocked = false;
    std::vector<int> ops; size_t pos = 0; int64_t crash_left = -1; bool joined = false;
    uint32_t last_site = 0;
};
struct Ctx {
    const Plan* p; const ExecOpt* o; ExecResult* r;
    std::map<int, StreamMem> st;
    std::vector<char> done;
    std::map<int, int> audible;      // per tid
    uint64_t stamp = 0;
    // schedule
    std::map<int, SimThread> th;
    SimThread* running = nullptr;
    sem_t ctl;
    int64_t budget = 0;
    bool active = false, focus = false;
    long long events = 0, lockfreeze = 0;
};
static Ctx* G;
static void park_and_yield(SimThread* t);
void do_prior(const Api* A, int seed);
bool sched_active() { return G && G->active && G->running; }

void sched_lock_taken() {
    if (!sched_active()) return;
    SimThread* t = G->running; Ctx* c = G;
    if (c->lockfreeze > 0 && --c->lockfreeze == 0) { t->dead = true; t->midcall = false; park_and_yield(t); for (;;) pause(); }
}
static void park_and_yield(SimThread* t) {
    Ctx* c = G;
    sem_post(&c->ctl);
    while (sem_wait(&t->go)) {}
}
void sched_point_blocked() {
    if (!sched_active()) return;
    SimThread* t = G->running;
    t->blocked = true; t->midcall = true;
    park_and_yield(t);
}
static thread_local long long t_work = 0, t_work_max = 0;
static thread_local uintptr_t t_sp_low = 0;   // deepest stack address the library ran at in this call
static inline void tick(uint32_t site, bool crash_unit) {
    Ctx* c = G;
    if (tl_inlib) { uintptr_t sp = (uintptr_t)__builtin_frame_address(0); if (sp < t_sp_low) t_sp_low = sp; }
    if (crash_unit && tl_inlib) { t_work++; if (t_work_max && t_work > t_work_max) _Exit(73); }   // a call that does not come back
    if (!c || !c->active || !tl_inlib) return;
    SimThread* t = c->running;
    if (!t || t->tid != tl_tid) return;
    c->events++;
    t->last_site = site;
    if (crash_unit && t->crash_left > 0 && --t->crash_left == 0) {
        t->dead = true; t->midcall = false;
        park_and_yield(t);
        for (;;) pause();
    }
    if (c->focus && crash_unit) return;   // in focus mode only accesses to shared memory are scheduling points
    if (--c->budget < 0) { t->midcall = true; park_and_yield(t); }
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { static uint32_t n; for (uint32_t* x = a; x < b; x++) if (!*x) *x = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { tick(*g, true); }
extern char __data_start[], _end[];
}
bool seam_foreign_block(const void* a, int tid);
static inline void mem(void* a, uint32_t kind) {
    Ctx* c = G;
    if (!c || !c->active || !c->focus || !tl_inlib) return;
    const char* x = (const char*)a;
    bool shared = (x >= __data_start && x < _end);
    if (!shared && c->th.size() > 1) shared = seam_foreign_block(a, tl_tid);
    if (shared) tick(0x40000000u + kind + (uint32_t)(((uintptr_t)__builtin_return_address(0)) & 0xffff) * 4, false);
}
extern "C" {
void __sanitizer_cov_load1(uint8_t* a) { mem(a, 0); }
void __sanitizer_cov_load2(uint16_t* a) { mem(a, 0); }
void __sanitizer_cov_load4(uint32_t* a) { mem(a, 0); }
void __sanitizer_cov_load8(uint64_t* a) { mem(a, 0); }
void __sanitizer_cov_load16(void* a) { mem(a, 0); }
void __sanitizer_cov_store1(uint8_t* a) { mem(a, 1); }
void __sanitizer_cov_store2(uint16_t* a) { mem(a, 1); }
void __sanitizer_cov_store4(uint32_t* a) { mem(a, 1); }
void __sanitizer_cov_store8(uint64_t* a) { mem(a, 1); }
void __sanitizer_cov_store16(void* a) { mem(a, 1); }
}

// ------------------------------------------------------------------------------------------- one operation
__attribute__((noinline)) static void dirty_stack(uint64_t pat) {
    volatile unsigned char* b = (volatile unsigned char*)alloca(24576);
    for (int i = 0; i < 24576; i++) b[i] = (unsigned char)(pat >> (8 * (i & 7)));
}
struct LibScope { bool prev; LibScope() : prev(tl_inlib) { tl_inlib = true; } ~LibScope() { tl_inlib = prev; } };

void lib_frame(const Api* A, int codec, bool sh, void* pcm, int* e, int* e2, char* str, char* fr, char* d, mbe_parms* c, mbe_parms* p, mbe_parms* n, int uv) {
    LibScope s;
    switch (codec * 2 + (sh ? 1 : 0)) {
        case 0: A->f_processAmbe3600x2400Framef((float*)pcm, e, e2, str, (char(*)[24])fr, d, c, p, n, uv); break;
        case 1: A->f_processAmbe3600x2400Frame((short*)pcm, e, e2, str, (char(*)[24])fr, d, c, p, n, uv); break;
        case 2: A->f_processAmbe3600x2450Framef((float*)pcm, e, e2, str, (char(*)[24])fr, d, c, p, n, uv); break;
        case 3: A->f_processAmbe3600x2450Frame((short*)pcm, e, e2, str, (char(*)[24])fr, d, c, p, n, uv); break;
        case 4: A->f_processImbe7200x4400Framef((float*)pcm, e, e2, str, (char(*)[23])fr, d, c, p, n, uv); break;
        case 5: A->f_processImbe7200x4400Frame((short*)pcm, e, e2, str, (char(*)[23])fr, d, c, p, n, uv); break;
        case 6: A->f_processImbe7100x4400Framef((float*)pcm, e, e2, str, (char(*)[24])fr, d, c, p, n, uv); break;
        case 7: A->f_processImbe7100x4400Frame((short*)pcm, e, e2, str, (char(*)[24])fr, d, c, p, n, uv); break;
    }
}
void lib_data(const Api* A, int codec, bool sh, void* pcm, const int* e, const int* e2, char* str, const char* d, mbe_parms* c, mbe_parms* p, mbe_parms* n, int uv) {
    LibScope s;
    if (codec == A24) { if (sh) A->f_processAmbe2400Data((short*)pcm, e, e2, str, d, c, p, n, uv); else A->f_processAmbe2400Dataf((float*)pcm, e, e2, str, d, c, p, n, uv); }
    else if (codec == A25) { if (sh) A->f_processAmbe2450Data((short*)pcm, e, e2, str, d, c, p, n, uv); else A->f_processAmbe2450Dataf((float*)pcm, e, e2, str, d, c, p, n, uv); }
    else { if (sh) A->f_processImbe4400Data((short*)pcm, e, e2, str, d, c, p, n, uv); else A->f_processImbe4400Dataf((float*)pcm, e, e2, str, d, c, p, n, uv); }
}
void lib_layers(const Api* A, int codec, char* fr, char* d, int* e, int* e2) {
    LibScope s;
    switch (codec) {
        case A24: *e = A->f_eccAmbe3600x2400C0((char(*)[24])fr); A->f_demodulateAmbe3600x2400Data((char(*)[24])fr); *e2 = *e + A->f_eccAmbe3600x2400Data((char(*)[24])fr, d); break;
        case A25: *e = A->f_eccAmbe3600x2450C0((char(*)[24])fr); A->f_demodulateAmbe3600x2450Data((char(*)[24])fr); *e2 = *e + A->f_eccAmbe3600x2450Data((char(*)[24])fr, d); break;
        case I72: *e = A->f_eccImbe7200x4400C0((char(*)[23])fr); A->f_demodulateImbe7200x4400Data((char(*)[23])fr); *e2 = *e + A->f_eccImbe7200x4400Data((char(*)[23])fr, d); break;
        default: *e = A->f_eccImbe7100x4400C0((char(*)[24])fr); A->f_demodulateImbe7100x4400Data((char(*)[24])fr); *e2 = *e + A->f_eccImbe7100x4400Data((char(*)[24])fr, d); A->f_convertImbe7100to7200(d); break;
    }
}

static void ensure_stream(Ctx& c, int s) {
    StreamMem& m = c.st[s];
    if (!m.cur) m.fresh(c.o->outfill);
    if (!m.init) { LibScope l; c.o->api->f_initMbeParms(m.C(), m.P(), m.E()); m.init = true; }
}

static void run_op(Ctx& c, int i) {
    const ExecOpt& o = *c.o;
    Op opc = c.p->ops[i];
    if (o.short_all) opc.shorty = 1;
    if (o.float_all) opc.shorty = 0;
    const Op& op = opc;
    const Api* A = o.api;
    Rec rec; memset((void*)&rec, 0, sizeof rec); rec.op = i; rec.tid = op.tid;
    if (o.dirty) dirty_stack(o.dirty + (uint64_t)i * 0x9E3779B97F4A7C15ull);
    bool need = op.stream >= 0 && op.kind != K_INIT && op.kind != K_RESTORE;
    if (need) ensure_stream(c, op.stream);
    static StreamMem none;
    StreamMem& m = op.stream >= 0 ? c.st[op.stream] : none;
    bool has = op.stream >= 0 && m.init;
    Triplet* pre = new Triplet;      // heap: the simulated thread's stack layout stays the library's own
    if (has) *pre = m.snap(); else memset(pre, 0, sizeof *pre);
    if (o.hooks.before) o.hooks.before(i, op, *pre);
    int nb = nbits(op.codec), nf = fr_bits(op.codec);
    { long long al = o.align ? o.align : c.p->k("align"); t_align = al > 0 ? mix64((uint64_t)al, (uint64_t)i) : 0; }
    GBuf pcm(op.shorty ? 160 * sizeof(short) : 160 * sizeof(float), o.outfill, op.shorty ? sizeof(short) : sizeof(float));
    int strn = 64;
    if (op.kind == K_DATA || op.kind == K_LAYER) strn = std::max(op.errs2, 0) + 3;
    if (op.kind == K_LAYER) strn = 64;
    GBuf str((size_t)strn, o.outfill), d((size_t)nb, o.outfill), fr((size_t)nf, 0), eb(sizeof(int), o.outfill, sizeof(int)), e2b(sizeof(int), o.outfill, sizeof(int));
    int* pe = (int*)eb.p; int* pe2 = (int*)e2b.p;
    GBuf din((size_t)nb, 0), fin((size_t)nf, 0);
    for (int k = 0; k < nb && k < (int)op.data.size(); k++) din.p[k] = op.data[k] == '1';
    if (op.kind == K_FRAME || op.kind == K_LAYER || op.kind == K_ECC) {
        ref_encode(op.codec, (char*)din.p, (char*)fin.p);
        for (int f : op.flips) if (f >= 0 && f < nf) fin.p[f] ^= 1;
        memcpy(fr.p, fin.p, (size_t)nf);
    }
    std::unique_ptr<GBuf> toneb;
    bool has_pcm = false, has_str = false, has_d = false, has_fr = false;
    int uv = op.uv;
    const char* guard_msg = nullptr;
    { IoState& io = seam_io(); io = IoState(); io.mode = (int)c.p->k("iofault"); io.k = (int)c.p->k("iok") + i; }
    uintptr_t sp_base = (uintptr_t)__builtin_frame_address(0); t_sp_low = sp_base;
    if (o.host >= 0) host_enter(o.host, i);
    t_work = 0; t_work_max = o.work_max ? o.work_max[op.kind] : 0;
    switch (op.kind) {
        case K_FRAME:
            lib_frame(A, op.codec, op.shorty, pcm.p, pe, pe2, (char*)str.p, (char*)fr.p, (char*)d.p, m.C(), m.P(), m.E(), uv);
            has_pcm = has_str = has_d = has_fr = true; break;
        case K_DATA: {
            *pe = op.errs; *pe2 = op.errs2;
            memcpy(d.p, din.p, (size_t)nb);
            lib_data(A, op.codec, op.shorty, pcm.p, pe, pe2, (char*)str.p, (char*)d.p, m.C(), m.P(), m.E(), uv);
            has_pcm = has_str = has_d = true;
            if (memcmp(d.p, din.p, (size_t)nb)) guard_msg = "data call modified its parameter bits";
            if (*pe != op.errs || *pe2 != op.errs2) guard_msg = "data call modified its error counts";
            break; }
        case K_LAYER: {
            lib_layers(A, op.codec, (char*)fr.p, (char*)d.p, pe, pe2);
            int e = *pe, e2 = *pe2;
            GBuf dd((size_t)nb, 0); memcpy(dd.p, d.p, (size_t)nb);
            lib_data(A, op.codec, op.shorty, pcm.p, pe, pe2, (char*)str.p, (char*)d.p, m.C(), m.P(), m.E(), uv);
            if (memcmp(d.p, dd.p, (size_t)nb)) guard_msg = "data call modified its parameter bits";
            if (*pe != e || *pe2 != e2) guard_msg = "data call modified its error counts";
            has_pcm = has_str = has_d = has_fr = true; break; }
        case K_INIT: {
            if (!m.cur) m.fresh(o.outfill);
            LibScope l; A->f_initMbeParms(m.C(), m.P(), m.E()); m.init = true; break; }
        case K_SEED: { LibScope l; A->f_setThreadRngSeed((uint32_t)op.a); break; }
        case K_COMFORT: { LibScope l; if (op.shorty) A->f_synthesizeComfortNoise((short*)pcm.p); else A->f_synthesizeComfortNoisef((float*)pcm.p); has_pcm = true; break; }
        case K_SILENCE: { LibScope l; if (op.shorty) A->f_synthesizeSilence((short*)pcm.p); else A->f_synthesizeSilencef((float*)pcm.p); has_pcm = true; break; }
        case K_ECC: {
            lib_layers(A, op.codec, (char*)fr.p, (char*)d.p, pe, pe2);
            GBuf in(23, 0), out(23, o.outfill), h(15, 0), ho(15, o.outfill);
            Rng q((uint64_t)op.a + 1);
            for (int k = 0; k < 23; k++) in.p[k] = (unsigned char)q.below(2);
            for (int k = 0; k < 15; k++) h.p[k] = (unsigned char)q.below(2);
            unsigned char c0[23], h0[15]; memcpy(c0, in.p, 23); memcpy(h0, h.p, 15);
            long blk = (long)q.below(1u << 23);
            { LibScope l; rec.ret = A->f_golay2312((char*)in.p, (char*)out.p); uint64_t x = hash_bytes(out.p, 23); rec.ret += 10 * A->f_hamming1511((char*)h.p, (char*)ho.p); x = hash_bytes(ho.p, 15, x);
              rec.ret += 100 * A->f_7100x4400hamming1511((char*)h.p, (char*)ho.p); x = hash_bytes(ho.p, 15, x); A->f_checkGolayBlock(&blk); rec.h_pcm = mix64(x, (uint64_t)blk); }
            if (memcmp(c0, in.p, 23) || memcmp(h0, h.p, 15)) guard_msg = "error correction modified its input";
            if (!out.ok() || !ho.ok() || !in.ok() || !h.ok()) guard_msg = "error correction wrote outside its output";
            has_d = has_fr = true; break; }
        case K_QUERY: {
            LibScope l; mbe_parms* w[3] = {m.C(), m.P(), m.E()};
            for (int k = 0; k < 3; k++) rec.ret = rec.ret * 8 + (A->f_requiresMuting(w[k]) ? 1 : 0) + (A->f_isMaxFrameRepeat(w[k]) ? 2 : 0) + (A->f_requiresAdaptiveSmoothing(w[k]) ? 4 : 0);
            char v[64]; memset(v, o.outfill, sizeof v); A->f_printVersion(v); rec.h_d = hash_bytes(v, strnlen(v, 40)); rec.h_str = hash_bytes(A->f_versionString(), strlen(A->f_versionString()));
            break; }
        case K_CKPT: m.ckpt = m.snap(); m.has_ckpt = true; break;
        case K_RESTORE: if (m.has_ckpt) { m.drop(); m.fresh(o.outfill ^ 0x33); m.load(m.ckpt); m.init = true; } break;
        case K_MOVE: {
            Triplet t = m.snap();
            StreamMem n; n.fresh(o.outfill ^ 0x11);
            if (op.a & 1) { LibScope l; A->f_moveMbeParms(m.C(), n.C()); A->f_moveMbeParms(m.P(), n.P()); A->f_useLastMbeParms(n.E(), m.E()); }
            else n.load(t);
            if (memcmp(m.C(), &t.cur, sizeof t.cur) || memcmp(m.P(), &t.prev, sizeof t.prev) || memcmp(m.E(), &t.enh, sizeof t.enh)) guard_msg = "copying a parameter set modified its source";
            m.drop(); m.cur = n.cur; m.prev = n.prev; m.enh = n.enh; break; }
        case K_CONV: {
            GBuf f(160 * sizeof(float), 0, sizeof(float)), s2(160 * sizeof(short), o.outfill, sizeof(short)); Rng q((uint64_t)op.a + 7);
            float* x = (float*)f.p; double amp = pow(10.0, q.uni() * 5 - 1);
            for (int k = 0; k < 160; k++) x[k] = (float)((q.uni() * 2 - 1) * amp);
            uint64_t h0 = hash_bytes(x, 640);
            { LibScope l; A->f_floattoshort(x, (short*)s2.p); }
            if (hash_bytes(x, 640) != h0) guard_msg = "conversion modified its input";
            if (!s2.ok() || !f.ok()) guard_msg = "conversion wrote outside its output";
            rec.h_pcm = hash_bytes(s2.p, 320); break; }
        case K_TONE: {
            memcpy(d.p, din.p, (size_t)nb);
            toneb.reset(new GBuf(160 * sizeof(float), o.outfill, sizeof(float))); GBuf& tf = *toneb;
            { LibScope l; if (op.codec == A24) A->f_synthesizeTonefdstar((float*)tf.p, (char*)d.p, m.C(), op.a); else A->f_synthesizeTonef((float*)tf.p, (char*)d.p, m.C()); }
            if (memcmp(d.p, din.p, (size_t)nb)) guard_msg = "tone synthesis modified its parameter bits";
            if (!tf.ok()) guard_msg = "tone synthesis wrote outside its output";
            rec.h_pcm = hash_bytes(tf.p, 640); break; }
        case K_SPEECH: {
            { LibScope l; if (op.shorty) A->f_synthesizeSpeech((short*)pcm.p, m.C(), m.E(), uv); else A->f_synthesizeSpeechf((float*)pcm.p, m.C(), m.E(), uv); }
            has_pcm = true; break; }
        case K_MANUAL: {   // errs 0: the whole pipeline; 1: decode and enhance only; 2: synthesise what an earlier call prepared
            memcpy(d.p, din.p, (size_t)nb);
            LibScope l;
            if (op.errs != 2) {
                rec.ret = op.codec == A24 ? A->f_decodeAmbe2400Parms((char*)d.p, m.C(), m.P()) : op.codec == A25 ? A->f_decodeAmbe2450Parms((char*)d.p, m.C(), m.P()) : A->f_decodeImbe4400Parms((char*)d.p, m.C(), m.P());
                if (memcmp(d.p, din.p, (size_t)nb)) guard_msg = "parameter decoding modified its bits";
                if (rec.ret == 0) { A->f_moveMbeParms(m.C(), m.P()); A->f_spectralAmpEnhance(m.C()); }
            }
            if (op.errs == 2 || (op.errs != 1 && rec.ret == 0)) {
                if (op.shorty) A->f_synthesizeSpeech((short*)pcm.p, m.C(), m.E(), uv); else A->f_synthesizeSpeechf((float*)pcm.p, m.C(), m.E(), uv);
                A->f_moveMbeParms(m.C(), m.E());
                has_pcm = true;
            }
            break; }
        case K_ENH: { LibScope l; A->f_spectralAmpEnhance(m.C()); break; }
        case K_SMOOTH: { LibScope l; A->f_applyAdaptiveSmoothing(m.C(), op.errs == 1 ? m.P() : m.E()); break; }
        case K_DUMP: {
            static const int cd[5] = {I72, I72, I72, I71, I71}; static const bool isf[5] = {false, false, true, false, true};
            int w = op.a % 5, codec = cd[w]; Rng q((uint64_t)op.a + 11);
            GBuf in(isf[w] ? (size_t)fr_bits(codec) : 88, 0), dd(88, 0), ff((size_t)fr_bits(codec), 0);
            for (int k = 0; k < 88 && k < (int)op.data.size(); k++) dd.p[k] = op.data[k] == '1';
            ref_encode(codec, (char*)dd.p, (char*)ff.p);
            for (int f : op.flips) if (f >= 0 && f < fr_bits(codec)) ff.p[f] ^= 1;
            memcpy(in.p, isf[w] ? ff.p : dd.p, in.n);
            std::string want;
            auto row = [&](int r, int hi) { for (int k = hi; k >= 0; k--) want += (char)('0' + in.p[r * fr_cols(codec) + k]); };
            if (!isf[w]) for (int k = 0; k < 88; k++) want += (char)('0' + in.p[k]);
            else if (codec == I72) { for (int r = 0; r < 4; r++) row(r, 22); for (int r = 4; r < 7; r++) row(r, 14); row(7, 6); }
            else { row(0, 18); row(1, 23); row(2, 22); row(3, 22); row(4, 14); row(5, 14); row(6, 22); }
            uint64_t h0 = hash_bytes(in.p, in.n); IoState& io = seam_io(); io.mode = op.errs; io.k = op.errs2;
            { LibScope l;
              if (w == 0) A->f_dumpImbe4400Data((char*)in.p); else if (w == 1) A->f_dumpImbe7200x4400Data((char*)in.p); else if (w == 2) A->f_dumpImbe7200x4400Frame((char(*)[23])in.p);
              else if (w == 3) A->f_dumpImbe7100x4400Data((char*)in.p); else A->f_dumpImbe7100x4400Frame((char(*)[24])in.p); }
            if (hash_bytes(in.p, in.n) != h0) guard_msg = "a dump modified its input";
            if (!in.ok()) guard_msg = "a dump wrote outside its input";
            if (op.errs == IO_OK || op.errs == IO_STALL) { std::string got; for (char ch : io.text) if (ch >= '0' && ch <= '9') got += ch; if (got != want) guard_msg = got.size() != want.size() ? "a dump printed more or fewer bits than it was given" : "a dump printed other bits than it was given"; if (io.text.find('-') != std::string::npos) guard_msg = "a dump printed other bits than it was given"; }
            break; }
        case K_DIRTY: dirty_stack((uint64_t)op.a * 0x9E3779B97F4A7C15ull); break;
    }
    if (o.host >= 0) rec.env = host_leave();
    if (has_d && op.kind != K_ECC) { rec.errs = *pe; rec.errs2 = *pe2; }
    if (op.kind == K_ECC) { rec.errs = *pe; rec.errs2 = *pe2; }
    { IoState& io = seam_io(); rec.io_calls = io.calls; rec.io_failed = io.failed; rec.io_other = io.other; rec.h_io = hash_bytes(io.text.data(), io.text.size()); io.text.clear(); }
    rec.stack = (long long)(sp_base - t_sp_low); rec.work = t_work; t_work = t_work_max = 0;
    Triplet* post = new Triplet;
    bool has2 = op.stream >= 0 && m.init;
    if (has2) *post = m.snap(); else memset(post, 0, sizeof *post);
    if (o.guard) {
        if (!pcm.ok() || !str.ok() || !d.ok() || !fr.ok() || !eb.ok() || !e2b.ok() || !din.ok() || !fin.ok()) guard_msg = "a call wrote outside one of its buffers";
        if (has2 && (!m.cur->ok() || !m.prev->ok() || !m.enh->ok())) guard_msg = "a call wrote outside a parameter set";
        if (has_str) {
            int lim = std::max(rec.errs2, 0) + 3;
            for (int k = lim; k < strn; k++) if (str.p[k] != (unsigned char)o.outfill) { guard_msg = "status string longer than error count plus three"; break; }
            if (!memchr(str.p, 0, (size_t)std::min(lim, strn))) guard_msg = "status string not terminated within error count plus three";
        }
        if (has_pcm) {   // the previous content must have been replaced
            int same = 0; unsigned v, w; memset(&v, o.outfill, 4);
            if (!op.shorty && v) { for (int k = 0; k < 160; k++) { memcpy(&w, pcm.p + 4 * k, 4); if (w == v) same++; } if (same) guard_msg = "output samples were not written"; }
        }
        if (op.kind == K_QUERY && memcmp(pre, post, sizeof *pre)) guard_msg = "a query modified the stream state";
        if ((op.kind == K_DATA || op.kind == K_FRAME || op.kind == K_LAYER) && has_d) for (int k = 0; k < nb; k++) if (d.p[k] > 1) { guard_msg = "decoded bits are not 0/1"; break; }
        if (guard_msg) report(c.r->v, std::string("guard.") + kind_name[op.kind], i, "%s (op %d %s %s)", guard_msg, i, kind_name[op.kind], codec_name[op.codec]);
    }
    if (has_pcm) {
        for (int k = 0; k < 160; k++) { float x = op.shorty ? (float)((short*)pcm.p)[k] / 7.0f : ((float*)pcm.p)[k]; if (!(fabsf(x) < 1e9f)) x = 1e9f; rec.peak = std::max(rec.peak, fabsf(x)); }
        rec.h_pcm = rec.h_pcm_s = hash_bytes(pcm.p, pcm.n);
        if (!op.shorty) { bool a = c.active; c.active = false; short sb[160]; A->f_floattoshort((float*)pcm.p, sb); rec.h_pcm_s = hash_bytes(sb, sizeof sb); c.active = a; }
    }
    { AllocStat a = seam_alloc_stat(tl_tid); rec.live = a.live; rec.req = a.req; rec.failed = a.failed; }
    if (has_str) {
        size_t len = strnlen((char*)str.p, (size_t)strn);
        rec.h_str = hash_bytes(str.p, len);
        // keep the markers (after the '=' run)
        size_t b = 0; while (b < len && str.p[b] == '=') b++;
        snprintf(rec.str, sizeof rec.str, "%s", std::string((char*)str.p + b, std::min<size_t>(len - b, 20)).c_str());
        rec.muted = strchr(rec.str, 'M') || strchr(rec.str, 'E');
    }
    if (has_d) {
        rec.h_d = hash_bytes(d.p, (size_t)nb);
        static const int q0[4][8] = {{0, 1, 2, 3, 4, 5, 48, -1}, {0, 1, 2, 3, 37, 38, 39, -1}, {0, 1, 2, 3, 4, 5, 85, 86}, {0, 1, 2, 3, 4, 5, 85, 86}};
        rec.b0 = 0; for (int k : q0[op.codec]) if (k >= 0) rec.b0 = rec.b0 * 2 + (d.p[k] & 1);
    }
    if (has_fr) rec.h_fr = hash_bytes(fr.p, (size_t)nf);
    if (has2) {
        rec.h_cur = hparm(&post->cur, true); rec.h_prev = hparm(&post->prev, true); rec.h_enh = hparm(&post->enh, true);
        rec.h_cur_x = hparm(&post->cur, false); rec.h_prev_x = hparm(&post->prev, false); rec.h_enh_x = hparm(&post->enh, false);
        rec.repcount = post->cur.repeatCount; rec.L = post->cur.L; rec.rate = post->cur.errorRate; rec.h_voice = hvoice(&post->prev);
        if (has) {
            auto mx = [](const Triplet& t) { return std::max(t.cur.noiseSeed, std::max(t.prev.noiseSeed, t.enh.noiseSeed)); };
            rec.cold = mx(*pre) < 0 && mx(*post) >= 0;
        }
    }
    rec.stamp = ++c.stamp;
    if (o.hooks.after && !c.r->v.bad()) {
        char s64[256]; size_t len = std::min<size_t>(strnlen((char*)str.p, (size_t)strn), 255); memcpy(s64, str.p, len); s64[len] = 0;
        OpIO io; io.pre = pre; io.post = post; io.pcmf = toneb ? (float*)toneb->p : !op.shorty && has_pcm ? (float*)pcm.p : nullptr; io.pcms = op.shorty && has_pcm ? (short*)pcm.p : nullptr; io.shorty = op.shorty;
        io.err_str = has_str ? s64 : ""; io.errs = rec.errs; io.errs2 = rec.errs2; io.d = (char*)d.p; io.fr_in = (char*)fin.p; io.fr_out = (char*)fr.p; io.tid = op.tid; io.ret = rec.ret;
        o.hooks.after(i, op, io);
    }
    delete pre; delete post;
    c.r->rec.push_back(rec);
    if (plan_audible(op)) {
        int k = ++c.audible[tl_tid];
        auto& v = c.r->live_first_audio; if ((int)v.size() <= tl_tid) v.resize((size_t)tl_tid + 1, 0);
        AllocStat a = seam_alloc_stat(tl_tid);
        v[(size_t)tl_tid] = std::max(v[(size_t)tl_tid], a.live);
        (void)k;
    }
}

void do_prior(const Api* A, int seed);

// ------------------------------------------------------------------------------------------- thread bodies
static bool deps_ok(Ctx& c, int i) {
    const Op& op = c.p->ops[i];
    if (op.stream < 0) return true;
    for (int k = 0; k < i; k++) if (!c.done[k] && c.p->ops[k].stream == op.stream) return false;
    return true;
}
static void* thread_main(void* a) {
    SimThread* t = (SimThread*)a; Ctx& c = *G;
    tl_tid = t->tid;
    if (c.o->multi) while (sem_wait(&t->go)) {}
    if (c.o->prior) do_prior(c.o->api, c.o->prior + t->tid);
    while (t->pos < t->ops.size()) {
        int i = t->ops[t->pos];
        if (c.o->multi) {
            if (!deps_ok(c, i)) { park_and_yield(t); continue; }
            if (c.budget <= 0) { park_and_yield(t); continue; }
            c.budget--;   // an operation boundary costs one unit
        }
        const Op& op = c.p->ops[i];
        bool crash = c.o->multi && op.b > 0 && op.kind != K_RESTORE && op.kind != K_CKPT;
        if (crash) { t->crash_left = op.b; if (op.stream >= 0) {} }
        t->midcall = false;
        run_op(c, i);
        t->midcall = false;
        c.done[i] = 1;
        t->pos++;
        if (crash) { t->dead = true; for (size_t k = t->pos; k < t->ops.size(); k++) c.done[t->ops[k]] = 1; park_and_yield(t); for (;;) pause(); }
        if (c.r->v.bad()) break;
    }
    if (c.o->multi) { t->finished = true; sem_post(&c.ctl); }
    return nullptr;
}
static void finish_thread(Ctx& c, SimThread& t) {
    pthread_join(t.th, nullptr); t.joined = true;
    if ((int)c.r->alloc_exit.size() <= t.tid) c.r->alloc_exit.resize((size_t)t.tid + 1);
    c.r->alloc_exit[(size_t)t.tid] = seam_alloc_stat(t.tid);
}
static void start_thread(Ctx& c, SimThread& t) {
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2u << 20);
    sem_init(&t.go, 0, 0);
    if (pthread_create(&t.th, &at, thread_main, &t)) abort();
    t.created = true;
}
static void run_multi(Ctx& c) {
    sem_init(&c.ctl, 0, 0);
    c.focus = c.p->k("focus") != 0;
    c.active = true;
    size_t slot = 0; SchedResult& sr = c.r->sr;
    uint64_t h = 1469598103934665603ull;
    int last = -1; uint32_t last_site = 0;
    auto runnable = [&](SimThread& t) {
        if (t.finished || t.dead) return false;
        if (t.midcall) return true;
        return t.pos < t.ops.size() ? deps_ok(c, t.ops[t.pos]) : t.created;
    };
    long long spins = 0, slots_run = 0;
    for (;;) {
        bool any = false, all_done = true;
        for (auto& q : c.th) { if (runnable(q.second)) any = true; if (!q.second.finished && !q.second.dead) all_done = false; }
        if (all_done || c.r->v.bad()) break;
        if (!any) { c.r->inconclusive = true; break; }
        if (c.o->stop_slot >= 0 && slots_run++ >= c.o->stop_slot) break;   // the process dies here, mid-call or not
        SimThread* t = nullptr; int64_t bud = 3000000;
        if (slot < c.p->sched.size()) {
            auto f = c.th.find(c.p->sched[slot].tid);
            if (f != c.th.end() && runnable(f->second) && !f->second.blocked) { t = &f->second; bud = c.p->sched[slot].edges; }
            slot++;
            if (!t && slot < c.p->sched.size()) continue;
        }
        if (!t) {   // round robin, large quantum
            for (auto& q : c.th) if (q.first > last && runnable(q.second) && !q.second.blocked) { t = &q.second; break; }
            if (!t) for (auto& q : c.th) if (runnable(q.second) && !q.second.blocked) { t = &q.second; break; }
            if (!t) {   // everyone waits for a lock: let them try again, give up after a while
                for (auto& q : c.th) q.second.blocked = false;
                if (++spins > 1000) { bool dead = false; for (auto& q : c.th) dead |= q.second.dead; if (dead && c.p->k("nowait")) report(c.r->v, "sched.waits_for_dead", -1, "every thread that is still running waits for one that stopped in the middle of a call"); if (!dead) report(c.r->v, "sched.deadlock", -1, "all simulated threads wait for each other"); c.r->inconclusive = true; break; }
                continue;
            }
        }
        if (!t->created) start_thread(c, *t);
        bool mid = t->midcall;
        uint32_t in = t->last_site;
        if (last >= 0 && last != t->tid) {
            sr.switches++;
            SimThread& lt = c.th[last];
            if (lt.midcall) sr.midcall++;
            uint64_t s[3] = {lt.midcall ? lt.last_site : 0, mid ? in : 0, (uint64_t)last * 64 + (uint64_t)t->tid};
            h = hash_bytes(s, sizeof s, h);
            sr.points.push_back(hash_bytes(s, 16));
        }
        (void)last_site;
        last = t->tid;
        c.budget = bud; c.running = t; t->blocked = false;
        sem_post(&t->go);
        while (sem_wait(&c.ctl)) {}
        c.running = nullptr;
        if (!t->blocked) for (auto& q : c.th) q.second.blocked = false;   // progress: waiters may retry
        if (t->dead) for (size_t k = t->pos; k < t->ops.size(); k++) c.done[t->ops[k]] = 1;
        if (t->finished) finish_thread(c, *t);
    }
    sr.trace_hash = h;
    c.active = false;
}

void exec_plan(const Plan& p, const ExecOpt& o, ExecResult& r) {
    Ctx* cp = new Ctx; Ctx& c = *cp;   // leaked on purpose: parked threads may still refer to it
    c.p = &p; c.o = &o; c.r = &r;
    c.done.assign(p.ops.size(), 1);
    seam_reset(); seam_set_fill(o.fill); seam_set_env(o.envseed);
    if (o.allocfail) seam_set_alloc_fail(p.allocfail);
    G = cp; c.lockfreeze = o.multi ? p.k("lockfreeze") : 0;
    for (auto& k : o.ckpt_in) { StreamMem& m = c.st[k.first]; m.ckpt = k.second; m.has_ckpt = true; }
    std::vector<void*> pads; if (o.heap_pad) { Rng q((uint64_t)o.heap_pad); for (int i = 0; i < 40; i++) pads.push_back(malloc((size_t)q.range(16, 9000))); for (size_t i = 0; i < pads.size(); i += 2) free(pads[i]); }
    if (o.prior_main) { tl_tid = 1000; do_prior(o.api, o.prior_main); tl_tid = -1; }
    for (size_t i = 0; i < p.ops.size(); i++) {
        const Op& op = p.ops[i];
        if ((int)i < o.op_from || (int)i >= o.op_to) continue;
        if (o.only_tid >= 0 && op.tid != o.only_tid) continue;
        if (o.only_stream >= -1 && op.stream != o.only_stream && op.stream >= 0) continue;
        int tid = o.multi ? op.tid : 0;
        SimThread& t = c.th[tid]; t.tid = tid; t.ops.push_back((int)i);
        c.done[i] = 0;
    }
    if (o.multi) run_multi(c);
    else for (auto& q : c.th) { start_thread(c, q.second); finish_thread(c, q.second); }
    for (auto& k : c.st) if (k.second.has_ckpt) r.ckpt_out[k.first] = k.second.ckpt;
    r.env_calls = seam_env_calls();
    r.bad_free = seam_alloc_stat(-1).bad_free;
    std::stable_sort(r.rec.begin(), r.rec.end(), [](const Rec& a, const Rec& b) { return a.op < b.op; });
    G = nullptr;
}

// Prior activity on a thread: arbitrary decoding on private streams, ending in an arbitrary seeding state.
void do_prior(const Api* A, int seed) {
    Rng q((uint64_t)seed);
    Triplet* t = new Triplet[2];
    bool was = tl_inlib; tl_inlib = false;   // not scheduled
    if (q.p(.5)) A->f_setThreadRngSeed((uint32_t)q.next());
    for (int s = 0; s < 2; s++) A->f_initMbeParms(&t[s].cur, &t[s].prev, &t[s].enh);
    int n = q.range(0, 12);
    for (int k = 0; k < n; k++) {
        int s = (int)q.below(2), codec = (int)q.below(4), e = 0, e2 = 0; char str[128]; float pcm[160]; char d[96];
        for (int i = 0; i < 88; i++) d[i] = (char)q.below(2);
        if (q.p(.15)) { A->f_synthesizeComfortNoisef(pcm); continue; }
        if (q.p(.1)) { A->f_setThreadRngSeed((uint32_t)q.next()); continue; }
        if (q.p(.1)) { A->f_spectralAmpEnhance(&t[s].cur); continue; }
        e2 = q.p(.3) ? (int)q.below(12) : 0;
        if (codec >= I72 && d[0] && d[1]) d[1] = 0;
        if (codec <= A25) A->f_initMbeParms(&t[s].cur, &t[s].prev, &t[s].enh);
        if (codec == A24) A->f_processAmbe2400Dataf(pcm, &e, &e2, str, d, &t[s].cur, &t[s].prev, &t[s].enh, 3);
        else if (codec == A25) A->f_processAmbe2450Dataf(pcm, &e, &e2, str, d, &t[s].cur, &t[s].prev, &t[s].enh, 3);
        else A->f_processImbe4400Dataf(pcm, &e, &e2, str, d, &t[s].cur, &t[s].prev, &t[s].enh, 3);
    }
    tl_inlib = was;
    delete[] t;
}

// ------------------------------------------------------------------------------------------- forked execution
uint64_t g_loghash = 1469598103934665603ull;
template <class T> static void putv(std::string& s, const std::vector<T>& v) { uint64_t n = v.size(); s.append((char*)&n, 8); if (n) s.append((const char*)v.data(), n * sizeof(T)); }
template <class T> static void getv(const char*& q, std::vector<T>& v) { uint64_t n; memcpy(&n, q, 8); q += 8; v.resize(n); if (n) memcpy((void*)v.data(), q, n * sizeof(T)); q += n * sizeof(T); }
static void puts_(std::string& s, const std::string& x) { uint64_t n = x.size(); s.append((char*)&n, 8); s += x; }
static void gets_(const char*& q, std::string& x) { uint64_t n; memcpy(&n, q, 8); q += 8; x.assign(q, n); q += n; }

bool exec_forked(const Plan& p, const ExecOpt& o, ExecResult& r, Stats* st, std::string* crash, int timeout_s) {
    std::string out, cr;
    if (st) { st->n.clear(); st->sets.clear(); }
    bool ok = run_forked([&](std::string& s) {
        ExecResult x; exec_plan(p, o, x);
        std::vector<Triplet> cv; std::vector<int> ck; for (auto& k : x.ckpt_out) { ck.push_back(k.first); cv.push_back(k.second); }
        putv(s, ck); putv(s, cv); putv(s, x.rec); putv(s, x.alloc_exit); putv(s, x.live_first_audio); putv(s, x.sr.points);
        uint64_t z[6] = {x.sr.trace_hash, (uint64_t)x.sr.switches, (uint64_t)x.sr.midcall, (uint64_t)x.env_calls, (uint64_t)x.bad_free, (uint64_t)x.inconclusive};
        s.append((char*)z, sizeof z);
        puts_(s, x.v.cls); puts_(s, x.v.msg); int vo = x.v.op; s.append((char*)&vo, 4);
        puts_(s, st ? st->to_text() : std::string());
    }, out, cr, timeout_s);
    if (!ok) { if (crash) *crash = cr; return false; }
    const char* q = out.data();
    std::vector<Triplet> cv; std::vector<int> ck; getv(q, ck); getv(q, cv); for (size_t i = 0; i < ck.size(); i++) r.ckpt_out[ck[i]] = cv[i];
    getv(q, r.rec); getv(q, r.alloc_exit); getv(q, r.live_first_audio); getv(q, r.sr.points);
    uint64_t z[6]; memcpy(z, q, sizeof z); q += sizeof z;
    r.sr.trace_hash = z[0]; r.sr.switches = (long long)z[1]; r.sr.midcall = (long long)z[2]; r.env_calls = (long long)z[3]; r.bad_free = (long long)z[4]; r.inconclusive = z[5] != 0;
    gets_(q, r.v.cls); gets_(q, r.v.msg); memcpy(&r.v.op, q, 4); q += 4;
    std::string t; gets_(q, t); if (st) st->merge_text(t);
    for (auto& x : r.rec) { uint64_t w[12] = {(uint64_t)x.op, (uint64_t)x.tid, (uint64_t)(uint32_t)x.errs, (uint64_t)(uint32_t)x.errs2, x.h_pcm, x.h_str, x.h_d, x.h_fr, x.h_cur, x.h_prev, x.h_enh, x.stamp}; g_loghash = hash_bytes(w, sizeof w, g_loghash); }
    g_loghash = mix64(g_loghash, r.sr.trace_hash);
    return true;
}

const char* rec_diff(const Rec& a, const Rec& b, unsigned skip) {
    if (!(skip & SK_ERRS) && a.errs != b.errs) return "C0 error count";
    if (!(skip & SK_ERRS) && a.errs2 != b.errs2) return "total error count";
    if (!(skip & SK_STR) && (a.h_str != b.h_str || strcmp(a.str, b.str))) return "status trace";
    if (!(skip & SK_D) && a.h_d != b.h_d) return "decoded bits";
    if (!(skip & SK_FR) && a.h_fr != b.h_fr) return "frame bits";
    if (a.ret != b.ret) return "return value";
    if (!(skip & SK_PCM) && a.h_pcm != b.h_pcm) return "audio";
    if (!(skip & SK_STATE)) {
        if (skip & SK_UW) { if (a.h_cur_x != b.h_cur_x) return "current parameters"; if (a.h_prev_x != b.h_prev_x) return "previous parameters"; if (a.h_enh_x != b.h_enh_x) return "enhanced parameters"; }
        else { if (a.h_cur != b.h_cur) return "current parameters"; if (a.h_prev != b.h_prev) return "previous parameters"; if (a.h_enh != b.h_enh) return "enhanced parameters"; }
    }
    return nullptr;
}
