// More properties decided by paired executions: memory faults, recovery, interfaces, layers, codec switching, inputs, SIMD.
#include "props.h"
#include <limits.h>
#include <math.h>
#include <stdlib.h>
#include <algorithm>

bool in_child(const char* what, Verdict& v, Stats& s, const std::function<void(Verdict&, Stats&)>& fn, int cpu_s) {
    std::string out, crash; s.add("exec.total");
    bool ok = run_forked([&](std::string& o) {
        Verdict w; Stats t; fn(w, t);
        o = w.cls + "\n" + w.msg + "\n" + std::to_string(w.op) + "\n" + std::to_string(g_loghash) + "\n" + t.to_text();
    }, out, crash, cpu_s);
    if (!ok) {
        if (crash.rfind("harness", 0) == 0) { fprintf(stderr, "harness failure: %s\n", crash.c_str()); _Exit(3); }
        report(v, "crash." + crash, -1, "%s: the process running the library died (%s)", what, crash.c_str());
        return false;
    }
    size_t a = out.find('\n'), b = out.find('\n', a + 1), c = out.find('\n', b + 1), d = out.find('\n', c + 1);
    std::string cls = out.substr(0, a);
    g_loghash = mix64(g_loghash, strtoull(out.substr(c + 1, d - c - 1).c_str(), nullptr, 10));
    s.merge_text(out.substr(d + 1));
    if (!cls.empty()) { v.cls = cls; v.msg = out.substr(a + 1, b - a - 1); v.op = atoi(out.substr(b + 1, c - b - 1).c_str()); return false; }
    return true;
}
void snap_hook(ExecOpt& o, std::vector<Snap>& v) {
    o.hooks.after = [&v](int i, const Op&, const OpIO& io) {
        Snap& s = v[(size_t)i]; s.has = true; s.post = *io.post; s.str = io.err_str; s.errs = io.errs; s.errs2 = io.errs2;
        if (io.pre && io.post) { const mbe_parms* q[5] = {&io.post->cur, &io.post->prev, &io.pre->enh, &io.pre->cur, &io.post->enh}; for (auto* m : q) { double u = 0; for (int l = 1; l <= 56; l++) s.loud += 2 * fabs((double)m->Ml[l]); for (int n = 0; n < 256; n++) u = std::max(u, (double)fabsf(m->previousUw[n])); s.loud += u; } }
        if (io.pcmf) s.f.assign(io.pcmf, io.pcmf + 160);
        if (io.pcms) s.s.assign(io.pcms, io.pcms + 160);
        g_loghash = hash_bytes(&s.post, sizeof s.post, g_loghash);
        if (io.pcmf) g_loghash = hash_bytes(io.pcmf, 640, g_loghash);
        if (io.pcms) g_loghash = hash_bytes(io.pcms, 320, g_loghash);
    };
}
bool has_mark(const char* s, char c) { return strchr(s, c) != nullptr; }

static void mixed_ops(Rng& q, Plan& p, int n, bool extras, double loud = 0) {
    std::vector<Traffic> tr((size_t)p.nstreams); for (auto& x : tr) { x.swarm(q, (int)q.below(4)); if (q.p(loud)) { x.w[EXTREME] += 3; x.w[HELD] += 1; x.p_bad *= .3; } }
    int sp = q.p(.05) ? q.range(0, n - 1) : -1;
    for (int k = 0; k < n; k++) {
        size_t w = q.below((uint32_t)p.nstreams); double r = q.uni();
        if (k == sp) spell(q, p.ops, (int)w, tr[w].codec);
        if (extras && r < .03) p.ops.push_back(mk(K_INIT, (int)w));
        else if (extras && r < .07) { Op o = mk(K_COMFORT); o.shorty = q.p(.5); p.ops.push_back(o); }
        else if (extras && r < .10) { Op o = mk(K_SEED); o.a = rng_seed(q); p.ops.push_back(o); }
        else if (extras && r < .12) { Op o = mk(K_MOVE, (int)w); o.a = (int)q.below(2); p.ops.push_back(o); }
        else if (extras && r < .13) { Op o = mk(K_SILENCE); o.shorty = q.p(.5); p.ops.push_back(o); }
        else p.ops.push_back(tr[w].frame(q, (int)w));
    }
}
static std::string where(const Plan& p, int i) {
    const Op& o = p.ops[(size_t)i];
    char b[160]; snprintf(b, sizeof b, "call %d (%s %s, stream %d, %s)", i, kind_name[o.kind], codec_name[o.codec], o.stream, o.note.c_str());
    return b;
}

// ------------------------------------------------------------------------------------------- C05
static void gen_c05(Rng& q, Plan& p, bool thorough) {
    p.nstreams = q.range(1, 3); if (q.p(.4)) p.variant = "simd";
    mixed_ops(q, p, q.range(3, thorough ? 40 : 22), true, .4);
    p.ops.erase(std::remove_if(p.ops.begin(), p.ops.end(), [](const Op& o) { return o.kind == K_MANUAL; }), p.ops.end());
    size_t half = p.ops.size();
    p.knob["half"] = (long long)half;
    for (int s = 0; s < p.nstreams; s++) p.ops.push_back(mk(K_INIT, s));
    for (size_t i = 0; i < half; i++) p.ops.push_back(p.ops[i]);
    int mode = (int)q.below(4);
    if (mode == 0) { int n = q.range(1, 8); for (int i = 0; i < n; i++) p.allocfail.push_back(i); }
    else if (mode == 1) { double d = q.uni(); for (int i = 0; i < 40; i++) if (q.p(d)) p.allocfail.push_back(i); }
    else if (mode == 2) p.allocfail.push_back((int)q.below(6));
    else { int a = (int)q.below(12), n = q.range(1, 30); for (int i = 0; i < n; i++) p.allocfail.push_back(a + i); }
}
static void chk_c05(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    ExecOpt o; o.api = api_or(p.variant.c_str()); o.guard = true;
    ExecResult b, f;
    if (!go(p, o, b, v, s, "run without allocation failures")) return;
    o.allocfail = true;
    o.fill = 0x7FC000007FC00000ull;
    if (!go(p, o, f, v, s, "run with allocation failures")) return;
    if (b.rec.size() != f.rec.size()) { report(v, "C05.lost", -1, "calls lost"); return; }
    std::map<int, int> fresh; long long prevfail = 0; bool fired = false;
    for (size_t i = 0; i < f.rec.size(); i++) {
        const Rec &x = b.rec[i], &y = f.rec[i]; const Op& op = p.ops[(size_t)x.op];
        if (!(y.peak <= 4446.96f)) { report(v, "C05.range", x.op, "%s: a sample of %g while allocation fails exceeds 95%% of full scale", where(p, x.op).c_str(), (double)y.peak); return; }
        bool failed = y.failed > prevfail; s.add("fault.alloc_failures_fired", y.failed - prevfail); prevfail = y.failed; fired |= failed;
        auto fi = fresh.emplace(op.stream, 2).first;
        bool cmp = true;
        if (op.stream >= 0) {
            if (op.kind == K_INIT) fi->second = 2;
            else if (failed) fi->second = 0;
            else if (plan_audible(op) && fi->second < 2) { if (!y.str[0] && !(op.codec == A24 && (y.b0 & 0x7E) == 0x7E)) fi->second++; else if (y.str[0]) fi->second = 0; }
            cmp = fi->second >= 2;
        }
        const char* d = rec_diff(x, y, cmp ? 0 : SK_PCM | SK_UW);
        if (d) { report(v, std::string("C05.") + d, x.op, "%s: %s differs from the run without failures (%s)", where(p, x.op).c_str(), d, cmp ? "two fresh frames after the last failure" : "while allocation fails"); return; }
        s.add("oracle.calls_compared"); if (fired && cmp && op.stream >= 0) s.add("probe.frames_after_recovery");
    }
    // memory
    size_t half = 0; for (auto& x : b.rec) if (x.op < (int)p.k("half")) half++;
    if (!b.rec.empty() && half > 0 && half < b.rec.size() && (int)p.ops.size() == 2 * (int)p.k("half") + p.nstreams) {
        if (b.rec.back().req != b.rec[half - 1].req) { report(v, "C05.steady_allocation", b.rec.back().op, "decoding the same traffic a second time requested memory %lld more times", b.rec.back().req - b.rec[half - 1].req); return; }
        if (b.rec.back().live != b.rec[half - 1].live) { report(v, "C05.leak", b.rec.back().op, "decoding the same traffic a second time changed the held blocks from %lld to %lld", b.rec[half - 1].live, b.rec.back().live); return; }
        s.add("oracle.steady_state_checked");
    }
    if (!f.rec.empty()) {
        // after recovery both runs hold the same memory
        if (f.rec.back().live > b.rec.back().live) { report(v, "C05.leak_on_failure", f.rec.back().op, "%lld blocks held after failed attempts, %lld without failures", f.rec.back().live, b.rec.back().live); return; }
        long long e = b.alloc_exit.empty() ? 0 : b.alloc_exit[0].live, eb = b.alloc_exit.empty() ? 0 : b.alloc_exit[0].live_bytes;
        if (e > 0) {
            if (e == b.rec.back().live && e <= 8 && eb <= 12288) report_known(v, s, "C05.thread_exit_retains_plan", -1, "the per-thread FFT plan and work buffer are not released when the thread ends");
            else report(v, "C05.thread_exit_leak", -1, "%lld blocks (%lld bytes) held after the thread ended", e, eb);
            if (v.bad()) return;
        }
        s.add("probe.max_live_blocks_sum", b.rec.back().live);
    }
    uint64_t h = 3; for (int a : p.allocfail) h = mix64(h, (uint64_t)a); s.sig("failure_patterns", h);
    if (fired) s.add("nontrivial");
}
static RegProp r05("C05", gen_c05, chk_c05);

// ------------------------------------------------------------------------------------------- C10
static void gen_c10(Rng& q, Plan& p, bool thorough) {
    int codec = (int)q.below(4); if (q.p(.3)) p.variant = "simd";
    Traffic t; t.swarm(q, codec);
    t.p_bad = .1 + .6 * q.uni(); t.p_recover = .05 + .3 * q.uni(); t.p_heavy = .8; if (q.p(.5)) { t.w[ERASURE] += q.uni() * 2; t.w[INVALID] += q.uni(); t.w[RANDOM] += q.uni(); t.w[TONE] += q.uni(); }
    int n = q.range(1, thorough ? 120 : 60);
    for (int i = 0; i < n; i++) p.ops.push_back(t.frame(q, 0));
    if (q.p(.3)) { int k = q.range(1, 40); for (int i = 0; i < k; i++) { Op o = t.frame(q, 0); o.kind = K_DATA; o.errs2 = q.range(15, 60); o.errs = q.range(0, 3); o.flips.clear(); p.ops.push_back(o); } }
    if (q.p(.18)) {
        stretch(q, p.ops, 0, codec); codec = p.ops.back().codec;
        if (q.p(.6)) { int k = q.range(1, 5); for (int i = 0; i < k; i++) { Op o = t.frame(q, 0); o.codec = codec; o.data = p.ops.back().data; o.kind = K_FRAME; o.flips = gen_flips(q, codec, q.p(.5) ? D_HEAVY : D_C0); o.note = "held/heavy"; p.ops.push_back(o); } }
    }
    p.knob["clean_from"] = (long long)p.ops.size();
    Traffic c; c.calm(); c.codec = codec; c.p_short = .2; c.p_data = q.p(.5) ? 0 : .5; c.p_layer = .1;
    if (q.p(.5)) { c.w[SMOOTH] = 5; }
    int m = q.p(.5) ? q.range(95, 130) : q.range(1, 50);
    for (int i = 0; i < m; i++) p.ops.push_back(c.frame(q, 0));
}
static void chk_c10(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    int cf = (int)p.k("clean_from");
    if (cf > (int)p.ops.size()) cf = (int)p.ops.size();
    // minimisation may shift the boundary: the clean phase is what actually carries no damage
    cf = (int)p.ops.size();
    while (cf > 0) { const Op& o = p.ops[(size_t)cf - 1]; bool clean = o.flips.empty() && o.errs2 == 0 && (o.note.rfind("voice/none", 0) == 0 || o.note.rfind("smooth/none", 0) == 0) && (o.kind == K_FRAME || o.kind == K_DATA || o.kind == K_LAYER); if (!clean) break; cf--; }
    cf = std::max(cf, (int)p.k("clean_from") <= (int)p.ops.size() ? std::min((int)p.k("clean_from"), (int)p.ops.size()) : cf);
    in_child("recovery run", v, s, [&](Verdict& w, Stats& t) {
        ExecOpt o; o.api = api_or(p.variant.c_str());
        std::vector<Snap> a(p.ops.size()), b(p.ops.size()); ExecResult ra, rb;
        snap_hook(o, a); exec_plan(p, o, ra);
        t.add("exec.ops", (long long)ra.rec.size());
        int speech = 0; bool stale = false; mbe_parms old; memset(&old, 0, sizeof old);
        for (size_t i = 0; i < p.ops.size(); i++) {
            if (!a[i].has) continue;
            const char* st = a[i].str.c_str();
            if (has_mark(st, 'R') && !has_mark(st, 'M') && a[i].post.cur.repeatCount > 0) speech++; else speech = 0;
            t.add("probe.repeat_frames", speech > 0);
            // what was playing when the stream muted must not come back by repetition before new speech was decoded
            if (is_ambe(p.ops[i].codec)) {
                if (has_mark(st, 'M')) { if (!stale && i && a[i - 1].has) { stale = true; old = a[i - 1].post.prev; } }
                else if (!has_mark(st, 'R') && !has_mark(st, 'T')) stale = false;
                const mbe_parms& m = a[i].post.prev; bool fresh = true; for (int l = 1; l <= 15 && fresh; l++) fresh = m.log2Ml[l] == 0;
                fresh |= m.w0 != old.w0 || m.L != old.L || memcmp(m.log2Ml, old.log2Ml, sizeof m.log2Ml);
                if (stale && has_mark(st, 'R') && !has_mark(st, 'M')) { t.add("oracle.repeats_after_mute"); if (!fresh) { report(w, "C10.replay_after_mute", (int)i, "%s: the speech that had been muted is repeated again without any good frame in between", where(p, (int)i).c_str()); return; } }
            }
            if (speech > 3) { report(w, "C10.endless_repeat", (int)i, "%s: the same speech was repeated for %d frames in a row", where(p, (int)i).c_str(), speech); return; }
            if (has_mark(st, 'M')) t.add("probe.muted_frames");
            if (has_mark(st, 'E')) t.add("probe.erased_frames");
        }
        if (cf >= (int)p.ops.size()) return;
        bool amb = is_ambe(p.ops[(size_t)cf].codec);
        float rate = cf > 0 && a[(size_t)cf - 1].has ? std::max(a[(size_t)cf - 1].post.prev.errorRate, a[(size_t)cf - 1].post.cur.errorRate) : 0;
        if (!(rate >= 0 && rate < 10)) { report(w, "C10.error_rate", cf, "the smoothed error rate is %g when faults stop", (double)rate); return; }
        int bound = amb ? 0 : (rate > .0875f ? (int)floor(log(.0875 / rate) / log(.95) + 1e-3) : 0);
        if (rate > .0875f) t.add("probe.muting_by_rate_at_fault_end");
        for (int i = cf; i < (int)p.ops.size(); i++) {
            const char* st = a[(size_t)i].str.c_str(); int k = i - cf;
            if (has_mark(st, 'R') || has_mark(st, 'E') || has_mark(st, 'T')) { report(w, "C10.not_recovered", i, "%s: clean voice frame %d after faults stopped is treated as '%s'", where(p, i).c_str(), k + 1, st); return; }
            if (has_mark(st, 'M') && (amb || k >= bound)) { report(w, "C10.still_muted", i, "%s: muted on clean frame %d after faults stopped (bound %d frames, error rate was %g)", where(p, i).c_str(), k + 1, bound, (double)rate); return; }
            // audible: a frame with any amplitude must not be all zero
            t.add("oracle.clean_frames_checked");
        }
        // a decoder that never saw a fault
        Plan c = p; c.ops.erase(c.ops.begin(), c.ops.begin() + cf);
        std::vector<Snap> bb(c.ops.size()); ExecOpt o2; o2.api = o.api; snap_hook(o2, bb); exec_plan(c, o2, rb);
        t.add("exec.ops", (long long)rb.rec.size());
        double worst = 0;
        for (size_t k = 0; k < c.ops.size(); k++) {
            const mbe_parms &x = a[(size_t)cf + k].post.prev, &y = bb[k].post.prev;
            if (x.w0 != y.w0 || x.L != y.L) { report(w, "C10.pitch", cf + (int)k, "%s: pitch or band count differs from a decoder that never saw a fault", where(p, cf + (int)k).c_str()); return; }
            int L = std::min(std::max(x.L, 0), 56); bool dv = false; double dm = amb ? fabs((double)x.gamma - (double)y.gamma) : 0;   // IMBE carries no gain
            for (int l = 1; l <= L; l++) { dv |= x.Vl[l] != y.Vl[l]; dm = std::max(dm, (double)fabsf(x.log2Ml[l] - y.log2Ml[l])); if (!(x.log2Ml[l] == x.log2Ml[l])) dm = 1e9; }
            if (dv) { report(w, "C10.voicing", cf + (int)k, "%s: voicing differs from a decoder that never saw a fault", where(p, cf + (int)k).c_str()); return; }
            if (k >= 90) { worst = std::max(worst, dm); t.add("oracle.convergence_checked"); if (dm > 0.02) { report(w, "C10.not_converged", cf + (int)k, "%s: amplitudes still differ by %g (log2) from a decoder that never saw a fault, %zu clean frames after the last fault", where(p, cf + (int)k).c_str(), dm, k + 1); return; } }
        }
        if (cf > 0) t.add("nontrivial");
    });
}
static RegProp r10("C10", gen_c10, chk_c10);

// ------------------------------------------------------------------------------------------- C11
static void gen_c11(Rng& q, Plan& p, bool thorough) {
    p.nstreams = q.range(1, 3); if (q.p(.5)) p.variant = "simd";
    mixed_ops(q, p, q.range(4, thorough ? 80 : 40), true);
    for (auto& o : p.ops) { o.shorty = q.p(.5); if (plan_audible(o) && q.p(.05)) { o.kind = q.p(.5) ? K_SPEECH : K_MANUAL; if (o.kind == K_MANUAL) to_manual(o); } }
}
static void chk_c11(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    ExecOpt o; o.api = api_or(p.variant.c_str()); ExecResult rf, rs, rm;
    ExecOpt of = o, os = o; of.float_all = true; os.short_all = true;
    if (!go(p, of, rf, v, s, "float interface")) return;
    if (!go(p, os, rs, v, s, "16-bit interface")) return;
    if (!go(p, o, rm, v, s, "alternating interfaces")) return;
    for (int w = 0; w < 2; w++) {
        auto& r = w ? rm : rs; if (r.rec.size() != rf.rec.size()) { report(v, "C11.lost", -1, "calls lost"); return; }
        for (size_t i = 0; i < r.rec.size(); i++) {
            const char* d = rec_diff(rf.rec[i], r.rec[i], SK_PCM);
            if (!d && rf.rec[i].h_pcm_s != r.rec[i].h_pcm_s && p.ops[(size_t)rf.rec[i].op].kind != K_ECC && p.ops[(size_t)rf.rec[i].op].kind != K_CONV && p.ops[(size_t)rf.rec[i].op].kind != K_TONE) d = "audio";
            if (d) { report(v, std::string("C11.") + d, rf.rec[i].op, "%s: %s differs between the float interface and %s", where(p, rf.rec[i].op).c_str(), d, w ? "alternating interfaces" : "the 16-bit interface"); return; }
            s.add("oracle.calls_compared");
        }
    }
    if (p.ops.size() > 3) s.add("nontrivial");
}
static RegProp r11("C11", gen_c11, chk_c11);

// ------------------------------------------------------------------------------------------- C12
static void gen_c12(Rng& q, Plan& p, bool thorough) {
    p.nstreams = q.range(1, 2); if (q.p(.3)) p.variant = "simd";
    mixed_ops(q, p, q.range(4, thorough ? 80 : 40), true);
    bool calm = q.p(.6);
    for (auto& o : p.ops) if (plan_audible(o)) {
        if (o.kind == K_DATA) { o.flips = o.errs2 ? gen_flips(q, o.codec, o.errs2 > 6 ? D_HEAVY : D_FEW) : std::vector<int>(); o.errs = o.errs2 = 0; }
        o.kind = q.p(.5) ? K_FRAME : K_LAYER;
        if (calm && !is_ambe(o.codec)) {   // keep the repeat decision and the smoothing inputs the same on both routes
            int C = fr_cols(o.codec); std::vector<int> f; for (int x : o.flips) if (x / C != 4) f.push_back(x);
            if (f.size() > 4) { if (q.p(.5)) f.resize(4); else f = gen_flips(q, o.codec, D_NONE); }
            int c0 = 0; std::vector<int> g; for (int x : f) { if (x / C == 0 && ++c0 > 1) continue; g.push_back(x); } o.flips = g;
        }
    }
}
static void chk_c12(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    ExecOpt o; o.api = api_or(p.variant.c_str());
    Plan f = p, l = p; for (auto& x : f.ops) if (x.kind == K_LAYER) x.kind = K_FRAME; for (auto& x : l.ops) if (x.kind == K_FRAME) x.kind = K_LAYER;
    ExecResult rf, rl, rm;
    if (!go(f, o, rf, v, s, "one-call decoding")) return;
    if (!go(l, o, rl, v, s, "layered decoding")) return;
    if (!go(p, o, rm, v, s, "alternating routes")) return;
    for (int w = 0; w < 2; w++) {
        auto& r = w ? rm : rl; if (r.rec.size() != rf.rec.size()) { report(v, "C12.lost", -1, "calls lost"); return; }
        std::map<int, bool> div; bool thread_div = false;
        for (size_t i = 0; i < r.rec.size(); i++) {
            const Rec &x = rf.rec[i], &y = r.rec[i]; const Op& op = p.ops[(size_t)x.op];
            unsigned skip = 0;
            if (op.kind == K_INIT) div[op.stream] = false;
            if (op.kind == K_SEED) { bool any = false; for (auto& d : div) any |= d.second; if (!any) thread_div = false; }
            if ((op.kind == K_FRAME || op.kind == K_LAYER) && op.codec == A25) {
                bool rd = x.errs2 > 3, rfr = x.errs >= 4 || (x.errs >= 2 && x.errs2 >= 6);
                if (rd != rfr && !has_mark(x.str, 'E') && !has_mark(x.str, 'T')) { if (!div[op.stream]) s.add("probe.routes_may_differ_from_here"); div[op.stream] = true; thread_div = true; }
                if (div[op.stream]) skip |= SK_PCM | SK_STATE;
            } else if ((op.kind == K_FRAME || op.kind == K_LAYER) && !is_ambe(op.codec)) {
                // where the two routes may legitimately decide or smooth differently, from here on only the bits are compared
                RefRx rx; char fin[8 * 24], d[96]; memset(d, 0, sizeof d); for (int k = 0; k < nbits(op.codec); k++) d[k] = op.data[(size_t)k] == '1';
                ref_encode(op.codec, d, fin); for (int t : op.flips) fin[t] ^= 1;
                ref_receive(op.codec, fin, rx);
                bool rd = x.errs2 > 5, rfr = x.errs >= 2 && x.errs2 >= 10 + 40 * (double)x.rate + 1e-4;
                bool same = (!rd && x.errs < 2) || (!rd && x.errs2 < 10) || (rd && rfr && !has_mark(x.str, 'M'));
                if (!same || rx.errs_c4) { if (!div[op.stream]) s.add("probe.routes_may_differ_from_here"); div[op.stream] = true; thread_div = true; }
                if (div[op.stream]) skip |= SK_PCM | SK_STATE;
            } else if (op.stream >= 0 && div[op.stream]) skip |= SK_PCM | SK_STATE;
            // an AMBE frame on a state left by a diverged IMBE frame starts from the codec defaults again, but the thread's noise may have moved
            if (op.stream >= 0 && div[op.stream]) skip |= SK_STR;
            if (thread_div) { skip |= SK_PCM | SK_STATE | SK_STR; if (op.stream >= 0 && op.kind != K_INIT) div[op.stream] = true; }   // the stream may take the thread's noise in
            const char* d = rec_diff(x, y, skip);
            if (d) { report(v, std::string("C12.") + d, x.op, "%s: %s differs between one-call and %s decoding", where(p, x.op).c_str(), d, w ? "alternating" : "layered"); return; }
            s.add(skip ? "oracle.bits_only_compared" : "oracle.calls_compared");
        }
    }
    if (s.n["oracle.calls_compared"] > 3) s.add("nontrivial");
}
static RegProp r12("C12", gen_c12, chk_c12);

// ------------------------------------------------------------------------------------------- C16
static void gen_c16(Rng& q, Plan& p, bool thorough) {
    p.nstreams = q.range(1, 3); if (q.p(.5)) p.variant = "simd";
    mixed_ops(q, p, q.range(4, thorough ? 80 : 40), true);
    int n = (int)p.ops.size();
    for (int i = 0; i < n; i++) if (plan_audible(p.ops[(size_t)i]) && q.p(.25)) {
        static const int kk[9] = {K_QUERY, K_ECC, K_CONV, K_TONE, K_MANUAL, K_SPEECH, K_MOVE, K_ENH, K_SMOOTH}; Op o = p.ops[(size_t)i]; o.kind = kk[q.below(9)]; if (o.kind == K_ECC) o.stream = -1; if (o.kind == K_CONV) o.stream = -1; if (o.kind == K_MANUAL) to_manual(o); if (o.kind == K_TONE && !is_ambe(o.codec)) { o.kind = K_QUERY; } o.a = o.kind == K_TONE ? q.range(0, 163) : (int)q.below(1u << 20); if (o.kind == K_MOVE) o.a = 1;
        p.ops.push_back(o);
    }
    for (int i = n; i < (int)p.ops.size(); i++) std::swap(p.ops[(size_t)i], p.ops[q.below((uint32_t)p.ops.size())]);
    p.knob["alt"] = q.below(1u << 30); p.knob["outfill"] = q.below(256);
}
static void chk_c16(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    ExecOpt o; o.api = api_or(p.variant.c_str()); o.guard = true; o.outfill = 0x33;
    ExecResult a, b;
    o.hooks.after = [&](int i, const Op& op, const OpIO& io) {
        if (op.kind != K_FRAME && op.kind != K_LAYER && op.kind != K_ECC) return;
        // bits no correction or demodulation covers stay as received
        int C = fr_cols(op.codec), R = fr_rows(op.codec);
        for (int r = 0; r < R; r++) for (int k = 0; k < C; k++) {
            bool own;
            if (is_ambe(op.codec)) own = r == 0 || (r == 1 && k < 23);
            else if (op.codec == I72) own = r < 4 || (r < 7 && k < 15);
            else own = (r == 0 && k < 19) || r == 1 || ((r == 2 || r == 3) && k < 23) || ((r == 4 || r == 5) && k < 15);
            if (!own && io.fr_in[r * C + k] != io.fr_out[r * C + k]) { Verdict w; fprintf(stderr, "frame bit %d/%d changed\n", r, k); _Exit(71); }
            (void)i;
        }
    };
    if (!go(p, o, a, v, s, "first arguments")) { if (v.cls == "crash.exit:71") { v.cls = "C16.frame_bits"; v.msg = "a call changed channel bits that no correction or demodulation covers"; } return; }
    Plan q = p; Rng g((uint64_t)p.k("alt", 5));
    static const int odd[8] = {-1, -7, INT_MIN, INT_MAX, 4096, 255, 1 << 24, -65536};
    for (auto& x : q.ops) {
        x.uv = g.p(.7) ? (int)g.below(200) - 20 : odd[g.below(8)];
        if (x.kind == K_DATA && x.codec != A24) x.errs = g.p(.6) ? (int)g.below(7) : odd[g.below(8)];
    }
    ExecOpt o2; o2.api = o.api; o2.guard = true; o2.outfill = (int)p.k("outfill", 0x77);
    if (!go(q, o2, b, v, s, "other advisory arguments and output contents")) return;
    if (a.rec.size() != b.rec.size()) { report(v, "C16.lost", -1, "calls lost"); return; }
    for (size_t i = 0; i < a.rec.size(); i++) {
        const char* d = rec_diff(a.rec[i], b.rec[i], p.ops[(size_t)a.rec[i].op].kind == K_DATA ? SK_ERRS : 0);
        if (d) { report(v, std::string("C16.") + d, a.rec[i].op, "%s: %s depends on an advisory argument or on the old contents of an output", where(p, a.rec[i].op).c_str(), d); return; }
        s.add("oracle.calls_compared");
    }
    s.add("fault.stale_output_buffers"); s.add("nontrivial");
}
static RegProp r16("C16", gen_c16, chk_c16);

// ------------------------------------------------------------------------------------------- C20
static void gen_c20(Rng& q, Plan& p, bool thorough) {
    p.nstreams = q.range(1, 2);
    mixed_ops(q, p, q.range(4, thorough ? 90 : 45), true);
    for (auto& o : p.ops) if (plan_audible(o) && q.p(.05)) { o.kind = q.p(.25) ? K_ENH : q.p(.5) ? K_SPEECH : K_MANUAL; if (o.kind == K_MANUAL) to_manual(o); }
    if (q.p(.5)) for (int i = 0; i < 3; i++) { Op o = mk(K_CONV); o.a = (int)q.below(1u << 30); p.ops.insert(p.ops.begin() + q.below((uint32_t)p.ops.size()), o); }
}
// decisions exactly, amplitudes to within rounding; soft: a smoothing decision that rounding may legitimately flip
static const char* state_diff(const mbe_parms& x, const mbe_parms& y, bool& soft, double drift) {
    auto close = [](double p, double q, double r, double a) { return fabs(p - q) <= r * std::max(fabs(p), fabs(q)) + a; };
    // impossible error counts can turn the amplitude limit, then the amplitudes, negative: enhancement of those is no number in either build
    for (int l = 0; l <= 56; l++) if ((x.Ml[l] != x.Ml[l] || y.Ml[l] != y.Ml[l]) && x.amplitudeThreshold < 0 && y.amplitudeThreshold < 0) { soft = true; return "amplitudes"; }
    if (!close(x.w0, y.w0, 1e-6, 0)) return "pitch"; if (x.L != y.L || x.K != y.K) return "band count"; if (!close(x.gamma, y.gamma, 1e-5, 1e-5)) return "gain";
    if (x.repeat != y.repeat || x.repeatCount != y.repeatCount || x.errorCountTotal != y.errorCountTotal || x.errorCount4 != y.errorCount4 || !close(x.errorRate, y.errorRate, 1e-5, 1e-8)) return "concealment counters";
    if (x.un != y.un || x.swn != y.swn) return "tone phase"; if (x.noiseSeed != y.noiseSeed || memcmp(x.noiseOverlap, y.noiseOverlap, sizeof x.noiseOverlap)) return "noise position";
    if (x.amplitudeThreshold != y.amplitudeThreshold || x.mutingThreshold != y.mutingThreshold) return "thresholds";
    for (int l = 0; l <= 56; l++) { if (!close(x.log2Ml[l], y.log2Ml[l], 1e-5, 1e-4)) return "prediction memory"; if (fabs(remainder((double)x.PSIl[l] - (double)y.PSIl[l], 2 * M_PI)) > 2e-3 + drift * l) return "phases"; }
    if (!close(x.localEnergy, y.localEnergy, 1e-3, 0)) return "energy";
    double mx = 0; for (int l = 0; l <= 56; l++) mx = std::max(mx, (double)fabsf(x.Ml[l]));
    for (int l = 0; l <= 56; l++) if (!close(x.Ml[l], y.Ml[l], 2e-3, 1e-5 * mx + 1e-6)) { { if (getenv("SIM_DEBUG")) { for (int j = 1; j <= x.L; j++) printf("Ml[%d] %.9g %.9g log2 %.9g\n", j, (double)x.Ml[j], (double)y.Ml[j], (double)x.log2Ml[j]); printf("w0 %g L %d gamma %g\n", (double)x.w0, x.L, (double)x.gamma); fflush(stdout); } return "amplitudes"; } }
    // voicing may be forced by the smoothing threshold: rounding decides when an amplitude sits on it
    double vm = x.errorRate <= .0125f && x.errorCount4 == 0 ? 45.255 * pow((double)x.localEnergy, .375) / exp(277.26 * (double)x.errorRate) : 1.414 * pow((double)x.localEnergy, .375);
    for (int l = 0; l <= 56; l++) if (x.Vl[l] != y.Vl[l]) { if (close(x.Ml[l], vm, 5e-3, 0) || x.localEnergy != y.localEnergy) { soft = true; for (int j = 1; j <= 56; j++) if (x.Vl[j] != y.Vl[j] && !(fabs((double)x.Ml[j] / vm - 1) < .5)) soft = false; } return "voicing"; }
    for (int l = 1; l <= 56; l++) if (fabs(remainder((double)x.PHIl[l] - (double)y.PHIl[l], 2 * M_PI)) > 2e-3 + drift * l) return "phases";
    return nullptr;
}
static void chk_builds(const Plan& p, Verdict& v, Stats& s, const char* P, const char* na, const char* nb, int host = -1) {
    std::string C(P); C += "."; double wide = C != "C20." ? 5 : 1; count_plan(p, s);
    in_child("both builds", v, s, [&](Verdict& w, Stats& t) {
        std::vector<Snap> a(p.ops.size()), b(p.ops.size()); ExecResult ra, rb; ExecOpt oa, ob;
        oa.api = api_or(na); ob.api = api_or(host >= 0 ? na : nb); ob.host = host; snap_hook(oa, a); snap_hook(ob, b);
        exec_plan(p, oa, ra); exec_plan(p, ob, rb);
        t.add("exec.ops", (long long)(ra.rec.size() + rb.rec.size()));
        for (auto& y : rb.rec) if (y.env) { report(w, C + "environment", y.op, "%s: the call returned with the host's %s changed", where(p, y.op).c_str(), y.env); return; }
        std::map<int, bool> amb; std::map<int, double> dr; // dr: phase the two builds may have drifted apart per harmonic number, by what their pitches differ in the last bit
        for (size_t i = 0; i < ra.rec.size() && i < rb.rec.size(); i++) {
            const Rec &x = ra.rec[i], &y = rb.rec[i]; size_t k = (size_t)x.op; const Op& op = p.ops[k];
            if (op.kind == K_CONV) { if (x.h_pcm != y.h_pcm) { report(w, C + "conversion", x.op, "%s: sample conversion differs between builds", where(p, x.op).c_str()); return; } continue; }
            const char* d = rec_diff(x, y, SK_PCM | SK_STATE);
            if (op.stream >= 0) {
                if (op.kind == K_INIT) amb[op.stream] = false, dr[op.stream] = 0;
                if (C != "C20.") { double mp = 0; for (int l = 1; l <= 56; l++) mp = std::max(mp, (double)fabsf(a[k].post.cur.PSIl[l])); dr[op.stream] += 160 * fabs((double)a[k].post.cur.w0 - (double)b[k].post.cur.w0) + mp * 1.2e-7 / 56; }
                if (amb[op.stream]) { t.add("skip.after_rounding_sensitive_decision"); if (d && strcmp(d, "status trace")) { report(w, C + d, x.op, "%s: %s differs between the %s and the %s build", where(p, x.op).c_str(), d, na, nb); return; } continue; }
                bool soft = false; const char* e = nullptr;
                const mbe_parms* pa[3] = {&a[k].post.cur, &a[k].post.prev, &a[k].post.enh}; const mbe_parms* pb[3] = {&b[k].post.cur, &b[k].post.prev, &b[k].post.enh};
                for (int m = 0; m < 3 && !e; m++) e = state_diff(*pa[m], *pb[m], soft, dr[op.stream]);
                if (!d && e && soft) { amb[op.stream] = true; continue; }
                if (!d) d = e;
            }
            if (d) { report(w, C + d, x.op, "%s: %s differs between the %s and the %s build", where(p, x.op).c_str(), d, na, nb); return; }
            double amp = a[k].loud;
            double tol = (1e-4 * wide + (op.stream >= 0 ? 56 * dr[op.stream] : 0)) * std::min(amp, 3e5) + 2e-2;
            for (size_t n = 0; n < a[k].f.size(); n++) if (!(fabs((double)a[k].f[n] - (double)b[k].f[n]) <= tol)) { report(w, C + "audio", x.op, "%s: sample %zu is %g in the %s and %g in the %s build (allowed difference %g)", where(p, x.op).c_str(), n, (double)a[k].f[n], na, (double)b[k].f[n], nb, tol); return; }
            for (size_t n = 0; n < a[k].s.size(); n++) if (!(abs(a[k].s[n] - b[k].s[n]) <= 7 * tol + 1)) { report(w, C + "audio", x.op, "%s: sample %zu is %d in the %s and %d in the %s build", where(p, x.op).c_str(), n, a[k].s[n], na, b[k].s[n], nb); return; }
            const mbe_parms* pa[3] = {&a[k].post.cur, &a[k].post.prev, &a[k].post.enh}; const mbe_parms* pb[3] = {&b[k].post.cur, &b[k].post.prev, &b[k].post.enh};
            for (int m = 0; m < 3; m++) { double mx = 1; for (int n = 0; n < 256; n++) mx = std::max(mx, (double)fabsf(pa[m]->previousUw[n])); for (int n = 0; n < 256; n++) if (!(fabs((double)pa[m]->previousUw[n] - (double)pb[m]->previousUw[n]) <= wide * (1e-4 * mx + 1e-3))) { report(w, C + "overlap", x.op, "%s: retained unvoiced overlap differs between builds (%g, %g)", where(p, x.op).c_str(), (double)pa[m]->previousUw[n], (double)pb[m]->previousUw[n]); return; } }
            t.add("oracle.calls_compared");
        }
        t.add("nontrivial");
    });
}
static void chk_c20(const Plan& p, Verdict& v, Stats& s) { chk_builds(p, v, s, "C20", "scalar", "simd"); }
static RegProp r20("C20", gen_c20, chk_c20);

// ------------------------------------------------------------------------------------------- C26
static void gen_c26(Rng& q, Plan& p, bool thorough) { gen_c20(q, p, thorough); p.variant = q.p(.5) ? "fmath" : "fsimd"; }
static void chk_c26(const Plan& p, Verdict& v, Stats& s) { chk_builds(p, v, s, "C26", "scalar", p.variant.c_str()); }
static RegProp r26("C26", gen_c26, chk_c26);

// ------------------------------------------------------------------------------------------- C27
static void gen_c27(Rng& q, Plan& p, bool thorough) {
    if (q.p(.35)) p.variant = "simd";
    p.nstreams = q.range(1, 2); mixed_ops(q, p, q.range(2, thorough ? 60 : 24), true);
    for (auto& o : p.ops) if (plan_audible(o) && q.p(.05)) { o.kind = q.p(.25) ? K_ENH : q.p(.5) ? K_SPEECH : K_MANUAL; if (o.kind == K_MANUAL) to_manual(o); }
    for (int i = 0, n = q.p(.5) ? q.range(1, 3) : 0; i < n; i++) { Op o = mk(K_CONV); o.a = (int)q.below(1u << 30); p.ops.insert(p.ops.begin() + q.below((uint32_t)p.ops.size()), o); }
    for (int i = 0, n = q.p(.5) ? q.range(1, 3) : 0; i < n; i++) p.ops.insert(p.ops.begin() + q.below((uint32_t)p.ops.size() + 1), dump_op(q, ""));
    double r = q.uni(); int h = 0;
    if (r < .35) h = HOST_FTZ; else if (r < .5) h = HOST_X87; else if (r < .75) h = HOST_ROUND | (int)q.below(3) << 8 | (q.p(.5) ? HOST_FTZ : 0);
    p.knob["host"] = h;
    if (q.p(.3)) { int n = q.range(1, 3); for (int i = 0; i < n; i++) p.allocfail.push_back(q.range(0, 3)); }
}
static void chk_c27(const Plan& p, Verdict& v, Stats& s) {
    int h = (int)p.k("host"); const char* var = p.variant == "simd" ? "simd" : "scalar";
    s.add(h & HOST_ROUND ? "env.other_rounding" : h & HOST_FTZ ? "env.denormals_flushed" : h & HOST_X87 ? "env.x87_double" : "env.default");
    s.sig("host_environments", (uint64_t)h);
    if (!(h & HOST_ROUND) && p.allocfail.empty()) { chk_builds(p, v, s, "C27", var, "host with another environment", h); return; }
    count_plan(p, s);
    in_child("watched run", v, s, [&](Verdict& w, Stats& t) {
        ExecResult r; ExecOpt o; o.api = api_or(var); o.host = h; o.allocfail = !p.allocfail.empty(); exec_plan(p, o, r);
        t.add("exec.ops", (long long)r.rec.size());
        for (auto& y : r.rec) if (y.env) { report(w, "C27.environment", y.op, "%s: the call returned with the host's %s changed", where(p, y.op).c_str(), y.env); return; }
        for (auto& y : r.rec) if (plan_audible(p.ops[(size_t)y.op]) && !(y.peak <= 4447.5f)) { report(w, "C27.range", y.op, "%s: a sample of %g under another rounding mode or without memory exceeds 95%% of full scale", where(p, y.op).c_str(), (double)y.peak); return; }
        t.add("oracle.calls_watched", (long long)r.rec.size()); t.add("nontrivial");
    });
}
static RegProp r27("C27", gen_c27, chk_c27);
