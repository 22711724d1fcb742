// Properties decided by the reference decoder (sim/ref.cpp), by range invariants and by paired runs that use it.
#include "ref.h"
#include <limits.h>
#include <math.h>
#include <stdlib.h>
#include <algorithm>
#include <thread>

typedef std::function<void(int, const Op&, const OpIO&)> Extra;
static void model_run(const Plan& p, const char* prop, unsigned cats, Verdict& v, Stats& s, bool multi = false, bool guard = false) {
    in_child("decoding", v, s, [&](Verdict& w, Stats& t) {
        RefCtx c; c.p = &p; c.prop = prop; c.cats = cats; c.v = &w; c.s = &t;
        ExecOpt o; o.api = api_or(p.variant.c_str()); c.tones = o.api->tones; o.multi = multi; o.guard = guard;
        o.hooks = ref_hooks(c);
        ExecResult r; exec_plan(p, o, r);
        if (multi) { t.sig("schedules", r.sr.trace_hash); for (uint64_t x : r.sr.points) t.sig("preemption_points", x); t.add("sched.switches", r.sr.switches); t.add("sched.midcall_preemptions", r.sr.midcall); if (r.inconclusive) t.add("runs.inconclusive"); }
        if (!w.bad() && r.v.bad()) w = r.v;
    });
}
static void strip(Plan& p) { p.ops.erase(std::remove_if(p.ops.begin(), p.ops.end(), [](const Op& o) { return o.kind == K_SPEECH || o.kind == K_TONE; }), p.ops.end()); }
static void feasible(Plan& p) { for (auto& o : p.ops) { o.errs2 = std::min(o.errs2, 20); o.errs = std::min(o.errs, o.errs2); } }   // counts a channel decoder can report
static Op extra_op(Rng& q, int stream) {
    int r = (int)q.below(6); Op o = r == 0 ? mk(K_INIT, stream) : r == 1 ? mk(K_SEED) : r == 2 ? mk(K_COMFORT) : r == 3 ? mk(K_MOVE, stream) : r == 4 ? mk(K_SILENCE) : mk(K_COMFORT);
    o.a = r == 1 && q.p(.15) ? 0 : (int)q.next(); o.shorty = q.p(.5); return o;
}
static void ops_for(Rng& q, Plan& p, int n, int nstreams, double extra, double p_switch, const std::function<void(Traffic&)>& tune = nullptr) {
    p.nstreams = nstreams;
    std::vector<Traffic> tr((size_t)nstreams); for (auto& x : tr) { x.swarm(q, (int)q.below(4)); if (tune) tune(x); }
    int sp = q.p(.03) ? q.range(0, n - 1) : -1;
    for (int k = 0; k < n; k++) {
        size_t w = q.below((uint32_t)nstreams);
        if (k == sp) spell(q, p.ops, (int)w, tr[w].codec);
        if (q.p(extra)) p.ops.push_back(extra_op(q, (int)w));
        if (q.p(p_switch)) { tr[w].swarm(q, (int)q.below(4)); if (tune) tune(tr[w]); }
        p.ops.push_back(tr[w].frame(q, (int)w));
    }
    strip(p);
}
// some calls at the lower level: decode and enhance, synthesise what is prepared (at once, later, or again), render a tone
static void layered(Rng& q, Plan& p, double pr) {
    if (!q.p(pr)) return;
    double f = .02 + .3 * q.uni(); std::vector<Op> out;
    for (auto& o : p.ops) {
        if (!plan_audible(o) || !q.p(f)) { out.push_back(o); continue; }
        double r = q.uni(); Op x = o; x.tid = o.tid;
        if (r < .12) { out.push_back(o); int n = q.range(1, 4); while (n--) out.push_back(touch(q, o.stream, o.tid)); }
        else if (r < .28) { out.push_back(o); x.kind = K_SPEECH; x.flips.clear(); out.push_back(x); }
        else if (r < .42) { out.push_back(o); Op y = mk(K_TONE, o.stream, o.tid); y.codec = q.p(.5) ? A24 : A25; y.data = gen_bits(q, y.codec, q.p(.8) ? TONE : RANDOM, ""); y.a = q.p(.8) ? q.range(5, 122) : q.range(-3, 300); out.push_back(y); }
        else if (r < .65) { to_manual(x); out.push_back(x); }
        else { to_manual(x); x.errs = 1; out.push_back(x); if (q.p(.2)) out.push_back(o); if (q.p(.15)) out.push_back(touch(q, o.stream, o.tid)); if (q.p(.1)) out.push_back(mk(q.p(.5) ? K_MOVE : K_CKPT, o.stream, o.tid)); if (q.p(.05)) out.push_back(mk(K_RESTORE, o.stream, o.tid)); x.errs = 2; if (q.p(.85)) out.push_back(x); }
    }
    // a prepared set waits while other streams go on
    for (size_t i = 0; i + 1 < out.size(); i++) if (out[i].kind == K_MANUAL && out[i].errs == 2 && out[i + 1].stream != out[i].stream && q.p(.5)) std::swap(out[i], out[i + 1]);
    p.ops = out; feasible(p);
}
static void tail_stretch(Rng& q, Plan& p, double pr) {   // sometimes a long stretch, then ordinary traffic again
    if (!q.p(pr)) return;
    int st = (int)q.below((uint32_t)p.nstreams), codec = (int)q.below(4);
    if (q.p(.65)) stretch(q, p.ops, st, codec); else for (int k = q.range(1, 2); k > 0; k--) spell(q, p.ops, st, codec);
    codec = p.ops.back().codec;
    Traffic t; t.swarm(q, codec); if (q.p(.5)) t.calm(); int n = q.range(0, 12); for (int i = 0; i < n; i++) p.ops.push_back(t.frame(q, st));
}
static int len_of(Rng& q, bool thorough) { return q.p(.1) ? q.range(1, 4) : q.p(.9) ? q.range(5, 25) : q.range(25, thorough ? 150 : 70); }

// ------------------------------------------------------------------------------------------- C06
struct BlkInfo { int row, lo, n, t; };
static std::vector<BlkInfo> blks(int codec) {
    if (is_ambe(codec)) return {{0, 1, 23, 3}, {1, 0, 23, 3}};
    if (codec == I72) return {{0, 0, 23, 3}, {1, 0, 23, 3}, {2, 0, 23, 3}, {3, 0, 23, 3}, {4, 0, 15, 1}, {5, 0, 15, 1}, {6, 0, 15, 1}};
    return {{0, 1, 18, 3}, {1, 1, 23, 3}, {2, 0, 23, 3}, {3, 0, 23, 3}, {4, 0, 15, 1}, {5, 0, 15, 1}};
}
// correctable: at most t flips per block; *expect gets the parameter bits a perfect receiver delivers
static bool correctable(const Op& op, std::string* expect) {
    if (op.kind != K_FRAME && op.kind != K_LAYER) return false;
    int C = fr_cols(op.codec);
    for (auto& b : blks(op.codec)) { int n = 0; for (int f : op.flips) if (f / C == b.row && f % C >= b.lo && f % C < b.lo + b.n) n++; if (n > b.t) return false; }
    // unprotected part: re-encode, flip, read back
    std::string d = op.data; char dv[96]; for (size_t i = 0; i < d.size(); i++) dv[i] = d[i] == '1';
    std::vector<char> fr((size_t)fr_bits(op.codec)), fc; ref_encode(op.codec, dv, fr.data());
    for (int f : op.flips) { bool prot = false; for (auto& b : blks(op.codec)) if (f / C == b.row) prot = true; if (!prot) fr[(size_t)f] ^= 1; }
    RefRx rx; ref_receive(op.codec, fr.data(), rx);
    expect->assign(d.size(), '0'); for (size_t i = 0; i < d.size(); i++) (*expect)[i] = (char)('0' + rx.d[i]);
    bool un = false; for (int f : op.flips) { bool prot = false; for (auto& b : blks(op.codec)) if (f / C == b.row) prot = true; un |= !prot; }
    if (!un && *expect != d) { fprintf(stderr, "reference encoder and receiver disagree\n"); _Exit(3); }
    return true;
}
static void gen_c06(Rng& q, Plan& p, bool thorough) {
    if (q.p(.3)) p.variant = "simd";
    p.nstreams = 1; int codec = (int)q.below(4); Traffic t; t.swarm(q, codec); t.p_data = 0; t.p_layer = q.p(.5) ? 0 : .3;
    bool heavy = q.p(.25); int mode = (int)q.below(4);
    int n = len_of(q, thorough);
    for (int i = 0; i < n; i++) {
        Op o = t.frame(q, 0);
        if (o.kind == K_DATA) o.kind = K_FRAME;
        if (!heavy || q.p(.8)) {
            int dm = mode == 0 ? D_FEW : mode == 1 ? D_EDGE : mode == 2 ? D_UNPROT : (int)(q.p(.3) ? D_NONE : q.p(.5) ? D_FEW : q.p(.7) ? D_EDGE : D_UNPROT);
            o.flips = gen_flips(q, codec, dm);
            if (dm == D_EDGE && q.p(.3)) { auto u = gen_flips(q, codec, D_UNPROT); for (int f : u) if (std::find(o.flips.begin(), o.flips.end(), f) == o.flips.end()) o.flips.push_back(f); std::sort(o.flips.begin(), o.flips.end()); }
            o.note = o.note.substr(0, o.note.find('/')) + "/" + dmg_name[dm];
        }
        p.ops.push_back(o);
    }
}
static void chk_c06(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    std::vector<std::string> exp(p.ops.size()); std::vector<char> cor(p.ops.size(), 0);
    Plan clean = p;
    for (size_t i = 0; i < p.ops.size(); i++) {
        cor[i] = correctable(p.ops[i], &exp[i]);
        if (cor[i]) { clean.ops[i].data = exp[i]; clean.ops[i].flips.clear(); s.add("oracle.correctable_frames"); if (!p.ops[i].flips.empty()) s.add("nontrivial"); }
    }
    ExecResult a, b;
    in_child("damaged run", v, s, [&](Verdict& w, Stats& t) {
        RefCtx c; c.p = &p; c.prop = "C06"; c.cats = RC_ECC; c.v = &w; c.s = &t;
        ExecOpt o; o.api = api_or(p.variant.c_str());
        o.hooks.after = [&](int i, const Op& op, const OpIO& io) {
            if (w.bad()) return;
            if (cor[(size_t)i]) for (int k = 0; k < nbits(op.codec); k++) if (io.d[k] != exp[(size_t)i][(size_t)k] - '0') { report(w, "C06.bits", i, "call %d (%s %s, %s): parameter bit %d decoded as %d, transmitted %c, though every block was correctable", i, kind_name[op.kind], codec_name[op.codec], op.note.c_str(), k, io.d[k], exp[(size_t)i][(size_t)k]); return; }
            RefRx rx; ref_receive(op.codec, io.fr_in, rx);
            c.cur_op = i;
            for (int k = 0; k < nbits(op.codec); k++) if (rx.d[k] != io.d[k]) { c.mis(RC_ECC, "bits", "decoded bit %d is %d, the nearest codewords give %d", k, io.d[k], rx.d[k]); return; }
            if (io.errs != rx.errs || io.errs2 != rx.errs2) { c.mis(RC_ECC, "error_count", "reported errors %d/%d, flipped %d/%d", io.errs, io.errs2, rx.errs, rx.errs2); return; }
            t.add("oracle.frames_checked"); t.add("oracle.corrected_bits", rx.errs2);
        };
        ExecResult r; exec_plan(p, o, r);
    });
    if (v.bad()) return;
    ExecOpt o; o.api = api_or(p.variant.c_str());
    if (!go(p, o, a, v, s, "damaged run") || !go(clean, o, b, v, s, "run over a clean channel")) return;
    bool gated = false;
    for (size_t i = 0; i < a.rec.size() && i < b.rec.size() && !gated; i++) {
        const Rec &x = a.rec[i], &y = b.rec[i]; const Op& op = p.ops[(size_t)x.op];
        if (strcmp(x.str, y.str) || (op.codec == A24 && (x.b0 & 0x7E) == 0x7E && x.errs2 > 0) || (op.codec == A25 && x.errs2 >= 6)) { gated = true; s.add("probe.gate_reached"); break; }
        if (x.h_voice != y.h_voice) { report(v, "C06.voice", x.op, "call %d (%s %s, %s): the stream's voice parameters differ from those over a clean channel", x.op, kind_name[op.kind], codec_name[op.codec], op.note.c_str()); return; }
        s.add("oracle.voice_compared");
    }
}
static RegProp r06("C06", gen_c06, chk_c06);

// ------------------------------------------------------------------------------------------- C07
static void gen_c07(Rng& q, Plan& p, bool thorough) {
    if (q.p(.5)) p.variant = "simd";
    p.nstreams = q.range(1, 3); int n = len_of(q, thorough);
    std::vector<Traffic> tr((size_t)p.nstreams); for (auto& x : tr) x.swarm(q, (int)q.below(4));
    bool wild = q.p(.5);
    for (int k = 0; k < n; k++) {
        size_t w = q.below((uint32_t)p.nstreams); double r = q.uni();
        if (q.p(.1)) tr[w].swarm(q, (int)q.below(4));
        if (wild) { for (double& x : tr[w].w) x = 1; }
        if (r < .06) p.ops.push_back(extra_op(q, (int)w));
        else if (r < .09) { Op o = mk(K_ECC); o.codec = (int)q.below(4); o.a = (int)q.next(); o.data = gen_bits(q, o.codec, RANDOM, ""); o.flips = gen_flips(q, o.codec, D_GARBAGE); p.ops.push_back(o); }
        else if (r < .11) { Op o = mk(K_CONV); o.a = (int)q.next(); p.ops.push_back(o); }
        else if (r < .13) p.ops.push_back(mk(K_QUERY, (int)w));
        else if (r < .16) { Op o = mk(K_TONE, (int)w); o.codec = q.p(.5) ? A24 : A25; o.data = gen_bits(q, o.codec, q.p(.5) ? TONE : RANDOM, ""); o.a = o.codec == A24 ? (q.p(.2) ? q.range(-5, 400) : q.range(0, 255)) : 0; p.ops.push_back(o); }
        else if (r < .17) p.ops.push_back(touch(q, (int)w));
        else if (r < .19) { Op o = mk(K_SPEECH, (int)w); o.shorty = q.p(.5); o.uv = (int)q.below(100); p.ops.push_back(o); }
        else if (r < .23) { Op o = mk(K_MANUAL, (int)w); o.codec = (int)q.below(4); o.data = gen_bits(q, o.codec, (int)q.below(NCLS), ""); o.shorty = q.p(.5); p.ops.push_back(o); }
        else {
            Op o = tr[w].frame(q, (int)w);
            if (o.kind == K_DATA && q.p(.1)) { o.errs2 = q.logu(1, 3000); o.errs = q.range(0, 40); }
            if (q.p(.05)) o.uv = (int)q.next() % 1000;
            p.ops.push_back(o);
        }
    }
}
static void chk_c07(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    ExecOpt o; o.api = api_or(p.variant.c_str()); o.guard = true; o.outfill = (int)(0x21 + p.seed % 0x5E);
    ExecResult r; if (!go(p, o, r, v, s, "decoding")) return;
    if (r.rec.size() != p.ops.size()) { report(v, "C07.lost", -1, "%zu of %zu calls returned", r.rec.size(), p.ops.size()); return; }
    if (r.bad_free) { report(v, "C07.bad_free", -1, "a block was released twice or never allocated"); return; }
    s.add("oracle.calls_sanitised", (long long)r.rec.size());
    if (r.rec.size() > 3) s.add("nontrivial");
}
static RegProp r07("C07", gen_c07, chk_c07);

// ------------------------------------------------------------------------------------------- C08
static const char* bad_set(const mbe_parms& m, char* b, size_t n, double max_rate, int max_err) {
#define R(c, ...) do { if (!(c)) { snprintf(b, n, __VA_ARGS__); return b; } } while (0)
    R(m.L >= 1 && m.L <= 56, "%d bands", m.L);
    R(m.K >= 0 && m.K <= 12, "%d voicing groups", m.K);
    R(m.w0 >= 0 && m.w0 <= 3.1416, "pitch %g", m.w0);
    R(fabs(m.gamma) < 100, "gain %g", m.gamma);
    for (int l = 1; l <= 56; l++) {
        R(m.Vl[l] == 0 || m.Vl[l] == 1, "band %d voicing %d", l, m.Vl[l]);
        R(m.Ml[l] >= 0 && m.Ml[l] <= 1e13, "band %d amplitude %g", l, m.Ml[l]);
        R(fabs(m.log2Ml[l]) <= 64, "band %d log amplitude %g", l, m.log2Ml[l]);
        R(fabs(m.PHIl[l]) <= 2e4 && fabs(m.PSIl[l]) <= 2e4, "band %d phases %g %g", l, m.PHIl[l], m.PSIl[l]);
    }
    R(fabs(m.log2Ml[0]) <= 64, "band 0 log amplitude %g", m.log2Ml[0]);
    R(m.localEnergy >= 0 && m.localEnergy <= 1e26, "local energy %g", m.localEnergy);
    R(m.errorRate >= 0 && m.errorRate <= max_rate, "error rate %g", m.errorRate);
    R(m.repeat >= 0 && m.repeat <= 4 && m.repeatCount >= 0 && m.repeatCount <= 4, "repeat counts %d %d", m.repeat, m.repeatCount);
    R(m.errorCountTotal >= 0 && m.errorCountTotal <= max_err && m.errorCount4 >= 0 && m.errorCount4 <= 4, "error counts %d %d", m.errorCountTotal, m.errorCount4);
    R(fabs(m.mutingThreshold - .0875) < 1e-6 || fabs(m.mutingThreshold - .096) < 1e-6, "muting threshold %g", m.mutingThreshold);
    R(m.noiseSeed == -1 || (m.noiseSeed >= 0 && m.noiseSeed < 53125 && m.noiseSeed == floorf(m.noiseSeed)), "noise position %g", m.noiseSeed);
    for (int i = 0; i < 96; i++) R(m.noiseOverlap[i] >= 0 && m.noiseOverlap[i] < 53125, "carried noise %g", m.noiseOverlap[i]);
    for (int i = 0; i < 256; i++) R(fabs(m.previousUw[i]) < 1e16, "retained unvoiced output %g", m.previousUw[i]);
#undef R
    return nullptr;
}
static void gen_c08(Rng& q, Plan& p, bool thorough) {
    if (q.p(.4)) p.variant = "simd";
    bool loud = q.p(.5);
    ops_for(q, p, len_of(q, thorough), q.range(1, 2), .05, .03, [&](Traffic& t) { if (loud) { t.w[EXTREME] += 2; t.w[HELD] += 1; } });
    if (q.p(.3)) {   // one frame held for long, sometimes interrupted
        int codec = (int)q.below(4); std::string d = gen_bits(q, codec, q.p(.7) ? EXTREME : RANDOM, ""); int n = q.range(10, 60);
        for (int i = 0; i < n; i++) { Op o = mk(K_FRAME, 0); o.codec = codec; o.data = d; o.note = "held/none"; o.shorty = q.p(.2); if (q.p(.08)) { o.flips = gen_flips(q, codec, D_HEAVY); o.note = "held/heavy"; } p.ops.push_back(o); }
    }
    if (q.p(.1)) stretch(q, p.ops, 0, (int)q.below(4));
    p.knob["clean_from"] = (long long)p.ops.size();
    int tail = q.p(.3) ? 70 : 0; Traffic c; c.calm(); c.codec = q.p(.5) ? p.ops.back().codec : (int)q.below(4); c.p_data = 0; c.p_layer = 0;
    for (int s = 0; s < p.nstreams && tail; s++) { c.last.clear(); for (int i = 0; i < tail; i++) { Op o = c.frame(q, s); o.note = "voice/none"; p.ops.push_back(o); } }
    feasible(p);
}
static void chk_c08(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    int maxe = 15; for (auto& o : p.ops) if (o.kind == K_DATA) maxe = std::max(maxe, o.errs2);
    double maxr = 20 * .001064 * maxe * 1.0001;
    std::vector<double> peak(p.ops.size(), 0); std::vector<char> muted(p.ops.size(), 0);
    size_t cf = (size_t)p.k("clean_from");
    in_child("decoding", v, s, [&](Verdict& w, Stats& t) {
        std::vector<double> pk[2];
        for (int run = 0; run < 2 && !w.bad(); run++) {
            // second run: only the clean tail, on fresh streams
            Plan q = p;
            if (run == 1) { if (cf >= p.ops.size()) break; q.ops.erase(q.ops.begin(), q.ops.begin() + (long)cf); for (auto& o : q.ops) if (o.note != "voice/none" || o.kind != K_FRAME) return; }
            pk[run].assign(q.ops.size(), 0);
            ExecOpt o; o.api = api_or(p.variant.c_str());
            o.hooks.after = [&](int i, const Op& op, const OpIO& io) {
                if (w.bad()) return;
                double m = 0; char b[128];
                for (int n = 0; n < 160; n++) {
                    double x = io.pcmf ? io.pcmf[n] : io.pcms ? io.pcms[n] / 7.0 : 0;
                    if (!(fabs(x) <= 4446.96)) { report(w, "C08.sample", i, "call %d (%s %s, %s): sample %d is %g", i, kind_name[op.kind], codec_name[op.codec], op.note.c_str(), n, x); return; }
                    m = std::max(m, fabs(x));
                }
                pk[run][(size_t)i] = m;
                if (m >= 4446.9) t.add("probe.full_scale_frames");
                if (op.stream >= 0) {
                    const mbe_parms* ps[3] = {&io.post->cur, &io.post->prev, &io.post->enh}; static const char* nm[3] = {"current", "previous", "enhanced"};
                    for (int k = 0; k < 3; k++) if (const char* e = bad_set(*ps[k], b, sizeof b, maxr, maxe)) { report(w, "C08.state", i, "call %d (%s %s, %s): %s set holds %s", i, kind_name[op.kind], codec_name[op.codec], op.note.c_str(), nm[k], e); return; }
                    double mx = 0; for (int l = 1; l <= ps[1]->L; l++) mx = std::max(mx, (double)ps[1]->log2Ml[l]); if (mx > 24) t.add("probe.loud_states");
                    t.add("oracle.states_checked");
                }
                g_loghash = hash_bytes(io.post, sizeof *io.post, g_loghash);
            };
            ExecResult r; exec_plan(q, o, r);
            if (!w.bad() && r.v.bad()) w = r.v;
        }
        if (w.bad() || pk[1].empty()) return;
        // recovery: after 50 clean frames the stream is as audible as a fresh one
        std::map<int, std::pair<double, double>> sum; std::map<int, int> cnt;
        for (size_t i = cf; i < p.ops.size(); i++) { int st = p.ops[i].stream; if (++cnt[st] > 55) { sum[st].first += pk[0][i]; sum[st].second += pk[1][i - cf]; } }
        for (auto& k : sum) { if (cnt[k.first] < 65) continue; t.add("oracle.recoveries"); if (k.second.first < .02 * k.second.second) { report(w, "C08.silent", (int)p.ops.size() - 1, "stream %d stays silent: peak sum %g after its history, %g on a fresh stream", k.first, k.second.first, k.second.second); return; } }
    });
    s.add("nontrivial");
}
static RegProp r08("C08", gen_c08, chk_c08);

// ------------------------------------------------------------------------------------------- C09
static void gen_c09(Rng& q, Plan& p, bool thorough) {
    if (q.p(.3)) p.variant = "simd";
    int mode = (int)q.below(3);
    ops_for(q, p, len_of(q, thorough) + 4, q.range(1, 2), .04, .03, [&](Traffic& t) {
        t.p_bad = .05 + .5 * q.uni() * q.uni(); t.p_recover = .05 + .5 * q.uni(); t.p_heavy = q.uni();
        if (mode == 1) { t.w[INVALID] += q.uni(); t.w[ERASURE] += q.uni(); t.w[TONE] += q.uni(); t.w[TONEBAD] += q.uni(); }
        if (mode == 2) { t.p_data = .8; }
    });
    tail_stretch(q, p, .12);
    // runs of one decision
    if (q.p(.4)) {
        size_t at = q.below((uint32_t)p.ops.size()); Op o = p.ops[at];
        if (plan_audible(o)) { int n = q.range(2, 12); for (int i = 0; i < n; i++) { Op x = o; if (x.kind == K_DATA) { x.errs2 = q.range(2, 9); x.errs = q.range(0, 4); } else x.flips = gen_flips(q, x.codec, q.p(.7) ? D_HEAVY : D_C0); x.note = "held/heavy"; p.ops.insert(p.ops.begin() + (long)at, x); } }
    }
    if (q.p(.5)) { double f = .05 + .5 * q.uni(); std::vector<Op> out; for (auto& o : p.ops) { out.push_back(o); if (o.stream >= 0 && q.p(f)) out.push_back(mk(K_QUERY, o.stream, o.tid)); } p.ops = out; }
}
static void chk_c09(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s); s.add("nontrivial");
    model_run(p, "C09", RC_MARK | RC_COUNT | RC_RATE | RC_THRESH | RC_RETAIN | RC_REPEAT | RC_COMFORT, v, s);
}
static RegProp r09("C09", gen_c09, chk_c09);

// ------------------------------------------------------------------------------------------- C13
static void gen_c13(Rng& q, Plan& p, bool thorough) {
    p.variant = q.p(.45) ? "scalar" : q.p(.6) ? "simd" : "notones";
    p.nstreams = 1; int codec = q.p(.5) ? A24 : A25; Traffic t; t.swarm(q, codec);
    t.w[TONE] = 1 + 3 * q.uni(); t.w[TONEBAD] = q.p(.4) ? q.uni() : 0; t.w[VOICE] = q.uni() + .1; if (q.p(.6)) t.w[RANDOM] = t.w[INVALID] = 0;
    if (q.p(.6)) { t.p_bad = .02; t.p_few = .2 * q.uni(); }
    int n = len_of(q, thorough); std::string tone;
    int sp = q.p(.08) ? q.range(0, n - 1) : -1;
    for (int i = 0; i < n; i++) {
        if (i == sp) spell(q, p.ops, 0, codec);
        if (q.p(.03)) { Op o = mk(K_TONE, 0); o.codec = q.p(.5) ? A24 : A25; o.data = gen_bits(q, o.codec, TONE, ""); o.a = q.range(5, 122); p.ops.push_back(o); }
        Op o = t.frame(q, 0);
        if (q.p(.02)) { codec = codec == A24 ? A25 : A24; t.codec = codec; t.last.clear(); }
        bool is = o.note.rfind("tone", 0) == 0;
        if (is && q.p(.6) && tone.size() == o.data.size() && i) { o.data = tone; }   // same tone continued
        if (is) tone = o.data;
        p.ops.push_back(o);
    }
}
static void chk_c13(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    unsigned cats = RC_TONE | RC_RETAIN | RC_MARK;
    in_child("decoding tones", v, s, [&](Verdict& w, Stats& t) {
        RefCtx c; c.p = &p; c.prop = "C13"; c.cats = cats; c.v = &w; c.s = &t;
        ExecOpt o; o.api = api_or(p.variant.c_str()); c.tones = o.api->tones;
        std::vector<Snap> a(p.ops.size()); std::vector<int> act(p.ops.size(), 0);
        o.hooks.after = [&](int i, const Op& op, const OpIO& io) {
            if (w.bad()) return;
            // decisions are judged here only where a tone is involved
            bool tone_frame = (op.codec == A25 || op.codec == A24) && op.stream >= 0;
            c.cats = tone_frame ? cats : (cats & ~(unsigned)RC_MARK);
            ref_step(c, i, op, io); act[(size_t)i] = c.action;
            if (c.action == RA_TONE || c.action == RA_BADTONE_VOICE || c.action == RA_BADTONE_NOISE) t.add("nontrivial");
            if (c.action) t.add(std::string("action.") + ra_name[c.action]);
            Snap& sn = a[(size_t)i]; sn.has = true; sn.post = *io.post; if (io.pcmf) sn.f.assign(io.pcmf, io.pcmf + 160); if (io.pcms) sn.s.assign(io.pcms, io.pcms + 160); sn.str = io.err_str;
            g_loghash = hash_bytes(io.post, sizeof *io.post, g_loghash); if (io.pcmf) g_loghash = hash_bytes(io.pcmf, 640, g_loghash);
        };
        ExecResult r; exec_plan(p, o, r);
        if (!w.bad() && r.v.bad()) w = r.v;
        if (w.bad()) return;
        // the same stream without its tone frames
        Plan q = p; q.ops.clear(); std::vector<size_t> map;
        for (size_t i = 0; i < p.ops.size(); i++) if (act[i] != RA_TONE && p.ops[i].kind != K_TONE) { q.ops.push_back(p.ops[i]); map.push_back(i); }
        std::vector<Snap> b(q.ops.size()); ExecOpt o2; o2.api = o.api; snap_hook(o2, b);
        ExecResult r2; exec_plan(q, o2, r2);
        for (size_t k = 0; k < map.size(); k++) {
            Snap &x = a[map[k]], &y = b[k]; if (!x.has || !y.has) continue;
            mbe_parms* ps[6] = {&x.post.cur, &x.post.prev, &x.post.enh, &y.post.cur, &y.post.prev, &y.post.enh}; for (auto* m : ps) m->swn = m->un = 0;
            const char* what = nullptr;
            if (x.str != y.str) what = "status"; else if (x.f != y.f || x.s != y.s) what = "audio"; else if (memcmp(&x.post.prev, &y.post.prev, sizeof(mbe_parms)) || memcmp(&x.post.enh, &y.post.enh, sizeof(mbe_parms))) what = "retained state";
            if (what) { report(w, "C13.disturbed", (int)map[k], "call %zu (%s %s, %s): %s differs from the same speech without the tone frames", map[k], kind_name[p.ops[map[k]].kind], codec_name[p.ops[map[k]].codec], p.ops[map[k]].note.c_str(), what); return; }
            t.add("oracle.speech_after_tone_compared");
        }
    });
}
static RegProp r13("C13", gen_c13, chk_c13);

// ------------------------------------------------------------------------------------------- C14
static void gen_c14(Rng& q, Plan& p, bool thorough) {
    p.nthreads = q.range(1, 4); p.nstreams = q.range(p.nthreads, p.nthreads + 2);
    std::vector<Traffic> tr((size_t)p.nstreams); std::vector<int> owner((size_t)p.nstreams);
    for (int s = 0; s < p.nstreams; s++) {
        Traffic& t = tr[(size_t)s]; t.swarm(q, (int)q.below(4)); owner[(size_t)s] = s < p.nthreads ? s : (int)q.below((uint32_t)p.nthreads);
        t.w[ERASURE] += 2 * q.uni(); t.w[INVALID] += q.uni(); t.w[TONEBAD] += .5 * q.uni(); t.p_bad = .5; t.p_recover = .1; t.p_heavy = 1;
    }
    int n = q.range(6, thorough ? 90 : 45); int shared_seed = (int)q.next();
    for (int k = 0; k < n; k++) {
        int s = (int)q.below((uint32_t)p.nstreams), tid = owner[(size_t)s]; double r = q.uni();
        Op o;
        if (r < .12) { o = mk(K_SEED, -1, tid); o.a = q.p(.25) ? 0 : q.p(.4) ? shared_seed : rng_seed(q); if (q.p(.3)) { p.ops.push_back(o); o = mk(K_COMFORT, -1, tid); o.shorty = q.p(.5); } }
        else if (r < .3) { o = mk(K_COMFORT, -1, tid); o.shorty = q.p(.4); }
        else { o = tr[(size_t)s].frame(q, s); o.tid = tid; if (o.kind == K_DATA && !is_ambe(o.codec) && q.p(.5)) { o.errs2 = q.range(20, 59); } }
        if (o.kind == K_MANUAL || o.kind == K_SPEECH) continue;
        p.ops.push_back(o);
        if (q.p(.04) && p.nthreads > 1) owner[(size_t)s] = (int)q.below((uint32_t)p.nthreads);
    }
    if (q.p(.06)) {   // a thread that stays muted for long
        int tid = (int)q.below((uint32_t)p.nthreads), m = q.p(.1) ? q.range(600, 1200) : q.range(60, 330); bool sh = q.p(.3);
        for (int k = 0; k < m; k++) { Op o = mk(K_COMFORT, -1, tid); o.shorty = sh; p.ops.push_back(o); }
    }
    add_sched(q, p, q.range(10, thorough ? 300 : 120), q.p(.4));
}
static void chk_c14(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    model_run(p, "C14", RC_COMFORT, v, s, true);
    int th = 0; for (auto& o : p.ops) th = std::max(th, o.tid); if (th > 0) s.add("nontrivial");
}
static RegProp r14("C14", gen_c14, chk_c14);

// ------------------------------------------------------------------------------------------- C15
static void gen_c15(Rng& q, Plan& p, bool thorough) {
    if (q.p(.3)) p.variant = "simd";
    p.nstreams = 1; int legs = q.range(2, thorough ? 8 : 5); int codec = (int)q.below(4);
    bool seeded = q.p(.5); p.knob["seeded"] = seeded;
    for (int g = 0; g < legs; g++) {
        Traffic t; t.swarm(q, codec); t.p_bad = .3 * q.uni(); t.p_recover = .1 + .5 * q.uni(); if (q.p(.3)) t.w[EXTREME] += 1;
        int n = q.p(.2) ? 1 : q.range(1, 14);
        if (seeded && is_ambe(codec) && g) { Op o = mk(K_SEED); o.a = (int)q.next(); p.ops.push_back(o); }
        for (int i = 0; i < n; i++) p.ops.push_back(t.frame(q, 0));
        if (q.p(.1)) p.ops.push_back(mk(K_MOVE, 0));
        codec = q.p(.8) ? (is_ambe(codec) ? (q.p(.5) ? I72 : I71) : (q.p(.5) ? A24 : A25)) : (int)q.below(4);
    }
    if (q.p(.08)) {   // an AMBE stream with many corrected errors, then IMBE frames that must be repeated
        p.ops.push_back(mk(K_INIT, 0)); codec = A25;   // AMBE 2400 never plays a frame with that many
        if (seeded) { Op o = mk(K_SEED); o.a = (int)q.next(); p.ops.push_back(o); }
        Traffic t; t.calm(); t.codec = codec; t.p_data = 0; t.p_layer = 0; int n = q.range(60, 90), tot = q.p(.8) ? 0 : q.range(3, 5);
        auto some = [&](Op& o, int row, int hi, int k) { std::vector<int> x; for (int i = 0; i < 12; i++) x.push_back(i); for (int i = 0; i < k; i++) { std::swap(x[(size_t)i], x[(size_t)q.range(i, 11)]); o.flips.push_back(row * fr_cols(codec) + hi - x[(size_t)i]); } };
        for (int i = 0; i < n; i++) { Op o = t.frame(q, 0); o.kind = K_FRAME; o.flips.clear(); int e = tot ? tot : 4 + q.p(.35), c0 = e - 3; if (c0 < 0) c0 = 0; some(o, 0, 23, c0); some(o, 1, 22, e - c0); o.note = "voice/max"; p.ops.push_back(o); }
        codec = q.p(.5) ? I72 : I71; Traffic u; u.swarm(q, codec); u.p_bad = .9; u.p_recover = .1; u.p_heavy = 1;
        n = q.range(1, 8); for (int i = 0; i < n; i++) p.ops.push_back(u.frame(q, 0));
    }
    strip(p);
}
static void chk_c15(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    model_run(p, "C15", RC_ALL & ~(unsigned)(RC_ECC | RC_UW | RC_PCM), v, s);
    if (v.bad()) return;
    in_child("decoding across codecs", v, s, [&](Verdict& w, Stats& t) {
        std::vector<Snap> a(p.ops.size()); ExecOpt o; o.api = api_or(p.variant.c_str()); snap_hook(o, a); ExecResult r; exec_plan(p, o, r);
        // every AMBE leg that follows IMBE use against a fresh stream
        bool imbe = false;
        for (size_t i = 0; i < p.ops.size(); i++) {
            const Op& op = p.ops[i]; if (op.stream < 0 || !plan_audible(op)) continue;
            if (is_ambe(op.codec) && imbe) {
                size_t from = i; bool seed = i > 0 && p.ops[i - 1].kind == K_SEED; if (seed) from = i - 1;
                Plan q = p; q.ops.clear(); size_t e = i; while (e < p.ops.size() && !(plan_audible(p.ops[e]) && !is_ambe(p.ops[e].codec))) e++;
                for (size_t k = from; k < e; k++) q.ops.push_back(p.ops[k]);
                std::vector<Snap> b(q.ops.size()); ExecOpt o2; o2.api = o.api; o2.outfill = 0x77; snap_hook(o2, b); ExecResult r2; exec_plan(q, o2, r2);
                t.add("oracle.switches_to_ambe"); t.add("nontrivial");
                for (size_t k = i; k < e; k++) {
                    Snap &x = a[k], &y = b[k - from]; if (!x.has || !plan_audible(p.ops[k])) continue;
                    const char* what = nullptr; bool low = true;
                    for (float z : x.f) if (fabsf(z) > 14.1f) low = false; for (short z : x.s) if (abs(z) > 99) low = false;
                    for (float z : y.f) if (fabsf(z) > 14.1f) low = false; for (short z : y.s) if (abs(z) > 99) low = false;
                    bool comfort = !seed && low;   // comfort noise continues the thread's own sequence
                    if (x.str != y.str) what = "status"; else if (!comfort && (x.f != y.f || x.s != y.s)) what = "audio"; else if (memcmp(&x.post, &y.post, sizeof x.post)) what = "state";
                    if (what) { report(w, "C15.ambe_after_imbe", (int)k, "call %zu (%s %s, %s): %s differs from a freshly initialised AMBE stream given the same frames", k, kind_name[p.ops[k].kind], codec_name[p.ops[k].codec], p.ops[k].note.c_str(), what); return; }
                    t.add("oracle.calls_compared");
                }
            }
            if (!is_ambe(op.codec) && imbe == false && i > 0) t.add("probe.switch_or_start_imbe");
            imbe = !is_ambe(op.codec);
        }
    });
}
static RegProp r15("C15", gen_c15, chk_c15);

// ------------------------------------------------------------------------------------------- C17
static void gen_c17(Rng& q, Plan& p, bool thorough) {
    if (q.p(.3)) p.variant = "simd";
    ops_for(q, p, len_of(q, thorough), q.range(1, 2), .03, .05, [&](Traffic& t) { t.w[VOICE] += 1; if (q.p(.3)) t.w[SILENCE] += 1; if (q.p(.3)) { t.w[INVALID] += q.uni(); t.w[ERASURE] += q.uni(); } if (q.p(.5)) { t.p_bad = .05; } });
    tail_stretch(q, p, .05); layered(q, p, .3);
}
static void chk_c17(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s); s.add("nontrivial");
    model_run(p, "C17", RC_VOICE | RC_REPEAT | RC_RETAIN | RC_MARK, v, s);
}
static RegProp r17("C17", gen_c17, chk_c17);

// ------------------------------------------------------------------------------------------- C18
static void gen_c18(Rng& q, Plan& p, bool thorough) {
    if (q.p(.4)) p.variant = "simd";
    ops_for(q, p, len_of(q, thorough), q.range(1, 2), .06, .03);
    tail_stretch(q, p, .1); layered(q, p, .4);
}
static void chk_c18(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s); s.add("nontrivial");
    model_run(p, "C18", RC_ENH | RC_PHASE | RC_NOISE | RC_UW | RC_PCM, v, s);
}
static RegProp r18("C18", gen_c18, chk_c18);

// ------------------------------------------------------------------------------------------- C19
// The plan's operations are one cycle of steady traffic, repeated knob "loops" times in one process.
static void gen_c19(Rng& q, Plan& p, bool thorough) {
    if (q.p(.4)) p.variant = "simd";
    p.nstreams = 1; int codec = (int)q.below(4); Traffic t; t.swarm(q, codec);
    bool aged = p.seed % 16 != 0; p.knob["aged"] = aged;
    if (q.p(.5)) { t.p_bad = .1 + .5 * q.uni(); t.p_recover = .3 + .5 * q.uni(); t.p_heavy = q.uni(); t.p_few = q.uni(); }
    int n = aged ? q.range(10, 60) : q.range(20, 400);
    for (int i = 0; i < n; i++) p.ops.push_back(t.frame(q, 0));
    feasible(p);
    bool dense = !aged && p.seed % 48 == 0; p.knob["dense"] = dense;   // every call judged, past the 65536th
    long long frames = aged ? n : dense ? 70000 : thorough ? 4400000 : (p.seed >> 10) % 12 == 0 ? 2200000 : 200000;
    // one long run in four of the others: days of air time of lost frames, which cost little to decode (more than 2^32 samples)
    if (!aged && !dense && (p.seed >> 12) % 4 == 1) {
        p.knob["marathon"] = 1; p.ops.clear(); n = 48; frames = 27200000;
        for (int i = 0; i < n; i++) { Op o = mk(q.p(.8) ? K_FRAME : q.p(.5) ? K_DATA : K_LAYER, 0); o.codec = A25; o.shorty = q.p(.5); o.uv = 3; o.data = gen_bits(q, A25, ERASURE, ""); if (o.kind != K_DATA && q.p(.2)) o.flips = gen_flips(q, A25, D_FEW); o.note = "erasure/marathon"; p.ops.push_back(o); }
        feasible(p);
    }
    p.knob["loops"] = (frames + n - 1) / n;
    if (aged) { p.knob["age_amp"] = q.p(.3) ? INT_MAX - q.logu(1, 60000) : q.p(.5) ? (long long)q.below(2147483647u) : INT_MAX - 6000 + q.range(-8, 8); p.knob["age_swn"] = q.p(.5) ? (long long)(uint32_t)(0u - (unsigned)q.logu(1, 100000)) : (long long)(uint32_t)q.next(); p.knob["age_un"] = q.p(.5) ? 0x7FFFFFFF - q.logu(1, 100000) : (long long)(uint32_t)q.next(); p.knob["age_noise"] = (long long)q.below(53125); p.knob["age_phase"] = q.p(.5) ? q.range(0, 5400) : 0; }
}
static uint64_t hash_words(const void* p, size_t n) {
    const char* c = (const char*)p; uint64_t h = 0x9E3779B97F4A7C15ull, x;
    for (; n >= 8; n -= 8, c += 8) { memcpy(&x, c, 8); h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 29; }
    for (; n; n--, c++) h = (h ^ (unsigned char)*c) * 0xff51afd7ed558ccdull;
    return h | 2;
}
static void chk_c19(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    in_child("long operation", v, s, [&](Verdict& w, Stats& t) {
        const Api* A = api_or(p.variant.c_str());
        RefCtx c; c.p = &p; c.prop = "C19"; c.cats = RC_ALL & ~(unsigned)(RC_ECC | RC_COMFORT); c.v = &w; c.s = &t; c.tones = A->tones;
        Triplet* T = new Triplet; memset((void*)T, 0x5A, sizeof *T); A->f_initMbeParms(&T->cur, &T->prev, &T->enh);
        struct Pre { std::vector<char> fr, d; }; std::vector<Pre> in(p.ops.size());
        for (size_t i = 0; i < p.ops.size(); i++) {
            const Op& op = p.ops[i]; char dv[96]; for (size_t k = 0; k < op.data.size(); k++) dv[k] = op.data[k] == '1';
            in[i].d.assign(dv, dv + op.data.size()); in[i].fr.resize((size_t)fr_bits(op.codec)); ref_encode(op.codec, dv, in[i].fr.data()); for (int f : op.flips) in[i].fr[(size_t)f] ^= 1;
        }
        auto one = [&](size_t i, bool judge) -> const char* {
            const Op& op = p.ops[i]; if (!plan_audible(op) || op.kind > K_LAYER) return "";
            static float pf[160]; static short ps[160]; static char str[256], d[96], fr[256]; int e = op.errs, e2 = op.errs2;
            memcpy(d, in[i].d.data(), in[i].d.size()); memcpy(fr, in[i].fr.data(), in[i].fr.size());
            static Triplet pre; if (judge) pre = *T;
            void* pcm = op.shorty ? (void*)ps : (void*)pf;
            if (op.kind == K_FRAME) lib_frame(A, op.codec, op.shorty, pcm, &e, &e2, str, fr, d, &T->cur, &T->prev, &T->enh, op.uv);
            else { if (op.kind == K_LAYER) lib_layers(A, op.codec, fr, d, &e, &e2); lib_data(A, op.codec, op.shorty, pcm, &e, &e2, str, d, &T->cur, &T->prev, &T->enh, op.uv); }
            if (judge) {
                OpIO io; io.pre = &pre; io.post = T; io.pcmf = op.shorty ? nullptr : pf; io.pcms = op.shorty ? ps : nullptr; io.shorty = op.shorty; io.err_str = str; io.errs = e; io.errs2 = e2; io.d = d; io.fr_in = in[i].fr.data(); io.fr_out = fr; io.tid = 0; io.ret = 0;
                ref_step(c, (int)i, op, io);
                char b[128]; const mbe_parms* q[3] = {&T->cur, &T->prev, &T->enh};
                for (int k = 0; k < 3 && !w.bad(); k++) if (const char* x = bad_set(*q[k], b, sizeof b, 2, 3000)) report(w, "C19.state", (int)i, "call %zu (%s %s, %s): %s", i, kind_name[op.kind], codec_name[op.codec], op.note.c_str(), x);
                for (int n = 0; n < 160 && !w.bad(); n++) { double x = op.shorty ? ps[n] / 7.0 : pf[n]; if (!(fabs(x) <= 4446.96)) report(w, "C19.sample", (int)i, "sample %d is %g", n, x); }
            }
            return str;
        };
        if (p.k("aged")) {
            // a state as long operation leaves it: warm up, then move every accumulator to where time takes it
            for (size_t i = 0; i < p.ops.size() && i < 6; i++) one(i, false);
            mbe_parms* q[3] = {&T->cur, &T->prev, &T->enh};
            for (auto* m : q) {
                m->amplitudeThreshold = (int)p.k("age_amp"); m->swn = (int)(uint32_t)p.k("age_swn"); m->un = (int)(uint32_t)p.k("age_un");
                if (m->noiseSeed >= 0) { unsigned x = (unsigned)p.k("age_noise"); for (int i = 0; i < 96; i++) { m->noiseOverlap[i] = (float)x; x = (171u * x + 11213u) % 53125u; } m->noiseSeed = (float)x; }
                for (int l = 1; l <= 56; l++) { float a = (float)(p.k("age_phase") * l / 56); m->PSIl[l] += a; m->PHIl[l] += a; if (m->PSIl[l] > 5400) m->PSIl[l] -= 2800; if (m->PHIl[l] > 5400) m->PHIl[l] -= 2800; }
            }
            for (size_t i = 0; i < p.ops.size() && !w.bad(); i++) one(i, true);
            t.add("oracle.aged_starts"); t.add("nontrivial");
            return;
        }
        long long n = (long long)p.ops.size(), loops = p.k("loops", 1), done = 0, dense = 0, total = n * loops;
        Rng q(p.seed ^ 0x77);
        // The run proceeds in batches. Unless every call is judged, each batch is decoded again, from a copy of the stream
        // taken at its start, by a thread that did nothing before: what depends on the age of the thread or the process differs.
        struct Seen { uint64_t h; float pcm[160]; std::string str; };
        bool twin = !p.k("dense"), mar = p.k("marathon"); std::vector<Seen> seen; double e0 = 0;
        auto call = [&](Triplet* Q, size_t i, Seen& o, bool keep = true) {
            const Op& op = p.ops[i]; if (!plan_audible(op) || op.kind > K_LAYER) { o.h = 0; return; }
            float pf[160]; short ps[160]; char str[256], d[96], fr[256]; int e = op.errs, e2 = op.errs2;
            memcpy(d, in[i].d.data(), in[i].d.size()); memcpy(fr, in[i].fr.data(), in[i].fr.size());
            void* pcm = op.shorty ? (void*)ps : (void*)pf;
            if (op.kind == K_FRAME) lib_frame(A, op.codec, op.shorty, pcm, &e, &e2, str, fr, d, &Q->cur, &Q->prev, &Q->enh, op.uv);
            else { if (op.kind == K_LAYER) lib_layers(A, op.codec, fr, d, &e, &e2); lib_data(A, op.codec, op.shorty, pcm, &e, &e2, str, d, &Q->cur, &Q->prev, &Q->enh, op.uv); }
            if (!keep) return;
            for (int k = 0; k < 160; k++) o.pcm[k] = op.shorty ? ps[k] / 7.0f : pf[k];
            o.str = str; o.h = hash_words(Q, sizeof *Q) + (uint64_t)e * 31 + (uint64_t)e2;
        };
        while (done < total && !w.bad()) {
            if (mar && done > 6000 && total - done > 60000 && !q.p(.02)) {
                Seen o; for (int x = 0; x < 48000; x++, done++) call(T, (size_t)(done % n), o, false);
                g_loghash = hash_bytes(T, sizeof *T, g_loghash); continue;
            }
            long long m = twin ? std::min(total - done, (long long)q.range(1500, 2500)) : total - done; Triplet* start = new Triplet(*T); seen.resize(twin ? (size_t)m : 0);
            for (long long x = 0; x < m && !w.bad(); x++, done++) {
                size_t i = (size_t)(done % n);
                if (dense <= 0 && q.p(1.0 / 4000)) dense = 8;           // short fully judged stretches throughout
                bool judge = !twin || dense > 0 || done >= total - 200; dense--;
                if (judge || !twin) { one(i, true); if (twin) seen[(size_t)x].h = 1; }
                else call(T, i, seen[(size_t)x]);
            }
            if (mar && !w.bad()) {   // the noise that stands in for muted speech is as strong and as little repetitive after days as at the start
                double e1 = 0; std::set<uint64_t> frames; size_t k = 0;
                for (auto& x : seen) if (x.h > 1) { k++; frames.insert(hash_bytes(x.pcm, sizeof x.pcm)); for (float f : x.pcm) e1 += (double)f * f / 160; }
                e1 /= (double)std::max<size_t>(k, 1); if (e0 == 0) e0 = e1;
                if (!(e1 > .6 * e0 && e1 < 1.6 * e0)) report(w, "C19.comfort", -1, "noise in place of muted speech had mean square %g at the start and %g after %lld frames", e0, e1, done);
                else if (frames.size() * 20 < k * 19) report(w, "C19.comfort", -1, "only %zu of %zu muted frames after %lld differ from one another", frames.size(), k, done);
            }
            if (twin && !w.bad()) {
                std::string bad; long long at = -1;
                std::thread th([&] {
                    Seen o;
                    for (long long x = 0; x < m; x++) {
                        const Seen& r = seen[(size_t)x]; size_t i = (size_t)((done - m + x) % n); call(start, i, o);
                        if (r.h == 1) continue;
                        if (o.h != r.h) bad = "state"; else if (o.h && o.str != r.str) bad = "status";
                        else if (o.h && memcmp(o.pcm, r.pcm, sizeof o.pcm)) { for (int k = 0; k < 160; k++) if (!(fabsf(o.pcm[k]) <= 14.1f && fabsf(r.pcm[k]) <= 14.1f)) bad = "audio"; }   // comfort noise is the thread's own
                        if (!bad.empty()) { at = x; return; }
                    }
                });
                th.join();
                t.add("oracle.calls_repeated_by_a_fresh_thread", m);
                if (!bad.empty()) { size_t i = (size_t)((done - m + at) % n); const Op& op = p.ops[i]; report(w, "C19.age", (int)i, "call %zu (%s %s, %s) as frame %lld of the run: %s differs from the same stream continued by a fresh thread", i, kind_name[op.kind], codec_name[op.codec], op.note.c_str(), done - m + at, bad.c_str()); }
            }
            delete start;
        }
        if (mar) t.add("oracle.marathons");
        t.add("sim.long_frames", done); t.add("sim.seconds_air_time", done / 50); t.add("oracle.long_runs"); t.add("nontrivial");
        if (w.bad()) { char b[64]; snprintf(b, sizeof b, " (after %lld frames)", done); w.msg += b; }
    }, (int)std::min(600LL, 40 + p.k("loops", 1) * (long long)p.ops.size() / (p.k("dense") ? 1500 : 3000)));
}
static RegProp r19("C19", gen_c19, chk_c19);
