// Diagnostics and progress: what the library writes, and how much work and waiting a call may cost.
#include "props.h"
#include <math.h>
#include <stdlib.h>
#include <algorithm>

static void lace(Plan& p, std::vector<std::vector<Op>>& t) {   // threads' calls in turn
    for (size_t k = 0;; k++) { bool any = false; for (size_t i = 0; i < t.size(); i++) if (k < t[i].size()) { Op o = t[i][k]; o.tid = (int)i; p.ops.push_back(o); any = true; } if (!any) break; }
}
Op dump_op(Rng& q, const std::string& last) {
    Op o = mk(K_DUMP); o.a = (int)q.below(1u << 20); int w = o.a % 5; o.codec = w < 3 ? I72 : I71;
    o.data = last.size() == 88 && q.p(.5) ? last : gen_bits(q, I72, RANDOM, "");
    if (q.p(.3)) o.flips = gen_flips(q, o.codec, D_GARBAGE);
    o.errs = q.p(.45) ? IO_OK : (int)q.below(NIO); o.errs2 = q.p(.3) ? q.range(0, 3) : q.range(0, 120);
    return o;
}
// Streams as months of operation leave them: what accumulates stands where time takes it.
static void aged_states(const Plan& p, const Api* A, std::map<int, Triplet>& out) {
    if (!p.k("aged")) return;
    Rng q((uint64_t)p.k("aged"));
    for (int st = 0; st < p.nstreams; st++) {
        Triplet& T = out[st]; memset((void*)&T, 0x5A, sizeof T); A->f_initMbeParms(&T.cur, &T.prev, &T.enh);
        long long amp = q.p(.3) ? INT32_MAX - q.logu(1, 60000) : 6000 + q.below(2147483600u - 6000); unsigned swn = (unsigned)q.next(), un = q.p(.5) ? 0x7fffffffu - (unsigned)q.logu(1, 100000) : (unsigned)q.next(), ns = q.below(53125);
        bool noise = q.p(.7); double ph = q.p(.7) ? q.uni() * 5400 : 0; float gamma = (float)(q.uni() * 10 - 2), er = (float)(q.p(.25) ? .08 + q.uni() * .06 : q.uni() * .08); int rep = q.p(.3) ? q.range(0, 5) : 0, L = q.range(9, 56);
        for (mbe_parms* m : {&T.cur, &T.prev, &T.enh}) {
            m->amplitudeThreshold = (int)amp; m->swn = (int)swn; m->un = (int)un; m->gamma = gamma; m->errorRate = er; m->repeatCount = rep; m->L = L; m->w0 = (float)(2 * M_PI * .4627 / (L + .5));
            if (noise) { unsigned x = ns; for (int i = 0; i < 96; i++) { m->noiseOverlap[i] = (float)x; x = (171u * x + 11213u) % 53125u; } m->noiseSeed = (float)x; }
            for (int l = 1; l <= 56; l++) { m->PSIl[l] += (float)(ph * l / 56); m->PHIl[l] += (float)(ph * l / 56); m->Vl[l] = (int)((un >> (l & 31)) & 1); m->Ml[l] = l <= L ? (float)(1 + (l * 37 % 91)) : 0; m->log2Ml[l] = l <= L ? log2f(m->Ml[l]) : 0; }
        }
    }
}
// ------------------------------------------------------------------------------------------- C24
static void gen_c24(Rng& q, Plan& p, bool thorough) {
    p.variant = q.p(.45) ? "log" : q.p(.6) ? "scalar" : "simd";
    if (!api_by_name(p.variant.c_str())) p.variant = "scalar";
    p.nthreads = q.range(1, 3);
    bool lean = p.nthreads == 1 && q.p(.3);   // no dumps, memory requests fail
    int per = q.range(2, thorough ? 20 : 12), sid = 0; bool aged = q.p(.3); if (aged) p.knob["aged"] = 1 + (long long)q.below(1u << 30);
    std::vector<std::vector<Op>> t((size_t)p.nthreads);
    for (int i = 0; i < p.nthreads; i++) {
        int ns = q.p(.7) ? 1 : 2; std::vector<Traffic> tr((size_t)ns); std::vector<int> ids;
        for (auto& x : tr) { x.swarm(q, (int)q.below(4)); ids.push_back(sid++); }
        if (aged) for (int id : ids) { Op r = mk(K_RESTORE, id); r.a = -3; t[(size_t)i].push_back(r); }
        if (q.p(.5)) { Op o = mk(K_SEED); o.a = rng_seed(q); t[(size_t)i].push_back(o); }
        if (q.p(.04)) spell(q, t[(size_t)i], ids[0], tr[0].codec);
        int n = q.range(1, per);
        for (int k = 0; k < n; k++) {
            size_t w = q.below((uint32_t)ns); Op o;
            double r = q.uni();
            if (r < .18 && !lean) o = dump_op(q, tr[w].last);
            else if (r < .22) o = mk(K_QUERY, ids[w]);
            else if (r < .25) { o = mk(K_CONV); o.a = (int)q.below(1u << 30); }
            else if (r < .28) { o = mk(K_COMFORT); o.shorty = q.p(.4); }
            else if (r < .30) o = mk(K_INIT, ids[w]);
            else if (r < .33) { o = mk(K_ECC); o.codec = tr[w].codec; o.a = (int)q.below(1u << 30); o.data = gen_bits(q, o.codec, RANDOM, ""); o.flips = gen_flips(q, o.codec, (int)q.below(NDMG)); }
            else if (r < .35) { o = mk(K_TONE, ids[w]); o.codec = q.p(.5) ? A24 : A25; o.data = gen_bits(q, o.codec, TONE, ""); o.a = q.range(5, 163); }
            else o = q.p(.12) ? tr[w].manual(q, ids[w]) : tr[w].frame(q, ids[w]);
            t[(size_t)i].push_back(o);
        }
        if (p.nthreads > 1 && q.p(.1)) { Op& o = t[(size_t)i][q.below((uint32_t)t[(size_t)i].size())]; o.b = q.logu(1, 60000); }
    }
    p.nstreams = sid;
    lace(p, t);
    if (p.variant == "log") { p.knob["iofault"] = q.p(.3) ? IO_OK : (int)q.below(NIO); p.knob["iok"] = q.p(.4) ? q.range(0, 3) : q.range(0, 300); }
    if (lean) { int n = q.range(1, 3); for (int i = 0; i < n; i++) p.allocfail.push_back(q.range(0, 3)); }
    if (p.nthreads > 1) add_sched(q, p, q.range(10, 120), q.p(.5));
}
static void chk_c24(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    bool log = p.variant == "log"; long long mode = p.k("iofault");
    ExecOpt o; o.api = api_or(p.variant.c_str()); o.multi = true; o.guard = true; o.allocfail = !p.allocfail.empty(); aged_states(p, o.api, o.ckpt_in); if (p.k("aged")) s.add("env.aged_states", p.nstreams);
    ExecResult m;
    if (!go(p, o, m, v, s, log ? "debug-log build" : "run with dumps")) return;
    s.sig("schedules", m.sr.trace_hash); s.add("sched.switches", m.sr.switches);
    if (m.inconclusive) { s.add("runs.inconclusive"); return; }
    for (auto& x : m.rec) {
        const Op& op = p.ops[(size_t)x.op];
        if (op.kind == K_DUMP) { s.add(std::string("fault.dump_output_") + io_name[op.errs]); s.add("fault.output_calls_refused", x.io_failed); }
        else if (!log && x.io_calls) { report(v, "C24.output", x.op, "call %d (%s %s) performed input or output in an ordinary build", x.op, kind_name[op.kind], codec_name[op.codec]); return; }
        else if (log) { s.add("oracle.log_calls", x.io_calls); s.add("fault.log_output_refused", x.io_failed); }
        if (x.io_other) { report(v, "C24.elsewhere", x.op, "call %d (%s) performed input or output on something other than stderr", x.op, kind_name[op.kind]); return; }
    }
    if (log) s.add(std::string("fault.log_output_") + io_name[mode]);
    Plan quiet = p; bool dumps = false;
    for (auto& op : quiet.ops) if (op.kind == K_DUMP) { op.kind = K_DIRTY; op.stream = -1; dumps = true; }
    std::map<int, std::vector<const Rec*>> by; for (auto& x : m.rec) by[x.tid].push_back(&x);
    for (int t = 0; t < p.nthreads; t++) {
        ExecOpt so; so.api = api_or(log ? "scalar" : p.variant.c_str()); so.only_tid = t; so.allocfail = o.allocfail; so.ckpt_in = o.ckpt_in;
        ExecResult r;
        if (!go(quiet, so, r, v, s, "run without dumps")) return;
        auto& a = by[t];
        for (size_t k = 0; k < a.size() && k < r.rec.size(); k++) {
            const Op& op = p.ops[(size_t)a[k]->op]; if (op.kind == K_DUMP) continue;
            const char* d = rec_diff(*a[k], r.rec[k]);
            if (d) { report(v, std::string("C24.") + d, a[k]->op, "thread %d, call %d (%s %s): %s differs from the same calls %s", t, a[k]->op, kind_name[op.kind], codec_name[op.codec], d, log ? "in a build without debug logging" : "without dumps"); return; }
        }
        s.add("oracle.calls_compared", (long long)std::min(a.size(), r.rec.size()));
        if (log && (mode == IO_OK || mode == IO_STALL)) {   // what is logged depends on the decoded history alone
            ExecOpt lo; lo.api = o.api; lo.only_tid = t; lo.allocfail = o.allocfail; lo.ckpt_in = o.ckpt_in; lo.dirty = 77 + (uint64_t)t; lo.fill = 0x1122334455667788ull; lo.outfill = 0x33; lo.envseed = 99;
            ExecResult l; if (!go(p, lo, l, v, s, "debug-log build alone")) return;
            for (size_t k = 0; k < a.size() && k < l.rec.size(); k++) if (p.ops[(size_t)a[k]->op].kind != K_DUMP && a[k]->h_io != l.rec[k].h_io) { report(v, "C24.log_text", a[k]->op, "thread %d, call %d (%s %s): the log text depends on more than the decoded history", t, a[k]->op, kind_name[p.ops[(size_t)a[k]->op].kind], codec_name[p.ops[(size_t)a[k]->op].codec]); return; }
        }
    }
    if (dumps || log || !p.allocfail.empty()) s.add("nontrivial");
}
static RegProp r24("C24", gen_c24, chk_c24);

// ------------------------------------------------------------------------------------------- C25
// The yardstick: what an undisturbed decoder spends on ordinary calls, counted in basic blocks of the binary under test.
static void yard_plan(Plan& p, const std::string& variant, int c, int part) {   // short runs, each in a process of its own
    Rng q(4242u + (unsigned)(c * 8 + part)); p = Plan(); p.prop = "C25"; p.variant = variant; p.nstreams = 1; std::string last;
    if (part < 2) for (int k = 0; k < 16; k++) {
        Op o = mk(k % 4 == 3 ? K_DATA : k % 4 == 2 ? K_LAYER : K_FRAME, 0); o.codec = c; o.shorty = part;
        o.data = gen_bits(q, c, k % 8 == 7 ? TONE : k % 8 == 5 ? SILENCE : VOICE, last); last = o.data;
        if (k >= 8) {   // the widest and the narrowest frames
            o.data = gen_bits(q, c, VOICE, "");
            static const int pos[4][4] = {{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3}};
            for (int i = 0; i < 4; i++) o.data[(size_t)pos[c][i]] = (k & 1) ? '0' : is_ambe(c) ? (i < 3 ? '1' : '0') : (i < 2 ? '1' : '0');
        }
        if (o.kind != K_DATA) o.flips = gen_flips(q, c, k % 5 == 0 ? D_GARBAGE : k % 5 == 1 ? D_EDGE : D_NONE);
        p.ops.push_back(o);
    }
    else for (int k = 0; k < 2; k++) for (int kind : {K_COMFORT, K_SILENCE, K_SEED, K_QUERY, K_CONV, K_ECC, K_TONE, K_SPEECH, K_ENH, K_SMOOTH, K_MANUAL, K_MOVE, K_SPEECH, K_MANUAL, K_ENH, K_SMOOTH, K_INIT}) {
        Op o = mk(kind, kind >= K_TONE || kind == K_INIT || kind == K_QUERY ? 0 : -1); o.codec = c; o.shorty = k & 1; o.a = 40 + k + part; o.data = gen_bits(q, o.codec, kind == K_TONE && is_ambe(o.codec) ? TONE : VOICE, "");
        if (kind == K_ECC) o.flips = gen_flips(q, o.codec, part & 1 ? D_EDGE : D_GARBAGE);
        if (kind == K_MANUAL) to_manual(o);
        if (kind == K_TONE && o.codec > A25) o.codec = A25, o.data = gen_bits(q, A25, TONE, "");
        p.ops.push_back(o);
    }
}
static void gen_c25(Rng& q, Plan& p, bool thorough) {
    if (q.p(.35)) p.variant = "simd";
    p.nthreads = q.range(1, 4); int sid = 0, per = q.range(2, thorough ? 24 : 12);
    std::vector<std::vector<Op>> t((size_t)p.nthreads);
    bool hot = q.p(.35), aged = q.p(.35); if (aged) p.knob["aged"] = 1 + (long long)q.below(1u << 30);
    for (int i = 0; i < p.nthreads; i++) {
        int ns = q.p(.75) ? 1 : 2; std::vector<Traffic> tr((size_t)ns); std::vector<int> ids;
        for (auto& x : tr) { x.swarm(q, (int)q.below(4)); if (hot) { x.w[ERASURE] += 1.5; x.p_bad = .3; } ids.push_back(sid++); }
        if (aged) for (int id : ids) { Op r = mk(K_RESTORE, id); r.a = -3; t[(size_t)i].push_back(r); }
        if (q.p(.4)) { Op o = mk(K_SEED); o.a = rng_seed(q); t[(size_t)i].push_back(o); }
        if (q.p(.06)) spell(q, t[(size_t)i], ids[0], tr[0].codec);
        if (q.p(.03)) stretch(q, t[(size_t)i], ids[0], tr[0].codec);
        int n = q.range(1, per);
        for (int k = 0; k < n; k++) {
            size_t w = q.below((uint32_t)ns); Op o; double r = q.uni();
            if (r < .04) o = mk(K_QUERY, ids[w]);
            else if (r < .07) { o = mk(K_CONV); o.a = (int)q.below(1u << 30); }
            else if (r < .10) { o = mk(K_COMFORT); o.shorty = q.p(.4); }
            else if (r < .13) o = mk(K_INIT, ids[w]);
            else if (r < .17) { o = mk(K_ECC); o.codec = tr[w].codec; o.a = (int)q.below(1u << 30); o.data = gen_bits(q, o.codec, RANDOM, ""); o.flips = gen_flips(q, o.codec, (int)q.below(NDMG)); }
            else if (r < .19) { o = mk(K_TONE, ids[w]); o.codec = q.p(.5) ? A24 : A25; o.data = gen_bits(q, o.codec, TONE, ""); o.a = q.range(5, 163); }
            else if (r < .21) { o = mk(K_SEED); o.a = rng_seed(q); }
            else if (r < .23) { o = mk(K_SPEECH, ids[w]); o.shorty = q.p(.4); }
            else o = q.p(.12) ? tr[w].manual(q, ids[w]) : tr[w].frame(q, ids[w]);
            t[(size_t)i].push_back(o);
        }
    }
    if (q.p(.02)) {   // one thread that goes on for long in one regime
        auto& x = t[0]; int c = (int)q.below(4), n = q.range(200, 900), kind = (int)q.below(6); std::string d = gen_bits(q, c, kind == 1 ? TONE : kind == 2 ? ERASURE : kind == 3 ? SILENCE : kind == 4 ? EXTREME : VOICE, "");
        int bits = q.p(.5) ? n / 2 : 0, off = q.range(0, 3);
        for (int k = 0; k < n; k++) {
            Op o;
            if (kind == 5) { o = mk(K_COMFORT); o.shorty = k & 1; }
            else { o = mk(K_FRAME, 0); o.codec = c; o.data = d; if (kind == 0 || (bits && k > bits && k % 4 == off)) o.flips = gen_flips(q, c, D_GARBAGE); o.note = "held/none"; }
            x.push_back(o);
        }
    }
    p.nstreams = sid; p.knob["nowait"] = 1;
    if (p.nthreads > 1) {
        int mode = (int)q.below(3);   // threads that stop for good: somewhere, early in their first calls, or holding a lock
        if (mode == 2) p.knob["lockfreeze"] = q.logu(1, 40);
        else for (int i = 0, n = q.range(1, p.nthreads - 1); i < n; i++) { auto& x = t[(size_t)i]; Op& o = x[mode == 1 ? 0 : q.below((uint32_t)x.size())]; o.b = q.logu(1, q.p(.5) ? 60000 : 800); }
    }
    lace(p, t);
    if (p.nthreads > 1) add_sched(q, p, q.range(10, 160), q.p(.5));
}
static void chk_c25(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    static std::map<std::string, std::vector<long long>> yard;
    std::vector<long long>& y = yard[p.variant];   // most work of an ordinary call, by kind
    static std::map<std::string, long long> depth; long long& deep = depth[p.variant];   // most stack of any ordinary call
    ExecOpt o; o.api = api_or(p.variant.c_str());
    auto whole = [](int k) { return k == K_FRAME || k == K_DATA || k == K_LAYER || k == K_MANUAL || k == K_SPEECH; };
    if (y.empty()) {
        y.assign(K_NKINDS, 0); long long all = 0; uint64_t h = g_loghash;
        for (int c = 0; c < 4; c++) for (int part = 0; part < 6; part++) {
            Plan yp; yard_plan(yp, p.variant, c, part); ExecResult r; Stats none;
            if (!go(yp, o, r, v, none, "yardstick")) { y.clear(); return; }
            for (auto& x : r.rec) { if (yp.ops[(size_t)x.op].flips.empty()) deep = std::max(deep, x.stack); auto& z = y[(size_t)yp.ops[(size_t)x.op].kind]; z = std::max(z, x.work); if (whole(yp.ops[(size_t)x.op].kind)) all = std::max(all, x.work); }
        }
        g_loghash = h; if (getenv("SIM_DEBUG")) fprintf(stderr, "stack yardstick %lld\n", deep);
        if (!all) { fprintf(stderr, "no work counted: not a sched build\n"); _Exit(3); }
        for (int k = 0; k < K_NKINDS; k++) if (whole(k)) y[(size_t)k] = all;
    }
    std::vector<long long> lim(K_NKINDS, 0); for (int k = 0; k < K_NKINDS; k++) lim[(size_t)k] = 3 * y[(size_t)k] + 3000;
    o.multi = true; o.work_max = lim.data(); aged_states(p, o.api, o.ckpt_in); if (p.k("aged")) s.add("env.aged_states", p.nstreams);
    ExecResult m; std::string crash; s.add("exec.total");
    if (!exec_forked(p, o, m, nullptr, &crash, 15)) {
        if (crash.rfind("harness", 0) == 0) { fprintf(stderr, "harness failure: %s\n", crash.c_str()); _Exit(3); }
        if (crash == "exit:73") report(v, "C25.work", -1, "a call went on beyond three times the work of any ordinary call of its kind (whole frames: %lld basic blocks)", lim[K_FRAME]);
        else report(v, "C25." + crash, -1, "a call ended the process or never came back (%s)", crash.c_str());
        return;
    }
    s.add("exec.ops", (long long)m.rec.size());
    s.sig("schedules", m.sr.trace_hash); for (uint64_t x : m.sr.points) s.sig("preemption_points", x);
    s.add("sched.switches", m.sr.switches); s.add("sched.midcall_preemptions", m.sr.midcall);
    if (m.v.bad()) { v = m.v; return; }
    for (auto& x : m.rec) if (x.stack > deep + deep / 2 + 8192) { report(v, "C25.stack", x.op, "call %d (%s) used %lld bytes of stack, the deepest ordinary call of any kind %lld", x.op, kind_name[p.ops[(size_t)x.op].kind], x.stack, deep); return; }
    if (getenv("SIM_DEBUG")) for (auto& x : m.rec) fprintf(stderr, "stk %lld errs2 %d\n", x.stack, x.errs2);
    for (auto& x : m.rec) if (deep) s.sig("stack_percent_of_yardstick", (uint64_t)(x.stack * 100 / deep));
    for (auto& x : m.rec) { int k = p.ops[(size_t)x.op].kind; if (y[(size_t)k] > 300) s.sig("work_percent_of_yardstick", (uint64_t)(x.work * 100 / y[(size_t)k])); }
    std::map<int, size_t> got, want; std::map<int, bool> dies;
    for (auto& op : p.ops) { want[op.tid]++; if (op.b > 0) dies[op.tid] = true; }
    for (auto& x : m.rec) got[x.tid]++;
    bool frozen = false;
    for (auto& w : want) if (got[w.first] < w.second) {
        if (dies[w.first] || p.k("lockfreeze")) { frozen = true; s.add("fault.thread_stopped_for_good"); continue; }
        report(v, "C25.progress", -1, "thread %d completed %zu of %zu calls although nothing of its own stopped it", w.first, got[w.first], w.second); return;
    }
    s.add("oracle.calls_bounded", (long long)m.rec.size());
    if (frozen || p.nthreads == 1) s.add("nontrivial");
}
static RegProp r25("C25", gen_c25, chk_c25);
