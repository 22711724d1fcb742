// Properties decided by comparing executions of one plan under different schedules, environments, faults or call routes.
#include "props.h"
#include <math.h>
#include <stdlib.h>
#include <algorithm>

std::vector<Property>& prop_list() { static std::vector<Property> v; return v; }
const std::vector<Property>& properties() { return prop_list(); }
const Property* find_property(const std::string& id) { for (auto& p : prop_list()) if (id == p.id) return &p; return nullptr; }

const Api* api_or(const char* name) { const Api* a = api_by_name(name); if (!a) { fprintf(stderr, "variant %s not linked\n", name); _Exit(3); } return a; }

bool go(const Plan& p, const ExecOpt& o, ExecResult& r, Verdict& v, Stats& s, const char* what, Stats* hs) {
    std::string crash;
    s.add("exec.total");
    if (!exec_forked(p, o, r, hs, &crash, 15)) {
        if (crash.rfind("harness", 0) == 0) { fprintf(stderr, "harness failure: %s\n", crash.c_str()); _Exit(3); }
        report(v, "crash." + crash, -1, "%s: the process running the library died (%s)", what, crash.c_str());
        return false;
    }
    s.add("exec.ops", (long long)r.rec.size());
    if (r.bad_free) { report(v, "bad_free", -1, "%s: the library released a pointer it does not own", what); return false; }
    if (r.v.bad()) { v = r.v; return false; }
    return true;
}
bool comfort_table(const Plan& p, bool seeded, uint32_t seed, int n, ComfortTable& t, Verdict& v, Stats& s) {
    for (int sh = 0; sh < 2; sh++) {
        Plan c; c.prop = p.prop;
        if (seeded) { Op o = mk(K_SEED); o.a = (int)seed; c.ops.push_back(o); }
        for (int i = 0; i < n; i++) { Op o = mk(K_COMFORT); o.shorty = sh; c.ops.push_back(o); }
        ExecOpt o; o.api = api_or(p.variant.c_str()); ExecResult r;
        if (!go(c, o, r, v, s, "comfort table")) return false;
        for (auto& x : r.rec) if (c.ops[(size_t)x.op].kind == K_COMFORT) (sh ? t.s : t.f).push_back(x.h_pcm);
    }
    return true;
}
void mark_comfort(const Plan& p, const std::vector<Rec>& r, const std::map<int, ComfortTable*>& tab, std::vector<char>& is) {
    std::map<int, size_t> ptr; is.assign(p.ops.size(), 0);
    std::vector<const Rec*> ord; for (auto& x : r) ord.push_back(&x);
    std::sort(ord.begin(), ord.end(), [](const Rec* a, const Rec* b) { return a->stamp < b->stamp; });
    for (auto* x : ord) {
        if (!x->h_pcm) continue;
        auto f = tab.find(x->tid); if (f == tab.end()) f = tab.find(-1); if (f == tab.end()) continue;
        const auto& t = p.ops[(size_t)x->op].shorty ? f->second->s : f->second->f;
        size_t& k = ptr[x->tid];
        if (k < t.size() && t[k] == x->h_pcm) { is[(size_t)x->op] = 1; k++; }
    }
}
void count_plan(const Plan& p, Stats& s) {
    long long fr = 0;
    for (auto& o : p.ops) {
        s.add(std::string("op.") + kind_name[o.kind]);
        if (plan_audible(o)) { fr++; if (!o.flips.empty()) { s.add("fault.channel_frames"); s.add("fault.channel_bits", (long long)o.flips.size()); } if (o.kind == K_DATA && o.errs2) s.add("fault.reported_errors"); }
        if (o.b > 0 && o.kind != K_RESTORE && o.kind != K_CKPT) s.add("fault.thread_death_planned");
        if (!o.note.empty()) { std::string c = o.note.substr(0, o.note.find('/')); if (c != "voice" && c != "smooth" && plan_audible(o)) s.add("fault.frame_" + c); }
        if (o.kind == K_SEED) s.add("env.seeding");
        if (o.kind == K_MOVE) s.add("fault.relocation");
        if (o.kind == K_RESTORE) s.add("fault.restart_planned");
    }
    s.add("sim.frames", fr);
}
void add_sched(Rng& q, Plan& p, int nslots, bool focus) {
    p.knob["focus"] = focus;
    int mode = (int)q.below(3);   // swarm: fine, coarse, mixed grain
    int last = -1;
    for (int i = 0; i < nslots; i++) {
        Sched s; s.tid = (int)q.below((uint32_t)p.nthreads);
        if (s.tid == last && q.p(.7)) s.tid = (int)((s.tid + 1) % p.nthreads);
        last = s.tid;
        int hi = focus ? (mode == 0 ? 8 : 400) : (mode == 0 ? 300 : mode == 1 ? 60000 : 8000);
        s.edges = q.logu(1, hi);
        p.sched.push_back(s);
    }
}
static Plan filtered(const Plan& p, const std::function<bool(size_t, const Op&)>& keep, std::vector<int>& map) {
    Plan r = p; r.ops.clear(); map.clear();
    for (size_t i = 0; i < p.ops.size(); i++) if (keep(i, p.ops[i])) { r.ops.push_back(p.ops[i]); map.push_back((int)i); }
    return r;
}
static void stateless(Rng& q, Op& o, int codec) {
    static const int k[6] = {K_ECC, K_SILENCE, K_CONV, K_COMFORT, K_ECC, K_CONV};
    o = mk(k[q.below(6)]); o.codec = codec; o.a = (int)q.below(1u << 30); o.shorty = q.p(.4);
    if (o.kind == K_ECC) { o.data = gen_bits(q, codec, RANDOM, ""); o.flips = gen_flips(q, codec, (int)q.below(NDMG)); }
}

// ------------------------------------------------------------------------------------------- C01
static void gen_c01(Rng& q, Plan& p, bool thorough) {
    p.nthreads = q.range(2, q.p(.8) ? 3 : 5);
    if (q.p(.35)) p.variant = "simd";
    int per = q.range(2, thorough ? 14 : 9), sid = 0;
    bool sameseed = q.p(.3); int seed0 = (int)q.below(1u << 30);
    std::vector<std::vector<Op>> t((size_t)p.nthreads);
    bool hot = q.p(.35);   // everyone mutes and starts at once
    int shared_codec = (int)q.below(4); bool same_codec = q.p(.4);
    for (int i = 0; i < p.nthreads; i++) {
        int ns = q.p(.75) ? 1 : 2; std::vector<Traffic> tr((size_t)ns); std::vector<int> ids;
        for (auto& x : tr) { x.swarm(q, same_codec ? shared_codec : (int)q.below(4)); if (hot) { x.w[ERASURE] += 1.5; x.p_bad = .3; } ids.push_back(sid++); }
        if (q.p(.5)) { Op o = mk(K_SEED); o.a = sameseed ? seed0 : (int)q.below(1u << 30); t[(size_t)i].push_back(o); }
        int n = q.range(1, per);
        if (q.p(.015)) spell(q, t[(size_t)i], ids[0], tr[0].codec);
        for (int k = 0; k < n; k++) {
            size_t w = q.below((uint32_t)ns);
            if (q.p(.15)) { Op o; stateless(q, o, tr[w].codec); t[(size_t)i].push_back(o); }
            else if (q.p(.05)) { Op o = mk(K_SEED); o.a = (int)q.below(1u << 30); t[(size_t)i].push_back(o); }
            else if (q.p(.04)) { Op o = mk(K_INIT, ids[w]); t[(size_t)i].push_back(o); }
            else if (q.p(.06)) { Op o = mk(K_QUERY, ids[w]); t[(size_t)i].push_back(o); }
            else { Op o = q.p(.1) ? tr[w].manual(q, ids[w]) : tr[w].frame(q, ids[w]); t[(size_t)i].push_back(o); }
        }
        if (q.p(.15)) { Op& o = t[(size_t)i][q.below((uint32_t)t[(size_t)i].size())]; o.b = q.logu(1, 60000); }
    }
    p.nstreams = sid;
    for (size_t k = 0;; k++) { bool any = false; for (int i = 0; i < p.nthreads; i++) if (k < t[(size_t)i].size()) { Op o = t[(size_t)i][k]; o.tid = i; p.ops.push_back(o); any = true; } if (!any) break; }
    add_sched(q, p, q.range(20, thorough ? 400 : 220), q.p(.5));
}
static void chk_c01(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    ExecOpt o; o.api = api_or(p.variant.c_str()); o.multi = true;
    ExecResult m;
    if (!go(p, o, m, v, s, "concurrent run")) return;
    s.sig("schedules", m.sr.trace_hash); for (uint64_t x : m.sr.points) s.sig("preemption_points", x);
    s.add("sched.switches", m.sr.switches); s.add("sched.midcall_preemptions", m.sr.midcall);
    if (m.inconclusive) { s.add("runs.inconclusive"); return; }
    std::map<int, std::vector<const Rec*>> by; for (auto& x : m.rec) by[x.tid].push_back(&x);
    for (int t = 0; t < p.nthreads; t++) {
        ExecOpt so; so.api = o.api; so.only_tid = t; ExecResult r;
        if (!go(p, so, r, v, s, "solo run")) return;
        bool dies = false; size_t n = 0; for (auto& op : p.ops) if (op.tid == t) { n++; if (op.b > 0) dies = true; }
        auto& a = by[t];
        if (!dies && a.size() != r.rec.size()) { report(v, "C01.lost", -1, "thread %d completed %zu of %zu calls", t, a.size(), n); return; }
        if (dies && a.size() < n) s.add("fault.thread_died_midrun");
        for (size_t k = 0; k < a.size() && k < r.rec.size(); k++) {
            const char* d = rec_diff(*a[k], r.rec[k]);
            if (d) { report(v, std::string("C01.") + d, a[k]->op, "thread %d, call %d (%s %s): %s differs from the same thread running alone", t, a[k]->op, kind_name[p.ops[(size_t)a[k]->op].kind], codec_name[p.ops[(size_t)a[k]->op].codec], d); return; }
        }
        s.add("oracle.calls_compared", (long long)a.size());
    }
    if (m.sr.midcall > 0) s.add("nontrivial");
}
static RegProp r01("C01", gen_c01, chk_c01);

// ------------------------------------------------------------------------------------------- C02
static void gen_c02(Rng& q, Plan& p, bool thorough) {
    p.nstreams = q.range(2, 5);
    if (q.p(.5)) p.variant = "simd";
    std::vector<Traffic> tr((size_t)p.nstreams); int c0 = (int)q.below(4); bool same = q.p(.35);
    for (auto& x : tr) x.swarm(q, same ? c0 : (int)q.below(4));
    if (q.p(.6)) { Op o = mk(K_SEED); o.a = (int)q.below(1u << 30); p.ops.push_back(o); }
    int n = q.range(6, thorough ? 90 : 50); size_t w = 0; double stick = q.uni(), sp = q.p(.08) ? .1 : 0;
    for (int k = 0; k < n; k++) {
        if (q.p(sp)) { w = q.below((uint32_t)p.nstreams); spell(q, p.ops, (int)w, tr[w].codec); }
        if (!q.p(stick)) w = q.below((uint32_t)p.nstreams);
        double r = q.uni();
        if (r < .12) { Op o; stateless(q, o, tr[w].codec); p.ops.push_back(o); }
        else if (r < .15) p.ops.push_back(mk(K_QUERY, (int)w));
        else if (r < .18) { Op o = mk(K_MOVE, (int)w); o.a = (int)q.below(2); p.ops.push_back(o); }
        else if (r < .20) p.ops.push_back(mk(K_INIT, (int)w));
        else if (r < .22) p.ops.push_back(touch(q, (int)w));
        else { Op o = q.p(.1) ? tr[w].manual(q, (int)w) : tr[w].frame(q, (int)w); p.ops.push_back(o); }
    }
}
static void chk_c02(const Plan& p, Verdict& v, Stats& s) {
    count_plan(p, s);
    ExecOpt o; o.api = api_or(p.variant.c_str());
    ExecResult m;
    if (!go(p, o, m, v, s, "multiplexed run")) return;
    int seedop = -1; for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].kind == K_SEED) { seedop = (int)i; break; }
    // a plan cut down by minimisation may carry the seed late: only a leading seed is meaningful
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].kind == K_SEED && i != 0) return;
    ComfortTable td, ts;
    int nf = (int)p.ops.size() + 1;
    if (!comfort_table(p, false, 0, nf, td, v, s)) return;
    if (seedop >= 0 && !comfort_table(p, true, (uint32_t)p.ops[(size_t)seedop].a, nf, ts, v, s)) return;
    int first = -1; for (auto& x : m.rec) if (x.cold) { first = p.ops[(size_t)x.op].stream; break; }
    std::vector<char> cm; mark_comfort(p, m.rec, {{-1, seedop >= 0 ? &ts : &td}}, cm);
    std::map<int, const Rec*> byop; for (auto& x : m.rec) byop[x.op] = &x;
    int interleaved = 0; { int last = -1; for (auto& x : p.ops) if (x.stream >= 0) { if (last >= 0 && x.stream != last) interleaved++; last = x.stream; } }
    for (int st = 0; st < p.nstreams; st++) {
        std::vector<int> map; bool withseed = seedop >= 0 && st == first;
        Plan f = filtered(p, [&](size_t, const Op& op) { return op.stream == st || (op.kind == K_SEED && withseed); }, map);
        if (f.ops.empty()) continue;
        ExecResult r; if (!go(f, o, r, v, s, "solo stream")) return;
        std::vector<char> cs; mark_comfort(f, r.rec, {{-1, withseed ? &ts : &td}}, cs);
        for (auto& x : r.rec) {
            int oi = map[(size_t)x.op]; const Rec* y = byop[oi]; if (!y) continue;
            bool ca = cm[(size_t)oi], cb = cs[(size_t)x.op];
            const char* d = rec_diff(*y, x, ca && cb ? SK_PCM : 0);
            if (ca != cb) d = "audio source (comfort noise or decoded)";
            if (d) { report(v, std::string("C02.") + d, oi, "stream %d, call %d (%s %s): %s differs from the stream decoded by itself", st, oi, kind_name[p.ops[(size_t)oi].kind], codec_name[p.ops[(size_t)oi].codec], d); return; }
            s.add("oracle.calls_compared"); if (ca) s.add("probe.comfort_frame");
        }
    }
    uint64_t h = 1; for (auto& x : p.ops) { uint64_t w[3] = {(uint64_t)x.stream, (uint64_t)x.kind, (uint64_t)x.codec}; h = hash_bytes(w, 24, h); }
    s.sig("interleavings", h);
    if (interleaved > 2) s.add("nontrivial");
}
static RegProp r02("C02", gen_c02, chk_c02);

// ------------------------------------------------------------------------------------------- C03
static void gen_c03(Rng& q, Plan& p, bool thorough) {
    p.nstreams = q.range(1, 3);
    Op sd = mk(K_SEED); sd.a = q.p(.15) ? (int)q.below(2) : (int)q.next(); p.ops.push_back(sd);
    std::vector<Traffic> tr((size_t)p.nstreams); for (auto& x : tr) x.swarm(q, (int)q.below(4));
    int n = q.range(3, thorough ? 60 : 30); double sp = q.p(.04) ? .1 : 0;
    for (int k = 0; k < n; k++) {
        size_t w = q.below((uint32_t)p.nstreams); double r = q.uni();
        if (q.p(sp)) spell(q, p.ops, (int)w, tr[w].codec);
        if (r < .08) { Op o; stateless(q, o, tr[w].codec); p.ops.push_back(o); }
        else if (r < .11) { Op o = mk(K_SEED); o.a = (int)q.next(); p.ops.push_back(o); }
        else if (r < .15) p.ops.push_back(mk(K_QUERY, (int)w));
        else if (r < .18) { Op o = mk(K_MOVE, (int)w); o.a = (int)q.below(2); p.ops.push_back(o); }
        else if (r < .20) p.ops.push_back(mk(K_INIT, (int)w));
        else { Op o = q.p(.1) ? tr[w].manual(q, (int)w) : tr[w].frame(q, (int)w); if (!plan_audible(o) || o.kind == K_MANUAL) {} else if (q.p(.05)) { o.kind = K_SPEECH; } else if (q.p(.05) && is_ambe(o.codec)) { o.kind = K_TONE; o.a = q.range(5, 122); } p.ops.push_back(o); }
    }
    p.knob["env"] = q.below(1u << 30); p.knob["prior"] = q.p(.8) ? 1 + q.below(1u << 20) : 0; p.knob["prior_main"] = q.p(.5) ? 1 + q.below(1u << 20) : 0;
    p.knob["dirty"] = q.below(4) ? 1 + q.below(1u << 30) : 0; p.knob["fill"] = q.below(4); p.knob["outfill"] = q.below(256);
}
static void chk_c03(const Plan& p, Verdict& v, Stats& s) {
    if (p.ops.empty() || p.ops[0].kind != K_SEED) return;
    count_plan(p, s);
    ExecOpt a; a.api = api_or("scalar"); a.fill = 0; a.outfill = 0; a.envseed = 1; a.align = -1;
    ExecResult ra; if (!go(p, a, ra, v, s, "first environment")) return;
    static const uint64_t fills[4] = {0xA5A5A5A5A5A5A5A5ull, 0x7FC000007FC00000ull, 0x3F8000003F800000ull, ~0ull};
    struct Alt { const char* name; const char* variant; bool env; };
    static const Alt alts[3] = {{"another environment and prior activity", "scalar", true}, {"other stale stack contents", "pat", true}, {"other stale stack contents", "zero", false}};
    long long envc = 0;
    for (auto& al : alts) {
        ExecOpt b; b.api = api_or(al.variant);
        if (al.env) { b.fill = fills[p.k("fill") & 3]; b.outfill = (int)p.k("outfill", 0x5A); b.envseed = (uint64_t)p.k("env", 7); b.dirty = (uint64_t)p.k("dirty"); b.prior = (int)p.k("prior"); b.prior_main = (int)p.k("prior_main"); b.heap_pad = 1 + (int)(p.k("env") & 0xffff); b.align = 1 + p.k("env"); s.add("env.caller_buffers_at_odd_addresses"); }
        else { b.fill = 0; b.outfill = 0; }
        ExecResult rb; if (!go(p, b, rb, v, s, al.name)) return;
        envc += rb.env_calls;
        if (rb.rec.size() != ra.rec.size()) { report(v, "C03.lost", -1, "different number of calls"); return; }
        for (size_t i = 0; i < ra.rec.size(); i++) {
            const char* d = rec_diff(ra.rec[i], rb.rec[i]);
            if (d) { report(v, std::string("C03.") + d, ra.rec[i].op, "call %d (%s %s): %s changed with %s", ra.rec[i].op, kind_name[p.ops[(size_t)ra.rec[i].op].kind], codec_name[p.ops[(size_t)ra.rec[i].op].codec], d, al.name); return; }
        }
        s.add("oracle.calls_compared", (long long)ra.rec.size());
    }
    s.add("fault.prior_activity", p.k("prior") != 0); s.add("fault.prior_activity_elsewhere", p.k("prior_main") != 0); s.add("fault.stale_stack", p.k("dirty") != 0);
    s.add("fault.stale_heap"); s.add("fault.environment_changed"); s.add("env.calls_seen", envc);
    if (ra.rec.size() > 3) s.add("nontrivial");
}
static RegProp r03("C03", gen_c03, chk_c03);

// ------------------------------------------------------------------------------------------- C04
// Op.a is the logical frame number inside the stream. Two incarnations of the service, split at knob "restart":
// the first runs under the schedule and dies after knob "die" slots; the second resumes every stream from its last checkpoint.
// the service may have been handed streams another process decoded until then: the states they arrive in
static bool donor_states(const Plan& p, const Api* api, std::map<int, Triplet>& out, Verdict& v, Stats& s) {
    long long d = p.k("donor"); if (!d) return true;
    Plan f; f.prop = p.prop; f.nstreams = p.nstreams;
    for (int st = 0; st < p.nstreams; st++) {
        Rng q(mix64((uint64_t)d, (uint64_t)st)); Op o = mk(K_SEED, st); o.a = (int)q.next(); f.ops.push_back(o);
        Traffic t; t.swarm(q, (int)q.below(4)); t.calm(); t.p_data = t.p_layer = 0; int n = q.range(1, 8);
        for (int i = 0; i < n; i++) f.ops.push_back(t.frame(q, st));
        f.ops.push_back(mk(K_CKPT, st));
    }
    ExecOpt o; o.api = api; ExecResult r; if (!go(f, o, r, v, s, "donor process")) return false;
    out = r.ckpt_out; s.add("fault.stream_arrives_midway", out.size());
    return true;
}
static void gen_c04(Rng& q, Plan& p, bool thorough) {
    p.nthreads = q.range(2, 3); p.nstreams = q.range(1, 3);
    bool restart = q.p(.5), donor = q.p(.6);
    if (q.p(.3)) p.variant = "simd";
    if (donor) p.knob["donor"] = 1 + (long long)q.below(1u << 30);
    std::vector<std::vector<Op>> logical((size_t)p.nstreams);
    for (int st = 0; st < p.nstreams; st++) {
        Traffic t; t.swarm(q, (int)q.below(4)); int n = q.range(4, thorough ? 40 : 20);
        std::vector<Op> l; int sp = q.p(.04) ? q.range(0, n - 1) : -1;
        for (int i = 0; i < n; i++) {
            Op o = q.p(.1) ? t.manual(q, st) : t.frame(q, st); if (!t.pend && q.p(.04)) { int c = (int)q.below(4); t.swarm(q, c); }
            l.push_back(o); if (i == sp && !t.pend) spell(q, l, st, t.codec);
        }
        for (size_t i = 0; i < l.size(); i++) l[i].a = (int)i;
        logical[(size_t)st] = l;
    }
    // first incarnation: each stream lives on a worker; checkpoints, handovers, worker deaths
    std::vector<std::vector<Op>> seq((size_t)p.nstreams);
    std::vector<int> owner((size_t)p.nstreams), at((size_t)p.nstreams), ck((size_t)p.nstreams, -1);
    std::vector<char> deadt((size_t)p.nthreads, 0);
    for (int st = 0; st < p.nstreams; st++) {
        int tid = (int)q.below((uint32_t)p.nthreads); int i = 0, n = (int)logical[(size_t)st].size(), cke = -1; int guard = 0;
        int end = restart ? q.range(1, n) : n;
        if (donor) { Op r = mk(K_RESTORE, st, tid); r.a = -3; seq[(size_t)st].push_back(r); }
        Op c0 = mk(K_CKPT, st, tid); c0.a = 0; seq[(size_t)st].push_back(c0); cke = 0;
        while (i < end && guard++ < 2 * n + 160) {
            Op o = logical[(size_t)st][(size_t)i]; o.tid = tid;
            if (q.p(.25)) { Op c = mk(K_CKPT, st, tid); c.a = i; seq[(size_t)st].push_back(c); cke = i; }
            if (q.p(.12)) { Op m = mk(K_MOVE, st, tid); m.b = 0; seq[(size_t)st].push_back(m); }
            if (q.p(.15)) {   // abandoned mid-stream: resume elsewhere from the checkpoint
                bool die = p.nthreads > 1 && q.p(.5) && std::count(deadt.begin(), deadt.end(), 0) > 1 && p.nstreams == 1;
                if (die) { o.b = q.logu(1, 60000); deadt[(size_t)tid] = 1; }
                seq[(size_t)st].push_back(o);
                int nt = tid; for (int g = 0; g < 20; g++) { nt = (int)q.below((uint32_t)p.nthreads); if (!deadt[(size_t)nt] && nt != tid) break; }
                if (deadt[(size_t)nt]) for (int g = 0; g < p.nthreads; g++) if (!deadt[(size_t)g]) nt = g;
                tid = nt;
                Op r = mk(K_RESTORE, st, tid); r.a = cke; seq[(size_t)st].push_back(r); i = cke; continue;
            }
            seq[(size_t)st].push_back(o); i++;
            if (q.p(.1)) { int nt = (int)q.below((uint32_t)p.nthreads); if (!deadt[(size_t)nt]) tid = nt; }   // migration between calls
        }
        (void)owner; (void)at; (void)ck;
    }
    std::vector<size_t> pos((size_t)p.nstreams, 0);
    for (;;) { std::vector<int> can; for (int st = 0; st < p.nstreams; st++) if (pos[(size_t)st] < seq[(size_t)st].size()) can.push_back(st); if (can.empty()) break; int st = can[q.below((uint32_t)can.size())]; p.ops.push_back(seq[(size_t)st][pos[(size_t)st]++]); }
    add_sched(q, p, q.range(10, 120), q.p(.2));
    if (restart) {
        p.knob["restart"] = (long long)p.ops.size();
        p.knob["die"] = q.range(1, (int)p.sched.size());
        for (int st = 0; st < p.nstreams; st++) {
            Op r = mk(K_RESTORE, st, st % p.nthreads); r.a = -1; p.ops.push_back(r);
            for (auto& o : logical[(size_t)st]) { Op x = o; x.tid = st % p.nthreads; p.ops.push_back(x); }
        }
    }
}
static void chk_c04(const Plan& p0, Verdict& v, Stats& s) {
    Plan p = p0; int cut = (int)p.k("restart", -1);
    count_plan(p, s);
    ExecOpt o; o.api = api_or(p.variant.c_str()); o.multi = true;
    ComfortTable tb; if (!comfort_table(p, false, 0, (int)p.ops.size() + 1, tb, v, s)) return;
    // logical streams, from the plan itself
    std::map<int, std::map<int, Op>> logical;
    for (auto& x : p.ops) if (plan_audible(x) && x.stream >= 0) { Op y = x; y.tid = 0; y.b = 0; logical[x.stream].emplace(x.a, y); }
    std::vector<std::pair<Plan, ExecResult>> runs;
    Plan a = p;
    if (cut >= 0) {
        if (cut > (int)p.ops.size()) return;
        a.ops.resize((size_t)cut);
    }
    ExecResult ra; std::map<int, Triplet> don;
    if (!donor_states(p, o.api, don, v, s)) return;
    o.ckpt_in = don;
    if (cut >= 0) o.stop_slot = p.k("die", 5);
    if (!go(a, o, ra, v, s, "first incarnation")) return;
    s.sig("schedules", ra.sr.trace_hash); s.add("sched.switches", ra.sr.switches); s.add("sched.midcall_preemptions", ra.sr.midcall);
    if (ra.inconclusive) { s.add("runs.inconclusive"); return; }
    runs.push_back({a, ra});
    if (cut >= 0) {
        s.add("fault.process_restart"); if ((size_t)ra.rec.size() < a.ops.size()) s.add("fault.process_died_midrun");
        Plan b = p; b.ops.clear(); b.sched.clear(); b.knob.erase("restart");
        // each stream resumes at the frame its durable checkpoint was taken before
        std::map<int, int> ckf; for (auto& x : ra.rec) if (a.ops[(size_t)x.op].kind == K_CKPT) ckf[a.ops[(size_t)x.op].stream] = a.ops[(size_t)x.op].a;
        for (size_t i = (size_t)cut; i < p.ops.size(); i++) {
            Op x = p.ops[i]; auto c = ckf.find(x.stream); int from = c == ckf.end() ? 0 : c->second;
            if (x.kind == K_RESTORE) { if (c != ckf.end() || don.count(x.stream)) b.ops.push_back(x); continue; }
            if (x.a >= from) b.ops.push_back(x);
        }
        ExecOpt o2; o2.api = o.api; o2.multi = true; o2.ckpt_in = ra.ckpt_out; o2.outfill = 0x21; o2.fill = 0x1122334455667788ull;
        ExecResult rb; if (!go(b, o2, rb, v, s, "second incarnation")) return;
        if (!rb.inconclusive) runs.push_back({b, rb});
    }
    // a minimised plan may have lost frames: a run is only comparable while its logical history is gapless
    for (auto& l : logical) {
        std::vector<int> nums; Plan f = p; f.ops.clear(); f.sched.clear(); f.nthreads = 1;
        int expect = 0; for (auto& x : l.second) { if (x.first != expect) break; f.ops.push_back(x.second); expect++; }
        if (f.ops.empty()) continue;
        size_t off = 0; if (don.count(l.first)) { Op r = mk(K_RESTORE, l.first); r.a = -3; f.ops.insert(f.ops.begin(), r); off = 1; }
        ExecOpt so; so.api = o.api; so.ckpt_in = don; ExecResult base; if (!go(f, so, base, v, s, "uninterrupted run")) return;
        std::vector<char> cb; mark_comfort(f, base.rec, {{-1, &tb}}, cb);
        for (auto& pr : runs) {
            std::vector<char> cr; mark_comfort(pr.first, pr.second.rec, {{-1, &tb}}, cr);
            int cur = 0, ckat = -1; bool valid = true; bool resumed = false;
            if (&pr != &runs[0]) { ckat = -2; }
            for (auto& x : pr.second.rec) {
                const Op& op = pr.first.ops[(size_t)x.op]; if (op.stream != l.first) continue;
                if (op.kind == K_CKPT) { if (!valid || op.a != cur) { ckat = -1; } else ckat = cur; continue; }
                if (op.kind == K_RESTORE && op.a == -3) { cur = 0; valid = true; ckat = -1; continue; }
                if (op.kind == K_RESTORE) {
                    resumed = true; s.add("fault.restart");
                    if (ckat == -2) { bool f0 = false; for (auto& y : pr.first.ops) if (y.stream == l.first && plan_audible(y)) { cur = y.a; f0 = true; break; } valid = f0 && cut >= 0; ckat = cur; }
                    else { valid = ckat >= 0; cur = ckat; }
                    continue;
                }
                if (!plan_audible(op)) continue;
                if (op.b > 0 && &pr == &runs[0]) { cur = -1; valid = false; continue; }   // the dying call itself
                if (op.a != cur || cur + off >= base.rec.size()) valid = false;
                if (!valid) continue;
                const Rec& y = base.rec[(size_t)cur + off];
                bool c1 = cr[(size_t)x.op], c2 = cb[(size_t)y.op];
                const char* d = rec_diff(x, y, c1 && c2 ? SK_PCM : 0);
                if (c1 != c2) d = "audio source (comfort noise or decoded)";
                if (d) { report(v, std::string("C04.") + d, x.op, "stream %d frame %d (%s %s)%s: %s differs from the uninterrupted decode", l.first, cur, kind_name[op.kind], codec_name[op.codec], resumed ? " after resuming" : "", d); return; }
                s.add("oracle.calls_compared"); cur++;
                if (resumed) s.add("probe.frames_after_resume");
            }
            if (resumed) s.add("nontrivial");
        }
    }
}
static RegProp r04("C04", gen_c04, chk_c04);
