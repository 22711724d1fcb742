// Entry point: run seeds, replay a plan, minimise a plan.
#include "sim.h"
#include <atomic>
#include <fcntl.h>
#include <sys/mman.h>
#include <stdlib.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static std::string slurp(const char* f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f); o << t; }
static uint64_t plan_seed(uint64_t s, const std::string& prop, uint64_t i) { return mix64(mix64(s, hash_bytes(prop.data(), prop.size())), i); }
static Plan make_plan(const Property& P, uint64_t seed, uint64_t i, bool thorough) {
    Plan p; p.prop = P.id; p.seed = plan_seed(seed, P.id, i);
    Rng q(p.seed); P.gen(q, p, thorough);
    Rng qa(p.seed ^ 0xA119ull); if (qa.p(.4)) p.knob["align"] = 1 + qa.below(1u << 20);   // caller buffers at odd addresses
    return p;
}
static bool fails_same(const Property& P, const Plan& p, const std::string& cls, Verdict* out = nullptr) {
    Verdict v; Stats st; P.check(p, v, st);
    if (out) *out = v;
    return v.bad() && v.cls == cls;
}
// Delta debugging over operations, schedule slots, flips and allocation failures, within a time limit.
static Plan minimise(const Property& P, Plan p, const std::string& cls, double limit) {
    double t0 = now();
    auto left = [&] { return now() - t0 < limit; };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t chunk = std::max<size_t>(p.ops.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
            for (size_t i = 0; i + chunk <= p.ops.size() && left();) {
                Plan q = p; q.ops.erase(q.ops.begin() + (long)i, q.ops.begin() + (long)(i + chunk));
                if (!q.ops.empty() && fails_same(P, q, cls)) { p = q; progress = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t chunk = std::max<size_t>(p.sched.size() / 2, 1); !p.sched.empty() && chunk >= 1 && left(); chunk /= 2) {
            for (size_t i = 0; i + chunk <= p.sched.size() && left();) {
                Plan q = p; q.sched.erase(q.sched.begin() + (long)i, q.sched.begin() + (long)(i + chunk));
                if (fails_same(P, q, cls)) { p = q; progress = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < p.allocfail.size() && left();) { Plan q = p; q.allocfail.erase(q.allocfail.begin() + (long)i); if (fails_same(P, q, cls)) { p = q; progress = true; } else i++; }
    }
    for (size_t i = 0; i < p.ops.size() && left(); i++) {
        if (!p.ops[i].flips.empty()) { Plan q = p; q.ops[i].flips.clear(); if (fails_same(P, q, cls)) p = q; }
        for (size_t k = 0; k < p.ops[i].flips.size() && left();) { Plan q = p; q.ops[i].flips.erase(q.ops[i].flips.begin() + (long)k); if (fails_same(P, q, cls)) p = q; else k++; }
        if (p.ops[i].errs2 && left()) { Plan q = p; q.ops[i].errs = q.ops[i].errs2 = 0; if (fails_same(P, q, cls)) p = q; }
        if (p.ops[i].shorty && left()) { Plan q = p; q.ops[i].shorty = 0; if (fails_same(P, q, cls)) p = q; }
        if (p.ops[i].uv != 3 && left()) { Plan q = p; q.ops[i].uv = 3; if (fails_same(P, q, cls)) p = q; }
    }
    return p;
}

int main(int argc, char** argv) {
    // fixed addresses: one plan, one execution
    if (!getenv("SIM_NOASLR")) { int pers = personality(0xffffffff); setenv("SIM_NOASLR", "1", 1); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    std::map<std::string, std::string> a; std::vector<std::string> pos;
    for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s.rfind("--", 0) == 0) { std::string v = (i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) ? argv[++i] : "1"; a[s.substr(2)] = v; } else pos.push_back(s); }
    if (pos.empty()) { fprintf(stderr, "usage: sim run|replay|minimise|gen ...\n"); return 2; }
    if (a.count("known")) { std::stringstream k(a["known"]); std::string c; while (std::getline(k, c, ',')) known_classes().insert(c); }
    bool thorough = a.count("thorough") && a["thorough"] == "1";
    if (pos[0] == "list") { for (auto& p : properties()) printf("%s\n", p.id); return 0; }
    if (pos[0] == "run" || pos[0] == "gen") {
        const Property* P = find_property(a["prop"]);
        if (!P) { fprintf(stderr, "no such property\n"); return 2; }
        uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10), from = strtoull(a["from"].c_str(), nullptr, 10), step = a.count("step") ? strtoull(a["step"].c_str(), nullptr, 10) : 1, to = strtoull(a["to"].c_str(), nullptr, 10);
        if (pos[0] == "gen") { std::cout << plan_to_text(make_plan(*P, seed, from, thorough)); return 0; }
        double limit = a.count("limit") ? atof(a["limit"].c_str()) : 1e9, t0 = now();
        Stats total; bool each = a.count("hashes");
        // With --ticket the workers of one batch share a counter and each takes the next run that nobody has taken.
        std::atomic<uint64_t>* ticket = nullptr;
        if (a.count("ticket")) {
            int fd = open(a["ticket"].c_str(), O_RDWR | O_CREAT, 0600);
            if (fd < 0 || ftruncate(fd, 8)) { perror("ticket"); return 2; }
            void* m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
            if (m == MAP_FAILED) { perror("ticket"); return 2; }
            ticket = (std::atomic<uint64_t>*)m;
        }
        bool first = true;
        for (uint64_t i = ticket ? from + ticket->fetch_add(1) : from; i < to; i = ticket ? from + ticket->fetch_add(1) : i + step) {
            if (now() - t0 > limit || (a.count("stop") && access(a["stop"].c_str(), F_OK) == 0)) { total.add("runs.skipped_for_time"); continue; }
            Plan p = make_plan(*P, seed, i, thorough);
            Verdict v; Stats st; g_loghash = 1469598103934665603ull;
            P->check(p, v, st);
            std::string txt = plan_to_text(p);
            { Plan c = p; c.seed = 0; std::string ct = plan_to_text(c); uint64_t h = hash_bytes(ct.data(), ct.size()); st.sig("plans", h); if (st.n["nontrivial"] > 0) { st.sig("nontrivial_plans", h); st.n["nontrivial"] = 1; } }
            total.merge_text(st.to_text());
            total.add("runs");
            if (each) printf("H %llu %016llx\n", (unsigned long long)i, (unsigned long long)g_loghash);
            if (first && a.count("sample")) spit(a["sample"], txt);
            first = false;
            if (v.bad()) {
                char nm[64]; snprintf(nm, sizeof nm, "/viol-%llu.plan", (unsigned long long)i);
                spit(a["out"] + nm, txt);
                if (a.count("stop")) spit(a["stop"], "1");
                printf("V %llu %s %s%s | %s\n", (unsigned long long)i, v.cls.c_str(), a["out"].c_str(), nm, v.msg.c_str());
                break;
            }
        }
        printf("S\n%sE\n", total.to_text().c_str());
        return 0;
    }
    Plan p; std::string err;
    if (!plan_from_text(slurp(pos[1].c_str()), p, &err)) { fprintf(stderr, "%s: %s\n", pos[1].c_str(), err.c_str()); return 2; }
    const Property* P = find_property(p.prop);
    if (!P) { fprintf(stderr, "no such property %s\n", p.prop.c_str()); return 2; }
    if (pos[0] == "replay") {
        Verdict v; Stats st; P->check(p, v, st);
        if (v.bad()) { printf("FAIL %s | op %d | %s | log %016llx\n", v.cls.c_str(), v.op, v.msg.c_str(), (unsigned long long)g_loghash); return 1; }
        printf("PASS | log %016llx\n%s", (unsigned long long)g_loghash, a.count("stats") ? st.to_text().c_str() : "");
        return 0;
    }
    if (pos[0] == "minimise") {
        Verdict v; Stats st; P->check(p, v, st);
        if (!v.bad()) { printf("PASS\n"); return 2; }
        Plan m = v.cls == "crash.hang" ? p : minimise(*P, p, v.cls, a.count("limit") ? atof(a["limit"].c_str()) : 60);
        spit(pos[2], plan_to_text(m));
        printf("MIN %s ops %zu->%zu sched %zu->%zu\n", v.cls.c_str(), p.ops.size(), m.ops.size(), p.sched.size(), m.sched.size());
        return 0;
    }
    return 2;
}
