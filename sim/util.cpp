#include "sim.h"
#include <math.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <sstream>

const char* codec_name[4] = {"AMBE2400", "AMBE2450", "IMBE7200", "IMBE7100"};
const char* kind_name[K_NKINDS] = {"FRAME", "DATA", "LAYER", "INIT", "SEED", "COMFORT", "SILENCE", "ECC", "QUERY", "CKPT", "RESTORE", "CONV", "TONE", "SPEECH", "DIRTY", "MOVE", "MANUAL", "ENHANCE", "SMOOTH", "DUMP"};

int Rng::logu(int lo, int hi) {
    double l = log((double)lo), h = log((double)hi);
    int v = (int)floor(exp(l + (h - l) * uni()) + 0.5);
    return v < lo ? lo : (v > hi ? hi : v);
}

void Stats::sig(const std::string& k, uint64_t v) { sets[k].push_back(v); }
std::string Stats::to_text() const {
    std::ostringstream o;
    for (auto& i : n) o << "n " << i.first << " " << i.second << "\n";
    for (auto& i : sets) {
        std::set<uint64_t> u(i.second.begin(), i.second.end());
        o << "s " << i.first;
        for (uint64_t x : u) { char b[20]; snprintf(b, 20, " %llx", (unsigned long long)x); o << b; }
        o << "\n";
    }
    return o.str();
}
void Stats::merge_text(const std::string& t) {
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string tag, k; l >> tag >> k;
        if (tag == "n") { long long v; l >> v; n[k] += v; }
        else if (tag == "s") { std::string x; auto& s = sets[k]; while (l >> x) s.push_back(strtoull(x.c_str(), nullptr, 16)); }
    }
    for (auto& i : sets) if (i.second.size() > 400000) { std::sort(i.second.begin(), i.second.end()); i.second.erase(std::unique(i.second.begin(), i.second.end()), i.second.end()); }
}

static std::string hexbits(const std::string& d) {   // compact
    return d.empty() ? "-" : d;
}
std::string plan_to_text(const Plan& p) {
    std::ostringstream o;
    o << "simplan 1\nprop " << p.prop << "\nvariant " << p.variant << "\nseed " << p.seed << "\nthreads " << p.nthreads << "\nstreams " << p.nstreams << "\n";
    for (auto& k : p.knob) o << "knob " << k.first << " " << k.second << "\n";
    for (auto& op : p.ops) {
        o << "op t" << op.tid << " s" << op.stream << " " << kind_name[op.kind] << " " << codec_name[op.codec] << " " << (op.shorty ? "short" : "float")
          << " e" << op.errs << " E" << op.errs2 << " u" << op.uv << " a" << op.a << " b" << op.b << " d" << hexbits(op.data) << " x";
        for (size_t i = 0; i < op.flips.size(); i++) o << (i ? "," : "") << op.flips[i];
        o << " n" << op.note << "\n";
    }
    for (auto& s : p.sched) o << "run t" << s.tid << " " << s.edges << "\n";
    for (int a : p.allocfail) o << "allocfail " << a << "\n";
    o << "end\n";
    return o.str();
}
bool plan_from_text(const std::string& t, Plan& p, std::string* err) {
    std::istringstream in(t);
    std::string line; bool ended = false;
    p = Plan();
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string tag; l >> tag;
        if (tag == "simplan" || tag.empty() || tag[0] == '#') continue;
        if (tag == "end") { ended = true; break; }
        if (tag == "prop") l >> p.prop;
        else if (tag == "variant") l >> p.variant;
        else if (tag == "seed") l >> p.seed;
        else if (tag == "threads") l >> p.nthreads;
        else if (tag == "streams") l >> p.nstreams;
        else if (tag == "knob") { std::string k; long long v; l >> k >> v; p.knob[k] = v; }
        else if (tag == "run") { Sched s; std::string x; l >> x >> s.edges; s.tid = atoi(x.c_str() + 1); p.sched.push_back(s); }
        else if (tag == "allocfail") { int a; l >> a; p.allocfail.push_back(a); }
        else if (tag == "op") {
            Op op; std::string w; int n = 0;
            while (l >> w) {
                if (n == 0) op.tid = atoi(w.c_str() + 1);
                else if (n == 1) op.stream = atoi(w.c_str() + 1);
                else if (n == 2) { for (int i = 0; i < K_NKINDS; i++) if (w == kind_name[i]) op.kind = i; }
                else if (n == 3) { for (int i = 0; i < 4; i++) if (w == codec_name[i]) op.codec = i; }
                else if (n == 4) op.shorty = (w == "short");
                else if (w[0] == 'e') op.errs = atoi(w.c_str() + 1);
                else if (w[0] == 'E') op.errs2 = atoi(w.c_str() + 1);
                else if (w[0] == 'u') op.uv = atoi(w.c_str() + 1);
                else if (w[0] == 'a') op.a = atoi(w.c_str() + 1);
                else if (w[0] == 'b') op.b = atoi(w.c_str() + 1);
                else if (w[0] == 'd') { op.data = w.substr(1); if (op.data == "-") op.data.clear(); }
                else if (w[0] == 'x') { const char* q = w.c_str() + 1; while (*q) { op.flips.push_back((int)strtol(q, (char**)&q, 10)); if (*q == ',') q++; } }
                else if (w[0] == 'n') op.note = w.substr(1);
                n++;
            }
            p.ops.push_back(op);
        } else { if (err) *err = "bad line: " + line; return false; }
    }
    if (!ended && err) *err = "truncated plan";
    return ended;
}

void report(Verdict& v, const std::string& cls, int op, const char* fmt, ...) {
    if (v.bad()) return;
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char* c = buf; *c; c++) if (*c == '\n') *c = ' ';
    v.cls = cls; v.msg = buf; v.op = op;
}

std::set<std::string>& known_classes() { static std::set<std::string> k; return k; }
void report_known(Verdict& v, Stats& s, const std::string& cls, int op, const char* msg) {
    if (known_classes().count(cls)) s.add("known." + cls); else report(v, cls, op, "%s", msg);
}

static std::string crash_class(int status, const std::string& err) {
    // sanitizer: "SUMMARY: AddressSanitizer: heap-buffer-overflow file:line in func" ; ubsan: "file:l:c: runtime error: ..."
    size_t p = err.find("runtime error: ");
    if (p != std::string::npos) {
        std::string m = err.substr(p + 15, 160);
        m = m.substr(0, m.find('\n'));
        std::string o; bool dig = false;
        for (char c : m) { if (c >= '0' && c <= '9') { if (!dig) o += 'N'; dig = true; } else { dig = false; o += (c == ' ') ? '_' : c; } }
        // keep the kind only: text before the value
        size_t b0 = err.rfind('\n', p); b0 = b0 == std::string::npos ? 0 : b0 + 1;
        std::string f = err.substr(b0, err.find(':', b0) - b0);
        size_t sl = f.rfind('/'); if (sl != std::string::npos) f = f.substr(sl + 1);
        return "ubsan:" + f + ":" + o.substr(0, 60);
    }
    p = err.find("SUMMARY: ");
    if (p != std::string::npos) {
        std::string m = err.substr(p + 9); m = m.substr(0, m.find('\n'));
        size_t in = m.rfind(" in "); std::string fn = in == std::string::npos ? "?" : m.substr(in + 4);
        size_t c = m.find(": "); std::string k = c == std::string::npos ? m : m.substr(c + 2); k = k.substr(0, k.find(' '));
        for (auto& ch : fn) if (ch == ' ') ch = '_';
        return "asan:" + k + ":" + fn;
    }
    char b[64];
    if (WIFSIGNALED(status)) snprintf(b, 64, "signal:%d", WTERMSIG(status));
    else snprintf(b, 64, "exit:%d", WEXITSTATUS(status));
    return b;
}

bool run_forked(const std::function<void(std::string&)>& fn, std::string& out, std::string& crash, int timeout_s) {
    int pf[2]; if (pipe(pf)) { crash = "harness:pipe"; return false; }
    int ef = memfd_create("simerr", 0);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { crash = "harness:fork"; return false; }
    if (pid == 0) {
        close(pf[0]);
        struct rlimit rl = {(rlim_t)timeout_s, (rlim_t)timeout_s + 2}; setrlimit(RLIMIT_CPU, &rl);   // a hang is processor time, not machine load
        if (ef >= 0) { dup2(ef, 2); }
        std::string o; fn(o);
        const char* b = o.data(); size_t n = o.size();
        while (n) { ssize_t w = write(pf[1], b, n); if (w <= 0) { if (errno == EINTR) continue; break; } b += w; n -= (size_t)w; }
        const char done = '\x04'; (void)!write(pf[1], &done, 1);
        _exit(0);
    }
    close(pf[1]);
    out.clear();
    time_t t0 = time(nullptr); bool timedout = false;
    char buf[65536];
    for (;;) {
        struct pollfd q = {pf[0], POLLIN, 0};
        int pr = poll(&q, 1, 1000);
        if (pr > 0) { ssize_t r = read(pf[0], buf, sizeof buf); if (r <= 0) break; out.append(buf, (size_t)r); }
        else if (pr < 0 && errno != EINTR) break;
        if (time(nullptr) - t0 > 6 * timeout_s) { timedout = true; kill(pid, SIGKILL); break; }
    }
    close(pf[0]);
    int st = 0; waitpid(pid, &st, 0);
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !out.empty() && out.back() == '\x04';
    if (ok) out.pop_back();
    else {
        std::string err;
        if (ef >= 0) { lseek(ef, 0, SEEK_SET); ssize_t r; while ((r = read(ef, buf, sizeof buf)) > 0 && err.size() < 200000) err.append(buf, (size_t)r); }
        crash = timedout || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU)) ? "hang" : crash_class(st, err);
        if (getenv("SIM_SHOWERR")) fprintf(stderr, "%s\n", err.c_str());
    }
    if (ef >= 0) close(ef);
    return ok;
}
