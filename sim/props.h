#pragma once
#include "gen.h"
// Executes in a child; a crash becomes a verdict. False when the plan's outcome is decided (violation or crash).
bool go(const Plan& p, const ExecOpt& o, ExecResult& r, Verdict& v, Stats& s, const char* what, Stats* hookstats = nullptr);
const Api* api_or(const char* name);
// the thread's comfort sequence as hashes of successive frames, float and 16-bit
struct ComfortTable { std::vector<uint64_t> f, s; };
bool comfort_table(const Plan& p, bool seeded, uint32_t seed, int n, ComfortTable& t, Verdict& v, Stats& s);
// marks records whose audio is the next frame of the executing thread's comfort sequence
void mark_comfort(const Plan& p, const std::vector<Rec>& r, const std::map<int, ComfortTable*>& tab, std::vector<char>& is);
void count_plan(const Plan& p, Stats& s);
void add_sched(Rng& q, Plan& p, int nslots, bool focus);
std::vector<Property>& prop_list();
struct RegProp { RegProp(const char* id, std::function<void(Rng&, Plan&, bool)> g, std::function<void(const Plan&, Verdict&, Stats&)> c) { prop_list().push_back({id, g, c}); } };

// runs fn in a child process and brings verdict and statistics back; a crash becomes a verdict
bool in_child(const char* what, Verdict& v, Stats& s, const std::function<void(Verdict&, Stats&)>& fn, int cpu_s = 20);
struct Snap { Triplet post; std::vector<float> f; std::vector<short> s; std::string str; int errs = 0, errs2 = 0; bool has = false; double loud = 0; };   // loud: scale of everything that may sound in this call
void snap_hook(ExecOpt& o, std::vector<Snap>& v);   // v sized to the plan's operations
bool has_mark(const char* s, char c);
Op dump_op(Rng& q, const std::string& last);
