// Workload and fault generators. Everything a run does is fixed in the plan before it is executed.
#pragma once
#include "sim.h"

enum Cls { VOICE = 0, SMOOTH, HELD, SILENCE, ERASURE, TONE, TONEBAD, INVALID, RANDOM, EXTREME, NCLS };
extern const char* cls_name[NCLS];

void set_field(std::string& d, const std::vector<int>& pos, unsigned v);
unsigned get_field(const std::string& d, const std::vector<int>& pos);
std::string gen_bits(Rng& q, int codec, int cls, const std::string& last);
bool tone_bits_2450(Rng& q, std::string& d, int id, int ad);

enum Dmg { D_NONE = 0, D_FEW, D_EDGE, D_C0, D_HEAVY, D_GARBAGE, D_UNPROT, D_MAX, D_SOME, NDMG };
extern const char* dmg_name[NDMG];
std::vector<int> gen_flips(Rng& q, int codec, int dmg);

// One stream's traffic: a Markov mix of frame classes over a Gilbert-Elliott channel.
struct Traffic {
    int codec = A25; double w[NCLS] = {0};
    double p_bad = .05, p_recover = .3, p_few = .2, p_heavy = .5;
    double iso = 0, p_short = .3, p_data = .25, p_layer = .1;
    bool bad = false, after_bad = false; int hold = 0, cls = VOICE, burst_d = D_HEAVY;
    std::string last;
    void swarm(Rng& q, int codec_);       // random mix for this run
    void calm();                          // mostly clean voice
    bool pend = false; Op fin;            // second half of a layered call in progress
    Op frame(Rng& q, int stream);
    Op manual(Rng& q, int stream);        // the layered pipeline, in one call or in two with other work in between
};
void stretch(Rng& q, std::vector<Op>& ops, int stream, int codec);   // long stretches short mixes do not reach
void spell(Rng& q, std::vector<Op>& ops, int stream, int codec, int tid = 0);   // one stream in one regime for long
void to_manual(Op& o);
Op touch(Rng& q, int stream, int tid = 0);   // enhancement or smoothing asked for on its own
int rng_seed(Rng& q);
Op mk(int kind, int stream = -1, int tid = 0);
