#include "gen.h"
#include <algorithm>
#include "loud.inc"

const char* cls_name[NCLS] = {"voice", "smooth", "held", "silence", "erasure", "tone", "badtone", "invalid", "random", "extreme"};
const char* dmg_name[NDMG] = {"none", "few", "edge", "c0", "heavy", "garbage", "unprotected", "max", "some"};

void set_field(std::string& d, const std::vector<int>& pos, unsigned v) {
    for (size_t i = 0; i < pos.size(); i++) d[(size_t)pos[i]] = ((v >> (pos.size() - 1 - i)) & 1) ? '1' : '0';
}
unsigned get_field(const std::string& d, const std::vector<int>& pos) {
    unsigned v = 0; for (int p : pos) v = v << 1 | (unsigned)(d[(size_t)p] == '1'); return v;
}
static const std::vector<int> B0_IMBE = {0, 1, 2, 3, 4, 5, 85, 86};
static const std::vector<int> B0_A25 = {0, 1, 2, 3, 37, 38, 39};
static const std::vector<int> B0_A24 = {0, 1, 2, 3, 4, 5, 48};

bool tone_bits_2450(Rng& q, std::string& d, int id, int ad) {
    d.assign(49, '0');
    for (int i = 24; i < 44; i++) d[(size_t)i] = q.p(.5) ? '1' : '0';
    set_field(d, {0, 1, 2, 3, 4, 5}, 63);
    set_field(d, {6, 7, 8, 9, 10, 11, 44}, (unsigned)ad);
    set_field(d, {12, 13, 14, 15, 16, 17, 18, 19}, (unsigned)id);
    bool zero = q.p(.6);
    set_field(d, {45, 46, 47, 48}, zero ? 0 : q.below(16));
    set_field(d, {20, 21, 22, 23}, zero ? q.below(16) : (unsigned)(id >> 4));
    return true;
}
static void tone_bits_2400(Rng& q, std::string& d, int id) {
    d.assign(49, '0');
    for (auto& c : d) c = q.p(.5) ? '1' : '0';
    set_field(d, {0, 1, 2, 3, 4, 5}, 63);
    static const int t7[8] = {1, 0, 0, 0, 0, 1, 1, 1}, t6[8] = {0, 0, 0, 1, 1, 1, 1, 0}, t5[8] = {0, 0, 1, 0, 1, 1, 0, 1};
    int want = (id >> 5) & 7;
    for (int k = 0; k < 8; k++) if ((t7[k] << 2 | t6[k] << 1 | t5[k]) == want) set_field(d, {6, 7, 8}, (unsigned)k);
    set_field(d, {9, 42, 43, 10, 11}, (unsigned)(id & 31));
}
std::string gen_bits(Rng& q, int codec, int cls, const std::string& last) {
    size_t n = (size_t)nbits(codec);
    std::string d(n, '0');
    auto rnd = [&] { for (auto& c : d) c = q.p(.5) ? '1' : '0'; };
    rnd();
    auto voiceb0 = [&] {
        if (!is_ambe(codec)) { set_field(d, B0_IMBE, q.below(208)); return; }
        set_field(d, codec == A24 ? B0_A24 : B0_A25, q.below(120));
    };
    switch (cls) {
        case VOICE: voiceb0(); break;
        case SMOOTH:   // slowly changing parameters
            if (last.size() == n) {
                d = last;
                int k = q.range(1, 4);
                for (int i = 0; i < k; i++) { int b = (int)q.below((uint32_t)n); d[(size_t)b] ^= 1; }
                unsigned b0 = get_field(d, is_ambe(codec) ? (codec == A24 ? B0_A24 : B0_A25) : B0_IMBE);
                if (is_ambe(codec) ? b0 >= 120 : b0 > 207) voiceb0();
            } else voiceb0();
            break;
        case HELD:
            if (last.size() != n) { voiceb0(); break; }
            d = last;
            if (q.p(.3)) {   // everything the same but the low, unprotected bits of the pitch
                const auto& b = is_ambe(codec) ? (codec == A24 ? B0_A24 : B0_A25) : B0_IMBE; size_t lo = codec == A25 ? 4 : codec == A24 ? 6 : 6;
                for (size_t i = lo; i < b.size(); i++) if (q.p(.6)) d[(size_t)b[i]] ^= 1;
                if (get_field(d, b) >= (is_ambe(codec) ? 120u : 208u)) d = last;
            }
            break;
        case SILENCE:
            if (codec == A25) set_field(d, B0_A25, 124 + q.below(2));
            else if (codec == A24) set_field(d, B0_A24, 119);
            else { set_field(d, B0_IMBE, q.below(208)); for (size_t i = 6; i < 48; i++) d[i] = '0'; }
            break;
        case ERASURE:
            if (codec == A25) { static const int e[6] = {120, 121, 122, 123, 126, 127}; unsigned b = (unsigned)e[q.below(6)]; set_field(d, B0_A25, b); if ((d[4] & d[5]) & 1) d[4] = '0'; }
            else if (codec == A24) set_field(d, B0_A24, 120 + q.below(6));
            else set_field(d, B0_IMBE, 208 + q.below(48));
            break;
        case TONE: {
            int id;
            if (codec == A25) { int r = (int)q.below(10); id = r < 5 ? q.range(5, 122) : q.range(128, 163); if (q.p(.2)) { static const int ed[9] = {5, 6, 7, 122, 128, 143, 144, 159, 163}; id = ed[q.below(9)]; } tone_bits_2450(q, d, id, q.p(.3) ? 127 : (int)q.below(128)); }
            else if (codec == A24) { id = q.p(.75) ? q.range(5, 122) : q.range(128, 163); tone_bits_2400(q, d, id); }
            else voiceb0();
            break; }
        case TONEBAD: {
            static const int bad[10] = {0, 1, 4, 123, 127, 164, 200, 254, 255, 3}; int id = bad[q.below(10)];
            if (codec == A25) tone_bits_2450(q, d, id, (int)q.below(128));
            else if (codec == A24) tone_bits_2400(q, d, id);
            else set_field(d, B0_IMBE, 208 + q.below(48));
            break; }
        case INVALID:
            if (is_ambe(codec)) { if (codec == A25) { set_field(d, {0, 1, 2, 3, 4, 5}, 63); set_field(d, {12, 13, 14, 15}, 5); set_field(d, {20, 21, 22, 23}, 10); set_field(d, {45, 46, 47, 48}, 1 + q.below(15)); } else set_field(d, B0_A24, 120 + q.below(8)); }
            else set_field(d, B0_IMBE, 208 + q.below(48));
            break;
        case RANDOM: break;
        case EXTREME: {
            int m = (int)q.below(8);
            if (m >= 6) {
                if (codec == A24) d = loud_a24[q.below(sizeof loud_a24 / sizeof *loud_a24)]; else if (codec == A25) d = loud_a25[q.below(sizeof loud_a25 / sizeof *loud_a25)]; else d = loud_imbe[q.below(sizeof loud_imbe / sizeof *loud_imbe)];
                int k = q.p(.6) ? 0 : q.range(1, 3); for (int i = 0; i < k; i++) d[6 + q.below(30)] ^= 1;
                break;
            }
            if (m == 0) d.assign(n, '0');
            else if (m == 1) d.assign(n, '1');
            else if (m == 2) for (size_t i = 0; i < n; i++) d[i] = (i & 1) ? '1' : '0';
            else if (m == 3) { size_t a = q.below((uint32_t)n), b = q.below((uint32_t)n); for (size_t i = std::min(a, b); i < std::max(a, b); i++) d[i] = '1'; }
            else { double p = m == 4 ? .03 : .97; for (auto& c : d) c = q.p(p) ? '1' : '0'; }
            static const int edge[9] = {0, 1, 119, 206, 207, 160, 100, 2, 118};
            int e = edge[q.below(9)];
            if (is_ambe(codec)) set_field(d, codec == A24 ? B0_A24 : B0_A25, (unsigned)std::min(e, 119)); else set_field(d, B0_IMBE, (unsigned)e);
            break; }
    }
    return d;
}

// protected blocks of a channel frame: row, highest bit, length, correctable, kind
struct Block { int row, hi, n, t; };
static std::vector<Block> blocks(int codec) {
    if (is_ambe(codec)) return {{0, 23, 23, 3}, {1, 22, 23, 3}};
    if (codec == I72) return {{0, 22, 23, 3}, {1, 22, 23, 3}, {2, 22, 23, 3}, {3, 22, 23, 3}, {4, 14, 15, 1}, {5, 14, 15, 1}, {6, 14, 15, 1}};
    return {{0, 18, 18, 3}, {1, 23, 23, 3}, {2, 22, 23, 3}, {3, 22, 23, 3}, {4, 14, 15, 1}, {5, 14, 15, 1}};
}
static void hit(Rng& q, std::vector<int>& f, const Block& b, int C, int k) {
    std::vector<int> idx; for (int i = 0; i < b.n; i++) idx.push_back(i);
    for (int i = 0; i < k && i < b.n; i++) { int j = i + (int)q.below((uint32_t)(b.n - i)); std::swap(idx[(size_t)i], idx[(size_t)j]); f.push_back(b.row * C + b.hi - idx[(size_t)i]); }
}
std::vector<int> gen_flips(Rng& q, int codec, int dmg) {
    std::vector<int> f; int C = fr_cols(codec); auto bl = blocks(codec);
    switch (dmg) {
        case D_NONE: break;
        case D_FEW: { int k = q.range(1, 3); for (int i = 0; i < k; i++) { const Block& b = bl[q.below((uint32_t)bl.size())]; hit(q, f, b, C, 1); } break; }
        case D_EDGE: for (auto& b : bl) if (q.p(.7)) hit(q, f, b, C, q.p(.5) ? b.t : q.range(0, b.t));
            if (is_ambe(codec) && q.p(.2)) f.push_back(0);
            break;
        case D_C0: hit(q, f, bl[0], C, q.range(2, 6)); break;
        case D_HEAVY: for (auto& b : bl) { int lim = b.t == 3 ? 6 : 3; hit(q, f, b, C, q.range(b.t, lim)); } break;
        case D_GARBAGE: { int n = fr_bits(codec); double p = q.p(.5) ? .5 : .15; for (int i = 0; i < n; i++) if (q.p(p)) f.push_back(i); break; }
        case D_MAX:   // as many corrected errors as the frame can report, without touching the repeat gates
            for (size_t i = 0; i < bl.size(); i++) {
                const Block& b = bl[i]; int data = b.t == 1 ? 11 : b.n - 11, k = b.t == 1 ? 1 : i == 0 ? (is_ambe(codec) ? (int)q.below(2) : 1) : (q.p(.97) ? 3 : 2);
                Block c = b; c.n = data; hit(q, f, c, C, k);
            }
            break;
        case D_SOME: {   // errors confined to some of the code words, each within what it corrects
            int keep = q.range(1, (1 << (int)bl.size()) - 1);
            for (size_t i = 0; i < bl.size(); i++) if (keep >> i & 1) hit(q, f, bl[i], C, q.p(.6) ? bl[i].t : q.range(1, bl[i].t));
            break; }
        case D_UNPROT: {
            int row = is_ambe(codec) ? 2 + (int)q.below(2) : (codec == I72 ? 7 : 6);
            int w = is_ambe(codec) ? (row == 2 ? 11 : 14) : (codec == I72 ? 7 : 23);
            int k = q.range(1, w); for (int i = 0; i < k; i++) f.push_back(row * C + (int)q.below((uint32_t)w));
            break; }
    }
    // two hits on one bit cancel: keep single ones
    std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end());
    return f;
}

void stretch(Rng& q, std::vector<Op>& ops, int stream, int codec) {
    int mode = (int)q.below(4); if (mode == 0 && is_ambe(codec)) codec = q.p(.5) ? I72 : I71;
    std::string d = gen_bits(q, codec, mode == 0 ? VOICE : mode == 1 ? (q.p(.5) ? EXTREME : SILENCE) : mode == 2 ? EXTREME : VOICE, ""), last = d;
    int n = mode == 0 ? q.range(48, 90) : q.range(20, 80); double other = q.p(.5) ? .02 : .1; bool shorty = q.p(.2), flap = q.p(.5);
    for (int i = 0; i < n; i++) {
        Op o = mk(K_FRAME, stream); o.codec = codec; o.shorty = shorty; int dm = D_NONE;
        if (mode == 0) { dm = q.p(other) ? (q.p(.5) ? D_C0 : q.p(.5) ? D_HEAVY : D_NONE) : D_MAX; if (flap && i > 50) dm = q.p(.5) ? D_MAX : q.p(.5) ? D_C0 : D_FEW; o.data = gen_bits(q, codec, SMOOTH, last); last = o.data; }
        else { o.data = mode == 3 ? gen_bits(q, codec, SMOOTH, last) : d; last = o.data; dm = q.p(other) ? (int)q.below(NDMG) : q.p(.2) ? D_FEW : D_NONE; }
        o.flips = gen_flips(q, codec, dm); o.note = std::string(mode == 0 || mode == 3 ? "smooth/" : "held/") + dmg_name[dm];
        ops.push_back(o);
    }
}
// a stream that stays in one regime for long: muted, silent, in tones, erased, loud, at the correction limit or clean
void spell(Rng& q, std::vector<Op>& ops, int stream, int codec, int tid) {
    int kind = (int)q.below(8), n = q.range(30, 70); std::string d, last; bool shorty = q.p(.2), data = q.p(.15); double other = q.p(.6) ? 0 : .06;
    if (kind == 7) kind = 0;
    static const int cl[7] = {VOICE, SILENCE, TONE, ERASURE, EXTREME, SMOOTH, SMOOTH};
    for (int i = 0; i < n; i++) {
        Op o = mk(data ? K_DATA : K_FRAME, stream, tid); o.codec = codec; o.shorty = shorty; int c = cl[kind], dm = kind == 0 ? D_GARBAGE : kind == 5 ? D_MAX : D_NONE;
        if (q.p(other)) { c = (int)q.below(NCLS); dm = q.p(.5) ? (int)q.below(NDMG) : D_NONE; }
        if (i == 0 || c != EXTREME) d = gen_bits(q, codec, c, last);
        last = d; o.data = d;
        if (data) { o.errs2 = dm == D_GARBAGE ? q.range(6, 40) : dm == D_MAX ? q.range(3, 6) : 0; o.errs = std::min(o.errs2, 3); }
        else o.flips = gen_flips(q, codec, dm);
        o.note = std::string(cls_name[c]) + "/" + dmg_name[dm]; ops.push_back(o);
    }
}
void Traffic::swarm(Rng& q, int codec_) {
    codec = codec_;
    for (auto& x : w) x = 0;
    w[VOICE] = q.p(.9) ? 1 + 3 * q.uni() : 0; w[SMOOTH] = q.p(.6) ? 3 * q.uni() : 0; w[HELD] = q.p(.4) ? 2 * q.uni() : 0;
    w[SILENCE] = q.p(.3) ? q.uni() : 0; w[ERASURE] = q.p(.3) ? q.uni() : 0; w[TONE] = q.p(.35) ? q.uni() * 2 : 0;
    w[TONEBAD] = q.p(.2) ? q.uni() : 0; w[INVALID] = q.p(.2) ? q.uni() : 0; w[RANDOM] = q.p(.3) ? q.uni() * 2 : 0; w[EXTREME] = q.p(.25) ? q.uni() * 2 : 0;
    double s = 0; for (double x : w) s += x;
    if (s == 0) w[VOICE] = 1;
    p_bad = q.p(.25) ? 0 : .25 * q.uni() * q.uni(); p_recover = .1 + .6 * q.uni(); p_few = .5 * q.uni(); p_heavy = q.uni();
    p_short = q.p(.3) ? 0 : q.uni(); p_data = q.p(.4) ? 0 : q.uni(); p_layer = q.p(.6) ? 0 : .4 * q.uni();
    iso = q.p(.2) ? .05 + .25 * q.uni() : 0;
    bad = after_bad = false; hold = 0; last.clear();
}
void Traffic::calm() {
    for (auto& x : w) x = 0;
    w[VOICE] = 1; w[SMOOTH] = 1; p_bad = 0; p_few = 0; bad = false; iso = 0;
}
void to_manual(Op& o) { o.kind = K_MANUAL; o.errs = o.errs2 = 0; o.flips.clear(); if (o.codec == I71) o.codec = I72; }
Op Traffic::manual(Rng& q, int stream) {
    Op o = frame(q, stream); if (o.kind == K_MANUAL) return o;
    if (q.p(.25)) { Op x = touch(q, stream); x.codec = o.codec; return x; }
    to_manual(o);
    if (q.p(.6)) { fin = o; fin.errs = 2; o.errs = 1; pend = true; }
    return o;
}
Op Traffic::frame(Rng& q, int stream) {
    if (pend) { pend = false; return fin; }
    if (hold <= 0) {
        double s = 0; for (double x : w) s += x;
        double r = q.uni() * s; cls = VOICE;
        for (int i = 0; i < NCLS; i++) { if (w[i] <= 0) continue; cls = i; r -= w[i]; if (r < 0) break; }
        hold = q.p(.6) ? 1 : q.range(1, 6);
    }
    hold--;
    Op op; op.stream = stream; op.codec = codec;
    op.data = gen_bits(q, codec, cls, last);
    int made = cls;
    if (cls == EXTREME && q.p(.4)) { cls = HELD; hold = q.range(3, 25); }
    if (made == VOICE || made == SMOOTH || made == HELD || made == EXTREME) last = op.data;
    if (bad ? q.p(p_recover) : q.p(p_bad)) { bad = !bad; if (bad) { static const int bd[4] = {D_HEAVY, D_GARBAGE, D_C0, D_EDGE}; burst_d = q.p(p_heavy) ? bd[q.below(2)] : bd[q.below(4)]; } }
    bool aft = after_bad; after_bad = bad;
    int dmg = bad ? burst_d : aft && q.p(.3) ? (int)D_SOME : (q.p(p_few) ? (q.p(.15) ? D_UNPROT : q.p(.15) ? D_SOME : q.p(.3) ? D_EDGE : D_FEW) : D_NONE);
    if (iso > 0) { dmg = D_NONE; aft = q.p(after_bad ? .5 : iso); after_bad = aft; if (aft) { double e = q.uni(); dmg = e < .5 ? D_SOME : e < .75 ? D_HEAVY : e < .8 ? D_C0 : e < .95 ? D_EDGE : D_FEW; } }   // a few frames hit each in its own way, the channel clean in between
    double r = q.uni();
    op.kind = r < p_data ? K_DATA : (r < p_data + p_layer ? K_LAYER : K_FRAME);
    op.shorty = q.p(p_short);
    op.uv = q.p(.7) ? 3 : (int)q.below(65);
    if (op.kind == K_DATA) {
        op.errs = dmg == D_C0 || dmg == D_HEAVY ? q.range(0, 4) : (dmg == D_NONE ? 0 : q.range(0, 3));
        op.errs2 = dmg == D_NONE ? 0 : dmg == D_FEW || dmg == D_UNPROT ? q.range(0, 3) : dmg == D_EDGE || dmg == D_SOME ? q.range(1, 7) : q.range(3, is_ambe(codec) ? 12 : 20);
        if (q.p(.01)) op.errs2 = q.range(20, 59);
        op.errs = std::min(op.errs, op.errs2);
    } else op.flips = gen_flips(q, codec, dmg);
    op.note = std::string(cls_name[made]) + "/" + dmg_name[dmg];
    return op;
}
// seeds, half of them edges or seeds whose first comfort noise samples include the generator's extremes or its exact zero
int rng_seed(Rng& q) {
    static const uint32_t s[] = {20777013u, 31056200u, 35044937u, 52584380u, 53528578u, 9755291u, 73539096u, 78718702u, 28009042u, 28079173u,
                                 16550820u, 1938158u, 2192783u, 4080888u, 50950221u, 64483661u, 0u, 1u, 0xffffffffu, 0x80000000u, 53125u, 0x6d25357bu};
    return q.p(.5) ? (int)q.next() : (int)s[q.below(sizeof s / sizeof *s)];
}
Op touch(Rng& q, int stream, int tid) { Op o = mk(q.p(.5) ? K_ENH : K_SMOOTH, stream, tid); o.errs = q.p(.3); return o; }
Op mk(int kind, int stream, int tid) { Op o; o.kind = kind; o.stream = stream; o.tid = tid; return o; }
