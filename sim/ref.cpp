#include "ref.h"
#include <math.h>
#include <stdarg.h>
#include <limits.h>
#include <float.h>
#include <stdlib.h>
#include <algorithm>
#include "ref/tables.h"
using namespace reft;

const char* ra_name[RA_N] = {"none", "voice", "repeat", "mute", "reset", "erasure", "tone", "badtone_voice", "badtone_noise", "headroom"};
static const double PI = 3.14159265358979323846;

bool RefCtx::mis(RefCat c, const char* what, const char* fmt, ...) {
    if (!(cats & c) || v->bad()) return false;
    char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    const Op& o = p->ops[(size_t)cur_op];
    report(*v, prop + "." + what, cur_op, "call %d (%s %s, stream %d, %s): %s", cur_op, kind_name[o.kind], codec_name[o.codec], o.stream, o.note.c_str(), b);
    return false;
}

// ------------------------------------------------------------------------------------------- initial states
static void init_common(mbe_parms& m) {
    memset(&m, 0, sizeof m);
    for (int l = 0; l <= 56; l++) m.Ml[l] = 1;
    m.localEnergy = 75000; m.amplitudeThreshold = 20480; m.noiseSeed = -1;
}
void ref_init_imbe(mbe_parms& m) {
    init_common(m);
    m.w0 = (float)(4 * PI / 173.5); m.L = (int)(.9254 * (int)(PI / m.w0 + .25)); m.K = 12; m.mutingThreshold = .0875f;
}
void ref_init_ambe(mbe_parms& m) {
    init_common(m);
    m.w0 = (float)(PI / 32 * 2 * PI); m.L = 15; m.K = 0; m.mutingThreshold = .096f;
}

// ------------------------------------------------------------------------------------------- comfort noise
static const uint64_t MASK48 = (1ull << 48) - 1;
void ref_seed(RefThread& t, uint32_t seed) {
    if (!seed) seed = 0x6d25357b;
    t.seeded = true; t.c48 = (seed ^ 0x5DEECE66Dull) & MASK48;
    t.pending = true; t.unv = seed % 53125;
}
void ref_comfort(RefThread& t, double out[160]) {
    if (!t.seeded) { t.seeded = true; t.c48 = (0x12345678ull ^ 0x5DEECE66Dull) & MASK48; }
    for (int n = 0; n < 160; n++) {
        t.c48 = (t.c48 * 0x5DEECE66Dull + 0xB) & MASK48;
        out[n] = ((double)(t.c48 >> 24) / 16777216.0 * 2 - 1) * 0.003 * 32767 / 7;
    }
}

// ------------------------------------------------------------------------------------------- parameter decoding
struct Dec { int ret = 0; bool has_w0 = false, has_L = false, silence = false; double w0 = 0, gamma = 0; int L = 0, K = 0; int Vl[57] = {0}; bool vamb[57] = {0}; double Ml[57] = {0}, log2Ml[57] = {0}; };
static unsigned bits(const char* d, std::initializer_list<int> pos) { unsigned v = 0; for (int p : pos) v = v << 1 | (unsigned)(d[p] & 1); return v; }

static void predict(const mbe_parms& prev, int L, bool ambe, double* inter) {
    int pL = prev.L; double q[58];
    for (int l = 0; l <= 56; l++) q[l] = prev.log2Ml[l];
    q[57] = q[56];
    if (L > pL) for (int l = pL + 1; l <= L && l <= 56; l++) q[l] = q[pL];
    q[0] = ambe ? q[1] : 0;  // IMBE: M0(-1) = 1
    for (int l = 1; l <= L; l++) {
        double f = (double)pL / L * l; int k = std::min((int)f, 55); double d = f - k;
        // a product that is an integer may fall on either side in single precision; both sides agree there
        inter[l] = (1 - d) * q[k] + (d > 1e-6 ? d * q[k + 1] : 0);
    }
}
static void dec_imbe(const char* d, const mbe_parms& prev, Dec& o) {
    unsigned b0 = bits(d, {0, 1, 2, 3, 4, 5, 85, 86});
    o.ret = 1; if (b0 > 207) return;
    o.has_w0 = true; o.w0 = 4 * PI / (b0 + 39.5);
    double x = (b0 + 39.5) / 4 + .25;        // pi / w0 + 1/4: exact quarter steps
    o.L = (int)(.9254 * (int)x);
    if (o.L > 56 || o.L < 9) return;
    o.has_L = true; o.ret = 0;
    int L = o.L, L9 = L - 9; o.K = L < 37 ? (L + 2) / 3 : 12;
    static thread_local char bb[64][16]; memset(bb, 0, sizeof bb);
    for (int i = 0; i < 79; i++) bb[bo[L9][i][0]][bo[L9][i][1]] = d[6 + i];
    for (int l = 1; l <= L; l++) o.Vl[l] = bb[1][std::max(0, o.K - 1 - (l - 1) / 3)];
    double G[7];
    unsigned b2 = 0; for (int i = 5; i >= 0; i--) b2 = b2 * 2 + (unsigned)bb[2][i];
    G[1] = B2[b2];
    for (int i = 2; i <= 6; i++) {
        int n = (int)ba[L9][i - 2][0]; unsigned b = 0; for (int j = n - 1; j >= 0; j--) b = b * 2 + (unsigned)bb[i + 1][j];
        G[i] = ba[L9][i - 2][1] * (b - pow(2, n - 1) + .5);
    }
    double C[7][12] = {{0}};
    for (int i = 1; i <= 6; i++) { C[i][1] = 0; for (int m = 1; m <= 6; m++) C[i][1] += (m == 1 ? 1 : 2) * G[m] * cos(PI * (m - 1) * (i - .5) / 6); }
    int m = 8;
    for (int i = 1; i <= 6; i++) for (int k = 2; k <= ImbeJi[L9][i - 1]; k++, m++) {
        int n = hoba[L9][m - 8]; unsigned b = 0; for (int j = n - 1; j >= 0; j--) b = b * 2 + (unsigned)bb[m][j];
        C[i][k] = n ? quantstep[n - 1] * standdev[k - 2] * (b - pow(2, n - 1) + .5) : 0;
    }
    double T[60], in[60]; int l = 1;
    for (int i = 1; i <= 6; i++) { int J = ImbeJi[L9][i - 1]; for (int j = 1; j <= J; j++, l++) { T[l] = 0; for (int k = 1; k <= J; k++) T[l] += (k == 1 ? 1 : 2) * C[i][k] * cos(PI * (k - 1) * (j - .5) / J); } }
    double rho = L <= 15 ? .4 : L <= 24 ? .03 * L - .05 : .7, mean = 0;
    predict(prev, L, false, in);
    for (l = 1; l <= L; l++) mean += in[l];
    mean *= rho / L;
    for (l = 1; l <= L; l++) { o.log2Ml[l] = T[l] + rho * in[l] - mean; o.Ml[l] = pow(2, o.log2Ml[l]); }
}
static void ambe_common(Dec& o, const mbe_parms& prev, const int (*lm)[4], double dg, const float* p24, const float* p58, const float* const hoc[4]) {
    int L = o.L; const int* J = lm[L];
    double G[9], R[9], C[5][24] = {{0}};
    G[1] = 0; for (int i = 0; i < 3; i++) G[2 + i] = p24[i];
    for (int i = 0; i < 4; i++) G[5 + i] = p58[i];
    for (int i = 1; i <= 8; i++) { R[i] = 0; for (int m = 1; m <= 8; m++) R[i] += (m == 1 ? 1 : 2) * G[m] * cos(PI * (m - 1) * (i - .5) / 8); }
    for (int i = 1; i <= 4; i++) {
        C[i][1] = .5 * (R[2 * i - 1] + R[2 * i]); C[i][2] = (R[2 * i - 1] - R[2 * i]) / (2 * sqrt(2.0));
        for (int k = 3; k <= J[i - 1]; k++) C[i][k] = k > 6 ? 0 : hoc[i - 1][k - 3];
    }
    double T[60], in[60], mt = 0, mi = 0; int l = 1;
    for (int i = 1; i <= 4; i++) for (int j = 1; j <= J[i - 1]; j++, l++) { T[l] = 0; for (int k = 1; k <= J[i - 1]; k++) T[l] += (k == 1 ? 1 : 2) * C[i][k] * cos(PI * (k - 1) * (j - .5) / J[i - 1]); }
    o.gamma = dg + .5 * prev.gamma;
    predict(prev, L, true, in);
    for (l = 1; l <= L; l++) { mt += T[l]; mi += in[l]; }
    double big = o.gamma - .5 * log2(L) - mt / L;
    for (l = 1; l <= L; l++) {
        o.log2Ml[l] = T[l] + .65 * in[l] - .65 * mi / L + big;
        o.Ml[l] = pow(2, o.log2Ml[l]) * (o.Vl[l] ? 1 : .2046 / sqrt(o.w0));
    }
}
static void vuv(Dec& o, const int* row, double f0) {
    for (int l = 1; l <= o.L; l++) {
        double x = l * 16 * f0; int j = (int)x; o.Vl[l] = row[std::min(j, 7)];
        double fr = x - floor(x); if (fr < 1e-5 || fr > 1 - 1e-5) o.vamb[l] = true;
    }
}
static bool tone2450_valid(unsigned id) { return (id >= 5 && id <= 122) || (id >= 128 && id <= 163); }
static void dec_a25(const char* d, const mbe_parms& prev, int errs2, Dec& o) {
    unsigned u0 = bits(d, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}), u1 = bits(d, {12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23}), u3 = bits(d, {35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48});
    if ((u0 >> 6) == 63 && ((u3 & 15) == 0 || (u1 >> 8) == (u1 & 15)) && errs2 < 6) { o.ret = 7; return; }
    unsigned b0 = bits(d, {0, 1, 2, 3, 37, 38, 39}), b1 = bits(d, {4, 5, 6, 7, 35}), b2 = bits(d, {8, 9, 10, 11, 36}), b3 = bits(d, {12, 13, 14, 15, 16, 17, 18, 19, 40}), b4 = bits(d, {20, 21, 22, 23, 41, 42, 43}),
             b5 = bits(d, {24, 25, 26, 27, 44}), b6 = bits(d, {28, 29, 30, 45}), b7 = bits(d, {31, 32, 33, 46}), b8 = bits(d, {34, 47, 48});
    if ((b0 >= 120 && b0 <= 123) || b0 >= 126) { o.ret = 2; return; }
    double f0; o.has_w0 = o.has_L = true;
    if (b0 == 124 || b0 == 125) { o.silence = true; f0 = PI / 32; o.L = b0 == 124 ? 15 : 14; }
    else { f0 = AmbeW0table[b0]; o.L = (int)AmbeLtable[b0]; }
    o.w0 = f0 * 2 * PI;
    if (!o.silence) vuv(o, AmbeVuv[b1], f0);
    const float* h[4] = {AmbeHOCb5[b5], AmbeHOCb6[b6], AmbeHOCb7[b7], AmbeHOCb8[b8]};
    ambe_common(o, prev, AmbeLmprbl, AmbeDg[b2], AmbePRBA24[b3], AmbePRBA58[b4], h);
}
static void dec_a24(const char* d, const mbe_parms& prev, Dec& o) {
    unsigned b0 = bits(d, {0, 1, 2, 3, 4, 5, 48});
    if ((b0 & 0x7E) == 0x7E) {
        static const int t7[8] = {1, 0, 0, 0, 0, 1, 1, 1}, t6[8] = {0, 0, 0, 1, 1, 1, 1, 0}, t5[8] = {0, 0, 1, 0, 1, 1, 0, 1};
        unsigned k = bits(d, {6, 7, 8});
        int id = t7[k] << 7 | t6[k] << 6 | t5[k] << 5 | (int)bits(d, {9, 42, 43, 10, 11});
        o.ret = id >= 5 && id <= 122 ? id : 3; return;
    }
    double f0 = pow(2, -4.311767578125 - .021336 * (b0 + .5)); o.has_w0 = o.has_L = true;
    o.w0 = f0 * 2 * PI; o.L = (int)AmbePlusLtable[b0];
    vuv(o, AmbePlusVuv[bits(d, {38, 39, 40, 41})], f0);
    const float* h[4] = {AmbePlusHOCb5[bits(d, {22, 23, 25, 26})], AmbePlusHOCb6[bits(d, {27, 28, 29, 30})], AmbePlusHOCb7[bits(d, {31, 32, 33, 34})], AmbePlusHOCb8[bits(d, {35, 36, 37}) << 1]};
    ambe_common(o, prev, AmbePlusLmprbl, AmbePlusDg[bits(d, {6, 7, 8, 9, 42, 43})], AmbePlusPRBA24[bits(d, {10, 11, 12, 13, 14, 15, 16, 44, 45})], AmbePlusPRBA58[bits(d, {17, 18, 19, 20, 21, 46, 47})], h);
}

// ------------------------------------------------------------------------------------------- tones
static const int dual_f[36][2] = {{1336, 941}, {1209, 697}, {1336, 697}, {1477, 697}, {1209, 770}, {1336, 770}, {1477, 770}, {1209, 852}, {1336, 852}, {1477, 852}, {1633, 697}, {1633, 770}, {1633, 852}, {1633, 941}, {1209, 941}, {1477, 941},
    {1162, 820}, {1052, 606}, {1162, 606}, {1279, 606}, {1052, 672}, {1162, 672}, {1279, 672}, {1052, 743}, {1162, 743}, {1279, 743}, {1430, 606}, {1430, 672}, {1430, 743}, {1430, 820}, {1052, 820}, {1279, 820}, {440, 350}, {480, 440}, {620, 480}, {490, 350}};
struct ToneOut { double pcm[160]; uint32_t swn, un; double gain; };
static void tone_render(int id, int ad, uint32_t swn, uint32_t un, ToneOut& o) {
    double f1 = 0, f2 = 0; o.swn = swn; o.un = un; o.gain = ad / 127.0 * 4446.95;
    if (id == 5) f1 = 156.25; else if (id == 6) f1 = 187.5; else if (id >= 7 && id <= 122) f1 = 31.25 * id;
    else if (id >= 128 && id <= 163) { f1 = dual_f[id - 128][0]; f2 = dual_f[id - 128][1]; }
    uint32_t s1 = (uint32_t)llround(f1 / 8000 * 4294967296.0), s2 = (uint32_t)llround(f2 / 8000 * 4294967296.0);
    for (int n = 0; n < 160; n++) {
        if (f1 == 0) { o.pcm[n] = 0; continue; }
        o.swn += s1;
        double a = sin(o.swn / 4294967296.0 * 2 * PI - PI / 2);
        if (f2 == 0) o.pcm[n] = o.gain * a;
        else { o.un += s2; o.pcm[n] = o.gain * .5 * (a + sin(o.un / 4294967296.0 * 2 * PI - PI / 2)); }
    }
    if (f1 == 0) o.gain = 0;
}

// ------------------------------------------------------------------------------------------- comparison helpers
static bool near(double a, double b, double abs_, double rel) { return fabs(a - b) <= abs_ + rel * std::max(fabs(a), fabs(b)); }   // false for NaN
static double s7(double x) { return trunc(std::max(-32768.0, std::min(32767.0, 7 * x))); }
static bool cmp_pcm(RefCtx& c, RefCat cat, const char* what, const OpIO& io, const double* e, const double* tol) {
    for (int n = 0; n < 160; n++) {
        double t = tol[n];
        if (io.pcmf && !(fabs(io.pcmf[n] - e[n]) <= t)) { c.mis(cat, what, "sample %d is %.6g, expected %.6g (tolerance %.3g)", n, io.pcmf[n], e[n], t); return false; }
        if (io.pcms && !(fabs(io.pcms[n] - s7(e[n])) <= 7 * t + 1)) { c.mis(cat, what, "sample %d is %d, expected %.0f (tolerance %.3g)", n, io.pcms[n], s7(e[n]), 7 * t + 1); return false; }
    }
    return true;
}
static bool same_f(const float* a, const float* b, int n, int* at) { for (int i = 0; i < n; i++) if (memcmp(&a[i], &b[i], 4)) { *at = i; return false; } return true; }
// every field but the listed categories' bitwise equal
static bool same_noise(RefCtx& c, const mbe_parms& a, const mbe_parms& b, const char* who) {
    int at;
    if (memcmp(&a.noiseSeed, &b.noiseSeed, 4)) { c.mis(RC_NOISE, "noise", "%s: noise position %g, expected %g", who, a.noiseSeed, b.noiseSeed); return false; }
    if (!same_f(a.noiseOverlap, b.noiseOverlap, 96, &at)) { c.mis(RC_NOISE, "noise", "%s: carried noise sample %d is %g, expected %g", who, at, a.noiseOverlap[at], b.noiseOverlap[at]); return false; }
    return true;
}
static bool same_phase(RefCtx& c, const mbe_parms& a, const mbe_parms& b, const char* who) {
    for (int l = 1; l <= 56; l++) if (memcmp(&a.PSIl[l], &b.PSIl[l], 4) || memcmp(&a.PHIl[l], &b.PHIl[l], 4)) { c.mis(RC_PHASE, "phase", "%s: phases of band %d are %g,%g, expected %g,%g", who, l, a.PSIl[l], a.PHIl[l], b.PSIl[l], b.PHIl[l]); return false; }
    return true;
}
static bool same_uw(RefCtx& c, const mbe_parms& a, const mbe_parms& b, const char* who) {
    int at; if (!same_f(a.previousUw, b.previousUw, 256, &at)) { c.mis(RC_UW, "overlap", "%s: retained unvoiced output %d is %g, expected %g", who, at, a.previousUw[at], b.previousUw[at]); return false; }
    return true;
}
static bool same_tone(RefCtx& c, const mbe_parms& a, const mbe_parms& b, const char* who) {
    if (a.swn != b.swn || a.un != b.un) { c.mis(RC_TONE, "tone_phase", "%s: tone phases %d,%d, expected %d,%d", who, a.swn, a.un, b.swn, b.un); return false; }
    return true;
}
static bool same_voice(RefCtx& c, RefCat cat, const mbe_parms& a, const mbe_parms& b, const char* who) {
    if (a.L != b.L || a.K != b.K || memcmp(&a.w0, &b.w0, 4) || memcmp(&a.gamma, &b.gamma, 4)) { c.mis(cat, "voice", "%s: pitch %g, bands %d/%d, gain %g, expected %g, %d/%d, %g", who, a.w0, a.L, a.K, a.gamma, b.w0, b.L, b.K, b.gamma); return false; }
    for (int l = 1; l <= a.L && l <= 56; l++) if (a.Vl[l] != b.Vl[l] || memcmp(&a.Ml[l], &b.Ml[l], 4) || memcmp(&a.log2Ml[l], &b.log2Ml[l], 4)) { c.mis(cat, "voice", "%s: band %d is %d/%g/%g, expected %d/%g/%g", who, l, a.Vl[l], a.Ml[l], a.log2Ml[l], b.Vl[l], b.Ml[l], b.log2Ml[l]); return false; }
    return true;
}
static bool same_ctrl(RefCtx& c, const mbe_parms& a, const mbe_parms& b, const char* who, bool rate_tol = false) {
    if (a.repeat != b.repeat || a.repeatCount != b.repeatCount) { c.mis(RC_COUNT, "repeat_count", "%s: repeat counts %d,%d, expected %d,%d", who, a.repeat, a.repeatCount, b.repeat, b.repeatCount); return false; }
    if (a.errorCountTotal != b.errorCountTotal || a.errorCount4 != b.errorCount4) { c.mis(RC_COUNT, "error_count", "%s: error counts %d,%d, expected %d,%d", who, a.errorCountTotal, a.errorCount4, b.errorCountTotal, b.errorCount4); return false; }
    if (rate_tol ? !near(a.errorRate, b.errorRate, 1e-9, 1e-6) : memcmp(&a.errorRate, &b.errorRate, 4) != 0) { c.mis(RC_RATE, "error_rate", "%s: smoothed error rate %.9g, expected %.9g", who, a.errorRate, b.errorRate); return false; }
    if (!near(a.mutingThreshold, b.mutingThreshold, 1e-7, 0)) { c.mis(RC_THRESH, "mute_threshold", "%s: muting threshold %g, expected %g", who, a.mutingThreshold, b.mutingThreshold); return false; }
    return true;
}
static bool same_level(RefCtx& c, const mbe_parms& a, const mbe_parms& b, const char* who) {
    if (!near(a.localEnergy, b.localEnergy, 1e-3, 1e-6) || a.amplitudeThreshold != b.amplitudeThreshold) { c.mis(RC_ENH, "smoothing_state", "%s: local energy %g, amplitude threshold %d, expected %g, %d", who, a.localEnergy, a.amplitudeThreshold, b.localEnergy, b.amplitudeThreshold); return false; }
    return true;
}
static bool same_all(RefCtx& c, const mbe_parms& a, const mbe_parms& b, const char* who, RefCat voicecat = RC_RETAIN) {
    bool ok = same_voice(c, voicecat, a, b, who);
    ok &= same_ctrl(c, a, b, who); ok &= same_noise(c, a, b, who); ok &= same_phase(c, a, b, who); ok &= same_uw(c, a, b, who); ok &= same_tone(c, a, b, who); ok &= same_level(c, a, b, who);
    return ok;
}
// all three sets hold a fresh state
static bool is_init(RefCtx& c, const Triplet& t, const mbe_parms& ini) {
    const mbe_parms* m[3] = {&t.cur, &t.prev, &t.enh}; static const char* nm[3] = {"current set after reset", "previous set after reset", "enhanced set after reset"};
    for (int k = 0; k < 3; k++) {
        mbe_parms x = ini; if (near(m[k]->w0, ini.w0, 0, 1e-6)) x.w0 = m[k]->w0;
        if (!same_all(c, *m[k], x, nm[k])) return false;
        for (int l = 0; l <= 56; l++) if (m[k]->Ml[l] != 1 || m[k]->log2Ml[l] != 0 || m[k]->Vl[l] != 0) { c.mis(RC_RETAIN, "reset", "%s: band %d not at its default", nm[k], l); return false; }
    }
    return true;
}

// ------------------------------------------------------------------------------------------- enhancement and smoothing
struct Amp { double lo[57], hi[57], rm0; bool ok; };
static void enhance(const mbe_parms& m, Amp& a) {
    int L = m.L; double R0 = 0, R1 = 0; a.ok = true;
    for (int l = 1; l <= L; l++) { double e = (double)m.Ml[l] * m.Ml[l]; R0 += e; R1 += e * cos(m.w0 * l); }
    a.rm0 = R0;
    for (int l = 1; l <= L; l++) a.lo[l] = a.hi[l] = m.Ml[l];
    if (!(m.w0 > 0)) return;
    if (!(R0 < 1e30) || R0 < 1e-9) { a.ok = false; return; }
    double slo = 0, shi = 0;
    for (int l = 1; l <= L; l++) {
        double M = m.Ml[l];
        if (M != 0 && 8 * l > L) {
            double num = R0 * R0 + R1 * R1 - 2 * R0 * R1 * cos(m.w0 * l), den = R0 * R0 - R1 * R1, e = 2e-5 * R0 * R0;
            if (den - e <= 0 || num < 0) { a.ok = false; return; }
            double k = .96 * PI / (m.w0 * R0);
            double wl = sqrt(M) * pow(std::max(0.0, k * (num - e) / (den + e)), .25), wh = sqrt(M) * pow(k * (num + e) / (den - e), .25);
            auto cl = [](double w) { return w > 1.2 ? 1.2 : w < .5 ? .5 : w; };
            a.lo[l] = M * cl(wl); a.hi[l] = M * cl(wh);
        }
        slo += a.lo[l] * a.lo[l]; shi += a.hi[l] * a.hi[l];
    }
    double glo = shi > 0 ? sqrt(R0 / shi) : 1, ghi = slo > 0 ? sqrt(R0 / slo) : 1;
    for (int l = 1; l <= L; l++) { a.lo[l] *= glo * (1 - 2e-5); a.hi[l] *= ghi * (1 + 2e-5); }
}
// smoothing of c0 (whose amplitudes lie in a) towards the state po retained after the call
static bool smooth_check(RefCtx& c, const mbe_parms& c0, const Amp& a0, const mbe_parms& pv, const mbe_parms& po, const char* who) {
    Amp a = a0; int L = c0.L; bool ok = true;
    double pe = pv.localEnergy < 10000 ? 75000 : pv.localEnergy, le = std::max(.95 * pe + .05 * a.rm0, 10000.0);
    if (!(a.rm0 < 1e30)) le = po.localEnergy;
    if (a.rm0 < 1e30 && !near(po.localEnergy, le, 1e-2, 1e-4)) ok = c.mis(RC_ENH, "local_energy", "%s: local energy %.8g, expected %.8g", who, po.localEnergy, le);
    double VM = DBL_MAX; int et = c0.errorCountTotal; float er = c0.errorRate;
    if (!(er <= .005f && et <= 4)) {
        double en = pow(le, .375);
        VM = er <= .0125f && c0.errorCount4 == 0 ? 45.255 * en / exp(277.26 * er) : 1.414 * en;
    }
    long long pt = pv.amplitudeThreshold, T;
    if (er <= .005f && et <= 6) T = 20480;
    else { if (pt <= 0) pt = 20480; if (pt > INT_MAX - 6000) pt = INT_MAX - 6000; T = 6000 - 300LL * et + pt; }
    if (po.amplitudeThreshold != (int)T) ok = c.mis(RC_ENH, "amplitude_threshold", "%s: amplitude threshold %d, expected %lld", who, po.amplitudeThreshold, T);
    if (!a.ok) { if (c.s) c.s->add("skipped.enhancement_ill_conditioned"); return ok; }
    double Alo = 0, Ahi = 0;
    for (int l = 1; l <= L; l++) { Alo += a.lo[l]; Ahi += a.hi[l]; }
    Alo *= 1 - 1e-5; Ahi *= 1 + 1e-5;
    for (int l = 1; l <= L; l++) {
        int want = a.lo[l] > VM * (1 + 1e-4) ? 1 : a.hi[l] < VM * (1 - 1e-4) ? c0.Vl[l] : -1;
        if (want >= 0 ? po.Vl[l] != want : (po.Vl[l] != 1 && po.Vl[l] != c0.Vl[l])) { ok = c.mis(RC_ENH, "voicing", "%s: band %d voicing %d, expected %d (amplitude %.6g, limit %.6g)", who, l, po.Vl[l], want, a.hi[l], VM); break; }
        if (want == 1 && !c0.Vl[l] && c.s) c.s->add("probe.forced_voiced");
    }
    double rlo = 1, rhi = 1;
    if (Alo > T && Alo > 0) { rlo = T / Ahi; rhi = T / Alo; if (rlo > rhi) std::swap(rlo, rhi); if (c.s) c.s->add("probe.amplitude_limited"); }
    else if (Ahi > T && Ahi > 0) { rlo = std::min(1.0, T / Ahi); }
    for (int l = 1; l <= L; l++) {
        double x[4] = {a.lo[l] * rlo, a.lo[l] * rhi, a.hi[l] * rlo, a.hi[l] * rhi};
        double lo = *std::min_element(x, x + 4), hi = *std::max_element(x, x + 4), t = 5e-5 * std::max(fabs(lo), fabs(hi)) + 1e-12;
        if (!(po.Ml[l] >= lo - t && po.Ml[l] <= hi + t)) { ok = c.mis(RC_ENH, "amplitude", "%s: band %d amplitude %.8g, expected %.8g..%.8g", who, l, po.Ml[l], lo, hi); break; }
    }
    return ok;
}

// ------------------------------------------------------------------------------------------- synthesis
static void fft(std::vector<double>& re, std::vector<double>& im, int sign) {
    int n = (int)re.size();
    for (int i = 1, j = 0; i < n; i++) { int b = n >> 1; for (; j & b; b >>= 1) j ^= b; j ^= b; if (i < j) { std::swap(re[i], re[j]); std::swap(im[i], im[j]); } }
    for (int len = 2; len <= n; len <<= 1) for (int i = 0; i < n; i += len) for (int k = 0; k < len / 2; k++) {
        double w = sign * 2 * PI * k / len, c = cos(w), s = sin(w);
        double xr = re[i + k + len / 2] * c - im[i + k + len / 2] * s, xi = re[i + k + len / 2] * s + im[i + k + len / 2] * c;
        re[i + k + len / 2] = re[i + k] - xr; im[i + k + len / 2] = im[i + k] - xi; re[i + k] += xr; im[i + k] += xi;
    }
}
static double wsy(int n) { return n < -105 || n > 105 ? 0 : Ws_synthesis[n + 105]; }
struct Noise { double buf[256]; float seed; float ov[96]; };
static void noise_next(RefThread& t, const mbe_parms& m, Noise& o) {
    if (m.noiseSeed < 0) {
        memset(o.buf, 0, sizeof o.buf); memset(o.ov, 0, sizeof o.ov);
        o.seed = (float)(t.pending ? t.unv : 3147); t.pending = false; return;
    }
    for (int i = 0; i < 96; i++) o.buf[i] = m.noiseOverlap[i];
    unsigned x = (unsigned)m.noiseSeed;
    for (int i = 96; i < 256; i++) { o.buf[i] = x; x = (171u * x + 11213u) % 53125u; }
    o.seed = (float)x;
    for (int i = 0; i < 96; i++) o.ov[i] = (float)o.buf[160 + i];
}
// unvoiced part for amplitudes of m over noise b; false if a band edge or level is too close to call
static bool unvoiced(const mbe_parms& m, const double* b, double* uw) {
    std::vector<double> re(256), im(256, 0.0), xr(256, 0.0), xi(256, 0.0);
    for (int i = 0; i < 256; i++) re[(size_t)i] = b[i] * wsy(i - 128);
    fft(re, im, -1);
    bool sure = true; double k = 256 / (2 * PI) * m.w0;
    for (int l = 1; l <= m.L; l++) {
        double ea = (l - .5) * k, eb = (l + .5) * k;
        if (m.Vl[l] != 0) continue;
        int a = std::max(0, (int)ceil(ea)), e = std::min(128, (int)ceil(eb));
        // a boundary that a rounding could move matters only if it would change the set of bins
        for (double z : {ea, eb}) if (z < 129 && fabs(z - round(z)) < 5e-5 * std::max(1.0, z / 8)) sure = false;
        double sum = 0; int cnt = 0;
        for (int n = a; n < e; n++) { sum += re[(size_t)n] * re[(size_t)n] + im[(size_t)n] * im[(size_t)n]; cnt++; }
        if (!cnt) continue;
        if (sum <= 1e-10) { if (sum > 1e-13) sure = false; continue; }
        if (sqrt(sum / cnt) < 2e3) sure = false;
        double sc = 146.17696 * m.Ml[l] / sqrt(sum / cnt);
        for (int n = a; n < e; n++) { xr[(size_t)n] = re[(size_t)n] * sc; xi[(size_t)n] = im[(size_t)n] * sc; }
    }
    for (int n = 1; n < 128; n++) { xr[(size_t)(256 - n)] = xr[(size_t)n]; xi[(size_t)(256 - n)] = -xi[(size_t)n]; }
    xi[0] = 0;
    fft(xr, xi, 1);
    for (int i = 0; i < 256; i++) uw[i] = xr[(size_t)i] / 256;
    return sure;
}

// checks synthesis from c0 (parameters before synthesis, amplitudes within a) with history pv into state po
// returns the mute decision through *muted
static bool synth_check(RefCtx& c, RefThread& t, const mbe_parms& c0, const Amp& a, const mbe_parms& pv, const mbe_parms& po, const OpIO& io, const char* who, bool* muted) {
    bool ok = smooth_check(c, c0, a, pv, po, who);
    bool mute = c0.repeatCount >= 4 || (fabs(c0.mutingThreshold - .096) > 1e-6 && c0.errorRate > c0.mutingThreshold);
    *muted = mute;
    if (po.L != c0.L || memcmp(&po.w0, &c0.w0, 4)) ok = c.mis(RC_VOICE, "voice", "%s: synthesis changed pitch or band count", who);
    if (mute) {
        double e[160], tol[160]; ref_comfort(t, e); for (double& x : tol) x = 2e-5;
        ok &= cmp_pcm(c, RC_COMFORT, "comfort", io, e, tol);
        ok &= same_noise(c, po, c0, who); ok &= same_phase(c, po, c0, who); ok &= same_uw(c, po, c0, who);
        return ok;
    }
    Noise nz; noise_next(t, c0, nz);
    if (po.noiseSeed != nz.seed) ok = c.mis(RC_NOISE, "noise", "%s: noise position %g, expected %g", who, po.noiseSeed, nz.seed);
    for (int i = 0; i < 96; i++) if (po.noiseOverlap[i] != nz.ov[i]) { ok = c.mis(RC_NOISE, "noise", "%s: carried noise sample %d is %g, expected %g", who, i, po.noiseOverlap[i], nz.ov[i]); break; }
    if (!ok) return false;
    // phases
    int L = po.L, pL = pv.L, uvn = 0;
    for (int l = 0; l <= L; l++) if (po.Vl[l] == 0) uvn++;
    auto wrapdiff = [](double d) { d = fmod(d, 2 * PI); if (d > PI) d -= 2 * PI; if (d < -PI) d += 2 * PI; return fabs(d); };
    for (int l = 1; l <= 56; l++) {
        double big = fabs(pv.PSIl[l]);
        double psi = fmod(pv.PSIl[l], 2 * PI) + ((double)pv.w0 + po.w0) * l * 80;
        double pl = 2 * PI / 53125 * nz.buf[l] - PI;
        double tol = 2e-3 + 4e-7 * big;
        double phi = l <= L / 4 ? psi : psi + uvn * pl / L;
        if (!(wrapdiff(po.PSIl[l] - psi) <= tol)) { ok = c.mis(RC_PHASE, "phase", "%s: reference phase of band %d is %.7g, expected %.7g (mod 2pi)", who, l, po.PSIl[l], psi); break; }
        if (!(wrapdiff(po.PHIl[l] - phi) <= tol)) { ok = c.mis(RC_PHASE, "phase", "%s: phase of band %d is %.7g, expected %.7g (mod 2pi)", who, l, po.PHIl[l], phi); break; }
    }
    if (!ok || !(c.cats & (RC_UW | RC_PCM))) return ok;
    // unvoiced
    double uw[256]; bool sure = unvoiced(po, nz.buf, uw);
    if (sure) {
        double mx = 0; for (double x : uw) mx = std::max(mx, fabs(x));
        if (!(mx < 1e30)) { c.s->add("skipped.huge_unvoiced"); return ok; }
        for (int i = 0; i < 256; i++) if (!(fabs(po.previousUw[i] - uw[i]) <= 1e-3 * mx + 1e-3)) { return c.mis(RC_UW, "unvoiced", "%s: unvoiced output %d is %.7g, expected %.7g (peak %.4g)", who, i, po.previousUw[i], uw[i], mx); }
        if (mx > 0) c.s->add("oracle.unvoiced_spectra");
    } else c.s->add("skipped.unvoiced_band_edge");
    // waveform
    static thread_local double e[160], tol[160]; double tsum = 0; bool skip = false;
    double pw0 = pv.w0, cw0 = po.w0;
    double wmax = 0;
    for (int i = 0; i < 256; i++) wmax = std::max(wmax, (double)std::max(fabsf(po.previousUw[i]), fabsf(pv.previousUw[i])));
    for (int n = 0; n < 160; n++) {
        double w = wsy(n), w2 = wsy(n - 160), den = w * w + w2 * w2;
        double o = (n + 128 < 256 ? w * pv.previousUw[n + 128] : 0) + (n - 32 >= 0 ? w2 * po.previousUw[n - 32] : 0);
        e[n] = den > 1e-10 ? o / den : 0; tol[n] = 1e-3 + 1e-5 * wmax;
    }
    for (int l = 1; l <= std::max(L, pL) && l <= 56; l++) {
        double Mc = l <= L ? po.Ml[l] : 0, Mp = l <= pL ? pv.Ml[l] : 0; int Vc = l <= L ? po.Vl[l] : 1, Vp = l <= pL ? pv.Vl[l] : 1;
        double pc = po.PHIl[l], pp = pv.PHIl[l];
        bool inter = l < 8 && Vc == 1 && Vp == 1 && fabs(cw0 - pw0) < .1 * cw0;
        if (l < 8 && Vc == 1 && Vp == 1 && fabs(fabs(cw0 - pw0) - .1 * cw0) < 1e-5 * cw0) skip = true;
        double ang = fabs(pp) + fabs(pc) + (pw0 + cw0) * l * 160;
        double dt = 1e-4 + ang * 1.2e-7;       // float rounding of the phase
        if (inter) {
            double d = pc - pp - (pw0 + cw0) * l * 80, r = (d + PI) / (2 * PI), fl = floor(r);
            if (r - fl < 1e-3 || r - fl > 1 - 1e-3) skip = true;
            double dw = (d - 2 * PI * fl) / 160;
            for (int n = 0; n < 160; n++) {
                double th = pp + (pw0 * l + dw) * n + (cw0 - pw0) * l * n * n / 320.0, am = Mp + (Mc - Mp) * n / 160.0;
                e[n] += 2 * am * cos(th); tol[n] += 2 * fabs(am) * (3 * dt) + 2e-5 * (fabs(Mp) + fabs(Mc));
            }
        } else {
            if (Vp == 1 && Mp != 0) for (int n = 0; n < 160; n++) { e[n] += 2 * Ws[n + 160] * Mp * cos(pp + pw0 * l * n); tol[n] += 2 * fabs(Mp) * (dt * 2 + 3e-5); }
            if (Vc == 1 && Mc != 0) for (int n = 0; n < 160; n++) { e[n] += 2 * Ws[n] * Mc * cos(pc + cw0 * l * (n - 160)); tol[n] += 2 * fabs(Mc) * (dt * 2 + 3e-5); }
        }
        tsum += fabs(Mc) + fabs(Mp);
    }
    (void)tsum;
    if (skip || !(tol[80] < 1e6)) { c.s->add("skipped.waveform_boundary"); return ok; }
    for (double& x : e) x = std::max(-4446.95, std::min(4446.95, x));
    ok &= cmp_pcm(c, RC_PCM, "waveform", io, e, tol);
    c.s->add("oracle.waveforms");
    return ok;
}

// ------------------------------------------------------------------------------------------- one call
static bool comfort_pcm(RefCtx& c, RefThread& t, const OpIO& io) {
    double e[160], tol[160]; ref_comfort(t, e); for (double& x : tol) x = 2e-5;
    return cmp_pcm(c, RC_COMFORT, "comfort", io, e, tol);
}
static bool marks(RefCtx& c, const OpIO& io, int errs2, const char* m) {
    std::string want((size_t)std::max(errs2, 0), '='); want += m;
    if (want != io.err_str) return c.mis(RC_MARK, "marker", "status \"%s\", expected \"%s\"", io.err_str, want.c_str());
    return true;
}
static bool decoded(RefCtx& c, const mbe_parms& m, const Dec& d, const mbe_parms& kept, bool imbe) {
    const char* who = "retained parameters";
    if (!near(m.w0, d.w0, 0, 2e-6) || m.L != d.L) return c.mis(RC_VOICE, "pitch", "%s: pitch %.8g with %d bands, expected %.8g with %d", who, m.w0, m.L, d.w0, d.L);
    if (imbe && m.K != d.K) return c.mis(RC_VOICE, "pitch", "%s: %d voicing groups, expected %d", who, m.K, d.K);
    if (!imbe && !near(m.gamma, d.gamma, 1e-4, 1e-5)) return c.mis(RC_VOICE, "gain", "%s: gain %.8g, expected %.8g", who, m.gamma, d.gamma);
    for (int l = 1; l <= d.L; l++) {
        if (m.Vl[l] != d.Vl[l] && !d.vamb[l]) return c.mis(RC_VOICE, "voicing_bits", "%s: band %d voicing %d, expected %d", who, l, m.Vl[l], d.Vl[l]);
        if (!near(m.log2Ml[l], d.log2Ml[l], 2e-4, 2e-5)) return c.mis(RC_VOICE, "spectrum", "%s: log amplitude of band %d is %.7g, expected %.7g", who, l, m.log2Ml[l], d.log2Ml[l]);
        if (d.Vl[l] == m.Vl[l] && !near(m.Ml[l], d.Ml[l], 1e-12, 4e-4 + 2e-5 * fabs(d.log2Ml[l]))) return c.mis(RC_VOICE, "spectrum", "%s: amplitude of band %d is %.7g, expected %.7g", who, l, m.Ml[l], d.Ml[l]);
    }
    return true;
}
// voice or repeat with continued synthesis: prev holds the accepted parameters, cur/enh the synthesised ones
// (the smoothing goes by the errors of the frame, want, whatever the retained set says they were)
static bool synthesised(RefCtx& c, RefThread& t, const Triplet& po, const mbe_parms& pv, const OpIO& io, bool* muted, const mbe_parms* want = nullptr) {
    Amp a; enhance(po.prev, a); mbe_parms c0 = po.prev;
    if (want) { c0.errorCountTotal = want->errorCountTotal; c0.errorCount4 = want->errorCount4; if (!near(c0.errorRate, want->errorRate, 1e-9, 1e-6)) c0.errorRate = want->errorRate; }
    bool ok = synth_check(c, t, c0, a, pv, po.cur, io, "synthesis", muted);
    ok &= same_ctrl(c, po.cur, po.prev, "current set"); ok &= same_tone(c, po.cur, po.prev, "current set");
    ok &= same_all(c, po.enh, po.cur, "enhanced set", RC_ENH);
    if (po.cur.K != po.prev.K || memcmp(&po.cur.gamma, &po.prev.gamma, 4)) ok = c.mis(RC_ENH, "gain", "enhancement changed gain");
    return ok;
}

// the amplitudes of a set as it stands, with the energy it still carries from its enhancement
static Amp given(RefHand& h, const mbe_parms& m) {
    Amp a; a.ok = true; a.rm0 = 0;
    for (int l = 1; l <= m.L; l++) { a.lo[l] = a.hi[l] = m.Ml[l]; a.rm0 += (double)m.Ml[l] * m.Ml[l]; }
    if (h.cur == 1 && h.rm0 > 0) a.rm0 = h.rm0; else if (h.cur == 2) a.rm0 = 1e31;
    h.cur = 0; return a;
}
// synthesis asked for directly on (current, enhanced history); the caller may then copy the current set into the history
static bool direct_synth(RefCtx& c, RefThread& t, const Op& op, const OpIO& io, bool copied) {
    const Triplet& pre = *io.pre; const Triplet& po = *io.post; RefHand& h = c.hand[op.stream];
    const mbe_parms& c0 = pre.cur; Amp a = given(h, c0); bool mute;
    bool ok = synth_check(c, t, c0, a, pre.enh, po.cur, io, "direct synthesis", &mute);
    ok &= same_ctrl(c, po.cur, c0, "set given to synthesis"); ok &= same_tone(c, po.cur, c0, "set given to synthesis");
    if (po.cur.K != c0.K || memcmp(&po.cur.gamma, &c0.gamma, 4)) ok = c.mis(RC_ENH, "gain", "synthesis changed gain");
    ok &= same_all(c, po.prev, pre.prev, "previous set after direct synthesis");
    if (copied) ok &= same_all(c, po.enh, po.cur, "history set", RC_ENH);
    else {   // the history is only brought to the common form: phases within one turn, bands it lacks silent
        mbe_parms x = pre.enh;
        for (int l = 1; l <= 56; l++) { double d = fmod((double)po.enh.PSIl[l] - x.PSIl[l], 2 * PI); if (d > PI) d -= 2 * PI; if (d < -PI) d += 2 * PI; if (fabs(d) <= 1e-5 + 4e-7 * fabs(x.PSIl[l])) x.PSIl[l] = po.enh.PSIl[l]; }
        ok &= same_all(c, po.enh, x, "history set", RC_ENH);
    }
    c.s->add("oracle.direct_synthesis");
    return ok;
}

// enhancement alone: only the amplitudes move, and the energy before it is remembered for the smoothing
static bool enhanced(RefCtx& c, RefHand& h, const mbe_parms& m, const mbe_parms& po) {
    Amp a; enhance(m, a); h.cur = 1; h.rm0 = a.rm0; mbe_parms y = po; memcpy(y.Ml, m.Ml, sizeof y.Ml); memcpy(y.Vl, m.Vl, sizeof y.Vl);
    bool ok = same_all(c, y, m, "enhanced set", RC_ENH);
    for (int l = 1; l <= m.L && ok; l++) if (po.Vl[l] != m.Vl[l]) ok = c.mis(RC_ENH, "voicing", "enhancement changed the voicing of band %d", l);
    if (a.ok) for (int l = 1; l <= m.L && ok; l++) { double tl = 5e-5 * a.hi[l] + 1e-12; if (!(po.Ml[l] >= a.lo[l] - tl && po.Ml[l] <= a.hi[l] + tl)) ok = c.mis(RC_ENH, "amplitude", "enhanced amplitude of band %d is %.8g, expected %.8g..%.8g", l, po.Ml[l], a.lo[l], a.hi[l]); }
    return ok;
}

bool ref_step(RefCtx& c, int i, const Op& op, const OpIO& io) {
    c.cur_op = i; c.action = RA_NONE;
    RefThread& t = c.th[io.tid];
    Stats& s = *c.s;
    switch (op.kind) {
        case K_SEED: ref_seed(t, (uint32_t)op.a); return true;
        case K_COMFORT: s.add("oracle.comfort_frames"); return comfort_pcm(c, t, io);
        case K_SILENCE: for (int n = 0; n < 160; n++) if ((io.pcmf && io.pcmf[n] != 0) || (io.pcms && io.pcms[n] != 0)) return c.mis(RC_PCM, "silence", "silence sample %d is not zero", n); return true;
        case K_INIT: { c.hand[op.stream] = RefHand(); mbe_parms m; ref_init_imbe(m); return is_init(c, *io.post, m); }
        case K_TONE: {   // asked for directly: only the tone phases of the set it is given move
            int id = op.codec == A24 ? op.a : (int)bits(io.d, {12, 13, 14, 15, 16, 17, 18, 19}), ad = op.codec == A24 ? 103 : (int)bits(io.d, {6, 7, 8, 9, 10, 11, 44});
            if (op.codec == A24 ? id < 5 || id > 122 : !tone2450_valid((unsigned)id)) id = 0;
            mbe_parms x = io.pre->cur; ToneOut to; tone_render(c.tones ? id : 0, ad, (uint32_t)x.swn, (uint32_t)x.un, to); x.swn = (int)to.swn; x.un = (int)to.un;
            double e[160], tol[160]; for (int n = 0; n < 160; n++) { e[n] = to.pcm[n]; tol[n] = to.gain ? 1e-3 * to.gain + 1e-3 : 0; }
            bool ok = same_all(c, io.post->cur, x, "set given to a tone"); ok &= same_all(c, io.post->prev, io.pre->prev, "previous set after a direct tone"); ok &= same_all(c, io.post->enh, io.pre->enh, "enhanced set after a direct tone");
            s.add("oracle.direct_tones");
            return ok && cmp_pcm(c, RC_TONE, "tone", io, e, tol); }
        case K_QUERY: {   // muting, maximum repeats, smoothing, asked of the three sets
            const mbe_parms* w[3] = {&io.pre->cur, &io.pre->prev, &io.pre->enh}; static const char* nm[3] = {"current", "previous", "enhanced"};
            for (int k = 0; k < 3; k++) {
                const mbe_parms& m = *w[k]; int got = (io.ret >> (3 * (2 - k))) & 7;
                int e = (m.errorRate > m.mutingThreshold ? 1 : 0) | (m.repeatCount >= 4 ? 2 : 0) | (m.errorRate > .0125f || m.errorCountTotal > 4 ? 4 : 0), judged = 2;
                if (fabs(m.errorRate - m.mutingThreshold) > 1e-7) judged |= 1;
                if (fabs(m.errorRate - .0125) > 1e-7 || m.errorCountTotal > 4) judged |= 4;
                if ((got ^ e) & judged) return c.mis(RC_MARK, "query", "the queries (muting, repeats, smoothing) of the %s set answer %d%d%d, its counters say %d%d%d (rate %g, limit %g, errors %d, repeats %d)", nm[k], got & 1, got >> 1 & 1, got >> 2, e & 1, e >> 1 & 1, e >> 2, m.errorRate, m.mutingThreshold, m.errorCountTotal, m.repeatCount);
            }
            s.add("oracle.queries"); return true; }
        case K_CKPT: c.hand_ckpt[op.stream] = c.hand[op.stream]; return true;
        case K_RESTORE: if (c.hand_ckpt.count(op.stream)) c.hand[op.stream] = c.hand_ckpt[op.stream]; return true;
        case K_SPEECH: return direct_synth(c, t, op, io, false);
        case K_ENH: {
            s.add("oracle.direct_enhancements");
            bool ok = enhanced(c, c.hand[op.stream], io.pre->cur, io.post->cur);
            ok &= same_all(c, io.post->prev, io.pre->prev, "previous set after enhancement"); ok &= same_all(c, io.post->enh, io.pre->enh, "history after enhancement");
            return ok; }
        case K_SMOOTH: {
            s.add("oracle.direct_smoothings");
            const mbe_parms& c0 = io.pre->cur; RefHand& h = c.hand[op.stream]; Amp a = given(h, c0);
            bool ok = smooth_check(c, c0, a, op.errs == 1 ? io.pre->prev : io.pre->enh, io.post->cur, "smoothing");
            mbe_parms y = io.post->cur; memcpy(y.Ml, c0.Ml, sizeof y.Ml); memcpy(y.Vl, c0.Vl, sizeof y.Vl); y.localEnergy = c0.localEnergy; y.amplitudeThreshold = c0.amplitudeThreshold;
            ok &= same_all(c, y, c0, "smoothed set", RC_ENH);
            ok &= same_all(c, io.post->prev, io.pre->prev, "previous set after smoothing"); ok &= same_all(c, io.post->enh, io.pre->enh, "history after smoothing");
            return ok; }
        case K_MANUAL: {
            if (op.errs == 2) return direct_synth(c, t, op, io, true);
            const Triplet& pre = *io.pre; const Triplet& po = *io.post; RefHand& h = c.hand[op.stream];
            Dec d; if (op.codec == A24) dec_a24(io.d, pre.prev, d); else if (op.codec == A25) dec_a25(io.d, pre.prev, -1, d); else dec_imbe(io.d, pre.prev, d);
            if (io.ret != d.ret) return c.mis(RC_MARK, "decode_result", "parameter decoding returned %d, expected %d", io.ret, d.ret);
            s.add("oracle.direct_decodes");
            if (d.ret) { bool ok = same_all(c, po.prev, pre.prev, "previous set after a frame that is not speech"); ok &= same_all(c, po.enh, pre.enh, "enhanced set after a frame that is not speech"); return ok; }
            mbe_parms x = pre.cur; x.repeat = po.prev.repeat;   // the repeat counter is the caller's at this level
            bool ok = decoded(c, po.prev, d, pre.cur, !is_ambe(op.codec)); ok &= same_ctrl(c, po.prev, x, "decoded set"); ok &= same_noise(c, po.prev, x, "decoded set"); ok &= same_phase(c, po.prev, x, "decoded set"); ok &= same_tone(c, po.prev, x, "decoded set"); ok &= same_uw(c, po.prev, x, "decoded set");
            if (!ok) return false;
            if (h.cur) h.prev = true;
            if (op.errs == 1) {
                ok = enhanced(c, h, po.prev, po.cur); ok &= same_all(c, po.enh, pre.enh, "history after enhancement");
                return ok;
            }
            h.cur = 0; bool mm; s.add("oracle.direct_synthesis");
            return synthesised(c, t, po, pre.enh, io, &mm); }
        case K_FRAME: case K_DATA: case K_LAYER: break;
        default: return true;
    }
    struct HandUpd { RefCtx& c; RefHand& h; ~HandUpd() {
        switch (c.action) {
            case RA_ERASE: h.cur = h.prev ? 2 : 0; h.enh = h.prev; break;
            case RA_BADTONE_VOICE: h.enh = false; break;
            case RA_TONE: case RA_NONE: break;
            case RA_VOICE: case RA_MUTE: case RA_HEADROOM: if (h.cur) h.prev = true; h.cur = 0; h.enh = false; break;
            case RA_REPEAT: h.cur = 0; h.enh = false; break;
            default: h.cur = 0; h.prev = h.enh = false;
        } } } upd{c, c.hand[op.stream]};
    // what was received
    RefRx rx; int errs = op.errs, errs2 = op.errs2, ec4 = 0; const char* d = io.d;
    bool frame = op.kind == K_FRAME, imbe = !is_ambe(op.codec), ok = true;
    if (op.kind != K_DATA) {
        ref_receive(op.codec, io.fr_in, rx); errs = rx.errs; errs2 = rx.errs2; if (frame && imbe) ec4 = rx.errs_c4; d = rx.d;
        for (int k = 0; k < nbits(op.codec); k++) if (rx.d[k] != io.d[k]) return c.mis(RC_ECC, "bits", "decoded bit %d is %d, expected %d", k, io.d[k], rx.d[k]);
        if (io.errs != errs || io.errs2 != errs2) return c.mis(RC_ECC, "error_count", "reported errors %d/%d, expected %d/%d", io.errs, io.errs2, errs, errs2);
    } else if (d == nullptr) return true;
    Triplet pre = *io.pre; const Triplet& po = *io.post;
    s.add("oracle.calls_modelled");

    if (imbe) {
        float rate = .95f * pre.prev.errorRate + .000365f * (float)errs2;
        Dec dec; dec_imbe(d, pre.prev, dec);
        double thr = 10 + 40 * (double)rate; bool amb = frame && errs >= 2 && fabs(errs2 - thr) < 1e-4;
        bool rep = dec.ret == 1 || (frame ? errs >= 2 && errs2 >= thr : errs2 > 5);
        if (amb) { s.add("skipped.repeat_threshold"); rep = has_mark(io.err_str, 'R'); }
        mbe_parms x = pre.cur;           // expected retained set
        x.mutingThreshold = .0875f; x.errorCountTotal = errs2; x.errorRate = rate; x.errorCount4 = ec4;
        bool headroom = false;
        if (rep) {
            if (pre.prev.repeatCount > 3) {
                headroom = true; mbe_parms ini; ref_init_imbe(ini);
                x.swn = x.un = 0; x.w0 = ini.w0; x.L = ini.L; x.K = 12; x.gamma = 0;
                for (int l = 0; l <= 56; l++) { x.Vl[l] = 0; x.Ml[l] = 1; x.log2Ml[l] = 0; }
                x.repeat = x.repeatCount = 0; x.localEnergy = 75000; x.amplitudeThreshold = 20480;
            } else { x = pre.prev; x.mutingThreshold = .0875f; x.repeat++; x.repeatCount++; }
        } else x.repeat = x.repeatCount = 0;
        bool mute = x.repeatCount >= 4 || x.errorRate > x.mutingThreshold;
        if (fabs(x.errorRate - .0875) < 1e-7) { s.add("skipped.mute_threshold"); mute = x.repeatCount >= 4 || has_mark(io.err_str, 'M'); }
        char m[4] = {0}; int k = 0; if (rep) m[k++] = 'R'; if (mute) m[k++] = 'M';
        c.action = mute ? RA_MUTE : headroom ? RA_HEADROOM : rep ? RA_REPEAT : RA_VOICE;
        if (!marks(c, io, errs2, m)) return false;
        ok &= same_ctrl(c, po.prev, x, "retained set", true);
        if (rep) { if (near(po.prev.w0, x.w0, 0, 1e-6)) x.w0 = po.prev.w0; ok &= same_voice(c, RC_REPEAT, po.prev, x, "repeated set"); }
        else ok &= decoded(c, po.prev, dec, pre.cur, true);
        ok &= same_noise(c, po.prev, x, "retained set"); ok &= same_phase(c, po.prev, x, "retained set"); ok &= same_tone(c, po.prev, x, "retained set");
        ok &= same_uw(c, po.prev, x, "retained set");
        if (c.v->bad()) return false;
        bool mm; return ok & synthesised(c, t, po, pre.enh, io, &mm, &x);
    }

    // AMBE
    mbe_parms ini; ref_init_ambe(ini);
    if (fabs(pre.prev.mutingThreshold - .096) > 1e-6) { pre.cur = pre.prev = pre.enh = ini; c.hand[op.stream] = RefHand(); s.add("probe.codec_switch_reset"); }
    float rate = .95f * pre.prev.errorRate + .001064f * (float)errs2;
    mbe_parms x = pre.cur; x.mutingThreshold = .096f; x.errorCountTotal = errs2; x.errorCount4 = 0; x.errorRate = rate;
    Dec dec; if (op.codec == A25) dec_a25(d, pre.prev, errs2, dec); else dec_a24(d, pre.prev, dec);
    if (op.codec == A25 && dec.ret == 2) {
        c.action = RA_ERASE;
        if (!marks(c, io, errs2, "E")) return false;
        mbe_parms e = x; e.repeat = e.repeatCount = 0; e.swn = e.un = 0; e.w0 = 0; e.L = 9; e.K = 0; e.gamma = 0;
        for (int l = 0; l <= 56; l++) { e.Ml[l] = 1; e.Vl[l] = 0; e.log2Ml[l] = 0; e.PHIl[l] = pre.prev.PHIl[l]; e.PSIl[l] = pre.prev.PSIl[l]; }
        e.localEnergy = 75000; e.amplitudeThreshold = 20480; e.noiseSeed = pre.prev.noiseSeed; memcpy(e.noiseOverlap, pre.prev.noiseOverlap, sizeof e.noiseOverlap); memcpy(e.previousUw, pre.prev.previousUw, sizeof e.previousUw);
        // the rate is smoothed once, in the current set
        if (near(po.cur.errorRate, e.errorRate, 1e-9, 1e-6)) e.errorRate = po.cur.errorRate;
        ok &= same_all(c, po.cur, e, "current set"); ok &= same_all(c, po.prev, e, "previous set"); ok &= same_all(c, po.enh, e, "enhanced set");
        if (!ok) return false;
        return comfort_pcm(c, t, io);
    }
    if (op.codec == A25 && dec.ret == 7) {
        int id = (int)bits(d, {12, 13, 14, 15, 16, 17, 18, 19}), ad = (int)bits(d, {6, 7, 8, 9, 10, 11, 44});
        if (!marks(c, io, errs2, "T")) return false;
        x.repeat = x.repeatCount = 0;
        if (near(po.cur.errorRate, x.errorRate, 1e-9, 1e-6)) x.errorRate = po.cur.errorRate;
        ok &= same_all(c, po.prev, pre.prev, "previous voice after a tone");
        if (tone2450_valid((unsigned)id)) {
            c.action = RA_TONE;
            ok &= same_all(c, po.enh, pre.enh, "enhanced voice after a tone");
            ToneOut to; double e[160], tol[160];
            tone_render(id, ad, (uint32_t)pre.cur.swn, (uint32_t)pre.cur.un, to);
            if (c.tones) { x.swn = (int)to.swn; x.un = (int)to.un; } 
            else to.gain = 0;
            for (int n = 0; n < 160; n++) { e[n] = c.tones ? to.pcm[n] : 0; tol[n] = c.tones ? 1e-3 * to.gain + 1e-3 : 0; }
            if (c.tones) ok &= same_all(c, po.cur, x, "current set after a tone");
            if (!ok) return false;
            s.add("oracle.tones");
            return cmp_pcm(c, RC_TONE, "tone", io, e, tol);
        }
        c.action = RA_BADTONE_VOICE;
        ok &= same_all(c, po.cur, x, "current set after an invalid tone");
        if (!ok) return false;
        Amp a; a.ok = true; a.rm0 = 0; for (int l = 1; l <= pre.enh.L; l++) { a.lo[l] = a.hi[l] = pre.enh.Ml[l]; a.rm0 += (double)pre.enh.Ml[l] * pre.enh.Ml[l]; }
        if (c.hand[op.stream].enh) a.rm0 = 1e31;
        bool mm; ok &= synth_check(c, t, pre.enh, a, pre.enh, po.enh, io, "prior voice", &mm);
        ok &= same_ctrl(c, po.enh, pre.enh, "prior voice"); ok &= same_tone(c, po.enh, pre.enh, "prior voice");
        return ok;
    }
    if (op.codec == A24 && dec.ret != 0) {
        bool sounded = dec.ret >= 7 && dec.ret <= 122 && errs < 2 && errs2 < 3;
        if (sounded) {
            c.action = RA_TONE;
            if (!marks(c, io, errs2, "")) return false;
            x.repeat = x.repeatCount = 0;
            if (near(po.cur.errorRate, x.errorRate, 1e-9, 1e-6)) x.errorRate = po.cur.errorRate;
            ToneOut to; double e[160], tol[160]; tone_render(dec.ret, 103, (uint32_t)pre.cur.swn, (uint32_t)pre.cur.un, to);
            ok &= same_all(c, po.prev, pre.prev, "previous voice after a tone"); ok &= same_all(c, po.enh, pre.enh, "enhanced voice after a tone");
            if (c.tones) { x.swn = (int)to.swn; x.un = (int)to.un; ok &= same_all(c, po.cur, x, "current set after a tone"); }
            if (!ok) return false;
            for (int n = 0; n < 160; n++) { e[n] = c.tones ? to.pcm[n] : 0; tol[n] = c.tones ? 1e-3 * to.gain + 1e-3 : 0; }
            s.add("oracle.tones");
            return cmp_pcm(c, RC_TONE, "tone", io, e, tol);
        }
        c.action = RA_BADTONE_NOISE;
        if (!marks(c, io, errs2, dec.ret == 3 ? "T" : errs2 > 3 ? "R" : "")) return false;
        if (!is_init(c, po, ini)) return false;
        return comfort_pcm(c, t, io);
    }
    bool rep = op.codec == A24 || !frame ? errs2 > 3 : errs >= 4 || (errs >= 2 && errs2 >= 6);
    if (rep) { x = pre.prev; x.repeat++; x.repeatCount++; }
    else x.repeat = x.repeatCount = 0;
    if (x.repeat > 3) {
        c.action = RA_RESET;
        if (!marks(c, io, errs2, "RM")) return false;
        if (!is_init(c, po, ini)) return false;
        return comfort_pcm(c, t, io);
    }
    c.action = rep ? RA_REPEAT : RA_VOICE;
    if (!marks(c, io, errs2, rep ? "R" : "")) return false;
    ok &= same_ctrl(c, po.prev, x, "retained set", true);
    if (rep) { if (near(po.prev.w0, x.w0, 0, 1e-6)) x.w0 = po.prev.w0; ok &= same_voice(c, RC_REPEAT, po.prev, x, "repeated set"); }
    else ok &= decoded(c, po.prev, dec, pre.cur, false);
    ok &= same_noise(c, po.prev, x, "retained set"); ok &= same_phase(c, po.prev, x, "retained set"); ok &= same_tone(c, po.prev, x, "retained set"); ok &= same_uw(c, po.prev, x, "retained set");
    if (c.v->bad()) return false;
    bool mm; return ok & synthesised(c, t, po, pre.enh, io, &mm, &x);
}
ExecHooks ref_hooks(RefCtx& c) {
    ExecHooks h;
    h.after = [&c](int i, const Op& op, const OpIO& io) {
        if (c.v->bad()) return;
        ref_step(c, i, op, io);
        if (c.action) c.s->add(std::string("action.") + ra_name[c.action]);
        g_loghash = hash_bytes(io.post, sizeof *io.post, g_loghash);
        if (io.pcmf) g_loghash = hash_bytes(io.pcmf, 640, g_loghash);
        if (io.pcms) g_loghash = hash_bytes(io.pcms, 320, g_loghash);
    };
    return h;
}
