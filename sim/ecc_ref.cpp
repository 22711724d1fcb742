// Reference transmitter and receiver, written from the frame layout and the code generators: no table of the library is used.
#include "sim.h"

static const int GOLAY[12] = {0x63a, 0x31d, 0x7b4, 0x3da, 0x1ed, 0x6cc, 0x366, 0x1b3, 0x6e3, 0x54b, 0x49f, 0x475};
static const int HAM72[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1};
static const int HAM71[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591};

// codeword: data bits in 22..11, parity in 10..0
static uint32_t golay_cw(uint32_t d12) {
    uint32_t p = 0;
    for (int i = 0; i < 12; i++) if (d12 & (0x800u >> i)) p ^= (uint32_t)GOLAY[i];
    return (d12 << 11) | p;
}
static uint16_t* g_ham72; static uint16_t* g_ham71; static uint32_t* g_gol;   // syndrome -> error pattern
static uint32_t gsyn(uint32_t w) { return (golay_cw(w >> 11) ^ w) & 0x7ff; }
static int hsyn(uint32_t w, const int* g) { int s = 0; for (int i = 0; i < 4; i++) s = (s << 1) | (__builtin_popcount(w & (uint32_t)g[i]) & 1); return s; }
static void tables() {
    if (g_gol) return;
    uint32_t* t = new uint32_t[2048]();
    for (int a = 0; a < 23; a++) { uint32_t e = 1u << a; t[gsyn(e)] = e;
        for (int b = a + 1; b < 23; b++) { uint32_t f = e | 1u << b; t[gsyn(f)] = f;
            for (int c = b + 1; c < 23; c++) { uint32_t h = f | 1u << c; t[gsyn(h)] = h; } } }
    g_ham72 = new uint16_t[16](); g_ham71 = new uint16_t[16]();
    for (int b = 0; b < 15; b++) { g_ham72[hsyn(1u << b, HAM72)] = (uint16_t)(1u << b); g_ham71[hsyn(1u << b, HAM71)] = (uint16_t)(1u << b); }
    g_gol = t;
}
// Hamming codeword with data in bits 14..4: solve parity by trying all 16
static uint32_t ham_cw(uint32_t d11, const int* g) {
    for (uint32_t p = 0; p < 16; p++) { uint32_t w = d11 << 4 | p; if (hsyn(w, g) == 0) return w; }
    return d11 << 4;
}
static void prbits(uint32_t seed12, int n, int* out) {   // out[1..n]
    uint32_t x = (16 * seed12) & 0xffff;
    for (int i = 1; i <= n; i++) { x = (173 * x + 13849) & 0xffff; out[i] = (int)(x >> 15); }
}
static uint32_t take(const char* d, int& k, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v = v << 1 | (uint32_t)(d[k++] & 1); return v; }
static void put(char* row, int hi, int n, uint32_t v) { for (int i = 0; i < n; i++) row[hi - i] = (char)((v >> (n - 1 - i)) & 1); }
static uint32_t get(const char* row, int hi, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v = v << 1 | (uint32_t)(row[hi - i] & 1); return v; }

// The 7100 format carries the same parameters in another order (the plan's data bits are always in the 7200 layout).
static int k_of(const char* d7200) {
    static const int pos[8] = {0, 1, 2, 3, 4, 5, 85, 86};
    int b0 = 0;
    for (int i = 0; i < 8; i++) b0 = b0 << 1 | (d7200[pos[i]] & 1);
    double per = (b0 + 39.5) / 4;               // pi / w0
    int L = (int)(0.9254 * (int)(per + 0.25));
    return L < 37 ? (L + 2) / 3 : 12;
}
static void to_7100(const char* t, char* d) {
    int K = k_of(t);
    d[0] = t[87]; d[42] = t[48 + K]; d[43] = t[49 + K];
    for (int i = 0; i < K; i++) d[44 + i] = t[48 + i];
    for (int j = 0, k = 1; j < 87;) { d[k] = t[j]; if (++j == 48) j += K + 2; if (++k == 42) k += K + 2; }
}
static void to_7200(const char* d, char* t) {
    char x[88] = {0};
    static const int pos[8] = {0, 1, 2, 3, 4, 5, 85, 86};
    for (int i = 0; i < 8; i++) x[pos[i]] = d[pos[i] + 1];
    int K = k_of(x);
    t[87] = d[0]; t[48 + K] = d[42]; t[49 + K] = d[43];
    for (int i = 0; i < K; i++) t[48 + i] = d[44 + i];
    for (int j = 0, k = 1; j < 87;) { t[j] = d[k]; if (++j == 48) j += K + 2; if (++k == 42) k += K + 2; }
}

void ref_encode(int codec, const char* d, char* fr) {
    int C = fr_cols(codec);
    memset(fr, 0, (size_t)fr_bits(codec));
    int k = 0, pr[116];
    auto row = [&](int r) { return fr + r * C; };
    if (is_ambe(codec)) {
        uint32_t c0 = take(d, k, 12), w0 = golay_cw(c0);
        put(row(0), 23, 23, w0);
        row(0)[0] = (char)(__builtin_popcount(w0) & 1);
        uint32_t w1 = golay_cw(take(d, k, 12));
        prbits(c0, 23, pr);
        put(row(1), 22, 23, w1);
        for (int j = 22, q = 1; j >= 0; j--, q++) row(1)[j] ^= (char)pr[q];
        put(row(2), 10, 11, take(d, k, 11));
        put(row(3), 13, 14, take(d, k, 14));
    } else if (codec == I72) {
        uint32_t c0 = take(d, k, 12);
        put(row(0), 22, 23, golay_cw(c0));
        for (int r = 1; r < 4; r++) put(row(r), 22, 23, golay_cw(take(d, k, 12)));
        for (int r = 4; r < 7; r++) put(row(r), 14, 15, ham_cw(take(d, k, 11), HAM72));
        put(row(7), 6, 7, take(d, k, 7));
        prbits(c0, 114, pr);
        int q = 1;
        for (int r = 1; r < 4; r++) for (int j = 22; j >= 0; j--) row(r)[j] ^= (char)pr[q++];
        for (int r = 4; r < 7; r++) for (int j = 14; j >= 0; j--) row(r)[j] ^= (char)pr[q++];
    } else {
        char t[88]; to_7100(d, t);
        uint32_t c0 = take(t, k, 7);
        put(row(0), 18, 18, golay_cw(c0) & 0x3ffff);
        put(row(1), 23, 23, golay_cw(take(t, k, 12)));   // 23 code bits in 23..1, bit 0 unused
        for (int r = 2; r < 4; r++) put(row(r), 22, 23, golay_cw(take(t, k, 12)));
        for (int r = 4; r < 6; r++) put(row(r), 14, 15, ham_cw(take(t, k, 11), HAM71));
        put(row(6), 22, 23, take(t, k, 23));
        prbits(c0, 100, pr);
        int q = 1;
        for (int j = 23; j >= 0; j--) row(1)[j] ^= (char)pr[q++];
        for (int r = 2; r < 4; r++) for (int j = 22; j >= 0; j--) row(r)[j] ^= (char)pr[q++];
        for (int r = 4; r < 6; r++) for (int j = 14; j >= 0; j--) row(r)[j] ^= (char)pr[q++];
    }
}

static uint32_t gdec(uint32_t w, int* errs) {
    tables();
    uint32_t e = g_gol[gsyn(w)];
    *errs = __builtin_popcount(e >> 11);
    return w ^ e;
}
void ref_receive(int codec, const char* fin, RefRx& rx) {
    tables();
    int C = fr_cols(codec);
    memcpy(rx.fr, fin, (size_t)fr_bits(codec));
    char* fr = rx.fr;
    auto row = [&](int r) { return fr + r * C; };
    int pr[130], e; rx.errs = rx.errs2 = rx.errs_c4 = 0;
    char* d = rx.d;
    auto emit = [&](uint32_t v, int n) { for (int i = n - 1; i >= 0; i--) *d++ = (char)((v >> i) & 1); };
    if (is_ambe(codec)) {
        uint32_t w = gdec(get(row(0), 23, 23), &e);
        uint32_t orig = get(row(0), 23, 23);
        rx.errs = e;
        if (e == 0) {
            // the library leaves parity bits as received, so the 24-bit parity is judged on what was received
            int ones = __builtin_popcount(orig) + (row(0)[0] & 1);
            if (ones & 1) rx.errs = 1;
        }
        uint32_t c0 = w >> 11;
        emit(c0, 12);
        prbits(c0, 23, pr);
        uint32_t m = 0; for (int q = 1; q <= 23; q++) m = m << 1 | (uint32_t)pr[q];
        uint32_t c1 = gdec(get(row(1), 22, 23) ^ m, &e);
        rx.errs2 = rx.errs + e;
        emit(c1 >> 11, 12);
        emit(get(row(2), 10, 11), 11);
        emit(get(row(3), 13, 14), 14);
    } else if (codec == I72) {
        uint32_t w = gdec(get(row(0), 22, 23), &e); rx.errs = rx.errs2 = e;
        prbits(w >> 11, 114, pr);
        int q = 1;
        emit(w >> 11, 12);
        for (int r = 1; r < 4; r++) { uint32_t m = 0; for (int j = 0; j < 23; j++) m = m << 1 | (uint32_t)pr[q++]; w = gdec(get(row(r), 22, 23) ^ m, &e); rx.errs2 += e; emit(w >> 11, 12); }
        for (int r = 4; r < 7; r++) {
            uint32_t m = 0; for (int j = 0; j < 15; j++) m = m << 1 | (uint32_t)pr[q++];
            uint32_t h = get(row(r), 14, 15) ^ m; int s = hsyn(h, HAM72);
            if (s) { h ^= g_ham72[s]; rx.errs2++; if (r == 4) rx.errs_c4 = 1; }
            emit(h >> 4, 11);
        }
        emit(get(row(7), 6, 7), 7);
    } else {
        char t[88]; char* save = d; d = t;
        uint32_t w = gdec(get(row(0), 18, 18), &e); rx.errs = rx.errs2 = e;
        uint32_t c0 = (w >> 11) & 0x7f;
        prbits(c0, 101, pr);
        int q = 1;
        emit(c0, 7);
        uint32_t m = 0;
        for (int j = 0; j < 23; j++) m = m << 1 | (uint32_t)pr[q++];
        q++;   // bit 0 of the row is scrambled but unused
        w = gdec(get(row(1), 23, 23) ^ m, &e); rx.errs2 += e; emit(w >> 11, 12);
        for (int r = 2; r < 4; r++) { m = 0; for (int j = 0; j < 23; j++) m = m << 1 | (uint32_t)pr[q++]; w = gdec(get(row(r), 22, 23) ^ m, &e); rx.errs2 += e; emit(w >> 11, 12); }
        for (int r = 4; r < 6; r++) {
            m = 0; for (int j = 0; j < 15; j++) m = m << 1 | (uint32_t)pr[q++];
            uint32_t h = get(row(r), 14, 15) ^ m; int s = hsyn(h, HAM71);
            if (s) { h ^= g_ham71[s]; rx.errs2++; if (r == 4) rx.errs_c4 = 1; }
            emit(h >> 4, 11);
        }
        emit(get(row(6), 22, 23), 23);
        to_7200(t, save);
    }
}
