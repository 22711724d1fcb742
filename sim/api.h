// Function tables for the variants of the library linked into one simulator binary.
#pragma once
extern "C" {
#include "mbelib-neo/mbelib.h"
}
#define MBE_API_LIST(X) \
 X(checkGolayBlock) X(golay2312) X(hamming1511) X(7100x4400hamming1511) \
 X(eccAmbe3600x2400C0) X(eccAmbe3600x2400Data) X(decodeAmbe2400Parms) X(demodulateAmbe3600x2400Data) \
 X(processAmbe2400Dataf) X(processAmbe2400Data) X(processAmbe3600x2400Framef) X(processAmbe3600x2400Frame) \
 X(eccAmbe3600x2450C0) X(eccAmbe3600x2450Data) X(decodeAmbe2450Parms) X(demodulateAmbe3600x2450Data) \
 X(processAmbe2450Dataf) X(processAmbe2450Data) X(processAmbe3600x2450Framef) X(processAmbe3600x2450Frame) \
 X(eccImbe7200x4400C0) X(eccImbe7200x4400Data) X(decodeImbe4400Parms) X(demodulateImbe7200x4400Data) \
 X(processImbe4400Dataf) X(processImbe4400Data) X(processImbe7200x4400Framef) X(processImbe7200x4400Frame) \
 X(eccImbe7100x4400C0) X(eccImbe7100x4400Data) X(demodulateImbe7100x4400Data) X(convertImbe7100to7200) \
 X(processImbe7100x4400Framef) X(processImbe7100x4400Frame) \
 X(printVersion) X(versionString) X(setThreadRngSeed) X(moveMbeParms) X(useLastMbeParms) X(initMbeParms) \
 X(spectralAmpEnhance) X(synthesizeTonef) X(synthesizeTonefdstar) X(synthesizeSilencef) X(synthesizeSilence) \
 X(synthesizeSpeechf) X(synthesizeSpeech) X(floattoshort) X(requiresMuting) X(isMaxFrameRepeat) \
 X(synthesizeComfortNoisef) X(synthesizeComfortNoise) X(applyAdaptiveSmoothing) X(requiresAdaptiveSmoothing) \
 X(dumpImbe4400Data) X(dumpImbe7200x4400Data) X(dumpImbe7200x4400Frame) X(dumpImbe7100x4400Data) X(dumpImbe7100x4400Frame)

struct Api {
    const char* name;
    bool tones;
#define F(n) decltype(&mbe_##n) f_##n;
    MBE_API_LIST(F)
#undef F
};
extern const Api* g_variants[];   // null-terminated
const Api* api_by_name(const char* name);
