// C25-C28 and the importer part of C19: the importer library, loaded with an FMU that records what it is called with.
// Every history is executed on the real library; the oracle for calls, results, modes and log texts is the table below.
#include "checks.h"
#include <dlfcn.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fstream>
#include <deque>
typedef uint64_t u64;
#ifndef MC_ASAN
// ------------------------------------------------------------------ dynamic loading as seen by the importer
static int dlBalance = 0;                      // libraries loaded minus unloaded by the code under test
static const char *dlMissing = nullptr;        // this function is not found
static u64 dlLookups = 0;
extern "C" {
static void *realDl(const char *n) {
    void *p = dlvsym(RTLD_NEXT, n, "GLIBC_2.34"); if (!p) p = dlvsym(RTLD_NEXT, n, "GLIBC_2.2.5");
    if (!p) { fprintf(stderr, "ERROR: no %s\n", n); _exit(2); } return p;
}
void *dlopen(const char *f, int flags) noexcept {
    static void *(*real)(const char *, int) = nullptr;
    bool was = arena::on; arena::on = false;
    if (!real) real = (void *(*)(const char *, int))realDl("dlopen");
    void *h = real(f, flags); if (was && h) dlBalance++;
    arena::on = was; return h;
}
void *dlsym(void *h, const char *n) noexcept {
    static void *(*real)(void *, const char *) = nullptr;
    bool was = arena::on; arena::on = false;
    if (!real) real = (void *(*)(void *, const char *))realDl("dlsym");
    void *p = was && dlMissing && !strcmp(dlMissing, n) ? nullptr : real(h, n); if (was) dlLookups++;
    arena::on = was; return p;
}
int dlclose(void *h) noexcept {
    static int (*real)(void *) = nullptr;
    bool was = arena::on; arena::on = false;
    if (!real) real = (int (*)(void *))realDl("dlclose");
    int r = real(h); if (was && !r) dlBalance--;
    arena::on = was; return r;
}
}
// ------------------------------------------------------------------ the recording FMU
struct Rec { std::string name; std::vector<u64> a; std::vector<double> d; };
static std::vector<Rec> recs;
static std::function<u64(const Rec &)> onCall;
struct Off { bool was; Off() { was = arena::on; arena::on = false; } ~Off() { arena::on = was; } };
extern "C" u64 mc_recorded(const char *name, const u64 *a, const double *d) {
    Off o; Rec r{name, std::vector<u64>(a, a + 12), std::vector<double>(d, d + 4)}; recs.push_back(r);
    return onCall ? onCall(r) : 0;
}
// ------------------------------------------------------------------ the importer
typedef u64 (*Any)(u64, u64, u64, u64, u64, u64, double, double, double, double, u64, u64, u64, u64, u64, u64);
struct Msg { void *inst; int st; std::string cat, text; };
static std::vector<Msg> calls, msgs;           // function calls logged and messages forwarded
static void cbCall(void *i, int st, const char *m) { Off o; calls.push_back({i, st, "", m ? m : "(null)"}); }
static void cbMsg(void *i, int st, const char *c, const char *m) { Off o; msgs.push_back({i, st, c ? c : "(null)", m ? m : "(null)"}); }
static void *imp = nullptr; static std::string recorder;
static Sys G;
static void *symOf(const std::string &n) { void *p = dlsym(imp, n.c_str()); if (!p) die("importer library has no %s", n.c_str()); return p; }
static void openImporter() {
    if (imp) return;
    recorder = libDir + "/recorder.so"; imp = dlopen((libDir + "/importer.so").c_str(), RTLD_NOW);
    if (!imp) die("cannot load the importer library: %s", dlerror());
    if (!dlopen(recorder.c_str(), RTLD_NOW)) die("cannot load %s: %s", recorder.c_str(), dlerror());
    curSys = &G; G.guarded([] {}); ((void (*)())symOf("glue_init"))();
}
static u64 callAny(void *f, const std::vector<u64> &a, const std::vector<double> &d) {
    u64 w[12] = {0}; double x[4] = {0}; for (size_t i = 0; i < a.size(); i++) w[i] = a[i]; for (size_t i = 0; i < d.size(); i++) x[i] = d[i];
    return ((Any)f)(w[0], w[1], w[2], w[3], w[4], w[5], x[0], x[1], x[2], x[3], w[6], w[7], w[8], w[9], w[10], w[11]);
}
// guarded call of a function of the importer; st: 0, CRASH or HANG
static u64 icall(int &st, const std::string &f, const std::vector<u64> &a, const std::vector<double> &d = {}) {
    void *p = symOf(f); static u64 r; r = 0; st = G.guarded([&] { r = callAny(p, a, d); }); return r;
}
static u64 P(const void *p) { return (u64)p; }
static int mode(u64 inst) { return ((int (*)(u64))symOf("glue_mode"))(inst); }
static const char *buffer(u64 inst) { return ((const char *(*)(u64))symOf("glue_buffer"))(inst); }

// ------------------------------------------------------------------ what the wrappers look like
// kinds: b Boolean, e enumeration or int, u value reference, z size, d double, p opaque pointer, q address of an opaque pointer written by the FMU,
// V array read (logged by value), A array read (logged as address), O array written (logged by value), B array written (logged as address),
// o scalar written (logged by value), v FMI 2.0 event info
struct Param { char kind; std::string ty, name, cnt, sizes; };
struct Fn { int ver; std::string name; char iface; std::vector<Param> p; };   // iface: '*', 'M', 'C'
static std::vector<std::string> splitc(const std::string &s, char c) { std::vector<std::string> v; std::string t; for (char x : s) if (x == c) { v.push_back(t); t = ""; } else t += x; v.push_back(t); return v; }
static const std::vector<Fn> &fns() {
    static std::vector<Fn> F; if (!F.empty()) return F;
    auto add = [&](int ver, char iface, const std::string &name, const std::string &spec) {
        Fn f; f.ver = ver; f.name = name; f.iface = iface;
        if (!spec.empty()) for (auto &s : splitc(spec, '|')) {
            auto w = splitc(s, ' '); Param p; p.kind = w[0][0]; if (w[0].size() > 2) p.ty = w[0].substr(2); p.name = w[1]; if (w.size() > 2) p.cnt = w[2]; if (w.size() > 3) p.sizes = w[3]; f.p.push_back(p);
        }
        F.push_back(f);
    };
    add(2, '*', "SetDebugLogging", "b loggingOn|z nCategories|V:ST categories nCategories");
    add(2, '*', "SetupExperiment", "b toleranceDefined|d tolerance|d startTime|b stopTimeDefined|d stopTime");
    for (const char *n : {"EnterInitializationMode", "ExitInitializationMode", "Terminate", "Reset"}) add(2, '*', n, "");
    for (auto &t : std::vector<std::pair<std::string, std::string>>{{"Real", "F64"}, {"Integer", "I32"}, {"Boolean", "BO"}, {"String", "ST"}}) {
        add(2, '*', "Get" + t.first, "V:VR vr nvr|z nvr|O:" + t.second + " value nvr"); add(2, '*', "Set" + t.first, "V:VR vr nvr|z nvr|V:" + t.second + " value nvr");
    }
    add(2, '*', "GetFMUstate", "q FMUstate"); add(2, '*', "SetFMUstate", "p FMUstate"); add(2, '*', "FreeFMUstate", "q FMUstate");
    add(2, '*', "SerializedFMUstateSize", "p FMUstate|o:SZ size"); add(2, '*', "SerializeFMUstate", "p FMUstate|B:BY serializedState size|z size"); add(2, '*', "DeSerializeFMUstate", "A:BY serializedState size|z size|q FMUstate");
    add(2, '*', "GetDirectionalDerivative", "V:VR vUnknown_ref nUnknown|z nUnknown|V:VR vKnown_ref nKnown|z nKnown|V:F64 dvKnown nKnown|O:F64 dvUnknown nUnknown");
    add(2, 'M', "EnterEventMode", ""); add(2, 'M', "NewDiscreteStates", "v eventInfo"); add(2, 'M', "EnterContinuousTimeMode", "");
    add(2, 'M', "CompletedIntegratorStep", "b noSetFMUStatePriorToCurrentPoint|o:BO enterEventMode|o:BO terminateSimulation"); add(2, 'M', "SetTime", "d time");
    add(2, 'M', "SetContinuousStates", "V:F64 x nx|z nx"); add(2, 'M', "GetDerivatives", "O:F64 derivatives nx|z nx"); add(2, 'M', "GetEventIndicators", "O:F64 eventIndicators ni|z ni");
    add(2, 'M', "GetContinuousStates", "O:F64 x nx|z nx"); add(2, 'M', "GetNominalsOfContinuousStates", "O:F64 x_nominal nx|z nx");
    add(2, 'C', "SetRealInputDerivatives", "A:VR vr nvr|z nvr|A:I32 order nvr|A:F64 value nvr"); add(2, 'C', "GetRealOutputDerivatives", "A:VR vr nvr|z nvr|A:I32 order nvr|B:F64 value nvr");
    add(2, 'C', "DoStep", "d currentCommunicationPoint|d communicationStepSize|b noSetFMUStatePriorToCurrentPoint"); add(2, 'C', "CancelStep", "");
    add(2, 'C', "GetStatus", "e s|o:I32 value"); add(2, 'C', "GetRealStatus", "e s|o:F64 value"); add(2, 'C', "GetIntegerStatus", "e s|o:I32 value"); add(2, 'C', "GetBooleanStatus", "e s|o:BO value"); add(2, 'C', "GetStringStatus", "e s|o:ST value");

    add(3, '*', "SetDebugLogging", "b loggingOn|z nCategories|V:ST categories nCategories");
    add(3, '*', "EnterInitializationMode", "b toleranceDefined|d tolerance|d startTime|b stopTimeDefined|d stopTime");
    for (const char *n : {"ExitInitializationMode", "EnterEventMode", "Terminate", "Reset", "EnterConfigurationMode", "ExitConfigurationMode", "EvaluateDiscreteStates", "EnterContinuousTimeMode", "EnterStepMode"}) add(3, '*', n, "");
    for (auto &t : std::vector<std::pair<std::string, std::string>>{{"Float32", "F32"}, {"Float64", "F64"}, {"Int8", "I8"}, {"UInt8", "U8"}, {"Int16", "I16"}, {"UInt16", "U16"}, {"Int32", "I32"}, {"UInt32", "U32"}, {"Int64", "I64"}, {"UInt64", "U64"}, {"Boolean", "BO"}, {"String", "ST"}}) {
        add(3, '*', "Get" + t.first, "V:VR valueReferences nValueReferences|z nValueReferences|O:" + t.second + " values nValues|z nValues");
        add(3, '*', "Set" + t.first, "V:VR valueReferences nValueReferences|z nValueReferences|V:" + t.second + " values nValues|z nValues");
    }
    add(3, '*', "GetBinary", "V:VR valueReferences nValueReferences|z nValueReferences|O:SZ sizes nValues|O:BI values nValues sizes|z nValues");
    add(3, '*', "SetBinary", "V:VR valueReferences nValueReferences|z nValueReferences|V:SZ sizes nValues|V:BI values nValues sizes|z nValues");
    add(3, '*', "GetClock", "V:VR valueReferences nValueReferences|z nValueReferences|O:CK values nValueReferences");
    add(3, '*', "SetClock", "V:VR valueReferences nValueReferences|z nValueReferences|V:CK values nValueReferences");
    add(3, '*', "GetNumberOfVariableDependencies", "u valueReference|B:SZ nDependencies 1");
    add(3, '*', "GetVariableDependencies", "u dependent|B:SZ elementIndicesOfDependent nDependencies|B:VR independents nDependencies|B:SZ elementIndicesOfIndependents nDependencies|B:I32 dependencyKinds nDependencies|z nDependencies");
    add(3, '*', "GetFMUState", "q FMUState"); add(3, '*', "SetFMUState", "p FMUState"); add(3, '*', "FreeFMUState", "q FMUState");
    add(3, '*', "SerializedFMUStateSize", "p FMUState|o:SZ size"); add(3, '*', "SerializeFMUState", "p FMUstate|B:BY serializedState size|z size"); add(3, '*', "DeserializeFMUState", "A:BY serializedState size|z size|q FMUState");
    for (const char *n : {"GetDirectionalDerivative", "GetAdjointDerivative"}) add(3, '*', n, "A:VR unknowns nUnknowns|z nUnknowns|A:VR knowns nKnowns|z nKnowns|A:F64 seed nSeed|z nSeed|B:F64 sensitivity nSensitivity|z nSensitivity");
    std::string r = "A:VR valueReferences nValueReferences|z nValueReferences|";
    add(3, '*', "GetIntervalDecimal", r + "B:F64 intervals nValueReferences|B:I32 qualifiers nValueReferences");
    add(3, '*', "GetIntervalFraction", r + "B:U64 intervalCounters nValueReferences|B:U64 resolutions nValueReferences|B:I32 qualifiers nValueReferences");
    add(3, '*', "GetShiftDecimal", r + "B:F64 shifts nValueReferences"); add(3, '*', "GetShiftFraction", r + "B:U64 shiftCounters nValueReferences|B:U64 resolutions nValueReferences");
    add(3, '*', "SetIntervalDecimal", r + "A:F64 intervals nValueReferences"); add(3, '*', "SetIntervalFraction", r + "A:U64 intervalCounters nValueReferences|A:U64 resolutions nValueReferences");
    add(3, '*', "SetShiftDecimal", r + "A:F64 shifts nValueReferences"); add(3, '*', "SetShiftFraction", r + "A:U64 shiftCounters nValueReferences|A:U64 resolutions nValueReferences");
    add(3, '*', "UpdateDiscreteStates", "o:BO discreteStatesNeedUpdate|o:BO terminateSimulation|o:BO nominalsOfContinuousStatesChanged|o:BO valuesOfContinuousStatesChanged|o:BO nextEventTimeDefined|o:F64 nextEventTime");
    add(3, '*', "CompletedIntegratorStep", "b noSetFMUStatePriorToCurrentPoint|o:BO enterEventMode|o:BO terminateSimulation"); add(3, '*', "SetTime", "d time");
    add(3, '*', "SetContinuousStates", "V:F64 continuousStates nContinuousStates|z nContinuousStates"); add(3, '*', "GetContinuousStateDerivatives", "O:F64 derivatives nContinuousStates|z nContinuousStates");
    add(3, '*', "GetEventIndicators", "O:F64 eventIndicators nEventIndicators|z nEventIndicators"); add(3, '*', "GetContinuousStates", "O:F64 continuousStates nContinuousStates|z nContinuousStates");
    add(3, '*', "GetNominalsOfContinuousStates", "O:F64 nominals nContinuousStates|z nContinuousStates");
    add(3, '*', "GetNumberOfEventIndicators", "o:SZ nEventIndicators"); add(3, '*', "GetNumberOfContinuousStates", "o:SZ nContinuousStates");
    add(3, '*', "GetOutputDerivatives", r + "A:I32 orders nValueReferences|B:F64 values nValues|z nValues");
    add(3, '*', "DoStep", "d currentCommunicationPoint|d communicationStepSize|b noSetFMUStatePriorToCurrentPoint|o:BO eventHandlingNeeded|o:BO terminateSimulation|o:BO earlyReturn|o:F64 lastSuccessfulTime");
    add(3, '*', "ActivateModelPartition", "u clockReference|d activationTime");
    return F;
}
static size_t sizeOfTy(int ver, const std::string &t) {
    if (t == "BO") return ver == 3 ? 1 : 4;
    if (t == "F32" || t == "I32" || t == "U32" || t == "VR") return 4;
    if (t == "I8" || t == "U8" || t == "BY" || t == "CK") return 1;
    if (t == "I16" || t == "U16") return 2;
    return 8;
}
// value number k of a type; pattern 0: small and distinct, 1: boundary values, 2: long texts
static std::deque<std::string> pool;          // keeps strings alive
static void putVal(int ver, const std::string &t, char *at, u64 k, int pattern, size_t len) {
    auto w = [&](const void *p, size_t n) { memcpy(at, p, n); };
    if (t == "F64") { static const double e[] = {0.1, -0.0, INFINITY, -INFINITY, DBL_MAX, -DBL_MIN, 4.9e-324, 1.0 / 3, 1e21, -123456789.123456, 100, 1e-5}; double v = pattern == 1 ? e[k % 12] : (double)k * 1.25 + 0.5; w(&v, 8); return; }
    if (t == "F32") { static const float e[] = {0.1f, -0.0f, INFINITY, -INFINITY, FLT_MAX, -FLT_MIN, 1.0f / 3, 16777216.f, 1e-5f}; float v = pattern == 1 ? e[k % 9] : (float)k * 1.25f + 0.5f; w(&v, 4); return; }
    if (t == "BO" || t == "CK") { if (ver == 2) { int32_t v = pattern == 1 ? (k % 3 == 0 ? 1 : 0) : (int)(k & 1); w(&v, 4); } else { uint8_t v = k & 1; w(&v, 1); } return; }
    if (t == "ST" || t == "BI") { std::string s = "s" + std::to_string(k); if (pattern == 1) { static const char *e[] = {"", "a\"b", "%d%s%n", "\xc3\xa4\n\t", " ", "x"}; s = e[k % 6]; } if (pattern == 2) { std::string r; while (r.size() < len) r += s + ","; r.resize(len); s = r; } pool.push_back(s); const char *c = pool.back().c_str(); w(&c, 8); return; }
    static const u64 e[] = {0, 1, ~0ull, 1ull << 63, (1ull << 63) - 1, 0x80, 0x7f, 0xff, 0x8000, 0x7fff, 0xffff, 0x80000000ull, 0x7fffffffull, 0xffffffffull};
    u64 v = pattern == 1 ? e[k % 14] : (k * 3 + 1); if (t == "SZ" && pattern != 1) v = k + 7; w(&v, sizeOfTy(ver, t));
}
static std::string showVal(int ver, const std::string &t, const char *at, size_t binSize = 0) {
    if (t == "F64") { double v; memcpy(&v, at, 8); return strf("%.16g", v); }
    if (t == "F32") { float v; memcpy(&v, at, 4); return strf("%.7g", (double)v); }
    if (t == "ST") { const char *c; memcpy(&c, at, 8); return std::string("\"") + c + "\""; }
    if (t == "BI") { const unsigned char *c; memcpy(&c, at, 8); std::string s = "0x"; for (size_t i = 0; i < binSize; i++) s += strf("%02x", c[i]); return s; }
    if (t == "I8") return std::to_string(*(const int8_t *)at);
    if (t == "I16") { int16_t v; memcpy(&v, at, 2); return std::to_string(v); }
    if (t == "I32") { int32_t v; memcpy(&v, at, 4); return std::to_string(v); }
    if (t == "I64") { int64_t v; memcpy(&v, at, 8); return std::to_string(v); }
    if (t == "BO" && ver == 2) { int32_t v; memcpy(&v, at, 4); return std::to_string(v); }
    u64 v = 0; memcpy(&v, at, sizeOfTy(ver, t)); return std::to_string(v);
}
struct Case { std::map<std::string, size_t> n; int pattern = 0; size_t len = 0; int status = 0; bool write = true; int seed = 0; };
static std::string caseText(const Fn &f, const Case &c) {
    std::string s = strf("fmi%d%s", f.ver, f.name.c_str()) + "("; for (auto &x : c.n) s += x.first + "=" + std::to_string(x.second) + " ";
    return s + strf("values of pattern %d, text length %zu, returned status %d%s)", c.pattern, c.len, c.status, c.write ? "" : ", nothing written");
}
struct Guarded { std::vector<char> m; size_t n; Guarded(size_t k = 0) : m(k + 64, (char)0xA7), n(k) {} char *p() { return m.data() + 32; } bool ok() const { for (size_t i = 0; i < 32; i++) if (m[i] != (char)0xA7 || m[32 + n + i] != (char)0xA7) return false; return true; } };
static u64 INST = 0, COMP = 0;
static u64 INST2 = 0; static char component2[16];                 // an instance nothing is done with
static std::string bystander2();
// one wrapper call; the reason if the call was not passed through, and (separately) if the log is wrong
static void runCase(const Fn &f, const Case &c, bool logging, std::string &pass, std::string &log) {
    static std::vector<Guarded> bufs; bufs.clear(); bufs.resize(f.p.size()); pool.clear();
    std::vector<u64> a = {INST}; std::vector<double> d; std::vector<std::string> text(f.p.size()), shadow(f.p.size()), result(f.p.size());
    auto cnt = [&](const Param &p) -> size_t { if (p.cnt.empty()) return 1; if (p.cnt == "1") return 1; auto it = c.n.find(p.cnt); return it == c.n.end() ? 0 : it->second; };
    auto join = [&](const Param &p, const char *b, size_t n, const char *sz) { std::string s = "{"; size_t e = sizeOfTy(f.ver, p.ty); for (size_t k = 0; k < n; k++) { size_t bs = 0; if (sz) memcpy(&bs, sz + 8 * k, 8); if (k) s += ", "; s += showVal(f.ver, p.ty, b + k * e, bs); } return s + "}"; };
    u64 k0 = 11 + (u64)c.seed; static char opaque[64];
    for (size_t i = 0; i < f.p.size(); i++) {
        const Param &p = f.p[i]; u64 k = k0 + 37 * i;
        switch (p.kind) {
        case 'b': { u64 v = (i + (size_t)c.seed) & 1; a.push_back(v); text[i] = std::to_string(v); break; }
        case 'e': a.push_back((u64)(c.seed % 4)); text[i] = std::to_string(c.seed % 4); break;
        case 'u': { uint32_t v = c.pattern == 1 ? 0xfffffff0u : (uint32_t)k; a.push_back(v); text[i] = std::to_string(v); break; }
        case 'z': { u64 v = c.n.at(p.name); a.push_back(v); text[i] = std::to_string(v); break; }
        case 'd': { double v; putVal(f.ver, "F64", (char *)&v, k, c.pattern, 0); d.push_back(v); text[i] = strf("%.16g", v); break; }
        case 'p': a.push_back(P(opaque + i)); text[i] = strf("0x%p", (void *)(opaque + i)); break;
        case 'q': { bufs[i] = Guarded(8); u64 v = P(opaque + 20 + i); memcpy(bufs[i].p(), &v, 8); shadow[i].assign(bufs[i].p(), 8); v = P(opaque + 40 + i); result[i].assign((char *)&v, 8); a.push_back(P(bufs[i].p())); text[i] = strf("0x%p", (void *)bufs[i].p()); break; }
        case 'v': {
            bufs[i] = Guarded(sizeof(fmi2EventInfo)); memset(bufs[i].p(), 0x55, sizeof(fmi2EventInfo)); fmi2EventInfo e; memset(&e, 0, sizeof e);
            e.newDiscreteStatesNeeded = c.seed & 1; e.terminateSimulation = (c.seed >> 1) & 1; e.nominalsOfContinuousStatesChanged = (c.seed >> 2) & 1; e.valuesOfContinuousStatesChanged = (c.seed >> 3) & 1; e.nextEventTimeDefined = (c.seed >> 4) & 1; putVal(2, "F64", (char *)&e.nextEventTime, k, c.pattern, 0);
            result[i].assign((char *)&e, sizeof e); a.push_back(P(bufs[i].p()));
            text[i] = strf("{newDiscreteStatesNeeded=%d, terminateSimulation=%d, nominalsOfContinuousStatesChanged=%d, valuesOfContinuousStatesChanged=%d, nextEventTimeDefined=%d, nextEventTime=%.16g}", e.newDiscreteStatesNeeded, e.terminateSimulation, e.nominalsOfContinuousStatesChanged, e.valuesOfContinuousStatesChanged, e.nextEventTimeDefined, e.nextEventTime); break; }
        default: {
            size_t n = cnt(p), e = sizeOfTy(f.ver, p.ty); bufs[i] = Guarded(n * e); bool out = p.kind == 'O' || p.kind == 'B' || p.kind == 'o';
            std::string v(n * e, 0); for (size_t j = 0; j < n; j++) putVal(f.ver, p.ty, &v[j * e], k + j, c.pattern, c.len);
            bool isSizes = false; for (auto &q : f.p) if (q.sizes == p.name) isSizes = true;
            if (isSizes) for (size_t j = 0; j < n; j++) { u64 l = c.pattern == 2 ? c.len : c.pattern == 1 ? j % 3 : 1 + (j + (size_t)c.seed) % 3; memcpy(&v[j * 8], &l, 8); }
            if (p.ty == "BI") for (size_t j = 0; j < n; j++) { std::string s; size_t l = c.pattern == 2 ? c.len : 3; for (size_t x = 0; x < l; x++) s += (char)(j * 16 + x * 89 + (size_t)c.seed); pool.push_back(s); const char *q = pool.back().data(); memcpy(&v[j * 8], &q, 8); }
            if (out) { result[i] = v; for (size_t j = 0; j < n * e; j++) bufs[i].p()[j] = p.ty == "ST" || p.ty == "BI" ? (j % 8 ? 0 : 0x10) : 0x33; shadow[i].assign(bufs[i].p(), n * e); } else { memcpy(bufs[i].p(), v.data(), v.size()); shadow[i] = v; }
            a.push_back(P(bufs[i].p()));
            const char *sz = nullptr; if (!p.sizes.empty()) for (size_t j = 0; j < i; j++) if (f.p[j].name == p.sizes) sz = (f.p[j].kind == 'O' ? result[j] : shadow[j]).data();
            if (p.kind == 'A' || p.kind == 'B') text[i] = strf("0x%p", (void *)bufs[i].p());
            else if (p.kind == 'o') text[i] = showVal(f.ver, p.ty, v.data()); else text[i] = join(p, v.data(), n, sz);
        } }
    }
    std::string got;
    onCall = [&](const Rec &r) -> u64 {
        size_t ai = 1, di = 0;
        if (r.a[0] != COMP) got = "the FMU function got another instance";
        for (size_t i = 0; i < f.p.size() && got.empty(); i++) {
            const Param &p = f.p[i];
            if (p.kind == 'd') { size_t w = di; if (memcmp(&r.d[di], &d[w], 8)) got = p.name + " is not what the caller gave"; di++; continue; }
            u64 g = r.a[ai], w = a[ai]; ai++;
            u64 mask = p.kind == 'b' ? (f.ver == 3 ? 0xff : 0xffffffffull) : p.kind == 'e' || p.kind == 'u' ? 0xffffffffull : ~0ull;
            if (strchr("beuzp", p.kind)) { if ((g & mask) != (w & mask)) got = p.name + " is not what the caller gave"; continue; }
            size_t n = p.kind == 'v' ? sizeof(fmi2EventInfo) : p.kind == 'q' ? 8 : cnt(p) * sizeOfTy(f.ver, p.ty);
            if (!n) continue;
            if (!g) { got = p.name + " is missing"; continue; }
            if ((p.kind == 'V' || p.kind == 'A' || p.kind == 'q') && memcmp((void *)g, shadow[i].data(), n)) got = p.name + " does not contain what the caller gave";
            if (c.write && strchr("OBoqv", p.kind)) memcpy((void *)g, result[i].data(), n);
        }
        return (u64)(uint32_t)c.status;
    };
    recs.clear(); calls.clear(); msgs.clear(); int st; u64 ret = icall(st, strf("FMI%d%s", f.ver, f.name.c_str()), a, d); onCall = nullptr;
    R.transitions++;
    if (st) { pass = log = st == HANG ? "the call does not return" : "the call crashed"; return; }
    std::string want = strf("fmi%d%s", f.ver, f.name.c_str());
    if (recs.size() != 1) pass = strf("%zu calls of FMU functions instead of one", recs.size());
    else if (recs[0].name != want) pass = "called " + recs[0].name;
    else if (!got.empty()) pass = got;
    else if ((int)ret != c.status) pass = strf("returned status %d", (int)ret);
    else for (size_t i = 0; i < f.p.size(); i++) {
        if (!bufs[i].ok()) { pass = f.p[i].name + ": memory around the array changed"; break; }
        const std::string &w = c.write && strchr("OBoqv", f.p[i].kind) ? result[i] : shadow[i];
        if (!w.empty() && memcmp(bufs[i].p(), w.data(), w.size())) { pass = f.p[i].name + " does not contain what the FMU returned"; break; }
    }
    if (logging) {
        std::string t = want + "("; for (size_t i = 0; i < f.p.size(); i++) t += (i ? ", " : "") + f.p[i].name + "=" + text[i]; t += ")";
        // texts and binaries of a failed call need not be there
        bool failedText = c.status > 1; bool hasText = false; std::string t2 = want + "("; for (size_t i = 0; i < f.p.size(); i++) { bool tx = (f.p[i].kind == 'O' || f.p[i].kind == 'o') && (f.p[i].ty == "ST" || f.p[i].ty == "BI"); if (tx) hasText = true; t2 += (i ? ", " : "") + f.p[i].name + "=" + (tx ? (f.p[i].kind == 'o' ? "\"\"" : "{}") : text[i]); } t2 += ")";
        if (calls.size() != 1) log = strf("%zu entries in the log", calls.size());
        else if (P(calls[0].inst) != INST) log = "logged for another instance";
        else if (calls[0].st != c.status) log = strf("logged with status %d", calls[0].st);
        else if (!c.write) { if (calls[0].text.rfind(want + "(", 0)) log = "logged as " + calls[0].text; }
        else if (calls[0].text != t && !(failedText && hasText && calls[0].text == t2)) {
            size_t k = 0; while (k < t.size() && k < calls[0].text.size() && t[k] == calls[0].text[k]) k++;
            log = strf("log differs at character %zu of %zu (%zu logged): ...", k, t.size(), calls[0].text.size()) + calls[0].text.substr(k > 40 ? k - 40 : 0, 100) + " instead of ..." + t.substr(k > 40 ? k - 40 : 0, 100);
        }
        std::string why; if (!arena::intact(why)) log = why;
    } else if (!calls.empty()) pass = "logged although there is no log function";
    if (INST2 && pass.empty()) pass = bystander2();
}
// ------------------------------------------------------------------ creation
static char component[16], resource[] = "file:///tmp/res", token[] = "{token-1}";
struct InstOpt { int ver; char iface; bool logCalls = true, logMsgs = true; bool visible = false, loggingOn = false, eventMode = false, early = false; int other = 0; std::string name = "instance"; int before = -1; };
static u64 create(const InstOpt &o, int &st) { return icall(st, "FMICreateInstance", {P(o.name.c_str()), o.logMsgs ? P((void *)cbMsg) : 0, o.logCalls ? P((void *)cbCall) : 0}); }
static uint32_t reqVars[3] = {7, 8, 9};
static size_t nReqVars = 3; static bool noReqVars = false;
static void dummyCb() {}
static int instantiate(u64 inst, const InstOpt &o, int &st) {
    if (o.ver == 2) return (int)icall(st, "FMI2Instantiate", {inst, P(resource), o.iface == 'M' ? 0u : 1u, P(token), o.visible, o.loggingOn});
    if (o.iface == 'M') return (int)icall(st, "FMI3InstantiateModelExchange", {inst, P(token), P(resource), o.visible, o.loggingOn});
    if (o.iface == 'C') return (int)icall(st, "FMI3InstantiateCoSimulation", {inst, P(token), P(resource), o.visible, o.loggingOn, o.eventMode, o.early, noReqVars ? 0 : P(reqVars), nReqVars, noReqVars ? 0 : P((void *)dummyCb)});
    return (int)icall(st, "FMI3InstantiateScheduledExecution", {inst, P(token), P(resource), o.visible, o.loggingOn, 0x1110, P((void *)cbMsg), 0x2220, 0x3330, 0x4440});
}
static std::vector<InstOpt> insts();
static void resetWorld() { arena::on = false; arena::reset(); arena::allocs = 0; arena::failAt = arena::failFrom = -1; arena::badFree = false; dlBalance = 0; dlMissing = nullptr; recs.clear(); calls.clear(); msgs.clear(); onCall = nullptr; }
// another instance, in an early mode, that has logged a call
static std::string look2() {
    auto g = [](const char *n) { return ((u64 (*)(u64))symOf(n))(INST2); };
    return strf("mode %d component %llx version %d interface %d name ", mode(INST2), (unsigned long long)g("glue_component"), (int)g("glue_version"), (int)g("glue_interface")) + (const char *)g("glue_name") + " log " + buffer(INST2);
}
static std::string before2;
static std::string bystander2() { return !INST2 || look2() == before2 ? "" : "another instance changed from \"" + before2 + "\" to \"" + look2() + "\""; }
static int exit2;
// other: 1 and 2 another version of FMI, 3 and 4 the same version; odd numbers before the instance under test, even numbers after it
static std::string setUp2(const InstOpt &o) {
    InstOpt p; p.ver = (o.ver == 2) == (o.other < 3) ? 3 : 2; p.iface = 'C'; p.name = "other"; int st; if (o.other > 2) { p.eventMode = !o.eventMode; if (o.ver == 2 && o.iface == 'C') p.iface = 'M'; } exit2 = p.iface == 'M' ? 4 : p.ver == 3 && p.eventMode ? 4 : 6; INST2 = create(p, st); if (st || !INST2) return "creating another instance failed";
    if (icall(st, "FMILoadPlatformBinary", {INST2, P(recorder.c_str())}) || st) return "loading for another instance failed";
    onCall = [&](const Rec &) { return P(component2); }; int r = instantiate(INST2, p, st); onCall = nullptr; if (r || st) return "instantiating another instance failed";
    if (p.ver == 3) icall(st, "FMI3EnterInitializationMode", {INST2, 0, 0}, {0, 0, 0}); else icall(st, "FMI2EnterInitializationMode", {INST2});
    if (st) return "using another instance crashed"; before2 = look2(); return "";
}
static std::string tearDown2() {
    if (!INST2) return ""; std::string e = bystander2(); int ver = (int)((u64 (*)(u64))symOf("glue_version"))(INST2), st; recs.clear(); onCall = nullptr;
    if (e.empty()) { icall(st, strf("FMI%dExitInitializationMode", ver), {INST2}); if (st || recs.size() != 1 || recs[0].a[0] != P(component2) || recs[0].name != strf("fmi%dExitInitializationMode", ver)) e = "a call for another instance is not passed through"; else if (mode(INST2) != exit2) e = "the importer's record of the mode of another instance is wrong"; }
    if (e.empty()) { icall(st, strf("FMI%dFreeInstance", ver), {INST2}); icall(st, "FMIFreeInstance", {INST2}); if (st) e = "freeing another instance crashed"; }
    INST2 = 0; return e;
}
// a new, instantiated instance; "" or what went wrong
static std::string setUp(const InstOpt &o) {
    resetWorld(); INST2 = 0; if (o.other % 2) { std::string e = setUp2(o); if (!e.empty()) return e; }
    int st; INST = create(o, st); if (st || !INST) return "creating the importer instance failed";
    if (icall(st, "FMILoadPlatformBinary", {INST, P(recorder.c_str())}) || st) return "loading failed";
    onCall = [&](const Rec &) { return P(component); };
    if (o.before >= 0) {      // the importer instance has been used before, for another interface type or version
        InstOpt p = insts()[o.before]; p.eventMode = !o.eventMode;
        if (instantiate(INST, p, st) || st) return "instantiating for the first time failed";
        if (p.ver == 3) icall(st, "FMI3EnterInitializationMode", {INST, 0, 0}, {0, 0, 0}); else icall(st, "FMI2EnterInitializationMode", {INST});
        if (st) return "the first use crashed"; icall(st, strf("FMI%dFreeInstance", p.ver), {INST}); if (st) return "freeing the first FMU instance crashed";
        calls.clear(); msgs.clear();
    }
    if (instantiate(INST, o, st) || st) return "instantiating failed";
    onCall = nullptr; COMP = P(component); if (o.other && o.other % 2 == 0) return setUp2(o); return "";
}
static std::string tearDown(const InstOpt &o) {
    int st; if (o.other % 2) { std::string e = tearDown2(); if (!e.empty()) return e; } icall(st, o.ver == 2 ? "FMI2FreeInstance" : "FMI3FreeInstance", {INST}); if (st) return "freeing the FMU instance crashed";
    icall(st, "FMIFreeInstance", {INST}); if (st) return "freeing the importer instance crashed";
    if (o.other && o.other % 2 == 0) { std::string e = tearDown2(); if (!e.empty()) return e; }
    if (arena::live()) return strf("%zu blocks of memory are not freed", arena::live());
    if (dlBalance) return "the library is not unloaded";
    std::string why; if (!arena::intact(why)) return why; return "";
}
static std::vector<InstOpt> insts() { std::vector<InstOpt> v; for (char i : {'M', 'C'}) { InstOpt o; o.ver = 2; o.iface = i; v.push_back(o); } for (char i : {'M', 'C', 'S'}) { InstOpt o; o.ver = 3; o.iface = i; v.push_back(o); } return v; }
static std::string optText(const InstOpt &o) { return strf("FMI %d.0 %s", o.ver, o.iface == 'M' ? "Model Exchange" : o.iface == 'C' ? "Co-Simulation" : "Scheduled Execution"); }
static std::vector<std::string> countsOf(const Fn &f) { std::vector<std::string> v; for (auto &p : f.p) if (p.kind == 'z') v.push_back(p.name); return v; }
static bool usable(const Fn &f, const InstOpt &o) { return f.ver == o.ver && (f.iface == '*' || f.iface == o.iface); }
static void prepare(const Fn &f) { if (f.name == "ExitConfigurationMode") { int st; icall(st, "FMI3Reset", {INST}); icall(st, "FMI3EnterConfigurationMode", {INST}); } }
// all cases of one function; what: "C26" or "C27"
static void allCases(const Fn &f, const InstOpt &o, bool c26) {
    auto names = countsOf(f);
    auto one = [&](const Case &c) -> bool {
        std::string pass, log; prepare(f); runCase(f, c, o.logCalls, pass, log); const std::string &why = c26 ? log : pass; R.states++;
        if (!why.empty()) { R.violation(optText(o) + " " + caseText(f, c) + ": " + why, "importer call: " + caseText(f, c) + "\nlogged: " + (calls.empty() ? "(nothing)" : calls[0].text) + "\n"); return false; }
        return true;
    };
    size_t combos = 1; for (size_t i = 0; i < names.size(); i++) combos *= 4;
    for (int status = 0; status <= (f.ver == 2 ? 5 : 4); status++) for (int pattern = 0; pattern <= 1; pattern++) for (size_t k = 0; k < combos; k++) {
        Case c; c.status = status; c.pattern = pattern; size_t x = k; for (auto &n : names) { c.n[n] = x % 4; x /= 4; }
        for (int seed = 0; seed < (names.empty() ? 32 : 4); seed++) { c.seed = seed; if (!one(c)) return; }
        if (status > 1) { c.write = false; if (!one(c)) return; }
    }
    // lengths beyond the boundaries of the buffer
    bool anyVal = false, anyText = false; for (auto &p : f.p) if (p.kind == 'V' || p.kind == 'O' || p.kind == 'o') { anyVal = true; if (p.ty == "ST" || p.ty == "BI") anyText = true; }
    if (!c26) { for (auto &n : names) for (size_t len : {10u, 100u, 1000u}) { Case c; for (auto &m : names) c.n[m] = 2; c.n[n] = len; if (!one(c)) return; } return; }
    if (anyVal) for (auto &n : names) for (size_t len = 4; len <= (thorough ? 1500u : 520u); len++) for (int pattern = 0; pattern <= 1; pattern++) { Case c; c.pattern = pattern; for (auto &m : names) c.n[m] = 1; c.n[n] = len; if (!one(c)) return; }
    if (anyText) for (size_t cntv = 1; cntv <= 3; cntv++) for (size_t len = 0; len <= (thorough ? 4400u : 2200u); len++) { Case c; c.pattern = 2; c.len = len; for (auto &m : names) c.n[m] = m == "nValueReferences" ? 1 : cntv; if (!one(c)) return; if (names.empty()) break; }
}

// ------------------------------------------------------------------ C27
// modes as numbered by glue_mode
enum { START, INSTANTIATED, CONFIG, INIT, EVENT, CTM, STEP, CLOCK, RECONFIG, TERM };
static const char *impMode[] = {"start", "Instantiated", "Configuration", "Initialization", "Event", "ContinuousTime", "Step", "ClockActivation", "Reconfiguration", "Terminated"};
static std::vector<std::pair<std::string, int>> modeCalls(const InstOpt &o, int m) {
    std::vector<std::pair<std::string, int>> v; bool me = o.iface == 'M', cs = o.iface == 'C', v3 = o.ver == 3;
    if (m == INSTANTIATED) { v.push_back({"EnterInitializationMode", INIT}); if (v3) v.push_back({"EnterConfigurationMode", CONFIG}); }
    if (m == CONFIG) v.push_back({"ExitConfigurationMode", INSTANTIATED});
    if (m == INIT) v.push_back({"ExitInitializationMode", me ? EVENT : cs ? (v3 && o.eventMode ? EVENT : STEP) : CLOCK});
    if (m == EVENT && me) { v.push_back({"EnterContinuousTimeMode", CTM}); if (v3) v.push_back({"EnterConfigurationMode", RECONFIG}); }
    if (m == EVENT && cs) v.push_back({"EnterStepMode", STEP});
    if (m == CTM) v.push_back({"EnterEventMode", EVENT});
    if (m == STEP && v3) { if (o.eventMode) v.push_back({"EnterEventMode", EVENT}); v.push_back({"EnterConfigurationMode", RECONFIG}); }
    if (m == CLOCK) v.push_back({"EnterConfigurationMode", RECONFIG});
    if (m == RECONFIG) v.push_back({"ExitConfigurationMode", me ? EVENT : cs ? STEP : CLOCK});
    if (m == EVENT || m == CTM || m == STEP || m == CLOCK) v.push_back({"Terminate", TERM});
    v.push_back({"Reset", INSTANTIATED});
    return v;
}
static int wrapper(const InstOpt &o, const std::string &n, int status, int &st) {
    onCall = [status](const Rec &) { return (u64)status; };
    int r = n == "EnterInitializationMode" && o.ver == 3 ? (int)icall(st, "FMI3EnterInitializationMode", {INST, 1, 1}, {1e-4, 0, 1}) : (int)icall(st, strf("FMI%d%s", o.ver, n.c_str()), {INST});
    onCall = nullptr; return r;
}
static void modeHistories(const InstOpt &o, int depth) {
    struct N { std::vector<std::pair<std::string, int>> h; int m; };
    std::vector<N> level = {{{}, INSTANTIATED}}; std::set<int> seen;
    for (int d = 0; d <= depth; d++) {
        std::vector<N> next;
        for (auto &n : level) {
            std::string e = setUp(o); int st = 0; std::string trace = "Instantiate";
            if (e.empty() && mode(INST) != INSTANTIATED) e = strf("record of the mode after instantiation is %s", mode(INST) < 0 ? "unknown" : impMode[mode(INST)]);
            int m = INSTANTIATED;
            for (size_t i = 0; i < n.h.size() && e.empty(); i++) {
                trace += " ; " + n.h[i].first + (n.h[i].second ? "=Warning" : "");
                int want = -1; for (auto &c : modeCalls(o, m)) if (c.first == n.h[i].first) want = c.second;
                recs.clear(); int r = wrapper(o, n.h[i].first, n.h[i].second, st); R.transitions++;
                if (st) e = "crashed"; else if (r != n.h[i].second || recs.size() != 1 || recs[0].name != strf("fmi%d%s", o.ver, n.h[i].first.c_str())) e = "call not passed through";
                else if (!(e = bystander2()).empty()) {}
                else if (mode(INST) != want) e = strf("the importer's record of the mode is %s instead of %s", mode(INST) < 0 ? "unknown" : impMode[mode(INST)], impMode[want]);
                m = want;
            }
            R.traces++;
            if (e.empty() && !seen.count(m)) {          // no other function changes the mode
                seen.insert(m);
                for (auto &f : fns()) {
                    if (!usable(f, o)) continue; bool isMode = false; for (const char *x : {"EnterInitializationMode", "ExitInitializationMode", "EnterEventMode", "Terminate", "Reset", "EnterConfigurationMode", "ExitConfigurationMode", "EnterContinuousTimeMode", "EnterStepMode"}) if (f.name == x) isMode = true;
                    if (isMode) continue;
                    for (int s : {0, 1, 2, 3, 4}) { Case c; c.status = s; for (auto &x : countsOf(f)) c.n[x] = 1; std::string pass, log; runCase(f, c, o.logCalls, pass, log);
                        if (!pass.empty()) e = f.name + ": " + pass; else if (mode(INST) != m) e = f.name + " changed the importer's record of the mode"; if (!e.empty()) break; }
                    if (!e.empty()) break;
                }
                R.states++;
            }
            if (e.empty()) e = tearDown(o);
            if (!e.empty()) { R.violation(optText(o) + strf("%s: ", o.eventMode ? " with event mode" : "") + trace + ": " + e, "importer history: " + trace + "\n"); return; }
            if (d < depth) for (auto &c : modeCalls(o, m)) for (int s : {0, 1}) { N k = n; k.h.push_back({c.first, s}); k.m = c.second; next.push_back(k); }
        }
        level = next;
    }
}
// arguments and results of instantiation, version queries and messages
static void creationCases(const InstOpt &o0) {
    for (int bits = 0; bits < 64; bits++) for (int answer = 0; answer < 2; answer++) for (const char *name : {"instance", "", "a longer name with spaces and \xc3\xa4"}) for (int rv = 0; rv < (o0.ver == 3 && o0.iface == 'C' ? 4 : 1); rv++) {
        nReqVars = rv == 0 ? 3 : rv == 1 ? 1 : 0; noReqVars = rv == 3; struct Back { ~Back() { nReqVars = 3; noReqVars = false; } } back;
        InstOpt o = o0; o.visible = bits & 1; o.loggingOn = bits & 2; o.eventMode = bits & 4; o.early = bits & 8; o.logCalls = bits & 16; o.logMsgs = bits & 32; o.name = name;
        resetWorld(); int st; std::string e; Rec got; INST = create(o, st); R.traces++; R.transitions += 4;
        if (!INST) e = "creating failed"; else if (icall(st, "FMILoadPlatformBinary", {INST, P(recorder.c_str())}) || st) e = "loading failed";
        std::string wantMsg, fname = o.ver == 2 ? "fmi2Instantiate" : o.iface == 'M' ? "fmi3InstantiateModelExchange" : o.iface == 'C' ? "fmi3InstantiateCoSimulation" : "fmi3InstantiateScheduledExecution";
        onCall = [&](const Rec &r) -> u64 { got = r; return answer ? P(component) : 0; };
        int ret = -1; if (e.empty()) { recs.clear(); ret = instantiate(INST, o, st); if (st) e = "crashed"; }
        onCall = nullptr; u64 logger = 0, env = 0;
        auto str = [&](u64 p, const char *w) { return p && !strcmp((const char *)p, w); };
        if (e.empty() && (recs.size() != 1 || recs[0].name != fname)) e = strf("%zu calls, first %s", recs.size(), recs.empty() ? "" : recs[0].name.c_str());
        if (e.empty()) {
            bool ok; auto &a = got.a;
            if (o.ver == 2) {
                auto *cb = (const fmi2CallbackFunctions *)a[4]; ok = str(a[0], name) && (uint32_t)a[1] == (o.iface == 'M' ? 0u : 1u) && str(a[2], token) && str(a[3], resource) && cb && (uint32_t)a[5] == o.visible && (uint32_t)a[6] == o.loggingOn;
                if (ok) { logger = P((void *)cb->logger); env = P(cb->componentEnvironment); ok = cb->logger && cb->allocateMemory && cb->freeMemory; }
            } else if (o.iface == 'M') { ok = str(a[0], name) && str(a[1], token) && str(a[2], resource) && (uint8_t)a[3] == o.visible && (uint8_t)a[4] == o.loggingOn; env = a[5]; logger = a[6]; }
            else if (o.iface == 'C') { ok = str(a[0], name) && str(a[1], token) && str(a[2], resource) && (uint8_t)a[3] == o.visible && (uint8_t)a[4] == o.loggingOn && (uint8_t)a[5] == o.eventMode && (uint8_t)a[6] == o.early && a[7] == (noReqVars ? 0 : P(reqVars)) && a[8] == nReqVars && a[11] == (noReqVars ? 0 : P((void *)dummyCb)); env = a[9]; logger = a[10]; }
            else { ok = str(a[0], name) && str(a[1], token) && str(a[2], resource) && (uint8_t)a[3] == o.visible && (uint8_t)a[4] == o.loggingOn && a[7] == 0x2220 && a[8] == 0x3330 && a[9] == 0x4440; env = a[5]; logger = a[6]; }
            if (!ok) e = "arguments of the instantiation are not passed through";
            else if ((ret == 0) != (answer == 1)) e = strf("status %d although the FMU returned %s", ret, answer ? "an instance" : "NULL");
            else if (answer && mode(INST) != INSTANTIATED) e = "record of the mode is not Instantiated";
        }
        if (e.empty() && answer) {
            std::string vers = "3.0-test";
            for (const char *q : {"GetVersion", "GetTypesPlatform"}) {
                if (o.ver == 3 && q[3] == 'T') continue;
                onCall = [&](const Rec &) { return P(vers.c_str()); }; recs.clear(); u64 r = icall(st, strf("FMI%d%s", o.ver, q), {INST}); onCall = nullptr;
                if (st) e = "crashed"; else if (!r || strcmp((const char *)r, vers.c_str()) || recs.size() != 1 || recs[0].name != strf("fmi%d%s", o.ver, q)) e = std::string(q) + " is not passed through"; if (!e.empty()) break;
            }
            // messages of the FMU
            if (e.empty() && logger) for (int s = 0; s < 5 && e.empty(); s++) for (size_t len : {0u, 1u, 5u, 100u, 1023u, 1024u, 1025u, 4000u, 4080u, 4086u, 4087u, 4088u, 4089u, 4096u, 9000u}) {
                std::string text; for (size_t k = 0; k < len; k++) text += (char)('a' + k % 23); msgs.clear(); const char *cat = len == 5 ? nullptr : s % 2 ? "logStatusError" : "";
                if (o.ver == 2) st = G.guarded([&] { ((void (*)(u64, const char *, int, const char *, const char *, ...))logger)(env, name, s, cat, "%s|%d|%g", text.c_str(), 5, 0.25); });
                else st = G.guarded([&] { ((void (*)(u64, int, const char *, const char *))logger)(env, s, cat, text.c_str()); });
                std::string want = o.ver == 2 ? text + "|5|0.25" : text; R.transitions++;
                if (st) e = "message callback crashed"; else if (o.logMsgs ? msgs.size() != 1 || P(msgs[0].inst) != INST || msgs[0].st != s || msgs[0].cat != (cat ? cat : "(null)") || (o.ver == 2 && want.size() > 4095 ? msgs[0].text != want.substr(0, std::max(msgs[0].text.size(), (size_t)4095)) : msgs[0].text != want) : !msgs.empty()) e = strf("message of %zu characters is not forwarded unchanged", len);
                if (!e.empty()) break;
            }
            else if (e.empty() && o.logMsgs) e = "the FMU gets no message callback";
            // freeing
            if (e.empty()) { recs.clear(); icall(st, strf("FMI%dFreeInstance", o.ver), {INST}); if (st) e = "crashed"; else if (recs.size() != 1 || recs[0].name != strf("fmi%dFreeInstance", o.ver) || recs[0].a[0] != P(component)) e = "freeing the instance is not passed through"; }
        }
        R.states++;
        if (e.empty()) { icall(st, "FMIFreeInstance", {INST}); if (st) e = "freeing crashed"; else if (arena::live() || dlBalance) e = "not everything is released"; }
        if (!e.empty()) { R.violation(optText(o) + strf(" name \"%s\" visible %d logging %d event mode %d early return %d call log %d messages %d, FMU returns %s: ", name, o.visible, o.loggingOn, o.eventMode, o.early, o.logCalls, o.logMsgs, answer ? "an instance" : "NULL") + e, "importer: " + e + "\n"); return; }
    }
}
void checkC27() {
    openImporter(); std::vector<Job> jobs;
    for (auto o : insts()) for (int lg = 0; lg < 2; lg++) {
        InstOpt p = o; p.logCalls = lg; p.other = 1 + lg + (o.iface == 'C' ? 2 : 0);
        jobs.push_back({optText(o) + " calls", [p] {
            std::string e = setUp(p); if (!e.empty()) { R.violation(optText(p) + ": " + e, e + "\n"); return; }
            for (auto &f : fns()) if (usable(f, p) && !R.violations) { allCases(f, p, false); if (R.violations) return; e = tearDown(p); if (e.empty()) { e = setUp(p); } if (!e.empty()) { R.violation(optText(p) + " after " + f.name + ": " + e, e + "\n"); return; } }
        }});
    }
    for (auto o : insts()) {
        jobs.push_back({optText(o) + " creation", [o] { creationCases(o); }});
        for (int em = 0; em < 2; em++) { if (em && (o.ver == 2 || o.iface != 'C')) continue; InstOpt p = o; for (int other = 0; other < 5; other++) { p.eventMode = em; p.other = other; jobs.push_back({optText(o) + " modes", [p] { modeHistories(p, thorough ? 9 : 7); }}); }
            p.other = 0; for (int b = 0; b < (int)insts().size(); b++) { p.before = b; jobs.push_back({optText(o) + " modes after " + optText(insts()[b]), [p] { modeHistories(p, thorough ? 6 : 5); }}); } }
    }
    R.assumptions.push_back("the FMU behind the importer is a recording stand-in that answers with chosen statuses and values");
    runJobs(jobs, 8, 600);
}
// ------------------------------------------------------------------ C26
static u64 newBuffer(int ver) { resetWorld(); InstOpt o; int st; u64 i = create(o, st); if (!i) die("creating the importer instance failed"); ((void (*)(u64, int))symOf("glue_set_version"))(i, ver); return i; }
static std::string checkBuffer(u64 inst, const std::string &want) {
    const char *b = buffer(inst); if (!b) return "there is no buffer";
    std::string why; if (!arena::intact(why)) return why;
    if (strnlen(b, want.size() + 1) != want.size() || memcmp(b, want.data(), want.size())) { size_t k = 0; while (k < want.size() && b[k] == want[k]) k++; return strf("log text differs at character %zu of %zu", k, want.size()); }
    return "";
}
struct BufOp { int kind; size_t len; std::string ty; int pattern; };      // 0: text, 1: array, 2: clear
static std::string bufText(const BufOp &o) { return o.kind == 2 ? "clear" : o.kind == 0 ? strf("append %zu characters", o.len) : strf("append %zu values of type %s (pattern %d)", o.len, o.ty.c_str(), o.pattern); }
static std::string bufApply(u64 inst, const BufOp &o, int ver, std::string &model, u64 tag) {
    int st; R.transitions++;
    if (o.kind == 2) { icall(st, "FMIClearLogMessageBuffer", {inst}); model = ""; }
    else if (o.kind == 0) { std::string t; for (size_t k = 0; k < o.len; k++) t += (char)('A' + (k + tag) % 53); icall(st, "FMIAppendToLogMessageBuffer", {inst, P("%s"), P(t.c_str())}); model += t; }
    else {
        size_t e = sizeOfTy(ver, o.ty); pool.clear(); std::vector<char> v(o.len * e + 8); std::vector<u64> sz(o.len + 1);
        for (size_t k = 0; k < o.len; k++) { putVal(ver, o.ty, &v[k * e], k + tag, o.pattern, 0); sz[k] = o.ty == "BI" ? pool.back().size() : 0; if (k) model += ", "; model += showVal(ver, o.ty, &v[k * e], sz[k]); }
        icall(st, "FMIAppendArrayToLogMessageBuffer", {inst, P(v.data()), o.len, o.ty == "BI" ? P(sz.data()) : 0, (u64)((int (*)(const char *))symOf("glue_type"))(o.ty.c_str())});
    }
    if (st) return st == HANG ? "does not return" : "crashed";
    return checkBuffer(inst, model);
}
static bool bufHistory(const std::vector<BufOp> &h, int ver) {
    u64 inst = newBuffer(ver); std::string model, e; R.traces++;
    for (size_t i = 0; i < h.size() && e.empty(); i++) e = bufApply(inst, h[i], ver, model, i * 7 + 1);
    if (e.empty()) { int st; icall(st, "FMIFreeInstance", {inst}); if (st) e = "freeing crashed"; else if (arena::live()) e = "memory is not freed"; }
    if (e.empty()) return true;
    std::string t; for (auto &o : h) t += (t.empty() ? "" : " ; ") + bufText(o);
    R.violation(t + ": " + e, "log buffer: " + t + "\n"); return false;
}
static const char *bufTypes[] = {"F32", "F64", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "BO", "ST", "BI", "CK", "VR", "SZ"};
void checkC26() {
    openImporter(); std::vector<Job> jobs; size_t maxStart = thorough ? 4300 : 2150;
    for (int part = 0; part < 16; part++) jobs.push_back({strf("buffer positions %d", part), [=] {
        for (size_t s = (size_t)part; s <= maxStart; s += 16) {
            R.states++;
            std::set<size_t> lens = {0, 1, 2, 3, 7}; for (long b : {1024L, 2048L, 4096L, 8192L}) for (long dl = -4; dl <= 3; dl++) if (b - (long)s + dl >= 0) lens.insert((size_t)(b - (long)s + dl));
            for (size_t l : lens) if (!bufHistory({{0, s, "", 0}, {0, l, "", 0}, {0, 3, "", 0}}, 3)) return;
            for (const char *t : bufTypes) for (size_t n = 0; n <= 4; n++) for (int pat = 0; pat < 2; pat++) for (int ver = 1 + (strcmp(t, "BO") ? 2 : 0); ver <= 3; ver++) { if (ver == 1) continue; if (!bufHistory({{0, s, "", 0}, {1, n, t, pat}, {0, 2, "", 0}}, ver)) return; }
        }
    }});
    // sequences of operations
    std::vector<BufOp> al = {{2, 0, "", 0}}; for (size_t l : {0u, 1u, 2u, 510u, 511u, 512u, 1020u, 1021u, 1022u, 1023u, 1024u, 1025u, 2047u, 2048u}) al.push_back({0, l, "", 0});
    al.push_back({1, 0, "VR", 0}); al.push_back({1, 3, "VR", 0}); al.push_back({1, 200, "U8", 0}); al.push_back({1, 57, "F64", 0}); al.push_back({1, 40, "BI", 0}); al.push_back({1, 300, "BO", 0}); al.push_back({1, 5, "ST", 1});
    for (size_t i = 0; i < al.size(); i++) jobs.push_back({strf("buffer sequences %zu", i), [=] {
        for (auto &b : al) for (auto &c : al) { if (!bufHistory({al[i], b, c}, 3)) return; for (auto &d : al) { if (!thorough && (d.kind == 0 && d.len > 3 && d.len < 1020)) continue; if (!bufHistory({al[i], b, c, d}, 3)) return; } }
    }});
    for (auto o : insts()) for (int part = 0; part < 4; part++) jobs.push_back({optText(o) + " log", [=] {
        std::string e = setUp(o); if (!e.empty()) { R.violation(optText(o) + ": " + e, e + "\n"); return; }
        int k = 0; for (auto &f : fns()) if (usable(f, o) && k++ % 4 == part) { if (o.iface == 'S' && !thorough && f.name.substr(0, 3) != "Act" && f.name.find("Clock") == std::string::npos && f.name.find("Interval") == std::string::npos && f.name.find("Shift") == std::string::npos) continue; allCases(f, o, true); if (R.violations) return; tearDown(o); e = setUp(o); if (!e.empty()) { R.violation(optText(o) + ": " + e, e + "\n"); return; } }
    }});
    // the functions that create, free and query
    for (auto o0 : insts()) jobs.push_back({optText(o0) + " creation log", [=] {
        for (size_t len = 0; len <= (thorough ? 4300u : 2100u); len++) for (int bits = 0; bits < 16; bits++) {
            if (bits && len > 3 && len % 7) continue;
            InstOpt o = o0; o.name.clear(); for (size_t k = 0; k < len; k++) o.name += (char)('a' + k % 26); o.visible = bits & 1; o.loggingOn = bits & 2; o.eventMode = bits & 4; o.early = bits & 8;
            Rec got; resetWorld(); int st; std::string e; INST = create(o, st); icall(st, "FMILoadPlatformBinary", {INST, P(recorder.c_str())});
            bool ok = len % 5 != 4; onCall = [&](const Rec &r) -> u64 { got = r; return ok ? P(component) : 0; }; calls.clear(); instantiate(INST, o, st); onCall = nullptr; R.traces++; R.transitions += 2;
            std::string t; auto ptr = [](u64 p) { return strf("0x%p", (void *)p); };
            if (st) e = "crashed";
            else if (o.ver == 2) { auto *cb = (const fmi2CallbackFunctions *)got.a[4]; t = "fmi2Instantiate(instanceName=\"" + o.name + strf("\", fmuType=%d, fmuGUID=\"%s\", fmuResourceLocation=\"%s\", functions={logger=", o.iface == 'M' ? 0 : 1, token, resource) + ptr(P((void *)cb->logger)) + ", allocateMemory=" + ptr(P((void *)cb->allocateMemory)) + ", freeMemory=" + ptr(P((void *)cb->freeMemory)) + ", stepFinished=" + ptr(P((void *)cb->stepFinished)) + ", componentEnvironment=" + ptr(P(cb->componentEnvironment)) + strf("}, visible=%d, loggingOn=%d)", o.visible, o.loggingOn); }
            else {
                t = std::string("fmi3Instantiate") + (o.iface == 'M' ? "ModelExchange" : o.iface == 'C' ? "CoSimulation" : "ScheduledExecution") + "(instanceName=\"" + o.name + strf("\", instantiationToken=\"%s\", resourcePath=\"%s\", visible=%d, loggingOn=%d, ", token, resource, o.visible, o.loggingOn);
                if (o.iface == 'M') t += "instanceEnvironment=" + ptr(got.a[5]) + ", logMessage=" + ptr(got.a[6]) + ")";
                else if (o.iface == 'C') t += strf("eventModeUsed=%d, earlyReturnAllowed=%d, requiredIntermediateVariables=", o.eventMode, o.early) + ptr(P(reqVars)) + ", nRequiredIntermediateVariables=3, instanceEnvironment=" + ptr(got.a[9]) + ", logMessage=" + ptr(got.a[10]) + ", intermediateUpdate=" + ptr(got.a[11]) + ")";
                else t += "instanceEnvironment=" + ptr(got.a[5]) + ", logMessage=" + ptr(got.a[6]) + ", clockUpdate=" + ptr(got.a[7]) + ", lockPreemption=" + ptr(got.a[8]) + ", unlockPreemption=" + ptr(got.a[9]) + ")";
            }
            std::string why;
            if (e.empty() && (calls.size() != 1 || calls[0].text != t)) e = "logged as " + (calls.empty() ? "(nothing)" : calls[0].text) + " instead of " + t;
            else if (e.empty() && (calls[0].st == 0) != ok) e = strf("logged with status %d", calls[0].st);
            else if (e.empty() && !arena::intact(why)) e = why;
            if (e.empty() && ok) {
                for (std::string q : {"GetVersion", "GetTypesPlatform", "FreeInstance"}) {
                    if (o.ver == 3 && q == "GetTypesPlatform") continue; calls.clear(); onCall = [&](const Rec &) { return P("v"); }; icall(st, strf("FMI%d", o.ver) + q, {INST}); onCall = nullptr;
                    if (st) e = "crashed"; else if (calls.size() != 1 || calls[0].text != strf("fmi%d", o.ver) + q + "()" || calls[0].st) e = q + " logged as " + (calls.empty() ? "(nothing)" : calls[0].text); if (!e.empty()) break;
                }
            }
            icall(st, "FMIFreeInstance", {INST}); R.states++;
            if (!e.empty()) { R.violation(optText(o) + strf(" with a name of %zu characters: ", len) + e, "importer log: " + e + "\n"); return; }
        }
    }});
    R.assumptions.push_back("the FMU behind the importer is a recording stand-in that answers with chosen statuses and values");
    runJobs(jobs, 8, 800);
}
// ------------------------------------------------------------------ C25
// destination that ends at an unmapped page and starts after marked bytes
struct Dest {
    char *m; size_t cap = 1 << 16; Dest() { m = (char *)mmap(nullptr, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + cap + 4096, 4096, PROT_NONE); }
    char *at(size_t n) { char *p = m + cap + 4096 - n; memset(p - 64, 0xB3, 64 + n); return p; }
    bool ok(size_t n) { char *p = m + cap + 4096 - n; for (int i = 1; i <= 64; i++) if (p[-i] != (char)0xB3) return false; return true; }
};
static bool pchar(unsigned char c) { return isalnum(c) || strchr("-._~!$&'()*+,;=:@/", c) != nullptr; }
static std::string uriProblem(const std::string &uri, const std::string &path) {
    if (uri.rfind("file://", 0)) return "does not start with file://";
    std::string dec; for (size_t i = 7; i < uri.size(); i++) {
        unsigned char c = (unsigned char)uri[i];
        if (c == '%') { if (i + 2 >= uri.size() + 0 && i + 2 > uri.size() - 1) return "incomplete escape"; if (!isxdigit((unsigned char)uri[i + 1]) || !isxdigit((unsigned char)uri[i + 2])) return "invalid escape in " + uri; dec += (char)std::stoi(uri.substr(i + 1, 2), nullptr, 16); i += 2; }
        else if (!c || !pchar(c)) return strf("character 0x%02x is not allowed in the path of a URI", c);
        else dec += (char)c;
    }
    return dec == path ? "" : "decodes to something else";
}
static Dest *dest;
// -1 refused, else length
static long toUri(const std::string &path, size_t size, std::string &uri, std::string &e) {
    char *d = dest->at(size); int st; R.transitions++;
    int r = (int)icall(st, "FMIPathToURI", {P(path.c_str()), P(d), size}); e.clear(); uri.clear();
    if (st) { e = st == HANG ? "does not return" : "wrote or read beyond the memory it was given"; return -1; }
    if (!dest->ok(size)) { e = "wrote before the destination"; return -1; }
    if (r) return -1;
    size_t l = strnlen(d, size); if (l == size) { e = "result is not terminated"; return -1; }
    uri.assign(d, l); return (long)l;
}
static bool uriCase(const std::string &path, bool allSizes) {
    std::string uri, e, u2; long l = toUri(path, 7 + 3 * path.size() + 16, uri, e); R.states++; R.traces++;
    if (e.empty()) { if (l < 0) e = "refused although there is plenty of room"; else if (!path.empty() && path[0] == '/') e = uriProblem(uri, path); }
    if (e.empty()) {
        size_t lo = allSizes ? 0 : (size_t)std::max(0L, l - 3), hi = (size_t)l + 5;
        for (size_t s = lo; s <= hi && e.empty(); s++) {
            long k = toUri(path, s, u2, e); if (!e.empty()) { e = strf("destination of %zu: ", s) + e; break; }
            if (s > (size_t)l && (k < 0 || u2 != uri)) e = strf("destination of %zu is refused although %ld are enough", s, l + 1);
            if (s <= (size_t)l && k >= 0) e = strf("destination of %zu is accepted although %ld are needed", s, l + 1);
        }
    }
    if (e.empty()) return true;
    R.violation("path " + hex(path) + " (hex, \"" + path.substr(0, 40) + "\"): " + e, "path to URI: hex " + hex(path) + "\n" + e + "\n"); return false;
}
static bool binCase(const std::string &dir, const std::string &id, int ver, bool allSizes) {
    std::string want = dir; if (!dir.empty() && dir.back() != '/' && dir.back() != '\\') want += "/";
    want += std::string("binaries/") + (ver == 3 ? "x86_64-linux" : "linux64") + "/" + id + ".so"; size_t need = want.size() + 1; std::string e; R.states++; R.traces++;
    for (size_t s = allSizes ? 0 : need - 3; s <= need + 3 && e.empty(); s++) {
        char *d = dest->at(s); int st; R.transitions++; int r = (int)icall(st, "FMIPlatformBinaryPath", {P(dir.c_str()), P(id.c_str()), (u64)ver, P(d), s});
        if (st) e = "wrote or read beyond the memory it was given"; else if (!dest->ok(s)) e = "wrote before the destination";
        else if (s < need && !r) e = "accepted although the destination is too small"; else if (s >= need && r) e = "refused although the destination is large enough";
        else if (s >= need && strncmp(d, want.c_str(), s)) e = "is " + std::string(d, strnlen(d, s)) + " instead of " + want;
        if (!e.empty()) e = strf("destination of %zu: ", s) + e;
    }
    if (e.empty()) return true;
    R.violation("directory \"" + dir + "\", model \"" + id + strf("\", FMI %d: ", ver) + e, "platform binary path: directory \"" + dir + "\" model \"" + id + "\"\n" + e + "\n"); return false;
}
void checkC25() {
    openImporter(); dest = new Dest; std::vector<Job> jobs;
    for (int part = 0; part < 8; part++) jobs.push_back({strf("uri bytes %d", part), [=] {
        for (int b = 1 + part; b < 256; b += 8) {
            std::string c(1, (char)b);
            for (auto &p : std::vector<std::string>{c, "/" + c, "/" + c + "x", "/x" + c, "/x" + c + "y", "/dir/" + c + "/f", "/a/" + c + c + c, c + "/a", "/" + c + c, "/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" + c}) if (!uriCase(p, true)) return;
            for (int d = 1; d < 256; d++) if (!uriCase("/" + c + std::string(1, (char)d), false)) return;
            if (thorough) for (int d = 1; d < 256; d++) for (int f : std::vector<int>{'/', '%', '2', 'A', ' ', 0x80, 0xff, 'z'}) if (!uriCase("/" + c + std::string(1, (char)d) + std::string(1, (char)f), false)) return;
        }
    }});
    // all patterns of plain, encoded and high characters
    for (int first = 0; first < 4; first++) jobs.push_back({strf("uri patterns %d", first), [=] {
        const char al[] = {'a', ' ', (char)0xe4, '/'}; int maxLen = thorough ? 9 : 7; if (!uriCase("", true)) return;
        for (int len = 1; len <= maxLen; len++) { u64 n = 1; for (int i = 1; i < len; i++) n *= 4; for (u64 k = 0; k < n; k++) { std::string p = "/"; p += al[first]; u64 x = k; for (int i = 1; i < len; i++) { p += al[x % 4]; x /= 4; } if (!uriCase(p, true)) return; } }
    }});
    for (int part = 0; part < 4; part++) jobs.push_back({strf("uri lengths %d", part), [=] {
        for (size_t len = (size_t)part; len <= (thorough ? 5000u : 2200u); len += 4) for (char f : {'a', ' ', (char)0xff}) { std::string p = "/" + std::string(len, f); if (!uriCase(p, len < 40)) return; p = "/" + std::string(len, 'b') + f; if (!uriCase(p, len < 40)) return; }
    }});
    for (int ver = 1; ver <= 3; ver++) jobs.push_back({strf("binary path %d", ver), [=] {
        const char al[] = {'a', '/', '\\', '.', ' ', (char)0xc3}; int maxLen = thorough ? 6 : 5;
        for (int len = 0; len <= maxLen; len++) { u64 n = 1; for (int i = 0; i < len; i++) n *= 6; for (u64 k = 0; k < n; k++) { std::string d; u64 x = k; for (int i = 0; i < len; i++) { d += al[x % 6]; x /= 6; } for (const char *id : {"Model", "", "a b", "%s%d"}) if (!binCase(d, id, ver, len < 4)) return; } }
        for (int b = 1; b < 256; b++) { std::string c(1, (char)b); if (!binCase("dir" + c, "M", ver, true) || !binCase(c + "dir", "M", ver, true) || !binCase("/x", c, ver, true) || !binCase("/x/", "a" + c + "b", ver, true)) return; }
        for (size_t len = 0; len < (thorough ? 5000u : 2200u); len++) if (!binCase("/" + std::string(len, 'd'), "Model", ver, len < 40) || !binCase("/d/", std::string(len, 'm'), ver, len < 40)) return;
        // the byte in front of the directory's name does not matter
        for (int b = 0; b < 256; b++) { char m[8] = {(char)b, (char)b, 0}; std::string e; char *d = dest->at(100); int st; int r = (int)icall(st, "FMIPlatformBinaryPath", {P(m + 2), P("M"), (u64)ver, P(d), 100}); R.transitions++; std::string want = std::string("binaries/") + (ver == 3 ? "x86_64-linux" : "linux64") + "/M.so";
            if (st || (r == 0 && want != d)) { R.violation(strf("empty directory with byte 0x%02x in front of it: ", b) + (st ? "crashed" : std::string(d)), "platform binary path of an empty directory\n"); return; } }
    }});
    runJobs(jobs, 8, 600);
}
// ------------------------------------------------------------------ C28
static std::string scratch() { return R.outdir + "/c28"; }
static std::vector<std::pair<std::string, std::string>> badFiles() {
    std::string d = scratch(); mkdir(d.c_str(), 0755); std::vector<std::pair<std::string, std::string>> v;
    std::ifstream in(recorder, std::ios::binary); std::string good((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    auto file = [&](const std::string &n, const std::string &c) { std::ofstream o(d + "/" + n, std::ios::binary | std::ios::trunc); o << c; o.close(); v.push_back({n, d + "/" + n}); };
    v.push_back({"missing file", d + "/none.so"}); v.push_back({"missing directory", d + "/none/none.so"}); v.push_back({"directory", d});
    file("empty.so", ""); file("text.so", "this is not a library\n"); file("magic.so", "\x7f" "ELF");
    for (size_t n : {16u, 52u, 64u, 100u}) file(strf("first%zu.so", n), good.substr(0, n));
    std::string x = good; x[4] = 1; file("class32.so", x); x = good; x[18] = 40; file("machine.so", x); x = good; x[5] = 2; file("endian.so", x); x = good; x[16] = 1; file("type.so", x);
    return v;
}
static const std::vector<std::string> &allNames(int ver) {
    static std::vector<std::string> f2, f3;
    if (f2.empty()) {
#define X(n) f2.push_back(#n);
        F2LIST(X)
#undef X
#define X(n) f3.push_back(#n);
        F3LIST(X)
#undef X
    }
    return ver == 2 ? f2 : f3;
}
static bool needed(const InstOpt &o, const std::string &f) {
    if (o.ver == 3) return true;
    for (const char *c : {"SetRealInputDerivatives", "GetRealOutputDerivatives", "DoStep", "CancelStep", "GetStatus", "GetRealStatus", "GetIntegerStatus", "GetBooleanStatus", "GetStringStatus"}) if (f == c) return o.iface == 'C';
    for (const char *c : {"EnterEventMode", "NewDiscreteStates", "EnterContinuousTimeMode", "CompletedIntegratorStep", "SetTime", "SetContinuousStates", "GetDerivatives", "GetEventIndicators", "GetContinuousStates", "GetNominalsOfContinuousStates"}) if (f == c) return o.iface == 'M';
    return true;
}
// steps of a history: V go on with the other version of FMI, L load the recording FMU, B load a bad file, I instantiate, N the FMU refuses, Y one function is missing, U use, F free the FMU instance
static std::string runLoads(InstOpt o, const std::string &h, const std::string &missing, const std::string &bad) {
    resetWorld(); int st; bool loaded = false, inst = false; std::string e; INST = create(o, st); if (st || !INST) return "creating failed";
    COMP = P(component); static std::string symbol; symbol = strf("fmi%d", o.ver) + missing;
    for (char c : h) {
        R.transitions++; recs.clear(); msgs.clear(); int r = 0;
        if (c == 'V') { o.ver = 5 - o.ver; if (o.ver == 2 && o.iface == 'S') o.iface = 'C'; symbol = strf("fmi%d", o.ver) + missing; continue; }
        if (c == 'L') { r = (int)icall(st, "FMILoadPlatformBinary", {INST, P(recorder.c_str())}); if (!st && r) e = "loading a complete library failed"; loaded = true; }
        if (c == 'B') { r = (int)icall(st, "FMILoadPlatformBinary", {INST, P(bad.c_str())}); if (!st && !r) e = "loading succeeded"; loaded = false; }
        if (c == 'I' || c == 'N' || c == 'Y') {
            if (c == 'Y') dlMissing = symbol.c_str();
            onCall = [&](const Rec &) { return c == 'N' ? 0 : P(component); }; r = instantiate(INST, o, st); onCall = nullptr; dlMissing = nullptr;
            bool wantOk = loaded && (c == 'I' || (c == 'Y' && !needed(o, missing)));
            if (!st && (r == 0) != wantOk) e = strf("instantiating returned status %d", r);
            if (!st && !wantOk && c == 'Y' && !recs.empty()) e = "a function of the incomplete library was called";
            inst = wantOk;
        }
        if (c == 'U') for (auto &f : fns()) { if (!usable(f, o) || !needed(o, f.name)) continue; Case k; for (auto &x : countsOf(f)) k.n[x] = 1; std::string pass, log; prepare(f); runCase(f, k, o.logCalls, pass, log); if (pass.empty() && log == "the call crashed") pass = log; if (!pass.empty()) { e = f.name + ": " + pass; break; } if (h.size() > 5 && f.name == "Reset") break; }
        if (c == 'F') { icall(st, strf("FMI%dFreeInstance", o.ver), {INST}); if (!st && inst != (recs.size() == 1)) e = strf("%zu calls when freeing", recs.size()); inst = false; }
        if (st) e = st == HANG ? "does not return" : "crashed";
        if (!e.empty()) return strf("step %c: ", c) + e;
    }
    icall(st, "FMIFreeInstance", {INST}); if (st) return "freeing the importer instance crashed";
    std::string why; if (!arena::intact(why)) return why;
    if (arena::live()) return strf("%zu blocks of memory are not freed", arena::live());
    if (dlBalance) return strf("%d libraries are still loaded", dlBalance);
    return "";
}
static bool loadCase(const InstOpt &o, const std::string &h, const std::string &missing, const std::string &bad) {
    R.traces++; std::string e = runLoads(o, h, missing, bad); if (e.empty()) return true;
    std::string t; for (char c : h) t += std::string(t.empty() ? "" : ", ") + (c == 'L' ? "load" : c == 'B' ? "load " + bad : c == 'I' ? "instantiate" : c == 'N' ? "instantiate (refused by the FMU)" : c == 'Y' ? "instantiate without fmi" + std::to_string(o.ver) + missing : c == 'U' ? "use" : c == 'V' ? "with the other version of FMI" : "free the FMU instance");
    R.violation(optText(o) + (o.logMsgs ? "" : " without message callback") + ": " + t + ", free: " + e, "importer history: " + t + "\n"); return false;
}
void checkC28() {
    openImporter(); auto bad = badFiles(); std::vector<Job> jobs;
    for (auto o0 : insts()) for (int bits = 0; bits < 4; bits++) {
        InstOpt o = o0; o.logCalls = bits & 1; o.logMsgs = bits & 2;
        jobs.push_back({optText(o) + " missing functions", [=] {
            for (auto &f : allNames(o.ver)) for (const char *h : {"LY", "LYF", "LYY", "LYLY", "LYFI", "LYI", "LYIUF", "LIUFY", "LIFYFIF"}) {
                std::string k = h; R.states++; if (!needed(o, f)) { k = "LY"; if (h[2]) k = "LYF"; else k = "LYUF"; }
                if (!loadCase(o, k, f, bad[0].second)) return;
            }
            for (auto &b : bad) for (const char *h : {"B", "BB", "BL", "BLIUF", "LB", "LIFB", "BI", "BIF", "LIUFBLIUF"}) { std::string k = h; if (k.find("BI") != std::string::npos && o.ver == 0) continue; R.states++; if (!loadCase(o, k, "Reset", b.second)) return; }
        }});
        // all sequences
        jobs.push_back({optText(o) + " sequences", [=] {
            int depth = thorough ? 10 : 8; std::vector<std::string> level = {""};
            for (int d = 0; d <= depth; d++) {
                std::vector<std::string> next;
                for (auto &h : level) {
                    R.states++; if (!loadCase(o, h, "Reset", bad[4].second)) return;
                    bool loaded = false, inst = false; for (char c : h) { if (c == 'L') loaded = true; if (c == 'B') loaded = false; if (c == 'I') inst = loaded; if (c == 'N' || c == 'Y') inst = false; if (c == 'F') inst = false; }
                    if (inst) { next.push_back(h + "U"); next.push_back(h + "F"); if (h.size() >= 2 && h.substr(h.size() - 2) == "UU") next.pop_back(), next.pop_back(), next.push_back(h + "F"); }
                    else { next.push_back(h + "L"); next.push_back(h + "B"); if (loaded) for (const char *c : {"I", "N", "Y"}) next.push_back(h + c); if (!h.empty() && h.back() != 'F' && (h.back() == 'N' || h.back() == 'Y')) next.push_back(h + "F"); }
                }
                level = next;
            }
        }});
    }
    // one importer instance used with both versions of FMI
    for (auto o : insts()) jobs.push_back({optText(o) + " and the other version", [=] {
        int depth = thorough ? 10 : 8; std::vector<std::string> level = {"L"};
        for (int d = 1; d <= depth; d++) {
            std::vector<std::string> next;
            for (auto &h : level) {
                R.states++; if (h.find('V') != std::string::npos && !loadCase(o, h, "Reset", bad[4].second)) return;
                bool loaded = false, inst = false; for (char c : h) { if (c == 'L') loaded = true; if (c == 'B') loaded = false; if (c == 'I') inst = loaded; if (c == 'N' || c == 'Y' || c == 'F') inst = false; }
                if (inst) { if (h.back() != 'U') next.push_back(h + "U"); next.push_back(h + "F"); }
                else { if (h.back() != 'V') next.push_back(h + "V"); if (h.back() != 'L') next.push_back(h + "L"); if (h.back() != 'B') next.push_back(h + "B"); if (loaded) for (const char *c : {"I", "N", "Y"}) next.push_back(h + c); }
            }
            level = next;
        }
    }});
    // loading and unloading again and again
    for (auto o : insts()) jobs.push_back({optText(o) + " repeated", [=] { for (int k = 0; k < 300; k++) { R.states++; if (!loadCase(o, "LIUF", "Reset", bad[0].second)) return; } if (!loadCase(o, "LIUFIUFIUFIUFIUFLIUFIUFLLLIUF", "Reset", bad[0].second)) return; }});
    R.assumptions.push_back("a missing function is one that the dynamic loader does not find; the lookup is answered by the checking program");
    runJobs(jobs, 8, 600);
}
// ------------------------------------------------------------------ C19, importer
// the history is executed with each allocation failing in turn
static std::string impFaults(const InstOpt &o, int64_t at, bool suffix, u64 &allocs) {
    resetWorld(); (suffix ? arena::failFrom : arena::failAt) = at; int st; std::string e;
    auto finish = [&](const std::string &x) { allocs = arena::allocs; arena::failAt = arena::failFrom = -1; return x; };
    INST = create(o, st); R.transitions++;
    if (st) return finish("creating the importer instance crashed");
    if (!INST) { if (arena::live()) return finish(strf("creating failed, %zu blocks of memory are lost", arena::live())); return finish(""); }
    if (icall(st, "FMILoadPlatformBinary", {INST, P(recorder.c_str())}) || st) return finish("loading failed");
    onCall = [&](const Rec &) { return P(component); }; int r = instantiate(INST, o, st); onCall = nullptr; COMP = P(component);
    if (st) return finish("instantiating crashed");
    bool inst = r == 0;
    if (inst) for (auto &f : fns()) {
        if (!usable(f, o)) continue;
        for (size_t n : {1u, 700u}) {
            Case c; for (auto &x : countsOf(f)) c.n[x] = n; if (n > 1 && countsOf(f).empty()) continue; std::string pass, log; prepare(f); runCase(f, c, o.logCalls, pass, log);
            if (log == "the call crashed" || log == "the call does not return") return finish(f.name + ": " + log);
            if (!pass.empty()) return finish(f.name + ": " + pass);
            std::string why; if (!arena::intact(why)) return finish(f.name + ": " + why);
        }
        if (f.name == "SetString" && arena::failAt >= 0) break;       // the buffer has its final size
    }
    u64 a = arena::allocs; arena::failAt = arena::failFrom = -1;
    // with memory available again everything works
    if (!inst) { onCall = [&](const Rec &) { return P(component); }; r = instantiate(INST, o, st); onCall = nullptr; if (st || r) { allocs = a; return "instantiating again failed"; } }
    for (auto &f : fns()) if (usable(f, o) && (f.name == "SetDebugLogging" || f.name == "Reset" || f.name == "GetString")) { Case c; for (auto &x : countsOf(f)) c.n[x] = 700; std::string pass, log; runCase(f, c, o.logCalls, pass, log); if (!pass.empty() || !log.empty()) { allocs = a; return "with memory available again, " + f.name + ": " + pass + log; } }
    e = tearDown(o); allocs = a; return e;
}
void checkC19importer(std::vector<Job> &jobs) {
    openImporter();
    for (auto o0 : insts()) for (int lg = 0; lg < 2; lg++) {
        InstOpt o = o0; o.logCalls = lg;
        jobs.push_back({"importer " + optText(o), [o] {
            for (int suffix = 0; suffix < 2; suffix++) for (int64_t at = -1; at < 1000; at++) {
                u64 n = 0; std::string e = impFaults(o, at, suffix, n); R.evaluations++; R.traces++; if (at >= 0 && (int64_t)n > at) R.distinct++;
                if (!e.empty()) { R.violation(strf("importer, %s: allocation %lld fails%s: ", optText(o).c_str(), (long long)at, suffix ? " and all later ones" : "") + e, "importer: allocation " + std::to_string(at) + " fails: " + e + "\n"); return; }
                if (at >= 0 && (int64_t)n <= at) break;
            }
        }});
    }
}
#else
void checkC25() {}
void checkC26() {}
void checkC27() {}
void checkC28() {}
void checkC19importer(std::vector<Job> &) {}
#endif
