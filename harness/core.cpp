#include "mc.h"
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <dlfcn.h>
#include <link.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>

Report R;
Sys *curSys = nullptr;
std::string libDir;
bool thorough = false;
const char *tyName[] = {"Float32", "Float64", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Boolean", "String", "Binary", "Clock"};
const char *kName[] = {"SetupExperiment", "EnterInitializationMode", "ExitInitializationMode", "Terminate", "Reset", "SetDebugLogging", "Get", "Set", "GetClock", "SetClock",
    "GetFMUState", "SetFMUState", "FreeFMUState", "SerializedFMUStateSize", "SerializeFMUState", "DeserializeFMUState", "GetDirectionalDerivative", "GetAdjointDerivative",
    "EnterConfigurationMode", "ExitConfigurationMode", "EnterEventMode", "UpdateDiscreteStates", "EnterContinuousTimeMode", "CompletedIntegratorStep", "SetTime",
    "SetContinuousStates", "GetContinuousStateDerivatives", "GetEventIndicators", "GetContinuousStates", "GetNominalsOfContinuousStates", "GetNumberOfEventIndicators",
    "GetNumberOfContinuousStates", "EnterStepMode", "DoStep", "GetOutputDerivatives", "ActivateModelPartition", "GetIntervalDecimal", "GetXxxStatus", "CancelStep",
    "SetRealInputDerivatives", "NotImplemented", "FreeInstance", "Instantiate"};

const char *stName(int s) {
    switch (s) { case OK: return "OK"; case WARNING: return "Warning"; case DISCARD: return "Discard"; case ERROR: return "Error"; case FATAL: return "Fatal";
        case PENDING: return "Pending"; case CRASH: return "CRASH"; case HANG: return "HANG"; }
    return "?";
}
std::string strf(const char *fmt, ...) {
    char buf[4096]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a); return buf;
}
void die(const char *fmt, ...) {
    va_list a; va_start(a, fmt); fprintf(stderr, "ERROR: "); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); fflush(stderr); _exit(2);
}
double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
std::string fmtd(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
std::string hex(const std::string &s) { std::string o; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o; }
std::string unhex(const std::string &s) { std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return o; }

// ------------------------------------------------------------------ hashing
static inline uint64_t mix(uint64_t x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x; }
H128 hashBytes(const void *p, size_t n, uint64_t seed) {
    const unsigned char *c = (const unsigned char *)p;
    uint64_t a = 0x9E3779B97F4A7C15ull ^ seed ^ (n * 0x2545F4914F6CDD1Dull), b = 0xC2B2AE3D27D4EB4Full + seed;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, c + i, 8); a = (a ^ v) * 0x9FB21C651E98DF25ull; a ^= a >> 29; b = (b + v) * 0xD6E8FEB86659FD93ull; b ^= b >> 31; }
    uint64_t v = 0; if (i < n) memcpy(&v, c + i, n - i);
    a = mix(a ^ v); b = mix(b + v + n);
    return {a, b ^ (a << 1)};
}

// ------------------------------------------------------------------ text form of ops
template <class T> static std::string joinNum(const std::vector<T> &v, const char *fmt) { std::string o; char b[40]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, fmt, v[i]); o += (i ? "," : ""); o += b; } return o; }
std::string Op::text() const {
    std::string o = kName[k];
    if (who) o += strf(" who=%d", who);
    if (k == K_GET || k == K_SET) o += std::string(" ty=") + tyName[ty];
    if (!vr.empty()) o += " vr=" + joinNum(vr, "%u");
    if (!vr2.empty()) o += " vr2=" + joinNum(vr2, "%u");
    if (!d.empty()) o += " d=" + joinNum(d, "%.17g");
    if (!i.empty()) { std::vector<long long> t2(i.begin(), i.end()); o += " i=" + joinNum(t2, "%lld"); }
    for (auto &x : s) o += " s=" + hex(x) + ";";
    if (t != 0) o += " t=" + fmtd(t);
    if (h != 0) o += " h=" + fmtd(h);
    if (f) o += " f=1";
    if (a) o += strf(" a=%d", a);
    if (b) o += strf(" b=%d", b);
    if (n >= 0) o += strf(" n=%ld", n);
    if (null) o += strf(" null=%d", null);
    return o;
}
static std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> r; size_t p = 0; while (p <= s.size()) { size_t q = s.find(c, p); if (q == std::string::npos) q = s.size(); r.push_back(s.substr(p, q - p)); p = q + 1; } return r; }
Op Op::parse(const std::string &line) {
    Op o; auto w = split(line, ' ');
    int kk = -1; for (int x = 0; x < K_NKINDS; x++) if (w[0] == kName[x]) kk = x;
    if (kk < 0) die("cannot parse op '%s'", line.c_str());
    o.k = (K)kk;
    for (size_t x = 1; x < w.size(); x++) {
        size_t e = w[x].find('='); if (e == std::string::npos) continue;
        std::string key = w[x].substr(0, e), v = w[x].substr(e + 1);
        if (key == "who") o.who = atoi(v.c_str());
        else if (key == "ty") { for (int y = 0; y < NTY; y++) if (v == tyName[y]) o.ty = (Ty)y; }
        else if (key == "vr") { for (auto &z : split(v, ',')) o.vr.push_back((uint32_t)strtoul(z.c_str(), 0, 10)); }
        else if (key == "vr2") { for (auto &z : split(v, ',')) o.vr2.push_back((uint32_t)strtoul(z.c_str(), 0, 10)); }
        else if (key == "d") { for (auto &z : split(v, ',')) o.d.push_back(strtod(z.c_str(), 0)); }
        else if (key == "i") { for (auto &z : split(v, ',')) o.i.push_back(strtoll(z.c_str(), 0, 10)); }
        else if (key == "s") o.s.push_back(unhex(v.substr(0, v.find(';'))));
        else if (key == "t") o.t = strtod(v.c_str(), 0);
        else if (key == "h") o.h = strtod(v.c_str(), 0);
        else if (key == "f") o.f = true;
        else if (key == "a") o.a = atoi(v.c_str());
        else if (key == "b") o.b = atoi(v.c_str());
        else if (key == "n") o.n = atol(v.c_str());
        else if (key == "null") o.null = atoi(v.c_str());
    }
    return o;
}
std::string Out::text() const {
    std::string o = stName(st);
    if (!d.empty()) o += " d=" + joinNum(d, "%.17g");
    if (!i.empty()) { std::vector<long long> t2(i.begin(), i.end()); o += " i=" + joinNum(t2, "%lld"); }
    for (auto &x : s) { bool p = x.size() < 200; for (char c : x) if (c < 32 || c > 126) p = false; o += p ? " \"" + x + "\"" : " hex:" + hex(x); }
    return o;
}
bool sameDouble(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (tol <= 0 || std::isinf(a) || std::isinf(b)) return false;
    return fabs(a - b) <= tol * std::max(1.0, std::max(fabs(a), fabs(b)));
}
bool sameOut(const Out &a, const Out &b, double tol, std::string &why) {
    if (a.st != b.st) { why = strf("status %s, expected %s", stName(a.st), stName(b.st)); return false; }
    if (a.d.size() != b.d.size() || a.i.size() != b.i.size() || a.s.size() != b.s.size()) { why = "result " + a.text() + ", expected " + b.text(); return false; }
    for (size_t k = 0; k < a.d.size(); k++) if (!sameDouble(a.d[k], b.d[k], tol) && !(tol > 0 && k < b.mag.size() && (!std::isfinite(b.mag[k]) || fabs(a.d[k] - b.d[k]) <= tol * b.mag[k]))) { why = strf("value %zu is %.17g, expected %.17g", k, a.d[k], b.d[k]); return false; }
    for (size_t k = 0; k < a.i.size(); k++) if (a.i[k] != b.i[k]) { why = strf("value %zu is %lld, expected %lld", k, (long long)a.i[k], (long long)b.i[k]); return false; }
    for (size_t k = 0; k < a.s.size(); k++) if (a.s[k] != b.s[k]) { why = "result " + a.text() + ", expected " + b.text(); return false; }
    return true;
}
std::string Config::text() const {
    return strf("model=%s ver=%d iface=%s eventMode=%d early=%d logging=%d inter=%d resource=%s", model.c_str(), ver, iface == ME ? "ME" : iface == CS ? "CS" : "SE", eventMode, early, logging, inter, hex(resource).c_str());
}
Config Config::parse(const std::string &s) {
    Config c;
    for (auto &w : split(s, ' ')) {
        size_t e = w.find('='); if (e == std::string::npos) continue;
        std::string k = w.substr(0, e), v = w.substr(e + 1);
        if (k == "model") c.model = v; else if (k == "ver") c.ver = atoi(v.c_str());
        else if (k == "iface") c.iface = v == "ME" ? ME : v == "CS" ? CS : SE;
        else if (k == "eventMode") c.eventMode = v == "1"; else if (k == "early") c.early = v == "1";
        else if (k == "logging") c.logging = v == "1"; else if (k == "inter") c.inter = v == "1";
        else if (k == "resource") c.resource = unhex(v);
    }
    return c;
}

// ------------------------------------------------------------------ builders
Op op(K k) { Op o; o.k = k; return o; }
Op opGet(Ty ty, std::vector<uint32_t> vr) { Op o; o.k = K_GET; o.ty = ty; o.vr = vr; return o; }
Op opSetD(Ty ty, std::vector<uint32_t> vr, std::vector<double> d) { Op o; o.k = K_SET; o.ty = ty; o.vr = vr; o.d = d; return o; }
Op opSetI(Ty ty, std::vector<uint32_t> vr, std::vector<int64_t> i) { Op o; o.k = K_SET; o.ty = ty; o.vr = vr; o.i = i; return o; }
Op opSetS(Ty ty, std::vector<uint32_t> vr, std::vector<std::string> s) { Op o; o.k = K_SET; o.ty = ty; o.vr = vr; o.s = s; return o; }
Op opInit(double t, double stop) { Op o; o.k = K_ENTER_INIT; o.t = t; o.f = !std::isnan(stop); o.h = o.f ? stop : 0; return o; }
Op opStep(double t, double h) { Op o; o.k = K_DOSTEP; o.t = t; o.h = h; return o; }
Op opTime(double t) { Op o; o.k = K_SET_TIME; o.t = t; return o; }
Op opStates(std::vector<double> x) { Op o; o.k = K_SET_STATES; o.d = x; return o; }
Op opN(K k, long n) { Op o; o.k = k; o.n = n; return o; }

// ------------------------------------------------------------------ guarded calls
static sigjmp_buf jb;
static volatile sig_atomic_t inCall = 0;
static volatile uint64_t callNo = 0, lastSeen = 0;
static volatile int ticks = 0;
static const int HANG_TICKS = 20;      // x 0.5 s of CPU time
static char altStack[65536];
static void onSig(int sig) {
    if (sig == SIGPROF) {
        if (!inCall) { ticks = 0; return; }
        if (lastSeen != callNo) { lastSeen = callNo; ticks = 0; return; }
        if (++ticks >= HANG_TICKS) { ticks = 0; inCall = 0; siglongjmp(jb, HANG); }
        return;
    }
    if (inCall) { inCall = 0; siglongjmp(jb, CRASH); }
    signal(sig, SIG_DFL); raise(sig);
}
static void installSignals() {
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altStack; ss.ss_size = sizeof altStack; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    sa.sa_flags = SA_NODEFER | SA_ONSTACK | SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 500000; it.it_value = it.it_interval;
    setitimer(ITIMER_PROF, &it, nullptr);
}
Paint paint = {0xCD, 0xFD, 0x43, 0, false};
void setPaint(const Paint &p) { paint = p; arena::fillByte = p.fill; arena::setGap(p.gap); }
[[maybe_unused]] static __attribute__((noinline)) void paintStack() { volatile char b[12000]; memset((void *)b, paint.stack, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
int Sys::guarded(const std::function<void()> &f) {
    calls++;
    callNo++;
    int r = sigsetjmp(jb, 0);
    if (r) { arena::on = false; inCall = 0; return r; }
#ifndef MC_ASAN
    if (paint.on) paintStack();
#endif
    inCall = 1; arena::on = true;
    f();
    arena::on = false; inCall = 0;
    return OK;
}

// ------------------------------------------------------------------ callbacks
struct OffArena { bool was; OffArena() { was = arena::on; arena::on = false; } ~OffArena() { arena::on = was; } };
struct EnvRec { int who; };
static EnvRec envs[8] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};
static int whoOf(void *env) {
    EnvRec *e = (EnvRec *)env;
    if (e < envs || e >= envs + 8) { if (curSys) curSys->envOk = false; return -1; }
    return e->who;
}
static void logger3(fmi3InstanceEnvironment env, fmi3Status st, fmi3String cat, fmi3String msg) {
    OffArena o; if (!curSys) return;
    curSys->logs.push_back({whoOf(env), (int)st, cat ? cat : "(null)", "", msg ? msg : "(null)"});
}
static void logger2(fmi2ComponentEnvironment env, fmi2String name, fmi2Status st, fmi2String cat, fmi2String msg, ...) {
    OffArena o; if (!curSys) return;
    std::string text = msg ? msg : "(null)";
    if (msg && strchr(msg, '%')) { va_list a; va_start(a, msg); char buf[16384]; const int n = vsnprintf(buf, sizeof buf, msg, a); va_end(a); text = n < 0 ? "(not a format)" : buf; }   // the message is a format
    curSys->logs.push_back({whoOf(env), (int)st, cat ? cat : "(null)", name ? name : "(null)", text});
}
static void interUpdate(fmi3InstanceEnvironment env, fmi3Float64 t, fmi3Boolean setReq, fmi3Boolean getAllowed, fmi3Boolean fin, fmi3Boolean canEarly, fmi3Boolean *erReq, fmi3Float64 *erTime) {
    OffArena o; if (!curSys) return;
    CbInter c; c.who = whoOf(env); c.time = t; c.setReq = setReq; c.getAllowed = getAllowed; c.finished = fin; c.canEarly = canEarly;
    if (erReq) *erReq = curSys->earlyAsk;
    if (erTime) *erTime = t;
    if (curSys->onInter) {
        // calls made inside the callback are guarded calls of their own
        sigjmp_buf saved; memcpy(&saved, &jb, sizeof jb); auto logs = curSys->logs; auto inters = curSys->inters;
        inCall = 0; curSys->onInter(c); inCall = 1;
        memcpy(&jb, &saved, sizeof jb); curSys->logs = logs; curSys->inters = inters;
    }
    curSys->inters.push_back(c);
}
static void clockUpdate(fmi3InstanceEnvironment env) {
    OffArena o; if (!curSys) return;
    whoOf(env); curSys->clockUpdates++;
    if (curSys->onClockUpdate) curSys->onClockUpdate();
}
static void lockP(void) { OffArena o; if (!curSys) return; if (curSys->onLock) curSys->onLock(); curSys->locks++; curSys->lockDepth++; curSys->maxLock = std::max(curSys->maxLock, curSys->lockDepth); }
static void unlockP(void) { OffArena o; if (!curSys) return; curSys->unlocks++; curSys->lockDepth--; if (curSys->onUnlock) curSys->onUnlock(); }
static void *alloc2(size_t n, size_t s) { return calloc(n, s); }
static void free2(void *p) { free(p); }
static fmi2CallbackFunctions cb2[8];

// ------------------------------------------------------------------ library
[[maybe_unused]] static int phdrCb(struct dl_phdr_info *info, size_t, void *data) {
    Lib *l = (Lib *)data;
    if (!info->dlpi_name || l->path != info->dlpi_name) return 0;
    ElfW(Addr) relLo = 0, relHi = 0;
    for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) { relLo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr; relHi = relLo + info->dlpi_phdr[i].p_memsz; relHi = (relHi + 4095) & ~(ElfW(Addr))4095; }
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &p = info->dlpi_phdr[i];
        if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
        ElfW(Addr) lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
        if (relHi > lo && relLo <= lo) lo = std::min(hi, relHi);
        if (hi > lo) l->segs.push_back({(char *)lo, (size_t)(hi - lo)});
    }
    return 1;
}
Lib *loadFile(const std::string &path, const std::string &model, int ver, const std::string &prefix, std::string &missing) {
    static std::map<std::string, Lib *> cache;
    auto it = cache.find(path); if (it != cache.end()) return it->second;
    Lib *l = new Lib; l->model = model; l->ver = ver;
    char *rp = realpath(path.c_str(), nullptr); if (!rp) { missing = "no library " + path; return nullptr; }
    l->path = rp;
    l->h = dlopen(rp, RTLD_NOW | RTLD_LOCAL);
    if (!l->h) { missing = std::string("dlopen ") + dlerror(); return nullptr; }
    auto sym = [&](const char *n) { void *p = dlsym(l->h, (prefix + n).c_str()); if (!p) missing = std::string(rp) + " lacks " + prefix + n; return p; };
    if (ver == 3) {
#define X(n) if (!(l->f3.n = (fmi3##n##TYPE *)sym("fmi3" #n))) return nullptr;
        F3LIST(X)
#undef X
    } else {
#define X(n) if (!(l->f2.n = (fmi2##n##TYPE *)sym("fmi2" #n))) return nullptr;
        F2LIST(X)
#undef X
    }
#ifndef MC_ASAN
    dl_iterate_phdr(phdrCb, l);
#endif
    cache[path] = l;
    return l;
}
Lib *loadLib(const std::string &dir, const std::string &model, int ver) {
    std::string why; Lib *l = loadFile(dir + strf("/fmi%d/temp/%s/binaries/%s/%s.so", ver, model.c_str(), ver == 2 ? "linux64" : "x86_64-linux", model.c_str()), model, ver, "", why);
    if (!l) die("%s", why.c_str());
    return l;
}
const char *tokenOf(const std::string &m) {
    static std::map<std::string, const char *> t = {{"BouncingBall", "{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF1}"}, {"Clocks", "{C5F142BA-B849-42DA-B4A1-4745BFF3BE28}"},
        {"Dahlquist", "{221063D2-EF4A-45FE-B954-B5BFEEA9A59B}"}, {"Feedthrough", "{37B954F1-CC86-4D8F-B97F-C7C36F6670D2}"}, {"Resource", "{7b9c2114-2ce5-4076-a138-2cbc69e069e5}"},
        {"Roberts", "{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF2}"}, {"Stair", "{BD403596-3166-4232-ABC2-132BDF73E644}"}, {"VanDerPol", "{BD403596-3166-4232-ABC2-132BDF73E644}"},
        {"StateSpace", "{D773325B-AB94-4630-BF85-643EB24FCB78}"}};
    return t.at(m);
}

// ------------------------------------------------------------------ system
void Sys::open(Lib *l, const Config &c) {
    lib = l; cfg = c; curSys = this;
    initSegs.clear();
    for (auto &s : l->segs) initSegs.push_back(std::string(s.first, s.second));
    for (int i = 0; i < 8; i++) { cb2[i].logger = logger2; cb2[i].allocateMemory = alloc2; cb2[i].freeMemory = free2; cb2[i].stepFinished = nullptr; cb2[i].componentEnvironment = &envs[i]; }
    arena::reset();
    installSignals();
}
void Sys::fresh() {
    arena::reset(); w = World();
    for (size_t i = 0; i < lib->segs.size(); i++) memcpy(lib->segs[i].first, initSegs[i].data(), initSegs[i].size());
    lockDepth = 0; maxLock = 0; locks = unlocks = clockUpdates = 0;
}
bool Sys::instantiate(int who, const Config *cp, const char *name, const char *token) {
    const Config &c = cp ? *cp : cfg;
    if (!token) token = tokenOf(c.model);
    std::string nm = name ? std::string(name) + (who && suffixNames ? strf("%d", who) : "") : "";
    const char *nmp = name ? nm.c_str() : nullptr;
    if (!strcmp(token, "\x01NULL")) token = nullptr;
    const char *res = c.resource.empty() ? nullptr : c.resource == "\x01""EMPTY" ? "" : c.resource.c_str();
    if (c.ver == 2) cb2[who].logger = nullLogger ? nullptr : logger2;
    char *own[3] = {nmp ? strdup(nmp) : nullptr, token ? strdup(token) : nullptr, res ? strdup(res) : nullptr};
    nmp = own[0]; token = own[1]; res = own[2];
    uint32_t *reqOwn = required.empty() ? nullptr : (uint32_t *)malloc(required.size() * 4); if (reqOwn) memcpy(reqOwn, required.data(), required.size() * 4);
    if (c.ver == 2) { cb2[who].allocateMemory = noMemory2 ? nullptr : alloc2; cb2[who].freeMemory = noMemory2 ? nullptr : free2; }
    void *r = nullptr;
    logs.clear();
    int g = guarded([&] {
        if (c.ver == 2) r = lib->f2.Instantiate(nmp, c.iface == ME ? fmi2ModelExchange : fmi2CoSimulation, token, res, noFunctions ? nullptr : &cb2[who], visible, c.logging);
        else if (c.iface == ME) r = lib->f3.InstantiateModelExchange(nmp, token, res, visible, c.logging, &envs[who], nullLogger ? nullptr : logger3);
        else if (c.iface == CS) r = lib->f3.InstantiateCoSimulation(nmp, token, res, visible, c.logging, c.eventMode, c.early, reqOwn, required.size(), &envs[who], nullLogger ? nullptr : logger3, c.inter ? interUpdate : nullptr);
        else r = lib->f3.InstantiateScheduledExecution(nmp, token, res, visible, c.logging, &envs[who], nullLogger ? nullptr : logger3, clockUpdate, lockP, unlockP);
    });
    for (char *o : own) if (o) { memset(o, 'Y', strlen(o)); free(o); }
    if (reqOwn) { memset(reqOwn, 0x5a, required.size() * 4); free(reqOwn); }
    w.inst[who] = g == OK ? r : nullptr;
    return r != nullptr && g == OK;
}
void Sys::snap(Image &im) {
    std::string &b = im.bytes; b.clear();
    b.append((const char *)w.inst, sizeof w.inst); b.append((const char *)w.slot, sizeof w.slot);
    for (auto &s : w.ser) { uint32_t n = (uint32_t)s.size(); b.append((const char *)&n, 4); b += s; }
    for (auto &s : lib->segs) b.append(s.first, s.second);
    arena::save(b);
}
void Sys::restore(const Image &im) {
    const char *p = im.bytes.data(), *e = p + im.bytes.size();
    memcpy(w.inst, p, sizeof w.inst); p += sizeof w.inst; memcpy(w.slot, p, sizeof w.slot); p += sizeof w.slot;
    for (auto &s : w.ser) { uint32_t n; memcpy(&n, p, 4); p += 4; s.assign(p, n); p += n; }
    for (auto &s : lib->segs) { if (memcmp(s.first, p, s.second)) memcpy(s.first, p, s.second); p += s.second; }
    arena::load(p, e - p);
}

static uint64_t mapEnv(uint64_t v) {
    if (v >= (uint64_t)envs && v < (uint64_t)(envs + 8)) return 0xE000E000E000E000ull;
    if (v >= (uint64_t)cb2 && v < (uint64_t)(cb2 + 8)) return 0xE100E100E100E100ull;
    return v;
}
std::string Sys::canon(int who) {
    std::string o; arena::canon(w.inst[who], o, mapEnv);
    for (auto &s : lib->segs) o.append(s.first, s.second);
    return o;
}
std::string Sys::logText() const { std::string o; for (auto &l : logs) o += strf("[%d %s %s] ", l.status, l.category.c_str(), l.msg.c_str()); return o; }

// caller-side buffer with canaries (exact-size heap block under ASan)
template <class T> struct Buf {
    T *p; size_t n;
#ifdef MC_ASAN
    explicit Buf(size_t n_) : n(n_) { p = (T *)malloc(n * sizeof(T)); memset((void *)p, paint.caller, n * sizeof(T)); }
    ~Buf() { free((void *)p); }
    bool ok() const { return true; }
#else
    unsigned char mem[sizeof(T) * 1100 + 64];
    explicit Buf(size_t n_) : n(n_) { if (n > 1100) die("Buf too small"); memset(mem, 0xA5, n * sizeof(T) + 64); p = (T *)(mem + 32); if (paint.caller != 0xA5) memset((void *)p, paint.caller, n * sizeof(T)); }
    bool ok() const { for (int i = 0; i < 32; i++) if (mem[i] != 0xA5 || mem[32 + n * sizeof(T) + i] != 0xA5) return false; return true; }
#endif
    Buf(const Buf &) = delete;
    void clear() { memset((void *)p, 0, n * sizeof(T)); }
};
// text or bytes handed out by the FMU; what cannot be read is not read outside a guarded call
static std::string handedOut(Sys &s, const char *p, size_t n, bool text) {
    if (!p) return "(null)";
    volatile size_t len = n; volatile char x = 0;
    int g = s.guarded([&] { if (text) len = strnlen(p, 100000); else for (size_t i = 0; i < n; i++) x = x ^ p[i]; });
    (void)x;
    return g == OK ? std::string(p, len) : "(unreadable)";
}
static const int OVERRUN = 92;

#define NUMTYPES(X) X(F32, Float32, fmi3Float32) X(F64, Float64, fmi3Float64) X(I8, Int8, fmi3Int8) X(U8, UInt8, fmi3UInt8) X(I16, Int16, fmi3Int16) X(U16, UInt16, fmi3UInt16) \
    X(I32, Int32, fmi3Int32) X(U32, UInt32, fmi3UInt32) X(I64, Int64, fmi3Int64) X(U64, UInt64, fmi3UInt64) X(BOOL, Boolean, fmi3Boolean)

static void numOut(Out &o, float v) { o.d.push_back(v); }
static void numOut(Out &o, double v) { o.d.push_back(v); }
template <class T> static void numOut(Out &o, T v) { o.i.push_back((int64_t)v); }

// tolerances an importer may pass: given or, from 100 on, a number that is not to be used
static const double tolerances[] = {0, 1e-3, 1e-12, 1e-6, 0.02, 0.5, 10, 1e6};
static bool tolGiven(long a) { return a > 0 && a < 100; }
static double tolValue(long a) { return a >= 100 ? a == 100 ? 0.25 : a == 101 ? NAN : -1 : tolerances[(size_t)a % 8]; }
// a job that takes far longer than its share (the memory of an instance never repeats, say) is ended and counted as cut short
double jobEnd = 0; uint64_t jobCalls = 0, jobStates = 0;
struct Overdue {};
Out Sys::exec(const Op &op) {
    if ((++jobCalls & 63) == 0 && jobEnd > 0 && nowS() > jobEnd) throw Overdue();
    Out o;
    logs.clear(); inters.clear(); clockUpdates = 0; envOk = true;
    void *c = op.who < 0 ? nullptr : w.inst[op.who];
    int st = ERROR, g = OK;
    bool v3 = cfg.ver == 3;
    auto &f3 = lib->f3; auto &f2 = lib->f2;
    size_t nvr = op.vr.size();
    Buf<uint32_t> vrb(nvr); for (size_t i = 0; i < nvr; i++) vrb.p[i] = op.vr[i];
    uint32_t *vrp = (op.null & 1) ? nullptr : vrb.p;
    bool over = false;
#define G(expr) g = guarded([&] { st = (int)(expr); })
    switch (op.k) {
        case K_SETUP: if (v3) die("setup in FMI3"); G(f2.SetupExperiment(c, tolGiven(op.a), tolValue(op.a), op.t, op.f, op.h)); break;
        case K_ENTER_INIT:
            if (v3) G(f3.EnterInitializationMode(c, tolGiven(op.a), tolValue(op.a), op.t, op.f, op.h)); else G(f2.EnterInitializationMode(c));
            break;
        case K_EXIT_INIT: if (v3) G(f3.ExitInitializationMode(c)); else G(f2.ExitInitializationMode(c)); break;
        case K_TERMINATE: if (v3) G(f3.Terminate(c)); else G(f2.Terminate(c)); break;
        case K_RESET: if (v3) G(f3.Reset(c)); else G(f2.Reset(c)); break;
        case K_DEBUG: {
            std::vector<const char *> cats; std::vector<char *> own; for (auto &x : op.s) { own.push_back(x == "\x01NULL" ? nullptr : strdup(x.c_str())); cats.push_back(own.back()); }
            size_t n = op.n >= 0 ? (size_t)op.n : cats.size();
            const char **cp = (op.null & 2) ? nullptr : cats.data();
            if (v3) G(f3.SetDebugLogging(c, op.f, n, cp)); else G(f2.SetDebugLogging(c, op.f, n, cp));
            for (char *x : own) if (x) { memset(x, 'Y', strlen(x)); free(x); }
            break;
        }
        case K_GET: {
            size_t n = op.n >= 0 ? (size_t)op.n : nvr;
            if (v3) {
                switch (op.ty) {
#define X(e, nm, T) case e: { Buf<T> b(n); G(f3.Get##nm(c, vrp, nvr, (op.null & 2) ? nullptr : b.p, n)); over = !b.ok(); if (g == OK && st == OK && !(op.null & 2)) for (size_t i = 0; i < n && nvr; i++) numOut(o, b.p[i]); break; }
                    NUMTYPES(X)
#undef X
                    case STR: { Buf<fmi3String> b(n); b.clear(); G(f3.GetString(c, vrp, nvr, (op.null & 2) ? nullptr : b.p, n)); over = !b.ok(); if (g == OK && st == OK && !(op.null & 2)) for (size_t i = 0; i < n && nvr; i++) o.s.push_back(handedOut(*this, b.p[i], 0, true)); break; }
                    case BIN: { Buf<fmi3Binary> b(n); Buf<size_t> z(n); b.clear(); G(f3.GetBinary(c, vrp, nvr, (op.null & 4) ? nullptr : z.p, (op.null & 2) ? nullptr : b.p, n)); over = !b.ok() || !z.ok();
                        if (g == OK && st == OK && !(op.null & 6)) for (size_t i = 0; i < n && nvr; i++) { if (z.p[i] > 100000) { o.s.push_back(strf("(size %zx)", z.p[i])); continue; } o.s.push_back(handedOut(*this, (const char *)b.p[i], z.p[i], false)); }
                        break; }
                    case CLK: default: die("bad type");
                }
            } else {
                switch (op.ty) {
                    case F64: { Buf<double> b(n); G(f2.GetReal(c, vrp, nvr, (op.null & 2) ? nullptr : b.p)); over = !b.ok(); if (g == OK && st == OK) for (size_t i = 0; i < nvr; i++) o.d.push_back(b.p[i]); break; }
                    case I32: { Buf<int> b(n); G(f2.GetInteger(c, vrp, nvr, (op.null & 2) ? nullptr : b.p)); over = !b.ok(); if (g == OK && st == OK) for (size_t i = 0; i < nvr; i++) o.i.push_back(b.p[i]); break; }
                    case BOOL: { Buf<int> b(n); G(f2.GetBoolean(c, vrp, nvr, (op.null & 2) ? nullptr : b.p)); over = !b.ok(); if (g == OK && st == OK) for (size_t i = 0; i < nvr; i++) o.i.push_back(b.p[i]); break; }
                    case STR: { Buf<fmi2String> b(n); b.clear(); G(f2.GetString(c, vrp, nvr, (op.null & 2) ? nullptr : b.p)); over = !b.ok(); if (g == OK && st == OK) for (size_t i = 0; i < nvr; i++) o.s.push_back(handedOut(*this, b.p[i], 0, true)); break; }
                    default: die("bad FMI2 type");
                }
            }
            break;
        }
        case K_SET: {
            size_t have = op.ty == STR || op.ty == BIN ? op.s.size() : (op.ty == F32 || op.ty == F64) ? op.d.size() : op.i.size();
            size_t n = op.n >= 0 ? (size_t)op.n : have;
            bool nul = op.null & 2;
            if (v3) {
                switch (op.ty) {
#define SX(e, nm, T, src) case e: { Buf<T> b(have); for (size_t i = 0; i < have; i++) b.p[i] = (T)op.src[i]; G(f3.Set##nm(c, vrp, nvr, nul ? nullptr : b.p, n)); over = !b.ok(); memset((void *)b.p, 0x5A, have * sizeof(T)); break; }
                    SX(F32, Float32, fmi3Float32, d) SX(F64, Float64, fmi3Float64, d) SX(I8, Int8, fmi3Int8, i) SX(U8, UInt8, fmi3UInt8, i) SX(I16, Int16, fmi3Int16, i)
                    SX(U16, UInt16, fmi3UInt16, i) SX(I32, Int32, fmi3Int32, i) SX(U32, UInt32, fmi3UInt32, i) SX(I64, Int64, fmi3Int64, i) SX(U64, UInt64, fmi3UInt64, i) SX(BOOL, Boolean, fmi3Boolean, i)
#undef SX
                    case STR: {
                        std::vector<std::unique_ptr<Buf<char>>> bs; Buf<fmi3String> b(have);
                        std::vector<char *> raw;
                        for (size_t i = 0; i < have; i++) { char *m = (char *)malloc(op.s[i].size() + 1); memcpy(m, op.s[i].data(), op.s[i].size()); m[op.s[i].size()] = 0; raw.push_back(m); b.p[i] = op.s[i] == "\x01NULL" ? nullptr : m; }
                        G(f3.SetString(c, vrp, nvr, nul ? nullptr : b.p, n)); over = !b.ok();
                        for (size_t i = 0; i < have; i++) { memset(raw[i], 'Z', op.s[i].size()); free(raw[i]); }
                        break;
                    }
                    case BIN: {
                        Buf<fmi3Binary> b(have); Buf<size_t> z(have); std::vector<unsigned char *> raw;
                        for (size_t i = 0; i < have; i++) { unsigned char *m = (unsigned char *)malloc(op.s[i].size() ? op.s[i].size() : 1); memcpy(m, op.s[i].data(), op.s[i].size()); raw.push_back(m); b.p[i] = op.s[i] == "\x01NULL" ? nullptr : m; z.p[i] = op.s[i].size(); }
                        G(f3.SetBinary(c, vrp, nvr, (op.null & 4) ? nullptr : z.p, nul ? nullptr : b.p, n)); over = !b.ok() || !z.ok();
                        for (size_t i = 0; i < have; i++) { memset(raw[i], 'Z', op.s[i].size()); free(raw[i]); }
                        break;
                    }
                    default: die("bad type");
                }
            } else {
                switch (op.ty) {
                    case F64: { Buf<double> b(have); for (size_t i = 0; i < have; i++) b.p[i] = op.d[i]; G(f2.SetReal(c, vrp, nvr, nul ? nullptr : b.p)); over = !b.ok(); memset((void *)b.p, 0x5A, have * sizeof(double)); break; }
                    case I32: { Buf<int> b(have); for (size_t i = 0; i < have; i++) b.p[i] = (int)op.i[i]; G(f2.SetInteger(c, vrp, nvr, nul ? nullptr : b.p)); over = !b.ok(); memset((void *)b.p, 0x5A, have * sizeof(int)); break; }
                    case BOOL: { Buf<int> b(have); for (size_t i = 0; i < have; i++) b.p[i] = (int)op.i[i]; G(f2.SetBoolean(c, vrp, nvr, nul ? nullptr : b.p)); over = !b.ok(); memset((void *)b.p, 0x5A, have * sizeof(int)); break; }
                    case STR: {
                        Buf<fmi2String> b(have); std::vector<char *> raw;
                        for (size_t i = 0; i < have; i++) { char *m = (char *)malloc(op.s[i].size() + 1); memcpy(m, op.s[i].data(), op.s[i].size()); m[op.s[i].size()] = 0; raw.push_back(m); b.p[i] = op.s[i] == "\x01NULL" ? nullptr : m; }
                        G(f2.SetString(c, vrp, nvr, nul ? nullptr : b.p)); over = !b.ok();
                        for (size_t i = 0; i < have; i++) { memset(raw[i], 'Z', op.s[i].size()); free(raw[i]); }
                        break;
                    }
                    default: die("bad FMI2 type");
                }
            }
            break;
        }
        case K_GETCLOCK: { Buf<fmi3Clock> b(nvr); G(f3.GetClock(c, vrp, nvr, b.p)); over = !b.ok(); if (g == OK && st == OK) for (size_t i = 0; i < nvr; i++) o.i.push_back(b.p[i]); break; }
        case K_SETCLOCK: { Buf<fmi3Clock> b(nvr); for (size_t i = 0; i < nvr; i++) b.p[i] = op.i[i] != 0; G(f3.SetClock(c, vrp, nvr, b.p)); over = !b.ok(); break; }
        case K_FS_GET: {
            void *p = w.slot[op.a];
            if (v3) G(f3.GetFMUState(c, &p)); else G(f2.GetFMUstate(c, &p));
            if (g == OK) { w.slot[op.a] = p; if (st == OK) o.i.push_back(p != nullptr); }
            break;
        }
        case K_FS_SET: { void *p = op.a < 0 ? nullptr : w.slot[op.a]; if (v3) G(f3.SetFMUState(c, p)); else G(f2.SetFMUstate(c, p)); break; }
        case K_FS_FREE: {
            void *p = op.a < 0 ? nullptr : w.slot[op.a];
            if (v3) G(f3.FreeFMUState(c, &p)); else G(f2.FreeFMUstate(c, &p));
            if (g == OK) { if (op.a >= 0) w.slot[op.a] = p; if (st == OK) o.i.push_back(p == nullptr); }
            break;
        }
        case K_FS_SIZE: { size_t z = paint.caller; void *p = op.a < 0 ? nullptr : w.slot[op.a]; if (v3) G(f3.SerializedFMUStateSize(c, p, &z)); else G(f2.SerializedFMUstateSize(c, p, &z)); if (g == OK && st == OK) o.i.push_back((int64_t)z); break; }
        case K_FS_SER: {
            size_t z = 0; void *p = op.a < 0 ? nullptr : w.slot[op.a];
            int st0 = ERROR; g = guarded([&] { st0 = v3 ? (int)f3.SerializedFMUStateSize(c, p, &z) : (int)f2.SerializedFMUstateSize(c, p, &z); });
            if (g != OK) break;
            if (st0 != OK) { st = st0; break; }
            if (z > 1000000) { st = 93; break; }
            long delta = std::max(-(long)z, op.n == -1 ? 0 : op.n - 1000);      // n = 1000 + delta
            size_t zz = (size_t)((long)z + delta);
            char *m = (char *)malloc(zz + 64); memset(m, 0xA5, zz + 64);
            if (v3) G(f3.SerializeFMUState(c, p, (fmi3Byte *)m + 32, zz)); else G(f2.SerializeFMUstate(c, p, m + 32, zz));
            for (int i = 0; i < 32; i++) if ((unsigned char)m[i] != 0xA5 || (unsigned char)m[32 + zz + i] != 0xA5) over = true;
            if (g == OK && st == OK) w.ser[op.b].assign(m + 32, zz);
            free(m);
            break;
        }
        case K_FS_DES: {
            void *p = w.slot[op.b]; std::string &sr = w.ser[op.a];
            long delta = op.n == -1 ? 0 : op.n - 1000;
            size_t zz = (size_t)std::max(0L, (long)sr.size() + delta);
            char *m = (char *)malloc(std::max(zz, sr.size()) + 1); memset(m, 0, std::max(zz, sr.size()) + 1); memcpy(m, sr.data(), sr.size());
            if (v3) G(f3.DeserializeFMUState(c, (const fmi3Byte *)m, zz, &p)); else G(f2.DeSerializeFMUstate(c, m, zz, &p));
            memset(m, 0x5A, std::max(zz, sr.size())); free(m);
            if (g == OK) { w.slot[op.b] = p; if (st == OK) o.i.push_back(p != nullptr); }
            break;
        }
        case K_DIRDER: case K_ADJDER: {
            size_t nu = op.vr.size(), nk = op.vr2.size(), ns = op.d.size();
            size_t nout = op.k == K_DIRDER ? nu : nk;
            Buf<uint32_t> k2(nk); for (size_t i = 0; i < nk; i++) k2.p[i] = op.vr2[i];
            Buf<double> seed(ns); for (size_t i = 0; i < ns; i++) seed.p[i] = op.d[i];
            size_t nsens = op.n >= 0 ? (size_t)op.n : nout;
            Buf<double> out(nsens);
            if (v3 && op.k == K_DIRDER) G(f3.GetDirectionalDerivative(c, vrp, nu, k2.p, nk, seed.p, ns, out.p, nsens));
            else if (v3) G(f3.GetAdjointDerivative(c, vrp, nu, k2.p, nk, seed.p, ns, out.p, nsens));
            else G(f2.GetDirectionalDerivative(c, vrp, nu, k2.p, nk, seed.p, out.p));
            over = !out.ok() || !seed.ok();
            if (g == OK && st == OK) for (size_t i = 0; i < nout; i++) o.d.push_back(out.p[i]);
            break;
        }
        case K_ENTER_CONFIG: G(f3.EnterConfigurationMode(c)); break;
        case K_EXIT_CONFIG: G(f3.ExitConfigurationMode(c)); break;
        case K_ENTER_EVENT: if (v3) G(f3.EnterEventMode(c)); else G(f2.EnterEventMode(c)); break;
        case K_UPDATE:
            if (v3) {
                bool pb = paint.caller != 0; bool b[5] = {pb, pb, pb, pb, pb}; double t = pb ? -1 : 0;
                if (op.null & 4) { G(f3.UpdateDiscreteStates(c, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr)); break; }
                G(f3.UpdateDiscreteStates(c, &b[0], &b[1], &b[2], &b[3], &b[4], &t));
                if (g == OK && st == OK) { for (bool x : b) o.i.push_back(x); o.d.push_back(b[4] ? t : 0); }
            } else {
                fmi2EventInfo e; memset(&e, paint.caller, sizeof e);
                G(f2.NewDiscreteStates(c, &e));
                if (g == OK && st == OK) { o.i = {e.newDiscreteStatesNeeded, e.terminateSimulation, e.nominalsOfContinuousStatesChanged, e.valuesOfContinuousStatesChanged, e.nextEventTimeDefined}; o.d.push_back(e.nextEventTimeDefined ? e.nextEventTime : 0); }
            }
            break;
        case K_ENTER_CTM: if (v3) G(f3.EnterContinuousTimeMode(c)); else G(f2.EnterContinuousTimeMode(c)); break;
        case K_COMPLETED: {
            bool b0 = paint.caller != 0, b1 = b0; int i0 = paint.caller, i1 = i0;
            if (v3) G(f3.CompletedIntegratorStep(c, op.a == 0, (op.null & 2) ? nullptr : &b0, (op.null & 4) ? nullptr : &b1)); else G(f2.CompletedIntegratorStep(c, op.a == 0, (op.null & 2) ? nullptr : &i0, (op.null & 4) ? nullptr : &i1));
            if (g == OK && st == OK) { if (v3) o.i = {b0, b1}; else o.i = {i0, i1}; }
            break;
        }
        case K_SET_TIME: if (v3) G(f3.SetTime(c, op.t)); else G(f2.SetTime(c, op.t)); break;
        case K_SET_STATES: {
            size_t have = op.d.size(), n = op.n >= 0 ? (size_t)op.n : have;
            Buf<double> b(have ? have : 1); for (size_t i = 0; i < have; i++) b.p[i] = op.d[i];
            double *p = (op.null & 2) ? nullptr : b.p;
            if (v3) G(f3.SetContinuousStates(c, p, n)); else G(f2.SetContinuousStates(c, p, n));
            over = !b.ok();
            break;
        }
        case K_GET_DERS: case K_GET_EI: case K_GET_STATES: case K_GET_NOMINALS: {
            size_t n = op.n < 0 ? 0 : (size_t)op.n; Buf<double> b(n ? n : 1);
            double *p = (op.null & 2) ? nullptr : b.p;
            if (v3) {
                if (op.k == K_GET_DERS) G(f3.GetContinuousStateDerivatives(c, p, n)); else if (op.k == K_GET_EI) G(f3.GetEventIndicators(c, p, n));
                else if (op.k == K_GET_STATES) G(f3.GetContinuousStates(c, p, n)); else G(f3.GetNominalsOfContinuousStates(c, p, n));
            } else {
                if (op.k == K_GET_DERS) G(f2.GetDerivatives(c, p, n)); else if (op.k == K_GET_EI) G(f2.GetEventIndicators(c, p, n));
                else if (op.k == K_GET_STATES) G(f2.GetContinuousStates(c, p, n)); else G(f2.GetNominalsOfContinuousStates(c, p, n));
            }
            over = !b.ok();
            if (g == OK && st == OK && p) for (size_t i = 0; i < n; i++) o.d.push_back(b.p[i]);
            break;
        }
        case K_N_EI: { size_t n = paint.caller; G(f3.GetNumberOfEventIndicators(c, &n)); if (g == OK && st == OK) o.i.push_back((int64_t)n); break; }
        case K_N_CS: { size_t n = paint.caller; G(f3.GetNumberOfContinuousStates(c, &n)); if (g == OK && st == OK) o.i.push_back((int64_t)n); break; }
        case K_ENTER_STEP: G(f3.EnterStepMode(c)); break;
        case K_DOSTEP:
            if (v3) {
                bool pb = paint.caller != 0; bool b[3] = {pb, pb, pb}; double t = pb ? -1 : 0;
                G(f3.DoStep(c, op.t, op.h, op.a == 0, &b[0], &b[1], &b[2], &t));
                if (g == OK && st == OK) { for (bool x : b) o.i.push_back(x); o.d.push_back(t); }
            } else G(f2.DoStep(c, op.t, op.h, op.a == 0));
            break;
        case K_GET_OUTDER: {
            const size_t n = op.n >= 0 ? (size_t)op.n : nvr;
            Buf<double> b(n); Buf<int> ord(nvr); for (size_t i = 0; i < nvr; i++) ord.p[i] = op.i.size() > i ? (int)op.i[i] : 1;
            int *op_ = (op.null & 4) ? nullptr : ord.p; double *vp = (op.null & 2) ? nullptr : b.p;
            if (v3) G(f3.GetOutputDerivatives(c, vrp, nvr, op_, vp, n)); else G(f2.GetRealOutputDerivatives(c, vrp, nvr, op_, vp));
            over = !b.ok() || !ord.ok();
            if (g == OK && st == OK) for (size_t i = 0; i < std::min(n, nvr); i++) o.d.push_back(b.p[i]);
            break;
        }
        case K_ACTIVATE: G(f3.ActivateModelPartition(c, op.vr[0], op.t)); break;
        case K_GET_INTERVAL: {
            Buf<double> b(nvr); Buf<fmi3IntervalQualifier> q(nvr);
            for (size_t i = 0; i < nvr; i++) b.p[i] = -1;
            G(f3.GetIntervalDecimal(c, vrp, nvr, b.p, q.p)); over = !b.ok() || !q.ok();
            if (g == OK && st == OK) for (size_t i = 0; i < nvr; i++) { o.i.push_back(q.p[i]); o.d.push_back(b.p[i]); }
            break;
        }
        case K_STATUS: {
            fmi2StatusKind kd = (fmi2StatusKind)op.b; fmi2Status sv = fmi2OK; double dv = -1; int iv = 7; fmi2String sv2 = nullptr;
            if (op.a == 0) G(f2.GetStatus(c, kd, &sv)); else if (op.a == 1) G(f2.GetRealStatus(c, kd, &dv)); else if (op.a == 2) G(f2.GetIntegerStatus(c, kd, &iv));
            else if (op.a == 3) G(f2.GetBooleanStatus(c, kd, &iv)); else G(f2.GetStringStatus(c, kd, &sv2));
            if (g == OK && st == OK) { if (op.a == 1) o.d.push_back(dv); if (op.a == 3) o.i.push_back(iv); }
            break;
        }
        case K_CANCEL: G(f2.CancelStep(c)); break;
        case K_SET_INDER: { int one = 1; double z = 0; uint32_t v = 0; G(f2.SetRealInputDerivatives(c, &v, 1, &one, &z)); break; }
        case K_NOTIMPL: {
            size_t n = 0; uint32_t v = 1; double dd = 0; fmi3UInt64 u = 0; fmi3UInt64 u2 = 0; fmi3IntervalQualifier q; fmi3DependencyKind dk; size_t z0 = 0, z1 = 0;
            switch (op.a) {
                case 0: G(f3.GetNumberOfVariableDependencies(c, 1, &n)); break;
                case 1: G(f3.GetVariableDependencies(c, 1, &z0, &v, &z1, &dk, 1)); break;
                case 2: G(f3.GetIntervalFraction(c, &v, 1, &u, &u2, &q)); break;
                case 3: G(f3.GetShiftDecimal(c, &v, 1, &dd)); break;
                case 4: G(f3.GetShiftFraction(c, &v, 1, &u, &u2)); break;
                case 5: G(f3.SetIntervalDecimal(c, &v, 1, &dd)); break;
                case 6: G(f3.SetIntervalFraction(c, &v, 1, &u, &u2)); break;
                case 7: G(f3.SetShiftDecimal(c, &v, 1, &dd)); break;
                case 8: G(f3.SetShiftFraction(c, &v, 1, &u, &u2)); break;
                default: G(f3.EvaluateDiscreteStates(c)); break;
            }
            break;
        }
        case K_FREE: g = guarded([&] { if (v3) f3.FreeInstance(c); else f2.FreeInstance(c); }); st = OK; if (op.who >= 0) w.inst[op.who] = nullptr; break;
        case K_INSTANTIATE: st = instantiate(op.who) ? OK : ERROR; break;
        default: die("unknown op");
    }
    if (g != OK) { o = Out(); o.st = g; return o; }
    if (over) { o = Out(); o.st = OVERRUN; return o; }
    o.st = st;
    return o;
}

// ------------------------------------------------------------------ variables
std::vector<VarDef> varsOf(const std::string &m, int ver) {
    if (m == "BouncingBall") return {{0, "time", F64}, {1, "h", F64}, {2, "der(h)", F64}, {3, "v", F64}, {4, "der(v)", F64}, {5, "g", F64}, {6, "e", F64}, {7, "v_min", F64}};
    if (m == "Dahlquist") return {{0, "time", F64}, {1, "x", F64}, {2, "der(x)", F64}, {3, "k", F64}};
    if (m == "VanDerPol") return {{0, "time", F64}, {1, "x0", F64}, {2, "der(x0)", F64}, {3, "x1", F64}, {4, "der(x1)", F64}, {5, "mu", F64}};
    if (m == "Stair") return {{0, "time", F64}, {1, "counter", I32}};
    if (m == "Resource") return {{0, "time", F64}, {1, "y", I32}};
    if (m == "Roberts") return {{0, "time", F64}, {1, "dae", BOOL}, {2, "y1", F64}, {3, "der(y1)", F64}, {4, "y2", F64}, {5, "der(y2)", F64}, {6, "y3", F64}, {7, "y3_nominal", F64}, {8, "r", F64}, {9, "g1", F64}, {10, "g2", F64}};
    if (m == "Clocks") return {{0, "time", F64}, {2001, "inClock1Ticks", I32}, {2002, "inClock2Ticks", I32}, {2003, "inClock3Ticks", I32}, {2004, "totalInClockTicks", I32}, {2005, "result2", I32}, {2006, "input2", I32}, {2007, "output3", I32}};
    if (m == "StateSpace") return {{0, "time", F64}, {1, "m", U64}, {2, "n", U64}, {3, "r", U64}, {4, "A", F64}, {5, "B", F64}, {6, "C", F64}, {7, "D", F64}, {8, "x0", F64}, {9, "u", F64}, {10, "y", F64}, {11, "x", F64}, {12, "der(x)", F64}};
    if (m == "Feedthrough") {
        if (ver == 3) return {{0, "time", F64}, {1, "f32ci", F32}, {2, "f32co", F32}, {3, "f32di", F32}, {4, "f32do", F32}, {5, "fixed", F64}, {6, "tunable", F64}, {7, "f64ci", F64}, {8, "f64co", F64}, {9, "f64di", F64}, {10, "f64do", F64},
            {11, "i8i", I8}, {12, "i8o", I8}, {13, "u8i", U8}, {14, "u8o", U8}, {15, "i16i", I16}, {16, "i16o", I16}, {17, "u16i", U16}, {18, "u16o", U16}, {19, "i32i", I32}, {20, "i32o", I32}, {21, "u32i", U32}, {22, "u32o", U32},
            {23, "i64i", I64}, {24, "i64o", I64}, {25, "u64i", U64}, {26, "u64o", U64}, {27, "bi", BOOL}, {28, "bo", BOOL}, {29, "si", STR}, {30, "so", STR}, {31, "bini", BIN}, {32, "bino", BIN}, {33, "ei", I64}, {34, "eo", I64}};
        return {{0, "time", F64}, {5, "fixed", F64}, {6, "tunable", F64}, {7, "f64ci", F64}, {8, "f64co", F64}, {9, "f64di", F64}, {10, "f64do", F64}, {19, "i32i", I32}, {20, "i32o", I32}, {27, "bi", BOOL}, {28, "bo", BOOL}, {29, "si", STR}, {30, "so", STR}, {33, "ei", I32}, {34, "eo", I32}};
    }
    die("unknown model %s", m.c_str());
}

// ------------------------------------------------------------------ report
void Report::violation(const std::string &what, const std::string &artefact) {
    violations++;
    if (violations > 3) return;
    static int no = 0;
    std::string path = outdir + strf("/%s-%d-%d.txt", prop.c_str(), (int)getpid(), no++);
    FILE *f = fopen(path.c_str(), "w");
    if (f) { fprintf(f, "property %s\nwhat %s\n%s", prop.c_str(), what.c_str(), artefact.c_str()); fclose(f); }
    if (firstReplay.empty()) { firstReplay = path; firstWhat = what; }
    printf("counterexample: %s\n  replay file: %s\n", what.c_str(), path.c_str()); fflush(stdout);
}

// ------------------------------------------------------------------ workers
static void putS(std::string &b, const std::string &s) { uint32_t n = (uint32_t)s.size(); b.append((char *)&n, 4); b += s; }
static void put8(std::string &b, uint64_t v) { b.append((char *)&v, 8); }
static uint64_t get8(const char *&p) { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
static std::string getS(const char *&p) { uint32_t n; memcpy(&n, p, 4); p += 4; std::string s(p, n); p += n; return s; }
void runJobs(std::vector<Job> jobs, int workers, int timeout_s) {
    if (const char *only = getenv("MC_ONLY")) { std::vector<Job> some; for (auto &j : jobs) if (j.name.find(only) != std::string::npos) some.push_back(j); jobs = some; }   // for development
    struct W { pid_t pid; int fd; size_t job; std::string buf; double start; };
    std::vector<W> ws; size_t next = 0; bool failed = false; std::string failWhat;
    bool debug = getenv("MC_DEBUG") != nullptr;
    const double limit = getenv("MC_LIMIT") ? atof(getenv("MC_LIMIT")) : thorough ? 760 : 560, end = processStart + limit;
    timeout_s = std::max(timeout_s, (int)limit + 40);
    while (next < jobs.size() || !ws.empty()) {
        while (next < jobs.size() && (int)ws.size() < workers && !(R.violations && !getenv("MC_ALL"))) {
            int fd[2]; if (pipe(fd)) die("pipe");
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid < 0) die("fork");
            if (pid == 0) {
                close(fd[0]);
                Report base = R; R = Report(); R.prop = base.prop; R.tier = base.tier; R.seed = base.seed; R.outdir = base.outdir;
                double t0 = nowS();
                installSignals(); jobCalls = jobStates = 0;
                jobEnd = t0 + std::max(1.0, std::min(end - t0, 3 * (end - t0) * workers / (double)(jobs.size() - next)));
                try { jobs[next].run(); }
                catch (Overdue &) { R.exhaustive = false; R.extra["jobs_cut_short"]++; if (!R.transitions) R.transitions = jobCalls; if (!R.states) R.states = jobStates; }
                if (debug) fprintf(stderr, "[job] %s: %.1f s, states %llu transitions %llu\n", jobs[next].name.c_str(), nowS() - t0, (unsigned long long)R.states, (unsigned long long)R.transitions);
                std::string b; put8(b, R.states); put8(b, R.transitions); put8(b, R.traces); put8(b, R.evaluations); put8(b, R.distinct); put8(b, R.exhaustive); put8(b, (uint64_t)R.violations);
                putS(b, R.firstReplay); putS(b, R.firstWhat); put8(b, R.extra.size()); for (auto &e : R.extra) { putS(b, e.first); put8(b, e.second); }
                put8(b, R.samples.size()); for (auto &s : R.samples) putS(b, s);
                put8(b, 0x600DD00Dull);
                size_t off = 0; while (off < b.size()) { ssize_t k = write(fd[1], b.data() + off, b.size() - off); if (k <= 0) _exit(2); off += (size_t)k; }
                close(fd[1]); fflush(stdout); _exit(0);
            }
            close(fd[1]); ws.push_back({pid, fd[0], next, "", nowS()}); next++;
        }
        if (ws.empty()) break;
        std::vector<struct pollfd> pf; for (auto &x : ws) pf.push_back({x.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        for (size_t i = 0; i < ws.size();) {
            bool done = false; char tmp[65536];
            if (pf[i].revents & (POLLIN | POLLHUP)) { ssize_t k = read(ws[i].fd, tmp, sizeof tmp); if (k > 0) ws[i].buf.append(tmp, (size_t)k); else done = true; }
            if (!done && nowS() - ws[i].start > timeout_s) { kill(ws[i].pid, SIGKILL); failed = true; failWhat = "timeout in " + jobs[ws[i].job].name; done = true; }
            if (done) {
                int stt = 0; waitpid(ws[i].pid, &stt, 0); close(ws[i].fd);
                const std::string &b = ws[i].buf;
                uint64_t tail = 0; if (b.size() >= 8) memcpy(&tail, b.data() + b.size() - 8, 8);
                if (tail != 0x600DD00Dull) { failed = true; failWhat += strf(" worker '%s' ended abnormally (status %x)", jobs[ws[i].job].name.c_str(), stt); }
                else {
                    const char *p = b.data();
                    R.states += get8(p); R.transitions += get8(p); R.traces += get8(p); R.evaluations += get8(p); R.distinct += get8(p); if (!get8(p)) R.exhaustive = false;
                    R.violations += (int)get8(p); std::string fr = getS(p), fw = getS(p); if (R.firstReplay.empty()) { R.firstReplay = fr; R.firstWhat = fw; }
                    uint64_t n = get8(p); while (n--) { std::string k = getS(p); uint64_t v = get8(p); if (k.rfind("max_", 0) == 0) R.extra[k] = std::max(R.extra[k], v); else R.extra[k] += v; }
                    n = get8(p); while (n--) { std::string s = getS(p); if (R.samples.size() < 12) R.samples.push_back(s); }
                }
                ws.erase(ws.begin() + (long)i); pf.erase(pf.begin() + (long)i);
            } else i++;
        }
    }
    if (failed && !R.violations) die("%s", failWhat.c_str());
}
// known-findings.txt: a line "known: <what> ..." is a recorded defect, all other lines have no effect
bool knownFinding(const std::string &what) {
    const char *f = getenv("MC_KNOWN"); if (!f) return false;
    FILE *fp = fopen(f, "r"); if (!fp) return false;
    char line[4096]; bool hit = false; while (fgets(line, sizeof line, fp)) if (strncmp(line, ("known: " + what).c_str(), what.size() + 7) == 0) hit = true;
    fclose(fp); return hit;
}
