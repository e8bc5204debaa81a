// Explicit-state exploration of the real FMU binaries: shared definitions.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <chrono>
extern "C" {
#include "fmi2FunctionTypes.h"
#include "fmi3FunctionTypes.h"
}
#include "functions.h"

// ------------------------------------------------------------------ arena: memory of the code under test
namespace arena {
extern bool on;                 // allocations go to the arena
extern uint64_t allocs;         // allocation attempts while on (since last zero())
extern int64_t failAt;          // fail the allocation with this index (-1: none)
extern int64_t failFrom;        // fail all allocations from this index on (-1: none)
extern uint8_t fillByte;        // content of malloc'ed memory
extern uint8_t GAP;
void setGap(uint8_t);           // content of everything that is not a live block
extern bool badFree;            // free of an address that is not live
extern int openFiles;           // files opened minus closed by the code under test
void init();
size_t live();                  // number of live blocks
size_t liveBytes();
std::string liveDump();
void reset();                   // forget everything
bool intact(std::string &why);  // red zones and freed memory untouched
void save(std::string &out);
void load(const char *p, size_t n);
bool owns(const void *p);
void canon(const void *root, std::string &out, uint64_t (*map)(uint64_t));
}

// what uninitialised memory contains: two runs with different paint may not be distinguishable
struct Paint { uint8_t fill, gap, caller, stack; bool on; };
extern Paint paint;
void setPaint(const Paint &p);

// ------------------------------------------------------------------ types
enum Ty { F32, F64, I8, U8, I16, U16, I32, U32, I64, U64, BOOL, STR, BIN, CLK, NTY };
extern const char *tyName[];
enum Iface { ME = 0, CS = 1, SE = 2 };
enum Status { OK = 0, WARNING, DISCARD, ERROR, FATAL, PENDING, CRASH = 90, HANG = 91 };
const char *stName(int s);

enum K { K_SETUP, K_ENTER_INIT, K_EXIT_INIT, K_TERMINATE, K_RESET, K_DEBUG, K_GET, K_SET, K_GETCLOCK, K_SETCLOCK,
         K_FS_GET, K_FS_SET, K_FS_FREE, K_FS_SIZE, K_FS_SER, K_FS_DES, K_DIRDER, K_ADJDER, K_ENTER_CONFIG, K_EXIT_CONFIG,
         K_ENTER_EVENT, K_UPDATE, K_ENTER_CTM, K_COMPLETED, K_SET_TIME, K_SET_STATES, K_GET_DERS, K_GET_EI, K_GET_STATES,
         K_GET_NOMINALS, K_N_EI, K_N_CS, K_ENTER_STEP, K_DOSTEP, K_GET_OUTDER, K_ACTIVATE, K_GET_INTERVAL, K_STATUS,
         K_CANCEL, K_SET_INDER, K_NOTIMPL, K_FREE, K_INSTANTIATE, K_NKINDS };
extern const char *kName[];

struct Op {
    K k = K_RESET;
    int who = 0;                    // instance index (-1: NULL instance)
    Ty ty = F64;
    std::vector<uint32_t> vr;       // value references (unknowns)
    std::vector<uint32_t> vr2;      // knowns
    std::vector<double> d;
    std::vector<int64_t> i;
    std::vector<std::string> s;
    double t = 0, h = 0;
    bool f = false;
    int a = 0, b = 0;
    long n = -1;                    // explicit number of values (-1: natural)
    int null = 0;                   // bit 0: vr NULL, bit 1: values NULL, bit 2: sizes/outputs NULL
    std::string text() const;
    static Op parse(const std::string &line);
};

struct Out {
    int st = OK;
    std::vector<double> d;
    std::vector<int64_t> i;
    std::vector<std::string> s;
    std::vector<double> mag;        // reference only: magnitude of the terms that each of d is the sum of (empty: of the value itself)
    bool skip = false;              // reference only: behaviour not specified, do not take this transition
    bool leaf = false;              // reference only: status specified, state afterwards not
    std::string text() const;
};
bool sameDouble(double a, double b, double tol);
bool sameOut(const Out &a, const Out &b, double tol, std::string &why);

struct CbLog { int who; int status; std::string category; std::string name, msg; };          // log message
struct CbInter { int who; double time; bool setReq, getAllowed, finished, canEarly; Out probe; };

struct Config {
    std::string model;
    int ver = 3;
    Iface iface = CS;
    bool eventMode = false, early = false;
    bool logging = false;
    bool inter = false;             // pass an intermediate-update callback
    std::string resource;           // resource location
    std::string text() const;
    static Config parse(const std::string &);
};

// ------------------------------------------------------------------ library under test
struct Lib {
    std::string model; int ver; std::string path; void *h = nullptr;
    std::vector<std::pair<char *, size_t>> segs;   // writable segments
    struct {
#define X(n) fmi3##n##TYPE *n = nullptr;
        F3LIST(X)
#undef X
    } f3;
    struct {
#define X(n) fmi2##n##TYPE *n = nullptr;
        F2LIST(X)
#undef X
    } f2;
};
bool knownFinding(const std::string &what);   // listed as such in known-findings.txt
Lib *loadFile(const std::string &path, const std::string &model, int ver, const std::string &prefix, std::string &missing);   // NULL if it cannot be loaded or lacks a function
Lib *loadLib(const std::string &dir, const std::string &model, int ver);   // aborts the check (exit 2) if it cannot be loaded

// ------------------------------------------------------------------ world: everything that is part of a state
enum { NINST = 3, NSLOT = 3 };
struct World {
    void *inst[NINST] = {0, 0, 0};
    void *slot[NSLOT] = {0, 0, 0};
    std::string ser[NSLOT];
};
struct Image { std::string bytes; };                    // complete snapshot: world + arena + library data
struct H128 { uint64_t a, b; bool operator==(const H128 &o) const { return a == o.a && b == o.b; } };
struct H128h { size_t operator()(const H128 &h) const { return h.a; } };
H128 hashBytes(const void *p, size_t n, uint64_t seed = 0);
inline H128 hashStr(const std::string &s, uint64_t seed = 0) { return hashBytes(s.data(), s.size(), seed); }

struct Sys {
    Lib *lib = nullptr;
    Config cfg;
    World w;
    // callback records, cleared by exec()
    std::vector<CbLog> logs;
    std::vector<CbInter> inters;
    bool earlyAsk = false;                              // what the intermediate update callback answers
    std::function<void(CbInter &)> onInter;             // called inside the intermediate update callback
    std::function<void()> onClockUpdate, onLock, onUnlock;   // in the notification, before locking, after unlocking
    int clockUpdates = 0, locks = 0, unlocks = 0, maxLock = 0, lockDepth = 0;
    bool envOk = true;                                  // callbacks received the right environment
    uint64_t calls = 0;
    bool nullLogger = false, visible = false, noFunctions = false;   // noFunctions: FMI2 without callback functions
    bool noMemory2 = false;                             // FMI2 callback functions without memory functions
    std::vector<uint32_t> required;                     // FMI3: required intermediate variables
    bool suffixNames = true;                            // instance names differ
    std::string canon(int who);                         // state of one instance independent of addresses, plus library data
    std::string logText() const;

    void open(Lib *l, const Config &c);
    void fresh();                                       // drop everything (arena reset, library data back to load state)
    bool instantiate(int who, const Config *c = nullptr, const char *name = "inst", const char *token = nullptr);
    Out exec(const Op &op);                             // guarded call
    void snap(Image &im);
    void restore(const Image &im);
    // guarded raw call of anything
    int guarded(const std::function<void()> &f);
    std::vector<std::string> initSegs;
};
extern Sys *curSys;
const char *tokenOf(const std::string &model);

struct VarDef { uint32_t vr; const char *name; Ty ty; };
std::vector<VarDef> varsOf(const std::string &model, int ver);   // readable variables
// read all variables (grouped by type) plus states etc. where allowed: a sequence of ops
std::vector<Op> probeOps(const Config &c);

// ------------------------------------------------------------------ reporting
struct Report {
    std::string prop, tier; int seed = 1;
    std::string outdir;                                  // where replay files go
    uint64_t states = 0, transitions = 0, traces = 0, evaluations = 0, distinct = 0;
    std::map<std::string, uint64_t> extra;
    std::vector<std::string> samples;
    std::vector<std::string> assumptions;
    bool exhaustive = true;
    int violations = 0;
    std::string firstReplay, firstWhat;
    void violation(const std::string &what, const std::string &artefact);
};
extern Report R;

// run jobs in forked workers; each job fills the (fresh) global R; results are merged into R of the parent
extern double processStart; extern uint64_t jobStates;
struct Job { std::string name; std::function<void()> run; };
void runJobs(std::vector<Job> jobs, int workers, int timeout_s);

double nowS();
std::string hex(const std::string &s);
std::string unhex(const std::string &s);
std::string fmtd(double v);
[[noreturn]] void die(const char *fmt, ...);
std::string strf(const char *fmt, ...);

// op builders
Op op(K k);
Op opGet(Ty ty, std::vector<uint32_t> vr);
Op opSetD(Ty ty, std::vector<uint32_t> vr, std::vector<double> d);
Op opSetI(Ty ty, std::vector<uint32_t> vr, std::vector<int64_t> i);
Op opSetS(Ty ty, std::vector<uint32_t> vr, std::vector<std::string> s);
Op opInit(double t, double stop = NAN);      // FMI3 EnterInitializationMode / FMI2 SetupExperiment
Op opStep(double t, double h);
Op opTime(double t);
Op opStates(std::vector<double> x);
Op opN(K k, long n);
extern std::string libDir;                   // directory with the built FMUs
extern bool thorough;
