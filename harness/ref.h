// Reference model: what the FMUs have to do, written from the FMI standard, the model descriptions and the
// README of the models. Plain data, compared in lockstep with the real binaries.
#pragma once
#include "mc.h"

enum Mode { M_INST, M_CONFIG, M_INIT, M_EVENT, M_CTM, M_STEP, M_CLOCK, M_RECONF, M_TERM, NMODES };
extern const char *modeName[];
enum Cell { ACCEPT, REJECT, UNSPEC };
enum ModelId { BB, DQ, VDP, STAIR, RES, ROB, CLOCKS, SS, FT };
ModelId modelId(const std::string &m);
double solverStep(ModelId m);
extern const char *modelNames[];     // by ModelId
std::vector<int> versionsOf(ModelId m);
bool hasEventSupport(ModelId m);

struct Ref {
    int32_t model, ver, iface, eventMode, early;
    int32_t mode;
    int32_t setup;               // FMI2: SetupExperiment done
    double start, stop, time, nextCP;
    int64_t n;                   // internal steps since start
    int32_t terminate, valuesChanged, nextDef;
    double nextT;
    int32_t pending;             // an event was reported to the importer and is not handled yet
    int32_t ended;               // termination was requested
    int32_t prev;                // sign of the event indicator before the next internal step (1: > 0)
    int32_t resChar;             // Resource: first byte of the file, -1: cannot be read
    // continuous models
    double p[4];                 // BB: h v g e; DQ: x k; VDP: x0 x1 mu; ROB: y1 y2 y3
    int32_t dae;
    int32_t counter;             // Stair
    // Clocks
    int32_t ticks[3], total, result2, input2, output3, outClock, q3;
    // StateSpace
    int64_t dim[3];              // m n r
    double A[5][5], B[5][5], C[5][5], D[5][5], x0[5], u[5], x[5];
    // Feedthrough
    float f32[2]; double f64[4]; // f64: fixed tunable continuous discrete
    int64_t in[11];              // by type I8..U64, BOOL index, enumeration
    uint8_t str[130]; int32_t nstr; uint8_t bin[130]; int32_t nbin;

    void init(const Config &c);  // as freshly instantiated
    void startValues();
    Cell permit(K k) const;      // may this function be called now
    Cell permitGet(Ty ty) const;
    Cell permitSet(Ty ty) const;
    Cell permitSetVar(Ty ty, uint32_t vr) const;         // may this variable be set now (given the function may)
    bool getVar(Ty ty, uint32_t vr, Out &o) const;       // false: no such variable of that type
    long size(Ty ty, uint32_t vr) const;                 // number of values, -1: no such variable
    Out apply(const Op &op);     // lockstep
    Out applyCall(const Op &op); double magnitude(int what, uint32_t k) const;
    void euler();                // one internal step without events
    bool updateEvent();          // false: error
    int indicator() const;       // sign of the event indicator (BouncingBall): 1 if > 0
    size_t nx() const, nz() const;
    void states(double *x) const; void setStates(const double *x); void ders(double *dx) const; void indicators(double *z) const;
    double partial(uint32_t unknown, uint32_t known) const;
    Out doStep(const Op &op);
    Out err();
};
H128 hashRef(const Ref &r);
extern std::vector<Ref> *internalSteps;       // if set, receives the state at the end of each internal step
std::vector<Op> readAll(const Ref &r);       // ops that read everything readable in this mode
