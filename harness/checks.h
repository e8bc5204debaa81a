#pragma once
#include "engine.h"
typedef void (*CheckFn)();
#define FOR_ALL_CHECKS(X) X(C01) X(C02) X(C03) X(C04) X(C05) X(C06) X(C07) X(C08) X(C09) X(C10) X(C11) X(C12) X(C13) X(C14) X(C15) X(C16) X(C17) \
    X(C18) X(C19) X(C20) X(C21) X(C22) X(C23) X(C24) X(C25) X(C26) X(C27) X(C28) X(C29) X(C30) X(C31) X(C32) X(C33) X(C34) X(C35) X(C36) X(C37) X(C38) X(C39) X(C40) X(C41)
#define X(n) void check##n();
FOR_ALL_CHECKS(X)
#undef X
// stimuli shared by several checks
double stopFor(ModelId m);                                     // a short experiment that still contains events
void modeAlphabet(const Ref &r, std::vector<Op> &a);           // every function of the API, one representative call each
// executes the reads and compares them with the reference; "" or what differs (ops go to extra)
std::string compareReads(Sys &s, const Ref &r, std::vector<Op> &extra, double tol = 1e-9);
std::vector<Op> setOps(const Ref &r, int nvals);               // one set call per settable variable and value (nvals each)
std::vector<Op> toMode(const Config &c, Mode m, double start = 0, double stop = NAN);   // legal path from Instantiated
void flowAlphabet(const Ref &r, std::vector<Op> &a, bool all = false);    // calls that change the mode
void enterInit(const Config &c, std::vector<Op> &a, double start, double stop);
inline Out applyRef(Ref &r, const Op &o) { return r.apply(o); }
