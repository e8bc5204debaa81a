/* Drives an FMU of the version V directly (mode d), through the importer with the shared library loaded (l) or through
   an importer that was linked with the FMU (s). Every line of the output is one call history: its number, a hash of
   all results, a hash of the calls that the importer logs and the number of messages, or with -v <number> all results of that history.
   drive <mode> <library> <token> <resources> <variables> <interface> <logging> <depth> [-v <number>] */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <dlfcn.h>
#include "FMI2.h"
#include "FMI3.h"

static char mode; static const char *library, *token, *resources; static int iface, logging, depth; static long verbose = -1, number; static void *handle, *comp; static FMIInstance *inst;
static uint64_t hash, calls; static int nMessages; static long actions;
static void add(uint64_t *h, const char *b) {
    if (number == verbose) printf("%s\n", b);
    for (const char *p = b; *p; p++) *h = (*h ^ (unsigned char)*p) * 1099511628211ull;
    *h = (*h ^ 10) * 1099511628211ull;
}
static void out(const char *f, ...) { char b[16384]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); add(&hash, b); }
static void mask(char *s) {                     /* addresses */
    char *w = s;
    while (*s) { if (s[0] == '0' && s[1] == 'x') { while (s[0] == '0' && s[1] == 'x') s += 2; if (!strncmp(s, "(nil)", 5)) s += 5; else while ((*s >= '0' && *s <= '9') || (*s >= 'a' && *s <= 'f')) s++; *w++ = '@'; } else if (!strncmp(s, "(nil)", 5)) { s += 5; *w++ = '@'; } else *w++ = *s++; }
    *w = 0;
}
static void message(int status, const char *category, const char *text) { nMessages++; out("  message %d %s: %s", status, category ? category : "(null)", text ? text : "(null)"); }
static void importerMessage(FMIInstance *i, FMIStatus status, const char *category, const char *text) { (void)i; message((int)status, category, text); }
static void functionCall(FMIInstance *i, FMIStatus status, const char *text) { char b[16000]; (void)i; snprintf(b, sizeof b, "  call %d %s", (int)status, text); mask(b); add(&calls, b); }

enum { F32, F64, I8, U8, I16, U16, I32, U32, I64, U64, BO, ST, BI, CK, NTYPES };
static struct { int type; uint32_t vr; int n, set, state; } vars[200]; static int nVars, nStates, nIndicators; static double stepSize; static uint32_t unknown1, known1, unknown2, partitions[8]; static int nPartitions;
static int configuring; static double now; static void *state; static unsigned char *bytes; static size_t nBytes; static int round_;

#if V == 3
#define CALL(f, ...) (mode == 'd' ? (int)((fmi3##f##TYPE *)dlsym(handle, "fmi3" #f))(comp, ##__VA_ARGS__) : (int)FMI3##f(inst, ##__VA_ARGS__))
static void directMessage(void *e, fmi3Status s, fmi3String c, fmi3String m) { (void)e; message((int)s, c, m); }
static void update(void *e, double t, bool a, bool b, bool c, bool d, bool *er, double *et) { (void)e; *er = false; *et = 0; out("  intermediate %.17g %d%d%d%d", t, a, b, c, d); }
static void clockUpdate(void *e) { (void)e; out("  clock update"); }
static void lock(void) { out("  lock"); }
static void unlock(void) { out("  unlock"); }
static void create(void) {
    int made;
    if (mode == 'd') {
        if (iface == 0) comp = ((fmi3InstantiateModelExchangeTYPE *)dlsym(handle, "fmi3InstantiateModelExchange"))("one", token, resources, false, logging, NULL, directMessage);
        else if (iface <= 2) comp = ((fmi3InstantiateCoSimulationTYPE *)dlsym(handle, "fmi3InstantiateCoSimulation"))("one", token, resources, false, logging, iface == 2, iface == 2, NULL, 0, NULL, directMessage, (fmi3IntermediateUpdateCallback)update);
        else comp = ((fmi3InstantiateScheduledExecutionTYPE *)dlsym(handle, "fmi3InstantiateScheduledExecution"))("one", token, resources, false, logging, NULL, directMessage, clockUpdate, lock, unlock);
        made = comp != NULL;
    } else {
        FMIStatus s = FMIError; inst = FMICreateInstance("one", importerMessage, functionCall);
        if (!inst) { out("no instance"); return; }
        if (mode == 'l' && FMILoadPlatformBinary(inst, library) != FMIOK) { out("not loaded"); return; }
        if (iface == 0) s = FMI3InstantiateModelExchange(inst, token, resources, false, logging);
        else if (iface <= 2) s = FMI3InstantiateCoSimulation(inst, token, resources, false, logging, iface == 2, iface == 2, NULL, 0, (fmi3IntermediateUpdateCallback)update);
        else s = FMI3InstantiateScheduledExecution(inst, token, resources, false, logging, NULL, NULL, clockUpdate, lock, unlock);
        made = s == FMIOK;
    }
    out("instantiated %d", made);
}
static void destroy(void) {
    if (mode == 'd') ((fmi3FreeInstanceTYPE *)dlsym(handle, "fmi3FreeInstance"))(comp);
    else { FMI3FreeInstance(inst); FMIFreeInstance(inst); inst = NULL; }
}
#define READ(T, ctype, fmt) { ctype v[300] = {0}; int s = CALL(Get##T, &vars[k].vr, 1, v, (size_t)vars[k].n); out("%u %d", vars[k].vr, s); if (s == 0) for (int j = 0; j < vars[k].n; j++) out(fmt, v[j]); } break
#define WRITE(T, ctype, expr) { ctype v[300]; for (int j = 0; j < vars[k].n; j++) v[j] = (ctype)(expr); out("set %u %d", vars[k].vr, CALL(Set##T, &vars[k].vr, 1, v, (size_t)vars[k].n)); } break
static void readVariables(void) {
    for (int k = 0; k < nVars; k++) switch (vars[k].type) {
        case F32: READ(Float32, float, "%.9g"); case F64: READ(Float64, double, "%.17g"); case I8: READ(Int8, int8_t, "%d"); case U8: READ(UInt8, uint8_t, "%d"); case I16: READ(Int16, int16_t, "%d");
        case U16: READ(UInt16, uint16_t, "%d"); case I32: READ(Int32, int32_t, "%d"); case U32: READ(UInt32, uint32_t, "%u"); case I64: READ(Int64, int64_t, "%ld"); case U64: READ(UInt64, uint64_t, "%lu"); case BO: READ(Boolean, bool, "%d");
        case ST: { const char *v[300] = {0}; int s = CALL(GetString, &vars[k].vr, 1, v, (size_t)vars[k].n); out("%u %d %s", vars[k].vr, s, s == 0 ? v[0] : ""); } break;
        case BI: { const uint8_t *v[1] = {0}; size_t z[1] = {0}; int s = CALL(GetBinary, &vars[k].vr, 1, z, v, 1); out("%u %d %zu", vars[k].vr, s, z[0]); if (s == 0) for (size_t j = 0; j < z[0]; j++) out("%d", v[0][j]); } break;
        case CK: { bool v[1] = {0}; double i[1] = {0}; fmi3IntervalQualifier q[1] = {0}; int s = CALL(GetClock, &vars[k].vr, 1, v); out("%u %d %d", vars[k].vr, s, v[0]); if (vars[k].set) { s = CALL(GetIntervalDecimal, &vars[k].vr, 1, i, q); out("%d %.17g %d", s, i[0], (int)q[0]); } } break;
    }
}
static void writeVariables(int structural) {
    round_++;
    for (int k = 0; k < nVars; k++) if (vars[k].set == (structural ? 2 : 1)) switch (vars[k].type) {
        case F32: WRITE(Float32, float, 0.25 * (round_ + j)); case F64: WRITE(Float64, double, 0.25 * (round_ + j)); case I8: WRITE(Int8, int8_t, round_ + j); case U8: WRITE(UInt8, uint8_t, round_ + j); case I16: WRITE(Int16, int16_t, round_ + j);
        case U16: WRITE(UInt16, uint16_t, round_ + j); case I32: WRITE(Int32, int32_t, round_ % 9); case U32: WRITE(UInt32, uint32_t, round_ + j); case I64: WRITE(Int64, int64_t, 1 + round_ % 2); case U64: WRITE(UInt64, uint64_t, round_ % 4); case BO: WRITE(Boolean, bool, round_ & 1);
        case ST: { const char *v[1] = {round_ & 1 ? "text" : ""}; out("set %u %d", vars[k].vr, CALL(SetString, &vars[k].vr, 1, v, 1)); } break;
        case BI: { const uint8_t b[3] = {1, 2, (uint8_t)round_}; const uint8_t *v[1] = {b}; size_t z[1] = {(size_t)(round_ % 4)}; out("set %u %d", vars[k].vr, CALL(SetBinary, &vars[k].vr, 1, z, v, 1)); } break;
    }
}
static void readAll(void) {
    readVariables(); double v[64] = {0};
    size_t n = 0; out("nx %d", CALL(GetNumberOfContinuousStates, &n)); out("%zu", n); n = 0; out("nz %d", CALL(GetNumberOfEventIndicators, &n)); out("%zu", n);
    if (iface == 0) {
        int s = CALL(GetContinuousStates, v, (size_t)nStates); out("x %d", s); if (!s) for (int j = 0; j < nStates; j++) out("%.17g", v[j]);
        s = CALL(GetContinuousStateDerivatives, v, (size_t)nStates); out("dx %d", s); if (!s) for (int j = 0; j < nStates; j++) out("%.17g", v[j]);
        s = CALL(GetNominalsOfContinuousStates, v, (size_t)nStates); out("nominal %d", s); if (!s) for (int j = 0; j < nStates; j++) out("%.17g", v[j]);
        s = CALL(GetEventIndicators, v, (size_t)nIndicators); out("z %d", s); if (!s) for (int j = 0; j < nIndicators; j++) out("%.17g", v[j]);
    }
}
enum { NACT = 30 };
static void act(int a) {
    actions++;
    out("action %d", a); int leave = configuring; if (a < 10) configuring = a == 0;
    switch (a) {
    case 0: out("%d", CALL(EnterConfigurationMode)); break;
    case 1: if (leave) out("%d", CALL(ExitConfigurationMode)); break;      /* the importer refuses this call itself in all other modes */
    case 2: out("%d", CALL(EnterInitializationMode, true, 1e-4, 0.0, true, 1000.0)); now = 0; break;
    case 3: out("%d", CALL(ExitInitializationMode)); break;
    case 4: out("%d", CALL(EnterEventMode)); break;
    case 5: { bool b[5] = {0}; double t = 0; int s = CALL(UpdateDiscreteStates, b, b + 1, b + 2, b + 3, b + 4, &t); out("%d", s); if (!s) out("%d%d%d%d%d %.17g", b[0], b[1], b[2], b[3], b[4], b[4] ? t : 0); break; }
    case 6: out("%d", CALL(EnterContinuousTimeMode)); break;
    case 7: out("%d", CALL(EnterStepMode)); break;
    case 8: out("%d", CALL(Terminate)); break;
    case 9: out("%d", CALL(Reset)); break;
    case 10: now += stepSize; out("%d", CALL(SetTime, now)); break;
    case 11: { double x[64]; for (int j = 0; j < nStates; j++) x[j] = 0.5 * (j + 1) - 0.125 * round_; out("%d", CALL(SetContinuousStates, x, (size_t)nStates)); break; }
    case 12: { bool e = false, t = false; int s = CALL(CompletedIntegratorStep, true, &e, &t); out("%d", s); if (!s) out("%d%d", e, t); break; }
    case 13: case 14: case 15: { bool e = false, t = false, r = false; double l = 0, h = a == 14 ? 2.5 * stepSize : a == 15 ? -stepSize : stepSize; int s = CALL(DoStep, now, h, true, &e, &t, &r, &l); out("%d", s); if (!s) { out("%d%d%d %.17g", e, t, r, l); now = r ? l : now + h; } break; }
    case 16: if (nPartitions > 0) out("%d", CALL(ActivateModelPartition, partitions[round_ % nPartitions], now)); else out("%d", CALL(ActivateModelPartition, 1001, now)); break;
    case 17: writeVariables(0); break;
    case 18: writeVariables(1); break;
    case 19: { void *p = state; int s = CALL(GetFMUState, &p); out("%d %d", s, p != NULL); if (!s) state = p; break; }
    case 20: if (state) out("%d", CALL(SetFMUState, state)); break;
    case 21: if (state) { size_t n = 0; int s = CALL(SerializedFMUStateSize, state, &n); out("%d %zu", s, n); free(bytes); bytes = malloc(n + 1); nBytes = n; out("%d", CALL(SerializeFMUState, state, bytes, n)); } break;
    case 22: if (bytes) { void *p = NULL; int s = CALL(DeserializeFMUState, bytes, nBytes, &p); out("%d", s); if (!s) { out("%d", CALL(SetFMUState, p)); out("%d", CALL(FreeFMUState, &p)); } } break;
    case 23: if (state) { out("%d", CALL(FreeFMUState, &state)); out("%d", state == NULL); state = NULL; } break;
    case 24: { uint32_t u[2] = {unknown1, unknown2}, k[1] = {known1}; double sd[2] = {1, 2}, r[2] = {0}; int s = CALL(GetDirectionalDerivative, u, 2, k, 1, sd, 1, r, 2); out("%d", s); if (!s) out("%.17g %.17g", r[0], r[1]); s = CALL(GetAdjointDerivative, u, 2, k, 1, sd, 2, r, 1); out("%d", s); if (!s) out("%.17g", r[0]); break; }
    case 25: { uint32_t u[2] = {unknown1, unknown2}; int32_t o[2] = {1, 1}; double r[2] = {0}; int s = CALL(GetOutputDerivatives, u, 2, o, r, 2); out("%d", s); if (!s) out("%.17g %.17g", r[0], r[1]); break; }
    case 26: { const char *c[2] = {"logEvents", "logStatusError"}; out("%d", CALL(SetDebugLogging, true, 2, c)); break; }
    case 27: { const char *c[2] = {"logEvents", "other"}; out("%d", CALL(SetDebugLogging, false, 2, c)); break; }
    case 28: { uint32_t vr = 4711; double v = 0; out("%d", CALL(GetFloat64, &vr, 1, &v, 1)); break; }
    case 29: out("%d", CALL(EvaluateDiscreteStates)); break;
    }
}
static const int toRun[4][6] = {{2, 3, 5, 6, -1}, {2, 3, -1}, {2, 3, 5, 7, -1}, {2, 3, -1}};
#else
#define CALL(f, ...) (mode == 'd' ? (int)((fmi2##f##TYPE *)dlsym(handle, "fmi2" #f))(comp, ##__VA_ARGS__) : (int)FMI2##f(inst, ##__VA_ARGS__))
static void directMessage(fmi2ComponentEnvironment e, fmi2String n, fmi2Status s, fmi2String c, fmi2String m, ...) { char b[8192]; va_list a; (void)e; (void)n; va_start(a, m); vsnprintf(b, sizeof b, m, a); va_end(a); message((int)s, c, b); }
static void create(void) {
    static fmi2CallbackFunctions cb; int made;
    if (mode == 'd') {
        fmi2CallbackFunctions x = {directMessage, calloc, free, NULL, NULL}; memcpy(&cb, &x, sizeof cb);
        comp = ((fmi2InstantiateTYPE *)dlsym(handle, "fmi2Instantiate"))("one", iface == 0 ? fmi2ModelExchange : fmi2CoSimulation, token, resources, &cb, fmi2False, logging); made = comp != NULL;
    } else {
        inst = FMICreateInstance("one", importerMessage, functionCall); if (!inst) { out("no instance"); return; }
        if (mode == 'l' && FMILoadPlatformBinary(inst, library) != FMIOK) { out("not loaded"); return; }
        made = FMI2Instantiate(inst, resources, iface == 0 ? fmi2ModelExchange : fmi2CoSimulation, token, fmi2False, logging) == FMIOK;
    }
    out("instantiated %d", made);
}
static void destroy(void) {
    if (mode == 'd') ((fmi2FreeInstanceTYPE *)dlsym(handle, "fmi2FreeInstance"))(comp);
    else { FMI2FreeInstance(inst); FMIFreeInstance(inst); inst = NULL; }
}
static void readAll(void) {
    double v[64] = {0};
    for (int k = 0; k < nVars; k++) switch (vars[k].type) {
        case F64: { double x = 0; int s = CALL(GetReal, &vars[k].vr, 1, &x); out("%u %d %.17g", vars[k].vr, s, s ? 0 : x); } break;
        case I32: { int x = 0; int s = CALL(GetInteger, &vars[k].vr, 1, &x); out("%u %d %d", vars[k].vr, s, s ? 0 : x); } break;
        case BO: { int x = 0; int s = CALL(GetBoolean, &vars[k].vr, 1, &x); out("%u %d %d", vars[k].vr, s, s ? 0 : x); } break;
        case ST: { const char *x = NULL; int s = CALL(GetString, &vars[k].vr, 1, &x); out("%u %d %s", vars[k].vr, s, s ? "" : x); } break;
    }
    if (iface == 0) {
        int s = CALL(GetContinuousStates, v, (size_t)nStates); out("x %d", s); if (!s) for (int j = 0; j < nStates; j++) out("%.17g", v[j]);
        s = CALL(GetDerivatives, v, (size_t)nStates); out("dx %d", s); if (!s) for (int j = 0; j < nStates; j++) out("%.17g", v[j]);
        s = CALL(GetNominalsOfContinuousStates, v, (size_t)nStates); out("nominal %d", s); if (!s) for (int j = 0; j < nStates; j++) out("%.17g", v[j]);
        s = CALL(GetEventIndicators, v, (size_t)nIndicators); out("z %d", s); if (!s) for (int j = 0; j < nIndicators; j++) out("%.17g", v[j]);
    } else for (int k = 0; k < 4; k++) {
        fmi2Status st = fmi2OK; int i = 0, b = 0; double r = 0; const char *t = NULL; int s = CALL(GetStatus, (fmi2StatusKind)k, &st); out("%d", s); if (!s) out("%d", st);
        s = CALL(GetRealStatus, (fmi2StatusKind)k, &r); out("%d", s); if (!s) out("%.17g", r); s = CALL(GetIntegerStatus, (fmi2StatusKind)k, &i); out("%d", s); if (!s) out("%d", i);
        s = CALL(GetBooleanStatus, (fmi2StatusKind)k, &b); out("%d", s); if (!s) out("%d", b); s = CALL(GetStringStatus, (fmi2StatusKind)k, &t); out("%d", s);
    }
}
enum { NACT = 27 };
static void act(int a) {
    actions++;
    out("action %d", a);
    switch (a) {
    case 0: out("%d", CALL(SetupExperiment, fmi2True, 1e-4, 0.0, fmi2True, 1000.0)); now = 0; break;
    case 1: out("%d", CALL(EnterInitializationMode)); break;
    case 2: out("%d", CALL(ExitInitializationMode)); break;
    case 3: if (iface == 0) out("%d", CALL(EnterEventMode)); break;
    case 4: if (iface == 0) { fmi2EventInfo e = {0}; int s = CALL(NewDiscreteStates, &e); out("%d", s); if (!s) out("%d%d%d%d%d %.17g", e.newDiscreteStatesNeeded, e.terminateSimulation, e.nominalsOfContinuousStatesChanged, e.valuesOfContinuousStatesChanged, e.nextEventTimeDefined, e.nextEventTimeDefined ? e.nextEventTime : 0); } break;
    case 5: if (iface == 0) out("%d", CALL(EnterContinuousTimeMode)); break;
    case 6: out("%d", CALL(Terminate)); break;
    case 7: out("%d", CALL(Reset)); break;
    case 8: if (iface == 0) { now += stepSize; out("%d", CALL(SetTime, now)); } break;
    case 9: if (iface == 0) { double x[64]; for (int j = 0; j < nStates; j++) x[j] = 0.5 * (j + 1) - 0.125 * round_; out("%d", CALL(SetContinuousStates, x, (size_t)nStates)); } break;
    case 10: if (iface == 0) { int e = 0, t = 0; int s = CALL(CompletedIntegratorStep, fmi2True, &e, &t); out("%d", s); if (!s) out("%d%d", e, t); } break;
    case 11: case 12: case 13: if (iface) { double h = a == 12 ? 2.5 * stepSize : a == 13 ? -stepSize : stepSize; int s = CALL(DoStep, now, h, fmi2True); out("%d", s); if (!s) now += h; } break;
    case 14: round_++; for (int k = 0; k < nVars; k++) if (vars[k].set == 1) switch (vars[k].type) {
        case F64: { double x = 0.25 * round_; out("set %d", CALL(SetReal, &vars[k].vr, 1, &x)); } break;
        case I32: { int x = round_ % 9; out("set %d", CALL(SetInteger, &vars[k].vr, 1, &x)); } break;
        case BO: { int x = round_ & 1; out("set %d", CALL(SetBoolean, &vars[k].vr, 1, &x)); } break;
        case ST: { const char *x = round_ & 1 ? "text" : ""; out("set %d", CALL(SetString, &vars[k].vr, 1, &x)); } break;
    } break;
    case 15: { void *p = state; int s = CALL(GetFMUstate, &p); out("%d %d", s, p != NULL); if (!s) state = p; break; }
    case 16: if (state) out("%d", CALL(SetFMUstate, state)); break;
    case 17: if (state) { size_t n = 0; int s = CALL(SerializedFMUstateSize, state, &n); out("%d %zu", s, n); free(bytes); bytes = malloc(n + 1); nBytes = n; out("%d", CALL(SerializeFMUstate, state, (char *)bytes, n)); } break;
    case 18: if (bytes) { void *p = NULL; int s = CALL(DeSerializeFMUstate, (char *)bytes, nBytes, &p); out("%d", s); if (!s) { out("%d", CALL(SetFMUstate, p)); out("%d", CALL(FreeFMUstate, &p)); } } break;
    case 19: if (state) { out("%d", CALL(FreeFMUstate, &state)); out("%d", state == NULL); state = NULL; } break;
    case 20: { uint32_t u[2] = {unknown1, unknown2}, k[1] = {known1}; double sd[1] = {1}, r[2] = {0}; int s = CALL(GetDirectionalDerivative, u, 2, k, 1, sd, r); out("%d", s); if (!s) out("%.17g %.17g", r[0], r[1]); break; }
    case 21: if (iface) { uint32_t u[2] = {unknown1, unknown2}; int o[2] = {1, 1}; double r[2] = {0}; int s = CALL(GetRealOutputDerivatives, u, 2, o, r); out("%d", s); if (!s) out("%.17g %.17g", r[0], r[1]); } break;
    case 22: { const char *c[2] = {"logEvents", "logStatusError"}; out("%d", CALL(SetDebugLogging, fmi2True, 2, c)); break; }
    case 23: { const char *c[2] = {"logEvents", "other"}; out("%d", CALL(SetDebugLogging, fmi2False, 2, c)); break; }
    case 24: { uint32_t vr = 4711; double v = 0; out("%d", CALL(GetReal, &vr, 1, &v)); break; }
    case 25: if (iface) { uint32_t u[1] = {unknown1}; int o[1] = {1}; double r[1] = {1}; out("%d", CALL(SetRealInputDerivatives, u, 1, o, r)); } break;
    case 26: if (iface) out("%d", CALL(CancelStep)); break;
    }
}
static const int toRun[4][6] = {{0, 1, 2, 4, 5, -1}, {0, 1, 2, -1}, {0, 1, 2, -1}, {0, 1, 2, -1}};
#endif

static void history(const int *pre, const int *seq, int n) {
    hash = calls = 14695981039346656037ull; now = 0; state = NULL; bytes = NULL; nBytes = 0; round_ = 0; configuring = 0; create();
    if (mode == 'd' ? comp != NULL : inst && inst->component) {
        for (int k = 0; pre && pre[k] >= 0; k++) act(pre[k]);
        for (int k = 0; k < n; k++) act(seq[k]);
        readAll(); if (state) act(V == 3 ? 23 : 19);
        free(bytes); bytes = NULL; destroy();
    } else if (mode != 'd' && inst) { FMIFreeInstance(inst); inst = NULL; }
    if (verbose < 0) printf("%ld %016lx %016lx %d\n", number, (unsigned long)hash, (unsigned long)calls, nMessages);
    nMessages = 0; number++;
}
static void silent(const char *m, va_list a) { (void)m; (void)a; }
int main(int argc, char **argv) {
    if (argc < 9) return 2;
    mode = argv[1][0]; library = argv[2]; token = argv[3]; resources = argv[4]; iface = atoi(argv[6]); logging = atoi(argv[7]); depth = atoi(argv[8]); if (argc > 10) verbose = atol(argv[10]);
    FILE *f = fopen(argv[5], "r"); if (!f) return 2;
    char w[32]; double a, b, c, d;
    while (fscanf(f, "%31s %lf %lf %lf %lf", w, &a, &b, &c, &d) == 5) {
        if (!strcmp(w, "var")) { vars[nVars].type = (int)a; vars[nVars].vr = (uint32_t)b; vars[nVars].n = (int)c; vars[nVars].set = (int)d; nVars++; }
        else if (!strcmp(w, "size")) { nStates = (int)a; nIndicators = (int)b; stepSize = c; }
        else if (!strcmp(w, "der")) { unknown1 = (uint32_t)a; unknown2 = (uint32_t)b; known1 = (uint32_t)c; }
        else if (!strcmp(w, "part")) partitions[nPartitions++] = (uint32_t)a;
    }
    fclose(f); logErrorMessage = silent;
    if (mode == 'd') { handle = dlopen(library, RTLD_LAZY | RTLD_LOCAL); if (!handle) { fprintf(stderr, "%s\n", dlerror()); return 2; } }
    if (mode == 'l') { handle = dlopen(library, RTLD_LAZY | RTLD_LOCAL); }       /* kept, so that loading is cheap */
    int seq[16]; const int *run = toRun[iface]; int steps[400]; int n = 0;
    for (int p = 0; p < 3; p++) {
        int init[8], d2 = p == 1 ? depth : depth - 1, k = 0; for (; run[k] >= 0 && p == 2; k++) { init[k] = run[k]; if ((V == 3 && run[k] == 2) || (V == 2 && run[k] == 1)) { k++; break; } } init[k] = -1;
        const int *pre = p == 0 ? NULL : p == 1 ? run : init;
        for (int len = 0; len <= d2; len++) { long total = 1; for (int j = 0; j < len; j++) total *= NACT; for (long x = 0; x < total; x++) { long y = x; for (int j = 0; j < len; j++, y /= NACT) seq[len - 1 - j] = (int)(y % NACT); history(pre, seq, len); } }
    }
    /* whole experiments */
    for (int v = 0; v < 6; v++) {
        n = 0; for (int k = 0; k < 60; k++) {
            if (V == 3) { if (iface == 0) { if (k % 5 == v % 5) { steps[n++] = 4; steps[n++] = 17; steps[n++] = 5; steps[n++] = 6; } steps[n++] = 10; steps[n++] = 12; if (k == 30) { steps[n++] = 19; } if (k == 45 && v > 2) steps[n++] = 20; }
                else if (iface <= 2) { steps[n++] = k % 4 == v % 4 ? 14 : 13; if (iface == 2 && k % 7 == v) { steps[n++] = 4; steps[n++] = 17; steps[n++] = 5; steps[n++] = 7; } if (k == 30) steps[n++] = 19; if (k == 45 && v > 2) { steps[n++] = 21; steps[n++] = 22; } }
                else { steps[n++] = 16; if (k % 7 == v) steps[n++] = 17; } }
            else { if (iface == 0) { if (k % 5 == v % 5) { steps[n++] = 3; steps[n++] = 14; steps[n++] = 4; steps[n++] = 5; } steps[n++] = 8; steps[n++] = 10; if (k == 30) steps[n++] = 15; if (k == 45 && v > 2) steps[n++] = 16; }
                else { steps[n++] = k % 4 == v % 4 ? 12 : 11; if (k == 30) steps[n++] = 15; if (k == 45 && v > 2) { steps[n++] = 17; steps[n++] = 18; } } }
        }
        history(run, steps, n);
    }
    if (verbose < 0) printf("end %ld\n", actions);
    return 0;
}
