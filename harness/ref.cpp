#include "ref.h"

const char *modeName[] = {"Instantiated", "Configuration", "Initialization", "Event", "ContinuousTime", "Step", "ClockActivation", "Reconfiguration", "Terminated"};
const char *modelNames[] = {"BouncingBall", "Dahlquist", "VanDerPol", "Stair", "Resource", "Roberts", "Clocks", "StateSpace", "Feedthrough"};
ModelId modelId(const std::string &m) { for (int i = 0; i < 9; i++) if (m == modelNames[i]) return (ModelId)i; die("unknown model %s", m.c_str()); }
double solverStep(ModelId m) { switch (m) { case BB: return 1e-3; case DQ: return 0.1; case VDP: return 1e-2; case STAIR: return 0.2; case RES: return 1; case ROB: return 1e-6; case CLOCKS: return 1; case SS: return 1e-3; default: return 0.1; } }
std::vector<int> versionsOf(ModelId m) { if (m == ROB || m == CLOCKS || m == SS) return {3}; return {2, 3}; }
bool hasEventSupport(ModelId m) { return m == BB || m == STAIR || m == FT || m == SS || m == CLOCKS; }
H128 hashRef(const Ref &r) { return hashBytes(&r, sizeof r, 77); }

void Ref::init(const Config &c) {
    memset((void *)this, 0, sizeof *this);
    model = modelId(c.model); ver = c.ver; iface = c.iface; eventMode = c.eventMode; early = c.early;
    resChar = 'a';
    startValues();
}
void Ref::startValues() {
    mode = M_INST; setup = 0; start = stop = time = nextCP = 0; n = 0; terminate = valuesChanged = nextDef = 0; nextT = 0; pending = ended = 0; prev = 0;
    memset(p, 0, sizeof p); dae = 0; counter = 0; memset(ticks, 0, sizeof ticks); total = result2 = input2 = output3 = outClock = q3 = 0;
    switch (model) {
        case BB: p[0] = 1; p[1] = 0; p[2] = -9.81; p[3] = 0.7; break;
        case DQ: p[0] = 1; p[1] = 1; break;
        case VDP: p[0] = 2; p[1] = 0; p[2] = 1; break;
        case STAIR: counter = 1; nextDef = 1; nextT = 1; break;
        case ROB: p[0] = 1; break;
        case SS:
            dim[0] = dim[1] = dim[2] = 3;
            for (int i = 0; i < 5; i++) { for (int j = 0; j < 5; j++) A[i][j] = B[i][j] = C[i][j] = D[i][j] = i == j; x0[i] = x[i] = 0; u[i] = i + 1; }
            break;
        case FT:
            f32[0] = f32[1] = 0; memset(f64, 0, sizeof f64); memset(in, 0, sizeof in); in[10] = 1;
            memset(str, 0, sizeof str); memcpy(str, "Set me!", 7); nstr = 7; memset(bin, 0, sizeof bin); memcpy(bin, "foo", 3); nbin = 3;
            break;
        default: break;
    }
}
Out Ref::err() { mode = M_TERM; Out o; o.st = ERROR; return o; }

size_t Ref::nx() const { switch (model) { case BB: case VDP: case ROB: return 2; case DQ: return 1; case SS: return (size_t)dim[1]; default: return 0; } }
size_t Ref::nz() const { return model == BB ? 1 : model == ROB ? 2 : 0; }
static double robY3(const Ref &r) { return r.dae ? r.p[2] : 1.0 - r.p[0] - r.p[1]; }
void Ref::states(double *s) const { if (model == SS) for (int i = 0; i < dim[1]; i++) s[i] = x[i]; else for (size_t i = 0; i < nx(); i++) s[i] = p[i]; }
void Ref::setStates(const double *s) { if (model == SS) for (int i = 0; i < dim[1]; i++) x[i] = s[i]; else for (size_t i = 0; i < nx(); i++) p[i] = s[i]; }
void Ref::ders(double *d) const {
    switch (model) {
        case BB: d[0] = p[1]; d[1] = p[2]; break;
        case DQ: d[0] = -p[1] * p[0]; break;
        case VDP: d[0] = p[1]; d[1] = p[2] * ((1.0 - p[0] * p[0]) * p[1]) - p[0]; break;
        case ROB: { double y3 = robY3(*this); d[0] = -0.04 * p[0] + 1e4 * p[1] * y3; d[1] = 0.04 * p[0] - 1e4 * p[1] * y3 - 3e7 * p[1] * p[1]; break; }
        case SS: for (int i = 0; i < dim[1]; i++) { double s = 0; for (int j = 0; j < dim[1]; j++) s += A[i][j] * x[j]; for (int j = 0; j < dim[0]; j++) s += B[i][j] * u[j]; d[i] = s; } break;
    }
}
void Ref::indicators(double *z) const {
    if (model == BB) { z[0] = (p[0] > -1e-10 && p[0] <= 0 && p[1] > 0) ? -1e-10 : p[0]; }
    if (model == ROB) { z[0] = p[0] - 1e-4; z[1] = robY3(*this) - 0.01; }
}
int Ref::indicator() const { if (model != BB) return 0; double z[2] = {0}; indicators(z); return z[0] > 0; }
double Ref::partial(uint32_t uk, uint32_t kn) const {
    if (model == VDP) {
        if (uk == 2) return kn == 3 ? 1 : 0;
        if (uk == 4) { if (kn == 1) return -2 * p[0] * p[1] * p[2] - 1; if (kn == 3) return p[2] * (1 - p[0] * p[0]); if (kn == 5) return (1 - p[0] * p[0]) * p[1]; }
        return 0;
    }
    if (model == ROB) {
        double y3 = robY3(*this), y2 = p[1];
        auto direct = [&](uint32_t k) -> double {
            if (uk == 3) return k == 2 ? -0.04 : k == 4 ? 1e4 * y3 : k == 6 ? 1e4 * y2 : 0;
            if (uk == 5) return k == 2 ? 0.04 : k == 4 ? -1e4 * y3 - 6e7 * y2 : k == 6 ? -1e4 * y2 : 0;
            if (uk == 8) return k == 2 || k == 4 || k == 6 ? 1 : 0;
            return 0;
        };
        if (dae) return direct(kn);
        return (kn == 2 || kn == 4) ? direct(kn) - direct(6) : 0;
    }
    return 0;
}
std::vector<Ref> *internalSteps = nullptr;
void Ref::euler() {
    double s[5] = {0}, d[5] = {0}; states(s); ders(d);
    double h = solverStep((ModelId)model);
    for (size_t i = 0; i < nx(); i++) s[i] += h * d[i];
    setStates(s);
    n++; time = start + (double)n * h;
    if (internalSteps) internalSteps->push_back(*this);
}
// event update of the model at the current time; false: the model refuses (error)
bool Ref::updateEvent() {
    valuesChanged = 0;
    if (model == BB) {
        if (p[0] <= 0 && p[1] < 0) { p[0] = DBL_MIN; p[1] = -p[1] * p[3]; if (p[1] < 0.1) { p[1] = 0; p[2] = 0; } valuesChanged = 1; }
        nextDef = 0;
    } else if (model == STAIR) {
        if (nextDef && (time >= nextT || fabs(time - nextT) <= 1e-5)) { counter++; nextT += 1; }
        if (counter > 10) return false;
        terminate = counter >= 10;
        nextDef = 1;
    } else if (hasEventSupport((ModelId)model) && model != CLOCKS) nextDef = 0;
    return true;
}

// ------------------------------------------------------------------ which call in which mode
static Cell among(int mode, std::initializer_list<int> ok) { for (int m : ok) if (m == mode) return ACCEPT; return REJECT; }
Cell Ref::permit(K k) const {
    bool me = iface == ME, cs = iface == CS;
    if (ver == 3) switch (k) {
        case K_ENTER_INIT: return among(mode, {M_INST});
        case K_EXIT_INIT: return among(mode, {M_INIT});
        case K_ENTER_EVENT: if (mode == M_STEP) return cs && eventMode ? ACCEPT : UNSPEC; return among(mode, {M_CTM});
        case K_TERMINATE: return among(mode, {M_CTM, M_STEP, M_EVENT, M_CLOCK, M_RECONF});
        case K_ENTER_CONFIG: return among(mode, {M_INST, M_STEP, M_EVENT, M_CLOCK});
        case K_EXIT_CONFIG: return among(mode, {M_CONFIG, M_RECONF});
        case K_ENTER_CTM: if (mode == M_EVENT) return me ? ACCEPT : UNSPEC; return REJECT;
        case K_COMPLETED: return among(mode, {M_CTM});
        case K_SET_TIME: if (mode == M_EVENT) return me ? ACCEPT : UNSPEC; return among(mode, {M_CTM});
        case K_SET_STATES: return among(mode, {M_CTM});
        case K_GET_DERS: case K_GET_EI: case K_GET_STATES: case K_GET_NOMINALS: { Cell c = among(mode, {M_INIT, M_EVENT, M_CTM, M_TERM}); return c == ACCEPT && !me ? UNSPEC : c; }
        case K_ENTER_STEP: if (mode == M_EVENT) return cs ? ACCEPT : UNSPEC; if (mode == M_INIT) return UNSPEC; return REJECT;
        case K_GET_OUTDER: { Cell c = among(mode, {M_STEP, M_TERM}); return c == ACCEPT && !cs ? UNSPEC : c; }
        case K_DOSTEP: return among(mode, {M_STEP});
        case K_ACTIVATE: return among(mode, {M_CLOCK});
        case K_DIRDER: case K_ADJDER: return among(mode, {M_INIT, M_STEP, M_EVENT, M_CTM, M_TERM});
        case K_UPDATE: return mode == M_EVENT ? ACCEPT : UNSPEC;
        case K_GETCLOCK: case K_SETCLOCK: case K_GET_INTERVAL: return model != CLOCKS || mode == M_CLOCK ? ACCEPT : UNSPEC;
        default: return ACCEPT;      // reset, logging, FMU states, numbers of states and indicators: always
    }
    switch (k) {
        case K_SETUP: return among(mode, {M_INST});
        case K_ENTER_INIT: if (mode == M_INST && !setup) return UNSPEC; return among(mode, {M_INST});
        case K_EXIT_INIT: return among(mode, {M_INIT});
        case K_TERMINATE: return among(mode, {M_EVENT, M_CTM, M_STEP});
        case K_ENTER_EVENT: if (mode == M_EVENT) return UNSPEC; return among(mode, {M_CTM});
        case K_UPDATE: case K_ENTER_CTM: return among(mode, {M_EVENT});
        case K_COMPLETED: case K_SET_STATES: return among(mode, {M_CTM});
        case K_SET_TIME: return among(mode, {M_EVENT, M_CTM});
        case K_GET_EI: case K_GET_STATES: { Cell c = among(mode, {M_INIT, M_EVENT, M_CTM, M_TERM}); return c == ACCEPT && !me ? UNSPEC : c; }
        case K_GET_DERS: { if (mode == M_INIT) return UNSPEC; Cell c = among(mode, {M_EVENT, M_CTM, M_TERM}); return c == ACCEPT && !me ? UNSPEC : c; }
        case K_GET_NOMINALS: { Cell c = among(mode, {M_INST, M_EVENT, M_CTM, M_TERM}); return c == ACCEPT && !me ? UNSPEC : c; }
        case K_SET_INDER: case K_CANCEL: return REJECT;
        case K_GET_OUTDER: { Cell c = among(mode, {M_STEP, M_TERM}); return c == ACCEPT && !cs ? UNSPEC : c; }
        case K_DOSTEP: return among(mode, {M_STEP});
        case K_STATUS: { Cell c = among(mode, {M_STEP, M_TERM}); return c == ACCEPT && !cs ? UNSPEC : c; }
        case K_DIRDER: return among(mode, {M_INIT, M_EVENT, M_CTM, M_STEP, M_TERM});
        default: return ACCEPT;
    }
}
Cell Ref::permitGet(Ty) const { if (ver == 2) return among(mode, {M_INIT, M_EVENT, M_CTM, M_STEP, M_TERM}); return ACCEPT; }
Cell Ref::permitSet(Ty ty) const {
    bool fl = ty == F32 || ty == F64;
    if (ver == 2) { Cell c = among(mode, {M_INST, M_INIT, M_EVENT, M_STEP}); if (mode == M_CTM && fl) c = ACCEPT; return c; }
    if (mode == M_CTM && !fl) return REJECT;
    return ACCEPT;
}
// which variable may be set when (fixed and tunable parameters, inputs, states)
Cell Ref::permitSetVar(Ty ty, uint32_t vr) const {
    bool me = iface == ME;
    bool early_ = mode == M_INST || mode == M_INIT;
    auto loose = [&](std::initializer_list<int> ok) { return among(mode, ok) == ACCEPT ? ACCEPT : UNSPEC; };
    auto param = [&](bool tunable) -> Cell {     // parameters: strict in Model Exchange
        if (early_) return ACCEPT;
        if (me) return tunable && mode == M_EVENT ? ACCEPT : REJECT;
        return tunable && (mode == M_STEP || mode == M_EVENT) ? ACCEPT : UNSPEC;
    };
    switch (model) {
        case BB:
            if (ty != F64) return REJECT;
            if (vr == 1 || vr == 3) return among(mode, {M_INST, M_INIT, M_CTM, M_EVENT});
            if (vr == 5) return param(false);
            if (vr == 6) return param(true);
            return REJECT;
        case DQ:
            if (ty != F64) return REJECT;
            if (vr == 1) return loose({M_INST, M_INIT, M_CTM, M_EVENT});
            if (vr == 3) return param(false);
            return REJECT;
        case VDP:
            if (ty != F64) return REJECT;
            if (vr == 1 || vr == 3) return loose({M_INST, M_INIT, M_CTM, M_EVENT});
            if (vr == 5) { if (me && mode == M_EVENT) return UNSPEC; return param(false); }
            return REJECT;
        case STAIR: return ty == I32 && vr == 1 && early_ ? ACCEPT : REJECT;
        case RES: return REJECT;
        case ROB:
            if (ty == F64 && (vr == 2 || vr == 4 || vr == 6)) return loose({M_INST, M_INIT, M_CTM, M_EVENT});
            if (ty == BOOL && vr == 1) return loose({M_INST, M_CONFIG, M_RECONF, M_INIT});
            return REJECT;
        case CLOCKS: return ty == I32 && vr == 2006 ? loose({M_INST, M_INIT, M_CLOCK}) : REJECT;
        case SS:
            if (ty == U64 && vr >= 1 && vr <= 3) return among(mode, {M_CONFIG, M_RECONF});
            if (ty == F64 && vr >= 4 && vr <= 8) return loose({M_INST, M_INIT, M_EVENT, M_STEP});
            if (ty == F64 && vr == 9) return loose({M_INST, M_INIT, M_EVENT, M_CTM, M_STEP});
            if (ty == F64 && vr == 11) return among(mode, {M_EVENT, M_CTM});
            return REJECT;
        case FT: {
            auto input = [&]() { return loose({M_INST, M_INIT, M_EVENT, M_CTM, M_STEP}); };
            auto dinput = [&]() -> Cell { if (me && mode != M_INST && mode != M_INIT && mode != M_EVENT) return REJECT; return loose({M_INST, M_INIT, M_EVENT, M_STEP}); };
            if (ty == F32 && vr == 1) return input();
            if (ty == F32 && vr == 3) return dinput();
            if (ty == F64 && vr == 5) return param(false);
            if (ty == F64 && vr == 6) return param(true);
            if (ty == F64 && vr == 7) return input();
            if (ty == F64 && vr == 9) return dinput();
            if (ty >= I8 && ty <= U64 && vr == (uint32_t)(11 + 2 * (ty - I8))) return input();
            if (ty == BOOL && vr == 27) return input();
            if (ty == STR && vr == 29) return input();
            if (ty == BIN && vr == 31) return input();
            if (vr == 33 && ty == (ver == 3 ? I64 : I32)) return input();
            return REJECT;
        }
    }
    return REJECT;
}
long Ref::size(Ty ty, uint32_t vr) const { Out o; if (!getVar(ty, vr, o)) return -1; return (long)(o.d.size() + o.i.size() + o.s.size()); }
bool Ref::getVar(Ty ty, uint32_t vr, Out &o) const {
    if (ty == F64 && vr == 0) { o.d.push_back(time); return true; }
    double d[5];
    switch (model) {
        case BB: if (ty != F64 || vr > 7) return false; { double v[8] = {time, p[0], p[1], p[1], p[2], p[2], p[3], 0.1}; o.d.push_back(v[vr]); } return true;
        case DQ: if (ty != F64 || vr > 3) return false; ders(d); { double v[4] = {time, p[0], d[0], p[1]}; o.d.push_back(v[vr]); } return true;
        case VDP: if (ty != F64 || vr > 5) return false; ders(d); { double v[6] = {time, p[0], d[0], p[1], d[1], p[2]}; o.d.push_back(v[vr]); } return true;
        case STAIR: if (ty != I32 || vr != 1) return false; o.i.push_back(counter); return true;
        case RES: if (ty != I32 || vr != 1) return false; o.i.push_back((int8_t)resChar); return true;
        case ROB: {
            if (ty == BOOL && vr == 1) { o.i.push_back(dae); return true; }
            if (ty != F64 || vr > 10 || vr == 1) return false;
            ders(d); double z[2]; indicators(z); double y3 = robY3(*this);
            double v[11] = {time, 0, p[0], d[0], p[1], d[1], y3, 1e-2, p[0] + p[1] + y3 - 1.0, z[0], z[1]};
            o.d.push_back(v[vr]); return true;
        }
        case CLOCKS: {
            if (ty != I32 || vr < 2001 || vr > 2007) return false;
            int v[7] = {ticks[0], ticks[1], ticks[2], total, result2, input2, output3}; o.i.push_back(v[vr - 2001]); return true;
        }
        case SS: {
            if (ty == U64 && vr >= 1 && vr <= 3) { o.i.push_back(dim[vr - 1]); return true; }
            if (ty != F64) return false;
            int64_t m = dim[0], nn = dim[1], r = dim[2];
            auto mat = [&](const double M[5][5], int64_t a, int64_t b) { for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) o.d.push_back(M[i][j]); };
            switch (vr) {
                case 4: mat(A, nn, nn); return true;
                case 5: mat(B, nn, m); return true;
                case 6: mat(C, r, nn); return true;
                case 7: mat(D, r, m); return true;
                case 8: for (int i = 0; i < nn; i++) o.d.push_back(x0[i]); return true;
                case 9: for (int i = 0; i < m; i++) o.d.push_back(u[i]); return true;
                case 10: for (int i = 0; i < r; i++) { double s = 0; for (int j = 0; j < nn; j++) s += C[i][j] * x[j]; for (int j = 0; j < m; j++) s += D[i][j] * u[j]; o.d.push_back(s); } return true;
                case 11: for (int i = 0; i < nn; i++) o.d.push_back(x[i]); return true;
                case 12: ders(d); for (int i = 0; i < nn; i++) o.d.push_back(d[i]); return true;
            }
            return false;
        }
        case FT: {
            if (ty == F32 && vr >= 1 && vr <= 4) { o.d.push_back(f32[vr > 2]); return true; }
            if (ty == F64) { if (vr == 5 || vr == 6) { o.d.push_back(f64[vr - 5]); return true; } if (vr >= 7 && vr <= 10) { o.d.push_back(f64[vr > 8 ? 3 : 2]); return true; } return false; }
            if ((vr == 33 || vr == 34) && ty == (ver == 3 ? I64 : I32)) { o.i.push_back(in[10]); return true; }
            if (ty >= I8 && ty <= U64) { uint32_t b = (uint32_t)(11 + 2 * (ty - I8)); if (vr == b || vr == b + 1) { o.i.push_back(in[ty - I8]); return true; } return false; }
            if (ty == BOOL && (vr == 27 || vr == 28)) { o.i.push_back(in[8]); return true; }
            if (ty == STR && (vr == 29 || vr == 30)) { o.s.push_back(std::string((const char *)str, (size_t)nstr)); return true; }
            if (ty == BIN && (vr == 31 || vr == 32)) { o.s.push_back(std::string((const char *)bin, (size_t)nbin)); return true; }
            return false;
        }
    }
    return false;
}

// assign the values of one variable; false: value refused
static bool setVar(Ref &r, const Op &op, uint32_t vr, size_t &idx) {
    auto rows = [&](double M[5][5], int64_t a, int64_t b) { for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) M[i][j] = op.d[idx++]; };
    switch (r.model) {
        case BB: r.p[vr == 1 ? 0 : vr == 3 ? 1 : vr == 5 ? 2 : 3] = op.d[idx++]; return true;
        case DQ: r.p[vr == 1 ? 0 : 1] = op.d[idx++]; return true;
        case VDP: r.p[vr == 1 ? 0 : vr == 3 ? 1 : 2] = op.d[idx++]; return true;
        case STAIR: if (op.i[idx] >= 10) return false; r.counter = (int32_t)op.i[idx++]; return true;
        case ROB:
            if (op.ty == BOOL) { int v = op.i[idx++] != 0; if (v && !r.dae) r.p[2] = 1.0 - r.p[0] - r.p[1]; r.dae = v; if (!v) r.p[2] = 0; return true; }
            if (vr == 6 && !r.dae) { idx++; return true; }
            r.p[vr == 2 ? 0 : vr == 4 ? 1 : 2] = op.d[idx++]; return true;
        case CLOCKS: r.input2 = (int32_t)op.i[idx++]; return true;
        case SS:
            if (op.ty == U64) { if ((uint64_t)op.i[idx] > 5) return false; r.dim[vr - 1] = op.i[idx++]; return true; }
            switch (vr) {
                case 4: rows(r.A, r.dim[1], r.dim[1]); return true;
                case 5: rows(r.B, r.dim[1], r.dim[0]); return true;
                case 6: rows(r.C, r.dim[2], r.dim[1]); return true;
                case 7: rows(r.D, r.dim[2], r.dim[0]); return true;
                case 8: for (int i = 0; i < r.dim[1]; i++) { r.x0[i] = op.d[idx++]; if (r.mode == M_INST || r.mode == M_INIT) r.x[i] = r.x0[i]; } return true;
                case 9: for (int i = 0; i < r.dim[0]; i++) r.u[i] = op.d[idx++]; return true;
                case 11: for (int i = 0; i < r.dim[1]; i++) r.x[i] = op.d[idx++]; return true;
            }
            return false;
        case FT:
            if (op.ty == F32) { r.f32[vr == 3] = (float)op.d[idx++]; return true; }
            if (op.ty == F64) { r.f64[vr == 5 ? 0 : vr == 6 ? 1 : vr == 7 ? 2 : 3] = op.d[idx++]; return true; }
            if (vr == 33) { if (op.i[idx] != 1 && op.i[idx] != 2) return false; r.in[10] = op.i[idx++]; return true; }
            if (op.ty >= I8 && op.ty <= U64) { r.in[op.ty - I8] = op.i[idx++]; return true; }
            if (op.ty == BOOL) { r.in[8] = op.i[idx++] != 0; return true; }
            if (op.ty == STR) { if (op.s[idx].size() > 127 || op.s[idx] == "\x01NULL") return false; memset(r.str, 0, sizeof r.str); r.nstr = (int)op.s[idx].size(); memcpy(r.str, op.s[idx].data(), op.s[idx].size()); idx++; return true; }
            if (op.ty == BIN) { if (op.s[idx].size() > 128 || op.s[idx] == "\x01NULL") return false; memset(r.bin, 0, sizeof r.bin); r.nbin = (int)op.s[idx].size(); memcpy(r.bin, op.s[idx].data(), op.s[idx].size()); idx++; return true; }
            return false;
    }
    return false;
}

Out Ref::doStep(const Op &op) {
    const double H = solverStep((ModelId)model);
    Out o;
    if (pending || ended) { o.skip = true; return o; }       // the importer has to react first
    auto closeTo = [&](double a, double b) { double d = fabs(a - b); return d <= std::min(1e-5, 1e-2 * H) || d <= 1e-15 * std::max(fabs(a), fabs(b)); };
    if (!(closeTo(op.t, nextCP))) return err();
    if (!(op.h > 0) || !std::isfinite(op.h) || !std::isfinite(op.t)) return err();
    double target = op.t + op.h;
    if (target > stop && !closeTo(target, stop)) return err();
    bool ev = false, term = false, stopped = false;
    auto reached = [&]() { return start + (double)(n + 1) * H > target + 0.01 * H; };
    while (!reached()) {
        if (ev) { if (!updateEvent()) return err(); ev = false; prev = indicator(); if (terminate) { term = true; break; } }
        euler();
        if (hasEventSupport((ModelId)model)) {
            int now = indicator();
            bool stateEvent = model == BB && now != prev;
            bool timeEvent = nextDef && time >= nextT - 1e-9;
            prev = now;
            if (stateEvent || timeEvent) {
                if (ver == 3 && eventMode) ev = true;
                else { if (!updateEvent()) return err(); prev = indicator(); if (terminate) { term = true; break; } }
                if (ver == 3 && early) { stopped = true; break; }
            }
        }
    }
    if (ver == 2) {
        if (term) { ended = 1; o.st = DISCARD; return o; }
        nextCP = target;
        return o;
    }
    bool full = reached();
    o.i = {ev, term, early && !full};
    o.d = {time};
    nextCP = full ? target : time;
    if (ev) pending = 1;
    if (term) ended = 1;
    (void)stopped;
    return o;
}

// how large the terms are that a value is the sum of: the sum is known to within their rounding only
double Ref::magnitude(int what, uint32_t k) const {       // what: 0 variable, 1 derivative of a state, 2 event indicator
    if (model == VDP && (what == 1 ? k == 1 : what == 0 && k == 4)) return fabs(p[2]) * (1 + p[0] * p[0]) * fabs(p[1]) + fabs(p[0]);
    if (model == ROB) {
        const double y3 = fabs(robY3(*this)), all = fabs(p[0]) + fabs(p[1]) + y3 + 1;
        if (what == 1 || (what == 0 && (k == 3 || k == 5))) return 0.04 * fabs(p[0]) + 1e4 * fabs(p[1]) * (dae ? y3 : all) + 3e7 * p[1] * p[1];
        return what == 2 || k == 6 || k == 8 || k == 9 || k == 10 ? all : 0;
    }
    return 0;
}
Out Ref::apply(const Op &op) {
    Out o = applyCall(op); if (o.st != OK || o.skip) return o;
    if ((op.k == K_GET && op.ty == F64) || op.k == K_GET_DERS || op.k == K_GET_EI) {
        if ((model == VDP || model == ROB) && op.k == K_GET && o.d.size() == op.vr.size()) for (auto v : op.vr) o.mag.push_back(magnitude(0, v));
        if ((model == VDP || model == ROB) && op.k != K_GET) for (size_t k = 0; k < o.d.size(); k++) o.mag.push_back(magnitude(op.k == K_GET_DERS ? 1 : 2, (uint32_t)k));
        if (model == SS) {
            auto row = [&](const double (*M)[5], const double (*N)[5], int i) { double s = 0; for (int j = 0; j < dim[1]; j++) s += fabs(M[i][j] * x[j]); for (int j = 0; j < dim[0]; j++) s += fabs(N[i][j] * u[j]); return s; };
            if (op.k == K_GET_DERS) for (size_t k = 0; k < o.d.size(); k++) o.mag.push_back(row(A, B, (int)k));
            else if (op.k == K_GET) { for (auto v : op.vr) for (long k = 0, n = size(F64, v); k < n; k++) o.mag.push_back(v == 10 ? row(C, D, (int)k) : v == 12 ? row(A, B, (int)k) : 0); }
        }
        if (o.mag.size() != o.d.size()) o.mag.clear();
    }
    return o;
}
Out Ref::applyCall(const Op &op) {
    Out o;
    if (op.who < 0) { o.st = ERROR; return o; }
    Cell c = op.k == K_GET ? permitGet(op.ty) : op.k == K_SET ? permitSet(op.ty) : permit(op.k);
    if (c == UNSPEC) { o.skip = true; return o; }
    if (c == REJECT) return err();
    switch (op.k) {
        case K_SETUP: setup = 1; start = time = nextCP = op.t; stop = op.f ? op.h : INFINITY; break;
        case K_ENTER_INIT: if (ver == 3) { start = time = nextCP = op.t; stop = op.f ? op.h : INFINITY; } mode = M_INIT; break;
        case K_EXIT_INIT:
            if (model == RES && resChar < 0) return err();
            mode = iface == ME ? M_EVENT : iface == SE ? M_CLOCK : (ver == 3 && eventMode) ? M_EVENT : M_STEP;
            prev = indicator();
            break;
        case K_TERMINATE: mode = M_TERM; break;
        case K_RESET: { startValues(); break; }
        case K_DEBUG:
            if (op.n < 0) for (auto &s : op.s) if (s != "logEvents" && s != "logStatusError") return err();
            break;
        case K_GET: {
            if (op.vr.empty()) break;
            if (op.null) return err();
            if (model == RES && resChar < 0) return err();
            for (auto v : op.vr) if (!getVar(op.ty, v, o)) return err();
            long total_ = (long)(o.d.size() + o.i.size() + o.s.size());
            long given = ver == 2 ? (long)op.vr.size() : op.n >= 0 ? op.n : (long)op.vr.size();
            if (total_ != given) return err();
            break;
        }
        case K_SET: {
            if (op.vr.empty()) break;
            if (op.null) return err();
            size_t have = op.s.size() + op.d.size() + op.i.size(), need = 0;
            for (auto v : op.vr) {
                if (size(op.ty, v) < 0) { o = err(); o.leaf = op.vr.size() > 1; return o; }
                Cell cv = permitSetVar(op.ty, v);
                if (cv == UNSPEC) { o.skip = true; return o; }
                if (cv == REJECT) { if (op.vr.size() > 1) { o = err(); o.leaf = true; return o; } return err(); }
                need += (size_t)size(op.ty, v);
            }
            if (need != (op.n >= 0 ? (size_t)op.n : have)) { o = err(); o.leaf = op.vr.size() > 1 || need > 0; return o; }
            size_t idx = 0;
            for (size_t k = 0; k < op.vr.size(); k++) if (!setVar(*this, op, op.vr[k], idx)) { o = err(); o.leaf = k > 0; return o; }
            break;
        }
        case K_GETCLOCK:
            for (auto v : op.vr) { if (model != CLOCKS || v != 1005) return err(); o.i.push_back(outClock); outClock = 0; }
            break;
        case K_SETCLOCK:
            if (model != CLOCKS) { for (auto v : op.i) if (v) return err(); }
            break;
        case K_GET_INTERVAL:
            for (auto v : op.vr) { if (model != CLOCKS || v != 1003) return err(); o.i.push_back(q3); o.d.push_back(q3 == 2 ? 0.0 : -1.0); if (q3 == 2) q3 = 1; }
            break;
        case K_FS_GET: o.i.push_back(1); break;          // handled by the caller
        case K_DIRDER: case K_ADJDER: {
            size_t nu = op.vr.size(), nk = op.vr2.size();
            size_t nout = op.k == K_DIRDER ? nu : nk, nin = op.k == K_DIRDER ? nk : nu;
            if (ver == 3 && (op.d.size() != nin || (op.n >= 0 && (size_t)op.n != nout))) return err();
            if (model != VDP && model != ROB) { if (nu && nk) return err(); }
            for (size_t a = 0; a < nout; a++) {
                double s = 0;
                for (size_t b = 0; b < nin; b++) s += (op.k == K_DIRDER ? partial(op.vr[a], op.vr2[b]) : partial(op.vr[b], op.vr2[a])) * op.d[b];
                o.d.push_back(s);
            }
            break;
        }
        case K_ENTER_CONFIG: mode = mode == M_INST ? M_CONFIG : M_RECONF; break;
        case K_EXIT_CONFIG:
            if (mode == M_CONFIG) mode = M_INST; else mode = iface == ME ? M_EVENT : iface == CS ? M_STEP : M_CLOCK;
            prev = indicator();
            break;
        case K_ENTER_EVENT: mode = M_EVENT; break;
        case K_UPDATE: {
            if (ended) { o.skip = true; return o; }
            if (model == STAIR && iface == ME && nextDef && time > nextT + 0.9) { o.skip = true; return o; }   // importer stepped past the next but one event
            if (!updateEvent()) return err();
            pending = 0; if (terminate) ended = 1;
            o.i = {0, terminate, 0, valuesChanged, nextDef}; o.d = {nextDef ? nextT : 0};
            if (op.null) { o.i.clear(); o.d.clear(); }
            break;
        }
        case K_ENTER_CTM: mode = M_CTM; break;
        case K_COMPLETED: if (op.null) return err(); o.i = {0, 0}; break;
        case K_SET_TIME: time = op.t; break;
        case K_SET_STATES: {
            size_t nn = op.n >= 0 ? (size_t)op.n : op.d.size();
            if (nn != nx()) return err();
            if (nx() && (op.null & 2)) return err();
            if (nx()) setStates(op.d.data());
            break;
        }
        case K_GET_DERS: case K_GET_STATES: case K_GET_NOMINALS: case K_GET_EI: {
            size_t nn = op.n < 0 ? 0 : (size_t)op.n, want = op.k == K_GET_EI ? nz() : nx();
            if (nn != want) return err();
            if (want && (op.null & 2)) return err();
            double v[5] = {0};
            if (op.k == K_GET_DERS) ders(v); else if (op.k == K_GET_STATES) states(v); else if (op.k == K_GET_EI) indicators(v);
            else for (size_t i = 0; i < want; i++) v[i] = model == ROB ? (i ? 1e-2 : 1e-4) : 1.0;
            o.d.assign(v, v + want);
            break;
        }
        case K_N_EI: o.i.push_back((int64_t)nz()); break;
        case K_N_CS: o.i.push_back((int64_t)nx()); break;
        case K_ENTER_STEP:
            if (pending) { o.skip = true; return o; }
            mode = M_STEP; prev = indicator(); break;
        case K_DOSTEP: return doStep(op);
        case K_GET_OUTDER:
            if (model != BB) return err();
            if (op.vr.size() && op.null) return err();
            if (ver == 3 && op.n >= 0 && (size_t)op.n != op.vr.size()) return err();
            for (size_t k = 0; k < op.vr.size(); k++) { if ((op.i.size() > k && op.i[k] != 1) || (op.vr[k] != 1 && op.vr[k] != 3)) return err(); o.d.push_back(op.vr[k] == 1 ? p[1] : p[2]); }
            break;
        case K_ACTIVATE: {
            if (model != CLOCKS || op.vr[0] < 1001 || op.vr[0] > 1003) return err();
            int k = (int)op.vr[0] - 1001;
            ticks[k]++; total++;
            if (k == 0 && (int)op.t == 4) q3 = 2;
            if (k == 1) { result2 += input2; input2 = 0; }
            if (k == 2) output3 = 1000;
            if (total % 5 == 0) outClock = 1;            // until it is read
            break;
        }
        case K_STATUS:
            if (op.a == 1 && op.b == fmi2LastSuccessfulTime) { o.d.push_back(time); break; }
            if (op.a == 3 && op.b == fmi2Terminated) { o.i.push_back(terminate); break; }
            o.st = DISCARD;
            break;
        case K_NOTIMPL: return err();
        default: die("reference: unexpected op %s", kName[op.k]);
    }
    return o;
}

std::vector<Op> readAll(const Ref &r) {
    std::vector<Op> ops;
    if (r.permitGet(F64) == ACCEPT) {
        std::map<int, Op> by;
        for (auto &v : varsOf(modelNames[r.model], r.ver)) { Op &o = by[v.ty]; o.k = K_GET; o.ty = v.ty; o.vr.push_back(v.vr); }
        for (auto &b : by) { Op o = b.second; if (r.ver == 3) { long n = 0; for (auto v : o.vr) n += r.size(o.ty, v); o.n = n; } ops.push_back(o); }
    }
    if (r.permit(K_GET_STATES) == ACCEPT && r.nx()) ops.push_back(opN(K_GET_STATES, (long)r.nx()));
    if (r.permit(K_GET_DERS) == ACCEPT && r.nx()) ops.push_back(opN(K_GET_DERS, (long)r.nx()));
    if (r.permit(K_GET_EI) == ACCEPT && r.nz()) ops.push_back(opN(K_GET_EI, (long)r.nz()));
    if (r.permit(K_GET_NOMINALS) == ACCEPT && r.nx()) ops.push_back(opN(K_GET_NOMINALS, (long)r.nx()));
    if (r.model == BB && r.iface == CS && r.permit(K_GET_OUTDER) == ACCEPT) { Op o = op(K_GET_OUTDER); o.vr = {1, 3}; o.i = {1, 1}; ops.push_back(o); }
    if ((r.model == VDP || r.model == ROB) && r.permit(K_DIRDER) == ACCEPT) { Op o = op(K_DIRDER); o.d = {1, 2}; if (r.model == VDP) { o.vr = {2, 4}; o.vr2 = {1, 3}; } else { o.vr = {3, 5}; o.vr2 = {2, 4}; } ops.push_back(o); }
    if (r.ver == 3) { ops.push_back(op(K_N_CS)); ops.push_back(op(K_N_EI)); }
    if (r.model == CLOCKS && r.permit(K_GETCLOCK) == ACCEPT) { Op o = op(K_GETCLOCK); o.vr = {1005}; ops.push_back(o); o = op(K_GET_INTERVAL); o.vr = {1003}; ops.push_back(o); }
    if (r.ver == 2 && r.permit(K_STATUS) == ACCEPT) { Op o = op(K_STATUS); o.a = 1; o.b = fmi2LastSuccessfulTime; ops.push_back(o); o.a = 3; o.b = fmi2Terminated; ops.push_back(o); }
    return ops;
}
