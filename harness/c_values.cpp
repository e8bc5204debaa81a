// C10, C11, C13..C16: values. The reference model is compared in lockstep with the binary.
#include "state.h"

std::string compareReads(Sys &s, const Ref &r, std::vector<Op> &extra, double tol) {
    Ref q = r; std::string why;
    for (auto &o : readAll(r)) {
        Out e = q.apply(o); if (e.skip) continue;
        Out g = s.exec(o); extra.push_back(o);
        if (!sameOut(g, e, tol, why)) return o.text() + ": " + why;
    }
    extra.clear();
    return "";
}
void enterInit(const Config &c, std::vector<Op> &a, double start, double stop) {
    if (c.ver == 3) { a.push_back(opInit(start, stop)); return; }
    Op s = op(K_SETUP); s.t = start; s.f = !std::isnan(stop); s.h = s.f ? stop : 0; a.push_back(s); a.push_back(op(K_ENTER_INIT));
}
std::vector<Op> toMode(const Config &c, Mode m, double start, double stop) {
    std::vector<Op> a;
    if (m == M_INST) return a;
    if (m == M_CONFIG) { a.push_back(op(K_ENTER_CONFIG)); return a; }
    enterInit(c, a, start, stop);
    if (m == M_INIT) return a;
    a.push_back(op(K_EXIT_INIT));
    bool atEvent = c.iface == ME || (c.ver == 3 && c.eventMode);
    if (m == M_EVENT) { if (!atEvent) die("no event mode"); return a; }
    if (m == M_CTM) { a.push_back(op(K_UPDATE)); a.push_back(op(K_ENTER_CTM)); return a; }
    if (m == M_STEP) { if (atEvent) { a.push_back(op(K_UPDATE)); a.push_back(op(K_ENTER_STEP)); } return a; }
    if (m == M_CLOCK) return a;
    if (m == M_RECONF) { a.push_back(op(K_ENTER_CONFIG)); return a; }
    a.push_back(op(K_TERMINATE));
    return a;
}
void flowAlphabet(const Ref &r, std::vector<Op> &a, bool all) {
    double stop = stopFor((ModelId)r.model);
    switch (r.mode) {
        case M_INST:
            if (r.ver == 3) { a.push_back(opInit(0, stop)); a.push_back(op(K_ENTER_CONFIG)); }
            else if (!r.setup) { Op s = op(K_SETUP); s.f = true; s.h = stop; a.push_back(s); } else a.push_back(op(K_ENTER_INIT));
            break;
        case M_CONFIG: case M_RECONF: a.push_back(op(K_EXIT_CONFIG)); break;
        case M_INIT: a.push_back(op(K_EXIT_INIT)); break;
        case M_EVENT: a.push_back(op(K_UPDATE)); a.push_back(op(r.iface == ME ? K_ENTER_CTM : K_ENTER_STEP)); if (all && r.ver == 3) a.push_back(op(K_ENTER_CONFIG)); break;
        case M_CTM: a.push_back(op(K_ENTER_EVENT)); if (all) a.push_back(op(K_COMPLETED)); break;
        case M_STEP: if (r.ver == 3 && r.eventMode) a.push_back(op(K_ENTER_EVENT)); if (all && r.ver == 3) a.push_back(op(K_ENTER_CONFIG)); break;
        case M_CLOCK: if (all) a.push_back(op(K_ENTER_CONFIG)); break;
        default: break;
    }
    if (all) { if (r.mode != M_INST && r.mode != M_CONFIG && r.mode != M_INIT && r.mode != M_TERM) a.push_back(op(K_TERMINATE)); if (r.mode == M_TERM) a.push_back(op(K_RESET)); }
}
std::vector<Op> setOps(const Ref &r, int nv) {
    std::vector<Op> a;
    auto D = [&](uint32_t vr, std::vector<double> vals) { for (size_t i = 0; i < vals.size() && (int)i < nv; i++) a.push_back(opSetD(F64, {vr}, {vals[i]})); };
    auto I = [&](Ty ty, uint32_t vr, std::vector<int64_t> vals) { for (size_t i = 0; i < vals.size() && (int)i < nv; i++) a.push_back(opSetI(ty, {vr}, {vals[i]})); };
    auto S = [&](Ty ty, uint32_t vr, std::vector<std::string> vals) { for (size_t i = 0; i < vals.size() && (int)i < nv; i++) a.push_back(opSetS(ty, {vr}, {vals[i]})); };
    switch (r.model) {
        case BB: D(1, {0.5, 2, 1}); D(3, {-3, 1.5, 0}); D(5, {-5, -2, -9.81}); D(6, {0.5, 0.9, 0.7}); break;
        case DQ: D(1, {2, -1, 1}); D(3, {3, 0.5, 1}); break;
        case VDP: D(1, {1.5, -1, 2}); D(3, {0.5, -2, 0}); D(5, {3, 0.5, 1}); break;
        case STAIR: I(I32, 1, {3, 9, 1, 0, -4}); break;
        case ROB: D(2, {0.5, 0.25, 1}); D(4, {0.125, 0.0625, 0}); D(6, {0.375, 0.75}); I(BOOL, 1, {1, 0}); break;
        case CLOCKS: I(I32, 2006, {70000, -3, 0}); break;
        case SS: {
            auto vec = [&](uint32_t vr, int64_t n, double a0, double a1) { std::vector<double> v; for (int64_t i = 0; i < n; i++) v.push_back(a0 + a1 * (double)i); a.push_back(opSetD(F64, {vr}, v)); };
            int64_t m = r.dim[0], n = r.dim[1], q = r.dim[2];
            for (int k = 0; k < nv && k < 2; k++) { double s = k ? -0.5 : 1; vec(4, n * n, 0.25 * s, 0.5); vec(5, n * m, 1 * s, 0.125); vec(6, q * n, 2 * s, 0.25); vec(7, q * m, 3 * s, 0.5); vec(8, n, 4 * s, 1); vec(9, m, 5 * s, 1); vec(11, n, 6 * s, 1); }
            break;
        }
        case FT:
            D(5, {1.5, -2}); D(6, {2.5, -3}); D(7, {3.5, -4}); D(9, {4.5, -5}); I(I32, 19, {-70000, 5}); I(BOOL, 27, {1, 0}); S(STR, 29, {"abc", ""});
            if (r.ver == 3) {
                a.push_back(opSetD(F32, {1}, {0.5})); if (nv > 1) a.push_back(opSetD(F32, {1}, {-7})); a.push_back(opSetD(F32, {3}, {1.25})); if (nv > 1) a.push_back(opSetD(F32, {3}, {-8}));
                I(I8, 11, {-5, 6}); I(U8, 13, {200, 7}); I(I16, 15, {-300, 8}); I(U16, 17, {60000, 9}); I(U32, 21, {4000000000ll, 10}); I(I64, 23, {-5000000000ll, 11}); I(U64, 25, {-2, 12});
                S(BIN, 31, {std::string("\0\xff z", 4), ""}); I(I64, 33, {2, 1});
            } else I(I32, 33, {2, 1});
            break;
    }
    return a;
}

// ------------------------------------------------------------------ wide grids of values (C10, C11, C16)
// Every combination of values from a wide grid for the states and parameters of the continuous models, compared in
// lockstep with the reference model: reads while initializing, event update and indicators in Model Exchange, internal
// steps in Co-Simulation, partial derivatives.
struct Lock {
    Config c; Sys s; Ref r; std::vector<Op> hist; bool bad = false;
    Lock(const Config &c_) : c(c_) { s.open(loadLib(libDir, c.model, c.ver), c); fresh(); }
    void fresh() { hist.clear(); s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate %s", cfgName(c).c_str()); r.init(c); }
    void fail(const std::string &w, const std::vector<Op> &extra = {}) { if (bad) return; bad = true; std::vector<Op> h = hist; h.insert(h.end(), extra.begin(), extra.end()); std::string tx; for (auto &o : h) tx += (tx.empty() ? "" : " ; ") + o.text(); R.violation(cfgName(c) + ": " + w + "; history: " + tx, traceText("history", {c, h})); }
    bool go(const Op &o) {           // false: stop this history
        if (bad) return false;
        Out e = r.apply(o); if (e.skip) return false;
        hist.push_back(o); Out g = s.exec(o); R.transitions++; std::string why;
        if (!sameOut(g, e, 1e-9, why)) { fail(o.text() + ": " + why); return false; }
        return e.st == OK || e.st == DISCARD;
    }
    bool reads() {
        if (bad) return false;
        Image im; if (r.model == CLOCKS) s.snap(im);       // reading the output clock resets it
        std::vector<Op> ex; std::string w = compareReads(s, r, ex); if (!w.empty()) fail(w, ex);
        if (r.model == CLOCKS) s.restore(im);
        return !bad;
    }
};
typedef std::vector<std::pair<uint32_t, std::vector<double>>> Axes;
static Axes wideAxes(ModelId m) {
    std::vector<double> w = {-1e100, -1e7, -1000, -50, -3.5, -1.5, -1, -0.5, -1e-3, 0, 1e-3, 0.5, 1, 1.5, 2.5, 3.5, 8, 50, 1000, 1e7, 1e100};
    std::vector<double> u = {-1e7, -1000, -50, -3.5, -1, -0.25, 0, 0.25, 1, 1.5, 2.5, 3.5, 8, 50, 1000, 1e7};
    switch (m) {
        case BB: return {{1, {-1e7, -50, -2, -1e-3, -1e-12, 0, DBL_MIN, 1e-12, 1e-3, 0.25, 1, 3.5, 10, 50, 1000, 1e7}}, {3, {-1e7, -1000, -50, -10, -3.5, -1, -0.2, -0.1, -0.05, 0, 0.05, 0.2, 1, 3.5, 10, 50, 1e7}}, {5, {-1e7, -1000, -50, -9.81, -1, 0, 1, 50, 1000, 1e7}}, {6, {-50, -1, 0, 0.1, 0.5, 0.9, 1, 1.5, 3.5, 1000}}};
        case DQ: return {{1, w}, {3, w}};
        case VDP: return {{1, u}, {3, u}, {5, u}};
        case ROB: return {{2, {-1000, -3.5, -1, 0, 5e-5, 2e-4, 0.25, 0.5, 0.9, 1, 2.5, 50, 1e7}}, {4, {-3.5, -1, -1e-3, 0, 1e-6, 1e-3, 0.0625, 0.25, 0.995, 3.5, 1000}}, {6, {-1000, -3.5, 0, 5e-3, 0.0625, 0.5, 3.5, 1e7}}};
        default: return {};
    }
}
static void wideGrid(const Config &c, int part, int slice, int slices) {
    ModelId m = modelId(c.model); Lock k(c);
    Axes ax = wideAxes(m); double H = solverStep(m); std::string prob;
    for (int dae = 0; dae < (m == ROB ? 2 : 1); dae++) {
        if (m == ROB && !dae) ax.pop_back(); else if (m == ROB) ax = wideAxes(m);
        k.fresh(); if (dae && !k.go(opSetI(BOOL, {1}, {1}))) return;
        for (auto &o : toMode(c, M_INIT)) if (!k.go(o)) return;
        Image at; k.s.snap(at); Ref r0 = k.r; auto h0 = k.hist;
        size_t total = 1; for (auto &a : ax) total *= a.second.size();
        for (size_t n = 0; n < total && !k.bad; n++) {
            if (n % (size_t)slices != (size_t)slice) continue;
            k.s.restore(at); k.r = r0; k.hist = h0; R.states++; R.traces++;
            size_t q = n; bool ok = true; for (auto &a : ax) { ok = ok && k.go(opSetD(F64, {a.first}, {a.second[q % a.second.size()]})); q /= a.second.size(); }
            if (!ok) continue;
            if (part == 2) {
                std::vector<uint32_t> un = m == VDP ? std::vector<uint32_t>{2, 4} : std::vector<uint32_t>{3, 5, 8}, kn = m == VDP ? std::vector<uint32_t>{1, 3} : std::vector<uint32_t>{2, 4}; if (dae) kn.push_back(6);
                for (int late = 0; late < 2; late++) {
                    if (late) { if (!k.go(op(K_EXIT_INIT))) break; if (c.iface == ME) { k.go(op(K_UPDATE)); k.go(op(K_ENTER_CTM)); } }
                    for (auto a : un) for (auto b : kn) for (K kk : {K_DIRDER, K_ADJDER}) { if (kk == K_ADJDER && c.ver == 2) continue; Op o = op(kk); o.vr = {a}; o.vr2 = {b}; o.d = {1.0}; o.n = 1; k.go(o); k.hist.resize(k.hist.size() - (k.bad ? 0 : 1)); }
                }
                continue;
            }
            if (!k.reads()) continue;
            if (!k.go(op(K_EXIT_INIT)) || !k.reads()) continue;
            if (c.iface == ME) {
                if (!k.go(op(K_UPDATE)) || !k.reads() || !k.go(op(K_ENTER_CTM))) continue;
                // the same states set again, and only a part of them: nothing of the former values is left
                std::vector<double> x(k.r.nx()); q = n; for (size_t i = 0; i < x.size(); i++) { x[i] = ax[i].second[q % ax[i].second.size()]; q /= ax[i].second.size(); }
                if (!k.go(opStates(x)) || !k.reads()) continue;
                if (part == 1) { if (!k.go(op(K_COMPLETED)) || !k.go(op(K_ENTER_EVENT)) || !k.go(op(K_UPDATE)) || !k.reads() || !k.go(op(K_UPDATE)) || !k.reads() || !k.go(op(K_ENTER_CTM))) continue; k.reads(); }
            } else {
                if (k.r.mode == M_EVENT) { if (!k.go(op(K_UPDATE)) || !k.go(op(K_ENTER_STEP))) continue; }
                for (int z = 0; z < 2; z++) { if (!k.go(opStep(k.r.nextCP, H)) || !k.reads()) break; if (k.r.pending) { if (!k.go(op(K_ENTER_EVENT)) || !k.go(op(K_UPDATE)) || !k.go(op(K_ENTER_STEP)) || !k.reads()) break; } }
            }
        }
    }
    R.extra["wide_grid_configurations"]++;
}
static void wideJobs(std::vector<Job> &jobs, int part) {
    for (auto &c : allConfigs(part == 0)) {
        ModelId m = modelId(c.model); if (wideAxes(m).empty()) continue;
        if (part == 1 && c.iface != ME) continue;
        if (part == 2 && m != VDP && m != ROB) continue;
        for (int s = 0; s < 4; s++) jobs.push_back({cfgName(c) + strf(" wide values %d", s), [c, part, s] { wideGrid(c, part, s, 4); }});
    }
}

// whole experiments in lockstep with the reference: every result, and every variable after every call
static void scriptJobs(std::vector<Job> &jobs, int part) {
    for (auto &c : allConfigs(part == 0)) for (int variant = 0; variant < nScripts; variant++) {
        if (part == 1 && c.iface != ME) continue;
        ModelId m = modelId(c.model); if (part == 2 && m != VDP && m != ROB) continue;
        jobs.push_back({cfgName(c) + strf(" experiment %d", variant), [c, m, variant, part] {
            Lock k(c); Script sc = longScript(c, variant); if (!k.reads()) return;
            for (auto &o : sc.ops) {
                k.go(o); R.states++; if (!k.reads()) return;
                if (part == 2 && k.r.mode != M_INST) {
                    std::vector<uint32_t> un = m == VDP ? std::vector<uint32_t>{2, 4} : std::vector<uint32_t>{3, 5, 8}, kn = m == VDP ? std::vector<uint32_t>{1, 3} : std::vector<uint32_t>{2, 4};
                    for (auto a : un) for (auto b : kn) for (K kk : {K_DIRDER, K_ADJDER}) { if (kk == K_ADJDER && c.ver == 2) continue; Op d = op(kk); d.vr = {a}; d.vr2 = {b}; d.d = {1.0}; d.n = 1; size_t h = k.hist.size(); k.go(d); if (k.bad) return; k.hist.resize(h); }
                    if (!k.reads()) return;
                }
            }
            R.traces++; R.extra["experiment_calls"] += sc.ops.size();
        }});
    }
}

// ------------------------------------------------------------------ C11
static void readOps(const Ref &r, std::vector<Op> &a) { for (auto &o : readAll(r)) a.push_back(o); }
void checkC11() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs(false)) {
        jobs.push_back({cfgName(c), [c] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef;
            ModelId m = modelId(c.model);
            e.maxDepth = m == FT ? (c.ver == 3 ? 5 : 7) : m == SS ? 8 : 1000;
            if (m == SS) { e.prefix = {op(K_ENTER_CONFIG), opSetI(U64, {1}, {1}), opSetI(U64, {2}, {2}), opSetI(U64, {3}, {2}), op(K_EXIT_CONFIG)}; }
            if (thorough) e.maxDepth += 1;
            int nv = m == FT || m == SS ? 1 : 2;
            e.alphabet = [m, nv](const Ref &r, std::vector<Op> &a) {
                flowAlphabet(r, a);
                if (m == FT && r.mode != M_INST && r.mode != M_INIT) { // from here on only part of the variables
                    auto all = setOps(r, nv); for (size_t i = 0; i < all.size(); i += 1) a.push_back(all[i]);
                } else for (auto &o : setOps(r, nv)) a.push_back(o);
                readOps(r, a);
                double H = solverStep(m);
                if (r.mode == M_STEP) { a.push_back(opStep(r.nextCP, H)); a.push_back(opStep(r.nextCP, 2 * H)); }
                if (r.mode == M_CTM || r.mode == M_EVENT) if (r.iface == ME) { a.push_back(opTime(m == STAIR ? 1 : 0.25)); a.push_back(opTime(0)); }
                if (r.mode == M_CTM && r.nx()) { std::vector<double> x(r.nx()); for (size_t i = 0; i < x.size(); i++) x[i] = 0.5 + (double)i; a.push_back(opStates(x)); }
                if (m == CLOCKS && r.mode == M_CLOCK && r.total < 7) for (uint32_t k = 1001; k <= 1003; k++) { Op p = op(K_ACTIVATE); p.vr = {k}; p.t = r.total; a.push_back(p); }
                if (m == CLOCKS && r.mode == M_CLOCK) { Op g = op(K_GETCLOCK); g.vr = {1005}; a.push_back(g); Op iv = op(K_GET_INTERVAL); iv.vr = {1003}; a.push_back(iv); }
            };
            e.probe = [&](Sys &s, const Ref &r, std::vector<Op> &ex) -> std::string {
                // every variable alone, in both orders, gives the same as all together
                std::string w = compareReads(s, r, ex); if (!w.empty()) return w;
                if (r.permitGet(F64) != ACCEPT) return "";
                auto vars = varsOf(c.model, c.ver); Ref q = r;
                for (size_t k = vars.size(); k-- > 0;) {
                    Op o = opGet(vars[k].ty, {vars[k].vr}); if (c.ver == 3) o.n = r.size(vars[k].ty, vars[k].vr);
                    Out e2 = q.apply(o); if (e2.skip) continue;
                    Out g = s.exec(o); std::string why; if (!sameOut(g, e2, 1e-9, why)) { ex.push_back(o); return o.text() + ": " + why; }
                }
                return "";
            };
            e.run();
        }});
    }
    wideJobs(jobs, 0); scriptJobs(jobs, 0);
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C10
void checkC10() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs(false)) {
        if (c.iface != ME) continue;
        int variants = modelId(c.model) == STAIR ? 4 : 1;
        for (double shift : {0.0, 12.0, -5.0, 1000.0, -20000.0, 3e6}) for (int variant = 0; variant < (shift > 1000 && variants > 1 ? 0 : variants); variant++)
        jobs.push_back({cfgName(c) + strf(" #%d, start time %g", variant, shift), [c, variant, shift] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef;
            ModelId m = modelId(c.model);
            if (m == SS) e.prefix = {op(K_ENTER_CONFIG), opSetI(U64, {1}, {2}), opSetI(U64, {2}, {2}), opSetI(U64, {3}, {1}), op(K_EXIT_CONFIG)};
            if (m == STAIR && variant) e.prefix = {opSetI(I32, {1}, {variant == 1 ? 7 : variant == 2 ? 9 : 8})};
            double start = shift + (variant == 3 ? 0.5 : 0);
            for (auto &o : toMode(c, M_EVENT, start)) e.prefix.push_back(o);
            if (m == FT) e.maxDepth = 5;
            if (m == SS) e.maxDepth = 7;
            e.alphabet = [m, start](const Ref &r, std::vector<Op> &a) {
                flowAlphabet(r, a, true);
                if (r.mode != M_EVENT && r.mode != M_CTM) { if (r.mode == M_TERM) { readOps(r, a); a.pop_back(); } return; }
                // times
                if (m == STAIR) {
                    double last = r.time;
                    for (double t : {r.nextT, last + 0.25, r.nextT - 0.25, r.nextT - 1e-3, r.nextT + 0.25, r.nextT + 0.8}) if (t >= last && t < start + 12) a.push_back(opTime(t));
                } else { a.push_back(opTime(start + 0.25)); a.push_back(opTime(start)); if (start > 0 && m != BB) a.push_back(opTime(2 * start + 100)); }
                // states
                if (r.mode == M_CTM && r.nx()) {
                    if (m == BB) for (double h : {1.0, 0.0, 1e-12, -1e-12, -1e-3}) for (double v : {-1.0, -0.05, 0.0, 1.0}) a.push_back(opStates({h, v}));
                    else if (m == DQ) for (double x : {1.0, 0.0, -2.0}) a.push_back(opStates({x}));
                    else if (m == VDP) for (double x : {1.0, 0.0, -2.0}) for (double y : {0.5, -1.0}) a.push_back(opStates({x, y}));
                    else if (m == ROB) for (double x : {1.0, 1e-4, 0.5e-4, 0.99}) for (double y : {0.0, 1e-3, 0.995}) a.push_back(opStates({x, y}));
                    else { std::vector<double> x(r.nx()), y(r.nx()); for (size_t i = 0; i < x.size(); i++) { x[i] = (double)i + 0.5; y[i] = -2.0 * (double)i; } a.push_back(opStates(x)); a.push_back(opStates(y)); }
                    // wrong sizes and missing arrays
                    Op w = opStates(std::vector<double>(r.nx() + 1, 1.0)); a.push_back(w); w = opStates(std::vector<double>(r.nx(), 1.0)); w.null = 2; a.push_back(w);
                }
                if (m == BB || m == FT || m == SS) for (auto &o : setOps(r, 1)) a.push_back(o);
                if (m == BB) { a.push_back(opSetD(F64, {3}, {-0.14})); a.push_back(opSetD(F64, {3}, {-0.15})); }
                for (K k : {K_GET_DERS, K_GET_STATES, K_GET_NOMINALS}) { a.push_back(opN(k, (long)r.nx())); a.push_back(opN(k, (long)r.nx() + 1)); }
                a.push_back(opN(K_GET_EI, (long)r.nz())); a.push_back(opN(K_GET_EI, (long)r.nz() + 1));
                Op cpl = op(K_COMPLETED); cpl.null = 2; a.push_back(cpl); cpl.null = 4; a.push_back(cpl);
                if (r.ver == 3) { Op u = op(K_UPDATE); u.null = 4; a.push_back(u); }
                readOps(r, a);
            };
            e.probe = [&](Sys &s, const Ref &r, std::vector<Op> &ex) { return compareReads(s, r, ex); };
            e.run();
        }});
    }
    wideJobs(jobs, 1); scriptJobs(jobs, 1);
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C13
static bool fits(Ty t, long long v) {
    switch (t) {
        case I8: return v >= -128 && v <= 127; case U8: return v >= 0 && v <= 255; case I16: return v >= -32768 && v <= 32767; case U16: return v >= 0 && v <= 65535;
        case I32: return v >= -2147483648ll && v <= 2147483647ll; case U32: return v >= 0 && v <= 4294967295ll; case BOOL: return v == 0 || v == 1; default: return true;
    }
}
void checkC13() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs(false)) {
        jobs.push_back({cfgName(c), [c] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef;
            ModelId m = modelId(c.model);
            std::vector<uint32_t> vrs; uint32_t top = m == CLOCKS ? 8 : m == FT ? 36 : 14;
            for (uint32_t v = 0; v <= top; v++) vrs.push_back(v);
            if (m == CLOCKS) for (uint32_t v : {1001, 1002, 1003, 1004, 1005, 2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008}) vrs.push_back(v);
            vrs.push_back(0xffffffffu);
            e.alphabet = [m](const Ref &r, std::vector<Op> &a) {
                flowAlphabet(r, a, true);
                double H = solverStep(m);
                if (r.mode == M_STEP) a.push_back(opStep(r.nextCP, H));
                if (m == CLOCKS && r.mode == M_CLOCK && r.total < 2) { Op p = op(K_ACTIVATE); p.vr = {1002}; a.push_back(p); }
            };
            uint64_t tried = 0;
            e.probe = [&, vrs](Sys &s, const Ref &r0, std::vector<Op> &ex) -> std::string {
                std::string w = compareReads(s, r0, ex); if (!w.empty()) return w;
                Image im; s.snap(im);
                for (int t = 0; t <= BIN; t++) {
                    if (c.ver == 2 && t != F64 && t != I32 && t != BOOL && t != STR) continue;
                    for (uint32_t vr : vrs) {
                        std::vector<Op> ops;
                        long n = r0.size((Ty)t, vr); size_t k = n < 1 ? 1 : (size_t)n;
                        if (t == STR || t == BIN) { for (const char *x : {"new", ""}) ops.push_back(opSetS((Ty)t, {vr}, {x})); ops.push_back(opSetS((Ty)t, {vr}, {std::string(129, 'x')})); for (size_t z : {1u, 2u, 63u, 64u, 65u, 126u, 127u, 128u, 130u, 255u, 256u, 257u, 1000u, 4096u}) ops.push_back(opSetS((Ty)t, {vr}, {std::string(z, 'x')})); }
                        else if (t == F32 || t == F64) { std::vector<double> a(k), b(k); for (size_t i = 0; i < k; i++) { a[i] = 0.75 + (double)i; b[i] = -0.5 - (double)i; } ops.push_back(opSetD((Ty)t, {vr}, a)); ops.push_back(opSetD((Ty)t, {vr}, b)); for (double x : {0.0, 1e7, -1e7, t == F32 ? 1e30 : 1e100}) ops.push_back(opSetD((Ty)t, {vr}, std::vector<double>(k, x))); }
                        else for (long long v : {0ll, 1ll, 2ll, 3ll, 4ll, 5ll, 6ll, 7ll, 8ll, 9ll, 10ll, 11ll, 12ll, 16ll, 20ll, 32ll, 64ll, 100ll, 127ll, 128ll, 255ll, 256ll, 257ll, 1000ll, 32767ll, 32768ll, 65535ll, 65536ll, 65537ll, 1000000ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294967297ll, 9223372036854775807ll, -1ll, -2ll, -100ll, -128ll, -32768ll, -2147483648ll, (long long)INT64_MIN}) if (fits((Ty)t, v)) ops.push_back(opSetI((Ty)t, {vr}, {v}));
                        for (auto &o : ops) {
                            Ref r = r0; Out ex1 = r.apply(o); if (ex1.skip) continue;
                            s.restore(im); tried++;
                            Out g = s.exec(o); std::string why;
                            if (!sameOut(g, ex1, 1e-9, why)) { ex.push_back(o); return o.text() + strf(": in mode %s: ", modeName[r0.mode]) + why; }
                            // the variable has the new value, or after a refusal all variables have their old values
                            w = compareReads(s, r, ex); if (!w.empty()) { ex.insert(ex.begin(), o); return "after " + o.text() + ": " + w; }
                        }
                    }
                }
                s.restore(im);
                return "";
            };
            e.run();
            R.extra["set_calls"] += tried; R.transitions += tried;
        }});
    }
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C14
static std::string bits(const Out &o) { std::string s; for (double d : o.d) { uint64_t u; memcpy(&u, &d, 8); s += strf("%016llx ", (unsigned long long)u); } return s; }
void checkC14() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs(false)) {
        if (modelId(c.model) != FT) continue;
        std::vector<Mode> modes = {M_INST, M_INIT};
        if (c.iface == ME) { modes.push_back(M_EVENT); modes.push_back(M_CTM); } else { if (c.eventMode) modes.push_back(M_EVENT); modes.push_back(M_STEP); }
        for (Mode md : modes) {
            jobs.push_back({cfgName(c) + " values in " + modeName[md], [c, md] {
                // every value of every type, set and read back alone, all other variables unchanged
                Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef; e.tol = 0; e.prefix = toMode(c, md); e.maxDepth = 0;
                e.alphabet = [](const Ref &, std::vector<Op> &) {};
                uint64_t tried = 0;
                e.probe = [&](Sys &s, const Ref &r0, std::vector<Op> &ex) -> std::string {
                    if (md == M_INST && c.ver == 2) {}
                    Image im; s.snap(im);
                    std::vector<Op> reads;
                    auto rd = [&](Ty ty, uint32_t vr) { Op o = opGet(ty, {vr}); if (c.ver == 3) o.n = 1; return o; };
                    auto one = [&](const Op &o, bool full) -> std::string {
                        Ref r = r0; Out e1 = r.apply(o); if (e1.skip) return "";
                        s.restore(im); tried++;
                        Out g = s.exec(o); std::string why;
                        if (!sameOut(g, e1, 0, why)) { ex.push_back(o); return o.text().substr(0, 200) + ": " + why; }
                        if (r.permitGet(o.ty) == ACCEPT)
                            for (uint32_t k = 0; k < 2; k++) {
                                if (r.size(o.ty, o.vr[0] + k) < 0 || o.vr[0] + k == 6 || (o.vr[0] == 6 && k)) continue;
                                Op q = rd(o.ty, o.vr[0] + k); Ref rr = r; Out e2 = rr.apply(q), g2 = s.exec(q);
                                if (!sameOut(g2, e2, 0, why) || bits(g2) != bits(e2)) { ex = {o, q}; return "after " + o.text().substr(0, 200) + " " + q.text() + ": " + g2.text() + " expected " + e2.text(); }
                            }
                        if (full) { std::string w = compareReads(s, r, ex, 0); if (!w.empty()) { ex.insert(ex.begin(), o); return "after " + o.text().substr(0, 200) + ": " + w; } }
                        return "";
                    };
                    std::string w;
#define TRY(o, full) do { w = one(o, full); if (!w.empty()) return w; } while (0)
                    std::vector<double> fl = {0.0, -0.0, 1, -1, 0.1, 1.0 / 3, INFINITY, -INFINITY, NAN, DBL_MIN, DBL_MAX, -DBL_MAX, 5e-324, DBL_EPSILON, 16777217.0, 1e300};
                    for (uint32_t vr : {5, 6, 7, 9}) for (double v : fl) TRY(opSetD(F64, {vr}, {v}), true);
                    if (c.ver == 3) {
                        for (uint32_t vr : {1, 3}) for (double v : fl) TRY(opSetD(F32, {vr}, {(double)(float)v}), true);
                        for (int v = -128; v < 128; v++) { TRY(opSetI(I8, {11}, {v}), true); TRY(opSetI(U8, {13}, {v + 128}), true); }
                        for (int v = 0; v < 65536; v++) { TRY(opSetI(I16, {15}, {v - 32768}), v % 4096 == 0); TRY(opSetI(U16, {17}, {v}), v % 4096 == 0); }
                        for (int b = 0; b < 64; b++) for (int64_t dlt : {-1, 0, 1}) {
                            uint64_t u = (1ull << b) + (uint64_t)dlt;
                            TRY(opSetI(I64, {23}, {(int64_t)u}), true); TRY(opSetI(I64, {23}, {-(int64_t)u}), true); TRY(opSetI(U64, {25}, {(int64_t)u}), true);
                            if (b < 32) TRY(opSetI(U32, {21}, {(int64_t)(uint32_t)u}), true);
                        }
                    }
                    for (int b = 0; b < 32; b++) for (int64_t dlt : {-1, 0, 1}) { TRY(opSetI(I32, {19}, {(int32_t)((1ll << b) + dlt)}), true); TRY(opSetI(I32, {19}, {(int32_t)(-(1ll << b) + dlt)}), true); }
                    for (int v : {0, 1}) TRY(opSetI(BOOL, {27}, {v}), true);
                    for (int64_t v : {-2147483648ll, -1ll, 0ll, 1ll, 2ll, 3ll, 4ll, 2147483647ll}) TRY(opSetI(c.ver == 3 ? I64 : I32, {33}, {v}), true);
                    if (c.ver == 3) for (int64_t v : {(int64_t)0x100000001ll, (int64_t)0x100000002ll, INT64_MIN, INT64_MAX}) TRY(opSetI(I64, {33}, {v}), true);
                    for (size_t l = 0; l <= 300; l++) {
                        std::string a(l, 'q'), b; for (size_t i = 0; i < l; i++) b += (char)(1 + (i * 7 + l) % 255);
                        TRY(opSetS(STR, {29}, {a}), true); TRY(opSetS(STR, {29}, {b}), false);
                        if (c.ver == 3) { std::string z(l, '\0'), y; for (size_t i = 0; i < l; i++) y += (char)((i * 5 + l) % 256); TRY(opSetS(BIN, {31}, {z}), true); TRY(opSetS(BIN, {31}, {y}), true); }
                    }
                    for (int ch = 1; ch < 256; ch++) TRY(opSetS(STR, {29}, {std::string(3, (char)ch)}), false);
                    if (c.ver == 3) for (int ch = 0; ch < 256; ch++) TRY(opSetS(BIN, {31}, {std::string(2, (char)ch)}), false);
                    s.restore(im);
                    return "";
                };
                e.run();
                R.extra["values_tried"] += tried; R.transitions += tried; R.traces += tried;
            }});
            // orders of set and get calls, lengths shrinking and growing
            jobs.push_back({cfgName(c) + " orders in " + modeName[md], [c, md] {
                Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef; e.tol = 0; e.prefix = toMode(c, md); e.maxDepth = thorough ? 4 : 3;
                e.alphabet = [c](const Ref &r, std::vector<Op> &a) {
                    for (auto &o : setOps(r, 2)) a.push_back(o);
                    a.push_back(opSetS(STR, {29}, {std::string(127, 'L')})); if (c.ver == 3) a.push_back(opSetS(BIN, {31}, {std::string(128, 'M')}));
                    a.push_back(opSetS(STR, {29}, {std::string(128, 'L')}));
                    if (r.permitGet(F64) == ACCEPT) { a.push_back(opGet(F64, {8})); a.push_back(opGet(STR, {30})); }
                    if (r.mode == M_STEP) a.push_back(opStep(r.nextCP, 0.1));
                };
                e.probe = [&](Sys &s, const Ref &r, std::vector<Op> &ex) { return compareReads(s, r, ex, 1e-12); };
                e.run();
            }});
        }
    }
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C15
static std::vector<Op> configDims(const int64_t d[3]) {
    return {op(K_ENTER_CONFIG), opSetI(U64, {1}, {d[0]}), opSetI(U64, {2}, {d[1]}), opSetI(U64, {3}, {d[2]}), op(K_EXIT_CONFIG)};
}
static std::vector<Op> fillAll(const Ref &r, double base, bool withX, double scale = 1) {
    std::vector<Op> a; int64_t m = r.dim[0], n = r.dim[1], q = r.dim[2];
    auto vec = [&](uint32_t vr, int64_t k) { std::vector<double> v; for (int64_t i = 0; i < k; i++) { v.push_back(base * scale); base = base * 1.25 + 0.375; if (base > 3) base -= 5.53125; } Op o = opSetD(F64, {vr}, v); if (!k) o.n = 0; a.push_back(o); };
    vec(4, n * n); vec(5, n * m); vec(6, q * n); vec(7, q * m); vec(9, m); if (withX) vec(8, n);
    return a;
}
void checkC15() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs(false)) {
        if (modelId(c.model) != SS) continue;
        for (int m = 0; m <= 5; m++)
        jobs.push_back({cfgName(c) + strf(" m=%d", m), [c, m] {
            Lib *lib = loadLib(libDir, c.model, c.ver);
            Sys s; s.open(lib, c);
            uint64_t pairs = 0;
            std::vector<Op> hist; Ref r; std::string fail;
            auto exec = [&](const Op &o) -> bool {
                Out e = r.apply(o); if (e.skip) die("C15: unspecified %s", o.text().c_str());
                Out g = s.exec(o); R.transitions++; hist.push_back(o);
                if (!sameOut(g, e, 1e-9, fail)) { fail = cfgName(c) + ": " + o.text() + ": " + fail; R.violation(fail, traceText("history", {c, hist}, e.text(), g.text())); return false; }
                return true;
            };
            auto reads = [&]() -> bool { std::vector<Op> ex; for (auto &o : readAll(r)) if (!exec(o)) return false; if (!exec(op(K_N_CS))) return false; return true; };
            auto run = [&](const std::vector<Op> &ops) { for (auto &o : ops) if (!exec(o)) return false; return true; };
            auto reset = [&]() { s.fresh(); if (!s.instantiate(0, &c)) die("instantiate"); r.init(c); hist.clear(); };
            std::vector<std::array<int64_t, 3>> all; for (int a = 0; a <= 5; a++) for (int b = 0; b <= 5; b++) for (int d = 0; d <= 5; d++) all.push_back({a, b, d});
            for (int n = 0; n <= 5; n++) for (int q = 0; q <= 5; q++) {
                int64_t d[3] = {m, n, q};
                reset(); R.states++;
                if (!run(configDims(d)) || !reads() || !run(fillAll(r, 0.5, true)) || !reads()) return;
                for (double scale : {-1e6, 1e-3, 1000.0}) { Image at; s.snap(at); Ref r1 = r; auto h1 = hist; if (!run(fillAll(r, 0.5, true, scale)) || !reads()) return; s.restore(at); r = r1; hist = h1; }
                std::vector<Op> p = toMode(c, c.iface == ME ? M_CTM : M_STEP); size_t k = 0;
                Image im0; s.snap(im0);
                for (; k < p.size(); k++) { if (!exec(p[k]) || !reads()) return; }
                if (c.iface == ME) {
                    std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(1.5 - i); Op o = opStates(x); if (!n) o.n = 0; if (!exec(o) || !reads()) return;
                    Op w = opStates(std::vector<double>((size_t)n + 1, 0)); Ref rs = r; Image im; s.snap(im); auto h2 = hist; if (!exec(w)) return; s.restore(im); r = rs; hist = h2;
                    if (!exec(op(K_ENTER_EVENT)) || !reads()) return;
                } else {
                    for (int i = 0; i < 3; i++) { if (!exec(opStep(r.nextCP, 1e-3)) || !reads()) return; }
                    if (c.eventMode && (!exec(op(K_ENTER_EVENT)) || !run({op(K_UPDATE), op(K_ENTER_STEP)}))) return;
                }
                // reconfiguration in mid-simulation to every other triple
                Image im; s.snap(im); Ref rs = r; auto h0 = hist;
                for (auto &t : all) {
                    s.restore(im); r = rs; hist = h0; pairs++; R.states++;
                    int64_t d2[3] = {t[0], t[1], t[2]};
                    if (!run(configDims(d2)) || !reads() || !run(fillAll(r, -0.75, true)) || !reads()) return;
                    if (c.iface == CS) { for (int i = 0; i < 2; i++) if (!exec(opStep(r.nextCP, 1e-3)) || !reads()) return; }
                    else { if (!run({op(K_UPDATE), op(K_ENTER_CTM)}) || !reads()) return; std::vector<double> x; for (int i = 0; i < t[1]; i++) x.push_back(0.25 * i); Op o = opStates(x); if (!t[1]) o.n = 0; if (!exec(o) || !reads()) return; }
                    R.traces++;
                }
                // dimensions beyond the maximum, and set outside the configuration modes
                for (int mode = 0; mode < 2; mode++) for (uint32_t vr = 1; vr <= 3; vr++) for (int64_t v : {6ll, 7ll, 1000ll, -1ll}) {
                    if (mode) { s.restore(im); r = rs; hist = h0; } else reset();
                    if (!exec(op(K_ENTER_CONFIG)) || !exec(opSetI(U64, {vr}, {v})) || !reads()) return;
                }
                for (uint32_t vr = 1; vr <= 3; vr++) { s.restore(im); r = rs; hist = h0; if (!exec(opSetI(U64, {vr}, {2})) || !reads()) return; reset(); if (!exec(opSetI(U64, {vr}, {2})) || !reads()) return; }
            }
            R.extra["reconfiguration_pairs"] += pairs;
            R.samples.push_back(cfgName(c) + strf(": all n, r with m=%d; ", m) + (hist.empty() ? "" : hist.back().text()));
        }});
    }
    runJobs(jobs, 8, 800);
}

// ------------------------------------------------------------------ C16
void checkC16() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs(false)) {
        ModelId m = modelId(c.model);
        std::vector<Mode> modes = {M_INIT};
        if (c.iface == ME) { modes.push_back(M_EVENT); modes.push_back(M_CTM); } else if (c.iface == CS) { modes.push_back(M_STEP); if (c.eventMode) modes.push_back(M_EVENT); } else continue;
        modes.push_back(M_TERM);
        for (Mode md : modes) for (int variant = 0; variant < (m == ROB ? 2 : 1); variant++)
        jobs.push_back({cfgName(c) + strf(" in %s #%d", modeName[md], variant), [c, m, md, variant] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef; e.maxDepth = thorough ? 3 : 2;
            if (m == ROB && variant) e.prefix.push_back(opSetI(BOOL, {1}, {1}));
            for (auto &o : toMode(c, md)) e.prefix.push_back(o);
            std::vector<uint32_t> un, kn;
            if (m == VDP) { un = {2, 4}; kn = {1, 3}; } else if (m == ROB) { un = {3, 5, 8}; kn = {2, 4}; if (variant) kn.push_back(6); }
            else { un = {1, 2}; kn = {1, 3}; }
            if (m == VDP && md == M_INIT) kn.push_back(5);
            auto lists = [](const std::vector<uint32_t> &v, size_t maxLen) {
                std::vector<std::vector<uint32_t>> out = {{}}; size_t from = 0;
                for (size_t l = 0; l < maxLen; l++) { size_t to = out.size(); for (size_t i = from; i < to; i++) for (auto x : v) { auto y = out[i]; y.push_back(x); out.push_back(y); } from = to; }
                return out;
            };
            auto lu = lists(un, 3), lk = lists(kn, 3);
            uint64_t tried = 0;
            e.alphabet = [m, md](const Ref &r, std::vector<Op> &a) {
                if (md == M_INIT || (r.iface == ME && (md == M_EVENT || md == M_CTM))) { if (m == VDP || m == ROB) for (auto &o : setOps(r, 2)) if (o.ty == F64) a.push_back(o); }
                if (md == M_CTM && r.nx() == 2) { a.push_back(opStates({0.5, 0.25})); a.push_back(opStates({-1.5, 2})); a.push_back(opStates({1500, -0.001})); a.push_back(opStates({0, 0})); }
                if (r.mode == M_STEP) a.push_back(opStep(r.nextCP, solverStep(m)));
            };
            e.probe = [&](Sys &s, const Ref &r0, std::vector<Op> &ex) -> std::string {
                Image im; s.snap(im);
                for (K k : {K_DIRDER, K_ADJDER}) {
                    if (k == K_ADJDER && c.ver == 2) continue;
                    for (auto &u : lu) for (auto &kk : lk) {
                        size_t ns = k == K_DIRDER ? kk.size() : u.size(), nout = k == K_DIRDER ? u.size() : kk.size();
                        std::vector<std::vector<double>> seeds;
                        for (size_t i = 0; i < ns; i++) { std::vector<double> v(ns, 0); v[i] = 1; seeds.push_back(v); }
                        { std::vector<double> v; for (size_t i = 0; i < ns; i++) v.push_back(i % 2 ? -0.5 : 3.0 + (double)i); seeds.push_back(v); }
                        // derivatives are linear in the seed: small and large, positive and negative
                        for (double z : {-1.0, 1e-9, -1e-6, 1234.5, -1e4, 1e8, -3e12}) { for (size_t i = 0; i < ns; i++) { std::vector<double> v(ns, 0); v[i] = z; seeds.push_back(v); } if (ns > 1) seeds.push_back(std::vector<double>(ns, z)); }
                        std::vector<std::pair<long, long>> sizes = {{0, 0}};
                        if (c.ver == 3 && u.size() <= 2 && kk.size() <= 2) { sizes.push_back({1, 0}); sizes.push_back({0, 1}); if (ns) sizes.push_back({-1, 0}); if (nout) sizes.push_back({0, -1}); }
                        for (auto &sd : seeds) for (auto &z : sizes) {
                            Op o = op(k); o.vr = u; o.vr2 = kk; o.d = sd; if (z.first) o.d.resize((size_t)((long)ns + z.first), 1.0);
                            o.n = (long)nout + z.second;
                            Ref r = r0; Out e1 = r.apply(o); if (e1.skip) continue;
                            if (e1.st != OK) s.restore(im);
                            Out g = s.exec(o); tried++; std::string why;
                            if (!sameOut(g, e1, 1e-9, why)) { ex.push_back(o); return o.text() + strf(" (mode %s): ", modeName[r0.mode]) + why; }
                            if (e1.st != OK) s.restore(im);
                        }
                    }
                }
                // long lists, every unknown and known several times
                for (size_t nu : {4u, 5u, 8u, 13u}) for (size_t nk : {1u, 4u, 7u, 12u}) for (K k : {K_DIRDER, K_ADJDER}) {
                    if (k == K_ADJDER && c.ver == 2) continue;
                    Op o = op(k); for (size_t i = 0; i < nu; i++) o.vr.push_back(un[(i + nk) % un.size()]); for (size_t i = 0; i < nk; i++) o.vr2.push_back(kn[(i + nu) % kn.size()]);
                    size_t ns = k == K_DIRDER ? nk : nu; for (size_t i = 0; i < ns; i++) o.d.push_back(0.25 * (double)(i + 1) * (i % 3 ? 1 : -1)); o.n = (long)(k == K_DIRDER ? nu : nk);
                    Ref r = r0; Out e1 = r.apply(o); if (e1.skip) continue;
                    if (e1.st != OK) s.restore(im);
                    Out g = s.exec(o); tried++; std::string why; if (!sameOut(g, e1, 1e-9, why)) { ex.push_back(o); return o.text() + strf(" (mode %s): ", modeName[r0.mode]) + why; }
                    if (e1.st != OK) s.restore(im);
                }
                std::string w = compareReads(s, r0, ex); if (!w.empty()) return w;
                // the calls changed nothing that the instance depends on
                return "";
            };
            e.run();
            R.extra["derivative_calls"] += tried; R.transitions += tried;
        }});
    }
    wideJobs(jobs, 2); scriptJobs(jobs, 2);
    runJobs(jobs, 8, 600);
}
