// C01, C02: the state machines. Every function of the API is tried in every reachable state.
#include "state.h"

double stopFor(ModelId m) { return m == STAIR ? 1.2 : 4 * solverStep(m); }

static Op setRep(const Ref &r, Ty ty) {
    switch (r.model) {
        case BB: if (ty == F64) return opSetD(F64, {6}, {0.7}); break;
        case DQ: if (ty == F64) return opSetD(F64, {1}, {1}); break;
        case VDP: if (ty == F64) return opSetD(F64, {1}, {2}); break;
        case STAIR: if (ty == I32) return opSetI(I32, {1}, {1}); break;
        case ROB: if (ty == F64) return opSetD(F64, {2}, {1}); if (ty == BOOL) return opSetI(BOOL, {1}, {0}); break;
        case CLOCKS: if (ty == I32) return opSetI(I32, {2006}, {1}); break;
        case SS: if (ty == F64) { std::vector<double> u; for (int i = 0; i < r.dim[0]; i++) u.push_back(i + 1); return opSetD(F64, {9}, u); } if (ty == U64) return opSetI(U64, {2}, {2}); break;
        case FT:
            if (ty == F32) return opSetD(F32, {1}, {0});
            if (ty == F64) return opSetD(F64, {7}, {0});
            if (ty == STR) return opSetS(STR, {29}, {"Set me!"});
            if (ty == BIN) return opSetS(BIN, {31}, {"foo"});
            if (ty == BOOL) return opSetI(BOOL, {27}, {0});
            return opSetI(ty, {(uint32_t)(11 + 2 * (ty - I8))}, {0});
    }
    // no variable of that type: value reference 1 is of another type
    if (ty == STR || ty == BIN) return opSetS(ty, {1}, {"x"});
    if (ty == F32 || ty == F64) return opSetD(ty, {1}, {0});
    return opSetI(ty, {1}, {0});
}
static thread_local double modeStart = 0;       // start time of the experiments
void modeAlphabet(const Ref &r, std::vector<Op> &a) {
    const double T = modeStart;
    bool v3 = r.ver == 3;
    ModelId m = (ModelId)r.model;
    double H = solverStep(m);
    if (v3) { a.push_back(opInit(T, T + stopFor(m))); a.push_back(opInit(T)); Op tol = opInit(T, T + stopFor(m)); tol.a = 1; a.push_back(tol); }
    else { Op s = op(K_SETUP); s.t = T; s.f = true; s.h = T + stopFor(m); a.push_back(s); s.f = false; s.h = 0; a.push_back(s); s.a = 1; a.push_back(s); a.push_back(op(K_ENTER_INIT)); }
    for (K k : {K_EXIT_INIT, K_ENTER_EVENT, K_TERMINATE, K_RESET, K_ENTER_CTM, K_COMPLETED, K_UPDATE}) a.push_back(op(k));
    { Op back = op(K_COMPLETED); back.a = 1; a.push_back(back); }
    Op dbg = op(K_DEBUG); dbg.f = true; dbg.s = {"logEvents"}; a.push_back(dbg); dbg.f = false; a.push_back(dbg);
    // variables of every type: an existing one if there is one
    auto vars = varsOf(modelNames[m], r.ver);
    for (int t = 0; t <= BIN; t++) {
        if (!v3 && t != F64 && t != I32 && t != BOOL && t != STR) continue;
        uint32_t vr = 1; for (auto &v : vars) if (v.ty == t) { vr = v.vr; break; }
        Op g = opGet((Ty)t, {vr}); a.push_back(g);
        g.vr.clear(); a.push_back(g);
        a.push_back(setRep(r, (Ty)t));
        Op s = op(K_SET); s.ty = (Ty)t; a.push_back(s);
    }
    // derivatives
    for (K k : {K_DIRDER, K_ADJDER}) {
        if (k == K_ADJDER && !v3) continue;
        Op d = op(k); a.push_back(d);
        if (m == VDP) { d.vr = {2, 4}; d.vr2 = {1, 3}; } else if (m == ROB) { d.vr = {3, 5}; d.vr2 = {2, 4}; } else { d.vr = {1, 2}; d.vr2 = {1, 3}; }
        d.d = {1, 2}; a.push_back(d);
    }
    // model exchange
    a.push_back(opTime(T)); a.push_back(opTime(m == STAIR ? T + 1.0 : T + H));
    { std::vector<double> x(r.nx()); r.states(x.data()); if (r.nx()) { a.push_back(opStates(x)); x[0] = 1.25; } a.push_back(opStates(x)); }
    for (K k : {K_GET_DERS, K_GET_STATES, K_GET_NOMINALS}) { if (r.nx()) a.push_back(opN(k, (long)r.nx())); else a.push_back(opN(k, 0)); }
    a.push_back(opN(K_GET_EI, (long)r.nz()));
    a.push_back(opN(K_GET_EI, (long)r.nz() + 1));
    // co-simulation
    if (r.mode == M_STEP) { a.push_back(opStep(r.nextCP, H)); a.push_back(opStep(r.nextCP, 2 * H)); if (r.stop > 1e30 && r.n > 8) a.resize(a.size() - 2); a.push_back(opStep(r.nextCP, -H)); a.push_back(opStep(r.nextCP + 1, H)); if (r.stop < 1e30 || r.n <= 8) { Op back = opStep(r.nextCP, H); back.a = 1; a.push_back(back); } }
    else a.push_back(opStep(T, H));
    { Op o = op(K_GET_OUTDER); o.vr = {1, 3}; o.i = {1, 1}; a.push_back(o); }
    if (v3) {
        a.push_back(op(K_ENTER_CONFIG)); a.push_back(op(K_EXIT_CONFIG)); a.push_back(op(K_ENTER_STEP)); a.push_back(op(K_N_EI)); a.push_back(op(K_N_CS));
        uint32_t cv = m == CLOCKS ? 1005 : 1;
        Op g = op(K_GETCLOCK); a.push_back(g); g.vr = {cv}; a.push_back(g);
        Op s = op(K_SETCLOCK); a.push_back(s); s.vr = {m == CLOCKS ? 1001u : 1u}; s.i = {1}; a.push_back(s);
        Op iv = op(K_GET_INTERVAL); a.push_back(iv); iv.vr = {m == CLOCKS ? 1003u : 1u}; a.push_back(iv);
        for (uint32_t c = 1001; c <= 1003; c++) if (m != CLOCKS || r.total < 6) { Op p = op(K_ACTIVATE); p.vr = {c}; p.t = r.total; a.push_back(p); }
        Op p = op(K_ACTIVATE); p.vr = {7}; a.push_back(p);
        for (int k = 0; k < 10; k++) { Op o = op(K_NOTIMPL); o.a = k; a.push_back(o); }
    } else {
        a.push_back(op(K_CANCEL)); a.push_back(op(K_SET_INDER));
        for (int f = 0; f < 5; f++) for (int k = 0; k < 4; k++) { Op o = op(K_STATUS); o.a = f; o.b = k; a.push_back(o); }
    }
}

// an error terminates: whatever made a call fail, afterwards nothing is accepted that the Terminated mode does not permit
struct AfterError {
    Sys &s; Config c; uint64_t errors = 0; bool bad = false;
    bool terminated(const Ref &r, std::vector<Op> hist) {
        Ref q = r; q.err(); Image im; s.snap(im); errors++;
        const double T = r.mode == M_INST || r.mode == M_TERM ? 0.0 : r.time;
        std::vector<Op> calls = {op(K_TERMINATE), op(K_EXIT_INIT), op(K_ENTER_EVENT), opStep(r.nextCP, solverStep((ModelId)r.model))};
        if (c.ver == 3) { calls.push_back(opInit(T)); calls.push_back(op(K_EXIT_CONFIG)); calls.push_back(op(K_ENTER_CONFIG)); calls.push_back(op(K_ENTER_STEP)); } else { calls.push_back(op(K_ENTER_INIT)); Op o = op(K_SETUP); o.t = T; calls.push_back(o); }
        for (auto &o : calls) {
            if (q.permit(o.k) != REJECT) continue;
            s.restore(im); Out g = s.exec(o); R.transitions++;
            if (g.st == ERROR) continue;
            bad = true; const Op &f = hist.back(); std::string what = f.text(); hist.push_back(o);
            R.violation(cfgName(c) + ": after " + what + " has failed with Error, " + o.text() + strf(" returns %s; in mode %s", stName(g.st), modeName[r.mode]), traceText("history", {c, hist}, "Error", g.text()));
            return false;
        }
        s.restore(im); return true;
    }
    void at(const Image &im, const Ref &r, const std::vector<Op> &hist) {
        std::vector<Op> a; int has[2] = {0, 0}; memAlphabet(c, r, has, false, a, false);
        auto tryOne = [&](const Image &from, const std::vector<Op> &h0, const Op &o) {
            s.restore(from); Out g = s.exec(o); R.transitions++;
            if (g.st != ERROR) return true;
            auto h = h0; h.push_back(o); return terminated(r, h);
        };
        for (auto &o : a) if (o.k != K_FREE && o.k != K_INSTANTIATE && !tryOne(im, hist, o)) return;
        // states that are missing or have another size
        auto fs = [](K k, int a, int b, long n) { Op o = op(k); o.a = a; o.b = b; o.n = n; return o; };
        s.restore(im); auto h = hist; for (auto &o : {fs(K_FS_GET, 0, 0, -1), fs(K_FS_SER, 0, 0, -1)}) { if (s.exec(o).st != OK) return; h.push_back(o); }
        Image im2; s.snap(im2);
        for (long n : {0L, 1L, 999L, 1001L}) if (!tryOne(im2, h, fs(K_FS_SER, 0, 1, n)) || !tryOne(im2, h, fs(K_FS_DES, 0, 1, n))) return;
        for (K k : {K_FS_SET, K_FS_SIZE, K_FS_SER}) if (!tryOne(im2, h, fs(k, -1, 1, -1))) return;
        // events beyond the one at which the model ends
        if (r.model == STAIR && r.mode == M_EVENT) {
            s.restore(im); h = hist;
            for (int k = 0; k < 40; k++) { Op o = op(K_UPDATE); h.push_back(o); Out g = s.exec(o); R.transitions++; if (g.st == ERROR) { R.extra["failed_events"]++; terminated(r, h); return; } if (g.st != OK) return; }
        }
    }
};
static void modesOf(int ver) {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) {
        if (c0.ver != ver) continue;
        for (int missing = 0; missing < 2; missing++) {
            if (missing && modelId(c0.model) != RES) continue;
            Config c = c0; if (missing) c.resource += "/missing/";
            jobs.push_back({cfgName(c) + " errors", [c, missing] {
                Sys s; s.open(loadLib(libDir, c.model, c.ver), c); ModelId m = modelId(c.model);
                std::vector<std::vector<Op>> begins = {{}};
                if (!missing) for (auto &t : std::vector<double>{0, 100}) { auto p = toMode(c, M_INIT, t); if (m == STAIR) p.push_back(opSetI(I32, {1}, {8})); begins.push_back(p); }
                AfterError f{s, c};
                for (auto &b : begins) {
                    if (missing) {       // the file cannot be read
                        s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate");
                        Ref r; r.init(c); r.resChar = -1; std::vector<Op> h; auto p = toMode(c, M_INIT); p.push_back(op(K_EXIT_INIT)); Image im;
                        for (size_t k = 0; k <= p.size() && !f.bad; k++) { s.snap(im); if (r.mode != M_TERM) f.at(im, r, h); s.restore(im); if (k == p.size()) break; Out e = r.apply(p[k]), g = s.exec(p[k]); h.push_back(p[k]); R.transitions++; R.states++;
                            if (g.st != e.st) { R.violation(cfgName(c) + " without the file: " + p[k].text() + strf(": status %s, expected %s", stName(g.st), stName(e.st)), traceText("history", {c, h}, e.text(), g.text())); f.bad = true; } }
                        R.traces += f.errors; break;
                    }
                    Reach rc; rc.s = &s; rc.cfg = c; rc.begin = b; rc.maxStates = 60000; rc.maxDepth = m == FT || m == SS ? 3 : thorough ? 7 : 6; rc.nv = 1; rc.run();
                    for (size_t k = 0; k < rc.v.size() && !f.bad; k++) if (rc.v[k].r.mode != M_TERM) f.at(rc.v[k].im, rc.v[k].r, rc.path(k));
                    R.states += rc.v.size(); R.transitions += rc.trans; if (rc.capped) R.exhaustive = false;
                    if (f.bad) break;
                }
                R.traces += f.errors; R.extra["failed_calls"] += f.errors;
            }});
        }
    }
    for (auto &c : allConfigs()) {
        if (c.ver != ver) continue;
        for (double T : {0.0, 3.0, -2.5, 1000.0}) jobs.push_back({cfgName(c) + (T == 0 ? std::string() : strf(" start time %g", T)), [c, T] {
            modeStart = T; Explorer<Ref> e; e.cfg = c; e.init.init(c);
            e.alphabet = modeAlphabet; e.statusOnly = true;
            e.apply = [](Ref &r, const Op &o) { return r.apply(o); };
            bool first = true;
            e.probe = [&](Sys &s, const Ref &r, std::vector<Op> &) -> std::string {
                // saving, sizing, serializing, restoring and freeing a state is possible in every mode
                Image before; s.snap(before);
                for (K k : {K_FS_GET, K_FS_SIZE, K_FS_SER, K_FS_DES, K_FS_SET, K_FS_FREE}) {
                    Op o = op(k); if (k == K_FS_DES) o.b = 1;
                    Out g = s.exec(o);
                    if (g.st != OK) return o.text() + strf(": status %s in mode %s, expected OK", stName(g.st), modeName[r.mode]);
                }
                Op o = op(K_FS_FREE); o.a = 1; Out g = s.exec(o); if (g.st != OK) return o.text() + ": status " + stName(g.st);
                s.restore(before);
                if (first) {
                    // NULL instance
                    first = false;
                    std::vector<Op> a; modeAlphabet(r, a);
                    for (K k : {K_FS_GET, K_FS_SIZE, K_FS_SET, K_FS_FREE}) a.push_back(op(k));
                    for (auto &x : a) { if (x.k == K_NOTIMPL && false) continue; Op y = x; y.who = -1; Out q = s.exec(y); if (q.st != ERROR) return y.text() + strf(": status %s on a NULL instance, expected Error", stName(q.st)); }
                    s.restore(before);
                }
                return "";
            };
            e.run(); modeStart = 0;
        }});
        // every function after every call of a whole experiment
        for (int variant = 0; variant < nScripts; variant++) jobs.push_back({cfgName(c) + strf(" experiment %d", variant), [c, variant] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate");
            Script sc = longScript(c, variant); auto pts = sc.points(thorough ? 1000000 : 120); size_t at = 0;
            for (size_t k : pts) {
                for (; at < k; at++) { Ref r = sc.refs[at]; Out e = r.apply(sc.ops[at]), g = s.exec(sc.ops[at]); R.transitions++; if (g.st != e.st) { auto h = sc.first(at + 1); R.violation(cfgName(c) + ": " + sc.ops[at].text() + strf(": status %s, expected %s", stName(g.st), stName(e.st)), traceText("history", {c, h}, e.text(), g.text())); return; } }
                Image im; s.snap(im); std::vector<Op> a; modeAlphabet(sc.refs[k], a); R.states++;
                for (auto &o : a) {
                    Ref r = sc.refs[k]; Out e = r.apply(o); if (e.skip) continue;
                    s.restore(im); Out g = s.exec(o); R.transitions++;
                    if (g.st != e.st) { auto h = sc.first(k); h.push_back(o); R.violation(cfgName(c) + ": " + o.text() + strf(": status %s in mode %s, expected %s, %zu calls after the instantiation", stName(g.st), modeName[sc.refs[k].mode], stName(e.st), k), traceText("history", {c, h}, e.text(), g.text())); return; }
                }
                s.restore(im);
            }
            R.traces++; R.extra["experiment_calls"] += sc.ops.size();
        }});
    }
    runJobs(jobs, 8, 600);
}
void checkC01() { modesOf(3); }
void checkC02() { modesOf(2); }
