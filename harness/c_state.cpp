// C03..C06: reset, saved states, several instances, communication grids. The oracle is the same binary on a
// simpler history; the reference model only proposes the calls.
#include "state.h"

// calls that bring an instance into all kinds of conditions
void richAlphabet(const Ref &r, std::vector<Op> &a, int nv) {
    ModelId m = (ModelId)r.model; double H = solverStep(m);
    switch (r.mode) {
        case M_INST:
            if (r.ver == 3) { a.push_back(opInit(0)); a.push_back(opInit(0.5, 0.5 + (m == STAIR ? 3 : 6 * H))); a.push_back(op(K_ENTER_CONFIG)); }
            else { Op s = op(K_SETUP); a.push_back(s); s.t = 0.5; s.f = true; s.h = 0.5 + (m == STAIR ? 3 : 6 * H); a.push_back(s); a.push_back(op(K_ENTER_INIT)); }
            break;
        case M_CONFIG: case M_RECONF: a.push_back(op(K_EXIT_CONFIG)); if (m == SS) { a.push_back(opSetI(U64, {1}, {1})); a.push_back(opSetI(U64, {2}, {2})); a.push_back(opSetI(U64, {3}, {4})); } if (m == ROB) a.push_back(opSetI(BOOL, {1}, {1})); break;
        case M_INIT: a.push_back(op(K_EXIT_INIT)); break;
        case M_EVENT: a.push_back(op(K_UPDATE)); a.push_back(op(r.iface == ME ? K_ENTER_CTM : K_ENTER_STEP)); if (r.ver == 3) a.push_back(op(K_ENTER_CONFIG)); break;
        case M_CTM: a.push_back(op(K_ENTER_EVENT)); a.push_back(op(K_COMPLETED)); break;
        case M_STEP: if (r.ver == 3 && r.eventMode) a.push_back(op(K_ENTER_EVENT)); if (r.ver == 3) a.push_back(op(K_ENTER_CONFIG)); break;
        case M_CLOCK: a.push_back(op(K_ENTER_CONFIG)); break;
        default: break;
    }
    if (r.mode != M_INST && r.mode != M_CONFIG && r.mode != M_INIT && r.mode != M_TERM) a.push_back(op(K_TERMINATE));
    // values that lead to events within a few steps
    if (m == BB) { a.push_back(opSetD(F64, {1}, {0.0015})); a.push_back(opSetD(F64, {3}, {-1})); a.push_back(opSetD(F64, {6}, {0.5})); a.push_back(opSetD(F64, {5}, {-5})); if (nv > 1) { a.push_back(opSetD(F64, {3}, {-0.05})); a.push_back(opSetD(F64, {1, 3}, {-0.0015, 1})); } }
    else if (m == STAIR) { a.push_back(opSetI(I32, {1}, {8})); a.push_back(opSetI(I32, {1}, {9})); }
    else for (auto &o : setOps(r, nv)) a.push_back(o);
    if (r.mode == M_STEP && r.n < (m == STAIR ? 12 : 4)) { a.push_back(opStep(r.nextCP, H)); a.push_back(opStep(r.nextCP, 2.5 * H)); if (m == STAIR) a.push_back(opStep(r.nextCP, 6 * H)); }
    if (r.iface == ME && (r.mode == M_CTM || r.mode == M_EVENT)) {
        if (m == STAIR) { if (r.nextDef && r.nextT < 4) a.push_back(opTime(r.nextT)); } else { a.push_back(opTime(0.25)); }
    }
    if (r.mode == M_CTM && r.nx()) { std::vector<double> x(r.nx()); for (size_t i = 0; i < x.size(); i++) x[i] = m == BB ? (i ? -1.0 : -0.001) : 0.5 + (double)i; a.push_back(opStates(x)); }
    if (m == CLOCKS && r.mode == M_CLOCK && r.total < 6) for (uint32_t k = 1001; k <= 1003; k++) { Op p = op(K_ACTIVATE); p.vr = {k}; p.t = r.total; a.push_back(p); }
    if (m == CLOCKS && r.mode == M_CLOCK) { Op g = op(K_GETCLOCK); g.vr = {1005}; a.push_back(g); }
    // a failing call: the instance is terminated afterwards
    a.push_back(opGet(F64, {99}));
    a.push_back(opStep(r.nextCP, -H));
    for (auto &o : readAll(r)) if (o.k == K_GET && o.vr.size() && o.ty == (m == STAIR || m == RES || m == CLOCKS ? I32 : F64)) { a.push_back(o); break; }
}

static Config withLogging(Config c) { c.logging = true; return c; }
static std::string pathText(const std::vector<Op> &p) { std::string s; for (auto &o : p) s += (s.empty() ? "" : " ; ") + o.text(); return s; }

// dimensions of the state space model, all combinations: what was assigned at one size must not show at another one
static std::vector<Op> dimOps(int m, int n, int r) { return {op(K_ENTER_CONFIG), opSetI(U64, {1, 2, 3}, {m, n, r}), op(K_EXIT_CONFIG)}; }
static std::vector<std::array<int, 3>> allDims(bool every) {
    std::vector<std::array<int, 3>> v; for (int m = 0; m <= 5; m++) for (int n = 0; n <= 5; n++) for (int r = 0; r <= 5; r++) if (every || (m == n && n == r) || (m + 2 * n + 3 * r) % 7 == 0) v.push_back({m, n, r});
    return v;
}
// stage 0: configured, 1: values assigned, 2: initialized, 3: some steps later, 4: terminated
static void dimHistory(const Config &c, std::array<int, 3> d, int stage, std::vector<Op> &ops, Ref &r, double base = 0) {
    r.init(c); auto go = [&](const Op &o) { r.apply(o); ops.push_back(o); };
    for (auto &o : dimOps(d[0], d[1], d[2])) go(o);
    if (stage < 1) return;
    for (uint32_t vr = 4; vr <= 9; vr++) { long n = r.size(F64, vr); std::vector<double> v; for (long i = 0; i < n; i++) v.push_back(base + 10.0 * vr + (double)i / 8 + 0.5); go(opSetD(F64, {vr}, v)); }
    if (stage < 2) return;
    go(opInit(0.5)); go(op(K_EXIT_INIT));
    if (stage < 3) return;
    if (c.iface == ME) { go(op(K_UPDATE)); go(op(K_ENTER_CTM)); std::vector<double> x((size_t)d[1]); for (size_t i = 0; i < x.size(); i++) x[i] = base + 100 + (double)i; if (x.size()) go(opStates(x)); go(opTime(0.75)); }
    else { if (c.eventMode) { go(op(K_UPDATE)); go(op(K_ENTER_STEP)); } const double H = solverStep(SS); for (int k = 0; k < 3; k++) go(opStep(r.nextCP, H)); }
    if (stage < 4) return;
    go(op(K_TERMINATE));
}
// what can be seen from here: everything as it is, then at the largest and at other sizes, then in use
static void dimLook(const Config &c, Ref r, std::array<int, 3> d, std::vector<Op> &ops) {
    auto go = [&](const Op &o) { Ref q = r; Out e = q.apply(o); if (e.skip || e.leaf || e.st != OK) return; r = q; ops.push_back(o); };
    auto look = [&] { for (auto &o : readAll(r)) ops.push_back(o); };
    look();
    if (r.mode == M_TERM) { go(op(K_RESET)); look(); }
    if (r.mode == M_CTM) go(op(K_ENTER_EVENT));
    if (r.mode == M_EVENT && c.iface == CS) go(op(K_ENTER_STEP));
    for (auto &o : dimOps(d[0], d[1], d[2])) go(o);
    look();
    if (r.mode == M_INST) { go(opInit(0)); look(); go(op(K_EXIT_INIT)); }
    look();
    if (c.iface == ME) { go(op(K_UPDATE)); go(op(K_ENTER_CTM)); look(); } else { go(op(K_UPDATE)); go(op(K_ENTER_STEP)); go(opStep(r.nextCP, solverStep(SS))); look(); }
}
static bool dimSame(Sys &s, const Config &c, const Image &A, const Image &B, const std::vector<Op> &look, const std::string &what, const std::vector<Op> &hist) {
    std::vector<Out> a; s.restore(A); for (auto &o : look) { a.push_back(s.exec(o)); R.transitions++; }
    s.restore(B); for (size_t k = 0; k < look.size(); k++) {
        Out e = s.exec(look[k]); R.transitions++; std::string why; if (sameOut(a[k], e, 0, why)) continue;
        auto h = hist; h.insert(h.end(), look.begin(), look.begin() + (long)k + 1);
        R.violation(cfgName(c) + ": " + what + ": " + look[k].text() + ": " + why, traceText("history", {c, h}, e.text(), a[k].text())); return false;
    }
    return true;
}
static void resetDims(const Config &c) {
    Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("instantiate"); Image fresh; s.snap(fresh); Ref rf; rf.init(c);
    auto first = allDims(true), second = allDims(thorough);
    for (auto &d : first) for (int stage = 0; stage <= 4; stage++) {
        std::vector<Op> ops; Ref r; dimHistory(c, d, stage, ops, r); ops.push_back(op(K_RESET));
        s.restore(fresh); Out g; for (auto &o : ops) { g = s.exec(o); R.transitions++; } Image im; s.snap(im); R.states++;
        if (g.st != OK) { R.violation(cfgName(c) + ": Reset returns " + g.text(), traceText("history", {c, ops})); return; }
        for (auto &e : second) { std::vector<Op> look; dimLook(c, rf, e, look); R.extra["resets_between_dimensions"]++; if (!dimSame(s, c, im, fresh, look, strf("after a reset of an instance with %d inputs, %d states and %d outputs, compared with a new instance", d[0], d[1], d[2]), ops)) return; }
        R.traces++;
    }
}
static void restoreDims(const Config &c) {
    Sys s; s.suffixNames = false; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("instantiate"); Image fresh; s.snap(fresh);
    auto first = allDims(thorough), second = allDims(thorough);
    for (auto &d : first) for (int stage = 0; stage <= 4; stage++) {
        std::vector<Op> ops; Ref r; dimHistory(c, d, stage, ops, r);
        s.restore(fresh); for (auto &o : ops) { s.exec(o); R.transitions++; } Image at; s.snap(at);
        Op get = op(K_FS_GET), ser = op(K_FS_SER), des = op(K_FS_DES); des.b = 1;
        for (auto &o : {get, ser, des}) { Out g = s.exec(o); ops.push_back(o); if (g.st != OK) { R.violation(cfgName(c) + ": " + o.text() + " returns " + g.text(), traceText("history", {c, ops})); return; } }
        Op rst = op(K_RESET); s.exec(rst); ops.push_back(rst); Image base; s.snap(base); std::vector<Op> look; dimLook(c, r, {5, 5, 5}, look); R.states++;
        for (auto &e : second) {
            const int st2 = (stage + e[0] + e[1] + e[2]) % 4; std::vector<Op> more; Ref r2; dimHistory(c, e, st2, more, r2, -300);
            s.restore(base); for (auto &o : more) { s.exec(o); R.transitions++; } Image there; s.snap(there);
            for (int slot = 0; slot < 2; slot++) {
                s.restore(there); Op set = op(K_FS_SET); set.a = slot; Out g = s.exec(set); auto h = ops; h.insert(h.end(), more.begin(), more.end()); h.push_back(set);
                if (g.st != OK) { R.violation(cfgName(c) + ": restoring returns " + g.text(), traceText("history", {c, h})); return; }
                Image im; s.snap(im); R.extra["restores_between_dimensions"]++;
                if (!dimSame(s, c, im, at, look, strf("a state with %d inputs, %d states and %d outputs restored in an instance with %d, %d and %d", d[0], d[1], d[2], e[0], e[1], e[2]), h)) return;
            }
        }
        R.traces++;
    }
}

// ------------------------------------------------------------------ C03
void checkC03() {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) {
        Config c = withLogging(c0);
        jobs.push_back({cfgName(c), [c] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c);
            ModelId m = modelId(c.model);
            Reach rc; rc.s = &s; rc.cfg = c; rc.maxStates = thorough ? 200000 : 60000; rc.nv = m == FT || m == SS ? 1 : 2; rc.run();
            s.fresh(); s.instantiate(0, &c); Image fresh; s.snap(fresh); Ref rf; rf.init(c);
            std::unordered_set<H128, H128h> resets;
            Twin t; t.s = &s; t.cfg = c; t.alphabet = [m](const Ref &r, std::vector<Op> &a) { smallAlphabet(r, a); };
            t.maxDepth = thorough ? 12 : m == SS ? 8 : 10; t.maxPairs = 1000000;
            for (size_t k = 0; k < rc.v.size(); k++) {
                s.restore(rc.v[k].im);
                Out g = s.exec(op(K_RESET)); R.transitions++;
                auto p = rc.path(k); p.push_back(op(K_RESET));
                if (g.st != OK) { R.violation(cfgName(c) + ": Reset returns " + g.text() + " after " + pathText(p), traceText("history", {c, p}, "OK", g.text())); break; }
                Image im; s.snap(im); if (!resets.insert(hashStr(im.bytes)).second) continue;
                std::string w = t.differ(im, fresh, rf);
                if (!w.empty()) {
                    auto p2 = p; p2.insert(p2.end(), t.failOps.begin(), t.failOps.end());
                    R.violation(cfgName(c) + ": after a reset, " + w + " compared with a new instance; before the reset: " + pathText(rc.path(k)), traceText("reset instance", {c, p2}) + traceText("new instance", {c, t.failOps}));
                    break;
                }
                if (resets.size() == 3) R.samples.push_back(cfgName(c) + ": " + pathText(p) + " compared with a new instance");
            }
            // the same history and reset over and over again
            Pump pu{s}; pu.rounds = 70; const size_t every = std::max<size_t>(1, rc.v.size() / (thorough ? 5000 : 1500));
            for (size_t k = 0; k < rc.v.size() && !R.violations; k += k < 300 ? 1 : every) {
                auto p = rc.path(k); p.push_back(op(K_RESET)); bool same = pu.run(fresh, p); std::string w = pu.why;
                if (same) { if (!resets.insert(hashStr(pu.last.bytes)).second) continue; w = t.differ(pu.last, fresh, rf); }
                if (!w.empty()) { auto p2 = pu.failOps; if (same) p2.insert(p2.end(), t.failOps.begin(), t.failOps.end()); R.violation(cfgName(c) + ": after a number of resets, " + w + " compared with a new instance; each time: " + pathText(p), traceText("reset instance", {c, p2}) + traceText("new instance", {c, same ? t.failOps : p})); break; }
            }
            R.extra["repeated_resets"] += pu.cycles; R.transitions += pu.calls;
            R.states += rc.v.size() + t.pairs; R.transitions += rc.trans + t.trans; R.traces += resets.size();
            R.extra["histories_before_reset"] += rc.v.size(); R.extra["distinct_reset_images"] += resets.size(); R.extra["pairs_compared"] += t.pairs; R.extra["pairs_with_equal_memory"] += t.equal;
            if (rc.capped || t.capped) R.exhaustive = false;
        }});
        if (modelId(c.model) == SS) jobs.push_back({cfgName(c) + " dimensions", [c] { resetDims(c); }});
        // with other log settings, made at the start and again after the reset
        for (int z = 0; z < 3; z++) jobs.push_back({cfgName(c) + strf(" log setting %d", z), [c, z] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); std::vector<Op> set; { Op d = op(K_DEBUG); d.f = false; set.push_back(d); if (z) { d.f = true; d.s = {z == 1 ? "logEvents" : "logStatusError"}; set.push_back(d); } }
            s.fresh(); if (!s.instantiate(0, &c)) die("instantiate"); for (auto &o : set) s.exec(o); Image start; s.snap(start); Ref rf; rf.init(c);
            Reach rc; rc.s = &s; rc.cfg = c; rc.maxStates = thorough ? 8000 : 2000; rc.nv = 1; rc.prefix = set; rc.run();
            Twin t; t.s = &s; t.cfg = c; t.alphabet = [](const Ref &r, std::vector<Op> &a) { smallAlphabet(r, a); }; t.maxDepth = 6; t.maxPairs = 100000; std::unordered_set<H128, H128h> resets;
            for (size_t k = 0; k < rc.v.size(); k++) {
                std::vector<Op> p = set; { auto q = rc.path(k); p.insert(p.end(), q.begin(), q.end()); } p.push_back(op(K_RESET)); s.restore(rc.v[k].im); Out g = s.exec(op(K_RESET)); R.transitions++;
                if (g.st != OK) { R.violation(cfgName(c) + ": Reset returns " + g.text() + " after " + pathText(p), traceText("history", {c, p}, "OK", g.text())); return; }
                for (auto &o : set) { s.exec(o); p.push_back(o); } Image im; s.snap(im); if (!resets.insert(hashStr(im.bytes)).second) continue;
                std::string w = t.differ(im, start, rf);
                if (!w.empty()) { auto q = set; p.insert(p.end(), t.failOps.begin(), t.failOps.end()); q.insert(q.end(), t.failOps.begin(), t.failOps.end()); R.violation(cfgName(c) + ": after a reset, " + w + " compared with a new instance; history: " + pathText(p), traceText("reset instance", {c, p}) + traceText("new instance", {c, q})); return; }
            }
            R.states += rc.v.size() + t.pairs; R.transitions += rc.trans + t.trans; R.traces += resets.size(); R.extra["histories_before_reset"] += rc.v.size(); R.extra["distinct_reset_images"] += resets.size();
            if (rc.capped || t.capped) R.exhaustive = false;
        }});
        // after each call of a whole experiment, alone and as the second of two experiments
        for (int variant = 0; variant < nScripts; variant++) jobs.push_back({cfgName(c) + strf(" experiment %d", variant), [c, variant] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("instantiate");
            Image fresh; s.snap(fresh); Ref rf; rf.init(c); Script sc = longScript(c, variant), other = longScript(c, (variant + 1) % nScripts); std::unordered_set<H128, H128h> resets;
            Twin t; t.s = &s; t.cfg = c; t.alphabet = [](const Ref &r, std::vector<Op> &a) { smallAlphabet(r, a); }; t.maxDepth = 8; t.maxPairs = 100000;
            for (int round = 0; round < 2; round++) {
                std::vector<Op> hist; s.restore(fresh);
                if (round) { for (auto &o : other.ops) { s.exec(o); hist.push_back(o); } s.exec(op(K_RESET)); hist.push_back(op(K_RESET)); }
                for (size_t k = 0; k <= sc.ops.size(); k++) {
                    Image here; s.snap(here); Out g = s.exec(op(K_RESET)); R.transitions++; R.states++; Image im; s.snap(im);
                    if (g.st != OK) { auto p = hist; p.push_back(op(K_RESET)); R.violation(cfgName(c) + strf(": Reset returns %s %zu calls after the instantiation", g.text().c_str(), hist.size()), traceText("history", {c, p}, "OK", g.text())); return; }
                    if (resets.insert(hashStr(im.bytes)).second) {
                        std::string w = t.differ(im, fresh, rf);
                        if (!w.empty()) { auto p = hist; p.push_back(op(K_RESET)); p.insert(p.end(), t.failOps.begin(), t.failOps.end()); R.violation(cfgName(c) + ": after a reset, " + w + strf(" compared with a new instance; reset after %zu calls", hist.size()), traceText("reset instance", {c, p}) + traceText("new instance", {c, t.failOps})); return; }
                    }
                    s.restore(here); if (k < sc.ops.size()) { s.exec(sc.ops[k]); R.transitions++; hist.push_back(sc.ops[k]); }
                }
            }
            R.states += t.pairs; R.transitions += t.trans; R.traces += 2; R.extra["experiment_calls"] += 2 * sc.ops.size(); R.extra["distinct_reset_images"] += resets.size();
            if (t.capped) R.exhaustive = false;
        }});
    }
    runJobs(jobs, 8, 800);
}

// ------------------------------------------------------------------ C04
static void failState(const Config &c, const std::string &what, const std::vector<Op> &p, const std::vector<Op> &ref = {}) {
    R.violation(cfgName(c) + ": " + what, traceText("history", {c, p}) + (ref.empty() ? "" : traceText("simpler history", {c, ref})));
}
static Op fs(K k, int a = 0, int b = 0, int who = 0) { Op o = op(k); o.a = a; o.b = b; o.who = who; return o; }
// a state saved at any point of a whole experiment and restored at any later (or earlier) point; many states at once
static void longStates(const Config &c, int variant) {
    Sys s; s.suffixNames = false; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("instantiate");
    Script sc = longScript(c, variant); auto pts = sc.points(100); std::vector<Image> at; uint64_t restores = 0;
    Twin t; t.s = &s; t.cfg = c; t.alphabet = [](const Ref &r, std::vector<Op> &a) { richAlphabet(r, a, 1); a.push_back(op(K_RESET)); }; t.maxDepth = 5; t.maxPairs = 300;
    { size_t n = 0; for (size_t k : pts) { for (; n < k; n++) { s.exec(sc.ops[n]); R.transitions++; } Image im; s.snap(im); at.push_back(im); } }
    auto same = [&](const Image &A, size_t i, const std::vector<Op> &p, const char *what) {
        std::string w = t.differ(A, at[i], sc.refs[pts[i]]); restores++; if (w.empty()) return true;
        auto p2 = p, p3 = sc.first(pts[i]); p2.insert(p2.end(), t.failOps.begin(), t.failOps.end()); p3.insert(p3.end(), t.failOps.begin(), t.failOps.end());
        failState(c, std::string(what) + ": " + w + strf("; saved after %zu calls", pts[i]), p2, p3); return false;
    };
    for (size_t i = 0; i < pts.size(); i++) {
        s.restore(at[i]); std::vector<Op> p = sc.first(pts[i]); auto go = [&](const Op &o) { p.push_back(o); R.transitions++; return s.exec(o); };
        for (auto &o : {fs(K_FS_GET, 0), fs(K_FS_SER, 0, 0), fs(K_FS_DES, 0, 1)}) { Out g = go(o); if (g.st != OK) { failState(c, o.text() + strf(" returns %s after %zu calls", g.text().c_str(), pts[i]), p); return; } }
        size_t n = pts[i];
        for (size_t j = i; j < pts.size(); j++) {
            for (; n < pts[j]; n++) go(sc.ops[n]);
            Image here, im; s.snap(here); auto hp = p;
            Out g = go(fs(K_FS_SET, (int)(j % 2))); if (g.st != OK) { failState(c, strf("restoring the state returns %s", g.text().c_str()), p); return; }
            s.snap(im); if (!same(im, i, p, j % 2 ? "after restoring the deserialized state" : "after restoring the state")) return;
            s.restore(here); p = hp;
        }
        // forward: from a new instance (or an earlier point) to the saved one
        const std::string ser = s.w.ser[0];
        for (size_t e : {(size_t)0, i / 2}) {
            s.restore(at[e]); s.w.ser[0] = ser; std::vector<Op> q = sc.first(pts[e]); Out g;
            for (auto &o : {fs(K_FS_DES, 0, 1), fs(K_FS_SET, 1)}) { g = s.exec(o); R.transitions++; if (g.st != OK) break; }
            if (g.st != OK) { failState(c, strf("restoring a later state returns %s", g.text().c_str()), q); return; }
            Image im; s.snap(im); if (!same(im, i, p, "after restoring the serialized state of a later point")) return;
        }
    }
    // all of them alive at once, restored in rising, falling and alternating order, freed in between
    s.restore(at[0]); std::vector<void *> st(pts.size(), nullptr); size_t n = 0; std::string w; std::vector<Op> p;
    auto raw = [&](K k, size_t i) -> int { s.w.slot[0] = st[i]; Out g = s.exec(fs(k, 0)); st[i] = s.w.slot[0]; s.w.slot[0] = nullptr; R.transitions++; return g.st; };
    for (size_t i = 0; i < pts.size(); i++) { for (; n < pts[i]; n++) s.exec(sc.ops[n]); if (raw(K_FS_GET, i) != OK) { failState(c, strf("saving state number %zu fails", i + 1), sc.first(n)); return; } }
    for (int order = 0; order < 3; order++) for (size_t q = 0; q < pts.size(); q++) {
        size_t i = order == 0 ? q : order == 1 ? pts.size() - 1 - q : q % 2 ? pts.size() - 1 - q / 2 : q / 2;
        if (raw(K_FS_SET, i) != OK) { failState(c, strf("restoring one of %zu states fails", pts.size()), sc.first(n)); return; }
        Image im; s.snap(im); if (!same(im, i, sc.ops, "after restoring one of many states")) return;
        s.restore(im); if (order == 2 && raw(K_FS_FREE, i) != OK) { failState(c, "freeing one of many states fails", sc.first(n)); return; }
        if (order == 2 && st[i]) { failState(c, "freeing one of many states does not clear it", sc.first(n)); return; }
    }
    s.exec(op(K_FREE)); if (!arena::intact(w) || arena::live()) { failState(c, w.empty() ? "memory remains after all states and the instance were freed" : w, sc.ops); return; }
    R.states += pts.size() * (pts.size() + 1) / 2 + t.pairs; R.transitions += t.trans; R.traces += pts.size(); R.extra["experiment_restores"] += restores; R.extra["pairs_with_equal_memory"] += t.equal;
    if (t.capped) R.exhaustive = false;
}
void checkC04() {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) {
        Config c = withLogging(c0);
        const int parts = 4;
        std::vector<std::vector<Op>> begins = {{}};          // further on in the experiment, close to events
        {
            ModelId m = modelId(c.model); auto late = [&](std::vector<Op> v, Mode to, double start) { for (auto &o : toMode(c, to, start)) v.push_back(o); begins.push_back(v); }; const Mode to = c.iface == ME ? M_CTM : c.iface == CS ? M_STEP : M_CLOCK;
            if (m == BB) for (auto &x : std::vector<std::vector<double>>{{-0.0015, 1}, {0.0025, -1}, {0.05, -30}, {0.0005, -0.1}}) late({opSetD(F64, {1, 3}, x)}, to, x[1] < -20 ? 12.5 : 0);
            else if (m == STAIR) for (int n : {1, 8, -5}) late({opSetI(I32, {1}, {n})}, to, n == 1 ? 12.5 : n == 8 ? -0.3 : 0);
            else late({}, to, 12.5);
        }
        for (auto &begin : begins) for (int part = 0; part < parts; part++)
        jobs.push_back({cfgName(c) + strf(" start %zu part %d", (size_t)(&begin - &begins[0]), part), [c, part, begin] {
            Sys s; s.suffixNames = false; s.open(loadLib(libDir, c.model, c.ver), c);
            ModelId m = modelId(c.model);
            Reach rc; rc.s = &s; rc.cfg = c; rc.maxStates = begin.empty() ? (thorough ? 20000 : 4000) : (thorough ? 4000 : 600); rc.nv = 1; rc.begin = begin; rc.run([m](const Ref &, std::vector<Op> &a) { if (m == BB) a.push_back(opSetD(F64, {1, 3}, {-0.0015, 1})); });
            auto alpha = [m](const Ref &r, std::vector<Op> &a) { richAlphabet(r, a, 1); if (m == BB) a.push_back(opSetD(F64, {1, 3}, {-0.0015, 1})); a.push_back(op(K_RESET)); };
            Twin t; t.s = &s; t.cfg = c; t.alphabet = alpha; t.maxDepth = 6; t.maxPairs = 400;
            // other instance: conditions in which the state is restored there
            uint64_t restores = 0;
            for (size_t k = (size_t)part; k < rc.v.size(); k += parts) {
                auto base = rc.path(k); const Ref &r0 = rc.v[k].r;
                auto step = [&](const Op &o, std::vector<Op> &p) -> bool { p.push_back(o); Out g = s.exec(o); R.transitions++; if (g.st != OK || (g.i.size() && o.k != K_FS_SIZE && g.i[0] != 1)) { failState(c, o.text() + " returns " + g.text() + " after " + pathText(base), p); return false; } return true; };
                auto same = [&](const Image &A, int who, const char *what, const std::vector<Op> &p) -> bool {
                    t.whoA = who; std::string w = t.differ(A, rc.v[k].im, r0); if (w.empty()) return true;
                    auto p2 = p, p3 = base; for (auto o : t.failOps) { o.who = who; p2.push_back(o); } p3.insert(p3.end(), t.failOps.begin(), t.failOps.end());
                    failState(c, std::string(what) + ": " + w + "; saved after: " + pathText(base), p2, p3); return false;
                };
                // saving changes nothing
                s.restore(rc.v[k].im); auto p = base; Image saved, im;
                if (!step(fs(K_FS_GET, 0), p)) return; s.snap(saved);
                if (!same(saved, 0, "after saving the state", p)) return;
                // every condition within two calls (quick) of the saved one, then restore
                struct D { Image im; Ref r; std::vector<Op> p; }; std::vector<D> ds; ds.push_back({saved, r0, p});
                std::unordered_set<H128, H128h> seen; seen.insert(hashStr(saved.bytes)); size_t lo = 0;
                for (int d = 0; d < 2; d++) {
                    size_t hi = ds.size();
                    for (size_t x = lo; x < hi; x++) {
                        std::vector<Op> a; alpha(ds[x].r, a);
                        for (auto &o : a) {
                            Ref r = ds[x].r; Out e = r.apply(o); if (e.skip || e.leaf) continue;
                            s.restore(ds[x].im); Out g = s.exec(o); R.transitions++; if (g.st != e.st) continue;
                            Image n; s.snap(n); if (!seen.insert(hashStr(n.bytes)).second) continue;
                            if (d == 1 && ds.size() > (size_t)(thorough ? 400 : 200)) { R.extra["second_level_left_out"]++; continue; }
                            D q; q.im = n; q.r = r; q.p = ds[x].p; q.p.push_back(o); ds.push_back(std::move(q));
                        }
                    }
                    lo = hi;
                }
                for (auto &d : ds) {
                    s.restore(d.im); auto p2 = d.p; if (!step(fs(K_FS_SET, 0), p2)) return; restores++; s.snap(im);
                    if (!same(im, 0, "after restoring the state", p2)) return;
                }
                // restore again, after the restored instance was used; overwrite an existing saved state
                { auto &d = ds.back(); s.restore(d.im); auto p2 = d.p; for (int n = 0; n < 2; n++) { if (!step(fs(K_FS_SET, 0), p2)) return; restores++; s.snap(im); if (!same(im, 0, "after restoring the state again", p2)) return; Op o = opGet(F64, {99}); s.restore(im); s.exec(o); p2.push_back(o); } }
                if (ds.size() > 1) { s.restore(ds[1].im); auto p2 = ds[1].p; Image b4; s.snap(b4); if (!step(fs(K_FS_GET, 1), p2)) return; if (!step(fs(K_FS_SET, 0), p2)) return; s.snap(im); if (!same(im, 0, "after restoring the first of two states", p2)) return;
                }
                for (size_t x = 1; x < ds.size() && x <= (size_t)(thorough ? 40 : 8); x++) {
                    // the state of another condition is saved first, then overwritten with that of this one
                    s.restore(ds[x].im); auto p2 = ds[x].p; if (!step(fs(K_FS_GET, 1), p2) || !step(fs(K_FS_SET, 0), p2) || !step(fs(K_FS_GET, 1), p2)) return; s.snap(im); if (!same(im, 0, "after saving over another state", p2)) return;
                    s.restore(im); for (size_t y = base.size() + 1; y < ds[x].p.size(); y++) { s.exec(ds[x].p[y]); p2.push_back(ds[x].p[y]); }
                    if (!step(fs(K_FS_SET, 1), p2)) return; restores++; s.snap(im); if (!same(im, 0, "after restoring a state that was saved over another one", p2)) return;
                }
                // serialization
                s.restore(saved); p = base; p.push_back(fs(K_FS_GET, 0));
                if (!step(fs(K_FS_SIZE, 0), p) || !step(fs(K_FS_SER, 0, 0), p)) return;
                s.snap(im); if (!same(im, 0, "after serializing the state", p)) return;
                s.restore(im); if (!step(fs(K_FS_DES, 0, 1), p)) return; Image des; s.snap(des); if (!same(des, 0, "after deserializing the state", p)) return;
                for (size_t x = 0; x < ds.size(); x += 7) {
                    // the conditions of ds with the deserialized state in slot 1
                    s.restore(saved); std::vector<Op> p2 = base; p2.push_back(fs(K_FS_GET, 0)); for (auto o : {fs(K_FS_SER, 0, 0), fs(K_FS_DES, 0, 1), fs(K_FS_FREE, 0)}) if (!step(o, p2)) return;
                    for (size_t y = base.size() + 1; y < ds[x].p.size(); y++) { s.exec(ds[x].p[y]); p2.push_back(ds[x].p[y]); }
                    if (!step(fs(K_FS_SET, 1), p2)) return; restores++; s.snap(im); if (!same(im, 0, "after restoring the deserialized state", p2)) return;
                }
                // into another instance, in several conditions of its own
                for (int cond = 0; cond < 3; cond++) {
                    s.restore(des); auto p2 = p; Op in = op(K_INSTANTIATE); in.who = 1; if (!step(in, p2)) return;
                    std::vector<Op> pre; if (cond == 1) pre = toMode(c, c.iface == ME ? M_CTM : c.iface == CS ? M_STEP : M_CLOCK, 0.25); if (cond == 2) pre = {opGet(F64, {99})};
                    for (auto o : pre) { o.who = 1; s.exec(o); p2.push_back(o); }
                    Image b4; s.snap(b4);
                    for (int slot = 0; slot < 2; slot++) {
                        s.restore(b4); auto p3 = p2; if (!step(fs(K_FS_SET, slot, 0, 1), p3)) return; restores++; s.snap(im);
                        if (!same(im, 1, slot ? "after restoring the deserialized state in another instance" : "after restoring the state in another instance", p3)) return;
                    }
                    s.restore(b4); auto p3 = p2; if (!step(fs(K_FS_DES, 0, 2, 1), p3) || !step(fs(K_FS_SET, 2, 0, 1), p3)) return; s.snap(im); if (!same(im, 1, "after deserializing and restoring in another instance", p3)) return;
                }
                // saving, restoring, serializing and deserializing over and over again
                if (k < 100 || k / parts % 8 == 0) {
                    Pump pu{s}; pu.rounds = 80; std::vector<Op> away; if (ds.size() > 1) away.assign(ds[1].p.begin() + (long)base.size() + 1, ds[1].p.end()); away.push_back(fs(K_FS_SET, 0));
                    std::vector<std::vector<Op>> cy = {{fs(K_FS_GET, 0)}, {fs(K_FS_SET, 0)}, {fs(K_FS_SER, 0, 0)}, {fs(K_FS_DES, 0, 1)}, {fs(K_FS_GET, 1), fs(K_FS_FREE, 1)}, {fs(K_FS_SET, 0), fs(K_FS_GET, 0)}, {fs(K_FS_SET, 0), fs(K_FS_GET, 0), fs(K_FS_SER, 0, 0), fs(K_FS_DES, 0, 1), fs(K_FS_SET, 1)}, away};
                    for (auto &x : cy) {
                        bool ok = pu.run(des, x); auto p2 = p; p2.insert(p2.end(), pu.failOps.begin(), pu.failOps.end()); restores += pu.failOps.size();
                        if (!ok) { failState(c, "repeated: " + pu.why + "; after " + pathText(base), p2); return; }
                        if (!same(pu.last, 0, "after repeated saving and restoring", p2)) return;
                        // and what is saved is still what was there
                        s.restore(pu.last); if (!step(fs(K_FS_SET, 0), p2)) return; s.snap(im); if (!same(im, 0, "after repeated saving and restoring and one more restore", p2)) return;
                    }
                    R.transitions += pu.calls; R.extra["repeated_saves"] += pu.cycles;
                }
                // refusals
                struct Bad { Op o; const char *what; }; std::vector<Bad> bad = {{fs(K_FS_SET, -1), "restoring a missing state"}, {fs(K_FS_SER, -1), "serializing a missing state"}};
                for (int dl : {-1, 1, 8, -100}) { Op o = fs(K_FS_SER, 0, 2); o.n = 1000 + dl; bad.push_back({o, "serializing with a wrong length"}); o = fs(K_FS_DES, 0, 2); o.n = 1000 + dl; bad.push_back({o, "deserializing with a wrong length"}); }
                { Op o = fs(K_FS_DES, 2, 2); bad.push_back({o, "deserializing an empty vector"}); }
                for (auto &b : bad) { s.restore(des); Out g = s.exec(b.o); R.transitions++; if (g.st != ERROR) { auto p2 = p; p2.push_back(b.o); failState(c, std::string(b.what) + " returns " + g.text() + ", expected Error", p2); return; } }
                // the refused deserialization leaves the states usable
                s.restore(des); Op o = fs(K_FS_DES, 0, 1); o.n = 1001; s.exec(o); auto p2 = p; p2.push_back(o); if (!step(fs(K_FS_SET, 1), p2)) return; s.snap(im); if (!same(im, 0, "after a refused deserialization and a restore", p2)) return;
                R.traces++;
            }
            R.states += (rc.v.size() + (size_t)part) / parts + t.pairs; R.transitions += t.trans; R.extra["saved_states"] += (rc.v.size() + (size_t)part) / parts; R.extra["restores"] += restores; R.extra["pairs_compared"] += t.pairs; R.extra["pairs_with_equal_memory"] += t.equal;
            if (rc.capped || t.capped || R.extra["second_level_left_out"]) R.exhaustive = false;
            if (part == 0 && rc.v.size() > 20) R.samples.push_back(cfgName(c) + ": saved after " + pathText(rc.path(20)) + ", restored after every two further calls");
        }});
        if (modelId(c.model) == SS) jobs.push_back({cfgName(c) + " dimensions", [c] { restoreDims(c); }});
        for (int variant = 0; variant < nScripts; variant++) jobs.push_back({cfgName(c) + strf(" experiment %d", variant), [c, variant] { longStates(c, variant); }});
    }
    runJobs(jobs, 8, 800);
}

// ------------------------------------------------------------------ C05
void smallAlphabet(const Ref &r, std::vector<Op> &a) {
    ModelId m = (ModelId)r.model; double H = solverStep(m);
    std::vector<Op> flow; flowAlphabet(r, flow); for (auto &o : flow) if (o.k != K_ENTER_CONFIG || m == SS) a.push_back(o);
    if (r.mode == M_CONFIG) a.push_back(opSetI(U64, {2}, {1}));
    auto st = setOps(r, 1); if (m == BB) st = {opSetD(F64, {1}, {0.0005}), opSetD(F64, {3}, {-1}), opSetD(F64, {6}, {0.5})};
    if (m == FT) { std::vector<Op> few; for (auto &o : st) if (o.ty == STR || o.ty == BIN || (o.ty == F64 && o.vr[0] == 7) || o.ty == BOOL) few.push_back(o); st = few; }
    if (m == SS) { std::vector<Op> few; for (auto &o : st) if (o.ty == F64 && (o.vr[0] == 4 || o.vr[0] == 9 || o.vr[0] == 11)) few.push_back(o); st = few; }
    if (m == STAIR) st = {opSetI(I32, {1}, {9})};
    if (m == ROB) st = {opSetD(F64, {2}, {0.5}), opSetI(BOOL, {1}, {1})};
    for (auto &o : st) a.push_back(o);
    if (r.mode == M_STEP && r.n < (m == STAIR ? 10 : 2)) a.push_back(opStep(r.nextCP, m == STAIR ? 1.0 : H));
    if (r.mode == M_CTM && r.nx()) { std::vector<double> x(r.nx()); for (size_t i = 0; i < x.size(); i++) x[i] = m == BB ? (i ? -1.0 : -0.001) : 0.5 + (double)i; a.push_back(opStates(x)); }
    if (r.iface == ME && r.mode == M_CTM) a.push_back(opTime(m == STAIR ? std::min(r.nextT, 3.0) : 0.25));
    if (m == CLOCKS && r.mode == M_CLOCK && r.total < 3) for (uint32_t k = 1001; k <= 1003; k++) { Op p = op(K_ACTIVATE); p.vr = {k}; a.push_back(p); }
    if (m == CLOCKS && r.mode == M_CLOCK) { Op g = op(K_GETCLOCK); g.vr = {1005}; a.push_back(g); g = op(K_GET_INTERVAL); g.vr = {1003}; a.push_back(g); }
    if (r.mode != M_TERM) a.push_back(opGet(F64, {99})); else a.push_back(op(K_RESET));
}
static void fillSolo(Sys &s, const Config &c, const Script &sc, int who, std::vector<Out> &out, std::vector<std::vector<Out>> &reads) {      // results of the experiment alone
    s.fresh(); if (!s.instantiate(who, &c)) die("instantiate");
    for (size_t k = 0; k <= sc.ops.size(); k++) {
        Image im; s.snap(im); std::vector<Out> rd; for (auto o : readAll(sc.refs[k])) { o.who = who; rd.push_back(s.exec(o)); } reads.push_back(rd); s.restore(im);
        if (k < sc.ops.size()) { Op o = sc.ops[k]; o.who = who; out.push_back(s.exec(o)); R.transitions++; }
    }
}
static void longPair(const Config &ca, const Config &cb) {
    Sys s; s.open(loadLib(libDir, ca.model, ca.ver), ca); const Config *cf[2] = {&ca, &cb};
    Script sc[2] = {longScript(ca, 0), longScript(cb, 1)}; std::vector<size_t> pts[2] = {sc[0].points(thorough ? 90 : 36), sc[1].points(thorough ? 90 : 36)};
    std::vector<Out> solo[2]; std::vector<std::vector<Out>> rd[2]; for (int i = 0; i < 2; i++) fillSolo(s, *cf[i], sc[i], i, solo[i], rd[i]);
    s.fresh(); for (int i = 0; i < 2; i++) if (!s.instantiate(i, cf[i])) { Op in = op(K_INSTANTIATE); in.who = i; R.violation(cfgName(ca) + " with " + cfgName(cb) + ": a second instance cannot be created", traceText("together", {ca, {in}})); return; }
    // joint positions (i, j), each with the distinct memory images that reach it
    struct P { Image im; std::string how; }; const size_t na = pts[0].size(), nb = pts[1].size(); std::vector<std::vector<P>> row(nb), next;
    { Image im; s.snap(im); row[0].push_back({im, ""}); } std::unordered_set<H128, H128h> seen;
    auto fail = [&](const std::string &how, int who, size_t k, const std::string &w) {
        std::vector<Op> h; Op in = op(K_INSTANTIATE); in.who = 1; h.push_back(in); size_t at[2] = {0, 0}, n[2] = {0, 0};
        for (char ch : how) { int q = ch == 'b'; at[q]++; for (; n[q] < pts[q][at[q]]; n[q]++) { Op o = sc[q].ops[n[q]]; o.who = q; h.push_back(o); } }
        for (; n[who] < std::min(k + 1, sc[who].ops.size()); n[who]++) { Op o = sc[who].ops[n[who]]; o.who = who; h.push_back(o); }
        R.violation(cfgName(ca) + " with " + cfgName(cb) + strf(": in two experiments side by side, call %zu of instance %d: ", k + 1, who + 1) + w + " than alone", traceText("together", {ca, h}));
    };
    for (size_t i = 0; i < na; i++) {
        next.assign(nb, {});
        for (size_t j = 0; j < nb; j++) for (size_t z = 0; z < row[j].size(); z++) {
            P p = row[j][z]; R.states++; std::string why; s.restore(p.im);
            size_t pos[2] = {pts[0][i], pts[1][j]};
            for (int q = 0; q < 2; q++) { auto ops = readAll(sc[q].refs[pos[q]]); for (size_t k = 0; k < ops.size(); k++) { Op o = ops[k]; o.who = q; Out g = s.exec(o); R.transitions++; if (!sameOut(g, rd[q][pos[q]][k], 0, why)) { fail(p.how, q, pos[q], o.text() + " has another result (" + why + ")"); return; } } }
            for (int q = 0; q < 2; q++) {
                if (q == 0 ? i + 1 >= na : j + 1 >= nb) continue;
                s.restore(p.im); size_t to = q == 0 ? pts[0][i + 1] : pts[1][j + 1];
                for (size_t k = pos[q]; k < to; k++) { Op o = sc[q].ops[k]; o.who = q; Out g = s.exec(o); R.transitions++; if (!sameOut(g, solo[q][k], 0, why)) { fail(p.how, q, k, o.text() + " has another result (" + why + ")"); return; } for (auto &l : s.logs) if (l.who != q) { fail(p.how, q, k, "other messages"); return; } }
                P n; s.snap(n.im); n.how = p.how + (q ? 'b' : 'a');
                if (!seen.insert(hashStr(n.im.bytes, i * 1000 + j * 2 + (size_t)q * 1000001)).second) continue;
                auto &cell = q == 0 ? next[j] : row[j + 1]; bool dup = false; for (auto &e : cell) dup = dup || e.im.bytes == n.im.bytes;
                if (dup) continue;
                if (cell.size() >= 4) { R.exhaustive = false; continue; }
                cell.push_back(std::move(n));
            }
        }
        row.swap(next);
    }
    R.traces++; R.extra["joint_positions_of_experiments"] += na * nb;
}
static void manyInstances(const Config &c, size_t count) {
    Sys s; s.suffixNames = false; s.open(loadLib(libDir, c.model, c.ver), c); Script sc[2] = {longScript(c, 0), longScript(c, 1)}; std::vector<Out> solo[2]; std::vector<std::vector<Out>> rd[2]; for (int i = 0; i < 2; i++) fillSolo(s, c, sc[i], 0, solo[i], rd[i]);
    s.fresh(); std::vector<void *> inst; std::string why;
    auto fail = [&](size_t n, const std::string &w) { R.violation(cfgName(c) + strf(": instance %zu of %zu: ", n + 1, count) + w, "what " + cfgName(c) + "\nconfig " + c.text() + "\n"); };
    for (size_t n = 0; n < count; n++) { if (!s.instantiate(0, &c)) { fail(n, "cannot be created"); return; } inst.push_back(s.w.inst[0]); }
    // each one two calls behind the one before, so that all kinds of points are met at once
    size_t longest = std::max(sc[0].ops.size(), sc[1].ops.size()) + 2 * count;
    for (size_t t = 0; t < longest; t++) for (size_t n = 0; n < count; n++) {
        int q = (int)(n % 2); if (t < 2 * n || t - 2 * n >= sc[q].ops.size()) continue;
        size_t k = t - 2 * n; s.w.inst[0] = inst[n]; Out g = s.exec(sc[q].ops[k]); R.transitions++;
        if (!sameOut(g, solo[q][k], 0, why)) { fail(n, sc[q].ops[k].text() + ": " + why + " than alone"); return; }
        if ((t + n) % 5 == 0) { Image im; bool clk = c.model == "Clocks"; if (clk) s.snap(im); auto ops = readAll(sc[q].refs[k + 1]); for (size_t z = 0; z < ops.size(); z++) { g = s.exec(ops[z]); R.transitions++; if (!sameOut(g, rd[q][k + 1][z], 0, why)) { fail(n, ops[z].text() + ": " + why + " than alone"); return; } } if (clk) s.restore(im); }
    }
    for (size_t n = 0; n < count; n++) { size_t z = (n * 7 + 3) % count; if (count % 7 == 0) z = n; s.w.inst[0] = inst[z]; s.exec(op(K_FREE)); R.transitions++; if (!arena::intact(why)) { fail(z, why); return; } }
    if (arena::live()) { fail(count - 1, "memory remains after all instances were freed"); return; }
    R.states += count; R.traces += count; R.extra["instances_at_once"] = count;
}
void checkC05() {
    std::vector<Job> jobs;
    auto cfgs = allConfigs();
    for (size_t x = 0; x < cfgs.size(); x++) for (size_t y = x; y < cfgs.size(); y++) {
        if (cfgs[x].model != cfgs[y].model || cfgs[x].ver != cfgs[y].ver) continue;
        // two instances, three, three of which two are created and freed on the way, two with the logging switched
        for (int third = 0; third < (x == y ? 4 : 1); third++) {
        Config ca = withLogging(cfgs[x]), cb = withLogging(cfgs[y]);
        if (x == y) cb.logging = third != 0;
        static const char *kindText[] = {"", " and a third", " and others created later", " with the logging switched"};
        jobs.push_back({cfgName(ca) + " with " + cfgName(cb) + kindText[third], [ca, cb, third] {
            Sys s; s.open(loadLib(libDir, ca.model, ca.ver), ca);
            const Config *cf[3] = {&ca, &cb, &ca}; const int N = third == 1 || third == 2 ? 3 : 2; const bool born = third == 2, logs = third == 3;
            struct J { Image joint, solo[3]; Ref r[3], saved[3]; int alive[3], births[3] = {1, 1, 1}, has[3] = {0, 0, 0}; uint32_t parent; Op o; int depth; };
            std::vector<J> v; J j0; j0.parent = 0; j0.depth = 0;
            for (int i = 0; i < N; i++) { s.fresh(); if (!s.instantiate(i, cf[i])) die("instantiate"); s.snap(j0.solo[i]); j0.r[i].init(*cf[i]); j0.alive[i] = !born || i == 0; j0.births[i] = j0.alive[i]; }
            s.fresh(); for (int i = 0; i < N; i++) if (j0.alive[i] && !s.instantiate(i, cf[i])) { Op in = op(K_INSTANTIATE); in.who = i; R.violation(cfgName(ca) + " with " + cfgName(cb) + strf(": instance %d cannot be created while others exist", i + 1), traceText("together", {ca, {in}})); return; }
            s.snap(j0.joint); Image newborn[3] = {j0.solo[0], j0.solo[1], j0.solo[2]};
            auto jointKey = [](const Image &im, const int *births) { return hashStr(im.bytes, (uint64_t)(births[0] + 8 * births[1] + 64 * births[2])); };
            std::unordered_set<H128, H128h> seen; seen.insert(jointKey(j0.joint, j0.births)); v.push_back(j0);
            size_t cap = thorough ? 60000 : third < 2 ? 15000 : 8000; bool capped = false; bool bad = false;
            auto path = [&](size_t k) { std::vector<Op> p; while (k) { p.push_back(v[k].o); k = v[k].parent; } std::reverse(p.begin(), p.end()); return p; };
            auto fail = [&](size_t k, const Op *o, const std::string &w) {
                auto p = path(k); if (o) p.push_back(*o); bad = true; std::vector<Op> joint; for (int i = 1; i < N && !born; i++) { Op in = op(K_INSTANTIATE); in.who = i; joint.push_back(in); } joint.insert(joint.end(), p.begin(), p.end());
                R.violation(cfgName(ca) + " with " + cfgName(cb) + ": " + (o ? o->text() + ": " : "") + w + " than alone; history: " + pathText(p), traceText("together", {ca, joint}));
            };
            for (size_t k = 0; k < v.size() && !bad; k++) {
                for (int i = 0; i < N && !bad; i++) {
                    if (!v[k].alive[i]) {
                        if (!born || v[k].births[i] >= 2) continue;
                        Op o = op(K_INSTANTIATE); o.who = i; s.restore(v[k].joint); Out g = s.exec(o); R.transitions++;
                        if (g.st != OK || !s.logs.empty()) { fail(k, &o, g.st != OK ? "another result (it fails)" : "other messages"); break; }
                        J n; s.snap(n.joint); for (int q = 0; q < N; q++) { n.solo[q] = v[k].solo[q]; n.r[q] = v[k].r[q]; n.alive[q] = v[k].alive[q]; n.births[q] = v[k].births[q]; n.has[q] = v[k].has[q]; n.saved[q] = v[k].saved[q]; }
                        n.solo[i] = newborn[i]; n.r[i].init(*cf[i]); n.alive[i] = 1; n.births[i]++; n.has[i] = 0; n.parent = (uint32_t)k; n.o = o; n.depth = v[k].depth + 1;
                        if (!seen.insert(jointKey(n.joint, n.births)).second) continue;
                        if (v.size() >= cap) { capped = true; continue; }
                        v.push_back(std::move(n)); continue;
                    }
                    std::vector<Op> a = readAll(v[k].r[i]); size_t nread = a.size();
                    smallAlphabet(v[k].r[i], a);
                    if (logs) {
                        std::vector<Op> b(a.begin(), a.begin() + (long)nread); for (size_t z = nread; z < a.size(); z++) if (a[z].k != K_SET && a[z].k != K_SET_STATES && a[z].k != K_SET_TIME) b.push_back(a[z]);
                        a = b; for (int z = 0; z < 4; z++) { Op d = op(K_DEBUG); d.f = z != 0; if (z == 2) d.s = {"logEvents"}; if (z == 3) d.s = {"logStatusError"}; a.push_back(d); }
                    }
                    a.push_back(op(K_FREE)); if (!born || v[k].has[i]) a.push_back(v[k].has[i] ? fs(K_FS_SET, i) : fs(K_FS_GET, i));
                    for (size_t z = 0; z < a.size() && !bad; z++) {
                        Op o = a[z]; o.who = i; Ref r = v[k].r[i]; bool fr = o.k == K_FREE;
                        Out e; if (o.k == K_FS_SET) { r = v[k].saved[i]; e.st = OK; } else if (!fr) { e = r.apply(a[z]); if (e.skip) continue; }
                        s.restore(v[k].joint); Out g = s.exec(o); std::string lg; for (auto &l : s.logs) lg += strf("%d/%d/%s/%s/%s;", l.who, l.status, l.category.c_str(), l.name.c_str(), l.msg.c_str());
                        J n; s.snap(n.joint);
                        s.restore(v[k].solo[i]); Out h = s.exec(o); std::string lh; for (auto &l : s.logs) lh += strf("%d/%d/%s/%s/%s;", l.who, l.status, l.category.c_str(), l.name.c_str(), l.msg.c_str());
                        R.transitions += 2; std::string why;
                        if (!sameOut(g, h, 0, why)) { fail(k, &o, "another result (" + why + ")"); break; }
                        if (lg != lh) { fail(k, &o, "other messages (" + lg + " instead of " + lh + ")"); break; }
                        if (z < nread) continue;
                        if (!fr && (e.leaf || e.st != h.st)) continue;
                        for (int q = 0; q < N; q++) n.births[q] = v[k].births[q];
                        if (!seen.insert(jointKey(n.joint, n.births)).second) continue;
                        if (v.size() >= cap) { capped = true; continue; }
                        Image solo; s.snap(solo);
                        for (int q = 0; q < N; q++) { n.solo[q] = v[k].solo[q]; n.r[q] = v[k].r[q]; n.alive[q] = v[k].alive[q]; n.has[q] = v[k].has[q]; n.saved[q] = v[k].saved[q]; }
                        if (o.k == K_FS_GET) { n.has[i] = 1; n.saved[i] = r; }
                        n.solo[i] = solo; n.r[i] = r; if (fr) n.alive[i] = 0;
                        n.parent = (uint32_t)k; n.o = o; n.depth = v[k].depth + 1; v.push_back(std::move(n));
                    }
                }
            }
            R.states += v.size(); R.traces += v.size(); if (capped) R.exhaustive = false; R.extra["max_depth"] = (uint64_t)v.back().depth; R.extra["configurations"]++;
            if (v.size() > 500) R.samples.push_back(cfgName(ca) + " with " + cfgName(cb) + ": " + pathText(path(500)));
        }});
        }
    }
    // two whole experiments side by side, every order of their parts; many instances at once
    for (size_t x = 0; x < cfgs.size(); x++) for (size_t y = x; y < cfgs.size(); y++) {
        if (cfgs[x].model != cfgs[y].model || cfgs[x].ver != cfgs[y].ver) continue;
        Config ca = withLogging(cfgs[x]), cb = withLogging(cfgs[y]);
        jobs.push_back({cfgName(ca) + " with " + cfgName(cb) + " experiments", [ca, cb] { longPair(ca, cb); }});
        if (x == y) jobs.push_back({cfgName(ca) + " many instances", [ca] { manyInstances(ca, 70); }});
    }
    // strings and binaries handed out by one instance survive calls of the other
    for (int ver : {2, 3}) jobs.push_back({strf("strings FMI%d", ver), [ver] {
        Config c; c.model = "Feedthrough"; c.ver = ver; c.iface = CS; Sys s; s.open(loadLib(libDir, c.model, ver), c);
        for (size_t l1 = 0; l1 < 128; l1 += 9) for (size_t l2 = 0; l2 < 128; l2 += 9) {
            s.fresh(); for (int i = 0; i < 2; i++) { s.instantiate(i, &c); for (auto o : toMode(c, M_STEP)) { o.who = i; s.exec(o); } Op o = opSetS(STR, {29}, {std::string(i ? l2 : l1, i ? 'B' : 'A')}); o.who = i; s.exec(o); if (ver == 3) { o = opSetS(BIN, {31}, {std::string(i ? l2 : l1, i ? 'b' : 'a')}); o.who = i; s.exec(o); } }
            uint32_t vr = 30, vb = 32; const char *p[2] = {}; const unsigned char *b[2] = {}; size_t z[2] = {};
            s.guarded([&] { for (int i = 0; i < 2; i++) { if (ver == 3) { s.lib->f3.GetString(s.w.inst[i], &vr, 1, &p[i], 1); s.lib->f3.GetBinary(s.w.inst[i], &vb, 1, &z[i], &b[i], 1); } else s.lib->f2.GetString(s.w.inst[i], &vr, 1, &p[i]); } });
            R.transitions += 2;
            for (int i = 0; i < 2; i++) { std::string want(i ? l2 : l1, i ? 'B' : 'A'), wb(i ? l2 : l1, i ? 'b' : 'a'); if (!p[i] || want != p[i] || (ver == 3 && (z[i] != wb.size() || !b[i] || memcmp(b[i], wb.data(), wb.size())))) { R.violation(strf("Feedthrough FMI%d: text or binary read from instance %d is overwritten by reading another instance", ver, i), traceText("history", {c, {}})); return; } }
            R.traces++;
        }
    }});
    runJobs(jobs, 8, 800);
}

// ------------------------------------------------------------------ C06
void checkC06() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs()) {
        if (c.iface != CS) continue;
        ModelId m = modelId(c.model); double H = solverStep(m);
        struct V { std::vector<Op> set; double start; int steps; std::vector<int> by = {1, 2, 3, 4, 5, 7, 8, 11, 16, 21}; };      // lengths of communication steps in quarters of an internal step
        std::vector<V> vs = {{{}, 0, 10}, {{}, 0.3, 8}};
        auto D = [](uint32_t vr, double x) { return opSetD(F64, {vr}, {x}); };
        if (m == BB) for (double h : {0.0005, 0.0025, 0.0035}) for (double v : {-1.0, -0.2}) vs.push_back({{D(1, h), D(3, v)}, 0, 9});
        if (m == STAIR) for (int n : {1, 7, 8}) for (double st : {0.0, 0.1, 0.5}) vs.push_back({{opSetI(I32, {1}, {n})}, st, 14});
        if (m == SS) { vs = {{{op(K_ENTER_CONFIG), opSetI(U64, {1}, {1}), opSetI(U64, {2}, {2}), opSetI(U64, {3}, {2}), op(K_EXIT_CONFIG), D(9, 2), opSetD(F64, {4}, {0.5, 1, -1, 0.25}), opSetD(F64, {8}, {1, -1})}, 0, 9}}; }
        if (m == ROB) vs.push_back({{opSetI(BOOL, {1}, {1})}, 0, 9});
        // long windows, communication steps of up to hundreds of internal steps
        { std::vector<Op> set = m == SS ? vs[0].set : std::vector<Op>(); if (m == BB) set = {D(1, 0.02)}; int n = m == BB ? 1200 : m == STAIR ? 60 : 600; std::vector<int> by = {4, 12, 28, 40, 100, 168, 240, 4 * n / 3, 2 * n, 4 * n}; vs.push_back({set, 0, n, by}); vs.push_back({set, 0.3, n, by});
          if (m != STAIR) { std::vector<Op> s2 = m == BB ? std::vector<Op>{} : set; int k = 70000; vs.push_back({s2, 0, k, {4 * k, 2 * k, 4 * k / 5}}); vs.push_back({s2, 0.3, k, {4 * k, 2 * k, 4 * k / 7}}); }
          std::vector<int> uneven = {10, 50, 170, 330, 4 * n - 2, 4 * n}; if (m == BB) set.push_back(D(3, -0.3)); vs.push_back({set, 0, n, uneven}); }
        for (size_t vi = 0; vi < vs.size(); vi++) {
            auto v = vs[vi];
            jobs.push_back({cfgName(c) + strf(" #%zu", vi), [c, m, H, v] {
                Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("instantiate");
                Ref ref; ref.init(c); std::vector<Op> pre = v.set; for (auto &o : toMode(c, M_STEP, v.start)) pre.push_back(o);
                for (auto &o : pre) { Out g = s.exec(o); ref.apply(o); if (g.st != OK) { R.violation(cfgName(c) + ": " + o.text() + " returns " + g.text(), traceText("history", {c, pre})); return; } }
                struct N { Image im; int half; uint32_t parent; std::vector<Op> ops; bool saved, term; };   // position in quarters of an internal step
                std::vector<N> q; N n0; s.snap(n0.im); n0.half = 0; n0.parent = 0; n0.saved = n0.term = false; q.push_back(n0);
                auto path = [&](size_t k) { std::vector<std::vector<Op>> p; while (k) { p.push_back(q[k].ops); k = q[k].parent; } std::vector<Op> r = pre; for (size_t i = p.size(); i-- > 0;) r.insert(r.end(), p[i].begin(), p[i].end()); return r; };
                std::map<int, std::pair<std::vector<Out>, size_t>> at; std::unordered_set<H128, H128h> seen; bool bad = false;
                std::vector<Op> reads; for (auto &var : varsOf(c.model, c.ver)) { Op o = opGet(var.ty, {var.vr}); if (c.ver == 3) o.n = ref.size(var.ty, var.vr); reads.push_back(o); }
                auto judge = [&](size_t k) -> bool {           // all values at this point in time as on the first path that came here
                    s.restore(q[k].im); std::vector<Out> o; for (auto &r : reads) { o.push_back(s.exec(r)); R.transitions++; }
                    { Out t; t.st = OK; t.i = {q[k].term}; o.push_back(t); }
                    auto it = at.find(q[k].half); if (it == at.end()) { at[q[k].half] = {o, k}; return true; }
                    std::string why;
                    for (size_t i = 0; i < o.size(); i++) if (!sameOut(o[i], it->second.first[i], 1e-12, why)) {
                        auto p = path(k), p2 = path(it->second.second); std::string nm = i < reads.size() ? reads[i].text() : "termination"; if (i < reads.size()) { p.push_back(reads[i]); p2.push_back(reads[i]); }
                        R.violation(cfgName(c) + strf(": at t=%g ", v.start + q[k].half * 0.25 * H) + nm + ": " + why + " on another communication grid; grid: " + pathText(p), traceText("this grid", {c, p}) + traceText("other grid", {c, p2})); bad = true; return false;
                    }
                    return true;
                };
                if (!judge(0)) return;
                for (size_t k = 0; k < q.size() && !bad; k++) {
                    if (q[k].term) continue;
                    // read one type, read all, save, save and restore, or nothing: then go to a later point
                    for (int act = 0; act < 5 && !bad; act++) {
                        for (int kk : v.by) {
                            int to = q[k].half + kk; if (to > 4 * v.steps) continue;
                            s.restore(q[k].im); std::vector<Op> ops;
                            auto go = [&](const Op &o) { ops.push_back(o); Out g = s.exec(o); R.transitions++; return g; };
                            if (act == 1) { go(reads[1 % reads.size()]); } else if (act == 2) for (auto &r : reads) go(r);
                            else if (act == 3) { go(fs(K_FS_GET, 0)); go(fs(K_FS_FREE, 0)); } else if (act == 4) { go(fs(K_FS_GET, 0)); go(opStep(v.start + q[k].half * 0.25 * H, 2 * H)); go(fs(K_FS_SET, 0)); go(fs(K_FS_FREE, 0)); }
                            // go on until the point is reached, handling events on the way
                            double target = v.start + to * 0.25 * H, cur = v.start + q[k].half * 0.25 * H; bool term = false, ok = true; int guard = 0;
                            while (target - cur > 0.01 * H && ++guard < 400) {
                                Out g = go(opStep(cur, target - cur));
                                if (c.ver == 2) { if (g.st == DISCARD) { term = true; break; } if (g.st != OK) { ok = false; break; } cur = target; continue; }
                                if (g.st != OK) { ok = false; break; }
                                if (g.i[1]) { term = true; break; }
                                bool early = g.i[2]; cur = early ? g.d[0] : target;
                                if (g.i[0]) { Out e = go(op(K_ENTER_EVENT)); Out u = go(op(K_UPDATE)); if (e.st != OK || u.st != OK) { ok = false; break; } if (u.i[1]) { term = true; break; } if (go(op(K_ENTER_STEP)).st != OK) { ok = false; break; } }
                            }
                            if (!ok || guard >= 400) { auto p = path(k); p.insert(p.end(), ops.begin(), ops.end()); R.violation(cfgName(c) + ": step to t=" + fmtd(target) + " fails on this communication grid: " + pathText(p), traceText("history", {c, p})); bad = true; break; }
                            N n; n.half = to; if (term) n.half = 1000000; n.parent = (uint32_t)k; n.ops = ops; n.term = term; n.saved = false; s.snap(n.im);
                            H128 h = hashStr(n.im.bytes, (uint64_t)to * 2 + term); if (!seen.insert(h).second) continue;
                            q.push_back(std::move(n)); if (!judge(q.size() - 1)) break;
                        }
                    }
                    if (q.size() > 60000) { R.exhaustive = false; break; }
                }
                R.states += q.size(); R.traces += q.size(); R.extra["common_points"] += at.size(); R.extra["configurations"]++;
                if (q.size() > 50) R.samples.push_back(cfgName(c) + ": " + pathText(path(50)));
            }});
        }
    }
    runJobs(jobs, 8, 800);
}
