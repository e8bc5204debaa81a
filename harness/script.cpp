// Long deterministic histories: whole experiments as an importer would run them, with events handled, inputs and
// parameters changed on the way and the times of Co-Simulation steps and Model Exchange integrator steps varied.
#include "state.h"

Script longScript(const Config &c, int number) {
    const int variant = number % 2, far = number / 2;            // far: other start times and values of other magnitudes
    ModelId m = modelId(c.model); const double H = solverStep(m);
    Script sc; Ref r; r.init(c); bool stopped = false;
    auto go = [&](const Op &o) -> Out {
        Ref before = r; Out e = r.apply(o);
        if (e.skip || e.leaf || (e.st != OK && e.st != DISCARD)) { r = before; e.st = ERROR; return e; }
        sc.ops.push_back(o); sc.refs.push_back(before);
        return e;
    };
    const double start = far ? (variant ? -3.7 : m == STAIR ? 1.6 : 12.5) : variant ? 0.3 : 0;   // Stair: one event due at a time
    if (m == SS) { auto d = far ? (variant ? std::vector<int64_t>{1, 4, 2} : std::vector<int64_t>{5, 1, 5}) : variant ? std::vector<int64_t>{2, 5, 4} : std::vector<int64_t>{3, 3, 3}; go(op(K_ENTER_CONFIG)); for (uint32_t k = 0; k < 3; k++) go(opSetI(U64, {k + 1}, {d[k]})); go(op(K_EXIT_CONFIG)); }
    for (auto &o : toMode(c, M_INIT, start)) go(o);
    if (far) {
        auto put = [&](std::vector<uint32_t> vr, std::vector<double> v) { for (size_t k = 0; k < vr.size(); k++) go(opSetD(F64, {vr[k]}, {v[k]})); };
        if (m == BB) put({1, 3, 5, 6}, variant ? std::vector<double>{-0.5, 20, -30, 0.5} : std::vector<double>{20, -100, -500, 0.8});
        else if (m == DQ) put({1, 3}, variant ? std::vector<double>{-1e-3, 3} : std::vector<double>{1e7, -0.25});
        else if (m == VDP) put({1, 3, 5}, variant ? std::vector<double>{1e-3, -1e-3, 5} : std::vector<double>{-3, 4, 0.5});
        else if (m == STAIR) go(opSetI(I32, {1}, {variant ? 0 : -20}));
        else if (m == ROB) put({2, 4}, variant ? std::vector<double>{0.3, 2e-5} : std::vector<double>{1.5, 0});
        else { auto all = setOps(r, 2), one = setOps(r, 1); for (auto &o : all) { bool first = false; for (auto &p : one) first = first || p.text() == o.text(); if (first == (variant != 0)) go(o); } }
    } else if (variant) {
        if (m == BB) { go(opSetD(F64, {1}, {0.6})); go(opSetD(F64, {3}, {0.4})); go(opSetD(F64, {6}, {0.5})); }
        else if (m == STAIR) go(opSetI(I32, {1}, {4}));
        else if (m == ROB) { go(opSetI(BOOL, {1}, {1})); go(opSetD(F64, {2}, {0.9})); go(opSetD(F64, {4}, {1e-5})); go(opSetD(F64, {6}, {0.125})); }    // stable with the internal step
        else for (auto &o : setOps(r, 1)) go(o);
    }
    go(op(K_EXIT_INIT));
    size_t changes = 0;
    auto change = [&](size_t n) {          // another input or parameter every few points
        if (m == BB || m == STAIR || m == RES || !variant || n % 4) return;
        auto s = setOps(r, 2); if (m == ROB) s = {opSetD(F64, {2}, {0.75}), opSetD(F64, {4}, {2e-5}), opSetD(F64, {2}, {0.5})}; if (s.empty()) return;
        for (size_t k = 0; k < s.size(); k++) if (go(s[changes++ % s.size()]).st == OK) break;
    };
    if (c.iface == CS) {
        if (c.ver == 3 && c.eventMode) { go(op(K_UPDATE)); go(op(K_ENTER_STEP)); }
        const std::vector<double> inc = m == BB ? (variant ? std::vector<double>{7, 1, 40, 0.5, 18.5} : std::vector<double>{25}) : m == STAIR ? (variant ? std::vector<double>{1, 3, 0.5, 1.5} : std::vector<double>{1}) : variant ? std::vector<double>{1, 5, 0.5, 12.5} : std::vector<double>{3};
        for (size_t n = 0; n < 150 && r.mode == M_STEP && !stopped; n++) {
            Out e = go(opStep(r.nextCP, inc[n % inc.size()] * H));
            if (e.st != OK) break;
            if (c.ver == 3 && e.i[1]) break;
            if (c.ver == 3 && e.i[0]) { go(op(K_ENTER_EVENT)); Out u = go(op(K_UPDATE)); if (u.st != OK || u.i[1]) { stopped = true; break; } go(op(K_ENTER_STEP)); }
            if (variant && n % 9 == 5 && c.ver == 3 && c.eventMode) { go(op(K_ENTER_EVENT)); go(op(K_UPDATE)); go(op(K_ENTER_STEP)); }
            if (variant && n % 13 == 7 && c.ver == 3 && m != FT) { go(op(K_ENTER_CONFIG)); go(op(K_EXIT_CONFIG)); if (r.mode == M_EVENT) { go(op(K_UPDATE)); go(op(K_ENTER_STEP)); } }
            change(n);
        }
    } else if (c.iface == ME) {
        go(op(K_UPDATE)); go(op(K_ENTER_CTM));
        const double dt = m == BB ? (variant ? 0.013 : 0.02) : m == STAIR ? (variant ? 0.15 : 0.25) : variant ? 1.5 * H : H;
        const size_t nx = r.nx(), nz = r.nz(); std::vector<double> x(nx), dx(nx), z0(nz), z1(nz); double t = r.time;
        r.indicators(z0.data());
        for (size_t n = 0; n < 120 && r.mode == M_CTM && !stopped; n++) {
            double to = t + dt; bool timeEvent = r.nextDef && to >= r.nextT - 1e-9; if (timeEvent) to = std::max(t, r.nextT);
            if (nx) { r.states(x.data()); r.ders(dx.data()); for (size_t k = 0; k < nx; k++) x[k] += (to - t) * dx[k]; }
            t = to; go(opTime(t)); if (nx) go(opStates(x));
            Out e = go(op(K_COMPLETED)); if (e.st != OK) break;
            bool stateEvent = false; if (nz) { r.indicators(z1.data()); for (size_t k = 0; k < nz; k++) stateEvent = stateEvent || (z0[k] > 0) != (z1[k] > 0); z0 = z1; }
            if (timeEvent || stateEvent || (variant && n % 9 == 5)) {
                go(op(K_ENTER_EVENT)); Out u = go(op(K_UPDATE)); if (u.st != OK || u.i[1]) { stopped = true; break; }
                if (variant && n % 2 && c.ver == 3) { go(op(K_ENTER_CONFIG)); go(op(K_EXIT_CONFIG)); }
                change(n - n % 4); go(op(K_ENTER_CTM)); r.indicators(z0.data());
            }
        }
    } else {
        for (size_t n = 0; n < 60 && r.mode == M_CLOCK; n++) {
            Op p = op(K_ACTIVATE); const uint32_t seq[2][5] = {{1001, 1002, 1003, 1001, 1002}, {1001, 1001, 1002, 1003, 1003}}; p.vr = {seq[variant][n % 5]}; p.t = (double)n; go(p);
            if (n % 3 == 1) { Op g = op(K_GETCLOCK); g.vr = {1005}; go(g); }
            if (n % 4 == 2) { Op g = op(K_GET_INTERVAL); g.vr = {1003}; go(g); }
            change(n);
        }
    }
    if (r.mode != M_TERM) go(op(K_TERMINATE));
    sc.refs.push_back(r);
    return sc;
}
std::vector<size_t> Script::points(size_t atMost) const {
    // the points around events, and others evenly spaced
    std::set<size_t> p = {0, ops.size()}; const size_t n = ops.size();
    for (size_t k = 0; k < n && p.size() < atMost / 2; k++) if (ops[k].k == K_ENTER_EVENT || ops[k].k == K_UPDATE || ops[k].k == K_SET || ops[k].k == K_ENTER_CONFIG) { p.insert(k); p.insert(k + 1); }
    const size_t step = std::max<size_t>(1, n / std::max<size_t>(1, atMost / 2)); for (size_t k = 0; k < n; k += step) p.insert(k);
    return std::vector<size_t>(p.begin(), p.end());
}
