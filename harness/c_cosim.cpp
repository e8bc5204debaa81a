// C07, C08: Co-Simulation steps. Lockstep with the reference model over all bounded call sequences.
#include "state.h"

// ------------------------------------------------------------------ C07
void checkC07() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs()) {
        if (c.iface != CS) continue;
        ModelId m = modelId(c.model);
        double H = solverStep(m);
        struct V { double start, stop; };
        std::vector<V> vs = {{0, NAN}, {0, 4 * H}, {0, 3.5 * H}, {1, 1 + 4 * H}, {-3, NAN}, {10, NAN}};
        if (m != ROB) { vs.push_back({1000, NAN}); vs.push_back({1e6, NAN}); vs.push_back({123456.789, NAN}); vs.push_back({123456.789, 123456.789 + 5 * H}); vs.push_back({-2e4, NAN}); vs.push_back({1000, 1000 + 3 * H}); vs.push_back({1.0 / 3, 1.0 / 3 + 2.25 * H}); }
        for (double k : {0.5, 1.0, 1.5, 7.0, 9.9}) vs.push_back({0, k * H});
        for (double st : {0.1, -0.7, 0.5 * H, 3.0}) { vs.push_back({st, NAN}); vs.push_back({st, st + 5 * H}); }
        for (auto &v : vs)
        jobs.push_back({cfgName(c) + strf(" start=%g stop=%g", v.start, v.stop), [c, m, H, v] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef; e.prefix = toMode(c, M_STEP, v.start, v.stop);
            double end = v.start + 10.2 * H;
            e.alphabet = [m, H, end](const Ref &r, std::vector<Op> &a) {
                flowAlphabet(r, a);
                if (r.mode != M_STEP) return;
                double t = r.nextCP;
                // targets on a grid of a tenth of the internal step, so that histories with the same points meet again
                long q = lround((t - r.start) / (0.1 * H));
                for (int k : {10, 20, 30, 5, 15, 9, 11, 1}) { double to = r.start + (double)(q + k) * (0.1 * H); if (to < end || r.stop < 1e30) a.push_back(opStep(t, to - t)); }
                for (double h : {0.0, -H, -0.5 * H, -2 * H, (double)NAN, (double)-INFINITY, (double)INFINITY}) a.push_back(opStep(t, h));
                for (double k : {1.0, -1.0, 0.5, -0.5, 0.1, -0.1, 100.0}) a.push_back(opStep(t + k * H, H));
                a.push_back(opStep(NAN, H)); if (t != 0) a.push_back(opStep(0, H));
                if (t != r.start) a.push_back(opStep(r.start, H));
                if (fabs(r.time - t) > 0.05 * H) a.push_back(opStep(r.time, H));       // where the last internal step ended
            };
            e.probe = [&](Sys &s, const Ref &r, std::vector<Op> &ex) { return compareReads(s, r, ex); };
            e.run();
        }});
        // after every call of a whole experiment: steps that must be refused, and longer and shorter ones
        for (int variant = 0; variant < nScripts; variant++) jobs.push_back({cfgName(c) + strf(" experiment %d", variant), [c, m, H, variant] {
            Script sc = longScript(c, variant); Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate");
            for (size_t n = 0; n < sc.ops.size(); n++) {
                const Ref &r0 = sc.refs[n]; std::string why; std::vector<Op> a = {sc.ops[n]};
                if (r0.mode == M_STEP) {
                    double t = r0.nextCP;
                    for (double h : {0.0, -H, (double)NAN, (double)INFINITY}) a.push_back(opStep(t, h));
                    for (double k : {1.0, -1.0, 0.1, -0.1, 1000.0}) a.push_back(opStep(t + k * H, H));
                    a.push_back(opStep(r0.start, H)); for (double k : {0.1, 0.9, 1.0, 2.5, 17.0, 60.0}) a.push_back(opStep(t, k * H));
                }
                Image im; s.snap(im);
                for (size_t z = a.size(); z-- > 0;) {
                    Ref r = r0; Out e = r.apply(a[z]); if (e.skip) continue;
                    s.restore(im); Out g = s.exec(a[z]); R.transitions++; std::vector<Op> ex; auto h = sc.first(n); h.push_back(a[z]);
                    if (!sameOut(g, e, 1e-9, why)) { R.violation(cfgName(c) + ": " + a[z].text() + ": " + why + strf("; after %zu calls", n), traceText("history", {c, h}, e.text(), g.text())); return; }
                    if (!e.leaf) { why = compareReads(s, r, ex); if (!why.empty()) { h.insert(h.end(), ex.begin(), ex.end()); R.violation(cfgName(c) + ": after " + a[z].text() + ": " + why + strf("; after %zu calls", n), traceText("history", {c, h})); return; } }
                    if (z == 0) { s.restore(im); s.exec(a[0]); }
                }
                R.states++;
            }
            R.traces++; R.extra["experiment_calls"] += sc.ops.size();
        }});
        // communication steps of very many internal steps, to times far beyond any default stop time
        jobs.push_back({cfgName(c) + " long steps", [c, m, H] {
            for (double start : {0.0, 0.3}) for (double many : {500.0, 20000.0, m == ROB ? 60000.0 : 1200.0 / std::min(H, 1.0)}) {
                Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate");
                Ref r; r.init(c); std::vector<Op> hist; std::string why;
                auto go = [&](const Op &o) -> bool { Out ex = r.apply(o); if (ex.skip) return false; Out g = s.exec(o); R.transitions++; hist.push_back(o); if (sameOut(g, ex, 1e-9, why)) return true; R.violation(cfgName(c) + ": " + o.text() + ": " + why, traceText("history", {c, hist}, ex.text(), g.text())); return false; };
                bool ok = true; for (auto &o : toMode(c, M_STEP, start)) ok = ok && go(o);
                for (double n : {1.0, many, 2.0, many, 0.5}) {
                    if (!ok || r.mode != M_STEP || !go(opStep(r.nextCP, n * H))) break;
                    if (r.pending) for (K k : {K_ENTER_EVENT, K_UPDATE, K_ENTER_STEP}) ok = ok && go(op(k));
                    std::vector<Op> ex; R.states++; if (ok) why = compareReads(s, r, ex); if (!why.empty()) { hist.insert(hist.end(), ex.begin(), ex.end()); R.violation(cfgName(c) + ": " + why, traceText("history", {c, hist})); return; }
                }
                R.traces++; if (R.violations) return;
            }
        }});
        // long runs with the communication points calculated in different ways
        jobs.push_back({cfgName(c) + " long", [c, m, H] {
            for (int mode = 0; mode < 6; mode++) {
                double start = mode % 2 ? 0.3 : 0; int N = m == STAIR ? 40 : 3000; double k = mode / 2 == 2 ? 2.5 : 1;
                Explorer<Ref> e; e.cfg = c; e.init.init(c); e.lib = loadLib(libDir, c.model, c.ver); e.sys.open(e.lib, c); e.setup(); e.apply = applyRef;
                Ref r = e.init; std::vector<Op> hist = toMode(c, M_STEP, start);
                size_t done = 0; std::string why; bool stop = false;
                auto go = [&](const Op &o, bool keep) -> bool { Out ex = r.apply(o); if (ex.skip) { stop = true; return true; } Out g = e.sys.exec(o); R.transitions++; if (keep) hist.push_back(o); if (!sameOut(g, ex, 1e-9, why)) { R.violation(cfgName(c) + ": " + o.text() + ": " + why, traceText("history", {c, hist}, ex.text(), g.text())); return false; } return true; };
                { auto p = hist; hist.clear(); for (auto &o : p) if (!go(o, true)) return; }
                for (int i = 0; i < N && !stop; i++) {
                    double t = mode / 2 == 0 ? r.nextCP : start + i * (k * H);     // accumulated or multiplied
                    if (c.early || c.eventMode) t = r.nextCP;
                    if (!go(opStep(t, k * H), true)) return;
                    if (stop) break;
                    if (r.pending) { for (K kk : {K_ENTER_EVENT, K_UPDATE, K_ENTER_STEP}) if (!stop && !go(op(kk), true)) return; }
                    if (!stop && !go(opGet(F64, {0}), false)) return;
                    done++; R.states++;
                }
                R.traces++; R.extra["long_run_steps"] += done;
            }
        }});
        // very many internal steps, in few communication steps
        if (m != STAIR) for (double start : {0.0, 0.3}) for (int part : {1, 3, 1000}) jobs.push_back({cfgName(c) + strf(" %d of 200000 internal steps, start %g", part, start), [c, m, H, start, part] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.lib = loadLib(libDir, c.model, c.ver); e.sys.open(e.lib, c); e.setup();
            Ref r = e.init; std::vector<Op> hist; std::string why; bool stop = false; const long N = 200000, all = N / (long)part; const double end = start + (double)N * H;
            auto go = [&](const Op &o) -> bool { Out ex = r.apply(o); if (ex.skip) { stop = true; return true; } Out g = e.sys.exec(o); R.transitions++; hist.push_back(o); if (!sameOut(g, ex, 1e-9, why)) { R.violation(cfgName(c) + ": " + o.text() + ": " + why, traceText("history", {c, hist}, ex.text(), g.text())); return false; } return true; };
            for (auto &o : toMode(c, M_STEP, start)) if (!go(o)) return;
            for (int i = 0; i < 3000 && !stop && r.nextCP < end - H; i++) {
                if (!go(opStep(r.nextCP, (double)all * H))) return;
                if (!stop && r.pending) for (K kk : {K_ENTER_EVENT, K_UPDATE, K_ENTER_STEP}) if (!stop && !go(op(kk))) return;
                std::vector<Op> ex; if (!stop) { why = compareReads(e.sys, r, ex); if (!why.empty()) { auto h = hist; h.insert(h.end(), ex.begin(), ex.end()); R.violation(cfgName(c) + ": " + why + strf("; at t=%g", r.time), traceText("history", {c, h})); return; } }
                R.states++;
            }
            R.traces++; R.extra["many_step_runs"]++;
        }});
    }
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C08
void checkC08() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs()) {
        ModelId m = modelId(c.model);
        if (c.iface != CS || !hasEventSupport(m)) continue;
        double H = solverStep(m);
        struct V { std::vector<Op> set; double start; int steps; std::vector<int> ks; };
        std::vector<V> vs;
        auto D = [](uint32_t vr, double x) { return opSetD(F64, {vr}, {x}); };
        if (m == BB) {
            // falls through the ground in step 1, 2, 3; repeated bounces; comes to rest; starts on or below the ground
            for (double h : {0.0005, 0.0015, 0.0025, 0.0, -0.001, DBL_MIN}) for (double v : {-1.0, -0.3, -0.12, 0.0, 0.05}) vs.push_back({{D(1, h), D(3, v)}, 0, 9, {1, 2, 3}});
            for (double h : {1e-12, 0.0001, 0.001, 0.002, 0.003, 0.004, 0.0055}) for (double v : {-5.0, -2.0, -0.7, -0.2, -0.1, -0.05, 0.02, 0.5}) for (double e : {0.0, 0.3, 0.7, 1.0}) vs.push_back({{D(1, h), D(3, v), D(6, e)}, 0, 8, {1, 2, 3, 5}});
            for (double h : {0.02, 0.3, 1.0}) for (double e : {0.3, 0.7}) for (double st : {0.0, 0.3}) vs.push_back({{D(1, h), D(6, e)}, st, 1200, {40, 100, 150}});       // from the first bounce to the rest
            for (double h : {0.01, 0.05, 0.2, 1.0, 2.0, 20.0}) for (double v : {-20.0, -60.0, -100.0, -1000.0}) for (double st : {0.0, 12.0}) vs.push_back({{D(1, h), D(3, v)}, st, 10, {1, 2, 3}});      // fast
            for (double h : {-1e-11, -0.0005, -0.0015, -0.01, -0.5}) for (double v : {0.2, 1.0, 20.0, 100.0}) for (double g : {-9.81, -1000.0}) vs.push_back({{D(1, h), D(3, v), D(5, g)}, 0, 10, {1, 2, 3}});    // upwards
            for (double st : {-3.0, 12.0, 100.0, 1e4}) vs.push_back({{D(1, 0.0015), D(3, -1)}, st, 9, {1, 2, 3}});
            for (double g : {-100.0, -600.0}) for (double e : {0.5, 0.9}) vs.push_back({{D(1, 0.001), D(5, g), D(6, e)}, 0, 10, {1, 2, 3}});
        } else if (m == STAIR) {
            for (int cnt : {1, 5, -3, 0}) for (double st : {0.0, 0.3, 1.0, 2.5, 100.0, -1.5}) vs.push_back({{opSetI(I32, {1}, {cnt})}, st, 80, {5, 10, 16}});
            for (int cnt : {1, 7, 8, 9}) for (double st : {0.0, 0.1, 0.2, 0.5, 0.7, 0.9}) vs.push_back({{opSetI(I32, {1}, {cnt})}, st, cnt == 1 ? 14 : 20, {1, 2, 3, 5, 7}});
        } else vs.push_back({{}, 0, 5, {1, 2}});
        for (size_t vi = 0; vi < vs.size(); vi++) {
            auto v = vs[vi];
            jobs.push_back({cfgName(c) + strf(" #%zu", vi), [c, m, H, v] {
                Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef;
                e.prefix = v.set; for (auto &o : toMode(c, M_STEP, v.start)) e.prefix.push_back(o);
                double end = v.start + (v.steps + 0.1) * H;
                e.alphabet = [m, H, end, v](const Ref &r, std::vector<Op> &a) {
                    if (r.mode == M_STEP) {
                        // points on one grid, so that histories meet again
                        double q = (double)lround((r.nextCP - v.start) / (0.5 * H));
                        auto to = [&](double k) { double t = v.start + (q + 2 * k) * 0.5 * H; if (t < end) a.push_back(opStep(r.nextCP, t - r.nextCP)); };
                        for (int k : v.ks) to(k);
                        if (m != FT && m != SS) to(1.5);
                    }
                    if (r.ver == 3 && r.eventMode) {
                        if (r.mode == M_STEP) a.push_back(op(K_ENTER_EVENT));
                        if (r.mode == M_EVENT) { a.push_back(op(K_UPDATE)); a.push_back(op(K_ENTER_STEP)); if (m == BB && v.steps < 100) a.push_back(opSetD(F64, {6}, {0.6})); }
                    }
                    if (r.ver == 2 && r.mode == M_STEP) { Op o = op(K_STATUS); o.a = 3; o.b = fmi2Terminated; a.push_back(o); o.a = 1; o.b = fmi2LastSuccessfulTime; a.push_back(o); }
                };
                e.probe = [&](Sys &s, const Ref &r, std::vector<Op> &ex) { return compareReads(s, r, ex); };
                e.run();
            }});
        }
    }
    runJobs(jobs, 8, 600);
}
