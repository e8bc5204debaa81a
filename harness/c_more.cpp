// C09, C12, C18, C21, C22, C23, C30: interfaces compared with each other, argument lists, logging, instantiation.
#include "state.h"
#include <sys/stat.h>
#include <unistd.h>

static std::string pathText(const std::vector<Op> &p) { std::string s; for (auto &o : p) s += "op " + o.text() + "\n"; return s; }

// ------------------------------------------------------------------ C09
// One ME and one CS instance advance together over the internal step grid of the Co-Simulation.
struct Pair9 { int64_t n; double nextT; int32_t nextDef, above, ended, sets; };
struct Lock9 {
    Sys s; Config me, cs; double start = 0, H = 0; int nz = 0; std::vector<Op> hist; std::string why;
    bool go(Op o, int who, Out &g, int want = OK) { o.who = who; hist.push_back(o); g = s.exec(o); R.transitions++; if (g.st != want) { why = o.text() + strf(": status %s, expected %s", stName(g.st), stName(want)); return false; } return true; }
    bool indicator(int &above) { if (!nz) { above = 0; return true; } Out g; if (!go(opN(K_GET_EI, nz), 0, g)) return false; above = 0; for (int i = 0; i < nz; i++) above |= (g.d[(size_t)i] > 0) << i; return true; }
    bool events(Pair9 &p) {     // the ME instance is in Event Mode
        Out g;
        for (int it = 0; it < 4; it++) { if (!go(op(K_UPDATE), 0, g)) return false; if (!g.i[0]) break; }
        p.nextDef = (int)g.i[4]; p.nextT = g.d[0]; if (g.i[1]) { p.ended = 1; return true; }
        if (!go(op(K_ENTER_CTM), 0, g)) return false;
        int a; if (!indicator(a)) return false; p.above = a; return true;
    }
    bool begin(const std::vector<Op> &sets, Pair9 &p) {
        Out g; memset(&p, 0, sizeof p);
        s.fresh(); if (!s.instantiate(0, &me) || !s.instantiate(1, &cs)) die("cannot instantiate");
        hist.clear();
        for (int w = 0; w < 2; w++) {
            for (auto &o : sets) if (!go(o, w, g)) return false;
            for (auto &o : toMode(w ? cs : me, w ? M_STEP : M_EVENT, start)) if (!go(o, w, g)) return false;
        }
        return events(p);
    }
    bool advance(Pair9 &p, long nx) {
        Out g, x, dx; double t = start + (double)(p.n + 1) * H;
        if (nx) { if (!go(opN(K_GET_STATES, nx), 0, x) || !go(opN(K_GET_DERS, nx), 0, dx)) return false; }
        if (!go(opTime(t), 0, g)) return false;
        if (nx) { std::vector<double> v; for (long i = 0; i < nx; i++) v.push_back(x.d[(size_t)i] + H * dx.d[(size_t)i]); if (!go(opStates(v), 0, g)) return false; }
        if (!go(op(K_COMPLETED), 0, g)) return false;
        int a; if (!indicator(a)) return false;
        if (a != p.above || (p.nextDef && t >= p.nextT - 1e-9)) { if (!go(op(K_ENTER_EVENT), 0, g) || !events(p)) return false; } else p.above = a;
        // Co-Simulation
        Op d = opStep(start + (double)p.n * H, H); d.who = 1; hist.push_back(d); g = s.exec(d); R.transitions++;
        bool ended = false;
        if (cs.ver == 2) { if (g.st == DISCARD) ended = true; else if (g.st != OK) { why = d.text() + ": status " + stName(g.st); return false; } }
        else {
            if (g.st != OK) { why = d.text() + ": status " + stName(g.st); return false; }
            ended = g.i[1];
            if (g.i[0]) { if (!go(op(K_ENTER_EVENT), 1, g) || !go(op(K_UPDATE), 1, g)) return false; if (g.i[1]) ended = true; else if (!go(op(K_ENTER_STEP), 1, g)) return false; }
        }
        if (ended != (bool)p.ended) { why = strf("at grid point %lld the simulation ends in %s only", (long long)p.n + 1, ended ? "Co-Simulation" : "Model Exchange"); return false; }
        p.n++;
        return true;
    }
    bool change(Pair9 &p, const Op &o, bool continuous) {
        Out g;
        if (continuous) { if (!go(o, 0, g)) return false; }
        else if (!go(op(K_ENTER_EVENT), 0, g) || !go(o, 0, g) || !events(p)) return false;
        if (cs.eventMode) { if (!go(op(K_ENTER_EVENT), 1, g) || !go(o, 1, g) || !go(op(K_UPDATE), 1, g) || !go(op(K_ENTER_STEP), 1, g)) return false; }
        else if (!go(o, 1, g)) return false;
        if (continuous) { int a; if (!indicator(a)) return false; p.above = a; }
        p.sets++;
        return true;
    }
    bool compare(const Ref &shape) {
        std::vector<Op> keep = hist;
        for (auto &v : varsOf(me.model, me.ver)) {
            Op o = opGet(v.ty, {v.vr}); if (me.ver == 3) o.n = shape.size(v.ty, v.vr);
            Out a, b; if (!go(o, 0, a) || !go(o, 1, b)) return false;
            std::string w; if (!sameOut(b, a, 1e-9, w)) { why = strf("%s in Co-Simulation differs from Model Exchange: ", v.name) + w; return false; }
        }
        hist = keep;
        return true;
    }
};
void checkC09() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs(false)) {
        if (c.iface != CS) continue;
        ModelId m = modelId(c.model);
        struct V { std::vector<Op> sets; double start; int steps, nsets; std::vector<Op> changes; };
        std::vector<V> vs;
        auto D = [](uint32_t vr, double x) { return opSetD(F64, {vr}, {x}); };
        int K = thorough ? 2 : 1;
        switch (m) {
            case BB:
                for (double h : {0.0004, 0.0015, 0.004, 0.01}) for (double v : {-1.0, -0.3, -0.105, 0.0, 0.5}) for (double g : {-9.81, -5.0, -100.0}) for (double e : {0.5, 0.7, 1.0})
                    vs.push_back({{D(1, h), D(3, v), D(5, g), D(6, e)}, h < 0.001 ? 0.3 : 0, 40, e == 0.7 ? 2 : 0, {D(6, 0.5), D(6, 0.9)}});
                vs.push_back({{}, 0, 3500, 0, {}});
                break;
            case DQ: for (double x : {1.0, -2.0, 0.0}) for (double k : {1.0, 0.5, -1.0, 30.0}) for (double st : {0.0, 5.0}) vs.push_back({{D(1, x), D(3, k)}, st, 120, 0, {}}); break;
            case VDP: for (double a : {2.0, -1.0, 0.0}) for (double b : {0.0, 1.5}) for (double mu : {1.0, 0.0, 5.0}) for (double st : {0.0, 2.0}) vs.push_back({{D(1, a), D(3, b), D(5, mu)}, st, 300, 0, {}}); break;
            case STAIR: for (int cnt : {1, 2, 8, 9}) for (double st : {0.0, 0.1, 0.3, 0.5, 0.7, 0.9}) vs.push_back({{opSetI(I32, {1}, {cnt})}, st, 60, 0, {}}); break;
            case RES: vs.push_back({{}, 0, 5, 0, {}}); vs.push_back({{}, 3, 5, 0, {}}); break;
            case ROB:
                for (double y1 : {1.0, 0.5}) for (double y2 : {0.0, 1e-5, 0.125}) vs.push_back({{D(2, y1), D(4, y2)}, 0, 200, 0, {}});
                vs.push_back({{op(K_ENTER_CONFIG), opSetI(BOOL, {1}, {1}), op(K_EXIT_CONFIG), D(2, 0.5), D(4, 1e-4), D(6, 0.4)}, 0, 200, 0, {}});
                break;
            case SS:
                for (int64_t mm : {1, 2, 3}) for (int64_t n : {0, 1, 2, 4}) for (int64_t r : {1, 3}) {
                    V v; v.sets = {op(K_ENTER_CONFIG), opSetI(U64, {1, 2, 3}, {mm, n, r}), op(K_EXIT_CONFIG)};
                    std::vector<double> A, B, x0, u, u2; for (int64_t i = 0; i < n * n; i++) A.push_back(-0.5 + 0.3 * (double)i); for (int64_t i = 0; i < n * mm; i++) B.push_back(1 + 0.5 * (double)i);
                    for (int64_t i = 0; i < n; i++) x0.push_back(2 - (double)i); for (int64_t i = 0; i < mm; i++) { u.push_back(7 + (double)i); u2.push_back(-3 * (double)i - 1); }
                    if (n) { v.sets.push_back(opSetD(F64, {4}, A)); v.sets.push_back(opSetD(F64, {5}, B)); v.sets.push_back(opSetD(F64, {8}, x0)); }
                    v.start = n == 2 ? 1 : 0; v.steps = 12; v.nsets = 2; v.changes = {opSetD(F64, {9}, u), opSetD(F64, {9}, u2)};
                    vs.push_back(v);
                }
                break;
            case FT: vs.push_back({{D(5, 2), D(6, 3)}, 0, 6, 2, {D(7, 1.5), D(7, -2), D(9, 4), D(6, 8), opSetI(I32, {19}, {5}), opSetI(BOOL, {27}, {1}), opSetS(STR, {29}, {"abc"}), c.ver == 3 ? opSetI(I64, {33}, {2}) : opSetI(I32, {33}, {2})}}); break;
            default: break;
        }
        size_t per = 1 + vs.size() / 24;
        if (m == BB || m == DQ || m == VDP || m == ROB) vs.push_back({{}, 0.3, 70000, 0, {}});
        for (size_t b = 0; b < vs.size(); b += per) {
            std::vector<V> part(vs.begin() + (long)b, vs.begin() + (long)std::min(vs.size(), b + per));
            jobs.push_back({cfgName(c) + strf(" #%zu", b), [c, m, part, K] {
                for (auto &v : part) {
                    Lock9 L; L.me = c; L.me.iface = ME; L.me.eventMode = false; L.cs = c; L.start = v.start; L.H = solverStep(m);
                    L.s.open(loadLib(libDir, c.model, c.ver), c);
                    Ref shape; shape.init(c); for (auto &o : v.sets) shape.apply(o);
                    L.nz = (int)shape.nz();
                    auto report = [&] { R.violation(cfgName(c) + " against Model Exchange (instance 0 is Model Exchange): " + L.why, "seq history\nconfig " + L.me.text() + "\n" + pathText(L.hist)); };
                    struct N { Image im; Pair9 p; std::vector<Op> hist; };
                    N n0; if (!L.begin(v.sets, n0.p)) { report(); return; }
                    if (!L.compare(shape)) { report(); return; }
                    bool record = v.steps < 500;
                    L.s.snap(n0.im); n0.hist = L.hist;
                    std::deque<N> q; q.push_back(n0); std::unordered_set<H128, H128h> seen; R.states++;
                    while (!q.empty()) {
                        N n = std::move(q.front()); q.pop_front();
                        if (n.p.ended || n.p.n >= v.steps) { R.traces++; continue; }
                        for (int k = -1; k < (n.p.sets < v.nsets * K ? (int)v.changes.size() : 0); k++) {
                            if (k >= 0 && n.p.n > 12) continue;
                            L.s.restore(n.im); L.hist = n.hist; Pair9 p = n.p;
                            bool cont = k >= 0 && v.changes[(size_t)k].ty == F64 && (m == SS || (m == FT && v.changes[(size_t)k].vr[0] == 7));
                            bool ok = k < 0 ? L.advance(p, (long)shape.nx()) : L.change(p, v.changes[(size_t)k], cont);
                            if (ok) ok = L.compare(shape);
                            if (!ok) { report(); return; }
                            N c2; L.s.snap(c2.im); H128 h = hashStr(c2.im.bytes), h2 = hashBytes(&p, sizeof p, 5);
                            if (!seen.insert({h.a ^ h2.a * 3, h.b + h2.b}).second) continue;
                            R.states++; c2.p = p; if (record) c2.hist = L.hist; q.push_back(std::move(c2));
                        }
                    }
                }
            }});
        }
    }
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C12
void checkC12() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs(false)) {
        std::vector<Mode> modes;
        if (c.ver == 3) modes.push_back(M_INST);
        modes.push_back(M_INIT);
        if (c.iface == ME) { modes.push_back(M_EVENT); modes.push_back(M_CTM); } else if (c.iface == CS) modes.push_back(M_STEP); else modes.push_back(M_CLOCK);
        if (modelId(c.model) == SS && c.iface == CS) { modes.push_back(M_CONFIG); modes.push_back(M_RECONF); }
        for (Mode mode : modes)
        jobs.push_back({cfgName(c) + " " + modeName[mode], [c, mode] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); ModelId m = modelId(c.model);
            s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate");
            Ref r0; r0.init(c); std::vector<Op> pre;
            if (m == SS) pre = {op(K_ENTER_CONFIG), opSetI(U64, {1}, {2}), opSetI(U64, {2}, {1}), opSetI(U64, {3}, {3}), op(K_EXIT_CONFIG)};
            for (auto &o : toMode(c, mode)) pre.push_back(o);
            for (auto &o : pre) { Out e = r0.apply(o), g = s.exec(o); if (e.st != g.st) { R.violation(cfgName(c) + ": " + o.text() + ": status " + stName(g.st), traceText("history", {c, pre}, e.text(), g.text())); return; } }
            Image base; s.snap(base);
            bool bad = false; std::unordered_set<H128, H128h> seen;
            auto check = [&](const Op &o) {
                if (bad) return;
                Ref r = r0; Out e = r.apply(o); if (e.skip) return;
                s.restore(base); Out g = s.exec(o); R.transitions++; R.traces++;
                std::string why; std::vector<Op> ex; bool same = sameOut(g, e, 1e-9, why);
                if (same && !e.leaf && (o.k == K_SET || e.st != OK)) { why = compareReads(s, r, ex); same = why.empty(); R.transitions += 2; }
                if (same && !arena::intact(why)) same = false;
                Image im; s.snap(im); if (seen.insert(hashStr(im.bytes)).second) R.states++;
                if (R.samples.empty() && o.vr.size() == 3) R.samples.push_back(cfgName(c) + ": " + o.text());
                if (!same) { bad = true; auto h = pre; h.push_back(o); h.insert(h.end(), ex.begin(), ex.end()); R.violation(cfgName(c) + strf(" in %s: ", modeName[mode]) + o.text() + ": " + why, traceText("history", {c, h}, ex.empty() ? e.text() : "", g.text())); }
            };
            auto vars = varsOf(c.model, c.ver);
            for (int t = 0; t <= BIN; t++) {
                Ty ty = (Ty)t;
                if (c.ver == 2 && ty != F64 && ty != I32 && ty != BOOL && ty != STR) continue;
                std::vector<uint32_t> U; for (auto &v : vars) if (v.ty == ty) U.push_back(v.vr);
                U.push_back(4711); for (auto &v : vars) if (v.ty != ty && r0.size(ty, v.vr) < 0) { U.push_back(v.vr); break; }
                U.push_back(0xffffffffu);
                std::vector<std::vector<uint32_t>> lists = {{}};
                for (size_t a = 0; a < U.size(); a++) { lists.push_back({U[a]}); for (size_t b = 0; b < U.size(); b++) { lists.push_back({U[a], U[b]}); for (size_t d = 0; d < U.size(); d++) lists.push_back({U[a], U[b], U[d]}); } }
                // long lists that name every variable of the type several times, from every starting point
                { std::vector<uint32_t> K; for (auto &v : vars) if (v.ty == ty) K.push_back(v.vr);
                  if (!K.empty()) for (size_t len : {4u, 5u, 7u, 8u, 9u, 15u, 16u, 17u, 31u, 32u, 33u, 50u, 64u, 65u, 99u, 128u, 129u, 255u, 256u, 257u, 300u, 512u, 1000u, 1024u, 1025u}) for (size_t from = 0; from < K.size() && from < (len < 100 ? 12 : 2); from++) {
                      std::vector<uint32_t> l; for (size_t e = 0; e < len; e++) l.push_back(K[(from + e) % K.size()]); lists.push_back(l);
                      if (len < 20) for (size_t at : {(size_t)0, len / 2, len - 1}) { auto l2 = l; l2[at] = 4711; lists.push_back(l2); } } }
                // and only those that can be set here
                { std::vector<uint32_t> K; for (auto &v : vars) if (v.ty == ty) {
                      Op o = op(K_SET); o.ty = ty; o.vr = {v.vr}; long z = std::max(1L, r0.size(ty, v.vr)); for (long e = 0; e < z; e++) { if (ty == STR || ty == BIN) o.s.push_back("x"); else if (ty == F32 || ty == F64) o.d.push_back(1); else o.i.push_back(1); } if (c.ver == 3) o.n = z;
                      Ref r = r0; Out e = r.apply(o); if (!e.skip && e.st == OK) K.push_back(v.vr); }
                  if (!K.empty()) for (size_t len : {4u, 5u, 7u, 8u, 9u, 15u, 16u, 17u, 31u, 32u, 33u, 50u, 64u, 65u, 99u, 128u, 129u, 255u, 256u, 257u, 300u, 512u, 1000u, 1024u, 1025u}) for (size_t from = 0; from < K.size() && from < (len < 100 ? 12 : 3); from++) {
                      std::vector<uint32_t> l; for (size_t e = 0; e < len; e++) l.push_back(K[(from + e) % K.size()]); lists.push_back(l); } }
                for (auto &l : lists) {
                    long need = 0; for (auto v : l) need += std::max(0L, r0.size(ty, v));
                    if (need > 1050) continue;
                    for (long dn : {0L, -1L, 1L, -need}) {
                        if (dn && c.ver == 2) continue;
                        if (need + dn < 0 || (dn == -need && need < 2 && need)) continue;
                        Op g = opGet(ty, l); if (c.ver == 3) g.n = need + dn;
                        check(g);
                        for (int variant = 0; variant < (l.size() == 1 ? 2 : 1); variant++) {
                            Op st = op(K_SET); st.ty = ty; st.vr = l; long k = 0;
                            for (size_t e = 0; e < l.size(); e++) for (long z = 0; z < std::max(1L, r0.size(ty, l[e])); z++, k++) {
                                if (k >= need + dn && r0.size(ty, l[e]) >= 0) break;
                                if (ty == STR || ty == BIN) st.s.push_back(strf("%s%ld", variant ? "" : "str", k + variant)); else if (ty == F32 || ty == F64) st.d.push_back(0.5 + 0.25 * (double)(k + variant));
                                else if (ty == BOOL) st.i.push_back((k + 1 + variant) % 2); else st.i.push_back(l[e] == 33 ? 1 + (k + variant) % 2 : 1 + (k + 3 * variant) % (m == STAIR ? 8 : 100));
                            }
                            size_t have = st.s.size() + st.d.size() + st.i.size(); if (c.ver == 3) { st.n = need + dn; while ((long)have < st.n) { if (ty == STR || ty == BIN) st.s.push_back("x"); else if (ty == F32 || ty == F64) st.d.push_back(1); else st.i.push_back(1); have++; } }
                            check(st);
                        }
                    }
                    if (l.size() == 1 || l.size() == 2) {
                        for (int nul : {1, 2, 4}) {
                            if (nul == 4 && ty != BIN) continue;
                            if (need == 0) continue;
                            Op g = opGet(ty, l); g.null = nul; if (c.ver == 3) g.n = need; check(g);
                            Op st = op(K_SET); st.ty = ty; st.vr = l; st.null = nul; for (long k = 0; k < need; k++) { if (ty == STR || ty == BIN) st.s.push_back("x"); else if (ty == F32 || ty == F64) st.d.push_back(1); else st.i.push_back(1); }
                            check(st);
                        }
                        if ((ty == STR || ty == BIN) && need == (long)l.size()) for (size_t k = 0; k < l.size(); k++) { Op st = op(K_SET); st.ty = ty; st.vr = l; st.s.assign(l.size(), "ok"); st.s[k] = "\x01NULL"; check(st); }
                    }
                }
                if (bad) return;
            }
            // states, derivatives, nominals and event indicators: every number of values around the right one, missing array
            if (c.iface == ME) {
                for (K k : {K_GET_STATES, K_GET_DERS, K_GET_NOMINALS, K_GET_EI, K_SET_STATES}) {
                    long want = (long)(k == K_GET_EI ? r0.nz() : r0.nx());
                    for (long n = 0; n <= want + 2; n++) for (int nul : {0, 2}) { if (nul && n == 0) continue; Op o = opN(k, n); o.null = nul; if (k == K_SET_STATES) o.d.assign((size_t)n, 0.5); check(o); }
                }
            }
            R.extra["configurations"]++;
        }});
    }
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C18
struct LogRef { Ref r; int32_t ev, er, ev0, er0, dbg; };
static void logSetUp(Explorer<LogRef> &e, const Config &c) {
    e.cfg = c; memset((void *)&e.init, 0, sizeof e.init); e.init.r.init(c); e.init.er = 1; e.init.ev = c.logging;
    ModelId m = modelId(c.model);
    e.statusOnly = true;
    e.apply = [](LogRef &l, const Op &o) -> Out {
        l.ev0 = l.ev; l.er0 = l.er; l.dbg = 0;
        if (o.k == K_DEBUG) {
            size_t n = o.n >= 0 ? (size_t)o.n : o.s.size();
            l.dbg = 1;
            if (!n) { l.ev = l.er = o.f; return Out(); }
            if (o.null) return l.r.err();
            for (size_t k = 0; k < n; k++) {
                if (o.s[k] == "logEvents") l.ev = o.f; else if (o.s[k] == "logStatusError") l.er = o.f;
                else { Out x = l.r.err(); x.leaf = k > 0; return x; }
            }
            return Out();
        }
        if ((o.k == K_FS_SER || o.k == K_FS_SET) && o.a < 0) return l.r.err();
        return l.r.apply(o);
    };
    e.alphabet = [m, c](const LogRef &l, std::vector<Op> &a) {
        std::vector<std::string> cats = {"logEvents", "logStatusError", "logAll", "", "\x01NULL", "logEvent", "logStatusErrors"};
        for (bool f : {false, true}) {
            Op d = op(K_DEBUG); d.f = f; a.push_back(d);
            for (auto &x : cats) { d.s = {x}; a.push_back(d); for (auto &y : cats) { d.s = {x, y}; a.push_back(d); } }
            d.s = {}; d.n = 1; d.null = 2; a.push_back(d);
            d.null = 0; d.n = 0; d.s = {"logEvents"}; a.push_back(d);         // the array is there, but nothing is in it
            if (thorough || l.r.mode == M_INST) for (auto &x : cats) for (auto &y : cats) { for (const char *z : {"logEvents", "logStatusError", "logAll"}) { Op t = op(K_DEBUG); t.f = f; t.s = {x, y, z}; a.push_back(t); t.s.push_back(z == std::string("logAll") ? "logEvents" : "none"); a.push_back(t); } }
        }
        modeAlphabet(l.r, a);
        // wrong arguments
        if (l.r.permitGet(F64) == ACCEPT) {
            for (int t = 0; t <= BIN; t++) { if (c.ver == 2 && t != F64 && t != I32 && t != BOOL && t != STR) continue; a.push_back(opGet((Ty)t, {777})); Op o = opGet((Ty)t, {1}); o.null = 1; a.push_back(o); o.null = 2; a.push_back(o); }
            if (c.ver == 3) { Op o = opGet(F64, {0}); o.n = 2; a.push_back(o); o.n = 0; a.push_back(o); }
        }
        a.push_back(opSetD(F64, {777}, {1})); a.push_back(opSetD(F64, {0}, {1})); a.push_back(opSetI(I32, {777}, {1}));
        { Op o = opSetD(F64, {1}, {1}); o.null = 2; a.push_back(o); o.null = 1; a.push_back(o); }
        if (m == STAIR) { a.push_back(opSetI(I32, {1}, {10})); a.push_back(opSetI(I32, {1}, {9})); a.push_back(opSetI(I32, {1}, {2147483647})); }
        if (m == FT) { a.push_back(opSetS(STR, {29}, {std::string(128, 'x')})); if (c.ver == 3) { a.push_back(opSetS(BIN, {31}, {std::string(129, 'x')})); a.push_back(opSetI(I64, {33}, {3})); } a.push_back(opSetD(F64, {5}, {1})); a.push_back(opSetD(F64, {9}, {1})); }
        if (m == SS) for (uint32_t d = 1; d <= 3; d++) for (int64_t n : {6ll, -1ll}) a.push_back(opSetI(U64, {d}, {n}));
        if (m == SS) for (uint32_t v = 4; v <= 12; v++) { long n = l.r.size(F64, v); a.push_back(opSetD(F64, {v}, std::vector<double>((size_t)n + 1, 0.5))); Op g = opGet(F64, {v}); g.n = n + 1; a.push_back(g); }
        for (auto &v : varsOf(modelNames[m], c.ver)) { if (v.ty == STR || v.ty == BIN || m == SS) continue; if (v.ty <= F64) a.push_back(opSetD(v.ty, {v.vr}, {0.25})); else a.push_back(opSetI(v.ty, {v.vr}, {1})); }
        for (K k : {K_DIRDER, K_ADJDER}) { if (k == K_ADJDER && c.ver == 2) continue; Op d = op(k); d.vr = {2, 77}; d.vr2 = {1, 3}; d.d = {1, 2}; a.push_back(d); d.vr = {2, 4}; d.vr2 = {1, 77}; a.push_back(d); if (c.ver == 3) { d.vr2 = {1, 3}; d.d = {1}; a.push_back(d); d.d = {1, 2}; d.n = 1; a.push_back(d); } }
        if (m == BB && c.iface == CS) { Op o = op(K_GET_OUTDER); o.vr = {1}; o.i = {2}; a.push_back(o); o.vr = {2}; o.i = {1}; a.push_back(o); o.vr = {1, 3}; o.i = {1, 1}; o.null = 2; a.push_back(o); }
        { Op o = op(K_FS_SER); o.a = -1; a.push_back(o); o.k = K_FS_SET; a.push_back(o); }
        if (m == BB) { a.push_back(opSetD(F64, {7}, {1})); a.push_back(opSetD(F64, {5}, {-9.81})); }
        for (K k : {K_GET_STATES, K_GET_DERS, K_SET_STATES}) { Op o = opN(k, (long)l.r.nx() + 1); if (k == K_SET_STATES) o.d.assign(l.r.nx() + 1, 1); a.push_back(o); }
        if (l.r.mode == M_CTM) { Op o = op(K_COMPLETED); o.null = 2; a.push_back(o); }
    };
    e.monitor = [c](Sys &s, const LogRef &l, const Op &o, const Out &g) -> std::string {
        int nerr = 0;
        if (!s.envOk) return "a callback received a wrong environment";
        for (auto &x : s.logs) {
            if (x.who != o.who) return "message sent to the environment of another instance";
            if (c.ver == 2 && x.name != "inst") return "message with instance name \"" + x.name + "\"";
            if (x.msg.empty()) return "empty message";
            if (x.category == "logStatusError") { nerr++; if (x.status != ERROR && x.status != FATAL) return strf("error message with status %s", stName(x.status)); if (!l.er && !(l.dbg && l.er0)) return "error message \"" + x.msg + "\" although that category is disabled"; }
            else if (x.category == "logEvents") { if (!l.ev && !(l.dbg && l.ev0)) return "event message although that category is disabled"; }
            else return "message of the unknown category \"" + x.category + "\"";
        }
        if (g.st == OK && nerr) return "successful call, but the error message \"" + s.logs[0].msg + "\" was sent";
        if (g.st == ERROR && !nerr && l.er && l.er0) return "the call returned Error without any error message";
        return "";
    };
}
void checkC18() {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs(false)) for (int logging = 0; logging < 2; logging++) {
        Config c = c0; c.logging = logging;
        jobs.push_back({cfgName(c) + (logging ? " logging" : ""), [c] {
            Explorer<LogRef> e; logSetUp(e, c); ModelId m = modelId(c.model);
            if (m == SS) e.prefix = {op(K_ENTER_CONFIG), opSetI(U64, {1}, {1}), opSetI(U64, {2}, {2}), opSetI(U64, {3}, {1}), op(K_EXIT_CONFIG)};
            e.maxDepth = thorough ? 7 : m == FT || m == SS ? 5 : 6;
            e.run();
        }});
        // along whole experiments, with each combination of categories enabled from the start
        for (int variant = 0; variant < nScripts; variant++) for (int on = 0; on < 4; on++) jobs.push_back({cfgName(c) + strf(" experiment %d/%d", variant, on), [c, variant, on] {
            Explorer<LogRef> e; logSetUp(e, c); e.sys.open(loadLib(libDir, c.model, c.ver), c); e.setup(); Sys &s = e.sys; LogRef l = e.init; Script sc = longScript(c, variant); std::vector<Op> hist;
            auto step = [&](LogRef &q, const Op &o) -> bool {
                Out x = e.apply(q, o); if (x.skip) return true;
                Out g = s.exec(o); R.transitions++; std::string why; if (g.st != x.st) why = strf("status %s, expected %s", stName(g.st), stName(x.st)); else why = e.monitor(s, q, o, g);
                if (!why.empty()) { auto h = hist; h.push_back(o); R.violation(cfgName(c) + ": " + o.text() + ": " + why + strf("; after %zu calls", hist.size()), traceText("history", {c, h}, x.text(), g.text())); return false; }
                return true;
            };
            for (int k = 0; k < 2; k++) { Op d = op(K_DEBUG); d.f = on >> k & 1; d.s = {k ? "logStatusError" : "logEvents"}; if (!step(l, d)) return; hist.push_back(d); }
            std::set<size_t> pts; for (size_t k : sc.points(thorough ? 400 : c.model == "Feedthrough" ? 20 : 60)) pts.insert(k);
            for (size_t k = 0; k <= sc.ops.size(); k++) {
                if (pts.count(k)) {
                    Image im; s.snap(im); std::vector<Op> a; e.alphabet(l, a); R.states++;
                    for (auto &o : a) { LogRef q = l; s.restore(im); if (!step(q, o)) return; }
                    s.restore(im);
                }
                if (k < sc.ops.size()) { if (!step(l, sc.ops[k])) return; hist.push_back(sc.ops[k]); }
            }
            R.traces++; R.extra["experiment_calls"] += sc.ops.size();
        }});
    }
    // texts of the importer that look like formats: the message is the same as for a text without percent signs, but for these signs
    for (auto &c0 : allConfigs(false)) jobs.push_back({cfgName(c0) + " texts with percent signs", [c0] {
        const ModelId m = modelId(c0.model);
        auto marked = [](std::string t) { for (auto &ch : t) if (ch == '#') ch = '%'; return t; };
        auto plain = [](std::string t) { for (auto &ch : t) if (ch == '%') ch = '#'; return t; };
        std::vector<std::string> texts = {"%", "%%", "100%", "a%%b", "%%%%", "%d", "%5d items", "a%xb%%c", "%c", "%zu%%", "log%%Events", "% d"};
        for (auto &x : texts) for (int where = 0; where < (m == RES ? 2 : 1); where++) for (Mode mode : {M_INST, M_INIT}) {
            std::string got[2]; size_t n[2]; std::vector<Op> h; Config c = c0;
            for (int k = 0; k < 2; k++) {
                const std::string y = k ? plain(x) : x;
                if (where) { std::string u; for (char ch : y) u += c.ver == 2 && (ch == '%' || ch == '#' || ch == ' ') ? strf("%%%02X", (unsigned char)ch) : std::string(1, ch); c.resource = (c.ver == 2 ? "file://" : "") + resourceDir() + "/missing" + u + (c.ver == 3 ? "/" : ""); }
                Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); s.instantiate(0, &c); h.clear();
                for (auto &o : toMode(c, mode)) { s.exec(o); h.push_back(o); }
                Op o = op(K_DEBUG); o.f = true; o.s = {y}; if (where) o = opGet(I32, {1});
                Out g = s.exec(o); h.push_back(o); R.transitions++; n[k] = s.logs.size();
                for (auto &l : s.logs) got[k] += (got[k].empty() ? "" : "; ") + l.msg;
                if (!where && g.st != ERROR) got[k] = "an unknown category was accepted";
                R.states++;
            }
            R.traces++;
            if (n[0] != n[1] || marked(got[0]) != marked(got[1])) { R.violation(cfgName(c) + ": " + (where ? "a resource location" : "a category") + " with the text " + x + ": the message, formatted for the logger, is \"" + got[0] + "\", but with # instead of % it is \"" + got[1] + "\"", traceText("history", {c, h}, marked(got[1]), got[0])); return; }
        }
        // and of any length: the message for a long name is the message for a short one with the name exchanged
        std::string base; const std::string shortName = "nocategory";
        for (size_t len : {0u, 1u, 31u, 63u, 64u, 127u, 128u, 200u, 255u, 256u, 300u, 400u, 511u, 512u, 513u, 1000u, 1023u, 1024u, 1025u, 2047u, 2048u, 4095u, 4096u, 9000u}) {
            std::string y = shortName; if (len) { y.clear(); for (size_t k = 0; k < len; k++) y += (char)('a' + k % 23); }
            Sys s; s.open(loadLib(libDir, c0.model, c0.ver), c0); s.fresh(); s.instantiate(0, &c0); Op o = op(K_DEBUG); o.f = true; o.s = {y};
            s.exec(o); R.transitions++; R.states++; std::string got; for (auto &l : s.logs) got += (got.empty() ? "" : "; ") + l.msg;
            if (!len) { base = got; if (base.find(shortName) == std::string::npos) break; continue; }
            std::string want = base; want.replace(want.find(shortName), shortName.size(), y);
            if (got != want) { R.violation(cfgName(c0) + strf(": the message about an unknown category of %zu characters does not show its name; with a short name it is \"", len) + base + "\"", traceText("history", {c0, {o}}, want, got)); return; }
        }
    }});
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C21
void checkC21() {
    std::vector<Job> jobs; resourceDir();
    for (int mm = 0; mm < 9; mm++) for (int ver : versionsOf((ModelId)mm)) {
        jobs.push_back({strf("%s FMI%d", modelNames[mm], ver), [mm, ver] {
            ModelId m = (ModelId)mm; Config c; c.model = modelNames[mm]; c.ver = ver;
            std::string good = tokenOf(c.model); std::string lower = good; for (auto &ch : lower) ch = (char)tolower(ch); if (lower == good) for (auto &ch : lower) ch = (char)toupper(ch);
            std::vector<std::string> tokens = {good, "\x01NULL", "", good.substr(0, good.size() - 1), good + " ", good + "x", " " + good, lower, good.substr(1), "{}", "x", std::string(1, good[0])};
            for (size_t k = 0; k < good.size(); k++) { auto t = good; t[k] = t[k] == '0' ? '1' : '0'; tokens.push_back(t); }          // every single wrong character
            for (int o = 0; o < 9; o++) if (tokenOf(modelNames[o]) != good) tokens.push_back(tokenOf(modelNames[o]));
            std::vector<const char *> names = {"inst", nullptr, "", "a", " ", "name with spaces and %s %d %n", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", "\xc3\xa4", "inst"};
            static std::vector<std::string> longNames; longNames.clear(); for (size_t n : {63u, 64u, 127u, 128u, 255u, 256u, 1023u, 1024u, 4095u, 4096u, 10000u}) longNames.push_back(std::string(n - 1, 'n') + "!");
            const size_t usual = names.size(); for (auto &n : longNames) names.push_back(n.c_str());
            std::vector<std::string> resources = {"", "\x01" "EMPTY", ver == 3 ? resourceDir() + "/" : "file://" + resourceDir(), "nonsense", std::string(5000, 'r')};
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c);
            bool bad = false;
            for (int iface = 0; iface < (ver == 3 ? 3 : 2) && !bad; iface++)
            for (int flags = 0; flags < 64 && !bad; flags++) {
                c.iface = (Iface)iface; c.logging = flags & 1; s.visible = flags & 2; s.nullLogger = flags & 4; c.eventMode = flags & 8; c.early = flags & 16; c.inter = flags & 32;
                if (iface != CS && (flags & 56)) continue;
                if (ver == 2 && (flags & 56) && (flags & 56) != 8) continue;
                s.noFunctions = ver == 2 && (flags & 8); if (ver == 2) c.eventMode = false;
                for (size_t ni = 0; ni < names.size() && !bad; ni++) for (size_t ti = 0; ti < tokens.size() && !bad; ti++) for (size_t ri = 0; ri < resources.size() && !bad; ri++) {
                    if (ti > 12 && (ni > 1 || ri > 0)) continue;
                    if (ni >= usual && (ti > 1 || ri > 0)) continue;
                    s.required.clear(); if (iface == CS && ver == 3 && ti < 2) { const size_t nr = (ni + 3 * ri + (size_t)flags) % 6; s.required.resize(nr < 4 ? nr : nr == 4 ? 20 : 300); for (size_t z = 0; z < s.required.size(); z++) s.required[z] = (uint32_t)(nr == 3 ? 4000 + z : z % 8); }
                    c.resource = resources[ri];
                    bool nameOk = names[ni] && *names[ni], tokenOk = ti == 0;
                    bool ifaceOk = m == CLOCKS ? iface == SE : iface != SE;
                    bool optOk = !(c.eventMode && !hasEventSupport(m)), cbOk = ver == 3 || (!s.noFunctions && !s.nullLogger);
                    bool want = nameOk && tokenOk && ifaceOk && optOk && cbOk;
                    s.fresh(); s.envOk = true;
                    bool got = s.instantiate(0, &c, names[ni], tokens[ti].c_str()); R.transitions++; R.traces++; R.evaluations++;
                    std::string why, desc = cfgName(c) + strf(" %zu required intermediate variables name=%s token=%s resource=%.40s logging=%d visible=%d logger=%s%s", s.required.size(), names[ni] ? names[ni] : "NULL", ti == 1 ? "NULL" : tokens[ti].c_str(), ri == 0 ? "NULL" : ri == 1 ? "\"\"" : c.resource.c_str(), (int)c.logging, (int)s.visible, s.nullLogger ? "NULL" : "given", s.noFunctions ? " callback functions NULL" : "");
                    if (got != want) why = want ? "instantiation failed" : "instantiation succeeded";
                    else if (!want) {
                        if (arena::live()) why = strf("failed instantiation left %zu bytes allocated", arena::liveBytes());
                        else if (ifaceOk && !s.nullLogger && !s.noFunctions && s.logs.empty()) why = "instantiation failed without any message to the logger";
                        else if ((s.nullLogger || s.noFunctions) && !s.logs.empty()) why = "a message was sent although there is no logger";
                        else for (auto &l : s.logs) if (!s.envOk || l.who != 0 || l.status != ERROR || (ver == 2 && nameOk && l.name != names[ni])) why = "message \"" + l.msg + "\" with a wrong environment, status or name";
                    } else {
                        if (!s.logs.empty()) why = "successful instantiation sent the message \"" + s.logs[0].msg + "\"";
                        Ref r; r.init(c); std::vector<Op> ex;
                        bool readable = m != RES || ri == 2;
                        if (ver == 2 && why.empty()) for (auto &o : toMode(c, M_INIT)) { Out e = r.apply(o), g = s.exec(o); if (g.st != e.st) why = o.text() + strf(": status %s", stName(g.st)); }
                        if (why.empty() && readable) { s.cfg = c; why = compareReads(s, r, ex); if (!why.empty()) why = "start values: " + why; }
                        if (why.empty()) {       // callbacks carry the environment and the name
                            Op o = opSetD(F64, {4711}, {1}); Out g = s.exec(o);
                            if (g.st != ERROR) why = "setting an unknown variable did not fail";
                            else if (s.nullLogger ? !s.logs.empty() : s.logs.empty()) why = s.nullLogger ? "message without a logger" : "no message";
                            else for (auto &l : s.logs) if (!s.envOk || l.who != 0 || (ver == 2 && l.name != names[ni])) why = "message \"" + l.msg + "\" with a wrong environment or name \"" + l.name + "\"";
                        }
                        if (why.empty()) { s.exec(op(K_FREE)); if (arena::live()) why = strf("freeing left %zu bytes allocated", arena::liveBytes()); }
                        R.states++;
                    }
                    if (why.empty()) arena::intact(why);
                    if (!want) R.states++;
                    if (!why.empty()) { bad = true; R.violation(desc + ": " + why, "what " + desc + "\nconfig " + c.text() + "\n"); }
                    if (R.samples.empty() && ti == 3) R.samples.push_back(desc);
                }
            }
        }});
    }
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C22
void checkC22() {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) {
        if (c0.ver != 3 || c0.iface != CS) continue;
        ModelId m = modelId(c0.model); double H = solverStep(m);
        struct V { std::vector<Op> sets; double start; int steps; };
        auto D = [](uint32_t vr, double x) { return opSetD(F64, {vr}, {x}); };
        std::vector<V> vs;
        if (m == BB) { for (double h : {0.0005, 0.0015, 0.0025}) for (double v : {-1.0, -0.12, 0.0}) vs.push_back({{D(1, h), D(3, v)}, 0, 7}); vs.push_back({{}, 0.5, 6}); }
        else if (m == STAIR) { for (int k : {1, 8, 9}) for (double st : {0.0, 0.5}) vs.push_back({{opSetI(I32, {1}, {k})}, st, k == 1 ? 8 : 14}); }
        else if (m == SS) vs.push_back({{op(K_ENTER_CONFIG), opSetI(U64, {1}, {2}), opSetI(U64, {2}, {2}), opSetI(U64, {3}, {1}), op(K_EXIT_CONFIG)}, 0, 5});
        else { vs.push_back({{}, 0, 6}); vs.push_back({{}, -1, 6}); }
        for (int inter = 0; inter < 2; inter++) for (size_t vi = 0; vi < vs.size(); vi++) {
            Config c = c0; c.inter = inter; V v = vs[vi];
            jobs.push_back({cfgName(c) + strf(" inter=%d #%zu", inter, vi), [c, m, H, v] {
                Explorer<Ref> e; e.cfg = c; e.init.init(c); e.sys.earlyAsk = c.inter && c.early;
                static std::vector<Ref> steps; static size_t calls; static int mask; static std::string inside;
                e.apply = [](Ref &r, const Op &o) -> Out {
                    steps.clear(); calls = 0; inside.clear(); mask = o.b;
                    Op p = o; p.b = 0; internalSteps = o.k == K_DOSTEP ? &steps : nullptr; Out x = r.apply(p); internalSteps = nullptr; return x;
                };
                e.sys.onInter = [&e](CbInter &) {
                    size_t k = calls++;
                    if (k < steps.size() && (mask >> k & 1)) { std::vector<Op> ex; std::string w = compareReads(e.sys, steps[k], ex); if (!w.empty() && inside.empty()) inside = strf("inside callback %zu: ", k) + w; }
                };
                e.prefix = v.sets; for (auto &o : toMode(c, M_STEP, v.start)) e.prefix.push_back(o);
                double end = v.start + (v.steps + 0.3) * H;
                e.alphabet = [m, H, end, c](const Ref &r, std::vector<Op> &a) {
                    if (r.mode == M_STEP) {
                        long q = lround((r.nextCP - r.start) / (0.25 * H));
                        for (int k : {4, 8, 12, 2, 6}) { double to = r.start + (double)(q + k) * 0.25 * H; if (to < end) for (int mk = 0; mk < (c.inter ? 1 << std::max(1, (k + 3) / 4) : 1); mk++) { Op o = opStep(r.nextCP, to - r.nextCP); o.b = mk; a.push_back(o); } }
                        if (m == BB) a.push_back(opSetD(F64, {6}, {0.6}));
                    }
                    if (c.eventMode) { if (r.mode == M_STEP) a.push_back(op(K_ENTER_EVENT)); if (r.mode == M_EVENT) { a.push_back(op(K_UPDATE)); a.push_back(op(K_ENTER_STEP)); } }
                };
                e.monitor = [c](Sys &s, const Ref &, const Op &o, const Out &) -> std::string {
                    size_t want = c.inter && o.k == K_DOSTEP ? steps.size() : 0;
                    if (s.inters.size() != want) return strf("%zu intermediate update callbacks, expected %zu", s.inters.size(), want);
                    for (size_t k = 0; k < want; k++) {
                        auto &i = s.inters[k];
                        if (i.who != 0 || !s.envOk) return "intermediate update with a wrong environment";
                        if (!sameDouble(i.time, steps[k].time, 1e-12)) return strf("intermediate update %zu at time %.17g, expected %.17g", k, i.time, steps[k].time);
                        if (i.setReq || !i.getAllowed || !i.finished || i.canEarly) return strf("intermediate update %zu with flags set=%d get=%d finished=%d early=%d", k, i.setReq, i.getAllowed, i.finished, i.canEarly);
                    }
                    return inside;
                };
                e.probe = [&](Sys &s, const Ref &r, std::vector<Op> &ex) { return compareReads(s, r, ex); };
                e.run();
            }});
        }
    }
    // whole experiments with steps of many internal steps; everything is read in all, in no or in every third callback
    for (auto &c0 : allConfigs()) for (int variant = 0; variant < nScripts; variant++) for (int every : {0, 1, 3}) {
        if (c0.ver != 3 || c0.iface != CS) continue;
        Config c = c0; c.inter = true;
        jobs.push_back({cfgName(c) + strf(" experiment %d/%d", variant, every), [c, variant, every] {
            Script sc = longScript(c, variant); Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("instantiate");
            std::vector<Ref> steps; size_t calls = 0; std::string why;
            s.onInter = [&](CbInter &) { size_t k = calls++; if (every && k < steps.size() && k % (size_t)every == 0 && why.empty()) { std::vector<Op> ex; why = compareReads(s, steps[k], ex); if (!why.empty()) why = strf("inside callback %zu: ", k) + why; } };
            for (size_t n = 0; n < sc.ops.size(); n++) {
                Ref r = sc.refs[n]; steps.clear(); calls = 0; internalSteps = sc.ops[n].k == K_DOSTEP ? &steps : nullptr; Out e = r.apply(sc.ops[n]); internalSteps = nullptr;
                Out g = s.exec(sc.ops[n]); R.transitions++; R.states++; std::string w;
                if (!sameOut(g, e, 1e-9, w)) why = w;
                if (why.empty() && s.inters.size() != steps.size()) why = strf("%zu intermediate update callbacks, expected %zu", s.inters.size(), steps.size());
                for (size_t k = 0; k < steps.size() && why.empty(); k++) {
                    auto &i = s.inters[k];
                    if (i.who != 0 || !s.envOk) why = "intermediate update with a wrong environment";
                    else if (!sameDouble(i.time, steps[k].time, 1e-12)) why = strf("intermediate update %zu at time %.17g, expected %.17g", k, i.time, steps[k].time);
                    else if (i.setReq || !i.getAllowed || !i.finished || i.canEarly) why = strf("intermediate update %zu with flags set=%d get=%d finished=%d early=%d", k, i.setReq, i.getAllowed, i.finished, i.canEarly);
                }
                std::vector<Op> ex; if (why.empty()) why = compareReads(s, r, ex);
                if (!why.empty()) { auto h = sc.first(n + 1); R.violation(cfgName(c) + ": " + sc.ops[n].text() + ": " + why + strf("; after %zu calls", n), traceText("history", {c, h})); return; }
                R.extra["experiment_callbacks"] += steps.size();
            }
            R.traces++;
        }});
    }
    runJobs(jobs, 8, 600);
}

// ------------------------------------------------------------------ C23
static void putFile(const std::string &path, const std::string &content) { FILE *f = fopen(path.c_str(), "wb"); if (!f) die("cannot write %s", path.c_str()); fwrite(content.data(), 1, content.size(), f); fclose(f); }
void checkC23() {
    std::string base = libDir + strf("/mc-res-%d", (int)getpid());
    mkdir(base.c_str(), 0755);
    std::vector<std::string> dirs;
    auto mk = [&](const std::string &name, const std::string &content, bool file = true) { std::string d = base + "/" + name; mkdir(d.c_str(), 0755); if (file) putFile(d + "/y.txt", content); dirs.push_back(d); return d; };
    struct Case { std::string loc; int want; bool readable; std::string note; };
    std::vector<Job> jobs;
    for (int ver : {2, 3}) for (int iface : {ME, CS}) {
        std::vector<Case> cases;
        auto enc = [](unsigned char ch, bool up) { return strf(up ? "%%%02X" : "%%%02x", ch); };
        auto plain = [](unsigned char ch) { return isalnum(ch) || ch == '/' || ch == '-' || ch == '_' || ch == '.' || ch == '~'; };
        auto good = [&](const std::string &dir, int want, const std::string &note) {
            if (ver == 3) { cases.push_back({dir + "/", want, true, note}); return; }
            for (const char *scheme : {"file:", "file://"}) {
                std::string minimal, all, allLow; for (unsigned char ch : dir) { minimal += plain(ch) ? std::string(1, (char)ch) : enc(ch, true); all += ch == '/' ? "/" : enc(ch, true); allLow += ch == '/' ? "/" : enc(ch, false); }
                cases.push_back({scheme + minimal, want, true, note}); cases.push_back({scheme + all, want, true, note + ", all encoded"}); cases.push_back({scheme + allLow, want, true, note + ", all encoded in lower case"});
                size_t from = dir.rfind('/');
                for (size_t k = from; k < dir.size(); k++) for (bool up : {false, true}) {        // every byte of the last part encoded
                    std::string s; for (size_t j = 0; j < dir.size(); j++) { unsigned char ch = (unsigned char)dir[j]; s += j == k ? (ch == '/' && k == from ? std::string("/") : enc(ch, up)) : plain(ch) ? std::string(1, (char)ch) : enc(ch, up); }
                    cases.push_back({scheme + s, want, true, note + strf(", byte %zu encoded", k - from)});
                }
            }
        };
        auto fails = [&](const std::string &loc, const std::string &note) { cases.push_back({loc, 0, false, note}); };
        int no = 0;
        for (int b = 0; b < 256; b++) good(mk(strf("v%d-%d-b%d", ver, iface, b), std::string(1, (char)b) + (b % 2 ? "rest" : "")), b, strf("first byte %d", b));
        for (const char *name : {"plain", "with space", "per%cent", "per%25cent", "hash#tag", "q?m", "plus+plus", "am&p;semi=eq", "\xc3\xa4\xc3\xb6", "\xff\xfe", "a%41", "~tilde", "UPPER", "%", "%%", "x%2", "back\\slash", "quote'\"", "brace{}[]", "ctl\x01\x7f"}) {
            std::string d = mk(strf("v%d-%d-n%d-", ver, iface, no++) + name, "q");
            good(d, 'q', strf("directory name %s", name));
        }
        // every byte that a file name may contain
        for (int b = 1; b < 256; b++) if (b != '/') good(mk(strf("v%d-%d-c%d-", ver, iface, b) + std::string(1, (char)b) + "e", "c"), 'c', strf("directory name with byte %d", b));
        // path lengths around the limits of the operating system and typical buffers
        {
            std::string d = mk(strf("v%d-%d-long", ver, iface), "L");
            for (long total : {100L, 255L, 256L, 257L, 511L, 512L, 513L, 1020L, 1021L, 1022L, 1023L, 1024L, 1025L, 1026L, 1027L, 1028L, 1029L, 1030L, 1031L, 1032L, 2047L, 2048L, 2049L, 4080L, 4085L, 4086L, 4087L, 4088L, 4089L, 4090L, 4091L, 4092L, 4093L, 4094L, 4095L, 4096L, 4097L, 4098L, 4099L, 4100L, 4101L, 4102L, 4103L, 4104L, 5000L, 8191L, 8192L, 8193L, 20000L}) {
                std::string p = d; long len = total - 6;            // length without "/y.txt"
                if ((long)p.size() + 2 > len) continue;
                while ((long)p.size() + 2 <= len) p += "/."; if ((long)p.size() < len) p.insert(p.size() - 1, "/");
                bool ok = total <= 4095;
                if (ok) { if (ver == 3) cases.push_back({p + "/", 'L', true, strf("file path of %ld characters", total)}); else for (const char *sch : {"file:", "file://"}) cases.push_back({sch + p, 'L', true, strf("file path of %ld characters", total)}); }
                else fails(ver == 3 ? p + "/" : "file://" + p, strf("file path of %ld characters", total));
                if (ver == 2) {         // the encoded form is longer than the path
                    std::string q; for (unsigned char ch : p) q += ch == '/' ? "/" : enc(ch, true);
                    if (ok) cases.push_back({"file://" + q, 'L', true, strf("encoded file path of %ld characters", total)}); else fails("file://" + q, strf("encoded file path of %ld characters", total));
                }
            }
        }
        fails("", "no location"); fails("\x01" "EMPTY", "empty location");
        { std::string d = mk(strf("v%d-%d-nofile", ver, iface), "", false), e = mk(strf("v%d-%d-empty", ver, iface), "");
          fails(ver == 3 ? d + "/" : "file://" + d, "no file"); fails(ver == 3 ? e + "/" : "file://" + e, "empty file"); fails(ver == 3 ? base + "/absent/" : "file://" + base + "/absent", "no directory");
          std::string p = mk(strf("v%d-%d-plain", ver, iface), "p");
          if (ver == 2) for (std::string sch : {"http://", "http:", "fil:", "ftp://", "", "FTP:", "/", "x"}) fails(sch + p, "scheme '" + sch + "'");
          if (ver == 2) {           // relative to the working directory
              char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) die("getcwd"); std::string rel; for (const char *q = cwd; *q; q++) if (*q == '/' && q[1]) rel += "../"; rel += p.substr(1);
              struct stat sb; if (stat((rel + "/y.txt").c_str(), &sb)) die("%s does not exist", rel.c_str());
              for (std::string sch : {"file:", "file:./", "file", "", "./", "file:."}) fails(sch + rel, "relative location after '" + sch + "'");
          } }
        size_t per = 1 + cases.size() / 4;
        for (size_t b = 0; b < cases.size(); b += per) {
            std::vector<Case> part(cases.begin() + (long)b, cases.begin() + (long)std::min(cases.size(), b + per));
            jobs.push_back({strf("Resource FMI%d %s #%zu", ver, iface == ME ? "ME" : "CS", b), [=] {
                Config c; c.model = "Resource"; c.ver = ver; c.iface = (Iface)iface;
                Sys s; s.open(loadLib(libDir, c.model, c.ver), c);
                for (auto &k : part) {
                    c.resource = k.loc; s.fresh(); std::string why;
                    if (!s.instantiate(0, &c)) why = "instantiation failed";
                    std::vector<Op> hist; R.states++; R.traces++;
                    auto read = [&](bool ok, const char *when) {
                        Op g = opGet(I32, {1}); Out o = s.exec(g); hist.push_back(g); R.transitions++;
                        if (ok) { if (o.st != OK) why = strf("reading y %s: status %s", when, stName(o.st)); else if (o.i[0] != k.want && o.i[0] != k.want - 256 * (k.want >= 128)) why = strf("y %s is %lld, expected the first byte %d", when, (long long)o.i[0], k.want); }
                        else if (o.st != ERROR) why = strf("reading y %s: status %s, expected Error", when, stName(o.st));
                    };
                    auto path = toMode(c, iface == ME ? M_CTM : M_STEP);
                    for (size_t j = 0; j < path.size() && why.empty(); j++) {
                        Out o = s.exec(path[j]); hist.push_back(path[j]); R.transitions++;
                        int want = !k.readable && path[j].k == K_EXIT_INIT ? ERROR : OK;
                        if (o.st != want) why = path[j].text() + strf(": status %s, expected %s", stName(o.st), stName(want));
                        else if (want == ERROR) { if (s.logs.empty()) why = "no error message"; else read(false, "after the error"); break; }
                        else if (k.readable && path[j].k != K_SETUP && (ver == 3 || path[j].k != K_ENTER_INIT || true)) read(true, "");
                    }
                    if (why.empty() && k.readable && iface == CS) { Op st = opStep(0, 1); hist.push_back(st); if (s.exec(st).st != OK) why = "the step failed"; else read(true, "after a step"); }
                    if (why.empty() && arena::openFiles) why = "a file was left open";
                    if (why.empty()) { s.exec(op(K_RESET)); auto p2 = toMode(c, M_INIT); for (auto &o : p2) s.exec(o); if (k.readable) read(true, "after a reset"); else read(false, "after a reset"); }
                    if (why.empty()) { s.exec(op(K_FREE)); if (arena::live()) why = strf("freeing left %zu bytes allocated", arena::liveBytes()); else arena::intact(why); }
                    if (R.samples.size() < 2 && R.states % 400 == 7) R.samples.push_back(k.note + ": " + k.loc.substr(0, 120));
                    if (!why.empty()) { R.violation(cfgName(c) + " (" + k.note + ", location " + k.loc.substr(0, 200) + "): " + why, traceText(k.note, {c, hist})); return; }
                }
            }});
        }
    }
    runJobs(jobs, 8, 600);
    for (auto &d : dirs) { unlink((d + "/y.txt").c_str()); rmdir(d.c_str()); }
    rmdir(base.c_str());
}

// ------------------------------------------------------------------ C30
void checkC30() {
    std::vector<Job> jobs;
    for (int mm = 0; mm < 9; mm++) {
        if (versionsOf((ModelId)mm).size() < 2) continue;
        ModelId m = (ModelId)mm;
        for (int iface : {ME, CS}) for (int variant = 0; variant < 6; variant++) {
            struct V { std::vector<Op> sets; double start; int steps; } v;
            double H = solverStep(m);
            v.start = variant == 0 ? 0 : variant == 1 ? 0.5 : variant == 2 ? 0.1 : variant == 3 ? 0 : variant == 4 ? 0.7 : 0; v.steps = m == STAIR ? 14 : 5;
            if (m == BB) { v.sets = {opSetD(F64, {1}, {std::vector<double>{0.0015, 1, 0.0005, 0.003, 0.0001, 0}[(size_t)variant]}), opSetD(F64, {3}, {std::vector<double>{-1, 0, -0.12, -0.3, 0.1, -1}[(size_t)variant]})}; v.steps = 8; }
            if (m == STAIR) v.sets = {opSetI(I32, {1}, {std::vector<int64_t>{1, 8, 9, 7, 3, 9}[(size_t)variant]})};
            if (m == RES && variant > 1) continue;
            if (m == FT && variant > 1) continue;
            jobs.push_back({strf("%s %s #%d", modelNames[mm], iface == ME ? "ME" : "CS", variant), [m, iface, variant, v, H] {
                Config c2, c3; c2.model = c3.model = modelNames[m]; c2.iface = c3.iface = (Iface)iface; c2.ver = 2; c3.ver = 3;
                if (m == RES) { c3.resource = resourceDir() + "/"; c2.resource = "file://" + resourceDir(); }
                Lib *l2 = loadLib(libDir, c2.model, 2), *l3 = loadLib(libDir, c3.model, 3);
                Sys s2, s3; s2.open(l2, c2); s2.fresh(); s2.instantiate(0, &c2); Image i2; s2.snap(i2);
                s3.open(l3, c3); s3.fresh(); s3.instantiate(0, &c3); Image i3; s3.snap(i3);
                struct N { Image a, b; Ref r2, r3; uint32_t parent; Op o; int depth; };
                std::vector<N> q; N n0; n0.a = i2; n0.b = i3; n0.r2.init(c2); n0.r3.init(c3); n0.parent = 0; n0.depth = 0; q.push_back(n0);
                std::unordered_set<H128, H128h> seen;
                auto history = [&](size_t k) { std::vector<Op> p; while (k) { p.push_back(q[k].o); k = q[k].parent; } std::reverse(p.begin(), p.end()); return p; };
                auto to2 = [&](const Op &o) { std::vector<Op> r; if (o.k == K_ENTER_INIT) { Op s = op(K_SETUP); s.t = o.t; s.f = o.f; s.h = o.h; r.push_back(s); r.push_back(op(K_ENTER_INIT)); return r; } Op p = o; if (p.ty == I64) p.ty = I32; if (p.k == K_GET) p.n = -1; r.push_back(p); return r; };
                size_t cap = thorough ? 400000 : 120000; bool capped = false;
                auto fail = [&](size_t k, const Op &o, const std::string &why) { auto h = history(k); h.push_back(o); std::vector<Op> h2; for (auto &x : h) for (auto &y : to2(x)) h2.push_back(y); R.violation(strf("%s %s: ", modelNames[m], iface == ME ? "ME" : "CS") + o.text() + ": " + why, traceText("FMI 2.0", {c2, h2}) + traceText("FMI 3.0", {c3, h})); };
                // executes in both versions; false if something differs
                auto both = [&](const Image &a, const Image &b, Ref &r2, Ref &r3, const Op &o, std::string &why, bool &follow) -> bool {
                    follow = false;
                    Out e3 = r3.apply(o), e2; for (auto &p : to2(o)) { e2 = r2.apply(p); if (e2.skip || e2.st == ERROR) return true; }
                    if (e3.skip || e3.st != OK) return true;
                    Out g2, g3; curSys = &s2; s2.restore(a); for (auto &p : to2(o)) { g2 = s2.exec(p); if (g2.st != OK) break; }
                    Image na; s2.snap(na);
                    curSys = &s3; s3.restore(b); g3 = s3.exec(o); R.transitions += 2;
                    if (o.k == K_DOSTEP) {
                        bool t2 = g2.st == DISCARD, t3 = g3.st == OK && g3.i[1]; if (t2 != t3) { why = strf("FMI 2.0 status %s, FMI 3.0 status %s%s", stName(g2.st), stName(g3.st), t3 ? " with termination requested" : ""); return false; }
                        if (!t2 && g2.st != g3.st) { why = strf("status %s in FMI 2.0, %s in FMI 3.0", stName(g2.st), stName(g3.st)); return false; }
                    } else if (!sameOut(g2, g3, 1e-12, why)) { why = "FMI 2.0 against FMI 3.0: " + why; return false; }
                    if (g3.st != OK) return true;
                    Image nb; s3.snap(nb);
                    // all variables
                    for (auto &x : varsOf(c2.model, 2)) {
                        if (r2.permitGet(x.ty) != ACCEPT) break;
                        Op r = opGet(x.ty == I32 && x.vr >= 33 ? I64 : x.ty, {x.vr}); r.n = 1;
                        curSys = &s2; s2.restore(na); Out a2 = s2.exec(to2(r)[0]); curSys = &s3; s3.restore(nb); Out a3 = s3.exec(r); R.transitions += 2;
                        if (!sameOut(a2, a3, 1e-12, why)) { why = strf("%s in FMI 2.0 against FMI 3.0: ", x.name) + why; return false; }
                    }
                    N c; c.a = std::move(na); c.b = std::move(nb); c.r2 = r2; c.r3 = r3; c.o = o;
                    H128 h = hashStr(c.a.bytes), h2 = hashStr(c.b.bytes, 9), h3 = hashRef(c.r3);
                    follow = true;
                    if (!seen.insert({h.a ^ h2.a * 3 ^ h3.a * 5, h.b + h2.b * 7 + h3.b * 11}).second) { follow = false; return true; }
                    q.push_back(std::move(c));
                    return true;
                };
                bool bad = false;
                for (size_t k = 0; k < q.size() && !bad; k++) {
                    std::vector<Op> a; const Ref r = q[k].r3; int depth = q[k].depth;
                    int fixed = (int)v.sets.size();
                    if (depth < fixed) a.push_back(v.sets[(size_t)depth]);
                    else switch (r.mode) {
                        case M_INST: a.push_back(opInit(v.start)); a.push_back(opInit(v.start, v.start + (m == STAIR ? 3 : 4 * H))); if (depth < fixed + 2) for (auto &o : setOps(r, 1)) a.push_back(o); break;
                        case M_INIT: a.push_back(op(K_EXIT_INIT)); if (depth < fixed + 3) for (auto &o : setOps(r, 2)) a.push_back(o); if (r.nx() && iface == ME) { a.push_back(opN(K_GET_STATES, (long)r.nx())); if (r.nz()) a.push_back(opN(K_GET_EI, (long)r.nz())); } break;
                        case M_EVENT: a.push_back(op(K_UPDATE)); a.push_back(op(K_ENTER_CTM)); a.push_back(opTime(v.start + 0.25)); if (m == STAIR && r.nextDef) a.push_back(opTime(r.nextT)); for (auto &o : setOps(r, 1)) a.push_back(o); a.push_back(op(K_TERMINATE)); break;
                        case M_CTM: {
                            a.push_back(op(K_ENTER_EVENT)); a.push_back(op(K_COMPLETED)); a.push_back(opTime(v.start)); a.push_back(opTime(v.start + 0.5)); if (m == STAIR && r.nextDef && r.nextT < 12) a.push_back(opTime(r.nextT)); a.push_back(op(K_TERMINATE));
                            if (r.nx()) { std::vector<double> x(r.nx()); for (size_t i = 0; i < x.size(); i++) x[i] = m == BB ? (i ? -1.0 : -0.001) : 0.5 + (double)i; a.push_back(opStates(x)); if (m == BB) a.push_back(opStates({-0.001, -0.1})); a.push_back(opN(K_GET_STATES, (long)r.nx())); a.push_back(opN(K_GET_DERS, (long)r.nx())); a.push_back(opN(K_GET_NOMINALS, (long)r.nx())); }
                            if (r.nz()) a.push_back(opN(K_GET_EI, (long)r.nz()));
                            if (m == VDP) { Op d = op(K_DIRDER); d.vr = {2, 4}; d.vr2 = {1, 3}; d.d = {1, 2}; a.push_back(d); }
                            for (auto &o : setOps(r, 1)) a.push_back(o);
                            break;
                        }
                        case M_STEP:
                            if (r.n < v.steps) for (double kk : {1.0, 2.0, 3.0, 0.5, 1.5}) a.push_back(opStep(r.nextCP, kk * H));
                            if (m == STAIR && r.n < v.steps) for (double kk : {5.0, 7.0, 11.0}) a.push_back(opStep(r.nextCP, kk * H));
                            if (m == BB) { Op d = op(K_GET_OUTDER); d.vr = {1, 3}; d.i = {1, 1}; a.push_back(d); }
                            for (auto &o : setOps(r, m == FT ? 2 : 1)) a.push_back(o); a.push_back(op(K_TERMINATE)); break;
                        default: break;
                    }
                    if (depth >= (m == FT ? 6 : 60)) continue;
                    auto offered = [&](const Op &o) { if (o.k != K_SET) return true; Ty t = o.ty == I64 ? I32 : o.ty; for (auto &x : varsOf(c2.model, 2)) if (x.vr == o.vr[0] && x.ty == t) return true; return false; };
                    for (auto &o : a) {
                        if (!offered(o)) continue;
                        if (q.size() >= cap) { capped = true; break; }
                        Ref r2 = q[k].r2, r3 = q[k].r3; std::string why; bool follow; Image A = q[k].a, B = q[k].b;
                        if (!both(A, B, r2, r3, o, why, follow)) { fail(k, o, why); bad = true; break; }
                        if (follow) { q.back().parent = (uint32_t)k; q.back().depth = depth + 1; }
                    }
                }
                if (capped) R.exhaustive = false;
                R.states += q.size(); R.traces += q.size(); R.extra["configurations"]++; (void)variant;
                if (q.size() > 50) { std::string t; for (auto &o : history(50)) t += (t.empty() ? "" : " ; ") + o.text(); R.samples.push_back(strf("%s %s: ", modelNames[m], iface == ME ? "ME" : "CS") + t); }
            }});
        }
    }
    runJobs(jobs, 8, 600);
}
