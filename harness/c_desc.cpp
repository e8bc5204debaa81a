// C24, C29: the binaries against their model descriptions and published results. Everything expected is read from
// the XML and CSV files of the tree under test, nothing from the reference model.
#include "state.h"
#include <fstream>
#include <sstream>
#include <array>
#include <set>
#include <sys/wait.h>

struct El {
    std::string name; std::map<std::string, std::string> at; std::vector<El> ch;
    const El *child(const std::string &n) const { for (auto &c : ch) if (c.name == n) return &c; return nullptr; }
    std::string get(const std::string &n, const std::string &d = "") const { auto i = at.find(n); return i == at.end() ? d : i->second; }
    bool has(const std::string &n) const { return at.count(n); }
};
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); if (!f) die("cannot read %s", p.c_str()); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string unescape(const std::string &s) {
    std::string o; static const std::pair<const char *, char> e[] = {{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''}};
    for (size_t i = 0; i < s.size();) { bool hit = false; if (s[i] == '&') for (auto &x : e) if (s.compare(i, strlen(x.first), x.first) == 0) { o += x.second; i += strlen(x.first); hit = true; break; } if (!hit) o += s[i++]; }
    return o;
}
static El parseXml(const std::string &path) {
    std::string s = slurp(path); size_t i = 0; std::vector<El> stack(1);
    while ((i = s.find('<', i)) != std::string::npos) {
        if (s.compare(i, 4, "<!--") == 0) { i = s.find("-->", i); if (i == std::string::npos) die("%s: comment", path.c_str()); continue; }
        if (s[i + 1] == '?' || s[i + 1] == '!') { i = s.find('>', i); continue; }
        if (s[i + 1] == '/') { if (stack.size() < 2) die("%s: nesting", path.c_str()); El e = stack.back(); stack.pop_back(); stack.back().ch.push_back(e); i = s.find('>', i); continue; }
        El e; size_t j = i + 1; while (!isspace((unsigned char)s[j]) && s[j] != '>' && s[j] != '/') e.name += s[j++];
        while (true) {
            while (isspace((unsigned char)s[j])) j++;
            if (s[j] == '>' || s[j] == '/') break;
            std::string a; while (s[j] != '=' && !isspace((unsigned char)s[j])) a += s[j++];
            while (s[j] != '"' && s[j] != '\'') j++;
            char q = s[j++]; std::string v; while (s[j] != q) v += s[j++];
            j++; e.at[a] = unescape(v);
        }
        if (s[j] == '/') stack.back().ch.push_back(e); else stack.push_back(e);
        i = j;
    }
    if (stack.size() != 1 || stack[0].ch.empty()) die("%s: not well-formed", path.c_str());
    return stack[0].ch[0];
}
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> v; std::stringstream t(s); std::string w; while (t >> w) v.push_back(w); return v; }

struct Var { uint32_t vr; std::string name; Ty ty; bool isEnum = false; std::string causality, variability, initial; bool hasStart = false; std::vector<std::string> start; std::vector<uint32_t> dims; std::vector<long> dimN; uint32_t derivative = (uint32_t)-1; double nominal = 1; std::string clocks, interval; };
struct Unknown { std::string what; uint32_t vr; bool hasDeps; std::vector<uint32_t> deps; std::vector<std::string> kinds; };
struct Desc { El root; std::vector<Var> vars; std::vector<Unknown> unknowns; std::string token; size_t nz = 0; const Var *byVr(uint32_t v) const { for (auto &x : vars) if (x.vr == v) return &x; return nullptr; } };
static Desc readDesc(const std::string &model, int ver) {
    Desc d; d.root = parseXml(libDir + strf("/fmi%d/temp/%s/modelDescription.xml", ver, model.c_str()));
    d.token = d.root.get(ver == 2 ? "guid" : "instantiationToken");
    const El *mv = d.root.child("ModelVariables"), *ms = d.root.child("ModelStructure"); if (!mv || !ms) die("%s: incomplete description", model.c_str());
    std::map<std::string, Ty> types = {{"Float32", F32}, {"Float64", F64}, {"Int8", I8}, {"UInt8", U8}, {"Int16", I16}, {"UInt16", U16}, {"Int32", I32}, {"UInt32", U32}, {"Int64", I64}, {"UInt64", U64}, {"Boolean", BOOL}, {"String", STR}, {"Binary", BIN}, {"Clock", CLK}, {"Enumeration", I64}, {"Real", F64}, {"Integer", I32}};
    for (auto &e : mv->ch) {
        Var v; v.vr = (uint32_t)strtoul(e.get("valueReference").c_str(), nullptr, 10); v.name = e.get("name"); v.causality = e.get("causality", "local"); v.clocks = e.get("clocks"); v.interval = e.get("intervalVariability");
        const El *t = &e; if (ver == 2) { if (e.ch.empty()) die("variable without type"); t = &e.ch[0]; }
        if (!types.count(t->name)) die("%s: unknown type %s", model.c_str(), t->name.c_str());
        v.ty = types[t->name]; v.isEnum = t->name == "Enumeration"; if (ver == 2 && v.isEnum) v.ty = I32;
        bool real = v.ty == F32 || v.ty == F64;
        v.variability = e.get("variability", v.causality == "parameter" || v.causality == "structuralParameter" ? "fixed" : real ? "continuous" : "discrete");
        std::string def = v.causality == "independent" ? "" : v.causality == "parameter" || v.causality == "structuralParameter" || v.variability == "constant" || (v.causality == "input") ? "exact" : "calculated";
        v.initial = e.get("initial", def);
        if (t->has("start")) { v.hasStart = true; v.start = v.ty == STR ? std::vector<std::string>{t->get("start")} : words(t->get("start")); }
        for (auto &c : e.ch) { if (c.name == "Start") { v.hasStart = true; v.start.push_back(c.get("value")); } if (c.name == "Dimension") { if (c.has("valueReference")) { v.dims.push_back((uint32_t)atoi(c.get("valueReference").c_str())); v.dimN.push_back(-1); } else { v.dims.push_back(0); v.dimN.push_back(atol(c.get("start").c_str())); } } }
        if (t->has("nominal")) v.nominal = atof(t->get("nominal").c_str());
        if (t->has("derivative")) v.derivative = (uint32_t)atoi(t->get("derivative").c_str());
        d.vars.push_back(v);
    }
    if (ver == 2) for (auto &v : d.vars) if (v.derivative != (uint32_t)-1) { if (v.derivative < 1 || v.derivative > d.vars.size()) die("derivative index"); v.derivative = d.vars[v.derivative - 1].vr; }
    auto add = [&](const std::string &what, const El &e) {
        Unknown u; u.what = what; u.hasDeps = e.has("dependencies"); u.kinds = words(e.get("dependenciesKind"));
        auto id = [&](const std::string &w) { uint32_t n = (uint32_t)strtoul(w.c_str(), nullptr, 10); return ver == 3 ? n : (n >= 1 && n <= d.vars.size() ? d.vars[n - 1].vr : 0xffffffffu); };
        u.vr = id(e.get(ver == 3 ? "valueReference" : "index")); for (auto &w : words(e.get("dependencies"))) u.deps.push_back(id(w));
        d.unknowns.push_back(u);
    };
    if (ver == 3) { for (auto &e : ms->ch) { add(e.name, e); if (e.name == "EventIndicator") d.nz++; } }
    else {
        d.nz = (size_t)atoi(d.root.get("numberOfEventIndicators", "0").c_str());
        for (auto &g : ms->ch) for (auto &e : g.ch) add(g.name == "Outputs" ? "Output" : g.name == "Derivatives" ? "ContinuousStateDerivative" : "InitialUnknown", e);
    }
    return d;
}
static long countOf(const Desc &d, const Var &v) {
    long n = 1; for (size_t i = 0; i < v.dims.size(); i++) { if (v.dimN[i] >= 0) n *= v.dimN[i]; else { auto p = d.byVr(v.dims[i]); if (!p || !p->hasStart) return -1; n *= atol(p->start[0].c_str()); } }
    return n;
}
static Op getOp(const Desc &d, const Var &v) { Op o = opGet(v.ty, {v.vr}); o.n = countOf(d, v); if (v.ty == CLK) { o = op(K_GETCLOCK); o.vr = {v.vr}; } return o; }
static const int NVARIANTS = 7;
static double offsetOf(int variant) { static const double o[NVARIANTS] = {0, 0.125, 0.25, -1, 3.5, -50, 1000}; return o[variant]; }
static Op setOp(const Desc &d, const Var &v, int variant) {
    Op o = op(K_SET); o.ty = v.ty; o.vr = {v.vr};
    for (long k = 0; k < countOf(d, v); k++) {
        if (v.ty == STR || v.ty == BIN) o.s.push_back(variant == 0 ? "a" : variant == 1 ? "bc" : "");
        else if (v.ty == F32 || v.ty == F64) { double b = 0; if (v.hasStart && (size_t)k < v.start.size()) b = atof(v.start[(size_t)k].c_str()); o.d.push_back(v.ty == F32 ? (double)(float)(b + 2 * offsetOf(variant)) : b + offsetOf(variant)); }
        else if (v.ty == BOOL) o.i.push_back((variant + k) & 1);
        else if (v.isEnum) o.i.push_back(1 + (variant + k) % 2);
        else o.i.push_back(v.causality == "input" && variant == 5 ? 100 + k : v.causality == "input" && variant == 6 ? 127 : 1 + variant + k);
    }
    return o;
}
static std::string valText(const Out &o) { return o.text(); }

struct Tester {
    Config c; const Desc &d; Sys s; bool bad = false; std::vector<Op> hist;
    Tester(const Config &c_, const Desc &d_) : c(c_), d(d_) { s.open(loadLib(libDir, c.model, c.ver), c); }
    void fail(const std::string &w) { if (bad) return; bad = true; std::string h; for (auto &o : hist) h += (h.empty() ? "" : " ; ") + o.text(); R.violation(cfgName(c) + ": " + w + (h.empty() ? "" : "; history: " + h), traceText("history", {c, hist})); }
    Out run(const Op &o) { hist.push_back(o); R.transitions++; return s.exec(o); }
    bool must(const Op &o, const std::string &why) { Out g = run(o); if (g.st != OK) { fail(o.text() + " returns " + g.text() + ": " + why); return false; } return true; }
    bool inst() { hist.clear(); s.fresh(); R.states++; if (!s.instantiate(0, &c, "inst", d.token.c_str())) { fail("cannot be instantiated with the declared token"); return false; } return true; }
    bool to(Mode m, double t0 = 0, double t1 = NAN) { if (!inst()) return false; for (auto &o : toMode(c, m, t0, t1)) if (!must(o, "needed to reach " + std::string(modeName[m]))) return false; return true; }
};

static void capabilities(const Config &c, const Desc &d) {
    const El *e = d.root.child(c.iface == ME ? "ModelExchange" : c.iface == CS ? "CoSimulation" : "ScheduledExecution");
    Tester t(c, d);
    const char *names[3] = {"Model Exchange", "Co-Simulation", "Scheduled Execution"};
    if (!e) {     // not declared: refused
        for (int ev = 0; ev < 2; ev++) for (int er = 0; er < 2; er++) { Config q = c; q.eventMode = ev; q.early = er; t.s.fresh(); R.states++; R.transitions++; if (t.s.instantiate(0, &q, "inst", d.token.c_str())) { t.fail(strf("%s is not declared, but an instance is returned", names[c.iface])); return; } }
        return;
    }
    if (e->get("modelIdentifier") != c.model) { t.fail("modelIdentifier " + e->get("modelIdentifier") + " is not the name of the binary"); return; }
    if (!t.inst()) return;
    // the token and nothing else
    for (size_t k = 0; k <= d.token.size() && !t.bad; k++) { std::string w = d.token; if (k < w.size()) w[k] = (char)(w[k] ^ 1); else w += "x"; t.s.fresh(); R.transitions++; if (t.s.instantiate(0, &c, "inst", w.c_str())) t.fail("instantiated with the token " + w); }
    { std::string w = d.token.substr(0, d.token.size() - 1); t.s.fresh(); if (t.s.instantiate(0, &c, "inst", w.c_str())) t.fail("instantiated with the token " + w); }
    if (t.bad) return;
    // version
    std::string ver; t.s.guarded([&] { const char *p = c.ver == 3 ? t.s.lib->f3.GetVersion() : t.s.lib->f2.GetVersion(); arena::on = false; ver = p ? p : "(null)"; });
    if (ver.rfind(d.root.get("fmiVersion"), 0) != 0) { t.fail("the binary is of FMI version " + ver + ", declared is " + d.root.get("fmiVersion")); return; }
    auto yes = [&](const char *a) { return e->get(a) == "true"; };
    const char *fsA = c.ver == 3 ? "canGetAndSetFMUState" : "canGetAndSetFMUstate", *serA = c.ver == 3 ? "canSerializeFMUState" : "canSerializeFMUstate";
    std::vector<Mode> modes = c.iface == ME ? std::vector<Mode>{M_INST, M_INIT, M_EVENT, M_CTM, M_TERM} : c.iface == CS ? std::vector<Mode>{M_INST, M_INIT, M_STEP, M_TERM} : std::vector<Mode>{M_INST, M_INIT, M_CLOCK, M_TERM};
    for (Mode m : modes) {
        if (yes(fsA)) { if (!t.to(m)) return; Op g = op(K_FS_GET), q = op(K_FS_SET), f = op(K_FS_FREE); for (auto &o : {g, q, f}) if (!t.must(o, std::string(fsA) + " is declared")) return; }
        if (yes(serA)) {
            if (!t.to(m)) return; Op g = op(K_FS_GET), z = op(K_FS_SIZE), r = op(K_FS_SER), x = op(K_FS_DES), q = op(K_FS_SET); x.b = 1; q.a = 1;
            for (auto &o : {g, z, r, x, q}) if (!t.must(o, std::string(serA) + " is declared")) return;
        }
    }
    // derivatives: of every derivative and output with respect to every state and continuous input, where declared
    std::vector<uint32_t> knowns, unknowns; for (auto &v : d.vars) { if (v.ty != F64 || !v.dims.empty()) continue; if (v.derivative != (uint32_t)-1) { unknowns.push_back(v.vr); knowns.push_back(v.derivative); } if (v.causality == "input" && v.variability == "continuous") knowns.push_back(v.vr); if (v.causality == "output" && v.variability == "continuous") unknowns.push_back(v.vr); }
    const char *dirA = c.ver == 3 ? "providesDirectionalDerivatives" : "providesDirectionalDerivative";
    for (Mode m : modes) {
        if (m == M_INST || m == M_TERM || m == M_CLOCK) continue;
        for (bool adj : {false, true}) {
            if (adj && c.ver == 2) continue;
            bool decl = yes(adj ? "providesAdjointDerivatives" : dirA);
            for (uint32_t u : unknowns) for (uint32_t k : knowns) {
                const Var *uv = d.byVr(u);
                if (uv->derivative == (uint32_t)-1) continue;
                if (!t.to(m)) return; Op o = op(adj ? K_ADJDER : K_DIRDER); o.vr = {u}; o.vr2 = {k}; o.d = {1};
                Out g = t.run(o); if (decl && g.st != OK) { t.fail(o.text() + " returns " + g.text() + " although it is declared"); return; }
                if (!decl && g.st == OK) R.extra["derivatives_offered_but_not_declared"]++;
            }
        }
    }
    // log categories
    if (const El *lc = d.root.child("LogCategories")) for (auto &k : lc->ch) for (bool on : {false, true}) { if (!t.inst()) return; Op o = op(K_DEBUG); o.f = on; o.s = {k.get("name")}; if (!t.must(o, "the category is declared")) return; }
    // default experiment
    if (const El *de = d.root.child("DefaultExperiment")) {
        double a = atof(de->get("startTime", "0").c_str()), b = atof(de->get("stopTime", "1").c_str());
        if (!t.to(c.iface == ME ? M_CTM : c.iface == CS ? M_STEP : M_CLOCK, a, b)) return;
        if (c.iface == CS && de->has("stepSize")) { Op o = opStep(a, atof(de->get("stepSize").c_str())); if (!t.must(o, "the step size of the default experiment")) return; }
    }
    if (c.iface != CS) return;
    // co-simulation options
    if (c.ver == 3) {
        bool event = yes("hasEventMode");
        for (int er = 0; er < 2; er++) {
            Config q = c; q.eventMode = true; q.early = er; Tester u(q, d); u.s.fresh(); R.states++; bool ok = u.s.instantiate(0, &q, "inst", d.token.c_str());
            if (ok != event) { u.fail(event ? "hasEventMode is declared, but event mode is refused" : "hasEventMode is not declared, but event mode is accepted"); return; }
            if (!event) continue;
            if (!u.to(M_STEP)) return;
            for (K k : {K_ENTER_EVENT, K_UPDATE, K_ENTER_STEP}) if (!u.must(op(k), "hasEventMode is declared")) return;
            if (!u.to(M_EVENT)) return;
        }
        double H = atof(e->get("fixedInternalStepSize", "0").c_str());
        // the internal steps: one notification each
        if (yes("providesIntermediateUpdate")) {
            for (int er = 0; er < 2; er++) for (int ev = 0; ev < (event ? 2 : 1); ev++) {
                Config q = c; q.inter = true; q.early = er; q.eventMode = ev; Tester u(q, d); if (!u.to(M_STEP)) return;
                std::vector<double> times; u.s.onInter = nullptr; double now = 0; int steps = 0; bool can = false;
                for (int k = 0; k < 3; k++) {
                    Op o = opStep(now, 4 * H); Out g = u.run(o); if (g.st != OK) { u.fail(o.text() + " returns " + g.text() + ": a communication step of four internal steps"); return; }
                    for (auto &x : u.s.inters) { times.push_back(x.time); can |= x.canEarly; }
                    steps += (int)lround((g.d[0] - now) / H); now = g.d[0]; if (g.i[0] && ev) break;
                }
                if ((int)times.size() != steps) { u.fail(strf("%zu intermediate updates in %d internal steps of the declared size", times.size(), steps)); return; }
                for (size_t k = 0; k < times.size(); k++) if (fabs(times[k] - H * (double)(k + 1)) > 1e-9 * std::max(1.0, fabs(times[k])) * std::max(1.0, H)) { u.fail(strf("internal step %zu ends at %s, the declared step size is %s", k + 1, fmtd(times[k]).c_str(), fmtd(H).c_str())); return; }
                // early return on request of the importer
                if (er && can != yes("canReturnEarlyAfterIntermediateUpdate")) { u.fail(can ? "canReturnEarlyAfterIntermediateUpdate is not declared, but an intermediate update offers it" : "canReturnEarlyAfterIntermediateUpdate is declared, but no intermediate update allows it"); return; }
                if (!er) for (auto &x : u.s.inters) if (x.canEarly) { u.fail("an intermediate update allows the early return the importer did not permit"); return; }
            }
        }
        // a communication step as long as one internal step makes exactly one
        if (H > 0) { if (!t.to(M_STEP)) return; for (int k = 0; k < 4; k++) { Op o = opStep(H * k, H); Out g = t.run(o); if (g.st != OK || fabs(g.d[0] - H * (k + 1)) > 1e-9 * std::max(1.0, H * (k + 1))) { t.fail(o.text() + " returns " + g.text() + ", the declared internal step size is " + fmtd(H)); return; } } }
        // early return without having declared it
        if (!yes("mightReturnEarlyFromDoStep")) {
            Config q = c; q.early = true; q.eventMode = event; Tester u(q, d); if (!u.to(M_STEP)) return;
            double now = 0, stop = 12; int n = H >= 0.01 ? (int)(stop / H) / 4 : 1000; double h = H >= 0.01 ? 4 * H : 7.5 * H;
            for (int k = 0; k < n; k++) { Op o = opStep(now, h); Out g = u.run(o); if (g.st != OK) break; if (g.i.size() > 2 && g.i[2]) { u.fail(o.text() + " returns " + g.text() + ": an early return, but mightReturnEarlyFromDoStep is not declared"); return; } if (g.i[1]) break; if (g.i[0] && event) { for (K kk : {K_ENTER_EVENT, K_UPDATE, K_ENTER_STEP}) u.run(op(kk)); } else if (g.i[0]) break; now = g.d[0]; }
        }
    }
    if (yes("canHandleVariableCommunicationStepSize")) { if (!t.to(M_STEP)) return; double now = 0, H = solverStep(modelId(c.model)); for (double h : {H, 3 * H, 2 * H, H, 5 * H}) { Op o = opStep(now, h); if (!t.must(o, "canHandleVariableCommunicationStepSize is declared")) return; now += h; } }
}

static void variables(const Config &c, const Desc &d) {
    Tester t(c, d); Mode run = c.iface == ME ? M_EVENT : c.iface == CS ? M_STEP : M_CLOCK;
    std::set<uint32_t> used; std::set<std::string> names;
    for (auto &v : d.vars) { if (!used.insert(v.vr).second) { t.fail(strf("value reference %u is declared twice", v.vr)); return; } if (!names.insert(v.name).second) { t.fail("the name " + v.name + " is declared twice"); return; } }
    size_t nx = 0; std::vector<uint32_t> states, ders;
    for (auto &u : d.unknowns) if (u.what == "ContinuousStateDerivative") { auto v = d.byVr(u.vr); if (!v || v->derivative == (uint32_t)-1 || !d.byVr(v->derivative)) { t.fail("a continuous state derivative of the model structure is not declared as one"); return; } nx += (size_t)countOf(d, *v); ders.push_back(v->vr); states.push_back(v->derivative); }
    for (auto &v : d.vars) {
        long n = countOf(d, v); if (n < 0) { t.fail("dimensions of " + v.name); return; }
        if (v.hasStart && (long)v.start.size() != n) { t.fail(strf("%s has %zu start values for %ld elements", v.name.c_str(), v.start.size(), n)); return; }
        // types
        for (Mode m : {M_INIT, run}) {
            for (int ty = 0; ty <= BIN; ty++) {
                if (c.ver == 2 && ty != F64 && ty != I32 && ty != BOOL && ty != STR) continue;
                if (!t.to(m)) return; Op o = opGet((Ty)ty, {v.vr}); o.n = n; Out g = t.run(o);
                if (v.ty == ty ? g.st != OK : g.st == OK) { t.fail(o.text() + " of " + v.name + " returns " + g.text() + ", declared as " + tyName[v.ty]); return; }
                if (v.ty == ty && c.ver == 3) for (long k : {n - 1, n + 1}) { if (k < 0) continue; if (!t.to(m)) return; o.n = k; g = t.run(o); if (g.st == OK) { t.fail(strf("%s is read with %ld instead of %ld values", v.name.c_str(), k, n)); return; } }
            }
            if (c.ver == 3 && m == run && v.ty == CLK) { if (!t.to(m)) return; Op o = op(v.causality == "output" ? K_GETCLOCK : K_ACTIVATE); o.vr = {v.vr}; if (!t.must(o, v.name + " is declared as a clock")) return; }
        }
        if (v.ty == CLK) continue;
        // start values
        if (v.hasStart && v.initial == "exact") for (Mode m : v.variability == "constant" ? std::vector<Mode>{M_INIT, run} : std::vector<Mode>{M_INIT}) {
            if (!t.to(m)) return; Out g = t.run(getOp(d, v)); bool ok = g.st == OK;
            for (long k = 0; k < n && ok; k++) {
                const std::string &w = v.start[(size_t)k];
                if (v.ty == STR) ok = g.s[(size_t)k] == w; else if (v.ty == BIN) ok = hex(g.s[(size_t)k]) == w || g.s[(size_t)k] == unhex(w); else if (v.ty == F64) ok = g.d[(size_t)k] == atof(w.c_str()); else if (v.ty == F32) ok = (float)g.d[(size_t)k] == (float)atof(w.c_str());
                else if (v.ty == BOOL) ok = g.i[(size_t)k] == (w == "true" || w == "1"); else ok = (v.ty == U64 ? (uint64_t)g.i[(size_t)k] == strtoull(w.c_str(), nullptr, 10) : g.i[(size_t)k] == atoll(w.c_str()));
            }
            if (!ok) { std::string w; for (auto &x : v.start) w += " " + x; t.fail(v.name + " is " + valText(g) + ", declared start value" + w); return; }
        }
        // what may be set
        Op so = setOp(d, v, 1); if (n == 0) continue;
        if (v.causality == "structuralParameter") { if (!t.inst()) return; if (!t.must(op(K_ENTER_CONFIG), "a structural parameter is declared") || !t.must(so, v.name + " is a structural parameter")) return; Out g = t.run(getOp(d, v)); if (g.st == OK && g.i != so.i) { t.fail(v.name + " is " + valText(g) + " after it was set"); return; } if (!t.must(op(K_EXIT_CONFIG), "end of configuration")) return; continue; }
        bool settable = v.variability != "constant" && (v.causality == "input" || v.causality == "parameter" || ((v.causality == "output" || v.causality == "local") && v.initial == "exact"));
        if (settable) {
            if (!t.to(M_INIT)) return; if (!t.must(so, v.name + " has a start value that may be changed")) return;
            Out g = t.run(getOp(d, v)); if (g.st != OK || g.d != so.d || g.i != so.i || g.s != so.s) { t.fail(v.name + " is " + valText(g) + " after it was set to " + so.text()); return; }
        } else if (v.initial != "approx") {
            if (!t.to(M_INIT)) return; Out g = t.run(so); if (g.st == OK) { t.fail(v.name + " was set, although it is declared " + v.causality + ", " + v.variability + ", " + v.initial); return; }
        }
        if (v.causality == "input" && run != M_CLOCK) { if (!t.to(run)) return; if (v.variability != "continuous" && c.ver == 3 && run == M_STEP) continue; if (!t.must(so, v.name + " is an input")) return; }
        if (v.causality == "parameter" && v.variability == "tunable" && run == M_EVENT) { if (!t.to(run)) return; if (!t.must(so, v.name + " is tunable")) return; }
    }
    // dimensions follow the structural parameters
    for (auto &p : d.vars) {
        if (p.causality != "structuralParameter" || p.ty != U64) continue;
        for (int64_t n = 0; n <= 5; n++) {
            Desc q = d; for (auto &x : q.vars) if (x.vr == p.vr) x.start = {strf("%lld", (long long)n)};
            if (!t.inst()) return; for (auto &o : {op(K_ENTER_CONFIG), opSetI(U64, {p.vr}, {n}), op(K_EXIT_CONFIG)}) if (!t.must(o, "dimension within the declared range")) return;
            for (auto &o : toMode(c, M_INIT)) if (!t.must(o, "initialization")) return;
            for (auto &v : q.vars) if (!v.dims.empty()) { if (!t.must(getOp(q, v), v.name + " with the dimensions that follow")) return; }
        }
    }
    // continuous states and event indicators
    if (c.iface == ME) {
        if (!t.to(M_CTM)) return;
        if (c.ver == 3) { Out g = t.run(op(K_N_CS)); if (g.st != OK || g.i[0] != (int64_t)nx) { t.fail(strf("%zu continuous states are declared, reported: ", nx) + g.text()); return; } g = t.run(op(K_N_EI)); if (g.st != OK || g.i[0] != (int64_t)d.nz) { t.fail(strf("%zu event indicators are declared, reported: ", d.nz) + g.text()); return; } }
        for (K k : {K_GET_STATES, K_GET_DERS, K_GET_NOMINALS, K_GET_EI}) for (long dn = -1; dn <= 1; dn++) { long n = (long)(k == K_GET_EI ? d.nz : nx) + dn; if (n < 0) continue; if (!t.to(M_CTM)) return; Out g = t.run(opN(k, n)); if ((g.st == OK) != (dn == 0)) { t.fail(opN(k, n).text() + " returns " + g.text() + strf(", declared are %ld", n - dn)); return; } }
        if (nx) {
            for (int variant = 0; variant < 3; variant++) {
                std::vector<double> x; for (size_t k = 0; k < nx; k++) x.push_back(variant == 0 ? 0.5 + (double)k : variant == 1 ? -0.25 * (double)(k + 1) : 3 - 2 * (double)k);
                if (!t.to(M_CTM) || !t.must(opStates(x), "the declared number of states")) return;
                Out gx = t.run(opN(K_GET_STATES, (long)nx)), gd = t.run(opN(K_GET_DERS, (long)nx)), gn = t.run(opN(K_GET_NOMINALS, (long)nx)); size_t at = 0;
                for (size_t k = 0; k < ders.size(); k++) {
                    const Var &sv = *d.byVr(states[k]), &dv = *d.byVr(ders[k]); Out a = t.run(getOp(d, sv)), b = t.run(getOp(d, dv));
                    for (size_t z = 0; z < a.d.size(); z++, at++) {
                        if (a.st != OK || a.d[z] != x[at] || gx.d[at] != x[at]) { t.fail(strf("state %zu is declared to be %s, but setting it to %s makes that %s", at, sv.name.c_str(), fmtd(x[at]).c_str(), a.text().c_str())); return; }
                        if (b.st != OK || b.d[z] != gd.d[at]) { t.fail(strf("derivative %zu is declared to be %s, which is %s instead of %s", at, dv.name.c_str(), b.text().c_str(), fmtd(gd.d[at]).c_str())); return; }
                        if (gn.d[at] != sv.nominal) { t.fail(strf("the nominal value of %s is %s, declared is %s", sv.name.c_str(), fmtd(gn.d[at]).c_str(), fmtd(sv.nominal).c_str())); return; }
                    }
                }
                if (d.nz && c.ver == 3) { Out z = t.run(opN(K_GET_EI, (long)d.nz)); size_t k = 0; for (auto &u : d.unknowns) if (u.what == "EventIndicator") { Out a = t.run(getOp(d, *d.byVr(u.vr))); if (a.st != OK || z.st != OK || a.d[0] != z.d[k]) { t.fail(strf("event indicator %zu is declared to be %s, which is %s instead of %s", k, d.byVr(u.vr)->name.c_str(), a.text().c_str(), z.text().c_str())); return; } k++; } }
            }
        }
    }
    // completeness of the model structure
    for (auto &v : d.vars) {
        bool state = std::find(states.begin(), states.end(), v.vr) != states.end(), der = v.derivative != (uint32_t)-1, want = (v.causality == "output" || v.causality == "calculatedParameter" || state || der) && v.initial != "exact" && v.ty != CLK && v.clocks.empty(), have = false;
        for (auto &u : d.unknowns) if (u.what == "InitialUnknown" && u.vr == v.vr) have = true;
        if (want != have) { t.fail(v.name + (want ? " is missing among the initial unknowns" : " is declared as an initial unknown, although it is " + v.causality + ", " + v.initial)); return; }
    }
    // an interval can be asked for where the description says that it changes while the simulation runs
    if (c.iface == SE) for (auto &v : d.vars) {
        if (v.ty != CLK) continue; bool can = v.causality == "input" && (v.interval == "countdown" || v.interval == "changing");
        for (Mode m : {M_CLOCK}) { if (!t.to(m)) return; Op o = op(K_GET_INTERVAL); o.vr = {v.vr}; Out g = t.run(o); if ((g.st == OK) != can) { t.fail(o.text() + " of " + v.name + " returns " + g.text() + ", its interval is declared as " + v.interval); return; } }
    }
    for (auto &v : d.vars) { if (v.causality == "output") { bool f = false; for (auto &u : d.unknowns) if (u.what == "Output" && u.vr == v.vr) f = true; if (!f) { t.fail("the output " + v.name + " is missing in the model structure"); return; } } if (v.derivative != (uint32_t)-1) { bool f = false; for (uint32_t x : ders) if (x == v.vr) f = true; if (!f) { t.fail("the derivative " + v.name + " is missing in the model structure"); return; } } }
}

// an unknown does not change with a known it is not declared to depend on
static void dependencies(const Config &c, const Desc &d) {
    Tester t(c, d);
    std::vector<uint32_t> states; for (auto &u : d.unknowns) if (u.what == "ContinuousStateDerivative") states.push_back(d.byVr(u.vr)->derivative);
    struct Known { uint32_t vr; int how; const Var *v; };       // 0: by its set function, 1: continuous state, 2: time
    for (auto &u : d.unknowns) {
        const Var *uv = d.byVr(u.vr); if (!uv) { t.fail(strf("the model structure names the unknown variable %u", u.vr)); return; }
        for (uint32_t x : u.deps) if (!d.byVr(x)) { t.fail(strf("%s depends on the unknown variable %u", uv->name.c_str(), x)); return; }
        if (!u.hasDeps || uv->ty == CLK || !uv->dims.empty()) continue;
        if (!u.kinds.empty() && u.kinds.size() != u.deps.size()) { t.fail("numbers of dependencies and kinds of " + uv->name + " differ"); return; }
        bool init = u.what == "InitialUnknown";
        std::vector<Mode> modes = init ? std::vector<Mode>{M_INIT} : c.iface == ME ? std::vector<Mode>{M_CTM, M_EVENT} : std::vector<Mode>{};
        for (Mode m : modes) {
            std::vector<Known> ks;
            for (auto &v : d.vars) {
                if (!v.dims.empty() || v.vr == u.vr || v.ty == CLK) continue;
                if (v.causality == "independent") { if (m == M_CTM) ks.push_back({v.vr, 2, &v}); continue; }
                if (init) { if (v.initial == "exact" && v.variability != "constant" && v.causality != "structuralParameter") ks.push_back({v.vr, 0, &v}); continue; }
                if (m == M_CTM && std::find(states.begin(), states.end(), v.vr) != states.end()) ks.push_back({v.vr, 1, &v});
                if (v.causality == "input" && (m == M_EVENT || v.variability == "continuous")) ks.push_back({v.vr, 0, &v});
            }
            auto value = [&](const Known &k, int variant) -> bool {      // sets the known
                if (k.how == 2) return t.must(opTime(offsetOf(variant)), "time");
                if (k.how == 0) return t.must(setOp(d, *k.v, variant), "known variable");
                Out g = t.run(opN(K_GET_STATES, (long)states.size())); if (g.st != OK) { t.fail("states cannot be read"); return false; }
                for (size_t z = 0; z < states.size(); z++) if (states[z] == k.vr) g.d[z] = (k.v->hasStart ? atof(k.v->start[0].c_str()) : 0) + offsetOf(variant);
                return t.must(opStates(g.d), "states");
            };
            for (size_t a = 0; a < ks.size(); a++) {
                auto it = std::find(u.deps.begin(), u.deps.end(), ks[a].vr); bool listed = it != u.deps.end();
                std::string kind = listed && !u.kinds.empty() ? u.kinds[(size_t)(it - u.deps.begin())] : "";
                // every assignment of the other knowns from a few values each (if there are few), or one at a time
                size_t others = ks.size() - 1, base = others <= 3 ? 5 : 2, combos = others + 1; double slope = NAN; bool effect = false;
                if (others <= 6) { combos = 1; for (size_t k = 0; k < others; k++) combos *= base; }
                static const int five[] = {0, 2, 3, 4, 5};
                for (size_t cb = 0; cb < combos; cb++) {
                    if (!t.to(m)) return; size_t z = 0, rest = cb;
                    for (size_t b = 0; b < ks.size(); b++) { if (b == a) continue; int variant = others <= 3 ? five[rest % 5] : others <= 6 ? (int)(rest % 2) * 2 : cb == z + 1 ? 2 : 0; rest /= base; if (ks[b].how == 2 || !value(ks[b], variant)) { if (t.bad) return; } z++; }
                    std::vector<Out> got; for (int variant = 0; variant < NVARIANTS; variant++) { if (!value(ks[a], variant)) return; got.push_back(t.run(getOp(d, *uv))); if (got.back().st != OK) { t.fail(uv->name + " cannot be read"); return; } }
                    R.traces++;
                    if (!listed) { for (size_t k = 1; k < NVARIANTS; k++) if (got[k].text() != got[0].text()) { t.fail(uv->name + " changes from " + got[0].text() + " to " + got[k].text() + " with " + ks[a].v->name + ", on which it is not declared to depend (" + u.what + ")"); return; } continue; }
                    for (size_t k = 1; k < NVARIANTS; k++) if (got[k].text() != got[0].text()) effect = true;
                    if ((kind == "constant" || kind == "fixed") && uv->ty == F64 && ks[a].v->ty == F64) {
                        for (size_t k = 1; k < NVARIANTS; k++) {
                            double s = (got[k].d[0] - got[0].d[0]) / offsetOf((int)k);
                            if (!std::isnan(slope) && fabs(s - slope) > 1e-9 * std::max(1.0, fabs(slope))) { t.fail(uv->name + " does not depend on " + ks[a].v->name + " with a " + kind + " factor"); return; }
                            slope = s;
                        }
                        if (kind == "fixed") slope = NAN;
                    }
                }
                if (listed && !effect) { t.fail(uv->name + " does not change with " + ks[a].v->name + ", on which it is declared to depend (" + u.what + ")"); return; }
            }
        }
    }
    // clocked variables change only with the clocks they are declared to depend on
    if (c.iface == SE) {
        std::vector<uint32_t> clk; for (auto &v : d.vars) if (v.ty == CLK && v.causality == "input") clk.push_back(v.vr);
        std::vector<const Var *> in; for (auto &v : d.vars) if (v.causality == "input" && v.ty != CLK) in.push_back(&v);
        size_t acts = clk.size() + 2 * in.size(); const int depth = 5; size_t total = 1; for (int k = 0; k < depth; k++) total *= acts;
        std::vector<std::pair<const Unknown *, const Var *>> outs; for (auto &u : d.unknowns) if (u.what == "Output" && u.hasDeps && d.byVr(u.vr)->ty != CLK) outs.push_back({&u, d.byVr(u.vr)});
        for (size_t n = 0; n < total && !t.bad; n++) {
            if (!t.to(M_CLOCK)) return; size_t q = n;
            for (int k = 0; k < depth && !t.bad; k++, q /= acts) {
                size_t a = q % acts; uint32_t who; Op o;
                if (a < clk.size()) { who = clk[a]; o = op(K_ACTIVATE); o.vr = {who}; o.t = k; } else { const Var *v = in[(a - clk.size()) / 2]; who = v->vr; o = setOp(d, *v, (int)((a - clk.size()) % 2) * 3); }
                std::vector<Out> before; if (k == depth - 1) for (auto &x : outs) before.push_back(t.s.exec(getOp(d, *x.second)));
                if (!t.must(o, "declared clock or input")) return;
                if (k < depth - 1) continue;
                for (size_t z = 0; z < outs.size(); z++) { Out g = t.s.exec(getOp(d, *outs[z].second)); auto &dp = outs[z].first->deps; if (g.text() != before[z].text() && std::find(dp.begin(), dp.end(), who) == dp.end()) { t.fail(outs[z].second->name + " changes with " + d.byVr(who)->name + ", on which it is not declared to depend"); return; } }
                R.traces++;
            }
        }
    }
}
void checkC24() {
    std::vector<Job> jobs;
    for (int m = 0; m < 9; m++) for (int ver : versionsOf((ModelId)m)) for (Iface i : {ME, CS, SE}) {
        if (ver == 2 && i == SE) continue;
        Config c; c.model = modelNames[m]; c.ver = ver; c.iface = i; if (m == RES) c.resource = ver == 3 ? resourceDir() + "/" : "file://" + resourceDir();
        for (int part = 0; part < 3; part++) jobs.push_back({cfgName(c) + strf(" part %d", part), [c, i, ver, part] {
            Desc d = readDesc(c.model, ver); bool declared = d.root.child(i == ME ? "ModelExchange" : i == CS ? "CoSimulation" : "ScheduledExecution") != nullptr;
            if (part == 0) { capabilities(c, d); R.extra["attributes_variables_unknowns"] += d.root.at.size() + d.vars.size() + d.unknowns.size(); }
            if (!declared) return;
            if (part == 1) variables(c, d);
            if (part == 2) dependencies(c, d);
            if (part == 1 && d.vars.size() > 1) R.samples.push_back(cfgName(c) + ": types, dimensions, start value and setting of " + d.vars[1].name + strf(" and %zu other variables", d.vars.size() - 1));
        }});
    }
    runJobs(jobs, 8, 600);
}

// ---------------------------------------------------------------- C29
static std::vector<std::string> splitCsv(const std::string &line) { std::vector<std::string> v; std::string w; bool q = false; for (char ch : line) { if (ch == '"') q = !q; else if (ch == ',' && !q) { v.push_back(w); w.clear(); } else if (ch != '\r') w += ch; } v.push_back(w); return v; }
// the last of 16 printed digits is subject to the order of floating point operations
static bool printedEqual(double got, const std::string &printed) { double want = atof(printed.c_str()); return fabs(got - want) <= 1e-9 * fabs(want) + 1e-12; }
struct RefResult { std::vector<std::string> cols; std::vector<std::vector<std::string>> rows; };
static void againstResult(const Config &c, const Desc &d, const RefResult &rr, bool defStop) {
    Tester t(c, d); std::vector<const Var *> vars;
    for (size_t k = 1; k < rr.cols.size(); k++) { const Var *v = nullptr; for (auto &x : d.vars) if (x.name == rr.cols[k]) v = &x; if (!v && c.ver == 2) { vars.push_back(nullptr); continue; } if (!v) { t.fail("the published result lists " + rr.cols[k] + ", which is not a variable of the model"); return; } vars.push_back(v); }
    const El *de = d.root.child("DefaultExperiment"); double stop = de ? atof(de->get("stopTime", "1").c_str()) : NAN;
    std::vector<double> times; for (auto &r : rr.rows) times.push_back(atof(r[0].c_str()));
    if (!t.to(M_STEP, times[0], defStop ? stop : NAN)) return;
    auto compare = [&](size_t row) -> bool {
        for (size_t k = 0; k < vars.size(); k++) {
            if (!vars[k]) continue;
            const Var &v = *vars[k]; const std::string &w = rr.rows[row][k + 1]; Op o = getOp(d, v); Out g = t.s.exec(o); R.evaluations++; bool ok = g.st == OK; auto ws = v.ty == STR ? std::vector<std::string>{w} : words(w);
            if (ok && v.ty != BIN && v.ty != STR && ws.size() != (size_t)countOf(d, v)) ok = false;
            for (size_t z = 0; ok && z < ws.size(); z++) {
                if (v.ty == F64 || v.ty == F32) ok = printedEqual(g.d[z], ws[z]); else if (v.ty == STR) ok = g.s[z] == w; else if (v.ty == BIN) ok = hex(g.s[z]) == ws[z]; else if (v.ty == BOOL) ok = g.i[z] == (ws[z] == "true" || ws[z] == "1"); else ok = g.i[z] == atoll(ws[z].c_str());
            }
            if (!ok) { t.hist.push_back(o); t.fail(strf("at time %s %s is ", rr.rows[row][0].c_str(), v.name.c_str()) + g.text() + ", published is " + w); return false; }
        }
        return true;
    };
    if (!compare(0)) return;
    // every path through the rows: from each the next, the one after, the tenth and the last one may be the next communication point
    struct N { Image im; size_t row; double now; std::vector<Op> hist; };
    std::vector<N> q(1); t.s.snap(q[0].im); q[0].row = 0; q[0].now = times[0]; q[0].hist = t.hist; std::unordered_set<H128, H128h> seen; std::map<size_t, int> perRow;
    for (size_t at = 0; at < q.size(); at++) {
        size_t row = q[at].row; std::set<size_t> next; for (size_t k : {row + 1, row + 2, row + 10, times.size() - 1}) if (k < times.size() && k > row) next.insert(k);
        for (size_t to : next) {
            t.s.restore(q[at].im); t.hist = q[at].hist; double now = q[at].now; bool ended = false;
            while (now < times[to] - 1e-9 && !ended) {
                Op o = opStep(now, times[to] - now); Out g = t.run(o); bool last = to == times.size() - 1;
                if (c.ver == 2 && last && g.st == DISCARD) { ended = true; now = times[to]; break; }     // terminated by the model
                if (g.st != OK) { t.fail(o.text() + " returns " + g.text()); return; }
                if (c.ver == 3 && g.d[0] <= now && !g.i[0]) { t.fail(o.text() + " makes no progress"); return; }
                now = c.ver == 2 ? times[to] : g.d[0];
                if (g.i.size() > 1 && g.i[1]) { ended = true; break; }
                if (g.i.size() && g.i[0] && c.eventMode) {
                    if (!t.must(op(K_ENTER_EVENT), "event")) return;
                    for (int k = 0; k < 10; k++) { Op u = op(K_UPDATE); Out x = t.run(u); if (x.st != OK) { t.fail(u.text() + " returns " + x.text()); return; } if (x.i[1]) ended = true; if (!x.i[0]) break; }
                    if (ended) break;
                    if (!t.must(op(K_ENTER_STEP), "end of the event")) return;
                }
            }
            if (ended && now < times[to] - 1e-6) { t.fail(strf("the simulation ends at %s, but the published result continues", fmtd(now).c_str())); return; }
            if (!compare(to)) return;
            R.traces++; if (ended) continue;
            N n; t.s.snap(n.im); n.row = to; n.now = now; H128 h = hashStr(n.im.bytes, to); if (!seen.insert(h).second) continue;
            if (++perRow[to] > 24) { R.exhaustive = false; continue; }
            R.states++; n.hist = t.hist; q.push_back(std::move(n));
        }
        q[at].im.bytes.clear(); q[at].im.bytes.shrink_to_fit();
    }
}
void checkC29() {
    std::vector<Job> jobs; bool knownRoberts = knownFinding("property=C29 Roberts/Roberts_out.csv");
    for (int m = 0; m < 9; m++) {
        std::string file = libDir + strf("/src/%s/%s_out.csv", modelNames[m], modelNames[m]); std::ifstream f(file); if (!f) continue;
        RefResult rr; std::string line; while (std::getline(f, line)) { if (line.empty() || line == "\r") continue; auto v = splitCsv(line); if (rr.cols.empty()) rr.cols = v; else { if (v.size() != rr.cols.size()) die("%s: malformed", file.c_str()); rr.rows.push_back(v); } }
        if (rr.cols.empty() || rr.rows.empty()) die("%s: empty", file.c_str());
        if (m == ROB && knownRoberts && rr.cols == std::vector<std::string>{"time", "h", "v"}) { printf("KNOWN-FINDING: property=C29 Roberts/Roberts_out.csv holds the result of BouncingBall (columns time,h,v), not of Roberts\n"); continue; }
        for (int ver : versionsOf((ModelId)m)) for (int ev = 0; ev < (ver == 3 ? 2 : 1); ev++) for (int er = 0; er < (ver == 3 ? 2 : 1); er++) {
            Config c; c.model = modelNames[m]; c.ver = ver; c.iface = CS; c.eventMode = ev; c.early = er; if (m == RES) c.resource = ver == 3 ? libDir + "/fmi3/temp/Resource/resources/" : "file://" + libDir + "/fmi2/temp/Resource/resources";
            for (int ds = 0; ds < 2; ds++) jobs.push_back({cfgName(c) + (ds ? " with stop time" : ""), [c, rr, ds, ver, ev] {
                Desc d = readDesc(c.model, ver); const El *e = d.root.child("CoSimulation"); if (!e || (ev && e->get("hasEventMode") != "true")) return;
                againstResult(c, d, rr, ds); R.extra["max_rows"] = std::max<uint64_t>(R.extra["max_rows"], rr.rows.size());
                R.samples.push_back(cfgName(c) + strf(": %zu rows of %zu columns", rr.rows.size(), rr.cols.size()));
            }});
        }
    }
    if (jobs.empty()) die("no published results");
    runJobs(jobs, 8, 600);
}

// ---------------------------------------------------------------- C40
#include <dirent.h>
struct Manifest { std::string folder, dir; El root; };
static std::vector<Manifest> manifestsOf(const std::string &model, int ver) {
    std::vector<Manifest> v; std::string base = libDir + strf("/fmi%d/temp/%s/extra", ver, model.c_str()); DIR *d = opendir(base.c_str()); if (!d) return v;
    std::vector<std::string> names; while (dirent *e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d); std::sort(names.begin(), names.end());
    for (auto &n : names) { std::string f = base + "/" + n + "/fmi-ls-manifest.xml"; if (std::ifstream(f)) v.push_back({n, base + "/" + n, parseXml(f)}); }
    return v;
}
// the folder, the named files and their columns
static void manifestFiles(const Config &c, const Desc &d, const Manifest &m) {
    auto fail = [&](const std::string &w) { R.violation(cfgName(c) + ": extra/" + m.folder + "/fmi-ls-manifest.xml: " + w, ""); };
    R.states++; std::string name = m.root.get("fmi-ls:fmi-ls-name");
    if (name != m.folder) fail("the layered standard is named " + name);
    for (auto &e : m.root.ch) if (e.has("source")) {
        R.transitions++; R.traces++; std::string src = e.get("source"); std::ifstream f(m.dir + "/" + src); std::string line;
        if (src.find("://") != std::string::npos) continue;
        if (!f || !std::getline(f, line)) { fail("the file " + src + " is not in the FMU"); continue; }
        if (e.get("type") != "text/csv" || e.get("role") != "result") continue;
        auto cols = splitCsv(line); bool first = true; if (c.model == "Roberts" && cols == std::vector<std::string>{"time", "h", "v"} && knownFinding("property=C40 Roberts/Roberts_out.csv")) { printf("KNOWN-FINDING: property=C40 Roberts/Roberts_out.csv holds the result of BouncingBall (columns time,h,v), not of Roberts\n"); continue; }
        Desc other = c.ver == 2 ? readDesc(c.model, 3) : d;     // one file serves the FMUs of both versions
        for (auto &x : cols) { R.transitions++; bool is = false; for (const Desc *w : {&d, (const Desc *)&other}) for (auto &v : w->vars) if (v.name == x && (v.causality == "independent") == first) is = true; if (!is) { fail("the column " + x + " of " + src + (first ? " is not the independent variable" : " is not a variable of the model")); break; } first = false; }
    }
}
struct Dae {
    Tester t; const Desc &d; uint32_t enable = 0; std::vector<uint32_t> states, ders, alg, res, ind; std::vector<Unknown> unknowns;
    Dae(const Config &c, const Desc &d_) : t(c, d_), d(d_) {}
    static uint32_t num(const El &e, const char *a) { return e.has(a) ? (uint32_t)strtoul(e.get(a).c_str(), nullptr, 10) : (uint32_t)-1; }
    bool real(uint32_t vr, const std::string &what) { const Var *v = d.byVr(vr); if (!v || v->ty != F64) { t.fail(what + strf(" names %u, which is not a Float64 variable", vr)); return false; } return true; }
    bool read(const El &m) {
        const El *en = m.child("EnableDAE"), *av = m.child("AlgebraicVariables"), *ms = m.child("ModelStructure"); if (!en || !av || !ms) { t.fail("the manifest is incomplete"); return false; }
        enable = num(*en, "valueReference"); const Var *v = d.byVr(enable);
        if (!v || v->ty != BOOL || v->causality != "structuralParameter") { t.fail(strf("EnableDAE names %u, which is not a Boolean structural parameter", enable)); return false; }
        if (!v->hasStart || (v->start[0] != "false" && v->start[0] != "0")) { t.fail("the DAE formulation is enabled by default"); return false; }
        for (auto &e : av->ch) {
            uint32_t a = num(e, "valueReference"); if (!real(a, "AlgebraicVariable")) return false; alg.push_back(a);
            if (!e.has("nominal")) continue;
            uint32_t n = num(e, "nominal"); if (!real(n, "nominal of " + d.byVr(a)->name)) return false;
            if (!t.to(M_INIT)) return false; Out g = t.run(getOp(d, *d.byVr(n)));
            if (g.st != OK || g.d[0] != d.byVr(a)->nominal) { t.fail("the nominal value of " + d.byVr(a)->name + " is " + g.text() + strf(", its attribute is %g", d.byVr(a)->nominal)); return false; }
        }
        for (auto &u : d.unknowns) if (u.what == "ContinuousStateDerivative") { ders.push_back(u.vr); states.push_back(d.byVr(u.vr)->derivative); }
        std::vector<uint32_t> mders; std::vector<const El *> all;
        for (auto &e : ms->ch) { if (e.name == "Residual") { if (e.ch.empty()) { t.fail("a residual without formulation"); return false; } for (auto &f : e.ch) all.push_back(&f); res.push_back(num(e.ch[0], "valueReference")); } else all.push_back(&e); }
        for (auto *e : all) {
            Unknown u; u.what = e->name; u.vr = num(*e, "valueReference"); if (!real(u.vr, e->name)) return false;
            u.hasDeps = e->has("dependencies"); for (auto &w : words(e->get("dependencies"))) u.deps.push_back((uint32_t)strtoul(w.c_str(), nullptr, 10)); u.kinds = words(e->get("dependenciesKind"));
            if (!u.kinds.empty() && u.kinds.size() != u.deps.size()) { t.fail("numbers of dependencies and kinds of " + d.byVr(u.vr)->name + " differ"); return false; }
            for (auto x : u.deps) if (!real(x, "a dependency of " + d.byVr(u.vr)->name)) return false;
            if (u.what == "ContinuousStateDerivative") mders.push_back(u.vr);
            if (u.what == "EventIndicator") ind.push_back(u.vr);
            unknowns.push_back(u);
        }
        if (mders != ders) { t.fail("the state derivatives of the manifest are not those of the model description"); return false; }
        if (ind.size() != d.nz) { t.fail(strf("%zu event indicators in the manifest, %zu in the model description", ind.size(), d.nz)); return false; }
        if (res.size() != alg.size()) { t.fail(strf("%zu residuals for %zu algebraic variables", res.size(), alg.size())); return false; }
        return true;
    }
    bool on(bool enabled) { for (auto &o : {op(K_ENTER_CONFIG), opSetI(BOOL, {enable}, {enabled}), op(K_EXIT_CONFIG)}) if (!t.must(o, "the DAE formulation is switched by a structural parameter")) return false; return true; }
    bool to(Mode m, bool enabled) { if (!t.inst() || !on(enabled)) return false; for (auto &o : toMode(t.c, m)) if (!t.must(o, "needed to reach " + std::string(modeName[m]))) return false; return true; }
    bool put(Mode m, const std::vector<double> &x, bool withAlg) {      // states and algebraic variables
        if (m == M_CTM) { if (!t.must(opStates(std::vector<double>(x.begin(), x.begin() + (long)states.size())), "states")) return false; }
        else for (size_t k = 0; k < states.size(); k++) if (!t.must(opSetD(F64, {states[k]}, {x[k]}), "states")) return false;
        if (withAlg) for (size_t k = 0; k < alg.size(); k++) if (!t.must(opSetD(F64, {alg[k]}, {x[states.size() + k]}), "algebraic variable of the DAE formulation")) return false;
        return true;
    }
    double get(uint32_t vr) { Out g = t.run(getOp(d, *d.byVr(vr))); if (g.st != OK) { t.fail(d.byVr(vr)->name + " cannot be read"); return NAN; } return g.d[0]; }
};
static bool nearly(double a, double b, double mag) { return fabs(a - b) <= 1e-9 * std::max({1e-6, fabs(a), fabs(b), mag}); }
static void daeFormulation(const Config &c, const Desc &d, const El &man, Mode m) {
    Dae q(c, d); Tester &t = q.t; if (!q.read(man)) return;
    std::vector<uint32_t> known = q.states; known.insert(known.end(), q.alg.begin(), q.alg.end()); size_t nk = known.size();
    static const double grid[] = {0, 1, -0.5, 0.0001, 2.5, -40, 0.01}; const size_t ng = 7; size_t total = 1; for (size_t k = 0; k < nk; k++) total *= ng;
    auto point = [&](size_t n) { std::vector<double> x; for (size_t k = 0; k < nk; k++, n /= ng) x.push_back(grid[n % ng]); return x; };
    auto name = [&](uint32_t vr) { return d.byVr(vr)->name; };
    struct Seen { bool effect = false; double first = NAN, mag = 0; };
    std::vector<std::vector<Seen>> seen(q.unknowns.size(), std::vector<Seen>(nk));
    for (size_t n = 0; n < total; n++) {
        if (!q.to(m, true)) return; auto x = point(n); if (!q.put(m, x, true)) return;
        for (size_t k = 0; k < nk; k++) if (q.get(known[k]) != x[k]) { t.fail(name(known[k]) + " is not what it was set to in the DAE formulation: " + fmtd(x[k])); return; }
        std::vector<double> base; for (auto &u : q.unknowns) base.push_back(q.get(u.vr));
        if (t.bad) return;
        size_t h0 = t.hist.size(); Image im; t.s.snap(im);
        // influence of every known on every unknown
        for (size_t k = 0; k < nk; k++) for (double off : {0.125, -3.0}) {
            t.s.restore(im); t.hist.resize(h0); auto y = x; y[k] += off; if (!q.put(m, y, true)) return; R.traces++;
            for (size_t z = 0; z < q.unknowns.size(); z++) {
                auto &u = q.unknowns[z]; if ((u.what == "InitialUnknown") != (m == M_INIT)) continue;
                double g = q.get(u.vr); if (t.bad) return;
                auto it = std::find(u.deps.begin(), u.deps.end(), known[k]); bool listed = !u.hasDeps || it != u.deps.end(); auto &s = seen[z][k];
                if (g != base[z]) { s.effect = true; if (!listed) { t.fail(name(u.vr) + " changes with " + name(known[k]) + ", on which it is not declared to depend (" + u.what + ")"); return; } }
                std::string kind = u.hasDeps && listed && !u.kinds.empty() ? u.kinds[(size_t)(it - u.deps.begin())] : "";
                if (kind == "constant") {
                    double slope = (g - base[z]) / off, err = 1e-12 * (fabs(g) + fabs(base[z])) / fabs(off);
                    if (std::isnan(s.first)) { s.first = slope; s.mag = err; }
                    else if (fabs(slope - s.first) > 1e-9 * fabs(s.first) + err + s.mag) { t.fail(name(u.vr) + " does not depend on " + name(known[k]) + " with a constant factor, which is declared (" + u.what + "): " + fmtd(s.first) + " and " + fmtd(slope)); return; }
                }
            }
        }
        t.s.restore(im); t.hist.resize(h0);
        // the solution of the residuals is the ODE formulation
        std::vector<double> sol = x;
        for (int pass = 0; pass < 40; pass++) {
            double worst = 0;
            for (size_t a = 0; a < q.alg.size(); a++) {
                double r0 = q.get(q.res[a]), old = sol[q.states.size() + a]; if (t.bad) return;
                worst = std::max(worst, fabs(r0)); if (r0 == 0) continue;
                if (!t.must(opSetD(F64, {q.alg[a]}, {old + 1}), "algebraic variable")) return; double r1 = q.get(q.res[a]); if (t.bad) return;
                if (r1 == r0) { t.fail("the residual " + name(q.res[a]) + " does not depend on " + name(q.alg[a])); return; }
                sol[q.states.size() + a] = old - r0 / (r1 - r0); if (!t.must(opSetD(F64, {q.alg[a]}, {sol[q.states.size() + a]}), "algebraic variable")) return;
            }
            if (worst < 1e-13 * 50) break;
        }
        std::vector<uint32_t> cmp = q.alg; cmp.insert(cmp.end(), q.ders.begin(), q.ders.end()); cmp.insert(cmp.end(), q.ind.begin(), q.ind.end());
        std::vector<double> dae; for (auto v : cmp) dae.push_back(q.get(v));
        Out de, ie; if (m == M_CTM) { de = t.run(opN(K_GET_DERS, (long)q.ders.size())); ie = t.run(opN(K_GET_EI, (long)q.ind.size())); for (size_t k = 0; k < q.ders.size(); k++) if (de.st != OK || de.d[k] != q.get(q.ders[k])) { t.fail("the derivatives of the states are not those named by the manifest"); return; } for (size_t k = 0; k < q.ind.size(); k++) if (ie.st != OK || ie.d[k] != q.get(q.ind[k])) { t.fail("the event indicators are not those named by the manifest"); return; } }
        auto dh = t.hist; if (t.bad) return;
        if (!q.to(m, false) || !q.put(m, x, false)) return; R.traces++;
        for (size_t k = 0; k < cmp.size(); k++) { double g = q.get(cmp[k]); if (t.bad) return; if (!nearly(g, dae[k], k < q.alg.size() ? 50 : 3e7 * 2500 * 1e-3)) { t.hist = dh; t.fail(name(cmp[k]) + " is " + fmtd(dae[k]) + " where the residuals are solved, in the ODE formulation it is " + fmtd(g)); return; } }
        for (auto r : q.res) { double g = q.get(r); if (t.bad) return; if (fabs(g) > 1e-12 * 50) { t.fail("the residual " + name(r) + " of the ODE formulation is " + fmtd(g)); return; } }
        if (n == 17) R.samples.push_back(cfgName(c) + strf(": %s mode, %zu unknowns by %zu knowns at point %zu", modeName[m], q.unknowns.size(), nk, n));
    }
    for (size_t z = 0; z < q.unknowns.size(); z++) for (size_t k = 0; k < nk; k++) { auto &u = q.unknowns[z]; if ((u.what == "InitialUnknown") != (m == M_INIT) || !u.hasDeps) continue; if (!seen[z][k].effect && std::find(u.deps.begin(), u.deps.end(), known[k]) != u.deps.end()) { t.fail(name(u.vr) + " does not change with " + name(known[k]) + ", on which it is declared to depend (" + u.what + ")"); return; } }
    for (auto &u : q.unknowns) for (auto x : u.deps) if (std::find(known.begin(), known.end(), x) == known.end()) { t.fail(name(u.vr) + " is declared to depend on " + name(x) + ", which is neither a state nor an algebraic variable"); return; }
}
// every order of switching the formulation and setting values: the ODE formulation never keeps anything of the DAE one
static void daeSwitching(const Config &c, const Desc &d, const El &man) {
    Dae q(c, d); Tester &t = q.t; if (!q.read(man)) return; size_t nx = q.states.size(), na = q.alg.size();
    const int depth = thorough ? 7 : 6, acts = 6; size_t total = 1; for (int k = 0; k < depth; k++) total *= (size_t)acts;
    std::vector<uint32_t> cmp = q.alg; cmp.insert(cmp.end(), q.ders.begin(), q.ders.end()); cmp.insert(cmp.end(), q.ind.begin(), q.ind.end()); cmp.insert(cmp.end(), q.res.begin(), q.res.end());
    for (size_t n = 0; n < total; n++) {
        if (!q.to(M_EVENT, false)) return; bool dae = false; std::vector<double> x; for (auto s : q.states) x.push_back(q.get(s)); std::vector<double> y(na);
        size_t w = n; bool legal = true;
        for (int k = 0; k < depth && legal; k++, w /= (size_t)acts) switch (w % (size_t)acts) {
            case 0: case 1: {
                bool to = w % (size_t)acts == 0; if (to == dae) { legal = false; break; }
                for (size_t a = 0; a < na; a++) y[a] = q.get(q.alg[a]);
                for (auto &o : {op(K_ENTER_CONFIG), opSetI(BOOL, {q.enable}, {to}), op(K_EXIT_CONFIG)}) if (!t.must(o, "the DAE formulation is switched by a tunable structural parameter")) return;
                dae = to; break;
            }
            case 2: case 3: { double v = w % (size_t)acts == 2 ? 0.25 : -1.5; if (!t.must(op(K_ENTER_CTM), "continuous time")) return; for (size_t z = 0; z < nx; z++) x[z] = v * (double)(z + 1); if (!t.must(opStates(x), "states") || !t.must(op(K_ENTER_EVENT), "event mode")) return; break; }
            case 4: if (!dae) { legal = false; break; } for (size_t a = 0; a < na; a++) { y[a] = 0.75 + (double)a; if (!t.must(opSetD(F64, {q.alg[a]}, {y[a]}), "algebraic variable")) return; } break;
            case 5: for (auto v : cmp) q.get(v); break;
        }
        if (!legal) continue;
        std::vector<double> got; for (auto v : cmp) got.push_back(q.get(v)); for (size_t z = 0; z < nx; z++) if (q.get(q.states[z]) != x[z]) { t.fail("a state is not what was set"); return; }
        if (t.bad) return; auto h = t.hist; R.traces++;
        if (dae) for (size_t a = 0; a < na; a++) if (got[a] != y[a]) { t.fail(d.byVr(q.alg[a])->name + " is " + fmtd(got[a]) + " in the DAE formulation, last set or calculated: " + fmtd(y[a])); return; }
        std::vector<double> all = x; all.insert(all.end(), y.begin(), y.end());
        if (!q.to(M_EVENT, dae)) return;
        if (!t.must(op(K_ENTER_CTM), "continuous time") || !q.put(M_CTM, all, dae)) return;
        for (size_t z = 0; z < cmp.size(); z++) { double g = q.get(cmp[z]); if (t.bad) return; if (!sameDouble(g, got[z], 0)) { t.hist = h; t.fail(d.byVr(cmp[z])->name + " is " + fmtd(got[z]) + ", a new instance with the same formulation, states and algebraic variables gives " + fmtd(g)); return; } }
    }
}
void checkC40() {
    std::vector<Job> jobs; size_t n = 0;
    for (int m = 0; m < 9; m++) for (int ver : versionsOf((ModelId)m)) for (auto &man : manifestsOf(modelNames[m], ver)) {
        n++; Config c; c.model = modelNames[m]; c.ver = ver; c.iface = m == CLOCKS ? SE : ME; bool hasDae = man.root.child("EnableDAE");
        jobs.push_back({cfgName(c) + " " + man.folder, [c, ver, man] { Desc d = readDesc(c.model, ver); manifestFiles(c, d, man); R.extra["manifests"]++; }});
        if (!hasDae) continue;
        for (Mode md : {M_INIT, M_CTM}) jobs.push_back({cfgName(c) + " DAE formulation, " + modeName[md], [c, ver, man, md] { Desc d = readDesc(c.model, ver); daeFormulation(c, d, man.root, md); }});
        jobs.push_back({cfgName(c) + " switching the formulation", [c, ver, man] { Desc d = readDesc(c.model, ver); daeSwitching(c, d, man.root); }});
    }
    if (!n) die("no manifests");
    runJobs(jobs, 8, 600);
}

/* ------------------------------------------------------------ C41: direct calls, a loaded and a linked FMU give the same results */
static std::string drive(const std::string &prog, const char *mode, const std::string &rest) { return "timeout -k 5 700 '" + prog + "' " + mode + " " + rest + " 2>/dev/null"; }
static std::string outputOf(const std::string &cmd) { FILE *f = popen(cmd.c_str(), "r"); std::string s; char b[65536]; size_t n; if (!f) die("popen"); while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); int rc = pclose(f); if (rc) s += strf("ended with status %d\n", WIFEXITED(rc) ? WEXITSTATUS(rc) : 1000 + WTERMSIG(rc)); return s; }
void checkC41() {
    std::vector<Job> jobs; const std::string dir = libDir + "/../linked"; std::ifstream f(dir + "/index.txt"); if (!f) die("cannot read the index in %s", dir.c_str());
    std::string line, load[4]; std::vector<std::array<std::string, 3>> links;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string kind, v, model, prog; is >> kind >> v; if (kind.empty()) continue;
        if (kind == "bad") { is >> model; std::string text; std::getline(is, text); R.violation(strf("%s FMI %s.0:", model.c_str(), v.c_str()) + text, "build " + line + "\n"); continue; }
        if (kind == "load") { is >> load[atoi(v.c_str())]; continue; }
        is >> model >> prog; links.push_back({v, model, prog});
    }
    R.extra["linked_programs"] = links.size(); if (R.violations) return;
    for (auto &l : links) {
        int ver = atoi(l[0].c_str()); std::string model = l[1], linked = l[2], loaded = load[ver]; Desc d = readDesc(model, ver);
        const char *names[] = {"ModelExchange", "CoSimulation", "CoSimulation", "ScheduledExecution"};
        for (int iface = 0; iface < 4; iface++) {
            const El *e = d.root.child(names[iface]); if (!e || (iface == 2 && (ver == 2 || e->get("hasEventMode") != "true"))) continue;
            for (int logging = 0; logging < 2; logging++) jobs.push_back({model + strf(" FMI %d.0 %s%s logging=%d", ver, names[iface], iface == 2 ? " with event mode" : "", logging), [=] {
                std::string base = dir + strf("/%s%d-%d-%d.txt", model.c_str(), ver, iface, logging); std::ofstream o(base); std::vector<uint32_t> out, in, part; size_t nx = 0;
                const El *cs = d.root.child("CoSimulation"), *de = d.root.child("DefaultExperiment"); std::string step = cs ? cs->get("fixedInternalStepSize") : ""; if (step.empty() && de) step = de->get("stepSize"); if (step.empty()) step = "0.1";
                for (auto &v : d.vars) {
                    size_t n = 1; for (size_t k = 0; k < v.dims.size(); k++) { long s = v.dimN[k]; if (s < 0) if (auto x = d.byVr(v.dims[k])) s = x->hasStart ? atol(x->start[0].c_str()) : 1; n *= (size_t)s; }
                    int set = v.causality == "structuralParameter" ? 2 : v.causality == "input" || v.causality == "parameter" ? 1 : 0; if (n > 256) continue;
                    o << "var " << (int)v.ty << " " << v.vr << " " << n << " " << set << "\n";
                    if (v.derivative != (uint32_t)-1) { nx += n; out.push_back(v.vr); in.push_back(v.derivative); } else if (v.ty == F64 && v.causality == "output") out.push_back(v.vr); else if (v.ty == F64 && v.causality == "input") in.push_back(v.vr);
                    if (v.ty == CLK && v.causality == "input") part.push_back(v.vr);
                }
                out.resize(2, out.empty() ? 0 : out[0]); in.resize(1, 0); o << "size " << nx << " " << d.nz << " " << step << " 0\nder " << out[0] << " " << out[1] << " " << in[0] << " 0\n"; for (auto p : part) o << "part " << p << " 0 0 0\n"; o.close();
                std::string lib = libDir + strf("/fmi%d/temp/%s/binaries/%s/%s.so", ver, model.c_str(), ver == 2 ? "linux64" : "x86_64-linux", model.c_str()), res = ver == 3 ? libDir + "/fmi3/temp/" + model + "/resources/" : "file://" + libDir + "/fmi2/temp/" + model + "/resources";
                std::string rest = "'" + lib + "' '" + d.token + "' '" + res + "' '" + base + "' " + strf("%d %d %d", iface, logging, thorough && logging ? 4 : 3);
                const char *how[] = {"called directly", "loaded by the importer", "linked with the importer"}; std::string cmd[] = {drive(loaded, "d", rest), drive(loaded, "l", rest), drive(linked, "s", rest)}, all[3];
                for (int k = 0; k < 3; k++) all[k] = outputOf(cmd[k]);
                std::istringstream s[3] = {std::istringstream(all[0]), std::istringstream(all[1]), std::istringstream(all[2])}; std::set<std::string> seen;
                for (long n = 0;; n++) {
                    std::string x[3], num[3], h[3], c[3], m[3]; bool any = false; for (int k = 0; k < 3; k++) { if (std::getline(s[k], x[k])) any = true; std::istringstream is(x[k]); is >> num[k] >> h[k] >> c[k] >> m[k]; }
                    if (!any) break; if (num[0] == "end" && x[0] == x[1] && x[0] == x[2]) { R.transitions += (uint64_t)(3 * atol(h[0].c_str())); break; }
                    bool direct = h[0] != h[1] || num[0] != num[1] || m[0] != m[1], link = x[1] != x[2];
                    if (!direct && !link && num[0] == "ended") { R.violation(model + strf(" FMI %d.0: the program ", ver) + x[0], cmd[0] + "\n"); return; }
                    if (direct || link) {
                        int a = direct ? 0 : 1, b = direct ? 1 : 2; std::string t[2]; std::ostringstream art; art << model << " FMI " << ver << ".0 " << names[iface] << ", history " << n << "\n";
                        for (int k = 0; k < 2; k++) { std::string full = outputOf(cmd[k ? b : a].substr(0, cmd[k ? b : a].size() - strlen(" 2>/dev/null")) + strf(" -v %ld 2>/dev/null", n)); if (direct) { std::istringstream fs(full); std::string w; full.clear(); while (std::getline(fs, w)) if (w.rfind("  call ", 0) != 0) full += w + "\n"; } t[k] = full; art << "---- " << how[k ? b : a] << "\n" << cmd[k ? b : a] << " -v " << n << "\n" << full; }
                        std::istringstream p(t[0]), q(t[1]); std::string u, v, act; while (true) { bool g1 = (bool)std::getline(p, u), g2 = (bool)std::getline(q, v); if (!g1) u = "(nothing)"; if (!g2) v = "(nothing)"; if (u != v || (!g1 && !g2)) break; if (u.rfind("action", 0) == 0) act += " " + u.substr(7); }
                        R.violation(model + strf(" FMI %d.0 %s, actions%s: %s: %s; %s: %s", ver, names[iface], act.c_str(), how[a], u.c_str(), how[b], v.c_str()), art.str()); return;
                    }
                    R.traces++; seen.insert(h[1] + c[1]);
                }
                R.states += seen.size(); if (logging && R.traces) R.samples.push_back(model + strf(" FMI %d.0 %s: %llu histories, each directly, loaded and linked", ver, names[iface], (unsigned long long)R.traces));
            }});
        }
    }
    runJobs(jobs, 8, 800);
}
