// C31..C36: clocks, output derivatives, refused calls, start times, informative arguments, event iteration.
#include <fstream>
#include <sstream>
#include "state.h"

static std::string pathText(const std::vector<Op> &p) { std::string s; for (auto &o : p) s += (s.empty() ? "" : " ; ") + o.text(); return s; }

// ------------------------------------------------------------------ C31
// a tick of the output clock and a new interval of the countdown clock are reported by exactly one reading
void checkC31() {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) for (int logging = 0; logging < 2; logging++) {
        if (modelId(c0.model) != CLOCKS) continue;
        Config c = c0; c.logging = logging;
        for (int part = 0; part < 4; part++) jobs.push_back({cfgName(c) + strf(" logging %d part %d", logging, part), [c, part] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef; e.maxStates = thorough ? 2000000 : 250000;
            e.prefix = toMode(c, M_CLOCK, part == 1 ? 2.5 : 0);
            const int bound = part == 3 ? 31 : thorough ? 22 : 16;
            e.alphabet = [part, bound](const Ref &r, std::vector<Op> &a) {
                if (r.mode == M_INST) { a.push_back(opInit(0)); return; }
                if (r.mode == M_INIT) { a.push_back(op(K_EXIT_INIT)); return; }
                Op g = op(K_GETCLOCK); g.vr = {1005}; a.push_back(g); g.vr = {1005, 1005}; a.push_back(g); g.vr = {}; a.push_back(g);
                Op iv = op(K_GET_INTERVAL); iv.vr = {1003}; a.push_back(iv); iv.vr = {1003, 1003}; a.push_back(iv); iv.vr = {}; a.push_back(iv);
                if (r.mode != M_CLOCK) return;
                if (part == 2) {        // what neither ticks nor reads must not lose a tick or an interval
                    for (uint32_t v : {1001u, 1002u, 1003u}) { g.vr = {v}; a.push_back(g); }
                    for (uint32_t v : {1001u, 1002u, 1005u, 7u}) { iv.vr = {v}; a.push_back(iv); }
                    Op p = op(K_ACTIVATE); p.vr = {1005}; a.push_back(p); p.vr = {1004}; a.push_back(p);
                    a.push_back(op(K_ENTER_CONFIG)); a.push_back(op(K_RESET)); a.push_back(op(K_TERMINATE));
                }
                if (r.total < bound) for (uint32_t k = 1001; k <= 1003; k++) {
                    Op p = op(K_ACTIVATE); p.vr = {k};
                    std::vector<double> ts = k != 1001 ? std::vector<double>{4} : part == 3 ? std::vector<double>{(double)r.ticks[0]} : part == 1 ? std::vector<double>{3.9, 4, 4.5, 5} : std::vector<double>{3, 4};
                    for (double t : ts) { p.t = t; a.push_back(p); }
                }
                if (part < 2 && r.input2 == 0 && r.total < 6) a.push_back(opSetI(I32, {2006}, {part ? 40000 : -3}));
                for (auto &o : std::vector<Op>{opGet(I32, {2001, 2002, 2003, 2004, 2005, 2006, 2007}), opGet(F64, {0})}) a.push_back(o);
                if (r.mode == M_CLOCK && part == 2) a.push_back(opGet(F64, {99}));
            };
            e.monitor = [](Sys &s, const Ref &r, const Op &o, const Out &g) -> std::string {
                if (o.k != K_ACTIVATE) return s.clockUpdates ? strf("%d notifications, expected none", s.clockUpdates) : "";
                if (g.st != OK) return s.clockUpdates ? "the importer is notified by a refused activation" : "";
                bool must = r.total % 5 == 0 || (o.vr[0] == 1001 && (int)o.t == 4);
                if (must && s.clockUpdates != 1) return strf("the importer is notified %d times, expected once", s.clockUpdates);
                if (!must && s.clockUpdates && !(o.vr[0] == 1001 && r.q3 == 2 && s.clockUpdates == 1)) return strf("the importer is notified %d times although nothing ticked", s.clockUpdates);
                return "";
            };
            // saving and restoring keeps what is not yet reported
            e.probe = [part](Sys &s, const Ref &r, std::vector<Op> &) -> std::string {
                if (part != 2 || r.mode != M_CLOCK) return "";
                Op get = op(K_FS_GET), set = op(K_FS_SET), fre = op(K_FS_FREE); if (s.exec(get).st != OK) return "GetFMUState fails";
                Op g = op(K_GETCLOCK); g.vr = {1005}; Op iv = op(K_GET_INTERVAL); iv.vr = {1003};
                for (int round = 0; round < 2; round++) {
                    Ref q = r; std::string why;
                    for (auto &o : {g, iv, g, iv}) { Out x = q.apply(o), y = s.exec(o); if (!sameOut(y, x, 0, why)) return o.text() + (round ? " after restoring: " : ": ") + why; }
                    if (s.exec(set).st != OK) return "SetFMUState fails";
                }
                if (s.exec(fre).st != OK) return "FreeFMUState fails";
                return "";
            };
            e.run();
        }});
    }
    runJobs(jobs, 8, 700);
}

// ------------------------------------------------------------------ C32
void checkC32() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs()) {
        ModelId m = modelId(c.model); const double H = solverStep(m);
        if (c.iface != CS) continue;
        if (m != BB) {
            jobs.push_back({cfgName(c), [c, m, H] {
                Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = [](Ref &r, const Op &o) { Out x = r.apply(o); if (o.k == K_GET_OUTDER && !x.skip) x.leaf = true; return x; };
                e.prefix = toMode(c, M_STEP);
                e.alphabet = [m, H](const Ref &r, std::vector<Op> &a) {
                    if (r.mode == M_STEP && r.n < 3) a.push_back(opStep(r.nextCP, H));
                    if (r.mode == M_STEP) a.push_back(op(K_TERMINATE));
                    std::vector<uint32_t> vs; for (auto &v : varsOf(modelNames[m], r.ver)) vs.push_back(v.vr); vs.push_back(99);
                    for (auto v : vs) for (int ord = 0; ord <= 2; ord++) { Op o = op(K_GET_OUTDER); o.vr = {v}; o.i = {ord}; a.push_back(o); o.vr = {v, vs[0]}; o.i = {ord, 1}; a.push_back(o); }
                };
                e.run();
            }});
            continue;
        }
        const double hs[] = {1, 0.0005, 0.0021, 0.35}, vs[] = {0, -1, 1.5, -0.12};
        for (double h : hs) for (double v : vs) for (double g : {-9.81, -5.0}) jobs.push_back({cfgName(c) + strf(" h=%g v=%g g=%g", h, v, g), [c, h, v, g, H] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef; e.maxStates = 100000;
            e.prefix = toMode(c, M_INIT); e.prefix.push_back(opSetD(F64, {1, 3, 5, 6}, {h, v, g, 0.6})); e.prefix.push_back(op(K_EXIT_INIT));
            const int bound = thorough ? 80 : 40;
            e.alphabet = [H, bound](const Ref &r, std::vector<Op> &a) {
                if (r.mode == M_EVENT) { a.push_back(op(K_UPDATE)); a.push_back(op(K_ENTER_STEP)); return; }
                if (r.mode == M_STEP && r.n < bound) { a.push_back(opStep(r.nextCP, H)); a.push_back(opStep(r.nextCP, 3 * H)); a.push_back(opStep(r.nextCP, 0.5 * H)); if (r.n == 8) a.push_back(opStep(r.nextCP, 400 * H)); }
                if (r.mode == M_STEP && r.ver == 3 && r.eventMode) a.push_back(op(K_ENTER_EVENT));
                if (r.mode == M_STEP && r.n % 4 == 0) { a.push_back(op(K_TERMINATE)); a.push_back(opSetD(F64, {6}, {r.p[3] == 0.6 ? 0.9 : 0.6})); }
                if (r.mode != M_STEP && r.mode != M_TERM) return;
                auto der = [&](std::vector<uint32_t> l, std::vector<int64_t> ord) { Op o = op(K_GET_OUTDER); o.vr = l; o.i = ord; a.push_back(o); };
                der({}, {}); der({1}, {1}); der({3}, {1});
                if (r.n % 4 && r.mode == M_STEP) { der({3, 1}, {1, 1}); return; }
                const uint32_t two[2] = {1, 3};
                for (int len = 2; len <= 4; len++) for (int k = 0; k < 1 << len; k++) { std::vector<uint32_t> l; for (int b = 0; b < len; b++) l.push_back(two[k >> b & 1]); der(l, std::vector<int64_t>((size_t)len, 1)); }
                // not offered: other variables, other orders, wrong number of values, missing arrays
                if (r.mode != M_STEP) return;
                for (uint32_t v2 : {0u, 2u, 4u, 5u, 6u, 7u, 8u, 99u}) { der({v2}, {1}); der({1, v2}, {1, 1}); }
                for (int64_t ord : {0, 2, 3, -1, 257, 65537, 16777217, 2147483647, -2147483647, -255}) { der({1}, {ord}); der({3}, {ord}); der({1, 3}, {1, ord}); der({3, 1}, {ord, 1}); }
                Op o = op(K_GET_OUTDER); o.vr = {1, 3};
                for (int nu : {1, 2, 4}) { o.null = nu; a.push_back(o); } o.null = 0;
                if (r.ver == 3) for (long n : {0L, 1L, 3L}) { o.n = n; a.push_back(o); }
            };
            e.probe = [](Sys &s, const Ref &r, std::vector<Op> &ex) { return compareReads(s, r, ex); };
            e.run();
        }});
    }
    runJobs(jobs, 8, 700);
}

// ------------------------------------------------------------------ C33
// all values an importer can read once a call was refused
static std::vector<Op> readsAfterError(const Ref &r) { Ref q = r; q.err(); return readAll(q); }
// every variable by itself
static std::vector<Op> single(const Ref &r) { std::vector<Op> a; for (auto &v : varsOf(modelNames[r.model], r.ver)) { Op o = opGet(v.ty, {v.vr}); if (r.ver == 3) o.n = r.size(v.ty, v.vr); a.push_back(o); } return a; }
static Op fs(K k, int a = 0, int b = 0) { Op o = op(k); o.a = a; o.b = b; return o; }
struct Refuse {
    Sys &s; Config c; uint64_t refused = 0; bool bad = false;
    // the same calls with a saved and a serialized state at hand
    void withState(const Image &im, const Ref &r, const std::vector<Op> &hist) {
        s.restore(im); auto h = hist; for (auto &o : {fs(K_FS_GET, 0), fs(K_FS_SER, 0, 0)}) { if (s.exec(o).st != OK) return; h.push_back(o); }
        Image im2; s.snap(im2); std::vector<Op> a; Op q;
        for (long dl : {-1000L, -100L, -8L, -1L, 1L, 8L, 100L}) for (int slot : {0, 1}) { q = fs(K_FS_SER, slot, 1); q.n = 1000 + dl; a.push_back(q); q = fs(K_FS_DES, 0, slot); q.n = 1000 + dl; a.push_back(q); }
        a.push_back(fs(K_FS_SET, -1)); a.push_back(fs(K_FS_SET, 1)); a.push_back(fs(K_FS_SER, -1)); a.push_back(fs(K_FS_SER, 1)); a.push_back(fs(K_FS_DES, 2, 2));
        at(im2, r, h, a);
    }
    void at(const Image &im, const Ref &r, const std::vector<Op> &hist, const std::vector<Op> &calls) {
        // what was there before: the values read after an attempt to read a variable that does not exist
        std::vector<Op> reads = readsAfterError(r), singles = single(r); std::vector<Out> was, wasSingle;
        s.restore(im); if (s.exec(opGet(F64, {99})).st != ERROR) return;
        Image base; s.snap(base); for (auto &o : reads) was.push_back(s.exec(o));
        s.restore(base); for (auto &o : singles) wasSingle.push_back(s.exec(o));
        if (r.permitGet(F64) == ACCEPT) { s.restore(im); for (size_t k = 0; k < singles.size(); k++) { std::string why; Out g = s.exec(singles[k]); if (!sameOut(wasSingle[k], g, 0, why)) { fail(hist, opGet(F64, {99}), singles[k], why); return; } } }
        for (auto &o : calls) {
            if (o.k == K_FREE || o.k == K_INSTANTIATE || (o.k == K_UPDATE && r.ended)) continue;     // after requested termination anything may happen
            s.restore(im); Out g = s.exec(o); R.transitions++;
            if (g.st != ERROR) continue;
            refused++; std::string why;
            s.exec(opGet(F64, {99}));       // NULL instance: the mode is still the same
            const bool list = o.k == K_SET && o.who >= 0 && (o.vr.size() > 1 || o.d.size() > 1 || o.n >= 0);
            if (!list) { for (size_t k = 0; k < reads.size(); k++) { Out h = s.exec(reads[k]); R.transitions++; if (!sameOut(h, was[k], 0, why)) { fail(hist, o, reads[k], why); return; } } }
            else for (size_t k = 0; k < singles.size(); k++) {       // variables of the list may have been set before the refusal
                const VarDef v = varsOf(c.model, c.ver)[k]; if (v.ty == o.ty && std::count(o.vr.begin(), o.vr.end(), v.vr)) continue;
                if (dependent(r, o, v)) continue;
                Out h = s.exec(singles[k]); R.transitions++; if (!sameOut(h, wasSingle[k], 0, why)) { fail(hist, o, singles[k], why); return; }
            }
        }
    }
    // calculated from one of the variables in the list
    bool dependent(const Ref &r, const Op &o, const VarDef &v) {
        for (auto x : o.vr) { Ref q = r; if (q.size(o.ty, x) < 0) continue;
            if (r.model == SS && o.ty == U64 && v.ty == F64 && v.vr) return true;     // other dimensions
            if (r.model == ROB && v.vr == 6) return true;                             // follows from the others unless it is a state
            if (r.model == FT) { if (v.vr == x + 1) return true; continue; }
            return r.permitSetVar(v.ty, v.vr) == REJECT && v.vr != 0;      // other models: any calculated variable
        }
        return false;
    }
    void fail(const std::vector<Op> &hist, const Op &o, const Op &rd, const std::string &why) {
        bad = true; auto h = hist; h.push_back(o); h.push_back(rd);
        R.violation(cfgName(c) + ": the refused call " + o.text() + " changes something: " + rd.text() + ": " + why + "; after " + pathText(hist), traceText("history", {c, h}));
    }
};
static std::vector<Op> refusable(const Config &c, const Ref &r) {
    std::vector<Op> a; int has[2] = {0, 0}; memAlphabet(c, r, has, false, a, true);
    for (auto &v : varsOf(c.model, c.ver)) {            // every variable with every kind of value
        if (v.ty == STR || v.ty == BIN) { for (size_t l : {1u, 200u}) a.push_back(opSetS(v.ty, {v.vr}, {std::string(l, 'q')})); }
        else if (v.ty <= F64) { long n = std::max(0L, r.size(v.ty, v.vr)); a.push_back(opSetD(v.ty, {v.vr}, std::vector<double>((size_t)n, 0.375))); a.push_back(opSetD(v.ty, {v.vr}, std::vector<double>((size_t)n + 1, 0.375))); }
        else for (int64_t x : {0, 1, 2, 3, 10, 100}) { if (v.ty == BOOL && x > 1) continue; a.push_back(opSetI(v.ty, {v.vr}, {x})); }
    }
    const double H = solverStep((ModelId)r.model);
    for (double h : {-H, 0.0, (double)NAN, (double)INFINITY, H, 5 * H}) for (double t : {r.nextCP, r.nextCP + 0.5 * H, r.nextCP - H, r.nextCP + 1, (double)NAN}) if (!(h > 0 && std::isfinite(h) && t == r.nextCP && r.mode == M_STEP && (r.stop < 1e30 || r.n < 20)) || h != h) { if (std::isinf(h) && !(r.stop < 1e30)) { if (r.mode == M_STEP && t == r.nextCP) { a.push_back(opStep(t, h)); continue; } } a.push_back(opStep(t, h)); }
    if (r.stop < 1e30) a.push_back(opStep(r.nextCP, r.stop - r.nextCP + H));
    for (double t : {-1.0, 2.0}) { a.push_back(opTime(t)); if (c.ver == 3) a.push_back(opInit(t, t + 1)); else { Op s = op(K_SETUP); s.t = t; a.push_back(s); } }
    for (auto &st : {std::vector<double>{0.5}, std::vector<double>{0.5, 0.25}, std::vector<double>{0.5, 0.25, 0.125}}) a.push_back(opStates(st));
    for (uint32_t k : {1001u, 1002u, 1003u, 1005u}) if (c.ver == 3) { Op p = op(K_ACTIVATE); p.vr = {k}; p.t = 4; a.push_back(p); }
    return a;
}
void checkC33() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs()) {
        jobs.push_back({cfgName(c), [c] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); ModelId m = modelId(c.model);
            Reach rc; rc.s = &s; rc.cfg = c; rc.maxStates = thorough ? 6000 : m == FT ? 600 : 2500; rc.nv = 1; rc.run();
            Refuse f{s, c};
            for (size_t k = 0; k < rc.v.size() && !f.bad; k++) { f.at(rc.v[k].im, rc.v[k].r, rc.path(k), refusable(c, rc.v[k].r)); if (!f.bad) f.withState(rc.v[k].im, rc.v[k].r, rc.path(k)); }
            R.states += rc.v.size(); R.transitions += rc.trans; R.traces += f.refused; R.extra["refused_calls"] += f.refused; if (rc.capped) R.exhaustive = false;
            if (rc.v.size() > 5) R.samples.push_back(cfgName(c) + ": every refused call after " + pathText(rc.path(rc.v.size() - 1)));
        }});
        for (int variant = 0; variant < nScripts; variant++) jobs.push_back({cfgName(c) + strf(" experiment %d", variant), [c, variant] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate");
            Script sc = longScript(c, variant); Refuse f{s, c}; size_t at = 0;
            for (size_t k : sc.points(thorough ? 400 : modelId(c.model) == FT ? 40 : 120)) {
                for (; at < k; at++) s.exec(sc.ops[at]);
                Image im; s.snap(im); f.at(im, sc.refs[k], sc.first(k), refusable(c, sc.refs[k])); R.states++; if (!f.bad) f.withState(im, sc.refs[k], sc.first(k));
                if (f.bad) return;
                s.restore(im);
            }
            R.traces += f.refused; R.extra["refused_calls"] += f.refused;
        }});
    }
    runJobs(jobs, 8, 800);
}

// ------------------------------------------------------------------ C34, C35: two histories that must not be distinguishable
struct Pairs {
    Sys &s; Config c;
    Sys *other = nullptr;                           // of the second history, if it is of another library
    Pairs(Sys &s_, const Config &c_) : s(s_), c(c_) {}
    Out first(const Image &im, const Op &o, Image *after = nullptr) { curSys = &s; s.restore(im); Out x = s.exec(o); if (after) s.snap(*after); return x; }
    Out second(const Image &im, const Op &o, Image *after = nullptr) { Sys &t = other ? *other : s; curSys = &t; t.restore(im); Out x = t.exec(map(o)); if (after) t.snap(*after); return x; }
    std::function<Op(const Op &)> map;              // the call of the second history
    std::function<std::string(const Op &, Out, Out, bool)> differ;    // "" if the results correspond
    std::function<void(const Ref &, std::vector<Op> &)> alphabet;
    size_t maxStates = 20000; int maxDepth = 1000; std::string label; bool bad = false;
    struct N { Image a, b; Ref r; uint32_t parent; Op o; int depth; bool started = false; };
    static bool starts(const Ref &r, const Op &o, bool before) { return o.k == K_RESET ? false : before || o.k == K_SETUP || (o.k == K_ENTER_INIT && r.ver == 3 && r.mode == M_INIT); }   // the start time is known
    std::vector<N> v;
    std::vector<Op> path(size_t k) { std::vector<Op> p; while (k) { p.push_back(v[k].o); k = v[k].parent; } std::reverse(p.begin(), p.end()); return p; }
    void fail(std::vector<Op> h, const Op &o, const std::string &why) {
        bad = true; h.push_back(o); std::vector<Op> h2; for (auto &x : h) h2.push_back(map(x));
        R.violation(cfgName(c) + ": " + label + ": " + why + "; after " + pathText(h), traceText("history", {c, h}) + traceText("other history", {c, h2}));
    }
    bool reads(const Image &a, const Image &b, const Ref &r, const std::vector<Op> &h, bool started) {
        for (auto &o : readAll(r)) {
            Out x = first(a, o), y = second(b, o); R.transitions += 2;
            std::string w = differ(o, x, y, started); if (!w.empty()) { fail(h, o, o.text() + ": " + w); return false; }
        }
        return true;
    }
    void search(const Image &a, const Image &b, const Ref &r) {
        std::unordered_set<H128, H128h> seen; N n; n.a = a; n.b = b; n.r = r; n.parent = 0; n.depth = 0; v.push_back(n);
        if (!reads(a, b, r, {}, false)) return;
        for (size_t k = 0; k < v.size(); k++) {
            if (v[k].depth >= maxDepth) continue;
            std::vector<Op> al; alphabet(v[k].r, al);
            for (auto &o : al) {
                Ref q = v[k].r; Out e = q.apply(o); if (e.skip) continue;
                N c2; Out x = first(v[k].a, o, &c2.a), y = second(v[k].b, o, &c2.b); R.transitions += 2;
                std::string w = differ(o, x, y, v[k].started); if (!w.empty()) { fail(path(k), o, o.text() + ": " + w); return; }
                if (e.leaf || x.st != e.st) continue;
                H128 h = hashStr(c2.a.bytes), h2 = hashStr(c2.b.bytes, 9), h3 = hashRef(q);
                if (!seen.insert({h.a ^ h2.a * 3 ^ h3.a * 5, h.b + h2.b * 7 + h3.b * 11}).second) continue;
                c2.started = starts(q, o, v[k].started); auto p = path(k); p.push_back(o); if (!reads(c2.a, c2.b, q, p, c2.started)) return;
                if (v.size() >= maxStates) { R.exhaustive = false; continue; }
                c2.r = q; c2.parent = (uint32_t)k; c2.o = o; c2.depth = v[k].depth + 1; v.push_back(std::move(c2));
            }
        }
        R.states += v.size(); R.traces++; if (v.size() > 3) R.samples.push_back(cfgName(c) + " " + label + ": " + pathText(path(v.size() - 1)));
    }
    void script(const Script &sc, const Image &a, const Image &b) {
        Image A = a, B = b; bool started = false;
        for (size_t k = 0; k < sc.ops.size(); k++) {
            Out x = first(A, sc.ops[k], &A), y = second(B, sc.ops[k], &B); R.transitions += 2; R.states++;
            std::string w = differ(sc.ops[k], x, y, started); started = starts(sc.refs[k + 1], sc.ops[k], started); if (!w.empty()) { fail(sc.first(k), sc.ops[k], sc.ops[k].text() + ": " + w); return; }
            if (!reads(A, B, sc.refs[k + 1], sc.first(k + 1), started)) return;
        }
        R.traces++;
    }
};
void checkC34() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs()) {
        ModelId m = modelId(c.model); const double H = solverStep(m);
        if (m == STAIR || m == CLOCKS) continue;        // their equations depend on the time
        for (double shift : {H, 0.5, -3.25, 100.0, 1000 * H, -0.7, -2e4, 1e6}) jobs.push_back({cfgName(c) + strf(" start time %+g", shift), [c, m, H, shift] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate");
            Image im; s.snap(im); Ref r; r.init(c);
            auto mk = [&]() { Pairs p(s, c); p.label = strf("start time later by %g", shift);
                p.map = [shift](const Op &o) { Op q = o; if (o.k == K_ENTER_INIT || o.k == K_SETUP) { q.t += shift; if (q.f) q.h += shift; } if (o.k == K_DOSTEP || o.k == K_SET_TIME) q.t += shift; return q; };
                p.differ = [shift_ = shift](const Op &o, Out x, Out y, bool started) -> std::string {
                    const double shift = started ? shift_ : 0; std::string why; const double tol = 1e-9 + 1e-13 * fabs(shift);
                    if (x.st == OK && y.st == OK) {
                        if (o.k == K_GET && o.ty == F64) for (size_t k = 0; k < o.vr.size() && k < y.d.size(); k++) if (o.vr[k] == 0) { if (!(fabs(y.d[k] - x.d[k] - shift) <= tol)) return strf("time %.17g, expected %.17g", y.d[k], x.d[k] + shift); y.d[k] = x.d[k]; }
                        if ((o.k == K_DOSTEP && y.d.size()) || (o.k == K_STATUS && o.a == 1)) { if (x.d.size() != 1 || !(fabs(y.d[0] - x.d[0] - shift) <= tol)) return strf("last successful time %.17g, expected %.17g", y.d[0], x.d[0] + shift); y.d = x.d; }
                        if (o.k == K_UPDATE && x.i.size() > 4 && x.i[4] && y.i.size() > 4 && y.i[4]) { if (!(fabs(y.d[0] - x.d[0] - shift) <= tol)) return "another next event time"; y.d = x.d; }
                    }
                    return sameOut(y, x, 0, why) ? "" : why;
                };
                return p; };
            Pairs p = mk(); p.maxStates = thorough ? 60000 : m == FT || m == SS ? 2500 : 10000;
            p.alphabet = [m, H](const Ref &q, std::vector<Op> &a) {
                if (q.mode == M_INST) { std::vector<Op> i; Config k; k.ver = q.ver; if (q.ver == 2 && q.setup) a.push_back(op(K_ENTER_INIT)); else if (q.ver == 2) { Op z = op(K_SETUP); a.push_back(z); z.f = true; z.h = 6 * H; a.push_back(z); } else { a.push_back(opInit(0)); a.push_back(opInit(0, 6 * H)); } return; }
                if (q.n < 12 && q.mode == M_STEP) { for (double n : {1.0, 2.0, 0.5, 3.25}) a.push_back(opStep(q.nextCP, n * H)); if (q.n > 3) a.push_back(opStep(q.nextCP, 7 * H)); }
                std::vector<Op> rich; richAlphabet(q, rich, 1); for (auto &o : rich) if (o.k != K_DOSTEP && o.k != K_SETUP && !(o.k == K_ENTER_INIT && q.ver == 3)) a.push_back(o);
            };
            p.search(im, im, r);
            for (int variant = 0; variant < nScripts && !p.bad; variant++) { Pairs e = mk(); e.script(longScript(c, variant), im, im); if (e.bad) break; }
        }});
    }
    runJobs(jobs, 8, 800);
}
void checkC35() {
    std::vector<Job> jobs;
    const std::vector<std::string> kinds = {"logging on", "visible", "tolerance", "another name", "stop time far away", "another resource location", "no logger", "states may be restored", "debug logging", "required intermediate variables", "no memory functions", "intermediate update", "tolerance 1e-12", "tolerance 1e-6", "tolerance 0.02", "tolerance 0.5", "tolerance 10", "tolerance 1e6", "a tolerance that is not to be used", "a tolerance that is not a number and not to be used", "a negative tolerance that is not to be used", "a stop time that is not to be used", "a stop time before the start that is not to be used"};
    for (auto &c : allConfigs()) for (size_t kind = 0; kind < kinds.size(); kind++) {
        ModelId m = modelId(c.model); const double H = solverStep(m); (void)H;
        if ((kind == 5 && m == RES) || (kind == 6 && c.ver == 2) || (kind == 7 && c.iface == SE) || (kind == 9 && (c.ver == 2 || c.iface != CS)) || (kind == 10 && c.ver == 3) || (kind == 11 && (c.ver == 2 || c.iface != CS))) continue;
        jobs.push_back({cfgName(c) + " " + kinds[kind], [c, m, kind, kinds] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate");
            Image a; s.snap(a); Ref r; r.init(c);
            Config c2 = c; std::string name = "inst";
            if (kind == 0) c2.logging = true;
            if (kind == 1) s.visible = true;
            if (kind == 3) name = std::string(200, 'n') + "%s %n";
            if (kind == 5) c2.resource = c.ver == 3 ? "/some/other/place/" : "file:///some/other/place";
            if (kind == 6) s.nullLogger = true;
            if (kind == 9) s.required = {1, 3};
            if (kind == 10) s.noMemory2 = true;
            if (kind == 11) c2.inter = true;
            s.fresh(); if (!s.instantiate(0, &c2, name.c_str())) { R.violation(cfgName(c) + ": cannot be instantiated with " + kinds[kind], traceText("history", {c2, {}})); return; }
            if (kind == 8) { Op d = op(K_DEBUG); d.f = true; Out g = s.exec(d); if (g.st != OK) { R.violation(cfgName(c) + ": SetDebugLogging returns " + g.text(), traceText("history", {c, {d}})); return; } }
            Image b; s.snap(b);
            auto mk = [&]() { Pairs p(s, c); p.label = kinds[kind];
                p.map = [kind, step = solverStep(m)](const Op &o) { Op q = o;
                    if (kind == 2 && (o.k == K_SETUP || o.k == K_ENTER_INIT)) q.a = 1;
                    if (kind >= 12 && kind <= 20 && (o.k == K_SETUP || o.k == K_ENTER_INIT)) q.a = kind < 18 ? (int)kind - 10 : (int)kind + 82;
                    if (kind >= 21 && (o.k == K_SETUP || o.k == K_ENTER_INIT) && !o.f) q.h = kind == 21 ? o.t + 1.5 * step : o.t - 1;
                    if (kind == 4 && (o.k == K_SETUP || o.k == K_ENTER_INIT) && !o.f) { q.f = true; q.h = 1e4; }
                    if (kind == 7 && (o.k == K_DOSTEP || o.k == K_COMPLETED)) q.a = 1;
                    return q; };
                p.differ = [](const Op &, Out x, Out y, bool) -> std::string { std::string why; return sameOut(y, x, 0, why) ? "" : why; };
                return p; };
            Pairs p = mk(); p.maxStates = thorough ? 20000 : m == FT || m == SS ? 1000 : 4000;
            p.alphabet = [](const Ref &q, std::vector<Op> &al) {
                std::vector<Op> rich; richAlphabet(q, rich, 1);
                if (q.model == BB && q.mode == M_STEP) rich.push_back(opStep(q.nextCP, 30 * solverStep(BB)));
                for (auto &o : rich) if (o.k != K_DEBUG) al.push_back(o);
                al.push_back(op(K_RESET));
            };
            p.search(a, b, r);
            for (int variant = 0; variant < nScripts && !p.bad; variant++) { Pairs e = mk(); e.script(longScript(c, variant), a, b); if (e.bad) break; }
            if (c.iface == CS && !p.bad && m != ROB) {       // a step far beyond any default stop time
                Script sc; Ref q; q.init(c); auto h = toMode(c, M_STEP, 0); for (double n : {1.0, 3000.0, 1.0}) h.push_back(opStep(NAN, n));
                for (auto &o : h) { if (o.k == K_DOSTEP) { if (q.mode != M_STEP) break; o.t = q.nextCP; } Ref was = q; if (q.apply(o).skip) break; sc.ops.push_back(o); sc.refs.push_back(was); if (q.pending) break; }
                sc.refs.push_back(q); Pairs e = mk(); e.script(sc, a, b);
            }
        }});
    }
    runJobs(jobs, 8, 800);
}

// ------------------------------------------------------------------ C36
// once the event update asks for no further one, a further one changes nothing
struct Iterate {
    Sys &s; Config c; uint64_t n = 0, updates = 0; bool bad = false;
    void at(const Image &im, const Ref &r, const std::vector<Op> &hist) {
        if (r.mode != M_EVENT || bad) return;
        s.restore(im); n++; std::vector<Op> h = hist; Out u; int k = 0;
        do { u = s.exec(op(K_UPDATE)); h.push_back(op(K_UPDATE)); updates++; R.transitions++; if (u.st != OK) return; } while (u.i[0] && ++k < 10);
        if (u.i[0]) { fail(h, "the event iteration does not end within 10 updates"); return; }
        if (u.i[1]) return;                                  // the model is over
        std::vector<Op> reads = readAll(r); Image after; s.snap(after); std::vector<Out> was; for (auto &o : reads) was.push_back(s.exec(o));
        s.restore(after);
        for (int round = 0; round < 3; round++) {
            Out v = s.exec(op(K_UPDATE)); h.push_back(op(K_UPDATE)); updates++; R.transitions++;
            if (v.st != OK) { fail(h, "a further update returns " + v.text()); return; }
            if (v.i[0] || v.i[1] || v.i[2] || v.i[3]) { fail(h, "a further update reports a change: " + v.text()); return; }
            if (v.i[4] != u.i[4] || (u.i[4] && v.d[0] != u.d[0])) { fail(h, "a further update reports another next event: " + v.text() + " instead of " + u.text()); return; }
            Image now; s.snap(now); std::string why;
            for (size_t j = 0; j < reads.size(); j++) { Out g = s.exec(reads[j]); R.transitions++; if (!sameOut(g, was[j], 0, why)) { h.push_back(reads[j]); fail(h, "a further update changes " + reads[j].text() + ": " + why); return; } }
            s.restore(now);
        }
    }
    void fail(const std::vector<Op> &h, const std::string &w) { bad = true; R.violation(cfgName(c) + ": " + w + "; after " + pathText(h), traceText("history", {c, h})); }
};
void checkC36() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs()) {
        ModelId m = modelId(c.model);
        if (c.iface == SE || (c.iface == CS && !(c.ver == 3 && c.eventMode))) continue;
        jobs.push_back({cfgName(c), [c, m] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); Iterate it{s, c};
            Reach rc; rc.s = &s; rc.cfg = c; rc.maxStates = thorough ? 200000 : m == FT || m == SS ? 10000 : 60000; rc.nv = m == FT || m == SS ? 1 : 2; rc.run();
            for (size_t k = 0; k < rc.v.size() && !it.bad; k++) it.at(rc.v[k].im, rc.v[k].r, rc.path(k));
            R.states += rc.v.size(); R.transitions += rc.trans; R.traces += it.n; R.extra["event_iterations"] += it.n; R.extra["updates"] += it.updates; if (rc.capped) R.exhaustive = false;
            for (int variant = 0; variant < nScripts && !it.bad; variant++) {
                s.fresh(); s.instantiate(0, &c); Script sc = longScript(c, variant);
                for (size_t k = 0; k < sc.ops.size() && !it.bad; k++) { s.exec(sc.ops[k]); R.transitions++; R.states++; if (sc.refs[k + 1].mode == M_EVENT) { Image im; s.snap(im); it.at(im, sc.refs[k + 1], sc.first(k + 1)); s.restore(im); } }
                R.traces++;
            }
        }});
        // wide grids of states and parameters at which the event is handled
        if (m == BB || m == STAIR) jobs.push_back({cfgName(c) + " grid", [c, m] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); Iterate it{s, c};
            auto run = [&](const std::vector<Op> &p) { s.fresh(); s.instantiate(0, &c); Ref r; r.init(c); for (auto &o : p) { Out e = r.apply(o); if (e.st != OK || e.skip) return; Out g = s.exec(o); R.transitions++; if (g.st != OK) return; } R.states++; Image im; s.snap(im); it.at(im, r, p); };
            if (m == BB) for (double h : {-1000.0, -1.0, -0.001, -1e-9, -1e-12, -0.0, 0.0, DBL_MIN, 1e-12, 1e-9, 0.5, 20.0}) for (double v : {-1000.0, -5.0, -1.0, -0.2, -0.15, -0.142857, -0.1, -0.05, -1e-9, -0.0, 0.0, 1e-9, 0.05, 0.1, 1.0, 50.0}) for (double e : {0.0, 0.1, 0.5, 0.7, 1.0, 1.5}) for (double g : {-9.81, 0.0, 3.0}) {
                if (it.bad) return;
                auto p = toMode(c, M_INIT); p.push_back(opSetD(F64, {1, 3, 5, 6}, {h, v, g, e})); p.push_back(op(K_EXIT_INIT)); run(p);
                if (c.iface == ME && g == -9.81) { p = toMode(c, M_INIT); p.push_back(opSetD(F64, {6}, {e})); p.push_back(op(K_EXIT_INIT)); p.push_back(op(K_UPDATE)); p.push_back(op(K_ENTER_CTM)); p.push_back(opStates({h, v})); p.push_back(op(K_ENTER_EVENT)); run(p); }
            } else for (int64_t n = -3; n < 10; n++) for (double start : {0.0, 0.5, 0.99, 0.999999, 1.0 - 1e-9, 1.0, 1.0 + 1e-9, 1.5, -2.0}) {
                if (it.bad) return;
                auto p = toMode(c, M_INIT, start); p.push_back(opSetI(I32, {1}, {n})); p.push_back(op(K_EXIT_INIT)); run(p);
                if (c.iface == ME) for (double t : {0.5, 0.99, 1.0 - 1e-9, 1.0, 1.0 + 1e-9, 1.5, 1.8}) { auto q = toMode(c, M_INIT, start); q.push_back(opSetI(I32, {1}, {n})); q.push_back(op(K_EXIT_INIT)); q.push_back(op(K_UPDATE)); q.push_back(op(K_ENTER_CTM)); q.push_back(opTime(t)); q.push_back(op(K_ENTER_EVENT)); run(q); }
            }
            R.traces += it.n; R.extra["event_iterations"] += it.n; R.extra["updates"] += it.updates;
        }});
    }
    runJobs(jobs, 8, 800);
}

// ------------------------------------------------------------------ C37
// what FMI 2.0 tells about the last step
void checkC37() {
    std::vector<Job> jobs;
    for (auto &c : allConfigs()) {
        ModelId m = modelId(c.model); const double H = solverStep(m);
        if (c.ver != 2 || c.iface != CS) continue;
        for (double start : {0.0, 1.25, -4.0}) for (int far = 0; far < 2; far++) jobs.push_back({cfgName(c) + strf(" from %g %d", start, far), [c, m, H, start, far] {
            Explorer<Ref> e; e.cfg = c; e.init.init(c); e.apply = applyRef; e.maxStates = thorough ? 1000000 : 200000;
            e.prefix = toMode(c, M_INIT, start, far ? NAN : start + (m == STAIR ? 20 : 30) * H);
            if (m == BB) e.prefix.push_back(opSetD(F64, {1, 3}, {0.004, -1.0}));
            e.alphabet = [m, H, far, start](const Ref &r, std::vector<Op> &a) {
                if (r.mode == M_INIT) { a.push_back(op(K_EXIT_INIT)); if (m == STAIR) for (int64_t n : {-5, 7, 8, 9}) a.push_back(opSetI(I32, {1}, {n})); }
                if (r.mode == M_STEP && !r.ended && r.n < (m == STAIR ? 60 : 40)) {
                    const long at = lround((r.nextCP - start) / (H / 4));     // quarters of an internal step
                    if (fabs(r.nextCP - (start + (double)at * (H / 4))) < 1e-9) for (int q : {1, 2, 4, 6, 20, 28}) { const double to = start + (double)(at + q) * (H / 4); a.push_back(opStep(r.nextCP, to - r.nextCP)); }
                    a.push_back(opStep(r.nextCP, -H)); a.push_back(opStep(r.nextCP + H, H)); a.push_back(opStep(r.nextCP, 1000 * H));
                    if (far) a.pop_back();
                }
                if (r.mode == M_STEP) { a.push_back(op(K_TERMINATE)); a.push_back(op(K_CANCEL)); a.push_back(opGet(F64, {99})); }
                if (r.mode != M_INST) a.push_back(op(K_RESET));
                if (r.mode == M_INST) { if (!r.setup) { Op s = op(K_SETUP); s.t = start; a.push_back(s); } else a.push_back(op(K_ENTER_INIT)); }
                for (int f = 0; f < 5; f++) for (int k = 0; k < 5; k++) { Op o = op(K_STATUS); o.a = f; o.b = k; a.push_back(o); }
            };
            e.probe = [](Sys &s, const Ref &r, std::vector<Op> &ex) -> std::string {     // twice: asking changes nothing
                std::string w = compareReads(s, r, ex); if (!w.empty()) return w;
                if (r.mode != M_STEP && r.mode != M_TERM) return "";
                Image before; s.snap(before);
                for (int f = 0; f < 5; f++) for (int k = 0; k < 4; k++) { Op o = op(K_STATUS); o.a = f; o.b = k; s.exec(o); }
                Image after; s.snap(after); if (before.bytes == after.bytes) return "";
                w = compareReads(s, r, ex); return w.empty() ? "" : "after the status queries: " + w;
            };
            e.run();
        }});
    }
    runJobs(jobs, 8, 700);
}

// ------------------------------------------------------------------ C38
// all histories that lead to the same condition of the reference: the first one found is the measure of the others
// calls that only look, and that set what is there already
static void lookAlphabet(const Ref &r, std::vector<Op> &a) {
    const int m = r.model;
    for (auto &o : setOps(r, 1)) { Op q = o; Out v; if (o.vr.size() == 1 && r.getVar(o.ty, o.vr[0], v)) { q.d = v.d; q.i = v.i; q.s = v.s; a.push_back(q); } }
    if (r.iface == ME && (r.mode == M_CTM || r.mode == M_EVENT)) { a.push_back(opTime(r.time)); }
    if (r.mode == M_CTM && r.nx()) { std::vector<double> x(r.nx()); r.states(x.data()); a.push_back(opStates(x)); }
    for (auto &o : readAll(r)) a.push_back(o);
    if (r.mode == M_CTM || r.mode == M_EVENT || r.mode == M_STEP) { Op d = op(K_DIRDER); if (m == VDP) { d.vr = {2, 4}; d.vr2 = {1, 3}; d.d = {1, 2}; a.push_back(d); } if (m == ROB) { d.vr = {3, 5}; d.vr2 = {2, 4}; d.d = {1, 2}; a.push_back(d); } }
    if (r.mode == M_INST || r.mode == M_TERM) a.push_back(op(K_RESET));
}
void checkC38() {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) for (int focus = 0; focus < 2; focus++) {
        Config c = c0; ModelId m = modelId(c.model);
        jobs.push_back({cfgName(c) + strf(" %d", focus), [c, m, focus] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c);
            Reach rc; rc.s = &s; rc.cfg = c; rc.maxStates = thorough ? 60000 : m == FT || m == SS ? 4000 : 12000; rc.nv = m == FT || m == SS ? 1 : 2;
            rc.run([focus](const Ref &r, std::vector<Op> &a) {
                if (focus == 0) return;
                lookAlphabet(r, a);      // back to the values there are already, and calls that only look
            });
            std::map<std::pair<uint64_t, uint64_t>, size_t> first; uint64_t groups = 0, compared = 0;
            Twin t; t.s = &s; t.cfg = c; t.alphabet = [](const Ref &r, std::vector<Op> &a) { smallAlphabet(r, a); }; t.maxDepth = thorough ? 6 : 4; t.maxPairs = 1000000;
            for (size_t k = 0; k < rc.v.size(); k++) {
                H128 h = hashRef(rc.v[k].r); auto ins = first.insert({{h.a, h.b}, k}); if (ins.second) { groups++; continue; }
                size_t k0 = ins.first->second; compared++;
                std::string w = t.differ(rc.v[k].im, rc.v[k0].im, rc.v[k].r);
                if (!w.empty()) {
                    auto p = rc.path(k), p0 = rc.path(k0); std::string text = cfgName(c) + ": two histories that lead to the same condition differ afterwards: " + w + "; first: " + pathText(p) + "; second: " + pathText(p0);
                    p.insert(p.end(), t.failOps.begin(), t.failOps.end()); p0.insert(p0.end(), t.failOps.begin(), t.failOps.end());
                    R.violation(text, traceText("history", {c, p}) + traceText("other history", {c, p0})); break;
                }
                if (compared == 50) R.samples.push_back(cfgName(c) + ": " + pathText(rc.path(k)) + " against " + pathText(rc.path(k0)));
            }
            // calls that lead back to the same condition, made many times
            Pump pu{s}; pu.rounds = 300; size_t gi = 0; const size_t every = std::max<size_t>(1, first.size() / (thorough ? 800 : 120));
            std::vector<size_t> reps; for (auto &x : first) reps.push_back(x.second); std::sort(reps.begin(), reps.end());
            for (size_t k : reps) {
                if (R.violations) break;
                if (gi++ >= 60 && gi % every) continue;
                const Ref &r0 = rc.v[k].r; H128 h0 = hashRef(r0); auto same = [&](const Ref &q) { H128 h = hashRef(q); return h.a == h0.a && h.b == h0.b; };
                std::vector<std::vector<Op>> cycles; auto alpha = [&](const Ref &r) { std::vector<Op> a; richAlphabet(r, a, 1); lookAlphabet(r, a); if (focus == 0) smallAlphabet(r, a); return a; };
                auto modal = [](const Op &o) { return o.k == K_ENTER_EVENT || o.k == K_UPDATE || o.k == K_ENTER_STEP || o.k == K_ENTER_CTM || o.k == K_COMPLETED || o.k == K_ENTER_CONFIG || o.k == K_EXIT_CONFIG || o.k == K_SET_TIME; };
                auto ok = [](const Op &o, const Out &e) { return !e.skip && !e.leaf && e.st == OK && o.k != K_DEBUG; };
                for (auto &o1 : alpha(r0)) {
                    Ref r1 = r0; Out e1 = r1.apply(o1); if (!ok(o1, e1)) continue;
                    if (same(r1)) { cycles.push_back({o1}); continue; }
                    for (auto &o2 : alpha(r1)) {
                        Ref r2 = r1; Out e2 = r2.apply(o2); if (!ok(o2, e2)) continue;
                        if (same(r2)) { cycles.push_back({o1, o2}); continue; }
                        if (!modal(o1) || !modal(o2)) continue;
                        for (auto &o3 : alpha(r2)) { Ref r3 = r2; Out e3 = r3.apply(o3); if (ok(o3, e3) && same(r3)) cycles.push_back({o1, o2, o3}); }
                    }
                }
                for (auto &cy : cycles) {
                    bool same2 = pu.run(rc.v[k].im, cy); std::string w = same2 ? t.differ(pu.last, rc.v[k].im, r0) : pu.why; if (w.empty()) continue;
                    auto p = rc.path(k), p0 = p; p.insert(p.end(), pu.failOps.begin(), pu.failOps.end()); std::string text = cfgName(c) + ": calls that lead back to the same condition change something when repeated: " + pathText(cy) + ": " + w + "; after " + pathText(p0);
                    if (same2) { p.insert(p.end(), t.failOps.begin(), t.failOps.end()); p0.insert(p0.end(), t.failOps.begin(), t.failOps.end()); }
                    R.violation(text, traceText("history", {c, p}) + traceText("other history", {c, p0})); break;
                }
            }
            R.extra["repeated_cycles"] += pu.cycles; R.transitions += pu.calls;
            R.states += rc.v.size() + t.pairs; R.transitions += rc.trans + t.trans; R.traces += compared; R.extra["conditions"] += groups; R.extra["histories_compared"] += compared; R.extra["pairs_with_equal_memory"] += t.equal;
            if (rc.capped || t.capped) R.exhaustive = false;
        }});
    }
    runJobs(jobs, 8, 800);
}

// ------------------------------------------------------------------ C39
// the FMUs built from their own sources (tools/sources.py) against the shipped binaries
void checkC39() {
    std::vector<Job> jobs; const std::string index = libDir + "/../sources/index.txt"; std::ifstream f(index); if (!f) die("cannot read %s", index.c_str());
    std::string line; size_t libs = 0;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string kind, model, variant, path, prefix; int ver; is >> kind >> ver >> model; if (kind.empty()) continue;
        if (kind == "bad") { std::string text; std::getline(is, text); R.violation(strf("%s FMI %d.0:", model.c_str(), ver) + text, "FMU " + line + "\n"); continue; }
        is >> variant >> path >> prefix; if (prefix == "-") prefix = ""; libs++;
        if (model == "Clocks" && variant.rfind("gcc-O0", 0) == 0) { std::string why; if (!loadFile(path, model, ver, prefix, why)) R.violation("Clocks FMI 3.0 built from its sources: " + why, why + "\n"); continue; }    // waits in a loop that takes too long there
        for (auto &c : allConfigs()) if (c.model == model && c.ver == ver) jobs.push_back({cfgName(c) + " " + variant, [c, variant, path, prefix] {
            std::string missing; Lib *own = loadFile(path, c.model, c.ver, prefix, missing);
            if (!own) { R.violation(strf("%s FMI %d.0 built from its sources (%s): ", c.model.c_str(), c.ver, variant.c_str()) + missing, "library " + path + ": " + missing + "\n"); return; }
            ModelId m = modelId(c.model); Ref r; r.init(c);
            for (int logging = 0; logging < 2; logging++) {
                Config k = c; k.logging = logging;
                Sys s, t; s.open(loadLib(libDir, c.model, c.ver), k); s.fresh(); if (!s.instantiate(0, &k)) die("cannot instantiate"); Image a, b; s.snap(a);
                t.open(own, k); t.fresh(); bool made = t.instantiate(0, &k); if (made) t.snap(b);
                auto mk = [&]() { Pairs p(s, k); p.other = &t; p.label = "built from its sources (" + variant + ")"; p.map = [](const Op &o) { return o; };
                    p.differ = [&s, &t](const Op &, Out x, Out y, bool) -> std::string { std::string why; if (!sameOut(y, x, 0, why)) return why; return s.logText() == t.logText() ? "" : "messages " + t.logText() + " instead of " + s.logText(); };
                    return p; };
                Pairs p = mk(); if (!made) { p.fail({}, op(K_INSTANTIATE), "cannot be instantiated"); return; }
                p.maxStates = thorough ? 20000 : m == FT || m == SS ? 500 : 2500;
                p.alphabet = [](const Ref &q, std::vector<Op> &al) { richAlphabet(q, al, 1); modeAlphabet(q, al); al.push_back(op(K_RESET)); };
                p.search(a, b, r); if (p.bad) return;
                for (int v = 0; v < nScripts; v++) { Pairs e = mk(); e.script(longScript(c, v), a, b); if (e.bad) return; }
            }
        }});
    }
    R.extra["libraries"] = libs; if (R.violations) return;
    R.assumptions.push_back("built with gcc -O0 (the clocked model: only loaded), gcc -O2, gcc -O3 and clang -O2 for x86_64");
    runJobs(jobs, 8, 800);
}
