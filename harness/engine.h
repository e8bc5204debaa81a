// Breadth-first explicit-state search over (real FMU memory image, reference state).
#pragma once
#include "mc.h"
#include "ref.h"
#include <deque>

std::vector<Config> allConfigs(bool withEarly = true);      // every model, version, interface type and option
std::string resourceDir();                                   // directory with y.txt ("a...") that the checks own
std::string cfgName(const Config &c);

struct Trace { Config cfg; std::vector<Op> ops; };
std::string traceText(const std::string &label, const Trace &t, const std::string &expect = "", const std::string &got = "");

template <class RS> struct Explorer {
    typedef std::function<void(const RS &, std::vector<Op> &)> AlphaFn;
    typedef std::function<Out(RS &, const Op &)> ApplyFn;
    // called once for each new state, with the system restored to it; returns "" or what is wrong
    typedef std::function<std::string(Sys &, const RS &, std::vector<Op> &extra)> ProbeFn;
    Config cfg; Lib *lib; Sys sys;
    RS init;
    AlphaFn alphabet; ApplyFn apply; ProbeFn probe;
    std::function<std::string(Sys &, const RS &, const Op &, const Out &)> monitor;   // after each transition
    double tol = 1e-9;
    std::vector<Op> prefix;      // executed (and compared) before the search starts
    bool statusOnly = false;     // only statuses are judged; a history whose values differ is not continued
    size_t maxStates = 400000; int maxDepth = 1000000;
    struct Node { uint32_t parent; Op op; };
    std::vector<Node> nodes;
    std::unordered_set<H128, H128h> seen;
    std::map<std::string, uint64_t> modes;
    uint64_t leaves = 0; int depthReached = 0; bool capped = false;

    void setup() { sys.fresh(); if (!sys.instantiate(0, &cfg)) die("cannot instantiate %s", cfgName(cfg).c_str()); }
    std::vector<Op> path(uint32_t n) { std::vector<Op> p; while (n) { p.push_back(nodes[n].op); n = nodes[n].parent; } std::reverse(p.begin(), p.end()); p.insert(p.begin(), prefix.begin(), prefix.end()); return p; }
    // re-execute from a fresh instance; returns "" if everything agrees with the reference
    std::string replay(const std::vector<Op> &ops, Out &got, Out &exp) {
        setup(); RS r = init; std::string why;
        for (auto &o : ops) {
            exp = apply(r, o); got = sys.exec(o);
            if (exp.skip) return "";
            if (!sameOut(got, exp, tol, why) && !(statusOnly && got.st == exp.st)) return o.text() + ": " + why;
            if (monitor) { why = monitor(sys, r, o, got); if (!why.empty()) return o.text() + ": " + why; }
            if (exp.leaf) return "";
        }
        if (probe) { std::vector<Op> ex; why = probe(sys, r, ex); if (!why.empty()) return why; }
        return "";
    }
    bool report(std::vector<Op> ops, const std::string &what, const std::vector<Op> &extra = {}) {
        Out got, exp; std::string again = replay(ops, got, exp);
        std::string w = cfgName(cfg) + ": " + (again.empty() ? what + " (seen in the search, not confirmed on re-execution)" : again);
        if (!extra.empty()) { exp = Out(); got = Out(); ops.insert(ops.end(), extra.begin(), extra.end()); }
        R.violation(w, traceText("history", {cfg, ops}, extra.empty() ? exp.text() : "", extra.empty() ? got.text() : ""));
        return true;
    }
    void run() {
        lib = loadLib(libDir, cfg.model, cfg.ver);
        sys.open(lib, cfg); setup();
        struct F { uint32_t id; int depth; Image im; RS r; };
        std::deque<F> q;
        nodes.push_back({0, Op()});
        F f0; f0.id = 0; f0.depth = 0; f0.r = init;
        for (size_t k = 0; k < prefix.size(); k++) {
            Out exp = apply(f0.r, prefix[k]), got = sys.exec(prefix[k]); std::string why;
            if (exp.skip) die("prefix op %s is not specified", prefix[k].text().c_str());
            if (!sameOut(got, exp, tol, why)) { if (statusOnly && got.st == exp.st) { R.exhaustive = false; return; } report(std::vector<Op>(prefix.begin(), prefix.begin() + (long)k + 1), why); return; }
        }
        sys.snap(f0.im);
        seen.insert(key(f0.im, f0.r)); q.push_back(std::move(f0));
        std::vector<Op> alpha; uint64_t states = 1, trans = 0, probes = 0;
        while (!q.empty()) {
            F f = std::move(q.front()); q.pop_front();
            depthReached = std::max(depthReached, f.depth);
            if (probe) {
                sys.restore(f.im); std::vector<Op> extra; uint64_t c0 = sys.calls;
                std::string w = probe(sys, f.r, extra); probes += sys.calls - c0;
                if (!w.empty()) { auto p = path(f.id); if (report(p, w, extra)) break; }
            }
            bool grew = false;
            if (f.depth < maxDepth) {
                alpha.clear(); alphabet(f.r, alpha);
                bool bad = false;
                for (auto &o : alpha) {
                    RS r = f.r; Out exp = apply(r, o);
                    if (exp.skip) continue;
                    sys.restore(f.im);
                    Out got = sys.exec(o); trans++;
                    std::string why;
                    bool same = sameOut(got, exp, tol, why);
                    if (statusOnly && !same && got.st == exp.st) { R.extra["not_continued_values_differ"]++; R.exhaustive = false; continue; }
                    if (same && monitor) { why = monitor(sys, r, o, got); same = why.empty(); }
                    if (!same) { auto p = path(f.id); p.push_back(o); if (report(p, o.text() + ": " + why)) { bad = true; break; } }
                    if (exp.leaf) continue;
                    F g; sys.snap(g.im);
                    H128 k = key(g.im, r);
                    if (!seen.insert(k).second) continue;
                    if (states >= maxStates) { capped = true; continue; }
                    grew = true; states++; jobStates++;
                    g.id = (uint32_t)nodes.size(); g.depth = f.depth + 1; g.r = r;
                    nodes.push_back({f.id, o});
                    if (nodes.size() == 60) R.samples.push_back(cfgName(cfg) + ": " + shortPath(g.id));
                    q.push_back(std::move(g));
                }
                if (bad) break;
            } else if (f.depth >= maxDepth) { R.extra["states_at_depth_bound"]++; }
            if (!grew) leaves++;
        }
        if (capped) R.exhaustive = false;
        R.states += states; R.transitions += trans; R.traces += leaves; R.extra["probe_calls"] += probes;
        R.extra["max_depth"] = std::max<uint64_t>(R.extra["max_depth"], (uint64_t)depthReached);
        R.extra["configurations"]++;
    }
    std::string shortPath(uint32_t n) { std::string s; for (auto &o : path(n)) { if (!s.empty()) s += " ; "; s += o.text(); } return s; }
    static H128 key(const Image &im, const RS &r) { H128 a = hashStr(im.bytes), b = hashBytes(&r, sizeof r, 77); return {a.a ^ (b.a * 3), a.b + b.b}; }
};
