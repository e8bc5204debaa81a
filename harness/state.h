// reachable conditions of an instance, shared by the checks that start from each of them
#pragma once
#include "checks.h"
void richAlphabet(const Ref &r, std::vector<Op> &a, int nv);    // calls that bring an instance into all kinds of conditions
void memAlphabet(const Config &c, const Ref &r, const int *has, bool ser, std::vector<Op> &a, bool all);   // every function, legal or not, with usual and unusual arguments
void smallAlphabet(const Ref &r, std::vector<Op> &a);
// long deterministic histories (script.cpp)
struct Script {
    std::vector<Op> ops; std::vector<Ref> refs;                 // refs[k]: before ops[k]; the last one: at the end
    std::vector<size_t> points(size_t atMost) const;            // numbers of calls after which something is worth trying
    std::vector<Op> first(size_t n) const { return std::vector<Op>(ops.begin(), ops.begin() + (long)n); }
};
const int nScripts = 4;
Script longScript(const Config &c, int variant);                // variant below nScripts
// reachable states of one instance, in breadth-first order
struct Reach {
    Sys *s; Config cfg; size_t maxStates = 5000; int maxDepth = 1000; int nv = 1; bool capped = false; uint64_t trans = 0; std::vector<Op> prefix = {}, begin = {};      // prefix: calls that leave the reference as it is; begin: the history so far
    struct N { Image im; Ref r; uint32_t parent; Op o; int depth; };
    std::vector<N> v;
    std::vector<Op> path(size_t k) { std::vector<Op> p; while (k) { p.push_back(v[k].o); k = v[k].parent; } std::reverse(p.begin(), p.end()); p.insert(p.begin(), begin.begin(), begin.end()); return p; }
    void run(std::function<void(const Ref &, std::vector<Op> &)> extra = nullptr) {
        s->fresh(); if (!s->instantiate(0, &cfg)) die("cannot instantiate %s", cfgName(cfg).c_str()); for (auto &o : prefix) s->exec(o);
        std::unordered_set<H128, H128h> seen; N n; n.r.init(cfg); for (auto &o : begin) { n.r.apply(o); s->exec(o); } s->snap(n.im); n.parent = 0; n.depth = 0; seen.insert(Explorer<Ref>::key(n.im, n.r)); v.push_back(n);
        for (size_t k = 0; k < v.size(); k++) {
            if (v[k].depth >= maxDepth) continue;
            std::vector<Op> a; richAlphabet(v[k].r, a, nv); if (extra) extra(v[k].r, a);
            for (auto &o : a) {
                Ref r = v[k].r; Out e = r.apply(o); if (e.skip) continue;
                s->restore(v[k].im); Out g = s->exec(o); trans++;
                if (g.st != e.st || e.leaf) continue;
                N c; s->snap(c.im); if (!seen.insert(Explorer<Ref>::key(c.im, r)).second) continue;
                if (v.size() >= maxStates) { capped = true; continue; }
                c.r = r; c.parent = (uint32_t)k; c.o = o; c.depth = v[k].depth + 1; v.push_back(std::move(c)); jobStates++;
            }
        }
    }
};
// a sequence of calls that leads back to where it began, made over and over again until it leaves the memory as it was
struct Pump {
    Sys &s; size_t rounds = 150; uint64_t cycles = 0, calls = 0;
    std::vector<Op> failOps = {}; std::string why = ""; Image last = {};
    // true if every round returned the same; last: at the end
    bool run(const Image &im, const std::vector<Op> &cyc) {
        s.restore(im); cycles++; failOps.clear(); std::unordered_set<H128, H128h> seen; std::vector<Out> first;
        for (size_t n = 0; n < rounds; n++) {
            for (size_t k = 0; k < cyc.size(); k++) {
                Out g = s.exec(cyc[k]); failOps.push_back(cyc[k]); calls++; std::string w;
                if (n == 0) first.push_back(g); else if (!sameOut(g, first[k], 0, w)) { why = cyc[k].text() + ": " + w + strf(" in round %zu of the same calls", n + 1); return false; }
            }
            s.snap(last); if (!seen.insert(hashStr(last.bytes)).second) break;
        }
        return true;
    }
};
// two systems that have to behave alike; B is the simpler history
struct Twin {
    Sys *s; Config cfg; double tol = 0; int whoA = 0, whoB = 0; int maxDepth = 6; size_t maxPairs = 4000;
    std::function<void(const Ref &, std::vector<Op> &)> alphabet;
    std::unordered_set<H128, H128h> seen;
    uint64_t pairs = 0, trans = 0, equal = 0; bool capped = false;
    std::vector<Op> failOps; std::string failWhat;
    static std::string run1(Sys &s, const Image &im, Op o, int who, Out &out) { s.restore(im); o.who = who; out = s.exec(o); return s.logText(); }
    // "" if nothing distinguishes the two within the bounds
    std::string differ(const Image &A0, const Image &B0, const Ref &r0) {
        struct N { Image A, B; Ref r; int depth; std::vector<Op> path; };
        std::deque<N> q; q.push_back({A0, B0, r0, 0, {}});
        size_t count = 0;
        while (!q.empty()) {
            N n = std::move(q.front()); q.pop_front();
            s->restore(n.A); std::string ca = s->canon(whoA); s->restore(n.B); std::string cb = s->canon(whoB);
            if (ca == cb) { equal++; continue; }            // same memory, same future
            H128 h = hashStr(ca, 1), h2 = hashStr(cb, 2), h3 = hashBytes(&n.r, sizeof n.r, 3);
            if (!seen.insert({h.a ^ h2.a * 3 ^ h3.a * 5, h.b + h2.b * 7 + h3.b * 11}).second) continue;
            if (++count > maxPairs) { capped = true; break; }
            pairs++;
            std::vector<Op> a = readAll(n.r); size_t nread = a.size();
            a.push_back(op(K_N_CS)); if (cfg.ver == 2) a.pop_back();
            alphabet(n.r, a);
            for (size_t k = 0; k < a.size(); k++) {
                Ref r = n.r; Out e = r.apply(a[k]); Out oa, ob; std::string why;
                std::string la = run1(*s, n.A, a[k], whoA, oa); Image A2; if (k >= nread) s->snap(A2);
                std::string lb = run1(*s, n.B, a[k], whoB, ob); trans += 2;
                bool ok = sameOut(oa, ob, tol, why);
                if (ok && la != lb) { ok = false; why = "messages " + la + " instead of " + lb; }
                if (!ok) { failOps = n.path; failOps.push_back(a[k]); failWhat = a[k].text() + ": " + why; return failWhat; }
                if (k < nread) continue;
                if (e.skip || e.leaf || e.st != ob.st || n.depth >= maxDepth) continue;
                N c; s->snap(c.B); c.A = std::move(A2); c.r = r; c.depth = n.depth + 1; c.path = n.path; c.path.push_back(a[k]);
                q.push_back(std::move(c));
            }
        }
        return "";
    }
};
