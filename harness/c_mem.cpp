// C19, C20: memory. C20 explores every history twice, with different content of everything that is not initialised,
// and frees everything after each; C19 fails every allocation of every call.
#include "state.h"

static Op fs(K k, int a = 0, int b = 0) { Op o = op(k); o.a = a; o.b = b; return o; }
static std::string pathText(const std::vector<Op> &p) { std::string s; for (auto &o : p) s += (s.empty() ? "" : " ; ") + o.text(); return s; }

// legal histories that lead to all kinds of conditions; the search continues from each point of each
static std::vector<std::vector<Op>> starts(const Config &c) {
    ModelId m = modelId(c.model); double H = solverStep(m);
    std::vector<std::vector<Op>> v; v.push_back({});
    std::vector<Mode> modes = c.iface == ME ? std::vector<Mode>{M_CONFIG, M_INIT, M_EVENT, M_CTM, M_TERM} : c.iface == CS ? std::vector<Mode>{M_CONFIG, M_INIT, M_EVENT, M_STEP, M_TERM} : std::vector<Mode>{M_CONFIG, M_INIT, M_CLOCK, M_TERM};
    for (Mode md : modes) {
        if (md == M_CONFIG) { if (c.ver == 3) v.push_back({op(K_ENTER_CONFIG)}); continue; }
        if (md == M_EVENT && c.iface == CS && !c.eventMode) continue;
        if (md == M_TERM) { auto p = toMode(c, c.iface == ME ? M_EVENT : c.iface == CS ? (c.eventMode ? M_EVENT : M_STEP) : M_CLOCK); p.push_back(op(K_TERMINATE)); v.push_back(p); continue; }
        v.push_back(toMode(c, md));
    }
    if (m == SS) for (auto &d : std::vector<std::vector<int64_t>>{{1, 5, 2}, {5, 5, 5}}) {
        std::vector<Op> p = {op(K_ENTER_CONFIG), opSetI(U64, {1}, {d[0]}), opSetI(U64, {2}, {d[1]}), opSetI(U64, {3}, {d[2]}), op(K_EXIT_CONFIG)};
        auto q = toMode(c, c.iface == ME ? M_EVENT : c.eventMode ? M_EVENT : M_STEP); p.insert(p.end(), q.begin(), q.end()); v.push_back(p);
    }
    if (m == FT) { auto p = toMode(c, c.iface == ME ? M_EVENT : c.eventMode ? M_EVENT : M_STEP); p.push_back(opSetS(STR, {29}, {std::string(127, 'x')})); if (c.ver == 3) p.push_back(opSetS(BIN, {31}, {std::string(128, 'y')})); v.push_back(p); }
    if (c.iface == CS) {
        std::vector<Op> p = toMode(c, M_STEP, 0, m == BB ? 0.004 : m == STAIR ? 12 : 5 * H);
        if (m == BB) { p = toMode(c, M_INIT, 0, 0.006); p.push_back(opSetD(F64, {1}, {0.0015})); p.push_back(opSetD(F64, {3}, {-1})); p.push_back(op(K_EXIT_INIT)); if (c.eventMode) p.push_back(op(K_ENTER_STEP)); }
        Ref r; r.init(c); bool ok = true; for (auto &o : p) { Out e = r.apply(o); if (e.st != OK || e.skip) ok = false; }
        if (!ok) die("start of %s", cfgName(c).c_str());
        v.push_back(p);
        for (int k = 0; k < 14 && r.mode == M_STEP && !r.ended; k++) {
            Op o = opStep(r.nextCP, m == STAIR ? 1.0 : H); Ref r2 = r; Out e = r2.apply(o); if (e.skip || e.st != OK) break;
            r = r2; p.push_back(o); if (m != STAIR || k > 8 || k < 2) v.push_back(p);
            if (r.pending && c.eventMode) for (K k2 : {K_ENTER_EVENT, K_UPDATE, K_ENTER_STEP}) { r.apply(op(k2)); p.push_back(op(k2)); if (m != STAIR) v.push_back(p); }
            else if (r.pending) break;
        }
    }
    return v;
}
// every function, legal or not, with usual and unusual arguments
void memAlphabet(const Config &c, const Ref &r, const int *has, bool ser, std::vector<Op> &a, bool all) {
    ModelId m = (ModelId)r.model; bool v3 = c.ver == 3;
    modeAlphabet(r, a); richAlphabet(r, a, 1);
    for (int t = 0; t <= BIN; t++) {
        if (!v3 && t != F64 && t != I32 && t != BOOL && t != STR) continue;
        std::vector<uint32_t> all; size_t n = 0; for (auto &v : varsOf(c.model, c.ver)) if (v.ty == t && v.vr != 0) { all.push_back(v.vr); n += (size_t)std::max(0L, r.size(v.ty, v.vr)); }
        if (all.empty()) all = {1}, n = 1;
        Op g = opGet((Ty)t, all); if (v3) g.n = (long)n; a.push_back(g);
        if (v3 && n <= 150) { g.n = (long)n + 1; a.push_back(g); if (n) { g.n = (long)n - 1; a.push_back(g); g.n = 0; a.push_back(g); } }
        g = opGet((Ty)t, {777}); a.push_back(g);
        g = opGet((Ty)t, {all[0], 777}); a.push_back(g);
        g = opGet((Ty)t, {all[0]}); g.null = 1; a.push_back(g); g.null = 2; a.push_back(g); if (t == BIN) { g.null = 4; a.push_back(g); }
        Op s = op(K_SET); s.ty = (Ty)t; s.vr = {all[0]}; if (t == STR || t == BIN) s.s = {"x"}; else if (t <= F64) s.d = {0.5}; else s.i = {1};
        a.push_back(s); s.null = 1; a.push_back(s); s.null = 2; a.push_back(s); if (t == BIN) { s.null = 4; a.push_back(s); } s.null = 0;
        s.vr = {777}; a.push_back(s); s.vr = {all[0], 777}; s.d.resize(s.d.size() * 2, 0.5); s.i.resize(s.i.size() * 2, 1); s.s.resize(s.s.size() * 2, "y"); a.push_back(s);
    }
    if (m == FT) for (size_t l : {0u, 126u, 127u, 128u, 129u, 300u}) { a.push_back(opSetS(STR, {29}, {std::string(l, 's')})); if (v3) a.push_back(opSetS(BIN, {31}, {std::string(l, 'b')})); }
    if (m == FT) { a.push_back(opSetS(STR, {29}, {"\x01NULL"})); if (v3) a.push_back(opSetS(BIN, {31}, {"\x01NULL"})); }
    if (m == SS) {
        for (uint32_t d = 1; d <= 3; d++) for (int64_t n : {0, 1, 5, 6}) a.push_back(opSetI(U64, {d}, {n}));
        for (uint32_t v = 4; v <= 12; v++) { long n = r.size(F64, v); for (long dn : {-1L, 0L, 1L}) { if (n + dn < 0) continue; Op s = opSetD(F64, {v}, std::vector<double>((size_t)(n + dn), 0.25)); a.push_back(s); Op g = opGet(F64, {v}); g.n = n + dn; a.push_back(g); } }
    }
    if (m == STAIR) { a.push_back(opSetI(I32, {1}, {10})); a.push_back(opSetI(I32, {1}, {-1})); }
    for (K k : {K_GET_STATES, K_GET_DERS, K_GET_NOMINALS, K_GET_EI, K_SET_STATES}) {
        long n = (long)(k == K_GET_EI ? r.nz() : r.nx());
        for (long dn : {-1L, 0L, 1L}) { if (n + dn < 0) continue; Op o = opN(k, n + dn); if (k == K_SET_STATES) o.d.assign((size_t)(n + dn), 0.5); a.push_back(o); if (n + dn) { o.null = 2; a.push_back(o); } }
    }
    { Op o = op(K_COMPLETED); o.null = 2; a.push_back(o); o.null = 4; a.push_back(o); }
    { Op o = op(K_DEBUG); o.f = true; o.s = {"nonsense"}; a.push_back(o); o.s = {"\x01NULL"}; a.push_back(o); o.s = {"logEvents", "logStatusError"}; a.push_back(o); o.f = false; a.push_back(o); o.s = {}; o.n = 1; o.null = 2; a.push_back(o); }
    for (uint32_t v : {0u, 2u, 1003u, 1005u, 4000000000u}) { Op o = op(K_GET_OUTDER); o.vr = {v}; a.push_back(o); o.i = {2}; a.push_back(o); }
    { Op o = op(K_GET_OUTDER); o.vr = {1, 3}; for (int nu : {1, 2, 4}) { o.null = nu; a.push_back(o); } o.null = 0; if (v3) for (long n : {0L, 1L, 3L}) { o.n = n; a.push_back(o); } }
    for (K k : {K_DIRDER, K_ADJDER}) {
        if (k == K_ADJDER && !v3) continue;
        for (auto &x : std::vector<std::pair<std::vector<uint32_t>, std::vector<uint32_t>>>{{{2, 4, 2, 4}, {1, 3}}, {{4}, {1, 3, 1}}, {{3, 5}, {2, 4}}, {{99}, {1}}, {{2}, {99}}}) {
            Op d = op(k); d.vr = x.first; d.vr2 = x.second; size_t want = k == K_DIRDER ? x.second.size() : x.first.size();
            for (size_t n : {want, want + 1, want - 1}) { if (!v3 && n != want) continue; d.d.assign(n, 1.5); a.push_back(d); }
            d.d.assign(want, 1.5); if (v3) { size_t out = k == K_DIRDER ? x.first.size() : x.second.size(); d.n = (long)out + 1; a.push_back(d); d.n = (long)out - 1; a.push_back(d); }
        }
    }
    if (v3) {
        for (auto &l : std::vector<std::vector<uint32_t>>{{1001}, {1005}, {1001, 1002, 1003, 1004, 1005}, {1005, 7}, {1005, 1005}}) { Op o = op(K_GETCLOCK); o.vr = l; a.push_back(o); o = op(K_SETCLOCK); o.vr = l; o.i.assign(l.size(), 1); a.push_back(o); o = op(K_GET_INTERVAL); o.vr = l; a.push_back(o); }
        { Op o = op(K_ACTIVATE); o.vr = {1004}; a.push_back(o); o.vr = {1005}; a.push_back(o); }
    }
    // saved states
    for (int k = 0; k < 2; k++) {
        a.push_back(fs(K_FS_GET, k));
        if (has[k]) { a.push_back(fs(K_FS_SET, k)); a.push_back(fs(K_FS_FREE, k)); a.push_back(fs(K_FS_SIZE, k)); if (k == 0) { a.push_back(fs(K_FS_SER, 0, 0)); Op o = fs(K_FS_SER, 0, 0); o.n = 999; a.push_back(o); o.n = 1001; a.push_back(o); } }
    }
    for (K k : {K_FS_SET, K_FS_FREE, K_FS_SIZE, K_FS_SER}) a.push_back(fs(k, -1));
    if (ser) { a.push_back(fs(K_FS_DES, 0, 1)); Op o = fs(K_FS_DES, 0, 1); o.n = 999; a.push_back(o); o.n = 1001; a.push_back(o); }
    if (all) { size_t n = a.size(); for (size_t k = 0; k < n; k++) { if (a[k].k == K_FS_SER && a[k].a >= 0) continue; Op o = a[k]; o.who = -1; a.push_back(o); } Op o = op(K_FREE); o.who = -1; a.push_back(o); }
}

// what the search knows about a history
struct MemState { Ref r; Ref saved[2], serd; int has[2]; int ser; };
static Out memApply(MemState &s, const Op &o) {
    Out e;
    if (o.who < 0) { e.st = o.k == K_FREE || (o.k == K_FS_FREE && o.a < 0) ? OK : ERROR; e.leaf = false; return e; }
    switch (o.k) {
        case K_FS_GET: s.has[o.a] = 1; s.saved[o.a] = s.r; return e;
        case K_FS_SET: if (o.a < 0) return s.r.err(); s.r = s.saved[o.a]; return e;
        case K_FS_FREE: if (o.a >= 0) s.has[o.a] = 0; return e;
        case K_FS_SIZE: if (o.a < 0) return s.r.err(); return e;
        case K_FS_SER: if (o.a < 0 || o.n != -1) { e = s.r.err(); return e; } s.ser = 1; s.serd = s.saved[o.a]; return e;
        case K_FS_DES: if (o.n != -1) { e = s.r.err(); return e; } s.has[o.b] = 1; s.saved[o.b] = s.serd; return e;
        case K_DEBUG: e.leaf = true; return e;
        default: return s.r.apply(o);
    }
}
static H128 memHash(const MemState &s) {
    H128 h = hashRef(s.r); uint64_t z[3] = {(uint64_t)s.has[0], (uint64_t)s.has[1], (uint64_t)s.ser}; H128 g = hashBytes(z, sizeof z, 9);
    for (int k = 0; k < 2; k++) if (s.has[k]) { H128 q = hashRef(s.saved[k]); g.a ^= q.a * (uint64_t)(7 + 2 * k); g.b += q.b * (uint64_t)(3 + 2 * k); }
    if (s.ser) { H128 q = hashRef(s.serd); g.a ^= q.a * 19; g.b += q.b * 23; }
    return {h.a ^ g.a * 3, h.b + g.b * 5};
}
static const Paint PAINTS[2] = {{0xCD, 0xFD, 0xA5, 0xEE, true}, {0x00, 0x42, 0x00, 0x00, true}};
static bool ended(int st) { return st == CRASH || st == HANG || st == 92; }
static std::string endText(int st) { return st == CRASH ? "the call crashes" : st == HANG ? "the call does not return" : "the call writes beyond the caller's buffer"; }

// frees everything; "" or what is wrong
static std::string freeAll(Sys &s, int order) {
    auto slots = [&]() -> std::string { for (int k = 0; k < NSLOT; k++) if (s.w.slot[k]) { Out g = s.exec(fs(K_FS_FREE, k)); if (g.st != OK) return "freeing a saved state returns " + g.text(); if (s.w.slot[k]) return "freeing a saved state does not clear it"; } return ""; };
    std::string w;
    if (order == 0 && !(w = slots()).empty()) return w;
    Out g = s.exec(op(K_FREE)); if (g.st != OK) return "freeing the instance: " + endText(g.st);
    if (!arena::intact(w)) return w;
    if (arena::live()) return strf("%zu bytes remain allocated after everything was freed:", arena::liveBytes()) + arena::liveDump();
    if (arena::openFiles) return "a file remains open after the instance was freed";
    return "";
}

#ifdef MC_ASAN
// the same histories, each executed from a new instance with the address and undefined-behaviour sanitizers
void checkC20() {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) {
        Config c = c0; c.logging = true;
        const int parts = 2;
        for (int part = 0; part < parts; part++)
        jobs.push_back({cfgName(c) + strf(" part %d", part), [c, part, parts] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c);
            std::unordered_map<H128, int, H128h> seen; const int maxDepth = 2; bool bad = false;
            auto run = [&](const std::vector<Op> &p) -> int {             // status of the last call; everything is freed afterwards
                s.fresh(); if (!s.instantiate(0, &c)) die("instantiate"); int st = OK; std::string w;
                for (auto &o : p) { Out g = s.exec(o); R.transitions++; st = g.st; if (ended(st)) { w = o.text() + ": " + endText(st); break; } }
                if (w.empty()) w = freeAll(s, 0);
                R.traces++;
                if (!w.empty()) { R.violation(cfgName(c) + ": " + w + " (address and undefined-behaviour sanitizers); history: " + pathText(p), traceText("history", {c, p})); bad = true; }
                return st;
            };
            auto st = starts(c);
            for (size_t si = (size_t)part; si < st.size() && !bad; si += parts) {
                struct N { MemState m; std::vector<Op> p; };
                N n0; memset((void *)&n0.m, 0, sizeof n0.m); n0.m.r.init(c); for (auto &o : st[si]) { memApply(n0.m, o); n0.p.push_back(o); }
                std::vector<N> level = {n0};
                for (int d = 0; d < maxDepth && !bad; d++) {
                    std::vector<N> next;
                    for (auto &n : level) {
                        std::vector<Op> a; memAlphabet(c, n.m.r, n.m.has, n.m.ser, a, d == 0);
                        for (auto &o : a) {
                            N q = n; Out e = memApply(q.m, o); q.p.push_back(o); int got = run(q.p); if (bad) break;
                            if (e.skip || e.leaf || e.st != got || o.who < 0) continue;
                            H128 h = memHash(q.m); auto it = seen.find(h); if (it != seen.end() && it->second <= d + 1) continue;
                            seen[h] = d + 1; R.states++;
                            if (d + 1 < maxDepth) next.push_back(std::move(q));
                        }
                        if (bad) break;
                    }
                    level.swap(next);
                }
            }
        }});
    }
    // whole experiments, ended by freeing everything at many points
    for (auto &c0 : allConfigs()) for (int variant = 0; variant < nScripts; variant++) {
        Config c = c0; c.logging = true; c.inter = c.ver == 3 && c.iface == CS;
        jobs.push_back({cfgName(c) + strf(" experiment %d", variant), [c, variant] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); Script sc = longScript(c, variant);
            for (size_t n : sc.points(24)) {
                s.fresh(); if (!s.instantiate(0, &c)) die("instantiate"); std::string w;
                for (size_t k = 0; k < n && w.empty(); k++) { Out g = s.exec(sc.ops[k]); R.transitions++; if (ended(g.st)) w = sc.ops[k].text() + ": " + endText(g.st); if (k + 1 == n / 2) s.exec(fs(K_FS_GET, 0)); }
                if (w.empty() && n > 3) { s.exec(fs(K_FS_SET, 0)); s.exec(fs(K_FS_GET, 1)); }
                if (w.empty()) w = freeAll(s, 0);
                R.traces++; R.states++;
                if (!w.empty()) { auto p = sc.first(n); R.violation(cfgName(c) + ": " + w + strf(" (address and undefined-behaviour sanitizers) in an experiment of %zu calls", n), traceText("history", {c, p})); return; }
            }
        }});
    }
    runJobs(jobs, 8, 800);
}
#else
void checkC20() {
    if (const char *f = getenv("MC_ASAN_STATS")) { unsigned long long h = 0, t = 0; FILE *fp = fopen(f, "r"); if (!fp || fscanf(fp, "%llu %llu", &h, &t) != 2) die("no result of the sanitizer run"); fclose(fp); R.extra["sanitizer_histories"] = h; R.extra["sanitizer_calls"] = t; }
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) {
        Config c = c0; c.logging = true;
        const int parts = thorough ? 4 : 2;
        for (int part = 0; part < parts; part++)
        jobs.push_back({cfgName(c) + strf(" part %d", part), [c, part, parts] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c);
            struct N { Image im[2]; MemState m; uint32_t parent; Op o; int depth; };
            std::vector<N> v; std::unordered_map<H128, int, H128h> seen;       // depth already spent when first seen
            const int maxDepth = 3; uint64_t frees = 0; bool bad = false;
            auto path = [&](size_t k) { std::vector<Op> p; while (k != (size_t)-1 && v[k].parent != (uint32_t)-1) { p.push_back(v[k].o); k = v[k].parent; } std::reverse(p.begin(), p.end()); return p; };
            auto fail = [&](std::vector<Op> p, const std::string &w) { R.violation(cfgName(c) + ": " + w + "; history: " + pathText(p), traceText("history", {c, p})); bad = true; };
            auto both = [&](const Op &o, const Image *in, Image *out, Out *g, std::string &w) {     // executes the call under both paints
                std::string lg[2];
                for (int k = 0; k < 2; k++) {
                    setPaint(PAINTS[k]); s.restore(in[k]); g[k] = s.exec(o); lg[k] = s.logText(); R.transitions++;
                    if (ended(g[k].st)) { w = o.text() + ": " + endText(g[k].st); return; }
                    if (!arena::intact(w)) { w = o.text() + ": " + w; return; }
                    s.snap(out[k]);
                }
                std::string why;
                if (!sameOut(g[0], g[1], 0, why)) { w = o.text() + ": the result depends on memory that was never initialised (" + why + ")"; return; }
                if (lg[0] != lg[1]) w = o.text() + ": the messages depend on memory that was never initialised (" + lg[0] + " or " + lg[1] + ")";
            };
            auto freed = [&](const Image *im, std::string &w) { for (int k = 0; k < 2 && w.empty(); k++) { setPaint(PAINTS[k]); s.restore(im[k]); w = freeAll(s, 0); frees++; } };
            // NULL instance and NULL state
            auto st = starts(c); std::unordered_set<H128, H128h> freedSeen;
            N n0; n0.parent = (uint32_t)-1; n0.depth = 0; memset((void *)&n0.m, 0, sizeof n0.m); n0.m.r.init(c);
            for (int k = 0; k < 2; k++) { setPaint(PAINTS[k]); s.fresh(); if (!s.instantiate(0, &c)) die("instantiate"); s.snap(n0.im[k]); }
            v.push_back(n0); seen[memHash(n0.m)] = 0;
            if (part == 0) { Op o = op(K_FREE); o.who = -1; for (int k = 0; k < 2; k++) { setPaint(PAINTS[k]); s.restore(n0.im[k]); Out g = s.exec(o); Image q; s.snap(q); if (g.st != OK || q.bytes != n0.im[k].bytes) { fail({o}, "freeing a NULL instance has an effect"); return; } } }
            for (size_t si = (size_t)part; si < st.size() && !bad; si += parts) {
                for (int held = 0; held < 2 && !bad; held++) {           // held: with saved states, followed by calls that deal with them
                // along the legal history
                size_t at = 0; auto legal = st[si]; if (held) for (auto &o : {fs(K_FS_GET, 0), fs(K_FS_SER, 0, 0), fs(K_FS_DES, 0, 1)}) legal.push_back(o);
                for (auto &o : legal) {
                    N n; n.m = v[at].m; Out e = memApply(n.m, o), g[2]; std::string w; both(o, v[at].im, n.im, g, w);
                    if (!w.empty()) { auto p = path(at); p.push_back(o); fail(p, w); return; }
                    if (e.skip || e.leaf || g[0].st != e.st) break;
                    n.parent = (uint32_t)at; n.o = o; n.depth = 0; at = v.size(); v.push_back(std::move(n));
                }
                // arbitrary calls from its end
                size_t first = v.size(); std::vector<size_t> level = {at};
                for (int d = 0; d < maxDepth && !bad; d++) {
                    std::vector<size_t> next;
                    for (size_t k : level) {
                        std::vector<Op> a; memAlphabet(c, v[k].m.r, v[k].m.has, v[k].m.ser, a, d == 0 && !held);
                        if (held) { std::vector<Op> b; for (auto &o : a) if ((o.k >= K_FS_GET && o.k <= K_FS_DES) || o.k == K_RESET || o.k == K_TERMINATE) b.push_back(o); a.swap(b); }
                        for (auto &o : a) {
                            N n; n.m = v[k].m; Out e = memApply(n.m, o), g[2]; std::string w;
                            both(o, v[k].im, n.im, g, w);
                            if (w.empty() && (o.k == K_FS_FREE && o.a < 0) && n.im[0].bytes != v[k].im[0].bytes) w = o.text() + ": freeing a NULL state has an effect";
                            H128 ih = hashStr(n.im[0].bytes);
                            if (w.empty() && freedSeen.insert(ih).second) { freed(n.im, w); if (!w.empty()) w = "after " + o.text() + ", " + w; }
                            if (!w.empty()) { auto p = path(k); p.push_back(o); fail(p, w); break; }
                            if (e.skip || e.leaf || g[0].st != e.st || o.who < 0) continue;
                            H128 h = Explorer<Ref>::key(n.im[0], n.m.r);
                            auto it = seen.find(h); if (it != seen.end() && it->second <= d + 1) continue;
                            seen[h] = d + 1;
                            n.parent = (uint32_t)k; n.o = o; n.depth = d + 1;
                            if (d + 1 < maxDepth) { next.push_back(v.size()); v.push_back(std::move(n)); } else { R.states++; R.traces++; }
                        }
                        if (bad) break;
                    }
                    level.swap(next);
                }
                if (v.size() > first + 30 && si == 2 && !held) R.samples.push_back(cfgName(c) + ": " + pathText(path(first + 30)) + " ; everything freed");
                // images of this start are not needed any more
                for (size_t k = first; k < v.size(); k++) for (auto &im : v[k].im) std::string().swap(im.bytes);
                }
            }
            R.states += v.size(); R.extra["configurations_parts"]++; R.extra["legal_starting_histories"] += part == 0 ? st.size() : 0; R.extra["histories_ended_by_free"] += frees; R.extra["max_calls_beyond_start"] = (uint64_t)maxDepth;
        }});
    }
    // whole experiments under both paints, ended by freeing everything after each call
    for (auto &c0 : allConfigs()) for (int variant = 0; variant < nScripts; variant++) {
        Config c = c0; c.logging = true; c.inter = c.ver == 3 && c.iface == CS;
        jobs.push_back({cfgName(c) + strf(" experiment %d", variant), [c, variant] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); Script sc = longScript(c, variant); Image im[2]; std::string w, lg[2], why; Out g[2]; std::vector<Out> rd[2];
            for (int k = 0; k < 2; k++) { setPaint(PAINTS[k]); s.fresh(); if (!s.instantiate(0, &c)) die("instantiate"); s.snap(im[k]); }
            for (size_t n = 0; n <= sc.ops.size() && w.empty(); n++) {
                for (int k = 0; k < 2 && w.empty(); k++) {
                    setPaint(PAINTS[k]); s.restore(im[k]); w = freeAll(s, 0); if (!w.empty()) break;
                    s.restore(im[k]); rd[k].clear(); for (auto &o : readAll(sc.refs[n])) { rd[k].push_back(s.exec(o)); R.transitions++; }
                    if (n == sc.ops.size()) break;
                    s.restore(im[k]); g[k] = s.exec(sc.ops[n]); lg[k] = s.logText(); R.transitions++;
                    if (ended(g[k].st)) w = sc.ops[n].text() + ": " + endText(g[k].st); else if (!arena::intact(why)) w = sc.ops[n].text() + ": " + why;
                    s.snap(im[k]);
                }
                for (size_t z = 0; w.empty() && z < rd[0].size() && z < rd[1].size(); z++) if (!sameOut(rd[0][z], rd[1][z], 0, why)) w = "a value depends on memory that was never initialised (" + why + ")";
                if (w.empty() && n < sc.ops.size() && (!sameOut(g[0], g[1], 0, why) || lg[0] != lg[1])) w = sc.ops[n].text() + ": the result depends on memory that was never initialised (" + why + ")";
                R.states++; R.extra["histories_ended_by_free"] += 2;
                if (!w.empty()) { auto p = sc.first(std::min(n + 1, sc.ops.size())); R.violation(cfgName(c) + ": " + w + strf("; after %zu calls of an experiment", n), traceText("history", {c, p})); }
            }
            R.traces++;
        }});
    }
    runJobs(jobs, 8, 800);
}
#endif

// ------------------------------------------------------------------ C19
#ifndef MC_ASAN
void checkC19importer(std::vector<Job> &jobs);
static std::string faultText(int64_t at, bool suffix) { return strf("allocation %lld%s of the call failing", (long long)at + 1, suffix ? " and all later ones" : ""); }
void checkC19() {
    std::vector<Job> jobs;
    for (auto &c0 : allConfigs()) for (int logging = 0; logging < 2; logging++) {
        Config c = c0; c.logging = logging;
        jobs.push_back({cfgName(c) + (logging ? " logging" : ""), [c] {
            Sys s; s.open(loadLib(libDir, c.model, c.ver), c); bool bad = false;
            std::set<std::string> distinct;
            auto fail = [&](const std::vector<Op> &p, const std::string &w) { R.violation(cfgName(c) + ": " + w + "; history: " + pathText(p), traceText("history", {c, p})); bad = true; };
            auto fault = [&](int64_t at, bool suffix) { arena::failAt = suffix ? -1 : at; arena::failFrom = suffix ? at : -1; arena::allocs = 0; };
            auto none = [&] { arena::failAt = arena::failFrom = -1; };
            // instantiation
            for (int nolog = 0; nolog < 2; nolog++) for (int wrong = 0; wrong < 3; wrong++) {
                s.nullLogger = nolog;
                const char *name = wrong == 1 ? "" : "inst", *token = wrong == 2 ? "{0}" : nullptr;
                s.fresh(); none(); arena::allocs = 0; bool ok = s.instantiate(0, &c, name, token); int64_t n = (int64_t)arena::allocs;
                for (int64_t at = 0; at < n; at++) for (bool suffix : {false, true}) {
                    s.fresh(); fault(at, suffix); bool got = s.instantiate(0, &c, name, token); none(); std::string w;
                    R.evaluations++; distinct.insert(strf("instantiate %d %d %lld %d %d", nolog, wrong, (long long)at, suffix, got));
                    if (got && !ok) w = "succeeds";
                    if (!arena::intact(w)) {}
                    if (w.empty() && !got && (arena::live() || arena::openFiles)) w = strf("%zu bytes remain allocated although no instance is returned", arena::liveBytes());
                    if (w.empty() && got) w = freeAll(s, 0);
                    if (!w.empty()) { fail({}, "instantiation with " + faultText(at, suffix) + ": " + w); return; }
                }
            }
            s.nullLogger = false;
            // every call in every condition
            Reach rc; rc.s = &s; rc.cfg = c; rc.maxStates = thorough ? 4000 : 800; rc.nv = 1; rc.run();
            Ref fresh; fresh.init(c);
            for (size_t k = 0; k < rc.v.size() && !bad; k++) {
                for (int saved = 0; saved < 2 && !bad; saved++) {
                    std::vector<Op> base = rc.path(k); s.restore(rc.v[k].im); none();
                    MemState ms; memset((void *)&ms, 0, sizeof ms); ms.r = rc.v[k].r;
                    if (saved) for (auto &o : {fs(K_FS_GET, 0), fs(K_FS_SER, 0, 0)}) { Out g = s.exec(o); base.push_back(o); memApply(ms, o); if (g.st != OK) { fail(base, o.text() + " returns " + g.text()); break; } }
                    if (bad) break;
                    Image before; s.snap(before);
                    std::vector<Op> a; memAlphabet(c, ms.r, ms.has, ms.ser, a, false); a.push_back(op(K_FREE));
                    if (saved) { std::vector<Op> b; for (auto &o : a) if ((o.k >= K_FS_GET && o.k <= K_FS_DES) || o.k == K_FREE) b.push_back(o); a = b; }
                    for (auto &o : a) {
                        s.restore(before); none(); arena::allocs = 0; Out u = s.exec(o); int64_t n = (int64_t)arena::allocs; R.transitions++;
                        if (!n) continue;
                        if (ended(u.st)) continue;
                        MemState after = ms; Out e = memApply(after, o);
                        for (int64_t at = 0; at < n && !bad; at++) for (bool suffix : {false, true}) {
                            s.restore(before); fault(at, suffix); Out g = s.exec(o); none(); R.transitions++; R.evaluations++;
                            std::vector<Op> p = base; p.push_back(o); std::string w, why; auto head = [&] { return o.text() + " with " + faultText(at, suffix) + ": "; };
                            distinct.insert(strf("%s %d %lld %d %d %d", o.text().c_str(), ms.r.mode, (long long)at, suffix, g.st, saved));
                            if (ended(g.st)) { fail(p, head() + endText(g.st)); break; }
                            if (!arena::intact(w)) { fail(p, head() + w); break; }
                            if (g.st != ERROR && g.st != FATAL && !sameOut(g, u, 0, why)) { fail(p, head() + "reports success with another result (" + why + ")"); break; }
                            if (o.k == K_FREE) { s.w.inst[0] = nullptr; continue; }
                            Image im; s.snap(im);
                            // everything can still be freed
                            w = freeAll(s, 0); if (!w.empty()) { fail(p, head() + w); break; }
                            if (g.st == OK && u.st == OK && !e.skip && !e.leaf && o.k != K_DEBUG) { s.restore(im); std::vector<Op> ex; w = compareReads(s, after.r, ex); if (!w.empty()) { fail(p, head() + "reports success, but " + w); break; } }
                            // a state saved before is still good
                            if (saved && o.k != K_FS_FREE && !(o.k == K_FS_GET && o.a == 0)) { s.restore(im); Out q = s.exec(fs(K_FS_SET, 0)); std::vector<Op> ex; w = q.st == OK ? compareReads(s, ms.saved[0], ex) : "restoring it returns " + q.text(); if (!w.empty()) { fail(p, head() + "the state saved before is damaged: " + w); break; } }
                            // reset makes the instance usable, also while there is no memory
                            s.restore(im); arena::allocs = 0; arena::failFrom = 0; Out q = s.exec(op(K_RESET)); none(); std::vector<Op> ex;
                            w = q.st == OK ? compareReads(s, fresh, ex) : "reset returns " + q.text(); if (!w.empty()) { fail(p, head() + "the instance cannot be used again after a reset: " + w); break; }
                            auto p2 = toMode(c, c.iface == ME ? M_CTM : c.iface == CS ? M_STEP : M_CLOCK); Ref r2 = fresh; for (auto &z : p2) { Out x = s.exec(z), y = r2.apply(z); if (!sameOut(x, y, 1e-9, w)) break; w.clear(); } if (w.empty()) w = compareReads(s, r2, ex);
                            if (!w.empty()) { fail(p, head() + "after a reset: " + w); break; }
                        }
                        if (bad) break;
                    }
                }
            }
            R.states += rc.v.size(); R.traces += R.evaluations; R.distinct += distinct.size(); R.extra["configurations"]++;
            if (rc.capped) R.exhaustive = false;
            if (!distinct.empty()) R.samples.push_back(cfgName(c) + ": " + *distinct.rbegin());
        }});
    }
    checkC19importer(jobs);
    runJobs(jobs, 8, 800);
}
#else
void checkC19() {}
#endif
