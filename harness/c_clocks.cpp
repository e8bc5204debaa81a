// C17: scheduled execution under preemption. The FMU is compiled so that it calls a function before each access to
// memory; these functions are implemented here and are the points at which a partition of higher priority may run.
#include "state.h"

namespace {
struct Act { int part; int variant; int start, end; int notes; };            // one activation, in order of its start
struct Sched {
    std::vector<int> choice, width; size_t pos = 0;
    std::vector<Act> acts; std::vector<int> running; int clock = 0, budget = 0, points = 0; bool on = false;
    int importer = 0; int trueReads = 0, changedReads = 0; std::string bad;
    int choose(int n) { if (pos == choice.size()) { choice.push_back(0); width.push_back(n); } else if (width.size() <= pos) width.push_back(n); return choice[pos++]; }
    bool next() { while (!choice.empty()) { if (choice.back() + 1 < width[choice.size() - 1]) { choice.back()++; width.resize(choice.size()); return true; } choice.pop_back(); } return false; }
};
Sched *sd = nullptr; Sys *S = nullptr;
}
static const int variants[4] = {0, 2, 2, 1};       // partition 1 at time 0 and 4, partition 2 with input 0 and 70005
struct Arena { bool was; Arena(bool on) { was = arena::on; arena::on = on; } ~Arena() { arena::on = was; } };
static void activate(int part, int variant) {
    Arena off(false); void *inst = S->w.inst[0];
    size_t k = sd->acts.size(); sd->acts.push_back({part, variant, sd->clock++, 0, 0}); sd->running.push_back((int)k);
    if (part == 2 && variant) { uint32_t vr = 2006; int32_t v = 70005; bool on = sd->on; sd->on = false; fmi3Status st; { Arena a(true); st = S->lib->f3.SetInt32(inst, &vr, 1, &v, 1); } if (st != fmi3OK) sd->bad = "the input of partition 2 cannot be set"; sd->on = on; }
    fmi3Status st; { Arena a(true); st = S->lib->f3.ActivateModelPartition(inst, (fmi3ValueReference)(1000 + part), part == 1 && variant ? 4.0 : 0.0); }
    if (st != fmi3OK) sd->bad = "an activation is refused";
    sd->running.pop_back(); sd->acts[k].end = sd->clock++;
}
// a place at which the running partition may be interrupted
static void point() {
    if (!sd || !sd->on) return;
    sd->points++;
    if (S->lockDepth > 0) return;
    Arena off(false);
    while (sd->budget > 0 && sd->running.size()) {
        int cur = sd->acts[(size_t)sd->running.back()].part; if (cur == 1) return;
        int n = 1; for (int p = 1; p < cur; p++) n += variants[p];
        int c = sd->choose(n); if (c == 0) return;
        c--; int p = 1; while (c >= variants[p]) { c -= variants[p]; p++; }
        sd->budget--; activate(p, c);
    }
}
static void accessed(const void *p) { if (sd && sd->on && arena::owns(p)) point(); }
// ---- what the compiler inserts
extern "C" {
#define API __attribute__((visibility("default"), used))
API void __tsan_init() {}
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() { point(); }
#define RW(n) API void __tsan_read##n(void *p) { accessed(p); } API void __tsan_write##n(void *p) { accessed(p); } \
    API void __tsan_unaligned_read##n(void *p) { accessed(p); } API void __tsan_unaligned_write##n(void *p) { accessed(p); } \
    API void __tsan_volatile_read##n(void *p) { accessed(p); } API void __tsan_volatile_write##n(void *p) { accessed(p); } \
    API void __tsan_unaligned_volatile_read##n(void *p) { accessed(p); } API void __tsan_unaligned_volatile_write##n(void *p) { accessed(p); } \
    API void __tsan_read_write##n(void *p) { accessed(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *p, size_t) { accessed(p); }
API void __tsan_write_range(void *p, size_t) { accessed(p); }
API void __tsan_vptr_update(void **p, void *) { accessed(p); }
API void __tsan_vptr_read(void **p) { accessed(p); }
#define AT(b, T) API T __tsan_atomic##b##_load(const volatile T *p, int) { accessed((const void *)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    API void __tsan_atomic##b##_store(volatile T *p, T v, int) { accessed((const void *)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { accessed((const void *)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { accessed((const void *)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { accessed((const void *)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { accessed((const void *)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { accessed((const void *)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { accessed((const void *)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    API int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { accessed((const void *)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    API int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { accessed((const void *)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
API void __tsan_atomic_thread_fence(int) { point(); }
API void __tsan_atomic_signal_fence(int) { point(); }
API void *__tsan_memcpy(void *d, const void *s, size_t n) { accessed(d); return memcpy(d, s, n); }
API void *__tsan_memset(void *d, int v, size_t n) { accessed(d); return memset(d, v, n); }
API void *__tsan_memmove(void *d, const void *s, size_t n) { accessed(d); return memmove(d, s, n); }
}

// ---- the partitions as the description of the model states them, each undivided
struct Serial { int t[3] = {0, 0, 0}, total = 0, result2 = 0, input2 = 0, output3 = 0; bool out = false; int q3 = 0; int trueReads = 0, changedReads = 0; };
static int serialRun(Serial &m, int part, int variant, int importer) {       // number of notifications
    m.t[part - 1]++; m.total++; bool tick = m.total % 5 == 0;
    if (part == 1 && variant) m.q3 = 2;
    if (part == 2) { if (variant) m.input2 = 70005; m.result2 += m.input2; m.input2 = 0; }
    if (part == 3) m.output3 = 1000;
    if (tick) m.out = true;
    bool note = tick || (part == 1 && m.q3 == 2);
    if (note && importer >= 1) { m.trueReads += m.out; m.out = false; }
    if (note && importer >= 2 && m.q3 == 2) { m.changedReads++; m.q3 = 1; }
    return note;
}
static std::string serialText(const Serial &m) { return strf("ticks %d %d %d total %d result %d input %d output %d clock %d interval %d reads %d %d", m.t[0], m.t[1], m.t[2], m.total, m.result2, m.input2, m.output3, m.out, m.q3, m.trueReads, m.changedReads); }

struct Node17 { Image im; Serial m; std::string how; };
static bool apiRead(Serial &m, std::string &why) {
    Out o = S->exec(opGet(I32, {2001, 2002, 2003, 2004, 2005, 2006, 2007})); if (o.st != OK) { why = "counters cannot be read"; return false; }
    for (int k = 0; k < 3; k++) m.t[k] = (int)o.i[(size_t)k]; m.total = (int)o.i[3]; m.result2 = (int)o.i[4]; m.input2 = (int)o.i[5]; m.output3 = (int)o.i[6];
    Op g = op(K_GET_INTERVAL); g.vr = {1003}; o = S->exec(g); if (o.st != OK) { why = "interval cannot be read"; return false; } m.q3 = (int)o.i[0];
    g = op(K_GETCLOCK); g.vr = {1005}; o = S->exec(g); if (o.st != OK) { why = "output clock cannot be read"; return false; } m.out = o.i[0] != 0;
    return true;
}
// one activation by the scheduler with every placement of up to `budget` preemptions; new states go to `out`
static bool explore(const Node17 &n, int part, int variant, int budget, int importer, std::vector<Node17> *out, std::unordered_set<H128, H128h> *seen) {
    Sched sc; sc.importer = importer; double t0 = nowS();
    do {
        S->restore(n.im); S->lockDepth = S->maxLock = S->locks = S->unlocks = S->clockUpdates = 0;
        sc.pos = 0; sc.acts.clear(); sc.running.clear(); sc.clock = 0; sc.budget = budget; sc.on = true; sc.trueReads = sc.changedReads = 0; sc.points = 0; sc.bad.clear();
        sd = &sc; int st = S->guarded([&] { activate(part, variant); }); sc.on = false; sd = nullptr; R.transitions++;
        R.extra["max_points_of_one_schedule"] = std::max<uint64_t>(R.extra["max_points_of_one_schedule"], (uint64_t)sc.points);
        auto describe = [&] {
            std::string s = n.how + (n.how.empty() ? "" : "; ") + "then";
            for (auto &a : sc.acts) s += strf(" partition %d%s [%d..%d]%s", a.part, a.part == 1 ? (a.variant ? " at time 4" : "") : a.part == 2 && a.variant ? " with input 70005" : "", a.start, a.end, a.notes ? strf(" notified %d times", a.notes).c_str() : "");
            std::string ch; for (int c : sc.choice) ch += strf(" %d", c); return s + " (starts and ends on a common clock; choices" + ch + ")";
        };
        auto fail = [&](const std::string &w) { R.violation("Clocks: " + w + ": " + describe(), "config " + S->cfg.text() + "\n# " + w + "\n# " + describe() + "\n"); return false; };
        if (st != OK) return fail(strf("a preempted activation ends with status %d", st));
        if (!sc.bad.empty()) return fail(sc.bad);
        if (S->lockDepth != 0 || S->locks != S->unlocks) return fail(strf("%d locks and %d unlocks", S->locks, S->unlocks));
        if (S->maxLock > 1) return fail("locks are nested");
        Serial got = Serial(); std::string why; Image after; S->snap(after);
        if (!apiRead(got, why)) return fail(why);
        got.trueReads = n.m.trueReads + sc.trueReads; got.changedReads = n.m.changedReads + sc.changedReads;
        // some serial order of the activations that respects which ended before another began
        std::vector<int> perm(sc.acts.size()); for (size_t k = 0; k < perm.size(); k++) perm[k] = (int)k;
        bool found = false; Serial result; std::string expect;
        do {
            bool legal = true; for (size_t a = 0; a < perm.size() && legal; a++) for (size_t b = a + 1; b < perm.size(); b++) if (sc.acts[(size_t)perm[b]].end < sc.acts[(size_t)perm[a]].start) { legal = false; break; }
            if (!legal) continue;
            Serial m = n.m; bool notes = true; for (int k : perm) { int c = serialRun(m, sc.acts[(size_t)k].part, sc.acts[(size_t)k].variant, importer); if (c != sc.acts[(size_t)k].notes) notes = false; }
            R.traces++; if (expect.empty()) expect = serialText(m);
            if (notes && serialText(m) == serialText(got)) { found = true; result = m; }
        } while (!found && std::next_permutation(perm.begin(), perm.end()));
        if (!found) return fail("no serial order gives this outcome (" + serialText(got) + ", a serial order gives " + expect + ")");
        if (out) { H128 h = hashStr(after.bytes, (uint64_t)(result.trueReads * 100 + result.changedReads)); if (seen->insert(h).second) { R.states++; out->push_back({after, result, describe()}); } }
        if (nowS() - t0 > 120) { R.exhaustive = false; break; }
    } while (sc.next());
    return true;
}
void checkC17() {
    std::string dir = libDir + "-preempt";
    std::vector<Job> jobs;
    for (int importer = 0; importer < 3; importer++) for (int share = 0; share < 8; share++) jobs.push_back({strf("importer %d share %d", importer, share), [importer, share, dir] {
        Config c; c.model = "Clocks"; c.iface = SE; Sys s; S = &s; s.open(loadLib(dir, "Clocks", 3), c);
        s.onLock = [] { if (S->lockDepth > 0 && sd) sd->bad = "locked twice"; point(); };
        s.onUnlock = [] { if (S->lockDepth < 0 && sd) sd->bad = "unlocked without lock"; point(); };
        s.onClockUpdate = [] {
            if (!sd) return;
            if (S->lockDepth > 0) sd->bad = "the importer is notified while preemption is locked";
            if (sd->running.empty()) { sd->bad = "notified outside of an activation"; return; }
            size_t me = (size_t)sd->running.back(); sd->acts[me].notes++; point();
            fmi3Status st; sd->on = false;           // the reads of the importer are not part of the partition
            if (sd->importer >= 1) { uint32_t vr = 1005; fmi3Clock v = false; { Arena a(true); st = S->lib->f3.GetClock(S->w.inst[0], &vr, 1, &v); } if (st != fmi3OK) sd->bad = "the output clock cannot be read in the notification"; if (v) sd->trueReads++; }
            if (sd->importer >= 2) { uint32_t vr = 1003; double iv = -1; fmi3IntervalQualifier q = fmi3IntervalNotYetKnown; { Arena a(true); st = S->lib->f3.GetIntervalDecimal(S->w.inst[0], &vr, 1, &iv, &q); } if (st != fmi3OK) sd->bad = "the interval cannot be read in the notification"; if (q == fmi3IntervalChanged) { sd->changedReads++; if (iv != 0) sd->bad = "wrong interval"; } }
            sd->on = true; point();
        };
        s.fresh(); if (!s.instantiate(0, &c)) die("cannot instantiate Clocks"); for (auto &o : toMode(c, M_CLOCK)) if (s.exec(o).st != OK) die("cannot initialize Clocks");
        // all states reachable by up to six serial activations
        std::vector<Node17> v(1); s.snap(v[0].im); std::unordered_set<H128, H128h> seen; size_t from = 0; int depth = 6;
        double t0 = nowS(); explore(v[0], 3, 0, 0, importer, nullptr, nullptr); bool slow = nowS() - t0 > 0.02; if (slow) { R.exhaustive = false; depth = 2; }
        for (int d = 0; d < depth; d++) { size_t to = v.size(); for (size_t k = from; k < to; k++) for (int p = 1; p <= 3; p++) for (int z = 0; z < variants[p]; z++) { if (slow && p == 3) continue; Node17 n = v[k]; if (!explore(n, p, z, 0, importer, &v, &seen)) return; } from = to; }
        // each interrupted in every way, then interrupted again
        std::vector<Node17> mid; size_t serial = v.size();
        for (size_t k = 0; k < serial; k++) {
            if ((int)(k % 8) != share) continue;
            for (int p = 2; p <= 3; p++) for (int z = 0; z < variants[p]; z++) { if (!explore(v[k], p, z, slow && p == 3 ? 1 : thorough ? 4 : 3, importer, &mid, &seen)) return; }
        }
        size_t first = mid.size(), cap = 20000;
        for (size_t k = 0; k < first; k++) { if (k >= cap || slow) { R.exhaustive = false; break; } for (int p = 2; p <= 3; p++) for (int z = 0; z < variants[p]; z++) { Node17 n = mid[k]; if (!explore(n, p, z, 1, importer, nullptr, nullptr)) return; } }
        R.extra["serial_start_states"] = std::max<uint64_t>(R.extra["serial_start_states"], share == 0 ? serial : 0);
        if (share == 0 && mid.size()) R.samples.push_back(mid[mid.size() / 2].how.substr(0, 400));
    }});
    runJobs(jobs, 8, 800);
}
