#include "checks.h"
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>

static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += (char)c; } return o + "\""; }

// what kind of evidence a check produces (level and its note live in MANIFEST.json)
static bool isFaultEnum(const std::string &id) { return id == "C19"; }

static void writeEvidence(const std::string &path, double wall) {
    std::string s = "{\n";
    s += " \"property\": " + jstr(R.prop) + ",\n \"tier\": " + jstr(R.tier) + ",\n \"seed\": " + strf("%d", R.seed) + ",\n";
    bool fe = isFaultEnum(R.prop);
    s += strf(" \"level\": \"%s\",\n", fe ? "fault_enumeration" : "model_checking");
    s += " \"coverage\": {\n";
    if (fe) s += strf("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": %s,\n", (unsigned long long)R.evaluations, (unsigned long long)R.distinct, jstr("each evaluation is one call history with one allocation failed; distinct by call, allocation index and outcome, counted only if the failed allocation was actually reached").c_str());
    s += strf("  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long)R.states, (unsigned long long)R.transitions, (unsigned long long)R.traces);
    for (auto &e : R.extra) s += "  " + jstr(e.first) + strf(": %llu,\n", (unsigned long long)e.second);
    s += "  \"samples\": [";
    for (size_t i = 0; i < R.samples.size(); i++) s += (i ? ",\n    " : "\n    ") + jstr(R.samples[i]);
    s += "],\n  \"exhaustive\": "; s += R.exhaustive ? "true" : "false"; s += "\n },\n";
    s += " \"assumptions\": ["; for (size_t i = 0; i < R.assumptions.size(); i++) s += (i ? ", " : "") + jstr(R.assumptions[i]); s += "],\n";
    s += strf(" \"violations\": %d,\n \"wall_s\": %.2f\n}\n", R.violations, wall);
    std::ofstream f(path); f << s; if (!f) die("cannot write %s", path.c_str());
}

// re-execute the histories of a counterexample file and print what each call returns
static int replayFile(const std::string &file) {
    std::ifstream f(file); if (!f) die("cannot read %s", file.c_str());
    std::string line; Config cfg; Sys sys; bool open = false; std::string last, expect; int bad = 0; bool ref = false; Ref r;
    while (std::getline(f, line)) {
        if (line.rfind("seq ", 0) == 0) { printf("== %s\n", line.substr(4).c_str()); open = false; }
        else if (line.rfind("config ", 0) == 0) {
            cfg = Config::parse(line.substr(7)); sys.open(loadLib(libDir, cfg.model, cfg.ver), cfg); sys.fresh();
            if (!sys.instantiate(0, &cfg)) { printf("instantiation failed\n"); return 1; }
            r.init(cfg); ref = true; open = true; printf("instantiate %s\n", cfgName(cfg).c_str());
        } else if (line.rfind("op ", 0) == 0 && open) {
            Op o = Op::parse(line.substr(3)); Out g = sys.exec(o); last = g.text();
            std::string ex;
            if (ref && o.who == 0 && (o.k < K_FS_GET || o.k > K_FS_DES) && o.k != K_FREE && o.k != K_INSTANTIATE) { Out e = r.apply(o); ex = e.skip ? "(unspecified)" : e.text(); } else ref = false;
            printf("  %-60s -> %s%s\n", o.text().c_str(), last.c_str(), ex.empty() || ex == last ? "" : ("   [reference: " + ex + "]").c_str());
        } else if (line.rfind("expect ", 0) == 0) { expect = line.substr(7); if (expect != last) { bad = 1; printf("  expected: %s\n", expect.c_str()); } }
        else printf("%s\n", line.c_str());
    }
    return bad;
}

double processStart;
int main(int argc, char **argv) {
    processStart = nowS();
    if (argc < 5) { fprintf(stderr, "usage: mc <id> <libdir> <evidence file> <replay dir> [--replay file]\n"); return 2; }
    std::string id = argv[1]; libDir = argv[2];
    R.prop = id; const char *tier = getenv("VERIF_TIER"); R.tier = tier && !strcmp(tier, "thorough") ? "thorough" : "quick"; thorough = R.tier == "thorough";
    if (getenv("VERIF_SEED")) R.seed = atoi(getenv("VERIF_SEED"));
    R.outdir = argv[4];
    arena::init();
    if (argc >= 7 && !strcmp(argv[5], "--replay")) return replayFile(argv[6]);
    std::map<std::string, CheckFn> checks;
#define X(n) checks[#n] = check##n;
    FOR_ALL_CHECKS(X)
#undef X
    if (!checks.count(id)) die("no check %s", id.c_str());
    double t0 = nowS();
    resourceDir();               // written once, before there are workers
    checks[id]();
    writeEvidence(argv[3], nowS() - t0);
    printf("%s: states %llu, transitions %llu, traces %llu, exhaustive within bounds: %s, %.1f s\n", id.c_str(), (unsigned long long)R.states, (unsigned long long)R.transitions, (unsigned long long)R.traces, R.exhaustive ? "yes" : "no", nowS() - t0);
    if (R.violations) { printf("%s\n", R.firstWhat.c_str()); printf("VIOLATION property=%s replay=%s\n", id.c_str(), R.firstReplay.c_str()); return 1; }
#ifdef MC_ASAN
    if (const char *f = getenv("MC_ASAN_STATS")) { FILE *fp = fopen(f, "w"); if (!fp) die("cannot write %s", f); fprintf(fp, "%llu %llu\n", (unsigned long long)R.traces, (unsigned long long)R.transitions); fclose(fp); }
    return 0;
#endif
    printf("HELD %s\n", id.c_str());
    return 0;
}
