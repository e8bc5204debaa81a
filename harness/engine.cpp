#include "engine.h"
#include <sys/stat.h>
#include <unistd.h>

std::string cfgName(const Config &c) {
    return strf("%s FMI%d %s%s%s", c.model.c_str(), c.ver, c.iface == ME ? "ME" : c.iface == CS ? "CS" : "SE", c.eventMode ? "+eventMode" : "", c.early ? "+earlyReturn" : "");
}
std::string resourceDir() {
    static std::string d;
    if (d.empty()) {
        d = libDir + "/mc-resources";
        mkdir(d.c_str(), 0755);
        std::string f = d + "/y.txt"; FILE *fp = fopen(f.c_str(), "w"); if (!fp) die("cannot write %s", f.c_str()); fputs("a second", fp); fclose(fp);
    }
    return d;
}
std::vector<Config> allConfigs(bool withEarly) {
    std::vector<Config> v;
    for (int m = 0; m < 9; m++) for (int ver : versionsOf((ModelId)m)) {
        Config c; c.model = modelNames[m]; c.ver = ver;
        if (m == RES) c.resource = ver == 3 ? resourceDir() + "/" : "file://" + resourceDir();
        if (m == CLOCKS) { c.iface = SE; v.push_back(c); continue; }
        c.iface = ME; v.push_back(c);
        c.iface = CS; v.push_back(c);
        if (ver == 3) {
            if (withEarly) { c.early = true; v.push_back(c); c.early = false; }
            if (hasEventSupport((ModelId)m)) {
                c.eventMode = true; v.push_back(c);
                if (withEarly) { c.early = true; v.push_back(c); }
            }
        }
    }
    return v;
}
std::string traceText(const std::string &label, const Trace &t, const std::string &expect, const std::string &got) {
    std::string s = "seq " + label + "\nconfig " + t.cfg.text() + "\n";
    for (auto &o : t.ops) s += "op " + o.text() + "\n";
    if (!expect.empty()) s += "expect " + expect + "\n";
    if (!got.empty()) s += "got " + got + "\n";
    return s;
}
