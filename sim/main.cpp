#include "harness.h"
#include "cli.h"
#include <stdio.h>
#include <stdlib.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <fstream>
#include <sstream>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string js(const std::string &s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static Prop *prop_for(const std::string &id) { Prop *p = make_prop(id); if (!p) { fprintf(stderr, "no such property %s\n", id.c_str()); exit(2); } return p; }

// shrink a violating plan while the same class of violation persists
static Plan minimise(Prop *pr, Plan p, const std::string &cls, double budget) {
    double t0 = now();
    auto still = [&](Plan &q) { return now() - t0 < budget && pr->eval(q, NULL).cls == cls; };
    auto pass = [&]() {
        bool any = true;
        while (any && now() - t0 < budget) {
            any = false;
            std::vector<Plan> c; pr->shrinks(p, c);
            for (size_t i = 0; i < c.size(); i++) if (still(c[i])) { p = c[i]; any = true; break; }
        }
    };
    pass();
    Plan q = p;
    if (pr->fix_schedule(q)) {
        if (still(q)) {
            p = q;
            // ddmin over the recorded switches
            size_t n = 2;
            while (p.trace.size() >= 1 && now() - t0 < budget) {
                size_t len = p.trace.size(), ch = (len + n - 1) / n; bool red = false;
                for (size_t s = 0; s < len; s += ch) {
                    Plan r = p; r.trace.erase(r.trace.begin() + s, r.trace.begin() + std::min(len, s + ch));
                    if (still(r)) { p = r; n = n > 2 ? n - 1 : 2; red = true; break; }
                }
                if (!red) { if (ch <= 1) break; n = std::min(n * 2, len); }
            }
            pass();
        }
    }
    return p;
}
static int batch(int argc, char **argv) {
    std::string id; uint64_t seed = 1, start = 0, stride = 1, maxn = ~0ull; double secs = 10; int cpu = -1; std::string hout; std::set<std::string> known;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i]; size_t e = a.find('='); std::string k = a.substr(0, e), v = e == std::string::npos ? "" : a.substr(e + 1);
        if (k == "prop") id = v; else if (k == "seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "start") start = strtoull(v.c_str(), 0, 10);
        else if (k == "stride") stride = strtoull(v.c_str(), 0, 10); else if (k == "secs") secs = atof(v.c_str()); else if (k == "n") maxn = strtoull(v.c_str(), 0, 10); else if (k == "cpu") cpu = atoi(v.c_str());
        else if (k == "hashes") hout = v; else if (k == "known") known.insert(v);
    }
    if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    Prop *pr = prop_for(id);
    double t0 = now(); uint64_t n = 0, i = start; int nfound = 0;
    for (; now() - t0 < secs && n < maxn; i += stride, n++) {
        Found f;
        if (!pr->explore(seed, i, f)) continue;
        if (known.count(f.v.cls)) { tot.n["known_finding_seen"]++; continue; }
        Plan m = minimise(pr, f.plan, f.v.cls, 25);
        uint64_t h1 = 0, h2 = 0;
        Verdict v1 = pr->eval(m, &h1), v2 = pr->eval(m, &h2);
        bool ok = v1.cls == f.v.cls && v2.cls == v1.cls && h1 == h2;
        if (!ok) { m = f.plan; v1 = pr->eval(m, &h1); v2 = pr->eval(m, &h2); ok = v1.bad() && v1.cls == v2.cls && h1 == h2; }
        printf("{\"type\":\"found\",\"index\":%lu,\"cls\":%s,\"detail\":%s,\"repeatable\":%s,\"hash\":\"%016lx\",\"plan\":%s,\"original\":%s}\n", i, js(v1.cls).c_str(), js(v1.detail).c_str(), ok ? "true" : "false", h1, js(m.text()).c_str(), js(f.plan.text()).c_str());
        fflush(stdout);
        if (++nfound >= 3) { n++; break; }
    }
    if (!hout.empty()) { std::ofstream o(hout, std::ios::binary); for (uint64_t h : tot.distinct) o.write((const char *)&h, 8); }
    printf("{\"type\":\"totals\",\"indices\":%lu,\"next\":%lu,\"wall\":%.3f,\"distinct\":%zu,\"n\":{", n, i, now() - t0, tot.distinct.size());
    bool first = true;
    for (auto &k : tot.n) { printf("%s%s:%lu", first ? "" : ",", js(k.first).c_str(), k.second); first = false; }
    printf("},\"per_case\":{"); first = true;
    for (auto &k : tot.per_case) { printf("%s%s:%lu", first ? "" : ",", js(k.first).c_str(), k.second); first = false; }
    printf("},\"races\":["); first = true;
    for (auto &k : tot.races) { printf("%s[%lu,%lu]", first ? "" : ",", k.first, k.second); first = false; }
    printf("],\"samples\":["); first = true;
    for (auto &k : tot.samples) { printf("%s%s", first ? "" : ",", js(k).c_str()); first = false; }
    printf("]}\n");
    return 0;
}
static int exec_plan(int argc, char **argv) {
    std::ifstream in(argv[2]); std::stringstream ss; ss << in.rdbuf();
    Plan p; if (!p.parse(ss.str())) { fprintf(stderr, "bad replay file\n"); return 2; }
    Prop *pr = prop_for(p.prop);
    uint64_t h = 0; Verdict v = pr->eval(p, &h);
    printf("{\"type\":\"exec\",\"cls\":%s,\"detail\":%s,\"hash\":\"%016lx\"}\n", js(v.cls).c_str(), js(v.detail).c_str(), h);
    return v.bad() ? 1 : 0;
}
// prove determinism: the event hash of every explored plan, twice
static int hashes(int argc, char **argv) {
    std::string id = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10), a = strtoull(argv[4], 0, 10), b = strtoull(argv[5], 0, 10);
    Prop *pr = prop_for(id);
    for (uint64_t i = a; i < b; i++) {
        Found f; tot.distinct.clear(); bool bad = pr->explore(seed, i, f);
        uint64_t x = 0; for (auto h : tot.distinct) x ^= h;
        uint64_t y = 0; for (auto &k : tot.n) if (k.first == "steps" || k.first == "switches" || k.first == "allocs" || k.first == "io_ops" || k.first == "io_hash") y = sim_mix(y, k.second);
        tot.n.clear();
        printf("%lu %016lx %016lx %d\n", i, x, y, bad);
    }
    return 0;
}
int main(int argc, char **argv) {
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    heap_init();
    shA = shm_new(); shB = shm_new();
    int rc = -1;
    if (argc > 1 && !strcmp(argv[1], "batch")) rc = batch(argc, argv);
    else if (argc > 2 && !strcmp(argv[1], "exec")) rc = exec_plan(argc, argv);
    else if (argc > 5 && !strcmp(argv[1], "hashes")) rc = hashes(argc, argv);
    if (rc >= 0) { scratch_done(); return rc; }
    fprintf(stderr, "usage: simgridpp batch prop=.. seed=.. | exec FILE | hashes PROP SEED A B\n");
    return 2;
}
