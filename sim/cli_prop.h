// What the properties about whole runs share: one generated world, an undisturbed run as the reference,
// then runs under schedules, faults, crashes, clocks or failing allocations.
#pragma once
#include "cli.h"
#include <algorithm>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>

static inline SimCfg quiet_cfg() { SimCfg c; sim_cfg_default(&c); c.clock_mode = 1; return c; }
static const char *const FKN[] = { "none", "eio", "enospc", "eintr", "short", "short_then_full", "eacces", "enoent", "emfile", "crash_before", "crash_after", "crash_torn", "edquot", "zero", "lost_at_close", "eagain", "estale" };
static const char *const OPN[] = { "open", "read", "write", "seek", "resize", "sync", "close", "unlink", "stat", "access", "mmap" };

struct State { std::vector<Dump> d; std::vector<bool> ok; std::map<std::string, std::string> raw; };
struct World {
    std::string key; Job job; bool made = false;
    State s0, sref;                                     // before, and after the undisturbed run
    CliRun ref; std::vector<IoEvent> ev; std::vector<std::string> names;
    uint64_t written = 0, allocs = 0;
};
static inline State observe(const std::string &dir, const Job &j) {
    State s;
    for (auto &o : j.outputs) { Dump d; bool ok = dump_file(dir + "/" + o, d); s.d.push_back(d); s.ok.push_back(ok); }
    for (auto &f : j.files) s.raw[f.name] = slurp(dir + "/" + f.name);
    for (auto &f : j.diag) s.raw[f] = slurp(dir + "/" + f);
    return s;
}
static inline std::string dir_of(const char *n) { return scratch() + "/" + n; }
static inline std::string base_name(const std::string &p) { size_t k = p.rfind('/'); return k == std::string::npos ? p : p.substr(k + 1); }
static inline std::string world_key(const Plan &p) { Plan q = p; for (const char *k : { "space", "cut", "cutlen" }) q.kv.erase(k); return q.input_key(); }

struct ClientProp : Prop {
    std::string id; World w;
    ClientProp(const std::string &i) : id(i) {}
    virtual ~ClientProp() {}
    // ---- hooks
    virtual void gen(Rng &r, uint64_t i, Plan &p) = 0;
    virtual int runs_per_world() { return 12; }
    virtual bool pick(Rng &r, Plan &p) = 0;             // choose faults etc. using w; false: nothing to do
    virtual Verdict judge(Plan &p, CliRun &c, const std::string &dir, State &s) = 0;
    virtual SimCfg ref_cfg(const Plan &) { return quiet_cfg(); }
    virtual bool need_ref_ok() { return true; }
    virtual CliOpts opts(const Plan &p) { CliOpts o; o.faults = p.faults; o.space = p.get("space", -1); return o; }
    virtual SimCfg run_cfg(const Plan &p) { SimCfg c = p.cfg; return c; }
    virtual void ref_opts(CliOpts &) {}
    virtual Job make(const Plan &p) { return make_job(p); }
    virtual CliRun launch(const Plan &, const std::string &dir, const SimCfg &cfg, const CliOpts &o) { return run_client(dir, w.job, cfg, o); }
    virtual bool eligible(const IoEvent &) { return true; }     // operations this property's faults may hit
    // ---- machinery
    World &world(const Plan &p) {
        std::string k = world_key(p);
        if (w.made && w.key == k) return w;
        w = World(); w.key = k; w.made = true;
        w.job = make(p);
        std::string d0 = dir_of("world"), d1 = dir_of("ref");
        copy_dir("/nonexistent", d0);
        plain_child([&] { if (chdir(d0.c_str())) _exit(2); write_world(w.job); });
        for (auto &f : w.job.files) if (access((d0 + "/" + f.name).c_str(), F_OK)) { fprintf(stderr, "world generation failed: %s\n%s", w.job.line().c_str(), p.text().c_str()); _exit(2); }
        w.s0 = observe(d0, w.job);
        copy_dir(d0, d1);
        CliOpts o; ref_opts(o); if (getenv("SIM_IOTRACE")) o.say = d1 + "/.said";
        w.ref = launch(p, d1, ref_cfg(p), o);
        tot.n["reference_runs"]++;
        uint32_t n = std::min(g_io->nio, (uint32_t)MAX_IO);
        w.ev.assign(g_io->ev, g_io->ev + n); for (uint32_t i = 0; i < g_io->nfiles; i++) w.names.push_back(base_name(g_io->files[i]));
        w.written = g_io->grown;
        w.sref = observe(d1, w.job);
        if (getenv("SIM_IOTRACE")) {
            std::string said = slurp(d1 + "/.said"); while (said.size() && said.back() == '\n') said.pop_back();
            fprintf(stderr, "SAID %d | %s | %s\n", w.ref.status, said.substr(said.rfind('\n') + 1).c_str(), w.job.line().c_str());
            fprintf(stderr, "job %s\nstatus %d ops %u\n", w.job.line().c_str(), w.ref.status, n);
            for (uint32_t i = 0; i < n; i++) { IoEvent &e = w.ev[i]; fprintf(stderr, "%u %s%s %s off %lu len %lu -> %ld\n", i, OPN[e.op], e.wr ? "(w)" : "", e.file >= 0 && e.file < (int)w.names.size() ? w.names[e.file].c_str() : "?", e.off, e.len, (long)e.res); }
        }
        return w;
    }
    bool is_out(int f) {      // also files a run makes on its way to an output
        if (f < 0 || f >= (int)w.names.size()) return false;
        if (!w.job.readonly(w.names[f])) return true;
        for (auto &q : w.job.files) if (q.name == w.names[f]) return false;
        return true;
    }
    // the netCDF library does not look at what close() says of a file in the classic formats, so nothing is lost there
    bool tells_close(int f) {
        if (f < 0 || f >= (int)w.names.size()) return false;
        if (!is_nc(f)) return true;
        for (auto &q : w.job.files) if (q.name == w.names[f]) return q.kind == FS_NC && q.nc.fmt >= 2;
        return false;
    }
    bool is_nc(int f) { if (f < 0 || f >= (int)w.names.size()) return false; const std::string &n = w.names[f]; return n.find(".nc") != std::string::npos; }
    CliRun simulate(const Plan &p, State &s, const std::string &dir) {
        copy_dir(dir_of("world"), dir);
        CliRun c = launch(p, dir, run_cfg(p), opts(p));
        s = observe(dir, w.job);
        account(p, c);
        return c;
    }
    void account(const Plan &p, const CliRun &c) {
        tot.n["simulated_runs"]++; tot.add(c.st);
        tot.n["io_ops"] += c.nio; tot.n["io_hash"] += c.iohash & 0xffffffff;
        for (uint32_t k = 0; k < g_io->nfaults; k++) if (g_io->fired[k]) {
            uint32_t at = g_io->faults[k].at; const char *op = at < MAX_IO && at < g_io->nio ? OPN[g_io->ev[at].op] : "?";
            tot.n[std::string("fault_") + FKN[g_io->faults[k].kind] + "_on_" + op]++;
        }
        if (c.space_fired) tot.n["fault_disk_full"]++;
        if (c.status == 0) tot.n["runs_reporting_success"]++; else tot.n["runs_failing_visibly"]++;
        uint64_t h = sim_mix(sim_mix(std::hash<std::string>()(w.key), c.iohash), c.st.sched_hash);
        for (auto &f : p.faults) h = sim_mix(h, ((uint64_t)f.at << 20) ^ (f.kind << 8) ^ f.sticky ^ ((uint64_t)f.arg << 40));
        h = sim_mix(h, (uint64_t)p.get("space", -1));
        if (p.cfg.alloc_fail_at >= 0) h = sim_mix(h, p.cfg.alloc_fail_at * 2 + p.cfg.alloc_fail_sticky);
        if (interesting(p, c)) tot.distinct.insert(h);
        last_hash = sim_mix(h, c.status);
    }
    virtual bool interesting(const Plan &, const CliRun &c) { return c.fired || c.space_fired; }
    uint64_t last_hash = 0;
    virtual bool no_answer(const CliRun &c) { return c.status == 96 || c.status == 1000 + 27 || c.status == 1000 + 14; }
    Verdict eval(Plan &p, uint64_t *h) {
        world(p);
        if (need_ref_ok() && !w.ref.ok()) { if (h) *h = 1; return Verdict(); }
        State s; std::string dir = dir_of("run");
        CliRun c = simulate(p, s, dir);
        Verdict v;
        bool off = false; for (uint32_t i = 0; i < std::min(g_io->nio, (uint32_t)MAX_IO); i++) if (g_io->ev[i].fault && !eligible(g_io->ev[i])) off = true;
        if (off) tot.n["fault_off_target"]++; else if (no_answer(c)) { tot.n["inconclusive"]++; if (getenv("SIM_INC")) fprintf(stderr, "INC status %d\n%s\n", c.status, p.text().c_str()); } else v = judge(p, c, dir, s);
        if (v.bad()) { v.detail += " [" + w.job.line() + "]"; for (auto &f : p.faults) { v.detail += std::string(" fault: ") + FKN[f.kind] + (f.sticky ? " (lasting)" : "") + " at file operation " + std::to_string(f.at); if (f.at < w.ev.size()) v.detail += std::string(" (") + OPN[w.ev[f.at].op] + " " + (w.ev[f.at].file >= 0 && w.ev[f.at].file < (int)w.names.size() ? w.names[w.ev[f.at].file] : "?") + ", " + std::to_string(w.ev[f.at].len) + " bytes at " + std::to_string(w.ev[f.at].off) + ")"; } if (p.kv.count("space")) v.detail += " disk full after " + std::to_string(p.get("space")) + " bytes"; }
        if (h) *h = sim_mix(last_hash, std::hash<std::string>()(v.cls + v.detail));
        return v;
    }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        uint64_t salt = 0; for (char c : id) salt = salt * 131 + c;
        Rng r(sim_mix(seed, i * 2654435761u + salt));
        Plan p; p.prop = id; p.index = i; p.cfg = quiet_cfg();
        gen(r, i, p);
        world(p);
        if (need_ref_ok() && !w.ref.ok()) { tot.n["skipped_reference_failed"]++; return false; }
        if (w.ref.ok()) tot.n["worlds"]++;
        if (tot.samples.size() < 3) tot.samples.push_back(w.job.line().empty() ? p.text() : w.job.line());
        for (int k = 0; k < runs_per_world(); k++) {
            Plan q = p;
            if (!pick(r, q)) break;
            Verdict v = eval(q, NULL);
            if (v.bad()) { f.plan = q; f.v = v; return true; }
        }
        return false;
    }
    virtual void shrinks(const Plan &p, std::vector<Plan> &out) {
        if (p.faults.size() > 1) for (size_t k = 0; k < p.faults.size(); k++) { Plan q = p; q.faults.erase(q.faults.begin() + k); out.push_back(q); }
        for (size_t k = 0; k < p.faults.size(); k++) if (p.faults[k].sticky) { Plan q = p; q.faults[k].sticky = 0; out.push_back(q); }
        for (size_t k = 1; k < p.items.size() && p.items.size() > 2; k++) { Plan q = p; q.items.erase(q.items.begin() + k); out.push_back(q); }
        if (p.get("files", 1) > 1) { Plan q = p; q.kv["files"] = 1; out.push_back(q); }
        for (size_t k = 1; k < p.items.size(); k++) if (!(p.items[k].x & 64)) { Plan q = p; q.items[k].x = (p.items[k].x & ~16) | 64; out.push_back(q); }
        for (size_t k = 1; k < p.items.size(); k++) if (p.items[k].x & 384) { Plan q = p; q.items[k].x = p.items[k].x & ~384; out.push_back(q); }
        if (p.get("ds", -1) != 0) { Plan q = p; q.kv["ds"] = 0; out.push_back(q); }
        if (p.items[0].cap > 2) { Plan q = p; q.items[0].cap = 2; out.push_back(q); }
        if (p.get("big")) { Plan q = p; q.kv.erase("big"); out.push_back(q); }
        if (p.get("missing", 1)) { Plan q = p; q.kv["missing"] = 0; out.push_back(q); }
        if (p.get("pack", 1)) { Plan q = p; q.kv["pack"] = 0; out.push_back(q); }
        if (p.get("bystanders", 1)) { Plan q = p; q.kv["bystanders"] = 0; out.push_back(q); }
    }
    // ---- shared pieces
    // a world with nv variables; ot/it: output and input type
    static void gen_world(Rng &r, Plan &p, int nvmax, int cap, bool allow_aux, bool allow_inplace) {
        Item w; w.name = "world"; w.seed = r.next() >> 1; w.cap = cap; w.x = 0; p.items.push_back(w);
        if (allow_inplace && r.chance(0.2)) p.kv["inplace"] = 1;
        bool in = p.get("inplace", 0) != 0;
        int nv = r.range(1, nvmax); bool aux = allow_aux && r.chance(0.25); std::vector<int> ks;
        for (int k = 0; k < nv; k++) {
            Item v; v.name = "var"; v.seed = r.next() >> 1; v.cap = 0; int q; bool again = !in && k && r.chance(0.15); do q = r.below(8); while (std::find(ks.begin(), ks.end(), q) != ks.end()); if (again) q = ks[r.below(k)]; ks.push_back(q);
            v.x = q + (aux && r.chance(0.7) ? 16 : 0) + (r.chance(again ? 0.6 : 0.1) ? 128 : 0) + (r.chance(0.06) ? 256 : 0); p.items.push_back(v);
        }
        p.kv["ifmt"] = r.below(4); p.kv["ofmt"] = r.below(4);
    }
    std::string compare_outputs(const State &a, const State &b, const std::function<bool(const std::string &)> &skip = nullptr) {
        for (size_t k = 0; k < w.job.outputs.size(); k++) {
            if (a.ok[k] != b.ok[k]) return w.job.outputs[k] + " can " + (b.ok[k] ? "" : "not ") + "be read";
            std::string d = dump_diff(a.d[k], b.d[k], skip); if (d.size()) return w.job.outputs[k] + ": " + d;
        }
        for (auto &f : w.job.diag) if (a.raw.at(f) != b.raw.at(f)) return f + " differs";
        return "";
    }
    std::string changed_readonly(const State &s) {
        for (auto &f : w.job.files) if (w.job.readonly(f.name) && s.raw.at(f.name) != w.s0.raw.at(f.name)) return f.name;
        return "";
    }
    Verdict same_or_failed(CliRun &c, State &s) {
        Verdict v; std::string ro = changed_readonly(s);
        if (ro.size()) { v.cls = "input changed"; v.detail = ro + " is only read, but was changed"; return v; }
        if (c.visible()) return v;
        std::string d = compare_outputs(w.sref, s);
        if (d.size()) { v.cls = "success with wrong output"; v.detail = "the run reported success, but " + d; }
        return v;
    }
    typedef std::function<bool(const IoEvent &)> Sel;
    bool pick_fault(Rng &r, Plan &p, const Sel &sel, const std::function<uint32_t(const IoEvent &)> &kind, int maxn, double sticky) {
        std::vector<uint32_t> c; for (uint32_t i = 0; i < w.ev.size(); i++) if (sel(w.ev[i])) c.push_back(i);
        if (c.empty()) return false;
        int n = r.chance(0.75) ? 1 : r.range(1, maxn);
        // spread over kinds of operation first, so that rare ones (close, resize) are reached as often as writes
        std::map<int, std::vector<uint32_t> > by; for (uint32_t i : c) by[w.ev[i].op * 64 + (w.ev[i].file & 63)].push_back(i);
        for (int k = 0; k < n; k++) {
            uint32_t at;
            if (r.chance(0.5)) at = c[r.below(c.size())];
            else { auto it = by.begin(); std::advance(it, r.below(by.size())); at = it->second[r.below(it->second.size())]; }
            Fault f; f.at = at; f.kind = kind(w.ev[at]); f.sticky = r.chance(sticky); f.arg = w.ev[at].len > 1 ? 1 + r.below((uint32_t)std::min<uint64_t>(w.ev[at].len - 1, 1u << 20)) : 0;
            const IoEvent &e = w.ev[at]; if (e.op == IO_CLOSE && e.wr && (f.kind == FK_EIO || f.kind == FK_ENOSPC || f.kind == FK_EDQUOT) && tells_close(e.file) && r.chance(0.5)) f.kind = FK_LOST;
            if (f.kind) p.faults.push_back(f);
        }
        return !p.faults.empty();
    }
};

static inline uint32_t any_fault(Rng &r, const IoEvent &e, double crash) {
    if (r.chance(crash)) { if (e.op == IO_WRITE && e.len > 1 && r.chance(0.4)) return FK_CRASH_TORN; return r.chance(0.5) ? FK_CRASH_BEFORE : FK_CRASH_AFTER; }
    switch (e.op) {
    case IO_WRITE: { static const uint32_t K[] = { FK_EIO, FK_ENOSPC, FK_SHORT_ENOSPC, FK_EDQUOT }; return K[r.below(4)]; }
    case IO_READ: return r.chance(0.8) ? FK_EIO : FK_ESTALE;
    case IO_TRUNC: return r.chance(0.5) ? FK_EIO : FK_ENOSPC;
    case IO_SYNC: return FK_EIO;
    case IO_UNLINK: return r.chance(0.5) ? FK_EIO : FK_EACCES;
    case IO_CLOSE: return FK_EIO;
    case IO_OPEN: { static const uint32_t K[] = { FK_EACCES, FK_EMFILE, FK_EIO, FK_EAGAIN, FK_ESTALE }; return K[r.below(5)]; }
    default: return FK_NONE;
    }
}
Prop *make_file_prop(const std::string &id);
Prop *make_param_prop(const std::string &id);
