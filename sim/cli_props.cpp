// Properties decided by running the whole client: one generated world and command line, an undisturbed
// run as the reference, then runs under schedules, faults, crashes, clocks or failing allocations.
#include "cli_prop.h"

// ------------------------------------------------------------------ S08: schedules
struct S08 : ClientProp {
    S08() : ClientProp("S08") {}
    void gen(Rng &r, uint64_t i, Plan &p) {
        p.kv["otype"] = r.chance(0.85) ? 0 : r.range(1, 3);
        p.kv["itype"] = r.chance(0.92) ? 0 : r.range(1, 2);
        gen_world(r, p, 2, r.range(2, 6), true, p.kv["otype"] == 0 && p.kv["itype"] == 0);
        if (i % 3 == 0) p.kv["ds"] = (i / 3) % 7; else if (i % 3 == 1) p.kv["cal"] = (i / 3) % 24;
    }
    int runs_per_world() { return 1; }
    SimStats prev; std::vector<uint64_t> pcs; int k = 0;
    CliOpts opts(const Plan &p) { CliOpts o = ClientProp::opts(p); o.hooks = true; return o; }
    SimCfg run_cfg(const Plan &p) {
        SimCfg c = p.cfg;
        if (p.use_trace) { c.mode = SCHED_TRACE; g_replay = const_cast<Preempt *>(p.trace.data()); g_nreplay = (uint32_t)p.trace.size(); }
        g_nracepc = 0; for (size_t k = 0; k < p.racepc.size() && k < MAX_RACE; k++) g_racepc[g_nracepc++] = p.racepc[k];
        return c;
    }
    bool pick(Rng &, Plan &) { return true; }
    bool interesting(const Plan &, const CliRun &c) { return c.st.switches > 0; }
    Verdict judge(Plan &, CliRun &c, const std::string &, State &s) {
        Verdict v;
        if (c.status == 97) { v.cls = "deadlock"; v.detail = "the run cannot make progress"; return v; }
        if (c.status != w.ref.status) { v.cls = "status"; v.detail = "exit status " + std::to_string(w.ref.status) + " with one thread, " + std::to_string(c.status) + " here"; return v; }
        std::string d = compare_outputs(w.sref, s); if (d.size()) { v.cls = "result"; v.detail = d; }
        return v;
    }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        Rng r(sim_mix(seed, i * 2654435761u + 808));
        Plan p; p.prop = id; p.index = i; p.cfg = quiet_cfg();
        gen(r, i, p); world(p);
        if (!w.ref.ok()) { tot.n["skipped_reference_failed"]++; return false; }
        tot.n["worlds"]++; if (tot.samples.size() < 3) tot.samples.push_back(w.job.line());
        std::vector<uint64_t> pcs; SimStats prev; memset(&prev, 0, sizeof prev);
        auto go = [&](Plan &q) { q.cfg.clock_mode = 1; tot.n[std::string("mode_") + mode_name(q.cfg.mode)]++; Verdict v = eval(q, NULL); if (v.bad()) { f.plan = q; f.v = v; return true; } return false; };
        for (int k = 0; k < 5; k++) {
            Plan q = p; q.cfg = pick_schedule(r, k ? &prev : NULL); q.cfg.detect = k < 2;
            if (go(q)) return true;
            for (uint32_t z = 0; z < shB->rec.nrace; z++) { RacePair &x = shB->rec.race[z]; tot.races.insert(std::make_pair(x.pc1, x.pc2)); for (uint64_t pc : { x.pc1, x.pc2 }) if (std::find(pcs.begin(), pcs.end(), pc) == pcs.end()) pcs.push_back(pc); }
            prev = shB->rec.st;
            if (!prev.regions) { tot.n["worlds_without_parallel_region"]++; break; }
        }
        if (pcs.size()) {
            tot.n["race_directed_inputs"]++;
            for (int k = 0; k < 16; k++) { Plan q = p; q.racepc = pcs; q.cfg = pick_schedule(r, &prev); q.cfg.mode = SCHED_RACE; static const double P[] = { 0.1, 0.3, 0.5, 0.8 }; q.cfg.p = P[k & 3]; if (go(q)) return true; }
        }
        return false;
    }
    bool fix_schedule(Plan &p) { world(p); State s; simulate(p, s, dir_of("run")); if (shB->rec.ntrace >= MAX_TRACE) return false; p.trace.assign(shB->rec.trace, shB->rec.trace + shB->rec.ntrace); p.use_trace = true; return true; }
};

// ------------------------------------------------------------------ F01, F03: faults on what is written
struct WriteFaults : ClientProp {
    bool text;
    WriteFaults(const std::string &i, bool t) : ClientProp(i), text(t) {}
    void gen(Rng &r, uint64_t, Plan &p) {
        p.kv["otype"] = text ? r.range(2, 4) : r.chance(0.8) ? 0 : 1;
        p.kv["itype"] = text && r.chance(0.2) ? r.range(1, 2) : 0;
        bool diag = text && r.chance(0.15); if (diag) { p.kv["otype"] = p.kv["itype"] = 0; p.kv["diag"] = 1; p.kv["cal"] = 13; }
        gen_world(r, p, 2, r.chance(0.2) ? 14 : r.range(2, 6), false, !text && p.kv["otype"] == 0);
        if (r.chance(0.2)) p.kv["files"] = 2;
        for (size_t k = 1; k < p.items.size(); k++) if (!diag && r.chance(0.7)) p.items[k].x |= 64;
    }
    bool eligible(const IoEvent &e) { return is_out(e.file) && is_nc(e.file) == !text && e.wr && (e.op == IO_WRITE || e.op == IO_TRUNC || e.op == IO_SYNC || e.op == IO_CLOSE || e.op == IO_OPEN || e.op == IO_UNLINK); }
    bool pick(Rng &r, Plan &p) {
        if (w.written > 0 && r.chance(0.25)) { p.kv["space"] = r.below((uint32_t)std::min<uint64_t>(w.written, 1u << 30)); return true; }
        return pick_fault(r, p, [&](const IoEvent &e) { return eligible(e); }, [&](const IoEvent &e) -> uint32_t {
            switch (e.op) {
            case IO_WRITE: { static const uint32_t K[] = { FK_EIO, FK_ENOSPC, FK_EDQUOT, FK_SHORT, FK_SHORT_ENOSPC, FK_EINTR }; return K[r.below(6)]; }
            case IO_TRUNC: { static const uint32_t K[] = { FK_EIO, FK_ENOSPC, FK_EINTR }; return K[r.below(3)]; }
            case IO_SYNC: return FK_EIO;
            case IO_UNLINK: { static const uint32_t K[] = { FK_EIO, FK_EACCES, FK_ENOSPC }; return K[r.below(3)]; }
            case IO_CLOSE: { static const uint32_t K[] = { FK_EIO, FK_ENOSPC, FK_EDQUOT }; return K[r.below(3)]; }
            default: { static const uint32_t K[] = { FK_EACCES, FK_EMFILE, FK_ENOENT, FK_ENOSPC, FK_EIO }; return K[r.below(5)]; }
            } }, 3, 0.4);
    }
    Verdict judge(Plan &, CliRun &c, const std::string &, State &s) { return same_or_failed(c, s); }
};
// ------------------------------------------------------------------ F02, F04: faults on what is read
struct ReadFaults : ClientProp {
    bool text;
    ReadFaults(const std::string &i, bool t) : ClientProp(i), text(t) {}
    void gen(Rng &r, uint64_t, Plan &p) {
        p.kv["otype"] = r.chance(0.8) ? 0 : r.range(1, 4);
        p.kv["itype"] = text ? r.below(3) : 0;
        gen_world(r, p, 2, r.chance(0.2) ? 14 : r.range(2, 6), true, !text && p.kv["otype"] == 0);
        if (text && p.kv["itype"] == 0) { static const int C[] = { 7, 8, 9, 10, 11, 12, 14, 15 }; p.kv["cal"] = C[r.below(8)]; }
        if (!text && r.chance(0.35)) { static const int C[] = { 7, 8, 9, 10, 11, 13, 14, 15, 22 }; p.kv["cal"] = C[r.below(9)]; p.kv["pnc"] = 1; if (r.chance(0.5)) p.kv["big"] = 1; }
        if (text && r.chance(0.2)) p.kv["big"] = 1;
    }
    bool eligible(const IoEvent &e) { return e.file >= 0 && is_nc(e.file) == !text && (e.op == IO_READ || e.op == IO_OPEN); }
    bool pick(Rng &r, Plan &p) {
        return pick_fault(r, p, [&](const IoEvent &e) { return eligible(e); }, [&](const IoEvent &e) -> uint32_t {
            if (e.op == IO_READ) { if (!text) return r.chance(0.8) ? FK_EIO : FK_EINTR; static const uint32_t K[] = { FK_EIO, FK_EIO, FK_SHORT, FK_EINTR }; return K[r.below(4)]; }
            // an output need not exist, so "no such file" is an answer there and not a fault
            static const uint32_t K[] = { FK_EACCES, FK_EMFILE, FK_EIO, FK_EAGAIN, FK_ESTALE, FK_ENOENT }; return K[r.below(is_out(e.file) && !w.job.inplace ? 5 : 6)]; }, 3, 0.4);
    }
    Verdict judge(Plan &, CliRun &c, const std::string &, State &s) { return same_or_failed(c, s); }
};
// ------------------------------------------------------------------ A02
struct A02 : ClientProp {
    A02() : ClientProp("A02") {}
    void gen(Rng &r, uint64_t i, Plan &p) {
        p.kv["otype"] = r.chance(0.7) ? 0 : r.range(1, 4); p.kv["itype"] = r.chance(0.8) ? 0 : r.range(1, 2);
        gen_world(r, p, 2, r.range(2, 4), true, p.kv["otype"] == 0 && p.kv["itype"] == 0);
        if (i % 3 == 0) p.kv["ds"] = (i / 3) % 7; else if (i % 3 == 1) p.kv["cal"] = (i / 3) % 24;
    }
    SimCfg ref_cfg(const Plan &) { SimCfg c = quiet_cfg(); c.alloc_fail_at = 1ll << 60; return c; }
    int runs_per_world() { return 10; }
    bool pick(Rng &r, Plan &p) { uint64_t n = w.ref.st.allocs; if (!n) return false; p.cfg.alloc_fail_at = (int64_t)(r.next() % n); p.cfg.alloc_fail_sticky = r.chance(0.3); return true; }
    bool interesting(const Plan &, const CliRun &c) { return c.st.alloc_failed > 0; }
    Verdict judge(Plan &p, CliRun &c, const std::string &, State &s) { if (c.st.alloc_failed) tot.n[p.cfg.alloc_fail_sticky ? "fault_memory_exhausted_from_here" : "fault_allocation_failed"]++; return same_or_failed(c, s); }
    void shrinks(const Plan &p, std::vector<Plan> &out) { (void)p; (void)out; }
};

// ------------------------------------------------------------------ C01: clocks
static std::string stamp_of(uint64_t t) { time_t q = (time_t)t; struct tm g; gmtime_r(&q, &g); char b[40]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec); return b; }
// position of the first "dddd-dd-dd dd:dd:dd"
static size_t find_stamp(const std::string &s) {
    static const char *F = "dddd-dd-dd dd:dd:dd";
    for (size_t i = 0; i + 19 <= s.size(); i++) { bool ok = true; for (int k = 0; k < 19 && ok; k++) ok = F[k] == 'd' ? s[i + k] >= '0' && s[i + k] <= '9' : s[i + k] == F[k]; if (ok) return i; }
    return std::string::npos;
}
struct C01 : ClientProp {
    C01() : ClientProp("C01") {}
    void gen(Rng &r, uint64_t i, Plan &p) {
        static const int OT[] = { 0, 0, 0, 0, 1, 2, 3, 4, 4 };
        p.kv["otype"] = OT[r.below(9)]; p.kv["itype"] = r.chance(0.9) ? 0 : r.range(1, 2);
        gen_world(r, p, 2, r.range(2, 5), true, p.kv["otype"] == 0 && p.kv["itype"] == 0);
        if (r.chance(0.3)) p.kv["files"] = 2;
        p.kv["debug"] = r.below(5);
        if (i % 3 == 0) p.kv["cal"] = (i / 3) % 24; else if (i % 3 == 1) p.kv["ds"] = (i / 3) % 7; if (getenv("SIM_CAL")) p.kv["cal"] = atoi(getenv("SIM_CAL"));
    }
    static void pick_clock(Rng &r, SimCfg &c) {
        c.clock_mode = r.below(5); c.clock_seed = r.next() >> 1;
        static const uint64_t S[] = { 0, 1, 951782400, 1e9, 2147483646, 2147483650u, 4102444799u, 1e10 };
        c.clock_start = r.chance(0.5) ? S[r.below(8)] : r.next() % 5000000000ull;
    }
    int runs_per_world() { return 6; }
    bool pick(Rng &r, Plan &p) { pick_clock(r, p.cfg); return true; }
    bool interesting(const Plan &, const CliRun &c) { return c.st.clock_reads > 0; }
    bool need_ref_ok() { return true; }
    std::string api_problem;
    // the entry this run added is taken out of the history; anything else found there is reported
    std::string strip(Dump &d, const Dump &old, const SimCfg &c) {
        if (d.count("text")) {      // bulletin header
            std::string &t = d["text"]; size_t k = t.find("ENNC "), e = t.find('\r'); if (t.compare(0, 4, "FBNO") || k == std::string::npos || e == std::string::npos || e < k) return "";
            t.erase(k + 5, e - k - 5); return "";
        }
        auto h = d.find("att (global) history"); if (h == d.end()) return "there is no history";
        auto o = old.find("att (global) history"); std::string s = h->second;
        if (o != old.end()) { std::string tail = "\n" + o->second; if (s.size() < tail.size() || s.compare(s.size() - tail.size(), tail.size(), tail)) return "the older history entries are not kept after the new one"; s.resize(s.size() - tail.size()); }
        size_t k = find_stamp(s); if (k != 0) return "the newest history entry does not start with a time stamp";
        if (c.clock_mode == 1 && s.substr(0, 19) != stamp_of(c.clock_start)) return "the history entry is dated " + s.substr(0, 19) + " and the clock showed " + stamp_of(c.clock_start) + " throughout";
        h->second = s.substr(19);
        return "";
    }
    Verdict judge(Plan &p, CliRun &c, const std::string &, State &s) {
        Verdict v;
        tot.n["clock_mode_" + std::to_string(p.cfg.clock_mode)]++;
        if (c.status != w.ref.status) { v.cls = "status"; v.detail = "exit status " + std::to_string(w.ref.status) + " with a steady clock, " + std::to_string(c.status) + " with this one"; return v; }
        State a = w.sref; SimCfg rc = ref_cfg(p);
        for (size_t k = 0; k < w.job.outputs.size(); k++) {
            std::string e = strip(a.d[k], w.s0.d[k], rc); if (e.empty()) e = strip(s.d[k], w.s0.d[k], p.cfg);
            if (e.size()) { v.cls = "history"; v.detail = w.job.outputs[k] + ": " + e; return v; }
        }
        std::string d = compare_outputs(a, s); if (d.size()) { v.cls = "result"; v.detail = "another clock gives another output: " + d; return v; }
        std::string ro = changed_readonly(s); if (ro.size()) { v.cls = "input changed"; v.detail = ro; }
        return v;
    }
    // ---- the same for API calls
    std::string akey; Outcome aref;
    Verdict api_eval(Plan &p, uint64_t *h) {
        if (akey != p.input_key()) { akey = p.input_key(); SimCfg c = quiet_cfg(); c.clock_start = 1600000000; tot.n["reference_runs"]++; aref = run_child(c, shA, [&](Buf &b) { run_api_item(p.items[0], b); }); }
        Outcome o = run_child(p.cfg, shB, [&](Buf &b) { run_api_item(p.items[0], b); });
        tot.n["simulated_runs"]++; tot.n["api_runs"]++; tot.add(o.st);
        if (o.st.clock_reads) tot.distinct.insert(sim_mix(std::hash<std::string>()(p.input_key()), p.cfg.clock_mode * 7919 + p.cfg.clock_seed));
        if (h) *h = sim_mix(o.hash(), o.st.clock_reads);
        Verdict v; if (aref.status == 96 || o.status == 96 || o.status == 1000 + 27 || o.status == 1000 + 14) { tot.n["inconclusive"]++; return v; }
        if (aref.status != o.status || aref.out != o.out) { v.cls = "api result"; describe_outcome_diff(aref, o, v.detail); v.detail += " with another clock"; }
        return v;
    }
    Verdict eval(Plan &p, uint64_t *h) { return p.items[0].name == "world" ? ClientProp::eval(p, h) : api_eval(p, h); }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        if (i % 4) return ClientProp::explore(seed, i / 4 * 3 + i % 4 - 1, f);
        Rng r(sim_mix(seed, i * 2654435761u + 4242));
        const Case &c = cases()[(i / 4) % cases().size()];
        if (c.flags & CF_RANDOM) return false;
        for (int k = 0; k < 6; k++) {
            Plan p; p.prop = id; p.index = i; p.cfg = quiet_cfg(); Item it = { c.name, r.next() >> 1, r.chance(0.3) ? 13 : r.range(3, 8), 0 };
            p.items.push_back(it);
            for (int n = 0; n < 3; n++) {
                pick_clock(r, p.cfg);
                Verdict v = eval(p, NULL); if (v.bad()) { f.plan = p; f.v = v; return true; }
                if (!aref.st.clock_reads) break;
            }
        }
        return false;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) { if (p.items[0].name == "world") ClientProp::shrinks(p, out); if (p.cfg.clock_mode != 1) { Plan q = p; q.cfg.clock_mode = 1; out.push_back(q); } }
};
// ------------------------------------------------------------------ F06, F07: crashes and failures
struct Damage : ClientProp {
    Damage() : ClientProp("F06") {}
    void gen(Rng &r, uint64_t i, Plan &p) {
        p.kv["otype"] = r.chance(0.75) ? r.below(2) : r.range(2, 4); p.kv["itype"] = r.chance(0.9) ? 0 : r.range(1, 2);
        gen_world(r, p, 2, r.chance(0.15) ? 14 : r.range(2, 6), true, p.kv["otype"] == 0 && p.kv["itype"] == 0);
        if (r.chance(0.5)) p.kv["files"] = r.range(2, 3);
        if (i % 3 == 0) p.kv["cal"] = (i / 3) % 24; else if (i % 3 == 1) p.kv["ds"] = (i / 3) % 7; if (getenv("SIM_CAL")) p.kv["cal"] = atoi(getenv("SIM_CAL"));
    }
    bool need_ref_ok() { return false; }
    int runs_per_world() { return 16; }
    bool pick(Rng &r, Plan &p) {
        if (r.chance(0.06)) return true;        // no fault: a run that succeeds does not damage anything either
        if (w.written > 0 && r.chance(0.1)) { p.kv["space"] = r.below((uint32_t)std::min<uint64_t>(w.written, 1u << 30)); return true; }
        return pick_fault(r, p, [&](const IoEvent &e) { return e.op != IO_SEEK; }, [&](const IoEvent &e) { return any_fault(r, e, 0.6); }, 2, 0.3);
    }
    bool touched(const std::string &k) {
        static const char *OWN[] = { "att (global) history", "att (global) Conventions", "var time", "data time", "var forecast_reference_time", "data forecast_reference_time", "var altitude", "data altitude" };
        for (auto *o : OWN) if (k == o) return true;
        for (const char *o : { "time", "forecast_reference_time", "altitude" }) { std::string q = std::string("att ") + o + " "; if (k.compare(0, q.size(), q) == 0) return true; }
        for (auto &t : w.job.targets) { if (k == "var " + t || k == "data " + t) return true; std::string q = "att " + t + " "; if (k.compare(0, q.size(), q) == 0) return true; }
        return false;
    }
    Verdict judge(Plan &p, CliRun &c, const std::string &, State &s) {
        Verdict v; std::string ro = changed_readonly(s);
        if (ro.size()) { v.cls = "input changed"; v.detail = ro + " is only read, but was changed"; return v; }
        size_t n = w.job.outputs.size();
        if (c.ok()) {       // what the run was not asked to write is as before
            for (size_t k = 0; k < n; k++) {
                if (!w.s0.ok[k] || w.s0.d[k].count("text")) continue;
                if (!s.ok[k]) { v.cls = "unreadable after success"; v.detail = w.job.outputs[k]; return v; }
                for (auto &e : w.s0.d[k]) {
                    if (touched(e.first)) continue;
                    auto q = s.d[k].find(e.first);
                    if (q == s.d[k].end()) { v.cls = "damaged"; v.detail = w.job.outputs[k] + ": '" + e.first + "' is gone"; return v; }
                    if (q->second != e.second) { Dump a, b; a[e.first] = e.second; b[e.first] = q->second; v.cls = "damaged"; v.detail = w.job.outputs[k] + ": " + dump_diff(a, b, nullptr); return v; }
                }
            }
            tot.n["successful_runs_compared"]++;
            return v;
        }
        // each output is as before, or complete, except the one that was being written
        std::vector<int> st(n); int flux = 0;
        for (size_t k = 0; k < n; k++) {
            bool old = s.ok[k] == w.s0.ok[k] && s.d[k] == w.s0.d[k], done = s.ok[k] == w.sref.ok[k] && s.d[k] == w.sref.d[k];
            st[k] = old ? 0 : done ? 2 : 1; if (st[k] == 1) flux++;
        }
        if (n > 1) for (size_t k = 0; k < n; k++) tot.n[st[k] == 0 ? "batch_output_as_before" : st[k] == 1 ? "batch_output_being_written" : "batch_output_complete"]++;
        tot.n[flux ? "stopped_while_writing" : "stopped_before_or_after_writing"]++;
        if (w.ref.ok()) {
            if (flux > 1) { v.cls = "several outputs half written"; v.detail = std::to_string(flux) + " of " + std::to_string(n) + " outputs hold neither their old nor their new contents"; return v; }
            if (!w.job.inplace && n > 1) for (size_t k = 1; k < n; k++) if (st[k] > 0 && st[k - 1] < 2) { v.cls = "order"; v.detail = w.job.outputs[k] + " was written before " + w.job.outputs[k - 1] + " was complete"; return v; }
        }
        else if (flux > 1) { v.cls = "several outputs half written"; v.detail = std::to_string(flux) + " of " + std::to_string(n) + " outputs hold neither their old contents nor those the undisturbed run leaves before it fails"; return v; }
        // stopped at the reading of an input or parameter file: the output that needs it is untouched
        if (w.ref.ok() && !w.job.inplace) for (auto &f : p.faults) {
            if (f.at >= w.ev.size() || p.faults.size() != 1) continue;
            int fi = w.ev[f.at].file; if (fi < 0 || fi >= (int)w.names.size() || !w.job.readonly(w.names[fi])) continue;
            if (w.ev[f.at].op == IO_CLOSE) continue;
            size_t from = 0; for (size_t k = 0; k < w.job.inputs.size(); k++) if (w.job.inputs[k] == w.names[fi]) from = k;
            for (size_t k = from; k < n; k++) if (st[k]) { v.cls = "written before the input was read"; v.detail = w.job.outputs[k] + " was changed although the run was stopped while it was reading " + w.names[fi]; return v; }
            tot.n["stopped_while_reading"]++;
        }
        return v;
    }
};
struct Again : ClientProp {
    Again() : ClientProp("F07") {}
    void gen(Rng &r, uint64_t i, Plan &p) {
        p.kv["otype"] = r.chance(0.75) ? r.below(2) : r.range(2, 4); p.kv["itype"] = r.chance(0.9) ? 0 : r.range(1, 2);
        p.kv["nobypass"] = 1;        // without downscaling a run starts from what its output holds
        gen_world(r, p, 2, r.chance(0.15) ? 14 : r.range(2, 6), false, false);
        if (r.chance(0.5)) p.kv["files"] = r.range(2, 3);
        if (i % 3 == 0) p.kv["cal"] = (i / 3) % 16; else if (i % 3 == 1) p.kv["ds"] = (i / 3) % 7;
    }
    bool pick(Rng &r, Plan &p) {
        if (r.chance(0.04)) return true;
        if (w.written > 0 && r.chance(0.1)) { p.kv["space"] = r.below((uint32_t)std::min<uint64_t>(w.written, 1u << 30)); return true; }
        return pick_fault(r, p, [&](const IoEvent &e) { return e.op != IO_SEEK; }, [&](const IoEvent &e) { return any_fault(r, e, 0.65); }, 2, 0.3);
    }
    Verdict judge(Plan &p, CliRun &c, const std::string &dir, State &s) {
        Verdict v;
        if (c.ok() && (c.fired || c.space_fired)) tot.n["first_run_succeeded_despite_fault"]++;
        CliRun a = run_client(dir, w.job, quiet_cfg(), CliOpts());
        tot.n["repeats"]++; if (a.visible()) { tot.n["repeats_failing_visibly"]++; return v; }
        State t = observe(dir, w.job);
        (void)p;
        auto hist = [](const std::string &k) { return k == "att (global) history"; };
        for (size_t k = 0; k < w.job.outputs.size(); k++) {
            // a netCDF file that was stopped while being changed may be damaged beyond repair, and the repeat
            // takes the locations of a text output from what the file holds
            bool flux = w.job.otype < 3 && !(s.ok[k] && (s.d[k] == w.s0.d[k] || dump_diff(s.d[k], w.sref.d[k], hist).empty()));
            if (flux) { tot.n["output_was_half_written"]++; continue; }
            if (!t.ok[k]) { v.cls = "repeat differs"; v.detail = w.job.outputs[k] + " cannot be read after the repeat"; return v; }
            std::string d = dump_diff(w.sref.d[k], t.d[k], hist);
            if (d.size()) { v.cls = "repeat differs"; v.detail = "first run ended with status " + std::to_string(c.status) + ", its repeat reported success, but " + w.job.outputs[k] + ": " + d; return v; }
        }
        std::string ro = changed_readonly(t); if (ro.size()) { v.cls = "input changed"; v.detail = ro; }
        tot.n["repeats_equal"]++;
        return v;
    }
};

// ------------------------------------------------------------------ F08: every run ends
struct Ends : ClientProp {
    Ends() : ClientProp("F08") {}
    void gen(Rng &r, uint64_t i, Plan &p) {
        p.kv["otype"] = r.chance(0.5) ? r.below(2) : r.range(2, 4); p.kv["itype"] = r.chance(0.6) ? 0 : r.range(1, 2);
        gen_world(r, p, 2, r.chance(0.15) ? 14 : r.range(2, 5), true, p.kv["otype"] == 0 && p.kv["itype"] == 0);
        if (r.chance(0.2)) p.kv["files"] = 2;
        if (i % 3 == 0) p.kv["ds"] = (i / 3) % 7; else if (i % 3 == 1) { p.kv["cal"] = (i / 3) % 24; if (p.kv["cal"] == 13 && p.kv["otype"] == 0 && p.kv["itype"] == 0 && r.chance(0.5)) p.kv["diag"] = 1; }
        else if (r.chance(0.6)) { static const int C[] = { 7, 8, 9, 10, 11, 12, 14, 15 }; p.kv["cal"] = C[r.below(8)]; }
    }
    SimCfg ref_cfg(const Plan &) { SimCfg c = quiet_cfg(); c.alloc_fail_at = 1ll << 60; c.memcheck = 2; return c; }
    void ref_opts(CliOpts &o) { o.hooks = true; }
    CliOpts opts(const Plan &p) {
        CliOpts o = ClientProp::opts(p); o.hooks = true; o.max_ops = w.ref.nio * 20 + 5000; o.max_grown = w.written * 20 + (4 << 20);
        if (p.kv.count("cut")) { o.cut = w.job.files[p.get("cut")].name; o.cutlen = p.get("cutlen"); }
        return o;
    }
    SimCfg run_cfg(const Plan &p) { SimCfg c = p.cfg; c.memcheck = 2; c.step_limit = (w.ref.st.steps * 20 + 4000000) / 8; return c; }
    CliRun launch(const Plan &, const std::string &dir, const SimCfg &cfg, const CliOpts &o) {
        if (o.cut.size() && truncate((dir + "/" + o.cut).c_str(), o.cutlen)) _exit(2);
        return run_client(dir, w.job, cfg, o);
    }
    int runs_per_world() { return 16; }
    bool pick(Rng &r, Plan &p) {
        if (r.chance(0.15)) { p.cfg = pick_schedule(r, &w.ref.st); p.cfg.clock_mode = 1; }
        int k = r.below(20);
        if (k < 3 && w.ref.st.allocs) { p.cfg.alloc_fail_at = (int64_t)(r.next() % w.ref.st.allocs); p.cfg.alloc_fail_sticky = r.chance(0.5); if (r.chance(0.7)) return true; }
        else if (k < 5 && w.written > 0) { p.kv["space"] = r.below((uint32_t)std::min<uint64_t>(w.written, 1u << 30)); return true; }
        else if (k < 9) {
            std::vector<int> c; for (size_t q = 0; q < w.job.files.size(); q++) if (w.s0.raw.at(w.job.files[q].name).size() > 1) c.push_back((int)q);
            if (c.size()) { int q = c[r.below(c.size())]; p.kv["cut"] = q; p.kv["cutlen"] = r.below((uint32_t)w.s0.raw.at(w.job.files[q].name).size()); if (r.chance(0.7)) return true; }
        }
        return pick_fault(r, p, [&](const IoEvent &e) { return e.op != IO_SEEK; }, [&](const IoEvent &e) -> uint32_t {
            if (!is_nc(e.file) && (e.op == IO_READ || e.op == IO_WRITE) && r.chance(0.3)) return r.chance(0.5) ? FK_SHORT : FK_EINTR;
            return any_fault(r, e, 0); }, 3, 0.6);
    }
    bool interesting(const Plan &p, const CliRun &c) { return c.fired || c.space_fired || c.st.alloc_failed || p.kv.count("cut"); }
    bool no_answer(const CliRun &c) { return c.status == 1000 + 14; }
    Verdict judge(Plan &p, CliRun &c, const std::string &, State &) {
        Verdict v;
        if (p.kv.count("cut")) tot.n["fault_input_cut_short"]++;
        if (c.st.alloc_failed) tot.n[p.cfg.alloc_fail_sticky ? "fault_memory_exhausted_from_here" : "fault_allocation_failed"]++;
        uint64_t rel = w.ref.nio ? (uint64_t)c.nio * 100 / w.ref.nio : 0; if (rel > tot.n["max_io_ops_percent_of_undisturbed"]) tot.n["max_io_ops_percent_of_undisturbed"] = rel;
        rel = w.ref.st.steps ? c.st.steps * 100 / w.ref.st.steps : 0; if (rel > tot.n["max_steps_percent_of_undisturbed"]) tot.n["max_steps_percent_of_undisturbed"] = rel;
        if (c.status == 96 || c.status == 97 || c.status == 1000 + 27) {
            v.cls = "does not end"; v.detail = c.status == 97 ? "no thread can make progress" : c.status == 1000 + 27 ? "still running after 20 s of processor time" : "still running after " + std::to_string(c.nio) + " file operations (undisturbed: " + std::to_string(w.ref.nio) + ")";
            if (p.kv.count("cut")) v.detail += "; " + w.job.files[p.get("cut")].name + " cut to " + std::to_string(p.get("cutlen")) + " bytes";
            if (p.cfg.alloc_fail_at >= 0) v.detail += "; allocation " + std::to_string(p.cfg.alloc_fail_at) + " failed";
        }
        return v;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        if (p.kv.count("cut") && p.faults.size()) { Plan q = p; q.kv.erase("cut"); q.kv.erase("cutlen"); out.push_back(q); }
        if (p.kv.count("cut") || p.cfg.alloc_fail_at >= 0) if (p.faults.size()) { Plan q = p; q.faults.clear(); out.push_back(q); }
        if (p.cfg.mode) { Plan q = p; SimCfg c = quiet_cfg(); c.alloc_fail_at = p.cfg.alloc_fail_at; c.alloc_fail_sticky = p.cfg.alloc_fail_sticky; q.cfg = c; out.push_back(q); }
        if (p.cfg.alloc_fail_at < 0 && !p.kv.count("cut")) ClientProp::shrinks(p, out);
    }
};

// ------------------------------------------------------------------ H02: files and variables of one run
struct H02 : ClientProp {
    H02() : ClientProp("H02") {}
    static const char **modes() { static const char *M[] = { "onlyfile", "onlyvar", "revf", "revv", "copyout" }; return M; }
    static Plan base(const Plan &p) { Plan q = p; for (int k = 0; k < 5; k++) q.kv.erase(modes()[k]); return q; }
    void gen(Rng &r, uint64_t i, Plan &p) {
        bool aux = r.chance(0.2);
        p.kv["otype"] = r.chance(0.85) ? r.below(2) : r.range(2, 4); p.kv["itype"] = r.chance(0.9) ? 0 : r.range(1, 2);
        if (p.kv["otype"] == 0 && p.kv["itype"] == 0 && r.chance(0.3)) { p.kv["inplace"] = 1; p.kv["copies"] = 1; }
        gen_world(r, p, r.chance(0.5) ? 4 : 2, r.range(2, 6), aux, false);
        p.kv["files"] = r.range(1, 3); if (p.get("files") > 1 && p.kv["itype"] == 0) p.kv["vary"] = r.chance(0.7); if (p.get("files") > 1 && p.get("itype", 0) == 0) p.kv["akin"] = r.chance(0.5);
        if (p.get("inplace")) for (size_t k = 1; k < p.items.size(); k++) p.items[k].x |= 32;
        if (i % 3 == 0) p.kv["cal"] = (i / 3) % 24; else if (i % 3 == 1) p.kv["ds"] = (i / 3) % 7; if (getenv("SIM_CAL")) p.kv["cal"] = atoi(getenv("SIM_CAL"));
        if (p.items.size() == 2 && p.get("files") == 1 && !p.get("inplace")) p.kv["files"] = 2;
    }
    int runs_per_world() { return w.ref.ok() ? 8 : 1; }
    bool need_ref_ok() { return false; }
    static bool has_aux(const Plan &p) { for (auto &it : p.items) if (it.x & 16) return true; return false; }
    // the whole job fails: does each part of it, alone, succeed?
    Verdict parts(const Plan &p, uint64_t *h) {
        Verdict v; int nf = (int)p.get("files", 1), nv = (int)p.items.size() - 1; uint64_t hh = 1;
        if (no_answer(w.ref)) { tot.n["inconclusive"]++; return v; }
        bool vars = nv > 1 && !has_aux(p) && p.get("otype") < 2;
        for (int f = 1; f <= nf; f++) for (int k = 1; k <= (vars ? nv : 1); k++) {
            Plan q = p; if (nf > 1) q.kv["onlyfile"] = f; if (vars) q.kv["onlyvar"] = k;
            Job j = make_job(q); std::string dir = dir_of("run"); copy_dir(dir_of("world"), dir);
            CliRun c = run_client(dir, j, p.cfg, CliOpts());
            account(q, c); tot.n["variant_parts_of_a_failing_job"]++; hh = sim_mix(hh, last_hash);
            if (!c.ok()) { if (h) *h = hh; return v; }
        }
        v.cls = "status"; v.detail = "status " + std::to_string(w.ref.status) + " although each " + (vars ? "file and variable" : "file") + " alone succeeds [" + w.job.line() + "]";
        if (h) *h = sim_mix(hh, 1);
        return v;
    }
    bool pick(Rng &r, Plan &p) {
        int nf = (int)p.get("files", 1), nv = (int)p.items.size() - 1; bool aux = has_aux(p);
        if (!w.ref.ok()) { tot.n["worlds_whose_job_fails"]++; p.kv["parts"] = 1; return nf > 1 || (nv > 1 && !aux && p.get("otype") < 2); }
        std::vector<int> m;
        if (nf > 1) { m.push_back(0); m.push_back(2); }
        if (nv > 1 && !aux && p.get("otype") < 2) { m.push_back(1); m.push_back(3); }
        if (p.get("copies") && !aux) for (int q = 0; q < 3; q++) m.push_back(4);
        if (m.empty()) return false;
        int k = m[r.below(m.size())]; p.kv[modes()[k]] = k == 0 ? r.range(1, nf) : k == 1 ? r.range(1, nv) : 1;
        if (k < 4 && m.size() > 1 && r.chance(0.3)) { int q = m[r.below(m.size())]; if (q < 2 && q != k) p.kv[modes()[q]] = q == 0 ? r.range(1, nf) : r.range(1, nv); }
        p.cfg.heap_pattern = r.below(4); p.cfg.heap_seed = r.next() >> 1;
        return true;
    }
    bool interesting(const Plan &, const CliRun &) { return true; }
    Verdict judge(Plan &, CliRun &, const std::string &, State &) { return Verdict(); }
    Verdict eval(Plan &p, uint64_t *h) {
        Plan b = base(p); b.cfg = quiet_cfg(); world(b);
        if (p.get("parts")) { if (!w.ref.ok()) return parts(p, h); if (h) *h = 1; return Verdict(); }
        if (!w.ref.ok()) { if (h) *h = 1; return Verdict(); }
        Job j = make_job(p); std::string dir = dir_of("run");
        copy_dir(dir_of("world"), dir);
        CliRun c = run_client(dir, j, p.cfg, CliOpts());
        account(p, c); std::string vk; for (int k = 0; k < 5; k++) if (p.get(modes()[k])) { tot.n[std::string("variant_") + modes()[k]]++; vk += std::string(modes()[k]) + std::to_string(p.get(modes()[k])); }
        tot.distinct.insert(sim_mix(std::hash<std::string>()(w.key + vk), p.cfg.heap_pattern));
        State s = observe(dir, j); Verdict v;
        if (no_answer(c)) { tot.n["inconclusive"]++; return v; }
        std::string full = w.job.line();
        if (!c.ok()) { v.cls = "status"; v.detail = "status " + std::to_string(c.status) + " where the whole job succeeds"; }
        int of = (int)p.get("onlyfile") - 1, ov = (int)p.get("onlyvar") - 1;
        for (size_t k = 0; !v.bad() && k < j.outputs.size(); k++) {
            if (of >= 0 && (int)k != of) { if (!(s.d[k] == w.s0.d[k])) { v.cls = "touched"; v.detail = j.outputs[k] + " is not part of this run"; } continue; }
            std::string t = ov >= 0 ? w.job.targets[ov] : "";
            auto skip = [&](const std::string &q) {
                if (q == "att (global) history") return true;
                if (ov < 0) return false;
                for (size_t z = 0; z < w.job.targets.size(); z++) { if ((int)z == ov) continue; const std::string &u = w.job.targets[z]; if (q == "var " + u || q == "data " + u || q.compare(0, u.size() + 5, "att " + u + " ") == 0) return true; }
                return false;
            };
            if (s.ok[k] != w.sref.ok[k]) { v.cls = "result"; v.detail = j.outputs[k] + " cannot be read"; break; }
            std::string d = dump_diff(w.sref.d[k], s.d[k], skip);
            if (d.size()) { v.cls = "result"; v.detail = j.outputs[k] + ": " + d; }
        }
        if (v.bad()) v.detail += " [" + j.line() + "] compared with [" + full + "]";
        if (h) *h = sim_mix(last_hash, std::hash<std::string>()(v.cls + v.detail));
        return v;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        ClientProp::shrinks(p, out);
        std::vector<Plan> o2; for (auto &q : out) { int nv = (int)q.items.size() - 1; if (q.get("onlyvar") > nv || q.get("onlyfile") > q.get("files", 1)) continue; o2.push_back(q); }
        if (p.get("vary")) { Plan q = p; q.kv["vary"] = 0; o2.push_back(q); }
        if (p.get("akin")) { Plan q = p; q.kv["akin"] = 0; o2.push_back(q); }
        if (p.cfg.heap_pattern) { Plan q = p; q.cfg.heap_pattern = 0; o2.push_back(q); }
        out = o2;
    }
};

Prop *make_client_prop(const std::string &id) {
    if (id == "S08") return new S08;
    if (id == "F01") return new WriteFaults(id, false);
    if (id == "F03") return new WriteFaults(id, true);
    if (id == "F02") return new ReadFaults(id, false);
    if (id == "F04") return new ReadFaults(id, true);
    if (id == "A02") return new A02;
    if (id == "H02") return new H02;
    if (id == "C01") return new C01;
    if (id == "F06") return new Damage;
    if (id == "F07") return new Again;
    if (id == "F08") return new Ends;
    if (Prop *q = make_file_prop(id)) return q;
    return make_param_prop(id);
}
