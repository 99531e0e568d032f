// Properties decided over the gridpp API.
#include "harness.h"
#include <algorithm>
#include <signal.h>

static const Case *find_case(const std::string &n) { for (size_t i = 0; i < cases().size(); i++) if (n == cases()[i].name) return &cases()[i]; return NULL; }
static void run_item(const Item &it, Buf &out, int mode, int repeat = 1) {
    const Case *c = find_case(it.name);
    if (!c) { out.tag('?'); return; }
    Ctx x(it.seed, it.cap, mode, it.x); x.repeat = repeat;
    c->fn(x);
    out.raw(x.out.b.data(), x.out.b.size());
}
void run_api_item(const Item &it, Buf &out) { run_item(it, out, RM_PLAIN); }
static int pick_cap(Rng &r, int flags) {
    if (flags & CF_HEAVY) { static const int C[] = { 3, 5, 7, 9 }; return C[r.below(4)]; }
    int u = r.below(1000);
    return u < 350 ? 4 : u < 650 ? 8 : u < 900 ? 13 : u < 980 ? 22 : u < 990 ? 60 : u < 999 ? 100 : 200;
}
// -------------------------------------------------------------------------- reference cache
struct RefCache {
    std::string key; Outcome o; bool have = false;
    template <class F> const Outcome &get(const std::string &k, F f) { if (!have || k != key) { o = f(); key = k; have = true; } return o; }
};
static bool inconclusive(const Outcome &o) { return o.status == 96 || o.status == 1000 + SIGPROF || o.status == 1000 + SIGALRM; }

// -------------------------------------------------------------------------- S01-S06
struct SProp : Prop {
    std::string id, fam; RefCache ref; std::vector<const Case *> cs;
    SProp(const std::string &i, const std::string &f) : id(i), fam(f) { for (size_t k = 0; k < cases().size(); k++) if (fam == cases()[k].fam) cs.push_back(&cases()[k]); }
    const Outcome &reference(const Plan &p) {
        return ref.get(p.input_key(), [&] {
            SimCfg c; sim_cfg_default(&c);
            tot.n["reference_runs"]++;
            Outcome o = run_child(c, shA, [&](Buf &b) { for (size_t k = 0; k < p.items.size(); k++) run_item(p.items[k], b, RM_PLAIN); });
            return o;
        });
    }
    Outcome simulate(const Plan &p) {
        SimCfg c = p.cfg;
        if (p.use_trace) { c.mode = SCHED_TRACE; g_replay = const_cast<Preempt *>(p.trace.data()); g_nreplay = (uint32_t)p.trace.size(); }
        g_nracepc = 0; for (size_t k = 0; k < p.racepc.size() && k < MAX_RACE; k++) g_racepc[g_nracepc++] = p.racepc[k];
        Outcome o = run_child(c, shB, [&](Buf &b) { for (size_t k = 0; k < p.items.size(); k++) run_item(p.items[k], b, RM_PLAIN); });
        tot.n["simulated_runs"]++; tot.n[std::string("mode_") + mode_name(c.mode)]++;
        tot.add(o.st);
        if (o.st.switches) { tot.n["runs_with_switches"]++; tot.distinct.insert(sim_mix(o.st.sched_hash, std::hash<std::string>()(p.input_key()))); }
        return o;
    }
    Verdict judge(const Plan &p, const Outcome &a, const Outcome &b) {
        Verdict v;
        if (inconclusive(a)) { tot.n["inconclusive"]++; return v; }
        if (b.status == 96) { tot.n["inconclusive"]++; return v; }
        if (a.status == b.status && a.out == b.out) { if (a.status) { tot.n["crash_like_reference"]++; tot.per_case[p.items[0].name + "!crash"]++; } return v; }
        describe_outcome_diff(a, b, v.detail);
        v.cls = b.status == 97 ? "deadlock" : inconclusive(b) ? "no progress" : a.status != b.status ? "crash" : "result";
        return v;
    }
    Verdict eval(Plan &p, uint64_t *h) {
        const Outcome &a = reference(p);
        Outcome b = simulate(p);
        if (h) *h = sim_mix(b.st.sched_hash, b.hash());
        return judge(p, a, b);
    }
    bool fix_schedule(Plan &p) {
        Outcome b = simulate(p);
        if (shB->rec.ntrace >= MAX_TRACE) return false;
        p.trace.assign(shB->rec.trace, shB->rec.trace + shB->rec.ntrace); p.use_trace = true;
        return true;
    }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        const Case *c = cs[i % cs.size()];
        Rng r(sim_mix(seed, i * 2654435761u + 17));
        Plan p; p.prop = id; p.index = i;
        Item it = { c->name, r.next() >> 1, pick_cap(r, c->flags), 0 };
        p.items.push_back(it);
        const Outcome &a = reference(p);
        tot.per_case[c->name]++;
        if (inconclusive(a)) { tot.n["skipped_reference_slow"]++; return false; }
        SimStats prev; memset(&prev, 0, sizeof prev); bool hp = false;
        std::vector<uint64_t> pcs;
        bool costly = a.st.steps > 3000000;
        if (a.st.steps > 30000000) { tot.n["skipped_reference_slow"]++; return false; }
        int K = costly ? 3 : 5;
        for (int k = 0; k < K; k++) {
            p.cfg = pick_schedule(r, hp ? &prev : NULL);
            p.cfg.detect = k < 2;
            Outcome b = simulate(p);
            for (uint32_t q = 0; q < shB->rec.nrace; q++) {
                RacePair &x = shB->rec.race[q];
                tot.races.insert(std::make_pair(x.pc1, x.pc2));
                if (std::find(pcs.begin(), pcs.end(), x.pc1) == pcs.end()) pcs.push_back(x.pc1);
                if (std::find(pcs.begin(), pcs.end(), x.pc2) == pcs.end()) pcs.push_back(x.pc2);
            }
            Verdict v = judge(p, a, b);
            if (v.bad()) { f.plan = p; f.v = v; return true; }
            prev = b.st; hp = true;
            if (b.st.max_team < 2) { tot.n["no_parallel_region"]++; break; }   // nothing to schedule
        }
        if (tot.samples.size() < 3) tot.samples.push_back(p.text());
        if (!pcs.empty()) {
            tot.n["race_directed_inputs"]++;
            p.racepc = pcs;
            for (int k = 0, n = costly ? 3 : i / cs.size() % 3 ? 8 : 24; k < n; k++) {
                p.cfg = pick_schedule(r, &prev);
                p.cfg.mode = SCHED_RACE; static const double P[] = { 0.1, 0.3, 0.5, 0.8 }; p.cfg.p = P[k & 3];
                if (k < 12) p.cfg.threads = 2 + k % 3;
                Verdict v = eval(p, NULL);
                if (v.bad()) { f.plan = p; f.v = v; return true; }
            }
        }
        return false;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        if (p.use_trace) {
            if (p.cfg.threads > 2) { Plan q = p; q.cfg.threads = 2; out.push_back(q); }
            if (p.cfg.chunk_mode) { Plan q = p; q.cfg.chunk_mode = 0; out.push_back(q); }
            if (p.cfg.shrink_team) { Plan q = p; q.cfg.shrink_team = 0; out.push_back(q); }
            return;
        }
        static const int C[] = { 2, 3, 4, 6, 8 };
        for (size_t k = 0; k < p.items.size(); k++) for (int j = 0; j < 5; j++) if (C[j] < p.items[k].cap) { Plan q = p; q.items[k].cap = C[j]; out.push_back(q); }
        for (int t = 2; t < 5; t++) if (t < p.cfg.threads) { Plan q = p; q.cfg.threads = t; out.push_back(q); }
        if (p.cfg.nested) { Plan q = p; q.cfg.nested = 0; out.push_back(q); }
    }
};


// -------------------------------------------------------------------------- S09
struct RandProp : Prop {
    std::vector<const Case *> rc, other;
    RandProp() { for (size_t k = 0; k < cases().size(); k++) { if (cases()[k].flags & CF_RANDOM) rc.push_back(&cases()[k]); else other.push_back(&cases()[k]); } }
    Outcome simulate(const Plan &p) {
        SimCfg c = p.cfg;
        if (p.use_trace) { c.mode = SCHED_TRACE; g_replay = const_cast<Preempt *>(p.trace.data()); g_nreplay = (uint32_t)p.trace.size(); }
        Outcome o = run_child(c, shB, [&](Buf &b) { for (size_t k = 0; k < p.items.size(); k++) run_item(p.items[k], b, RM_PLAIN); });
        tot.n["simulated_runs"]++; tot.n[std::string("mode_") + mode_name(c.mode)]++; tot.n["rand_mode_" + std::to_string(c.rand_mode)]++;
        tot.add(o.st);
        if (o.st.rand_draws) { tot.n["runs_drawing_random_numbers"]++; tot.distinct.insert(sim_mix(o.st.sched_hash + o.st.rand_draws, std::hash<std::string>()(p.input_key() + std::to_string(c.rand_mode) + std::to_string(c.rand_seed)))); }
        return o;
    }
    Verdict eval(Plan &p, uint64_t *h) {
        Outcome o = simulate(p);
        if (h) *h = sim_mix(o.st.sched_hash, o.hash() + o.st.rand_draws);
        Verdict v;
        const Case *c = find_case(p.items[0].name);
        if (c->flags & CF_RANDOM) {
            if (o.status == 97) v.cls = "deadlock";
            else if (o.status == 1006 || o.status == 1011 || o.status == 1008) { v.cls = "crash"; v.detail = "random-choice call crashed"; }
            else if (o.fl.bad_choice) { v.cls = "choice"; v.detail = o.fl.note; }
        }
        else if (o.st.rand_draws) { v.cls = "draws"; v.detail = "a non-random call consumed random numbers"; }
        return v;
    }
    bool fix_schedule(Plan &p) { simulate(p); if (shB->rec.ntrace >= MAX_TRACE) return false; p.trace.assign(shB->rec.trace, shB->rec.trace + shB->rec.ntrace); p.use_trace = true; return true; }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        Rng r(sim_mix(seed, i * 2654435761u + 909));
        bool ctl = r.chance(0.12);
        const Case *c = ctl ? other[r.below((uint32_t)other.size())] : rc[i % rc.size()];
        Plan p; p.prop = "S09"; p.index = i;
        Item it = { c->name, r.next() >> 1, pick_cap(r, c->flags), 0 }; p.items.push_back(it);
        tot.per_case[c->name]++;
        for (int k = 0; k < (ctl ? 1 : 5); k++) {
            p.cfg = pick_schedule(r, NULL);
            if (k == 0 && r.chance(0.5)) { p.cfg.threads = 1; p.cfg.mode = SCHED_NONE; }
            p.cfg.rand_mode = k == 0 ? 0 : r.below(6); p.cfg.rand_seed = r.next() >> 1;
            Verdict v = eval(p, NULL);
            if (v.bad()) { f.plan = p; f.v = v; return true; }
        }
        if (tot.samples.size() < 3) tot.samples.push_back(p.text());
        return false;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        if (p.use_trace) return;
        static const int C[] = { 2, 3, 4, 6, 8 };
        if (p.cfg.threads > 1) { Plan q = p; q.cfg.threads = 1; q.cfg.mode = SCHED_NONE; out.push_back(q); }
        for (int j = 0; j < 5; j++) if (C[j] < p.items[0].cap) { Plan q = p; q.items[0].cap = C[j]; out.push_back(q); }
        if (p.cfg.threads > 2) { Plan q = p; q.cfg.threads = 2; out.push_back(q); }
    }
};

struct SharedObjs;
SharedObjs *shared_new(uint64_t seed, int cap, int salt = 0);
void shared_op(SharedObjs *s, int op, uint64_t seed, Buf &out);
void shared_ser(SharedObjs *s, Buf &out);
int shared_nops();
// -------------------------------------------------------------------------- H01
// items: earlier calls ..., then the call that is judged (last). Reference: that call alone in a fresh
// process whose fresh memory is all zero.
struct HistProp : Prop {
    RefCache ref; std::vector<const Case *> cs;
    HistProp() { for (size_t k = 0; k < cases().size(); k++) if (!(cases()[k].flags & CF_RANDOM)) cs.push_back(&cases()[k]); }
    // an item "op" is an operation (cap) on long-lived objects; x says on which of several sets of objects
    // that have the same shapes but other values and/or places
    static void one(const Plan &p, const Item &it, std::map<int, SharedObjs *> &objs, Buf &b, int rep) {
        if (it.name != "op") { run_item(it, b, RM_PLAIN, rep); return; }
        SharedObjs *&s = objs[it.x];
        if (!s) s = shared_new((uint64_t)p.get("shared", 1), (int)p.get("cap", 4), it.x);
        Buf s0; shared_ser(s, s0);
        for (int k = 0; k < rep; k++) {
            Buf o; sim_scrub_stack(); sim_hooks(true); shared_op(s, it.cap, it.seed, o); sim_hooks(false);
            if (k == 0) b.raw(o.b.data(), o.b.size()); else if (o.b.size() > b.b.size() || memcmp(o.b.data(), b.b.data() + b.b.size() - o.b.size(), o.b.size())) g_flags->repeat_differs++;
        }
        Buf s1; shared_ser(s, s1); if (s0.b != s1.b) g_flags->inputs_changed++;
    }
    // an earlier call with an argument of another size: only one that is refused tells something
    const Outcome &reference(const Plan &p) {
        Plan q; q.prop = p.prop; q.items.push_back(p.items.back()); if (q.items[0].name == "op") q.kv = p.kv; q.kv.erase("repeat");
        return ref.get(q.input_key(), [&] {
            SimCfg c; sim_cfg_default(&c); c.memcheck = 1;
            tot.n["reference_runs"]++;
            return run_child(c, shA, [&](Buf &b) { std::map<int, SharedObjs *> objs; one(q, q.items[0], objs, b, 1); });
        });
    }
    Outcome simulate(const Plan &p) {
        SimCfg c = p.cfg;
        int rep = (int)p.get("repeat", 1);
        Outcome o = run_child(c, shB, [&](Buf &b) {
            std::map<int, SharedObjs *> objs;
            for (size_t k = 0; k + 1 < p.items.size(); k++) { Buf d; one(p, p.items[k], objs, d, 1); }
            one(p, p.items.back(), objs, b, rep);
        });
        tot.n["simulated_runs"]++; tot.n["heap_pattern_" + std::to_string(c.heap_pattern)]++; tot.n["earlier_calls"] += p.items.size() - 1; tot.n["repeated_calls"] += rep - 1;
        tot.add(o.st);
        tot.distinct.insert(std::hash<std::string>()(p.input_key() + std::to_string(c.heap_pattern) + "/" + std::to_string(c.heap_seed)));
        return o;
    }
    Verdict eval(Plan &p, uint64_t *h) {
        const Outcome &a = reference(p);
        Outcome b = simulate(p);
        if (h) *h = sim_mix(b.st.steps + b.st.mem_bad, b.hash());
        Verdict v;
        if (b.st.mem_bad) { char t[200]; MemBad &m = shB->rec.bad[0]; snprintf(t, sizeof t, "%s of %u byte(s) outside any live block at pc=0x%lx", m.w ? "write" : "read", m.size, m.pc); v.cls = m.w ? "stray write" : "stray read"; v.detail = t; return v; }
        if (b.fl.inputs_changed) { v.cls = "inputs"; v.detail = "an input was modified"; return v; }
        if (b.st.heap_bad && b.status == 0) { v.cls = "heap"; v.detail = "memory around a block was overwritten"; return v; }
        if (a.status == 1000 + SIGSEGV || a.status == 1000 + SIGBUS) { v.cls = "stray access"; v.detail = "the call touches memory that does not exist"; return v; }
        if (inconclusive(a) || b.status == 96) { tot.n["inconclusive"]++; return v; }
        if (b.fl.repeat_differs) { v.cls = "repeat"; v.detail = "the same call repeated gave another result"; return v; }
        if (a.status == b.status && a.out == b.out) { if (a.status) { tot.n["crash_like_reference"]++; tot.per_case[p.items.back().name + "!crash"]++; } return v; }
        if (a.status == 0 && b.status != 0 && p.items.size() > 1) {
            // was it an earlier call that ended the process? then this history says nothing about the last one
            for (size_t k = 0; k + 1 < p.items.size(); k++) {
                Plan q = p; q.items.assign(1, p.items[k]); RefCache keep; std::swap(keep, ref); Outcome z = reference(q); std::swap(keep, ref);
                if (z.status != 0) { tot.n["earlier_call_crashes_alone"]++; return v; }
            }
        }
        describe_outcome_diff(a, b, v.detail);
        v.cls = a.status != b.status ? "crash" : "result";
        return v;
    }
    // long-lived objects: earlier operations on the same objects, and on others that look alike
    bool explore_objects(uint64_t seed, uint64_t i, Found &f) {
        Rng r(sim_mix(seed, i * 2654435761u + 4));
        Plan p; p.prop = "H01"; p.index = i;
        p.kv["shared"] = (int64_t)(r.next() >> 1); p.kv["cap"] = r.range(3, 8);
        Item it; it.name = "op"; it.cap = (int)((i / 4) % shared_nops()); it.seed = r.next() >> 1; it.x = 0;
        tot.per_case["objects_op" + std::to_string(it.cap)]++;
        for (int k = 0; k < 6; k++) {
            p.items.clear(); p.kv.erase("repeat");
            sim_cfg_default(&p.cfg); p.cfg.memcheck = 1; p.cfg.heap_pattern = r.below(8); p.cfg.heap_seed = r.next() >> 1;
            int m = r.range(1, 6);
            for (int q = 0; q < m; q++) {
                Item z = it; static const int X[] = { 0, 5, 6, 7, 9 };
                z.x = k == 0 ? 5 : r.chance(0.4) ? (int)((1 + r.below(14)) << 16 | (r.chance(0.4) ? 0x8000 | r.below(0x4000) : 4 + r.below(60))) : X[r.below(5)]; if (r.chance(0.5) && q) z.cap = r.below(shared_nops()); if (r.chance(0.4)) z.seed = r.next() >> 1;
                p.items.push_back(z);
            }
            if (k == 5) p.kv["repeat"] = 2;
            p.items.push_back(it);
            Verdict v = eval(p, NULL);
            if (v.bad()) { f.plan = p; f.v = v; return true; }
        }
        return false;
    }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        if (i % 4 == 3) return explore_objects(seed, i, f);
        const Case *c = cs[(i - i / 4) % cs.size()]; if (getenv("SIM_CASE")) c = find_case(getenv("SIM_CASE"));
        Rng r(sim_mix(seed, i * 2654435761u + 3));
        Plan p; p.prop = "H01"; p.index = i;
        Item it = { c->name, r.next() >> 1, std::min(r.chance(0.1) ? 22 : 13, pick_cap(r, c->flags)), 0 };
        tot.per_case[c->name]++;
        uint64_t slow = 0;
        for (int k = 0; k < 7; k++) {
            if (slow > 1000000 && k > 1) { if (k < 5) k = 5; else if (k == 6) break; }
            p.items.clear(); p.kv.clear();
            sim_cfg_default(&p.cfg); p.cfg.memcheck = 1;
            p.cfg.heap_pattern = k == 0 ? 1 + r.below(3) : r.below(8); p.cfg.heap_seed = r.next() >> 1;
            if (k >= 5) {       // the same call with one argument replaced at a time
                std::vector<int> sel; int from = k == 5 ? 1 : (int)r.range(1, 4), n = k == 5 ? 4 : (int)r.range(1, 3);
                for (int q = 0; q < n; q++) sel.push_back(from + q);
                for (int q = n; q > 1; q--) std::swap(sel[q - 1], sel[r.below(q)]);
                for (int q = 0; q < n; q++) { Item z = it; z.x = sel[q] << 16 | (int)(r.chance(0.4) ? 0x8000 | r.below(0x4000) : 2 * r.below(100) + (r.chance(0.7) ? 1 : 0)); p.items.push_back(z); }
            }
            else if (k >= 1) {
                int m = k == 1 ? 1 : r.range(1, 4);
                for (int q = 0; q < m; q++) {
                    int u = k == 1 ? 4 : r.below(10);
                    if (k == 1 && r.chance(0.75)) { Item z = it; z.x = (int)((r.chance(0.5) ? 1 : 1 + r.below(4)) << 16 | 0x8000 | r.below(0x4000)); p.items.push_back(z); }      // nearly the same call
                    else if (u < 3) { Item z = it; z.x = (int)(4 + 4 * r.below(1000) + 1 + r.below(3)); p.items.push_back(z); }
                    else if (u < 5) { Item z = it; z.x = (int)(r.chance(0.6) ? (1 + r.below(6)) << 16 | (r.chance(0.4) ? 0x8000 | r.below(0x4000) : 1 + r.below(60)) : (1 + r.below(24)) << 24 | (1 + r.below(60))); p.items.push_back(z); }   // only one argument differs, or all options from some draw on        // same shapes and options, other values and/or places
                    else if (u < 7) { Item z = it; z.seed = r.next() >> 1; z.x = 0; p.items.push_back(z); }                       // same function, other shapes
                    else { const Case *d = u < 9 ? NULL : cs[r.below((uint32_t)cs.size())]; if (!d) { do d = cs[r.below((uint32_t)cs.size())]; while (strcmp(d->fam, c->fam)); } Item z = { d->name, r.next() >> 1, std::min(13, pick_cap(r, d->flags)), 0 }; p.items.push_back(z); }
                }
            }
            if (k == 4) p.kv["repeat"] = 2;
            p.items.push_back(it);
            Verdict v = eval(p, NULL);
            if (v.bad()) { f.plan = p; f.v = v; return true; }
            if (k == 0) slow = shB->rec.st.steps;
        }
        if (tot.samples.size() < 3) tot.samples.push_back(p.text());
        return false;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        for (size_t k = 0; k + 1 < p.items.size(); k++) { Plan q = p; q.items.erase(q.items.begin() + k); out.push_back(q); }
        if (p.get("repeat", 1) > 1) { Plan q = p; q.kv.erase("repeat"); out.push_back(q); }
        if (p.cfg.heap_pattern) { Plan q = p; q.cfg.heap_pattern = 0; out.push_back(q); }
        static const int C[] = { 2, 3, 4, 6, 8 };
        if (p.items.back().name == "op") return;
        for (int j = 0; j < 5; j++) if (C[j] < p.items.back().cap) { Plan q = p; for (size_t k = 0; k < q.items.size(); k++) q.items[k].cap = std::min(q.items[k].cap, C[j]); out.push_back(q); }
    }
};

// -------------------------------------------------------------------------- A01
struct AllocProp : Prop {
    std::vector<const Case *> cs;
    AllocProp() { for (size_t k = 0; k < cases().size(); k++) if (!(cases()[k].flags & (CF_RANDOM | CF_NOALLOC))) cs.push_back(&cases()[k]); }
    Outcome simulate(const Plan &p) {
        Outcome o = run_child(p.cfg, shB, [&](Buf &b) { run_item(p.items[0], b, RM_ALLOC); });
        tot.n["simulated_runs"]++; tot.add(o.st);
        if (o.st.alloc_failed) { tot.n["runs_with_failed_allocation"]++; tot.n[p.cfg.alloc_fail_sticky ? "fault_no_memory_from_some_point_on" : "fault_one_failed_allocation"]++; tot.distinct.insert(std::hash<std::string>()(p.input_key()) * 31 + (uint64_t)p.cfg.alloc_fail_at * 2 + p.cfg.alloc_fail_sticky); if (o.fl.oom) tot.n["raised_out_of_memory"]++; else if (o.status == 1006) tot.n["process_aborted"]++; else tot.n["result_unaffected"]++; }
        return o;
    }
    Verdict eval(Plan &p, uint64_t *h) {
        Outcome o = simulate(p);
        if (h) *h = sim_mix(o.st.allocs, o.hash());
        Verdict v;
        if (o.status == 1006 && o.st.alloc_failed) return v;      // visible end of the process
        if (o.status) { if (o.st.alloc_failed) { v.cls = "crash"; v.detail = "status " + std::to_string(o.status); } return v; }
        if (o.fl.inputs_changed) { v.cls = "inputs"; v.detail = "an input was modified"; }
        else if (o.fl.wrong_oom) { v.cls = "wrong result"; v.detail = o.fl.note; }
        else if (o.fl.leaked) { v.cls = "leak"; v.detail = o.fl.note; }
        else if (o.fl.repeat_differs) { v.cls = "repeat"; v.detail = "the same call repeated gave another result"; }
        else if (o.st.heap_bad) { v.cls = "heap"; v.detail = "memory around a block was overwritten"; }
        return v;
    }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        const Case *c = cs[i % cs.size()];
        Rng r(sim_mix(seed, i * 2654435761u + 5));
        Plan p; p.prop = "A01"; p.index = i;
        Item it = { c->name, r.next() >> 1, std::min(8, pick_cap(r, c->flags)), 0 }; p.items.push_back(it);
        p.cfg.heap_pattern = r.below(4);
        tot.per_case[c->name]++;
        Verdict v = eval(p, NULL);
        if (v.bad()) { f.plan = p; f.v = v; return true; }
        if (shB->rec.st.allocs == 0 || !shB->done) return false;
        uint64_t N = shB->rec.st.allocs;
        for (int k = 0; k < 10; k++) {
            p.cfg.alloc_fail_at = k == 0 ? 0 : k == 1 ? (int64_t)N - 1 : k == 2 ? r.below((uint32_t)std::min<uint64_t>(N, 12)) : (int64_t)(r.next() % N);
            p.cfg.alloc_fail_sticky = r.chance(0.25);
            v = eval(p, NULL);
            if (v.bad()) { f.plan = p; f.v = v; return true; }
        }
        if (tot.samples.size() < 3) tot.samples.push_back(p.text());
        return false;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        if (p.cfg.alloc_fail_sticky) { Plan q = p; q.cfg.alloc_fail_sticky = 0; out.push_back(q); }
        if (p.cfg.heap_pattern) { Plan q = p; q.cfg.heap_pattern = 0; out.push_back(q); }
        static const int C[] = { 2, 3, 4, 6 };
        for (int j = 0; j < 4; j++) if (C[j] < p.items[0].cap) { Plan q = p; q.items[0].cap = C[j]; out.push_back(q); q.cfg.alloc_fail_at /= 2; out.push_back(q); }
        if (p.cfg.alloc_fail_at > 0) { Plan q = p; q.cfg.alloc_fail_at = 0; out.push_back(q); q.cfg.alloc_fail_at = p.cfg.alloc_fail_at / 2; out.push_back(q); }
    }
};

// -------------------------------------------------------------------------- S10
// items with name "set" (x = count), "env" (x = index into ENVS) or an API case
static const struct { const char *v; int n; } ENVS[] = { { NULL, 1 }, { "1", 1 }, { "2", 2 }, { "5", 5 }, { "16", 16 }, { "0", 1 }, { "-4", 1 }, { "", 1 }, { "many", 1 }, { "3", 3 } };
struct ThreadProp : Prop {
    std::vector<const Case *> cs;
    ThreadProp() { for (size_t k = 0; k < cases().size(); k++) cs.push_back(&cases()[k]); }
    Verdict eval(Plan &p, uint64_t *h) {
        Outcome o = run_child(p.cfg, shB, [&](Buf &b) {
            int model = p.cfg.threads;
            for (size_t k = 0; k < p.items.size(); k++) {
                const Item &it = p.items[k];
                if (it.name == "set") { gridpp::set_omp_threads(it.x); model = it.x; }
                else if (it.name == "env") {
                    if (ENVS[it.x].v) setenv("OMP_NUM_THREADS", ENVS[it.x].v, 1); else unsetenv("OMP_NUM_THREADS");
                    gridpp::initialize_omp(); model = ENVS[it.x].n;
                }
                else {
                    Buf d; g_st.max_requested = 0; run_item(it, d, RM_PLAIN);
                    if ((int)g_st.max_requested > model) { g_flags->threads_changed++; snprintf(g_flags->note, 255, "call %zu (%s) asked for a team of %lu with the setting at %d", k, it.name.c_str(), g_st.max_requested, model); }
                }
                int got = gridpp::get_omp_threads();
                if (got != model) { g_flags->threads_changed++; snprintf(g_flags->note, 255, "after step %zu (%s) the setting is %d, not %d", k, it.name.c_str(), got, model); }
                ser(b, got);
                if (g_flags->threads_changed) break;
            }
        });
        tot.n["simulated_runs"]++; tot.n["operations"] += p.items.size(); tot.add(o.st);
        tot.distinct.insert(std::hash<std::string>()(p.input_key()) ^ o.st.sched_hash);
        if (h) *h = sim_mix(o.st.sched_hash, o.hash());
        Verdict v; if (o.fl.threads_changed && !o.st.mem_bad) { v.cls = "threads"; v.detail = o.fl.note; }
        if (o.status && o.status < 1000 && o.status != 96) tot.n["ended_early"]++;
        return v;
    }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        Rng r(sim_mix(seed, i * 2654435761u + 8));
        Plan p; p.prop = "S10"; p.index = i;
        p.cfg = pick_schedule(r, NULL); p.cfg.threads = r.range(1, 6); p.cfg.p = 0.01; p.cfg.nested = 0; p.cfg.shrink_team = 0;
        int n = r.range(3, 9);
        for (int k = 0; k < n; k++) {
            int u = r.below(10);
            Item it; it.seed = 0; it.cap = 0; it.x = 0;
            if (u < 2) { it.name = "set"; it.x = r.chance(0.2) ? r.range(7, 48) : r.range(1, 6); }
            else if (u < 3) { it.name = "env"; it.x = r.below(10); }
            else { const Case *c = cs[(i * 7 + k) % cs.size()]; it.name = c->name; it.seed = r.next() >> 1; it.cap = std::min(8, pick_cap(r, c->flags)); tot.per_case[c->name]++; if (r.chance(0.25)) { it.x = (int)((1 + r.below(5)) << 16 | 0xc000 | r.below(0x4000)); p.cfg.memcheck = 1; tot.n["calls_with_an_argument_of_another_size"]++; } }
            p.items.push_back(it);
        }
        Verdict v = eval(p, NULL);
        if (v.bad()) { f.plan = p; f.v = v; return true; }
        if (tot.samples.size() < 3) tot.samples.push_back(p.text());
        return false;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        for (size_t k = 0; k < p.items.size(); k++) { Plan q = p; q.items.erase(q.items.begin() + k); out.push_back(q); }
        for (size_t k = 0; k < p.items.size(); k++) if (p.items[k].cap > 3) { Plan q = p; q.items[k].cap = 3; out.push_back(q); }
    }
};

// -------------------------------------------------------------------------- S07
// kv: shared (seed of the shared objects), cap. items: name "op" (x = caller, cap = operation) or an API case
struct CallersProp : Prop {
    RefCache ref; std::vector<const Case *> cs;
    CallersProp() { for (size_t k = 0; k < cases().size(); k++) if (!(cases()[k].flags & CF_RANDOM)) cs.push_back(&cases()[k]); }
    struct Job { const Plan *p; SharedObjs *s; std::vector<Buf> out; };
    static void one(void *a, int me) {
        Job *j = (Job *)a;
        for (size_t k = 0; k < j->p->items.size(); k++) {
            const Item &it = j->p->items[k];
            if (it.x != me) continue;
            if (it.name == "op") shared_op(j->s, it.cap, it.seed, j->out[me]);
            else { Item z = it; z.x = 0; run_item(z, j->out[me], RM_CALLER); }
        }
    }
    void body(const Plan &p, Buf &b, bool conc) {
        int n = (int)p.get("callers", 2);
        Job *j = new Job; j->p = &p; j->out.resize(n);
        j->s = shared_new((uint64_t)p.get("shared", 1), (int)p.get("cap", 4));
        { Buf d; shared_ser(j->s, d); b.raw(d.b.data(), d.b.size()); }
        if (conc) { sim_hooks(true); sim_callers(n, one, j); sim_hooks(false); }
        else for (int i = 0; i < n; i++) one(j, i);
        for (int i = 0; i < n; i++) { ser(b, i); ser(b, (int)j->out[i].b.size()); b.raw(j->out[i].b.data(), j->out[i].b.size()); }
        Buf d; shared_ser(j->s, d); b.raw(d.b.data(), d.b.size());
    }
    const Outcome &reference(const Plan &p) {
        return ref.get(p.input_key(), [&] { SimCfg c; sim_cfg_default(&c); tot.n["reference_runs"]++; return run_child(c, shA, [&](Buf &b) { body(p, b, false); }); });
    }
    Outcome simulate(const Plan &p) {
        SimCfg c = p.cfg;
        if (p.use_trace) { c.mode = SCHED_TRACE; g_replay = const_cast<Preempt *>(p.trace.data()); g_nreplay = (uint32_t)p.trace.size(); }
        g_nracepc = 0; for (size_t k = 0; k < p.racepc.size() && k < MAX_RACE; k++) g_racepc[g_nracepc++] = p.racepc[k];
        Outcome o = run_child(c, shB, [&](Buf &b) { body(p, b, true); });
        tot.n["simulated_runs"]++; tot.n[std::string("mode_") + mode_name(c.mode)]++; tot.add(o.st);
        if (o.st.switches) tot.distinct.insert(sim_mix(o.st.sched_hash, std::hash<std::string>()(p.input_key())));
        return o;
    }
    Verdict eval(Plan &p, uint64_t *h) {
        const Outcome &a = reference(p); Outcome b = simulate(p);
        if (h) *h = sim_mix(b.st.sched_hash, b.hash());
        Verdict v;
        if (inconclusive(a) || b.status == 96) { tot.n["inconclusive"]++; return v; }
        if (a.status) { tot.n["crash_like_reference"]++; return v; }
        if (a.status == b.status && a.out == b.out) return v;
        describe_outcome_diff(a, b, v.detail);
        v.cls = b.status == 97 ? "deadlock" : inconclusive(b) ? "no progress" : a.status != b.status ? "crash" : "result";
        return v;
    }
    bool fix_schedule(Plan &p) { simulate(p); if (shB->rec.ntrace >= MAX_TRACE) return false; p.trace.assign(shB->rec.trace, shB->rec.trace + shB->rec.ntrace); p.use_trace = true; return true; }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        Rng r(sim_mix(seed, i * 2654435761u + 21));
        Plan p; p.prop = "S07"; p.index = i;
        int n = r.chance(0.6) ? 2 : r.range(2, 4);
        p.kv["callers"] = n; p.kv["shared"] = (int64_t)(r.next() >> 1); p.kv["cap"] = r.range(3, 8);
        bool own = r.chance(0.3);
        int focus = (int)(i % shared_nops());
        const Case *fc = cs[i % cs.size()];
        uint64_t fseed = r.next() >> 1;
        for (int k = 0; k < n; k++) {
            int m = r.range(1, 3);
            for (int q = 0; q < m; q++) {
                Item it; it.x = k;
                if (own) { const Case *c = r.chance(0.6) ? fc : cs[r.below((uint32_t)cs.size())]; it.name = c->name; it.seed = r.chance(0.3) ? fseed : r.next() >> 1; it.cap = c->flags & CF_HEAVY ? 3 : r.range(2, 6); tot.per_case[c->name]++; }
                else { it.name = "op"; it.cap = r.chance(0.6) ? focus : (int)r.below(shared_nops()); it.seed = r.next() >> 1; tot.per_case["op" + std::to_string(it.cap)]++; }
                p.items.push_back(it);
            }
        }
        const Outcome &a = reference(p);
        if (a.status) { tot.n["skipped_reference_crash"]++; return false; }
        std::vector<uint64_t> pcs; SimStats prev; memset(&prev, 0, sizeof prev);
        for (int k = 0; k < 5; k++) {
            p.cfg = pick_schedule(r, k ? &prev : NULL);
            p.cfg.threads = r.chance(0.4) ? 1 : r.range(2, 4);
            p.cfg.detect = k < 2;
            Verdict v = eval(p, NULL);
            if (v.bad()) { f.plan = p; f.v = v; return true; }
            for (uint32_t q = 0; q < shB->rec.nrace; q++) {
                RacePair &x = shB->rec.race[q];
                tot.races.insert(std::make_pair(x.pc1, x.pc2));
                if (std::find(pcs.begin(), pcs.end(), x.pc1) == pcs.end()) pcs.push_back(x.pc1);
                if (std::find(pcs.begin(), pcs.end(), x.pc2) == pcs.end()) pcs.push_back(x.pc2);
            }
            prev = shB->rec.st;
        }
        if (tot.samples.size() < 3) tot.samples.push_back(p.text());
        if (!pcs.empty()) {
            tot.n["race_directed_inputs"]++;
            p.racepc = pcs;
            for (int k = 0; k < 24; k++) {
                p.cfg = pick_schedule(r, &prev); p.cfg.threads = k % 3 == 0 ? 1 : r.range(2, 4);
                p.cfg.mode = SCHED_RACE; static const double P[] = { 0.1, 0.3, 0.5, 0.8 }; p.cfg.p = P[k & 3];
                Verdict v = eval(p, NULL);
                if (v.bad()) { f.plan = p; f.v = v; return true; }
            }
        }
        return false;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        if (p.use_trace) return;
        for (size_t k = 0; k < p.items.size(); k++) { Plan q = p; q.items.erase(q.items.begin() + k); if (!q.items.empty()) out.push_back(q); }
        if (p.cfg.threads > 1) { Plan q = p; q.cfg.threads = 1; out.push_back(q); }
        for (int c = 2; c < 5; c++) if (c < p.get("cap")) { Plan q = p; q.kv["cap"] = c; out.push_back(q); }
        for (size_t k = 0; k < p.items.size(); k++) if (p.items[k].name != "op" && p.items[k].cap > 2) { Plan q = p; q.items[k].cap = 2; out.push_back(q); }
    }
};

// -------------------------------------------------------------------------- H05
// A history over six slots holding sets of objects. kv: shared, cap. Items (cap = slot, x = detail):
//   make (x: which original), copy (to slot x), assign (to slot x), swap (with slot x), drop,
//   fail (copy to slot x while an allocation fails), op (operation x)
// Every operation must give what it gives on the original that the slot's value comes from, built afresh
// in a process of its own.
SharedObjs *shared_copy(const SharedObjs *x, const SharedObjs *z, uint64_t seed);
void shared_assign(SharedObjs *d, const SharedObjs *x, const SharedObjs *z, uint64_t seed);
void shared_swap(SharedObjs *x, SharedObjs *y);
void shared_free(SharedObjs *x);
void shared_vary(SharedObjs *x);
void shared_types(SharedObjs *s, Buf &o);
struct CopyProp : Prop {
    RefCache ref; enum { SLOTS = 6, ORIG = 5 };
    static SharedObjs *original(const Plan &p, int w) {
        static const int SALT[] = { 0, 5, 0, 9, 0 };
        SharedObjs *s = shared_new((uint64_t)p.get("shared", 1) + (w == 2 || w == 3 ? 1 : 0), (int)p.get("cap", 4), SALT[w]);
        if (w == 4) shared_vary(s);
        return s;
    }
    static bool slot_ok(const Item &it, const int *val, bool &two) { two = it.name == "copy" || it.name == "assign" || it.name == "swap" || it.name == "fail"; return it.name == "make" || val[it.cap] >= 0; }
    // real = false: only the model, with every operation on a fresh original
    static void body(const Plan &p, Buf &b, bool real) {
        SharedObjs *s[SLOTS] = { 0 }; int val[SLOTS]; for (int i = 0; i < SLOTS; i++) val[i] = -1;
        SharedObjs *spare = real ? original(p, 1) : NULL, *fresh[ORIG] = { 0 };
        auto drop = [&](int i) { if (s[i]) { shared_free(s[i]); s[i] = NULL; } val[i] = -1; };
        for (size_t k = 0; k < p.items.size(); k++) {
            const Item &it = p.items[k]; bool two; int A = it.cap, B = it.x;
            if (!slot_ok(it, val, two)) continue;
            if (real) { sim_hooks(false); sim_scrub_stack(); }
            if (it.name == "make") { drop(A); if (real) s[A] = original(p, B); val[A] = B; continue; }
            if (two && A == B && it.name != "assign") continue;
            if (real) sim_hooks(true);
            if (it.name == "copy") { drop(B); if (real) s[B] = shared_copy(s[A], spare, it.seed); val[B] = val[A]; }
            else if (it.name == "assign") { if (real) { if (val[B] < 0) s[B] = shared_copy(s[A], spare, it.seed); else shared_assign(s[B], s[A], spare, it.seed); } val[B] = val[A]; }
            else if (it.name == "swap") { if (val[B] < 0) { if (real) { s[B] = s[A]; s[A] = NULL; } val[B] = val[A]; val[A] = -1; } else { if (real) shared_swap(s[A], s[B]); std::swap(val[A], val[B]); } }
            else if (it.name == "drop") drop(A);
            else if (it.name == "fail") {
                drop(B);
                if (real) {
                    SimCfg keep = g_cfg; g_st.allocs = 0; g_cfg.alloc_fail_at = it.seed % 200; heap_count(true);
                    SharedObjs *t = NULL;
                    try { t = shared_copy(s[A], spare, it.seed); } catch (std::bad_alloc &) { }
                    heap_count(false); g_cfg = keep;
                    if (t) shared_free(t);
                }
            }
            else if (it.name == "op") {
                SharedObjs *o = s[A];
                if (!real) { if (!fresh[val[A]]) fresh[val[A]] = original(p, val[A]); o = fresh[val[A]]; }
                ser(b, (int)k); ser(b, val[A]);
                if (B >= shared_nops()) shared_types(o, b); else shared_op(o, B, it.seed, b);
            }
        }
        if (real) { sim_hooks(true); for (int i = 0; i < SLOTS; i++) drop(i); shared_free(spare); sim_hooks(false); }
    }
    const Outcome &reference(const Plan &p) {
        return ref.get(p.input_key(), [&] { SimCfg c; sim_cfg_default(&c); tot.n["reference_runs"]++; return run_child(c, shA, [&](Buf &b) { body(p, b, false); }); });
    }
    Verdict eval(Plan &p, uint64_t *h) {
        const Outcome &a = reference(p);
        Outcome b = run_child(p.cfg, shB, [&](Buf &o) { body(p, o, true); });
        tot.n["simulated_runs"]++; tot.n["heap_pattern_" + std::to_string(p.cfg.heap_pattern)]++; tot.n["fault_failed_allocation_while_copying"] += b.st.alloc_failed; tot.add(b.st);
        for (size_t k = 0; k < p.items.size(); k++) tot.n["step_" + p.items[k].name]++;
        tot.distinct.insert(std::hash<std::string>()(p.input_key() + std::to_string(p.cfg.heap_pattern)));
        if (h) *h = sim_mix(b.st.steps + b.st.mem_bad, b.hash());
        Verdict v;
        if (b.st.mem_bad) { char t[200]; MemBad &m = shB->rec.bad[0]; snprintf(t, sizeof t, "%s of %u byte(s) outside any live block at pc=0x%lx", m.w ? "write" : "read", m.size, m.pc); v.cls = m.w ? "stray write" : "stray read"; v.detail = t; return v; }
        if (a.fl.derived_differs || b.fl.derived_differs) { v.cls = "derived"; v.detail = b.fl.derived_differs ? b.fl.note : a.fl.note; return v; }
        if (b.st.heap_bad && b.status == 0) { v.cls = "heap"; v.detail = "memory was freed twice or overwritten"; return v; }
        if (inconclusive(a) || b.status == 96) { tot.n["inconclusive"]++; return v; }
        if (a.status == 1000 + SIGSEGV || a.status == 1000 + SIGBUS) { tot.n["crash_like_reference"]++; return v; }
        if (a.status == b.status && a.out == b.out) return v;
        describe_outcome_diff(a, b, v.detail);
        v.cls = a.status != b.status ? "crash" : "result";
        return v;
    }
    bool explore(uint64_t seed, uint64_t i, Found &f) {
        Rng r(sim_mix(seed, i * 2654435761u + 31));
        Plan p; p.prop = "H05"; p.index = i;
        p.kv["shared"] = (int64_t)(r.next() >> 1); p.kv["cap"] = r.range(3, 8);
        p.cfg.memcheck = 1; p.cfg.heap_pattern = r.below(8); p.cfg.heap_seed = r.next() >> 1; p.cfg.threads = r.chance(0.8) ? 1 : 2;
        bool live[SLOTS] = { 0 }; int focus = (int)(i % shared_nops());
        auto slot = [&](bool on) { int c[SLOTS], n = 0; for (int k = 0; k < SLOTS; k++) if (live[k] == on) c[n++] = k; return n ? c[r.below(n)] : (int)r.below(SLOTS); };
        auto add = [&](const char *n, int A, int B) { Item it = { n, r.next() >> 1, A, B }; p.items.push_back(it); };
        add("make", 0, r.below(ORIG)); live[0] = true;
        int n = r.range(4, 22);
        for (int k = 0; k < n; k++) {
            int u = r.below(20), A = slot(true);
            if (u < 2) { int B = r.below(SLOTS); add("make", B, r.below(ORIG)); live[B] = true; }
            else if (u < 6) { int B = slot(r.chance(0.3)); add("copy", A, B); live[B] = live[A]; if (r.chance(0.5)) { add("drop", A, 0); live[A] = false; } }
            else if (u < 10) { int B = r.chance(0.15) ? A : slot(r.chance(0.8)); add("assign", A, B); live[B] = live[A]; }
            else if (u < 11) { int B = slot(r.chance(0.7)); add("swap", A, B); std::swap(live[A], live[B]); }
            else if (u < 12) { add("drop", A, 0); live[A] = false; bool any = false; for (int q = 0; q < SLOTS; q++) any |= live[q]; if (!any) { add("make", 1, r.below(ORIG)); live[1] = true; } }
            else if (u < 13) { int B = slot(false); if (!live[B]) add("fail", A, B); }
            else add("op", A, r.chance(0.4) ? focus : r.chance(0.2) ? shared_nops() : (int)r.below(shared_nops()));
        }
        for (int q = 0; q < SLOTS; q++) if (live[q]) { add("op", q, shared_nops()); add("op", q, focus); add("op", q, r.below(shared_nops())); }
        tot.per_case["objects_op" + std::to_string(focus)]++;
        Verdict v = eval(p, NULL);
        if (v.bad()) { f.plan = p; f.v = v; return true; }
        if (tot.samples.size() < 3) tot.samples.push_back(p.text());
        return false;
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        for (size_t k = p.items.size(); k-- > 0;) { Plan q = p; q.items.erase(q.items.begin() + k); out.push_back(q); }
        if (p.cfg.heap_pattern) { Plan q = p; q.cfg.heap_pattern = 0; out.push_back(q); }
        if (p.cfg.threads > 1) { Plan q = p; q.cfg.threads = 1; out.push_back(q); }
        for (int c = 2; c < 5; c++) if (c < p.get("cap")) { Plan q = p; q.kv["cap"] = c; out.push_back(q); }
    }
};

Prop *make_prop(const std::string &id) {
    if (id.size() == 3 && id[0] == 'S' && id >= "S01" && id <= "S06") return new SProp(id, id);
    if (id == "S07") return new CallersProp;
    if (id == "S09") return new RandProp;
    if (id == "S10") return new ThreadProp;
    if (id == "H01") return new HistProp;
    if (id == "H05") return new CopyProp;
    if (id == "A01") return new AllocProp;
    return make_client_prop(id);
}
