// Plans (everything that decides a run), running them in child processes, verdicts, minimisation.
#pragma once
#include "api.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>

struct Item { std::string name; uint64_t seed; int cap; int x; };
struct Plan {
    std::string prop, kind;
    uint64_t index = 0;
    std::vector<Item> items;
    SimCfg cfg;
    std::vector<Preempt> trace; bool use_trace = false;
    std::vector<uint64_t> racepc;
    std::vector<Fault> faults;
    std::map<std::string, int64_t> kv;
    Plan() { sim_cfg_default(&cfg); }
    std::string text() const;
    bool parse(const std::string &t);
    std::string input_key() const;      // what the reference outcome depends on
    int64_t get(const char *k, int64_t d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
};
struct Outcome {
    int status = 0;                     // 0, exit code, or 1000 + signal
    std::vector<unsigned char> out;
    SimStats st; ApiFlags fl;
    uint64_t hash() const;
};
struct Verdict { std::string cls, detail; bool bad() const { return !cls.empty(); } };

struct Shm {
    volatile int done;
    SimRec rec; ApiFlags fl;
    uint64_t outlen; unsigned char out[32 << 20];
};
Shm *shm_new();
// runs body in a child; body fills `out`
Outcome run_child(const SimCfg &cfg, Shm *sh, const std::function<void(Buf &)> &body, int cpu_limit_s = 20, bool quiet = true);

struct Totals {
    std::map<std::string, uint64_t> n;                 // counters
    std::unordered_set<uint64_t> distinct;             // distinct (input, schedule/fault) executions
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> per_case;
    std::set<std::pair<uint64_t, uint64_t> > races;
    void add(const SimStats &s);
};
extern Totals tot;
struct Found { Plan plan; Verdict v; };

struct Prop {
    virtual ~Prop() {}
    // explore index i; returns true and fills f when a violation was seen
    virtual bool explore(uint64_t seed, uint64_t i, Found &f) = 0;
    // run exactly this plan and judge it. `hash` identifies the execution
    virtual Verdict eval(Plan &p, uint64_t *hash) = 0;
    // simpler variants, most aggressive first
    virtual void shrinks(const Plan &p, std::vector<Plan> &out) { (void)p; (void)out; }
    // turn a seeded schedule into a recorded one
    virtual bool fix_schedule(Plan &) { return false; }
};
void run_api_item(const Item &it, Buf &out);
Prop *make_prop(const std::string &id);
Prop *make_client_prop(const std::string &id);
SimCfg pick_schedule(Rng &r, const SimStats *prev);
void describe_outcome_diff(const Outcome &a, const Outcome &b, std::string &d);
const char *mode_name(int m);
extern Shm *shA, *shB;
