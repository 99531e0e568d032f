#include "harness.h"
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>

Totals tot;
Shm *shA, *shB;
Shm *shm_new() {
    void *p = mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return (Shm *)p;
}
static const char *CFGN[] = { "threads", "mode", "seed", "p", "pct_depth", "pct_len", "chunk_mode", "shrink_team", "nested", "detect", "memcheck", "step_limit", "heap_pattern", "heap_seed", "alloc_fail_at", "alloc_fail_sticky", "rand_mode", "rand_seed", "clock_mode", "clock_seed", "clock_start" };
static std::string cfg_text(const SimCfg &c) {
    char b[1024];
    snprintf(b, sizeof b, "cfg %d %d %lu %.17g %d %lu %d %d %d %d %d %lu %d %lu %ld %d %d %lu %d %lu %lu\n", c.threads, c.mode, c.seed, c.p, c.pct_depth, c.pct_len, c.chunk_mode, c.shrink_team, c.nested, c.detect, c.memcheck,
        c.step_limit, c.heap_pattern, c.heap_seed, (long)c.alloc_fail_at, c.alloc_fail_sticky, c.rand_mode, c.rand_seed, c.clock_mode, c.clock_seed, c.clock_start);
    return b;
}
std::string Plan::text() const {
    std::ostringstream o;
    o << "# prop kind index; cfg fields:"; for (size_t i = 0; i < sizeof CFGN / sizeof *CFGN; i++) o << ' ' << CFGN[i];
    o << "\nprop " << prop << ' ' << (kind.empty() ? "-" : kind) << ' ' << index << '\n';
    for (size_t i = 0; i < items.size(); i++) o << "item " << items[i].name << ' ' << items[i].seed << ' ' << items[i].cap << ' ' << items[i].x << '\n';
    o << cfg_text(cfg);
    for (std::map<std::string, int64_t>::const_iterator i = kv.begin(); i != kv.end(); ++i) o << "kv " << i->first << ' ' << i->second << '\n';
    for (size_t i = 0; i < racepc.size(); i++) o << "pc " << racepc[i] << '\n';
    for (size_t i = 0; i < faults.size(); i++) o << "fault " << faults[i].at << ' ' << faults[i].kind << ' ' << faults[i].sticky << ' ' << faults[i].arg << '\n';
    if (use_trace) { o << "trace\n"; for (size_t i = 0; i < trace.size(); i++) o << "t " << trace[i].th << ' ' << trace[i].kind << ' ' << trace[i].at << ' ' << trace[i].to << '\n'; }
    return o.str();
}
bool Plan::parse(const std::string &t) {
    std::istringstream in(t); std::string l; bool have = false;
    while (std::getline(in, l)) {
        std::istringstream s(l); std::string w; if (!(s >> w) || w[0] == '#') continue;
        if (w == "prop") { s >> prop >> kind >> index; if (kind == "-") kind = ""; have = true; }
        else if (w == "item") { Item i; s >> i.name >> i.seed >> i.cap >> i.x; items.push_back(i); }
        else if (w == "cfg") { SimCfg &c = cfg; long af; s >> c.threads >> c.mode >> c.seed >> c.p >> c.pct_depth >> c.pct_len >> c.chunk_mode >> c.shrink_team >> c.nested >> c.detect >> c.memcheck >> c.step_limit >> c.heap_pattern >> c.heap_seed >> af >> c.alloc_fail_sticky >> c.rand_mode >> c.rand_seed >> c.clock_mode >> c.clock_seed >> c.clock_start; c.alloc_fail_at = af; }
        else if (w == "kv") { std::string k; int64_t v; s >> k >> v; kv[k] = v; }
        else if (w == "pc") { uint64_t v; s >> v; racepc.push_back(v); }
        else if (w == "fault") { Fault f; s >> f.at >> f.kind >> f.sticky >> f.arg; faults.push_back(f); }
        else if (w == "trace") use_trace = true;
        else if (w == "t") { Preempt p; s >> p.th >> p.kind >> p.at >> p.to; trace.push_back(p); }
    }
    return have;
}
std::string Plan::input_key() const {
    std::ostringstream o; o << prop << '|' << kind;
    for (size_t i = 0; i < items.size(); i++) o << '|' << items[i].name << ' ' << items[i].seed << ' ' << items[i].cap << ' ' << items[i].x;
    for (std::map<std::string, int64_t>::const_iterator i = kv.begin(); i != kv.end(); ++i) o << '|' << i->first << ' ' << i->second;
    return o.str();
}
uint64_t Outcome::hash() const {
    uint64_t h = 0xcbf29ce484222325ull ^ (uint64_t)status;
    for (size_t i = 0; i < out.size(); i++) h = (h ^ out[i]) * 0x100000001b3ull;
    return h;
}
Outcome run_child(const SimCfg &cfg, Shm *sh, const std::function<void(Buf &)> &body, int cpu, bool quiet) {
    sh->done = 0; sh->outlen = 0; memset(&sh->fl, 0, sizeof sh->fl);
    memset(&sh->rec.st, 0, sizeof(SimStats)); sh->rec.ntrace = sh->rec.nrace = sh->rec.nbad = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        if (getenv("SIM_GDB")) { signal(SIGSEGV, [](int) { char c[128]; snprintf(c, 128, "gdb -batch -p %d -ex bt 2>/dev/null | tail -30 >&2", getpid()); if (system(c)) {} _exit(77); }); }
        if (quiet && !getenv("SIM_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
        struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z);
        struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &tv, NULL);
        alarm((unsigned)cpu * 15);
        g_rec = &sh->rec; g_flags = &sh->fl;
        sim_begin(&cfg);
        Buf out;
        g_heap_own = true;
        body(out);
        sim_hooks(false); heap_count(false);
        g_st.heap_bad = heap_check_all();
        sh->outlen = out.b.size() < sizeof sh->out ? out.b.size() : sizeof sh->out;
        memcpy(sh->out, out.b.data(), sh->outlen);
        sh->done = 1;
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.status = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
    if (o.status == 0 && !sh->done) o.status = 99;
    if (getenv("SIM_VERBOSE") && o.status) fprintf(stderr, "-> status %d\n", o.status);
    if (o.status == 98) { fprintf(stderr, "simulator internal error\n"); _exit(2); }
    o.st = sh->rec.st; o.fl = sh->fl;
    if (sh->done) o.out.assign(sh->out, sh->out + sh->outlen);
    return o;
}
static const char *STN[] = { "steps", "decisions", "switches", "regions", "team_threads", "blocks", "sched_hash", "races_seen", "preempts_forced", "max_team", "max_live", "allocs", "alloc_bytes", "alloc_failed", "heap_bad", "live_blocks", "live_bytes", "rand_draws", "clock_reads", "deadlock", "limit_hit", "uninit", "max_requested", "criticals", "atomics", "barriers", "dyn_chunks", "shrunk", "callers", "set_threads_calls", "mem_bad", "max_used_team" };
void Totals::add(const SimStats &s) {
    const uint64_t *v = (const uint64_t *)&s;
    for (size_t i = 0; i < sizeof STN / sizeof *STN && i < sizeof(SimStats) / 8; i++) {
        std::string k = STN[i];
        if (k == "sched_hash") continue;
        if (k.compare(0, 4, "max_") == 0) { if (v[i] > n[k]) n[k] = v[i]; }
        else n[k] += v[i];
    }
}
const char *mode_name(int m) { static const char *N[] = { "sequential", "random", "pct", "reverse", "race_directed", "trace", "stalled_thread" }; return m >= 0 && m <= SCHED_STALL ? N[m] : "?"; }
SimCfg pick_schedule(Rng &r, const SimStats *prev) {
    SimCfg c; sim_cfg_default(&c);
    static const int T[] = { 2, 2, 2, 3, 3, 4, 4, 5, 8 };
    c.threads = r.chance(0.06) ? r.range(9, 40) : T[r.below(9)];
    c.seed = r.next() | 1;
    static const int M[] = { SCHED_RANDOM, SCHED_RANDOM, SCHED_RANDOM, SCHED_PCT, SCHED_PCT, SCHED_REVERSE, SCHED_STALL };
    c.mode = M[r.below(7)];
    static const double P[] = { 0.5, 0.2, 0.05, 0.02, 0.005, 0.001 };
    c.p = P[r.below(6)];
    c.pct_depth = r.range(1, 5);
    c.pct_len = prev && prev->steps > 10 ? prev->steps : 5000;
    c.chunk_mode = r.below(2); c.shrink_team = r.chance(0.15); c.nested = r.chance(0.3);
    return c;
}
static const char *sname(int s) {
    static char b[64];
    if (s == 0) return "normal return";
    if (s == 97) return "deadlock"; if (s == 96) return "step limit";
    if (s == 1000 + SIGPROF || s == 1000 + SIGALRM) return "no progress";
    if (s > 1000) { snprintf(b, sizeof b, "killed by signal %d", s - 1000); return b; }
    snprintf(b, sizeof b, "exit %d", s); return b;
}
static void decode(const std::vector<unsigned char> &o, size_t at, std::string &d) {
    // find the float/double/int around a differing byte: only used for messages
    char b[64];
    if (at + 4 <= o.size()) { float f; memcpy(&f, &o[at & ~(size_t)0], 4); snprintf(b, sizeof b, "bytes at %zu", at); d += b; }
}
void describe_outcome_diff(const Outcome &a, const Outcome &b, std::string &d) {
    char t[256];
    if (a.status != b.status) { d = std::string("reference: ") + sname(a.status); d += "; this run: "; d += sname(b.status); return; }
    size_t n = std::min(a.out.size(), b.out.size()), k = 0; while (k < n && a.out[k] == b.out[k]) k++;
    size_t diff = 0; for (size_t i = 0; i < n; i++) diff += a.out[i] != b.out[i];
    std::string x; decode(a.out, k, x);
    char ka = a.out.empty() ? '?' : a.out[0], kb = b.out.empty() ? '?' : b.out[0];
    snprintf(t, sizeof t, "result differs (%zu vs %zu bytes, %zu differ, first at %zu; outcome kinds '%c' and '%c')", a.out.size(), b.out.size(), diff, k, ka, kb);
    d = t;
}
