// Scheduler, OpenMP runtime (replaces libgomp) and compiler memory-access hooks (replaces libtsan).
// Simulated threads are real threads, but exactly one runs at a time: whoever holds the baton. Every
// hand-over is decided here, by the seeded scheduler or by a recorded trace.
#include "rt.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <math.h>
#include <errno.h>

SimCfg g_cfg;
static SimRec g_rec0;
SimRec *g_rec = &g_rec0;
Preempt *g_replay; uint32_t g_nreplay;
uint64_t g_racepc[MAX_RACE]; uint32_t g_nracepc;

uint64_t sim_mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }

namespace {
enum ThState { T_FREE = 0, T_RUN, T_BLOCKED };
struct Team;
struct Th {
    int id, state, started;
    volatile int sem;
    bool (*ready)(void *); void *rarg;
    Team *team; int num; int level;
    int icv;
    uint64_t steps; int prio;
    uint32_t vc[MAX_TH];
    void (*fn)(void *); void *data;
    uint64_t ws_gen, single_gen; void *ws;
    uint32_t rp, rp_end;       // replay cursor
    Preempt *rplist;
    pthread_t pt;
};
enum { NWS = 16 };
struct WorkShare {
    uint64_t gen; int used; bool ull;
    int64_t lo, hi, n, chunk;      // chunk indices [lo, hi) of n iterations
    int64_t start, incr;
    int arrived_end;
    int sections_next, sections_n;
    uint32_t vc[MAX_TH];
    // ordered
    int oq[4096]; int oh, ot;
    void *copy; bool copy_ready;
    int single_taken;
};
struct Team {
    Team *parent; Th *master; int size; int level;
    int arrived; uint64_t bar_gen; uint32_t bvc[MAX_TH];
    int running;                   // workers still running
    Th *member[MAX_TH];
    WorkShare ws[NWS];
    uint64_t single_done;
};
Th g_th[MAX_TH];
Th *cur = &g_th[0];
bool g_active;          // hooks matter: more than one simulated thread may run
bool g_hooks;           // inside a call under test
int g_live;             // threads in state RUN or BLOCKED
Rng g_rs(1);
Rng g_rc(1);              // work-split choices: separate, so that a recorded schedule replays them
uint64_t next_preempt;
uint64_t pct_points[64]; int pct_n, pct_i; int pct_low;
int stall_victim;
uint32_t g_gen;
uint32_t racebloom[256];
bool g_limit;

void fwait(volatile int *s) {
    while (__atomic_load_n(s, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, s, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(s, 0, __ATOMIC_RELEASE);
}
void fpost(volatile int *s) {
    __atomic_store_n(s, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, s, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}
void vc_join(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAX_TH; i++) if (b[i] > a[i]) a[i] = b[i]; }
void hash_event(uint64_t x) { g_st.sched_hash = (g_st.sched_hash ^ x) * 0x100000001B3ull + 0x9E37; }

bool runnable(Th *t) {
    if (t->state == T_RUN) return true;
    if (t->state == T_BLOCKED) return t->ready(t->rarg);
    return false;
}
void arm() {
    if (g_cfg.mode == SCHED_RANDOM || g_cfg.mode == SCHED_STALL) {
        double p = g_cfg.p; if (p > 0.999) p = 0.999; if (p < 1e-9) p = 1e-9;
        double u = g_rs.uniform(); if (u < 1e-300) u = 1e-300;
        double k = floor(log(u) / log(1 - p)); if (k > 1e15) k = 1e15;
        next_preempt = g_st.steps + 1 + (uint64_t)k;
    }
    else if (g_cfg.mode == SCHED_PCT)
        next_preempt = pct_i < pct_n ? pct_points[pct_i] : ~0ull;
    else
        next_preempt = ~0ull;
}
void record(Th *from, Th *to, int kind) {
    g_st.switches++;
    hash_event(((uint64_t)from->id << 56) ^ ((uint64_t)to->id << 48) ^ from->steps);
    if (g_ntrace < MAX_TRACE) {
        Preempt p; p.th = from->id; p.kind = kind; p.at = from->steps; p.to = to->id;
        g_trace[g_ntrace++] = p;
    }
}
void switch_to(Th *t, int kind) {
    Th *me = cur;
    if (t == me) return;
    record(me, t, kind);
    cur = t;
    fpost(&t->sem);
    fwait(&me->sem);
}
int list_runnable(Th **v) {
    int n = 0;
    for (int i = 0; i < MAX_TH; i++) if (g_th[i].state != T_FREE && runnable(&g_th[i])) v[n++] = &g_th[i];
    return n;
}
Th *choose(Th **v, int n, bool blocking) {
    g_st.decisions++;
    if (n == 1) return v[0];
    switch (g_cfg.mode) {
    case SCHED_RANDOM: case SCHED_RACE: return v[g_rs.below(n)];
    case SCHED_STALL: {
        Th *w[MAX_TH]; int m = 0;
        for (int i = 0; i < n; i++) if (v[i]->id != stall_victim) w[m++] = v[i];
        return m ? w[g_rs.below(m)] : v[0];
    }
    case SCHED_PCT: { Th *b = v[0]; for (int i = 1; i < n; i++) if (v[i]->prio > b->prio) b = v[i]; return b; }
    case SCHED_REVERSE: return v[n - 1];
    default:
        if (!blocking) for (int i = 0; i < n; i++) if (v[i] == cur) return cur;
        return v[0];
    }
}
void die_deadlock() { g_st.deadlock = 1; _exit(97); }

// replay lookup for the current thread at its current step
Th *replay_target(Th *s, int kind) {
    while (s->rp < s->rp_end && s->rplist[s->rp].at < s->steps) s->rp++;
    if (s->rp < s->rp_end && s->rplist[s->rp].at == s->steps) {
        Preempt &p = s->rplist[s->rp];
        s->rp++;
        if (p.to < MAX_TH && g_th[p.to].state != T_FREE && runnable(&g_th[p.to])) return &g_th[p.to];
    }
    return NULL;
}
// a point where the scheduler may switch although the thread could go on
void sync_point() {
    Th *s = cur;
    s->steps++; g_st.steps++;
    if (!g_active || g_limit) return;
    if (g_cfg.mode == SCHED_TRACE) { Th *t = replay_target(s, 1); if (t) switch_to(t, 1); return; }
    if (g_cfg.mode == SCHED_NONE) return;
    bool go = false;
    switch (g_cfg.mode) {
    case SCHED_RANDOM: case SCHED_STALL: case SCHED_RACE: go = g_rs.chance(0.5); break;
    case SCHED_PCT: go = true; break;
    default: break;
    }
    if (!go) return;
    Th *v[MAX_TH]; int n = list_runnable(v);
    switch_to(choose(v, n, false), 1);
}
void block_until(bool (*ready)(void *), void *arg) {
    Th *s = cur;
    s->steps++; g_st.steps++;
    if (ready(arg)) { sync_point(); if (ready(arg)) return; }
    g_st.blocks++;
    s->ready = ready; s->rarg = arg;
    while (!ready(arg)) {
        s->state = T_BLOCKED;
        Th *v[MAX_TH]; int n = list_runnable(v);
        if (n == 0) die_deadlock();
        Th *t = NULL;
        if (g_cfg.mode == SCHED_TRACE) { t = replay_target(s, 2); if (!t) t = v[0]; }
        else t = choose(v, n, true);
        switch_to(t, 2);
        s->state = T_RUN;
        s->steps++; g_st.steps++;
    }
    s->state = T_RUN;
}
void thread_exit_switch(Th *s) {           // s finished its job; hand the baton on
    s->steps++; g_st.steps++;
    s->state = T_FREE; g_live--;
    Th *v[MAX_TH]; int n = list_runnable(v);
    if (n == 0) die_deadlock();
    Th *t = NULL;
    if (g_cfg.mode == SCHED_TRACE) { t = replay_target(s, 2); if (!t) t = v[0]; }
    else t = choose(v, n, true);
    record(s, t, 2);
    cur = t;
    fpost(&t->sem);
    fwait(&s->sem);
}
void *worker_main(void *a) {
    Th *s = (Th *)a;
    fwait(&s->sem);
    for (;;) {
        s->fn(s->data);
        Team *tm = s->team;
        if (tm) { vc_join(tm->bvc, s->vc); tm->running--; }
        thread_exit_switch(s);
    }
    return NULL;
}
Th *new_thread() {
    for (int i = 1; i < MAX_TH; i++) {
        Th *t = &g_th[i];
        if (t->state != T_FREE) continue;
        t->id = i;
        if (!t->started) {
            t->started = 1;
            pthread_attr_t at; pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 8 << 20);
            if (pthread_create(&t->pt, &at, worker_main, t) != 0) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(98); }
            pthread_attr_destroy(&at);
        }
        t->state = T_RUN; t->ready = NULL;
        t->ws_gen = 0; t->single_gen = 0; t->ws = NULL;
        t->prio = 1000 + (int)g_rs.below(1000000);
        g_live++;
        if ((uint64_t)g_live > g_st.max_live) g_st.max_live = g_live;
        return t;
    }
    fprintf(stderr, "sim: too many threads\n"); _exit(98);
}
void set_active() { g_active = g_hooks && (g_live > 1 || g_cfg.memcheck); }

// ------------------------------------------------------------------ race detection
struct Slot { uint64_t pc; uint32_t clk; uint8_t tid, mask, w, used; };
struct Cell { uint64_t key; uint32_t gen; uint32_t nxt; Slot s[4]; };
enum { SH_BITS = 18, SH_N = 1 << SH_BITS };
Cell *shadow;
void race_report(uint64_t pc1, int w1, uint64_t pc2, int w2, uint64_t addr) {
    g_st.races_seen++;
    if (pc1 > pc2) { uint64_t t = pc1; pc1 = pc2; pc2 = t; int x = w1; w1 = w2; w2 = x; }
    for (uint32_t i = 0; i < g_nrace; i++) if (g_race[i].pc1 == pc1 && g_race[i].pc2 == pc2) return;
    if (g_nrace < MAX_RACE) { RacePair r = { pc1, pc2, addr, (uint32_t)w1, (uint32_t)w2 }; g_race[g_nrace++] = r; }
}
void shadow_access(Th *s, uint64_t key, uint8_t mask, int w, uint64_t pc) {
    uint64_t h = (key * 0x9E3779B97F4A7C15ull) >> (64 - SH_BITS);
    Cell *c = NULL;
    for (int i = 0; i < 32; i++) {
        Cell *k = &shadow[(h + i) & (SH_N - 1)];
        if (k->gen != g_gen) { k->gen = g_gen; k->key = key; k->nxt = 0; memset(k->s, 0, sizeof k->s); c = k; break; }
        if (k->key == key) { c = k; break; }
    }
    if (!c) return;
    int slot = -1;
    for (int i = 0; i < 4; i++) {
        Slot &x = c->s[i];
        if (!x.used) { if (slot < 0) slot = i; continue; }
        if (x.tid == s->id) {
            if (x.mask == mask && (x.w || !w)) {
                // same thread already recorded at least as strong an access; refresh its clock
                if (x.w == w || x.w) { x.clk = s->vc[s->id]; x.pc = pc; if (w) x.w = 1; return; }
            }
            if (x.mask == mask) slot = i;
            continue;
        }
        if ((x.mask & mask) && (x.w || w) && x.clk > s->vc[x.tid]) race_report(x.pc, x.w, pc, w, key << 3);
    }
    if (slot < 0) { slot = c->nxt; c->nxt = (c->nxt + 1) & 3; }
    Slot &x = c->s[slot];
    x.used = 1; x.pc = pc; x.clk = s->vc[s->id]; x.tid = s->id; x.mask = mask; x.w = w;
}
void detect(Th *s, const void *p, size_t n, int w, uint64_t pc) {
    uint64_t a = (uint64_t)p, e = a + n;
    if (n > 4096) e = a + 4096;
    while (a < e) {
        uint64_t key = a >> 3; int lo = a & 7; uint64_t ce = (key + 1) << 3; if (ce > e) ce = e;
        int len = (int)(ce - a);
        shadow_access(s, key, (uint8_t)(((1u << len) - 1) << lo), w, pc);
        a = ce;
    }
}
bool is_race_pc(uint64_t pc) {
    if (!(racebloom[(pc >> 5) & 255] & (1u << (pc & 31)))) return false;
    for (uint32_t i = 0; i < g_nracepc; i++) if (g_racepc[i] == pc) return true;
    return false;
}
void __attribute__((noinline)) preempt_now() {
    Th *s = cur;
    if (g_limit) return;
    if (g_cfg.mode == SCHED_PCT) {
        while (pct_i < pct_n && pct_points[pct_i] <= g_st.steps) { pct_i++; s->prio = pct_low--; }
    }
    arm();
    Th *v[MAX_TH]; int n = list_runnable(v);
    if (n < 2) return;
    g_st.preempts_forced++;
    Th *t;
    if (g_cfg.mode == SCHED_RANDOM) {        // a forced preemption goes to someone else
        Th *w[MAX_TH]; int m = 0;
        for (int i = 0; i < n; i++) if (v[i] != s) w[m++] = v[i];
        g_st.decisions++;
        t = w[g_rs.below(m)];
    }
    else t = choose(v, n, false);
    switch_to(t, 0);
}
void __attribute__((noinline)) bad_access(const void *p, size_t n, int w, uint64_t pc) {
    g_st.mem_bad++;
    for (uint32_t i = 0; i < g_rec->nbad; i++) if (g_rec->bad[i].pc == pc) return;
    if (g_rec->nbad < MAX_BAD) { MemBad b = { pc, (uint64_t)p, (uint32_t)n, (uint32_t)w }; g_rec->bad[g_rec->nbad++] = b; }
}
void __attribute__((noinline)) rt_acc(const void *p, size_t n, int w, void *ret) {
    Th *s = cur;
    s->steps++;
    uint64_t st = ++g_st.steps;
    uint64_t pc = (uint64_t)ret;
    if (g_cfg.memcheck == 1 && !heap_valid((uint64_t)p, n)) bad_access(p, n, w, pc);
    if (g_cfg.detect && g_live > 1) detect(s, p, n, w, pc);
    if (st >= next_preempt) preempt_now();
    else if (g_cfg.mode == SCHED_RACE && !g_limit) {
        if (is_race_pc(pc) && g_rs.chance(g_cfg.p)) {
            Th *v[MAX_TH]; int m = list_runnable(v);
            if (m > 1) { g_st.preempts_forced++; switch_to(v[g_rs.below(m)], 0); }
        }
    }
    else if (g_cfg.mode == SCHED_TRACE) {
        if (s->rp < s->rp_end && s->rplist[s->rp].at <= s->steps) { Th *t = replay_target(s, 0); if (t) switch_to(t, 0); }
    }
    if ((st >= g_cfg.step_limit || g_st.preempts_forced >= MAX_FORCED) && !g_limit) { g_limit = true; g_st.limit_hit = 1; next_preempt = ~0ull; }
    if (st >= g_cfg.step_limit * 8) { g_st.limit_hit = 2; _exit(96); }
}

// ------------------------------------------------------------------ sync objects by address
struct SyncObj { uint64_t addr; int owner; int depth; uint32_t vc[MAX_TH]; };
SyncObj g_sync[4096];
uint32_t g_avc[1024][MAX_TH];
SyncObj *sync_of(const void *p) {
    uint64_t a = (uint64_t)p; uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> 52;
    for (int i = 0; i < 4096; i++) {
        SyncObj *o = &g_sync[(h + i) & 4095];
        if (o->addr == a) return o;
        if (!o->addr) { o->addr = a; o->owner = -1; return o; }
    }
    fprintf(stderr, "sim: too many sync objects\n"); _exit(98);
}
bool lock_free(void *a) { return ((SyncObj *)a)->owner < 0; }
void lock_acquire(const void *p, bool recursive) {
    SyncObj *o = sync_of(p);
    if (recursive && o->owner == cur->id) { o->depth++; return; }
    sync_point();
    block_until(lock_free, o);
    o->owner = cur->id; o->depth = 1;
    vc_join(cur->vc, o->vc);
}
void lock_release(const void *p) {
    SyncObj *o = sync_of(p);
    if (--o->depth > 0) return;
    vc_join(o->vc, cur->vc);
    cur->vc[cur->id]++;
    o->owner = -1;
    sync_point();
}
void atomic_sync(const void *p) {
    if (!g_active) return;
    g_st.atomics++;
    sync_point();
    // direct-mapped: a collision only adds ordering, so it can hide a race but never invent one
    uint32_t *vc = g_avc[((uint64_t)p * 0x9E3779B97F4A7C15ull) >> 54];
    vc_join(cur->vc, vc);
    vc_join(vc, cur->vc);
    cur->vc[cur->id]++;
}

// ------------------------------------------------------------------ teams
struct TeamSave { Team *team; int num, level; uint64_t ws_gen, single_gen; void *ws; };
void team_push(Th *s, Team *tm, int num, TeamSave *sv) {
    sv->team = s->team; sv->num = s->num; sv->level = s->level; sv->ws_gen = s->ws_gen; sv->single_gen = s->single_gen; sv->ws = s->ws;
    s->team = tm; s->num = num; s->level = tm->level; s->ws_gen = 0; s->single_gen = 0; s->ws = NULL;
}
void team_pop(Th *s, TeamSave *sv) {
    s->team = sv->team; s->num = sv->num; s->level = sv->level; s->ws_gen = sv->ws_gen; s->single_gen = sv->single_gen; s->ws = sv->ws;
}
bool team_joined(void *a) { return ((Team *)a)->running == 0; }
void run_team(void (*fn)(void *), void *data, unsigned req) {
    Th *s = cur;
    unsigned n = req ? req : (unsigned)s->icv;
    if (n < 1) n = 1;
    g_st.regions++;
    if (n > g_st.max_requested) g_st.max_requested = n;
    if (s->level >= 1 && !g_cfg.nested) n = 1;
    if (s->level >= 2) n = 1;
    if (n > 40) n = 40;
    if (n > 1 && s->level >= 1 && n > 3) n = 3;
    if (g_live + (int)n > MAX_TH - 2) n = 1;
    if (!g_hooks) n = 1;
    if (g_cfg.mode == SCHED_NONE && g_cfg.threads == 1) n = 1;
    if (n > 1 && g_cfg.shrink_team && g_rc.chance(0.3)) { n = 1 + g_rc.below(n); g_st.shrunk++; }
    Team *tm = (Team *)mmap(NULL, sizeof(Team), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    tm->parent = s->team; tm->master = s; tm->size = n; tm->level = s->level + 1;
    tm->member[0] = s;
    g_st.team_threads += n;
    if (n > g_st.max_team) g_st.max_team = n;
    for (int i = 0; i < NWS; i++) tm->ws[i].gen = ~0ull;
    TeamSave sv; team_push(s, tm, 0, &sv);
    if (n > 1 && g_live == 1) { g_gen++; }
    for (unsigned i = 1; i < n; i++) {
        Th *t = new_thread();
        t->team = tm; t->num = i; t->level = tm->level; t->icv = s->icv;
        t->fn = fn; t->data = data;
        vc_join(t->vc, s->vc);
        t->vc[t->id]++;
        tm->member[i] = t; tm->running++;
    }
    if (n > 1) { s->vc[s->id]++; set_active(); arm(); hash_event(0xF00 + n); sync_point(); }
    fn(data);
    if (n > 1) {
        block_until(team_joined, tm);
        vc_join(s->vc, tm->bvc);
        s->vc[s->id]++;
        set_active();
    }
    team_pop(s, &sv);
    munmap(tm, sizeof(Team));
}
Team *team_of() {
    static Team solo;
    if (cur->team) return cur->team;
    if (!solo.size) { solo.size = 1; solo.master = cur; for (int i = 0; i < NWS; i++) solo.ws[i].gen = ~0ull; }
    return &solo;
}
struct BarWait { Team *t; uint64_t gen; };
bool bar_done(void *a) { BarWait *b = (BarWait *)a; return b->t->bar_gen != b->gen; }
void barrier() {
    Team *t = team_of();
    if (t->size <= 1) return;
    g_st.barriers++;
    sync_point();
    vc_join(t->bvc, cur->vc);
    cur->vc[cur->id]++;
    if (++t->arrived == t->size) { t->arrived = 0; t->bar_gen++; }
    else { BarWait b = { t, t->bar_gen }; block_until(bar_done, &b); }
    vc_join(cur->vc, t->bvc);
}
WorkShare *ws_enter(bool *first) {
    Team *t = team_of();
    uint64_t gen = cur->ws_gen++;
    WorkShare *w = &t->ws[gen % NWS];
    *first = false;
    if (w->gen != gen) {
        memset(w, 0, sizeof *w);
        w->gen = gen; *first = true;
    }
    cur->ws = w;
    return w;
}
void loop_init(WorkShare *w, int64_t start, int64_t n, int64_t incr, int64_t chunk) {
    if (chunk < 1) chunk = 1;
    w->start = start; w->incr = incr; w->n = n; w->chunk = chunk;
    w->lo = 0; w->hi = n <= 0 ? 0 : (n + chunk - 1) / chunk;
}
bool loop_next(WorkShare *w, int64_t *b, int64_t *e, bool ordered) {
    sync_point();
    if (w->lo >= w->hi) return false;
    int64_t k;
    if (!ordered && g_cfg.chunk_mode && team_of()->size > 1 && g_rc.chance(0.5)) k = --w->hi;
    else k = w->lo++;
    g_st.dyn_chunks++;
    int64_t i0 = k * w->chunk, i1 = i0 + w->chunk; if (i1 > w->n) i1 = w->n;
    *b = w->start + i0 * w->incr; *e = w->start + i1 * w->incr;
    if (ordered) w->oq[w->ot++ & 4095] = cur->id;
    return true;
}
struct OrdWait { WorkShare *w; int id; };
bool ordered_ready(void *a) { OrdWait *o = (OrdWait *)a; return o->w->oh < o->w->ot && o->w->oq[o->w->oh & 4095] == o->id; }
void ordered_wait(WorkShare *w) { OrdWait o = { w, cur->id }; block_until(ordered_ready, &o); vc_join(cur->vc, w->vc); }
void ordered_release(WorkShare *w) {
    // the current thread's oldest chunk is finished
    for (int i = w->oh; i < w->ot; i++) if (w->oq[i & 4095] == cur->id) { ordered_wait(w); vc_join(w->vc, cur->vc); cur->vc[cur->id]++; w->oh++; return; }
}
int64_t trip(int64_t start, int64_t end, int64_t incr) {
    if (incr > 0) return end > start ? (end - start + incr - 1) / incr : 0;
    return start > end ? (start - end - incr - 1) / (-incr) : 0;
}
struct CallerArg { void (*fn)(void *, int); void *arg; int i; };
void caller_tramp(void *a) { CallerArg *c = (CallerArg *)a; c->fn(c->arg, c->i); }
struct CallersWait { Team t; };
}

int sim_self() { return cur ? cur->id : 0; }

void sim_cfg_default(SimCfg *c) {
    memset(c, 0, sizeof *c);
    c->threads = 1; c->mode = SCHED_NONE; c->seed = 1; c->p = 0.01; c->pct_depth = 3; c->pct_len = 10000;
    c->step_limit = 40000000ull; c->alloc_fail_at = -1; c->clock_start = 1700000000ull;
}
void sim_begin(const SimCfg *c) {
    g_cfg = *c;
    memset(&g_st, 0, sizeof g_st);
    g_ntrace = 0; g_nrace = 0; g_rec->nbad = 0; g_limit = false;
    cur = &g_th[0]; cur->id = 0; cur->state = T_RUN; cur->icv = c->threads; cur->team = NULL; cur->level = 0; cur->started = 1;
    cur->vc[0] = 1; cur->steps = 0;
    g_live = 1; g_st.max_live = 1; g_hooks = false; g_active = false;
    g_rs = Rng(c->seed); g_rc = Rng(c->seed ^ 0x5eedull);
    cur->prio = 1000 + (int)g_rs.below(1000000);
    pct_n = 0; pct_i = 0; pct_low = 999;
    if (c->mode == SCHED_PCT) {
        int d = c->pct_depth; if (d > 60) d = 60;
        for (int i = 0; i < d; i++) {
            uint64_t x = 1 + g_rs.next() % (c->pct_len ? c->pct_len : 1);
            int j = pct_n++;
            while (j > 0 && pct_points[j - 1] > x) { pct_points[j] = pct_points[j - 1]; j--; }
            pct_points[j] = x;
        }
    }
    stall_victim = (int)g_rs.below(c->threads > 0 ? c->threads : 1);
    next_preempt = ~0ull;
    if (c->detect && !shadow)
        shadow = (Cell *)mmap(NULL, sizeof(Cell) * (size_t)SH_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_gen = 1;
    memset(racebloom, 0, sizeof racebloom);
    for (uint32_t i = 0; i < g_nracepc; i++) racebloom[(g_racepc[i] >> 5) & 255] |= 1u << (g_racepc[i] & 31);
    if (c->mode == SCHED_TRACE) {
        // per-thread, ordered by local step
        static Preempt store[MAX_TRACE];
        uint32_t k = 0;
        for (int t = 0; t < MAX_TH; t++) {
            uint32_t b = k;
            for (uint32_t i = 0; i < g_nreplay && k < MAX_TRACE; i++) if (g_replay[i].th == (uint32_t)t) store[k++] = g_replay[i];
            g_th[t].rplist = store + b; g_th[t].rp = 0; g_th[t].rp_end = k - b;
        }
    }
    heap_config(c->heap_pattern, c->heap_seed);
}
void sim_hooks(bool on) { g_hooks = on; set_active(); }

bool callers_joined(void *a) { return ((Team *)a)->running == 0; }
void sim_callers(int n, void (*fn)(void *, int), void *arg) {
    Th *s = cur;
    Team *tm = (Team *)mmap(NULL, sizeof(Team), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    tm->size = 1;
    CallerArg *ca = (CallerArg *)mmap(NULL, sizeof(CallerArg) * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_gen++;
    g_st.callers += n;
    for (int i = 0; i < n; i++) {
        ca[i].fn = fn; ca[i].arg = arg; ca[i].i = i;
        Th *t = new_thread();
        t->team = NULL; t->num = 0; t->level = 0; t->icv = s->icv;
        t->fn = caller_tramp; t->data = &ca[i];
        vc_join(t->vc, s->vc); t->vc[t->id]++;
        t->team = NULL;
        tm->running++;
        // completion is tracked through the trampoline below
    }
    s->vc[s->id]++;
    set_active(); arm();
    // wait until all callers are FREE again
    struct W { static bool done(void *) { for (int i = 1; i < MAX_TH; i++) if (g_th[i].state != T_FREE) return false; return true; } };
    block_until(W::done, NULL);
    for (int i = 1; i < MAX_TH; i++) vc_join(s->vc, g_th[i].vc);
    set_active();
    munmap(ca, sizeof(CallerArg) * 16);
    munmap(tm, sizeof(Team));
}
void rt_mem_reset(const void *p, size_t n) {
    if (!g_active || !g_cfg.detect || !shadow) return;
    uint64_t a = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3;
    if (e - a > 4096) e = a + 4096;
    for (; a < e; a++) {
        uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> (64 - SH_BITS);
        for (int i = 0; i < 32; i++) {
            Cell *k = &shadow[(h + i) & (SH_N - 1)];
            if (k->gen != g_gen) break;
            if (k->key == a) { memset(k->s, 0, sizeof k->s); break; }
        }
    }
}
bool rt_active() { return g_active; }
double sim_now();

// =================================================================== OpenMP ABI
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n); return n ? n : cur->icv; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
static char crit_default, atomic_lock;
void GOMP_critical_start() { g_st.criticals++; lock_acquire(&crit_default, false); }
void GOMP_critical_end() { lock_release(&crit_default); }
void GOMP_critical_name_start(void **p) { g_st.criticals++; lock_acquire(p, false); }
void GOMP_critical_name_end(void **p) { lock_release(p); }
void GOMP_atomic_start() { g_st.criticals++; lock_acquire(&atomic_lock, false); }
void GOMP_atomic_end() { lock_release(&atomic_lock); }
bool GOMP_single_start() {
    sync_point();
    bool first; ws_enter(&first);
    return first;
}
void *GOMP_single_copy_start() {
    sync_point();
    bool first; WorkShare *w = ws_enter(&first);
    if (first) return NULL;
    struct Z { static bool ok(void *a) { return ((WorkShare *)a)->copy_ready; } };
    block_until(Z::ok, w);
    vc_join(cur->vc, w->vc);
    return w->copy;
}
void GOMP_single_copy_end(void *d) {
    WorkShare *w = (WorkShare *)cur->ws;
    w->copy = d; w->copy_ready = true; vc_join(w->vc, cur->vc); cur->vc[cur->id]++;
    barrier();
}
unsigned GOMP_sections_start(unsigned n) {
    sync_point();
    bool first; WorkShare *w = ws_enter(&first);
    if (first) { w->sections_n = n; w->sections_next = 1; }
    return w->sections_next <= w->sections_n ? w->sections_next++ : 0;
}
unsigned GOMP_sections_next() {
    sync_point();
    WorkShare *w = (WorkShare *)cur->ws;
    return w->sections_next <= w->sections_n ? w->sections_next++ : 0;
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
    // each member calls GOMP_sections_next first: emulate with a preset work share
    struct Box { void (*fn)(void *); void *data; unsigned count; } b = { fn, data, count };
    struct Z { static void go(void *a) { Box *b = (Box *)a; bool first; WorkShare *w = ws_enter(&first); if (first) { w->sections_n = b->count; w->sections_next = 1; } b->fn(b->data); } };
    run_team(Z::go, &b, n);
}
static bool lstart(long s, long e, long inc, long chunk, long *b, long *en, bool ordered) {
    bool first; WorkShare *w = ws_enter(&first);
    if (first) loop_init(w, s, trip(s, e, inc), inc, chunk);
    int64_t x, y; if (!loop_next(w, &x, &y, ordered)) return false; *b = x; *en = y; return true;
}
static bool lnext(long *b, long *en, bool ordered) {
    WorkShare *w = (WorkShare *)cur->ws;
    if (ordered) ordered_release(w);
    int64_t x, y; if (!loop_next(w, &x, &y, ordered)) return false; *b = x; *en = y; return true;
}
#define LOOP(kind, ck) \
bool GOMP_loop_##kind##_start(long s, long e, long inc, long chunk, long *b, long *en) { return lstart(s, e, inc, ck, b, en, false); } \
bool GOMP_loop_##kind##_next(long *b, long *en) { return lnext(b, en, false); } \
bool GOMP_loop_ordered_##kind##_start(long s, long e, long inc, long chunk, long *b, long *en) { return lstart(s, e, inc, ck, b, en, true); } \
bool GOMP_loop_ordered_##kind##_next(long *b, long *en) { return lnext(b, en, true); } \
void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long chunk, unsigned) { \
    struct Box { void (*fn)(void *); void *data; long s, e, inc, chunk; } bx = { fn, data, s, e, inc, ck }; \
    struct Z { static void go(void *a) { Box *b = (Box *)a; bool first; WorkShare *w = ws_enter(&first); if (first) loop_init(w, b->s, trip(b->s, b->e, b->inc), b->inc, b->chunk); b->fn(b->data); } }; \
    run_team(Z::go, &bx, n); }
LOOP(static, chunk) LOOP(dynamic, chunk) LOOP(guided, chunk)
LOOP(nonmonotonic_dynamic, chunk) LOOP(nonmonotonic_guided, chunk)
#undef LOOP
#define LOOPR(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long inc, long *b, long *en) { return lstart(s, e, inc, 1, b, en, false); } \
bool GOMP_loop_##kind##_next(long *b, long *en) { return lnext(b, en, false); } \
void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned) { \
    struct Box { void (*fn)(void *); void *data; long s, e, inc; } bx = { fn, data, s, e, inc }; \
    struct Z { static void go(void *a) { Box *b = (Box *)a; bool first; WorkShare *w = ws_enter(&first); if (first) loop_init(w, b->s, trip(b->s, b->e, b->inc), b->inc, 1); b->fn(b->data); } }; \
    run_team(Z::go, &bx, n); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#undef LOOPR
typedef unsigned long long ull;
static bool ustart(bool up, ull s, ull e, ull inc, ull chunk, ull *b, ull *en, bool ordered) {
    bool first; WorkShare *w = ws_enter(&first);
    if (first) {
        int64_t n = up ? (e > s ? (int64_t)((e - s + inc - 1) / inc) : 0) : (s > e ? (int64_t)((s - e - inc - 1) / (0 - inc)) : 0);
        loop_init(w, (int64_t)s, n, (int64_t)inc, (int64_t)chunk);
    }
    int64_t x, y; if (!loop_next(w, &x, &y, ordered)) return false; *b = (ull)x; *en = (ull)y; return true;
}
static bool unext(ull *b, ull *en, bool ordered) {
    WorkShare *w = (WorkShare *)cur->ws;
    if (ordered) ordered_release(w);
    int64_t x, y; if (!loop_next(w, &x, &y, ordered)) return false; *b = (ull)x; *en = (ull)y; return true;
}
#define LOOPU(kind) \
bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull inc, ull chunk, ull *b, ull *en) { return ustart(up, s, e, inc, chunk, b, en, false); } \
bool GOMP_loop_ull_##kind##_next(ull *b, ull *en) { return unext(b, en, false); } \
bool GOMP_loop_ull_ordered_##kind##_start(bool up, ull s, ull e, ull inc, ull chunk, ull *b, ull *en) { return ustart(up, s, e, inc, chunk, b, en, true); } \
bool GOMP_loop_ull_ordered_##kind##_next(ull *b, ull *en) { return unext(b, en, true); }
LOOPU(static) LOOPU(dynamic) LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
#undef LOOPU
bool GOMP_loop_ull_runtime_start(bool up, ull s, ull e, ull inc, ull *b, ull *en) { return ustart(up, s, e, inc, 1, b, en, false); }
bool GOMP_loop_ull_runtime_next(ull *b, ull *en) { return unext(b, en, false); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, ull s, ull e, ull inc, ull *b, ull *en) { return ustart(up, s, e, inc, 1, b, en, false); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull *b, ull *en) { return unext(b, en, false); }
static void ws_ordered_end() { WorkShare *w = (WorkShare *)cur->ws; if (w && w->ot) ordered_release(w); }
void GOMP_loop_end() { ws_ordered_end(); barrier(); }
void GOMP_loop_end_nowait() { ws_ordered_end(); }
bool GOMP_loop_end_cancel() { ws_ordered_end(); barrier(); return false; }
void GOMP_ordered_start() { WorkShare *w = (WorkShare *)cur->ws; if (w && w->ot) ordered_wait(w); }
void GOMP_ordered_end() { WorkShare *w = (WorkShare *)cur->ws; if (w) { vc_join(w->vc, cur->vc); cur->vc[cur->id]++; } sync_point(); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, bool, unsigned, void **, int, void *) {
    if (cpyfn) {
        char *buf = (char *)alloca(arg_size + arg_align);
        char *arg = (char *)(((uintptr_t)buf + arg_align - 1) & ~(uintptr_t)(arg_align - 1));
        cpyfn(arg, data); fn(arg);
    }
    else fn(data);
    sync_point();
}
void GOMP_taskwait() { sync_point(); }
void GOMP_taskyield() { sync_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, unsigned, unsigned long, int, long start, long end, long) {
    char *buf = (char *)alloca(arg_size + arg_align);
    char *arg = (char *)(((uintptr_t)buf + arg_align - 1) & ~(uintptr_t)(arg_align - 1));
    if (cpyfn) cpyfn(arg, data); else memcpy(arg, data, arg_size);
    ((long *)arg)[0] = start; ((long *)arg)[1] = end;
    fn(arg);
}

int omp_get_thread_num() { return cur->num; }
int omp_get_num_threads() { return cur->team ? cur->team->size : 1; }
int omp_get_max_threads() { return cur->icv > 0 ? cur->icv : 1; }
int omp_get_num_procs() { return 8; }
void omp_set_num_threads(int n) { g_st.set_threads_calls++; cur->icv = n > 0 ? n : 1; }
int omp_in_parallel() { for (Team *t = cur->team; t; t = t->parent) if (t->size > 1) return 1; return 0; }
int omp_get_level() { return cur->level; }
int omp_get_active_level() { int k = 0; for (Team *t = cur->team; t; t = t->parent) if (t->size > 1) k++; return k; }
int omp_get_thread_limit() { return MAX_TH; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return g_cfg.nested; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return g_cfg.nested ? 2 : 1; }
void omp_set_schedule(int, int) {}
int omp_get_cancellation() { return 0; }
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_team_size(int) { return cur->team ? cur->team->size : 1; }
double omp_get_wtime() { return sim_now(); }
double omp_get_wtick() { return 1e-6; }
void omp_init_lock(void **l) { *l = NULL; }
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { lock_acquire(l, false); }
void omp_unset_lock(void **l) { lock_release(l); }
int omp_test_lock(void **l) { SyncObj *o = sync_of(l); if (o->owner >= 0) return 0; lock_acquire(l, false); return 1; }
void omp_init_nest_lock(void **l) { *l = NULL; }
void omp_destroy_nest_lock(void **) {}
void omp_set_nest_lock(void **l) { lock_acquire(l, true); }
void omp_unset_nest_lock(void **l) { lock_release(l); }

// =================================================================== locks used by gridpp objects (redirected at link time)
int sim_mutex_lock(void *m) { lock_acquire(m, true); return 0; }
int sim_mutex_unlock(void *m) { lock_release(m); return 0; }
int sim_mutex_trylock(void *m) { SyncObj *o = sync_of(m); if (o->owner >= 0 && o->owner != cur->id) return EBUSY; lock_acquire(m, true); return 0; }
int sim_rw_rdlock(void *m) { lock_acquire(m, true); return 0; }
int sim_rw_wrlock(void *m) { lock_acquire(m, true); return 0; }
int sim_rw_unlock(void *m) { lock_release(m); return 0; }
int sim_once(void *ctl, void (*fn)()) {
    int *st = (int *)ctl;
    lock_acquire(ctl, true);
    if (*st != 2) { fn(); *st = 2; }
    lock_release(ctl);
    return 0;
}
int sim_cxa_guard_acquire(uint64_t *g) {
    if (!cur) { return *(char *)g == 0; }
    if (*(volatile char *)g) { atomic_sync(g); return 0; }
    lock_acquire(g, false);
    if (*(volatile char *)g) { lock_release(g); return 0; }
    return 1;
}
void sim_cxa_guard_release(uint64_t *g) { *(volatile char *)g = 1; if (cur) lock_release(g); }
void sim_cxa_guard_abort(uint64_t *g) { if (cur) lock_release(g); }

// =================================================================== memory-access hooks
#define RET __builtin_return_address(0)
#define A(p, n, w) do { if (__builtin_expect(g_active, 0)) rt_acc((p), (n), (w), RET); } while (0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read1(void *p) { A(p, 1, 0); }
void __tsan_read2(void *p) { A(p, 2, 0); }
void __tsan_read4(void *p) { A(p, 4, 0); }
void __tsan_read8(void *p) { A(p, 8, 0); }
void __tsan_read16(void *p) { A(p, 16, 0); }
void __tsan_write1(void *p) { A(p, 1, 1); }
void __tsan_write2(void *p) { A(p, 2, 1); }
void __tsan_write4(void *p) { A(p, 4, 1); }
void __tsan_write8(void *p) { A(p, 8, 1); }
void __tsan_write16(void *p) { A(p, 16, 1); }
void __tsan_unaligned_read2(void *p) { A(p, 2, 0); }
void __tsan_unaligned_read4(void *p) { A(p, 4, 0); }
void __tsan_unaligned_read8(void *p) { A(p, 8, 0); }
void __tsan_unaligned_read16(void *p) { A(p, 16, 0); }
void __tsan_unaligned_write2(void *p) { A(p, 2, 1); }
void __tsan_unaligned_write4(void *p) { A(p, 4, 1); }
void __tsan_unaligned_write8(void *p) { A(p, 8, 1); }
void __tsan_unaligned_write16(void *p) { A(p, 16, 1); }
void __tsan_volatile_read1(void *p) { A(p, 1, 0); }
void __tsan_volatile_read2(void *p) { A(p, 2, 0); }
void __tsan_volatile_read4(void *p) { A(p, 4, 0); }
void __tsan_volatile_read8(void *p) { A(p, 8, 0); }
void __tsan_volatile_write1(void *p) { A(p, 1, 1); }
void __tsan_volatile_write2(void *p) { A(p, 2, 1); }
void __tsan_volatile_write4(void *p) { A(p, 4, 1); }
void __tsan_volatile_write8(void *p) { A(p, 8, 1); }
void __tsan_read_range(void *p, unsigned long n) { A(p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { A(p, n, 1); }
void __tsan_vptr_update(void **p, void *) { A(p, 8, 1); }
void __tsan_vptr_read(void **p) { A(p, 8, 0); }
void *sim_memcpy(void *d, const void *s, size_t n) {
    if (__builtin_expect(g_active, 0) && n) { rt_acc(s, n, 0, RET); rt_acc(d, n, 1, RET); }
    return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) {
    if (__builtin_expect(g_active, 0) && n) { rt_acc(s, n, 0, RET); rt_acc(d, n, 1, RET); }
    return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
    if (__builtin_expect(g_active, 0) && n) rt_acc(d, n, 1, RET);
    return memset(d, c, n);
}
#define ATOMICS(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *p, int) { atomic_sync((void *)p); return *p; } \
void __tsan_atomic##bits##_store(volatile T *p, T v, int) { atomic_sync((void *)p); *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { atomic_sync((void *)p); T o = *p; *p = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { atomic_sync((void *)p); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { atomic_sync((void *)p); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { atomic_sync((void *)p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { atomic_sync((void *)p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { atomic_sync((void *)p); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { atomic_sync((void *)p); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { atomic_sync((void *)p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { atomic_sync((void *)p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int, int) { atomic_sync((void *)p); T o = *p; if (o == c) *p = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sync_point(); }
void __tsan_atomic_signal_fence(int) {}
}
