// Simulator runtime: scheduler, OpenMP runtime, memory-access hooks, heap, random source,
// clock and file I/O seams. One process runs one simulation; everything is decided by SimCfg.
#pragma once
#include <stdint.h>
#include <stddef.h>

// ---------------------------------------------------------------- PRNG (splitmix64 / xoshiro)
struct Rng {
    uint64_t s; uint32_t turn; uint64_t alt;        // turn: after that many draws the sequence becomes another one
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull), turn(0), alt(0) { next(); next(); }
    uint64_t next() {
        if (turn && --turn == 0) s ^= alt;
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }   // inclusive
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return uniform() < p; }
};
uint64_t sim_mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- schedules
enum SchedMode { SCHED_NONE = 0, SCHED_RANDOM, SCHED_PCT, SCHED_REVERSE, SCHED_RACE, SCHED_TRACE, SCHED_STALL };
struct Preempt { uint32_t th; uint32_t kind; uint64_t at; uint32_t to; };  // thread th at its local step at -> switch to `to`

enum { MAX_TH = 64, MAX_TRACE = 1 << 16, MAX_FORCED = 400000, MAX_RACE = 256 };

struct SimCfg {
    int threads;            // omp default team size
    int mode;               // SchedMode
    uint64_t seed;          // schedule seed
    double p;               // preemption probability (RANDOM, RACE)
    int pct_depth;
    uint64_t pct_len;       // estimated length for PCT change points
    int chunk_mode;         // 0: honour request; 1: dynamic chunks handed out in random order ; applies to GOMP_loop_*
    int shrink_team;        // 1: runtime may give smaller teams than asked (legal)
    int detect;             // race detection on
    int memcheck;           // 2: only count steps while one thread runs; 1: every access of an instrumented object must lie inside a live block
    int nested;             // 1: nested regions get real teams
    uint64_t step_limit;
    int heap_pattern;       // see heap
    uint64_t heap_seed;
    int64_t alloc_fail_at;  // -1: none; k: k-th counted allocation fails
    int alloc_fail_sticky;
    int rand_mode;          // 0: normal prng; 1: always 0; 2: always RAND_MAX; 3: alternate extremes; 4: small
    uint64_t rand_seed;
    int clock_mode;         // 0: steady; 1: frozen; 2: backwards jumps; 3: wild jumps; 4: stall
    uint64_t clock_seed;
    uint64_t clock_start;   // seconds
};
struct SimStats {
    uint64_t steps, decisions, switches, regions, team_threads, blocks, sched_hash;
    uint64_t races_seen, preempts_forced, max_team, max_live;
    uint64_t allocs, alloc_bytes, alloc_failed, heap_bad, live_blocks, live_bytes;
    uint64_t rand_draws, clock_reads, deadlock, limit_hit, uninit;
    uint64_t max_requested, criticals, atomics, barriers, dyn_chunks, shrunk, callers;
    uint64_t set_threads_calls, mem_bad, max_used_team;
};
extern SimCfg g_cfg;
struct RacePair { uint64_t pc1, pc2, addr; uint32_t w1, w2; };
struct MemBad { uint64_t pc, addr; uint32_t size, w; };
enum { MAX_BAD = 32 };
// everything a run records; lives in shared memory so that it survives the run's process
struct SimRec {
    SimStats st;
    uint32_t ntrace; Preempt trace[MAX_TRACE];      // recorded switches of this run
    uint32_t nrace; RacePair race[MAX_RACE];
    uint32_t nbad; MemBad bad[MAX_BAD];
};
extern SimRec *g_rec;
#define g_st (g_rec->st)
#define g_trace (g_rec->trace)
#define g_ntrace (g_rec->ntrace)
#define g_race (g_rec->race)
#define g_nrace (g_rec->nrace)
extern Preempt *g_replay; extern uint32_t g_nreplay;   // for SCHED_TRACE
extern uint64_t g_racepc[MAX_RACE]; extern uint32_t g_nracepc;   // for SCHED_RACE

void sim_cfg_default(SimCfg *c);
void sim_begin(const SimCfg *c);        // start owning the process (called once per run, in the run's process)
void sim_hooks(bool on);                // memory-access hooks active (inside calls under test)
// run n caller threads to completion under the scheduler
void sim_callers(int n, void (*fn)(void *, int), void *arg);
int sim_self();                         // simulated thread id (0 = main)

// ---------------------------------------------------------------- heap
void heap_init();
void heap_config(int pattern, uint64_t seed);
void heap_count(bool on);               // count/fail allocations only while on
uint64_t heap_live_blocks(); uint64_t heap_live_new(); // the second one: through operator new only (Armadillo's matrices are not)
uint64_t heap_live_bytes();
uint64_t heap_check_all();              // number of blocks with damaged guard zones
extern bool g_heap_on;
extern bool g_heap_own;                 // allocations come from the simulated arena
bool heap_valid(uint64_t a, size_t n);  // [a, a+n) lies inside one live block (or outside the arena)
extern "C" void *sim_malloc(size_t n); extern "C" void sim_free(void *p);
void rt_mem_reset(const void *p, size_t n);   // forget access history (fresh allocation)
void sim_scrub_stack();

// ---------------------------------------------------------------- file I/O seam (sys.cpp)
enum IoOp { IO_OPEN = 0, IO_READ, IO_WRITE, IO_SEEK, IO_TRUNC, IO_SYNC, IO_CLOSE, IO_UNLINK, IO_STAT, IO_ACCESS, IO_MMAP, IO_NOPS };
enum FaultKind { FK_NONE = 0, FK_EIO, FK_ENOSPC, FK_EINTR, FK_SHORT, FK_SHORT_ENOSPC, FK_EACCES, FK_ENOENT, FK_EMFILE,
    FK_CRASH_BEFORE, FK_CRASH_AFTER, FK_CRASH_TORN, FK_EDQUOT, FK_ZERO,
    FK_LOST /* close fails and the last write is lost */, FK_EAGAIN, FK_ESTALE, FK_NKINDS };
struct Fault { uint32_t at; uint32_t kind; uint32_t sticky; uint32_t arg; };   // at = index of the I/O operation
struct IoEvent { uint16_t op; uint16_t wr; int32_t file; uint64_t off; uint64_t len; int64_t res; uint32_t fault; };
enum { MAX_IO = 1 << 16, MAX_FILES = 64, MAX_FAULTS = 64 };
struct IoState {
    int on;
    char root[256];                 // only files below this directory are simulated storage
    Fault faults[MAX_FAULTS]; uint32_t nfaults;
    uint32_t fired[MAX_FAULTS];
    uint32_t nio; IoEvent ev[MAX_IO];
    uint32_t nfiles; char files[MAX_FILES][256];
    uint64_t hash;
    int64_t space_left;             // <0: unlimited; else bytes of new data before ENOSPC
    uint32_t space_fired; uint64_t grown;
    uint32_t sticky_kind[MAX_FILES + 1][IO_NOPS][2];  // file (last: every file) x op x (write?): lasting fault
    uint32_t writes_to_ro; uint32_t max_ops; uint64_t max_grown;  // beyond these the run ends with status 96
};
extern IoState *g_io;               // in shared memory so that it survives a crash of the run
