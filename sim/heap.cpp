// Simulated heap: every C++ allocation of the process (and malloc/free in gridpp's own objects) comes
// from one fixed arena. Contents of fresh memory, guard zones, reuse and failures are decided here.
#include "rt.h"
#include <new>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/mman.h>

bool g_heap_on;
bool g_heap_own;
bool rt_active();
namespace {
const uint64_t BASE = 0x100000000000ull;
const uint64_t SIZE = 3ull << 30;
enum { GUARD = 64 };
struct Side { uint32_t size; uint32_t next; uint8_t state; uint8_t cls; uint8_t align, key; };   // align bit 0: over-aligned, bit 1: from operator new  // per 16-byte granule of user pointers
Side *side;
uint64_t brk_;
uint32_t freelist[128];
uint32_t *blocks; uint64_t nblocks;
int pattern; uint64_t pseed; uint64_t acount;
uint64_t live_b, live_n, live_new, bad;
uint8_t *valid;                  // per 8 bytes of the arena: how many of them belong to a live block
uint8_t gkey;
bool inited;

int cls_of(size_t n) {                 // 0..63: 16-byte steps to 1024; then x1.25 steps
    if (n <= 1024) return n == 0 ? 0 : (int)((n - 1) / 16);
    size_t c = 1024; int k = 63;
    while (c < n && k < 127) { c = (c + c / 4 + 15) & ~(size_t)15; k++; }
    return c >= n ? k : -1;
}
size_t cap_of(int k) {
    if (k < 64) return (size_t)(k + 1) * 16;
    size_t c = 1024; for (int i = 63; i < k; i++) c = (c + c / 4 + 15) & ~(size_t)15;
    return c;
}
void fill(void *p, size_t n) {
    unsigned char *b = (unsigned char *)p;
    switch (pattern) {
    case 0: memset(b, 0, n); return;
    case 1: memset(b, 0xFF, n); return;
    case 2: memset(b, 0x7F, n); return;
    case 6: memset(b, 0x01, n); return;
    case 3: case 5: {
        float f = pattern == 3 ? 1.0f : 273.15f; uint32_t w; memcpy(&w, &f, 4);
        size_t i = 0; for (; i + 4 <= n; i += 4) memcpy(b + i, &w, 4); for (; i < n; i++) b[i] = ((unsigned char *)&w)[i & 3];
        return;
    }
    default: {
        uint64_t x = sim_mix(pseed, acount);
        for (size_t i = 0; i < n; i++) { if (!(i & 7)) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } b[i] = (unsigned char)(x >> ((i & 7) * 8)); }
    }
    }
}
// guard bytes look like junk data and differ from run to run, so that reading them shows
inline unsigned char gb(uint64_t a, uint8_t k) { return (unsigned char)(0xA5 ^ k ^ (a * 31)); }
void guard_set(unsigned char *u, size_t n, size_t cap, uint8_t k) {
    for (int i = 1; i <= GUARD; i++) u[-i] = gb(i, k);
    for (size_t i = n; i < cap + GUARD && i < n + GUARD; i++) u[i] = gb(i - n + 7, k);
}
bool guard_ok(unsigned char *u, size_t n, size_t cap, uint8_t k) {
    for (int i = 1; i <= GUARD; i++) if (u[-i] != gb(i, k)) return false;
    for (size_t i = n; i < cap + GUARD && i < n + GUARD; i++) if (u[i] != gb(i - n + 7, k)) return false;
    return true;
}
void mark(unsigned char *u, size_t n, bool on) {
    uint64_t g = ((uint64_t)u - BASE) >> 3;
    memset(valid + g, on ? 8 : 0, n >> 3);
    valid[g + (n >> 3)] = on ? (n & 7) : 0;
}
inline uint64_t gran(const void *p) { return ((uint64_t)p - BASE) >> 4; }
inline bool mine(const void *p) { return (uint64_t)p >= BASE && (uint64_t)p < BASE + SIZE; }

void *raw_alloc(size_t n, size_t align) {
    if (n > (1ull << 30)) return NULL;
    int k = cls_of(n ? n : 1);
    if (k < 0) return NULL;
    size_t cap = cap_of(k);
    unsigned char *u = NULL;
    if (align <= 16 && freelist[k]) {
        uint32_t g = freelist[k]; freelist[k] = side[g].next;
        u = (unsigned char *)(BASE + ((uint64_t)g << 4));
    }
    else {
        uint64_t b = brk_ + GUARD; if (align < 16) align = 16;
        b = (b + align - 1) & ~(uint64_t)(align - 1);
        if (b + cap + GUARD > BASE + SIZE) return NULL;
        brk_ = b + cap + GUARD; brk_ = (brk_ + 15) & ~15ull;
        u = (unsigned char *)b;
        blocks[nblocks++] = (uint32_t)gran(u);
    }
    Side &s = side[gran(u)];
    s.size = (uint32_t)n; s.state = 1; s.cls = (uint8_t)k; s.align = (uint8_t)(align > 16 ? 1 : 0); s.key = gkey;
    acount++;
    fill(u, n);
    guard_set(u, n, cap, gkey);
    mark(u, n, true);
    live_n++; live_b += n;
    if (rt_active()) rt_mem_reset(u, n);
    return u;
}
void raw_free(void *p) {
    Side &s = side[gran(p)];
    if (s.state != 1) { bad++; g_st.heap_bad++; return; }
    if (!guard_ok((unsigned char *)p, s.size, cap_of(s.cls), s.key)) { bad++; g_st.heap_bad++; }
    acount++;
    fill(p, s.size);
    mark((unsigned char *)p, s.size, false);
    s.state = 2; live_n--; live_b -= s.size;
    if (s.align & 2) live_new--;
    if (!(s.align & 1)) { s.next = freelist[s.cls]; freelist[s.cls] = (uint32_t)gran(p); }
}
bool should_fail(size_t n) {
    if (!g_heap_on) return false;
    g_st.allocs++; g_st.alloc_bytes += n;
    if (g_cfg.alloc_fail_at < 0) return false;
    int64_t i = (int64_t)g_st.allocs - 1;
    if (i == g_cfg.alloc_fail_at || (g_cfg.alloc_fail_sticky && i > g_cfg.alloc_fail_at)) { g_st.alloc_failed++; return true; }
    return false;
}
void *do_new(size_t n, size_t align) {
    if (should_fail(n)) throw std::bad_alloc();
    void *p = g_heap_own ? raw_alloc(n, align) : align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (mine(p)) { side[gran(p)].align |= 2; live_new++; }
    return p;
}
void do_free(void *p) { if (!p) return; if (mine(p)) raw_free(p); else free(p); }
}
void heap_init() {
    if (inited) return;
    inited = true;
    void *p = mmap((void *)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    side = (Side *)mmap(NULL, (SIZE >> 4) * sizeof(Side), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    valid = (uint8_t *)mmap(NULL, SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = (uint32_t *)mmap(NULL, (SIZE >> 6), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p != (void *)BASE || side == MAP_FAILED || blocks == MAP_FAILED) { static const char m[] = "sim: cannot map heap\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(98); }
    brk_ = BASE + 4096;
}
void heap_config(int p, uint64_t seed) {
    heap_init();
    pattern = p; pseed = seed; acount = 0; gkey = (uint8_t)(p * 37 + seed * 11);
    // memory that is already free takes the new pattern too
    for (uint64_t i = 0; i < nblocks; i++) {
        Side &s = side[blocks[i]];
        if (s.state == 2) { acount++; fill((void *)(BASE + ((uint64_t)blocks[i] << 4)), s.size); }
    }
}
bool heap_valid(uint64_t a, size_t n) {
    if (a < BASE || a >= BASE + SIZE) return true;
    for (uint64_t e = a + n; a < e;) {
        uint64_t ce = (a | 7) + 1; if (ce > e) ce = e;
        if (((ce - 1) & 7) >= valid[(a - BASE) >> 3]) return false;
        a = ce;
    }
    return true;
}
void heap_count(bool on) { g_heap_on = on; }
uint64_t heap_live_blocks() { return live_n; }
uint64_t heap_live_new() { return live_new; }
uint64_t heap_live_bytes() { return live_b; }
uint64_t heap_check_all() {
    uint64_t k = bad;
    for (uint64_t i = 0; i < nblocks; i++) {
        Side &s = side[blocks[i]];
        if (s.state == 1 && !guard_ok((unsigned char *)(BASE + ((uint64_t)blocks[i] << 4)), s.size, cap_of(s.cls), s.key)) k++;
    }
    return k;
}
void __attribute__((noinline)) sim_scrub_stack() {
    volatile unsigned char b[96 * 1024];
    fill((void *)b, sizeof b);
    __asm__ volatile("" :: "r"(b) : "memory");
}
extern "C" {
void *sim_malloc(size_t n) { if (should_fail(n)) { errno = ENOMEM; return NULL; } if (!g_heap_own) return malloc(n); void *p = raw_alloc(n, 16); if (!p) errno = ENOMEM; return p; }
void *sim_calloc(size_t a, size_t b) { void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *p) { do_free(p); }
void *sim_realloc(void *o, size_t n) {
    if (!o) return sim_malloc(n);
    if (!mine(o)) return realloc(o, n);
    void *p = sim_malloc(n); if (!p) return NULL;
    size_t k = side[gran(o)].size; memcpy(p, o, k < n ? k : n); raw_free(o); return p;
}
int sim_posix_memalign(void **r, size_t al, size_t n) { if (should_fail(n)) return ENOMEM; if (!g_heap_own) return posix_memalign(r, al, n); void *p = raw_alloc(n, al); if (!p) return ENOMEM; *r = p; return 0; }
void *sim_aligned_alloc(size_t al, size_t n) { void *p = NULL; return sim_posix_memalign(&p, al, n) ? NULL : p; }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
}
void *operator new(size_t n) { return do_new(n, 16); }
void *operator new[](size_t n) { return do_new(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (should_fail(n)) return NULL; return g_heap_own ? raw_alloc(n, 16) : malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (should_fail(n)) return NULL; return g_heap_own ? raw_alloc(n, 16) : malloc(n); }
void operator delete(void *p) noexcept { do_free(p); }
void operator delete[](void *p) noexcept { do_free(p); }
void operator delete(void *p, size_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t) noexcept { do_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_free(p); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void operator delete(void *p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p); }
