// Workloads over the gridpp API: every case generates its own inputs from a PRNG and calls one
// entry point through Ctx::run, which is where the simulator takes over.
#pragma once
#include "rt.h"
#include "gridpp.h"
#include <functional>
#include <tuple>
#include <string>
#include <vector>
#include <string.h>

struct Buf {
    std::vector<unsigned char> b;
    void raw(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; b.insert(b.end(), c, c + n); }
    void tag(char c) { b.push_back((unsigned char)c); }
    void u32(uint32_t v) { raw(&v, 4); }
};
inline void ser(Buf &o, float f) { uint32_t w; if (f != f) w = 0x7fc00000u; else memcpy(&w, &f, 4); o.tag('f'); o.u32(w); }
inline void ser(Buf &o, double f) { uint64_t w; if (f != f) w = 0x7ff8000000000000ull; else memcpy(&w, &f, 8); o.tag('d'); o.raw(&w, 8); }
inline void ser(Buf &o, int i) { o.tag('i'); o.u32((uint32_t)i); }
inline void ser(Buf &o, bool i) { o.tag('b'); o.tag(i ? 1 : 0); }
inline void ser(Buf &o, const std::string &s) { o.tag('s'); o.u32((uint32_t)s.size()); o.raw(s.data(), s.size()); }
inline void ser(Buf &o, const gridpp::Point &p) { ser(o, p.lat); ser(o, p.lon); ser(o, p.elev); ser(o, p.laf); ser(o, (int)p.type); ser(o, p.x); ser(o, p.y); ser(o, p.z); }
inline void ser(Buf &o, const std::vector<float> &v) {
    o.tag('F'); o.u32((uint32_t)v.size());
    size_t k = o.b.size(); o.b.resize(k + v.size() * 4);
    for (size_t i = 0; i < v.size(); i++) { uint32_t w; if (v[i] != v[i]) w = 0x7fc00000u; else memcpy(&w, &v[i], 4); memcpy(&o.b[k + i * 4], &w, 4); }
}
template <class T> void ser(Buf &o, const std::vector<T> &v) { o.tag('V'); o.u32((uint32_t)v.size()); for (size_t i = 0; i < v.size(); i++) ser(o, v[i]); }
inline void ser(Buf &o, const gridpp::Points &p) { ser(o, p.get_lats()); ser(o, p.get_lons()); ser(o, p.get_elevs()); ser(o, p.get_lafs()); ser(o, (int)p.get_coordinate_type()); }
inline void ser(Buf &o, const gridpp::Grid &p) { ser(o, p.get_lats()); ser(o, p.get_lons()); ser(o, p.get_elevs()); ser(o, p.get_lafs()); ser(o, (int)p.get_coordinate_type()); }
inline void ser(Buf &o, const gridpp::KDTree &p) { ser(o, p.get_lats()); ser(o, p.get_lons()); ser(o, p.get_x()); ser(o, p.get_y()); ser(o, p.get_z()); ser(o, (int)p.get_coordinate_type()); }
template <class A, class B> void ser(Buf &o, const std::pair<A, B> &p) { ser(o, p.first); ser(o, p.second); }
template <class A, class B, class C> void ser(Buf &o, const std::tuple<A, B, C> &p) { ser(o, std::get<0>(p)); ser(o, std::get<1>(p)); ser(o, std::get<2>(p)); }

enum RunMode { RM_PLAIN = 0, RM_ALLOC, RM_CALLER, RM_QUIET };
struct ApiFlags { uint32_t inputs_changed, leaked, oom, threads_changed, wrong_oom, bad_choice, drew_random, repeat_differs, derived_differs; uint64_t live_before, live_after; char note[256]; };
extern ApiFlags *g_flags;

struct Ctx {
    Rng g;          // shapes and options
    Rng gv, gc;     // values; coordinates (a salt varies them while shapes and options stay)
    int cap; Buf out; int mode; int repeat; int lightweight;
    std::vector<std::function<void(Buf &)> > inputs;
    std::vector<unsigned char> inputs0;
    // salt: 0 nothing; bits 0,1: other values, other places everywhere; with a selector in bits 16-23 only the
    // n-th generated object or array differs; with a number in bits 24-31 every draw after the n-th differs
    int sel, obj, depth; uint64_t salt, seedv, seedc; bool moved = false, shift = false;
    bool twk = false, near_ = false, off_ = false;      // bit 15: the selected object is the same but for one or two elements inside it; with bit 14: it has another size
    Ctx(uint64_t seed, int c, int m, int salt_ = 0) : g(seed), gv(0), gc(0), cap(c), mode(m), repeat(1), lightweight(0), sel((salt_ >> 16) & 255), obj(0), depth(0), salt((unsigned)salt_) {
        seedv = (seed ^ 0x11) + ((salt & 1) && salt < 65536 ? 977u * salt : 0u); seedc = (seed ^ 0x77) + ((salt & 2) && salt < 65536 ? 977u * salt : 0u);
        twk = sel ? (salt >> 15) & 1 : 0; shift = !twk && (salt & 1); streams(0);
        Rng pr(seed ^ 0x99); if (pr.chance(0.12)) place = pr.range(1, 3);
        if (salt >> 24) { g.turn = (int)(salt >> 24); g.alt = 0x5bd1e995u * salt; }
    }
    // every generated object or array draws from streams of its own, so that replacing one leaves the others as they are
    struct Obj {
        Ctx &c;
        Obj(Ctx &c) : c(c) { if (c.depth++ == 0) { ++c.obj; bool on = c.obj == c.sel; c.moved = on && c.shift; c.near_ = on && c.twk && !(c.salt & 0x4000); c.off_ = on && c.twk && (c.salt & 0x4000); c.streams(on && !c.twk ? 977u * c.salt + 13 : 1); } }
        ~Obj() { if (--c.depth == 0) { c.moved = c.near_ = c.off_ = false; c.streams(2); } }
    };
    void streams(uint64_t k) { gv = Rng(sim_mix(seedv + k, obj)); gc = Rng(sim_mix(seedc + k, obj)); }
    // ---- registering inputs (checked to be unchanged after the call)
    template <class T> const T &in(const T &x) { const T *p = &x; inputs.push_back([p](Buf &b) { ser(b, *p); }); return x; }
    void snap(Buf &b) { for (size_t i = 0; i < inputs.size(); i++) inputs[i](b); }
    // ---- the call under test
    template <class F> void call_once(F f, Buf &o, bool *oom) {
        try { auto r = f(); if (mode != RM_CALLER) sim_hooks(false); heap_count(false); o.tag('='); ser(o, r); }
        catch (std::bad_alloc &e) { if (mode != RM_CALLER) sim_hooks(false); heap_count(false); o.tag('M'); if (oom) *oom = true; }
        catch (std::exception &e) { if (mode != RM_CALLER) sim_hooks(false); heap_count(false); o.tag('!'); std::string w = e.what(); if (w.size() > 200) w.resize(200); ser(o, w); if (w.find("bad_alloc") != std::string::npos || w.find("out of memory") != std::string::npos || w.find("memory") != std::string::npos) if (oom) *oom = true; }
    }
    template <class F> void run(F f) {
        Buf s0; if (mode != RM_CALLER) snap(s0);
        int lvl = gridpp::get_omp_threads();
        if (mode == RM_ALLOC) run_alloc(f);
        else for (int i = 0; i < repeat; i++) {
            Buf o;
            uint64_t live0 = heap_live_blocks();
            if (mode != RM_CALLER && mode != RM_QUIET) { sim_scrub_stack(); sim_hooks(true); }
            call_once(f, o, NULL);
            (void)live0;
            if (i == 0) out.raw(o.b.data(), o.b.size());
            else if (o.b.size() > out.b.size() || memcmp(o.b.data(), out.b.data() + out.b.size() - o.b.size(), o.b.size())) g_flags->repeat_differs++;
        }
        if (gridpp::get_omp_threads() != lvl) g_flags->threads_changed++;
        if (mode != RM_CALLER) { Buf s1; snap(s1); if (s0.b != s1.b) g_flags->inputs_changed++; }
        inputs.clear();
    }
    template <class F> void run_alloc(F f) {
        Buf ref; bool oom = false;
        // undisturbed first: also fills any one-time caches so that live memory can be compared
        { Buf o; SimCfg keep = g_cfg; g_cfg.alloc_fail_at = -1; call_once(f, o, NULL); g_cfg = keep; ref.b.swap(o.b); }
        uint64_t live0 = heap_live_blocks();
        { Buf o; SimCfg keep = g_cfg; g_cfg.alloc_fail_at = -1; call_once(f, o, NULL); g_cfg = keep;
          if (o.b != ref.b) g_flags->repeat_differs++; }
        uint64_t live1 = heap_live_blocks(), new1 = heap_live_new();
        if (live1 != live0) { g_flags->leaked++; snprintf(g_flags->note, 255, "successful call keeps %ld block(s)", (long)(live1 - live0)); }
        { Buf o; g_st.allocs = 0; heap_count(true); call_once(f, o, &oom); heap_count(false);
          // an error whose text could not be built is still an error
          bool err = !o.b.empty() && !ref.b.empty() && o.b[0] == '!' && ref.b[0] == '!';
          if (!oom && !err && o.b != ref.b) { g_flags->wrong_oom++; snprintf(g_flags->note, 255, "call returned a different result although memory ran out"); }
          if (oom) g_flags->oom++; }
        // Armadillo loses a matrix whose constructor fails half-way; only gridpp's own memory is judged
        uint64_t new2 = heap_live_new();
        if (new2 != new1) { g_flags->leaked++; snprintf(g_flags->note, 255, "failed call keeps %ld block(s)", (long)(new2 - new1)); }
        { Buf o; SimCfg keep = g_cfg; g_cfg.alloc_fail_at = -1; call_once(f, o, NULL); g_cfg = keep;
          if (o.b != ref.b) { g_flags->wrong_oom++; snprintf(g_flags->note, 255, "repeat after out-of-memory differs"); } }
        out.raw(ref.b.data(), ref.b.size());
    }
    // ---- generators
    int dim() { // mostly small, sometimes up to the cap
        int m = cap;
        if (cap >= 200) { if (huges > 0) { int last = huges == 1 && vast; huges--; if (last) return g.range(1, 8); if (huges && g.chance(0.3)) { vast = true; return g.range(300, 2500); } return g.range(90, 150); } m = 9; }
        else if (cap >= 100) { if (huges > 0) { huges--; return g.range(25, 90); } m = 13; }
        if (cap >= 8 && longs > 0 && g.chance(0.06)) { longs--; return g.range(20, cap >= 13 ? 140 : 48); }    // at most one long side
        switch (g.below(10)) { case 0: return 1; case 1: return g.range(1, m < 3 ? m : 3); case 2: case 3: return g.range(1, m); default: return g.range(1, m < 9 ? m : 9); }
    }
    int ens() { if (cap >= 8 && g.chance(0.05)) return g.range(7, cap >= 13 && g.chance(0.3) ? 70 : 24); return g.range(1, cap < 6 ? cap : 6); }
    float val() {
        switch (vkind) {
        case 0: return (float)(gv.uniform() * 20 - 5);
        case 1: return (float)gv.range(0, 4);
        case 2: return (float)(270 + gv.uniform() * 20);
        case 3: return (float)(gv.uniform() * gv.uniform() * 10);
        default: return (float)((int)(gv.uniform() * 100) / 10.0 - 3);
        }
    }
    int longs = 1, huges = 2, place = 0; bool vast = false;
    int some(int lo, int hi) { if (cap >= 8 && g.chance(0.06)) return g.range(hi, cap >= 60 ? 2000 : cap >= 22 ? 600 : 120); return g.range(lo, hi); }     // how many of something, sometimes many
    int vkind = 0; double miss = 0;
    void kind() { vkind = g.below(5); static const double M[] = { 0, 0, 0, 0.05, 0.3, 0.8 }; miss = M[g.below(6)]; if (g.chance(0.02)) miss = 1; }
    float mval() { float v = val(); return gv.chance(miss) ? gridpp::MV : v; }
    // ends, extremes and size stay; what lies between them changes a little
    void tweak(std::vector<float *> e) {
        Rng r(sim_mix(salt, 41)); size_t n = e.size(); if (n < 3) return;
        float lo = INFINITY, hi = -INFINITY; for (size_t i = 0; i < n; i++) if (*e[i] == *e[i]) { lo = std::min(lo, *e[i]); hi = std::max(hi, *e[i]); }
        if (!(hi > lo)) return;
        size_t start = r.below((uint32_t)n); int left = r.chance(0.5) ? 1 : 3, kind = r.below(3);
        for (size_t q = 0; q < n && left; q++) {
            size_t i = (start + q) % n; if (i == 0 || i == n - 1) continue;
            float &x = *e[i]; if (!(x == x) || x == lo || x == hi) continue;
            if (kind == 0) { float &y = *e[1 + (i + 1) % (n - 2)]; if (!(y == y) || y == x) continue; std::swap(x, y); }      // the same values elsewhere
            else if (kind == 1) x = x > lo + (hi - lo) / 2 ? lo + (x - lo) / 2 : x + (hi - x) / 2;
            else { float &y = *e[1 + (i + 1) % (n - 2)]; if (!(y == y) || &y == &x || y == lo || y == hi) continue; float d = std::min(x - lo, hi - y) / 2; x -= d; y += d; }     // the same sum
            left--;
        }
    }
    int off(int n) { return depth == 1 && off_ ? (salt & 1 ? n + 1 + (int)(salt >> 1 & 1) : n > 1 ? n - 1 : n + 1) : n; }
    gridpp::vec near1(gridpp::vec v) { if (depth == 1 && near_) { std::vector<float *> e; for (size_t i = 0; i < v.size(); i++) e.push_back(&v[i]); tweak(e); } return v; }
    gridpp::vec2 near2(gridpp::vec2 v) { if (depth == 1 && near_) { std::vector<float *> e; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) e.push_back(&v[i][j]); tweak(e); } return v; }
    gridpp::vec3 near3(gridpp::vec3 v) { if (depth == 1 && near_) { std::vector<float *> e; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) for (size_t k = 0; k < v[i][j].size(); k++) e.push_back(&v[i][j][k]); tweak(e); } return v; }
    gridpp::vec v1(int n) { Obj one_(*this); n = off(n); gridpp::vec v(n); for (int i = 0; i < n; i++) v[i] = mval(); return near1(v); }
    gridpp::vec2 v2(int a, int b) { Obj one_(*this); (salt & 4 ? a : b) = off(salt & 4 ? a : b); gridpp::vec2 v(a); for (int i = 0; i < a; i++) v[i] = v1(b); return near2(v); }
    gridpp::vec3 v3(int a, int b, int c) { Obj one_(*this); (salt & 4 ? a : b) = off(salt & 4 ? a : b); gridpp::vec3 v(a); for (int i = 0; i < a; i++) v[i] = v2(b, c); return near3(v); }
    gridpp::vec u1(int n, float lo, float hi) { Obj one_(*this); n = off(n); gridpp::vec v(n); for (int i = 0; i < n; i++) v[i] = lo + (hi - lo) * (float)gv.uniform(); return near1(v); }
    gridpp::vec2 u2(int a, int b, float lo, float hi) { Obj one_(*this); (salt & 4 ? a : b) = off(salt & 4 ? a : b); gridpp::vec2 v(a); for (int i = 0; i < a; i++) v[i] = u1(b, lo, hi); return near2(v); }
    gridpp::vec3 u3(int a, int b, int c, float lo, float hi) { Obj one_(*this); gridpp::vec3 v(a); for (int i = 0; i < a; i++) v[i] = u2(b, c, lo, hi); return near3(v); }
    double pcart = 0.3; bool cart = false;      // bilinear boxes on Cartesian grids raise an error: keep those few
    gridpp::CoordinateType ct() { cart = g.chance(pcart); return cart ? gridpp::Cartesian : gridpp::Geodetic; }
    gridpp::vec2 elevs(int a, int b) { return u2(a, b, 0, 1500); }
    gridpp::Grid grid(gridpp::CoordinateType t, int a = 0, int b = 0) { Obj one_(*this);
        if (!a) a = dim(); if (!b) b = dim();
        double la0, lo0, dla, dlo; span(t, &la0, &lo0, &dla, &dlo);
        bool jit = g.chance(0.3); int cy = g.chance(0.06) ? g.range(2, 3) : 1, cx = g.chance(0.06) ? g.range(2, 3) : 1;     // sometimes coinciding rows or columns
        dla /= a; dlo /= b;
        int form = g.chance(0.12) && place != 2 ? g.range(1, 3) : 0;      // rows that widen, columns that widen, sheared
        gridpp::vec2 la(a), lo(a);
        for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) {
            double wy = form == 2 ? 0.5 + 0.5 * j / b : 1, wx = form == 1 ? 0.5 + 0.5 * i / a : 1;
            la[i].push_back((float)(la0 + dla * wy * (i - i % cy + (jit && !form ? 0.4 * gc.uniform() : 0))));
            lo[i].push_back((float)(lo0 + dlo * wx * (j - j % cx + (jit && !form ? 0.4 * gc.uniform() : 0)) + (form == 3 ? dlo * 0.5 * i : 0)));
        }
        if (near_ && a > 2 && b > 2) { Rng r(sim_mix(salt, 43)); int ci = r.range(1, a - 2); bool y = r.chance(0.5); double d = 0.3 * r.uniform() + 0.1; for (int j = 0; j < b; j++) { if (y) la[ci][j] += (float)(dla * d); else lo[ci][j] += (float)(dlo * d); } }      // one row lies a little elsewhere
        if (g.chance(0.5)) return gridpp::Grid(la, lo, gridpp::vec2(), gridpp::vec2(), t);
        return gridpp::Grid(la, lo, elevs(a, b), u2(a, b, 0, 1), t);
    }
    gridpp::Grid gridE(gridpp::CoordinateType t, int a = 0, int b = 0) {
        gridpp::Grid q = grid(t, a, b); gridpp::ivec s = q.size();
        return gridpp::Grid(q.get_lats(), q.get_lons(), elevs(s[0], s[1]), u2(s[0], s[1], 0, 1), t);
    }
    void span(gridpp::CoordinateType t, double *la0, double *lo0, double *dla, double *dlo) {
        if (t == gridpp::Geodetic) { *la0 = 58; *lo0 = 5; *dla = 2; *dlo = 3; }
        else { *la0 = 0; *lo0 = 0; *dla = 20000; *dlo = 20000; }
        if (gc.chance(0.2)) { *la0 += *dla * 0.3; *lo0 += *dlo * 0.3; }
        if (t == gridpp::Geodetic && place) { if (place == 1) *lo0 = 178.5; else if (place == 2) { *la0 = 88.2; *dla = 1.7; *dlo = 200; } else { *la0 = -1; *lo0 = -1.5; } }     // the date line, a pole, the origin
        if (moved) { *la0 += *dla * (gc.uniform() - 0.5); *lo0 += *dlo * (gc.uniform() - 0.5); }   // the object that a salt singles out lies elsewhere
    }
    gridpp::Points points(gridpp::CoordinateType t, int n = -1, bool el = false) { Obj one_(*this);
        if (n < 0) { n = g.range(1, cap < 12 ? 2 * cap : 24); if (g.chance(0.1)) n = g.range(1, 4 * cap); if (cap >= 13 && longs > 0 && g.chance(0.05)) { longs--; n = g.range(64, 300); } }
        n = off(n);
        double la0, lo0, dla, dlo; span(t, &la0, &lo0, &dla, &dlo);
        gridpp::vec la(n), lo(n);
        for (int i = 0; i < n; i++) { la[i] = (float)(la0 + dla * gc.uniform()); lo[i] = (float)(lo0 + dlo * gc.uniform()); if (i && gc.chance(0.1)) { la[i] = la[i - 1]; lo[i] = lo[i - 1]; } }
        if (near_ && n > 2) { Rng r(sim_mix(salt, 43)); int k = r.range(1, n - 2); (r.chance(0.5) ? la : lo)[k] += (float)((t == gridpp::Geodetic ? 0.3 : 3000) * (0.5 + r.uniform())); }
        if (!el && g.chance(0.5)) return gridpp::Points(la, lo, gridpp::vec(), gridpp::vec(), t);
        return gridpp::Points(la, lo, u1(n, 0, 1500), u1(n, 0, 1), t);
    }
    float radius(gridpp::CoordinateType t) { static const double R[] = { 100, 3000, 15000, 60000, 300000 }; double r = R[g.below(5)]; if (t == gridpp::Cartesian) r /= 5; return (float)(r * (0.5 + g.uniform())); }
    gridpp::Downscaler ds() { return g.chance(cart ? 0.95 : 0.5) ? gridpp::Nearest : gridpp::Bilinear; }
    gridpp::Statistic stat() { static const gridpp::Statistic S[] = { gridpp::Mean, gridpp::Min, gridpp::Median, gridpp::Max, gridpp::Std, gridpp::Variance, gridpp::Sum, gridpp::Count }; return S[g.below(8)]; }
    gridpp::ComparisonOperator cmp() { static const gridpp::ComparisonOperator S[] = { gridpp::Lt, gridpp::Leq, gridpp::Gt, gridpp::Geq }; return S[g.below(4)]; }
    gridpp::Extrapolation extra() { static const gridpp::Extrapolation S[] = { gridpp::OneToOne, gridpp::MeanSlope, gridpp::NearestSlope, gridpp::Zero, gridpp::Unchanged }; return S[g.below(5)]; }
    gridpp::Metric metric() { static const gridpp::Metric S[] = { gridpp::Ets, gridpp::Ts, gridpp::Kss, gridpp::Pc, gridpp::Bias, gridpp::Hss }; return S[g.below(6)]; }
    bool direct = false;        // structure functions as constructed, not as clones of them
    gridpp::StructureFunctionPtr structure(gridpp::CoordinateType t, bool spatial_ok = true);
    gridpp::vec sorted(int n, float lo, float hi) { gridpp::vec v = u1(n, lo, hi); std::sort(v.begin(), v.end()); return v; }
};
struct Case { const char *fam; const char *name; void (*fn)(Ctx &); int flags; };
enum { CF_HEAVY = 1, CF_NOALLOC = 2, CF_RANDOM = 4 };
extern std::vector<Case> &cases();
struct Reg { Reg(const char *f, const char *n, void (*fn)(Ctx &), int fl) { Case c = { f, n, fn, fl }; cases().push_back(c); } };
#define CASE(fam, name, fl) static void c_##name(Ctx &c); static Reg r_##name(#fam, #name, c_##name, fl); static void c_##name(Ctx &c)
