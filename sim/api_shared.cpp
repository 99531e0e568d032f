// Long-lived objects: operations on them (S07, H01, H05), copies of them and objects derived from them (H05).
#include "api.h"
#include <algorithm>
#include <memory>
using namespace gridpp;
struct SharedObjs {
    CoordinateType t; Grid a, b; Points p, q; KDTree k; StructureFunctionPtr s; vec2 va; vec vp, vq; vec3 ea; vec2 ga;
    BoxCox bc; Log lg; gridpp::Gamma gm;
    Ctx *c;
    SharedObjs() : bc(0.3f), gm(2, 1.5f) {}
};
SharedObjs *shared_new(uint64_t seed, int cap, int salt) {
    SharedObjs *s = new SharedObjs; s->c = new Ctx(seed, cap, RM_CALLER, salt); Ctx &c = *s->c;
    c.pcart = 0.2; c.direct = true;
    s->t = c.ct(); s->a = c.gridE(s->t, c.g.range(2, cap + 1), c.g.range(2, cap + 1)); s->b = c.gridE(s->t);
    s->p = c.points(s->t, c.g.range(1, cap * 2), true); s->q = c.points(s->t, c.g.range(1, cap * 2), true);
    s->k = KDTree(s->p.get_lats(), s->p.get_lons(), s->t); s->s = c.structure(s->t);
    ivec z = s->a.size(); c.vkind = 2; c.miss = c.g.chance(0.3) ? 0.1 : 0;
    s->va = c.v2(z[0], z[1]); s->ea = c.v3(3, z[0], z[1]); s->vp = c.v1(s->p.size()); s->vq = c.v1(s->q.size()); s->ga = c.u2(z[0], z[1], -0.01f, 0.01f);
    return s;
}
void shared_ser(SharedObjs *s, Buf &o) { ser(o, s->a); ser(o, s->b); ser(o, s->p); ser(o, s->q); ser(o, s->k); ser(o, s->va); ser(o, s->ea); ser(o, s->vp); ser(o, s->vq); ser(o, s->ga); }
int shared_nops() { return 39; }
// an object made from another one must be what its own coordinates say
static void derived(const char *what, const Points &got, const Points &want, Buf &o) {
    Buf x, y; ser(x, got); ser(y, want);
    if (got.size() == want.size()) for (int i = 0; i < got.size(); i++) { ser(x, got.get_point(i)); ser(y, want.get_point(i)); }
    if (x.b != y.b) { g_flags->derived_differs++; snprintf(g_flags->note, 255, "%s: not the points that its coordinates describe", what); }
    o.raw(x.b.data(), x.b.size());
}
void shared_op(SharedObjs *S, int op, uint64_t seed, Buf &o) {
    SharedObjs &s = *S;
    Ctx c(seed, 5, RM_CALLER); c.vkind = 2;
    double la0 = s.t == Geodetic ? 58 : 0, lo0 = s.t == Geodetic ? 5 : 0, dl = s.t == Geodetic ? 2 : 20000;
    vec ql = c.u1(4, la0, la0 + dl), qo = c.u1(4, lo0, lo0 + dl); float r = c.radius(s.t); int n = c.g.range(1, 4);
    Downscaler d = s.t == Geodetic && c.g.chance(0.5) ? Bilinear : Nearest;
    Statistic st = c.stat(); int hw = c.g.range(0, 2);
    ivec za = s.a.size();
    int N = s.q.size(); if (N > 6) N = 6;
    o.tag((char)op);
    try {
        switch (op) {
        case 0: for (int i = 0; i < 4; i++) { ivec v = s.k.get_neighbours(ql[i], qo[i], r); std::sort(v.begin(), v.end()); ser(o, v); } break;
        case 1: for (int i = 0; i < 4; i++) { ser(o, s.k.get_nearest_neighbour(ql[i], qo[i])); vec ds; ivec v = s.k.get_neighbours_with_distance(ql[i], qo[i], r, ds); std::vector<std::pair<int, float> > z; for (size_t k = 0; k < v.size(); k++) z.push_back(std::make_pair(v[k], ds[k])); std::sort(z.begin(), z.end()); ser(o, z); } break;
        case 2: for (int i = 0; i < 4; i++) { ivec v = s.p.get_closest_neighbours(ql[i], qo[i], n); std::sort(v.begin(), v.end()); ser(o, v); ser(o, s.p.get_num_neighbours(ql[i], qo[i], r)); } break;
        case 3: for (int i = 0; i < 4; i++) { ser(o, s.a.get_nearest_neighbour(ql[i], qo[i])); ivec2 v = s.a.get_neighbours(ql[i], qo[i], r); std::sort(v.begin(), v.end()); for (size_t k = 0; k < v.size(); k++) ser(o, v[k]); } break;
        case 4: for (int i = 0; i < 4; i++) { int a = 0, b = 0, e = 0, f = 0; bool ok = s.a.get_box(ql[i], qo[i], a, b, e, f); ser(o, ok); if (ok) { ser(o, a); ser(o, b); ser(o, e); ser(o, f); } } break;
        case 5: ser(o, nearest(s.a, s.b, s.va)); break;
        case 6: ser(o, nearest(s.a, s.p, s.va)); break;
        case 7: ser(o, nearest(s.a, s.b, s.ea)); break;
        case 8: ser(o, s.t == Geodetic ? bilinear(s.a, s.p, s.va) : nearest(s.a, s.q, s.va)); break;
        case 9: ser(o, s.t == Geodetic ? bilinear(s.a, s.b, s.va) : nearest(s.a, s.b, s.va)); break;
        case 10: ser(o, gridding(s.a, s.p, s.vp, r, n - 1, st)); break;
        case 11: ser(o, gridding(s.q, s.p, s.vp, r, n - 1, st)); break;
        case 12: ser(o, gridding_nearest(s.a, s.p, s.vp, n - 1, st)); break;
        case 13: ser(o, count(s.a, s.p, r)); ser(o, count(s.p, s.q, r)); break;
        case 14: ser(o, distance(s.a, s.p, n)); ser(o, distance(s.p, s.q, n)); break;
        case 15: { vec ra = c.u1(N, 0.1f, 2), bp = c.u1(N, 270, 290); ivec I; for (int i = 0; i < N; i++) I.push_back(i); vec ob(s.vq.begin(), s.vq.begin() + N); ser(o, optimal_interpolation(s.a, s.va, s.q.subset(I), ob, ra, bp, *s.s, n, true)); } break;
        case 16: { Point p1 = s.p.get_point(0); std::vector<Point> P; for (int i = 0; i < s.q.size(); i++) P.push_back(s.q.get_point(i)); ser(o, s.s->corr(p1, P)); ser(o, s.s->corr_background(p1, P)); ser(o, s.s->localization_distance(p1)); } break;
        case 17: ser(o, neighbourhood(s.va, hw, st)); break;
        case 18: ser(o, neighbourhood_quantile_fast(s.va, (float)c.g.uniform(), hw, c.sorted(4, 268, 292))); break;
        case 19: ser(o, s.bc.backward(s.bc.forward(s.ea))); ser(o, s.lg.forward(s.va)); break;
        case 20: ser(o, s.gm.forward(s.vp)); ser(o, s.gm.backward(s.ga[0])); break;
        case 21: ser(o, simple_gradient(s.a, s.b, s.va, -0.0065f, d)); break;
        case 22: ser(o, full_gradient(s.a, s.p, s.va, s.ga, vec2(), d)); break;
        case 23: { Grid g(s.a); Points p(s.p); KDTree k(s.k); ser(o, g); ser(o, p); ser(o, k.get_nearest_neighbour(ql[0], qo[0])); } break;
        case 24: ser(o, s.a.to_points()); ser(o, s.q.get_in_domain_indices(s.a)); break;
        case 25: { ivec I; for (int i = 0; i < s.q.size(); i += 2) I.push_back(i); ser(o, s.q.subset(I)); ser(o, s.a.get_point(0, 0)); } break;
        case 26: ser(o, fill(s.a, s.va, s.q, vec(s.q.size(), r), 1.0f, c.g.chance(0.5))); break;
        case 27: ser(o, doping_circle(s.a, s.va, s.q, s.vq, vec(s.q.size(), r))); break;
        case 28: ser(o, window(s.va, 3, st, false, c.g.chance(0.5), c.g.chance(0.5))); break;
        case 29: ser(o, calc_gradient(s.a.get_elevs(), s.va, c.g.chance(0.5) ? MinMax : LinearRegression, hw + 1)); break;
        case 30: ser(o, neighbourhood_search(s.va, s.ga, hw, 0.0f, 0.01f, 0.001f)); break;
        case 31: { vec bp = c.u1(N, 270, 290); ivec I; for (int i = 0; i < N; i++) I.push_back(i); vec ob(s.vq.begin(), s.vq.begin() + N); ser(o, local_distribution_correction(s.a, s.va, s.q.subset(I), ob, bp, *s.s, 0.1f, 0.9f, 1)); } break;
        case 32: { vec2 bp = c.u2(N, 3, 270, 290); vec sd = c.u1(N, 0.3f, 2); ivec I; for (int i = 0; i < N; i++) I.push_back(i); vec ob(s.vq.begin(), s.vq.begin() + N); vec3 e(za[0], vec2(za[1], vec(3))); for (int i = 0; i < za[0]; i++) for (int j = 0; j < za[1]; j++) for (int k = 0; k < 3; k++) e[i][j][k] = s.ea[k][i][j]; ser(o, optimal_interpolation_ensi(s.a, e, s.q.subset(I), ob, sd, bp, *s.s, n, true)); } break;
        case 33: { Point p1 = s.p.get_point(0), p2 = s.q.get_point(0); int k = c.g.below(3); ser(o, k == 0 ? s.s->corr(p1, p2) : k == 1 ? s.s->corr_background(p1, p2) : s.s->localization_distance(p1)); } break;
        case 34: { vec a = c.sorted(5, 268, 292), b = c.sorted(5, 268, 292); ser(o, apply_curve(s.va, a, b, c.extra(), c.extra())); ser(o, calc_quantile(s.va, (float)c.g.uniform())); } break;
        case 35: case 36: {
            const Points &p = op == 35 ? s.p : s.q; ivec I = s.q.get_in_domain_indices(s.a);
            if (op == 35) I = p.get_in_domain_indices(s.b); else if (c.g.chance(0.7)) { I.clear(); for (int i = 0; i < p.size(); i++) if (c.g.chance(0.6)) I.push_back(p.size() - 1 - i); }
            vec la, lo, el, lf; for (size_t k = 0; k < I.size(); k++) { la.push_back(p.get_lats()[I[k]]); lo.push_back(p.get_lons()[I[k]]); el.push_back(p.get_elevs()[I[k]]); lf.push_back(p.get_lafs()[I[k]]); }
            Points want(la, lo, el, lf, s.t);
            if (op == 35) derived("get_in_domain", p.get_in_domain(s.b), want, o); else derived("subset", p.subset(I), want, o);
            break; }
        case 37: { bool full = c.g.chance(0.5); vec el, lf; if (full) { el = s.p.get_elevs(); lf = s.p.get_lafs(); } derived("points made from a search tree", Points(s.k, el, lf), Points(s.k.get_lats(), s.k.get_lons(), el, lf, s.t), o); } break;
        default: { vec la, lo, el, lf; for (int i = 0; i < za[0]; i++) for (int j = 0; j < za[1]; j++) { la.push_back(s.a.get_lats()[i][j]); lo.push_back(s.a.get_lons()[i][j]); el.push_back(s.a.get_elevs()[i][j]); lf.push_back(s.a.get_lafs()[i][j]); }
            Points got = s.a.to_points(); derived("to_points", got, Points(la, lo, el, lf, s.t), o);
            for (int i = 0; i < 4; i++) { ivec v = got.get_neighbours(ql[i], qo[i], r); std::sort(v.begin(), v.end()); ser(o, v); } } break;
        }
    }
    catch (std::exception &e) { o.tag('!'); ser(o, std::string(e.what())); }
}

// ---- copies. `how` picks the way, `r` the details; `z` is another value of the same type
template <class T> static T through(const T &x, const T &z, Rng &r) {
    switch (r.below(8)) {
    case 0: { T y(z); y = x; return y; }
    case 1: { std::vector<T> v; v.push_back(x); int n = r.range(1, 6); for (int i = 0; i < n; i++) v.push_back(z); v.erase(v.begin() + 1); return v[0]; }
    case 2: { std::vector<T> v; int n = r.range(1, 4); for (int i = 0; i < n; i++) v.push_back(z); v.insert(v.begin(), x); std::reverse(v.begin(), v.end()); return v.back(); }
    case 3: { T y(z), w(x); std::swap(y, w); return y; }
    case 4: { T *p = new T(x); T q(*p); delete p; return q; }
    case 5: { T y(x); T &same = y; y = same; return y; }
    case 6: { T y(x); T w(z); w = std::move(y); T u(std::move(w)); return u; }
    default: return x;
    }
}
static Points more(const Points &x, CoordinateType t, Rng &r) {
    ivec I; for (int i = 0; i < x.size(); i++) I.push_back(i);
    switch (r.below(6)) {
    case 0: return x.subset(I);
    case 1: return Points(KDTree(x.get_lats(), x.get_lons(), t), x.get_elevs(), x.get_lafs());
    case 2: return Points(x.get_lats(), x.get_lons(), x.get_elevs(), x.get_lafs(), x.get_coordinate_type());
    default: return x;
    }
}
template <class T> static StructureFunctionPtr as(const StructureFunctionPtr &s) { T *p = dynamic_cast<T *>(s.get()); return p ? StructureFunctionPtr(std::make_shared<T>(*p)) : StructureFunctionPtr(); }
static StructureFunctionPtr copy_of(const StructureFunctionPtr &s, Rng &r) {
    switch (r.below(4)) {
    case 0: return s->clone();
    case 1: return s->clone()->clone();
    case 2: { StructureFunctionPtr p = as<BarnesStructure>(s); if (!p) p = as<SoarStructure>(s); if (!p) p = as<ToarStructure>(s); if (!p) p = as<PowerlawStructure>(s); if (!p) p = as<LinearStructure>(s); if (!p) p = as<CressmanStructure>(s); if (!p) p = as<MultipleStructure>(s); if (!p) p = as<CrossValidation>(s); return p ? p : s->clone(); }
    default: { StructureFunctionPtr p = s->clone(); std::vector<StructureFunctionPtr> v(3, p); p.reset(); return v[2]->clone(); }
    }
}
// dst takes on the value of src; which fields first, and how, is drawn from the seed
void shared_assign(SharedObjs *d, const SharedObjs *x, const SharedObjs *z, uint64_t seed) {
    Rng r(seed); int from = r.below(12);
    for (int k = 0; k < 12; k++) switch ((from + k * 5) % 12) {
    case 0: if (r.chance(0.3)) d->a = x->a; else d->a = through(x->a, z->a, r); break;
    case 1: if (r.chance(0.3)) d->b = x->b; else d->b = through(x->b, z->b, r); break;
    case 2: if (r.chance(0.3)) d->p = x->p; else d->p = through(more(x->p, x->t, r), z->p, r); break;
    case 3: if (r.chance(0.3)) d->q = x->q; else d->q = through(more(x->q, x->t, r), z->q, r); break;
    case 4: if (r.chance(0.3)) d->k = x->k; else d->k = r.chance(0.2) ? KDTree(x->k.get_lats(), x->k.get_lons(), x->t) : through(x->k, z->k, r); break;
    case 5: d->s = copy_of(x->s, r); break;
    case 6: d->bc = through(x->bc, z->bc, r); break;
    case 7: d->lg = through(x->lg, z->lg, r); break;
    case 8: d->gm = through(x->gm, z->gm, r); break;
    case 9: d->va = x->va; d->ea = x->ea; break;
    case 10: d->vp = x->vp; d->vq = x->vq; d->ga = x->ga; break;
    default: d->t = x->t; d->c = x->c; break;
    }
}
SharedObjs *shared_copy(const SharedObjs *x, const SharedObjs *z, uint64_t seed) {
    if (seed % 3 == 0) return new SharedObjs(*x);       // every field by its copy constructor
    std::unique_ptr<SharedObjs> d(new SharedObjs); if (seed % 3 == 1) *d = *z;
    shared_assign(d.get(), x, z, seed); return d.release();
}
// partly the same as before: latitudes alone, coordinates alone
void shared_vary(SharedObjs *s) {
    vec lo = s->p.get_lons(), el = s->q.get_elevs(); std::reverse(lo.begin(), lo.end()); std::reverse(el.begin(), el.end());
    s->p = Points(s->p.get_lats(), lo, s->p.get_elevs(), s->p.get_lafs(), s->t); s->q = Points(s->q.get_lats(), s->q.get_lons(), el, s->q.get_lafs(), s->t);
    s->k = KDTree(s->k.get_lats(), lo, s->t);
    vec2 e = s->a.get_elevs(), ol = s->b.get_lons(); std::reverse(e.begin(), e.end()); for (size_t i = 0; i < ol.size(); i++) std::reverse(ol[i].begin(), ol[i].end());
    s->a = Grid(s->a.get_lats(), s->a.get_lons(), e, s->a.get_lafs(), s->t); s->b = Grid(s->b.get_lats(), ol, s->b.get_elevs(), s->b.get_lafs(), s->t);
}
void shared_swap(SharedObjs *x, SharedObjs *y) { std::swap(*x, *y); }
void shared_free(SharedObjs *x) { delete x; }
void shared_types(SharedObjs *s, Buf &o) { ser(o, (int)s->t); ser(o, (int)s->a.get_coordinate_type()); ser(o, (int)s->b.get_coordinate_type()); ser(o, (int)s->p.get_coordinate_type()); ser(o, (int)s->q.get_coordinate_type()); ser(o, (int)s->k.get_coordinate_type()); shared_ser(s, o); }
