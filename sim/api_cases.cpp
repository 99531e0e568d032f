#include "api.h"
#include <memory>
using namespace gridpp;
std::vector<Case> &cases() { static std::vector<Case> v; return v; }
ApiFlags *g_flags;

StructureFunctionPtr Ctx::structure(CoordinateType t, bool spatial_ok) {
    Obj one_(*this);
    double sc = t == Geodetic ? 1 : 0.15;
    float h = (float)(sc * (5000 + 80000 * gv.uniform()));
    float v = g.chance(0.5) ? 0 : (float)(50 + 500 * gv.uniform());
    float w = g.chance(0.7) ? 0 : (float)(0.2 + 0.8 * gv.uniform());
    int k = std::min(8, (int)g.below(11)), sp = g.below(6);
    if (k == 8 && !spatial_ok) k = 0;
    auto made = [&](const auto &x) { return direct ? StructureFunctionPtr(std::make_shared<std::decay_t<decltype(x)>>(x)) : x.clone(); };
    switch (k) {
    case 1: return g.chance(0.5) ? made(SoarStructure(h, v, w)) : made(SoarStructure(h, v, w, h * 2));
    case 2: return g.chance(0.5) ? made(ToarStructure(h, v, w)) : made(ToarStructure(h, v, w, h * 2));
    case 3: return g.chance(0.3) ? made(PowerlawStructure(h, v, w)) : made(PowerlawStructure(h, v, w, h * 3));
    case 4: return made(LinearStructure(g.chance(0.5) ? (float)g.uniform() : h, g.chance(0.5) ? 0 : (float)g.uniform(), g.chance(0.5) ? 0 : (float)g.uniform(), h * 2));
    case 5: return made(CressmanStructure(h * 2, v, w));
    case 6: { std::unique_ptr<BarnesStructure> b(new BarnesStructure(h, v, w)); return made(CrossValidation(*b, h / 4)); }     // the parts do not outlive this call
    case 7: { std::unique_ptr<BarnesStructure> a(new BarnesStructure(h)), d(new BarnesStructure(0.5, 0, 0.5)); std::unique_ptr<SoarStructure> b(new SoarStructure(200, 200)); return made(MultipleStructure(*a, *b, *d)); }
    case 8: { Grid q = grid(t); ivec s = q.size(); vec2 hh = u2(s[0], s[1], h / 2, h), vv = u2(s[0], s[1], 100, 500), ww = u2(s[0], s[1], 0.2, 0.8); switch (sp) { case 0: return made(SoarStructure(q, hh, vv, ww)); case 1: return made(ToarStructure(q, hh, vv, ww)); case 2: return made(PowerlawStructure(q, hh, vv, ww)); case 3: return made(LinearStructure(q, hh, vv, ww)); default: return made(BarnesStructure(q, hh, vv, ww)); } }
    default: return g.chance(0.5) ? made(BarnesStructure(h, v, w)) : made(BarnesStructure(h, v, w, h * 2));
    }
}
static ivec sz(const Grid &g) { return g.size(); }
// ============================================================ S01 downscaling
#define GG CoordinateType t = c.ct(); Grid ig = c.grid(t), og = c.grid(t); ivec is = sz(ig), os = sz(og); c.kind(); c.in(ig); c.in(og); (void)os; (void)is;
#define GGE CoordinateType t = c.ct(); Grid ig = c.gridE(t), og = c.gridE(t); ivec is = sz(ig), os = sz(og); c.kind(); c.in(ig); c.in(og); (void)os; (void)is;
#define GP CoordinateType t = c.ct(); Grid ig = c.grid(t); Points op = c.points(t); ivec is = sz(ig); c.kind(); c.in(ig); c.in(op);
#define GPE CoordinateType t = c.ct(); Grid ig = c.gridE(t); Points op = c.points(t, -1, true); ivec is = sz(ig); c.kind(); c.in(ig); c.in(op);
CASE(S01, nearest_gg2, 0) { GG vec2 v = c.v2(is[0], is[1]); c.in(v); c.run([&] { return nearest(ig, og, v); }); }
CASE(S01, nearest_gg3, 0) { GG vec3 v = c.v3(c.ens(), is[0], is[1]); c.in(v); c.run([&] { return nearest(ig, og, v); }); }
CASE(S01, nearest_gp2, 0) { GP vec2 v = c.v2(is[0], is[1]); c.in(v); c.run([&] { return nearest(ig, op, v); }); }
CASE(S01, nearest_gp3, 0) { GP vec3 v = c.v3(c.ens(), is[0], is[1]); c.in(v); c.run([&] { return nearest(ig, op, v); }); }
CASE(S01, nearest_pp1, 0) { CoordinateType t = c.ct(); Points ip = c.points(t), op = c.points(t); c.kind(); vec v = c.v1(ip.size()); c.in(v); c.in(ip); c.in(op); c.run([&] { return nearest(ip, op, v); }); }
CASE(S01, nearest_pp2, 0) { CoordinateType t = c.ct(); Points ip = c.points(t), op = c.points(t); c.kind(); vec2 v = c.v2(c.ens(), ip.size()); c.in(v); c.run([&] { return nearest(ip, op, v); }); }
CASE(S01, nearest_pg1, 0) { CoordinateType t = c.ct(); Points ip = c.points(t); Grid og = c.grid(t); c.kind(); vec v = c.v1(ip.size()); c.in(v); c.run([&] { return nearest(ip, og, v); }); }
CASE(S01, nearest_pg2, 0) { CoordinateType t = c.ct(); Points ip = c.points(t); Grid og = c.grid(t); c.kind(); vec2 v = c.v2(c.ens(), ip.size()); c.in(v); c.run([&] { return nearest(ip, og, v); }); }
CASE(S01, bilinear_gg2, 0) { c.pcart = 0.05; GG vec2 v = c.v2(is[0], is[1]); c.in(v); c.run([&] { return bilinear(ig, og, v); }); }
CASE(S01, bilinear_gg3, 0) { c.pcart = 0.05; GG vec3 v = c.v3(c.ens(), is[0], is[1]); c.in(v); c.run([&] { return bilinear(ig, og, v); }); }
CASE(S01, bilinear_gp2, 0) { c.pcart = 0.05; GP vec2 v = c.v2(is[0], is[1]); c.in(v); c.run([&] { return bilinear(ig, op, v); }); }
CASE(S01, bilinear_gp3, 0) { c.pcart = 0.05; GP vec3 v = c.v3(c.ens(), is[0], is[1]); c.in(v); c.run([&] { return bilinear(ig, op, v); }); }
CASE(S01, downscaling_gg2, 0) { GG Downscaler d = c.ds(); vec2 v = c.v2(is[0], is[1]); c.in(v); c.run([&] { return downscaling(ig, og, v, d); }); }
CASE(S01, downscaling_gg3, 0) { GG Downscaler d = c.ds(); vec3 v = c.v3(c.ens(), is[0], is[1]); c.in(v); c.run([&] { return downscaling(ig, og, v, d); }); }
CASE(S01, downscaling_gp2, 0) { GP Downscaler d = c.ds(); vec2 v = c.v2(is[0], is[1]); c.in(v); c.run([&] { return downscaling(ig, op, v, d); }); }
CASE(S01, downscaling_gp3, 0) { GP Downscaler d = c.ds(); vec3 v = c.v3(c.ens(), is[0], is[1]); c.in(v); c.run([&] { return downscaling(ig, op, v, d); }); }
CASE(S01, simple_gradient_gg2, 0) { GGE Downscaler d = c.ds(); vec2 v = c.v2(is[0], is[1]); c.in(v); c.run([&] { return simple_gradient(ig, og, v, -0.0065f, d); }); }
CASE(S01, simple_gradient_gg3, 0) { GGE Downscaler d = c.ds(); vec3 v = c.v3(c.ens(), is[0], is[1]); c.in(v); c.run([&] { return simple_gradient(ig, og, v, -0.0065f, d); }); }
CASE(S01, simple_gradient_gp2, 0) { GPE Downscaler d = c.ds(); vec2 v = c.v2(is[0], is[1]); c.in(v); c.run([&] { return simple_gradient(ig, op, v, -0.0065f, d); }); }
CASE(S01, simple_gradient_gp3, 0) { GPE Downscaler d = c.ds(); vec3 v = c.v3(c.ens(), is[0], is[1]); c.in(v); c.run([&] { return simple_gradient(ig, op, v, -0.0065f, d); }); }
CASE(S01, full_gradient_gg2, 0) { GGE Downscaler d = c.ds(); vec2 v = c.v2(is[0], is[1]), e = c.u2(is[0], is[1], -0.01, 0.01), l = c.g.chance(0.3) ? vec2() : c.u2(is[0], is[1], -5, 5); c.in(v); c.run([&] { return full_gradient(ig, og, v, e, l, d); }); }
CASE(S01, full_gradient_gg3, 0) { GGE Downscaler d = c.ds(); int E = c.ens(); vec3 v = c.v3(E, is[0], is[1]), e = c.u3(E, is[0], is[1], -0.01, 0.01), l = c.g.chance(0.3) ? vec3() : c.u3(E, is[0], is[1], -5, 5); if (c.g.chance(0.2)) e.clear(); c.in(v); c.run([&] { return full_gradient(ig, og, v, e, l, d); }); }
CASE(S01, full_gradient_gp2, 0) { GPE Downscaler d = c.ds(); vec2 v = c.v2(is[0], is[1]), e = c.u2(is[0], is[1], -0.01, 0.01), l = c.g.chance(0.3) ? vec2() : c.u2(is[0], is[1], -5, 5); c.in(v); c.run([&] { return full_gradient(ig, op, v, e, l, d); }); }
CASE(S01, full_gradient_gp3, 0) { GPE Downscaler d = c.ds(); int E = c.ens(); vec3 v = c.v3(E, is[0], is[1]), e = c.u3(E, is[0], is[1], -0.01, 0.01), l = c.g.chance(0.3) ? vec3() : c.u3(E, is[0], is[1], -5, 5); c.in(v); c.run([&] { return full_gradient(ig, op, v, e, l, d); }); }
CASE(S01, full_gradient_debug, 0) { GGE Downscaler d = c.ds(); vec2 v = c.v2(is[0], is[1]), e = c.u2(is[0], is[1], -0.01, 0.01), l = c.u2(is[0], is[1], -5, 5); c.run([&] { return full_gradient_debug(ig, og, v, e, l, d); }); }
CASE(S01, smart, 0) { GGE StructureFunctionPtr s = c.structure(t); vec2 v = c.v2(is[0], is[1]); int n = c.some(1, 5); c.in(v); c.run([&] { return smart(ig, og, v, n, *s); }); }
CASE(S01, downscale_probability, 0) { GG vec3 v = c.v3(is[0], is[1], c.ens()); vec2 th = c.v2(os[0], os[1]); ComparisonOperator o = c.cmp(); c.in(v); c.in(th); c.run([&] { return downscale_probability(ig, og, v, th, o); }); }
CASE(S01, mask_consensus, 0) { GG int E = c.ens(); vec3 a = c.v3(is[0], is[1], E), b = c.v3(is[0], is[1], E), d = c.v3(is[0], is[1], E); vec2 th = c.v2(os[0], os[1]); ComparisonOperator o = c.cmp(); Statistic st = c.stat(); c.in(a); c.in(th); c.run([&] { return mask_threshold_downscale_consensus(ig, og, a, b, d, th, o, st); }); }
CASE(S01, mask_quantile, 0) { GG int E = c.ens(); vec3 a = c.v3(is[0], is[1], E), b = c.v3(is[0], is[1], E), d = c.v3(is[0], is[1], E); vec2 th = c.v2(os[0], os[1]); ComparisonOperator o = c.cmp(); float q = (float)c.g.uniform(); c.in(a); c.in(th); c.run([&] { return mask_threshold_downscale_quantile(ig, og, a, b, d, th, o, q); }); }

// ============================================================ S02 neighbourhood
#define F2 int Y = c.dim(), X = c.dim(); c.kind(); vec2 v = c.v2(Y, X); int hw = c.g.range(0, c.g.chance(0.2) ? 8 : 3); c.in(v);
#define F3 int Y = c.dim(), X = c.dim(), E = c.ens(); c.kind(); vec3 v = c.v3(Y, X, E); int hw = c.g.range(0, c.g.chance(0.2) ? 8 : 3); c.in(v);
CASE(S02, neighbourhood2, 0) { F2 Statistic s = c.stat(); c.run([&] { return neighbourhood(v, hw, s); }); }
CASE(S02, neighbourhood3, 0) { F3 Statistic s = c.stat(); c.run([&] { return neighbourhood(v, hw, s); }); }
CASE(S02, neighbourhood_quantile2, 0) { F2 float q = c.g.chance(0.3) ? (float)c.g.below(2) : (float)c.g.uniform(); c.run([&] { return neighbourhood_quantile(v, q, hw); }); }
CASE(S02, neighbourhood_quantile3, 0) { F3 float q = (float)c.g.uniform(); c.run([&] { return neighbourhood_quantile(v, q, hw); }); }
CASE(S02, neighbourhood_qf2, 0) { F2 vec th = c.sorted(c.some(1, 8), -2, 12); float q = c.g.chance(0.2) ? (float)c.g.below(2) : (float)c.g.uniform(); c.in(th); c.run([&] { return neighbourhood_quantile_fast(v, q, hw, th); }); }
CASE(S02, neighbourhood_qf3, 0) { F3 vec th = c.sorted(c.g.range(1, 8), -2, 12); float q = (float)c.g.uniform(); c.in(th); c.run([&] { return neighbourhood_quantile_fast(v, q, hw, th); }); }
CASE(S02, neighbourhood_qfv2, 0) { F2 vec th = c.sorted(c.g.range(1, 8), -2, 12); vec2 q = c.u2(Y, X, 0, 1); c.in(th); c.in(q); c.run([&] { return neighbourhood_quantile_fast(v, q, hw, th); }); }
CASE(S02, neighbourhood_qfv3, 0) { F3 vec th = c.sorted(c.g.range(1, 8), -2, 12); vec2 q = c.u2(Y, X, 0, 1); c.in(th); c.in(q); c.run([&] { return neighbourhood_quantile_fast(v, q, hw, th); }); }
CASE(S02, neighbourhood_bf2, 0) { F2 Statistic s = c.stat(); c.run([&] { return neighbourhood_brute_force(v, hw, s); }); }
CASE(S02, neighbourhood_bf3, 0) { F3 Statistic s = c.stat(); c.run([&] { return neighbourhood_brute_force(v, hw, s); }); }
CASE(S02, neighbourhood_thr2, 0) { F2 int n = c.some(1, 12); (void)hw; c.run([&] { return get_neighbourhood_thresholds(v, n); }); }
CASE(S02, neighbourhood_thr3, 0) { F3 int n = c.g.range(1, 12); (void)hw; c.run([&] { return get_neighbourhood_thresholds(v, n); }); }
CASE(S02, neighbourhood_ens_dep, 0) { F3 Statistic s = c.stat(); c.run([&] { return neighbourhood_ens(v, hw, s); }); }
CASE(S02, neighbourhood_qens_dep, 0) { F3 c.run([&] { return neighbourhood_quantile_ens(v, 0.7f, hw); }); }
CASE(S02, neighbourhood_qfens_dep, 0) { F3 vec th = c.sorted(c.g.range(1, 8), -2, 12); float q = (float)c.g.uniform(); c.in(th); c.run([&] { return neighbourhood_quantile_ens_fast(v, q, hw, th); }); }
CASE(S02, calc_gradient, 0) { F2 vec2 b = c.elevs(Y, X); GradientType gt = c.g.chance(0.5) ? MinMax : LinearRegression; int mn = c.g.range(2, 5); float mr = c.g.chance(0.3) ? MV : 100.0f; c.in(b); c.run([&] { return calc_gradient(b, v, gt, hw, mn, mr, 0.5f); }); }
CASE(S02, neighbourhood_search, 0) { F2 vec2 s = c.u2(Y, X, 0, 1); if (c.g.chance(0.4)) for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) if (c.g.chance(0.2)) s[i][j] = MV; ivec2 ap; if (c.g.chance(0.5)) { ap = init_ivec2(Y, X, 0); for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) ap[i][j] = c.g.below(2); } c.in(s); c.in(ap); c.run([&] { return neighbourhood_search(v, s, hw, 0.7f, 1.0f, 0.2f, ap); }); }
CASE(S02, neighbourhood_score, 0) { CoordinateType t = c.ct(); Grid g = c.grid(t); Points p = c.points(t); ivec s = sz(g); c.kind(); vec2 f = c.v2(s[0], s[1]); vec r = c.v1(p.size()); int hw = c.g.range(0, 3); Metric m = c.metric(); c.in(f); c.in(r); c.run([&] { return neighbourhood_score(g, p, f, r, hw, m, 3.0f); }); }

// ============================================================ S03 assimilation
struct Oi { CoordinateType t; Points op; int S; vec obs, ratios, bap; StructureFunctionPtr st; int maxp; bool ex; };
static Oi mkoi(Ctx &c) {
    Oi o; o.t = c.ct(); int n = c.g.chance(0.1) ? 0 : c.g.range(1, c.cap < 10 ? c.cap : 12); if (c.cap >= 7 && c.g.chance(0.05)) n = c.g.range(13, c.g.chance(0.25) ? 130 : 40);
    o.op = c.points(o.t, n, true); o.S = n; c.vkind = 2; c.miss = c.g.chance(0.2) ? 0.2 : 0;
    o.obs = c.v1(n); c.miss = 0; o.ratios = c.u1(n, 0.05, 2); o.bap = c.u1(n, 270, 290); o.st = c.structure(o.t);
    o.maxp = c.g.chance(0.4) ? 0 : c.g.range(1, 6); o.ex = c.g.chance(0.5);
    return o;
}
// sometimes a member that is missing somewhere, or members without spread at a place
static void spoil(Ctx &c, vec3 &b) { if (b.empty() || b[0].empty()) return; int y = c.g.below(b.size()), x = c.g.below(b[0].size()), E = b[0][0].size(), e = c.g.below(E); if (c.g.chance(0.25)) b[y][x][e] = MV; if (c.g.chance(0.15)) for (int k = 0; k < E; k++) b[y][x][k] = 280; }
static void spoil(Ctx &c, vec2 &b) { if (b.empty()) return; int y = c.g.below(b.size()), E = b[0].size(), e = c.g.below(E); if (c.g.chance(0.15)) b[y][e] = MV; if (c.g.chance(0.15)) for (int k = 0; k < E; k++) b[y][k] = 280; }
static Grid oigrid(Ctx &c, CoordinateType t) { int a = c.g.range(1, c.cap < 7 ? c.cap : 7), b = c.g.range(1, c.cap < 7 ? c.cap : 7); if (c.cap >= 7 && c.g.chance(0.04)) (c.g.chance(0.5) ? a : b) = c.g.range(8, 40); return c.gridE(t, a, b); }
CASE(S03, oi_grid, CF_HEAVY) { Oi o = mkoi(c); Grid g = oigrid(c, o.t); ivec s = sz(g); c.miss = c.g.chance(0.2) ? 0.1 : 0; vec2 b = c.v2(s[0], s[1]); c.in(g); c.in(o.op); c.in(o.obs); c.in(o.ratios); c.in(o.bap); c.in(b); c.run([&] { return optimal_interpolation(g, b, o.op, o.obs, o.ratios, o.bap, *o.st, o.maxp, o.ex); }); }
CASE(S03, oi_points, CF_HEAVY) { Oi o = mkoi(c); Points g = c.points(o.t, c.cap >= 7 && c.g.chance(0.05) ? c.g.range(13, 80) : c.g.range(1, 12), true); vec b = c.v1(g.size()); c.in(g); c.in(b); c.run([&] { return optimal_interpolation(g, b, o.op, o.obs, o.ratios, o.bap, *o.st, o.maxp, o.ex); }); }
CASE(S03, oi_full_grid, CF_HEAVY) { Oi o = mkoi(c); Grid g = oigrid(c, o.t); ivec s = sz(g); vec2 b = c.v2(s[0], s[1]), bv = c.u2(s[0], s[1], 0.5, 2); vec ov = c.u1(o.S, 0.1, 1), bvp = c.u1(o.S, 0.5, 2); c.in(b); c.in(bv); c.run([&] { vec2 av; vec2 r = optimal_interpolation_full(g, b, bv, o.op, o.obs, ov, o.bap, bvp, *o.st, o.maxp, av, o.ex); return std::make_pair(r, av); }); }
CASE(S03, oi_full_points, CF_HEAVY) { Oi o = mkoi(c); Points g = c.points(o.t, c.cap >= 7 && c.g.chance(0.05) ? c.g.range(13, 80) : c.g.range(1, 12), true); vec b = c.v1(g.size()), bv = c.u1(g.size(), 0.5, 2); vec ov = c.u1(o.S, 0.1, 1), bvp = c.u1(o.S, 0.5, 2); c.run([&] { vec av; vec r = optimal_interpolation_full(g, b, bv, o.op, o.obs, ov, o.bap, bvp, *o.st, o.maxp, av, o.ex); return std::make_pair(r, av); }); }
CASE(S03, oi_ensi_grid, CF_HEAVY) { Oi o = mkoi(c); Grid g = oigrid(c, o.t); ivec s = sz(g); int E = c.g.range(2, 5); vec3 b = c.v3(s[0], s[1], E); vec sd = c.u1(o.S, 0.2, 2); vec2 bp = c.u2(o.S, E, 270, 290); spoil(c, b); spoil(c, bp); c.in(b); c.in(bp); c.run([&] { return optimal_interpolation_ensi(g, b, o.op, o.obs, sd, bp, *o.st, o.maxp, o.ex); }); }
CASE(S03, oi_ensi_points, CF_HEAVY) { Oi o = mkoi(c); Points g = c.points(o.t, c.g.range(1, 10), true); int E = c.g.range(2, 5); vec2 b = c.v2(g.size(), E); vec sd = c.u1(o.S, 0.2, 2); vec2 bp = c.u2(o.S, E, 270, 290); spoil(c, b); spoil(c, bp); c.run([&] { return optimal_interpolation_ensi(g, b, o.op, o.obs, sd, bp, *o.st, o.maxp, o.ex); }); }
CASE(S03, oi_multi_ebe, CF_HEAVY) { Oi o = mkoi(c); Grid g = oigrid(c, o.t); ivec s = sz(g); int E = c.g.range(2, 5); vec2 br = c.u2(s[0], s[1], 0.5, 1.5); vec3 b = c.v3(s[0], s[1], E), bc = c.v3(s[0], s[1], E); vec2 po = c.u2(o.S, E, 270, 290), pb = c.u2(o.S, E, 270, 290), pbc = c.u2(o.S, E, 270, 290); spoil(c, b); spoil(c, bc); spoil(c, pb); spoil(c, pbc); c.run([&] { return optimal_interpolation_ensi_multi_ebe(g, br, b, bc, o.op, po, o.ratios, pb, pbc, *o.st, o.maxp, o.ex); }); }
CASE(S03, oi_multi_ebesc, CF_HEAVY) { Oi o = mkoi(c); Grid g = oigrid(c, o.t); ivec s = sz(g); int E = c.g.range(2, 5); vec2 br = c.u2(s[0], s[1], 0.5, 1.5); vec3 b = c.v3(s[0], s[1], E); vec2 po = c.u2(o.S, E, 270, 290), pb = c.u2(o.S, E, 270, 290); spoil(c, b); spoil(c, pb); c.run([&] { return optimal_interpolation_ensi_multi_ebesc(g, br, b, o.op, po, o.ratios, pb, *o.st, o.maxp, o.ex); }); }
CASE(S03, oi_multi_utem, CF_HEAVY) { Oi o = mkoi(c); Grid g = oigrid(c, o.t); ivec s = sz(g); int E = c.g.range(2, 5); vec2 br = c.u2(s[0], s[1], 0.5, 1.5); vec3 b = c.v3(s[0], s[1], E), bc = c.v3(s[0], s[1], E); vec2 pb = c.u2(o.S, E, 270, 290), pbc = c.u2(o.S, E, 270, 290); spoil(c, b); spoil(c, bc); spoil(c, pb); spoil(c, pbc); c.run([&] { return optimal_interpolation_ensi_multi_utem(g, br, b, bc, o.op, o.obs, o.ratios, pb, pbc, *o.st, o.maxp, o.ex); }); }
CASE(S03, oi_multi_points, CF_HEAVY) { Oi o = mkoi(c); Points g = c.points(o.t, c.g.range(1, 8), true); int N = g.size(), E = c.g.range(2, 5); vec br = c.u1(N, 0.5, 1.5); vec2 b = c.v2(N, E), bc = c.v2(N, E); vec2 po = c.u2(o.S, E, 270, 290), pb = c.u2(o.S, E, 270, 290), pbc = c.u2(o.S, E, 270, 290); int k = c.g.below(3); spoil(c, b); spoil(c, bc); spoil(c, pb); spoil(c, pbc); 
    c.run([&] { return k == 0 ? optimal_interpolation_ensi_multi_ebe(g, br, b, bc, o.op, po, o.ratios, pb, pbc, *o.st, o.maxp, o.ex) : k == 1 ? optimal_interpolation_ensi_multi_ebesc(g, br, b, o.op, po, o.ratios, pb, *o.st, o.maxp, o.ex) : optimal_interpolation_ensi_multi_utem(g, br, b, bc, o.op, o.obs, o.ratios, pb, pbc, *o.st, o.maxp, o.ex); }); }
CASE(S03, staticcorr, CF_HEAVY) { CoordinateType t = c.ct(); Points a = c.points(t, c.g.range(1, 10), true), k = c.points(t, c.g.range(1, 10), true); StructureFunctionPtr s = c.structure(t); int m = c.g.chance(0.5) ? 0 : c.g.range(1, 6); c.in(a); c.in(k); c.run([&] { return staticcorr_points(a, k, *s, m); }); }
CASE(S03, ldc1, CF_HEAVY) { Oi o = mkoi(c); Grid g = oigrid(c, o.t); ivec s = sz(g); vec2 b = c.v2(s[0], s[1]); float q0 = (float)(0.4 * c.g.uniform()), q1 = (float)(0.6 + 0.4 * c.g.uniform()); int mp = c.g.below(4); c.in(b); c.run([&] { return local_distribution_correction(g, b, o.op, o.obs, o.bap, *o.st, q0, q1, mp); }); }
CASE(S03, ldc2, CF_HEAVY) { Oi o = mkoi(c); Grid g = oigrid(c, o.t); ivec s = sz(g); vec2 b = c.v2(s[0], s[1]); int T = c.g.range(1, 3); vec2 ob = c.u2(T, o.S, 270, 290), bp = c.u2(T, o.S, 270, 290); float q0 = (float)(0.4 * c.g.uniform()), q1 = (float)(0.6 + 0.4 * c.g.uniform()); int mp = c.g.below(4); c.run([&] { return local_distribution_correction(g, b, o.op, ob, bp, *o.st, q0, q1, mp); }); }
CASE(S03, fill, 0) { CoordinateType t = c.ct(); Grid g = c.grid(t); ivec s = sz(g); Points p = c.points(t); c.kind(); vec2 v = c.v2(s[0], s[1]); vec r = c.u1(p.size(), 100, 20000); bool o = c.g.chance(0.5); c.in(v); c.run([&] { return fill(g, v, p, r, 9.0f, o); }); }
CASE(S03, doping_square, 0) { CoordinateType t = c.ct(); Grid g = c.gridE(t); ivec s = sz(g); Points p = c.points(t, -1, true); c.kind(); vec2 v = c.v2(s[0], s[1]); vec ob = c.v1(p.size()); ivec hw(p.size()); for (size_t i = 0; i < hw.size(); i++) hw[i] = c.g.below(3); float me = c.g.chance(0.5) ? MV : 300.0f; c.in(v); c.run([&] { return doping_square(g, v, p, ob, hw, me); }); }
CASE(S03, doping_circle, 0) { CoordinateType t = c.ct(); Grid g = c.gridE(t); ivec s = sz(g); Points p = c.points(t, -1, true); c.kind(); vec2 v = c.v2(s[0], s[1]); vec ob = c.v1(p.size()); vec r = c.u1(p.size(), 100, 20000); float me = c.g.chance(0.5) ? MV : 300.0f; c.in(v); c.run([&] { return doping_circle(g, v, p, ob, r, me); }); }

// ============================================================ S04 gridding, count, distance
#define PG CoordinateType t = c.ct(); Grid g = c.grid(t); Points p = c.points(t); c.kind(); vec v = c.v1(p.size()); int mn = c.g.below(4); Statistic st = c.stat(); float r = c.radius(t); c.in(g); c.in(p); c.in(v); (void)mn; (void)r; (void)st;
#define PP CoordinateType t = c.ct(); Points g = c.points(t), p = c.points(t); c.kind(); vec v = c.v1(p.size()); int mn = c.g.below(4); Statistic st = c.stat(); float r = c.radius(t); c.in(g); c.in(p); c.in(v); (void)mn; (void)r; (void)st;
CASE(S04, gridding_g, 0) { PG c.run([&] { return gridding(g, p, v, r, mn, st); }); }
CASE(S04, gridding_p, 0) { PP c.run([&] { return gridding(g, p, v, r, mn, st); }); }
CASE(S04, gridding_nearest_g, 0) { PG c.run([&] { return gridding_nearest(g, p, v, mn, st); }); }
CASE(S04, gridding_nearest_p, 0) { PP c.run([&] { return gridding_nearest(g, p, v, mn, st); }); }
CASE(S04, count_gp, 0) { PG c.run([&] { return count(g, p, r); }); }
CASE(S04, count_pg, 0) { PG c.run([&] { return count(p, g, r); }); }
CASE(S04, count_pp, 0) { PP c.run([&] { return count(g, p, r); }); }
CASE(S04, count_gg, 0) { CoordinateType t = c.ct(); Grid a = c.grid(t), b = c.grid(t); float r = c.radius(t); c.run([&] { return count(a, b, r); }); }
CASE(S04, distance_gp, 0) { PG int n = c.some(1, 4); c.run([&] { return distance(g, p, n); }); }
CASE(S04, distance_pg, 0) { PG int n = c.some(1, 4); c.run([&] { return distance(p, g, n); }); }
CASE(S04, distance_pp, 0) { PP int n = c.some(1, 4); c.run([&] { return distance(g, p, n); }); }
CASE(S04, distance_gg, 0) { CoordinateType t = c.ct(); Grid a = c.grid(t), b = c.grid(t); int n = c.some(1, 4); c.run([&] { return distance(a, b, n); }); }
CASE(S04, fill_missing, 0) { int Y = c.dim(), X = c.dim(); c.kind(); vec2 v = c.v2(Y, X); c.in(v); c.run([&] { return fill_missing(v); }); }

// ============================================================ S05 calibration and quantiles
CASE(S05, apply_curve1, 0) { c.kind(); vec f = c.v1(c.dim() * c.dim()); int n = c.some(1, 9); vec a = c.sorted(n, -3, 15), b = c.sorted(n, -3, 15); Extrapolation e1 = c.extra(), e2 = c.extra(); c.in(f); c.in(a); c.in(b); c.run([&] { return apply_curve(f, a, b, e1, e2); }); }
CASE(S05, apply_curve2, 0) { c.kind(); vec2 f = c.v2(c.dim(), c.dim()); int n = c.some(1, 9); vec a = c.sorted(n, -3, 15), b = c.sorted(n, -3, 15); Extrapolation e1 = c.extra(), e2 = c.extra(); c.in(f); c.run([&] { return apply_curve(f, a, b, e1, e2); }); }
CASE(S05, apply_curve3, 0) { c.kind(); int Y = c.dim(), X = c.dim(); vec2 f = c.v2(Y, X); int n = c.g.range(1, 6); vec3 a(Y), b(Y); for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) { a[i].push_back(c.sorted(n, -3, 15)); b[i].push_back(c.sorted(n, -3, 15)); } Extrapolation e1 = c.extra(), e2 = c.extra(); c.in(f); c.in(a); c.run([&] { return apply_curve(f, a, b, e1, e2); }); }
CASE(S05, monotonize, 0) { c.kind(); int n = c.some(1, 20); vec a = c.sorted(n, 0, 10), b = c.u1(n, 0, 10); if (c.g.chance(0.4)) for (int i = 0; i < n; i++) if (c.g.chance(0.2)) (c.g.chance(0.5) ? a : b)[i] = MV; c.run([&] { vec o; vec r = monotonize_curve(a, b, o); return std::make_pair(r, o); }); }
CASE(S05, quantile_mapping, 0) { c.kind(); int n = c.some(1, 40); vec a = c.u1(n, 0, 10), b = c.u1(n, 0, 10), q = c.g.chance(0.5) ? vec() : c.sorted(c.g.range(1, 6), 0, 1); c.in(a); c.in(b); c.run([&] { vec o; vec r = quantile_mapping_curve(a, b, o, q); return std::make_pair(r, o); }); }
CASE(S05, metric_optimizer, CF_HEAVY) { int n = c.g.range(1, 20); vec a = c.u1(n, 0, 10), b = c.u1(n, 0, 10), th = c.sorted(c.g.range(1, 4), 1, 9); Metric m = c.metric(); c.in(a); c.in(b); c.run([&] { vec o; vec r = metric_optimizer_curve(a, b, th, m, o); return std::make_pair(r, o); }); }
CASE(S05, optimal_threshold, 0) { int n = c.some(2, 20); vec a = c.u1(n, 0, 10), b = c.u1(n, 0, 10); Metric m = c.metric(); c.run([&] { return get_optimal_threshold(a, b, 5.0f, m); }); }
CASE(S05, calc_score, 0) { int n = c.some(1, 30); vec a = c.u1(n, 0, 10), b = c.u1(n, 0, 10); Metric m = c.metric(); bool one = c.g.chance(0.4); c.run([&] { return one ? calc_score(a, b, 5.0f, m) : calc_score(a, b, 5.0f, 4.0f, m); }); }
CASE(S05, gamma_inv, 0) { int n = c.dim() * c.dim(); vec l = c.u1(n, 0.01, 0.99), s = c.u1(n, 0.3, 5), k = c.u1(n, 0.3, 5); if (c.g.chance(0.1)) l[0] = 2; c.in(l); c.run([&] { return gamma_inv(l, s, k); }); }
CASE(S05, calc_quantile1, 0) { c.kind(); vec v = c.v1(c.some(0, 30)); float q = (float)c.g.uniform(); c.in(v); c.run([&] { return calc_quantile(v, q); }); }
CASE(S05, calc_quantile2, 0) { c.kind(); vec2 v = c.v2(c.dim(), c.ens()); float q = (float)c.g.uniform(); c.in(v); c.run([&] { return calc_quantile(v, q); }); }
CASE(S05, calc_quantile3, 0) { c.kind(); int Y = c.dim(), X = c.dim(); vec3 v = c.v3(Y, X, c.ens()); vec2 q = c.u2(Y, X, 0, 1); if (c.g.chance(0.2)) q[0][0] = MV; c.in(v); c.in(q); c.run([&] { return calc_quantile(v, q); }); }
CASE(S05, calc_statistic1, 0) { c.kind(); vec v = c.v1(c.some(0, 30)); Statistic s = c.stat(); c.in(v); c.run([&] { return calc_statistic(v, s); }); }
CASE(S05, calc_statistic2, 0) { c.kind(); vec2 v = c.v2(c.dim(), c.ens()); Statistic s = c.stat(); c.in(v); c.run([&] { return calc_statistic(v, s); }); }
CASE(S05, even_quantiles, 0) { c.kind(); vec v = c.v1(c.some(1, 50)); int n = c.g.range(1, 10); c.in(v); c.run([&] { return calc_even_quantiles(v, n); }); }
CASE(S05, interpolate, 0) { int n = c.some(1, 12); vec a = c.sorted(n, 0, 10), b = c.u1(n, 0, 10), x = c.u1(c.some(1, 20), -2, 12); if (c.g.chance(0.3)) { for (int i = 0; i < n; i++) a[i] = (float)(int)(a[i] / 3); for (size_t i = 0; i < x.size(); i++) if (c.g.chance(0.5)) x[i] = (float)(int)(x[i] / 3); } c.run([&] { return interpolate(x, a, b); }); }
template <class T> static void transf(Ctx &c, const T &t) { c.kind(); vec3 v = c.v3(c.dim(), c.dim(), c.ens()); vec2 w = c.v2(c.dim(), c.dim()); vec u = c.u1(c.dim(), 0, 5); c.in(v); c.in(w); c.run([&] { return std::make_pair(std::make_tuple(t.backward(t.forward(v)), t.forward(w), t.backward(u)), std::make_pair(t.backward(w), t.forward(u))); }); }
CASE(S05, transform, 0) { switch (c.g.below(5)) { case 0: transf(c, Identity()); break; case 1: transf(c, Log()); break; case 2: transf(c, BoxCox(c.g.chance(0.3) ? 0.0f : 0.3f)); break; case 3: transf(c, StartedBoxCox(0.2f, 1.5f)); break; default: transf(c, gridpp::Gamma(2, 1.5f)); } }

// ============================================================ S06 diagnostics and windows
#define N1 int n = c.dim() * c.dim();
CASE(S06, dewpoint, 0) { N1 vec a = c.u1(n, 250, 300), b = c.u1(n, 0.01, 1); if (c.g.chance(0.2)) b[0] = MV; c.in(a); c.in(b); c.run([&] { return dewpoint(a, b); }); }
CASE(S06, relhum, 0) { N1 vec a = c.u1(n, 250, 300), b = c.u1(n, 240, 300); if (c.g.chance(0.2)) a = c.u1(n, 150, 400); if (c.g.chance(0.2)) b = c.u1(n, 150, 400); if (c.g.chance(0.2)) b[0] = MV; c.in(a); c.run([&] { return relative_humidity(a, b); }); }
CASE(S06, wetbulb, 0) { N1 vec a = c.u1(n, 250, 300), p = c.u1(n, 90000, 105000), b = c.u1(n, 0.01, 1); if (c.g.chance(0.2)) b[0] = MV; if (c.g.chance(0.2)) b[n - 1] = 0; if (c.g.chance(0.1)) a[0] = 10; c.in(a); c.run([&] { return wetbulb(a, p, b); }); }
CASE(S06, pressure, 0) { N1 vec a = c.u1(n, 0, 1000), o = c.u1(n, 0, 1000), p = c.u1(n, 90000, 105000), t = c.u1(n, 250, 300); if (c.g.chance(0.2)) p[0] = MV; c.in(a); c.run([&] { return pressure(a, o, p, t); }); }
CASE(S06, slp, 0) { N1 vec ps = c.u1(n, 90000, 105000), al = c.u1(n, 0, 1000), t = c.u1(n, 250, 300), rh = c.u1(n, 0.01, 1), td = c.u1(n, 240, 290); int k = c.g.below(4); if (k & 1) rh = vec(n, MV); if (k & 2) td = vec(n, MV); c.in(ps); c.run([&] { return sea_level_pressure(ps, al, t, rh, td); }); }
CASE(S06, qnh, 0) { N1 vec p = c.u1(n, 90000, 105000), a = c.u1(n, 0, 1000); if (c.g.chance(0.2)) p[0] = MV; c.in(p); c.run([&] { return qnh(p, a); }); }
CASE(S06, wind_speed, 0) { N1 vec a = c.u1(n, -20, 20), b = c.u1(n, -20, 20); c.in(a); c.run([&] { return wind_speed(a, b); }); }
CASE(S06, wind_direction, 0) { N1 vec a = c.u1(n, -20, 20), b = c.u1(n, -20, 20); c.in(a); c.run([&] { return wind_direction(a, b); }); }
CASE(S06, window, 0) { c.kind(); vec2 v = c.v2(c.dim(), c.dim()); Statistic s = c.stat(); bool be = c.g.chance(0.5), km = c.g.chance(0.5), me = c.g.chance(0.5); int len = c.g.range(1, c.g.chance(0.2) ? 21 : 7); if (!be && len % 2 == 0) len++; c.in(v); c.run([&] { return window(v, len, s, be, km, me); }); }

// ============================================================ objects (H01, A01, S07)
CASE(OBJ, kdtree_queries, 0) { CoordinateType t = c.ct(); Points p = c.points(t); KDTree k(p.get_lats(), p.get_lons(), t); Points q = c.points(t); float r = c.radius(t); int n = c.some(1, 5); bool im = c.g.chance(0.7); c.in(k); vec ql = q.get_lats(), qo = q.get_lons();
    c.run([&] { std::vector<ivec> o; vec d, e; for (size_t i = 0; i < ql.size(); i++) { o.push_back(k.get_neighbours(ql[i], qo[i], r, im)); std::sort(o.back().begin(), o.back().end()); o.push_back(k.get_closest_neighbours(ql[i], qo[i], n, im)); std::sort(o.back().begin(), o.back().end()); ivec x; x.push_back(k.get_num_neighbours(ql[i], qo[i], r, im)); x.push_back(k.get_nearest_neighbour(ql[i], qo[i], im)); o.push_back(x); ivec w = k.get_neighbours_with_distance(ql[i], qo[i], r, d, im); o.push_back(w); e.insert(e.end(), d.begin(), d.end()); } return std::make_pair(o, e); }); }
CASE(OBJ, kdtree_distances, 0) { CoordinateType t = c.ct(); Points p = c.points(t), q = c.points(t); c.in(p); c.in(q); c.run([&] { vec o; for (int i = 0; i < p.size() && i < 8; i++) for (int j = 0; j < q.size() && j < 8; j++) { Point a = p.get_point(i), b = q.get_point(j); o.push_back(KDTree::calc_distance(a, b)); o.push_back(KDTree::calc_distance(a.lat, a.lon, b.lat, b.lon, t)); o.push_back(KDTree::calc_straight_distance(a, b)); o.push_back(KDTree::rad2deg(KDTree::deg2rad(b.lat))); } return o; }); }
CASE(OBJ, point_neighbours, 0) { CoordinateType t = c.ct(); Points p = c.points(t), q = c.points(t); float r = c.radius(t); int n = c.some(1, 5); bool im = c.g.chance(0.7); c.in(p); vec ql = q.get_lats(), qo = q.get_lons();
    c.run([&] { std::vector<ivec> o; vec e; for (size_t i = 0; i < ql.size(); i++) { vec d; o.push_back(p.get_neighbours_with_distance(ql[i], qo[i], r, d, im)); e.insert(e.end(), d.begin(), d.end()); ivec w = p.get_neighbours(ql[i], qo[i], r, im); std::sort(w.begin(), w.end()); o.push_back(w); w = p.get_closest_neighbours(ql[i], qo[i], n, im); std::sort(w.begin(), w.end()); o.push_back(w); ivec x; x.push_back(p.get_num_neighbours(ql[i], qo[i], r, im)); x.push_back(p.get_nearest_neighbour(ql[i], qo[i], im)); o.push_back(x); } return std::make_pair(o, e); }); }
CASE(OBJ, grid_neighbours, 0) { CoordinateType t = c.ct(); Grid p = c.grid(t); Points q = c.points(t); float r = c.radius(t); bool im = c.g.chance(0.7); c.in(p); vec ql = q.get_lats(), qo = q.get_lons();
    c.run([&] { std::vector<ivec> o; vec e; for (size_t i = 0; i < ql.size(); i++) { vec d; ivec2 z = p.get_neighbours_with_distance(ql[i], qo[i], r, d, im); o.insert(o.end(), z.begin(), z.end()); e.insert(e.end(), d.begin(), d.end()); } return std::make_pair(o, e); }); }
CASE(OBJ, utilities, 0) { c.kind(); CoordinateType t = c.ct(); Grid g = c.grid(t); ivec s = sz(g); Points p = c.points(t); vec2 v = c.v2(s[0], s[1]), w = c.v2(c.dim(), c.dim()); vec3 u = c.v3(s[0], s[1], c.ens()); vec f = c.v1(p.size()), k = c.sorted(c.g.range(1, 10), -3, 12); float x = c.val(); c.in(v); c.in(f); c.in(k);
    c.run([&] { ivec o; o.push_back(num_missing_values(v)); o.push_back(compatible_size(g, v)); o.push_back(compatible_size(g, w)); o.push_back(compatible_size(p, f)); o.push_back(compatible_size(v, w)); o.push_back(compatible_size(v, u)); o.push_back(compatible_size(u, u)); o.push_back(get_lower_index(x, k)); o.push_back(get_upper_index(x, k)); o.push_back((int)get_statistic("median")); return std::make_pair(o, init_ivec3(s[0], s[1], 2, 3)); }); }
CASE(OBJ, points_build, 0) { CoordinateType t = c.ct(); Points p = c.points(t, -1, true); vec a = p.get_lats(), b = p.get_lons(), e = p.get_elevs(), l = p.get_lafs(); c.in(a); c.in(b); c.run([&] { Points q(a, b, e, l, t); Points r(q); Points s; s = q; ivec ix; for (int i = 0; i < q.size(); i += 2) ix.push_back(i); return std::make_tuple(r, s, q.subset(ix)); }); }
CASE(OBJ, grid_build, 0) { CoordinateType t = c.ct(); Grid p = c.gridE(t); vec2 a = p.get_lats(), b = p.get_lons(), e = p.get_elevs(), l = p.get_lafs(); c.in(a); c.in(b); c.run([&] { Grid q(a, b, e, l, t); Grid r(q); return std::make_tuple(q, r, q.to_points()); }); }
CASE(OBJ, grid_queries, 0) { CoordinateType t = c.ct(); Grid g = c.grid(t); Points q = c.points(t); float r = c.radius(t); int n = c.some(1, 5); c.in(g); vec ql = q.get_lats(), qo = q.get_lons();
    c.run([&] { std::vector<ivec> o; for (size_t i = 0; i < ql.size(); i++) { ivec2 z = g.get_neighbours(ql[i], qo[i], r); std::sort(z.begin(), z.end()); o.insert(o.end(), z.begin(), z.end()); z = g.get_closest_neighbours(ql[i], qo[i], n); std::sort(z.begin(), z.end()); o.insert(o.end(), z.begin(), z.end()); o.push_back(g.get_nearest_neighbour(ql[i], qo[i])); int a = -1, b = -1, d = -1, e = -1; ivec x; x.push_back(g.get_box(ql[i], qo[i], a, b, d, e)); if (x[0]) { x.push_back(a); x.push_back(b); x.push_back(d); x.push_back(e); } o.push_back(x); x.clear(); x.push_back(g.get_num_neighbours(ql[i], qo[i], r)); o.push_back(x); } return std::make_pair(o, g.get_point(0, 0)); }); }
CASE(OBJ, domain, 0) { CoordinateType t = c.ct(); Grid g = c.grid(t); Points q = c.points(t); c.in(q); c.run([&] { return std::make_pair(q.get_in_domain_indices(g), q.get_in_domain(g)); }); }
CASE(OBJ, structures, 0) { CoordinateType t = c.ct(); StructureFunctionPtr s = c.structure(t); Points q = c.points(t, -1, true), p = c.points(t, 3, true); std::vector<Point> P; for (int i = 0; i < q.size(); i++) P.push_back(q.get_point(i)); Point a = p.get_point(0); if (c.g.chance(0.6)) for (size_t i = 0; i < P.size() && i < 4; i++) { float d = (t == Geodetic ? 0.1f : 1500.0f) * (i + 1); P[i] = Point(a.lat + d, a.lon - d, a.elev + 20 * i, a.laf, t); } if (c.g.chance(0.3)) for (size_t i = 0; i < P.size() && i < 2; i++) P[i] = Point(a.lat, a.lon, a.elev + 30 * i, a.laf, t); c.run([&] { StructureFunctionPtr k = s->clone(); vec one; for (size_t i = 0; i < P.size() && i < 4; i++) { one.push_back(k->corr(a, P[i])); one.push_back(s->corr_background(a, P[i])); } return std::make_tuple(std::make_pair(k->corr(a, P), one), s->corr_background(a, P), s->localization_distance(a)); }); }
CASE(OBJ, structure_pair, 0) { CoordinateType t = c.ct(); StructureFunctionPtr s = c.structure(t); Points q = c.points(t, 1, true), p = c.points(t, 1, true); Point a = p.get_point(0), b = q.get_point(0); if (c.g.chance(0.7)) { float d = t == Geodetic ? 0.4f : 5000.0f; b = Point(a.lat + d * (b.lat - (float)(int)b.lat - 0.5f), a.lon + d * (b.lon - (float)(int)b.lon), a.elev + 0.2f * (b.elev - a.elev), a.laf, t); } int w = c.g.below(3); c.run([&] { return w == 0 ? s->corr(a, b) : w == 1 ? s->corr_background(a, b) : s->localization_distance(a); }); }

// ============================================================ S09: random choice, judged against the set of valid values
static void choice(float got, const vec &set, bool may_be_missing_only_if_empty = true) {
    bool any = false, in = false;
    for (size_t i = 0; i < set.size(); i++) if (is_valid(set[i])) { any = true; if (set[i] == got) in = true; }
    bool ok = any ? in : !is_valid(got);
    if (!ok) { g_flags->bad_choice++; snprintf(g_flags->note, 255, "got %g from a set of %zu value(s)%s", got, set.size(), any ? "" : ", none valid"); }
}
static void choice2(const vec2 &got, const std::vector<std::vector<vec> > &sets) {
    if (got.size() != sets.size()) { g_flags->bad_choice++; return; }
    for (size_t i = 0; i < got.size(); i++) { if (got[i].size() != sets[i].size()) { g_flags->bad_choice++; return; } for (size_t j = 0; j < got[i].size(); j++) choice(got[i][j], sets[i][j]); }
}
// distinct-ish values so that a value identifies where it came from
static float uval(Ctx &c) { return c.gv.chance(c.miss) ? MV : (float)(c.gv.uniform() * 1000); }
static vec uv1(Ctx &c, int n) { vec v(n); for (int i = 0; i < n; i++) v[i] = uval(c); return v; }
static vec2 uv2(Ctx &c, int a, int b) { vec2 v(a); for (int i = 0; i < a; i++) v[i] = uv1(c, b); return v; }
static vec3 uv3(Ctx &c, int a, int b, int d) { vec3 v(a); for (int i = 0; i < a; i++) v[i] = uv2(c, b, d); return v; }
#define RUNC(call, judge) c.run([&] { auto r = call; sim_hooks(false); judge; return 0; });
CASE(S09, rc_stat1, CF_RANDOM) { c.kind(); vec v = uv1(c, c.some(0, 12)); RUNC(calc_statistic(v, RandomChoice), choice(r, v)) }
CASE(S09, rc_stat2, CF_RANDOM) { c.kind(); vec2 v = uv2(c, c.dim(), c.some(1, 8)); RUNC(calc_statistic(v, RandomChoice), { if (r.size() != v.size()) g_flags->bad_choice++; else for (size_t i = 0; i < v.size(); i++) choice(r[i], v[i]); }) }
CASE(S09, rc_neighbourhood2, CF_RANDOM) { c.kind(); int Y = c.dim(), X = c.dim(), hw = c.g.range(0, 3); vec2 v = uv2(c, Y, X);
    std::vector<std::vector<vec> > s(Y); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { vec w; for (int a = std::max(0, y - hw); a <= std::min(Y - 1, y + hw); a++) for (int b = std::max(0, x - hw); b <= std::min(X - 1, x + hw); b++) w.push_back(v[a][b]); s[y].push_back(w); }
    RUNC(neighbourhood(v, hw, RandomChoice), choice2(r, s)) }
CASE(S09, rc_neighbourhood3, CF_RANDOM) { c.kind(); int Y = c.dim(), X = c.dim(), E = c.ens(), hw = c.g.range(0, 3); vec3 v = uv3(c, Y, X, E);
    std::vector<std::vector<vec> > s(Y); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { vec w; for (int a = std::max(0, y - hw); a <= std::min(Y - 1, y + hw); a++) for (int b = std::max(0, x - hw); b <= std::min(X - 1, x + hw); b++) for (int e = 0; e < E; e++) w.push_back(v[a][b][e]); s[y].push_back(w); }
    RUNC(neighbourhood(v, hw, RandomChoice), choice2(r, s)) }
CASE(S09, rc_window, CF_RANDOM) { c.kind(); int Y = c.dim(), X = c.dim(); vec2 v = uv2(c, Y, X); bool be = c.g.chance(0.5), km = c.g.chance(0.3), me = c.g.chance(0.3); int len = c.g.range(1, 7); if (!be && len % 2 == 0) len++;
    std::vector<std::vector<vec> > s(Y); for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { int a = be ? x - len + 1 : x - len / 2, b = be ? x : x + len / 2; bool out = a < 0 || b > X - 1; a = std::max(a, 0); b = std::min(b, X - 1); vec w; bool miss = false; for (int k = a; k <= b; k++) { w.push_back(v[y][k]); if (!is_valid(v[y][k])) miss = true; } if ((km && miss) || (me && out)) w.clear(); s[y].push_back(w); }
    RUNC(window(v, len, RandomChoice, be, km, me), choice2(r, s)) }
static vec sel(const vec &v, const ivec &I, int mn) { vec w; if (mn > 0 && (int)I.size() < mn) return w; for (size_t i = 0; i < I.size(); i++) w.push_back(v[I[i]]); return w; }
CASE(S09, rc_gridding_g, CF_RANDOM) { CoordinateType t = c.ct(); Grid g = c.grid(t); Points p = c.points(t); c.kind(); vec v = uv1(c, p.size()); int mn = c.g.below(4); float rad = c.radius(t); ivec z = g.size(); vec2 la = g.get_lats(), lo = g.get_lons();
    std::vector<std::vector<vec> > s(z[0]); for (int y = 0; y < z[0]; y++) for (int x = 0; x < z[1]; x++) s[y].push_back(sel(v, p.get_neighbours(la[y][x], lo[y][x], rad), mn));
    RUNC(gridding(g, p, v, rad, mn, RandomChoice), choice2(r, s)) }
CASE(S09, rc_gridding_p, CF_RANDOM) { CoordinateType t = c.ct(); Points g = c.points(t), p = c.points(t); c.kind(); vec v = uv1(c, p.size()); int mn = c.g.below(4); float rad = c.radius(t); vec la = g.get_lats(), lo = g.get_lons();
    std::vector<vec> s; for (int i = 0; i < g.size(); i++) s.push_back(sel(v, p.get_neighbours(la[i], lo[i], rad), mn));
    RUNC(gridding(g, p, v, rad, mn, RandomChoice), { if (r.size() != s.size()) g_flags->bad_choice++; else for (size_t i = 0; i < s.size(); i++) choice(r[i], s[i]); }) }
CASE(S09, rc_gridding_nearest_g, CF_RANDOM) { CoordinateType t = c.ct(); Grid g = c.grid(t); Points p = c.points(t); c.kind(); vec v = uv1(c, p.size()); int mn = c.g.below(4); ivec z = g.size(); vec la = p.get_lats(), lo = p.get_lons();
    std::vector<std::vector<vec> > s(z[0], std::vector<vec>(z[1])); for (int i = 0; i < p.size(); i++) { ivec I = g.get_nearest_neighbour(la[i], lo[i]); s[I[0]][I[1]].push_back(v[i]); } for (int y = 0; y < z[0]; y++) for (int x = 0; x < z[1]; x++) if (mn > 0 && (int)s[y][x].size() < mn) s[y][x].clear();
    RUNC(gridding_nearest(g, p, v, mn, RandomChoice), choice2(r, s)) }
CASE(S09, rc_gridding_nearest_p, CF_RANDOM) { CoordinateType t = c.ct(); Points g = c.points(t), p = c.points(t); c.kind(); vec v = uv1(c, p.size()); int mn = c.g.below(4); vec la = p.get_lats(), lo = p.get_lons();
    std::vector<vec> s(g.size()); for (int i = 0; i < p.size(); i++) s[g.get_nearest_neighbour(la[i], lo[i])].push_back(v[i]); for (size_t i = 0; i < s.size(); i++) if (mn > 0 && (int)s[i].size() < mn) s[i].clear();
    RUNC(gridding_nearest(g, p, v, mn, RandomChoice), { if (r.size() != s.size()) g_flags->bad_choice++; else for (size_t i = 0; i < s.size(); i++) choice(r[i], s[i]); }) }
CASE(S09, rc_consensus, CF_RANDOM) { CoordinateType t = c.ct(); Grid ig = c.grid(t), og = c.grid(t); ivec is = sz(ig), os = sz(og); c.kind(); int E = c.ens(); vec3 a = uv3(c, is[0], is[1], E), b = uv3(c, is[0], is[1], E), d = c.v3(is[0], is[1], E); vec2 th = c.v2(os[0], os[1]); ComparisonOperator o = c.cmp(); vec2 la = og.get_lats(), lo = og.get_lons();
    std::vector<std::vector<vec> > s(os[0]); for (int y = 0; y < os[0]; y++) for (int x = 0; x < os[1]; x++) { ivec I = ig.get_nearest_neighbour(la[y][x], lo[y][x]); vec w; for (int e = 0; e < E; e++) { float q = d[I[0]][I[1]][e], T = th[y][x]; if (!is_valid(q)) continue; bool tr = o == Lt ? q < T : o == Leq ? q <= T : o == Gt ? q > T : q >= T; w.push_back(tr ? a[I[0]][I[1]][e] : b[I[0]][I[1]][e]); } s[y].push_back(w); }
    RUNC(mask_threshold_downscale_consensus(ig, og, a, b, d, th, o, RandomChoice), choice2(r, s)) }
