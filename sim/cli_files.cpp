// H03: histories of operations on file objects (netCDF, point, text) against a reference model.
#include "cli_prop.h"
#include "File/File.h"
#include "Options.h"
#include "Variable.h"
#include <memory>
#include <sstream>
#include <math.h>
#include <netcdf.h>

namespace {
enum { O_OPEN, O_CLOSE, O_GETV, O_GETS, O_POKE, O_NEW, O_ADD, O_INIT, O_CLEAR, O_WRITE, O_HAS, O_ALIAS, O_KNOWN };
static const char *const ONAME[] = { "open", "close", "get", "get by name", "poke", "new field", "add", "initialise", "clear", "write", "has", "alias", "knows" };
struct FOp { int code = 0, file = 0, reg = -1, t = 0, T = 0, E = 0; bool ro = false; std::string name, to; std::vector<std::string> names; std::vector<int> cell; std::vector<float> vals; };
struct Obs { int op; std::vector<float> v; double tol; };
struct Info { bool packed = false; double scale = 1, off = 0; int kind = 0; };
struct MF { std::vector<float> v; double tol = 0; Info info; int ny, nx, E; };          // a field in memory
typedef std::shared_ptr<MF> MP;
struct DV { bool hasT = false, hasE = false; Info info; std::vector<std::vector<float> > v; int E = 1; };   // a variable on disk
struct MFile {
    int kind = 0; FileSpec fs; std::string opt; bool open = false, ro = false;
    int T = 0, E = 1, ny = 1, nx = 1; bool dimT = false, dimE = false; std::vector<double> times;
    std::map<std::string, DV> disk; std::map<std::string, std::vector<MP> > cache; std::vector<std::string> known; std::map<std::string, std::string> alias;
    std::set<std::string> written; bool ever = false; bool rounded = true;
    std::vector<std::vector<float> > locs; double ref = 0;
    DV *on_disk(const std::string &n) { auto i = disk.find(kind ? "*" : n); return i == disk.end() ? NULL : &i->second; }
    bool knows(const std::string &n) { return std::find(known.begin(), known.end(), n) != known.end(); }
};
struct Script { std::vector<FOp> ops; std::vector<Obs> obs; std::vector<MFile> files; bool made = false; std::string key; };
static float r2(float v) { char b[64]; snprintf(b, sizeof b, "%.2f", (double)v); return strtof(b, NULL); }
static double fuzz(const Info &i) { return i.packed ? 0.1 * i.scale : 0; }

static bool rows_of(const std::string &t, std::vector<std::vector<double> > &rows) {
    std::istringstream in(t); std::string l;
    while (std::getline(in, l)) { if (l.size() && l[0] == '#') continue; std::istringstream s(l); std::vector<double> r; double x; while (s >> x) r.push_back(x); if (r.size()) rows.push_back(r); }
    return true;
}
static std::vector<double> numbers(int type, const std::string &b) {
    std::vector<double> o; const char *p = b.data(), *e = p + b.size();
#define TAKE(T) while (p + sizeof(T) <= e) { T x; memcpy(&x, p, sizeof x); o.push_back((double)x); p += sizeof x; }
    if (type == NC_SHORT) { TAKE(short) } else if (type == NC_INT) { TAKE(int) } else if (type == NC_FLOAT) { TAKE(float) } else if (type == NC_DOUBLE) { TAKE(double) }
#undef TAKE
    return o;
}
static float att(const Dump &d, const std::string &v, const char *a, int type, double def) {
    auto i = d.find("att " + v + " " + a); if (i == d.end()) return (float)def;
    std::vector<double> x = numbers(type, i->second); return x.size() ? (float)x[0] : (float)def;
}
// what a variable of a dumped netCDF file holds, in the layout of a field
static bool decode(const Dump &d, const std::string &n, const MFile &f, DV &o) {
    auto i = d.find("var " + n); if (i == d.end()) return false;
    std::istringstream s(i->second); int type; s >> type; std::vector<std::string> dims; std::string w; while (s >> w) dims.push_back(w);
    std::vector<double> x = numbers(type, d.at("data " + n));
    std::vector<size_t> len; int pT = -1, pE = -1, pY = -1, pX = -1;
    for (size_t k = 0; k < dims.size(); k++) { len.push_back(strtoul(d.at("dim " + dims[k]).c_str(), NULL, 10)); const std::string &q = dims[k]; if (q == "time") pT = k; else if (q == "ensemble_member") pE = k; else if (q == "y" || q == "lat" || q == "latitude") pY = k; else if (q == "x" || q == "lon" || q == "longitude") pX = k; else return false; }
    if (pX < 0 || (f.fs.nc.names != 3 && pY < 0)) return false;
    bool packed = d.count("att " + n + " scale_factor"); float sc = att(d, n, "scale_factor", NC_FLOAT, 1), of = att(d, n, "add_offset", NC_FLOAT, 0);
    float fill = att(d, n, "_FillValue", type, NC_FILL_FLOAT);
    o.hasT = pT >= 0; o.hasE = pE >= 0; o.E = pE >= 0 ? len[pE] : 1; o.info.packed = packed; o.info.scale = sc; o.info.off = of;
    int T = pT >= 0 ? len[pT] : 1; size_t ny = pY >= 0 ? len[pY] : 1, nx = len[pX];
    o.v.assign(T, std::vector<float>(ny * nx * o.E));
    for (size_t a = 0; a < x.size(); a++) {
        size_t r = a, ix[4] = { 0 }; for (int k = (int)dims.size() - 1; k >= 0; k--) { ix[k] = r % len[k]; r /= len[k]; }
        size_t t = pT >= 0 ? ix[pT] : 0, e = pE >= 0 ? ix[pE] : 0, y = pY >= 0 ? ix[pY] : 0, xx = ix[pX];
        float q = (float)x[a]; q = q == fill ? -999.f : packed ? (float)(sc * (double)x[a] + of) : q;
        o.v[t][e + xx * o.E + y * nx * o.E] = q;
    }
    return true;
}
static bool near(float a, float b, double tol) { if (a == b) return true; if (tol == 0 || a == -999.f || b == -999.f) return false; return fabs((double)a - b) <= tol + 2e-7 * fabs((double)b); }

struct Files : ClientProp {
    Script sc; int nth = 0;
    Files() : ClientProp("H03") {}
    void gen(Rng &r, uint64_t i, Plan &p) {
        (void)i; nth = 0;
        Item w; w.name = "world"; w.seed = r.next() >> 1; w.cap = r.chance(0.06) ? r.range(8, 30) : r.chance(0.3) ? r.range(3, 7) : r.range(1, 3); w.x = r.chance(0.72) ? 0 : r.range(1, 2);
        p.items.push_back(w); p.kv["files"] = r.chance(0.3) ? 2 : 1;
        int n = r.chance(0.25) ? r.range(15, 45) : r.range(3, 15);
        for (int k = 0; k < n; k++) {
            static const int C[] = { O_GETV, O_GETV, O_GETV, O_GETV, O_GETS, O_GETS, O_POKE, O_POKE, O_NEW, O_NEW, O_ADD, O_ADD, O_INIT, O_CLEAR, O_WRITE, O_WRITE, O_HAS, O_ALIAS, O_KNOWN, O_OPEN };
            Item o; o.name = "op"; o.seed = r.next() >> 1; o.cap = C[r.below(20)]; o.x = r.below(8); p.items.push_back(o);
        }
    }
    int runs_per_world() { return 5; }
    bool need_ref_ok() { return false; }
    bool pick(Rng &r, Plan &p) {
        if (nth++ == 0) return true;
        if (!w.ref.ok()) return false;
        if (w.written > 0 && r.chance(0.15)) { p.kv["space"] = r.below((uint32_t)std::min<uint64_t>(w.written, 1u << 30)); return true; }
        return pick_fault(r, p, [&](const IoEvent &e) { return e.op != IO_SEEK; }, [&](const IoEvent &e) { return any_fault(r, e, 0); }, 2, 0.3);
    }
    bool interesting(const Plan &, const CliRun &) { return true; }
    Job make(const Plan &p) {
        Job j; const Item &w = p.items[0]; Rng r(w.seed ^ 0x3333);
        int nf = (int)p.get("files", 1); sc.made = false;
        for (int f = 0; f < nf; f++) {
            FileSpec s; s.seed = r.next() >> 1; s.np = s.pmode = s.n = s.T = 0; s.spatial = s.timed = false; NcSpec &n = s.nc;
            int kind = f == 0 ? w.x : r.below(3);
            n.fmt = r.below(4); n.T = r.chance(0.15) ? 0 : r.range(1, 4); n.E = r.chance(0.4) ? 0 : r.range(1, 4);
            n.ny = r.range(1, w.cap); n.nx = r.range(1, w.cap); if (w.cap > 7 && r.chance(0.7)) n.ny = n.nx = w.cap; n.names = r.below(4); n.alt = r.below(n.names == 3 ? 2 : 3); n.laf = r.chance(0.3); n.conventions = r.below(2); n.history = r.below(3);
            n.unlim = r.chance(0.5); n.ref = n.T == 0 || r.chance(0.7); n.bystanders = r.chance(0.6); n.order = r.chance(0.2);
            int nv = r.range(0, 4); std::vector<int> used;
            for (int k = 0; k < nv; k++) { int q = r.below(8); if (std::find(used.begin(), used.end(), q) != used.end()) continue; used.push_back(q); NcVar v = gen_var(q, r, p.get("pack", 1), r.chance(0.5)); v.time = r.chance(0.85); v.ens = r.chance(0.85); v.swap = n.names != 3 && r.chance(0.2); n.vars.push_back(v); }
            std::string id = std::to_string(f);
            if (kind == 0) { s.kind = FS_NC; s.name = "f" + id + ".nc"; }
            else if (kind == 1) { s.kind = r.chance(0.8) ? FS_POINT : FS_EMPTY; s.name = "f" + id + ".pt"; s.T = r.range(1, 4); s.np = r.range(1, 4); s.n = 1; s.pmode = r.below(6); }
            else { s.kind = FS_TEXT; s.name = "f" + id + ".txt"; s.T = r.range(1, 4); s.np = r.range(1, 4); s.n = r.range(1, 5); s.pmode = r.below(6); }
            if (s.kind != FS_EMPTY && r.chance(0.5)) { static const int S[] = { 1, 3, 3600 }; s.stride = S[r.below(3)]; s.base = r.chance(0.5) ? 1577836800 : r.range(0, 5); }
            j.files.push_back(s); j.outputs.push_back(s.name); j.inputs.push_back(s.name);
        }
        return j;
    }
    // ---- the model: what every operation must yield
    void build(const Plan &p) {
        std::string key = world_key(p); if (sc.made && sc.key == key) return;
        sc = Script(); sc.made = true; sc.key = key;
        std::vector<MP> regs; std::vector<MFile> &F = sc.files;
        Rng r0(p.items[0].seed ^ 0x4444);
        for (size_t k = 0; k < w.job.files.size(); k++) {
            MFile f; f.fs = w.job.files[k]; f.kind = f.fs.kind == FS_NC ? 0 : f.fs.kind == FS_TEXT ? 2 : 1; const NcSpec &n = f.fs.nc; const Dump &d = w.s0.d[k];
            if (f.kind == 0) {
                f.ny = n.names == 3 ? 1 : n.ny; f.nx = n.nx; f.dimT = n.T > 0; f.dimE = n.E > 0;
                for (auto &v : n.vars) { DV q; if (!decode(d, v.name, f, q)) { fprintf(stderr, "cannot decode %s\n", v.name.c_str()); _exit(2); } q.info.kind = v.kind; f.disk[v.name] = q; }
                for (int t = 0; t < n.T; t++) f.times.push_back(1577836800 + 3600.0 * t);
                f.ref = 1577836800;
            }
            else if (f.kind == 1) {
                f.E = f.fs.np; f.T = f.fs.T; f.opt = "lat=60 lon=10 elev=100"; if (f.fs.kind == FS_EMPTY || r0.chance(0.3)) f.opt += " ens=" + std::to_string(f.E); if (f.fs.kind == FS_EMPTY || (f.fs.stride == 1 && f.fs.base == 0 && r0.chance(0.5))) f.opt += " time=" + std::to_string(f.T);
                DV q; q.hasT = q.hasE = true; q.E = f.E; q.info.kind = f.fs.pmode; q.v.assign(f.T, std::vector<float>(f.E, -999.f));
                auto when = [&](double t) { return (size_t)((t - f.fs.base) / f.fs.stride + 0.5); };
                std::vector<std::vector<double> > rows; rows_of(d.count("text") ? d.at("text") : "", rows);
                for (auto &x : rows) for (int e = 0; e < f.E && e + 1 < (int)x.size(); e++) q.v.at(when(x[0]))[e] = (float)x[1 + e];
                f.disk["*"] = q; for (int t = 0; t < f.T; t++) f.times.push_back(f.fs.base + (double)t * f.fs.stride);
            }
            else {
                f.E = f.fs.np; f.T = f.fs.T; std::vector<std::vector<double> > rows; rows_of(d.at("text"), rows); std::set<std::vector<float> > L;
                for (auto &x : rows) L.insert({ (float)x[1], (float)x[2], (float)x[3] });
                f.locs.assign(L.begin(), L.end()); f.ny = f.locs.size(); f.nx = 1;
                DV q; q.hasT = q.hasE = true; q.E = f.E; q.info.kind = f.fs.pmode; q.v.assign(f.T, std::vector<float>(f.ny * f.E, -999.f));
                for (auto &x : rows) { size_t y = std::find(f.locs.begin(), f.locs.end(), std::vector<float>{ (float)x[1], (float)x[2], (float)x[3] }) - f.locs.begin(); for (int e = 0; e < f.E; e++) q.v.at((size_t)((x[0] - f.fs.base) / f.fs.stride + 0.5))[y * f.E + e] = (float)x[4 + e]; }
                f.disk["*"] = q; for (int t = 0; t < f.T; t++) f.times.push_back(f.fs.base + (double)t * f.fs.stride);
            }
            F.push_back(f);
        }
        auto emit = [&](const FOp &o) { sc.ops.push_back(o); return (int)sc.ops.size() - 1; };
        auto open = [&](int k, Rng &r) {
            MFile &f = F[k]; FOp o; o.code = O_OPEN; o.file = k; o.ro = r.chance(0.15);
            f.cache.clear(); f.known.clear(); f.alias.clear(); f.open = true; f.ro = o.ro;
            if (f.kind == 0) {
                for (auto &d : f.disk) f.known.push_back(d.first);
                f.E = 1; if (f.dimE) f.E = f.fs.nc.E ? f.fs.nc.E : dimE[k];
                if (!f.dimT) f.times.assign(1, f.ref);
                if (!f.dimT && r.chance(0.6)) { o.T = r.range(1, 4); f.times.clear(); for (int t = 0; t < o.T; t++) f.times.push_back(1577836800 + 3600.0 * (t + 1)); }
                if (!f.dimE && r.chance(0.5)) { o.E = r.range(1, 4); f.E = o.E; }
                f.T = f.times.size();
            }
            else if (f.kind == 2) { if (!f.rounded) { for (auto &t : f.disk["*"].v) for (auto &x : t) x = r2(x); f.rounded = true; } }
            Obs b; b.tol = 0; b.v = { (float)f.T, (float)f.E, (float)f.ny, (float)f.nx };
            if (f.kind == 2) for (auto &l : f.locs) b.v.insert(b.v.end(), l.begin(), l.end());
            b.op = emit(o); sc.obs.push_back(b);
        };
        auto empty = [&](MFile &f) { MP m(new MF); m->ny = f.ny; m->nx = f.nx; m->E = f.E; m->v.assign((size_t)f.ny * f.nx * f.E, -999.f); return m; };
        auto get = [&](MFile &f, const std::string &n, int t) -> MP {
            auto &c = f.cache[n]; if ((int)c.size() < f.T) c.resize(f.T);
            if (!c[t]) {
                DV *d = f.on_disk(n);
                if (d) {
                    MP m = empty(f); const std::vector<float> &x = d->v.at(d->hasT ? t : 0); int E = std::min(d->E, f.E);
                    for (int i = 0; i < f.ny * f.nx; i++) for (int e = 0; e < E; e++) m->v[i * f.E + e] = x[i * d->E + e];
                    m->info = d->info; m->tol = f.kind ? 0.0061 : fuzz(d->info); c[t] = m;
                }
                else for (int q = 0; q < f.T; q++) if (!c[q]) c[q] = empty(f);
            }
            if (!f.knows(n)) f.known.push_back(n);
            return c[t];
        };
        auto info_of = [&](MFile &f, const std::string &n) { DV *d = f.on_disk(n); Info i; if (d) i = d->info; return i; };
        auto value = [&](const Info &i, Rng &r) -> float {
            if (r.chance(0.12)) return -999.f;
            if (i.packed) return (float)((r.range(-2000, 2000) + 0.3) * i.scale + i.off);
            return (float)gen_value(i.kind, r);
        };
        dimE.assign(F.size(), 0);
        { Rng r(r0.next()); for (size_t k = 0; k < F.size(); k++) open(k, r); }
        for (size_t q = 1; q < p.items.size(); q++) {
            const Item &it = p.items[q]; Rng r(it.seed); int k = it.x % (int)F.size(); MFile &f = F[k];
            std::vector<std::string> pool; for (auto &d : f.disk) if (d.first != "*") { pool.push_back(d.first); pool.push_back(d.first); } for (const char *s : { "new_0", "new_1", "x_wind_10m" }) pool.push_back(s);
            std::string n = pool[r.below(pool.size())]; int t = r.below(f.T); FOp o; o.code = it.cap; o.file = k; o.name = n; o.t = t;
            switch (it.cap) {
            case O_OPEN: { FOp c; c.code = O_CLOSE; c.file = k; emit(c); open(k, r); break; }
            case O_GETV: case O_GETS: {
                std::string m = n;
                if (o.code == O_GETS) { if (f.alias.size() && r.chance(0.5)) { auto a = f.alias.begin(); std::advance(a, r.below(f.alias.size())); o.name = a->first; } if (f.knows(o.name)) m = o.name; else if (f.alias.count(o.name)) m = f.alias[o.name]; else m = o.name; }
                MP g = get(f, m, t); Obs b; b.v = g->v; b.tol = g->tol; b.op = emit(o); sc.obs.push_back(b); regs.push_back(g); break; }
            case O_POKE: {
                if (regs.empty()) break;
                o.reg = regs.size() - 1 - std::min<size_t>(regs.size() - 1, r.chance(0.6) ? 0 : r.below(regs.size())); MF &m = *regs[o.reg]; if (m.v.empty()) break;
                int c = r.chance(0.3) ? (int)m.v.size() : r.range(1, 3);
                for (int z = 0; z < c; z++) { int a = c == (int)m.v.size() ? z : (int)r.below(m.v.size()); o.cell.push_back(a); o.vals.push_back(value(m.info, r)); m.v[a] = o.vals.back(); }
                emit(o); break; }
            case O_NEW: case O_ADD: {
                if (o.code == O_ADD && regs.empty()) break;
                Info in = info_of(f, n);
                if (o.code == O_NEW) { MP m = empty(f); m->info = in; for (auto &x : m->v) { x = value(in, r); o.vals.push_back(x); } regs.push_back(m); emit(o); o.vals.clear(); o.code = O_ADD; o.reg = regs.size() - 1; }
                else { o.reg = r.below(regs.size()); MF &m = *regs[o.reg]; if (m.ny != f.ny || m.nx != f.nx || m.E != f.E || m.info.packed || in.packed) break; }
                auto &c = f.cache[n]; if ((int)c.size() < f.T) c.resize(f.T); c[t] = regs[o.reg]; if (!f.knows(n)) f.known.push_back(n);
                emit(o); break; }
            case O_INIT: if (!f.on_disk(n) && !f.cache.count(n)) { auto &c = f.cache[n]; c.resize(f.T); for (auto &m : c) m = empty(f); if (!f.knows(n)) f.known.push_back(n); } emit(o); break;
            case O_CLEAR: f.cache.clear(); emit(o); break;
            case O_HAS: { bool h = f.kind != 0 || f.on_disk(n) || f.cache.count(n); Obs b; b.tol = 0; b.v = { (float)h }; b.op = emit(o); sc.obs.push_back(b); break; }
            case O_KNOWN: { Obs b; b.tol = 0; b.v = { (float)f.knows(n) }; b.op = emit(o); sc.obs.push_back(b); break; }
            case O_ALIAS: o.name = std::string("al") + (r.chance(0.5) ? "0" : "1"); o.to = n; f.alias[o.name] = n; emit(o); break;
            case O_WRITE: {
                if (f.ro) break;
                int c = r.range(1, 3); std::vector<std::string> N;
                for (int z = 0; z < c; z++) {
                    std::string m = z ? pool[r.below(pool.size())] : n; if (std::find(N.begin(), N.end(), m) != N.end()) continue;
                    DV *d = f.on_disk(m);
                    if (f.kind == 0 && d && !d->hasT && f.T > 1) { auto i = f.cache.find(m); bool all = i != f.cache.end(); if (all) for (auto &x : i->second) if (!x) all = false; if (!all) continue; }
                    N.push_back(m);
                }
                if (N.empty()) break;
                o.names = N; o.name = N[0]; emit(o); f.ever = true;
                if (f.kind) {
                    DV &d = f.disk["*"]; std::vector<std::vector<float> > v; for (int z = 0; z < f.T; z++) v.push_back(get(f, N[0], z)->v);
                    d.v = v; f.rounded = false; if (f.kind == 1) for (auto &x : d.v) for (auto &y : x) y = r2(y);
                    break;
                }
                if (!f.dimT) f.dimT = true;
                if (!f.dimE && f.E > 1) { f.dimE = true; dimE[k] = f.E; }
                for (auto &m : N) {
                    if (!f.on_disk(m)) { DV d; d.hasT = true; d.hasE = f.dimE; d.E = f.dimE ? f.E : 1; d.v.assign(f.T, std::vector<float>((size_t)f.ny * f.nx * d.E, -999.f)); std::vector<MP> had; auto i = f.cache.find(m); if (i != f.cache.end()) had = i->second; bool all = had.size() > 0; for (auto &x : had) if (!x) all = false; if (!all) for (int z = 0; z < f.T; z++) get(f, m, z); f.disk[m] = d; }
                    DV &d = f.disk[m]; f.written.insert(m);
                    for (int z = 0; z < f.T; z++) {
                        MP g = get(f, m, z); std::vector<float> &x = d.v.at(d.hasT ? z : 0);
                        for (int i = 0; i < f.ny * f.nx; i++) for (int e = 0; e < d.E; e++) { float y = g->v[i * f.E + e]; if (d.info.packed && y != -999.f) y = (float)(d.info.scale * round((y - d.info.off) / d.info.scale) + d.info.off); x[i * d.E + e] = y; }
                    }
                }
                break; }
            }
        }
        for (size_t k = 0; k < F.size(); k++) { FOp c; c.code = O_CLOSE; c.file = k; emit(c); }
    }
    std::vector<int> dimE;
    std::string say(const FOp &o) { std::string s = ONAME[o.code]; s += " f" + std::to_string(o.file); if (o.code == O_WRITE) { for (auto &n : o.names) s += " " + n; } else if (o.code != O_OPEN && o.code != O_CLOSE && o.code != O_CLEAR && o.code != O_POKE) s += " " + o.name; if (o.code == O_GETV || o.code == O_GETS || o.code == O_ADD) s += " t=" + std::to_string(o.t); if (o.reg >= 0) s += " field " + std::to_string(o.reg); if (o.code == O_OPEN) { if (o.ro) s += " read-only"; if (o.T) s += " times=" + std::to_string(o.T); if (o.E) s += " members=" + std::to_string(o.E); } if (o.code == O_ALIAS) s += " -> " + o.to; return s; }
    // ---- the real thing
    CliRun launch(const Plan &p, const std::string &dir, const SimCfg &cfg, const CliOpts &o) {
        build(p);
        if (getenv("SIM_VERBOSE")) for (size_t i = 0; i < sc.ops.size(); i++) fprintf(stderr, "%zu %s\n", i, say(sc.ops[i]).c_str());
        return run_in_dir(dir, cfg, o, [&](Buf &out) { return run_ops(out); });
    }
    int run_ops(Buf &out) {
        std::vector<std::unique_ptr< ::File> > F(sc.files.size()); std::vector<FieldPtr> regs;
        auto note = [&](size_t op, const std::vector<float> &v) { size_t k = out.b.size(); out.u32((uint32_t)op); out.u32((uint32_t)v.size()); out.raw(v.data(), v.size() * 4); if (out.b.size() < sizeof shB->out) { memcpy(shB->out + k, &out.b[k], out.b.size() - k); shB->outlen = out.b.size(); } };
        auto vals = [](const ::Field &f) { std::vector<float> v; for (int y = 0; y < f.getNumY(); y++) for (int x = 0; x < f.getNumX(); x++) for (int e = 0; e < f.getNumEns(); e++) v.push_back(f(y, x, e)); return v; };
        for (size_t i = 0; i < sc.ops.size(); i++) {
            const FOp &o = sc.ops[i]; MFile &m = sc.files[o.file]; ::File *f = F[o.file].get();
            switch (o.code) {
            case O_OPEN: {
                ::Options opt(m.opt);
                if (m.kind == 0) f = new FileNetcdf(m.fs.name, opt, o.ro); else if (m.kind == 1) f = new FilePoint(m.fs.name, opt, o.ro); else f = new FileText(m.fs.name, opt);
                F[o.file].reset(f);
                if (o.T) { std::vector<double> t; for (int z = 0; z < o.T; z++) t.push_back(1577836800 + 3600.0 * (z + 1)); f->setTimes(t); }
                if (o.E) f->setNumEns(o.E);
                std::vector<float> v = { (float)f->getNumTime(), (float)f->getNumEns(), (float)f->getNumY(), (float)f->getNumX() };
                if (m.kind == 2) { vec2 a = f->getLats(), b = f->getLons(), c = f->getElevs(); for (size_t y = 0; y < a.size(); y++) { v.push_back(a[y][0]); v.push_back(b[y][0]); v.push_back(c[y][0]); } }
                note(i, v); break; }
            case O_CLOSE: F[o.file].reset(); break;
            case O_GETV: { FieldPtr p = f->getField(Variable(o.name), o.t); regs.push_back(p); note(i, p ? vals(*p) : std::vector<float>()); break; }
            case O_GETS: { FieldPtr p = f->getField(o.name, o.t); regs.push_back(p); note(i, p ? vals(*p) : std::vector<float>()); break; }
            case O_POKE: { ::Field &p = *regs[o.reg]; int E = p.getNumEns(), X = p.getNumX(); for (size_t c = 0; c < o.cell.size(); c++) p(o.cell[c] / E / X, o.cell[c] / E % X, o.cell[c] % E) = o.vals[c]; break; }
            case O_NEW: { FieldPtr p = f->getEmptyField(); int E = p->getNumEns(), X = p->getNumX(); if ((size_t)p->getNumY() * X * E != o.vals.size()) _exit(3); for (size_t c = 0; c < o.vals.size(); c++) (*p)(c / E / X, c / E % X, c % E) = o.vals[c]; regs.push_back(p); break; }
            case O_ADD: f->addField(regs[o.reg], Variable(o.name), o.t); break;
            case O_INIT: f->initNewVariable(Variable(o.name)); break;
            case O_CLEAR: f->clear(); break;
            case O_WRITE: { std::vector<Variable> v; for (auto &n : o.names) v.push_back(Variable(n)); f->write(v); break; }
            case O_HAS: note(i, { (float)f->hasVariable(Variable(o.name)) }); break;
            case O_KNOWN: note(i, { (float)f->hasDefinedVariable(Variable(o.name)) }); break;
            case O_ALIAS: f->addVariableAlias(o.name, Variable(o.to)); break;
            }
        }
        return 0;
    }
    // ---- verdict
    Verdict fail(const char *c, const std::string &d) { Verdict v; v.cls = c; v.detail = d; return v; }
    std::string upto(int op) { std::string s = "after:"; for (int i = std::max(0, op - 14); i < op; i++) s += " " + say(sc.ops[i]) + ";"; return s; }
    Verdict judge(Plan &p, CliRun &c, const std::string &, State &s) {
        build(p);
        tot.n["operations"] += sc.ops.size(); for (auto &o : sc.ops) tot.per_case[ONAME[o.code]]++;
        bool faulty = c.fired || c.space_fired; const unsigned char *q = c.out.data(), *e = q + c.out.size(); size_t k = 0;
        for (; q + 8 <= e; k++) {
            uint32_t op, n; memcpy(&op, q, 4); memcpy(&n, q + 4, 4); q += 8; std::vector<float> v(n); memcpy(v.data(), q, n * 4); q += n * 4;
            if (k >= sc.obs.size() || sc.obs[k].op != (int)op) return fail("history", "unexpected result");
            const Obs &b = sc.obs[k]; const FOp &o = sc.ops[op];
            if (b.v.size() != v.size()) return fail(o.code == O_OPEN ? "open" : "read", say(o) + " gives " + std::to_string(v.size()) + " values, not " + std::to_string(b.v.size()) + ", " + upto(op));
            for (size_t i = 0; i < v.size(); i++) if (!near(v[i], b.v[i], b.tol)) return fail(o.code == O_OPEN ? "open" : o.code == O_HAS || o.code == O_KNOWN ? "query" : "read", say(o) + " gives " + std::to_string(v[i]) + " at " + std::to_string(i) + ", not " + std::to_string(b.v[i]) + ", " + upto(op));
        }
        if (c.status && !faulty) return fail("failure", "status " + std::to_string(c.status) + " without any fault at " + std::to_string(k) + " of " + std::to_string(sc.obs.size()) + " results, " + upto((int)sc.ops.size()));
        if (c.status) { tot.n["histories_cut_by_fault"]++; return Verdict(); }
        if (k != sc.obs.size()) return fail("history", "results are missing");
        for (size_t j = 0; j < sc.files.size(); j++) { std::string d = stored(sc.files[j], w.s0.d[j], s.d[j], s.ok[j]); if (d.size()) return fail("stored", sc.files[j].fs.name + ": " + d + ", " + upto((int)sc.ops.size())); }
        tot.n[faulty ? "histories_complete_despite_fault" : "histories_complete"]++;
        return Verdict();
    }
    std::string stored(MFile &f, const Dump &a, const Dump &b, bool ok) {
        if (!ok) return "cannot be read";
        if (!f.ever) return dump_diff(a, b, nullptr);
        if (f.kind) {
            std::vector<std::vector<double> > rows; rows_of(b.count("text") ? b.at("text") : "", rows); DV &d = f.disk["*"];
            size_t h = f.kind == 1 ? 1 : 4; if (rows.size() != (size_t)f.T * f.ny) return std::to_string(rows.size()) + " rows, not " + std::to_string(f.T * f.ny);
            for (auto &x : rows) {
                int t = std::find(f.times.begin(), f.times.end(), x[0]) - f.times.begin(), y = 0; if (t >= f.T) return "unknown time";
                if (h == 4) { if (x.size() < 4) return "short row"; y = std::find(f.locs.begin(), f.locs.end(), std::vector<float>{ (float)x[1], (float)x[2], (float)x[3] }) - f.locs.begin(); if (y >= f.ny) return "unknown location"; }
                if (x.size() != h + f.E) return "row with " + std::to_string(x.size() - h) + " values";
                for (int m = 0; m < f.E; m++) if (!near((float)x[h + m], d.v[t][y * f.E + m], 0.0061)) return "time " + std::to_string(t) + " row " + std::to_string(y) + ": " + std::to_string(x[h + m]) + ", not " + std::to_string(d.v[t][y * f.E + m]);
            }
            return "";
        }
        auto owner = [](const std::string &k) { size_t i = k.find(' '), j = k.find(' ', i + 1); return k.substr(i + 1, j == std::string::npos ? j : j - i - 1); };
        bool newT = f.fs.nc.T == 0, newE = f.fs.nc.E == 0;
        auto free = [&](const std::string &k) {
            if (k == "att (global) history" || k == "att (global) Conventions") return true;
            std::string o = owner(k); if (k == "dim time") return newT; if (k == "dim ensemble_member") return newE; if (k.compare(0, 4, "dim ") == 0) return false;
            if (o == "time") return newT || k.compare(0, 4, "att ") == 0; if (o == "forecast_reference_time") return !f.fs.nc.ref || k.compare(0, 4, "att ") == 0; if (o == "altitude") return f.fs.nc.alt == 2;
            if (f.written.count(o)) return k == "att " + o + " coordinates" || k == "data " + o || (k == "var " + o && !a.count(k));
            return false;
        };
        std::string d = dump_diff(a, b, free); if (d.size()) return d;
        if (f.T) { auto i = b.find("data time"); if (i == b.end()) return "no times"; std::vector<double> t = numbers(NC_DOUBLE, i->second); if (t != f.times && b.at("var time").compare(0, 2, "6 ") == 0) return "times differ"; }
        for (auto &n : f.written) {
            DV x; if (!decode(b, n, f, x)) return "cannot find " + n; DV &m = f.disk[n];
            if (x.hasT != m.hasT || x.hasE != m.hasE || x.v.size() != m.v.size() || x.E != m.E) return n + " has other dimensions";
            for (size_t t = 0; t < x.v.size(); t++) for (size_t i = 0; i < x.v[t].size(); i++) if (!near(x.v[t][i], m.v[t][i], fuzz(m.info))) return n + " holds " + std::to_string(x.v[t][i]) + " at time " + std::to_string(t) + " index " + std::to_string(i) + ", not " + std::to_string(m.v[t][i]);
        }
        return "";
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        size_t n = p.items.size();
        for (size_t len = (n - 1) / 2; len >= 1; len /= 2) for (size_t k = 1; k + len <= n; k += len) { Plan q = p; q.items.erase(q.items.begin() + k, q.items.begin() + k + len); out.push_back(q); }
        for (size_t k = 0; k < p.faults.size(); k++) { Plan q = p; q.faults.erase(q.faults.begin() + k); out.push_back(q); if (p.faults[k].sticky) { Plan z = p; z.faults[k].sticky = 0; out.push_back(z); } }
        if (p.get("files", 1) > 1) { Plan q = p; q.kv["files"] = 1; out.push_back(q); }
        if (p.items[0].cap > 1) { Plan q = p; q.items[0].cap = 1; out.push_back(q); }
        if (p.get("pack", 1)) { Plan q = p; q.kv["pack"] = 0; out.push_back(q); }
    }
};
}
Prop *make_file_prop(const std::string &id) { if (id == "H03") return new Files(); return NULL; }
