// H04 and F05: histories of operations on parameter files (text, netCDF, in memory) against a reference model.
#include "cli_prop.h"
#include "ParameterFile/ParameterFile.h"
#include "Options.h"
#include <memory>
#include <sstream>
#include <math.h>
#include <netcdf.h>

namespace {
enum { P_OPEN, P_NEW, P_SIMPLE, P_SET, P_COPY, P_TREE, P_GETN, P_GETX, P_GETT, P_LOCS, P_TIMES, P_DEP, P_NUM, P_WRITE, P_CLOSE, P_POKE };
static const char *const PN[] = { "open", "new", "simple", "set", "copy", "tree", "nearest", "exact", "get", "locations", "times", "dependence", "count", "write", "close", "change the answer" };
typedef std::pair<float, float> Key;
typedef std::vector<float> Vals;
typedef std::map<Key, std::vector<Vals> > Sets;
static const Key GLOBAL(-999.f, -999.f);
struct POp { int code = 0, h = 0, g = 0, t = 0, kind = 0; std::string file, opt; Key loc = GLOBAL; float elev = -999; Vals v; bool noloc = false; };
struct PObs { int op; std::vector<Vals> any; };
struct PDisk { int kind = 0; Sets m; std::map<Key, float> elev; int T = 0; bool timed = false; std::string opt; std::vector<int> times; };
struct PHandle {
    int kind = -1; std::string file, opt; bool made = false, cycle = false, fresh = false, wrote = false, stale = false, changed = false, timed = false; int maxT = 0;
    Sets m; std::map<Key, float> elev; std::vector<int> times; std::vector<std::pair<int, Key> > asked;    // recent lookups
    bool global() const { return m.size() == 1 && m.begin()->first == GLOBAL; }
};
struct PScript { std::vector<POp> ops; std::vector<PObs> obs; size_t split = 0; bool made = false; std::string key; };

static double apart(float la, float lo, float lb, float lp) {
    double R = 6.378137e6, a = la * M_PI / 180, b = lb * M_PI / 180, d = ((double)lo - lp) * M_PI / 180, s = sin((a - b) / 2), q = sin(d / 2);
    return 2 * R * asin(std::min(1.0, sqrt(s * s + cos(a) * cos(b) * q * q)));
}
static std::vector<double> nums(const Dump &d, const std::string &v) {
    std::vector<double> o; int type = atoi(d.at("var " + v).c_str()); const std::string &b = d.at("data " + v); const char *p = b.data(), *e = p + b.size();
#define TAKE(N, T) if (type == N) while (p + sizeof(T) <= e) { T x; memcpy(&x, p, sizeof x); o.push_back((double)x); p += sizeof x; }
    TAKE(NC_FLOAT, float) TAKE(NC_DOUBLE, double) TAKE(NC_INT, int)
#undef TAKE
    return o;
}
static std::vector<std::string> words(const std::string &s) { std::istringstream i(s); std::vector<std::string> o; std::string w; while (i >> w) o.push_back(w); return o; }
static std::string g9(float v) { char b[40]; snprintf(b, sizeof b, "%.9g", (double)v); return b; }

struct Params : ClientProp {
    PScript sc; int nth = 0; bool saving;
    Params(const std::string &id, bool s) : ClientProp(id), saving(s) {}
    void gen(Rng &r, uint64_t, Plan &p) {
        nth = 0;
        Item w; w.name = "world"; w.seed = r.next() >> 1; w.cap = saving ? r.range(0, 1) : r.range(0, 2); w.x = r.below(6);
        p.items.push_back(w); p.kv["np"] = r.chance(0.2) ? r.range(6, 12) : r.range(1, 4); if (r.chance(saving ? 0.2 : 0.08)) p.kv["big"] = 1;
        int n = saving ? r.range(3, 18) : r.chance(0.3) ? r.range(20, 60) : r.range(4, 20);
        for (int k = 0; k < n; k++) {
            static const int C[] = { P_OPEN, P_OPEN, P_NEW, P_NEW, P_SIMPLE, P_SET, P_SET, P_SET, P_SET, P_SET, P_SET, P_COPY, P_COPY, P_TREE, P_GETN, P_GETN, P_GETN, P_GETN, P_GETX, P_GETX, P_GETT, P_LOCS, P_TIMES, P_DEP, P_NUM, P_WRITE, P_WRITE, P_CLOSE, P_CLOSE, P_POKE };
            static const int S[] = { P_NEW, P_NEW, P_OPEN, P_SET, P_SET, P_SET, P_SET, P_SET, P_SET, P_COPY, P_WRITE, P_WRITE, P_CLOSE };
            Item o; o.name = "op"; o.seed = r.next() >> 1; o.cap = saving ? S[r.below(13)] : C[r.below(30)]; o.x = r.below(64); p.items.push_back(o);
        }
    }
    int runs_per_world() { return saving ? 8 : 4; }
    bool need_ref_ok() { return saving; }
    bool interesting(const Plan &, const CliRun &c) { return !saving || c.fired || c.space_fired; }
    bool pick(Rng &r, Plan &p) {
        if (!saving) { if (nth++ == 0) return true; if (!w.ref.ok()) return false; }
        if (w.written > 0 && r.chance(saving ? 0.3 : 0.15)) { p.kv["space"] = r.below((uint32_t)std::min<uint64_t>(w.written, 1u << 30)); return true; }
        return pick_fault(r, p, [&](const IoEvent &e) { return e.op != IO_SEEK && (!saving || e.op != IO_READ || r.chance(0.2)); }, [&](const IoEvent &e) { return any_fault(r, e, 0); }, 2, 0.3);
    }
    // ---- places
    static float lon_in(Rng &r, int style) { double x; switch (style) { case 3: x = r.chance(0.5) ? 180 - 8 * r.uniform() : -180 + 8 * r.uniform(); break; case 1: case 4: x = -180 + 360 * r.uniform(); break; case 2: x = r.range(5, 9); break; case 5: x = r.chance(0.5) ? 10 * r.uniform() : 350 + 10 * r.uniform(); break; default: x = 8 + 4 * r.uniform(); } return (float)x; }
    static float lat_in(Rng &r, int style) { double x; switch (style) { case 1: x = -90 + 180 * r.uniform(); break; case 2: x = r.range(58, 62); break; case 3: x = -70 + 20 * r.uniform(); break; case 4: x = (r.chance(0.5) ? 1 : -1) * (90 - 12 * r.uniform()); break; case 5: x = -5 + 10 * r.uniform(); break; default: x = 58 + 4 * r.uniform(); } return (float)x; }
    static float elev_in(Rng &r) { return r.chance(0.25) ? -999.f : (float)(r.chance(0.2) ? 0 : -100 + 2500 * r.uniform()); }
    static float val_in(Rng &r) { switch (r.below(12)) { case 0: return 0; case 1: return -999.f; case 2: return (float)r.range(-5, 5); case 3: return (float)(1e30 * (r.uniform() - 0.5)); case 4: return (float)(1e-30 * (r.uniform() - 0.5)); case 5: return 0.1f; default: return (float)(20 * (r.uniform() - 0.5)); } }
    static int np_of(const Plan &p) { return (int)p.get("np", 2); }
    Job make(const Plan &p) {
        Job j; const Item &w = p.items[0]; Rng r(w.seed ^ 0x5a5a); int np = np_of(p);
        for (int f = 0; f < w.cap; f++) {
            FileSpec s; s.seed = r.next() >> 1; s.np = np; s.pmode = 0; s.T = r.range(1, 4); s.n = r.range(1, 6); if (p.get("big")) s.n = r.range(40, 200); s.timed = r.chance(0.6); s.spatial = r.chance(0.7); NcSpec &n = s.nc;
            n.fmt = r.below(4); n.order = r.below(6); n.names = r.below(3); n.nx = r.range(1, 3); n.alt = r.chance(0.8);
            switch (w.x) { case 1: n.lat0 = -80; n.dlat = 80; n.lon0 = -170; n.dlon = 170; break; case 3: n.lat0 = -70; n.dlat = 10; n.lon0 = 172; n.dlon = 4; break; case 4: n.lat0 = 80; n.dlat = 5; n.lon0 = -180; n.dlon = 180; break; case 5: n.lat0 = -5; n.dlat = 5; n.lon0 = 350; n.dlon = 5; break; default: n.lat0 = 58; n.dlat = 2; n.lon0 = 8; n.dlon = 2; }
            if (r.chance(0.5)) { s.kind = FS_PNC; s.name = "p" + std::to_string(f) + ".nc"; s.spatial = true; s.text = "wide"; }
            else { s.kind = FS_PTEXT; s.name = "p" + std::to_string(f) + ".txt"; s.text = text_file(s, w.x); }
            j.files.push_back(s); j.outputs.push_back(s.name); j.params.push_back(s.name);
        }
        return j;
    }
    // a text parameter file with its columns in any order
    static std::string text_file(const FileSpec &s, int style) {
        Rng r(s.seed ^ 0x77); std::ostringstream o; std::vector<int> cols;      // -1 time, -2 lat, -3 lon, -4 elev, k values
        if (s.timed) cols.push_back(-1); if (s.spatial) for (int k = -2; k >= -4; k--) cols.push_back(k);
        for (int k = 0; k < s.np; k++) cols.push_back(k);
        if (r.chance(0.3)) for (size_t k = cols.size(); k > 1; k--) std::swap(cols[k - 1], cols[r.below(k)]);
        if (r.chance(0.3)) o << "# some comment\n";
        for (size_t k = 0, c = 0; k < cols.size(); k++) { o << (k ? " " : ""); switch (cols[k]) { case -1: o << "time"; break; case -2: o << "lat"; break; case -3: o << "lon"; break; case -4: o << "elev"; break; default: o << "c" << c++; } }
        o << "\n";
        std::vector<std::string> rows; std::vector<Key> at; std::vector<float> el; int n = s.spatial ? s.n : 1;
        for (int i = 0; i < n; i++) { Key k; do { k.first = lat_in(r, style); k.second = lon_in(r, style); } while (std::find(at.begin(), at.end(), k) != at.end() && !(r.below(4) == 0)); if (std::find(at.begin(), at.end(), k) != at.end()) continue; at.push_back(k); el.push_back(r.chance(0.2) ? -999.f : (float)(1000 * r.uniform())); }
        int base = r.chance(0.3) ? r.range(1, 3) : 0, T = s.timed ? s.T : 1;
        for (int t = 0; t < T; t++) for (size_t i = 0; i < at.size(); i++) {
            if (r.chance(0.15) && !(t == T - 1 && i + 1 == at.size())) continue;
            std::string l; int c = 0;
            for (size_t k = 0; k < cols.size(); k++) { if (k) l += r.chance(0.1) ? "   " : " "; switch (cols[k]) { case -1: l += std::to_string(t + base); break; case -2: l += g9(at[i].first); break; case -3: l += g9(at[i].second); break; case -4: l += g9(el[i]); break; default: c++; l += g9(val_in(r)); } }
            rows.push_back(l);
        }
        if (s.timed || s.spatial) if (r.chance(0.4)) for (size_t k = rows.size(); k > 1; k--) std::swap(rows[k - 1], rows[r.below(k)]);
        for (auto &l : rows) { o << l << "\n"; if (r.chance(0.05)) o << "#\n"; }
        return o.str();
    }
    static PDisk from_text(const std::string &t) {
        PDisk d; d.kind = 0; std::istringstream in(t); std::string l; std::vector<std::string> h; std::set<int> times;
        while (std::getline(in, l)) {
            if (l[0] == '#') continue; std::vector<std::string> x = words(l); if (h.empty()) { h = x; continue; }
            int t = 0; Key k = GLOBAL; float e = -999; Vals v;
            for (size_t i = 0; i < x.size(); i++) { float f = strtof(x[i].c_str(), NULL); if (h[i] == "time") t = atoi(x[i].c_str()); else if (h[i] == "lat") k.first = f; else if (h[i] == "lon") k.second = f; else if (h[i] == "elev") e = f; else v.push_back(f); }
            put(d.m, d.elev, d.T, k, e, t, v); d.timed = d.timed || t > 0; times.insert(t);
        }
        d.times.assign(times.begin(), times.end());
        return d;
    }
    // as the store keeps it: one list of times per place
    static void put(Sets &m, std::map<Key, float> &el, int &maxT, Key k, float e, int t, const Vals &v) {
        maxT = std::max(maxT, t); if (!m.count(k)) el[k] = e;
        std::vector<Vals> &x = m[k]; if ((int)x.size() <= t) x.resize(maxT + 1); x[t] = v;
    }
    static PDisk from_nc(const Dump &d) {
        PDisk o; o.kind = 1; std::vector<std::string> w = words(d.at("var coefficient")); std::map<std::string, int> len; std::vector<int> L;
        for (size_t k = 1; k < w.size(); k++) { L.push_back(atoi(d.at("dim " + w[k]).c_str())); len[w[k]] = L.back(); }
        std::string y = d.count("dim lat") ? "lat" : d.count("dim latitude") ? "latitude" : "y", x = d.count("dim lon") ? "lon" : d.count("dim longitude") ? "longitude" : "x";
        int T = len.count("time") ? len["time"] : d.count("dim time") ? atoi(d.at("dim time").c_str()) : 1, ny = len[y], nx = len[x], nc = len["coeff"];
        std::string vla = d.count("var lat") ? "lat" : "latitude", vlo = d.count("var lon") ? "lon" : "longitude";
        std::vector<double> la = nums(d, vla), lo = nums(d, vlo), el; if (d.count("var altitude")) el = nums(d, "altitude"); bool oned = (int)words(d.at("var " + vla)).size() == 2, swap = !oned && words(d.at("var " + vla))[1] == x;
        std::vector<double> c = nums(d, "coefficient"); float fill = NC_FILL_FLOAT; (void)T;
        for (int i = 0; i < ny; i++) for (int j = 0; j < nx; j++) {
            int ij = swap ? j * ny + i : i * nx + j, ije = el.size() && words(d.at("var altitude"))[1] == x ? j * ny + i : i * nx + j;
            Key k((float)la[oned ? i : ij], (float)lo[oned ? j : ij]); float e = el.size() ? (float)el[ije] : -999.f; if (!o.m.count(k)) o.elev[k] = e;
            std::vector<Vals> v(len.count("time") ? len["time"] : 1, Vals(nc));
            for (int t = 0; t < (int)v.size(); t++) for (int q = 0; q < nc; q++) { size_t a = 0; for (size_t z = 1; z < w.size(); z++) a = a * L[z - 1] + (w[z] == "time" ? t : w[z] == y ? i : w[z] == x ? j : q); float f = (float)c[a]; v[t][q] = f == fill ? -999.f : f; }
            o.m[k] = v;
        }
        o.T = (len.count("time") ? len["time"] : 1) - 1; o.timed = o.T > 0; for (int t = 0; t <= o.T; t++) o.times.push_back(t);
        return o;
    }
    // ---- the model
    void emit(const POp &o) { sc.ops.push_back(o); }
    void expect(const std::vector<Vals> &v) { PObs b; b.op = (int)sc.ops.size(); b.any = v; sc.obs.push_back(b); }
    static bool time_ok(const PHandle &h, int t) { if (!h.timed) return true; if (h.maxT > 0 && h.cycle) return true; return t <= h.maxT; }
    static int time_of(const PHandle &h, int t) { if (!h.timed) return 0; if (h.maxT > 0 && h.cycle) return t % (h.maxT + 1); return t; }
    static Vals at(const PHandle &h, Key k, int t) { auto i = h.m.find(k); if (i == h.m.end() || (int)i->second.size() <= t) return Vals(); return i->second[t]; }
    static std::vector<Vals> nearest(const PHandle &h, Key q, int t) {
        std::vector<Vals> o; if (h.m.empty()) return { Vals() };
        if (h.m.size() == 1) return { at(h, h.m.begin()->first, t) };
        { Vals v = at(h, q, t); if (v.size()) return { v }; }
        double best = 1e99; for (auto &x : h.m) if (at(h, x.first, t).size()) best = std::min(best, apart(q.first, q.second, x.first.first, x.first.second));
        for (auto &x : h.m) if (at(h, x.first, t).size() && apart(q.first, q.second, x.first.first, x.first.second) <= best + 10) o.push_back(at(h, x.first, t));
        if (o.empty()) o.push_back(Vals());
        return o;
    }
    static Vals locs(const Sets &m, const std::map<Key, float> &el) { Vals v; for (auto &x : m) { v.push_back(x.first.first); v.push_back(x.first.second); v.push_back(el.at(x.first)); } return v; }
    static bool writable(const PHandle &h, int np) {
        (void)np; size_t n = 0; bool any = false; for (auto &x : h.m) for (auto &v : x.second) if (v.size()) { if (any && v.size() != n) return false; any = true; n = v.size(); }
        if (!any) return false;
        if (h.kind == 0) return true;
        if (h.kind != 1 || !h.fresh || h.wrote || h.global() || h.stale) return false;
        for (int t = 0; t <= h.maxT; t++) if (at(h, h.m.begin()->first, time_of(h, t)).size()) return true;
        return false;
    }
    std::vector<PHandle> H; std::map<std::string, PDisk> disk;
    void store(PHandle &h) {
        PDisk d; d.kind = h.kind; d.opt = h.kind == 1 ? h.opt : "";
        if (h.kind == 0) {
            std::set<int> times;
            for (auto &x : h.m) for (int t = 0; t < (int)x.second.size(); t++) if (x.second[t].size()) { put(d.m, d.elev, d.T, x.first, h.elev[x.first], t, x.second[t]); d.timed = d.timed || t > 0; times.insert(t); }
            d.times.assign(times.begin(), times.end());
        } else {
            size_t n = 0; for (auto &x : h.m) for (auto &v : x.second) n = std::max(n, v.size());
            std::set<int> T; for (auto &x : h.m) for (size_t t = 0; t < x.second.size(); t++) T.insert((int)t);
            d.T = (int)T.size() - 1; d.timed = d.T > 0; for (int t = 0; t <= d.T; t++) d.times.push_back(t);
            for (auto &x : h.m) { d.elev[x.first] = h.elev[x.first]; for (int t = 0; t <= d.T; t++) { Vals v = at(h, x.first, time_of(h, t)); if (v.empty()) v.assign(n, -999.f); d.m[x.first].push_back(v); } }
        }
        disk[h.file] = d;
    }
    void open_op(int k, const std::string &f, bool cycle) {
        PHandle &h = H[k]; const PDisk &d = disk[f]; POp o; o.code = P_OPEN; o.h = k; o.kind = d.kind; o.file = f; o.opt = "file=" + f + (cycle ? " cycle=1" : "") + d.opt;
        h = PHandle(); h.made = true; h.kind = d.kind; h.file = f; h.cycle = cycle; h.m = d.m; h.elev = d.elev; h.maxT = d.T; h.timed = d.timed; h.times = d.times;
        expect({ Vals{ 1, (float)h.timed } }); emit(o);
    }
    void close_op(int k) { PHandle &h = H[k]; if (!h.made) return; POp o; o.code = P_CLOSE; o.h = k; emit(o); h = PHandle(); }
    void build(const Plan &p) {
        std::string key = world_key(p); if (sc.made && sc.key == key) return;
        sc = PScript(); sc.made = true; sc.key = key; H.assign(3, PHandle()); disk.clear(); int np = np_of(p), style = p.items[0].x, nnew = 0;
        for (size_t k = 0; k < w.job.files.size(); k++) { PDisk d = w.job.files[k].kind == FS_PNC ? from_nc(w.s0.d[k]) : from_text(w.job.files[k].text); disk[w.job.files[k].name] = d; }
        std::set<std::string> written;
        for (size_t i = 1; i < p.items.size(); i++) {
            const Item &it = p.items[i]; Rng r(it.seed); int k = it.x % 3; PHandle &h = H[k]; POp o; o.code = it.cap; o.h = k;
            int code = it.cap; if (!h.made && code != P_OPEN && code != P_NEW && code != P_SIMPLE) code = o.code = disk.empty() || r.chance(0.5) ? P_NEW : P_OPEN;
            auto place = [&](bool stored) { if (h.m.size() && stored) { auto z = h.m.begin(); std::advance(z, r.below(h.m.size())); return z->first; } return Key(lat_in(r, style), lon_in(r, style)); };
            auto busy = [&](const std::string &f) { for (auto &x : H) if (x.made && x.file == f && x.kind == 1) return true; return false; };
            switch (code) {
            case P_OPEN: { if (h.made) break; std::vector<std::string> f; for (auto &d : disk) if (!busy(d.first)) f.push_back(d.first); if (f.empty()) break; open_op(k, f[r.below(f.size())], r.chance(0.3)); break; }
            case P_NEW: {
                if (h.made) break; h = PHandle(); h.made = h.fresh = true; h.kind = o.kind = r.below(2); h.cycle = r.chance(0.2);
                std::string ext = h.kind ? ".nc" : ".txt"; h.file = "n" + std::to_string(nnew++) + ext;
                if (h.kind == 1) { if (r.chance(0.15)) h.opt += " dimName=c2"; if (r.chance(0.15)) h.opt += " varName=v2"; }
                o.file = h.file; o.opt = "file=" + h.file + (h.cycle ? " cycle=1" : "") + h.opt; emit(o); break; }
            case P_SIMPLE: { if (h.made) break; h = PHandle(); h.made = true; h.kind = 2; for (int z = 0; z < np; z++) o.v.push_back(val_in(r)); put(h.m, h.elev, h.maxT, GLOBAL, -999, 0, o.v); h.times = { 0 }; emit(o); break; }
            case P_SET: case P_COPY: {
                bool gl = h.m.size() ? h.global() : h.kind == 1 ? false : r.chance(0.3);
                if (h.kind == 2) gl = true;
                o.t = r.chance(0.4) ? 0 : r.range(0, r.chance(0.2) ? 8 : 3); o.noloc = gl;
                if (!gl) { o.loc = place(r.chance(0.5)); o.elev = h.elev.count(o.loc) ? h.elev[o.loc] : elev_in(r); if (h.m.count(o.loc) && r.chance(0.2)) o.elev = elev_in(r); }
                if (!gl && h.asked.size() && r.chance(0.35)) { auto &a = h.asked[r.below(h.asked.size())]; o.loc = a.second; if (time_ok(h, a.first) && r.chance(0.7)) o.t = time_of(h, a.first); o.elev = h.elev.count(o.loc) ? h.elev[o.loc] : elev_in(r); }
                if (code == P_COPY) {
                    o.g = r.below(3); PHandle &g = H[o.g]; if (!g.made || g.m.empty() || !g.m.begin()->second.size()) break; auto z = g.m.begin(); std::advance(z, r.below(g.m.size())); o.kind = r.below(g.maxT + 1); if (!time_ok(g, o.kind)) break; Key q = z->first; o.v = at(g, q, time_of(g, o.kind)); o.file = g9(q.first) + " " + g9(q.second); if (o.v.empty()) break;
                } else if (!r.chance(0.06)) { int n = r.chance(0.06) ? r.range(1, 5) : np; for (int z = 0; z < n; z++) o.v.push_back(val_in(r)); }
                if (!h.m.count(o.loc)) h.stale = true;
                put(h.m, h.elev, h.maxT, o.loc, o.elev, o.t, o.v); h.timed = h.timed || o.t > 0; h.changed = true; emit(o); break; }
            case P_TREE: { if (h.m.empty()) break; emit(o); h.stale = false; break; }
            case P_GETN: case P_POKE: {
                if (h.stale) { POp z; z.code = P_TREE; z.h = k; emit(z); h.stale = false; }
                o.t = h.timed ? r.range(0, h.cycle && h.maxT ? 3 * h.maxT + 2 : h.maxT) : r.range(0, 9); if (!time_ok(h, o.t)) break;
                bool known = r.chance(0.4); o.loc = place(known || r.chance(0.3)); if (o.loc == GLOBAL) o.loc = Key(lat_in(r, style), lon_in(r, style));
                else if (!known && r.chance(0.5)) { double s = pow(10, -4 + 5 * r.uniform()); o.loc.first = (float)std::max(-90.0, std::min(90.0, o.loc.first + s * (r.uniform() - 0.5))); o.loc.second = (float)(o.loc.second + s * (r.uniform() - 0.5)); if (fabs(o.loc.second) > 360) break; if (style != 5 && fabs(o.loc.second) > 180) o.loc.second -= o.loc.second > 0 ? 360 : -360; }
                if (h.asked.size() && r.chance(0.35)) { auto &a = h.asked[r.below(h.asked.size())]; if (time_ok(h, a.first)) { o.loc = a.second; if (r.chance(0.7)) o.t = a.first; } }
                h.asked.push_back(std::make_pair(o.t, o.loc)); if (h.asked.size() > 3) h.asked.erase(h.asked.begin());
                o.elev = elev_in(r); if (code == P_GETN) expect(nearest(h, o.loc, time_of(h, o.t))); emit(o); break; }
            case P_GETX: { o.t = r.range(0, h.timed ? h.maxT : 5); if (!time_ok(h, o.t)) break; o.loc = place(r.chance(0.8)); o.elev = elev_in(r); expect({ at(h, o.loc, time_of(h, o.t)) }); emit(o); break; }
            case P_GETT: { if (!h.global()) break; o.t = r.range(0, h.timed && !(h.cycle && h.maxT) ? h.maxT : 9); if (!time_ok(h, o.t)) break; expect({ at(h, GLOBAL, time_of(h, o.t)) }); emit(o); break; }
            case P_LOCS: { if (h.m.empty() || h.global() || h.stale) break; expect({ locs(h.m, h.elev) }); emit(o); break; }
            case P_TIMES: { if (h.kind == 0 && (h.changed || h.fresh)) break; Vals v; if (h.kind == 1) { std::set<int> T; for (auto &x : h.m) for (size_t t = 0; t < x.second.size(); t++) T.insert((int)t); v.assign(T.begin(), T.end()); } else v.assign(h.times.begin(), h.times.end()); expect({ v }); emit(o); break; }
            case P_DEP: { if (h.m.empty()) break; expect({ Vals{ (float)!h.global(), (float)h.timed } }); emit(o); break; }
            case P_NUM: { int n = -999, res = -1; for (auto &x : h.m) for (auto &v : x.second) if (res < 0) { if (v.empty()) { res = 0; continue; } if (n != -999 && (int)v.size() != n) { res = 2; n = -999; continue; } n = v.size(); } expect({ Vals{ (float)(res == 0 ? 0 : n) } }); emit(o); break; }
            case P_WRITE: {
                if (h.m.empty()) break; if (h.stale && h.kind == 1) { POp z; z.code = P_TREE; z.h = k; emit(z); h.stale = false; }
                if (!writable(h, np) || (h.kind == 0 && busy(h.file))) break; emit(o); h.wrote = true; if (h.kind == 0) { store(h); written.insert(h.file); } else { disk.erase(h.file); store(h); written.insert(h.file); }
                break; }
            case P_CLOSE: close_op(k); break;
            }
        }
        for (int k = 0; k < 3; k++) { if (saving) { PHandle &h = H[k]; if (h.made && !h.wrote && h.m.size()) { if (h.stale) { POp z; z.code = P_TREE; z.h = k; emit(z); h.stale = false; } if (writable(h, np)) { POp z; z.code = P_WRITE; z.h = k; emit(z); h.wrote = true; store(h); written.insert(h.file); } } } close_op(k); }
        sc.split = sc.ops.size();
        // everything on disk is read back
        for (auto &d : disk) if (!saving || written.count(d.first)) {
            open_op(0, d.first, false); PHandle &h = H[0];
            { POp o; o.code = P_DEP; expect({ Vals{ (float)!h.global(), (float)h.timed } }); emit(o); }
            if (!h.global()) { POp o; o.code = P_LOCS; expect({ locs(h.m, h.elev) }); emit(o); }
            { POp o; o.code = P_TIMES; Vals v(h.times.begin(), h.times.end()); expect({ v }); emit(o); }
            for (auto &x : h.m) for (int t = 0; t <= h.maxT; t++) { POp o; o.code = h.global() ? P_GETT : P_GETX; o.loc = x.first; o.t = t; expect({ at(h, x.first, time_of(h, t)) }); emit(o); }
            close_op(0);
        }
    }
    std::string say(const POp &o) { std::string s = std::string(PN[o.code]) + " #" + std::to_string(o.h); if (o.code == P_OPEN || o.code == P_NEW) s += " " + o.opt; if (o.code == P_SET || o.code == P_COPY || o.code == P_GETN || o.code == P_GETX || o.code == P_GETT) s += " t=" + std::to_string(o.t); if (o.loc != GLOBAL) s += " (" + g9(o.loc.first) + "," + g9(o.loc.second) + ")"; if (o.code == P_SET) s += " " + std::to_string(o.v.size()) + " values"; if (o.code == P_COPY) s += " from #" + std::to_string(o.g) + " t=" + std::to_string(o.kind) + " (" + o.file + ")"; return s; }
    // ---- the real thing
    CliRun launch(const Plan &p, const std::string &dir, const SimCfg &cfg, const CliOpts &o) {
        build(p);
        if (getenv("SIM_VERBOSE")) for (size_t i = 0; i < sc.ops.size(); i++) fprintf(stderr, "%zu %s\n", i, say(sc.ops[i]).c_str());
        return run_in_dir(dir, cfg, o, [&](Buf &out) { return run_ops(out, 0, saving ? sc.split : sc.ops.size()); });
    }
    int run_ops(Buf &out, size_t from, size_t to) {
        std::vector<std::unique_ptr<ParameterFile> > P(3);
        auto note = [&](size_t op, const Vals &v) { size_t k = out.b.size(); out.u32((uint32_t)op); out.u32((uint32_t)v.size()); out.raw(v.data(), v.size() * 4); if (out.b.size() < sizeof shB->out) { memcpy(shB->out + k, &out.b[k], out.b.size() - k); shB->outlen = out.b.size(); } };
        for (size_t i = from; i < to; i++) {
            const POp &o = sc.ops[i]; ParameterFile *f = P[o.h].get(); Location loc(o.loc.first, o.loc.second, o.elev);
            switch (o.code) {
            case P_OPEN: case P_NEW: {
                ::Options opt(o.opt); f = ParameterFile::getScheme(o.kind ? "netcdf" : "text", opt, o.code == P_NEW); P[o.h].reset(f);
                if (o.code == P_OPEN) { bool ok = f->isReadable(); if (!ok && (g_io->nfaults || g_io->space_left >= 0)) return 7; note(i, { (float)ok, (float)f->isTimeDependent() }); }
                break; }
            case P_SIMPLE: P[o.h].reset(new ParameterFileSimple(Parameters(o.v))); break;
            case P_SET: if (o.noloc) f->setParameters(Parameters(o.v), o.t); else f->setParameters(Parameters(o.v), o.t, loc); break;
            case P_COPY: { std::vector<std::string> q = words(o.file); Parameters x = P[o.g]->getParameters(o.kind, Location(strtof(q[0].c_str(), NULL), strtof(q[1].c_str(), NULL), 0), false); if (o.noloc) f->setParameters(x, o.t); else f->setParameters(x, o.t, loc); break; }
            case P_TREE: f->recomputeTree(); break;
            case P_GETN: note(i, f->getParameters(o.t, loc).getValues()); break;
            case P_POKE: { Parameters x = f->getParameters(o.t, loc); for (int k = 0; k < x.size(); k++) x[k] = x[k] + 7; break; }
            case P_GETX: note(i, f->getParameters(o.t, loc, false).getValues()); break;
            case P_GETT: note(i, f->getParameters(o.t).getValues()); break;
            case P_LOCS: { std::vector<Location> l = f->getLocations(); std::vector<Vals> s; for (auto &x : l) s.push_back({ x.lat(), x.lon(), x.elev() }); std::sort(s.begin(), s.end()); Vals v; for (auto &x : s) v.insert(v.end(), x.begin(), x.end()); note(i, v); break; }
            case P_TIMES: { std::vector<int> t = f->getTimes(); note(i, Vals(t.begin(), t.end())); break; }
            case P_DEP: note(i, { (float)f->isLocationDependent(), (float)f->isTimeDependent() }); break;
            case P_NUM: note(i, { (float)f->getNumParameters() }); break;
            case P_WRITE: f->write(); break;
            case P_CLOSE: P[o.h].reset(); break;
            }
        }
        return 0;
    }
    Verdict fail(const char *c, const std::string &d) { Verdict v; v.cls = c; v.detail = d; return v; }
    std::string upto(int op) { std::string s = "after:"; for (int i = std::max(0, op - 14); i < op; i++) s += " " + say(sc.ops[i]) + ";"; return s; }
    static std::string list(const Vals &v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 6; i++) s += (i ? " " : "") + g9(v[i]); return s + (v.size() > 6 ? " ...]" : "]"); }
    Verdict matches(const std::vector<unsigned char> &b, size_t from, size_t &k) {
        const unsigned char *q = b.data(), *e = q + b.size(); size_t j = 0; while (j < sc.obs.size() && (size_t)sc.obs[j].op < from) j++;
        for (k = 0; q + 8 <= e; k++, j++) {
            uint32_t op, n; memcpy(&op, q, 4); memcpy(&n, q + 4, 4); q += 8; Vals v(n); memcpy(v.data(), q, n * 4); q += n * 4;
            if (j >= sc.obs.size() || sc.obs[j].op != (int)op) return fail("history", "unexpected result");
            bool ok = false; for (auto &x : sc.obs[j].any) if (x == v) ok = true;
            if (!ok) return fail(PN[sc.ops[op].code], say(sc.ops[op]) + " gives " + list(v) + ", not " + list(sc.obs[j].any[0]) + ", " + upto(op));
        }
        return Verdict();
    }
    Verdict judge(Plan &p, CliRun &c, const std::string &dir, State &) {
        build(p);
        tot.n["operations"] += sc.ops.size(); for (auto &o : sc.ops) tot.per_case[PN[o.code]]++;
        bool faulty = c.fired || c.space_fired; size_t k = 0;
        if (saving) {
            if (c.status) { if (!faulty) return fail("failure", "status " + std::to_string(c.status) + " without any fault, " + upto((int)sc.split)); tot.n["saves_reporting_failure"]++; return Verdict(); }
            CliOpts o; SimCfg q = quiet_cfg();
            CliRun a = run_in_dir(dir, q, o, [&](Buf &out) { return run_ops(out, sc.split, sc.ops.size()); });
            if (no_answer(a)) { tot.n["inconclusive"]++; return Verdict(); }
            Verdict v = matches(a.out, sc.split, k); if (v.bad()) { v.cls = "saved set lost"; v.detail = "saving reported no error, but then " + v.detail; return v; }
            size_t want = 0; for (auto &b : sc.obs) if ((size_t)b.op >= sc.split) want++;
            if (a.status || k != want) return fail("saved set lost", "saving reported no error, but reading back ends with status " + std::to_string(a.status) + " after " + std::to_string(k) + " of " + std::to_string(want) + " results, " + upto((int)sc.split));
            tot.n["saves_read_back"]++;
            return Verdict();
        }
        Verdict v = matches(c.out, 0, k); if (v.bad()) return v;
        if (c.status && !faulty) return fail("failure", "status " + std::to_string(c.status) + " without any fault at " + std::to_string(k) + " of " + std::to_string(sc.obs.size()) + " results, " + upto(k < sc.obs.size() ? sc.obs[k].op + 1 : (int)sc.ops.size()));
        if (c.status) { tot.n["histories_cut_by_fault"]++; return Verdict(); }
        if (k != sc.obs.size()) return fail("history", "results are missing");
        tot.n[faulty ? "histories_complete_despite_fault" : "histories_complete"]++;
        return Verdict();
    }
    void shrinks(const Plan &p, std::vector<Plan> &out) {
        size_t n = p.items.size();
        for (size_t len = (n - 1) / 2; len >= 1; len /= 2) for (size_t k = 1; k + len <= n; k += len) { Plan q = p; q.items.erase(q.items.begin() + k, q.items.begin() + k + len); out.push_back(q); }
        for (size_t k = 0; k < p.faults.size(); k++) { Plan q = p; q.faults.erase(q.faults.begin() + k); out.push_back(q); if (p.faults[k].sticky) { Plan z = p; z.faults[k].sticky = 0; out.push_back(z); } }
        if (p.items[0].cap > 0) { Plan q = p; q.items[0].cap--; out.push_back(q); }
        if (p.get("np", 1) > 1) { Plan q = p; q.kv["np"] = 1; out.push_back(q); }
    }
};
}
Prop *make_param_prop(const std::string &id) { if (id == "H04") return new Params(id, false); if (id == "F05") return new Params(id, true); return NULL; }
