#include "cli.h"
#include <dirent.h>
#include <fcntl.h>
#include <netcdf.h>
#include <signal.h>
#include <sstream>
#include <fstream>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include <algorithm>

// ------------------------------------------------------------------ small helpers
static std::string g_scratch;
std::string scratch() {
    if (g_scratch.empty()) {
        const char *e = getenv("SIM_SCRATCH");
        std::string base = e && *e ? e : access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        g_scratch = base + "/simgridpp-" + std::to_string(getpid());
        mkdir(g_scratch.c_str(), 0700);
    }
    return g_scratch;
}
static void wipe(const std::string &d) {
    DIR *p = opendir(d.c_str()); if (!p) return;
    while (struct dirent *e = readdir(p)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string f = d + "/" + n; struct stat st;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(f); rmdir(f.c_str()); } else unlink(f.c_str());
    }
    closedir(p);
}
void scratch_done() { if (g_scratch.empty()) return; if (getenv("SIM_KEEP")) { fprintf(stderr, "kept %s\n", g_scratch.c_str()); return; } wipe(g_scratch); rmdir(g_scratch.c_str()); g_scratch.clear(); }
std::string slurp(const std::string &path, bool *ok) {
    std::string s; int fd = open(path.c_str(), O_RDONLY); if (ok) *ok = fd >= 0; if (fd < 0) return s;
    char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd); return s;
}
static void spew(const std::string &path, const std::string &s) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) { perror(path.c_str()); _exit(2); }
    size_t k = 0; while (k < s.size()) { ssize_t n = write(fd, s.data() + k, s.size() - k); if (n <= 0) { perror("write"); _exit(2); } k += n; }
    close(fd);
}
void copy_dir(const std::string &a, const std::string &b) {
    mkdir(b.c_str(), 0700); wipe(b);
    DIR *p = opendir(a.c_str()); if (!p) return;
    while (struct dirent *e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; spew(b + "/" + n, slurp(a + "/" + n)); }
    closedir(p);
}
void plain_child(const std::function<void()> &f) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { if (!getenv("SIM_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); } struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z); alarm(60); f(); _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
}
bool Job::readonly(const std::string &f) const { return std::find(outputs.begin(), outputs.end(), f) == outputs.end() && std::find(diag.begin(), diag.end(), f) == diag.end(); }
std::string Job::line() const { std::string s; for (size_t i = 1; i < args.size(); i++) { if (i > 1) s += ' '; s += args[i]; } return s; }

// ------------------------------------------------------------------ generation
// kinds of quantity: 0 temperature, 1 precipitation, 2 fraction, 3 wind component, 4 pressure, 5 direction
static const struct { const char *name, *units, *stdname; int kind; } VARS[] = {
    { "air_temperature_2m", "K", "air_temperature", 0 }, { "precipitation_amount", "kg/m^2", "precipitation_amount", 1 }, { "relative_humidity_2m", "1", "relative_humidity", 2 },
    { "x_wind_10m", "m/s", "x_wind", 3 }, { "y_wind_10m", "m/s", "y_wind", 3 }, { "surface_air_pressure", "Pa", "", 4 }, { "cloud_area_fraction", "1", "", 2 }, { "wind_direction", "degree", "", 5 } };
enum { NVARS = 8 };
static double value_of(int kind, Rng &r) {
    switch (kind) {
    case 0: return 270 + 20 * r.uniform();
    case 1: return r.chance(0.4) ? 0 : 10 * r.uniform() * r.uniform();
    case 2: return r.uniform();
    case 3: return -10 + 20 * r.uniform();
    case 4: return 95000 + 8000 * r.uniform();
    case 5: return 360 * r.uniform();
    default: return r.uniform();
    }
}
static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.7g", v); return b; }
static std::string ints(int v) { return std::to_string(v); }

static NcVar ncvar(int k, Rng &r, bool mayPack, bool missing) {
    NcVar v; v.name = VARS[k].name; v.kind = VARS[k].kind; v.units = VARS[k].units; v.stdname = VARS[k].stdname;
    v.type = NC_FLOAT; v.time = v.ens = v.horiz = true; v.swap = false; v.scale = 1; v.offset = 0; v.hasfill = false; v.packed = false; v.fill = 0;
    v.miss = missing && r.chance(0.3) ? 0.15 : 0; v.lev = 0;
    int u = r.below(6);
    if (mayPack && u == 0) {
        v.packed = true; v.type = NC_SHORT; v.hasfill = true; v.fill = -32767;
        static const float SC[] = { 0.001f, 0.001f, 0.0001f, 0.001f, 0.5f, 0.05f }, OF[] = { 280, 5, 0, 0, 99000, 180 };
        v.scale = SC[v.kind]; v.offset = OF[v.kind];
    }
    else if (u == 1) v.type = NC_DOUBLE;
    else if (u == 2) { v.hasfill = true; v.fill = -32767; }
    return v;
}
static void add_param_file(Job &j, Rng &r, std::string name, int pmode, int np, bool spatial, bool timed, int T, double lat0, double lon0, int cap) {
    FileSpec f; f.name = name; f.kind = r.chance(j.pnc ? 0.9 : 0.4) ? FS_PNC : FS_PTEXT; f.seed = r.next() >> 1; f.pmode = pmode; f.np = np; f.spatial = spatial; f.timed = timed; f.T = T; f.n = r.range(2, std::max(2, std::min(cap, 6))); if (j.big) f.n = r.range(60, 300);
    if (!spatial) f.kind = FS_PTEXT;
    f.nc.lat0 = lat0; f.nc.lon0 = lon0; f.nc.fmt = r.below(4);
    j.files.push_back(f); j.params.push_back(name);
}
NcVar gen_var(int k, Rng &r, bool pack, bool missing) { return ncvar(k, r, pack, missing); }
double gen_value(int kind, Rng &r) { return value_of(kind, r); }
const char *gen_name(int k) { return VARS[k].name; }
struct VarPlan { std::string out, in; int kind; std::vector<std::string> args; };

enum { PM_VALUE = 0, PM_POLY, PM_QQ, PM_ZAGA, PM_BCT, PM_GAUSS, PM_RADIUS, PM_ALT, PM_NINE, PM_BIAS, PM_COAST, PM_OI, PM_SMALL };
// one calibrator for a variable of this kind; returns false if the draw does not apply
static bool add_cal(Job &j, Rng &r, std::vector<std::string> &a, int kind, const NcSpec &out, int E, int T, bool aux, int cap, int id, int restrict_to, bool diag) {
    auto stat = [&]() { static const char *S[] = { "mean", "min", "max", "median", "std", "sum", "quantile" }; std::string s = S[r.below(7)]; a.push_back("stat=" + s); if (s == "quantile") a.push_back("quantile=" + num(0.1 * r.range(1, 9))); };
    auto param = [&](int mode, int np, bool spatial) {
        std::string n = "par" + ints(id) + "_" + ints((int)j.params.size());
        add_param_file(j, r, n, mode, np, spatial, r.chance(0.5), T, out.lat0, out.lon0, cap);
        FileSpec &f = j.files.back();
        if (f.kind == FS_PNC) { f.name += ".nc"; j.params.back() = f.name; } else { f.name += ".txt"; j.params.back() = f.name; }
        f.pmode = mode; f.text = std::to_string(kind);
        a.push_back("-p"); a.push_back(f.name); a.push_back(f.kind == FS_PNC ? "type=netcdf" : "type=text");
    };
    auto own = [&]() { std::string o = "surface_air_pressure"; for (size_t u = 0; u + 1 < a.size(); u++) if (a[u] == "-v") o = a[u + 1]; return o; };
    bool two = out.names != 3 && out.ny > 1 && out.nx > 1;
    int c = restrict_to >= 0 ? restrict_to : (int)r.below(24);
    a.push_back("-c");
    switch (c) {
    case 0: a.push_back("neighbourhood"); a.push_back("radius=" + ints(r.range(1, 2))); stat(); if (r.chance(0.5)) a.push_back("fast=" + ints(r.below(2))); if (r.chance(0.3)) a.push_back("approx=1"); if (r.chance(0.2)) param(PM_SMALL, 1, false); return true;
    case 1: a.push_back("window"); a.push_back("length=" + ints(r.chance(0.5) ? r.range(1, 3) : r.range(4, 12))); stat(); a.push_back("before=" + ints(r.below(2))); if (r.chance(0.3)) a.push_back("keepMissing=1"); if (r.chance(0.3)) a.push_back("edgePolicy=missing"); return true;
    case 2: { a.push_back("qc"); Rng z(r.next()); double u = value_of(kind, z), v = value_of(kind, z); a.push_back("min=" + num(std::min(u, v))); a.push_back("max=" + num(std::max(u, v))); return true; }
    case 3: { a.push_back("threshold"); Rng z(r.next()); double u = value_of(kind, z), v = value_of(kind, z); if (u == v) v += 1; a.push_back("thresholds=" + num(std::min(u, v)) + "," + num(std::max(u, v))); a.push_back("values=" + num(value_of(kind, z)) + "," + num(value_of(kind, z)) + "," + num(value_of(kind, z))); if (r.chance(0.5)) a.push_back("equals=1,0"); return true; }
    case 4: a.push_back("sort"); return true;
    case 5: a.push_back("accumulate"); return true;
    case 6: a.push_back("deaccumulate"); if (r.chance(0.3)) a.push_back("window=" + ints(r.range(1, 3))); return true;
    case 7: { a.push_back("regression"); if (aux && r.chance(0.4)) { static const char *V[] = { "1,air_temperature_2m", "1,x_wind_10m,y_wind_10m", "surface_air_pressure" }; int u = r.below(3); a.push_back(std::string("variables=") + V[u]); param(PM_POLY, u == 0 ? 2 : u == 1 ? 3 : 1, r.chance(0.4)); return true; } if (r.chance(0.2)) { a.push_back("intercept=0"); param(PM_POLY, 1, r.chance(0.4)); return true; } int o = r.range(1, 2); a.push_back("order=" + ints(o)); param(PM_POLY, o + 1, r.chance(0.4)); return true; }
    case 8: { a.push_back("qq"); static const char *X[] = { "1to1", "meanSlope", "nearestSlope", "zero" }; a.push_back(std::string("extrapolation=") + X[r.below(4)]); if (r.chance(0.2)) { double u = value_of(kind, r); a.push_back("extraObs=" + num(u)); a.push_back("extraFcst=" + num(u)); } if (r.chance(0.1)) { a.push_back("x=" + ints(r.below(3))); a.push_back("y=" + ints(r.below(3))); } param(PM_QQ, 2 * r.range(1, 6), r.chance(0.4)); return true; }
    case 9: if (kind != 1 || E < 2) break; a.push_back("zaga"); if (r.chance(0.3)) a.push_back("neighbourhoodSize=" + ints(r.range(1, 2))); if (r.chance(0.2)) a.push_back("fracThreshold=0.1"); if (r.chance(0.2)) a.push_back("maxEnsMean=3"); if (aux && r.chance(0.4)) { if (r.chance(0.5)) { a.push_back("popVariable=cloud_area_fraction"); a.push_back("popThreshold=" + num(0.1 + r.uniform())); } static const char *Q[] = { "precipLowQuantile=0.1", "precipMiddleQuantile=0.5", "precipHighQuantile=0.9" }, *N[] = { "lowVariable=x_wind_10m", "middleVariable=y_wind_10m", "highVariable=surface_air_pressure" }; for (int u = 0; u < 3; u++) if (r.chance(0.5)) { a.push_back(N[u]); a.push_back(Q[u]); } } param(PM_ZAGA, 8, r.chance(0.4)); return true;
    case 10: if (E < 2 || kind > 3) break; a.push_back("bct"); param(PM_BCT, 7, r.chance(0.4)); return true;
    case 11: if (E < 2) break; a.push_back("gaussian"); if (r.chance(0.3)) a.push_back("neighbourhoodSize=" + ints(r.range(1, 2))); param(PM_GAUSS, 2, r.chance(0.4)); return true;
    case 12: { if (!two) break; a.push_back("kriging"); a.push_back("radius=" + ints(r.range(20, 200) * 1000)); a.push_back("efoldDist=" + ints(r.range(20, 100) * 1000)); if (r.chance(0.5)) a.push_back("type=barnes"); else if (r.chance(0.3)) a.push_back("type=cressman"); if (r.chance(0.3)) a.push_back("crossValidate=1"); if (r.chance(0.3)) { static const char *O[] = { "add", "subtract", "multiply", "divide" }; a.push_back(std::string("operator=") + O[r.below(4)]); } if (r.chance(0.2)) a.push_back("approxDist=0"); if (r.chance(0.2)) a.push_back("maxElevDiff=" + ints(r.range(50, 800))); if (aux && r.chance(0.4)) { a.push_back("auxVariable=cloud_area_fraction"); a.push_back("range=0.2,0.8"); if (r.chance(0.5)) a.push_back("window=" + ints(r.range(0, 3))); } param(PM_BIAS, 1, true); return true; }
    case 13: { if (!two || !out.laf || out.alt != 1) break; a.push_back("oi"); a.push_back("d=" + ints(r.range(20, 150) * 1000)); a.push_back("maxElevDiff=" + ints(r.chance(0.8) ? 5000 : 300)); if (r.chance(0.5)) a.push_back("minEns=2"); if (r.chance(0.3)) a.push_back("extrapolate=1");
        int np = r.range(2, 3);
        if (r.chance(0.2)) a.push_back("crossValidate=1"); if (r.chance(0.3)) a.push_back("rhoType=soar"); else if (r.chance(0.2)) a.push_back("rhoType=gaussian"); if (r.chance(0.2)) a.push_back("landOnly=1"); if (r.chance(0.1)) a.push_back("saveDiff=1"); if (r.chance(0.1)) a.push_back("diagnose=1");
        if (r.chance(0.2)) a.push_back("elevGradient=-0.0065"); if (r.chance(0.2)) a.push_back("useEns=0"); if (r.chance(0.3)) a.push_back("maxLocations=" + ints(r.range(1, 4))); if (r.chance(0.2)) a.push_back("sigma=0.5"); if (r.chance(0.2)) a.push_back("h=300"); if (r.chance(0.2)) a.push_back("w=0.5");
        if (r.chance(0.1)) { a.push_back("x=" + ints(r.below(3))); a.push_back("y=" + ints(r.below(3))); }
        if (kind == 1 && r.chance(0.4)) { a.push_back("transform=boxcox"); if (r.chance(0.5)) a.push_back("boxCoxThreshold=0.1"); if (r.chance(0.5)) a.push_back(r.chance(0.5) ? "lambda=0" : "lambda=0.3"); }
        if (r.chance(0.3)) { static const char *O[] = { "epsilon=0.3", "epsilonC=0.4", "dc=20000", "wmin=0.3", "newDeltaVar=0.8", "c=1.1", "gamma=0.4", "mu=0.7", "minRho=0.1", "sigmaC=0.8", "delta=1.2", "maxBytes=1000" }; for (int u = r.range(1, 3); u > 0; u--) { std::string o = O[r.below(12)]; if (std::find(a.end() - 6, a.end(), o) == a.end()) a.push_back(o); } }
        if (aux && r.chance(0.3)) a.push_back("numVariable=cloud_area_fraction"); if (aux && r.chance(0.2)) a.push_back("biasVariable=x_wind_10m"); if (aux && r.chance(0.2)) a.push_back("deltaVariable=y_wind_10m");
        if (r.chance(diag ? 1 : 0.1)) { std::string n = "removed" + ints(id) + ".txt"; a.push_back("diaFile=" + n); if (std::find(j.diag.begin(), j.diag.end(), n) == j.diag.end()) j.diag.push_back(n); }
        param(PM_OI, np, true); return true; }
    case 14: a.push_back("mask"); a.push_back("keep=" + ints(r.below(2))); param(PM_RADIUS, 1, true); return true;
    case 15: if (!two) break; a.push_back("override"); a.push_back("radius=" + ints(r.below(3))); if (r.chance(0.3)) a.push_back("maxElevDiff=300"); param(PM_VALUE, 1, true); return true;
    case 16: if (!aux) break; a.push_back("altitude"); param(PM_ALT, 1, true); return true;
    case 17: if (!aux) break; a.push_back("windDirection"); a.push_back("directionVariable=wind_direction"); param(PM_NINE, 9, r.chance(0.4)); return true;
    case 18: if (!aux) break; a.push_back("phase"); a.push_back("temperature=air_temperature_2m"); a.push_back("precipitation=precipitation_amount"); if (r.chance(0.3)) { a.push_back("snowThreshold=278"); a.push_back("rainThreshold=283"); } param(PM_VALUE, 2, false); return true;
    case 19: if (!aux) break; a.push_back("diagnoseHumidity"); a.push_back("temperature=air_temperature_2m"); if (r.chance(0.3)) { a.push_back("dewpoint=" + (kind == 0 ? own() : std::string("air_temperature_2m"))); a.push_back("compute=rh"); return true; } a.push_back("rh=relative_humidity_2m"); if (r.chance(0.8)) a.push_back("pressure=surface_air_pressure"); a.push_back(std::string("compute=") + (r.chance(0.5) ? "dewpoint" : "wetbulb")); return true;
    case 20: if (!aux) break; a.push_back("diagnoseWind"); if (r.chance(0.4)) { a.push_back(kind == 1 || kind == 3 ? "speed=" + own() : "speed=precipitation_amount"); a.push_back("direction=wind_direction"); a.push_back(r.chance(0.5) ? "compute=x" : "compute=y"); return true; } a.push_back("x=x_wind_10m"); a.push_back("y=y_wind_10m"); a.push_back(std::string("compute=") + (r.chance(0.5) ? "speed" : "direction")); return true;
    case 21: if (!aux) break; a.push_back("cloud"); a.push_back("precipVariable=precipitation_amount"); return true;
    case 22: if (!two || !out.laf) break; a.push_back("coastal"); a.push_back("searchRadius=" + ints(r.range(1, 3))); if (r.chance(0.3)) a.push_back("minLafDiff=0.2"); if (r.chance(0.3)) a.push_back("useNN=1"); param(PM_COAST, 4, true); return true;
    case 23: if (kind != 4) break; { a.push_back("qnh"); a.push_back("pressureVariable=" + (aux ? "surface_air_pressure" : own())); return true; }
    }
    a.pop_back();
    return false;
}
static void add_ds(Rng &r, std::vector<std::string> &a, const NcSpec &in, const NcSpec &out, int restrict_to, bool nobypass) {
    a.push_back("-d");
    bool two = in.ny > 1 && in.nx > 1 && in.names != 3;
    int c = restrict_to >= 0 ? restrict_to : (int)r.below(7);
    if (!two && (c == 1 || c == 2 || c == 4)) c = 0;
    switch (c) {
    case 1: a.push_back("bilinear"); return;
    case 2: a.push_back("gradient"); if (r.chance(0.3)) a.push_back("constantElevGradient=-0.0065"); else { a.push_back("elevRadius=" + ints(r.range(1, 3))); a.push_back("minElevDiff=" + ints(r.range(1, 60))); if (r.chance(0.5)) a.push_back("averageNeighbourhood=1"); if (r.chance(0.4) && in.laf && out.laf) { a.push_back("lafSearchRadii=1,2"); a.push_back("minLafDiff=0.1"); } if (r.chance(0.3)) a.push_back("downscaler=bilinear"); if (r.chance(0.3)) a.push_back("limit=1"); if (r.chance(0.2)) a.push_back("logTransform=1"); if (r.chance(0.2)) a.push_back("defaultElevGradient=-0.005"); if (r.chance(0.2)) { a.push_back("minElevGradient=-0.01"); a.push_back("maxElevGradient=0.01"); } if (r.chance(0.2)) a.push_back("minNumPoints=" + ints(r.range(2, 4))); if (r.chance(0.1)) a.push_back(r.chance(0.5) ? "saveGradient=elev" : "saveGradient=laf"); } return;
    case 3: a.push_back("pressure"); return;
    case 4: a.push_back("smart"); a.push_back("radius=" + ints(r.range(1, 3))); a.push_back("num=" + ints(r.range(1, 5))); if (r.chance(0.3)) a.push_back("minElevDiff=" + ints(r.range(1, 200))); return;
    case 5: { a.push_back("upscale"); static const char *S[] = { "mean", "min", "max", "median", "std", "sum", "quantile" }; int u = r.below(7); a.push_back(std::string("stat=") + S[u]); if (u == 6) a.push_back("quantile=" + num(0.1 * r.range(1, 9))); return; }
    case 6: if (!nobypass && r.chance(restrict_to >= 0 ? 0.5 : 0.1)) { a.push_back("bypass"); return; }  // fallthrough
    default: a.push_back("nearestNeighbour"); return;
    }
}
// what the job is made of: item 0 the world, further items one variable each (a var item's x selects the
// quantity; 16 + q: calibrators draw on other variables too)
Job make_job(const Plan &p) {
    Job j;
    const Item &w = p.items[0];
    Rng r(w.seed ^ 0xA5A5); int cap = w.cap;
    j.otype = (int)p.get("otype", 0); j.itype = (int)p.get("itype", 0); j.inplace = p.get("inplace", 0); j.big = p.get("big", 0); j.pnc = p.get("pnc", 0);
    int nf = (int)p.get("files", 1);
    bool sysout = j.otype >= 2;
    NcSpec in, out;
    in.fmt = j.ifmt = (int)p.get("ifmt", r.below(4)); out.fmt = j.ofmt = (int)p.get("ofmt", r.below(4));
    in.ny = r.range(1, cap); in.nx = r.range(1, cap); if (r.chance(0.8)) { in.ny = std::max(in.ny, 2); in.nx = std::max(in.nx, 2); }
    in.T = r.chance(0.8) ? r.range(1, 4) : r.range(5, 12); in.E = r.chance(0.4) ? 0 : r.chance(0.85) ? r.range(2, 4) : r.range(5, 10); in.unlim = r.chance(0.5); in.ref = r.chance(0.8);
    in.names = r.below(3); in.alt = r.below(10) < 7 ? 1 : r.below(3); in.laf = r.chance(0.7); in.order = r.chance(0.2); in.history = r.below(2); in.bystanders = r.chance(0.5);
    if (j.otype == 4) in.T = std::max(in.T, 2);
    bool missing = p.get("missing", 1) && r.chance(0.5);
    bool pack = p.get("pack", 1);
    for (int k = 0; k < NVARS; k++) in.vars.push_back(ncvar(k, r, pack, missing));
    out.ny = r.range(1, cap); out.nx = r.range(1, cap); if (r.chance(0.8)) { out.ny = std::max(out.ny, 2); out.nx = std::max(out.nx, 2); }
    out.names = j.otype == 1 ? 3 : r.below(3); out.alt = r.below(10) < 7 ? 1 : r.below(3); if (out.names == 3 && out.alt == 2) out.alt = 1; out.laf = r.chance(0.7); out.unlim = true; out.order = r.chance(0.2);
    out.E = r.chance(0.5) ? in.E : 0; out.T = r.chance(0.5) ? 0 : in.T; if (out.T && r.chance(0.5)) out.unlim = false;
    out.ref = r.chance(0.3); out.bystanders = p.get("bystanders", 1); out.history = r.below(3); out.conventions = r.below(2);
    out.lat0 = in.lat0 + r.uniform() * 0.5; out.lon0 = in.lon0 + r.uniform() * 0.5; out.dlat = 0.5 * in.ny / out.ny * (0.3 + 0.8 * r.uniform()); out.dlon = 0.7 * in.nx / out.nx * (0.3 + 0.8 * r.uniform());
    if (!out.T && r.chance(0.95)) out.ref = true;
    Rng rx(w.seed ^ 0xC057);        // names to be given as options, slanted coordinates, a time without a dimension, other orders of dimensions, a long history
    if (rx.chance(0.12)) in.names = 4; if (out.names != 3 && rx.chance(0.12)) out.names = 4;
    if (rx.chance(0.3)) in.shear = 0.6 * (rx.uniform() - 0.5); if (rx.chance(0.3)) out.shear = 0.6 * (rx.uniform() - 0.5);
    if (rx.chance(0.06) && j.otype != 4 && j.itype == 0) { in.T = 0; in.scalar = true; if (!j.inplace) out.T = 0; }
    for (auto &v : in.vars) v.swap = rx.chance(0.06);
    if (rx.chance(0.04)) out.history = 3;
    if (j.itype) in.names = 0;
    if (j.inplace) { int h = out.history; out = in; if (h == 3) out.history = in.history = 3; }
    int Teff = std::max(in.T, 1), Eeff = std::max(in.E, 1);
    if (j.itype == 1 || j.itype == 2) { Eeff = r.range(1, 4); if (out.E) out.E = Eeff > 1 ? Eeff : 0; if (j.itype == 2) out.T = out.T ? Teff : 0; else out.T = out.T ? Teff : 0; }
    // variables
    std::vector<VarPlan> vs; std::vector<std::string> alias;
    bool aux = false;
    for (size_t i = 1; i < p.items.size(); i++) {
        const Item &it = p.items[i];
        Rng q(it.seed ^ 0x5EED); int k = it.x & 7; bool ax = (it.x & 16) != 0; aux = aux || ax;
        VarPlan v; v.kind = VARS[k].kind; v.in = VARS[k].name; v.out = v.in;
        if (j.itype == 1 || j.itype == 2) v.in = v.out;
        else if (!j.inplace && q.chance(0.2) && !(it.x & 32)) v.out = "new_" + ints((int)i);
        bool dup = false; for (auto &o : vs) if (o.out == v.out) dup = true;
        if (dup) v.out = v.out + "_" + ints((int)i);
        int dsr = (int)p.get("ds", -1), calr = (int)p.get("cal", -1);
        if (j.itype == 0 && alias.empty() && (it.x & 128)) {    // one level of a variable that has several
            int L = q.range(2, 3); for (auto &nv : in.vars) if (nv.name == v.in) nv.lev = L; if (j.inplace) for (auto &nv : out.vars) if (nv.name == v.in) nv.lev = L;
            alias = { "-va", "level", "name=" + v.in, "level=" + ints(q.below(L)) }; v.in = "level"; v.out = "level_" + ints((int)i);
        }
        if (v.in != v.out) { v.args.push_back("-vi"); v.args.push_back(v.in); }
        v.args.push_back("-v"); v.args.push_back(v.out);
        bool nowrite = p.items.size() > 2 && (it.x & 256); if (nowrite) v.args.push_back("write=0");
        if (q.chance(0.2)) v.args.push_back("units=gridpp_unit");
        NcSpec insp = in; if (j.itype) { insp.ny = 3; insp.nx = 1; insp.names = 3; insp.laf = 0; }
        if (j.inplace && v.in != v.out) {}
        if (p.get("nods", 0)) {} else add_ds(q, v.args, insp, out, dsr, p.get("nobypass", 0));
        int nc = q.below(4); if (nc == 3) nc = q.range(2, 3); if (nc == 0 && calr >= 0) nc = 1;
        int oE = Eeff;
        if (it.x & 64) nc = 0;
        for (int c = 0; c < nc; c++) add_cal(j, q, v.args, v.kind, out, oE, Teff, ax, cap, (int)i, calr, p.get("diag", 0));
        vs.push_back(v);
        j.targets.push_back(nowrite ? "" : v.out);
        // sometimes it is already there
        if (!j.inplace && q.chance(0.4)) { NcVar nv = ncvar(k, q, pack && nc == 0, false); nv.name = v.out; nv.swap = rx.chance(0.15); out.vars.push_back(nv); }
    }
    if (aux && !j.inplace) for (int k = 0; k < NVARS; k++) {
        bool have = false; for (auto &v : out.vars) if (v.name == VARS[k].name) have = true; for (auto &t : j.targets) if (t == VARS[k].name) have = true;
        if (!have) { NcVar nv = ncvar(k, r, pack, false); out.vars.push_back(nv); }
    }
    for (int k = 0; k < NVARS; k++) j.aux.push_back(VARS[k].name);
    // a variable already in the file needs the dimensions of the data written to it
    bool existing = !out.vars.empty();
    if (existing && !j.inplace) { if (Eeff > 1) out.E = Eeff; else out.E = 0; out.T = in.scalar ? 0 : Teff; }
    if (out.E && out.E != Eeff) out.E = Eeff > 1 ? Eeff : 0;
    // files
    j.args.push_back("gridpp");
    std::string ins, outs;
    // restrictions of the same job: one file or one variable alone, another order, a separate output
    int onlyf = (int)p.get("onlyfile", 0) - 1, onlyv = (int)p.get("onlyvar", 0) - 1; bool copyout = p.get("copyout", 0);
    std::vector<std::string> li, lo;
    Rng rv(w.seed ^ 0x7A7A);
    for (int f = 0; f < nf; f++) {
        FileSpec a; a.np = a.pmode = a.n = a.T = 0; a.spatial = a.timed = false; a.seed = sim_mix(w.seed, 100 + f) >> 1; a.nc = in;
        NcSpec o = out;
        if (f > 0 && p.get("vary", 0)) {        // files of other shapes and places
            auto other = [&](int v) { return v < 2 ? v : rv.chance(0.3) ? v : rv.range(2, std::max(2, cap)); };
            a.nc.ny = other(in.ny); a.nc.nx = other(in.nx); if (rv.chance(0.5)) { a.nc.lat0 += rv.uniform() - 0.5; a.nc.lon0 += rv.uniform() - 0.5; }
            if (rv.chance(0.3)) a.nc.order = !a.nc.order;
            Rng rw(sim_mix(w.seed, 0x7B7B + f));       // the same variables in another order, packed in another way
            if (rw.chance(0.4)) for (size_t q = a.nc.vars.size(); q > 1; q--) std::swap(a.nc.vars[q - 1], a.nc.vars[rw.below((uint32_t)q)]);
            if (rw.chance(0.4)) for (auto &v : a.nc.vars) for (int k = 0; k < NVARS; k++) if (v.name == VARS[k].name) { NcVar n = ncvar(k, rw, pack, missing); v.type = n.type; v.packed = n.packed; v.scale = n.scale; v.offset = n.offset; v.hasfill = n.hasfill; v.fill = n.fill; v.miss = n.miss; break; }
            if (rw.chance(0.2)) a.nc.fmt = rw.below(4);
            if (j.inplace) o = a.nc;
            else { o.ny = other(out.ny); o.nx = other(out.nx); if (rv.chance(0.5)) { o.lat0 += 0.3 * rv.uniform(); o.lon0 += 0.3 * rv.uniform(); } }
        }
        if (f > 0 && p.get("akin", 0) && !(p.get("vary", 0) && rv.chance(0.5))) { a.seed = sim_mix(w.seed, 100) >> 1; a.akin = sim_mix(w.seed, 300 + f) | 1; }     // nearly the first file again
        std::string suf = nf > 1 ? ints(f) : "";
        if (j.itype == 0) { a.kind = FS_NC; a.name = "in" + suf + ".nc"; }
        else if (j.itype == 1) { a.kind = FS_TEXT; a.name = "in" + suf + ".txt"; a.T = Teff; a.np = Eeff; a.n = r.range(1, 5); if (j.big) a.n = r.range(60, 200); a.pmode = VARS[p.items.size() > 1 ? p.items[1].x & 7 : 0].kind; }
        else { a.kind = FS_POINT; a.name = "in" + suf + ".pt"; a.T = Teff; a.np = Eeff; a.n = 1; a.pmode = VARS[p.items.size() > 1 ? p.items[1].x & 7 : 0].kind; }
        j.files.push_back(a); j.inputs.push_back(a.name); li.push_back(a.name);
        if (j.inplace) {
            std::string on = a.name;
            if (p.get("copies", 0)) { FileSpec c = a; c.name = "copy" + suf + ".nc"; j.files.push_back(c); if (copyout) on = c.name; }
            j.outputs.push_back(on); lo.push_back(on); continue;
        }
        FileSpec b = a; b.nc = o; b.seed = sim_mix(w.seed, 200 + (a.akin && a.akin % 3 ? 0 : f)) >> 1; b.akin = a.akin ? a.akin + 6 : 0;
        if (!sysout) { b.kind = FS_NC; b.name = "out" + suf + ".nc"; }
        else if (j.otype == 2) { b.kind = FS_TEXT; b.name = "out" + suf + ".txt"; b.T = Teff; b.np = Eeff; b.n = r.range(1, 3); b.pmode = 0; }
        else if (j.otype == 3) { b.kind = (b.seed >> 5) & 1 ? FS_POINT : FS_EMPTY; b.name = "out" + suf + ".pt"; b.T = Teff; b.np = Eeff; b.n = 1; b.pmode = 0; b.text = ""; }
        else { b.kind = FS_EMPTY; b.name = "out" + suf + ".qnh"; b.text = (b.seed >> 5) & 1 ? "FBNO52 ENNC 010000\nAREA QNH 01 0000 0300 = an earlier bulletin\n" : ""; }
        j.files.push_back(b); j.outputs.push_back(b.name); lo.push_back(b.name);
    }
    if (onlyf >= 0 && onlyf < (int)li.size()) { li = std::vector<std::string>(1, li[onlyf]); lo = std::vector<std::string>(1, lo[onlyf]); }
    if (onlyv >= 0 && onlyv < (int)vs.size()) vs = std::vector<VarPlan>(1, vs[onlyv]);
    if (p.get("revf", 0)) { std::reverse(li.begin(), li.end()); std::reverse(lo.begin(), lo.end()); }
    if (p.get("revv", 0)) std::reverse(vs.begin(), vs.end());
    for (size_t f = 0; f < li.size(); f++) { ins += (f ? "," : "") + li[f]; outs += (f ? "," : "") + lo[f]; }
    j.args.push_back(ins);
    auto named = [&](const NcSpec &s) { if (s.names != 4) return; static const char *O[] = { "latVar=phi", "lonVar=lam", "yDim=row", "xDim=col", "ensDim=member", "elevVar=topo", "lafVar=wet" }; for (auto o : O) j.args.push_back(o); if (s.T || s.scalar) j.args.push_back("timeVar=clock"); if (s.T) j.args.push_back("timeDim=when"); };
    if (j.itype == 0) named(in);
    if (j.itype == 1) j.args.push_back("type=text");
    if (j.itype == 2) { j.args.push_back("type=point"); j.args.push_back("lat=" + num(in.lat0 + 0.3)); j.args.push_back("lon=" + num(in.lon0 + 0.3)); j.args.push_back("elev=100"); j.args.push_back("time=" + ints(Teff)); j.args.push_back("ens=" + ints(Eeff)); }
    if (j.inplace && copyout) { j.args.push_back(outs); named(out); }
    if (!j.inplace) {
        j.args.push_back(outs);
        if (!sysout) named(out);
        if (j.otype == 2) j.args.push_back("type=text");
        if (j.otype == 3) { j.args.push_back("type=point"); j.args.push_back("lat=" + num(in.lat0 + 0.4)); j.args.push_back("lon=" + num(in.lon0 + 0.4)); j.args.push_back("elev=" + ints(r.range(0, 900))); j.args.push_back("time=" + ints(Teff)); j.args.push_back("ens=" + ints(Eeff)); }
        if (j.otype == 4) { j.args.push_back("type=norcomQnh"); j.args.push_back("lats=" + num(in.lat0 + 0.1) + "," + num(in.lat0 + 0.6)); j.args.push_back("lons=" + num(in.lon0 + 0.1) + "," + num(in.lon0 + 0.5)); j.args.push_back("elevs=10,250"); j.args.push_back("names=Oslo,Voss"); j.args.push_back("numTimes=" + ints(Teff)); j.args.push_back("startTime=0"); j.args.push_back("endTime=" + ints(Teff - 1)); }
    }
    j.args.insert(j.args.end(), alias.begin(), alias.end());
    for (auto &v : vs) j.args.insert(j.args.end(), v.args.begin(), v.args.end());
    if (p.get("debug", 0)) { static const char *D[] = { "", "quiet", "error", "warn", "info" }; j.args.push_back("--debug"); j.args.push_back(D[p.get("debug")]); }
    return j;
}
// ------------------------------------------------------------------ writing the files
#define NC(e) do { int s_ = (e); if (s_) { fprintf(stderr, "world: %s: %s\n", #e, nc_strerror(s_)); _exit(3); } } while (0)
static void write_nc(const FileSpec &f) {
    const NcSpec &s = f.nc; Rng r(f.seed);
    static const int FL[] = { 0, NC_64BIT_OFFSET, NC_NETCDF4, NC_NETCDF4 | NC_CLASSIC_MODEL };
    int id; NC(nc_create(f.name.c_str(), NC_CLOBBER | FL[s.fmt], &id));
    static const char *YN[] = { "y", "lat", "latitude", "", "row" }, *XN[] = { "x", "lon", "longitude", "x", "col" }, *LA[] = { "latitude", "lat", "latitude", "latitude", "phi" }, *LO[] = { "longitude", "lon", "longitude", "longitude", "lam" };
    bool own = s.names == 4;
    int dt = -1, de = -1, dy = -1, dx = -1, dl = -1; std::map<int, int> dlev;
    if (s.T) NC(nc_def_dim(id, own ? "when" : "time", s.unlim ? NC_UNLIMITED : s.T, &dt));
    if (s.E) NC(nc_def_dim(id, own ? "member" : "ensemble_member", s.E, &de));
    int ny = s.names == 3 ? 1 : s.ny;
    if (s.names != 3) NC(nc_def_dim(id, YN[s.names], s.ny, &dy));
    NC(nc_def_dim(id, XN[s.names], s.nx, &dx));
    int vla, vlo, vt = -1, vr = -1, va = -1, vl = -1, vb1 = -1, vb2 = -1, vb3 = -1;
    int d2[2] = { dy, dx };
    if (s.names == 0 || own) { NC(nc_def_var(id, LA[s.names], NC_DOUBLE, 2, d2, &vla)); NC(nc_def_var(id, LO[s.names], NC_DOUBLE, 2, d2, &vlo)); }
    else if (s.names == 3) { NC(nc_def_var(id, LA[3], NC_FLOAT, 1, &dx, &vla)); NC(nc_def_var(id, LO[3], NC_FLOAT, 1, &dx, &vlo)); }
    else { NC(nc_def_var(id, LA[s.names], NC_FLOAT, 1, &dy, &vla)); NC(nc_def_var(id, LO[s.names], NC_FLOAT, 1, &dx, &vlo)); }
    NC(nc_put_att_text(id, vla, "units", 13, "degrees_north"));
    int nh = s.names == 3 ? 1 : 2; const int *dh = s.names == 3 ? &dx : d2;
    if (s.T || s.scalar) { NC(nc_def_var(id, own ? "clock" : "time", NC_DOUBLE, s.T ? 1 : 0, &dt, &vt)); NC(nc_put_att_text(id, vt, "units", 14, "seconds since ")); }
    if (s.ref) NC(nc_def_var(id, "forecast_reference_time", NC_DOUBLE, 0, NULL, &vr));
    if (s.alt == 1) NC(nc_def_var(id, own ? "topo" : "altitude", NC_FLOAT, nh, dh, &va));
    if (s.alt == 2) NC(nc_def_var(id, "surface_geopotential", NC_FLOAT, nh, dh, &va));
    if (s.laf) NC(nc_def_var(id, own ? "wet" : "land_area_fraction", NC_FLOAT, nh, dh, &vl));
    if (s.bystanders) {
        NC(nc_def_dim(id, "other", 7, &dl));
        NC(nc_def_var(id, "bystander_int", NC_INT, 1, &dl, &vb1)); NC(nc_def_var(id, "bystander_field", NC_DOUBLE, nh, dh, &vb2)); NC(nc_def_var(id, "bystander_text", NC_CHAR, 1, &dl, &vb3));
        NC(nc_put_att_text(id, vb1, "comment", 10, "keep me ok")); double dd = 12.5; NC(nc_put_att_double(id, NC_GLOBAL, "bystander_number", NC_DOUBLE, 1, &dd)); NC(nc_put_att_text(id, NC_GLOBAL, "title", 9, "keep this"));
    }
    if (s.conventions) NC(nc_put_att_text(id, NC_GLOBAL, "Conventions", 6, "CF-1.6"));
    if (s.history == 1) { std::string h = "2020-01-01 00:00:00 +00:00: created"; NC(nc_put_att_text(id, NC_GLOBAL, "history", h.size(), h.c_str())); }
    if (s.history == 2) { std::string h = "2021-01-01 00:00:00 +00:00: later\n2020-01-01 00:00:00 +00:00: created"; NC(nc_put_att_text(id, NC_GLOBAL, "history", h.size(), h.c_str())); }
    if (s.history == 3) { Rng h(f.seed ^ 0x4157); std::string t; for (int n = h.range(20, 2500); n > 0; n--) t += (t.empty() ? "" : "\n") + std::string("2019-01-01 00:00:00 +00:00: gridpp run ") + ints((int)h.below(1000000)); NC(nc_put_att_text(id, NC_GLOBAL, "history", t.size(), t.c_str())); }
    std::vector<int> vid(s.vars.size());
    for (size_t k = 0; k < s.vars.size(); k++) {
        const NcVar &v = s.vars[k]; int d[5], n = 0;
        if (s.T && v.time) d[n++] = dt;
        if (v.lev) { if (!dlev.count(v.lev)) { int q; NC(nc_def_dim(id, ("height" + ints(v.lev)).c_str(), v.lev, &q)); dlev[v.lev] = q; } d[n++] = dlev[v.lev]; }
        if (s.E && v.ens && s.order == 0) d[n++] = de;
        if (v.swap) d[n++] = dx;
        if (s.names != 3) d[n++] = dy;
        if (!v.swap) d[n++] = dx;
        if (s.E && v.ens && s.order == 1) d[n++] = de;
        NC(nc_def_var(id, v.name.c_str(), v.type, n, d, &vid[k]));
        if (v.hasfill) { if (v.type == NC_SHORT) { short q = (short)v.fill; NC(nc_put_att_short(id, vid[k], "_FillValue", NC_SHORT, 1, &q)); } else if (v.type == NC_DOUBLE) { double q = v.fill; NC(nc_put_att_double(id, vid[k], "_FillValue", NC_DOUBLE, 1, &q)); } else NC(nc_put_att_float(id, vid[k], "_FillValue", NC_FLOAT, 1, &v.fill)); }
        if (v.packed) { NC(nc_put_att_float(id, vid[k], "scale_factor", NC_FLOAT, 1, &v.scale)); NC(nc_put_att_float(id, vid[k], "add_offset", NC_FLOAT, 1, &v.offset)); }
        if (v.units.size()) NC(nc_put_att_text(id, vid[k], "units", v.units.size(), v.units.c_str()));
        if (v.stdname.size()) NC(nc_put_att_text(id, vid[k], "standard_name", v.stdname.size(), v.stdname.c_str()));
    }
    NC(nc_enddef(id));
    int N = ny * s.nx;
    std::vector<double> la, lo;
    if (s.names == 1 || s.names == 2) { for (int i = 0; i < s.ny; i++) la.push_back(s.lat0 + i * s.dlat); for (int i = 0; i < s.nx; i++) lo.push_back(s.lon0 + i * s.dlon); }
    else for (int i = 0; i < ny; i++) for (int k = 0; k < s.nx; k++) { la.push_back(s.lat0 + (s.names == 3 ? s.dlat * s.nx * r.uniform() : i * s.dlat + s.shear * s.dlat * k + 0.02 * r.uniform())); lo.push_back(s.lon0 + k * s.dlon - (s.names == 3 ? 0 : s.shear * s.dlon * i) + 0.02 * r.uniform()); }
    NC(nc_put_var_double(id, vla, la.data())); NC(nc_put_var_double(id, vlo, lo.data()));
    auto change = [&](int what, std::vector<double> &e, bool frac) {       // a field of a file that is nearly another one
        Rng z(sim_mix(f.akin, what)); if (!f.akin || !z.chance(0.3)) return;
        bool all = z.chance(0.5); for (int n = all ? (int)e.size() : 1; n > 0; n--) { size_t i = all ? n - 1 : z.below((uint32_t)e.size()); e[i] = frac ? z.uniform() : e[i] + 300 * (z.uniform() - 0.3); }
    };
    if (va >= 0) { std::vector<double> e(N); for (int i = 0; i < N; i++) e[i] = r.uniform() * 1200 * (s.alt == 2 ? 9.81 : 1); change(1, e, false); NC(nc_put_var_double(id, va, e.data())); }
    if (vl >= 0) { std::vector<double> e(N); for (int i = 0; i < N; i++) e[i] = r.chance(0.4) ? (r.chance(0.5) ? 1 : 0) : r.uniform(); change(2, e, true); NC(nc_put_var_double(id, vl, e.data())); }
    if (vr >= 0) { double t = 1577836800; NC(nc_put_var_double(id, vr, &t)); }
    if (vt >= 0 && !s.T) { double v = 1577836800 + 3600; NC(nc_put_var_double(id, vt, &v)); }
    else if (vt >= 0) { for (int t = 0; t < s.T; t++) { size_t st = t; double v = 1577836800 + 3600.0 * t; NC(nc_put_var1_double(id, vt, &st, &v)); } }
    if (vb1 >= 0) { int q[7]; for (int i = 0; i < 7; i++) q[i] = (int)r.below(100000); NC(nc_put_var_int(id, vb1, q)); std::vector<double> e(N); for (int i = 0; i < N; i++) e[i] = r.uniform(); NC(nc_put_var_double(id, vb2, e.data())); NC(nc_put_var_text(id, vb3, "bystand")); }
    for (size_t k = 0; k < s.vars.size(); k++) {
        const NcVar &v = s.vars[k]; int E = v.ens ? std::max(s.E, 1) : 1, T = v.time ? std::max(s.T, 1) : 1;
        std::vector<double> val((size_t)N * E);
        for (int tl = 0; tl < T * std::max(v.lev, 1); tl++) {
            int t = tl / std::max(v.lev, 1), l = tl % std::max(v.lev, 1);
            for (size_t i = 0; i < val.size(); i++) {
                double x = value_of(v.kind, r);
                bool m = v.miss > 0 && r.chance(v.miss);
                if (v.packed) x = m ? v.fill : (double)(short)((x - v.offset) / v.scale);
                else x = m ? (v.hasfill ? v.fill : (double)NC_FILL_FLOAT) : (double)(float)x;
                val[i] = x;
            }
            if (f.akin) {
                Rng z(sim_mix(f.akin, 100 + k)); static const int MODES[] = { 0, 0, 1, 1, 1, 1, 2, 3, 3, 4 }; int mode = MODES[z.below(10)], which = T > 1 ? z.below(T - 1) : 0;    // same; another field before the last one; another last field; one value; all
                Rng y(sim_mix(f.akin, 1000 * (k + 1) + tl));
                bool some = (mode == 1 && t == which) || (mode == 2 && t == T - 1) || mode == 4;
                for (size_t i = 0; i < val.size(); i++) if (some || (mode == 3 && t == which && i == val.size() / 2)) { double x = value_of(v.kind, y); val[i] = v.packed ? (double)(short)((x - v.offset) / v.scale) : (double)(float)x; }
            }
            size_t st[5] = { 0 }, ct[5]; int n = 0;
            if (s.T && v.time) { st[n] = t; ct[n++] = 1; }
            if (v.lev) { st[n] = l; ct[n++] = 1; }
            if (s.E && v.ens && s.order == 0) ct[n++] = s.E;
            if (v.swap) ct[n++] = s.nx;
            if (s.names != 3) ct[n++] = s.ny;
            if (!v.swap) ct[n++] = s.nx;
            if (s.E && v.ens && s.order == 1) ct[n++] = s.E;
            NC(nc_put_vara_double(id, vid[k], st, ct, val.data()));
        }
    }
    NC(nc_close(id));
}
static std::vector<float> par_values(const FileSpec &f, Rng &r) {
    int kind = atoi(f.text.c_str());
    std::vector<float> v;
    switch (f.pmode) {
    case PM_VALUE: for (int i = 0; i < f.np; i++) v.push_back(i == 0 ? (float)value_of(kind, r) : (float)(0.5 + r.uniform())); break;
    case PM_POLY: for (int i = 0; i < f.np; i++) v.push_back(i == 0 ? (float)(r.uniform() - 0.5) : i == 1 ? (float)(0.8 + 0.4 * r.uniform()) : (float)(0.001 * r.uniform())); break;
    case PM_QQ: { std::vector<double> a, b; for (int i = 0; i < f.np / 2; i++) { a.push_back(value_of(kind, r)); b.push_back(value_of(kind, r)); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); for (int i = 0; i < f.np / 2; i++) { v.push_back((float)a[i]); v.push_back((float)b[i]); } break; }
    case PM_ZAGA: { static const double B[] = { -0.5, 0.9, 0.1, -0.01, -0.5, -0.3, 1, -0.8 }; for (int i = 0; i < 8; i++) v.push_back((float)(B[i] * (0.8 + 0.4 * r.uniform()))); break; }
    case PM_BCT: { static const double B[] = { 0.2, 0.9, -2, 0.3, 1, 0.02, 2 }; for (int i = 0; i < 7; i++) v.push_back((float)(B[i] * (0.8 + 0.4 * r.uniform()))); break; }
    case PM_GAUSS: v.push_back((float)(-1 + r.uniform())); v.push_back((float)(0.2 * r.uniform())); break;
    case PM_RADIUS: v.push_back((float)(5000 + 60000 * r.uniform())); break;
    case PM_SMALL: v.push_back((float)(int)r.below(4)); break;
    case PM_ALT: v.push_back((float)(1000 * r.uniform())); break;
    case PM_NINE: for (int i = 0; i < 9; i++) v.push_back((float)(i == 0 ? 1 : 0.1 * (r.uniform() - 0.5))); break;
    case PM_OI: v.push_back((float)value_of(kind, r)); v.push_back((float)(0.3 + r.uniform())); if (f.np > 2) v.push_back(r.chance(0.5) ? 1 : 0); break;
    case PM_COAST: for (int i = 0; i < f.np; i++) v.push_back((float)(i == 0 ? 0 : 0.1 + 0.3 * r.uniform())); break;
    default: for (int i = 0; i < f.np; i++) v.push_back((float)(r.uniform() - 0.5)); break;
    }
    return v;
}
// a netCDF parameter file in one of the layouts the reader accepts
static void write_wide_param(const FileSpec &f) {
    static const int FL[] = { 0, NC_64BIT_OFFSET, NC_NETCDF4, NC_NETCDF4 | NC_CLASSIC_MODEL };
    static const char *const DY[] = { "lat", "latitude", "y" }, *const DX[] = { "lon", "longitude", "x" };
    static const int ORD[6][4] = { { 0, 1, 2, 3 }, { 3, 2, 1, 0 }, { 1, 2, 0, 3 }, { 0, 3, 1, 2 }, { 2, 1, 0, 3 }, { 1, 2, 3, 0 } };
    Rng r(f.seed); int T = f.timed ? std::max(f.T, 1) : 1, ny = f.n, nx = f.nc.nx, id, d[4], vt = -1, vla, vlo, ve = -1, vc; bool one = f.nc.names == 1, swap = f.nc.names == 2;
    NC(nc_create(f.name.c_str(), NC_CLOBBER | FL[f.nc.fmt], &id));
    if (f.timed) NC(nc_def_dim(id, "time", T, &d[0])); NC(nc_def_dim(id, DY[f.nc.names], ny, &d[1])); NC(nc_def_dim(id, DX[f.nc.names], nx, &d[2])); NC(nc_def_dim(id, "coeff", f.np, &d[3]));
    int g[2] = { swap ? d[2] : d[1], swap ? d[1] : d[2] }, c[4], nd = 0; size_t len[4] = { (size_t)T, (size_t)ny, (size_t)nx, (size_t)f.np }, N = 1;
    for (int k = 0; k < 4; k++) if (ORD[f.nc.order][k] || f.timed) { c[nd++] = d[ORD[f.nc.order][k]]; N *= len[ORD[f.nc.order][k]]; }
    if (f.timed) NC(nc_def_var(id, "time", NC_DOUBLE, 1, d, &vt));
    NC(nc_def_var(id, one ? "lat" : "latitude", NC_FLOAT, one ? 1 : 2, one ? d + 1 : g, &vla)); NC(nc_def_var(id, one ? "lon" : "longitude", NC_FLOAT, one ? 1 : 2, one ? d + 2 : g, &vlo));
    if (f.nc.alt) NC(nc_def_var(id, "altitude", NC_FLOAT, 2, g, &ve));
    NC(nc_def_var(id, "coefficient", NC_FLOAT, nd, c, &vc)); NC(nc_enddef(id));
    std::vector<float> a(ny * nx), b(ny * nx), e(ny * nx), v(N); std::vector<double> t(T);
    for (int k = 0; k < ny * nx; k++) { a[k] = (float)(f.nc.lat0 + f.nc.dlat * (one ? (k + r.uniform()) / (ny + 1) : r.uniform())); b[k] = (float)(f.nc.lon0 + f.nc.dlon * (one ? (k + r.uniform()) / (nx + 1) : r.uniform())); e[k] = (float)(1000 * r.uniform()); }
    for (auto &x : v) x = r.chance(0.05) ? NC_FILL_FLOAT : (float)(10 * (r.uniform() - 0.5));
    for (int k = 0; k < T; k++) t[k] = k;
    if (f.timed) NC(nc_put_var_double(id, vt, t.data()));
    NC(nc_put_var_float(id, vla, a.data())); NC(nc_put_var_float(id, vlo, b.data())); if (ve >= 0) NC(nc_put_var_float(id, ve, e.data())); NC(nc_put_var_float(id, vc, v.data()));
    NC(nc_close(id));
}
static void write_param(const FileSpec &f) {
    if (f.kind == FS_PTEXT && f.text.size() > 3) { spew(f.name, f.text); return; }
    if (f.kind == FS_PNC && f.text == "wide") { write_wide_param(f); return; }
    Rng r(f.seed); int T = f.timed ? std::max(f.T, 1) : 1, n = f.spatial ? f.n : 1;
    std::vector<double> la(n), lo(n), el(n);
    for (int i = 0; i < n; i++) { la[i] = f.nc.lat0 + 2 * r.uniform(); lo[i] = f.nc.lon0 + 2 * r.uniform(); el[i] = 1000 * r.uniform(); }
    std::vector<std::vector<float> > v(T * n);
    for (int t = 0; t < T; t++) for (int i = 0; i < n; i++) v[t * n + i] = par_values(f, r);
    if (f.kind == FS_PTEXT) {
        std::ostringstream o;
        if (f.timed) o << "time "; if (f.spatial) o << "lat lon elev "; o << "p0"; for (int k = 1; k < f.np; k++) o << " p" << k; o << "\n";
        for (int t = 0; t < T; t++) for (int i = 0; i < n; i++) {
            if (f.timed) o << t << " "; if (f.spatial) o << num(la[i]) << " " << num(lo[i]) << " " << num(el[i]) << " ";
            for (int k = 0; k < f.np; k++) o << (k ? " " : "") << num(v[t * n + i][k]);
            o << "\n";
        }
        spew(f.name, o.str());
        return;
    }
    static const int FL[] = { 0, NC_64BIT_OFFSET, NC_NETCDF4, NC_NETCDF4 | NC_CLASSIC_MODEL };
    int id, dt, dy, dx, dc, vt = -1, vla, vlo, ve, vc; NC(nc_create(f.name.c_str(), NC_CLOBBER | FL[f.nc.fmt], &id));
    if (f.timed) NC(nc_def_dim(id, "time", T, &dt));
    NC(nc_def_dim(id, "lat", n, &dy)); NC(nc_def_dim(id, "lon", 1, &dx)); NC(nc_def_dim(id, "coeff", f.np, &dc));
    int d2[2] = { dy, dx };
    if (f.timed) NC(nc_def_var(id, "time", NC_DOUBLE, 1, &dt, &vt));
    NC(nc_def_var(id, "latitude", NC_FLOAT, 2, d2, &vla)); NC(nc_def_var(id, "longitude", NC_FLOAT, 2, d2, &vlo)); NC(nc_def_var(id, "altitude", NC_FLOAT, 2, d2, &ve));
    int d4[4] = { dt, dy, dx, dc }; NC(nc_def_var(id, "coefficient", NC_FLOAT, f.timed ? 4 : 3, f.timed ? d4 : d4 + 1, &vc));
    NC(nc_enddef(id));
    if (f.timed) { std::vector<double> t(T); for (int i = 0; i < T; i++) t[i] = i; NC(nc_put_var_double(id, vt, t.data())); }
    NC(nc_put_var_double(id, vla, la.data())); NC(nc_put_var_double(id, vlo, lo.data())); NC(nc_put_var_double(id, ve, el.data()));
    std::vector<float> all; for (auto &q : v) all.insert(all.end(), q.begin(), q.end());
    NC(nc_put_var_float(id, vc, all.data()));
    NC(nc_close(id));
}
static void write_text(const FileSpec &f) {
    Rng r(f.seed); std::ostringstream o;
    if (f.kind == FS_TEXT) {
        std::vector<std::string> loc; for (int i = 0; i < f.n; i++) loc.push_back(num(f.nc.lat0 + r.uniform()) + " " + num(f.nc.lon0 + r.uniform()) + " " + num(500 * r.uniform()));
        if (r.chance(0.3)) o << "# comment\n";
        for (int t = 0; t < f.T; t++) for (int i = 0; i < f.n; i++) { o << f.base + (long)t * f.stride << " " << loc[i]; for (int e = 0; e < f.np; e++) o << " " << num(value_of(f.pmode, r)); o << "\n"; }
    }
    else for (int t = 0; t < f.T; t++) { o << f.base + (long)t * f.stride; for (int e = 0; e < f.np; e++) o << " " << num(value_of(f.pmode, r)); o << "\n"; }
    spew(f.name, o.str());
}
void write_world(const Job &j) {
    for (auto &f : j.files) {
        if (f.kind == FS_NC) write_nc(f);
        else if (f.kind == FS_PTEXT || f.kind == FS_PNC) write_param(f);
        else if (f.kind == FS_EMPTY) spew(f.name, f.text);
        else write_text(f);
    }
}
// ------------------------------------------------------------------ reading back
static void put(std::string &o, const std::string &k, const std::string &v) { uint32_t a = k.size(), b = v.size(); o.append((char *)&a, 4); o += k; o.append((char *)&b, 4); o += v; }
static bool dump_nc(const char *path, std::string &o) {
    int id; if (nc_open(path, NC_NOWRITE, &id)) return false;
    int nd, nv, na, un; if (nc_inq(id, &nd, &nv, &na, &un)) return false;
    char nm[NC_MAX_NAME + 1]; std::vector<std::string> dn; std::vector<size_t> dl;
    for (int i = 0; i < nd; i++) { size_t l; if (nc_inq_dim(id, i, nm, &l)) return false; dn.push_back(nm); dl.push_back(l); put(o, std::string("dim ") + nm, std::to_string(l)); }
    for (int v = -1; v < nv; v++) {
        std::string vn = "(global)"; nc_type ty = 0; int n = 0, d[NC_MAX_VAR_DIMS], a = na;
        if (v >= 0) { if (nc_inq_var(id, v, nm, &ty, &n, d, &a)) return false; vn = nm; std::string t = std::to_string(ty); for (int i = 0; i < n; i++) t += " " + dn[d[i]]; put(o, "var " + vn, t); }
        for (int i = 0; i < a; i++) {
            if (nc_inq_attname(id, v, i, nm)) return false; nc_type at; size_t l; if (nc_inq_att(id, v, nm, &at, &l)) return false;
            size_t sz; if (nc_inq_type(id, at, NULL, &sz)) return false;
            if (at == NC_STRING || l * sz > (1u << 20)) return false;
            std::string b(l * sz, 0); if (nc_get_att(id, v, nm, &b[0])) return false;
            put(o, "att " + vn + " " + nm, b);
        }
        if (v < 0) continue;
        size_t N = 1, sz; for (int i = 0; i < n; i++) N *= dl[d[i]]; if (nc_inq_type(id, ty, NULL, &sz) || N * sz > (8u << 20)) return false;
        std::string b(N * sz, 0); if (N && nc_get_var(id, v, &b[0])) return false;
        put(o, "data " + vn, b);
    }
    nc_close(id);
    return true;
}
bool dump_file(const std::string &path, Dump &d) {
    d.clear();
    bool ok; std::string raw = slurp(path, &ok); if (!ok) return false;
    bool nc = raw.compare(0, 3, "CDF") == 0 || raw.compare(0, 4, "\x89HDF") == 0 || (path.size() > 3 && path.compare(path.size() - 3, 3, ".nc") == 0);
    if (!nc) { d["text"] = raw; return true; }
    // damaged files can make the reader misbehave: read in a child
    shA->done = 0; shA->outlen = 0;
    plain_child([&] { std::string o; if (dump_nc(path.c_str(), o) && o.size() < sizeof shA->out) { memcpy(shA->out, o.data(), o.size()); shA->outlen = o.size(); shA->done = 1; } });
    if (!shA->done) return false;
    const char *p = (const char *)shA->out, *e = p + shA->outlen;
    while (p < e) { uint32_t n; std::string k, v; memcpy(&n, p, 4); k.assign(p + 4, n); p += 4 + n; memcpy(&n, p, 4); v.assign(p + 4, n); p += 4 + n; d[k] = v; }
    return true;
}
std::string dump_diff(const Dump &a, const Dump &b, const std::function<bool(const std::string &)> &skip) {
    for (auto &x : a) { if (skip && skip(x.first)) continue; auto y = b.find(x.first); if (y == b.end()) return "'" + x.first + "' is missing"; if (y->second != x.second) {
        size_t k = 0, n = 0; for (size_t i = 0; i < std::min(x.second.size(), y->second.size()); i++) if (x.second[i] != y->second[i]) { if (!n) k = i; n++; }
        std::string t; if (x.first.compare(0, 4, "data") != 0 && x.second.size() < 200 && y->second.size() < 200) t = ": \"" + x.second + "\" became \"" + y->second + "\""; else t = " (" + std::to_string(x.second.size()) + " and " + std::to_string(y->second.size()) + " bytes, " + std::to_string(n) + " differ, first at " + std::to_string(k) + ")";
        return "'" + x.first + "' differs" + t; } }
    for (auto &y : b) { if (skip && skip(y.first)) continue; if (!a.count(y.first)) return "'" + y.first + "' is extra"; }
    return "";
}
// ------------------------------------------------------------------ running

extern "C" int gridpp_main_entry(int argc, const char *argv[]) __asm__("gridpp_main");
CliRun run_in_dir(const std::string &dir, const SimCfg &cfg, const CliOpts &o, const std::function<int(Buf &)> &body) {
    Shm *sh = shB;
    if (!g_io) { g_io = (IoState *)mmap(NULL, sizeof(IoState), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    memset(g_io, 0, offsetof(IoState, ev)); g_io->nfiles = 0; g_io->hash = 0xcbf29ce484222325ull; memset(g_io->sticky_kind, 0, sizeof g_io->sticky_kind); g_io->space_fired = 0; g_io->grown = 0; g_io->space_left = o.space; g_io->writes_to_ro = 0; g_io->nio = 0; g_io->max_ops = o.max_ops; g_io->max_grown = o.max_grown;
    g_io->nfaults = 0; for (auto &f : o.faults) if (g_io->nfaults < MAX_FAULTS) { g_io->fired[g_io->nfaults] = 0; g_io->faults[g_io->nfaults++] = f; }
    sh->done = 0; sh->outlen = 0; memset(&sh->fl, 0, sizeof sh->fl);
    memset(&sh->rec.st, 0, sizeof(SimStats)); sh->rec.ntrace = sh->rec.nrace = sh->rec.nbad = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        if (chdir(dir.c_str())) _exit(98);
        int n = -1;
        if (!o.say.empty()) n = open(o.say.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        else if (!getenv("SIM_VERBOSE")) n = open("/dev/null", O_WRONLY);
        if (n >= 0) { dup2(n, 1); dup2(n, 2); close(n); }
        struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z);
        struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = o.hooks ? o.cpu : 6; setitimer(ITIMER_PROF, &tv, NULL);
        alarm((unsigned)o.cpu * 15);
        g_rec = &sh->rec; g_flags = &sh->fl;
        sim_begin(&cfg);
        strncpy(g_io->root, dir.c_str(), 255);
        g_heap_own = true;
        int rc; { Buf out;
        g_io->on = 1;
        if (o.hooks) { sim_scrub_stack(); sim_hooks(true); }
        if (cfg.alloc_fail_at >= 0) heap_count(true);
        rc = body(out);
        sim_hooks(false); 
        sh->outlen = out.b.size() < sizeof sh->out ? out.b.size() : sizeof sh->out;
        memcpy(sh->out, out.b.data(), sh->outlen); }
        sh->done = 1;
        if (rc < 0) _exit(-rc);
        exit(rc);       // exit handlers of the libraries still do I/O
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    g_io->on = 0;
    CliRun c;
    c.status = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
    if (c.status == 0 && !sh->done) c.status = 99;
    if (c.status == 98) { fprintf(stderr, "simulator internal error\n"); _exit(2); }
    c.st = sh->rec.st; c.fl = sh->fl; c.iohash = g_io->hash; c.nio = g_io->nio; c.space_fired = g_io->space_fired; c.capped = g_io->nio > MAX_IO;
    for (uint32_t i = 0; i < g_io->nfaults; i++) c.fired += g_io->fired[i] != 0;
    if (sh->outlen) c.out.assign(sh->out, sh->out + sh->outlen);
    return c;
}
CliRun run_client(const std::string &dir, const Job &j, const SimCfg &cfg, const CliOpts &o) {
    return run_in_dir(dir, cfg, o, [&](Buf &) {
        std::vector<const char *> av; for (auto &a : j.args) av.push_back(a.c_str()); av.push_back(NULL);
        return gridpp_main_entry((int)j.args.size(), av.data());
    });
}
