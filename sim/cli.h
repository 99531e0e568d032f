// Client runs: generated worlds (input, output and parameter files plus a command line), running the
// real client on them inside the simulator, and reading back what it left on disk.
#pragma once
#include "harness.h"

struct NcVar { std::string name; int type; int kind; bool time, ens, horiz, swap; float scale, offset, fill; bool hasfill, packed; std::string units, stdname; double miss; int lev; };
struct NcSpec {
    int fmt = 0;                        // 0 classic, 1 64-bit offset, 2 netCDF-4, 3 netCDF-4 classic model
    int T = 1, E = 0, ny = 1, nx = 1;   // E 0: no ensemble dimension; T 0: no time dimension
    int names = 0;                      // 0: y/x with 2D coordinates, 1: lat/lon 1D, 2: latitude/longitude 1D, 3: points (x only), 4: names of its own, to be given as options, 2D coordinates
    bool unlim = false, ref = true, bystanders = false; int alt = 1, laf = 0, conventions = 0, history = 0;
    double shear = 0; bool scalar = false;   // slanted 2D coordinates; T 0: a time variable without dimensions
    int order = 0;                      // 0: time ens y x; 1: time y x ens
    double lat0 = 59, lon0 = 10, dlat = 0.5, dlon = 0.7;
    std::vector<NcVar> vars;
};
struct FileSpec { std::string name; int kind; uint64_t seed; NcSpec nc; int np, pmode; bool spatial, timed; int T, n; std::string text; int base = 0, stride = 1; uint64_t akin = 0; };
enum { FS_NC = 0, FS_TEXT, FS_POINT, FS_EMPTY, FS_PTEXT, FS_PNC };
struct Job {
    std::vector<std::string> args;
    std::vector<FileSpec> files;
    std::vector<std::string> inputs, outputs, params, targets, aux, diag;      // targets: variables asked for; diag: further files the run writes
    bool inplace = false, big = false, pnc = false; int otype = 0, itype = 0, ofmt = 0, ifmt = 0;
    bool readonly(const std::string &f) const;
    std::string line() const;
};
Job make_job(const Plan &p);
NcVar gen_var(int k, Rng &r, bool pack, bool missing);   // k: 0..7
double gen_value(int kind, Rng &r);
const char *gen_name(int k);
void write_world(const Job &j);                   // into the current directory, without the simulator
typedef std::map<std::string, std::string> Dump;  // logical contents, entry by entry
bool dump_file(const std::string &path, Dump &d); // false: not readable. Runs in a child of its own
std::string dump_diff(const Dump &a, const Dump &b, const std::function<bool(const std::string &)> &skip);

std::string scratch();                            // this process's scratch directory
void scratch_done();
void copy_dir(const std::string &a, const std::string &b);
std::string slurp(const std::string &path, bool *ok = NULL);

struct CliRun {
    int status = 0; SimStats st; ApiFlags fl; uint64_t iohash = 0; uint32_t nio = 0, fired = 0, space_fired = 0; bool capped = false;
    std::vector<unsigned char> out;
    bool ok() const { return status == 0; }
    bool visible() const { return status != 0; }
};
struct CliOpts { std::vector<Fault> faults; int64_t space = -1; int cpu = 20; const char *cwd = NULL; bool hooks = false; std::string say; bool api = false; uint32_t max_ops = 0; uint64_t max_grown = 0; std::string cut; int64_t cutlen = 0; };
// runs body in a child whose current directory is `dir`; files below it are simulated storage
CliRun run_in_dir(const std::string &dir, const SimCfg &cfg, const CliOpts &o, const std::function<int(Buf &)> &body);
CliRun run_client(const std::string &dir, const Job &j, const SimCfg &cfg, const CliOpts &o);
void plain_child(const std::function<void()> &f); // no simulator
