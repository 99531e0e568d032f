"""Wording of the evidence and manifest, per property. No counts here: those are measured."""
API_REAL = ["gridpp API library (src/api, compiled from the working tree)", "Armadillo, Boost.Geometry, GSL as linked"]
API_STUB = ["OpenMP runtime and thread scheduler (simulated: one OS thread per team member, only the one holding the baton runs, every switch chosen by the seed)", "heap (simulated arena)", "libc rand (simulated)", "gettimeofday/time (simulated)"]
CL_REAL = ["whole gridpp client (src/client, entered through the driver's main) and API library, compiled from the working tree", "libnetcdf and HDF5 as linked", "libstdc++ streams", "the kernel's files below a scratch directory"]
CL_STUB = ["OpenMP runtime and thread scheduler", "heap (simulated arena)", "libc rand", "clock", "every file system call of gridpp, libstdc++, libnetcdf and HDF5 passes the fault injector"]
SCHED = dict(
    rule="a plan = one generated input (function, sizes, options, values) + one schedule (team size, work split, preemption policy, seed); it is run once serially in a fresh process and then under several schedules. Counted as distinct and non-trivial: runs with at least one thread switch whose whole execution (input and every switch position) differs from all others",
    time="simulated time is counted in scheduler steps (one per instrumented memory access or runtime call); code under test has no timers",
    measure="hash over (input, every thread switch with its thread-local position)", real=API_REAL, stub=API_STUB,
    assume=["interleavings are sequentially consistent at the granularity of compiler-instrumented memory accesses; weak-memory effects are not simulated", "code inside linked libraries runs without preemption"])
T = {}
for k in ("S01", "S02", "S03", "S04", "S05", "S06"): T[k] = SCHED
T["S07"] = dict(SCHED, rule="a plan = 2-4 caller threads with generated operation lists on generated shared objects (or on their own inputs) + one schedule; compared with the callers run one after the other in a fresh process. Counted as distinct and non-trivial: runs with at least one thread switch and a different execution")
T["S09"] = dict(SCHED, rule="a plan = one generated call with (or without) a random-choice statistic + a random-source mode (ordinary, always lowest, always highest, alternating, small, short cycle) + one schedule. Non-trivial: the run drew random numbers; distinct by input, random source and schedule", assume=SCHED["assume"][:1])
T["S10"] = dict(SCHED, rule="a plan = a generated history of thread settings, environment values and API calls under one schedule; checked after every step against the last value set. Distinct by history and schedule")
T["H01"] = dict(SCHED, rule="a plan = a generated history of API calls ending in the judged call, a heap-content pattern and a repeat count; the judged call alone in a fresh process is the reference; every instrumented memory access is checked against the live blocks of the simulated heap. Distinct by history, pattern and pattern seed",
    measure="hash over (history, heap pattern, pattern seed)", assume=["memory checking covers accesses made by gridpp's own objects, to heap blocks"])
T["H05"] = dict(SCHED, rule="a plan = a generated history over six slots: making one of five generated sets of objects (two grids, two point sets, a search tree, a structure function, three transforms, arrays), copying it to another slot in one of many ways (copy constructor, assignment over another value or itself, growing containers, swap, move, clone, through a subset or a search tree), dropping the source, failing an allocation inside a copy, and using what a slot holds; every use is compared with the same operation on the original, made afresh in another process. Distinct by (history, heap pattern)",
    measure="hash over (history, heap pattern)", assume=["memory checking covers accesses made by gridpp's own objects, to heap blocks", "after a failed allocation only the source of the copy is used further"])
T["A01"] = dict(SCHED, rule="a plan = one generated API call + the index of the allocation that fails + whether memory stays exhausted; every allocation index of a call is reachable and indices are sampled per call. Non-trivial: the failure fired; distinct by (input, allocation index, sticky)",
    measure="hash over (input, failing allocation, sticky)", assume=["an allocation failure inside a parallel region ends the process (the exception cannot leave the region); that is a visible failure"])

CLI = dict(time="simulated time is counted in file operations, clock readings and scheduler steps; the client has no timers", real=CL_REAL, stub=CL_STUB)
T["S08"] = dict(CLI, rule="a plan = one generated world (input, output and parameter files), one command line and one schedule; the same run with one thread is the reference. Counted as distinct and non-trivial: runs with at least one thread switch and a different execution", measure="hash over (world, command line, every thread switch with its position, all file operations)",
    assume=SCHED["assume"])
FR = "a plan = one generated world and command line + 1-3 faults placed on file operations of the undisturbed run's recorded trace (or a disk that is full after a sampled number of bytes). Counted as distinct and non-trivial: runs in which a fault fired, by (world, faults, all file operations that followed)"
FM = "hash over (world, faults, sequence of file operations with their results)"
for k in ("F01", "F02", "F03", "F04"): T[k] = dict(CLI, rule=FR, measure=FM, assume=["faults hit the system calls that reach the kernel; memory-mapped access is not used by any file of the client", "reads of netCDF files are never short: the netCDF library takes a short read for the end of the file, and a local file system does not shorten them"])
T["A02"] = dict(CLI, rule="a plan = one generated world and command line + the index of gridpp's own allocation that fails + whether memory stays exhausted. Non-trivial: the failure fired", measure="hash over (world, failing allocation, file operations)", assume=["only allocations made by gridpp's own code fail, not those inside libnetcdf and HDF5"])
CR = "a plan = one generated world of one to three files and a command line + a kill or failure at 1-2 file operations of the undisturbed run's recorded trace (before, after or, for writes, inside the operation at a page boundary), or a disk that is full after a sampled growth. Counted as distinct and non-trivial: runs in which a fault fired, by (world, faults, all file operations that followed)"
CA = ["a killed process loses nothing it has already written (the kernel's page cache survives; loss of power is not simulated)", "an interrupted write is cut at a page boundary: shorter cuts are treated as not having happened", "space runs out only for bytes that make a file longer"]
T["F06"] = dict(CLI, rule=CR, measure=FM, assume=CA + ["the one output file that was being written when the run stopped is not judged: libnetcdf and HDF5 update it in place"])
T["F07"] = dict(CLI, rule=CR + "; the same command is then repeated without faults on what is left", measure=FM, assume=CA + ["netCDF and text outputs left half written are not judged (counted as output_was_half_written)", "inputs that are also the output are left out"])
T["F08"] = dict(CLI, rule=FR + "; or an input, parameter or output file cut short at a sampled byte, or a failed allocation, each also under simulated thread schedules. A run violates the property when it exceeds 20 times the file operations, bytes written or steps of the undisturbed run (plus a constant), when no thread can make progress, or when it uses 20 s of processor time", measure="hash over (world, faults, cut, failing allocation, schedule, sequence of file operations with their results)", assume=["only allocations made by gridpp's own code fail", "the libraries' own work on a cut netCDF file counts like gridpp's"])
T["C01"] = dict(CLI, rule="a plan = one generated world and command line (or one generated API call) + a clock: frozen, stepping, jumping forwards and backwards by seconds to decades between readings, or starting at an odd instant. The reference is the same run on a steady clock. Distinct by (world, clock, file operations)", measure="hash over (world or call, clock mode and seed, file operations)", assume=["calendar conversion is done by libc on the simulated seconds"])
T["H02"] = dict(CLI, rule="a plan = one generated batch of one to three files (different grids, times, ensemble sizes) and one to four variables + a variant of it: one file alone, one variable alone, files in reverse order, variables in reverse order, or writing into a separate copy instead of the input itself; each under a simulated initial heap content. The whole batch in one run is the reference. Distinct by (world, variant, heap pattern)", measure="hash over (world, variant, heap pattern)", assume=["variables that name another variable of the same run as an extra input are not compared one by one (they depend on it by design)"])
T["H03"] = dict(CLI, rule="a plan = one or two generated files (netCDF in four formats and several layouts, point, text) + a generated history of 3-45 operations on their file objects (open, get, get by name, change a field in place, add, initialise, drop the cache, write, query, alias, close and reopen), half of the runs with 1-2 faults on their file operations or a disk that fills up. Every value read and, at the end, every file is compared with an in-memory model. Distinct by (history, faults, file operations)", measure="hash over (files, history, faults, file operations with their results)", assume=["after a visible failure only the results before it are judged", "packed variables are compared to a tenth of their quantum, text files to the two decimals they store"])
T["H04"] = dict(CLI, rule="a plan = one generated parameter file (text or netCDF; global or located sets; fixed, cyclic or missing times) + a generated history of opening, setting, recomputing the tree, looking up by time and place, listing times and locations, writing and reopening, half of the runs with 1-2 faults on the file operations. Every lookup is compared with a brute-force model, and everything stored is read back at the end. Distinct by (history, faults, file operations)", measure="hash over (history, faults, file operations with their results)", assume=["locations within 10 m of the nearest one are all accepted (the tree computes distances in single precision)", "the tree is recomputed after insertions and before nearest lookups, as the interface requires", "global and located sets are not mixed in one file", "after a visible failure only the results before it are judged"])
T["F05"] = dict(CLI, rule="a plan = a generated history that stores parameter sets (text or netCDF) and saves them, with 1-3 faults on the file operations of the save (or a disk that is full after a sampled number of bytes); when the save reports success a second, undisturbed process reads the file back and compares every set. Non-trivial: a fault fired; distinct by (history, faults, file operations)", measure=FM, assume=["faults hit the system calls that reach the kernel"])

def text(prop): return T.get(prop, {})
