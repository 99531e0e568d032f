import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m) for n,m in state]
    if observe: d["anchors"]["observe_at"]=[observe]
    if hook is not None: d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
WHY_S="The tests run each call a few times with at most two real threads on tiny inputs; a shared scratch value, a missing critical section or a thread-number dependence only shows under interleavings, team sizes and work splits that the tests never take, so no finite set of unit tests settles it."
SQ="every thread count, every division of loop iterations among the threads, every interleaving of their memory accesses, for generated inputs (sizes, missing values, options)"
add("S01","Downscaling gives the same result for every thread count and schedule",
 "Nearest, bilinear, simple-gradient, full-gradient, smart, probability and mask/consensus downscaling (grid or points to grid or points, deterministic or ensemble) return bitwise the same values, or raise the same error, as a one-thread run of the same call, for every thread count, division of the work among threads and interleaving of those threads.",
 ["schedules","configurations","inputs"],SQ,WHY_S,
 ["src/api/nearest.cpp","src/api/bilinear.cpp","src/api/simple_gradient.cpp","src/api/gradient.cpp","src/api/smart.cpp","src/api/downscaling.cpp","src/api/downscale_probability.cpp","src/api/mask_threshold_downscale_consensus.cpp"],
 [("parallel loop over output points, each writing its own element","nearest.cpp, bilinear.cpp, simple_gradient.cpp, gradient.cpp (omp parallel for collapse(2))"),("read-only nearest-neighbour lookups from all threads","src/api/grid.cpp, src/api/points.cpp, src/api/kdtree.cpp")],
 observe="returned arrays")
add("S02","Neighbourhood results are the same for every thread count and schedule",
 "Neighbourhood statistics (exact, brute force, quantile, fast quantile with one or with spatially varying quantile levels), neighbourhood search, neighbourhood score, gradient computation and threshold selection return bitwise the same values, or raise the same error, as a one-thread run of the same call, for every thread count, division of the work among threads and interleaving of those threads.",
 ["schedules","configurations","inputs"],SQ,WHY_S,
 ["src/api/neighbourhood.cpp","src/api/neighbourhood_search.cpp","src/api/neighbourhood_score.cpp","src/api/calc_gradient.cpp"],
 [("row/threshold-parallel loops with per-iteration scratch","neighbourhood.cpp: neighbourhood, neighbourhood_quantile_fast, neighbourhood_brute_force"),("nested parallel call to neighbourhood from a parallel loop over thresholds","neighbourhood.cpp: neighbourhood_quantile_fast"),("parallel score/gradient loops","neighbourhood_score.cpp, calc_gradient.cpp")],
 observe="returned arrays")
add("S03","Analyses are the same for every thread count and schedule",
 "Optimal interpolation (plain, full with analysis variance, ensemble, multi-ensemble), local distribution correction, static correlation at points, doping and filling return bitwise the same analyses, variances and corrections, or raise the same error, as a one-thread run of the same call, for every thread count, division of the work among threads and interleaving of those threads.",
 ["schedules","configurations","inputs"],SQ,WHY_S,
 ["src/api/oi.cpp","src/api/oi_ensi.cpp","src/api/oi_ensi_multi.cpp","src/api/local_distribution_correction.cpp","src/api/corr_points.cpp","src/api/structure.cpp","src/api/doping.cpp","src/api/fill.cpp"],
 [("parallel loop over background points with per-point observation selection and matrix solve","oi.cpp: optimal_interpolation_full; local_distribution_correction.cpp; corr_points.cpp"),("structure functions evaluated from all threads on shared objects","structure.cpp")],
 observe="returned analysis and variance arrays")
add("S04","Gridding, counting and distances are the same for every schedule",
 "Gridding and nearest-gridding of point values (every statistic that does not draw random numbers), counts of neighbours and distances to neighbours return bitwise the same values, or raise the same error, as a one-thread run of the same call, for every thread count, division of the work among threads and interleaving of those threads.",
 ["schedules","configurations","inputs"],SQ,WHY_S,
 ["src/api/gridding.cpp","src/api/count.cpp","src/api/distance.cpp"],
 [("parallel loops over output points; serial accumulation of per-cell value lists before a parallel reduction","gridding.cpp: gridding, gridding_nearest"),("parallel neighbour queries","count.cpp, distance.cpp")],
 observe="returned arrays")
add("S05","Calibration and quantile results are the same for every schedule",
 "Applying calibration curves and transforms, building quantile-mapping and score-optimised curves, gamma quantiles, and computing statistics or quantiles of arrays (fixed or spatially varying levels) return bitwise the same values, or raise the same error, as a one-thread run of the same call, for every thread count, division of the work among threads and interleaving of those threads.",
 ["schedules","configurations","inputs"],SQ,WHY_S,
 ["src/api/curve.cpp","src/api/distribution.cpp","src/api/util.cpp","src/api/transform.cpp","src/api/quantile_mapping.cpp","src/api/metric_optimizer.cpp"],
 [("parallel apply of curves","curve.cpp: apply_curve"),("parallel gamma quantile","distribution.cpp: gamma_inv"),("parallel per-row quantiles","util.cpp: calc_quantile(vec3, vec2)")],
 observe="returned arrays")
add("S06","Diagnostics and time windows are the same for every schedule",
 "Dewpoint, relative humidity, wet-bulb, pressure, sea-level pressure, QNH, wind speed, wind direction and moving-window statistics return bitwise the same values, or raise the same error, as a one-thread run of the same call, for every thread count, division of the work among threads and interleaving of those threads.",
 ["schedules","configurations","inputs"],SQ,WHY_S,
 ["src/api/humidity.cpp","src/api/pressure.cpp","src/api/qnh.cpp","src/api/wind.cpp","src/api/window.cpp"],
 [("element-parallel diagnostics","humidity.cpp, pressure.cpp, qnh.cpp, wind.cpp"),("row-parallel moving window with running sums","window.cpp: window")],
 observe="returned arrays")
add("S07","Concurrent callers each get the results they would get alone",
 "Several caller threads that use the library at the same time, on shared read-only objects (grids, point sets, search trees, structure functions, transforms) or on objects of their own, each get bitwise the results they would get alone, and the shared objects are unchanged afterwards, for every interleaving of the callers (each of which may run its own parallel loops).",
 ["schedules","histories","configurations"],"every interleaving of 2-4 caller threads, each running a generated list of read-only operations on shared objects with its own thread team",
 "No test calls the library from more than one caller thread; a cache, lazily built index or scratch member inside a shared object is only wrong when two calls overlap at the wrong instruction.",
 ["src/api/kdtree.cpp","src/api/grid.cpp","src/api/points.cpp","src/api/structure.cpp","src/api/transform.cpp","include/gridpp.h"],
 [("const queries on the search tree","kdtree.cpp: get_neighbours, get_closest_neighbours, get_nearest_neighbour"),("const getters","grid.cpp, points.cpp"),("const correlation functions","structure.cpp: corr, corr_background, localization_distance")],
 observe="results of each caller and a final dump of the shared objects")
add("S08","Client output does not depend on threads or their interleaving",
 "A command-line run with any supported downscaler and calibrators writes bitwise the same field values as the same run with one thread, for every thread count, division of the work among threads and interleaving of those threads.",
 ["schedules","configurations","inputs"],"every thread count, work split and interleaving, for generated command lines (downscaler, calibrator chain, options, parameter files) and generated input files",
 "The client tests check a few calibrators in isolation with real, uncontrolled threads; races between loop iterations of a calibrator show only under particular interleavings and with inputs that reach the shared state.",
 ["src/client/Calibrator","src/client/Downscaler","src/client/KDTree.cpp","src/client/Driver/Gridpp.cpp"],
 [("row-parallel calibrator and downscaler loops over shared Field objects","src/client/Calibrator/*.cpp, src/client/Downscaler/*.cpp (omp parallel for)"),("neighbour tables built in parallel then cached per file pair","Downscaler/Downscaler.cpp, KDTree.cpp")],
 observe="field values in the output file")
add("S09","A random-choice statistic always returns one of the valid values",
 "Whatever the random sequence, thread count and interleaving, a random-choice statistic over a set of values (directly, per neighbourhood, per window row set or per gridding cell) is one of the valid values of exactly that set, missing only when the set has no valid value (or too few for the requested minimum), and the non-random statistics consume no randomness.",
 ["schedules","inputs","histories"],"every sequence of random draws (including extreme draws), every thread count and interleaving, generated inputs",
 "Tests accept whatever one libc sequence produced; extreme draws, draws interleaved between threads and draws repeated by two threads never occur in a test run.",
 ["src/api/util.cpp","src/api/gridding.cpp","src/api/neighbourhood.cpp"],
 [("draw an index among the valid values, then pick it","util.cpp: calc_statistic (RandomChoice)"),("per-cell call from parallel loops","gridding.cpp, neighbourhood.cpp")],
 observe="returned arrays and the number of random draws")
add("S10","The thread-count setting changes only when the program changes it",
 "After the program sets a thread count, that count is what is reported and no library call uses a larger team or changes the setting, through any sequence of library calls and settings, until the program sets it again; initialising it from the environment uses the environment's thread count if it is a positive number and one thread otherwise.",
 ["histories","configurations"],"generated sequences of thread settings, environment values and library calls",
 "A unit test checks set-then-get once; that no call among hundreds alters process-wide runtime state depends on the history of calls.",
 ["src/api/gridpp.cpp"],
 [("set/get/initialize thread count","gridpp.cpp: set_omp_threads, get_omp_threads, initialize_omp")],
 observe="reported thread count, team sizes requested from the runtime")
add("H01","API results do not depend on earlier calls or on memory contents",
 "Every API call is a function of its arguments alone: it returns bitwise the same values or raises the same error whatever calls came before it in the process, whether or not it is repeated, and whatever the freshly allocated memory happened to contain; it does not modify its inputs, and neither reads nor writes outside the memory it or its caller owns.",
 ["histories","inputs","configurations"],"generated call histories of any API functions, and several simulated initial contents of heap memory, over generated inputs",
 "Tests run with whatever the allocator returned (usually zeros) and each call once; a read of uninitialised or neighbouring memory, or a value kept from an earlier call, depends on allocator state and history that tests do not control.",
 ["src/api","include/gridpp.h"],
 [("output arrays initialised to missing before partial writes","src/api/*.cpp: init_vec2/resize with gridpp::MV"),("running-sum windows and neighbourhood edge indices","window.cpp, neighbourhood.cpp"),("no state kept between calls","src/api/*.cpp")],
 observe="returned arrays and inputs after the call")
add("H02","Files and variables of one client run do not influence each other",
 "Processing several files, or several independent variables, in one client run writes for each file and variable the same values as processing it alone in its own run, in any order, and writing into the input file itself gives the same values as writing into a separate identical file.",
 ["histories","configurations","inputs"],"generated batches of files and variables with different grids, times, ensemble sizes and options, compared with one-at-a-time runs",
 "Tests run one file per process; state carried from one file or variable to the next (neighbour caches, field caches, parameter state) only shows for particular sequences.",
 ["src/client/Driver/Gridpp.cpp","src/client/Setup.cpp","src/client/File/File.cpp","src/client/Downscaler/Downscaler.cpp"],
 [("neighbour-table cache keyed by a pair of grid tags","Downscaler/Downscaler.cpp: getNearestNeighbour"),("per-file field cache cleared between files","File/File.cpp: getField, clear; Driver/Gridpp.cpp"),("one shared handle when input and output are the same file","Setup.cpp")],
 [("neighbour cache","grid tag pair -> neighbour indices"),("field cache","variable -> fields by time")],"output files")
add("H03","A file object always reads back what was last put into it",
 "Through any sequence of reading, adding, initialising and writing fields and of dropping cached data, a field read from a file object is the last one added for that variable and time, or else the one stored on disk, and after a write and reopen the disk holds exactly the fields of the variables that were written, with all others unchanged.",
 ["histories","inputs"],"generated sequences of field-cache operations on netCDF, text and point files against an in-memory reference model",
 "Tests check single set-then-get steps; stale or lost cache entries depend on the order of reads, adds, clears and writes.",
 ["src/client/File/File.cpp","src/client/File/Netcdf.cpp","src/client/File/Point.cpp","src/client/File/Text.cpp","src/client/Field.cpp"],
 [("per-variable field cache","File.cpp: getField, addField, initNewVariable, clear, write"),("define/data mode switching on write","Netcdf.cpp: writeCore, startDefineMode/startDataMode")],
 [("mFields","cached fields per variable and time")],"getField and reopened files")
add("H04","Parameter sets read back as stored, whatever the order of updates",
 "Through any sequence of storing, reading, writing out and reloading parameters, a lookup for a time and place returns the parameters last stored for that time at the location nearest to the place (or the time-independent set), and a set written to a text or netCDF parameter file and read again is the same set.",
 ["histories","inputs"],"generated sequences of set/get/write/reload operations against a brute-force reference model",
 "Tests cover one set followed by one get; a stale nearest-location index or a missed rebuild needs a get, then an insertion, then another get.",
 ["src/client/ParameterFile/ParameterFile.cpp","src/client/ParameterFile/Text.cpp","src/client/ParameterFile/Netcdf.cpp","src/client/KDTree.cpp"],
 [("lazy nearest-location index with rebuild flag","ParameterFile.cpp: getParameters, setParameters, recomputeTree"),("serialisation","Text.cpp: write; Netcdf.cpp: write")],
 [("location index","nearest stored location per query")],"getParameters")
add("H05","Copies and derived objects behave like the original and outlive it",
 "A copy, assignment, clone, swap or move of a grid, point set, search tree, structure function or transform gives the same results as the original for every operation, whatever happens to the original afterwards (changed, destroyed, its memory reused) and however many copies lie between; points derived from other objects (a subset, the points inside a grid's domain, a grid's points, the points of a search tree) are the points their coordinates, elevations, land fractions and coordinate type describe; and an allocation that fails while copying leaves the original as it was.",
 ["histories","faults","inputs"],"generated histories of making, copying, assigning, swapping, destroying and using objects, with failing allocations inside copies and any contents of fresh memory",
 "Tests use an object right where it was made; a copy that loses a member, shares state with its original, or refers to memory of an object that is gone is only wrong after a history of copies, assignments and destructions, and often only for one coordinate type or one kind of structure function.",
 ["src/api/points.cpp","src/api/grid.cpp","src/api/kdtree.cpp","src/api/structure.cpp","src/api/transform.cpp","include/gridpp.h"],
 [("copying and assigning point sets and search trees","points.cpp: Points(const Points&), operator=; kdtree.cpp: KDTree(const KDTree&), operator="),("clone of structure functions","structure.cpp: clone of each class"),("derived point sets","points.cpp: subset, get_in_domain, Points(KDTree, ...); grid.cpp: to_points")],
 observe="results of operations on the copies")
add("A01","A failed allocation never yields a wrong result or a leak",
 "If memory runs out at any point of a serial API call, the call either raises the out-of-memory error, or ends the process visibly, or returns the result it would have returned; it never returns another result. After a raised error the caller's arrays and objects are unchanged, repeating the call with memory available gives the normal result, and neither a failed nor a successful call keeps memory once its results are released.",
 ["fault_sequences","inputs"],"every allocation of a generated call may be the one that fails (single failure, or all from some point on)",
 "Tests never run out of memory; the failing allocation can be any one of thousands in a call.",
 ["src/api","include/gridpp.h"],
 [("value-returning functions with container-owned memory","src/api/*.cpp"),("search tree owned by points and grids","kdtree.cpp, points.cpp, grid.cpp")],
 observe="exception or returned arrays, live-allocation count")
add("A02","A client run out of memory never reports success with wrong output",
 "If memory runs out at any point of a client run, the run either fails visibly (non-zero exit) or finishes with exactly the output of an undisturbed run, and in either case the files it only reads are unchanged.",
 ["fault_sequences","inputs"],"any allocation of a generated client run may fail, once or from then on",
 "Tests never run out of memory.",
 ["src/client/Driver/Gridpp.cpp","src/client/Setup.cpp","src/client/File"],
 [("unhandled allocation failure ends the process","Driver/Gridpp.cpp: main")],
 observe="exit status and output file")
add("F01","A client run that reports success has written its whole netCDF output",
 "If a client run exits with status zero, its netCDF output file holds, complete and readable, exactly the values, dimensions and attributes that an undisturbed run writes, whatever write, resize, sync or close errors, full disk, lost space or interrupted system calls the storage produced on the way.",
 ["fault_sequences","inputs","configurations"],"any one or more of the run's output operations may fail in any of the ways storage fails, for classic and netCDF-4 outputs and generated command lines",
 "Tests write to a healthy disk; an ignored status from a put or close call changes nothing until the disk fails at exactly that call.",
 ["src/client/File/Netcdf.cpp","src/client/Driver/Gridpp.cpp","src/client/NetcdfUtil.cpp"],
 [("checked library calls on write","Netcdf.cpp: writeCore, handleError"),("close on destruction flushes buffered data","Netcdf.cpp: ~FileNetcdf")],
 observe="exit status and reopened output file")
add("F02","An unreadable netCDF input never turns into forecast values",
 "If a client run exits with status zero, every value it wrote is the one an undisturbed run writes, whatever read errors occurred on its netCDF inputs, outputs' existing contents and netCDF parameter files; an input that cannot be read makes the run fail instead of yielding garbage, wrongly scaled or missing values.",
 ["fault_sequences","inputs","configurations"],"any one or more reads of the run may fail, at any offset, once or from then on",
 "Tests read from a healthy disk; an unchecked read status or an error taken for 'attribute absent' shows only when exactly that read fails.",
 ["src/client/File/Netcdf.cpp","src/client/ParameterFile/Netcdf.cpp","src/client/NetcdfUtil.cpp"],
 [("checked reads of fields, coordinates, times","Netcdf.cpp: getFieldCore, getGridValues, constructor"),("scale, offset, fill-value lookup","Netcdf.cpp: getScale, getOffset, getMissingValue"),("parameter reads","ParameterFile/Netcdf.cpp")],
 observe="exit status and reopened output file")
add("F03","A client run that reports success has written its whole text output",
 "If a client run with a text, point or QNH bulletin output, or with a diagnostics file (diaFile), exits with status zero, those files hold every byte an undisturbed run writes, whatever open, write or close errors, short writes, full disk or interrupted system calls the storage produced on the way.",
 ["fault_sequences","inputs","configurations"],"any one or more of the run's output operations may fail or be short",
 "Tests write to a healthy disk; an unchecked stream looks identical until the disk is full.",
 ["src/client/File/Text.cpp","src/client/File/Point.cpp","src/client/File/NorcomQnh.cpp","src/client/Calibrator/Oi.cpp"],
 [("stream output","Text.cpp, Point.cpp, NorcomQnh.cpp: writeCore")],
 observe="exit status and bytes of the output file")
add("F04","An unreadable text input or parameter file never passes for a short one",
 "If a client run exits with status zero, every value it wrote is the one an undisturbed run writes, whatever read errors, short reads or interrupted system calls occurred on its text and point inputs and text parameter files; a read error is never taken for the end of the file.",
 ["fault_sequences","inputs","configurations"],"any one or more reads of the run may fail or be short, at any offset",
 "Tests read from a healthy disk; a stream that stops on an error looks exactly like one that reached the end.",
 ["src/client/File/Text.cpp","src/client/File/Point.cpp","src/client/ParameterFile/Text.cpp","src/client/ParameterFile/Simple.cpp"],
 [("line-by-line stream reading","Text.cpp, Point.cpp, ParameterFile/Text.cpp")],
 observe="exit status and output values")
add("F05","Saving parameters reports success only when everything is on disk",
 "When a parameter set is saved to a text or netCDF parameter file and the operation (including closing the file object) reports no error, a later reader gets back exactly the saved set, whatever write, close or space errors the storage produced on the way.",
 ["fault_sequences","inputs"],"any one or more of the output operations may fail or be short",
 "Tests write to a healthy disk.",
 ["src/client/ParameterFile/Text.cpp","src/client/ParameterFile/Netcdf.cpp"],
 [("stream output","ParameterFile/Text.cpp: write"),("netCDF output and close","ParameterFile/Netcdf.cpp: write, destructor")],
 observe="error status and reloaded parameters")
add("F06","A crash or failure never damages what the run was not asked to change",
 "However a client run ends - killed at any instant or failing on an error - the files it only reads are byte-identical to before, every output file other than the one it was writing at that moment holds either its complete old or its complete new contents (outputs are written one after the other), and a run that stops while it reads an input or parameter file leaves the output for that input as it was. A run that succeeds keeps every variable, coordinate and global attribute it was not asked to write.",
 ["crash_points","fault_sequences","inputs"],"a kill before, after or inside any file operation of the run, or any failing file operation or full disk, for generated command lines with one to three files",
 "Tests never kill the client; damage needs a stop between two particular system calls.",
 ["src/client/File/Netcdf.cpp","src/client/Setup.cpp","src/client/Driver/Gridpp.cpp"],
 [("inputs opened read-only","File/File.cpp: getScheme; Netcdf.cpp: constructor"),("only requested variables written, one file after the other","Netcdf.cpp: writeCore; Driver/Gridpp.cpp")],
 observe="bytes of inputs, reopened output files")
add("F07","Repeating a failed or killed run gives the normal result or fails visibly",
 "After a client run was killed or failed before it began to write a netCDF or text output, or after that output was complete, repeating the same command (one whose results do not depend on what its outputs held) without faults either ends with exactly the values and attributes (apart from the history) of an undisturbed run in that output, or fails with a non-zero exit. Point and bulletin outputs, which are made from scratch, come out right in a repeat that reports success wherever the first run stopped.",
 ["crash_points","fault_sequences","histories"],"a kill or failure at any file operation of the first run, or a full disk, followed by an undisturbed repeat on what was left on disk (inputs not being outputs)",
 "Tests always start from clean files; the state left by a half-finished run depends on where it stopped.",
 ["src/client/File/Netcdf.cpp","src/client/File/Point.cpp","src/client/File/NorcomQnh.cpp","src/client/Driver/Gridpp.cpp"],
 [("define missing dimensions and variables, keep existing ones","Netcdf.cpp: writeCore, defineVariable/defineTimes"),("point and bulletin outputs recreated from scratch","Point.cpp, NorcomQnh.cpp")],
 observe="exit status and output of the repeat")
add("F08","Whatever fails, a client run comes to an end",
 "Whatever storage errors (once or lasting), full disks, interrupted or short reads and writes, input or parameter files cut short at any byte, and failed memory allocations a client run meets, and whatever the interleaving of its threads, it ends - successfully or failing visibly - after a bounded amount of work: at most a fixed multiple of the file operations, bytes written and computation steps of the undisturbed run. No loop waits for a condition that a failed stream, read, write or lock never reaches.",
 ["fault_sequences","crash_points","schedules","inputs"],"any one or more file operations, once or from then on, any length of a cut input file, any allocation and any schedule may be the one that fails",
 "Tests meet no failing reads or writes; a loop that ends at 'end of file' or retries until success is exposed only by a failure at exactly that point, and then never returns.",
 ["src/client/File/Text.cpp","src/client/File/Point.cpp","src/client/File/NorcomQnh.cpp","src/client/File/Netcdf.cpp","src/client/ParameterFile/Text.cpp","src/client/ParameterFile/Netcdf.cpp","src/client/Driver/Gridpp.cpp"],
 [("loops over lines until the stream is no longer good","Text.cpp, Point.cpp, ParameterFile/Text.cpp"),("values per line read until the line ends","File/Text.cpp: constructor"),("one pass over times, members and variables","Netcdf.cpp: writeCore; Driver/Gridpp.cpp")],
 observe="the run's end; file operations, bytes written and computation steps up to it")
add("C01","The clock affects only time stamps, never values",
 "Wall-clock readings, including jumps backwards or forwards, skew and stalls during the run, change nothing in a client run's output except the time stamp of its history entry (or bulletin header); the newest history entry comes first, older entries are kept, and API results and elapsed-time messages never influence computed values.",
 ["schedules","fault_sequences","configurations"],"every sequence of clock readings: frozen, stepping, jumping backwards and forwards by seconds to decades between any two readings",
 "Tests run once at the current time on a monotone clock.",
 ["src/client/Util.cpp","src/client/File/Netcdf.cpp","src/client/File/NorcomQnh.cpp","src/api/util.cpp"],
 [("current time stamp for history","Util.cpp: getCurrentTimeStamp, getCurrentDate, getCurrentTime"),("elapsed-time messages","Util.cpp: clock; api: gridpp::clock")],
 observe="output files, history attribute, bulletin header")
NA_Q=["inputs"]
def na(id,title,st,files,mech):
    add(id,title,st,NA_Q,"all inputs","The tests sample a handful of inputs.",files,mech)
na("N01","Interpolated values are correct","Downscaled and interpolated values equal the mathematical definition of the method (nearest value, bilinear weights, elevation-gradient adjustment) at every output point.",["src/api/nearest.cpp","src/api/bilinear.cpp","src/api/gradient.cpp"],[("interpolation formulas","nearest.cpp, bilinear.cpp, gradient.cpp")])
na("N02","Neighbour searches return the true neighbours","Nearest, k-nearest and radius searches return exactly the points a brute-force distance search returns, for lat/lon and Cartesian coordinates.",["src/api/kdtree.cpp","src/api/grid.cpp","src/api/points.cpp"],[("R-tree queries","kdtree.cpp")])
na("N03","Optimal interpolation solves its equations","The analysis equals background plus gain times innovation for the observations selected by the structure function, with variances between zero and the background variance.",["src/api/oi.cpp","src/api/structure.cpp"],[("gain computation","oi.cpp")])
na("N04","Calibration curves preserve order and honour extrapolation policies","Applying a monotone curve never reverses the order of two forecasts, and values outside the curve follow the chosen extrapolation policy.",["src/api/curve.cpp","src/api/quantile_mapping.cpp"],[("curve interpolation","curve.cpp: apply_curve")])
na("N05","Meteorological conversions are physically consistent","Humidity, dewpoint, pressure and wind conversions are inverses of each other where defined and stay within their physical ranges.",["src/api/humidity.cpp","src/api/pressure.cpp","src/api/wind.cpp"],[("formulas","humidity.cpp, pressure.cpp, wind.cpp")])
na("N06","Language bindings convert arrays faithfully","Arrays passed through the Python or R bindings arrive and return with the same shape, order and values, and invalid shapes raise an error.",["swig/gridpp.i","swig/vector.i"],[("typemaps","vector.i")])
na("N07","Invalid arguments are rejected","Incompatible sizes and out-of-range options raise an invalid-argument error instead of yielding a result.",["src/api"],[("argument checks","src/api/*.cpp")])
na("N08","The command line is parsed as documented","Every documented command line yields the documented sequence of variables, downscalers, calibrators and parameter files, and every other one is rejected.",["src/client/Setup.cpp","src/client/Options.cpp"],[("argument state machine","Setup.cpp")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
import subprocess
