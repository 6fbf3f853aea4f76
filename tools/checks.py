"""What decides each property: TLC models, generators, drivers and trace specifications."""
CHECKS = {
    "C01": {
        "models": [{"module": "MCLayout"}],
        "drivers": [{"name": "layout", "src": ["layout.cpp"], "flags": ["-DWHAT=1"], "trace": "TraceLayout", "parts": 6}],
        "rule": "every shape up to small bounds per dimension, holder and type, plus random ones; each read or write through one access route is an event",
    },
    "C02": {
        "models": [{"module": "MCLayout"}],
        "drivers": [{"name": "layout2", "src": ["layout.cpp"], "flags": ["-DWHAT=2"], "trace": "TraceLayout", "parts": 6}],
        "rule": "every coordinate from below -length to above length for small shapes, random ones for larger shapes, reads and writes",
    },
    "C03": {
        "models": [{"module": "MCRegions"}],
        "drivers": [{"name": "boxiter", "src": ["regions.cpp"], "flags": ["-DWHAT=3"], "trace": "TraceRegions", "parts": 6}],
        "rule": "every box of dimension 1-4 within small bounds (empty ones included) and random ones up to dimension 7, by several iteration idioms; random histories of three iterators",
    },
    "C11": {
        "models": [{"module": "MCRegions"}],
        "drivers": [{"name": "boxalg", "src": ["regions.cpp"], "flags": ["-DWHAT=11"], "trace": "TraceRegions", "parts": 4}],
        "rule": "every small 1D and 2D box and margin for surrounding, random boxes of dimension 1-5 and run-time dimension for each operator, in place and new instance",
    },
    "C12": {
        "models": [{"module": "MCRegions"}],
        "drivers": [{"name": "ball", "src": ["regions.cpp"], "flags": ["-DWHAT=12"], "trace": "TraceRegions", "parts": 4}],
        "rule": "every radius in quarters up to 3.5 (less in high dimension), norms 1 to 4, dimensions 1 to 5, random centres",
    },
    "C04": {
        "models": [{"module": "MCViews"}],
        "drivers": [{"name": "subs", "src": ["views.cpp"], "flags": ["-DWHAT=4"], "trace": "TraceViews", "parts": 4}],
        "rule": "every region of small rasters, random histories of reads and writes through a raster and two overlapping subrasters (dimensions 1-5 and run-time dimension, all holders)",
    },
    "C05": {
        "models": [{"module": "MCViews"}],
        "drivers": [{"name": "slices", "src": ["views.cpp"], "flags": ["-DWHAT=5"], "trace": "TraceViews", "parts": 4}],
        "rule": "every region and slice dimension of small rasters, random histories of slices, recursive sections, reads and writes (dimensions 1-5 and run-time dimension, all holders)",
    },
    "C06": {
        "models": [{"module": "MCOwnership"}],
        "generators": [{"name": "own_all", "module": "MCOwnership", "cfg": "GenOwnershipAll.cfg", "quick": {"stride": 8}},
                       {"name": "own_sim", "module": "MCOwnership", "cfg": "GenOwnership.cfg",
                        "extra": ["-simulate", "num=250", "-depth", "15", "-seed", "$SEED"],
                        "thorough": {"extra": ["-simulate", "num=5000", "-depth", "15", "-seed", "$SEED"]}}],
        "drivers": [{"name": "ownership", "src": ["ownership.cpp"], "trace": "TraceOwnership", "parts": 7,
                     "script": ["own_all", "own_sim"]}],
        "rule": "histories generated by TLC from the specification (every history of 3 operations on 2 containers, sampled in the quick tier, and random histories of 14 operations on 3 containers), replayed on sequences, 2D and run-time-dimension rasters over the 5 holders; contents, sizes and memory identity of every container observed after each operation",
    },
    "C07": {
        "models": [{"module": "MCAligned"}],
        "generators": [{"name": "al_all", "module": "MCAligned", "cfg": "GenAlignedAll.cfg", "quick": {"stride": 12}},
                       {"name": "al_sim", "module": "MCAligned", "cfg": "GenAligned.cfg",
                        "extra": ["-simulate", "num=1000", "-depth", "17", "-seed", "$SEED"],
                        "thorough": {"extra": ["-simulate", "num=10000", "-depth", "17", "-seed", "$SEED"]}}],
        "drivers": [{"name": "aligned", "src": ["aligned.cpp"], "trace": "TraceAligned", "parts": 7,
                     "flags": ["-fno-builtin"], "libs": ["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=aligned_alloc", "-Wl,--wrap=posix_memalign"],
                     "script": ["al_all", "al_sim"]}],
        "rule": "histories generated by TLC from the specification (every history of 4 operations on 2 buffers, sampled in the quick tier, and random histories of 16 operations on 3 buffers with alignments 1 to 256), replayed with every allocation and release tracked; ownership, requirement, actual alignment, contents and outstanding memory observed after each operation",
    },
    "C08": {
        "models": [{"module": "MCContainers"}],
        "drivers": [{"name": "ctor", "src": ["contents.cpp"], "flags": ["-DWHAT=8"], "trace": "TraceContainers", "parts": 6}],
        "rule": "every shape of at most 12 pixels within small bounds (dimensions 1-4 and run-time dimension), each construction route and holder, given values fewer than, as many as and more than the size",
    },
    "C26": {
        "models": [{"module": "MCContainers"}],
        "drivers": [{"name": "eq", "src": ["contents.cpp"], "flags": ["-DWHAT=26"], "trace": "TraceContainers", "parts": 7}],
        "rule": "random histories of element writes on pairs of containers of same or different holder and element type, equal, permuted or different shapes, compared and printed after each write; sizes around the abbreviation limit",
    },
    "C09": {
        "models": [{"module": "MCPixelwise"}],
        "drivers": [{"name": "arith%d" % k, "src": ["pixelwise.cpp"], "flags": ["-DWHAT=9", "-DONLY=%d" % k], "trace": "TracePixelwise"} for k in range(5)],
        "rule": "random histories of every operator and mathematical function, in place and new instance, with container and scalar operands (own elements included) and aliased operands; integer arithmetic interpreted in TLA+, other scalar functions given by tables",
    },
    "C10": {
        "models": [{"module": "MCPixelwise"}],
        "drivers": [{"name": "fill", "src": ["pixelwise.cpp"], "flags": ["-DWHAT=10"], "trace": "TracePixelwise", "parts": 4}],
        "rule": "random histories of fill, range, linspace, generate, apply (0 to 3 inputs, aliased, recorded calls) and extrema on containers of 0 to 14 elements",
    },
    "C13": {
        "models": [{"module": "MCSampling"}],
        "drivers": [{"name": "sampling", "src": ["sampling.cpp"], "trace": "TraceSampling", "parts": 4}],
        "rule": "every front, back and step within small bounds, random grids of 1 to 4 axes, random histories of three samplers (make, iterate, convert, write, move) over a shared memory",
    },
    "C14": {
        "models": [{"module": "MCInterp", "thorough": {"cfg": "MCInterpDeep.cfg"}}],
        "drivers": [{"name": "extrap", "src": ["interp.cpp"], "flags": ["-DWHAT=14"], "trace": "TraceInterp", "parts": 4}],
        "rule": "every position within two pixels of small images, random positions up to 100000 pixels away, dimensions 1 to 5 and run-time dimension, interleaved with pixel writes",
    },
    "C15": {
        "models": [{"module": "MCInterp", "thorough": {"cfg": "MCInterpDeep.cfg"}}],
        "drivers": [{"name": "interp", "src": ["interp.cpp"], "flags": ["-DWHAT=15"], "trace": "TraceInterp", "parts": 4}],
        "rule": "positions in quarter pixels (halves in 3D), every one around small 1D images and random ones, three methods and four border rules, exact rational weights",
    },
    "C16": {
        "models": [{"module": "MCFilters"}],
        "drivers": [{"name": "corr", "src": ["filters.cpp"], "flags": ["-DWHAT=16"], "trace": "TraceFilters", "parts": 6}],
        "rule": "every small 1D and 2D pair of image and kernel shapes, random ones in dimensions 1 to 4 and run-time dimension, random origins, three border rules",
    },
    "C17": {
        "models": [{"module": "MCFilters"}],
        "drivers": [{"name": "lines", "src": ["filters.cpp"], "flags": ["-DWHAT=17"], "trace": "TraceFilters", "parts": 6}],
        "rule": "random line kernels, origins, input and output samplings and strides; separable products along 1 to 3 axes in both orders, composed kernels, usual kernels, 2D sampled correlation",
    },
    "C18": {
        "models": [{"module": "MCFilters"}],
        "drivers": [{"name": "median", "src": ["filters.cpp"], "flags": ["-DWHAT=18"], "trace": "TraceFilters", "parts": 6}],
        "rule": "random images, windows of 1 to 12 positions (odd, even, off-centre), regions and border rules, integer and real types",
    },
    "C19": {
        "models": [{"module": "MCFourier", "thorough": {"cfg": "MCFourierDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "fourier", "src": ["fourier.cpp"], "trace": "TraceFourier", "parts": 6,
                     "libs": ["-lfftw3", "-Wl,--wrap=fftw_destroy_plan"]}],
        "rule": "random histories of up to 8 plans (created, inverted, composed, moved, assigned, destroyed) over shared buffers, dimensions 1 to 3 and run-time dimension, lengths 1, 2 and 4 interpreted exactly in TLA+, everything observable compared after each operation; every length up to 8 in 1D and 6 in 2D, four kinds, through plans and functions, in fixed point",
    },
    "C20": {
        "models": [{"module": "MCDistribution", "thorough": {"cfg": "MCDistributionDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "dist", "src": ["distribution.cpp"], "trace": "TraceDistribution", "parts": 4}],
        "rule": "random histories of queries on three distributions of 1 to 14 values (sorted, reversed, constant, random; extreme values of small integers), interleaved with writes to the sources, copies and reconstructions; eleven element types; edges of histograms at, between and beyond values",
    },
    "C21": {
        "models": [{"module": "MCNoise", "thorough": {"cfg": "MCNoiseDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "noise", "src": ["noise.cpp"], "trace": "TraceNoise", "parts": 6}],
        "rule": "random histories of six generators (built from few seeds and parameters so that they coincide, copied, called directly and through containers, interleaved), eight element types, five kinds; sequences of different seeds; moments and frequencies of 4000 draws, rare events among 10^5 to 10^6",
    },
    "C22": {
        "models": [{"module": "MCPipeline", "cfg": "MCPipelineQuick.cfg", "thorough": {"cfg": "MCPipeline.cfg", "workers": 8}}],
        "generators": [{"name": "pi_all", "module": "MCPipeline", "cfg": "GenPipelineAll.cfg", "quick": {"stride": 6}},
                       {"name": "pi_sim", "module": "MCPipeline", "cfg": "GenPipeline.cfg",
                        "extra": ["-simulate", "num=1200", "-depth", "15", "-seed", "$SEED"],
                        "thorough": {"extra": ["-simulate", "num=12000", "-depth", "15", "-seed", "$SEED"]}}],
        "drivers": [{"name": "pipeline", "src": ["pipeline.cpp"], "trace": "TracePipeline", "parts": 6,
                     "script": ["pi_all", "pi_sim"]}],
        "rule": "histories of gets, failures, resets and copies generated by TLC over every graph of four steps and 23 graphs of five, replayed on three pipelines under a virtual clock; evaluation order, values, flags and times observed after each operation",
    },
    "C23": {
        "models": [{"module": "MCChrono", "thorough": {"cfg": "MCChronoDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "chrono", "src": ["chrono.cpp"], "trace": "TraceChrono", "parts": 3}],
        "rule": "random histories of four chronometers of ten integer and real units under a virtual clock: advances of 0 to 10^8 ticks, starts, restarts, stops, resets, copies; everything observable compared after each operation",
    },
    "C24": {
        "models": [{"module": "MCOptions", "thorough": {"cfg": "MCOptionsDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "options", "src": ["options.cpp"], "trace": "TraceOptions", "parts": 4,
                     "libs": ["-lboost_program_options"]}],
        "rule": "random declarations (one to nine options of seven kinds and six types) of three sets of options, command lines in every spelling through the four overloads and the exported pair, valid and invalid, repeated; copies then declared further",
    },
    "C25": {
        "models": [{"module": "MCFiles", "thorough": {"cfg": "MCFilesDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "fits", "src": ["fits.cpp"], "trace": "TraceFiles", "parts": 4, "libs": ["-lcfitsio"]}],
        "rule": "random histories of writes, reads, copies of sessions, removals and corruptions over four names (one in no directory), three sessions and three rasters of 13 types, dimensions 1 to 4 and run-time dimension (up to 6), two holders, extreme values; files decoded by an independent reader, rasters read pixel by pixel after each operation",
    },
    "C27": {
        "models": [{"module": "MCThreads", "thorough": {"cfg": "MCThreadsDeep.cfg", "workers": 8}},
                   {"module": "MCThreads", "cfg": "MCThreadsScratch.cfg", "expect": 12},
                   {"module": "MCThreads", "cfg": "MCThreadsPlanner.cfg", "expect": 12}],
        "drivers": [{"name": "threads%s" % n, "src": ["threads.cpp"], "flags": ["-DREPS=%d" % reps], "trace": "TraceThreads", "parts": parts, "san": san,
                     "libs": ["-lfftw3", "-lcfitsio", "-lboost_program_options"] + ["-Wl,--wrap=fftw_" + x for x in ("plan_dft", "plan_dft_r2c", "plan_dft_c2r", "destroy_plan")]}
                    for n, reps, parts, san in (("_tsan", 10, 3, "thread"), ("_asan", 24, 3, True))],
        "rule": "four threads started together, one family of operations after the other and then mixed, on distinct objects or on shared ones they only read; what each got is checked against the specification of the operation alone, accesses are watched by ThreadSanitizer, entries in the FFTW planner are recorded",
    },
    "C28": {
        "models": [{"module": "MCKeyValues", "thorough": {"cfg": "MCKeyValuesDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "keyvalues", "src": ["keyvalues.cpp"], "trace": "TraceKeyValues", "parts": 3}],
        "rule": "every supported type and key value, bit for bit; every small clamping and bound, far ones at random; every quarter around zero, random far quarters and the reals next to integers for flooring; random vectors for slices and extensions",
    },
    "C29": {
        "models": [{"module": "MCUtilities", "thorough": {"cfg": "MCUtilitiesDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "utilities", "src": ["utilities.cpp"], "trace": "TraceUtilities", "parts": 2}],
        "rule": "random tuples, sequences and tuples of iterators with functions which remember their calls; random histories of exceptions made, copied, completed, thrown; every small value and pair of bounds",
    },
    "C30": {
        "models": [{"module": "MCCustom", "thorough": {"cfg": "MCCustomDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "custom", "src": ["custom.cpp"], "trace": "TraceCustom", "parts": 4}],
        "rule": "random histories of three containers of pixels which say how they were computed and own memory (fixed and run-time dimension, sequences, vector, valarray and user's holders); random images in three channel layouts under channel-wise and pixel-wise operations; random histories of rasters of rasters; pixels ordered by key",
    },
    "C31": {
        "models": [{"module": "MCLoops", "thorough": {"cfg": "MCLoopsDeep.cfg", "workers": 8}}],
        "drivers": [{"name": "loops", "src": ["loops.cpp"], "repo_src": ["LitlRun/src/lib/IterationBenchmark.cpp"], "trace": "TraceLoops", "parts": 3}],
        "rule": "random histories of one raster updated by eighteen ways of looping (position nests in both orders, domain, indices, iterators of every kind, algorithms, generate and apply, sections, subrasters, pointers, operators), dimensions 1 to 5 and run-time dimension, three holders; the iteration benchmark of the library step by step",
    },
}

# Large containers: counters and indices narrower than the library's, observed at selected ranks
for _pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
             "C20", "C25", "C26", "C31"):
    CHECKS[_pid]["models"].append({"module": "MCLarge", "thorough": {"cfg": "MCLargeDeep.cfg", "workers": 8}})
    CHECKS[_pid]["drivers"].append({"name": "large", "src": ["large.cpp"], "flags": ["-DWHAT=%d" % int(_pid[1:])], "trace": "TraceLarge",
                                    "repo_src": ["LitlRun/src/lib/IterationBenchmark.cpp"] if _pid == "C31" else [],
                                    "libs": {"C19": ["-lfftw3"], "C25": ["-lcfitsio"]}.get(_pid, [])})
    CHECKS[_pid]["rule"] += "; containers of 10^5 elements (extents and sizes over 2^16), observed at selected ranks"
