"""The list of checks: which harness decides which property, how it is built and for how long it runs."""
ASSUMPTIONS = [
    "the simulated MPI layer (sim/) implements the MPI calls the library uses as the standard defines them; it replaces Open MPI in the deciding runs",
    "FFTW 3 and MKL themselves are trusted as 1-D/2-D/3-D transform engines",
    "problem sizes are small (grid dimensions mostly below 30, at most 16 processes); rounding tolerance 2e-12 (double) and 2e-4 (float) relative in the 2-norm",
]
PLANS = ["plan_stock.cpp", "plan_fftw.cpp", "plan_mkl.cpp"]

def compile_objects(b, r):
    if "compile" in r: return r["compile"](b)
    v = r.get("variant", "avx")
    o = []
    for src, kw in r["sources"]: o.append(b.h(src, v, **kw))
    o += b.lib(v, parts=r.get("lib", ("plan_logic", "magma_helpers", "reshape3d", "compute_transform")))
    if r.get("wide"): o += [b.h("plan_stock.cpp", v, flags=["-DPLAN_WIDE"]), b.h("plan_fftw.cpp", v, flags=["-DPLAN_WIDE"])]
    if r.get("sim", True): o += b.sim()
    return o + b.engine()

def transform(only, quick=75, thorough=600, wide=True, variant="avx"):
    return dict(name="transform-" + variant, objects="h_transform", variant=variant, sources=[("h_transform.cpp", dict(std="c++17"))] + [(p, {}) for p in PLANS], wide=wide, only=only, time=(quick, thorough))

RULE_T = "a case is one generated transform problem (kind, backend, precision, grid, number of processes, input and output distribution with storage orders, plan options, MPI schedule) with 1-2 calls, executed on all simulated processes and compared entry by entry with the defining sums; non-trivial when the grid has more than one index and data has to move (several processes or a storage order change); distinct by the full case description"

TECH_T = "property-based testing: generated problems run on a deterministic MPI simulator with generated schedules, AddressSanitizer, oracle = %s, tape shrinking to a replay file"
NOTE_T = "exploration of small problems (grids up to a few thousand indexes, up to 16 processes) with the real library code, FFTW and MKL; trusts the simulated MPI layer, the direct-sum oracle and the rounding tolerance"
def T(only, oracle, rule=RULE_T, note=NOTE_T, **kw): return dict(runs=[transform(only, **kw)], rule=rule, technique=TECH_T % oracle, note=note)

CHECKS = {
    "C01": T("c01", "the defining 3-D DFT sums"),
    "C02": T("c02", "the defining half-spectrum DFT sums"),
    "C03": T("c03", "the defining cosine and sine sums"),
    "C04": T("c04", "defining sums times the logical scale factor, and the forward/backward round trip"),
    "C05": T("c05", "metamorphic equality between option sets, plus the defining sums"),
    "C06": T("c06", "batched call against single calls, plus the defining sums"),
    "C07": T("c07", "guard zones, sanitizer bounds, poisoned buffers, bytes of the input after the call, differential in-place/out-of-place"),
    "C14": T("c14", "protocol invariants of the simulator (deadlock, truncation, collective mismatch, leaked handles) and bitwise equality between schedules"),
    "C15": T("c15", "every call of a generated history against a memoryless model (the defining sums)"),
    "C21": T("c21", "differential: 32-bit against 64-bit indexed plans, bitwise"),
    "C23": T("c23", "defining sums on generated sub-groups, reordered and overlapping communicators"),
}

LOCAL = dict(name="local", objects="h_local", variant="avx", sources=[("h_local.cpp", dict(std="c++17"))])
def local(only, quick=60, thorough=600): return dict(LOCAL, only=only, time=(quick, thorough))
NOTE_L = "exploration of generated inputs against an independent reference; trusts the reference (wide-integer set arithmetic) and the compiler"
CHECKS["C09"] = dict(runs=[local("c09")], technique="property-based testing: generated boxes, sub-boxes and orders; oracle = geometric index map; shrinking", note=NOTE_L,
    rule="a case is one sub-box of up to 40000 indexes inside source and destination boxes with orders, packed or unpacked in one element type and compared at every position; non-trivial when the sub-box has more than one index")
CHECKS["C10"] = dict(runs=[local("c10")], technique="property-based testing: generated grids and process counts; oracle = set arithmetic and brute-force enumeration of factorisations; shrinking", note=NOTE_L,
    rule="a case is one call of a decomposition helper or box utility on a generated world (32- or 64-bit indexes); non-trivial when the world has more than one index and the call is in the documented domain")
CHECKS["C11"] = dict(runs=[local("c11")], technique="property-based testing: generated distributions and options; oracle = invariants of the stage chain; shrinking", note=NOTE_L,
    rule="a case is one logic plan for generated user boxes, orders, options and shortened dimension, checked stage by stage on all processes; non-trivial with more than one process and an accepted problem")
CHECKS["C21"]["runs"].append(local("c21g"))

CHECKS["C23"]["runs"].append(dict(transform("c23s", quick=25, thorough=300), name="confine-avx"))
CHECKS["C23"]["runs"][0]["time"] = (40, 600)

CHECKS["C08"] = dict(runs=[dict(name="reshape", objects="h_reshape", variant="avx", sources=[("h_reshape.cpp", dict(std="c++17"))], time=(60, 600))],
    technique=TECH_T % "the geometric index map between the two distributions", note=NOTE_T,
    rule="a case is one pair of distributions (with storage orders, possibly with empty boxes) moved one to three times with one algorithm, every destination element compared with the unique value of its global index; non-trivial when the distributions differ and the grid has more than one index")

def cpu_has(flag):
    try: return any(flag in l.split() for l in open("/proc/cpuinfo") if l.startswith("flags"))
    except OSError: return False
def stock(only, quick=40, thorough=400):
    vs = ["avx", "noavx"] + (["avx512"] if cpu_has("avx512f") and cpu_has("avx512dq") else [])
    return [dict(name="stock-" + v, objects="h_stock", variant=v, sources=[("h_stock.cpp", dict(std="c++17"))], only=only, time=(quick, thorough)) for v in vs]
CHECKS["C12"] = dict(runs=lambda: stock("c12"), technique="property-based testing: generated lengths, layouts and data in three instruction-set builds, AddressSanitizer; oracle = the defining sum (FFTW for long lines); shrinking", note=NOTE_L + "; Rader's algorithm is exercised at short primes through its node, because its selection threshold (100000) makes it quadratic in a large prime",
    rule="a case is one batch of lines (length, count, stride, distance, direction, precision, kind) transformed and compared with the defining sum line by line, with the elements between the lines checked to be untouched, or one factorisation of a length; non-trivial when the length exceeds one")
CHECKS["C22"] = dict(runs=lambda: stock("c22"), technique="property-based testing: generated lane values for all widths in three instruction-set builds; oracle = scalar complex arithmetic in double", note=NOTE_L,
    rule="a case is one set of operands (all lanes) on which every operation of the vector complex type is compared with scalar arithmetic (25 operations); every case is non-trivial, distinct by the operands")

CHECKS["C13"] = dict(runs=[dict(name="exec", objects="h_exec", variant="avx", sources=[("h_exec.cpp", dict(std="c++17"))], lib=("plan_logic", "reshape3d"), time=(45, 600))],
    technique="property-based testing: generated local boxes, orders, dimensions and call histories, AddressSanitizer with exactly sized arrays; oracle = the defining sums along the requested dimensions; shrinking", note=NOTE_L + "; FFTW and MKL are trusted as transform engines",
    rule="a case is one executor (backend, kind, box, storage order, one to three dimensions, index type) with one to four calls in either precision and direction, every element compared with the defining sum; non-trivial when the box is not empty and the first transformed dimension is longer than one")

CAPI = dict(name="capi", objects="h_capi", variant="avx", sources=[("h_capi.cpp", dict(std="c++17")), ("c_shim.c", dict(cxx="clang", std="c11"))] + [(q, {}) for q in PLANS], lib=("plan_logic", "magma_helpers", "reshape3d", "compute_transform", "c"))
CHECKS["C16"] = dict(runs=[dict(CAPI, only="c16", time=(60, 600))], technique=TECH_T % "the C++ interface (bitwise), the defining sums and the documented codes; the C header is used from a C translation unit", note=NOTE_T,
    rule="a case is one problem planned through both interfaces with one to three calls, compared bitwise (stock, FFTW) or within rounding (MKL); non-trivial when the plan is created and the grid has more than one index")
CHECKS["C19"] = dict(runs=[dict(CAPI, only="c19", time=(60, 600))], technique=TECH_T % "the required exception or code on every process, no live MPI object and no growing memory afterwards, and the valid request still served", note=NOTE_T,
    rule="a case is one invalid request (short vectors, boxes that overlap or leave holes, offset worlds, grids too small for the processes, unavailable backends or unknown options through C) followed by the valid one; non-trivial unless the grid is in fact large enough")

def trace_objects(b):
    """The untraced library and a traced copy of it in a renamed namespace, in one program."""
    tr = ["-Dheffte=heffte_traced"]
    o = [b.h("h_trace.cpp", "avx", std="c++17"), b.h("trace_shim.cpp", "avx", std="c++17"), b.h("trace_shim.cpp", "trace", std="c++17", flags=tr + ["-DTRACED"])]
    o += [b.h(q, "avx") for q in PLANS] + [b.h(q, "trace", flags=tr + ["-Dto_scale=to_scale_traced", "-Dmake_plan_%s=make_plan_traced_%s" % (n, n)]) for q, n in zip(PLANS, ("stock", "fftw", "mkl"))]
    return o + b.lib("avx") + b.lib("trace", flags=tr) + b.sim() + b.engine()
CHECKS["C20"] = dict(runs=[dict(name="trace", objects="h_trace", variant="avx", compile=trace_objects, only="c20", time=(45, 600))],
    technique=TECH_T % "the untraced build (bitwise, and the same number of MPI calls) and the communication calls recorded by the simulator against the lines of the log files", note=NOTE_T,
    rule="a case is one problem with a history of transforms, trace initialisations and finalisations (possibly different on every process), run with and without tracing compiled in, every written log file parsed and compared with the calls made; non-trivial when tracing was initialised at least once and the grid has more than one index")

def fortran_objects(b):
    o = [b.h("h_fortran.cpp", "avx", std="c++17")] + [b.h(q, "avx") for q in PLANS]
    fo = [x for n in ("stock", "fftw", "mkl") for x in b.fortran(n)]
    return o + fo + b.lib("avx") + b.sim() + b.engine()
import build as _build
CHECKS["C18"] = dict(runs=[dict(name="fortran", objects="h_fortran", variant="avx", compile=fortran_objects, only="c18", libs=_build.LIBS + ["-lgfortran", "-lquadmath"], time=(45, 600))],
    technique=TECH_T % "the defining sums and a native plan with the same options (sizes, bitwise results, communication calls); the Fortran classes are called from Fortran", note=NOTE_T,
    rule="a case is one problem planned through a constructor of the Fortran class and natively, with one to three calls through the overloaded type-bound procedures, compared with the defining sums and the native plan; non-trivial when the grid has more than one index")

def python_command(b, work):
    """Builds the shared library from the tree and a module directory for it."""
    import os, sys, re
    so = b.link("libheffte_verif", b.lib("avx", mpi="real", parts=("plan_logic", "magma_helpers", "reshape3d", "compute_transform", "c"), san=False), flags=["-shared"], cxx="mpicxx", san=False)
    d = os.path.join(work, "module"); os.makedirs(d)
    cfg = open(os.path.join(_build.REPO, "python", "heffte_config.cmake.py")).read()
    cfg = re.sub("@heffte_library_path@", so, cfg); cfg = re.sub("@Heffte_ENABLE_(FFTW|MKL)@", "ON", cfg); cfg = re.sub("@[A-Za-z_]+@", "OFF", cfg)
    open(os.path.join(d, "heffte_config.py"), "w").write(cfg)
    return [sys.executable, os.path.join(_build.VERIF, "harness", "py_check.py"), "--module", d + ":" + os.path.join(_build.REPO, "python")]
CHECKS["C17"] = dict(runs=[dict(name="python", command=python_command, only="c17", time=(45, 600))],
    technique="property-based testing: generated problems, dtypes, array shapes and invalid arguments for the Python module on real MPI jobs of 1 to 8 processes; oracle = numpy's FFT of the whole grid, guard zones, the documented exceptions; tape shrinking to a replay file",
    note="exploration of small problems with the real module, ctypes and Open MPI; trusts numpy.fft; schedules are those of the operating system",
    assumptions=["numpy.fft, mpi4py and Open MPI are trusted", "problem sizes are small (dimensions up to 12, at most 8 processes)", "only contiguous arrays are passed"],
    rule="a case is one plan with one to four calls (some with one invalid argument) or one call of each decomposition helper, compared with numpy on every process; non-trivial when the plan is accepted and the grid has more than one index")

# every build configuration: the switches, the compiler and the language standard of the library sources
CONFIGS = {
    "c-stock": dict(cxx="clang++", std="c++11", opt="-O1", san=True, flags=[]),
    "c-fftw": dict(cxx="g++", std="c++11", opt="-O3", san=False, flags=["-DNDEBUG"]),
    "c-mkl": dict(cxx="clang++", std="gnu++20", opt="-O1", san=True, flags=[]),
    "c-release": dict(cxx="g++", std="gnu++17", opt="-O3", san=False, flags=["-DNDEBUG", "-march=native"]),
    "c-avx512": dict(cxx="g++", std="c++14", opt="-O2", san=False, flags=[]),
}
def config(variant, quick=22, thorough=300):
    k = dict(CONFIGS[variant]); on = _build.VARIANTS[variant][1]; have = ["-DHAVE_%s=1" % n for n in ("FFTW", "MKL") if n in on]
    def objects(b):
        o = [b.h("h_config.cpp", variant, **dict(k, std="c++17", opt="-O1", flags=k["flags"] + have)), b.h("c_shim.c", variant, cxx="clang", std="c11", san=k["san"])]
        o += [b.h(q, variant, **k) for q, n in zip(PLANS, (None, "FFTW", "MKL")) if n is None or n in on]
        return o + b.lib(variant, parts=("plan_logic", "magma_helpers", "reshape3d", "compute_transform", "c"), **k) + b.sim(san=k["san"]) + b.engine(san=k["san"])
    return dict(name=variant, objects="h_config", variant=variant, compile=objects, san=k["san"], optional=True, only="c25", time=(quick, thorough))
CHECKS["C25"] = dict(runs=lambda: [config(v) for v in CONFIGS if v != "c-avx512" or (cpu_has("avx512f") and cpu_has("avx512dq"))], technique=TECH_T % "the defining sums in five builds of the library (engines, compilers, language standards, optimisation, assertions and vector units differ), and the engines each build reports and serves", note=NOTE_T + "; five of the possible configurations are built (one of them only where the processor has AVX-512)",
    rule="a case is one transform problem with one or two calls in one build configuration, or one request to the C interface for an engine that is or is not built in; non-trivial when the plan is created, the grid has more than one index and data has to move")
