"""Compiles the library sources of /repo's working tree together with the harnesses.

Objects are cached under /verif/build by a hash of everything that enters the compilation (all library headers and
sources, the harness sources, the flags), so a changed tree is always recompiled.
"""
import hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HEFFTE_REPO", "/repo")
CACHE = os.path.join(VERIF, "build")
MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
LIBS = ["-lfftw3", "-lfftw3f", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core", "-lpthread", "-lm", "-ldl"]

# instruction-set flags and configuration switches of a variant
VARIANTS = {
    "avx":       (["-mfma", "-mavx"], ["AVX", "FFTW", "MKL"]),
    "noavx":     ([], ["FFTW", "MKL"]),
    "avx512":    (["-mfma", "-mavx", "-mavx512f", "-mavx512dq"], ["AVX", "AVX512", "FFTW", "MKL"]),
    "trace":     (["-mfma", "-mavx"], ["AVX", "FFTW", "MKL", "TRACING"]),
    # build configurations without some of the engines
    "c-stock":   ([], []),
    "c-fftw":    ([], ["FFTW", "TRACING"]),
    "c-mkl":     (["-mfma", "-mavx"], ["AVX", "MKL"]),
    "c-release": (["-mfma", "-mavx"], ["AVX", "FFTW", "MKL"]),
    "c-avx512":  (["-mfma", "-mavx", "-mavx512f", "-mavx512dq"], ["AVX", "AVX512"]), # only where the processor has them
}
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

class BuildError(Exception): pass

def _hash_tree():
    h = hashlib.sha256()
    for top in ("include", "src", "fortran", "python"):
        for d, sub, files in sorted(os.walk(os.path.join(REPO, top))):
            sub.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".cpp", ".c", ".in", ".i", ".f90", ".py", ".txt", ".cxx", ".hh", ".cc")) or "cmake" in f:
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def _hash_local():
    h = hashlib.sha256()
    for top in ("engine", "harness", "sim"):
        for d, sub, files in sorted(os.walk(os.path.join(VERIF, top))):
            for f in sorted(files):
                if f.endswith(".h"): h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()

class Builder:
    def __init__(self, jobs=None):
        self.jobs = jobs or os.cpu_count() or 8
        self.tree = _hash_tree(); self.local = _hash_local()
        self.dir = CACHE; os.makedirs(self.dir, exist_ok=True)
        self.pool = ThreadPoolExecutor(self.jobs); self.pending = {}
        self._prune()
    def _prune(self):
        now = time.time()
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            try:
                if now - os.path.getmtime(p) > 6 * 3600:
                    if os.path.isfile(p): os.remove(p)
                    elif f.startswith("f-"): shutil.rmtree(p, ignore_errors=True)
            except OSError: pass
    def config(self, variant):
        """Generates heffte_config.h of the variant from the template in the tree; returns its include directory."""
        flags, on = VARIANTS[variant]
        src = open(os.path.join(REPO, "include", "heffte_config.cmake.h")).read()
        version = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
        v = version.groups() if version else ("2", "4", "1")
        for name, val in zip(("MAJOR", "MINOR", "PATCH"), v): src = src.replace("@Heffte_VERSION_%s@" % name, val)
        src = re.sub(r"@[A-Za-z_]+@", "unknown", src)
        def define(m):
            n = m.group(1)
            return ("#define %s" % n) if n.replace("Heffte_ENABLE_", "") in on else ("/* #undef %s */" % n)
        src = re.sub(r"#cmakedefine\s+(\w+)", define, src)
        d = os.path.join(self.dir, "inc-" + variant + "-" + hashlib.sha256(src.encode()).hexdigest()[:12]); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "heffte_config.h")
        if not os.path.exists(p) or open(p).read() != src: open(p, "w").write(src)
        return d
    def _compile(self, cmd, out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and cmd[-1].startswith(os.path.join(VERIF, "harness")):
            # the tree may have changed functions that are not part of the interface: compile without the parts that call them
            r2 = subprocess.run(cmd + ["-DHARNESS_MINIMAL", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r2.returncode == 0: print("note: %s is compiled without the parts that use internal functions" % os.path.basename(cmd[-1])); r = r2
        if r.returncode != 0 and "-std=c++11" in cmd:
            # the build system asks for C++11 or later: newer language features are not a fault
            r = subprocess.run(["-std=gnu++17" if x == "-std=c++11" else x for x in cmd] + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        os.replace(tmp, out)
    def obj(self, source, variant="avx", flags=(), repo=True, cxx="clang++", std="gnu++17", mpi="sim", opt="-O1", san=True):
        """Schedules the compilation of one source; returns the object path."""
        iset, _ = VARIANTS[variant]
        cmd = [cxx, opt, "-std=" + std, "-g1", "-fPIC", "-w"] + iset + (ASAN if san else []) + list(flags)
        if mpi == "sim": cmd += ["-I" + os.path.join(VERIF, "sim")]
        else: cmd += MPI_INC
        cmd += ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "sim")]
        if repo: cmd += ["-I" + self.config(variant), "-I" + os.path.join(REPO, "include"), "-I/usr/include/mkl"]
        h = hashlib.sha256(); h.update(" ".join(cmd).encode()); h.update(open(source, "rb").read()); h.update(source.encode()); h.update(self.local.encode())
        if repo: h.update(self.tree.encode())
        out = os.path.join(self.dir, os.path.basename(source).replace(".", "_") + "-" + h.hexdigest()[:20] + ".o")
        if out not in self.pending:
            if os.path.exists(out): os.utime(out); self.pending[out] = None
            else: self.pending[out] = self.pool.submit(self._compile, cmd + ["-c", source], out)
        return out
    def fortran(self, backend):
        """The Fortran module of one backend, its C++ wrapper on the simulated MPI and the shim that drives it."""
        gen = os.path.join(REPO, "fortran", "generated"); shim = os.path.join(VERIF, "harness", "f_shim.in")
        f90 = os.path.join(gen, "heffte_%s.f90" % backend)
        h = hashlib.sha256(open(f90, "rb").read() + open(shim, "rb").read() + backend.encode()).hexdigest()[:20]
        d = os.path.join(self.dir, "f-%s-%s" % (backend, h)); m = os.path.join(d, "module.o"); s = os.path.join(d, "shim.o")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "shim.F90"); open(src, "w").write(open(shim).read().replace("@BK@", backend))
        def both():
            self._compile(["gfortran", "-O1", "-g1", "-fPIC", "-J" + d, "-ffree-line-length-none", "-c", f90], m)
            self._compile(["gfortran", "-O1", "-g1", "-fPIC", "-cpp", "-J" + d, "-I" + d, "-ffree-line-length-none", "-c", src], s)
        if s not in self.pending:
            if os.path.exists(s) and os.path.exists(m): os.utime(s); os.utime(m); self.pending[s] = None
            else: self.pending[s] = self.pool.submit(both)
        return [s, m, self.obj(os.path.join(gen, "heffte_%sFORTRAN_wrap.cxx" % backend), flags=["-mllvm", "-asan-globals=0"] + ["-D%s=%s_%s" % (x, x, backend) for x in ("SWIG_store_exception", "SWIG_check_unhandled_exception_impl", "_wrap_get_serr") if x[0] == "S" or backend != "stock"])]
    def wait(self, objs):
        for o in objs:
            f = self.pending.get(o)
            if f is not None: f.result()
    def link(self, name, objs, flags=(), cxx="clang++", san=True, libs=LIBS):
        self.wait(objs)
        h = hashlib.sha256((" ".join(objs) + " ".join(flags) + cxx + " ".join(libs)).encode()).hexdigest()[:20]
        out = os.path.join(self.dir, name + "-" + h)
        if not os.path.exists(out): self._compile([cxx] + (ASAN if san else []) + list(flags) + list(objs) + list(libs), out)
        else: os.utime(out)
        return out
    def lib(self, variant="avx", mpi="sim", parts=("plan_logic", "magma_helpers", "reshape3d", "compute_transform"), **kw):
        std = kw.pop("std", "gnu++17")
        return [self.obj(os.path.join(REPO, "src", "heffte_%s.cpp" % p), variant, mpi=mpi, std=std, **kw) for p in parts]
    def h(self, name, variant="avx", **kw):
        return self.obj(os.path.join(VERIF, "harness", name), variant, **kw)
    def sim(self, san=True):
        return [self.obj(os.path.join(VERIF, "sim", "simmpi.cpp"), repo=False, std="c++17", san=san)]
    def engine(self, san=True):
        return [self.obj(os.path.join(VERIF, "engine", "pbt.cpp"), repo=False, std="c++17", san=san)]
