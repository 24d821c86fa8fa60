#!/usr/bin/env python3
"""Builds the instrumented Caliper library from /repo's working tree and the simulator binaries.

   build.py [PROP ...]     (default: all of props/C*.cpp)

The library is configured with the project's own CMake (static, everything that this
sandbox supports except the GOTCHA/libdw/libunwind based services), with the compiler's
memory-access instrumentation (-fsanitize=thread at compile time only; the hooks are
implemented by sim/core.cpp, the ThreadSanitizer runtime is not linked).
Nothing is written into /repo.
"""
import fcntl, json, os, re, shutil, subprocess, sys, time, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, ".build" if REPO == "/repo" else ".build" + REPO.replace("/", "-")))
LIB = os.path.join(BUILD, "lib")
OBJ = os.path.join(BUILD, "obj")
MPIINC = "/usr/lib/x86_64-linux-gnu/openmpi/include"
INSTR = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
OPT = ["-O1", "-g1"]


class BuildError(Exception):
    pass


def run(cmd, what, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(f"{what} failed ({' '.join(cmd[:6])} ...):\n" + p.stdout[-6000:])
    return p.stdout


def configure():
    if os.path.exists(os.path.join(LIB, "build.ninja")):
        return
    os.makedirs(LIB, exist_ok=True)
    mpi_lib = "/usr/lib/x86_64-linux-gnu/openmpi/lib"
    run(["cmake", "-S", REPO, "-B", LIB, "-G", "Ninja",
         "-DCMAKE_BUILD_TYPE=None",
         "-DCMAKE_C_COMPILER=/usr/bin/clang", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++",
         "-DCMAKE_CXX_FLAGS=" + " ".join(OPT + INSTR), "-DCMAKE_C_FLAGS=" + " ".join(OPT + INSTR),
         "-DBUILD_SHARED_LIBS=OFF", "-DCMAKE_POSITION_INDEPENDENT_CODE=OFF", "-DBUILD_TESTING=OFF", "-DWITH_TOOLS=OFF",
         "-DWITH_FORTRAN=OFF", "-DWITH_PYTHON_BINDINGS=OFF",
         "-DWITH_GOTCHA=OFF", "-DWITH_LIBDW=OFF", "-DWITH_LIBUNWIND=OFF", "-DWITH_SAMPLER=ON",
         "-DWITH_OMPT=ON", "-DWITH_MPI=ON",
         f"-DMPI_C_ADDITIONAL_INCLUDE_DIRS={MPIINC}/openmpi",
         f"-DMPI_C_COMPILER_INCLUDE_DIRS={MPIINC};{MPIINC}/openmpi", f"-DMPI_C_HEADER_DIR={MPIINC}",
         "-DMPI_C_LIB_NAMES=mpi", f"-DMPI_CXX_ADDITIONAL_INCLUDE_DIRS={MPIINC}/openmpi",
         f"-DMPI_CXX_COMPILER_INCLUDE_DIRS={MPIINC};{MPIINC}/openmpi", f"-DMPI_CXX_HEADER_DIR={MPIINC}",
         "-DMPI_CXX_LIB_NAMES=mpi_cxx;mpi", f"-DMPI_mpi_LIBRARY={mpi_lib}/libmpi.so",
         f"-DMPI_mpi_cxx_LIBRARY={mpi_lib}/libmpi_cxx.so"], "cmake configure")


def forget_stale():
    """ninja trusts time stamps; a source whose content changed under an old time stamp would be
    missed, so a content digest of the sources is kept next to the build."""
    dig = {}
    for top in ("src", "include", "mpi", "ext", "cmake", "CMakeLists.txt", "caliper-config.h.in"):
        t = os.path.join(REPO, top)
        files = [t] if os.path.isfile(t) else [os.path.join(d, f) for d, _, fs in os.walk(t) for f in fs]
        for f in files:
            try:
                dig[f] = hashlib.sha1(open(f, "rb").read()).hexdigest()
            except OSError:
                pass
    rec = os.path.join(BUILD, "digest.json")
    try:
        old = json.load(open(rec))
    except (OSError, ValueError):
        old = {}
    a = os.path.join(LIB, "src/libcaliper.a")
    if old and os.path.exists(a):
        t = os.path.getmtime(a)
        if any(old.get(f) != dig.get(f) and (f not in dig or os.path.getmtime(f) <= t) for f in set(old) | set(dig)):
            shutil.rmtree(LIB, ignore_errors=True)
            shutil.rmtree(OBJ, ignore_errors=True)
            os.makedirs(OBJ, exist_ok=True)
    return rec, dig


def stale(out, deps_file, srcs):
    if not os.path.exists(out):
        return True
    t = os.path.getmtime(out)
    deps = list(srcs)
    if os.path.exists(deps_file):
        txt = open(deps_file).read().replace("\\\n", " ")
        deps += txt.split(":", 1)[1].split() if ":" in txt else []
    for d in deps:
        try:
            if os.path.getmtime(d) > t:
                return True
        except OSError:
            return True
    return False


def compile_one(src, obj, flags):
    dep = obj + ".d"
    if not stale(obj, dep, [src, os.path.join(HERE, "build.py")]):
        return
    run([*(["clang", "-std=gnu11"] if src.endswith(".c") else ["clang++", "-std=c++17"]), *OPT, "-fno-pie", "-Wall", "-Wno-unused-function", *flags,
         "-MMD", "-MF", dep, "-c", src, "-o", obj], "compiling " + os.path.basename(src))


def extra_objects(prop, inc, ex):
    """Objects that a property needs and the library configuration leaves out: the io service, which
    the project only builds with GOTCHA (props/C23.cpp provides a simulated GOTCHA)."""
    if prop != "C23":
        return [], []
    io = os.path.join(REPO, "src/services/io")
    srcs = [os.path.join(io, "IOService.cpp")] + sorted(glob.glob(io + "/CurIOus/src/*.c") + glob.glob(io + "/CurIOus/src/*.cpp"))
    inc = inc + ["-I" + io + "/CurIOus/include", "-I" + os.path.join(REPO, "ext/gotcha/include")]
    jobs, objs = [], []
    for s in srcs:
        o = f"{OBJ}/io_{os.path.basename(s)}.o"
        fl = inc + INSTR + ["-w", "-Dfopen=simos_fopen", "-Dreadlink=simos_readlink", "-Drealpath=simos_realpath"] * (s.find("CurIOus") > 0)
        jobs.append(ex.submit(compile_one, s, o, fl))
        objs.append(o)
    return jobs, objs


def build(props):
    """Returns {prop: binary path}."""
    os.makedirs(OBJ, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rec, dig = forget_stale()
        configure()
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(LIB, "include"), "-isystem", MPIINC, "-isystem", MPIINC + "/openmpi"]
        jobs = {}
        with ThreadPoolExecutor(8) as ex:
            lib = ex.submit(run, ["ninja", "-C", LIB, "caliper"], "building the library")
            jobs["core"] = ex.submit(compile_one, f"{HERE}/sim/core.cpp", f"{OBJ}/core.o", [])
            jobs["rbtree"] = ex.submit(compile_one, f"{HERE}/sim/rbtree.cpp", f"{OBJ}/rbtree.o", INSTR)
            jobs["main"] = ex.submit(compile_one, f"{HERE}/sim/main.cpp", f"{OBJ}/main.o", [])
            jobs["mpi"] = ex.submit(compile_one, f"{HERE}/sim/mpi.cpp", f"{OBJ}/mpi.o", inc)
            lib_first = not os.path.exists(os.path.join(LIB, "include/caliper/caliper-config.h"))
            if lib_first:
                lib.result()
            extra = {}
            for p in props:
                pinc = inc + ["-I" + os.path.join(REPO, "ext/gotcha/include")] * (p == "C23")
                jobs[p] = ex.submit(compile_one, f"{HERE}/props/{p}.cpp", f"{OBJ}/{p}.o", pinc + INSTR)
                js, extra[p] = extra_objects(p, inc, ex)
                jobs.update({(p, i): j for i, j in enumerate(js)})
            for j in jobs.values():
                j.result()
            lib.result()
        json.dump(dig, open(rec, "w"))
        a = os.path.join(LIB, "src/libcaliper.a")
        if not os.path.exists(a):
            raise BuildError("libcaliper.a was not built")
        out = {}
        # MPI entry points that the simulation does not implement end a run with a harness error
        und = set(re.findall(r"\b(P?MPI_\w+|ompi_\w+)", run(["nm", "-u", a], "nm")))
        dfd = set(re.findall(r"\b[TBDWt] (P?MPI_\w+|ompi_\w+)", run(["nm", a, f"{OBJ}/mpi.o"], "nm")))
        defs = [f"-Wl,--defsym={s}=sim_mpi_unimplemented" for s in sorted(und - dfd) if re.match(r"P?MPI_[A-Z]", s) or s.startswith("ompi_mpi")]

        def link(p):
            b = os.path.join(BUILD, "sim_" + p)
            objs = [f"{OBJ}/{x}.o" for x in (p, "core", "main", "mpi", "rbtree")] + extra[p]
            if stale(b, "", objs + [a]):
                run(["clang++", "-no-pie", "-rdynamic", *objs, "-Wl,--whole-archive", a, "-Wl,--no-whole-archive",
                     *defs, "-ldl", "-lrt", "-lpthread", "-o", b], "linking " + p)
            out[p] = b
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(link, props))
        return out


if __name__ == "__main__":
    if sys.argv[1:] == ["--warm"]:
        # setup: nothing persists between checks, so only verify that the toolchain works
        sys.argv[1:] = sorted(os.path.basename(f)[:-4] for f in glob.glob(f"{HERE}/props/C*.cpp"))[:1]
    ps = sys.argv[1:] or sorted(os.path.basename(f)[:-4] for f in glob.glob(f"{HERE}/props/C*.cpp"))
    t = time.time()
    try:
        for p, b in build(ps).items():
            print(p, b)
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("build %.1f s" % (time.time() - t))
