#!/usr/bin/env python3
"""Builds the simulator and the rank libraries from /repo's working tree into
/verif/build (ignored by git).  usage: build.py [target ...]"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HSIM_REPO", "/repo")
B = os.environ.get("HSIM_BUILD", os.path.join(V, "build"))
S = os.path.join(V, "sim")
J = str(os.cpu_count() or 8)
MPI_INC = "/usr/lib/x86_64-linux-gnu/openmpi/include"
PETSC = {k: "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-" + k for k in ("real", "complex")}
SLEPC = {k: "/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-" + k for k in ("real", "complex")}

class BuildError(Exception):
    pass

def run(cmd, cwd=None, env=None):
    e = dict(os.environ)
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "CPATH"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)

# cmake trees -----------------------------------------------------------------
# name: (kind, asserts)
TREES = {"real": ("real", True), "complex": ("complex", True), "release": ("real", False)}

regenerated = set()

def content():
    """sha1 and time stamp of every source file"""
    t = {}
    for top in [os.path.join(REPO, x) for x in ("kernel", "applications", "conf")] + [S, os.path.join(V, "tools")]:
        for dp, dn, fn in os.walk(top):
            for f in fn:
                q = os.path.join(dp, f)
                try:
                    t[q] = [hashlib.sha1(open(q, "rb").read()).hexdigest(), os.stat(q).st_mtime_ns]
                except OSError:
                    pass
    return t

def distrust_times():
    """ninja goes by time stamps.  Where a file's content changed although its time stamp is
    not newer than the last build (a restored copy of the tree, say), build from scratch."""
    tab = os.path.join(B, ".content.json")
    try:
        old = json.load(open(tab))
    except (OSError, ValueError):
        old = None
    t0, new = time.time_ns(), content()
    if old and any(q in old["files"] and old["files"][q][0] != v[0] and v[1] <= old["time"] for q, v in new.items()):
        for tree in TREES:
            d = os.path.join(B, tree)
            if os.path.exists(os.path.join(d, "build.ninja")):
                run(["ninja", "-C", d, "-t", "clean"])
        shutil.rmtree(os.path.join(B, "o"), ignore_errors=True)
    return lambda: write(tab, json.dumps({"time": t0, "files": new}))

def configure(tree):
    kind, asserts = TREES[tree]
    d = os.path.join(B, tree)
    stamp = os.path.join(d, ".configured")
    if os.path.exists(stamp) and os.path.exists(os.path.join(d, "build.ninja")):
        if d not in regenerated:
            run(["ninja", "-C", d, "build.ninja"])  # in case a CMakeLists.txt changed
            regenerated.add(d)
        return d
    os.makedirs(d, exist_ok=True)
    run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
         "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG -fPIC", "-DCMAKE_C_FLAGS_RELEASE=-O1 -DNDEBUG -fPIC",
         "-DENABLE_TESTING=OFF", "-DhpGEM_ENFORCE_ASSERTS=" + ("ON" if asserts else "OFF"), "-DhpGEM_USE_MPI=ON", "-DhpGEM_USE_METIS=ON",
         "-DhpGEM_USE_PETSC=ON" if kind == "real" else "-DhpGEM_USE_COMPLEX_PETSC=ON", "-DhpGEM_USE_SLEPC=ON",
         "-DPETSC_DIR=" + PETSC[kind], "-DSLEPC_DIR=" + SLEPC[kind],
         "-DPETSc_LIBRARY=%s/lib/libpetsc_%s.so" % (PETSC[kind], kind), "-DSLEPc_LIBRARY=%s/lib/libslepc_%s.so" % (SLEPC[kind], kind)],
        env={"PKG_CONFIG_PATH": "%s/lib/pkgconfig:%s/lib/pkgconfig" % (PETSC[kind], SLEPC[kind])})
    open(stamp, "w").write("ok")
    return d

def cmake_inputs(d, target):
    """object files and archives an executable target is linked from"""
    out = run(["ninja", "-C", d, "-t", "query", target])
    ins, on = [], False
    for l in out.splitlines():
        if l.startswith("  input:"):
            on = True
        elif l.startswith("  outputs:"):
            on = False
        elif on:
            w = [q for q in l.split() if q != "|"]  # archives are implicit inputs
            if w and w[0] != "||" and (w[0].endswith(".o") or w[0].endswith(".a")):
                ins.append(w[0])
    return ins

# rank libraries -------------------------------------------------------------
APPS = {
    "Preprocessor": ("real", "applications/Preprocessor/Preprocessor.out"),
    "PreprocessorRelease": ("release", "applications/Preprocessor/Preprocessor.out"),
    "AdvectionTest": ("real", "applications/AdvectionTest/AdvectionTest.out"),
    "LinearPotentialFlow": ("real", "applications/DG-Wave_linear/LinearPotentialFlow.out"),
    "Euler": ("real", "applications/Euler/Euler.out"),
    "AcousticWave": ("real", "applications/ExampleMultipleVariableProblem/ExampleMultipleVariableProblem.out"),
    "PoissonTest": ("real", "applications/PoissonTest/PoissonTest.out"),
    "SavageHutter": ("real", "applications/SavageHutter/SavageHutter.out"),
    "SavageAll": ("real", "applications/SavageHutter/SavageHutter.out"),
    "ExampleProblem": ("real", "applications/TemplateBasicProblem/ExampleProblem.out"),
    "TutorialAdvection": ("real", "applications/TutorialAdvection/TutorialAdvection.out"),
    "TutorialPoisson": ("real", "applications/TutorialPoisson/TutorialPoisson.out"),
    "MeshMoverDemo": ("real", "applications/MeshMoverDemo/MeshMoverDemo.out"),
    "Air": ("real", "applications/NavierStokes/Air/Air.out"),
    "CompressibleNavierStokes": ("real", "applications/NavierStokes/CompressibleNavierStokes/CompressibleNavierStokes.out"),
    "DGMaxSource": ("complex", "applications/DG-Max/Programs/DGMaxSource"),
    "DGMaxEigen": ("complex", "applications/DG-Max/Programs/DGMaxEigen"),
}
# programs whose main is replaced by a driver in sim/rank (its include directory)
DRIVER = {"SavageAll": ("savage_all.cpp", "applications/SavageHutter")}
# scenario libraries: tree, sources in sim/rank, extra cmake archives
SCEN = {
    "rk_real": ("real", ["main.cpp", "sc_*.cpp"], []),
    "rk_release": ("release", ["main.cpp", "sc_*.cpp"], []),
    "rk_dgmax": ("complex", ["main.cpp", "dgmax_*.cpp"], ["DGMax-lib"]),
}

def defs(tree):
    kind, asserts = TREES[tree]
    f = "-DHPGEM_LOGLEVEL=Log::DEFAULT -DHPGEM_STACKTRACE_DEMANGLE -DHPGEM_STACKTRACE_ENABLE -DHPGEM_USE_ANY_PETSC -DHPGEM_USE_METIS -DHPGEM_USE_MPI -DHPGEM_USE_SLEPC"
    f += " -DHPGEM_USE_PETSC" if kind == "real" else " -DHPGEM_USE_COMPLEX_PETSC"
    if asserts:
        f += " -DHPGEM_FORCE_ASSERTS"
    f += " -I%s/kernel -I%s/kernel/Base/." % (REPO, REPO)
    f += " -isystem %s -isystem %s/openmpi -isystem %s/include -isystem %s/include" % (MPI_INC, MPI_INC, PETSC[kind], SLEPC[kind])
    return f

def sysLibs(kind):
    return "%s/lib/libslepc_%s.so %s/lib/libpetsc_%s.so -lmetis" % (SLEPC[kind], kind, PETSC[kind], kind)

def globs(pats):
    import glob
    r = []
    for p in pats:
        r += sorted(glob.glob(os.path.join(S, "rank", p)))
    return r

def build(targets):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return locked(targets)

def locked(targets):
    t0 = time.time()
    scen = [t for t in targets if t in SCEN]
    apps = [t for t in targets if t in APPS]
    bad = [t for t in targets if t not in SCEN and t not in APPS and t != "hsim"]
    if bad:
        raise BuildError("unknown target " + " ".join(bad))
    done = distrust_times()
    # 1. hpGEM itself, from the working tree
    want = {}
    for t in scen:
        want.setdefault(SCEN[t][0], set()).add("HPGEM")
        want[SCEN[t][0]].update(SCEN[t][2])
    links = {}
    for t in apps:
        tree, tgt = APPS[t]
        d = configure(tree)
        ins = cmake_inputs(d, tgt)
        if not ins:  # e.g. after a re-configure
            raise BuildError("no inputs for " + tgt)
        want.setdefault(tree, set()).update(ins)
        links[t] = [os.path.join(d, i) for i in ins]
    for tree, tg in want.items():
        d = configure(tree)
        run(["ninja", "-C", d, "-j", J] + sorted(tg))
    # 2. simulator and rank libraries
    need = {k: open(os.path.join(S, "shim/need/%s.txt" % k)).read().split() for k in ("mpi", "mpifh", "mpicxx")}
    n = ["ninja_required_version = 1.5", "rule cxx", "  command = g++ -O1 -g1 -std=gnu++17 $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule cxx14", "  command = g++ -O1 -g1 -std=gnu++14 $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule cc", "  command = gcc -O1 -w -fPIC -c $in -o $out",
         "rule stubs", "  command = python3 %s/tools/mkstubs.py $need $in > $out" % V,
         "rule link", "  command = g++ $flags -o $out $in $libs"]
    def cxx(src, out, flags, rule="cxx"):
        n.append("build %s: %s %s\n  flags = %s" % (out, rule, src, flags)); return out
    shimf = "-fPIC -DOMPI_SKIP_MPICXX -I%s -I%s/openmpi -I%s" % (MPI_INC, MPI_INC, S + "/abi")
    so = [cxx("%s/shim/%s" % (S, s), "%s/o/%s.o" % (B, s), shimf) for s in ("mpi_shim.cpp", "libc_shim.cpp")]
    n.append("build %s/o/stubs_mpi.c: stubs %s | %s/shim/need/mpi.txt %s/tools/mkstubs.py\n  need = %s/shim/need/mpi.txt" % (B, " ".join(so), S, V, S))
    n.append("build %s/o/stubs_mpi.o: cc %s/o/stubs_mpi.c" % (B, B))
    n.append("build %s/fake/libmpi.so.40: link %s %s/o/stubs_mpi.o\n  flags = -shared -Wl,-soname,libmpi.so.40\n  libs = -ldl" % (B, " ".join(so), B))
    fo = cxx(S + "/shim/mpifh_shim.cpp", B + "/o/mpifh_shim.o", shimf)
    n.append("build %s/o/stubs_fh.c: stubs %s | %s/shim/need/mpifh.txt %s/tools/mkstubs.py\n  need = %s/shim/need/mpifh.txt" % (B, fo, S, V, S))
    n.append("build %s/o/stubs_fh.o: cc %s/o/stubs_fh.c" % (B, B))
    n.append("build %s/fake/libmpi_mpifh.so.40: link %s %s/o/stubs_fh.o | %s/fake/libmpi.so.40\n  flags = -shared -Wl,-soname,libmpi_mpifh.so.40\n  libs = %s/fake/libmpi.so.40" % (B, fo, B, B, B))
    n.append("build %s/o/stubs_cxx.c: stubs | %s/shim/need/mpicxx.txt %s/tools/mkstubs.py\n  need = %s/shim/need/mpicxx.txt" % (B, S, V, S))
    n.append("build %s/o/stubs_cxx.o: cc %s/o/stubs_cxx.c" % (B, B))
    n.append("build %s/fake/libmpi_cxx.so.40: link %s/o/stubs_cxx.o | %s/fake/libmpi.so.40\n  flags = -shared -Wl,-soname,libmpi_cxx.so.40\n  libs = %s/fake/libmpi.so.40" % (B, B, B, B))
    fakes = " ".join("%s/fake/%s" % (B, x) for x in ("libmpi.so.40", "libmpi_mpifh.so.40", "libmpi_cxx.so.40"))
    import glob
    ho = [cxx(s, "%s/o/h_%s.o" % (B, os.path.basename(s)), "-I" + S) for s in [S + "/main.cpp"] + sorted(glob.glob(S + "/core/*.cpp") + glob.glob(S + "/check/*.cpp"))]
    n.append("build %s/hsim: link %s\n  flags = -rdynamic\n  libs = -ldl" % (B, " ".join(ho)))
    outs = [B + "/hsim"] + fakes.split()
    for t in scen:
        tree, srcs, arch = SCEN[t]
        d = os.path.join(B, tree)
        extra = " -I%s/applications/DG-Max" % REPO if "DGMax-lib" in arch else ""
        os_ = [cxx(s, "%s/o/%s/%s.o" % (B, t, os.path.basename(s)), "-fPIC -w " + defs(tree) + extra, "cxx14") for s in globs(srcs)]
        archives = [d + "/applications/DG-Max/libDGMax-lib.a"] if "DGMax-lib" in arch else []
        archives += [d + "/kernel/libHPGEM.a", d + "/kernel/libLogger.a"]
        n.append("build %s/%s.so: link %s %s | %s %s\n  flags = -shared -Wl,-Bsymbolic-functions -Wl,--no-as-needed %s/fake/libmpi.so.40\n  libs = %s" %
                 (B, t, " ".join(os_), "", fakes, " ".join(archives), B, " ".join(archives) + " " + sysLibs(TREES[tree][0])))
        outs.append("%s/%s.so" % (B, t))
    for t in apps:
        tree, tgt = APPS[t]
        o = cxx(S + "/rank/app.cpp", "%s/o/app_%s.o" % (B, tree), "-fPIC -w " + defs(tree) + (" -DHSIM_PETSC_LU" if TREES[tree][0] == "complex" else ""), "cxx14") if ("app", tree) not in links else "%s/o/app_%s.o" % (B, tree)
        links[("app", tree)] = 1
        objs = [i for i in links[t] if i.endswith(".o")]
        if t in DRIVER:
            objs = [i for i in objs if os.path.basename(i) != "main.cpp.o"]
            objs.append(cxx("%s/rank/%s" % (S, DRIVER[t][0]), "%s/o/app_%s.o" % (B, t), "-fPIC -w " + defs(tree) + " -I%s/%s" % (REPO, DRIVER[t][1]), "cxx14"))
        ar = [i for i in links[t] if i.endswith(".a")]
        ar = [a for a in ar if not a.endswith("libHPGEM.a") and not a.endswith("libLogger.a")] + [os.path.join(B, tree, "kernel/libHPGEM.a"), os.path.join(B, tree, "kernel/libLogger.a")]
        n.append("build %s/app_%s.so: link %s %s | %s %s\n  flags = -shared -Wl,-Bsymbolic-functions -Wl,--no-as-needed %s/fake/libmpi.so.40\n  libs = %s" %
                 (B, t, o, " ".join(objs), fakes, " ".join(ar), B, " ".join(ar) + " " + sysLibs(TREES[tree][0])))
        outs.append("%s/app_%s.so" % (B, t))
    write(os.path.join(B, "ninja-" + ("-".join(sorted(targets)) or "hsim")[:100] + ".ninja"), "\n".join(n) + "\n")
    nf = os.path.join(B, "ninja-" + ("-".join(sorted(targets)) or "hsim")[:100] + ".ninja")
    run(["ninja", "-f", nf, "-C", B, "-j", J] + outs)
    done()
    return time.time() - t0

if __name__ == "__main__":
    tg = sys.argv[1:] or (list(SCEN) + list(APPS))
    if tg == ["setup"]:  # everything a registered check needs
        tg = sorted({l for c in json.load(open(os.path.join(V, "checks.json"))).values() for l in c["libs"]})
    try:
        print("built in %.1f s" % build(tg))
    except BuildError as e:
        print(e)
        sys.exit(2)
