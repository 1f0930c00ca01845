#!/usr/bin/env python3
"""Builds one harness driver together with the sources of /repo it exercises.

Nothing is taken from /repo's build folder: every object comes from /repo's current tree.
Stages, each tried only if the one before does not link:
  1. the sources the driver is known to need (template-heavy ones merged in a few big units)
  2. every source of the library, heavy ones still merged
  3. every source of the library, one object per file
"""
import concurrent.futures as cf
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
IDYN = "/opt/vp/deps/idyntree"
LEVI = REPO + "/extern/levi"

HEAVY = """CentroidalMomentumConstraint ExpressionsServer CoMInBaseExpression QuaternionExpressions
DynamicalConstraints FrameAngularVelocityCost MomentumInBaseExpression RelativeVelocityExpression
FrameOrientationCost QuaternionErrorExpression RelativeQuaternionExpression AbsoluteVelocityExpression
AdjointTransformExpression RelativePositionExpression TransformExpression RelativeJacobianExpression""".split()
# sources that need a display or a library this sandbox lacks: only the drivers that bring a stand-in use them
EXCLUDED = ["Logger", "Visualizer"]
KINDYN = ["SharedKinDynComputations", "TimelySharedKinDynComputations", "QuaternionUtils"]
UTILS = ["QuaternionUtils"]
LABEL = ["VariablesLabeller"]
SMOOTH = ["SmoothingFunction", "HyperbolicSecant", "HyperbolicTangent"]
POINTC = ["ClassicalComplementarityConstraint", "ClassicalPlanarComplementarityConstraint", "ContactForceControlConstraints",
          "ContactFrictionConstraint", "DynamicalComplementarityConstraint", "FeetRelativeHeightConstraint",
          "NormalVelocityControlConstraints", "PlanarVelocityControlConstraints", "QuaternionNormConstraint"]
POINTK = ["ComplementarityCost", "FeetDistanceCost", "FootYawCost", "ForceMeanCost", "ForceRatioCost",
          "JointsVelocityForPosturalCost", "MeanPointPositionCost", "PhantomForcesCost", "SwingCost"]

# driver -> base names of the sources it needs ("ALL": the whole library; [] : header only)
DRIVERS = {
    "foot": ["RectangularFoot"],
    "settings": ["Settings", "RectangularFoot"],
    "kindyn": KINDYN + ["State"],
    "maths": ["QuaternionUtils", "SmoothingFunction", "HyperbolicSecant", "HyperbolicTangent"],
    "levi": [], "compiled": [],
    "initial": ["Utilities", "RectangularFoot", "State", "Control", "Settings", "PositionReferenceGenerator"],
    "references": ["Utilities", "RectangularFoot", "State", "Control", "Settings", "PositionReferenceGenerator"],
    "visualizer": ["Visualizer", "State"], "logger": ["Logger", "State", "Control", "Settings", "RectangularFoot"],
    "containers": ["State", "Control", "VariablesLabeller"],
    "contacts": UTILS + POINTC + SMOOTH + LABEL, "taskcosts": POINTK + SMOOTH + LABEL,
    "pointderivatives": UTILS + POINTC + POINTK + SMOOTH + LABEL, "pointhistory": UTILS + POINTC + POINTK + SMOOTH + LABEL,
    "bodyterms": "ALL", "bodyderivatives": "ALL", "bodyhistory": "ALL",
    "dynamics": "ALL", "server": "ALL", "solver": "ALL", "ocp": "ALL",
}
NEEDS_LEVI_LIBS = {"levi", "compiled"}


def flags(bdir, opt="-O1"):
    return (f"-I{REPO}/include -I/usr/include/eigen3 -I{LEVI}/include -I{bdir}/gen "
            f"-I{LEVI}/deps/zupply/include -I{LEVI}/deps/sharedlibpp/src -I{HERE} -I{HERE}/standin "
            f"-isystem {IDYN}/include -include cstdint -include {HERE}/assertions.h -D_GLIBCXX_ASSERTIONS -w -DNDEBUG -fPIC -ftrivial-auto-var-init=pattern {opt} "
            f"-DHARNESS_MODEL_DIR=\"{REPO}/test/data\"").split()


def generated_headers(bdir):
    g = bdir + "/gen"
    os.makedirs(g + "/levi/autogenerated", exist_ok=True)
    os.makedirs(g + "/shlibpp", exist_ok=True)
    scratch = bdir + "/scratch"
    os.makedirs(scratch, exist_ok=True)
    with open(g + "/levi/autogenerated/Path.h", "w") as f:
        f.write("#ifndef LEVI_AUTOGENERATED_PATH_H\n#define LEVI_AUTOGENERATED_PATH_H\n"
                f"#define LEVI_SOURCE_DIR \"{LEVI}\"\n#define LEVI_AUTOGENERATED_DIR \"{scratch}\"\n#endif\n")
    src = LEVI + "/deps/sharedlibpp/src/shlibpp"
    for n in ("config.h", "version.h"):
        t = src + "/" + n + ".in"
        if os.path.exists(t):
            s = open(t).read()
            s = s.replace("@CMAKE_SIZEOF_VOID_P@", "8")
            out = []
            for line in s.splitlines():
                if "cmakedefine" in line:
                    line = "/* " + line + " */"
                while "@" in line and line.count("@") >= 2:
                    a = line.index("@"); b = line.index("@", a + 1)
                    line = line[:a] + "0" + line[b + 1:]
                out.append(line)
            with open(g + "/shlibpp/" + n, "w") as f:
                f.write("\n".join(out) + "\n")


def generated_code_environment(bdir):
    """What levi needs to turn an expression into code, compile and load it: the configured CMakeLists, a package
    describing shlibpp's headers, and a toolchain file that skips compiler detection and uses a precompiled header."""
    s = bdir + "/scratch"
    with open(LEVI + "/cmake/CMakeLists.auto") as f:
        t = f.read().replace("@LEVI_CMAKE_MODULE_PATH@", LEVI + "/cmake").replace("@LEVI_SOURCE_DIR@", LEVI)
    with open(s + "/CMakeLists.auto", "w") as f:
        f.write(t)
    with open(s + "/shlibppConfig.cmake", "w") as f:
        f.write("if(NOT TARGET shlibpp::shlibpp)\n  add_library(shlibpp::shlibpp INTERFACE IMPORTED)\n"
                f"  set_target_properties(shlibpp::shlibpp PROPERTIES INTERFACE_INCLUDE_DIRECTORIES \"{LEVI}/deps/sharedlibpp/src;{bdir}/gen\")\nendif()\n")
    with open(s + "/pre.h", "w") as f:
        f.write("#include <cstdint>\n#include <shlibpp/SharedLibraryClass.h>\n#include <levi/CompiledEvaluable.h>\n")
    with open(s + "/toolchain.cmake", "w") as f:
        f.write("set(CMAKE_CXX_COMPILER g++)\nset(CMAKE_CXX_COMPILER_FORCED TRUE)\nset(CMAKE_CXX_COMPILER_ID GNU)\n"
                "set(CMAKE_CXX_STANDARD_COMPUTED_DEFAULT 17)\nset(CMAKE_CXX_EXTENSIONS_COMPUTED_DEFAULT ON)\n"
                f"set(CMAKE_CXX_FLAGS \"-w -include {s}/pre.h\")\nset(CMAKE_CXX_FLAGS_RELEASE \"-DNDEBUG -O0\")\n"
                "set(CMAKE_CXX14_STANDARD_COMPILE_OPTION -std=c++14)\nset(CMAKE_CXX_COMPILE_FEATURES cxx_std_11 cxx_std_14 cxx_std_17)\n")
    subprocess.run(["g++", "-std=c++14", "-fPIC", "-O0", "-DNDEBUG", "-w", "-x", "c++-header", s + "/pre.h", "-o", s + "/pre.h.gch",
                    "-I/usr/include/eigen3", f"-I{LEVI}/include", f"-I{LEVI}/deps/sharedlibpp/src", f"-I{bdir}/gen"],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def compile_one(job):
    src, obj, fl = job
    r = subprocess.run(["g++", *fl, "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return src, obj, r.returncode, r.stdout[-3000:].decode(errors="replace")


def library_sources(driver=""):
    out = {}
    needed = DRIVERS.get(driver, [])
    for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        b = os.path.basename(p)[:-4]
        if b not in EXCLUDED or b in needed:
            out[b] = p
    return out


def unity(bdir, name, files):
    p = f"{bdir}/{name}.cpp"
    with open(p, "w") as f:
        f.write("".join(f'#include "{x}"\n' for x in files))
    return p


def jobs_for(bdir, names, lib, merged, fl):
    heavy = [n for n in HEAVY if n in names]
    light = [n for n in names if n not in HEAVY]
    jobs = []
    groups = {}
    if merged:
        if heavy:
            k = 3 if len(heavy) >= 6 else 1
            for i in range(k):
                groups[f"heavy{i}"] = [lib[n] for n in heavy[i::k]]
        if len(light) > 8:
            for i in range(5):
                groups[f"light{i}"] = [lib[n] for n in light[i::5]]
            light = []
        for g, files in groups.items():
            jobs.append((unity(bdir, g, files), f"{bdir}/{g}.o", fl))
    else:
        light = heavy + light
    for n in light:
        jobs.append((lib[n], f"{bdir}/src_{n}.o", fl))
    return jobs, groups


def link(objs, exe):
    libs = ["core", "model", "modelio", "modelio-xml", "modelio-urdf", "high-level", "optimalcontrol", "estimation", "inverse-kinematics"]
    have = [f"-lidyntree-{x}" for x in libs if os.path.exists(f"{IDYN}/lib/libidyntree-{x}.so")]
    r = subprocess.run(["g++", *objs, "-o", exe, f"-L{IDYN}/lib", f"-Wl,-rpath,{IDYN}/lib", "-Wl,--no-as-needed", *have, "-ldl", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout[-3000:].decode(errors="replace")


def build(driver, bdir, pool):
    os.makedirs(bdir, exist_ok=True)
    generated_headers(bdir)
    if driver == "compiled":
        generated_code_environment(bdir)
    fl = flags(bdir) + (["-UNDEBUG"] if driver == "compiled" else [])      # levi reports a failed compilation with an assertion
    lib = library_sources(driver)
    want = DRIVERS[driver]
    exe = f"{bdir}/{driver}"
    stages = []
    if want != "ALL":
        names = [n for n in want if n in lib]
        if len(names) == len(want):
            stages.append((names, True))
    stages.append((list(lib), True))
    stages.append((list(lib), False))
    done = {}
    drv = pool.submit(compile_one, (f"{HERE}/{driver}.cpp", f"{bdir}/driver.o", fl))
    extra = []
    if driver in NEEDS_LEVI_LIBS:
        sl = LEVI + "/deps/sharedlibpp/src/"
        for p in (LEVI + "/deps/zupply/zupply.cpp", sl + "version.cpp", sl + "SharedLibrary.cpp", sl + "SharedLibraryFactory.cpp"):
            cand = p if os.path.exists(p) else None
            if cand is None:
                hits = glob.glob(LEVI + "/deps/**/" + os.path.basename(p), recursive=True)
                cand = hits[0] if hits else None
            if cand:
                extra.append(pool.submit(compile_one, (cand, f"{bdir}/dep_{os.path.basename(cand)}.o", fl)))
    log = ""
    for names, merged in stages:
        jobs, groups = jobs_for(bdir, names, lib, merged, fl)
        todo = [j for j in jobs if j[1] not in done]
        futs = [pool.submit(compile_one, j) for j in todo]
        bad = []
        for f in futs:
            src, obj, rc, out = f.result()
            if rc == 0:
                done[obj] = True
            else:
                bad.append((src, obj, out))
        objs = [j[1] for j in jobs if j[1] in done]
        # a merged unit that does not compile is retried file by file
        again = []
        for src, obj, out in bad:
            log = out
            g = os.path.basename(obj)[:-2]
            if g in groups:
                for p in groups[g]:
                    o = f"{bdir}/src_{os.path.basename(p)[:-4]}.o"
                    if o in done:
                        objs.append(o)
                    else:
                        again.append(pool.submit(compile_one, (p, o, fl)))
        for f in again:
            src, obj, rc, out = f.result()
            if rc == 0:
                done[obj] = True
                objs.append(obj)
            else:
                log = out
        src, obj, rc, out = drv.result()
        if rc != 0:
            print(out)
            print("error: the harness does not compile against this tree")
            return None
        dep = []
        for f in extra:
            s, o, rc, out = f.result()
            if rc == 0:
                dep.append(o)
            else:
                log = out
        rc, out = link([obj] + objs + dep, exe)
        if rc == 0:
            return exe
        log = (log + "\n" + out)[-4000:]
    print(log)
    print("error: the sources of /repo do not build with the harness")
    return None


def main():
    driver, bdir = sys.argv[1], sys.argv[2]
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8"))) as pool:
        exe = build(driver, bdir, pool)
    if not exe:
        sys.exit(2)
    print(exe)


if __name__ == "__main__":
    main()
