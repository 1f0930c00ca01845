#!/usr/bin/env python3
"""Mutation runs over the checks (a development aid, not a check).

mutate.py PREBUILT OUT seed per_file [file substring...]
PREBUILT: folder made by a library build (objects <Name>.o and drivers' d_<driver>.o, gen/)
Every mutant changes one line of one source, is compiled, linked with the drivers that
concern the file and run with one worker until the first failure; survivors are listed in OUT/survivors.txt.
"""
import concurrent.futures as cf, os, random, re, subprocess, sys, hashlib, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import build as B
PRE, OUT, SEED, PER = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); PICK = sys.argv[5:]
LIMIT = int(os.environ.get("MUT_LIMIT", "150")); JOBS = int(os.environ.get("MUT_JOBS", "8"))
os.makedirs(OUT, exist_ok=True)
PT = set(B.POINTC); PK = set(B.POINTK); EXPR = {"AbsoluteVelocityExpression","AdjointTransformExpression","CoMInBaseExpression","MomentumInBaseExpression","QuaternionErrorExpression","QuaternionExpressions","RelativeJacobianExpression","RelativePositionExpression","RelativeQuaternionExpression","RelativeVelocityExpression","TransformExpression"}
def drivers(n):
    if n in PT: return ["contacts", "pointderivatives", "pointhistory"]
    if n in PK: return ["taskcosts", "pointderivatives", "pointhistory"]
    if n in EXPR or n == "ExpressionsServer": return ["server", "bodyderivatives", "bodyhistory"]
    m = {"RectangularFoot": ["foot"], "Settings": ["settings", "solver"], "State": ["containers", "references", "kindyn"], "Control": ["containers", "references"],
         "VariablesLabeller": ["containers"], "Utilities": ["initial", "references"], "PositionReferenceGenerator": ["references"], "QuaternionUtils": ["maths"], "SmoothingFunction": ["maths"], "HyperbolicSecant": ["maths"], "HyperbolicTangent": ["maths"],
         "SharedKinDynComputations": ["kindyn"], "TimelySharedKinDynComputations": ["kindyn", "server", "bodyhistory"], "DynamicalConstraints": ["dynamics"], "Solver": ["solver", "ocp"]}
    return m.get(n, ["bodyterms", "bodyderivatives", "bodyhistory"])
def sites(text):
    out = []; block = False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if "/*" in s: block = True
        if block:
            if "*/" in s: block = False
            continue
        if not s or s.startswith(("//", "#", "using", "template", "class", "struct", "assert", "std::cerr", "}")) or "cerr" in s: continue
        code = l.split("//")[0]
        def sub(a, b, kind):
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                out.append((i, kind, code[:m.start()] + m.expand(b) + code[m.end():]))
        sub(r" \+ ", " - ", "plus"); sub(r" - ", " + ", "minus"); sub(r"\+=", "-=", "pluseq"); sub(r"\+=", "=", "acc"); sub(r"-=", "+=", "minuseq"); sub(r"= -", "= ", "neg")
        sub(r"==", "!=", "eq"); sub(r"!=", "==", "ne"); sub(r" < ", " <= ", "lt"); sub(r" <= ", " < ", "le"); sub(r" > ", " >= ", "gt"); sub(r" >= ", " > ", "ge"); sub(r"&&", "||", "and"); sub(r"\|\|", "&&", "or")
        sub(r"\btrue\b", "false", "true"); sub(r"\bfalse\b", "true", "false"); sub(r"\b0\.5\b", "0.25", "half"); sub(r"\b2\.0\b", "1.0", "two"); sub(r"\b2 \* ", "", "two")
        sub(r"([\(,\[] ?)([0-5])([,\)\]])", r"\1\2+1\3", "index"); sub(r"([\(,\[] ?)([1-6])([,\)\]])", r"\1\2-1\3", "indexm"); sub(r"\(!", "(", "not")
        for a, b in (("left", "right"), ("Left", "Right"), ("Upper", "Lower"), ("Position", "Velocity"), ("min", "max"), ("cos", "sin"), ("angular", "linear"), ("top", "bottom"), ("ForcePoint", "PositionPoint")):
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(x, code):
                    if code[:m.start()].count('"') % 2 == 0: out.append((i, "swap " + x, code[:m.start()] + y + code[m.end():]))
        if s.endswith(";") and not s.startswith(("return", "const", "auto", "double", "int", "bool", "size_t", "static", "typedef", "break", "}")) and re.search(r"=|\(|\+\+", s) and not re.match(r"^[\w:<>\*& ]+ \w+( =|;|\()", s):
            out.append((i, "delete", ""))
        if re.match(r"^(if|else if) ?\(", s) and s.endswith("{"):
            k = code.index("if"); out.append((i, "if false", code[:k] + re.sub(r"if ?\(", "if (false && (", code[k:], count=1).rstrip()[:-1].rstrip() + ") {")); out.append((i, "if true", code[:k] + re.sub(r"if ?\(", "if (true || (", code[k:], count=1).rstrip()[:-1].rstrip() + ") {"))
    return out
LEVI = bool(os.environ.get("MUT_LEVI"))                 # mutate the headers of the expression library instead
HDR = B.LEVI + "/include/levi"; SKIP = ("Autogenerated", "Compiled", "levi.h", "ForwardDecl", "HelpersForward", "AddendsExpander")
lib = {h[:-2]: f"{HDR}/{h}" for h in sorted(os.listdir(HDR)) if not any(k in h for k in SKIP)} if LEVI else B.library_sources(); rnd = random.Random(SEED); work = []
for n, p in lib.items():
    if PICK and not any(k in n for k in PICK): continue
    t = open(p).read(); S = sites(t); ls = t.split("\n"); S = [x for x in S if x[2].strip() != ls[x[0]].strip()]
    groups = {}; [groups.setdefault(x[1], []).append(x) for x in S]
    chosen = []; keys = list(groups)
    while keys and len(chosen) < PER:
        x = rnd.choice(S)
        if x not in chosen: chosen.append(x)
        if len(chosen) == len(S): break
    for x in chosen: work.append((n, p, x))
rnd.shuffle(work)
fl = B.flags(PRE)
LIBS = [f"-lidyntree-{x}" for x in ["core", "model", "modelio", "modelio-xml", "modelio-urdf", "high-level", "optimalcontrol", "estimation", "inverse-kinematics"] if os.path.exists(f"{B.IDYN}/lib/libidyntree-{x}.so")]
EXTRA = [f"{PRE}/dep_{x}.o" for x in ("zupply.cpp", "version.cpp", "SharedLibrary.cpp", "SharedLibraryFactory.cpp") if os.path.exists(f"{PRE}/dep_{x}.o")]
def one(job):
    n, p, (i, kind, new) = job; ls = open(p).read().split("\n"); old = ls[i]; ls[i] = new
    d = f"{OUT}/m_" + hashlib.md5(f"{n}{i}{kind}{new}".encode()).hexdigest()[:10]; os.makedirs(d, exist_ok=True)
    if LEVI:
        shutil.copytree(HDR, f"{d}/inc/levi"); c = f"{d}/inc/levi/{n}.h"
    else: c = f"{d}/{n}.cpp"
    open(c, "w").write("\n".join(ls)); res = "survived"; by = ""
    try:
        if LEVI: r = subprocess.run(["g++", f"-I{d}/inc", *fl, "-c", B.HERE + "/levi.cpp", "-o", f"{d}/d_levi.o"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        else: r = subprocess.run(["g++", *fl, f"-I{os.path.dirname(p)}", "-c", c, "-o", f"{d}/{n}.o"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode: res = "invalid"; return n, i, kind, old, new, res, by
        for dr in (["levi"] if LEVI else drivers(n)):
            objs = [f"{d}/d_levi.o"] if LEVI else [f"{PRE}/{x}.o" for x in lib if x != n] + [f"{d}/{n}.o", f"{PRE}/d_{dr}.o"]
            r = subprocess.run(["g++", *objs, "-o", f"{d}/{dr}", f"-L{B.IDYN}/lib", f"-Wl,-rpath,{B.IDYN}/lib", "-Wl,--no-as-needed", *LIBS, *(EXTRA if LEVI else []), "-ldl", "-lpthread"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode: res = "invalid"; return n, i, kind, old, new, res, by
            try:
                r = subprocess.run([f"{d}/{dr}", "--tier", "quick", "--seed", "1", "--workers", "1", "--out", f"{d}/o", "--evidence", f"{d}/e.json", "--known", "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=LIMIT, env=dict(os.environ, PBT_FAST="1"))
                if r.returncode: res = "killed"; by = dr; break
            except subprocess.TimeoutExpired: by += "timeout:" + dr + " "
        return n, i, kind, old, new, res, by
    finally: shutil.rmtree(d, ignore_errors=True)
count = {}
with cf.ThreadPoolExecutor(JOBS) as ex:
    for f in cf.as_completed([ex.submit(one, j) for j in work]):
        n, i, kind, old, new, res, by = f.result(); count[res] = count.get(res, 0) + 1
        open(f"{OUT}/all.txt", "a").write(f"{res}\t{by}\t{n}:{i+1}\t{kind}\t{new.strip()}\n")
        if res == "survived": open(f"{OUT}/survivors.txt", "a").write(f"{n}:{i+1} [{kind}] {by}\n  - {old.strip()}\n  + {new.strip()}\n")
print(count)
