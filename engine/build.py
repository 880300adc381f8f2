"""Compile /repo sources and harnesses for symbolic execution (g++ -> assembly -> marked assembly -> object), cached by content."""
import hashlib, os, re, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
DEPS = "/opt/vp/deps/idyntree"
INC = [f"{REPO}/include", "/usr/include/eigen3", f"{REPO}/extern/levi/include", f"{REPO}/extern/levi/deps/zupply/include",
       f"{REPO}/extern/levi/deps/sharedlibpp/src", f"{VERIF}/engine", f"{VERIF}/engine/gen", f"{VERIF}/harness"]
FLAGS = ["-std=c++17", "-include", "cstdint", "-w", "-O1", "-DNDEBUG", "-fPIC", "-ffp-contract=off", "-fno-tree-vectorize"]
RTFLAGS = ("-fno-builtin", "-O2")
INCF = [f for i in INC for f in ("-I", i)] + ["-isystem", f"{DEPS}/include"]
MARK = re.compile(r"^(\s+)((?:andpd|andps|andnpd|andnps|pand|pandn)\s.*)$", re.M)

# Which outcomes of a comparison the code distinguishes is read off the consumers of its flags, and told to the run-time with a
# segment prefix (ignored by the processor): 0x2e {<=,>}, 0x36 {<,>=}, 0x3e {=,!=}, none: all three.
CMP = re.compile(r"^\s+u?comisd\s")
CC = {**{c: 1 for c in ("a", "be", "na", "nbe")}, **{c: 2 for c in ("ae", "b", "c", "nae", "nb", "nc")}, **{c: 3 for c in ("e", "z", "ne", "nz")}, "p": 0, "np": 0, "pe": 0, "po": 0}
NEUTRAL = re.compile(r"^(mov|lea|push|pop|nop|endbr64|cvt|add[sp]d|sub[sp]d|mul[sp]d|div[sp]d|sqrt[sp]d|min[sp]d|max[sp]d|unpck|shuf|pshuf|punpck|and[np]*d$|andp[sd]|andnp[sd]|orp[sd]|xorp[sd]|pxor|pand|pandn|por|cmp[a-z]+[sp]d$|cltq|cltd|cqto|not[bwlq]?$)")
KILL = re.compile(r"^(call|ret|cmp[bwlq]?$|test[bwlq]?$|add[bwlq]?$|sub[bwlq]?$|and[bwlq]?$|or[bwlq]?$|xor[bwlq]?$|neg[bwlq]?$|u?comis[sd]$|ud2)")

def mark_compares(text):
    lines = text.split("\n")
    label = {l[:-1]: i for i, l in enumerate(lines) if l.endswith(":") and not l[0].isspace()}
    out = list(lines)
    for i, l in enumerate(lines):
        if not CMP.match(l):
            continue
        kinds = set(); seen = set(); st = [i + 1]
        while st and 9 not in kinds:
            j = st.pop()
            while True:
                if j in seen: break
                seen.add(j)
                if j >= len(lines) or len(seen) > 300: kinds.add(9); break
                t = lines[j].split()
                if not t or t[0].endswith(":") or t[0].startswith(".") or t[0].startswith("#"):
                    j += 1; continue
                m = t[0]
                if m == "jmp":
                    if t[1] in label: j = label[t[1]]; continue
                    if t[1].startswith("_Z") or "@PLT" in t[1]: break # tail call
                    kinds.add(9); break
                c = m[1:] if m[0] == "j" else m[3:] if m.startswith("set") else re.sub(r"[lqw]$", "", m[4:]) if m.startswith("cmov") else None
                if m.startswith("cmov") and c not in CC: c = m[4:]
                if c is not None:
                    kinds.add(CC.get(c, 9))
                    if m[0] == "j":
                        if t[1] in label: st.append(label[t[1]])
                        else: kinds.add(9)
                    j += 1; continue
                if KILL.match(m): break
                if NEUTRAL.match(m): j += 1; continue
                kinds.add(9); break
        kinds.discard(0)
        if len(kinds) == 1 and 9 not in kinds:
            out[i] = "\t.byte " + {1: "0x2e", 2: "0x36", 3: "0x3e"}[kinds.pop()] + "\n" + l
    return "\n".join(out)

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compile_one(src, mark=True, extra=()):
    os.makedirs(CACHE, exist_ok=True)
    base = os.path.basename(src).rsplit(".", 1)[0]
    with tempfile.TemporaryDirectory(dir=CACHE) as td:
        ii = os.path.join(td, base + ".ii")
        r = sh(["g++", *FLAGS, *extra, *INCF, "-E", "-P", src, "-o", ii])
        if r.returncode:
            raise BuildError(f"{src}: {r.stdout[-3000:]}")
        h = hashlib.sha256(open(ii, "rb").read() + repr((FLAGS, extra, mark, src, "v2")).encode()).hexdigest()[:24]
        obj = os.path.join(CACHE, f"{base}-{h}.o")
        if os.path.exists(obj):
            return obj
        s = os.path.join(td, base + ".s")
        r = sh(["g++", *FLAGS, *extra, "-fpreprocessed", "-S", ii, "-o", s])
        if r.returncode:
            raise BuildError(f"{src}: {r.stdout[-3000:]}")
        if mark:
            t = open(s).read()
            t = mark_compares(MARK.sub(r"\1ud2\n\1\2", t))
            open(s, "w").write(t)
        tmp = os.path.join(td, base + ".o")
        r = sh(["g++", "-c", s, "-o", tmp])
        if r.returncode:
            raise BuildError(f"{src}: {r.stdout[-3000:]}")
        os.replace(tmp, obj)
        return obj

LIBS = ["idyntree-optimalcontrol", "idyntree-high-level", "idyntree-modelio", "idyntree-model", "idyntree-sensors",
        "idyntree-estimation", "idyntree-core"]

# weight for scheduling: the levi-based translation units are slow
SLOW = ["ExpressionsServer", "DynamicalConstraints", "CentroidalMomentum", "QuaternionExpressions", "CoMInBase", "FrameAngular", "MomentumInBase",
        "FrameOrientation", "RelativeVelocity", "AbsoluteVelocity", "AdjointTransform", "RelativeQuaternion", "RelativeJacobian", "RelativePosition",
        "QuaternionError", "TransformExpression"]

def all_repo_sources():
    import glob
    out = []
    for f in sorted(glob.glob(f"{REPO}/src/*.cpp") + glob.glob(f"{REPO}/src/private/*.cpp")):
        if os.path.basename(f) not in ("Logger.cpp", "Visualizer.cpp"):
            out.append(os.path.relpath(f, f"{REPO}/src"))
    return out

def functions(objs):
    r = sh(["nm", "-C", "--defined-only", *[o for _s, o in objs]])
    names = set()
    for l in r.stdout.splitlines():
        m = re.match(r"[0-9a-f]+ [TW] (DynamicalPlanner::.*|levi::.*)", l)
        if m and "std::" not in m.group(1).split("(")[0] and "::~" not in m.group(1) and "<" not in m.group(1).split("(")[0]:
            names.add(re.sub(r"\(.*", "", m.group(1)))
    return sorted(names)[:400]

def build(name, harness_srcs, repo_srcs, jobs=None, defs=()):
    """Returns (path of the linked harness, [(source, object)] of the repository sources)."""
    def link(repo):
        srcs = [(f"{VERIF}/engine/symrt.cpp", False, RTFLAGS)] + [(h, True, tuple("-D" + d for d in defs)) for h in harness_srcs] + [(os.path.join(REPO, "src", s), True) for s in repo]
        def w(t):
            b = os.path.basename(t[0])
            for i, k in enumerate(SLOW):
                if b.startswith(k):
                    return i
            return 100
        order = sorted(srcs, key=w)
        with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
            objs = dict(zip([t[0] for t in order], ex.map(lambda t: compile_one(*t), order)))
        ol = [objs[t[0]] for t in srcs]
        h = hashlib.sha256(repr(sorted(ol)).encode()).hexdigest()[:16]
        exe = os.path.join(CACHE, f"{name}-{h}")
        if not os.path.exists(exe):
            tmp = exe + f".{os.getpid()}"
            r = sh(["g++", "-rdynamic", "-no-pie", "-o", tmp, *ol, "-L", f"{DEPS}/lib", f"-Wl,-rpath,{DEPS}/lib", "-Wl,--no-as-needed",
                    *["-l" + l for l in LIBS], "-ldl", "-lpthread"])
            if r.returncode:
                return None, r.stdout[-4000:], None
            os.replace(tmp, exe)
        return exe, "", [(t[0], objs[t[0]]) for t in srcs if t[0].startswith(REPO)]
    exe, err, objs = link(repo_srcs)
    if exe is None and "undefined reference" in err:
        # a definition lives in another source file now: take all of them
        exe, err, objs = link(all_repo_sources())
    if exe is None:
        raise BuildError(f"link {name}: {err}")
    return exe, objs

if __name__ == "__main__":
    print(build(sys.argv[1], [sys.argv[2]], sys.argv[3:])[0])
