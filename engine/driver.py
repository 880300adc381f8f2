"""Decides the obligations of a harness: symbolic runs of the real code, path enumeration by the solver, normalisation, SMT, native replay."""
import itertools, json, math, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor, FIRST_COMPLETED, wait
from fractions import Fraction
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import numpy as np
import z3
import build as B
from dag import Path, Encoder, Ref

class EngineError(Exception):
    pass

def normal_exe():
    src = os.path.join(B.VERIF, "engine", "normal.cpp")
    import hashlib
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(B.CACHE, f"normal-{h}")
    if not os.path.exists(exe):
        os.makedirs(B.CACHE, exist_ok=True)
        tmp = f"{exe}.{os.getpid()}"
        r = B.sh(["g++", "-O2", "-std=c++17", "-o", tmp, src, "-lgmpxx", "-lgmp"])
        if r.returncode:
            raise EngineError("normal: " + r.stdout[-2000:])
        os.replace(tmp, exe)
    return exe

# ---- running a harness -------------------------------------------------------------------------------------------------------------
def write_inputs(file, inputs):
    with open(file, "w") as f:
        for k, v in inputs.items():
            f.write(f"{k} {float(v).hex()}\n")

def run_harness(exe, mode, inputs, work, timeout=300):
    inf = os.path.join(work, "in"); out = os.path.join(work, "out-" + mode)
    write_inputs(inf, inputs)
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ); env["OMP_NUM_THREADS"] = "1"
    try:
        r = subprocess.run([exe, mode, inf, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=work, env=env)
    except subprocess.TimeoutExpired:
        return None, "timeout", ""
    err = (r.stderr + r.stdout).decode(errors="replace")
    if not os.path.exists(out):
        return None, r.returncode, err
    p = Path(out)
    if not p.complete:
        return None, r.returncode, err
    return p, r.returncode, err

# ---- solver helpers ----------------------------------------------------------------------------------------------------------------
class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n
    def merge(self, o):
        for k, v in o.items():
            if isinstance(v, (int, float)):
                self.add(k, v)

def check(constraints, timeout_ms, st, kind, model_vars=None):
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*constraints)
    t = time.time()
    r = s.check()
    dt = time.time() - t
    st.add("solver_s", dt); st.add("queries"); st.add(f"queries_{kind}"); st.add(f"{kind}_{r}")
    m = None
    if r == z3.sat and model_vars is not None:
        mod = s.model()
        m = {}
        for name, v in model_vars.items():
            val = mod.eval(v, model_completion=True)
            m[name] = to_float(val)
    return str(r), m

def to_float(v):
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        return n / d
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    try:
        return float(v.as_decimal(20).rstrip("?"))
    except Exception:
        return 0.0

# ---- one path ----------------------------------------------------------------------------------------------------------------------
class Opts:
    normal_shards = 1
    max_terms = 200000
    normal_timeout = 400
    raw_budget_s = 6.0         # direct discharge on the raw encoding (no normaliser) for as many obligations as fit
    raw_timeout_ms = 1500
    smt_timeout_ms = 4000
    branch_timeout_ms = 2000
    branch_budget_s = 60.0
    obl_budget_s = 120.0
    max_paths = 200
    time_budget_s = 420.0
    workers = 8
    run_timeout = 300
    val_rtol = 1e-6
    explore = True             # fork on symbolic branch decisions
    rand_points = 48
    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(Opts, k):
                raise EngineError("option " + k)
            setattr(self, k, v)

def run_normal(dump, work, o):
    exe = normal_exe()
    outs = []; procs = []
    n = max(1, o.normal_shards)
    for k in range(n):
        out = os.path.join(work, f"norm{k}")
        procs.append(subprocess.Popen([exe, dump, out, str(k), str(n), str(o.max_terms)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)); outs.append(out)
    t0 = time.time()
    for p in procs:
        try:
            p.wait(timeout=max(1, o.normal_timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
    res = {}
    for out in outs:
        if not os.path.exists(out):
            continue
        cur = None
        for line in open(out):
            f = line.split()
            if not f:
                continue
            if f[0] == "R":
                cur = {"status": f[2], "raw": int(f[3]), "n": int(f[4]), "denLo": float(f[5]), "mag": float(f[6]), "monos": []}
                res[int(f[1])] = cur
            elif f[0] == "M" and cur is not None:
                cur["monos"].append((f[1], float(f[2]), float(f[3]), f[4:]))
    return res

def path_inputs(p):
    d = {n: s for (_v, n, _lo, _hi, s) in p.vars}
    for (n, v, _k) in p.choices:
        d[n] = v
    return d

def close(a, b, tol, rtol=1e-9):
    if math.isinf(a) or math.isinf(b):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= tol + rtol * max(abs(a), abs(b))

def values(con, name_index):
    """Concrete-run values of the obligations by name (k-th occurrence)."""

def replay(exe, inputs, p, o, obl, work):
    """Native replay of obligation number obl.idx at the given inputs. Returns (confirmed, text)."""
    con, rc, err = run_harness(exe, "con", inputs, work, o.run_timeout)
    if con is None:
        return False, f"concrete run did not finish ({rc}): {err[-200:]}"
    if con.outside:
        return False, "outside of the claim: " + con.outside
    def find(pp):
        if obl.idx < len(pp.obls) and pp.obls[obl.idx].name == obl.name:
            return pp.obls[obl.idx]
        for q in pp.obls:
            if q.name == obl.name:
                return q
        return None
    q = find(con)
    if q is None:
        return False, "obligation not reached in the concrete run"
    if q.kind == "fact":
        return (not q.holds), f"fact is {q.holds}"
    a, b = q.a.c, q.b.c
    scale = 1 + abs(a) + abs(b) if math.isfinite(a) and math.isfinite(b) else 1
    if q.kind == "eq":
        bad = not close(a, b, q.tol + 1e-7 * scale) if q.tol < 1e-7 * scale else not close(a, b, q.tol * 1.5)
        return bad, f"code {a!r}, required {b!r}"
    if q.kind == "ge":
        bad = not (a >= b - q.tol - 1e-9 * scale)
        return bad, f"value {a!r}, required at least {b!r}"
    if q.kind == "deriv":
        x0 = inputs[q.v]
        ests = []
        for h in (1e-4, 5e-5):
            fs = []
            for sgn in (1, -1):
                d = dict(inputs); d[q.v] = x0 + sgn * h
                c2, _, _ = run_harness(exe, "con", d, work, o.run_timeout)
                if c2 is None:
                    return False, "finite difference run failed"
                z = find(c2)
                if z is None:
                    return False, "obligation not reached at the displaced point"
                fs.append(z.a.c)
            ests.append((fs[0] - fs[1]) / (2 * h))
        est = (4 * ests[1] - ests[0]) / 3
        err_est = abs(ests[1] - ests[0])
        j = b
        bad = abs(est - j) > 1e-5 * (1 + abs(est) + abs(j)) + 4 * err_est
        return bad, f"derivative reported {j!r}, central differences of the reported values {est!r}"
    return False, "?"

def analyse_path(args):
    """Worker: run one input, decide its obligations, return alternatives."""
    exe, inputs, choicevals, o, tag, prefixset_depth = args
    st = Stats(); res = {"stats": st, "violations": [], "undecided": [], "alts": [], "samples": [], "log": []}
    work = tempfile.mkdtemp(prefix="dpv-")
    try:
        _analyse(exe, inputs, o, work, st, res)
    except EngineError as e:
        res["error"] = str(e)
    except Exception:
        res["error"] = traceback.format_exc()[-3000:]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res

def _analyse(exe, inputs, o, work, st, res):
    t0 = time.time()
    p, rc, err = run_harness(exe, "sym", inputs, work, o.run_timeout)
    st.add("symbolic_runs"); st.add("exec_s", time.time() - t0)
    if p is None:
        con, rc2, err2 = run_harness(exe, "con", inputs, work, o.run_timeout)
        if con is None and isinstance(rc2, int) and rc2 < 0 and isinstance(rc, int) and rc < 0:
            res["violations"].append({"obligation": "the code terminates normally", "kind": "crash", "inputs": inputs, "text": f"process died with signal {-rc2}"})
            res["path"] = None
            return
        raise EngineError(f"symbolic run failed (exit {rc}): {err[-600:]}")
    st.add("traps", p.stat[0]); st.add("nodes", len(p.nodes)); st.add("atoms", len(p.atoms)); st.add("obligations_total", len(p.obls))
    res["choices"] = p.choices
    res["nvars"] = len(p.vars)
    res["reached"] = p.reached
    res["outside"] = p.outside
    ins = path_inputs(p)
    dump = os.path.join(work, "out-sym")
    keep = os.path.join(work, "dump"); os.replace(dump, keep)
    con, rc2, err2 = run_harness(exe, "con", ins, work, o.run_timeout)
    if con is None:
        if p.threw is None:
            raise EngineError(f"concrete run failed (exit {rc2}): {err2[-300:]}")
    # -- encoding validation: the terms evaluate to what the code computes natively
    if con is not None and p.outside is None:
        if len(con.obls) == len(p.obls):
            for x, y in zip(p.obls, con.obls):
                if x.kind in ("eq", "ge"):
                    for r, s in ((x.a, y.a), (x.b, y.b)):
                        u, w = p.sample(r), s.c
                        if not close(u, w, 1e-9, o.val_rtol):
                            raise EngineError(f"encoding mismatch on '{x.name}': {u} vs native {w}; inputs {ins}")
                        st.add("validated_terms")
                elif x.kind == "fact" and x.holds != y.holds:
                    raise EngineError(f"encoding mismatch on fact '{x.name}'")
        elif p.threw is None:
            raise EngineError("symbolic and native runs disagree on the obligations")
    if p.threw is not None and p.outside is None:
        if con is not None and con.threw:
            res["violations"].append({"obligation": "no exception escapes", "kind": "throw", "inputs": ins, "text": p.threw})
        else:
            raise EngineError("exception only in the symbolic run: " + p.threw)
    enc = Encoder(p)
    svars = {name: enc.zvars[vid] for (vid, name, lo, hi, s) in p.vars if vid is not None}
    bnd = enc.bounds()
    assume_refs = [r for (_s, a, b) in p.assumes for r in (a, b)]
    # -- alternatives (solver-driven path enumeration)
    def cons_refs(atoms):
        refs = list(assume_refs)
        for a in atoms:
            refs += [a[0], a[1]]
        return refs
    tb = time.time()
    if p.outside == "assumption":
        A = enc.assumptions(); r, m = check(bnd + A + enc.axioms(assume_refs), o.branch_timeout_ms * 4, st, "branch", svars)
        if m is not None:
            res["alts"].append(("assume", m))
        return
    if o.explore:
        done = res.setdefault("prefixes", [])
        A = enc.assumptions()
        pre = []
        chk = tuple(c[:2] for c in p.choices)
        key = (chk,)
        for i, a in enumerate(p.atoms):
            done.append(hash(key + ((a[3], a[2]),)))
            for r in ([m for m in (1, 2, 4) if a[4] & m] if a[5] else [a[4]]):
                res["alts"].append(("branch", hash(key + ((a[3], r),)), i, r))
            key = key + ((a[3], a[2]),)
        res["keyfull"] = hash(key)
        res["enc_input"] = None
    if p.outside is not None:
        p.obls = []
    # -- facts
    for ob in p.obls:
        if ob.kind == "fact":
            if ob.holds:
                st.add("facts_true")
            else:
                ok, text = replay(exe, ins, p, o, ob, work)
                if ok:
                    res["violations"].append({"obligation": ob.name, "kind": ob.kind, "inputs": ins, "text": text})
                else:
                    raise EngineError(f"fact '{ob.name}' false symbolically, not natively: {text}")
    num = [ob for ob in p.obls if ob.kind != "fact"]
    if not num:
        _branch(p, enc, bnd, svars, o, st, res, tb)
        return
    # -- constants
    rest = []
    for ob in num:
        if ob.a.id is None and ob.b.id is None:
            x, y = ob.a.c, ob.b.c
            good = close(x, y, ob.tol, 1e-12) if ob.kind != "ge" else x >= y - ob.tol
            if good:
                st.add("constant_true")
            else:
                ok, text = replay(exe, ins, p, o, ob, work)
                if ok: res["violations"].append({"obligation": ob.name, "kind": ob.kind, "inputs": ins, "text": text})
                else: res["undecided"].append(ob.name + " [constants differ, replay: " + text + "]")
        elif (ob.a.id is None and not math.isfinite(ob.a.c)) or (ob.b.id is None and not math.isfinite(ob.b.c)):
            ok, text = replay(exe, ins, p, o, ob, work)
            if ok and ob.kind != "ge" or (ob.kind == "ge" and not (p.sample(ob.a) >= p.sample(ob.b))):
                res["violations"].append({"obligation": ob.name, "kind": ob.kind, "inputs": ins, "text": text})
            else: st.add("constant_true")
        else:
            rest.append(ob)
    # -- quick look at this sample
    pending = []
    for ob in rest:
        pending.append(ob)
    tn = time.time()
    norm = run_normal(keep, work, o) if pending else {}
    st.add("normaliser_s", time.time() - tn)
    zero = []; smt = []
    for ob in pending:
        r = norm.get(ob.idx)
        if r is not None and r["status"] == "zero":
            zero.append(ob)
        elif ob.kind != "ge" and r is not None and r["status"] == "poly" and len(r["monos"]) == r["n"] and r["denLo"] > 0 and r["mag"] <= max(ob.tol, 1e-12) * r["denLo"] * 1e3 and r["mag"] <= ob.tol * r["denLo"]:
            smt.append((ob, r, True))
        else:
            smt.append((ob, r, False))
    # residual identically zero: one batch query over the residual terms
    if zero:
        z = [z3.RealVal(0) > enc.const(max(ob.tol, 0)) for ob in zero]
        r, _ = check([z3.Or(*z)], 60000, st, "residual")
        if r != "unsat":
            raise EngineError("residual query: " + r)
        st.add("discharged_normalised", len(zero))
        if res["samples"] == [] and zero:
            res["samples"].append({"obligation": zero[0].name, "how": "normal form of the difference is 0", "inputs": len(p.vars)})
    # raw cross-check without the normaliser
    traw = time.time()
    order = sorted(zero, key=lambda ob: len(p.cone([ob.a, ob.b]))) if len(zero) < 3000 else zero[:200]
    for ob in order:
        if time.time() - traw > o.raw_budget_s:
            break
        if p.sample(ob.a) == 0 and ob.a.id is None:
            pass
        x, y = enc.ref(ob.a), enc.ref(ob.b)
        r, _ = check([x != y] + enc.axioms([ob.a, ob.b]), o.raw_timeout_ms, st, "raw")
        if r == "unsat": st.add("discharged_raw_crosscheck")
    # LRA over bounded monomials
    rounding = [t for t in smt if t[2]]
    for ob, r, _ in rounding:
        cs = []; terms = []
        for i, (c, lo, hi, _m) in enumerate(r["monos"]):
            v = z3.Real(f"m{i}"); terms.append(z3.Q(Fraction(c).numerator, Fraction(c).denominator) * v)
            if math.isfinite(lo): cs.append(v >= enc.const(lo))
            if math.isfinite(hi): cs.append(v <= enc.const(hi))
        tot = z3.Sum(terms)
        lim = enc.const(ob.tol * r["denLo"])
        q, _ = check(cs + [z3.Or(tot > lim, tot < -lim)], 4000, st, "bounded_residual")
        if q == "unsat": st.add("discharged_bounded_residual")
        else: res["undecided"].append(ob.name)
    hard = [t for t in smt if not t[2]]
    # numeric candidates for everything the normaliser could not settle
    if hard:
        K = o.rand_points
        rng = np.random.RandomState(int(os.environ.get("VERIF_SEED", "1")) & 0x7fffffff)
        pts = np.zeros((len(p.vars), K))
        for i, (vid, name, lo, hi, s) in enumerate(p.vars):
            l = max(lo, -3.0) if not math.isfinite(lo) else lo; h = min(hi, 3.0) if not math.isfinite(hi) else hi
            if vid is None: pts[i] = s; continue
            pts[i] = l + (h - l) * rng.rand(K)
            half = K // 2
            w = 0.15 * (h - l)
            pts[i, :half] = np.clip(s + w * (2 * rng.rand(half) - 1), lo, hi)
            pts[i, 0] = s
        get = p.evaluate(pts)
        arr = lambda r: np.broadcast_to(np.asarray(get(r), dtype=float), (K,))
        good = np.ones(K, bool)
        for (s_, a, b) in p.assumes:
            good &= (arr(a) > arr(b)) if s_ else (arr(a) >= arr(b))
        onpath = good.copy()
        for a in p.atoms:
            d = arr(a[0]) - arr(a[1]); onpath &= (((d < 0) * 1 + (d == 0) * 2 + (d > 0) * 4) & a[2]) != 0
        if any(a[2] == 2 for a in p.atoms): onpath[0] = good[0]
    PC = None
    tob = time.time()
    for ob, r, _ in hard:
        a, b = arr(ob.a), arr(ob.b)
        with np.errstate(all="ignore"):
            if ob.kind == "ge": d = b - a - ob.tol
            else: d = np.abs(a - b) - ob.tol - 1e-7 * (1 + np.abs(a) + np.abs(b))
        d = np.where(onpath & np.isfinite(d), d, -1.0)
        decided = False; cand = None
        k = int(np.argmax(d))
        if d[k] > 0:
            cand = pts[:, k]
        # 1. ask the solver about the exact condition
        if time.time() - tob < o.obl_budget_s:
            if PC is None:
                refs = cons_refs(p.atoms)
                PC = bnd + enc.assumptions() + [enc.atom(x) for x in p.atoms]
                PCrefs = refs
            x, y = enc.ref(ob.a), enc.ref(ob.b)
            tol = enc.const(ob.tol)
            if ob.kind == "ge": bad = [x < y - tol]
            else: bad = [z3.Or(x - y > tol, y - x > tol)]
            fixed = []
            if cand is not None:
                # the candidate, as a solver query on the raw encoding: inputs fixed, sat expected
                fixed = [enc.zvars[vid] == enc.const(float(cand[i])) for i, (vid, *_r) in enumerate(p.vars) if vid is not None]
            q, m = check(PC + bad + fixed + enc.axioms(PCrefs + [ob.a, ob.b]), o.smt_timeout_ms if cand is None else 1500, st, "property" if cand is None else "witness", svars)
            if q == "unsat" and cand is None:
                st.add("discharged_smt"); decided = True
                if len(res["samples"]) < 3: res["samples"].append({"obligation": ob.name, "how": "path condition and negation unsat"})
            elif q == "sat" and m is not None:
                full = dict(ins); full.update(m)
                ok, text = replay(exe, full, p, o, ob, work)
                if ok:
                    res["violations"].append({"obligation": ob.name, "kind": ob.kind, "inputs": full, "text": text}); decided = True
                elif cand is None:
                    res["log"].append(f"model of '{ob.name}' not confirmed: {text}")
        if not decided and cand is not None:
            full = dict(ins)
            for i, (vid, name, *_r) in enumerate(p.vars):
                full[name] = float(cand[i])
            ok, text = replay(exe, full, p, o, ob, work)
            if ok:
                res["violations"].append({"obligation": ob.name, "kind": ob.kind, "inputs": full, "text": text}); decided = True
        if not decided:
            res["undecided"].append(ob.name)
        if len(res["violations"]) > 12:
            break
    _branch(p, enc, bnd, svars, o, st, res, tb)

def witness_search(p, alts, o):
    """Points that leave the path at the given decisions, looked for around the current sample (only saves solver calls)."""
    if not alts or not p.vars:
        return {}
    refs = [r for (_s, a, b) in p.assumes for r in (a, b)] + [r for a in p.atoms for r in (a[0], a[1])]
    cone = p.cone(refs)
    K = 3000
    if len(cone) * K > 3e7: return {}
    rng = np.random.default_rng(7)
    cur = np.array([v[4] for v in p.vars], dtype=float)
    lo = np.array([v[2] for v in p.vars]); hi = np.array([v[3] for v in p.vars])
    lo = np.where(np.isfinite(lo), lo, cur - 10); hi = np.where(np.isfinite(hi), hi, cur + 10)
    n = len(cur)
    pts = np.repeat(cur[:, None], K, axis=1)
    new = lo[:, None] + (hi - lo)[:, None] * np.round(rng.random((n, K)) * 4096) / 4096
    prob = np.minimum(1.0, np.array([1.5 / n, 4.0 / n, 0.3, 1.0])[np.arange(K) % 4])
    pts = np.where(rng.random((n, K)) < prob, new, pts)
    q = object.__new__(Path); q.vars = p.vars; q.nodes = {i: p.nodes[i] for i in cone if i in p.nodes}
    get = q.evaluate(pts)
    arr = lambda r: np.broadcast_to(np.asarray(get(r), dtype=float), (K,))
    ok = np.ones(K, bool)
    for (s_, a, b) in p.assumes:
        ok &= (arr(a) > arr(b)) if s_ else (arr(a) >= arr(b))
    out = {}
    want = {}
    for i, r in alts: want.setdefault(i, []).append(r)
    with np.errstate(all="ignore"):
        for i, a in enumerate(p.atoms):
            x, y = arr(a[0]), arr(a[1])
            # keep a margin: the point has to take the same branch when executed
            eps = 1e-9 * (1 + np.abs(x) + np.abs(y))
            sg = np.where(x < y - eps, 1, np.where(x > y + eps, 4, 0))
            for r in want.get(i, []):
                c = np.flatnonzero(ok & ((sg & r) != 0))
                if len(c): out[(i, r)] = {p.vars[j][1]: float(pts[j, c[0]]) for j in range(n)}
            ok = ok & ((sg & a[2]) != 0)
            if not ok.any(): break
    return out

def _branch(p, enc, bnd, svars, o, st, res, tb):
    """Solve the alternatives of this path (the driver filters those already visited, so this is done lazily by solve_alts)."""
    out = []
    if not o.explore:
        res["alts"] = [a for a in res["alts"] if a[0] == "assume"]
        return
    seen = _SEEN
    A = enc.assumptions()
    arefs = [r for (_s, a, b) in p.assumes for r in (a, b)]
    t0 = time.time()
    pre = []
    s = None
    hit = witness_search(p, [(k[2], k[3]) for k in res["alts"] if k[0] == "branch" and k[1] not in seen], o)
    for kind in list(res["alts"]):
        if kind[0] != "branch":
            out.append(kind); continue
        _, h, i, r = kind
        if h in seen:
            continue
        if (i, r) in hit: # a point of that branch is at hand: no query needed
            st.add("branches_by_witness"); out.append(("new", h, hit[(i, r)])); continue
        if time.time() - t0 > o.branch_budget_s:
            st.add("branches_unexplored"); continue
        atoms = p.atoms[:i]
        refs = list(arefs)
        for a in atoms: refs += [a[0], a[1]]
        refs += [p.atoms[i][0], p.atoms[i][1]]
        q, m = check(bnd + A + [enc.atom(a) for a in atoms] + [enc.atom(p.atoms[i], r)] + enc.axioms(refs), o.branch_timeout_ms, st, "branch", svars)
        if q == "unsat": st.add("branches_infeasible"); out.append(("closed", h))
        elif q == "sat": out.append(("new", h, m))
        else: st.add("branches_unknown")
    res["alts"] = out

_SEEN = set()

# ---- exploration ---------------------------------------------------------------------------------------------------------------------
def explore(exe, o, init=None, label=""):
    """Explores one harness: all choose() values, all paths."""
    total = Stats(); violations = []; undecided = []; samples = []; reached = set(); logs = []
    t0 = time.time()
    queue = [(dict(init or {}), "init")]
    visited = set(); full = set(); choices_seen = set()
    queued_choices = set()
    paths = 0; outside = 0
    complete = True
    errors = []
    inflight = {}
    global _SEEN
    with ThreadPoolExecutor(o.workers) as ex:
        pool = _procpool(o.workers)
        def submit(item):
            inputs, why = item
            return pool.submit(analyse_path_seen, (exe, inputs, None, o, label, 0), list(visited) if len(visited) < 20000 else [])
        while queue or inflight:
            while queue and len(inflight) < o.workers and paths + len(inflight) < o.max_paths and time.time() - t0 < o.time_budget_s:
                it = queue.pop(0)
                inflight[submit(it)] = it
            if not inflight:
                break
            dn, _ = wait(list(inflight), return_when=FIRST_COMPLETED)
            for fu in dn:
                it = inflight.pop(fu)
                r = fu.result()
                total.merge(r["stats"])
                logs += r["log"]
                if "error" in r:
                    errors.append(r["error"]); continue
                violations += r["violations"]
                if r.get("outside"):
                    outside += 1
                ch = r.get("choices", [])
                # fork over choices: every prefix, every other value
                for i, (n, v, cnt) in enumerate(ch):
                    for w in range(cnt):
                        if w == v: continue
                        key = tuple((c[0], c[1]) for c in ch[:i]) + ((n, w),)
                        if key in queued_choices: continue
                        queued_choices.add(key)
                        d = dict(init or {})
                        for c in ch[:i]: d[c[0]] = c[1]
                        d[n] = w
                        queue.append((d, "choice"))
                for i in range(len(ch)):
                    queued_choices.add(tuple((c[0], c[1]) for c in ch[:i + 1]))
                kf = r.get("keyfull")
                new = kf is None or kf not in full
                if kf is not None: full.add(kf)
                for h in r.get("prefixes", []): visited.add(h)
                if new:
                    paths += 1
                    undecided += r["undecided"]
                    samples += r["samples"]
                    for x in r["reached"] if r.get("reached") else []: reached.add(x)
                else:
                    total.add("paths_repeated")
                for a in r["alts"]:
                    if a[0] == "assume":
                        d = dict(a[1])
                        for c in ch: d[c[0]] = c[1]
                        if it[1] == "assume": complete = False; continue
                        queue.append((d, "assume"))
                    elif a[0] == "new":
                        if a[1] in visited: continue
                        visited.add(a[1])
                        d = dict(a[2])
                        for c in ch: d[c[0]] = c[1]
                        queue.append((d, "branch"))
                    elif a[0] == "closed":
                        visited.add(a[1])
            if errors: break
    if queue: complete = False
    if total.get("branches_unknown") or total.get("branches_unexplored"): complete = False
    total["paths"] = paths; total["outside_paths"] = outside
    total["wall_s"] = time.time() - t0
    total["unexplored_queue"] = len(queue)
    return {"stats": total, "violations": violations, "undecided": undecided, "samples": samples[:6], "reached": sorted(reached), "complete": complete, "errors": errors, "logs": logs[:20]}

_POOL = None
def _procpool(n):
    global _POOL
    if _POOL is None:
        _POOL = ProcessPoolExecutor(n, mp_context=mp.get_context("fork"))
    return _POOL

def analyse_path_seen(args, seen):
    global _SEEN
    _SEEN = set(seen)
    return analyse_path(args)
