"""Dump of one symbolic path: term DAG, path condition, obligations; numeric evaluation and SMT encoding."""
import math
from fractions import Fraction
import numpy as np
import z3

def fr(h):
    f = float.fromhex(h)
    return Fraction(f)

class Ref:
    __slots__ = ("c", "id", "neg")
    def __init__(self, t):
        if t[0] == "c":
            self.c = float.fromhex(t[1:]); self.id = None; self.neg = False
        else:
            self.c = None
            self.neg = t[0] == "-"
            self.id = int(t[1:] if self.neg else t)

class Obl:
    __slots__ = ("idx", "kind", "natoms", "a", "b", "tol", "f", "v", "name", "holds")

class Path:
    def __init__(self, file):
        self.vars = []          # (id, name, lo, hi, sample)
        self.varIndex = {}
        self.nodes = {}         # id -> (op, Ref, Ref|None, sample)
        self.atoms = []         # (Ref, Ref, mask, rawkey, other outcomes, split): mask of 1 {<}, 2 {=}, 4 {>}
        self.assumes = []       # (strict, Ref, Ref)
        self.denoms = []
        self.choices = []       # (name, value, n)
        self.obls = []
        self.obs = []
        self.reached = []
        self.threw = None
        self.outside = None
        self.stat = (0, 0, 0)
        self.complete = False
        with open(file, errors="replace") as f:
            for line in f:
                p = line.split()
                if not p:
                    continue
                k = p[0]
                if k == "n":
                    two = len(p) == 6
                    self.nodes[int(p[1])] = (p[2], Ref(p[3]), Ref(p[4]) if two else None, float.fromhex(p[-1]))
                elif k == "var":
                    if p[1][0] == "c":
                        self.vars.append((None, p[4], float.fromhex(p[2]), float.fromhex(p[3]), float.fromhex(p[5])))
                    else:
                        self.varIndex[int(p[1])] = len(self.vars)
                        self.vars.append((int(p[1]), p[4], float.fromhex(p[2]), float.fromhex(p[3]), float.fromhex(p[5])))
                elif k == "obl":
                    o = Obl(); o.idx = len(self.obls); o.kind = p[1]; o.natoms = int(p[2]); o.name = line.split(" | ", 1)[1].strip()
                    o.a = o.b = o.tol = o.f = o.v = None; o.holds = None
                    if o.kind == "fact":
                        o.holds = p[3] == "1"
                    else:
                        o.a, o.b, o.tol = Ref(p[3]), Ref(p[4]), float.fromhex(p[5])
                        if o.kind == "deriv":
                            o.f, o.v = p[6], p[7]
                    self.obls.append(o)
                elif k == "atom":
                    self.atoms.append((Ref(p[1]), Ref(p[2]), int(p[3]), (p[1], p[2]), int(p[4]), p[5] == "1"))
                elif k == "assume":
                    self.assumes.append((p[1] == "gt", Ref(p[2]), Ref(p[3])))
                elif k == "denom":
                    self.denoms.append(Ref(p[1]))
                elif k == "choice":
                    self.choices.append((p[1], int(p[2]), int(p[3])))
                elif k == "obs":
                    self.obs.append((line.split(" | ", 1)[1].strip(), Ref(p[1])))
                elif k == "reach":
                    self.reached.append(line[6:].strip())
                elif k == "threw":
                    self.threw = line[6:].strip()
                elif k == "outside":
                    self.outside = line[8:].strip()
                elif k == "stat":
                    self.stat = tuple(int(x) for x in p[1:4])
                elif k == "end":
                    self.complete = True

    # -- numeric -----------------------------------------------------------------------------------------------------------
    def sample(self, r):
        if r.c is not None:
            return r.c
        v = self.vars[self.varIndex[r.id]][4] if r.id in self.varIndex else self.nodes[r.id][3]
        return -v if r.neg else v

    def evaluate(self, pts):
        """pts: array (nvars, K). Returns dict id -> array."""
        val = {}
        for i, (vid, *_r) in enumerate(self.vars):
            if vid is not None:
                val[vid] = pts[i]
        def get(r):
            if r.c is not None:
                return r.c
            v = val[r.id]
            return -v if r.neg else v
        with np.errstate(all="ignore"):
            for i in sorted(self.nodes):
                op, a, b, _ = self.nodes[i]
                x = get(a)
                if op == "add": v = x + get(b)
                elif op == "mul": v = x * get(b)
                elif op == "div": v = x / get(b)
                elif op == "sqrt": v = np.sqrt(x)
                elif op == "atan2": v = np.arctan2(x, get(b))
                elif op == "pow": v = np.power(x, get(b))
                else: v = {"sin": np.sin, "cos": np.cos, "tanh": np.tanh, "cosh": np.cosh, "sinh": np.sinh, "exp": np.exp, "log": np.log,
                           "asin": np.arcsin, "acos": np.arccos, "tan": np.tan}[op](x)
                val[i] = v
        return get

    def cone(self, refs):
        seen = set(); st = [r.id for r in refs if r is not None and r.id is not None]
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            if i in self.nodes:
                _, a, b, _ = self.nodes[i]
                for r in (a, b):
                    if r is not None and r.id is not None and r.id not in seen:
                        st.append(r.id)
        return seen

class Encoder:
    """Raw (un-normalised) SMT encoding of the terms of a path over the reals; functions are variables constrained by their axioms."""
    def __init__(self, path, ctx=None):
        self.p = path
        self.e = {}
        self.ax = {}            # node id -> list of axioms
        self.fun = {}           # op -> [(arg expr, value expr)]
        self.zvars = {}
        for (vid, name, lo, hi, s) in path.vars:
            if vid is not None:
                self.zvars[vid] = z3.Real(name)
                self.e[vid] = self.zvars[vid]

    def const(self, c):
        f = Fraction(c)
        return z3.Q(f.numerator, f.denominator)

    def ref(self, r):
        if r.c is not None:
            return self.const(r.c)
        self.build(r.id)
        x = self.e[r.id]
        return -x if r.neg else x

    def build(self, root):
        st = [root]
        while st:
            i = st[-1]
            if i in self.e:
                st.pop(); continue
            op, a, b, _ = self.p.nodes[i]
            miss = [r.id for r in (a, b) if r is not None and r.id is not None and r.id not in self.e]
            if miss:
                st.extend(miss); continue
            st.pop()
            g = lambda r: self.const(r.c) if r.c is not None else (-self.e[r.id] if r.neg else self.e[r.id])
            x = g(a)
            if op == "add": self.e[i] = x + g(b)
            elif op == "mul": self.e[i] = x * g(b)
            elif op == "div":
                d = g(b)
                if b.c is not None:
                    self.e[i] = x / d
                else:
                    q = z3.Real(f"q{i}"); self.e[i] = q; self.ax[i] = [q * d == x, d != 0]
            elif op == "sqrt":
                r = z3.Real(f"sqrt{i}"); self.e[i] = r; self.ax[i] = [r * r == x, r >= 0]
            else:
                self.funnode(i, op, x, g(b) if b is not None else None)

    def funnode(self, i, op, x, y):
        lst = self.fun.setdefault(op, [])
        r = z3.Real(f"{op}{i}")
        self.e[i] = r
        ax = []
        if op in ("sin", "cos"):
            ax += [r >= -1, r <= 1]
            other = self.fun.get("cos" if op == "sin" else "sin", [])
            for (x2, r2) in other:
                if x2.eq(x):
                    ax.append(r * r + r2 * r2 == 1)
            if op == "sin": ax.append(z3.Implies(x == 0, r == 0))
            else: ax.append(z3.Implies(x == 0, r == 1))
        elif op == "tanh":
            ax += [r > -1, r < 1, z3.Implies(x == 0, r == 0), z3.Implies(x > 0, z3.And(r > 0, r < x)), z3.Implies(x < 0, z3.And(r < 0, r > x))]
        elif op == "cosh":
            ax += [r >= 1, z3.Implies(x == 0, r == 1), z3.Implies(x != 0, r > 1)]
            for (x2, r2) in self.fun.get("sinh", []):
                if x2.eq(x): ax.append(r * r == r2 * r2 + 1)
        elif op == "sinh":
            ax += [z3.Implies(x == 0, r == 0), z3.Implies(x > 0, r > x), z3.Implies(x < 0, r < x)]
            for (x2, r2) in self.fun.get("cosh", []):
                if x2.eq(x): ax.append(r2 * r2 == r * r + 1)
        elif op == "exp":
            ax += [r > 0, z3.Implies(x == 0, r == 1), r >= 1 + x]
        elif op == "atan2":
            ax += [r >= z3.Q(-314159265358980, 10**14), r <= z3.Q(314159265358980, 10**14)]
        elif op in ("asin",):
            ax += [r >= z3.Q(-15707963267949, 10**13), r <= z3.Q(15707963267949, 10**13)]
        elif op in ("acos",):
            ax += [r >= 0, r <= z3.Q(31415926535898, 10**13)]
        for t in lst:
            if y is None:
                x2, r2 = t
                if op in ("tanh", "exp", "sinh", "log", "asin"):
                    ax.append(z3.And(z3.Implies(x < x2, r < r2), z3.Implies(x > x2, r > r2)))
                ax.append(z3.Implies(x == x2, r == r2))
            else:
                x2, y2, r2 = t
                ax.append(z3.Implies(z3.And(x == x2, y == y2), r == r2))
        lst.append((x, r) if y is None else (x, y, r))
        self.ax[i] = ax

    def axioms(self, refs):
        out = []
        for i in self.p.cone(refs):
            out += self.ax.get(i, [])
        return out

    def bounds(self):
        out = []
        for (vid, name, lo, hi, s) in self.p.vars:
            if vid is not None:
                x = self.zvars[vid]
                if math.isfinite(lo): out.append(x >= self.const(lo))
                if math.isfinite(hi): out.append(x <= self.const(hi))
        return out

    def atom(self, a, r=None):
        x, y = self.ref(a[0]), self.ref(a[1])
        m = a[2] if r is None else r
        return {1: lambda: x < y, 2: lambda: x == y, 3: lambda: x <= y, 4: lambda: x > y, 5: lambda: x != y, 6: lambda: x >= y}[m]()

    def assumptions(self):
        return [(self.ref(a) > self.ref(b)) if s else (self.ref(a) >= self.ref(b)) for (s, a, b) in self.p.assumes]
