"""Value-number evaluation of value graphs.

Two interpretations of a graph are computed side by side, vectorised over representative points:

* `f`  - IEEE doubles, used only to decide which arm of a gated value a representative point selects;
* `vn` - elements of two prime fields (random interpretation, Gulwani & Necula): inputs are random
         field elements, constants are the exact rationals the doubles denote, + - * / and integer
         powers are field operations, every other operator is uninterpreted (a hash of the operator
         and its operands' value numbers).  Equal value numbers of two expressions mean equality as
         rational functions over the uninterpreted terms, whatever the order or grouping of the
         operations (error probability about degree/2^62).
"""
import math
from fractions import Fraction
import numpy as np
import dag
from dag import Node

PR = np.array([[2147483647], [2147483587]], dtype=np.uint64)
PRI = [2147483647, 2147483587]
M64 = (1 << 64) - 1


def _mix(x):
    x &= M64
    x ^= x >> 30
    x = x * 0xbf58476d1ce4e5b9 & M64
    x ^= x >> 27
    x = x * 0x94d049bb133111eb & M64
    return x ^ (x >> 31)


def _hs(s):
    h = 0xcbf29ce484222325
    for ch in s.encode():
        h = ((h ^ ch) * 0x100000001b3) & M64
    return _mix(h)


def nmix(x):
    x = x ^ (x >> np.uint64(30))
    x = x * np.uint64(0xbf58476d1ce4e5b9)
    x = x ^ (x >> np.uint64(27))
    x = x * np.uint64(0x94d049bb133111eb)
    return x ^ (x >> np.uint64(31))


def fmul(a, b):
    return a * b % PR


def fpow(a, k):
    if k < 0:
        a = finv(a)
        k = -k
    r = None
    while k:
        if k & 1:
            r = a if r is None else fmul(r, a)
        k >>= 1
        if k:
            a = fmul(a, a)
    return np.ones_like(a) if r is None else r


def finv(a):
    # exponent p-2 differs per row
    out = np.empty_like(a)
    for i in range(2):
        p = np.uint64(PRI[i])
        e = PRI[i] - 2
        x = a[i]
        r = None
        while e:
            if e & 1:
                r = x if r is None else r * x % p
            e >>= 1
            if e:
                x = x * x % p
        out[i] = r
    return out


def fsqrt(a):
    """x -> x^((p+1)/4): multiplicative, and a square root up to sign (both primes are 3 mod 4)"""
    out = np.empty_like(a)
    for i in range(2):
        p = np.uint64(PRI[i])
        e = (PRI[i] + 1) // 4
        x = a[i]
        r = None
        while e:
            if e & 1:
                r = x if r is None else r * x % p
            e >>= 1
            if e:
                x = x * x % p
        out[i] = r
    return out


_cv = {}


def constvn(n):
    v = _cv.get(n.id)
    if v is None:
        x = n.f
        if math.isfinite(x):
            fr = dag.getrat(n)     # the decimal the literal was written as
            v = np.array([[fr.numerator * pow(fr.denominator, -1, p) % p] for p in PRI], dtype=np.uint64)
        else:
            h = _hs("const%r" % x)
            v = np.array([[h % p] for p in PRI], dtype=np.uint64)
        _cv[n.id] = v
    return v


_topo = {}


def topo(roots, stop=()):
    """children before parents"""
    key = tuple(r.id for r in roots if r.__class__ is Node)
    out = _topo.get(key)
    if out is None:
        if len(_topo) > 12:
            _topo.pop(next(iter(_topo)))
        out = _topo[key] = _topo_of(roots)
    return out


def _topo_of(roots):
    seen = set()
    out = []
    for r in roots:
        if r.__class__ is not Node or r.id in seen:
            continue
        st = [(r, 0)]
        seen.add(r.id)
        while st:
            n, i = st.pop()
            a = n.args if n.op != "sym" and n.op != "mu" and n.op != "c" else ()
            while i < len(a):
                c = a[i]
                i += 1
                if c.__class__ is Node and c.id not in seen:
                    seen.add(c.id)
                    st.append((n, i))
                    st.append((c, 0))
                    break
            else:
                out.append(n)
    return out


BOOL = dag.BOOL_OPS
UNF = {"exp": np.exp, "ln": np.log, "sqrt": np.sqrt, "log10": np.log10, "log2": np.log2, "cbrt": np.cbrt, "exp2": np.exp2,
       "exp_m1": np.expm1, "ln_1p": np.log1p, "sin": np.sin, "cos": np.cos, "tan": np.tan, "sinh": np.sinh, "cosh": np.cosh,
       "tanh": np.tanh, "floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "round": np.round, "atan": np.arctan,
       "asin": np.arcsin, "acos": np.arccos, "signum": np.sign}


PLAIN = {Node, int, float, str, bool}


class Eval:
    def __init__(self, n, values, seed=1, vn=True):
        """values: {Node(sym/mu): float array or scalar}; n points"""
        self.n = n
        self.vn = vn
        self.seed = seed
        self.F = {}
        self.V = {}
        self.U = {}          # node id -> bool array: value rests on an undecided condition
        self.values = {k.id: np.broadcast_to(np.asarray(v, dtype=float), (n,)) for k, v in values.items()}

    def symvn(self, node):
        h = _hs(repr((node.op,) + tuple(a if a.__class__ is not Node else a.id for a in node.args)) + "#%d" % self.seed)
        r = np.random.Generator(np.random.PCG64(h))
        return np.stack([r.integers(1, p, self.n, dtype=np.uint64) for p in PRI])

    def hashvn(self, op, vs):
        h = np.full(self.n, np.uint64(_hs(op)), dtype=np.uint64)
        with np.errstate(over="ignore"):
            for v in vs:
                if v.__class__ is int:
                    h = nmix(h ^ np.uint64(v & M64))
                    continue
                w = v[0] * np.uint64(0x1f35b8a7c3d1) + v[1]
                h = nmix(h * np.uint64(0x9e3779b97f4a7c15) + w)
            g = nmix(h ^ np.uint64(0xabcdef1234567))
        return np.stack([h % np.uint64(PRI[0]), g % np.uint64(PRI[1])])

    def run(self, roots):
        F, V, U = self.F, self.V, self.U
        n = self.n
        with np.errstate(all="ignore"):
            for x in topo(roots):
                i = x.id
                if i in F:
                    continue
                op = x.op
                a = x.args
                given = self.values.get(i)
                if given is not None:
                    F[i] = given
                    if self.vn:
                        V[i] = self.symvn(x)
                    continue
                if op == "c":
                    F[i] = np.full(n, x.f) if False else np.float64(x.f)
                    if self.vn:
                        V[i] = constvn(x)
                    continue
                if op == "sym" or op == "mu":
                    F[i] = np.full(n, np.nan)
                    U[i] = True
                    if self.vn:
                        V[i] = self.symvn(x)
                    continue
                u = None
                for c in a:
                    if c.__class__ is Node:
                        w = U.get(c.id)
                        if w is not None:
                            u = w if u is None else (u | w)
                if op == "ite":
                    self._ite(x, i, a)
                    continue
                if any(c.__class__ not in PLAIN for c in a):
                    # a value outside the language of the graphs: not decided
                    F[i] = np.full(n, np.nan)
                    U[i] = True
                    if self.vn:
                        V[i] = self.symvn(x)
                    continue
                fa = [F[c.id] if c.__class__ is Node else (float(c) if c.__class__ is not str else math.nan) for c in a]
                va = [V.get(c.id) if c.__class__ is Node else c for c in a] if self.vn else None
                self._op(x, i, op, a, fa, va)
                if u is not None:
                    U[i] = u
        return self

    def _ite(self, x, i, a):
        F, V, U = self.F, self.V, self.U
        c = F[a[0].id]
        uc = U.get(a[0].id)
        ft = F[a[1].id] if a[1].__class__ is Node else float(a[1]) if a[1].__class__ in PLAIN else math.nan
        fe = F[a[2].id] if a[2].__class__ is Node else float(a[2]) if a[2].__class__ in PLAIN else math.nan
        cb = c > 0.5
        F[i] = np.where(cb, ft, fe)
        ut = U.get(a[1].id) if a[1].__class__ is Node else None if a[1].__class__ in PLAIN else True
        ue = U.get(a[2].id) if a[2].__class__ is Node else None if a[2].__class__ in PLAIN else True
        u = None
        if ut is not None or ue is not None:
            u = np.where(cb, False if ut is None else ut, False if ue is None else ue)
        if self.vn:
            vt, ve = self.val(a[1]), self.val(a[2])
            if vt is None or ve is None:
                V[i] = None
                if vt is None and ve is None:
                    pass
            else:
                V[i] = np.where(cb[None, :] if cb.ndim else cb, vt, ve)
                if V[i].shape[1] != self.n:
                    V[i] = np.broadcast_to(V[i], (2, self.n))
        if uc is not None:
            if self.vn and V.get(i) is not None:
                d = (self.val(a[1]) != self.val(a[2])).any(axis=0) & uc
            else:
                d = np.broadcast_to(np.asarray(uc), (self.n,))
            if np.any(d):
                u = d if u is None else (u | d)
        if u is not None:
            if u.__class__ is bool:
                u = np.full(self.n, u)
            if np.any(u):
                U[i] = u

    def val(self, c):
        if c.__class__ is Node:
            return self.V.get(c.id)
        if c.__class__ not in PLAIN:
            return None
        return np.array([[c % p] for p in PRI], dtype=np.uint64)

    def _op(self, x, i, op, a, fa, va):
        F, V = self.F, self.V
        vn = self.vn and op not in BOOL
        if vn and any(v is None for v in va):
            vn = False
            V[i] = None
        if op in ("add", "sub", "mul", "div"):
            p, q = fa
            if op == "add":
                F[i] = p + q
                if vn: V[i] = (va[0] + va[1]) % PR
            elif op == "sub":
                F[i] = p - q
                if vn: V[i] = (va[0] + (PR - va[1])) % PR
            elif op == "mul":
                F[i] = p * q
                if vn: V[i] = va[0] * va[1] % PR
            else:
                F[i] = np.divide(p, q)
                if vn: V[i] = va[0] * self.inv(a[1]) % PR
        elif op == "powi":
            k = a[1]
            if k.__class__ is int:
                F[i] = np.power(fa[0], float(k))
                if vn:
                    if k < 0:
                        V[i] = fpow(self.inv(a[0]), -k)
                    else:
                        V[i] = fpow(V[a[0].id], k)
            else:
                F[i] = np.power(fa[0], fa[1])
                if vn: V[i] = self.hashvn("powf", va)
        elif op == "neg":
            F[i] = -fa[0]
            if vn: V[i] = (PR - va[0]) % PR
        elif op == "abs":
            F[i] = np.abs(fa[0])
            if vn: V[i] = np.where(np.asarray(fa[0] < 0), (PR - va[0]) % PR, va[0])
        elif op in ("min", "max"):
            f = np.fmin if op == "min" else np.fmax
            F[i] = f(fa[0], fa[1])
            if vn: V[i] = np.where(np.asarray((fa[0] == F[i]) | np.isnan(fa[1])), va[0], va[1])
        elif op == "powf":
            F[i] = np.power(fa[0], fa[1])
            if vn:
                k = a[1]
                if k.__class__ is Node and k.op == "c" and float(k.f).is_integer() and abs(k.f) < 4096:
                    V[i] = fpow(V[a[0].id], int(k.f)) if k.f >= 0 else fpow(self.inv(a[0]), -int(k.f))
                elif k.__class__ is Node and k.op == "c" and float(2 * k.f).is_integer() and abs(k.f) < 2048:
                    # x^(m+1/2) = x^m sqrt(x)
                    m = math.floor(k.f)
                    r = fsqrt(va[0])
                    b = fpow(V[a[0].id], m) if m >= 0 else fpow(self.inv(a[0]), -m)
                    V[i] = r * b % PR
                else:
                    V[i] = self.hashvn("powf", va)
        elif op == "lt":
            F[i] = np.asarray(fa[0] < fa[1], dtype=float)
        elif op == "le":
            F[i] = np.asarray(fa[0] <= fa[1], dtype=float)
        elif op in ("eq", "ieq"):
            F[i] = np.asarray(fa[0] == fa[1], dtype=float)
        elif op == "ilt":
            F[i] = np.asarray(fa[0] < fa[1], dtype=float)
        elif op == "ile":
            F[i] = np.asarray(fa[0] <= fa[1], dtype=float)
        elif op == "not":
            F[i] = 1.0 - fa[0]
        elif op == "and":
            F[i] = np.minimum(fa[0], fa[1])
        elif op == "or":
            F[i] = np.maximum(fa[0], fa[1])
        elif op == "xor":
            F[i] = np.abs(fa[0] - fa[1])
        elif op == "isnan":
            F[i] = np.asarray(np.isnan(fa[0]), dtype=float)
        elif op == "isfin":
            F[i] = np.asarray(np.isfinite(fa[0]), dtype=float)
        elif op == "isinf":
            F[i] = np.asarray(np.isinf(fa[0]), dtype=float)
        elif op == "sqrt":
            F[i] = np.sqrt(fa[0])
            if vn: V[i] = fsqrt(va[0])
        elif op in UNF:
            F[i] = UNF[op](fa[0])
            if vn: V[i] = self.hashvn(op, va)
        elif op == "rem":
            F[i] = np.fmod(fa[0], fa[1])
            if vn: V[i] = self.hashvn(op, va)
        elif op in ("hypot", "atan2", "copysign"):
            F[i] = {"hypot": np.hypot, "atan2": np.arctan2, "copysign": np.copysign}[op](fa[0], fa[1])
            if vn: V[i] = self.hashvn(op, va)
        elif op == "icast":
            m = 2.0 ** a[1]
            w = np.mod(np.asarray(fa[0], dtype=float), m)
            F[i] = np.where(w >= m / 2, w - m, w) if a[2] else w
            if vn: V[i] = self.hashvn("icast", va)
        elif op == "ftoi":
            m = 2.0 ** a[1]
            lo, hi = (-m / 2, m / 2 - 1) if a[2] else (0.0, m - 1)
            w = np.clip(np.trunc(np.asarray(fa[0], dtype=float)), lo, hi)
            F[i] = np.where(np.isnan(w), 0.0, w)
            if vn: V[i] = self.hashvn("ftoi", va)
        elif op == "ovf":
            m = 2.0 ** a[3]
            lo, hi = (-m / 2, m / 2 - 1) if a[4] else (0.0, m - 1)
            p, q = np.asarray(F[a[1].id] if a[1].__class__ is Node else float(a[1])), np.asarray(F[a[2].id] if a[2].__class__ is Node else float(a[2]))
            if a[0] in ("Add", "Sub", "Mul"):
                w = p + q if a[0] == "Add" else p - q if a[0] == "Sub" else p * q
                F[i] = np.asarray((w < lo) | (w > hi), dtype=float)
            else:
                F[i] = np.asarray((q < 0) | (q >= a[3]), dtype=float)
        elif op in ("i:Add", "i:Sub", "i:Mul"):
            p, q = np.asarray(fa[0], dtype=float), np.asarray(fa[1], dtype=float)
            F[i] = p + q if op == "i:Add" else p - q if op == "i:Sub" else p * q
            if vn: V[i] = self.hashvn(op, va)
        elif op in ("i:Div", "i:Rem"):
            p, q = np.asarray(fa[0], dtype=float), np.asarray(fa[1], dtype=float)
            t = np.trunc(np.divide(p, q))
            F[i] = t if op == "i:Div" else p - q * t
            if vn: V[i] = self.hashvn(op, va)
        elif op in ("i:BitAnd", "i:BitOr", "i:BitXor", "i:Shl", "i:Shr", "i:Not", "i:Neg"):
            w = [np.asarray(np.nan_to_num(np.clip(z, -2.0 ** 62, 2.0 ** 62)), dtype=np.int64) for z in fa]
            if op == "i:Not": z = ~w[0]
            elif op == "i:Neg": z = -w[0]
            elif op == "i:BitAnd": z = w[0] & w[1]
            elif op == "i:BitOr": z = w[0] | w[1]
            elif op == "i:BitXor": z = w[0] ^ w[1]
            elif op == "i:Shl": z = w[0] << np.clip(w[1], 0, 62)
            else: z = w[0] >> np.clip(w[1], 0, 62)
            F[i] = np.asarray(z, dtype=float)
            if vn: V[i] = self.hashvn(op, va)
        elif op in ("i2f", "itof"):
            F[i] = np.asarray(fa[0], dtype=float)
            if vn: V[i] = va[0] if va[0].__class__ is not int else self.val(a[0])
        else:
            F[i] = np.full(self.n, np.nan)
            self.U[i] = np.full(self.n, True)
            if self.vn:
                vs = [v if v is not None and not isinstance(v, str) else 0 for v in (va or [])]
                vs = [v if v.__class__ is int or isinstance(v, np.ndarray) else _hs(repr(v)) for v in vs]
                V[i] = self.hashvn(op, vs)

    def inv(self, b):
        k = ("inv", b.id)
        r = self.V.get(k)
        if r is None:
            r = self.V[k] = finv(self.V[b.id])
        return r

    # ------------------------------------------------ results
    def f(self, x):
        if x.__class__ is not Node:
            return np.full(self.n, float(x))
        return np.broadcast_to(self.F[x.id], (self.n,))

    def v(self, x):
        v = self.val(x)
        return None if v is None else np.broadcast_to(v, (2, self.n))

    def u(self, x):
        if x.__class__ is not Node:
            return np.zeros(self.n, bool)
        u = self.U.get(x.id)
        return np.zeros(self.n, bool) if u is None else np.broadcast_to(np.asarray(u), (self.n,))


def resolve(root, E, j):
    """the gate-free expression a representative point selects; a list of nodes in
    evaluation order with gates replaced by the selected alternative"""
    memo = {}

    def sel(x):
        while x.__class__ is Node and x.op == "ite":
            c = E.F[x.args[0].id]
            c = c if np.ndim(c) == 0 else c[j]
            x = x.args[1] if c > 0.5 else x.args[2]
        return x
    return sel
