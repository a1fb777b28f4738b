"""Abstract interpreter over monomorphised MIR.

Domain: value numbers (dag.Node) for floats, constants for integers where control is constant,
gated joins (ite) at the immediate post-dominator of every branch the analysis cannot decide,
and mu-symbols for the loop-carried values of loops whose exit it cannot decide.  No path is
enumerated beyond a join, nothing of the analysed crate is executed.
"""
import math
import re
import struct
import sys
import dag
from dag import Node, mk, const, fop, fpowi, fcmp, bnot, band, bor, ite
from mir import Agg, Ptr, Fn, Str, Opaque, UNIT, Unsupported, INTS

sys.setrecursionlimit(200000)

F64 = re.compile(r"(?:std|core)::f64::(?:math::)?(?:<impl f64>::)?(\w+)$")
MEM = re.compile(r"^(?:std|core)::(?:mem|ptr|slice::<impl \[.*\]>)::(swap|reverse)(?:::<.*>)?$")
INTNAME = {"usize": ("i", 64, False), "isize": ("i", 64, True)}
INTNAME.update({"%s%d" % (c, n): ("i", n, c == "i") for c in "iu" for n in (8, 16, 32, 64, 128)})
STR_EQ = re.compile(r"<impl std::cmp::PartialEq for str>::(eq|ne)$")
BLACK = re.compile(r"::black_box(?:::<.*>)?$")
SKIP = re.compile(r"precondition_check$|::cold_path$|assert_inhabited|assert_zero_valid|assert_mem_uninitialized_valid")
CLOSURE = re.compile(r"\{closure#\d+\}$")
DYNFN = re.compile(r"^<dyn (?:for<.*> )?std::ops::Fn.* as std::ops::Fn<.*>>::call$")
HEAP = Opaque("heap")   # memory from the allocator: disjoint from everything the analysis tracks, contents unknown
GROW = re.compile(r"grow|reserve|shrink|insert|push")
F_UN = {"exp": "exp", "ln": "ln", "sqrt": "sqrt", "abs": "abs", "floor": "floor", "ceil": "ceil", "trunc": "trunc",
        "fabs": "abs", "log": "ln", "log10": "log10", "log2": "log2", "cbrt": "cbrt", "exp2": "exp2", "exp_m1": "exp_m1",
        "ln_1p": "ln_1p", "sin": "sin", "cos": "cos", "tan": "tan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "round": "round",
        "signum": "signum", "atan": "atan", "asin": "asin", "acos": "acos", "fract": "fract"}
F_BIN = {"powf": "powf", "min": "min", "max": "max", "atan2": "atan2", "hypot": "hypot", "copysign": "copysign", "rem_euclid": "rem_euclid"}
NEG = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}
CMP = {"Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge", "Eq": "eq", "Ne": "ne"}


MISSING = object()


class SymLoop(Exception):
    def __init__(self, fid, header):
        self.fid = fid
        self.header = header


class Budget(Exception):
    pass


class Leaf:
    """a continuation that stopped at block bb with the given state and assumptions"""
    __slots__ = ("bb", "st", "pc")

    def __init__(self, bb, st, pc):
        self.bb = bb
        self.st = st
        self.pc = pc


class Br:
    """two continuations selected by cond (None: that side never comes back)"""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


def br(cond, a, b):
    if a is None:
        return b
    if b is None:
        return a
    return Br(cond, a, b)


def npaths(n):
    """number of ways through a gated value (saturating)"""
    memo = {}

    def go(x):
        if x.__class__ is not Node or x.op != "ite":
            return 1
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = min(go(x.args[1]) + go(x.args[2]), 1000)
        return r
    return go(n)


def leafblocks(t):
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if x.__class__ is Leaf:
            out.setdefault(x.bb, []).append(x)
        else:
            st.append(x.b)
            st.append(x.a)
    return out


def substitute(t, bb, new, memo=None):
    """replace the leaves at block bb"""
    memo = {} if memo is None else memo
    if t is None:
        return None
    r = memo.get(id(t), MISSING)
    if r is not MISSING:
        return r
    if t.__class__ is Leaf:
        r = new if t.bb == bb else t
    else:
        r = br(t.cond, substitute(t.a, bb, new, memo), substitute(t.b, bb, new, memo))
    memo[id(t)] = r
    return r


class Frame:
    __slots__ = ("id", "body", "symloops", "forks", "nested", "key")




def has_local_ptr(v):
    c = v.__class__
    if c is Ptr:
        return v.root[0] == "L"
    if c is Agg:
        for x in v.f:
            if has_local_ptr(x):
                return True
        return False
    if c is Node and v.op == "ite":
        seen, todo = {v.id}, [v]
        while todo:
            for a in todo.pop().args[1:]:
                if a.__class__ is Node:
                    if a.op == "ite" and a.id not in seen:
                        seen.add(a.id)
                        todo.append(a)
                elif has_local_ptr(a):
                    return True
    return False


class Interp:
    def __init__(self, prog, oracle=None, budget=60_000_000, track_edges=False):
        self.P = prog
        self.oracle = oracle
        self.memo = {}
        self.st = {}
        self.pc = {}
        self.nframe = 0
        self.nheap = 0
        self.pointed = {}
        self.steps = 0
        self.budget = budget
        self.oracle_used = 0
        self.loops = {}
        self.looplist = []
        self.recargs = {}
        self.pan = [[]]       # failing assertions and panics with their path conditions, per active call
        self.panics = {}      # (inst, block) -> dict(status, kind, span)
        self.calls_seen = {}
        self.notes = []
        self.track = None     # optional callback(inst, block, stmt span, node)
        self.onstore = None
        self.callstack = []
        self.fcall_override = {}   # inst -> function(interp, args) -> value

    # ------------------------------------------------------------ memory
    def load(self, ptr):
        """value behind a pointer"""
        if ptr.__class__ is Node and ptr.op == "ite":
            return self.lift(ptr, self.load)
        if ptr.__class__ is not Ptr:
            return Opaque("deref")
        if ptr.root[0] == "L":
            v = self.st.get(ptr.root, MISSING)
            if v is MISSING:
                return Opaque("uninit")
        elif ptr.root[0] == "S":
            v = self.P.static_value(ptr.root)
        else:
            return Opaque("deref")
        for k in ptr.path:
            v = self.proj(v, k)
        return v

    def proj(self, v, k):
        c = v.__class__
        if c is Agg:
            if k.__class__ is int:
                if 0 <= k < len(v.f):
                    return v.f[k]
                return Opaque("oob")
            # symbolic index
            return self.symindex(v, k)
        if c is Node:
            if v.op == "ite":
                v = self.restrict(v)
                if v.__class__ is not Node:
                    return self.proj(v, k)
                return self.lift(v, lambda x: self.proj(x, k))
            return v if k == 0 else Opaque("field of scalar")
        if c is Opaque:
            return v if v.tag == "heap" else Opaque(("f", v.tag, k))
        if k == 0:
            return v
        return Opaque("proj")

    def symindex(self, arr, k):
        if k.__class__ is Node and k.op == "ite":
            return self.lift(k, lambda x: self.proj(arr, x))
        f0 = arr.f[0] if arr.f else None
        if arr.f and all(x == f0 for x in arr.f):
            return f0
        if k.__class__ is Node and 0 < len(arr.f) <= 256:
            # the bounds are checked elsewhere
            r = arr.f[-1]
            for i in range(len(arr.f) - 2, -1, -1):
                r = self.merge(self.icmp("eq", k, i), arr.f[i], r)
            return r
        return mk("index", arr, k) if f0.__class__ is Node or f0.__class__ is int else Opaque(("index", arr, k))

    def update(self, v, path, new):
        if not path:
            return new
        k = path[0]
        if v.__class__ is Agg:
            if k.__class__ is int and 0 <= k < len(v.f):
                return Agg(v.v, v.f[:k] + (self.update(v.f[k], path[1:], new),) + v.f[k + 1:])
            if k.__class__ is int:
                fs = list(v.f) + [Opaque("uninit")] * (k + 1 - len(v.f))
                fs[k] = self.update(fs[k], path[1:], new)
                return Agg(v.v, tuple(fs))
            if k.__class__ is Node and len(v.f) <= 256:
                return Agg(v.v, tuple(self.merge(self.icmp("eq", k, i), self.update(x, path[1:], new), x) for i, x in enumerate(v.f)))
            return Opaque("symstore")
        if v.__class__ is Node and v.op == "ite":
            return self.lift(v, lambda x: self.update(x, path, new))
        if k.__class__ is int:
            fs = [Opaque("uninit")] * (k + 1)
            fs[k] = self.update(Opaque("uninit"), path[1:], new)
            return Agg(0, tuple(fs))
        return Opaque("store")

    def store(self, ptr, val):
        if ptr.__class__ is Node and ptr.op == "ite":
            c = ptr.args[0]
            for side, p in ((True, ptr.args[1]), (False, ptr.args[2])):
                old = self.load(p)
                self.store(p, self.merge(c, val, old) if side else self.merge(c, old, val))
            return
        if ptr == HEAP:
            return
        if ptr.__class__ is not Ptr or ptr.root[0] != "L":
            raise Unsupported("store through %s" % repr(ptr)[:60])
        if not ptr.path:
            self.st[ptr.root] = val
        else:
            self.st[ptr.root] = self.update(self.st.get(ptr.root, Opaque("uninit")), ptr.path, val)

    # ------------------------------------------------------------ merging
    def lift(self, v, f):
        """apply f to the alternatives of a gated value, sharing common alternatives"""
        memo = {}

        def go(x):
            if x.__class__ is not Node or x.op != "ite":
                return f(x)
            r = memo.get(x.id, MISSING)
            if r is MISSING:
                r = memo[x.id] = self.merge(x.args[0], go(x.args[1]), go(x.args[2]))
            return r
        return go(v)

    def merge(self, c, a, b):
        if a is b:
            return a
        if c.__class__ is int:
            return a if c else b
        ca, cb = a.__class__, b.__class__
        if ca is Agg and cb is Agg and a.v == b.v and len(a.f) == len(b.f):
            if a == b:
                return a
            return Agg(a.v, tuple(self.merge(c, x, y) for x, y in zip(a.f, b.f)))
        if ca is not Node and cb is not Node and a == b:
            return a
        if ca is Opaque and cb is Opaque and a.tag == "uninit":
            return b
        return ite(c, a, b)

    # ------------------------------------------------------------ conditions
    def decide(self, c, memo=None):
        """truth value of a condition under the current assumptions: 0, 1 or None"""
        if c.__class__ is int:
            return c
        if c.__class__ is not Node:
            return None
        op = c.op
        v = self.pc.get(c)
        if v is not None:
            return v
        if op in ("ite", "and", "or"):
            if memo is None:
                memo = {}
            v = memo.get(c.id, MISSING)
            if v is MISSING:
                v = memo[c.id] = self._decide_tree(c, op, memo)
            return v
        if op == "not":
            r = self.decide(c.args[0], memo)
            return None if r is None else 1 - r
        if op in ("lt", "le", "eq"):
            a, b = c.args
            a2, b2 = self.restrict(a), self.restrict(b)
            if a2 is not a or b2 is not b:
                return self.decide(self.fcmp(op, a2, b2))
            if op == "eq" and a is b and self.oracle is None:
                pass
        if op in ("ieq", "ilt", "ile"):
            a, b = c.args
            a2, b2 = self.restrict(a), self.restrict(b)
            if a2 is not a or b2 is not b:
                return self.decide(self.icmp({"ieq": "eq", "ilt": "lt", "ile": "le"}[op], a2, b2))
        if self.oracle is not None:
            self.oracle_used += 1
            r = self.oracle(c)
            if r is not None:
                return r
        return None

    def _decide_tree(self, c, op, memo):
        if op == "ite":
            r = self.decide(c.args[0], memo)
            if r is not None:
                return self.decide(c.args[1] if r else c.args[2], memo)
            x, y = self.decide(c.args[1], memo), self.decide(c.args[2], memo)
            return x if x is not None and x == y else None
        if op == "and":
            x, y = self.decide(c.args[0], memo), self.decide(c.args[1], memo)
            if x == 0 or y == 0:
                return 0
            return 1 if x == 1 and y == 1 else None
        if op == "or":
            x, y = self.decide(c.args[0], memo), self.decide(c.args[1], memo)
            if x == 1 or y == 1:
                return 1
            return 0 if x == 0 and y == 0 else None
        return None

    def restrict(self, v):
        """resolve top-level gates whose condition is already decided"""
        while v.__class__ is Node and v.op == "ite":
            r = self.decide(v.args[0])
            if r is None:
                break
            v = v.args[1] if r else v.args[2]
        return v

    def fcmp(self, op, a, b):
        # lift comparisons over gates that select constants
        if a.__class__ is Node and a.op == "ite" and b.__class__ is Node and self._constleaf(a):
            return self.lift(a, lambda x: fcmp(op, x, b))
        if b.__class__ is Node and b.op == "ite" and a.__class__ is Node and self._constleaf(b):
            return self.lift(b, lambda x: fcmp(op, a, x))
        return fcmp(op, a, b)

    def _constleaf(self, n):
        for l in dag.leaves(n):
            if l.__class__ is Node and l.op == "c":
                return True
        return False

    def icmp(self, op, a, b):
        if a.__class__ is int and b.__class__ is int:
            return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op])
        if (a.__class__ is Node and a.op == "ite") or (b.__class__ is Node and b.op == "ite"):
            return self.lift2(lambda x, y: self.icmp(op, x, y), a, b)
        if a is b:
            return int(op in ("le", "ge", "eq"))
        if op == "gt":
            return mk("ilt", b, a)
        if op == "ge":
            return mk("ile", b, a)
        if op == "ne":
            return bnot(self.icmp("eq", a, b))
        if op == "eq" and a.__class__ is int:
            a, b = b, a
        return mk("i" + op, a, b)

    # ------------------------------------------------------------ operators
    def wrap(self, x, sc):
        _, bits, sg = sc
        x &= (1 << bits) - 1
        if sg and x >> (bits - 1):
            x -= 1 << bits
        return x

    def lift2(self, f, a, b):
        memo = {}

        def go(x, y):
            if x.__class__ is Node and x.op == "ite":
                k = (x.id, y.id if y.__class__ is Node else y)
                r = memo.get(k, MISSING)
                if r is MISSING:
                    c = x.args[0]
                    y1, y2 = y, y
                    if y.__class__ is Node and y.op == "ite" and y.args[0] is c:
                        y1, y2 = y.args[1], y.args[2]
                    r = memo[k] = self.merge(c, go(x.args[1], y1), go(x.args[2], y2))
                return r
            if y.__class__ is Node and y.op == "ite":
                return self.lift(y, lambda z: f(x, z))
            return f(x, y)
        return go(a, b)

    def binop(self, op, a, b, sc):
        if a.__class__ is Opaque or b.__class__ is Opaque:
            if sc == "f":
                return mk("opaque", a if a.__class__ is Node else str(a), b if b.__class__ is Node else str(b))
            if op in CMP:
                return self.opaquecmp(a, b)
            return HEAP if a == HEAP else Opaque(("bin", op))
        if sc == "f":
            c = CMP.get(op)
            if c is not None:
                return self.fcmp(c, a, b)
            if a.__class__ is not Node or b.__class__ is not Node:
                return mk("opaque", str(a), str(b))
            return fop({"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem"}[op], a, b)
        if sc == "p" or a.__class__ is Ptr or b.__class__ is Ptr:
            return self.ptrop(op, a, b)
        if sc == "b":
            c = CMP.get(op)
            if c is not None:
                if c == "eq":
                    if a.__class__ is int:
                        a, b = b, a
                    if b.__class__ is int:
                        return a if b else bnot(a)
                    return mk("beq", a, b)
                if c == "ne":
                    if a.__class__ is int:
                        a, b = b, a
                    if b.__class__ is int:
                        return bnot(a) if b else a
                    return mk("not", mk("beq", a, b))
                if a.__class__ is int and b.__class__ is int:
                    return self.icmp(c, a, b)
                return mk("bop", op, a, b)
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op == "BitXor":
                if a.__class__ is int and b.__class__ is int:
                    return a ^ b
                if b.__class__ is int:
                    return bnot(a) if b else a
                if a.__class__ is int:
                    return bnot(b) if a else b
                return mk("xor", a, b)
            return Opaque(("bool", op))
        if sc == "o":
            if a.__class__ in (Fn, Str) and op in ("Eq", "Ne"):
                return int((a == b) == (op == "Eq"))
            return Opaque(("bin", op))
        # integers
        c = CMP.get(op)
        if c is not None:
            return self.icmp(c, a, b)
        if a.__class__ is int and b.__class__ is int:
            if op in ("Add", "AddUnchecked"):
                return self.wrap(a + b, sc)
            if op in ("Sub", "SubUnchecked"):
                return self.wrap(a - b, sc)
            if op in ("Mul", "MulUnchecked"):
                return self.wrap(a * b, sc)
            if op == "Div":
                if b == 0:
                    return Opaque("div0")
                q = abs(a) // abs(b)
                return self.wrap(q if (a < 0) == (b < 0) else -q, sc)
            if op == "Rem":
                if b == 0:
                    return Opaque("div0")
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return self.wrap(a - b * q, sc)
            if op == "BitAnd":
                return self.wrap(a & b, sc)
            if op == "BitOr":
                return self.wrap(a | b, sc)
            if op == "BitXor":
                return self.wrap(a ^ b, sc)
            if op in ("Shl", "ShlUnchecked"):
                return self.wrap(a << (b % sc[1]), sc)
            if op in ("Shr", "ShrUnchecked"):
                return self.wrap(a >> (b % sc[1]), sc)
            if op == "Cmp":
                return Agg(0 if a < b else (1 if a == b else 2), ())
            return Opaque(("int", op))
        if op == "Cmp":
            return self.lift2(lambda x, y: self.binop(op, x, y, sc) if x.__class__ is int and y.__class__ is int else
                              self.merge(self.icmp("lt", x, y), Agg(0, ()), self.merge(self.icmp("eq", x, y), Agg(1, ()), Agg(2, ()))), a, b)
        if (a.__class__ is Node and a.op == "ite") or (b.__class__ is Node and b.op == "ite"):
            return self.lift2(lambda x, y: self.binop(op, x, y, sc), a, b)
        return mk("i:" + op.replace("Unchecked", ""), a, b)

    def opaquecmp(self, a, b):
        if a == HEAP or b == HEAP:
            self.nheap += 1      # two comparisons that look alike need not be
            return mk("opaquecmp", "heap", self.nheap)
        return mk("opaquecmp", str(a)[:80], str(b)[:80])

    def ptrop(self, op, a, b):
        if (a.__class__ is Node and a.op == "ite") or (b.__class__ is Node and b.op == "ite"):
            return self.lift2(lambda x, y: self.ptrop(op, x, y), a, b)
        if op == "Offset" and a.__class__ is Ptr:
            p = a.path
            last = p[-1] if p else 0
            if b.__class__ is int and last.__class__ is int:
                return Ptr(a.root, p[:-1] + (last + b,), a.meta)
            if last.__class__ is int and last == 0:
                return Ptr(a.root, p[:-1] + (b,), a.meta)
            return Ptr(a.root, p[:-1] + (self.binop("Add", last, b, ("i", 64, False)),), a.meta)
        c = CMP.get(op)
        if c is not None and a.__class__ is Ptr and b.__class__ is Ptr:
            if c in ("eq", "ne"):
                if a.root == b.root and a.path[:-1] == b.path[:-1] and len(a.path) == len(b.path) and a.path:
                    x, y = a.path[-1], b.path[-1]
                    if x.__class__ is int and y.__class__ is int:
                        return int((x == y) == (c == "eq"))
                    return self.icmp(c, x, y)
                return int((a == b) == (c == "eq"))
            if a.root == b.root and a.path[:-1] == b.path[:-1]:
                return self.icmp(c, a.path[-1], b.path[-1])
        if c in ("eq", "ne") and (a.__class__ is int or b.__class__ is int):
            return int(c == "ne")
        return self.opaquecmp(a, b) if c else HEAP if a == HEAP else Opaque(("ptr", op))

    def unop(self, op, a, sc):
        if op == "Neg":
            if sc == "f":
                return fop("neg", a) if a.__class__ is Node else mk("opaque", str(a), "neg")
            if a.__class__ is int:
                return self.wrap(-a, sc)
            if a.__class__ is Node and a.op == "ite":
                return self.lift(a, lambda x: self.unop(op, x, sc))
            return mk("i:Neg", a) if a.__class__ is Node else Opaque("neg")
        if op == "Not":
            if sc == "b":
                return bnot(a)
            if a.__class__ is int:
                return self.wrap(~a, sc)
            return mk("icast", mk("i:Not", a), sc[1], int(sc[2])) if a.__class__ is Node else Opaque("not")
        if op == "PtrMetadata":
            if a.__class__ is Ptr and a.meta:
                return a.meta[1]
            if a.__class__ is Node and a.op == "ite":
                return self.lift(a, lambda x: self.unop(op, x, sc))
            return Opaque("meta")
        return Opaque(op)

    # ------------------------------------------------------------ casts
    def transparent_depth(self, t):
        """number of single-field wrappers around a scalar/pointer"""
        n = 0
        while True:
            ty = self.P.types[t]
            if ty["k"] == "Adt" and ty["x"]["adtkind"] in ("Struct",):
                fs = [f for f in ty["x"]["variants"][0]["fields"]]
                nz = [(i, f) for i, f in enumerate(fs) if not self.P.is_zst(f[1])]
                if len(nz) != 1:
                    return n, t
                t = nz[0][1][1]
                n += 1
            elif ty["k"] == "Pat":
                t = ty["x"]["elem"]
            else:
                return n, t

    def unwrap(self, v, t):
        while True:
            ty = self.P.types[t]
            if self.P.erased(t) is not None:
                t = self.P.erased(t)
            elif ty["k"] == "Adt" and ty["x"]["adtkind"] == "Struct" and v.__class__ is Agg:
                fs = ty["x"]["variants"][0]["fields"]
                nz = [i for i, f in enumerate(fs) if not self.P.is_zst(f[1])]
                if len(nz) != 1:
                    return v, t
                v = v.f[nz[0]]
                t = fs[nz[0]][1]
            elif ty["k"] == "Pat":
                t = ty["x"]["elem"]
            else:
                return v, t

    def tail(self, t, f):
        """(field path, length) when t is f with its last field turned from an array into a slice"""
        path = ()
        while t is not None and f is not None:
            t, f = self.strip(t), self.strip(f)
            a, b = self.P.types[t], self.P.types[f]
            if a["k"] == "Slice" and b["k"] == "Array":
                return path, b["x"]["len"]
            if a["k"] != "Adt" or b["k"] != "Adt" or a["x"]["adtkind"] != "Struct" or not a["x"]["variants"][0]["fields"]:
                return None
            path += (len(a["x"]["variants"][0]["fields"]) - 1,)
            t, f = a["x"]["variants"][0]["fields"][-1][1], b["x"]["variants"][0]["fields"][-1][1]
        return None

    def strip(self, t):
        while t is not None and self.P.erased(t) is not None:
            t = self.P.erased(t)
        return t

    def rewrap(self, v, t):
        while self.P.erased(t) is not None:
            t = self.P.erased(t)
        ty = self.P.types[t]
        if ty["k"] == "Adt" and ty["x"]["adtkind"] == "Struct":
            fs = ty["x"]["variants"][0]["fields"]
            nz = [i for i, f in enumerate(fs) if not self.P.is_zst(f[1])]
            if len(nz) == 1:
                return Agg(0, tuple(self.rewrap(v, f[1]) if i == nz[0] else self.P.zst(f[1]) for i, f in enumerate(fs)))
        if ty["k"] == "Pat":
            return self.rewrap(v, ty["x"]["elem"])
        return v

    def cast(self, kind, v, t, ft):
        P = self.P
        if v.__class__ is Node and v.op == "ite" and (kind not in ("FloatToInt", "FloatToFloat") or v.args[1].__class__ is int):
            return self.lift(v, lambda x: self.cast(kind, x, t, ft))
        ty = P.types[t]
        if kind == "IntToInt":
            if v.__class__ is int and ty["prim"] in INTS:
                b, s = INTS[ty["prim"]]
                return self.wrap(v, ("i", b, s))
            if v.__class__ is Node and P.types[ft]["k"] == "Bool":
                return dag.ite(v, 1, 0)
            if v.__class__ is Node:
                fp = P.types[ft]["prim"]
                if ty["prim"] in INTS and fp in INTS:
                    (b1, s1), (b, s) = INTS[fp], INTS[ty["prim"]]
                    if b < b1 or (s1 and not s) or (b == b1 and s != s1):
                        return mk("icast", v, b, int(s))
                return v
            if v.__class__ is Agg:  # enum as int
                x = P.types[ft]["x"].get("variants")
                if x:
                    return x[v.v]["discr"]
            return Opaque("cast")
        if kind == "IntToFloat":
            if v.__class__ is int:
                return const(float(v))
            return mk("itof", v) if v.__class__ is Node else Opaque("cast")
        if kind == "FloatToInt":
            if v.__class__ is Node and v.op == "c":
                b, s = INTS[ty["prim"]]
                lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
                if v.f != v.f:
                    return 0
                return max(lo, min(hi, int(v.f))) if abs(v.f) != float("inf") else (hi if v.f > 0 else lo)
            if v.__class__ is Node and v.op == "itof":
                return v.args[0]
            if v.__class__ is Node and v.op == "ite":
                return self.lift(v, lambda x: self.cast(kind, x, t, ft))
            return mk("ftoi", v, INTS[ty["prim"]][0], int(INTS[ty["prim"]][1])) if v.__class__ is Node else Opaque("cast")
        if kind == "FloatToFloat":
            if ty["prim"] == "F64" and P.types[ft]["prim"] == "F64":
                return v
            if v.__class__ is Node and v.op == "c":
                try:
                    return dag.const(struct.unpack("<f", struct.pack("<f", v.f))[0])
                except OverflowError:
                    return dag.const(math.copysign(math.inf, v.f))
            return mk("f32round", v) if v.__class__ is Node else Opaque("cast")
        if kind in ("PtrToPtr", "PC:MutToConstPointer"):
            te, fe = self.strip(P.types[t]["x"].get("elem")), self.strip(P.types[ft]["x"].get("elem"))
            tk = P.types[te]["k"] if te is not None else None
            fk = P.types[fe]["k"] if fe is not None else None
            if v.__class__ is Ptr and fk == "Slice" and tk != "Slice" and v.meta and v.meta[0].__class__ is not str:
                return Ptr(v.root, v.path + (v.meta[0],), None)
            if v.__class__ is Ptr and fk == "Array" and tk != "Array" and tk == P.types[self.strip(P.types[fe]["x"]["elem"])]["k"]:
                return Ptr(v.root, v.path + (0,), None)
            return v
        if kind == "PC:ArrayToPointer":
            return Ptr(v.root, v.path + (0,), None) if v.__class__ is Ptr else v
        if kind == "PC:Unsize":
            te, fe = P.types[t]["x"].get("elem"), P.types[ft]["x"].get("elem")
            if te is not None and P.types[self.strip(te)]["k"] == "Slice" and v.__class__ is Ptr:
                return Ptr(v.root, v.path, (0, P.types[self.strip(fe)]["x"]["len"]))
            tail = self.tail(te, fe)
            if tail is not None and v.__class__ is Ptr:
                return Ptr(v.root, v.path, ("tail",) + tail)
            if te is not None and P.types[te]["k"] == "Dynamic" and v.__class__ is Ptr:
                return Ptr(v.root, v.path, ("dyn", fe))
            return Opaque("unsize")
        if kind in ("PC:ReifyFnPointer", "PC:UnsafeFnPointer"):
            return v
        if kind == "PC:ClosureFnPointer":
            i = P.types[ft]["x"].get("inst_once")
            return Fn(i) if i is not None else Opaque("closure fnptr")
        if kind in ("Transmute", "BoxDerefTransmute", "Subtype"):
            if v.__class__ is Node and P.types[ft]["k"] == "Float" and P.types[t]["k"] in ("Int", "Uint"):
                if v.op == "c" and P.types[ft]["prim"] == "F64" and v.f == v.f:
                    return struct.unpack("<q" if INTS[P.types[t]["prim"]][1] else "<Q", struct.pack("<d", v.f))[0]
                return mk("fbits", v)
            if v.__class__ is Node and v.op == "fbits" and P.types[t]["k"] == "Float":
                return v.args[0]
            v, ft = self.unwrap(v, ft)
            if v.__class__ is Ptr:
                to = self.strip(t)
                if P.types[to]["k"] == "Pat":
                    to = P.types[to]["x"]["elem"]
                if P.types[to]["k"] in ("RawPtr", "Ref") and P.types[ft]["k"] in ("RawPtr", "Ref"):
                    return self.cast("PtrToPtr", v, to, ft)
            return self.rewrap(v, t)
        if kind in ("PointerExposeAddress", "PointerWithExposedProvenance", "FnPtrToPtr"):
            return v if v.__class__ in (Ptr, Fn) else Opaque("expose")
        return Opaque(("cast", kind))

    # ------------------------------------------------------------ operands / places
    def place_ptr(self, fr, place):
        """pointer to a place (or a value wrapper when it cannot be expressed)"""
        root = ("L", fr.id, place[0])
        path = ()
        meta = None
        cur = Ptr(root)
        for e in place[1]:
            k = e[0]
            if k == "D":
                v = self.load(cur)
                v, _ = (v, None)
                if v.__class__ is Agg and len(v.f) >= 1:   # Box / NonNull
                    while v.__class__ is Agg and v.f:
                        v = v.f[0]
                cur = v
            elif k == "F":
                cur = self.pextend(cur, e[1])
            elif k == "X":
                i = self.st.get(("L", fr.id, e[1]))
                cur = self.pindex(cur, i)
            elif k == "C":
                if e[2]:
                    n = self.plen(cur)
                    cur = self.pindex(cur, n - e[1]) if n.__class__ is int else Opaque("constidx")
                else:
                    cur = self.pindex(cur, e[1])
            elif k == "S":
                n = self.plen(cur)
                if n.__class__ is int and cur.__class__ is Ptr and not (cur.meta and cur.meta[0].__class__ is str):
                    s = cur.meta[0] if cur.meta else 0
                    to = n - e[2] if e[3] else e[2]
                    cur = Ptr(cur.root, cur.path, (s + e[1], to - e[1]))
                else:
                    cur = Opaque("subslice")
        return cur

    def pextend(self, p, k):
        if p.__class__ is Ptr:
            m = p.meta
            if m and m[0] == "tail":
                # the unsized last field carries the length
                m = None if k != m[1][0] else ("tail", m[1][1:], m[2]) if len(m[1]) > 1 else (0, m[2])
                return Ptr(p.root, p.path + (k,), m)
            return Ptr(p.root, p.path + (k,), m if m and m[0] == "dyn" else None)
        if p.__class__ is Node and p.op == "ite":
            return self.lift(p, lambda x: self.pextend(x, k))
        return Opaque("field")

    def pindex(self, p, i):
        if p.__class__ is Ptr:
            if p.meta and p.meta[0].__class__ is not str and p.meta[0]:
                i = self.binop("Add", i, p.meta[0], ("i", 64, False))
            return Ptr(p.root, p.path + (i,), None)
        if p.__class__ is Node and p.op == "ite":
            return self.lift(p, lambda x: self.pindex(x, i))
        return Opaque("index")

    def plen(self, p):
        if p.__class__ is Ptr:
            if p.meta and p.meta[0].__class__ is not str:
                return p.meta[1]
            v = self.load(p)
            if v.__class__ is Agg:
                return len(v.f)
        if p.__class__ is Node and p.op == "ite":
            return self.lift(p, self.plen)
        return Opaque("len")

    def operand(self, fr, o):
        if o[0] == "k":
            return o[1]
        pl = o[1]
        if not pl[1]:
            v = self.st.get(("L", fr.id, pl[0]), MISSING)
            return v if v is not MISSING else Opaque("uninit")
        return self.read_place(fr, pl)

    def read_place(self, fr, pl):
        # fast path: pure field projections of a local
        v = self.st.get(("L", fr.id, pl[0]), MISSING)
        if v is MISSING:
            return Opaque("uninit")
        for i, e in enumerate(pl[1]):
            k = e[0]
            if k == "F":
                v = self.proj(v, e[1])
            elif k in "VT":
                pass
            else:
                return self.load(self.place_ptr(fr, pl))
        return v

    def rvalue(self, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k == "bin":
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]), rv[4])
        if k == "cbin":
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            r = self.binop(rv[1], a, b, rv[4])
            if a.__class__ is int and b.__class__ is int:
                x = a + b if rv[1] == "Add" else a - b if rv[1] == "Sub" else a * b if rv[1] == "Mul" else None
                if x is None:
                    return Agg(0, (r, 0 if 0 <= b < rv[4][1] else 1))
                return Agg(0, (r, int(r != x)))
            return Agg(0, (r, mk("ovf", rv[1], a if a.__class__ is not Opaque else 0, b if b.__class__ is not Opaque else 0, rv[4][1], int(rv[4][2]))))
        if k == "un":
            return self.unop(rv[1], self.operand(fr, rv[2]), rv[3])
        if k == "ref":
            return self.place_ptr(fr, rv[1])
        if k == "agg":
            return Agg(rv[1], tuple(self.operand(fr, o) for o in rv[2]))
        if k == "cast":
            return self.cast(rv[1], self.operand(fr, rv[2]), rv[3], rv[4])
        if k == "discr":
            return self.discr(self.read_place(fr, rv[1]), rv[2])
        if k == "len":
            return self.plen(self.place_ptr(fr, rv[1]))
        if k == "repeat":
            v = self.operand(fr, rv[1])
            return Agg(0, (v,) * rv[2]) if rv[2] is not None else Opaque("repeat")
        if k == "mkptr":
            d, m = self.operand(fr, rv[2][0]), self.operand(fr, rv[2][1])
            if d.__class__ is Ptr and d.path and self.P.types[rv[1]]["k"] == "Slice":
                return Ptr(d.root, d.path[:-1], (d.path[-1], m))
            return d
        return Opaque(rv[1])

    def discr(self, v, t):
        if v.__class__ is Agg:
            ty = self.P.types[t]
            vs = ty["x"].get("variants") if ty["k"] == "Adt" else None
            if vs and vs[v.v]["discr"] is not None:
                d = vs[v.v]["discr"]
                return d
            return v.v
        if v.__class__ is Node and v.op == "ite":
            return self.lift(v, lambda x: self.discr(x, t))
        if v.__class__ is Node:
            return mk("discr", v)
        if v == HEAP:
            self.nheap += 1
            return mk("opaquediscr", "heap", self.nheap)
        return mk("opaquediscr", str(v)[:60])

    # ------------------------------------------------------------ execution
    def statements(self, fr, sts):
        st = self.st
        fid = fr.id
        for s in sts:
            if s[0] == "=":
                v = self.rvalue(fr, s[2])
                pl = s[1]
                if not pl[1]:
                    self.st[("L", fid, pl[0])] = v
                else:
                    self.store_place(fr, pl, v)
                if self.track is not None and v.__class__ is Node:
                    self.track(fr.body, s[3], v)
            elif s[0] == "setd":
                p = self.place_ptr(fr, s[1])
                v = self.load(p)
                self.store(p, Agg(s[2], v.f if v.__class__ is Agg else ()))
            elif s[0] == "copy":
                self.copy(*(self.operand(fr, o) for o in s[2:5]))

    def copy(self, src, dst, n):
        """n elements from one place to another"""
        if dst == HEAP:
            return
        if n.__class__ is not int:
            raise Unsupported("copy of an unknown number of elements")
        vs = [self.load(self.ptrop("Offset", src, i) if i else src) for i in range(n)]
        for i, v in enumerate(vs):
            self.store(self.ptrop("Offset", dst, i) if i else dst, v)

    def store_place(self, fr, pl, v):
        # enum field initialisation through a downcast
        vi = None
        for e in pl[1]:
            if e[0] == "V":
                vi = e[1]
        p = self.place_ptr(fr, pl)
        self.store(p, v)
        if vi is not None and p.__class__ is Ptr and p.root[0] == "L" and p.path:
            base = Ptr(p.root, p.path[:-1])
            b = self.load(base)
            if b.__class__ is Agg and b.v != vi:
                self.store(base, Agg(vi, b.f))

    def run(self, fr, bb, stops):
        """execute from block bb until a block of `stops`: the tree of continuations"""
        blocks = fr.body.blocks
        while True:
            if bb in stops or bb == len(blocks):
                return Leaf(bb, self.st, self.pc)
            if fr.symloops and bb in fr.symloops and bb not in fr.nested:
                bb = self.summarise(fr, bb)
                if bb is None:
                    return None
                continue
            sts, tm, _ = blocks[bb]
            self.steps += len(sts) + 1
            if self.steps > self.budget:
                raise Budget("step budget exceeded in %s" % fr.body.name)
            if sts:
                self.statements(fr, sts)
            nb = self.term(fr, bb, tm, stops)
            if nb is None:
                return None
            c = nb.__class__
            if c is int:
                bb = nb
            elif c is Leaf:
                self.st, self.pc = nb.st, nb.pc
                bb = nb.bb
            else:
                return nb

    def foldtree(self, tree, bb):
        """merged state and common assumptions of the leaves at block bb"""
        memo = {}

        def go(t):
            if t is None:
                return None
            r = memo.get(id(t), MISSING)
            if r is not MISSING:
                return r
            if t.__class__ is Leaf:
                r = t.st if t.bb == bb else None
            else:
                x, y = go(t.a), go(t.b)
                if x is None or y is None or x is y:
                    r = y if x is None else x
                else:
                    r = self.mergestates(t.cond, x, y)
            memo[id(t)] = r
            return r
        st = go(tree)
        ls = leafblocks(tree)[bb]
        pc = ls[0].pc
        if len(ls) > 1:
            others = [l.pc for l in ls[1:]]
            pc = {k: v for k, v in pc.items() if all(o.get(k) == v for o in others)}
        return Leaf(bb, st, pc)

    def record(self, fr, bb, kind, status, span, bad=None):
        if status != "ok":
            e = ((fr.body.inst, bb), bad, tuple(self.pc.items()))
            if len(self.pan[-1]) < 4000:
                self.pan[-1].append(e)
        k = (fr.body.inst, bb)
        o = self.panics.get(k)
        rank = {"ok": 0, "unproved": 1, "reached": 2}
        if o is None or rank[status] > rank[o["status"]]:
            self.panics[k] = {"status": status, "kind": kind, "span": self.P.span(span), "fn": fr.body.name, "pc": list(self.pc.items())[-6:],
                              "stack": [self.P.fname(i) for i in self.callstack[-8:]]}

    def term(self, fr, bb, tm, stops):
        k = tm[0]
        if k == "goto":
            return tm[1]
        if k == "ret":
            return len(fr.body.blocks)
        if k == "switch":
            return self.switch(fr, bb, tm, self.operand(fr, tm[1]), stops)
        if k == "call":
            args = [self.operand(fr, a) for a in tm[2]]
            v = self.callop(fr, bb, tm, self.operand(fr, tm[1]), args)
            if v is None or tm[4] is None:
                return None
            if not tm[3][1]:
                self.st[("L", fr.id, tm[3][0])] = v
            else:
                self.store(self.place_ptr(fr, tm[3]), v)
            return tm[4]
        if k == "assert":
            c = self.operand(fr, tm[1])
            want = tm[2]
            d = self.decide(c) if c.__class__ in (int, Node) else None
            if d is None:
                self.record(fr, bb, tm[5], "unproved", tm[4], (c, want))
            elif d == want:
                self.record(fr, bb, tm[5], "ok", tm[4])
            else:
                self.record(fr, bb, tm[5], "reached", tm[4])
                return None
            return tm[3]
        if k == "drop":
            if tm[4] is not None:
                self.call(tm[4], [self.place_ptr(fr, tm[1])], fr, bb, None)
            return tm[2]
        if k == "dead":
            return None
        self.notes.append(("asm", fr.body.name))
        return None

    def switch(self, fr, bb, tm, d, stops):
        d = self.restrict(d)
        if d.__class__ is int:
            for val, t in tm[2]:
                if val == d:
                    return t
            return tm[3]
        if d.__class__ is Node:
            if d.op == "ite":
                if npaths(d) > 8:
                    # many ways to the same few targets: one opaque test per target
                    ts = {}
                    for l in dag.leaves(d):
                        if l.__class__ is not int:
                            ts = None
                            break
                    if ts is not None:
                        return self.select(fr, bb, tm, d, list(tm[2]), stops)
                # decide which gate to split on
                redo = lambda ss: self.switch(fr, bb, tm, d, ss)
                return self.fork(fr, bb, tm, d.args[0], redo, redo, stops)
            if tm[5] == "b":
                r = self.decide(d)
                if r is not None:
                    for val, t in tm[2]:
                        if val == r:
                            return t
                    return tm[3]
                br_ = dict(tm[2])
                t0 = br_.get(0, tm[3])
                t1 = br_.get(1, tm[3])
                if t0 == t1:
                    return t0
                return self.fork(fr, bb, tm, d, lambda ss: t1, lambda ss: t0, stops)
            # opaque integer: one test per target
            return self.chain(fr, bb, tm, d, list(tm[2]), stops)
        self.notes.append(("opaque switch", fr.body.name, self.P.span(tm[4]), repr(d)[:80]))
        c = mk("opaquecond", fr.body.inst, bb, str(d)[:80])
        return self.chain(fr, bb, tm, c, list(tm[2]), stops)

    def select(self, fr, bb, tm, d, targets, stops):
        if not targets:
            return tm[3]
        val, t = targets[0]
        if len({x[1] for x in targets} | {tm[3]}) == 1:
            return tm[3]
        c = self.lift(d, lambda x: int(x == val))
        r = self.decide(c)
        if r is not None:
            return t if r else self.select(fr, bb, tm, d, targets[1:], stops)
        return self.fork(fr, bb, tm, c, lambda ss: t, lambda ss: self.select(fr, bb, tm, d, targets[1:], ss), stops)

    def chain(self, fr, bb, tm, d, targets, stops):
        if not targets:
            return tm[3]
        val, t = targets[0]
        c = self.icmp("eq", d, val)
        r = self.decide(c)
        if r is not None:
            return t if r else self.chain(fr, bb, tm, d, targets[1:], stops)
        if len({x[1] for x in targets} | {tm[3]}) == 1:
            return tm[3]
        return self.fork(fr, bb, tm, c, lambda ss: t, lambda ss: self.chain(fr, bb, tm, d, targets[1:], ss), stops)

    def loop_limit(self, fr, bb):
        b = fr.body
        hs = b.inloop.get(bb)
        if not hs:
            return None, 0
        j = b.ipdom.get(bb)
        best = None
        for h in hs:
            if j is not None and j in b.loops[h] and j != h:
                continue
            if best is None or len(b.loops[h]) < len(b.loops[best]):
                best = h
        if best is None:
            best = min(hs, key=lambda h: len(b.loops[h]))
        live = self.P.liveness(b)[best]
        carried = False
        for x in b.loops[best]:
            for s in b.blocks[x][0]:
                if s[0] == "=" and not s[1][1] and s[1][0] in live and self.hasfloat(b.locals[s[1][0]]):
                    carried = True
            t = b.blocks[x][1]
            if t[0] == "call" and not t[3][1] and t[3][0] in live and self.hasfloat(b.locals[t[3][0]]):
                carried = True
        return best, (1 if carried else 40)

    def hasfloat(self, t):
        ty = self.P.types[t]
        if ty["k"] == "Float":
            return True
        if ty["k"] == "Tuple":
            return any(self.hasfloat(e) for e in ty["x"]["elems"])
        if ty["k"] == "Array":
            return self.hasfloat(ty["x"]["elem"])
        return False

    def fork(self, fr, bb, tm, cond, then, els, stops):
        """split on cond; both sides run to the next joins and are merged there"""
        if cond.op == "not":
            return self.fork(fr, bb, tm, cond.args[0], els, then, stops)
        if cond.op == "ite" and npaths(cond) <= 8:
            # condition of a condition: split on the inner gate first
            redo = lambda ss: self._refork(fr, bb, tm, cond, then, els, ss)
            return self.fork(fr, bb, tm, cond.args[0], redo, redo, stops)
        r = self.decide(cond)
        if r is not None:
            return then(stops) if r else els(stops)
        h, lim = self.loop_limit(fr, bb)
        if h is not None:
            n = sum(1 for x in fr.forks if x == bb)
            if n >= lim and h not in fr.nested:
                raise SymLoop(fr.id, h)
            if n > 64:
                raise SymLoop(fr.id, h)
        j = fr.body.ipdom.get(bb)
        if j is None:
            # no path to return from here except through panics
            j = -1
        if fr.nested:
            # inside a summarised loop: a join outside it is reached through the loop's exits
            for hh in fr.nested:
                if j not in fr.body.loops[hh] or j == hh:
                    raise LoopSplit(bb, cond, then, els)
        inner = stops | self.P.domjoins(fr.body, bb) | {j}
        base = self.st
        pc0 = self.pc
        fr.forks.append(bb)
        res = []
        for want, side in ((1, then), (0, els)):
            self.st = dict(base)
            self.pc = dict(pc0)
            self.assume(cond, want)
            t = side(inner)
            res.append(self.run(fr, t, inner) if t.__class__ is int else t)
        tree = br(cond, res[0], res[1])
        rpo = fr.body.rpo
        while True:
            lb = leafblocks(tree)
            if len(lb) <= 1:
                break
            todo = [x for x in lb if x not in stops]
            if not todo:
                break
            m = min(todo, key=lambda x: rpo.get(x, 0))
            l = self.foldtree(tree, m)
            self.st, self.pc = dict(l.st), dict(l.pc)
            tree = substitute(tree, m, self.run(fr, m, inner - {m}) if m != len(fr.body.blocks) else l)
        fr.forks.pop()
        self.pc = pc0
        if tree is None:
            self.st = base
            return None
        if len(lb) == 1:
            tree = self.foldtree(tree, next(iter(lb)))
            self.st, self.pc = tree.st, tree.pc
        return tree

    def _refork(self, fr, bb, tm, cond, then, els, stops):
        c = self.restrict(cond)
        if c.__class__ is int:
            return then(stops) if c else els(stops)
        return self.fork(fr, bb, tm, c, then, els, stops)

    def assume(self, cond, val):
        self.pc[cond] = val
        if cond.op == "and" and val:
            for a in cond.args:
                if a.__class__ is Node:
                    self.assume(a, 1)
        if cond.op == "or" and not val:
            for a in cond.args:
                if a.__class__ is Node:
                    self.assume(a, 0)
        if cond.op == "not":
            self.assume(cond.args[0], 1 - val)

    def mergestates(self, cond, a, b):
        out = {}
        for k, va in a.items():
            vb = b.get(k, MISSING)
            if vb is MISSING:
                continue
            out[k] = va if va is vb else self.merge(cond, va, vb)
        # what only one side has set is kept if something may point to it
        for x, y in ((a, b), (b, a)):
            if len(x) > len(out):
                for k, v in x.items():
                    if k not in y and k[2] in self.pointed.get(k[1], ()):
                        out[k] = v
        return out

    # ------------------------------------------------------------ calls
    def chosen(self, f, run):
        """run what a gate selects: both sides, joined; what several sides select is run once"""
        if f.__class__ is not Node or f.op != "ite":
            return run(f)
        c = f.args[0]
        r = self.decide(c)
        if r is not None:
            return self.chosen(f.args[1] if r else f.args[2], run)
        ends, seen, todo = [], set(), [f]
        while todo:
            g = todo.pop()
            k = g.id if g.__class__ is Node else g
            if k in seen:
                continue
            seen.add(k)
            if g.__class__ is Node and g.op == "ite":
                todo += [g.args[2], g.args[1]]
            else:
                ends.append(g)
        if len(seen) - len(ends) >= len(ends):
            return self.chosenof(f, ends, run)
        base, pc0 = self.st, self.pc
        out = []
        for want, g in ((1, f.args[1]), (0, f.args[2])):
            self.st, self.pc = dict(base), dict(pc0)
            self.assume(c, want)
            v = self.chosen(g, run)
            out.append((v, self.st))
        self.pc = pc0
        (va, sa), (vb, sb) = out
        if va is None:
            self.st = sb
            return vb
        if vb is None:
            self.st = sa
            return va
        self.st = self.mergestates(c, sa, sb)
        return self.merge(c, va, vb)

    def chosenof(self, f, ends, run):
        if len(ends) == 1:
            return run(ends[0])
        c = self.selects(f, ends[0], {})
        r = self.decide(c)
        if r is not None:
            return run(ends[0]) if r else self.chosenof(f, ends[1:], run)
        base, pc0 = self.st, self.pc
        out = []
        for want in (1, 0):
            self.st, self.pc = dict(base), dict(pc0)
            self.assume(c, want)
            v = run(ends[0]) if want else self.chosenof(f, ends[1:], run)
            out.append((v, self.st))
        self.pc = pc0
        (va, sa), (vb, sb) = out
        if va is None:
            self.st = sb
            return vb
        if vb is None:
            self.st = sa
            return va
        self.st = self.mergestates(c, sa, sb)
        return self.merge(c, va, vb)

    def selects(self, f, end, memo):
        """the condition under which a gate selects one of its ends"""
        if f.__class__ is not Node or f.op != "ite":
            return int(f is end or f.__class__ is not Node and f == end)
        r = memo.get(f.id)
        if r is None:
            r = memo[f.id] = dag.ite(f.args[0], self.selects(f.args[1], end, memo), self.selects(f.args[2], end, memo))
        return r

    def callop(self, fr, bb, tm, f, args):
        if f.__class__ is Fn:
            return self.call(f.inst, args, fr, bb, tm)
        if f.__class__ is Node and f.op == "ite":
            return self.chosen(f, lambda g: self.callop(fr, bb, tm, g, list(args)))
        self.notes.append(("unknown callee", fr.body.name if fr else "", repr(f)[:60]))
        return Opaque("call")

    def intrinsic(self, name, inst, args):
        """models of core operations; MISSING when there is none"""
        m = F64.search(name)
        if m or name.startswith("std::intrinsics::"):
            op = m.group(1) if m else name.split("::")[2]
            if args and args[0].__class__ is Node and args[0].op == "ite" and args[0].args[1].__class__ is int:
                pass
            if op in F_UN and len(args) == 1 and args[0].__class__ is Node:
                return fop(F_UN[op], args[0]) if args[0].op != "c" or F_UN[op] in ("exp", "ln", "sqrt", "abs", "floor", "ceil", "trunc") else mk(F_UN[op], args[0])
            if op == "powi" and args[0].__class__ is Node:
                return self.powi(args[0], args[1])
            if op in F_BIN and len(args) == 2 and args[0].__class__ is Node and args[1].__class__ is Node:
                return fop(F_BIN[op], args[0], args[1]) if F_BIN[op] in ("powf", "min", "max") else mk(F_BIN[op], args[0], args[1])
            if op == "mul_add" and args[0].__class__ is Node:
                return fop("add", fop("mul", args[0], args[1]), args[2])
            if op in ("fadd_fast", "fmul_fast", "fsub_fast", "fdiv_fast"):
                return fop(op[1:4], args[0], args[1])
            if op == "is_nan" and args[0].__class__ is Node:
                return int(args[0].f != args[0].f) if args[0].op == "c" else mk("isnan", args[0])
            if op == "is_finite" and args[0].__class__ is Node:
                return int(abs(args[0].f) < float("inf")) if args[0].op == "c" else mk("isfin", args[0])
            if op == "is_infinite" and args[0].__class__ is Node:
                return int(abs(args[0].f) == float("inf")) if args[0].op == "c" else mk("isinf", args[0])
            if op in ("likely", "unlikely"):
                return args[0]
            r = self.intintrinsic(op, inst, args)
            if r is not MISSING:
                return r
        m = MEM.match(name)
        if m:
            if m.group(1) == "swap" and len(args) == 3:
                if not (args[1].__class__ is int and args[2].__class__ is int):
                    raise Unsupported("exchange of unknown elements")
                p, q = self.pindex(args[0], args[1]), self.pindex(args[0], args[2])
                a, b = self.load(p), self.load(q)
                self.store(p, b)
                self.store(q, a)
                return UNIT
            if m.group(1) == "swap" and len(args) == 2:
                a, b = self.load(args[0]), self.load(args[1])
                self.store(args[0], b)
                self.store(args[1], a)
                return UNIT
            n = args[0].meta[1] if args[0].__class__ is Ptr and args[0].meta and args[0].meta[0].__class__ is not str else None
            if m.group(1) == "reverse" and n.__class__ is int:
                ps = [self.pindex(args[0], i) for i in range(n)]
                vs = [self.load(p) for p in ps]
                for p, v in zip(ps, reversed(vs)):
                    self.store(p, v)
                return UNIT
        if SKIP.search(name):
            return UNIT
        if BLACK.search(name) and len(args) == 1:
            return args[0]
        m = STR_EQ.search(name)
        if m:
            return self.streq(args[0], args[1], m.group(1))
        return MISSING

    def intintrinsic(self, op, inst, args):
        """integer and pointer operations of the core library"""
        a = args[0] if args else None
        b = args[1] if len(args) > 1 else None
        if op in ("ptr_offset_from", "ptr_offset_from_unsigned"):
            def diff(x, y):
                if x.__class__ is Ptr and y.__class__ is Ptr and x.root == y.root:
                    n = max(len(x.path), len(y.path), 1)
                    x, y = [p.path + (0,) * (n - len(p.path)) for p in (x, y)]
                    if x[:-1] == y[:-1]:
                        return self.binop("Sub", x[-1], y[-1], ("i", 64, True))
                return Opaque("ptrdiff")
            return self.lift2(diff, a, b)
        if op in ("copy", "copy_nonoverlapping") and len(args) == 3:
            self.copy(*args)
            return UNIT
        if op in ("saturating_add", "saturating_sub") and a.__class__ in (int, Node) and b.__class__ in (int, Node):
            g = re.search(r"::<(\w+)>$", self.P.fns[inst]["name"])
            w = INTNAME.get(g.group(1)) if g else None
            if w is None:
                return MISSING
            lo, hi = (-(1 << (w[1] - 1)), (1 << (w[1] - 1)) - 1) if w[2] else (0, (1 << w[1]) - 1)

            def sat(x, y):
                if x.__class__ is int and y.__class__ is int:
                    return max(lo, min(hi, x + y if op.endswith("add") else x - y))
                return mk("i:" + op, x, y)
            return self.lift2(sat, a, b)
        if op == "three_way_compare":
            def cmp(x, y):
                if x.__class__ is int and y.__class__ is int:
                    return Agg(0 if x < y else (1 if x == y else 2), ())
                return self.merge(self.icmp("lt", x, y), Agg(0, ()), self.merge(self.icmp("eq", x, y), Agg(1, ()), Agg(2, ())))
            return self.lift2(cmp, a, b)
        if op in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul", "exact_div"):
            g = re.search(r"::<(\w+)>$", self.P.fns[inst]["name"])
            w = INTNAME.get(g.group(1)) if g else None
            if w is not None:
                return self.binop({"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div"}[op.split("_")[1]], a, b, w)
        return MISSING

    def powi(self, a, k):
        if k.__class__ is Node and k.op == "ite":
            return self.lift(k, lambda x: self.powi(a, x))
        if k.__class__ in (int, Node):
            return fpowi(a, k)
        return mk("opaque", a, "powi")

    def streq(self, a, b, which):
        if a.__class__ is Node and a.op == "ite":
            return self.lift(a, lambda x: self.streq(x, b, which))
        if b.__class__ is Node and b.op == "ite":
            return self.lift(b, lambda x: self.streq(a, x, which))
        for _ in range(2):
            if a.__class__ is Ptr:
                a = self.load(a)
            if b.__class__ is Ptr:
                b = self.load(b)
        if a.__class__ is Str and b.__class__ is Str:
            return int((a == b) == (which == "eq"))
        return mk("opaquecmp", str(a), str(b))

    def call(self, inst, args, fr=None, bb=None, tm=None):
        f = self.P.fns[inst]
        name = f["name"]
        ov = self.fcall_override.get(inst)
        if ov is not None:
            return ov(self, args)
        v = self.intrinsic(name, inst, args)
        if v is not MISSING:
            return v
        if DYNFN.match(name) and args[0].__class__ is Node and args[0].op == "ite":
            return self.chosen(args[0], lambda g: self.call(inst, [g] + list(args[1:]), fr, bb, tm))
        if DYNFN.match(name) and args[0].__class__ is Ptr and args[0].meta and args[0].meta[0] == "dyn":
            # call through a trait object whose function is known
            ty = self.P.types[args[0].meta[1]]
            i = ty["x"].get("inst_once") if ty["k"] == "Closure" else ty["x"].get("inst") if ty["k"] == "FnDef" else None
            if i is not None and self.P.body(i) is not None:
                if ty["k"] == "FnDef":
                    return self.call(i, list(args[1].f) if args[1].__class__ is Agg else [args[1]])
                env = Ptr(args[0].root, args[0].path)
                return self.call(i, [env if self.P.types[self.P.body(i).locals[1]]["k"] == "Ref" else self.load(env), args[1]])
        body = self.P.body(inst)
        if body is None:
            if tm is not None and tm[4] is None:
                self.record(fr, bb, "panic:" + name, "reached", tm[5])
                return None
            if "panic" in (name if name[0] == "<" else name.split("::<")[0]) or "unwrap_failed" in name or "expect_failed" in name:
                if fr is not None:
                    self.record(fr, bb, "panic:" + name, "reached", tm[5])
                return None
            self.notes.append(("no body", name))
            if name.startswith("alloc::"):
                if GROW.search(name) and args[0].__class__ is Ptr:
                    self.store(args[0], HEAP)
                return HEAP
            return Opaque(("call", name))
        self.calls_seen[inst] = self.calls_seen.get(inst, 0) + 1
        memoable = not any(has_local_ptr(a) for a in args)
        key = (inst, tuple(args)) if memoable else None
        if memoable:
            r = self.memo.get(key)
            if r is not None:
                v, used, pl = r
                if used:
                    self.oracle_used += 1
                self.addpan(pl)
                return v
            self.pan.append([])
        try:
            v, used = self._invoke(inst, body, args, memoable)
        finally:
            if memoable:
                pl = self.pan.pop()
        if memoable:
            if len(pl) > 1:
                pl = list({(e[0], e[1], frozenset(c.id * 2 + w for c, w in e[2])): e for e in pl}.values())
            self.memo[key] = (v, used, pl)
            self.addpan(pl)
        return v

    def addpan(self, pl):
        if pl and len(self.pan[-1]) < 4000:
            pc = tuple(self.pc.items())
            self.pan[-1] += [(k, bad, tuple(dict(pc + c).items()) if pc else c) for k, bad, c in pl]

    def endless(self, inst, args):
        """the function calls itself over and over without a constant argument that changes"""
        k = tuple(a for a in args if a.__class__ is not Node)
        prev, self.recargs[inst] = self.recargs.get(inst, self), k
        return prev == k

    def _invoke(self, inst, body, args, isolate):
        if len(args) == body.argc == 2 and CLOSURE.search(body.name) and args[-1].__class__ is Agg and len(args[-1].f) == 1:
            # rust-call ABI: the last operand is the tuple of the arguments
            k = self.P.types[body.locals[2]]["k"]
            if k not in ("Tuple", "Adt") or args[-1].f[0].__class__ is Agg:
                args = [args[0], args[-1].f[0]]
        if len(args) != body.argc and args and args[-1].__class__ is Agg and len(args) - 1 + len(args[-1].f) == body.argc:
            args = list(args[:-1]) + list(args[-1].f)
        base = dict(self.st)
        pc0 = self.pc
        u0 = self.oracle_used
        symloops = set()
        pan0 = len(self.pan[-1])
        self.callstack.append(inst)
        if len(self.callstack) > 200 or self.callstack.count(inst) > 6 and self.endless(inst, args):
            self.callstack.pop()
            raise Budget("recursion in " + body.name)
        try:
            while True:
                self.nframe += 1
                fr = Frame()
                fr.id = self.nframe
                self.pointed[fr.id] = body.addr_taken
                fr.body = body
                fr.symloops = symloops
                fr.forks = []
                fr.nested = ()
                fr.key = None
                if isolate:
                    self.pc = {}
                for i, a in enumerate(args):
                    self.st[("L", fr.id, i + 1)] = a
                try:
                    out = self.run(fr, 0, frozenset((len(body.blocks),)))
                    ok = out is not None
                    if ok:
                        self.st = out.st if out.__class__ is Leaf else self.foldtree(out, len(body.blocks)).st
                    break
                except SymLoop as e:
                    if e.fid != fr.id:
                        raise
                    symloops.add(e.header)
                    self.st = dict(base)
                    self.pc = pc0
                    del self.pan[-1][pan0:]
        finally:
            self.callstack.pop()
        v = self.st.get(("L", fr.id, 0), UNIT) if ok else None
        fid = fr.id
        if isolate:
            self.st = base
        else:
            self.st = {k: x for k, x in self.st.items() if k[1] != fid}
        self.pc = pc0
        return v, self.oracle_used != u0

    # ------------------------------------------------------------ data-dependent loops
    def leafmap(self, v, f, path=()):
        c = v.__class__
        if c is Agg:
            return Agg(v.v, tuple(self.leafmap(x, f, path + (i,)) for i, x in enumerate(v.f)))
        return f(v, path)

    def summarise(self, fr, header):
        b = fr.body
        loop = b.loops[header]
        live = self.P.liveness(b)[header]
        base = self.st
        pc0 = self.pc
        # candidates for change: locals assigned in the loop, and any address-taken root
        cand = set()
        for x in loop:
            sts, tm, _ = b.blocks[x]
            for s in sts:
                if s[0] in ("=", "setd"):
                    cand.add(("L", fr.id, s[1][0]))
            if tm[0] == "call":
                cand.add(("L", fr.id, tm[3][0]))
        cand |= {("L", fr.id, x) for x in b.addr_taken}
        cand = {r for r in cand if r in base and (r[2] in live)}
        ikey = (b.inst, header, tuple(sorted(((r[2] if r[1] == fr.id else -1 - r[2]), _h(base[r])) for r in base if r[1] == fr.id and r[2] in live)))
        lid = self.loops.get(ikey)
        if lid is None:
            lid = len(self.looplist)
            self.loops[ikey] = lid
            self.looplist.append(None)
        changed = {}
        for r in cand:
            changed[r] = None     # all leaves
        fixed = {}                # (root,path) -> keep initial value
        rounds = 0
        pan0 = len(self.pan[-1])
        while True:
            rounds += 1
            st = dict(base)
            mus = {}
            for r in changed:
                def f(v, path, r=r):
                    if (r, path) in fixed:
                        return v
                    if v.__class__ is Node or v.__class__ is int:
                        m = mk("mu", lid, (r[2] if r[1] == fr.id else ("o", r[2])), path, "f" if v.__class__ is Node and v.op not in dag.BOOL_OPS else "i")
                        mus[(r, path)] = (m, v)
                        return m
                    if v.__class__ is Ptr and v.path and v.meta is None:
                        # moving element pointer
                        m = mk("mu", lid, r[2], path, "i")
                        mus[(r, path)] = (Ptr(v.root, v.path[:-1] + (m,)), v)
                        return mus[(r, path)][0]
                    return v
                st[r] = self.leafmap(base[r], f)
            outs = []
            del self.pan[-1][pan0:]
            self._body_paths(fr, header, loop, st, dict(pc0), [], outs, True)
            backs = [o for o in outs if o[0] == "back"]
            exits = [o for o in outs if o[0] == "exit"]
            # next values
            nexts = {}
            unstable = set()
            newroots = set()
            for o in backs:
                for r, v in o[3].items():
                    if r in changed or r not in base:
                        continue
                    if v is not base[r] and v != base[r] and (r[1] != fr.id or r[2] in live):
                        newroots.add(r)
            if newroots:
                for r in newroots:
                    changed[r] = None
                if rounds < 12:
                    continue
            newfixed = {}
            for (r, path), (m, init) in mus.items():
                vals = []
                for o in backs:
                    v = o[3].get(r)
                    for k in path:
                        v = self.proj(v, k) if v is not None else None
                    vals.append(v)
                nexts[(r, path)] = vals
                if all(v is m or v == m for v in vals):
                    newfixed[(r, path)] = True
            if newfixed and rounds < 12:
                fixed.update(newfixed)
                continue
            break
        entry = []
        for r in sorted((r for r in base if r[1] == fr.id and r[2] in live), key=lambda r: r[2]):
            self.leafmap(base[r], lambda v, path, r=r: (entry.append(((r[2], path), v)), v)[1])
        self.looplist[lid] = {"fn": b.name, "inst": b.inst, "header": header, "entry": entry, "span": self.P.span(b.blocks[header][2]),
                              "mus": {k: (m, init) for k, (m, init) in mus.items()},
                              "names": {k: b.names.get(k[0][2], "_%d" % k[0][2]) for k in mus},
                              "nexts": nexts, "exits": [(o[1], o[2]) for o in exits], "backs": [o[2] for o in backs],
                              "back_states": None, "stack": list(self.callstack)}
        if not exits:
            self.st = base
            self.pc = pc0
            return None
        J = b.ipdom.get(header)
        while J is not None and J in loop:
            J = b.ipdom.get(J)
        if J is None:
            J = len(b.blocks)
        res = None
        for n, (_, xb, conds, xst) in enumerate(exits):
            self.st = xst
            self.pc = dict(pc0)
            for c, w in conds:
                self.assume(c, w)
            if len(exits) == 1:
                return xb
            out = self.run(fr, xb, frozenset((J,)))
            if out is None:
                continue
            lb = leafblocks(out)
            if len(lb) != 1:
                raise Budget("loop exits do not rejoin in %s" % b.name)
            J1 = next(iter(lb))
            if J1 != J:
                raise Budget("loop exits do not rejoin in %s" % b.name)
            self.st = self.foldtree(out, J1).st
            if res is None:
                res = self.st
            else:
                res = self.mergestates(mk("loopexit", lid, n), self.st, res)
        self.pc = pc0
        if res is None:
            self.st = base
            return None
        self.st = res
        return J

    def _body_paths(self, fr, bb, loop, st, pc, conds, outs, first):
        """explore one iteration from bb; branches that leave the loop are kept apart"""
        b = fr.body
        header_of = None
        saved = (self.st, self.pc, fr.nested)
        h = None
        for k, v in b.loops.items():
            if v is loop:
                h = k
        self.st, self.pc = st, pc
        fr.nested = saved[2] + (h,) if h not in saved[2] else saved[2]
        try:
            while True:
                if bb == h and not first:
                    outs.append(("back", bb, conds, self.st))
                    return
                if bb not in loop:
                    outs.append(("exit", bb, conds, self.st))
                    return
                first = False
                if bb in fr.symloops and bb not in fr.nested:
                    nxt = self.summarise(fr, bb)
                    if nxt is None:
                        return
                    bb = nxt
                    continue
                sts, tm, _ = b.blocks[bb]
                self.steps += len(sts) + 1
                if self.steps > self.budget:
                    raise Budget("step budget exceeded in %s" % b.name)
                self.statements(fr, sts)
                try:
                    nb = self.term(fr, bb, tm, frozenset((len(b.blocks),)))
                except LoopSplit as e:
                    if e.bb != bb:
                        raise
                    if len(outs) > 200:
                        raise Budget("loop body too branchy in %s" % b.name)
                    cur_st, cur_pc = self.st, self.pc
                    for want, side in ((1, e.then), (0, e.els)):
                        self.st, self.pc = dict(cur_st), dict(cur_pc)
                        self.assume(e.cond, want)
                        try:
                            t = side(frozenset((len(b.blocks),)))
                        except LoopSplit as e2:
                            # several tests in one terminator
                            self._split_again(fr, e2, loop, conds + [(e.cond, want)], outs)
                            continue
                        if t is None:
                            continue
                        if t.__class__ is Leaf:
                            self.st, self.pc, t = t.st, t.pc, t.bb
                        self._body_paths(fr, t, loop, self.st, self.pc, conds + [(e.cond, want)], outs, False)
                    return
                if nb is None:
                    return
                if nb.__class__ is Leaf:
                    self.st, self.pc = nb.st, nb.pc
                    nb = nb.bb
                elif nb.__class__ is not int:
                    raise Budget("loop body does not rejoin in %s" % b.name)
                bb = nb
        finally:
            self.st, self.pc, fr.nested = saved

    def _split_again(self, fr, e, loop, conds, outs):
        b = fr.body
        cur_st, cur_pc = self.st, self.pc
        for want, side in ((1, e.then), (0, e.els)):
            self.st, self.pc = dict(cur_st), dict(cur_pc)
            self.assume(e.cond, want)
            try:
                t = side(frozenset((len(b.blocks),)))
            except LoopSplit as e2:
                self._split_again(fr, e2, loop, conds + [(e.cond, want)], outs)
                continue
            if t is None:
                continue
            if t.__class__ is Leaf:
                self.st, self.pc, t = t.st, t.pc, t.bb
            self._body_paths(fr, t, loop, self.st, self.pc, conds + [(e.cond, want)], outs, False)


class LoopSplit(Exception):
    def __init__(self, bb, cond, then, els):
        self.bb = bb
        self.cond = cond
        self.then = then
        self.els = els


def _h(v):
    try:
        return hash(v)
    except TypeError:
        return 0
