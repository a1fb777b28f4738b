"""Hash-consed value graph (the value-number domain of the abstract interpreter).

A Node is an operator applied to argument values.  Arguments are Nodes or plain Python ints
(integer constants).  Two computations that build the same operator tree get the same Node.
Floating constants fold with IEEE double semantics, exactly as the compiled code would.
"""
import math
import struct
from fractions import Fraction


class Node:
    __slots__ = ("op", "args", "id", "f", "h")

    def __repr__(self):
        return show(self)


_table = {}
_all = []
current = None     # function being interpreted
origin = {}        # node id -> function instance that first built the value
BOOL_OPS = {"ovf", "beq", "lt", "le", "eq", "not", "isnan", "and", "or", "xor", "isfin", "isinf", "ieq", "ilt", "ile"}


def mk(op, *args):
    k = (op, args)
    n = _table.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = len(_all)
        n.f = None
        n.h = hash(k)
        _table[k] = n
        if current is not None:
            origin[n.id] = current
        _all.append(n)
    elif current is not None and n.id not in origin:
        origin[n.id] = current
    return n


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def const(x):
    x = float(x)
    k = ("c", fbits(x))
    n = _table.get(k)
    if n is None:
        n = Node()
        n.op = "c"
        n.args = ()
        n.id = len(_all)
        n.f = x
        n.h = hash(k)
        _table[k] = n
        if current is not None:
            origin[n.id] = current
        _all.append(n)
    elif current is not None and n.id not in origin:
        origin[n.id] = current
    return n


rat = {}           # node id -> rational a folded constant stands for (literals: their decimal)


def getrat(n):
    r = rat.get(n.id)
    if r is None:
        r = rat[n.id] = Fraction(repr(n.f))
    return r


def cfold(x, op, a, b=None):
    """constant computed from constants: rounded as compiled code rounds it, standing for the exact result"""
    k = ("c", fbits(x))
    if k in _table or not math.isfinite(x) or x == 0.0:
        return const(x)
    n = const(x)
    try:
        ra = getrat(a)
        if op == "powi":
            if abs(b) <= 64:
                rat[n.id] = ra ** b
        else:
            rb = getrat(b)
            rat[n.id] = ra + rb if op == "add" else ra - rb if op == "sub" else ra * rb if op == "mul" else ra / rb
    except (ValueError, ZeroDivisionError, OverflowError):
        pass
    return n


def sym(name, kind="f"):
    return mk("sym", name, kind)


def is_const(n):
    return n.__class__ is Node and n.op == "c"


def _fold1(f, a):
    try:
        return const(f(a.f))
    except (ValueError, ZeroDivisionError):
        return const(float("nan"))
    except OverflowError:
        return const(float("inf"))


def fdiv(a, b):
    if b == 0.0:
        if a == 0.0 or a != a or b != b:
            return float("nan")
        return math.copysign(1.0, a) * math.copysign(1.0, b) * float("inf")
    return a / b


def _cpow(a, b):
    try:
        r = math.pow(a, b)
    except ValueError:
        if a == 0.0:
            return float("inf")
        return float("nan")
    except OverflowError:
        return float("inf")
    return r


# observers of arithmetic on merged values (used by the sentinel analysis)
hook = None


def fop(op, a, b=None):
    """floating-point operation"""
    if hook is not None:
        hook(op, a, b)
    if b is None:
        if a.op == "c":
            x = a.f
            if op == "neg":
                n = const(-x)
                if a.id in rat and n.id not in rat:
                    rat[n.id] = -rat[a.id]
                return n
            if op == "abs":
                return const(abs(x))
            if op == "sqrt":
                return const(math.sqrt(x)) if x >= 0 else const(float("nan"))
            if op == "exp":
                return _fold1(math.exp, a)
            if op == "ln":
                if x == 0:
                    return const(float("-inf"))
                return _fold1(math.log, a)
            if op in ("floor", "ceil", "trunc"):
                return const(float(getattr(math, op)(x))) if math.isfinite(x) else a
        if op == "neg" and a.op == "neg":
            return a.args[0]
        return mk(op, a)
    if a.op == "c" and b.op == "c":
        x, y = a.f, b.f
        if op == "add":
            return cfold(x + y, op, a, b)
        if op == "sub":
            return cfold(x - y, op, a, b)
        if op == "mul":
            return cfold(x * y, op, a, b)
        if op == "div":
            return cfold(fdiv(x, y), op, a, b)
        if op == "powf":
            return const(_cpow(x, y))
        if op == "min":
            return b if x != x else (a if y != y else const(min(x, y)))
        if op == "max":
            return b if x != x else (a if y != y else const(max(x, y)))
        if op == "rem":
            return const(math.fmod(x, y)) if y != 0 and math.isfinite(x) else const(float("nan"))
    elif op == "add":
        if a.op == "c" and a.f == 0.0:
            return b
        if b.op == "c" and b.f == 0.0:
            return a
        if a.id > b.id:
            a, b = b, a
    elif op == "sub":
        if b.op == "c" and b.f == 0.0:
            return a
    elif op == "mul":
        if a.op == "c" and a.f == 1.0:
            return b
        if b.op == "c" and b.f == 1.0:
            return a
        if a.id > b.id:
            a, b = b, a
    elif op == "div":
        if b.op == "c" and b.f == 1.0:
            return a
    return mk(op, a, b)


def fpowi(a, k):
    """powi with an integer exponent (python int or Node)"""
    if k.__class__ is int:
        if k == 0:
            return const(1.0)
        if k == 1:
            return a
        if a.op == "c":
            if a.f == 0.0:
                return const(0.0 if k > 0 else float("inf"))
            try:
                return cfold(float(a.f) ** k, "powi", a, k)
            except OverflowError:
                return const(float("inf"))
    if hook is not None:
        hook("powi", a, None)
    return mk("powi", a, k)


def fcmp(op, a, b):
    """op in lt, le, gt, ge, eq, ne -> 0/1 or a bool Node"""
    if hook is not None:
        hook("cmp", a, b)
    if a.op == "c" and b.op == "c":
        x, y = a.f, b.f
        return int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op])
    if op == "gt":
        return mk("lt", b, a)
    if op == "ge":
        return mk("le", b, a)
    if op == "ne":
        return bnot(fcmp("eq", a, b))
    if op == "eq" and a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


def bnot(a):
    if a.__class__ is int:
        return 1 - a
    if a.op == "not":
        return a.args[0]
    if a.op == "ite":
        memo = {}

        def go(x):
            if x.__class__ is int or x.op != "ite":
                return bnot(x)
            r = memo.get(x.id)
            if r is None:
                r = memo[x.id] = ite(x.args[0], go(x.args[1]), go(x.args[2]))
            return r
        return go(a)
    return mk("not", a)


def band(a, b):
    if a.__class__ is int:
        return b if a else 0
    if b.__class__ is int:
        return a if b else 0
    if a is b:
        return a
    return mk("and", a, b)


def bor(a, b):
    if a.__class__ is int:
        return 1 if a else b
    if b.__class__ is int:
        return 1 if b else a
    if a is b:
        return a
    return mk("or", a, b)


def ite(c, a, b):
    if c.__class__ is int:
        return a if c else b
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.__class__ is int and b.__class__ is int and a == 1 and b == 0 and False:
        return c
    # collapse nested tests of the same condition
    if a.__class__ is Node and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.__class__ is Node and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    return mk("ite", c, a, b)


def show(n, depth=6):
    if n.__class__ is not Node:
        return repr(n)
    if n.op == "c":
        return repr(n.f)
    if n.op == "sym":
        return str(n.args[0])
    if depth <= 0:
        return "…"
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "=="}
    if n.op in inf:
        return "(" + show(n.args[0], depth - 1) + inf[n.op] + show(n.args[1], depth - 1) + ")"
    return n.op + "(" + ",".join(show(a, depth - 1) for a in n.args) + ")"


def leaves(n, acc=None):
    """the possible values of an ite tree (iterates over shared dag once)"""
    seen = set()
    out = []
    st = [n]
    while st:
        x = st.pop()
        if x.__class__ is Node:
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "ite":
                st.append(x.args[2])
                st.append(x.args[1])
                continue
        out.append(x)
    return out


def subnodes(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.__class__ is not Node or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


class E:
    """operator sugar over Nodes, for writing reference expressions"""
    __slots__ = ("n",)

    def __init__(self, n):
        if isinstance(n, E):
            n = n.n
        elif not isinstance(n, Node):
            n = const(n)
        self.n = n

    def _b(self, o, op, r=False):
        o = E(o)
        return E(fop(op, o.n, self.n) if r else fop(op, self.n, o.n))

    def __add__(self, o): return self._b(o, "add")
    def __radd__(self, o): return self._b(o, "add", True)
    def __sub__(self, o): return self._b(o, "sub")
    def __rsub__(self, o): return self._b(o, "sub", True)
    def __mul__(self, o): return self._b(o, "mul")
    def __rmul__(self, o): return self._b(o, "mul", True)
    def __truediv__(self, o): return self._b(o, "div")
    def __rtruediv__(self, o): return self._b(o, "div", True)
    def __neg__(self): return E(fop("neg", self.n))

    def __pow__(self, k):
        if isinstance(k, int):
            return E(fpowi(self.n, k))
        return E(fop("powf", self.n, E(k).n))


def exp(x): return E(fop("exp", E(x).n))
def ln(x): return E(fop("ln", E(x).n))
def sqrt(x): return E(fop("sqrt", E(x).n))
