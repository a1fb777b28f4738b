"""Termination of the summarised loops: a bound on the number of iterations that holds for all
inputs, derived from the loop's transition relation alone (integer counters, flags, halving
intervals, growing floating counters against a bounded cap)."""
import math

import numpy as np

import dag
from dag import Node, const, fop, fcmp
from evalg import Eval, topo

LIMIT = 10 ** 8


def peval(x, env, facts, memo=None):
    """constant value (int or float) of a node when env and facts settle it, else None"""
    if x.__class__ is not Node:
        return x if x.__class__ in (int, float) else None
    if memo is None:
        memo = {}
    r = memo.get(x.id, 0 if False else memo)
    if r is not memo:
        return r
    for y in topo([x]):
        if y.id in memo:
            continue
        memo[y.id] = _p1(y, env, facts, memo)
    return memo[x.id]


def _v(a, memo):
    return memo.get(a.id) if a.__class__ is Node else (a if a.__class__ in (int, float) else None)


def _p1(x, env, facts, memo):
    if x in env:
        return env[x]
    if x in facts:
        return facts[x]
    op = x.op
    if op == "c":
        return x.f
    if op in ("sym", "mu"):
        return None
    a = [_v(y, memo) for y in x.args]
    if op == "ite":
        if a[0] is not None:
            return a[1] if a[0] else a[2]
        return a[1] if a[1] is not None and a[1] == a[2] else None
    if op == "and":
        return 0 if 0 in a else 1 if a[0] is not None and a[1] is not None else None
    if op == "or":
        return 1 if a[0] or a[1] else 0 if a[0] is not None and a[1] is not None else None
    if any(v is None for v in a):
        return None
    try:
        if op == "not": return 1 - int(a[0])
        if op in ("lt", "ilt"): return int(a[0] < a[1])
        if op in ("le", "ile"): return int(a[0] <= a[1])
        if op in ("eq", "ieq", "beq"): return int(a[0] == a[1])
        if op == "i:Add": return a[0] + a[1]
        if op == "i:Sub": return a[0] - a[1]
        if op == "i:Mul": return a[0] * a[1]
        if op == "add": return a[0] + a[1]
        if op == "sub": return a[0] - a[1]
        if op == "mul": return a[0] * a[1]
        if op == "div": return dag.fdiv(a[0], a[1])
        if op == "neg": return -a[0]
        if op == "abs": return abs(a[0])
        if op == "min": return min(a[0], a[1])
        if op == "max": return max(a[0], a[1])
        if op == "itof": return float(a[0])
        if op == "isnan": return int(a[0] != a[0])
        if op == "isfin": return int(math.isfinite(a[0]))
    except (OverflowError, ValueError, TypeError):
        return None
    return None


def restrict(x, env, facts, memo):
    """resolve the gates of x that the facts settle"""
    while x.__class__ is Node and x.op == "ite":
        c = peval(x.args[0], env, facts, memo)
        if c is None:
            break
        x = x.args[1] if c else x.args[2]
    return x


def contains(x, ns):
    return x.__class__ is Node and any(y in ns for y in dag.subnodes(x))


class Path:
    def __init__(self, facts, nexts):
        self.facts = facts      # cond -> 0/1
        self.nexts = nexts      # mu -> value


def expand(L, limit=256, only=None):
    """the ways through the loop body, split on the gates of the next values"""
    out = []
    mus = {k: m for k, (m, _) in L["mus"].items()}
    nodes = {k: (m if m.__class__ is Node else m.path[-1]) for k, m in mus.items()}
    for i, conds in enumerate(L["backs"]):
        facts = {}
        for c, w in conds:
            addfact(facts, c, w)
        nx = {}
        for k, m in nodes.items():
            v = L["nexts"].get(k)
            v = v[i] if v is not None and i < len(v) else None
            if v.__class__.__name__ == "Ptr":
                v = v.path[-1] if v.path else None
            nx[m] = v
        todo = [facts]
        while todo:
            f = todo.pop()
            memo = {}
            split = None
            r = {}
            for m, v in nx.items():
                v = restrict(v, {}, f, memo)
                r[m] = v
                if v.__class__ is Node and v.op == "ite" and split is None and (only is None or m in only) and small(v):
                    split = v.args[0]
            if split is None or len(out) + len(todo) > limit:
                if feasible(f):
                    out.append(Path(f, r))
                continue
            for w in (1, 0):
                g = dict(f)
                addfact(g, split, w)
                todo.append(g)
    return out, list(nodes.values()), {n: L["mus"][k][1] for k, n in nodes.items()}


def small(v):
    n = 0
    for _ in dag.subnodes(v):
        n += 1
        if n > 4000:
            return False
    return True


def addfact(f, c, w):
    if c.__class__ is not Node:
        return
    f[c] = w
    if c.op == "not":
        addfact(f, c.args[0], 1 - w)
    elif c.op == "and" and w:
        for a in c.args:
            addfact(f, a, 1)
    elif c.op == "or" and not w:
        for a in c.args:
            addfact(f, a, 0)


def contradicts(p, env):
    """conditions of p cannot all hold when the loop-carried values are env"""
    memo = {}
    for c, w in p.facts.items():
        v = peval(c, env, {}, memo)
        if v is not None and int(v) != w:
            return True
    return False


def apart(p, q, mus):
    """the two ways through the body decide something differently that does not change during the loop"""
    return any(q.facts.get(c, w) != w and not contains(c, set(mus)) for c, w in p.facts.items())


def reached(p, q, mus):
    """after p a carried value is the very limit q requires it to differ from, and the limit is a number"""
    for c, w in q.facts.items():
        if c.op != "eq" or w:
            continue
        for m, lim in (c.args, c.args[::-1]):
            if m in p.nexts and p.nexts[m] is lim and lim.__class__ is Node and not contains(lim, set(mus)) and any(
                    f.op in ("lt", "le", "eq") and v == 1 and lim in f.args for f, v in p.facts.items()):
                return True
    return False


def step(m, v):
    """constant increment of a counter, None when it is not one"""
    if v is m:
        return 0
    if v.__class__ is not Node:
        return None
    if v.op in ("i:Add", "add"):
        a, b = v.args
        if b is m:
            a, b = b, a
        if a is m:
            if b.__class__ is int:
                return b
            if b.__class__ is Node and b.op == "c":
                return b.f
    if v.op in ("i:Sub", "sub") and v.args[0] is m:
        b = v.args[1]
        if b.__class__ is int:
            return -b
        if b.__class__ is Node and b.op == "c":
            return -b.f
    return None


def cval(x):
    if x.__class__ is int:
        return x
    if x.__class__ is Node and x.op == "c":
        return x.f
    return None


def offset(x, m):
    """x = m + k: k"""
    return step(m, x)


def ubound(x, facts=None):
    """a constant upper bound of a value (on the inputs the facts allow), +inf when there is none in reach"""
    c = cval(x)
    if c is not None:
        return c
    return interval(x, facts)[1] if x.__class__ is Node else math.inf


def lbound(x, facts=None):
    c = cval(x)
    if c is not None:
        return c
    return interval(x, facts)[0] if x.__class__ is Node else -math.inf


def leafs(x):
    return [y for y in dag.subnodes(x) if y.op in ("sym", "mu", "loopexit", "loop")]


_iv, _fs = {}, {}


def onesym(facts):
    """the facts that speak of one argument only, by argument"""
    out = {}
    for c, w in (facts or {}).items():
        s = _fs.get(c.id)
        if s is None:
            l = leafs(c)
            s = _fs[c.id] = l[0] if len(l) == 1 and l[0].op == "sym" else False
        if s:
            out.setdefault(s, []).append((c, w))
    return out


def feasible(facts):
    """False when the facts about a single argument exclude one another"""
    for s, fs in onesym(facts).items():
        if s.args[-1] == "f" and cells(s, [c for c, _ in fs], fs) is None:
            return False
    return True


def interval(x, facts=None):
    l = leafs(x)
    if not l:
        c = peval(x, {}, {})
        return (c, c) if c is not None else (-math.inf, math.inf)
    if len(l) != 1 or l[0].op != "sym":
        return (-math.inf, math.inf)
    s = l[0]
    fs = onesym(facts).get(s, []) if facts else []
    key = (x.id, tuple(sorted((c.id, w) for c, w in fs)))
    r = _iv.get(key)
    if r is None:
        try:
            r = cells(s, [x], fs)
        except (ValueError, KeyError, FloatingPointError):
            r = (-math.inf, math.inf)
        if r is None:
            r = (math.inf, -math.inf)      # no input gets here
        _iv[key] = r
    return r


def cells(s, xs, fs):
    """range of the first of xs over the values of s the facts allow (None: no value is allowed):
    interval arithmetic over the cells that the comparisons with constants cut the line into,
    each finely divided"""
    x = xs[0]
    roots = list(xs) + [c for c, _ in fs]
    cuts = set()
    for y in topo(roots):
        if y.op in ("lt", "le", "eq"):
            for a, b in (y.args, y.args[::-1]):
                k = cval(b)
                if k is None:
                    continue
                if a is s:
                    cuts.add(k)
                else:
                    d = step(s, a)
                    if d is not None:
                        # the rounding of s + d moves the cut by a few units in the last place
                        e = 1e-15 * (abs(k) + abs(d))
                        cuts.update((k - d - e, k - d + e))
    cs = sorted(c for c in cuts if math.isfinite(c))
    lo, hi = [], []
    for a, b in zip(cs, cs[1:]):
        e = np.linspace(a, b, 4001 if b - a > 1e-9 else 2)
        # neighbouring cells overlap by an ulp so that rounding of the cut itself is covered
        lo.append(np.nextafter(e[:-1], -np.inf))
        hi.append(np.nextafter(e[1:], np.inf))
    if not cs:
        lo, hi = [np.array([-np.inf])], [np.array([np.inf])]
    else:
        lo = [np.array([-np.inf])] + lo + [np.array([np.nextafter(cs[-1], -np.inf)])]
        hi = [np.array([np.nextafter(cs[0], np.inf)])] + hi + [np.array([np.inf])]
    lo, hi = np.concatenate(lo), np.concatenate(hi)
    V = {}
    with np.errstate(all="ignore"):
        for y in topo(roots):
            V[y.id] = _i1(y, s, lo, hi, V)
    ok = np.ones(len(lo), bool)
    for c, w in fs:
        l, h = V[c.id]
        ok &= (h > 0.5) if w else (l < 0.5)
    a, b = V[x.id]
    a, b = np.where(np.isnan(a), -np.inf, a)[ok], np.where(np.isnan(b), np.inf, b)[ok]
    r = [float(a.min()), float(b.max())] if len(a) else None
    # the argument that is not a number
    memo = {}
    nan = float("nan")
    if all(peval(c, {s: nan}, {}, memo) in (None, w) for c, w in fs):
        v = peval(x, {s: nan}, {}, memo)
        if v is None:
            r = [-math.inf, math.inf]
        elif v == v:
            r = [min(r[0], v), max(r[1], v)] if r else [v, v]
        else:
            r = r or [math.inf, -math.inf]
    return tuple(r) if r else None


def _i1(y, s, lo, hi, V):
    n = len(lo)
    if y is s:
        return lo, hi
    if y.op == "c":
        return np.full(n, y.f), np.full(n, y.f)
    a = [V[z.id] if z.__class__ is Node else (np.full(n, float(z)),) * 2 if z.__class__ in (int, float) else (np.full(n, -np.inf), np.full(n, np.inf)) for z in y.args]
    op = y.op

    def out(x, z):
        return np.nextafter(np.where(np.isnan(x), -np.inf, x), -np.inf), np.nextafter(np.where(np.isnan(z), np.inf, z), np.inf)
    if op in ("add", "i:Add"):
        return out(a[0][0] + a[1][0], a[0][1] + a[1][1])
    if op in ("sub", "i:Sub"):
        return out(a[0][0] - a[1][1], a[0][1] - a[1][0])
    if op in ("mul", "i:Mul"):
        c = np.stack([a[0][i] * a[1][j] for i in (0, 1) for j in (0, 1)])
        bad = np.isnan(c).any(axis=0)
        return out(np.where(bad, -np.inf, c.min(axis=0)), np.where(bad, np.inf, c.max(axis=0)))
    if op == "div":
        z = (a[1][0] <= 0) & (a[1][1] >= 0)
        c = np.stack([a[0][i] / a[1][j] for i in (0, 1) for j in (0, 1)])
        bad = z | np.isnan(c).any(axis=0)
        return out(np.where(bad, -np.inf, c.min(axis=0)), np.where(bad, np.inf, c.max(axis=0)))
    if op == "neg":
        return -a[0][1], -a[0][0]
    if op == "abs":
        l, h = a[0]
        return np.where((l <= 0) & (h >= 0), 0, np.minimum(np.abs(l), np.abs(h))), np.maximum(np.abs(l), np.abs(h))
    if op == "sqrt":
        return out(np.sqrt(np.maximum(a[0][0], 0)), np.sqrt(np.maximum(a[0][1], 0)))
    if op == "exp":
        return out(np.exp(a[0][0]) * (1 - 1e-15), np.exp(a[0][1]) * (1 + 1e-15))
    if op == "powi" and y.args[1].__class__ is int:
        k = y.args[1]
        if k < 0:
            z = (a[0][0] <= 0) & (a[0][1] >= 0)
        else:
            z = np.zeros(n, bool)
        p, q = np.power(a[0][0], float(k)), np.power(a[0][1], float(k))
        l, h = np.minimum(p, q), np.maximum(p, q)
        if k % 2 == 0 and k > 0:
            l = np.where((a[0][0] <= 0) & (a[0][1] >= 0), 0, l)
        return out(np.where(z, -np.inf, l * np.where(l > 0, 1 - 1e-13, 1 + 1e-13)), np.where(z, np.inf, h * np.where(h > 0, 1 + 1e-13, 1 - 1e-13)))
    if op in ("lt", "ilt"):
        return (a[0][1] < a[1][0]).astype(float), (a[0][0] < a[1][1]).astype(float)
    if op in ("le", "ile"):
        return (a[0][1] <= a[1][0]).astype(float), (a[0][0] <= a[1][1]).astype(float)
    if op == "not":
        return 1 - a[0][1], 1 - a[0][0]
    if op == "and":
        return np.minimum(a[0][0], a[1][0]), np.minimum(a[0][1], a[1][1])
    if op == "or":
        return np.maximum(a[0][0], a[1][0]), np.maximum(a[0][1], a[1][1])
    if op == "ite":
        cl, ch = a[0]
        t, e = cl > 0.5, ch < 0.5
        return (np.where(t, a[1][0], np.where(e, a[2][0], np.minimum(a[1][0], a[2][0]))),
                np.where(t, a[1][1], np.where(e, a[2][1], np.maximum(a[1][1], a[2][1]))))
    if op == "min":
        return np.minimum(a[0][0], a[1][0]), np.minimum(a[0][1], a[1][1])
    if op == "max":
        return np.maximum(a[0][0], a[1][0]), np.maximum(a[0][1], a[1][1])
    if op in ("eq", "ieq", "isnan", "isfin", "isinf", "beq", "ovf"):
        return np.zeros(n), np.ones(n)
    return np.full(n, -np.inf), np.full(n, np.inf)


def bounds_by(facts, m, mus):
    """constant upper and lower limits the facts put on m (or on m + k): (hi, lo) of m itself"""
    hi, lo = math.inf, -math.inf
    ms = set(mus)
    for c, w in facts.items():
        if c.op not in ("ilt", "ile", "lt", "le"):
            continue
        a, b = c.args
        for x, y, side in ((a, b, 0), (b, a, 1)):
            k = offset(x, m)
            if k is None or contains(y, ms):
                continue
            # w: x<y (side 0) or y<x (side 1); a false comparison of floats may be a NaN
            less = (side == 0) == bool(w)
            if w == 0 and c.op in ("lt", "le") and not finite_always(m):
                # not (x<y): x>=y or NaN; NaN counters do not come back to being numbers
                pass
            if less:
                u = ubound(y, facts)
                if u is not None:
                    hi = min(hi, u - k)
            else:
                l = lbound(y, facts)
                if l is not None:
                    lo = max(lo, l - k)
        if c.op == "ieq" and w == 0:
            pass
    return hi, lo


def finite_always(m):
    return True


OPAQUE = ("opaque", "opaquecmp", "opaquediscr", "opaquecond")


def unknown(L):
    """whether a value that the analysis does not understand decides how the loop goes on"""
    if "unknown" not in L:
        r, seen = False, set()
        st = [v for vs in L["nexts"].values() for v in vs]
        st += [c for pc in L["backs"] for c in (pc.items() if isinstance(pc, dict) else pc)]
        while st and not r:
            x = st.pop()
            if x.__class__ is tuple:
                st.extend(x)
            elif x.__class__ is Node and x.id not in seen:
                seen.add(x.id)
                r = x.op in OPAQUE
                st.extend(x.args)
            elif x.__class__.__name__ == "Opaque":
                r = True
            elif x.__class__.__name__ == "Agg":
                st.extend(x.f)
        L["unknown"] = r
    return L["unknown"]


def loop_bound(L):
    """(number of iterations, rule) that bounds the loop for all inputs, or (None, why not)"""
    ctl = {n for n in (m if m.__class__ is Node else m.path[-1] for m, _ in L["mus"].values())
           if not isfloat(n)} | {(m if m.__class__ is Node else m.path[-1]) for m, i in L["mus"].values() if cval(i) is not None}
    r = _loop_bound(L, ctl)
    if r[0] is None:
        q = _loop_bound(L, None)
        if q[0] is not None:
            return q
    return r


def _loop_bound(L, ctl):
    paths, mus, inits = expand(L, only=ctl)
    if not paths:
        return 1, "never repeats"
    # paths after which no path can be taken again
    keep = []
    for p in paths:
        env = {}
        memo = {}
        for m, v in p.nexts.items():
            c = peval(v, {}, p.facts, memo) if v is not None else None
            if c is not None:
                env[m] = c
        if all(contradicts(q, env) or apart(p, q, mus) or reached(p, q, mus) for q in paths):
            continue
        keep.append(p)
    if not keep:
        return 2, "a flag ends the loop"
    env0 = {m: cval(i) for m, i in inits.items() if cval(i) is not None}
    if all(contradicts(p, env0) for p in keep):
        return 2, "a flag ends the loop in its first iteration"
    best, why = None, []
    # counters
    for m in mus:
        st = [step(m, p.nexts[m]) for p in keep]
        if any(s is None for s in st):
            continue
        up = all(s > 0 for s in st)
        if not up and not all(s < 0 for s in st):
            if any(s != 0 for s in st):
                why.append("%s is not advanced on every way through the body" % name(L, m))
            continue
        i0 = inits[m]
        ok, n = True, 0
        for p, s in zip(keep, st):
            hi, lo = bounds_by(p.facts, m, mus)
            if up:
                a = lbound(i0)
                lim = hi
                c = (lim - a) / s if math.isfinite(lim) and math.isfinite(a) else math.inf
            else:
                a = ubound(i0)
                lim = lo
                c = (a - lim) / -s if math.isfinite(lim) and math.isfinite(a) else math.inf
            if isinstance(s, float) and abs(s) < 1e-12 * max(1.0, abs(lim) if math.isfinite(lim) else 1.0):
                c = math.inf
            # x != N with steps of one
            if c == math.inf:
                for f, w in p.facts.items():
                    if f.op == "ieq" and w == 0 and m in f.args:
                        k = cval(f.args[0] if f.args[1] is m else f.args[1])
                        if k is not None and abs(s) == 1 and cval(i0) is not None and (k - cval(i0)) * s >= 0:
                            c = abs(k - cval(i0))
            n = max(n, c)
        if math.isfinite(n):
            n = int(math.ceil(max(n, 0))) + 2
            if best is None or n < best[0]:
                best = (n, "counter %s" % name(L, m))
        else:
            why.append("%s is not compared with a constant limit on every way through the body" % name(L, m))
    if best and best[0] <= LIMIT:
        return best
    # interval halving
    fl = [m for m in mus if isfloat(m)]
    for i, a in enumerate(fl):
        for b in fl[i + 1:]:
            w = width(keep, a, b)
            if w is None:
                continue
            la, ua, lb, ub = lbound(inits[a]), ubound(inits[a]), lbound(inits[b]), ubound(inits[b])
            d0 = max(abs(ua - lb), abs(ub - la))
            if not math.isfinite(d0):
                why.append("the initial interval %s, %s is unbounded" % (name(L, a), name(L, b)))
                continue
            if w < 1e-14 * max(abs(x) for x in (la, ua, lb, ub)):
                why.append("the interval %s, %s is halved below the resolution of its values" % (name(L, a), name(L, b)))
                continue
            return int(math.ceil(math.log2(max(d0 / w, 1)))) + 3, "the interval %s, %s halves until it is smaller than %g" % (name(L, a), name(L, b), w)
    # growing value against a bounded cap
    for m in fl:
        x = cval(inits[m])
        if x is None:
            continue
        n = chain(keep, m, mus, x)
        if n is not None:
            return n, "%s grows from %g beyond its bounded cap" % (name(L, m), x)
    if best:
        return best
    return None, "; ".join(dict.fromkeys(why)) or "no counter, no shrinking interval, no growing value bounds it"


def isfloat(m):
    return m.args[-1] == "f"


def name(L, m):
    for k, (x, _) in L["mus"].items():
        y = x if x.__class__ is Node else x.path[-1]
        if y is m:
            return L["names"].get(k, "?")
    return "?"


def width(keep, a, b):
    """every path halves b - a and requires |b - a| > eps: eps"""
    eps = math.inf
    rng = np.random.default_rng(5)
    n = 8
    va, vb = rng.uniform(1, 2, n), rng.uniform(3, 4, n)
    for p in keep:
        x, y = p.nexts[a], p.nexts[b]
        for v in (x, y):
            if v.__class__ is not Node or any(z.op in ("mu", "sym") and z is not a and z is not b for z in dag.subnodes(v)):
                return None
        ev = Eval(n, {a: va, b: vb}, vn=False)
        ev.run([x, y])
        d = np.abs(ev.f(y) - ev.f(x))
        if not (d <= 0.5 * np.abs(vb - va) * (1 + 1e-12)).all():
            return None
        e = None
        for c, w in p.facts.items():
            if c.op not in ("lt", "le"):
                continue
            for k, z, big in ((c.args[0], c.args[1], w == 1), (c.args[1], c.args[0], w == 0)):
                kv = cval(k)
                if kv is None or not big or kv <= 0 or z.__class__ is not Node:
                    continue
                if any(q.op in ("mu", "sym") and q is not a and q is not b for q in dag.subnodes(z)):
                    continue
                ev = Eval(n, {a: va, b: vb}, vn=False)
                ev.run([z])
                r = ev.f(z) / np.abs(vb - va)
                if np.allclose(r, r[0], rtol=1e-9) and r[0] > 0:
                    e = max(e or 0, kv / float(r[0]))
        if e is None:
            return None
        eps = min(eps, e)
    return eps


def chain(keep, m, mus, x):
    """iterations until the growth of m contradicts a path condition 'm below cap' on every path"""
    others = set(mus) - {m}
    rel = []
    for p in keep:
        v = p.nexts[m]
        if v.__class__ is not Node or any(y.op in ("sym", "mu") and y is not m for y in dag.subnodes(v)):
            return None
        caps = []
        for c, w in p.facts.items():
            if c.op not in ("lt", "le"):
                continue
            a, b = c.args
            # value < cap is what lets the loop go on
            val, cap = (a, b) if w == 1 else (b, a)
            if contains(val, {m}) and not contains(cap, set(mus)) and not any(y.op in ("sym", "mu") and y is not m for y in dag.subnodes(val)):
                u = ubound(cap, p.facts)
                if math.isfinite(u):
                    caps.append((val, u))
        if not caps:
            return None
        rel.append((p, v, caps))
    n = 0
    while n < 100000:
        nxt = set()
        for p, v, caps in rel:
            if contradicts(p, {m: x}):
                continue
            memo = {}
            y = peval(v, {m: x}, {}, memo)
            if y is None:
                return None
            go = True
            for val, u in caps:
                z = peval(val, {m: x}, {}, memo)
                if z is None or not z <= u:
                    go = False if z is not None else go
            if go:
                nxt.add(y)
        if not nxt:
            return n + 2
        if len(nxt) > 1:
            return None
        (y,) = nxt
        if not y > x:
            return None
        x = y
        n += 1
    return None


def mu_ranges(L, bound):
    """range of the integer counters during the loop"""
    out = {}
    paths, mus, inits = expand(L)
    for m in mus:
        if isfloat(m):
            continue
        st = [step(m, p.nexts[m]) for p in paths]
        i0 = cval(inits[m])
        if i0 is None:
            i0s = [x for x in dag.leaves(inits[m])] if inits[m].__class__ is Node else []
            if not i0s or any(x.__class__ is not int for x in i0s):
                continue
            lo, hi = min(i0s), max(i0s)
        else:
            lo = hi = i0
        if any(s is None for s in st):
            # a flag: assigned constants
            vs = []
            for p in paths:
                v = p.nexts[m]
                if v is m:
                    continue
                if v.__class__ is int:
                    vs.append(v)
                else:
                    vs = None
                    break
            if vs is not None:
                out[m] = (min([lo] + vs), max([hi] + vs))
            continue
        s = max([0] + st)
        t = min([0] + st)
        out[m] = (lo + t * bound, hi + s * bound)
    return out
