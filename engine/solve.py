"""C17: iterative solutions solve the forward equation for the value that was given"""
import numpy as np

import core
import dag
import loops
import spec
import structure
from checks import ET, EP, K, S, TK, inputs, place4
from core import PAIRS, QUAL
from dag import E, Node, mk, sym
from evalg import Eval, topo
from spec import ONAMES
from iteration import livemask
from structure import startorder

OF = {"p": spec.OP, "t": spec.OT, "v": spec.OV, "h": spec.OH, "s": spec.OS}
A_, B_ = sym("cand.a"), sym("cand.b")


def node(m):
    return m if m.__class__ is Node else m.path[-1]


class Loops:
    """the loops a set of value graphs rests on, and what they rest on in turn"""

    def __init__(self, I, roots):
        self.I = I
        self.starts = {}
        for lid, L in enumerate(I.looplist):
            if L is not None:
                for m, i in L["mus"].values():
                    m = node(m)
                    self.starts[m.id] = (m, i, lid)
        self.cl = {}
        self.lids = sorted(self.of(roots))

    def direct(self, roots):
        out = set()
        for x in topo([r for r in roots if r.__class__ is Node]):
            if x.op in ("mu", "loopexit"):
                out.add(x.args[0])
        return out

    def parts(self, lid):
        L = self.I.looplist[lid]
        if L is None:
            return []
        rs = [i for _, i in L["mus"].values()]
        for vs in L["nexts"].values():
            rs += vs
        rs += [c for _, cs in L["exits"] for c, _ in cs] + [c for cs in L["backs"] for c, _ in cs]
        return [r for r in rs if r.__class__ is Node]

    def of(self, roots):
        out, todo = set(), self.direct(roots)
        while todo:
            l = todo.pop()
            if l in out:
                continue
            out.add(l)
            if l not in self.cl:
                self.cl[l] = self.direct(self.parts(l))
            todo |= self.cl[l] - out
        return out


# ------------------------------------------------------------------ forward properties
def forms(fn, r):
    """(target, what, graph over the unknowns A and B, domain of A, domain of B or None)"""
    T_, p_ = (200.0, 3000.0), (1e-9, 300.0)
    out = []
    given = {c: S[c] for c in fn}
    for c in fn:
        if c in "t":
            continue
        others = [x for x in fn if x != c]
        x = others[0]
        if r == 4:
            if c == "x":
                continue
            a, q = E(A_), E(S[c])
            if fn in QUAL:
                p, T, dom = spec.psat(a), a, (273.1, 647.2)
            else:
                p, T, dom = a, spec.tsat(a), (6e-4, 22.1)
            o = OF[c]
            l, g = spec.satprop(p, T, 0, o), spec.satprop(p, T, 1, o)
            out.append((c, "saturated water", l, dom, None))
            out.append((c, "saturated steam", g, dom, None))
            if x == "x":
                out.append((c, "wet steam", l + E(S["x"]) * (g - l), dom, None))
                out.append(("x", "quality", (q - l) / (g - l), dom, None))
            else:
                l2, g2 = spec.satprop(p, T, 0, OF[x]), spec.satprop(p, T, 1, OF[x])
                y = (E(S[x]) - l2) / (g2 - l2)
                out.append((c, "wet steam", l + y * (g - l), dom, None))
                if o == spec.OS:
                    # in region 3 by way of v(p,h)
                    l, g = (spec.hprop(T, 1.0 / spec.ph3v(p, spec.satprop(p, T, k, spec.OH)), o) for k in (0, 1))
                    out.append((c, "wet steam", l + y * (g - l), dom, None))
            continue
        if r == 3:
            d_ = (1.0, 1200.0)
            if c == "v":
                continue
            if x == "v":
                out.append((c, "f(v,T)", spec.hprop(E(A_), 1.0 / E(S["v"]), OF[c]), T_, None))
            elif x == "t":
                out.append((c, "f(d,t)", spec.hprop(TK(S["t"]), E(A_), OF[c]), d_, None))
                out.append((c, "f(v,t)", spec.hprop(TK(S["t"]), 1.0 / E(A_), OF[c]), (1e-3, 1.0), None))
            else:
                out.append((c, "f(T,d)", spec.hprop(E(A_), E(B_), OF[c]), T_, d_))
            continue
        if c == "p":
            continue
        if x == "p":
            out.append((c, "f(p,T)", spec.gprop(r, E(S["p"]), E(A_), OF[c]), T_, None))
        elif x == "t":
            out.append((c, "f(p,t)", spec.gprop(r, E(A_), TK(S["t"]), OF[c]), p_, None))
        else:
            out.append((c, "f(p,T)", spec.gprop(r, E(A_), E(B_), OF[c]), p_, T_))
    return [(c, w, E(g).n, da, db) for c, w, g, da, db in out]


def unknown(what, r, fn):
    """what the unknowns of a form are"""
    if r == 4:
        return ("T",) if fn in QUAL else ("p",)
    return {"f(v,T)": ("T",), "f(d,t)": ("d",), "f(v,t)": ("v",), "f(T,d)": ("T", "d"), "f(p,t)": ("p",)}.get(what) or (("T",) if "p" in fn else ("p", "T"))


def rebuild(g, sub):
    """graph with symbols replaced"""
    memo = dict(sub)
    for x in topo([g]):
        if x.id in memo:
            continue
        if not x.args or x.op in ("sym", "mu", "c"):
            memo[x.id] = x
            continue
        memo[x.id] = mk(x.op, *[memo[a.id] if a.__class__ is Node else a for a in x.args])
    return memo[g.id]


def armconsts(lp, roots):
    """constants that are alternatives of a value or starting values"""
    out = {}
    parts = list(roots)
    for l in lp.lids:
        parts += lp.parts(l)
        parts += [i for _, i in lp.I.looplist[l]["mus"].values()]
    for x in topo([p for p in parts if p.__class__ is Node]):
        if x.op == "ite":
            for a in x.args[1:]:
                if a.__class__ is Node and a.op == "c":
                    out[a.id] = a
    for p in parts:
        if p.__class__ is Node and p.op == "c":
            out[p.id] = p
    return list(out.values())


def explore(fn, r):
    api = core.Api()
    roots = []
    for o in (spec.OP, spec.OT, spec.OD, spec.OH, spec.OX):
        g = api.call(fn, o, r) if fn in PAIRS else api.call(fn, o)
        if g.__class__ is Node:
            roots.append(g)
    lp = Loops(api.I, roots)
    return api, roots, lp


def comparisons(lp, lid, targets):
    """operations of the loop and of its start that hold a computed quantity against a given value"""
    tid = {S[c].id: c for c in targets}
    out = []
    for x in topo(lp.parts(lid)):
        if x.op in ("sub", "lt", "le", "eq", "div"):
            a, b = x.args
            for y, q in ((a, b), (b, a)):
                if y.__class__ is Node and y.id in tid and q.__class__ is Node and q.op != "sym" and (q.op != "c" or x.op == "sub"):
                    out.append((x, tid[y.id], q))
    return out


# ------------------------------------------------------------------ states in the middle of an iteration
def midstates(cx, fn, r, n):
    if r == 4:
        u = cx.rng.random(n)
        # a third of the qualities next to 0 and 1
        u = np.where(np.arange(n) % 6 == 1, u ** 2 / 8, np.where(np.arange(n) % 6 == 4, 1 - u ** 2 / 8, u))
        st = place4(cx.rng.random(n), 0.002 + 0.996 * u)
        st = st.sub(st.T < 640.0)
    else:
        st = core.region_states(r, n, cx.rng)
        st = st.sub(st.p > 1e-3)
    return st


def assign(lp, roots, st, base, rng, spread=0.02):
    """values of everything the loops carry: off their starting values by up to the given share"""
    n = st.n
    parts = list(roots)
    for l in lp.lids:
        parts += lp.parts(l)
    order = startorder(parts, {k: (m, i) for k, (m, i, _) in lp.starts.items()})
    e = Eval(n, base, vn=False)
    vals = {}
    for m, init in order:
        if init.__class__ is Node:
            e.run([init])
            v = np.array(e.f(init), dtype=float)
        else:
            v = np.full(n, float(init))
        if m.args[3] == "f":
            v = v * (1.0 + spread * (2.0 * rng.random(n) - 1.0))
        e.values[m.id] = v
        vals[m] = v
    for p in parts:
        if p.__class__ is not Node:
            continue
        for x in topo([p]):
            if x.op == "loopexit" and x not in vals:
                vals[x] = (rng.random(n) < 0.5).astype(float)
    return vals


def match(fn, r, ev, q, target, given, extra=(), live=None):
    """the iterates (X, Y) at which the expression is the forward property of the given value's kind:
    (what, X, Y, states at which it is)"""
    ev.run(list(extra))
    order = topo([q] + list(extra))
    n = ev.n
    fq = ev.f(q)
    js = [j for j in range(n) if np.isfinite(fq[j]) and (live is None or live[j])]
    js = js[:: max(1, len(js) // 8)][:8]
    if len(js) < 4:
        return
    cand = {}
    for x in order:
        if x.op in dag.BOOL_OPS or x is q:
            continue
        f = ev.f(x)
        if np.all(np.isfinite(f[js])):
            cand.setdefault(f.tobytes(), (x, f[js]))
    cand = list(cand.values())
    best = {}
    for c, what, g, da, db in forms(fn, r):
        if c != target:
            continue
        ca = [(x, f) for x, f in cand if np.mean((f > da[0]) & (f < da[1])) > 0.6]
        cb = [(x, f) for x, f in cand if np.mean((f > db[0]) & (f < db[1])) > 0.6] if db else [(None, None)]
        pairs = [(a, b) for a in ca for b in cb]
        if not pairs:
            continue
        m = len(js)
        vals = {A_: np.concatenate([a[1] for a, _ in pairs])}
        if db:
            vals[B_] = np.concatenate([b[1] for _, b in pairs])
        for s in given:
            vals[s] = np.tile(given[s][js], len(pairs))
        w = Eval(len(pairs) * m, vals, vn=False).run([g]).f(g).reshape(len(pairs), m)
        with np.errstate(all="ignore"):
            ok = np.sum(np.abs(w - fq[js][None, :]) <= 1e-9 * np.abs(w) + 1e-13, axis=1) >= m // 2
        for k in np.nonzero(ok)[0]:
            (xa, _), (xb, _) = pairs[k]
            ref = rebuild(g, {A_.id: xa, **({B_.id: xb} if db else {})})
            ev.run([ref])
            va, vb = ev.v(q), ev.v(ref)
            if va is None or vb is None:
                continue
            same = (va == vb).all(axis=0)
            if q.op == "c" or xa.op == "c" or xb is not None and xb.op == "c":
                # evaluated at a constant: the compiler's folding has rounded
                with np.errstate(all="ignore"):
                    same = same | (np.abs(ev.f(q) - ev.f(ref)) <= 1e-10 * np.abs(ev.f(ref)))
            if same.any():
                key = (xa.id, xb.id if xb else None)
                o = best.get(key)
                best[key] = (what, xa, xb, same) if o is None else (o[0], xa, xb, o[3] | same)
    yield from sorted(best.values(), key=lambda b: -b[3].sum())


# ------------------------------------------------------------------ the rules
WIDE = {"h": 100.0, "s": 0.3, "x": 1.0}


class Solver:
    """one input pair and region"""

    def __init__(self, cx, fn, r):
        self.cx, self.fn, self.r = cx, fn, r
        self.api = core.Api(cx.api.P)
        self.roots = []
        self.reported = {}
        for o in (spec.OP, spec.OT, spec.OD, spec.OH, spec.OX):
            g = self.api.call(fn, o, r) if fn in PAIRS else self.api.call(fn, o)
            if g.__class__ is Node:
                self.roots.append(g)
                self.reported[o] = g
        self.lp = Loops(self.api.I, self.roots)
        self.label = "%s region %d" % (fn, r) if fn in PAIRS else fn
        self.targets = [c for c in fn if c != "t"]

    def name(self, lid):
        return structure.plain(self.api.I.looplist[lid]["fn"]).split("::")[-1]

    def viol(self, lid, what, **k):
        L = self.api.I.looplist[lid]
        if any(self.api.I.looplist[l] is not None and loops.unknown(self.api.I.looplist[l]) for l in self.lp.lids):
            self.cx.R.und("%s: %s: a loop depends on a value the analysis does not understand" % (self.label, what))
            return
        self.cx.R.viol("%s/%s/%s" % (self.label, self.name(lid), what), where="%s (%s)" % (L["fn"], structure.where(L["span"])), **k)

    # -------------------------------------------------- evaluation
    def evaluate(self, n, rng):
        self.st = midstates(self.cx, self.fn, self.r, n)
        self.base = inputs(self.fn, self.st)
        self.mv = assign(self.lp, self.roots, self.st, self.base, rng)
        lp = self.lp
        allparts = [p for l in lp.lids for p in lp.parts(l)] + [node(m) for l in lp.lids for m, _ in lp.I.looplist[l]["mus"].values()]
        self.n = self.st.n
        self.ev = Eval(self.n, {**self.base, **self.mv})
        self.ev.run(self.roots + allparts)
        self.live = {}
        todo = [(self.roots, np.ones(self.n, bool))]
        done = set()
        while todo:
            rs, m = todo.pop()
            order = topo(rs)
            L = livemask(order, self.ev, [(x, m) for x in rs])
            hit = {}
            for x in order:
                if x.op in ("mu", "loopexit") and x.id in L:
                    hit[x.args[0]] = hit.get(x.args[0], np.zeros(self.n, bool)) | L[x.id]
            for l, k in hit.items():
                o = self.live.get(l)
                w = k if o is None else o | k
                if o is None or (w & ~o).any():
                    self.live[l] = w
                    todo.append((lp.parts(l), w))
        self.liveop = {}
        for l in lp.lids:
            if l in self.live:
                ps = lp.parts(l)
                self.liveop[l] = livemask(topo(ps), self.ev, [(p, self.live[l]) for p in ps])

    def sel(self, c, w=True):
        """states at which a condition holds"""
        if c.__class__ is not Node:
            return np.full(self.n, bool(c) == bool(w))
        t = np.broadcast_to(self.ev.f(c) > 0.5, (self.n,))
        return t == bool(w)

    def path(self, conds):
        m = np.ones(self.n, bool)
        for c, w in conds:
            m = m & self.sel(c, w)
        return m

    # -------------------------------------------------- A: what the given value is compared with
    def matches(self):
        self.rec = {}       # node id of a forward property -> (target, X, Y, states)
        cache = {}
        consts = self.consts = armconsts(self.lp, self.roots)
        R = self.cx.R
        self.comps = {}
        self.rel = {}
        self.iterates = {}
        matched = set()
        for l in self.lp.lids:
            if l not in self.live or self.live[l].sum() < 5:
                R.und("%s: loop of %s is not entered at the representative states" % (self.label, self.name(l)))
                continue
            own = {node(m).id for m, _ in self.lp.I.looplist[l]["mus"].values()}
            out = []
            for x, c, q in comparisons(self.lp, l, self.targets):
                if q.op == "mu":
                    if q.id in own and x.op != "div":
                        out.append((x, c, q, None))
                    continue
                dep = l in self.lp.of([q])
                live = self.live[l] & np.isfinite(self.ev.f(q)) & ~self.ev.u(q)
                lo = self.liveop[l].get(x.id)
                if lo is not None:
                    live = live & lo
                k = (q.id, c, live.tobytes())
                if k not in cache:
                    cache[k] = list(match(self.fn, self.r, self.ev, q, c, self.base, consts, live))
                if not live.any():
                    continue
                full = [(what, xa, xb) for what, xa, xb, same in cache[k] if not (live & ~same).any()]
                best = full[0] if full else None
                if best:
                    self.rec[q.id] = [(c, xa, xb) for _, xa, xb in full]
                    if dep:
                        matched.add(c)
                        out.append((x, c, q, best))
                        R.count("comparisons with the given value")
                        R.ok(exact=int(live.sum()))
                        if len(R.samples) < 10:
                            R.samples.append({"solver": self.label, "function": self.name(l), "operation": dag.show(x, 3)[:120], "is": "%s - %s at %s" % (c, best[0], dag.show(best[1], 3)[:80]), "states": int(live.sum())})
                elif dep and x.op != "div":
                    j = int(np.nonzero(live)[0][0])
                    s = self.cx.sites.of(x)
                    self.viol(l, "residual", obligation="%s is compared with the forward property of region %d at the iterate and the other given value" % (c, self.r), rule="residual equation",
                              operation=dag.show(x, 4)[:300], at="%s (%s:%s)" % s if s else "?", inputs={k.args[0] if k.args else str(k): float(v[j]) for k, v in self.base.items()})
            self.comps[l] = out
            for x, c, q, b in out:
                # the property at the point tried last, evaluated where the loop goes round
                if b is None and c not in matched and self.kept(l, q, c):
                    matched.add(c)
        return matched

    def kept(self, lid, m, c):
        """a carried value is the forward property of the kind c whenever the loop goes round"""
        L = self.lp.I.looplist[lid]
        vs = next(L["nexts"][k] for k, (x, _) in L["mus"].items() if node(x) is m)
        out = False
        for conds, v in zip(L["backs"], vs):
            mask = self.live[lid] & self.path(conds)
            if mask.any():
                self.property_of(v, c, mask)
                if not (v.__class__ is Node and v.id in self.rec and any(r[0] == c for r in self.rec[v.id])):
                    return False
                out = True
        return out

    def property_of(self, v, c, live, depth=0):
        """record the alternatives of a value that are forward properties"""
        if v.__class__ is not Node or v.op in ("mu", "sym", "c") or v.id in self.rec or depth > 20:
            return
        self.ev.run([v])
        full = [(c, xa, xb) for what, xa, xb, same in match(self.fn, self.r, self.ev, v, c, self.base, self.consts, live) if not (live & ~same).any()]
        if full:
            self.rec[v.id] = full
        elif v.op == "ite":
            for a in v.args[1:]:
                self.property_of(a, c, live, depth + 1)

    # -------------------------------------------------- carried residuals
    def holds(self, x, want, rel, depth=0):
        """states at which the iterate the value x is a residual (or property) of is the wanted one"""
        ev = self.ev
        no = np.zeros(self.n, bool)
        if x.__class__ is not Node or depth > 60:
            return no
        eq = lambda y: (ev.v(y) == want).all(axis=0) if y is not None and ev.v(y) is not None else no
        if x.id in self.rec:
            return np.any([eq(X) | eq(Y) for c, X, Y in self.rec[x.id]], axis=0)
        if x.op == "mu":
            r = rel.get(x.id) or self.rel.get(x.id)
            return np.any([eq(a) for a in r], axis=0) if r else no
        if x.op == "ite":
            t = self.sel(x.args[0])
            return np.where(t, self.holds(x.args[1], want, rel, depth + 1), self.holds(x.args[2], want, rel, depth + 1))
        if x.op in ("neg", "abs"):
            return self.holds(x.args[0], want, rel, depth + 1)
        if x.op in ("sub", "div", "mul", "add"):
            a, b = x.args
            out = no
            for y, z in ((a, b), (b, a)):
                if z.__class__ is Node and (z.op == "c" or z.id in [S[c].id for c in self.fn]):
                    out = out | self.holds(y, want, rel, depth + 1)
            return out
        return no

    def isres(self, x, carriers, lid, depth=0):
        """the value is, on some path, a difference from (or the property compared with) the given value"""
        if x.__class__ is not Node or depth > 60:
            return False
        if x.op == "mu":
            return x.id in carriers
        if any(x is c[0] or x is c[2] for c in self.comps[lid]):
            return x.op != "lt" and x.op != "le" and x.op != "eq"
        if x.op == "ite":
            return any(self.isres(a, carriers, lid, depth + 1) for a in x.args[1:])
        if x.op in ("neg", "abs"):
            return self.isres(x.args[0], carriers, lid, depth + 1)
        if x.op in ("div", "mul"):
            a, b = x.args
            return any(self.isres(y, carriers, lid, depth + 1) for y, z in ((a, b), (b, a)) if z.__class__ is Node and (z.op == "c" or z.id in [S[c].id for c in self.fn]))
        return False

    def carriers(self, lid):
        R = self.cx.R
        L = self.lp.I.looplist[lid]
        mus = {k: (node(m), i) for k, (m, i) in L["mus"].items()}
        car = {q.id for _, _, q, b in self.comps[lid] if b is None}
        grow = True
        while grow:
            grow = False
            for k, (m, i) in mus.items():
                if m.id not in car and m.args[3] == "f" and any(self.isres(v, car, lid) for v in L["nexts"].get(k, ())):
                    car.add(m.id)
                    grow = True
        cs = {c for _, c, _, _ in self.comps[lid]}
        for k, (m, i) in mus.items():
            if m.id in car:
                for v in [i] + list(L["nexts"][k]):
                    for c in cs:
                        self.property_of(v, c, self.live[lid])
        kinds = {}
        grow = True
        while grow:
            grow = False
            for k, (m, i) in mus.items():
                if m.id not in car:
                    continue
                for v in [i] + list(L["nexts"][k]):
                    for a in arms(v):
                        add = {r[0] for r in self.rec.get(a, ())} | kinds.get(a, set())
                        if add - kinds.setdefault(m.id, set()):
                            kinds[m.id] |= add
                            grow = True
        for x, c, q, b in self.comps[lid]:
            if b is None and kinds.get(q.id) and c not in kinds[q.id]:
                self.viol(lid, "kind of %s" % dag.show(q, 2)[:40], obligation="%s is compared with a property of its kind" % c, rule="residual equation", operation=dag.show(x, 4)[:200], kind=sorted(kinds[q.id]))
        fl = [(k, m, i) for k, (m, i) in mus.items() if m.args[3] == "f"]
        its = [(k, m, i) for k, m, i in fl if m.id not in car]
        live = self.live[lid]
        rel = {}
        starts = {}
        for k, m, i in fl:
            if m.id not in car:
                continue
            sentinel = i.__class__ is Node and i.op == "c"
            rel[m.id] = set()
            for ka, a, ia in its:
                if ia.__class__ is not Node:
                    continue
                self.ev.run([ia])
                ok = np.ones(self.n, bool) if sentinel else self.holds(i, self.ev.v(ia), {})
                if not (live & ~ok).any():
                    rel[m.id].add((ka, a))
            starts[m.id] = set(rel[m.id])
        back = []
        for conds in L["backs"]:
            b = live & self.path(conds)
            back.append(b if b.sum() >= 5 else live)
        change = True
        while change:
            change = False
            nodes = {m: [a for _, a in s] for m, s in rel.items()}
            for k, m, i in fl:
                for ka, a in list(rel.get(m.id, ())):
                    for bi, mask in enumerate(back):
                        va = L["nexts"][ka][bi]
                        if va.__class__ is not Node:
                            continue
                        ok = self.holds(L["nexts"][k][bi], self.ev.v(va), nodes)
                        if (mask & ~ok).any():
                            rel[m.id].discard((ka, a))
                            change = True
                            break
        for k, m, i in fl:
            if m.id not in car:
                continue
            self.rel[m.id] = [a for _, a in rel[m.id]]
            if rel[m.id] or self.last(m, i, L["nexts"][k]):
                R.count("carried residuals")
                R.ok(exact=int(live.sum()))
            elif not starts[m.id]:
                self.viol(lid, "start of %s" % L["names"].get(k), obligation="the starting value of %s is the residual (or property) at a starting point" % L["names"].get(k), rule="residual belongs to its iterate", value=dag.show(i, 5)[:300])
            else:
                self.viol(lid, "update of %s" % L["names"].get(k), obligation="%s stays the residual (or property) at the iterate it belongs to" % L["names"].get(k), rule="residual belongs to its iterate",
                          value=[dag.show(v, 4)[:200] for v in L["nexts"][k]])
        return {m: list(s) for m, s in rel.items()}, car

    def last(self, m, i, nexts):
        """the property at the point last tried"""
        const = i.__class__ is Node and i.op == "c"
        return all(v.__class__ is Node and v.id in self.rec for v in nexts) and (const or i.__class__ is Node and i.id in self.rec)

    # -------------------------------------------------- kinds
    def bracket(self, lid):
        """bounds that are kept or moved to the point tried: (lower/upper mus, point)"""
        L = self.lp.I.looplist[lid]
        xs = {X.id: X for _, _, q, b in self.comps[lid] if b for X in (b[1],)}
        out = []
        for k, (m, i) in L["mus"].items():
            m = node(m)
            if m.args[3] != "f":
                continue
            vs = L["nexts"][k]
            kept = [v is m for v in vs]
            moved = [v.__class__ is Node and v.id in xs for v in vs]
            if any(v.__class__ is Node and v.op == "ite" for v in vs):
                arms = set()
                todo = list(vs)
                while todo:
                    v = todo.pop()
                    if v.__class__ is Node and v.op == "ite":
                        todo += [v.args[1], v.args[2]]
                    else:
                        arms.add(v.id if v.__class__ is Node else None)
                if arms <= set(xs) | {m.id} and m.id in arms and len(arms) > 1:
                    out.append((k, m, i))
            elif all(a or b for a, b in zip(kept, moved)) and any(kept) and any(moved):
                out.append((k, m, i))
        return out, list(xs.values())

    def secant(self, lid, rel):
        """two points with their residuals, the older one taken over from the newer"""
        L = self.lp.I.looplist[lid]
        by = {node(m).id: (k, node(m)) for k, (m, i) in L["mus"].items()}
        for m1, s1 in rel.items():
            for m2, s2 in rel.items():
                if m1 != m2 and s1 and s2 and all(v.__class__ is Node and v.id == m2 for v in L["nexts"][by[m1][0]]):
                    for ka1, a1 in s1:
                        for ka2, a2 in s2:
                            if all(v.__class__ is Node and v.id == a2.id for v in L["nexts"][ka1]):
                                cone = {x.id for v in L["nexts"][ka2] if v.__class__ is Node for x in topo([v])}
                                if m1 in cone and m2 in cone:
                                    return by[m1][1], a1, by[m2][1], a2, ka2
        return None

    def run(self):
        R = self.cx.R
        R.count("input pairs and regions solved by iteration")
        matched = self.matches()
        want = {"hs": {"h", "s"}, "hx": {"h", "x"}, "sx": {"s", "x"}, "pv": {"v"} if self.r != 3 else {"p"}}.get(self.fn, set(self.fn) - {"p", "t"})
        known = np.ones(self.n, bool)
        for g in self.reported.values():
            known &= ~self.ev.u(g)
        if known.sum() < 5:
            R.und("%s: the result is not decided" % self.label)
            return
        if not any(m.sum() >= 5 for m in self.live.values()):
            self.unsolved(known)
            return
        if self.live:
            for c in want - matched:
                l = next(iter(self.live))
                if any(k.startswith("%s/" % self.label) for k in R.violations):
                    continue
                self.viol(l, "no residual of %s" % c, obligation="the iteration compares the given %s with the forward property of region %d" % (c, self.r), rule="residual equation")
        kinds = []
        solved = set()
        for l in self.order():
            if l not in self.comps or not self.comps[l]:
                continue
            if solved & self.lp.cl.get(l, set()) and self.refines(l, solved):
                kinds.append((l, "refinement of a solution"))
                self.walk(l, solved)
                continue
            rel, car = self.carriers(l)
            sec = self.secant(l, rel)
            br, xs = self.bracket(l)
            self.iterates[l] = [a for q in rel.values() for _, a in q]
            if sec:
                kinds.append((l, "secant"))
                solved.add(l)
                self.update(l, sec, set(xs))
            elif len(br) == 2:
                kinds.append((l, "bisection"))
                solved.add(l)
                self.enclose(l, br, rel)
            else:
                kinds.append((l, "other"))
            if l in solved:
                for k in range(8):
                    if not self.stops(l, rel, car, br, 5 + k):
                        break
        for l, k in kinds:
            R.count("loops: " + k)
        if self.live and not solved:
            R.und("%s: method of the iteration not recognised" % self.label)
        self.same_point()
        self.result(solved)

    def order(self):
        """loops, those whose results others start from first"""
        out = []

        def go(l, seen):
            if l in out or l in seen:
                return
            for k in sorted(self.lp.cl.get(l, ())):
                if k != l:
                    go(k, seen | {l})
            out.append(l)
        for l in self.lp.lids:
            go(l, frozenset())
        return out

    def refines(self, lid, solved):
        """the unknown starts from the solution of another loop for the same given value"""
        L = self.lp.I.looplist[lid]
        mine = {c for _, c, _, _ in self.comps[lid]}
        for l in solved:
            if l == lid or {c for _, c, _, _ in self.comps[l]} != mine or lid in self.lp.cl.get(l, ()):
                continue
            its = {m.id for m in self.iterates.get(l, ())}
            for k, (m, i) in L["mus"].items():
                if node(m).args[3] == "f" and its & arms(i):
                    return True
        return False

    # -------------------------------------------------- walks that refine a solution
    def walk(self, lid, solved):
        """a refinement in constant steps: from an answer that is off, it steps toward the solution and does not end"""
        R, n = self.cx.R, self.n
        L = self.lp.I.looplist[lid]
        X = [(b[1], b[0]) for _, _, _, b in self.comps[lid] if b and b[2] is None]
        us = {u for x, what in X for u in unknown(what, self.r, self.fn)[:1]}
        if len(us) != 1:
            return
        u = us.pop()
        star = self.st.get(u)
        its = {m.id for l in solved for m in self.iterates.get(l, ())}
        rng = np.random.default_rng(11)
        off = star * (1.0 + rng.choice([-1.0, 1.0], n) * 10.0 ** rng.uniform(-3.5, -1.5, n))
        parts = list(self.roots) + [p for l in self.lp.lids for p in self.lp.parts(l)]
        e = Eval(n, self.base, vn=False)
        vals = dict(self.mv)
        for m, v in self.mv.items():
            if m.id in its or m.op != "mu":
                e.values[m.id] = vals[m] = off if m.id in its else v
        for m, init in startorder(parts, {k: (m, i) for k, (m, i, _) in self.lp.starts.items()}):
            if m.id in e.values:
                continue
            if init.__class__ is Node:
                e.run([init])
                v = np.array(e.f(init), dtype=float)
            else:
                v = np.full(n, float(init))
            e.values[m.id] = vals[m] = v
        ev = Eval(n, {**self.base, **vals}, vn=False)
        ev.run(parts)
        live = {}
        todo = [(self.roots, np.ones(n, bool))]
        while todo:
            rs, msk = todo.pop()
            order = topo(rs)
            lv = livemask(order, ev, [(x, msk) for x in rs])
            for x in order:
                if x.op in ("mu", "loopexit") and x.id in lv:
                    o = live.get(x.args[0])
                    w = lv[x.id] if o is None else o | lv[x.id]
                    if o is None or (w & ~o).any():
                        live[x.args[0]] = w
                        todo.append((self.lp.parts(x.args[0]), w))
        on = live.get(lid)
        if on is None:
            return
        sel = lambda c, w: np.broadcast_to((ev.f(c) > 0.5) if c.__class__ is Node else np.full(n, bool(c)), (n,)) == bool(w)
        far = on.copy()
        for x, c, q, b in self.comps[lid]:
            t = np.broadcast_to(self.base[S[c]], (n,))
            ev.run([q])
            with np.errstate(all="ignore"):
                far &= np.abs(ev.f(q) - t) > 1e-4 * (np.maximum(np.abs(t), WIDE[c]) if c in WIDE else np.abs(t))
        for k, (m, i) in L["mus"].items():
            m = node(m)
            if m.args[3] != "f" or not i.__class__ is Node or not its & arms(i):
                continue
            at = np.broadcast_to(ev.f(m), (n,))
            moved = far & (np.abs(at - off) <= 1e-12 * np.abs(off))      # not at a limit
            for bi, cs in enumerate(L["backs"]):
                v = L["nexts"][k][bi]
                if v.__class__ is not Node:
                    continue
                b = moved.copy()
                for c, w in cs:
                    b &= sel(c, w)
                d = np.broadcast_to(ev.f(v), (n,)) - at
                still = b & (np.abs(star - at) > 1e-3 * star)
                for k2, (m2, _) in L["mus"].items():
                    if node(m2).args[3] == "f" and L["nexts"][k2][bi].__class__ is Node:
                        still &= np.broadcast_to(ev.f(L["nexts"][k2][bi]) == ev.f(node(m2)), (n,))
                if still.any():
                    j = int(np.nonzero(still)[0][0])
                    self.viol(lid, "refinement step", obligation="a refinement moves", rule="refinement", solution=float(star[j]), iterate=float(at[j]),
                              inputs={s.args[0]: float(np.broadcast_to(z, (n,))[j]) for s, z in self.base.items()})
                b &= np.isfinite(d) & (np.abs(star - at) > 5 * np.abs(d))
                if b.sum() < 3 or np.ptp(np.abs(d[b])) > 1e-6 * np.max(np.abs(d[b])):
                    continue
                R.count("steps of refinements", int(b.sum()))
                bad = b & (d * (star - at) <= 0)
                R.ok(numeric=int((b & ~bad).sum()))
                if bad.any():
                    j = int(np.nonzero(bad)[0][0])
                    self.viol(lid, "refinement step", obligation="a refinement steps toward the solution", rule="refinement", solution=float(star[j]), iterate=float(at[j]), step=float(d[j]),
                              inputs={s.args[0]: float(np.broadcast_to(z, (n,))[j]) for s, z in self.base.items()})
            for blk, cs in L["exits"]:
                b = moved.copy()
                for c, w in cs:
                    b &= sel(c, w)
                R.ok(numeric=int((moved & ~b).sum()))
                if b.any():
                    j = int(np.nonzero(b)[0][0])
                    self.viol(lid, "refinement end", obligation="a refinement goes on while the residual exceeds 1e-4", rule="refinement", solution=float(star[j]), iterate=float(at[j]),
                              condition=[("" if w else "not ") + dag.show(c, 4)[:160] for c, w in cs if c.__class__ is Node],
                              inputs={s.args[0]: float(np.broadcast_to(z, (n,))[j]) for s, z in self.base.items()})
                    break

    # -------------------------------------------------- B: the next iterate
    def update(self, lid, sec, xs):
        m1, a1, m2, a2, ka2 = sec
        L = self.lp.I.looplist[lid]
        k2 = next(k for k, (m, _) in L["mus"].items() if node(m) is m2)
        f2 = E(m2)
        for v in L["nexts"][k2]:
            if v.__class__ is Node and v.id in self.rec:
                f2 = E(m2) - E(S[self.rec[v.id][0][0]])
        e = E(a2) + (E(a1) - E(a2)) * f2 / (E(m2) - E(m1))
        ev = self.ev
        ev.run([e.n])
        for bi, v in enumerate(L["nexts"][ka2]):
            mask = self.live[lid] & self.path(L["backs"][bi])
            if mask.sum() < 5:
                mask = self.live[lid]
            clamp = self.constant(v)
            ok = (ev.v(v) == ev.v(e.n)).all(axis=0)
            bad = mask & ~ok & ~clamp
            self.cx.R.ok(exact=int((mask & ~clamp).sum()))
            if (mask & ~clamp).sum() == 0:
                self.cx.R.und("%s: no unclamped step" % self.label)
            if bad.any():
                j = int(np.nonzero(bad)[0][0])
                self.viol(lid, "update", obligation="the next iterate is where the line through the last two points meets zero", rule="secant step", value=dag.show(v, 5)[:300],
                          got=float(ev.f(v)[j]), expected=float(ev.f(e.n)[j]))

    def constant(self, v):
        """states at which a constant is selected"""
        if v.__class__ is not Node or v.op == "c":
            return np.ones(self.n, bool)
        if v.op == "ite":
            t = self.sel(v.args[0])
            return np.where(t, self.constant(v.args[1]), self.constant(v.args[2]))
        return np.zeros(self.n, bool)

    # -------------------------------------------------- C, D: when the iteration ends
    def stops(self, lid, rel, car, br, seed):
        R = self.cx.R
        L = self.lp.I.looplist[lid]
        rng = np.random.default_rng(seed)
        n = self.n
        its = {a.id for s in rel.values() for _, a in s} | {m.id for _, m, _ in br}
        its |= {b[1].id for _, _, _, b in self.comps[lid] if b}
        ints = [node(m) for m, i in L["mus"].values() if node(m).args[3] != "f"]
        vals = dict(self.mv)
        kind = {}
        for _, _, q, b in self.comps[lid]:
            if b:
                for X, u in zip(b[1:], unknown(b[0], self.r, self.fn)):
                    kind[X.id] = u
        if len(br) != 2:
            for m, s in rel.items():
                for ka, a in s:
                    us = {kind[v.id] for v in L["nexts"][ka] if v.__class__ is Node and v.id in kind} or set(kind.values())
                    if len(us) == 1:
                        vals[a] = self.st.get(us.pop()) * (1 + rng.choice([-1.0, 1.0], n) * rng.uniform(0.005, 0.05, n))
        size = None
        for a in {a.id for q in rel.values() for _, a in q} | {m.id for _, m, _ in br}:
            f = next((v for m, v in vals.items() if m.id == a), self.ev.F.get(a))
            if f is not None:
                size = np.abs(f) if size is None else np.minimum(size, np.abs(f))
        inits = []
        for k, (m, i) in L["mus"].items():
            m = node(m)
            if m.args[3] == "f" and m.id not in its and m.id not in car:
                vals[m] = size * rng.choice([-1.0, 1.0], n) * 10.0 ** rng.uniform(np.log10(2e-4), -1, n)
            if m.id in car:
                # a property off the given value, or a residual
                c = next((c for _, c, q, b in self.comps[lid] if b is None and q is m), None)
                t = np.broadcast_to(self.base[S[c or next(iter(self.comps[lid]))[1]]], (n,))
                sc = np.maximum(np.abs(t), WIDE[c]) if c in WIDE else np.abs(t)
                vals[m] = (t if c else 0.0) + rng.choice([-1.0, 1.0], n) * sc * 10.0 ** rng.uniform(np.log10(1.5e-4), -1, n)
        if len(br) == 2:
            u, w = br[0][1], br[1][1]
            lo, hi = np.minimum(self.mv[u], self.mv[w]), np.maximum(self.mv[u], self.mv[w])
            a, b = np.sort(rng.random((2, n)), axis=0)
            swap = self.mv[u] > self.mv[w]
            a, b = lo + (hi - lo) * a, lo + (hi - lo) * b
            star = self.st.get(kind[xs_of(self.comps[lid])[0].id])
            near = (np.arange(n) % 2 == 0) & (star > lo) & (star < hi)
            w1, w2 = 10.0 ** rng.uniform(-4.5, -1.5, (2, n))
            a, b = np.where(near, np.maximum(lo, star * (1 - w1)), a), np.where(near, np.minimum(hi, star * (1 + w2)), b)
            vals[u], vals[w] = np.where(swap, b, a), np.where(swap, a, b)
        conds = [c for _, cs in L["exits"] for c, _ in cs if c.__class__ is Node]
        budget = 0
        for k in (0, 1, 5, 20):
            for m in ints:
                vals[m] = np.where(np.isin(self.mv[m], (0.0,)) | True, self.mv[m] + (k if self.counter(L, m) else 0), 0)
            ev = Eval(n, {**self.base, **vals}, vn=False)
            qs = [q for _, _, q, b in self.comps[lid] if b] + list(xs_of(self.comps[lid]))
            ev.run(conds + qs + [c for cs in L["backs"] for c, _ in cs if c.__class__ is Node])
            far = self.live[lid].copy()
            for x, c, q, b in self.comps[lid]:
                if q.id in ev.F:
                    t = np.broadcast_to(self.base[S[c]], (n,))
                    d = np.abs(ev.f(q) - t)
                    with np.errstate(all="ignore"):
                        far &= np.isfinite(d) & (d > 1e-4 * (np.maximum(np.abs(t), WIDE[c]) if c in WIDE else np.abs(t)))
            # corrections computed in place: the iterate has moved
            for x in xs_of(self.comps[lid]):
                f = ev.f(x)
                for a in its:
                    if a in ev.F and a != x.id:
                        with np.errstate(all="ignore"):
                            far &= ~(np.abs(f - ev.F[a]) < 2e-4 * np.abs(f))
            if far.sum() < 5:
                R.und("%s: no representative state in the middle of the iteration of %s" % (self.label, self.name(lid)))
                return
            for blk, cs in L["exits"]:
                m = far.copy()
                for c, w in cs:
                    if c.__class__ is Node:
                        m &= np.broadcast_to(ev.f(c) > 0.5, (n,)) == bool(w)
                R.ok(numeric=int(far.sum()))
                if m.any():
                    j = int(np.nonzero(m)[0][0])
                    self.viol(lid, "stop" if k == 0 else "budget", obligation="the iteration goes on while the correction and the residual exceed their tolerances" + (" and for at least 20 steps" if k else ""), rule="end of the iteration",
                              steps=k, condition=[("" if w else "not ") + dag.show(c, 4)[:160] for c, w in cs if c.__class__ is Node], values={L["names"].get(q, str(q)): float(np.broadcast_to(vals.get(node(mm), np.nan), (n,))[j]) for q, (mm, _) in L["mus"].items()},
                              inputs={s.args[0]: float(np.broadcast_to(v, (n,))[j]) for s, v in self.base.items()})
                    return
        return True

    def counter(self, L, m):
        for k, (q, i) in L["mus"].items():
            if node(q) is m:
                return any(v.__class__ is Node and v.op == "i:Add" or v.__class__ is Node and "Add" in dag.show(v, 3) for v in L["nexts"][k])
        return False

    # -------------------------------------------------- E: the bracket keeps the solution
    def enclose(self, lid, br, rel):
        R = self.cx.R
        L = self.lp.I.looplist[lid]
        n = self.n
        rng = np.random.default_rng(7)
        (ku, u, _), (kw, w, _) = br
        main = [(x, c, q, b) for x, c, q, b in self.comps[lid] if b and x.op in ("sub", "lt", "le")]
        outer = [m for m in main if not any(m[2] is not o[2] and m[2].id in {y.id for y in topo([o[2]])} for o in main)]
        x, c, q, b = outer[-1]
        X = b[1]
        at = lambda y: rebuild(q, {X.id: y})
        qu, qw = at(u), at(w)
        lo, hi = np.minimum(self.mv[u], self.mv[w]), np.maximum(self.mv[u], self.mv[w])
        a, d = np.sort(rng.random((2, n)), axis=0)
        swap = self.mv[u] > self.mv[w]
        a, d = lo + (hi - lo) * a, lo + (hi - lo) * d
        vals = dict(self.mv)
        vals[u], vals[w] = np.where(swap, d, a), np.where(swap, a, d)
        t = np.broadcast_to(self.base[S[c]], (n,))
        # residuals carried along belong to their points
        first = Eval(n, {**self.base, **vals}, vn=False)
        first.run([qu, qw])
        for m, s in rel.items():
            for _, aa in s:
                if aa.id in (u.id, w.id) and node_of(L, m) in vals:
                    f = first.f(qu if aa.id == u.id else qw)
                    vals[node_of(L, m)] = self.carried(L, m, f, t, x, q)
        ev = Eval(n, {**self.base, **vals}, vn=False)
        ev.run([qu, qw] + [v for k in (ku, kw) for v in L["nexts"][k] if v.__class__ is Node] + [cc for cs in L["backs"] for cc, _ in cs if cc.__class__ is Node])
        between = self.live[lid] & np.isfinite(ev.f(qu)) & np.isfinite(ev.f(qw)) & ((ev.f(qu) - t) * (ev.f(qw) - t) < 0)
        # the sign at a bound is the one it started with: bounds only move to points of the same sign
        i0 = [E(L["mus"][k][1]).n for k in (ku, kw)]
        first.run([at(i) for i in i0])
        for y, i in ((qu, i0[0]), (qw, i0[1])):
            with np.errstate(all="ignore"):
                between &= ~((ev.f(y) - t) * (first.f(at(i)) - t) < 0)
        if between.sum() < 5:
            R.und("%s: no bracket around a solution among the representatives" % self.label)
            return
        for bi, cs in enumerate(L["backs"]):
            m = between.copy()
            for cc, ww in cs:
                if cc.__class__ is Node:
                    m &= np.broadcast_to(ev.f(cc) > 0.5, (n,)) == bool(ww)
            if not m.any():
                continue
            nu, nw = L["nexts"][ku][bi], L["nexts"][kw][bi]
            e2 = Eval(n, {**self.base, **vals, u: ev.f(nu), w: ev.f(nw)}, vn=False)
            e2.run([qu, qw])
            bad = m & ~((e2.f(qu) - t) * (e2.f(qw) - t) <= 0)
            R.ok(numeric=int(m.sum()))
            R.count("bracket steps", int(m.sum()))
            moved = (ev.f(nu) != ev.f(u)) | (ev.f(nw) != ev.f(w))
            inside = (np.minimum(ev.f(u), ev.f(w)) <= np.minimum(ev.f(nu), ev.f(nw))) & (np.maximum(ev.f(nu), ev.f(nw)) <= np.maximum(ev.f(u), ev.f(w)))
            half = np.abs(ev.f(nu) - ev.f(nw)) <= 0.9 * np.abs(ev.f(u) - ev.f(w))
            bad |= m & ~(moved & inside & half)
            if bad.any():
                j = int(np.nonzero(bad)[0][0])
                self.viol(lid, "bracket", obligation="the bracket shrinks around the solution", rule="bisection step", bounds=[float(ev.f(u)[j]), float(ev.f(w)[j])], next_bounds=[float(ev.f(nu)[j]), float(ev.f(nw)[j])],
                          residuals=[float((ev.f(qu) - t)[j]), float((ev.f(qw) - t)[j])], next_residuals=[float((e2.f(qu) - t)[j]), float((e2.f(qw) - t)[j])])

    def carried(self, L, m, f, t, x, q):
        """a carried value that belongs to a point: property there, or difference in the order the loop takes it"""
        for k, (mm, i) in L["mus"].items():
            if node(mm).id == m:
                for v in L["nexts"][k]:
                    if v.__class__ is Node and v.op == "sub":
                        return f - t if v.args[0] is q else t - f
        return f

    # -------------------------------------------------- nested iterations work at the same point
    def same_point(self):
        """the inner unknown of a nested search was found for the outer iterate it is used with, and
        the reported state is the point the search ended at"""
        R = self.cx.R
        if not any(db for *_, db in forms(self.fn, self.r)):
            return
        ev = self.ev
        for l, cs in self.comps.items():
            for x, c, q, b in cs:
                if not b or b[2] is None:
                    continue
                for y in topo([b[2]]):
                    if y.op != "mu" or y.args[0] == l or y.args[0] not in self.comps:
                        continue
                    for x2, c2, q2, b2 in self.comps[y.args[0]]:
                        if not b2 or c2 == c or b2[2] is None or x2.op == "div":
                            continue
                        m = self.live[l] & self.live[y.args[0]]
                        if l in self.lp.of([q2]) or True:
                            ok = (ev.v(b[1]) == ev.v(b2[1])).all(axis=0)
                            R.ok(exact=int((m & ok).sum()))
                            if (m & ~ok).any():
                                self.viol(l, "point of the inner search", obligation="the inner search uses the outer iterate", rule="nested iteration", outer=dag.show(b[1], 4)[:200], inner=dag.show(b2[1], 4)[:200])


    # -------------------------------------------------- F, G: what is reported
    def result(self, solved):
        """the reported state is the one the search ended at; where there was no search it solves the equation"""
        R, ev = self.cx.R, self.ev
        kinds = {}
        for l in solved:
            L = self.lp.I.looplist[l]
            xs = {}
            for _, _, q, b in self.comps[l]:
                if b:
                    for X, u in zip(b[1:], unknown(b[0], self.r, self.fn)):
                        if X.op != "c":
                            xs[X.id] = (X, u)
            for k, (m, i) in L["mus"].items():
                if node(m).args[3] != "f":
                    continue
                for v in L["nexts"][k]:
                    for X, u in xs.values():
                        if v is X or v.__class__ is Node and ev.v(v) is not None and (self.live[l] & (ev.v(v) == ev.v(X)).all(axis=0)).sum() > 0.5 * self.live[l].sum():
                            kinds.setdefault(u, []).extend([node(m), v])
            for X, u in xs.values():
                kinds.setdefault(u, []).append(X)
        for l in self.lp.lids:
            if l not in solved and (l in self.comps or l not in self.live or self.live[l].sum() < 5):
                for k, (m, i) in self.lp.I.looplist[l]["mus"].items():
                    if node(m).args[3] == "f":
                        for u in list(kinds):
                            kinds[u] += [node(m)] + [v for v in self.lp.I.looplist[l]["nexts"][k] if v.__class__ is Node]
        # near the solution, where no limit is in the way
        rng = np.random.default_rng(3)
        vals = dict(self.mv)
        for u, nodes in kinds.items():
            for x in nodes:
                if x.op == "mu":
                    vals[x] = self.st.get(u) * (1.0 + 1e-5 * rng.choice([-1.0, 1.0], self.n))
        old = self.ev
        self.ev = ev = Eval(self.n, {**self.base, **vals})
        ev.run(self.roots)
        try:
            self.compare_result(R, ev, kinds, solved)
        finally:
            self.ev = old

    def compare_result(self, R, ev, kinds, solved):
        for u, nodes in kinds.items():
            g = self.reported.get({"T": spec.OT, "p": spec.OP, "d": spec.OD, "v": spec.OD}[u])
            if self.r == 4:
                g = self.reported.get(spec.OT)
            if g is None or self.fn in QUAL and u != "T":
                continue
            if u == "v":
                continue
            e = TK(g) if u == "T" or self.r == 4 else E(g)
            al = [spec.tsat(E(x)) if u == "p" and self.r == 4 else E(x) for x in nodes]
            ev.run([e.n] + [a.n for a in al])
            v = ev.v(e.n)
            ok = np.zeros(self.n, bool)
            for a in al:
                va = ev.v(a.n)
                if va is not None:
                    ok |= (v == va).all(axis=0)
            ok |= ev.u(e.n)
            R.ok(exact=int(ok.sum()))
            rest = ~ok & ~self.selconst(e.n)
            if any(m.op == "loopexit" for m in self.mv):
                rest &= np.any([self.live[l] for l in solved if l in self.live], axis=0)
            if not rest.any() or self.r == 4:
                if rest.any() and any((rest & self.live.get(l, np.zeros(self.n, bool))).any() for l in solved):
                    # only where no search is made may something else be reported
                    anylive = np.any([self.live[l] for l in solved if l in self.live], axis=0)
                    if (rest & anylive).any():
                        j = int(np.nonzero(rest & anylive)[0][0])
                        self.viol(next(iter(solved)), "result %s" % u, obligation="the reported state is the one the iteration ended at", rule="result of the iteration", inputs={s.args[0]: float(x[j]) for s, x in self.base.items()})
                continue
            # not an iterate: the equation holds there
            far = np.zeros(self.n, bool)
            st = {o: x for o, x in self.reported.items()}
            p, T, d = E(st[spec.OP]), TK(st[spec.OT]), E(st[spec.OD])
            for c in self.targets:
                f = spec.hprop(T, d, OF[c]) if self.r == 3 else spec.gprop(self.r, p, T, OF[c])
                ev.run([f.n])
                t = self.base[S[c]]
                far |= ~(np.abs(ev.f(f.n) - t) <= 1e-4 * (np.maximum(np.abs(t), WIDE[c]) if c in WIDE else np.abs(t)))
            bad = rest & far
            R.ok(numeric=int((rest & ~far).sum()))
            if bad.any():
                j = int(np.nonzero(bad)[0][0])
                self.viol(next(iter(solved)), "result %s" % u, obligation="the reported state is the one the iteration ended at, or solves the equation", rule="result of the iteration",
                          inputs={s.args[0]: float(x[j]) for s, x in self.base.items()}, states=int(bad.sum()))

    def unsolved(self, known):
        """no loop is entered: whatever is reported solves the equation"""
        R = self.cx.R
        if self.r == 4 or self.fn in ("ph", "ps", "hs") and self.r < 4:
            R.und("%s: no iteration is entered" % self.label)
            return
        p, T, d = E(self.reported[spec.OP]) if spec.OP in self.reported else E(S["p"]), TK(self.reported[spec.OT]) if spec.OT in self.reported else TK(S["t"]), E(self.reported[spec.OD])
        for c in self.targets:
            if c == "p":
                continue
            f = spec.hprop(T, d, OF[c]) if self.r == 3 else spec.gprop(self.r, p, T, OF[c])
            self.ev.run([f.n])
            t = np.broadcast_to(self.base[S[c]], (self.n,))
            with np.errstate(all="ignore"):
                far = known & (np.abs(self.ev.f(f.n) - t) > 1e-4 * (np.maximum(np.abs(t), WIDE[c]) if c in WIDE else np.abs(t)))
            R.ok(numeric=int((known & ~far).sum()))
            if far.sum() >= 5:
                j = int(np.nonzero(far)[0][0])
                self.viol(self.lp.lids[0], "not entered", obligation="the iteration goes on until the equation is solved", rule="end of the iteration", inputs={s.args[0]: float(x[j]) for s, x in self.base.items()}, states=int(far.sum()))
                return

    def selconst(self, v, depth=0):
        """states at which a limit is reported"""
        if v.__class__ is Node and v.op in ("add", "sub") and depth < 6 and any(a.__class__ is Node and a.op == "c" for a in v.args):
            a = [x for x in v.args if not (x.__class__ is Node and x.op == "c")]
            return self.selconst(a[0], depth + 1) if a else np.ones(self.n, bool)
        if v.__class__ is Node and v.op == "ite":
            t = self.sel(v.args[0])
            return np.where(t, self.selconst(v.args[1], depth + 1), self.selconst(v.args[2], depth + 1))
        if v.__class__ is Node and v.op in ("min", "max"):
            return np.any([self.selconst(a) & (self.ev.f(a) == self.ev.f(v)) for a in v.args if a.__class__ is Node], axis=0)
        return np.full(self.n, v.__class__ is not Node or v.op == "c")


def arms(v):
    """the alternatives of a value"""
    out, todo, seen = set(), [v], set()
    while todo:
        x = todo.pop()
        if x.__class__ is Node and x.id not in seen:
            seen.add(x.id)
            if x.op == "ite":
                todo += x.args[1:]
            else:
                out.add(x.id)
    return out


def xs_of(comps):
    return list({b[1].id: b[1] for _, _, _, b in comps if b}.values())


def node_of(L, mid):
    for m, _ in L["mus"].values():
        if node(m).id == mid:
            return node(m)


def C17(cx):
    R = cx.R
    for fn, r in [(f, r) for f in PAIRS for r in (1, 2, 3, 4, 5)] + [(f, 4) for f in QUAL]:
        if fn in PAIRS and r == 4 and fn != "hs":
            continue
        s = Solver(cx, fn, r)
        if not s.lp.lids:
            continue
        s.evaluate(cx.npts(60, 600), np.random.default_rng([cx.seed, 17]))
        s.run()
