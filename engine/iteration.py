"""C17: iterative solutions; C23: error values"""
import numpy as np

import core
import dag
import spec
from checks import ERR, S, QUAL, anywhere, around_plane, mus_of, place4, spread
from core import AUTO, PAIRS, Api
from dag import Node, mk, sym
from evalg import Eval, topo
from spec import ONAMES
from structure import plain, startorder, wetspread

# ------------------------------------------------------------------ error values
CODES = {c: sym("err%d" % c) for c in ERR}
CODEID = {n.id: c for c, n in CODES.items()}


class ErrInterp(core.Origin):
    """error codes keep their identity when they become floating values"""

    def cast(self, kind, v, t, ft):
        if kind == "IntToFloat" and v.__class__ is int and v in CODES:
            return CODES[v]
        if kind == "FloatToInt" and v.__class__ is Node and v.id in CODEID:
            return CODEID[v.id]
        return super().cast(kind, v, t, ft)


SELECT = ("ite", "and", "or", "not", "loopexit")


def recognises(x, k):
    """operand k of comparison x is held against a value no quantity of that sign has"""
    if x.op == "eq" or x.op in ("isnan", "isfin", "isinf"):
        return True
    if x.op in ("lt", "le"):
        y = x.args[1 - k]
        return y.__class__ is Node and y.op == "c" and y.f <= 0.0 or y.__class__ is Node and y.id in CODEID
    return False


def errmask(order, ev, given=None):
    """states at which the selected alternative of a value is an error value"""
    E = {}
    for x in order:
        if given and x.id in given:
            E[x.id] = given[x.id]
        elif x.id in CODEID:
            E[x.id] = True
        elif x.op == "ite":
            a = E.get(x.args[1].id) if x.args[1].__class__ is Node else None
            b = E.get(x.args[2].id) if x.args[2].__class__ is Node else None
            if a is not None or b is not None:
                c = np.broadcast_to(ev.f(x.args[0]) > 0.5, (ev.n,))
                E[x.id] = np.where(c, False if a is None else a, False if b is None else b)
    return E


def livemask(order, ev, roots):
    """states at which the value of a node contributes to one of the roots"""
    n = ev.n
    L = {}
    for r, m in roots:
        if r.__class__ is Node:
            L[r.id] = m if r.id not in L else L[r.id] | m
    for x in reversed(order):
        m = L.get(x.id)
        if m is None or x.op in ("sym", "mu", "c"):
            continue

        def go(y, k):
            if y.__class__ is Node:
                o = L.get(y.id)
                L[y.id] = k if o is None else o | k
        if x.op in ("ite", "and", "or"):
            c = x.args[0]
            t = np.broadcast_to(ev.f(c) > 0.5, (n,)) if c.__class__ is Node else np.full(n, bool(c))
            u = ev.U.get(c.id) if c.__class__ is Node else None
            k = m if u is None else m & ~u
            go(c, m)
            if x.op == "ite":
                go(x.args[1], k & t)
                go(x.args[2], k & ~t)
            else:
                go(x.args[1], k & (t if x.op == "and" else ~t))
        else:
            for y in x.args:
                go(y, m)
    return L


def errstates(cx, fn, roots):
    """arguments: every region, wet steam, anywhere, both sides of every border, and the very
    values the arguments are compared with"""
    rng = cx.rng
    if fn in PAIRS:
        v = spread(cx, fn, cx.npts(150, 1500))
        out = [v, around_plane(fn, roots, cx)]
        for r in (1, 2, 3, 5):
            st, _ = core.region_border_states(r, roots, lambda s: {S[c]: s.get(c) for c in fn}, rng, nl=15, npt=60, per_atom=3, offsets=(1e-9, 1e-6))
            st += core.cell_states(r, fn, roots, lambda s: {S[c]: s.get(c) for c in fn}, rng, *((2000, 60, 400) if cx.thorough else (200, 10, 30)))[0]
            out += [{c: s.get(c) for c in fn} for s in st]
        pools = [core.region_states(r, 400, rng) for r in (1, 2, 3, 5)] + [place4(rng.random(400), rng.random(400))]
    else:
        v = wetspread(cx, fn, cx.npts(150, 1500))
        out = [v, anywhere(fn, cx.npts(300, 3000), rng)]
        for near in (False, True):
            a, b, na = core.border_points(roots, lambda a, b: {S[c]: place4(a, b, near).get(c) for c in fn}, rng, exact=False, offsets=(1e-9, 1e-6))
            if len(a):
                s = place4(a, b, near)
                out.append({c: s.get(c) for c in fn})
        pools = [place4(rng.random(400), rng.random(400), near) for near in (False, True)]
    for pool in pools:
        s = core.exact_states(pool, fn, roots, rng, 300)
        if s is not None:
            out.append({c: s.get(c) for c in fn})
    return {c: np.concatenate([o[c] for o in out]) for c in fn}


def C23(cx):
    R = cx.R
    api = Api(cx.api.P, ErrInterp(cx.api.P, budget=400_000_000))
    sites = core.Sites(api.P)
    seen = {}
    for fn in list(PAIRS) + list(QUAL):
        roots = []
        for o in range(36):
            g = api.call(fn, o, AUTO) if fn in PAIRS else api.call(fn, o)
            if g is None:
                R.und("%s %s" % (fn, ONAMES[o]))
            elif g.__class__ is Node:
                roots.append(g)
        starts = {}
        for L in api.I.looplist:
            if L is not None:
                for m, i in L["mus"].values():
                    m = m if m.__class__ is Node else m.path[-1]
                    starts[m.id] = (m, i, L)
        vals = errstates(cx, fn, roots)
        n = len(vals[fn[0]])
        for i in range(0, n, 1500):
            part = {S[c]: vals[c][i:i + 1500] for c in fn}
            base = {**part, **{s: float(c) for c, s in CODES.items()}}
            check_errors(cx, api, sites, fn, roots, starts, base, len(part[S[fn[0]]]), seen)
    R.extra["operations_examined"] = len(seen)
    for u in api.undecided:
        R.und(u)


def check_errors(cx, api, sites, fn, roots, starts, base, n, seen):
    R = cx.R
    ev = Eval(n, base, vn=False)
    # the first iteration of every loop is certain
    loops = {}
    mus = startorder(roots, {k: (m, i) for k, (m, i, L) in starts.items()})
    todo = [(r, np.ones(n, bool)) for r in roots]
    passes = [("result", roots, todo, {}, None)]
    done = set()
    while passes:
        what, rs, live, given, carried = passes.pop()
        ev = Eval(n, {**base, **given}, vn=False)
        ev.run(rs)
        order = topo(rs)
        E = errmask(order, ev, carried)
        L = livemask(order, ev, live)
        for x in order:
            m = L.get(x.id)
            if m is None or x.op in SELECT or x.op in ("sym", "c", "mu"):
                continue
            for k, y in enumerate(x.args):
                e = E.get(y.id) if y.__class__ is Node else None
                if e is None:
                    continue
                R.count("operations that an error value could reach")
                seen[x.id] = 1
                if recognises(x, k):
                    R.ok(exact=1)
                    continue
                u = ev.U.get(y.id)
                bad = m & e & (True if u is None else ~u)
                if not np.any(bad):
                    R.ok(exact=int(n))
                    continue
                j = int(np.nonzero(bad)[0][0])
                s = sites.of(x)
                R.viol("%s/%s/%s" % (fn, plain(s[0]).split("::")[-1] if s else "?", x.op), obligation="no error value enters a computation of %s" % fn,
                       rule="%s of an error value" % {"lt": "comparison", "le": "comparison"}.get(x.op, x.op), where="%s (%s:%s)" % s if s else "?", operation=dag.show(x, 3)[:200],
                       error_code=errcode(y, ev, j), inputs={c: float(np.broadcast_to(base[S[c]], (n,))[j]) for c in fn}, in_=what, states=int(bad.sum()))
        # loops whose results count
        for x in order:
            if x.op not in ("mu", "loopexit"):
                continue
            lid = x.args[0]
            if lid in done:
                continue
            m = np.zeros(n, bool)
            for y in order:
                if y.op in ("mu", "loopexit") and y.args[0] == lid and y.id in L:
                    m = m | L[y.id]
            done.add(lid)
            Lp = api.I.looplist[lid]
            if Lp is None or not m.any():
                continue
            R.count("loops entered")
            # starting values, then one iteration from them
            rs2 = [i for _, i in Lp["mus"].values() if i.__class__ is Node]
            ms = startorder(rs2 + [q if q.__class__ is Node else q.path[-1] for q, _ in Lp["mus"].values()], {k: (a, i) for k, (a, i, _) in starts.items()})
            e2 = Eval(n, base, vn=False)
            g2 = {}
            for mu, init in ms:
                e2.run([init])
                e2.values[mu.id] = np.broadcast_to(e2.f(init), (n,))
                if init.__class__ is Node and init.id in e2.U:
                    e2.U[mu.id] = e2.U[init.id]
                elif mu.id in e2.F:
                    pass
                g2[mu] = e2.values[mu.id]
            # a starting value that is an error value is one in the first iteration
            Em = errmask(topo(rs2), e2)
            Em = {(q if q.__class__ is Node else q.path[-1]).id: Em[i.id] for q, i in Lp["mus"].values() if i.__class__ is Node and i.id in Em}
            first = []
            for conds in [c for _, c in Lp["exits"]] + Lp["backs"]:
                mm = m.copy()
                for c, w in conds:
                    if c.__class__ is Node:
                        first.append((c, mm.copy()))
                        e2.run([c])
                        t = np.broadcast_to(e2.f(c) > 0.5, (n,))
                        uc = e2.U.get(c.id)
                        mm &= (t == bool(w)) & (True if uc is None else ~uc)
            for q, vs in Lp["nexts"].items():
                for v, conds in zip(vs, Lp["backs"]):
                    if v.__class__ is not Node:
                        continue
                    mm = m.copy()
                    for c, w in conds:
                        if c.__class__ is Node:
                            uc = e2.U.get(c.id)
                            mm &= (np.broadcast_to(e2.f(c) > 0.5, (n,)) == bool(w)) & (True if uc is None else ~uc)
                    first.append((v, mm))
            name = "loop of %s" % plain(Lp["fn"]).split("::")[-1]
            if rs2:
                passes.append((name + ", starting values", rs2, [(i, m) for i in rs2], {}, None))
            if first:
                passes.append((name + ", first iteration", [v for v, _ in first], first, g2, Em))


def errcode(y, ev, j):
    while y.__class__ is Node and y.op == "ite":
        f = ev.F[y.args[0].id]
        y = y.args[1] if (float(f) if np.ndim(f) == 0 else float(f[j])) > 0.5 else y.args[2]
    return CODEID.get(y.id) if y.__class__ is Node else None
