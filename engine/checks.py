"""The checks: one function per property."""
import math
import os
import sys

import numpy as np

import core
import dag
import spec
from core import (AUTO, ECHO, PAIRS, QUAL, Api, E, EP, ET, ED, P_, T_, D_, Report, Sites, States, compare, region_states)
from dag import Node, const, fop, sym
from evalg import Eval, topo
from spec import BASIC, EXT, TRANS, ONAMES, K

OV, OD, OT, OP, OH, OS, OU, OX, OR = spec.OV, spec.OD, spec.OT, spec.OP, spec.OH, spec.OS, spec.OU, spec.OX, spec.OR
S = {c: sym(c) for c in "pthsvx"}
SINGLE = (1, 2, 3, 5)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.R = Report(pid, tier, seed)
        self.tier = tier
        self.seed = seed
        self.api = Api()
        self.sites = Sites(self.api.P)
        self.rng = np.random.default_rng([seed, int(pid[1:])])
        self.thorough = tier == "thorough"
        self._st = {}
        self._bind = {}

    def npts(self, quick, thorough=None):
        return (thorough or quick * 10) if self.thorough else quick

    def binding(self, feature):
        """the C bindings a crate feature adds"""
        import structure
        if feature not in self._bind:
            self._bind[feature] = Api(core.dump((feature,)), bindings=structure.isbinding)
        return self._bind[feature]

    def python(self):
        """the functions the Python module registers, None when the configuration cannot be built"""
        import structure
        if not hasattr(self, "_py"):
            P = core.dump_python()
            self._py = structure.pyapi(P) if P else None
        return self._py

    def chunks(self, region, quick, thorough=None):
        """representative states of a region in evaluation-sized portions"""
        n = self.npts(quick, thorough)
        out = []
        while n > 0:
            m = min(n, 400)
            out.append(region_states(region, m, self.rng))
            n -= m
        return out

    def states(self, region, roots, valuesof, quick=120, thorough=1200, fn=None):
        """spread states plus states next to every case distinction of the given graphs, and
        states at the very values an argument is compared with"""
        out = self.chunks(region, quick, thorough)
        if fn:
            s = core.exact_states(region_states(region, 600, self.rng), fn, roots, self.rng, 400 if not self.thorough else 4000)
            if s is not None:
                self.R.count("states at a value an argument is compared with", s.n)
                for i in range(0, s.n, 400):
                    out.append(s.sub(slice(i, i + 400)))
        kw = dict(nl=48, npt=200, per_atom=12) if self.thorough else {}
        bs, na = core.region_border_states(region, roots, valuesof, self.rng, **kw)
        self.R.count("case distinctions", na)
        cs, nc = core.cell_states(region, fn, roots, valuesof, self.rng, *((3000, 60, 400) if self.thorough else (300, 12, 40)))
        self.R.count("combinations of outcomes of comparisons", nc)
        bs = bs + cs
        for s in bs:
            for i in range(0, s.n, 400):
                out.append(s.sub(slice(i, i + 400)))
        return out

    def done(self):
        self.R.extra["functions"] = len(self.api.I.calls_seen)
        for a in [self.api] + list(self._bind.values()):
            for u in a.undecided:
                self.R.und(u)


def inputs(fn, st):
    a, b = fn[0], fn[1]
    return {S[a]: st.get(a), S[b]: st.get(b)}


def TK(node):
    """temperature in K of a value in degrees Celsius"""
    return E(fop("add", node, const(K)))


def own(api, fn, r):
    """graphs of the state an input pair resolves to: (p, T, d) as the API itself reports them"""
    p = api.call(fn, OP, r)
    t = api.call(fn, OT, r)
    d = api.call(fn, OD, r) if r == 3 else None
    if p is None or t is None or (r == 3 and d is None):
        return None
    return E(p), TK(t), (E(d) if d is not None else None)


def ownspec(r, o, ow):
    p, T, d = ow
    if r == 3:
        return spec.hprop(T, d, o)
    return spec.gprop(r, p, T, o)


def mus_of(roots):
    out = {}
    for r in roots:
        if r is None:
            continue
        for x in dag.subnodes(r):
            if x.op in ("mu", "loopexit"):
                out[x.id] = x
    return list(out.values())


def assign_mus(api, fn, r, st, vals, outs):
    """give loop-carried values the value of the quantity they stand for: the candidate under
    which the reported (p,t,d) is the state the inputs were computed from; likewise the way the
    loop is left.  Nothing is assigned when no candidate does."""
    mus = mus_of(outs)
    if not mus:
        return {}
    best = None
    want = [(w, x) for w, x in ((api.call(fn, OP, r), st.p), (api.call(fn, OT, r), st.t), (api.call(fn, OD, r), st.d)) if w is not None]
    fm = [m for m in mus if m.op == "mu" and m.args[3] == "f"]
    le = [m for m in mus if m.op == "loopexit"][:6]
    for bits in range(1 << len(le)):
        lx = {m: float(bits >> k & 1) for k, m in enumerate(le)}
        for name in ("T", "p", "t", "d", "v", "h", "s"):
            q = st.get(name)
            as_ = {**{m: name for m in fm}, **lx}
            ev = Eval(st.n, {**vals, **{m: q for m in fm}, **lx}, vn=False)
            ev.run([w for w, _ in want])
            err = 0.0
            for w, x in want:
                e = np.abs(ev.f(w) - x) / (np.abs(x) + 1e-3)
                err += float(np.median(np.where(np.isnan(e), 1e9, e)))
            if best is None or err < best[0] * 0.5:
                best = (err, as_)
    return best[1] if best[0] < 0.02 else {}


def echo_alts(fn, o):
    """reciprocal of a given specific volume is the density of that state as well"""
    return [(E(1.0) / E(S["v"])).n] if fn[1] == "v" and o == OD else []


def check_own(cx, outs, pairs=None, regions=SINGLE):
    """every reported property is the forward property of the reported state"""
    R, api = cx.R, cx.api
    for fn in (pairs or PAIRS):
        for r in regions:
            ow = own(api, fn, r)
            if ow is None:
                R.und("%s region %d: state not derivable" % (fn, r))
                continue
            todo = []
            for o in outs:
                if o in (OP, OT) or (o == OD and r == 3):
                    continue
                if ECHO[fn[0]] == o or ECHO[fn[1]] == o:
                    continue
                g = api.call(fn, o, r)
                if g is None:
                    R.und("%s %s region %d" % (fn, ONAMES[o], r))
                    continue
                todo.append((o, g, ownspec(r, o, ow).n))
            if not todo:
                continue
            base = [ow[0].n, ow[1].n] + ([ow[2].n] if r == 3 else [])
            asg = []

            def vals_of(st):
                v = inputs(fn, st)
                if not asg:
                    asg.append(assign_mus(api, fn, r, st, v, base))
                v.update({m: (st.get(q) if isinstance(q, str) else q) for m, q in asg[0].items()})
                return v
            for st in cx.states(r, base + [g for _, g, _ in todo], vals_of, 100, 1000, fn=fn):
                vals = vals_of(st)
                ev = Eval(st.n, vals, seed=cx.seed)
                ev.run([x for _, g, s in todo for x in (g, s)] + echo_alts(fn, OD))
                for o, g, s in todo:
                    R.count("pair-region-property")
                    compare(R, cx.sites, "%s -> %s in region %d is the forward property of the reported state" % (fn, ONAMES[o], r),
                            g, s, ev, st=st, key="%s/%s/region%d" % (fn, ONAMES[o], r), rule="own-state",
                            alts=echo_alts(fn, o))


def off_saturation(st, tol=1e-5):
    """p and T on the saturation line do not fix a state; keep off it"""
    ps = core.psatf(np.minimum(st.T, spec.TC))
    return ~((st.T <= spec.TC) & (np.abs(st.p / ps - 1) < tol))


def check_pt(cx, outs, auto=True):
    """pt against the reference equations of the region"""
    R, api = cx.R, cx.api
    p, T = E(S["p"]), TK(S["t"])
    for r in SINGLE:
        if r == 3:
            d3 = api.call("pt", OD, 3)
            if d3 is None:
                R.und("pt OD region 3")
                continue
        todo = []
        for o in outs:
            if o in (OP, OT) or (r == 3 and o == OD):
                continue
            ref = spec.hprop(T, E(d3), o).n if r == 3 else spec.gprop(r, p, T, o).n
            todo.append((o, ref, api.call("pt", o, r), api.call("pt", o, AUTO) if auto else None))
        for st in cx.states(r, [g for q in todo for g in q[2:] if g is not None], lambda s: inputs("pt", s), 200, 2000, fn="pt"):
            ev = Eval(st.n, inputs("pt", st), seed=cx.seed)
            ev.run([x for q in todo for x in q[1:] if x is not None])
            for o, ref, g, ga in todo:
                R.count("pt-property-region")
                compare(R, cx.sites, "pt -> %s, region %d named" % (ONAMES[o], r), g, ref, ev, st=st,
                        key="pt/%s/region%d" % (ONAMES[o], r), rule="region equation")
                if auto:
                    compare(R, cx.sites, "pt -> %s, region %d found" % (ONAMES[o], r), ga, ref, ev, st=st, mask=off_saturation(st),
                            key="pt/%s/auto%d" % (ONAMES[o], r), rule="region equation")


def check_tv3(cx, outs):
    R, api = cx.R, cx.api
    T, d = TK(S["t"]), E(1.0) / E(S["v"])
    todo = []
    for o in outs:
        if o in (OT, OV):
            continue
        todo.append((o, spec.hprop(T, d, o).n, api.call("tv", o, 3)))
    for st in cx.states(3, [q[2] for q in todo if q[2] is not None], lambda s: inputs("tv", s), 200, 3000, fn="tv"):
        ev = Eval(st.n, inputs("tv", st), seed=cx.seed)
        ev.run([x for q in todo for x in q[1:] if x is not None])
        for o, ref, g in todo:
            R.count("tv-property-region3")
            compare(R, cx.sites, "tv -> %s in region 3" % ONAMES[o], g, ref, ev, st=st, key="tv/%s/region3" % ONAMES[o], rule="Helmholtz equation")


def C01(cx):
    check_pt(cx, BASIC)
    check_tv3(cx, BASIC + [OP])
    check_own(cx, BASIC)


def C02(cx):
    check_pt(cx, EXT)
    check_tv3(cx, EXT)
    check_own(cx, EXT)


def C07(cx):
    check_pt(cx, TRANS)
    check_tv3(cx, TRANS)
    check_own(cx, TRANS)


def C03(cx):
    """v(p,T) of region 3 and everything evaluated at that density"""
    R, api = cx.R, cx.api
    p, T = E(S["p"]), TK(S["t"])
    v = spec.v3pT(p, T)
    ref = {OV: [v], OD: [1.0 / v]}
    gs = {(o, r): api.call("pt", o, r) for o in (OV, OD) for r in (3, AUTO)}
    roots = [g for g in gs.values() if g is not None] + [v.n]
    sts = cx.states(3, roots, lambda s: inputs("pt", s), 600, 6000, fn="pt")
    # states close to the borders and corners of the subregions
    for k, st in enumerate(sts):
        ev = Eval(st.n, inputs("pt", st), seed=cx.seed)
        ev.run(roots + [x.n for o in ref for x in ref[o]])
        if k == 0:
            subs = subregion_names(st)
            R.samples.append({"subregions of the first 400 states": subs})
        for (o, r), g in gs.items():
            R.count("pt-region3-%s-%s" % (ONAMES[o], "found" if r == AUTO else "named"))
            compare(R, cx.sites, "pt -> %s in region 3%s" % (ONAMES[o], " found" if r == AUTO else ""), g, ref[o][0].n, ev, st=st,
                    mask=off_saturation(st) if r == AUTO else None, key="pt/%s/%s" % (ONAMES[o], r), rule="subregion equation v(p,T)")
    allsubs = {}
    for st in sts:
        for q, c in subregion_names(st).items():
            allsubs[q] = allsubs.get(q, 0) + c
    R.extra["states_per_subregion"] = allsubs
    missing = [q for q in spec.PARA if q not in allsubs]
    if missing:
        R.und("no representative state in subregions " + "".join(missing))
    check_own(cx, BASIC + EXT + TRANS, pairs=["pt"], regions=(3,))


def subregion_names(st):
    names = sorted(spec.PARA)
    (x,) = core.seval([spec.chain3(EP, ET, lambda s: float(names.index(s)))], {P_: st.p, T_: st.T})
    out = {}
    for k in x:
        q = names[int(k)]
        out[q] = out.get(q, 0) + 1
    return out


def C16(cx):
    check_own(cx, BASIC + EXT + TRANS)


# ------------------------------------------------------------------ backward equations
def check_backward(cx, fn, refs, bad=None):
    """refs: (region, o) -> list of admissible reference expressions over the inputs (and the
    pressure the code itself reports)"""
    R, api = cx.R, cx.api
    for r in (1, 2, 3):
        todo = []
        for (rr, o), alts in refs.items():
            if rr != r:
                continue
            for reg in (r, AUTO):
                todo.append((o, reg, api.call(fn, o, reg), [x.n for x in alts]))
        # the region that is found is the subject of C08-C11: keep to states where it is this one
        gor = api.call(fn, OR, AUTO)
        named = [g for o, reg, g, a in todo if g is not None and reg == r] + [x for q in todo for x in q[3]]
        for st in cx.states(r, named, lambda s: inputs(fn, s), 200, 3000, fn=fn):
            ev = Eval(st.n, inputs(fn, st), seed=cx.seed)
            ev.run([g for _, _, g, _ in todo if g is not None] + [x for q in todo for x in q[3]] + ([gor] if gor is not None else []))
            inreg = ev.f(gor) == r if gor is not None else np.zeros(st.n, bool)
            for o, reg, g, alts in todo:
                R.count("%s-%s-region%d-%s" % (fn, ONAMES[o], r, "found" if reg == AUTO else "named"))
                m = np.ones(st.n, bool) if reg != AUTO else inreg
                if bad is not None:
                    m = m & ~bad(r, st)
                compare(R, cx.sites, "%s -> %s in region %d%s" % (fn, ONAMES[o], r, " found" if reg == AUTO else ""), g, alts[0], ev, st=st, mask=m,
                        key="%s/%s/region%d/%s" % (fn, ONAMES[o], r, "auto" if reg == AUTO else "named"), rule="backward equation", alts=alts[1:])


def C05(cx):
    p, h, s = E(S["p"]), E(S["h"]), E(S["s"])
    check_backward(cx, "ph", {(1, OT): [spec.ph1(p, h) - K], (2, OT): [spec.ph2(p, h) - K], (3, OT): [spec.ph3T(p, h) - K],
                              (3, OV): [spec.ph3v(p, h)], (3, OD): [1.0 / spec.ph3v(p, h)]})
    check_backward(cx, "ps", {(1, OT): [spec.ps1(p, s) - K], (2, OT): [spec.ps2(p, s) - K], (3, OT): [spec.ps3T(p, s) - K],
                              (3, OV): [spec.ps3v(p, s)], (3, OD): [1.0 / spec.ps3v(p, s)]})
    check_own(cx, BASIC + EXT + TRANS, pairs=["ph", "ps"], regions=(1, 2, 3))


def C06(cx):
    h, s = E(S["h"]), E(S["s"])
    api = cx.api
    refs = {(1, OP): [spec.hs1(h, s)], (2, OP): [spec.hs2(h, s)], (3, OP): [spec.hs3(h, s)]}
    for r in (1, 2, 3):
        # the pressure the pair resolves to, whatever it is (its own obligation is above)
        po = api.call("hs", OP, r)
        if po is None:
            continue
        p = E(po)
        if r == 1:
            refs[1, OT] = [spec.ph1(p, h) - K, spec.ps1(p, s) - K]
        elif r == 2:
            refs[2, OT] = [spec.ph2(p, h) - K, spec.ps2(p, s) - K]
        else:
            refs[3, OT] = [spec.ph3T(p, h) - K, spec.ps3T(p, s) - K]
            refs[3, OV] = [spec.ph3v(p, h), spec.ps3v(p, s)]
            refs[3, OD] = [1.0 / x for x in refs[3, OV]]
    check_backward(cx, "hs", refs)
    check_own(cx, BASIC + EXT + TRANS, pairs=["hs"], regions=(1, 2, 3))
    # wet steam
    R = cx.R
    gs = [(reg, api.call("hs", OT, reg)) for reg in (4, AUTO)]
    # the equation falls short of 273.15 K by some 1e-4 K: held at the limit or as it is
    raw = spec.tsat_hs(h, s)
    ref = (spec.sel(spec.C(raw, "lt", 273.15), E(273.15), raw) - K).n
    plain = (raw - K).n
    gor = api.call("hs", OR, AUTO)
    gp = api.call("hs", OP, 4)
    pref = spec.psat(spec.sel(spec.C(raw, "lt", 273.15), E(273.15), raw)).n
    for st in wet_states(cx, [gs[0][1], ref], "hs", 200, 3000):
        ev = Eval(st.n, inputs("hs", st), seed=cx.seed)
        ev.run([x for x in [ref, plain, pref, gor, gp] + [g for _, g in gs] if x is not None])
        m = (st.s > 5.210887825 + 1e-6) & (st.s < 9.155759395 - 1e-6)
        for reg, g in gs:
            mm = m & ((ev.f(gor) == 4) if reg == AUTO and gor is not None else True)
            R.count("hs-OT-wet")
            compare(R, cx.sites, "hs -> OT of wet steam%s" % (" found" if reg == AUTO else ""), g, ref, ev, st=st, mask=mm,
                    key="hs/OT/region4/%s" % reg, rule="backward equation Tsat(h,s)", alts=[plain])
        compare(R, cx.sites, "hs -> OP of wet steam", gp, pref, ev, st=st, mask=m, key="hs/OP/region4", rule="saturation pressure of Tsat(h,s)")


# ------------------------------------------------------------------ saturation line and wet steam
LEVER = [spec.OH, spec.OS, spec.OV, spec.OU, spec.OF, spec.OG, spec.OE]


def place4(a, b, near=False):
    a = 1e-7 + (1 - 2e-7) * a
    if near:
        T = 647.096 - 373.946 * (1 - a) ** 4
    else:
        T = 273.15 + 373.946 * a
    p = core.psatf(T)
    return wet(p, T, b)


def wet(p, T, x):
    ex = []
    for o in (OV, OH, OS, OU):
        ex += [spec.satprop(EP, ET, 0, o), spec.satprop(EP, ET, 1, o)]
    r = core.seval(ex, {P_: p, T_: T})
    v, h, s, u = (r[2 * k] + x * (r[2 * k + 1] - r[2 * k]) for k in range(4))
    with np.errstate(all="ignore"):
        return States(region=4, p=p, T=T, t=T - 273.15, x=x, v=v, h=h, s=s, u=u, d=1 / v)


def requality(m, fn):
    """wet-steam states after one of the arguments has been moved"""
    ok = (m.p > spec.PMIN) & (m.p < 22.0639) & (m.T > 273.15) & (m.T < 647.09) & (m.get("x") >= 0) & (m.x <= 1)
    m = m.sub(ok)
    if fn[0] == "p":
        m.T = core.tsatf(m.p)
        m.t = m.T - 273.15
    elif fn[0] == "t":
        m.p = core.psatf(m.T)
    else:
        return m
    keep = {c: m.get(c) for c in fn}
    c = fn[1]
    if c == "x":
        x = m.x
    else:
        l, g = core.seval([spec.satprop(EP, ET, k, ECHO[c]) for k in (0, 1)], {P_: m.p, T_: m.T})
        x = (keep[c] - l) / (g - l)
    n = wet(m.p, m.T, x)
    for q, w in keep.items():
        setattr(n, q, w)
    return n.sub((x >= 0) & (x <= 1))


def wet_cells(cx, roots, fn, near):
    """wet-steam states, one for every combination of outcomes of comparisons met along lines: at
    random, and of constant temperature or quality beside and between the values compared with"""
    rng = cx.rng
    known = {}
    nl, lines, most = (60, 300, 3000) if cx.thorough else (12, 24, 250)
    a0, a1, b0, b1, _ = core.unit_lines(rng, nl, 2)
    th = core.thresholds([r for r in roots if isinstance(r, Node)])
    groups = [(nl, lambda i, u: place4(a0[i] + (a1 - a0)[i] * u, b0[i] + (b1 - b0)[i] * u, near))]
    ts = {z + 273.15 for s, v in th.items() if s is S["t"] for z in v if 0 < z < 373.9} | {float(core.tsatf(np.array([z]))[0]) for s, v in th.items() if s is S["p"] for z in v if spec.PMIN < z < 22.06}
    xs = {z for s, v in th.items() if s is S["x"] for z in v if 0 < z < 1}
    for zs, lo, hi, isT in ((sorted(ts), 273.15, 647.096, True), (sorted(xs), 0.0, 1.0, False)):
        e = [lo] + zs + [hi]
        ws = [z * (1 + d) for z in zs for d in (-1e-8, 1e-8)] + [0.5 * (x + y) for x, y in zip(e, e[1:])]
        ws = (np.array(ws)[rng.permutation(len(ws))[:lines]] - lo) / (hi - lo)
        if isT and near:
            ws = 1 - (1 - ws) ** 0.25
        groups.append((len(ws), lambda i, u, ws=ws, isT=isT: place4(ws[i], u, near) if isT else place4(u, ws[i], near)))
    for n, fun in groups:
        i, u, nc = core.cell_points(roots, lambda i, u: inputs(fn, fun(i, u)), rng, n, core.GRID, most, known=known)
        if len(i):
            yield fun(i, u), nc


def wet_states(cx, roots, fn, quick=150, thorough=2000, ends=False):
    n = cx.npts(quick, thorough)
    rng = cx.rng
    out = []
    for near in (False, True):
        out.append(place4(rng.random(n), rng.random(n), near))
        if ends:
            out.append(place4(rng.random(n // 4), np.zeros(n // 4), near))
            out.append(place4(rng.random(n // 4), np.ones(n // 4), near))
        kw = dict(nl=48, npt=200, per_atom=12) if cx.thorough else {}
        a, b, na = core.border_points([r for r in roots if r is not None], lambda a, b: inputs(fn, place4(a, b, near)), rng, exact=False, **kw)
        cx.R.count("case distinctions", na)
        if len(a):
            out.append(place4(a, b, near))
        for st, nc in wet_cells(cx, [r for r in roots if r is not None], fn, near):
            cx.R.count("combinations of outcomes of comparisons", nc)
            out.append(st)
        m = core.exact_states(place4(rng.random(400), rng.random(400), near), fn, [r for r in roots if r is not None], rng, 300 if not cx.thorough else 3000)
        if m is not None:
            m = requality(m, fn)
            cx.R.count("states at a value an argument is compared with", m.n)
            out.append(m)
    res = []
    for s in out:
        for i in range(0, s.n, 400):
            res.append(s.sub(slice(i, i + 400)))
    return res


def near_switch(p, T):
    """pressures where the equation of the saturated states changes, known only to the digits
    printed in the releases; and the immediate vicinity of the critical point"""
    m = np.zeros(len(p), bool)
    for q, w in ((16.5291642526, 1e-5), (19.00881189, 1e-4), (21.0434, 1e-4), (21.9316, 1e-4), (21.9009, 1e-4), (20.5, 1e-9), (22.064, 1e-5)):
        m |= np.abs(p - q) <= w
    return m | (np.abs(T - 647.096) < 1e-5) | (np.abs(T - 623.15) < 1e-6)


def wetref(p, T, x, o):
    """saturated states and the lever rule"""
    if o == OD:
        return 1.0 / wetref(p, T, x, OV)
    l, g = spec.satprop(p, T, 0, o), spec.satprop(p, T, 1, o)
    return spec.chain([(spec.C(x, "eq", 0.0), l), (spec.C(x, "eq", 1.0), g)], l + x * (g - l))


def C04(cx):
    R, api = cx.R, cx.api
    p, t = E(S["p"]), E(S["t"])
    T = TK(S["t"])
    jobs = [("px", OT, None, spec.tsat_raw(p) - K), ("tx", OP, None, spec.psat_raw(T))]
    for fn in ("ph", "ps", "pv"):
        jobs.append((fn, OT, 4, spec.tsat_raw(p) - K))
    for fn in ("tv", "th", "ts"):
        jobs.append((fn, OP, 4, spec.psat_raw(T)))
    for fn, o, reg, ref in jobs:
        g = api.call(fn, o, reg) if reg else api.call(fn, o)
        for st in wet_states(cx, [g, ref.n], fn, 200, 4000, ends=fn in QUAL):
            ev = Eval(st.n, inputs(fn, st), seed=cx.seed)
            ev.run([x for x in (g, ref.n) if x is not None])
            R.count("saturation equation through " + fn)
            # at the critical point itself the constants of the release may stand in for the equation
            compare(R, cx.sites, "%s -> %s is the saturation equation" % (fn, ONAMES[o]), g, ref.n, ev, st=st,
                    mask=(np.abs(st.T - 647.096) > 1e-5) & (np.abs(st.p - 22.064) > 1e-5),
                    key="%s/%s" % (fn, ONAMES[o]), rule="region 4 equation")
    # states found from h and x, s and x, or h and s: pressure belongs to the temperature
    for fn, reg in (("hx", None), ("sx", None), ("hs", 4)):
        gt = api.call(fn, OT, reg) if reg else api.call(fn, OT)
        gp = api.call(fn, OP, reg) if reg else api.call(fn, OP)
        if gt is None or gp is None:
            R.und(fn)
            continue
        ref = spec.psat(TK(gt)).n
        for st in wet_states(cx, [], fn, 100, 1000, ends=fn in QUAL):
            vals = inputs(fn, st)
            for m in mus_of([gt, gp]):
                if m.op == "mu" and m.args[3] == "f":
                    vals[m] = st.T
            ev = Eval(st.n, vals, seed=cx.seed)
            ev.run([gt, gp, ref])
            ok = ev.f(gt) > -273.15
            R.count("pressure of the found temperature through " + fn)
            compare(R, cx.sites, "%s -> OP is the saturation pressure of the reported temperature" % fn, gp, ref, ev, st=st,
                    mask=(np.abs(st.T - 647.096) > 1e-4) & ok, key="%s/OP" % fn, rule="region 4 equation")


def C12(cx):
    R, api = cx.R, cx.api
    x = E(S["x"])
    every = BASIC + EXT + TRANS
    INVID = const(float(spec.INVALID_OUTID))
    # quality given
    for fn in ("px", "tx"):
        if fn == "px":
            p = E(S["p"])
            T = spec.tsat_raw(p)
        else:
            T = TK(S["t"])
            p = spec.psat_raw(T)
        sat = {}
        todo = []
        for o in every:
            g = api.call(fn, o)
            l, v = spec.satprop(p, T, 0, o), spec.satprop(p, T, 1, o)
            ends = spec.chain([(spec.C(x, "eq", 0.0), l)], v).n
            mix = wetref(p, T, x, o).n if o in LEVER + [OD] else INVID
            todo.append((o, g, ends, mix))
        roots = [g for _, g, _, _ in todo if g is not None]
        for st in wet_states(cx, roots, fn, 120, 1500, ends=True):
            ev = Eval(st.n, inputs(fn, st), seed=cx.seed)
            ev.run(roots + [q for z in todo for q in z[2:]])
            keep = ~near_switch(st.p, st.T)
            end = (st.x == 0) | (st.x == 1)
            for o, g, ends, mix in todo:
                R.count("%s-saturated-state" % fn)
                R.count("%s-mixture" % fn)
                compare(R, cx.sites, "%s -> %s of the saturated phase" % (fn, ONAMES[o]), g, ends, ev, st=st, mask=keep & end,
                        key="%s/%s/saturated" % (fn, ONAMES[o]), rule="saturated state")
                compare(R, cx.sites, "%s -> %s of the mixture" % (fn, ONAMES[o]), g, mix, ev, st=st, mask=keep & ~end,
                        key="%s/%s/mixture" % (fn, ONAMES[o]), rule="lever rule" if o in LEVER + [OD] else "undefined for a mixture: refused")
    # pairs: the quality of the given property, and the properties of that quality
    for fn in PAIRS:
        if fn == "pt":
            continue
        gx = api.call(fn, OX, 4)
        gauto = api.call(fn, OX, AUTO)
        gor = api.call(fn, OR, AUTO)
        if gx is None:
            R.und(fn + " OX region 4")
            continue
        c = fn[1] if fn != "hs" else "h"
        o1 = ECHO[c]
        if fn[0] == "p":
            p = E(S["p"])
            T = spec.tsat_raw(p)
        elif fn[0] == "t":
            T = TK(S["t"])
            p = spec.psat_raw(T)
        else:
            gp, gt = api.call("hs", OP, 4), api.call("hs", OT, 4)
            if gp is None or gt is None:
                R.und("hs region 4")
                continue
            p = E(gp)
            T = spec.tsat_raw(p)
        y = E(S[c])
        l, v = spec.satprop(p, T, 0, o1), spec.satprop(p, T, 1, o1)
        xref = ((y - l) / (v - l)).n
        xo = E(gx)
        todo = []
        for o in every:
            if o in (ECHO[fn[0]], ECHO[fn[1]]):
                continue
            g = api.call(fn, o, 4)
            ga = api.call(fn, o, AUTO) if o in LEVER + [OD, spec.OCP] else None
            ends = spec.chain([(spec.C(xo, "eq", 0.0), spec.satprop(p, T, 0, o))], spec.satprop(p, T, 1, o))
            mix = wetref(p, T, xo, o) if o in LEVER + [OD] else E(INVID)
            isend = spec.OR_(spec.C(xo, "eq", 0.0), spec.C(xo, "eq", 1.0))
            todo.append((o, g, ga, spec.sel(isend, ends, mix).n))
        roots = [q for z in todo for q in z[1:3] if q is not None] + [gx]
        for st in wet_states(cx, roots if fn != "hs" else [gx], fn, 120, 1500):
            vals = inputs(fn, st)
            for m in mus_of(roots + ([gp, gt] if fn == "hs" else [])):
                if m.op == "mu" and m.args[3] == "f":
                    vals[m] = st.p
            ev = Eval(st.n, vals, seed=cx.seed)
            ev.run(roots + [q[3] for q in todo] + [xref] + [q for q in (gauto, gor) if q is not None])
            keep = ~near_switch(st.p, st.T) & (st.x > 1e-9) & (st.x < 1 - 1e-9)
            found = keep & (ev.f(gor) == 4) if gor is not None else keep & False
            R.count("%s-quality" % fn)
            compare(R, cx.sites, "%s -> OX is (y-y')/(y''-y')" % fn, gx, xref, ev, st=st, mask=keep, key="%s/OX" % fn, rule="quality")
            compare(R, cx.sites, "%s -> OX found is (y-y')/(y''-y')" % fn, gauto, xref, ev, st=st, mask=found, key="%s/OX/auto" % fn, rule="quality")
            for o, g, ga, ref in todo:
                R.count("%s-wet-steam-property" % fn)
                compare(R, cx.sites, "%s -> %s of wet steam" % (fn, ONAMES[o]), g, ref, ev, st=st, mask=keep,
                        key="%s/%s/wet" % (fn, ONAMES[o]), rule="lever rule at the quality of the pair")
                if ga is not None:
                    compare(R, cx.sites, "%s -> %s of wet steam found" % (fn, ONAMES[o]), ga, ref, ev, st=st, mask=found,
                            key="%s/%s/wet/auto" % (fn, ONAMES[o]), rule="lever rule at the quality of the pair")


# ------------------------------------------------------------------ identifiers, echoes, regions
ERR = [spec.INVALID_VALUE, spec.INVALID_OUTID, spec.INVALID_P, spec.INVALID_T, spec.INVALID_S, spec.INVALID_H, spec.INVALID_PT, spec.INVALID_HS]


def int_cells(roots, o, known=range(36)):
    """representatives of every class of 32-bit integers the comparisons with o can tell apart,
    the documented ones excepted"""
    cs = set()
    opaque = False
    for r in roots:
        if r is None:
            continue
        for x in dag.subnodes(r):
            if x.op in ("sym", "mu", "c") or o not in x.args:
                continue
            if x.op in ("ieq", "ilt", "ile"):
                for a in x.args:
                    if a.__class__ is int:
                        cs.add(a)
            elif x.op not in ("ite",):
                opaque = True
    lo, hi = -2 ** 31, 2 ** 31 - 1
    reps = {lo, hi, -1, 0, 36}
    for c in cs:
        reps |= {c - 1, c, c + 1}
    srt = sorted(r for r in reps | cs if lo <= r <= hi)
    for a, b in zip(srt, srt[1:]):
        if b - a > 1:
            reps.add((a + b) // 2)
    reps |= {-9999, -1000, 99, 100, 256, 1000, 65536}
    return sorted(r for r in reps if lo <= r <= hi and r not in known), opaque


def anywhere(fn, n, rng):
    """arguments of a pair far inside and far outside the validity range"""
    box = {"p": (-5.0, 150.0), "t": (-50.0, 2500.0), "h": (-200.0, 9000.0), "s": (-2.0, 22.0), "v": (-0.01, 300.0), "x": (-1.0, 2.0)}
    out = {}
    for c in fn:
        lo, hi = box[c]
        x = lo + (hi - lo) * rng.random(n)
        if c in "pv":
            lg = np.exp(rng.uniform(math.log(1e-5), math.log(hi), n))
            x = np.where(rng.random(n) < 0.6, lg, x)
        out[c] = x
    return out


def spread(cx, fn, n):
    """arguments from every region, the wet-steam region and anywhere else"""
    rng = cx.rng
    parts = [region_states(r, n, rng) for r in SINGLE] + [place4(rng.random(n), rng.random(n)), place4(rng.random(n), rng.random(n), True)]
    if fn == "pt":
        parts = parts[:4]
    vals = {}
    any_ = anywhere(fn, n, rng)
    for c in fn:
        vals[c] = np.concatenate([s.get(c) for s in parts] + [any_[c]])
    return vals


def low(fn, rng, n):
    """superheated states below the pressures the single-phase regions end at, which some pairs accept"""
    T = 273.15 + 1999.0 * rng.random(n)
    p = np.exp(rng.uniform(math.log(1e-8), math.log(spec.PMIN * 1.02), n))
    st = core.mkstates(2, p, np.minimum(T, 1073.0))
    return {c: st.get(c) for c in fn}


def around_plane(fn, roots, cx):
    """both sides of every comparison of the given graphs anywhere in the plane of the pair"""
    import regions
    out = {c: [np.zeros(0)] for c in fn}
    for kind in (0, 1):
        def vals(a, b):
            return dict(zip((S[fn[0]], S[fn[1]]), regions.plane(fn, a, b, kind)))
        a, b, na = core.border_points(roots, vals, cx.rng, nl=15, npt=60, per_atom=3, offsets=(1e-7,), exact=False)
        if len(a):
            for c, z in zip(fn, regions.plane(fn, a, b, kind)):
                out[c].append(z)
    a, b, nc = regions.plane_cells(fn, roots, cx.rng, *((3000, (0, 1, 2, 3), 40, 200) if cx.thorough else (300, (0, 1), 8, 12)))
    cx.R.count("combinations of outcomes of comparisons", nc)
    for c, z in zip(fn, (a, b)):
        out[c].append(z)
    return {c: np.concatenate(z) for c, z in out.items()}


class Plain:
    def __init__(self, vals):
        self.__dict__.update(vals)


def C13(cx):
    R, api = cx.R, cx.api
    osym = sym("o", "i")
    codes = np.array(ERR, float)
    for fn in PAIRS:
        # documented identifiers in the single-phase regions: a value, never an error value
        for r in SINGLE:
            gs = {o: api.call(fn, o, r) for o in range(36)}
            st = region_states(r, cx.npts(60, 600), cx.rng)
            base = [api.call(fn, o, r) for o in (OP, OT, OD)]
            asg = assign_mus(api, fn, r, st, inputs(fn, st), [b for b in base if b is not None])
            st = merge(st, core.exact_states(region_states(r, 400, cx.rng), fn, [g for g in gs.values() if isinstance(g, Node)], cx.rng))
            vals = inputs(fn, st)
            vals.update({m: (st.get(q) if isinstance(q, str) else q) for m, q in asg.items()})
            ev = Eval(st.n, vals, seed=cx.seed, vn=False)
            ev.run([g for g in gs.values() if isinstance(g, Node)])
            for o, g in gs.items():
                R.count("documented identifier in a single-phase region")
                if g is None:
                    R.und("%s %s region %d" % (fn, ONAMES[o], r))
                    continue
                f = ev.f(g)
                leaf = selected_codes(g, ev, codes)
                bad = leaf & ~((o == spec.OST) & (f == spec.INVALID_VALUE))
                # surface tension exists up to the critical temperature, the one the function gives for these arguments
                if o == spec.OST:
                    bad |= leaf & ((ev.f(gs[OT]) + 273.15 < spec.TC - 1e-6 if gs[OT] is not None else st.T < spec.TC - 1.0))
                if o == OR:
                    bad |= f != r
                if o == OX:
                    bad |= f != (0.0 if r == 1 else 1.0)
                R.ok(exact=st.n)
                if bad.any():
                    j = int(np.nonzero(bad)[0][0])
                    R.viol("%s/%s/region%d" % (fn, ONAMES[o], r), obligation="%s -> %s in region %d is a property value" % (fn, ONAMES[o], r),
                           rule="every documented identifier is answered", state=core.statedict(st, ev, j), code_value=float(f[j]))
        # the region identifier and the steam quality with a region that is found
        vals = spread(cx, fn, cx.npts(60, 600))
        gor = api.call(fn, OR, AUTO)
        gs = {o: api.call(fn, o, AUTO) for o in range(36)}
        more = [around_plane(fn, [g for g in list(gs.values()) if isinstance(g, Node)], cx)]
        for pool in [region_states(r, 300, cx.rng) for r in SINGLE] + [place4(cx.rng.random(300), cx.rng.random(300))]:
            s = core.exact_states(pool, fn, [g for g in gs.values() if isinstance(g, Node)], cx.rng, 100)
            if s is not None:
                more.append({c: s.get(c) for c in fn})
        vals = {c: np.concatenate([vals[c]] + [m[c] for m in more]) for c in fn}
        n = len(vals[fn[0]])
        v = {S[c]: vals[c] for c in fn}
        ev = Eval(n, v, seed=cx.seed)
        ev.run([g for g in list(gs.values()) + [gor] if isinstance(g, Node)])
        if gor is None:
            R.und("%s OR" % fn)
            continue
        reg = ev.f(gor)
        known = np.isin(reg, [1, 2, 3, 4, 5])
        refused = np.isin(reg, codes)
        und = ev.u(gor)
        bad = ~(known | refused) & ~und
        R.ok(exact=n)
        if bad.any():
            j = int(np.nonzero(bad)[0][0])
            R.viol("%s/OR/auto" % fn, obligation="the region found is 1 to 5 or a documented error code", rule="region number", inputs={c: float(vals[c][j]) for c in fn}, code_value=float(reg[j]))
        for o in range(36):
            if o in (ECHO[fn[0]], ECHO[fn[1]], OR):
                continue
            g = gs[o]
            R.count("identifier outside every region")
            ref = const(float(spec.INVALID_VALUE)) if o == OX else gor
            ev.run([ref])
            compare(R, cx.sites, "%s -> %s of a state in no region is the error code of the pair" % (fn, ONAMES[o]), g, ref, ev, st=Plain(vals),
                    mask=refused & ~und, key="%s/%s/no-region" % (fn, ONAMES[o]), rule="error code")
        # every other 32-bit identifier, region by region
        for r in SINGLE + (4, AUTO):
            g = api.call(fn, osym, r)
            if g is None:
                R.und("%s unknown identifiers region %d" % (fn, r))
                continue
            reps, opaque = int_cells([g], osym)
            R.count("classes of undocumented identifiers", len(reps))
            if opaque:
                R.und("%s region %d: identifier used in arithmetic" % (fn, r))
            st = region_states(r, 8, cx.rng) if r in SINGLE else place4(cx.rng.random(8), cx.rng.random(8))
            st = merge(st, core.exact_states(region_states(r, 300, cx.rng) if r in SINGLE else place4(cx.rng.random(300), cx.rng.random(300)), fn, [g], cx.rng, 40))
            refuse_ids(cx, "%s/unknown-id/region%d" % (fn, r), fn, g, gor, r, osym, reps, st)
    for fn in QUAL:
        g = api.call(fn, osym)
        if g is None:
            R.und("%s unknown identifiers" % fn)
            continue
        reps, opaque = int_cells([g], osym)
        R.count("classes of undocumented identifiers", len(reps))
        st = place4(0.05 + 0.9 * cx.rng.random(6), np.array([0.0, 1.0, 0.25, 0.5, 0.75, 0.9]))
        if fn in ("hx", "sx"):
            st = place4(0.3 + 0.4 * cx.rng.random(6), np.array([0.0, 1.0, 0.25, 0.5, 0.75, 0.9]))
        m = core.exact_states(place4(cx.rng.random(300), cx.rng.random(300)), fn, [g], cx.rng, 60)
        if m is not None:
            m = requality(m, fn)
            ok = np.ones(m.n, bool) if fn not in ("hx", "sx") else (m.get(fn[0]) > (0.39 if fn == "hx" else 0.34)) & (m.get(fn[0]) < (2803.0 if fn == "hx" else 9.15))
            st = merge(st, m.sub(ok))
        refuse_ids(cx, "%s/unknown-id" % fn, fn, g, None, None, osym, reps, st)
    # the identifier means the same property in every region
    check_own(cx, BASIC + EXT + TRANS)


def refuse_ids(cx, key, fn, g, gor, r, osym, reps, st):
    """every identifier of reps is refused at every state of st"""
    R = cx.R
    n = st.n
    a = {c: st.get(c) for c in fn}
    mus = [m for m in mus_of([g]) if m.args[-1] != "i"]
    for k in range(0, len(reps), 24):
        part = reps[k:k + 24]
        q = np.repeat(np.array(part, float), n)
        t = len(part)
        ev = Eval(n * t, {**{S[c]: np.tile(a[c], t) for c in fn}, osym: q, **{m: (np.tile(st.T, t) if m.op == "mu" else 0.0) for m in mus}}, vn=False)
        ev.run([x for x in (g, gor) if x is not None])
        f = ev.f(g)
        want = np.full(n * t, float(spec.INVALID_OUTID))
        if r == AUTO:
            ro = ev.f(gor)
            want = np.where(ro > 0, want, ro)
        if fn == "pt" and r in (4, AUTO):
            want = np.where(f == spec.INVALID_PT, f, want)
        bad = (f != want) & ~ev.u(g)
        R.ok(exact=int((~bad).sum()))
        if bad.any():
            j = int(np.nonzero(bad)[0][0])
            R.viol(key, obligation="%s with an undocumented identifier is refused" % fn, rule="identifier %d is not documented" % q[j],
                   inputs={c: float(a[c][j % n]) for c in fn}, code_value=float(f[j]), expected=float(want[j]))
            break


def merge(a, b):
    if b is None:
        return a
    return States(**{k: (np.concatenate([v, getattr(b, k)]) if isinstance(v, np.ndarray) and hasattr(b, k) else v) for k, v in a.__dict__.items()
                     if k != "n" and (hasattr(b, k) or not isinstance(v, np.ndarray))})


def selected_codes(g, ev, codes):
    """states at which the selected alternative is one of the error constants"""
    if g.__class__ is not Node:
        return np.full(ev.n, float(g) in codes)
    out = np.zeros(ev.n, bool)
    st = [(g, np.ones(ev.n, bool))]
    seen = {}
    while st:
        x, m = st.pop()
        if not m.any():
            continue
        if x.__class__ is not Node:
            if float(x) in codes:
                out |= m
            continue
        if x.op == "c":
            if x.f in codes:
                out |= m
            continue
        if x.op == "i2f" or x.op == "itof":
            st.append((x.args[0], m))
            continue
        if x.op == "ite":
            old = seen.get(x.id)
            m2 = m if old is None else m & ~old
            seen[x.id] = m if old is None else m | old
            if not m2.any():
                continue
            c = np.broadcast_to(ev.F[x.args[0].id], (ev.n,)) > 0.5
            st.append((x.args[1], m2 & c))
            st.append((x.args[2], m2 & ~c))
    return out


def C14(cx):
    R, api = cx.R, cx.api
    rng = cx.rng
    for fn in PAIRS:
        for c in fn:
            for reg in SINGLE + (4, AUTO, sym("r", "i"), "i32"):
                g = api.call(fn, ECHO[c], reg)
                R.count("echo")
                name = reg if isinstance(reg, (int, str)) else "any"
                if g is None:
                    R.und("%s echo of %s" % (fn, c))
                    continue
                if g is S[c]:
                    R.ok(exact=1)
                    continue
                vals = spread(cx, fn, cx.npts(40, 400))
                n = len(vals[fn[0]])
                v = {S[k]: vals[k] for k in fn}
                if not isinstance(reg, (int, str)):
                    v[reg] = rng.integers(-2, 12, n).astype(float)
                ev = Eval(n, v, vn=False)
                ev.run([g])
                f = ev.f(g)
                bad = (f != vals[c]) & ~ev.u(g)
                R.ok(numeric=int((~bad).sum()))
                if bad.any():
                    j = int(np.nonzero(bad)[0][0])
                    R.viol("%s/%s/echo" % (fn, c), obligation="%s -> %s returns the given %s (region %s)" % (fn, ONAMES[ECHO[c]], c, name), rule="echo",
                           inputs={k: float(vals[k][j]) for k in fn}, code_value=float(f[j]), expected=float(vals[c][j]))
    lim = {"p": (spec.PMIN, spec.PC, 1e-9, 1e-9), "t": (0.0, spec.TC - K, 1e-9, 1e-9), "h": (-0.1, 2803.4, 0, 0), "s": (-0.01, 9.16, 0, 0)}
    for fn in QUAL:
        c = fn[0]
        lo, hi, dl, dh = lim[c]
        n = cx.npts(60, 600)
        below = np.concatenate([[lo * (1 - dl) - dl if c == "t" else lo * (1 - 1e-9), lo - 1e-3, lo - 1.0, -300.0 if c != "t" else -273.15, -1e30, -np.inf], lo - rng.exponential(1.0, n)])
        above = np.concatenate([[hi + abs(hi) * 1e-9, hi + 1e-3, hi + 1.0, 1e9, np.inf], hi + rng.exponential(10.0, n)])
        inside = place4(0.02 + 0.96 * rng.random(n), rng.random(n)).get(c)
        xin = np.concatenate([[0.0, 1.0, 0.5], rng.random(n)])
        xlo = np.concatenate([[-5e-324, -1e-300, -1e-12, -1e-3, -1.0, -np.inf], -rng.exponential(0.5, n)])
        xhi = np.concatenate([[1 + 2.3e-16, 1 + 1e-12, 1.001, 2.0, np.inf], 1 + rng.exponential(0.5, n)])
        bad_a = np.concatenate([below, above])
        bad_x = np.concatenate([xlo, xhi])
        a = np.concatenate([bad_a, np.resize(inside, len(bad_x)), np.resize(bad_a, len(bad_x))])
        x = np.concatenate([np.resize(xin, len(bad_a)), bad_x, bad_x])
        osym = sym("o", "i")
        for o in list(range(36)) + [osym]:
            g = api.call(fn, o)
            R.count("range guard")
            if g is None:
                R.und("%s %s" % (fn, o))
                continue
            for q in ([o] if o is not osym else int_cells([g], osym)[0][:12]):
                v = {S[c]: a, S["x"]: x}
                if o is osym:
                    v[osym] = float(q)
                ev = Eval(len(a), v, vn=False)
                ev.run([g])
                f = ev.f(g)
                ok = f == spec.INVALID_VALUE
                if q in (ECHO[c], OX):
                    ok |= (f == (a if q == ECHO[c] else x))
                w = ~ok & ~ev.u(g)
                R.ok(exact=int((~w).sum()))
                if w.any():
                    j = int(np.nonzero(w)[0][0])
                    R.viol("%s/%s/range" % (fn, ONAMES[q] if 0 <= q < 36 else "other"), obligation="%s refuses arguments outside its range" % fn, rule="range guard",
                           inputs={c: float(a[j]), "x": float(x[j])}, identifier=q, code_value=float(f[j]), expected=spec.INVALID_VALUE)
        # inside the range the inputs come back
        for k, cc in ((ECHO[c], c), (OX, "x")):
            g = api.call(fn, k)
            if g is None:
                continue
            st = place4(0.02 + 0.96 * rng.random(n), rng.random(n))
            ev = Eval(n, inputs(fn, st), vn=False)
            ev.run([g])
            m = np.ones(n, bool) if fn not in ("hx", "sx") else (st.get(c) > (0.39 if c == "h" else 0.34)) & (st.get(c) < (2803.0 if c == "h" else 9.15))
            w = (ev.f(g) != st.get(cc)) & ~ev.u(g) & m
            R.count("echo")
            R.ok(exact=int((~w).sum()))
            if w.any():
                j = int(np.nonzero(w)[0][0])
                R.viol("%s/%s/echo" % (fn, cc), obligation="%s -> %s returns the given %s" % (fn, ONAMES[k], cc), rule="echo", inputs={q: float(st.get(q)[j]) for q in fn}, code_value=float(ev.f(g)[j]))


def C15(cx):
    R, api = cx.R, cx.api
    rsym = sym("r", "i")
    for fn in PAIRS:
        gor = api.call(fn, OR, AUTO)
        if gor is None:
            R.und("%s OR" % fn)
            continue
        todo = []
        for o in range(36):
            ga = api.call(fn, o, AUTO)
            gi = api.call(fn, o, "i32")
            gr = {r: api.call(fn, o, r) for r in (1, 2, 3, 4, 5)}
            if ga is None or any(g is None for g in gr.values()):
                R.und("%s %s" % (fn, ONAMES[o]))
                continue
            todo.append((o, ga, gi, gr))
        vals = [spread(cx, fn, cx.npts(60, 400)), low(fn, cx.rng, cx.npts(80, 400))]
        # next to every case distinction, and at every value an argument is compared with
        roots = [g for q in todo for g in [q[1], q[2]] + list(q[3].values()) if isinstance(g, Node)]
        kw = dict(nl=48, npt=200, per_atom=12) if cx.thorough else dict(nl=9, npt=40, per_atom=2)
        for r in SINGLE:
            for st in core.region_border_states(r, roots, lambda s: inputs(fn, s), cx.rng, offsets=(1e-7,), **kw)[0]:
                vals.append({c: st.get(c) for c in fn})
            for st in core.cell_states(r, fn, roots, lambda s: inputs(fn, s), cx.rng, *((2000, 60, 400) if cx.thorough else (120, 6, 20)))[0]:
                vals.append({c: st.get(c) for c in fn})
            st = core.exact_states(region_states(r, 400, cx.rng), fn, roots, cx.rng)
            if st is not None:
                vals.append({c: st.get(c) for c in fn})
        st = core.exact_states(place4(cx.rng.random(400), cx.rng.random(400)), fn, roots, cx.rng)
        if st is not None:
            vals.append({c: st.get(c) for c in fn})
        vals.append(around_plane(fn, roots, cx))
        for vv in vals:
            for i in range(0, len(vv[fn[0]]), 400):
                v = {c: a[i:i + 400] for c, a in vv.items()}
                n = len(v[fn[0]])
                ev = Eval(n, {S[c]: v[c] for c in fn}, seed=cx.seed)
                ev.run([gor] + [g for q in todo for g in [q[1], q[2]] + list(q[3].values()) if isinstance(g, Node)])
                reg = ev.f(gor)
                for o, ga, gi, gr in todo:
                    for r in (1, 2, 3, 4, 5):
                        m = (reg == r) & ~ev.u(gor)
                        R.count("pair-identifier-region")
                        compare(R, cx.sites, "%s -> %s without a region is that of region %d where it is found" % (fn, ONAMES[o], r), ga, gr[r], ev,
                                st=Plain(v), mask=m, key="%s/%s/region%d" % (fn, ONAMES[o], r), rule="explicit region equals found region")
                    if gi is not None and gi is not ga:
                        compare(R, cx.sites, "%s(o_id) is %s((o_id, region none))" % (fn, fn), gi, ga, ev, st=Plain(v), key="%s/%s/i32" % (fn, ONAMES[o]), rule="same call")
        # a region that does not exist
        ids = [o for o in range(36) if o not in (ECHO[fn[0]], ECHO[fn[1]], OR)]
        gs = {o: api.call(fn, o, rsym) for o in ids}
        for o in ids:
            if gs[o] is None:
                R.und("%s %s any region" % (fn, ONAMES[o]))
        ok = [g for g in gs.values() if isinstance(g, Node)]
        reps = int_cells(ok, rsym, known=(1, 2, 3, 4, 5, AUTO))[0]
        cs = [x for r in SINGLE for x in [core.exact_states(region_states(r, 200, cx.rng), fn, ok, cx.rng, 12)] if x is not None]
        pool = [region_states(r, 3, cx.rng) for r in SINGLE] + cs
        pt = {c: np.concatenate([s.get(c) for s in pool]) for c in fn}
        m = len(pt[fn[0]])
        for k in range(0, len(reps), 24):
            qs = np.repeat(np.array(reps[k:k + 24], float), m)
            ev = Eval(len(qs), {**{S[c]: np.tile(pt[c], len(qs) // m) for c in fn}, rsym: qs}, vn=False)
            ev.run(ok)
            for o in ids:
                g = gs[o]
                if g is None:
                    continue
                f = np.broadcast_to(ev.f(g), (ev.n,)) if isinstance(g, Node) else np.full(ev.n, float(g))
                w = (f != spec.INVALID_VALUE) & ~(ev.u(g) if isinstance(g, Node) else False)
                R.count("region that does not exist", ev.n)
                R.ok(exact=int((~w).sum()))
                if w.any():
                    j = int(np.nonzero(w)[0][0])
                    R.viol("%s/%s/no-such-region" % (fn, ONAMES[o]), obligation="%s with region %d is refused" % (fn, qs[j]), rule="region outside 1 to 5",
                           inputs={c: float(pt[c][j % m]) for c in fn}, code_value=float(f[j]), expected=spec.INVALID_VALUE)


# ------------------------------------------------------------------ driver
def main(pid, tier, seed):
    import core
    import regions
    import structure
    import iteration
    import solve
    fn = globals().get(pid) or next(getattr(m, pid) for m in (regions, structure, iteration, solve) if hasattr(m, pid))
    cx = Ctx(pid, tier, seed)
    try:
        fn(cx)
    except core.Missing as e:
        cx.R.viol("anchor/%s" % e, obligation="the API offers %s" % e, rule="anchor")
    except (core.CheckError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        # the analysis does not understand the code: what was left is undecided
        import traceback
        tb = traceback.format_exc()
        sys.stderr.write(tb[-3000:])
        cx.R.und("analysis stopped: %s: %s" % (e.__class__.__name__, str(e)[:200]))
        print("UNDECIDED property=%s the analysis stopped: %s" % (pid, e.__class__.__name__))
    cx.done()
    import doc
    how, note = doc.NOTE[pid]
    return core.finish(cx.R, "other", "%s. %s" % (how, note), [doc.TRUST.strip()] if "value" in how or "region" in how else [])

