"""C08-C11: the region every state is assigned to.

The reference is the IF97 region map, evaluated point by point in the coordinates of the pair:
`refmap(fn, a, b)` gives 1..5 or 0 (outside the validity range, to be refused).  A point counts
only where the map is certain, that is where it gives one answer for all variants of the border
curve that the releases regard as the same line (forward equation of either neighbour, published
boundary equation) and for the second coordinate moved by the tolerance in both directions."""
import math

import numpy as np

import core
import dag
import spec
from core import AUTO, E, EP, ET, ED, P_, T_, D_, seval
from dag import Node
from evalg import Eval, topo
from spec import K, OV, OH, OS, OR

PMIN, PC, TC = spec.PMIN, spec.PC, spec.TC
PS623 = 16.5291642526045
# where the equation of the saturated volume changes, and the ends of the saturation line of region 3
PIECES = np.array([PS623, 19.00881189, 20.5, 21.0434, 21.9009, 21.9316, 22.064])
ANY = -1
PROP = {"h": OH, "s": OS, "v": OV}


def fwd(region, p, T, c):
    p, T = np.broadcast_arrays(np.asarray(p, float), np.asarray(T, float))
    if p.size == 0:
        return np.zeros(p.shape)
    if region == 3:
        v = seval([spec.v3pT(EP, ET)], {P_: p.ravel(), T_: T.ravel()})[0]
        if c == "v":
            return v.reshape(p.shape)
        return seval([spec.hprop(ET, ED, PROP[c])], {T_: T.ravel(), D_: 1 / v})[0].reshape(p.shape)
    return seval([spec.gprop(region, EP, ET, PROP[c])], {P_: p.ravel(), T_: T.ravel()})[0].reshape(p.shape)


def satcurves(p, T, c):
    """values on the saturation line by the equations of regions 1 and 2 up to 623.15 K, of region 3 above"""
    out = []
    for x in (0, 1):
        d = 1.0 / spec.v3sat(EP, ET, x)
        lo = seval([spec.gprop(2 if x else 1, EP, ET, PROP[c])], {P_: p, T_: T})[0]
        hi = seval([spec.hprop(ET, d, PROP[c])], {P_: p, T_: T})[0]
        out.append(np.where(T <= 623.15, lo, hi))
    return out


def decide(y, cuts, regs):
    """cuts: ascending arrays, regs: region below the first cut, between, above the last"""
    r = np.full(len(y), regs[0])
    for c, g in zip(cuts, regs[1:]):
        r = np.where(y >= c, g, r)
    return r


def map_p(p, y, c, low5=0):
    """(p,y) with y = h, s, v: list of variants of the map; low5: what belongs below PMIN"""
    n = len(p)
    pc = np.clip(p, 1e-8, 100.0)
    y0 = fwd(1, pc, 273.15, c)
    yb = [fwd(2, pc, 1073.15, c), fwd(5, np.minimum(pc, 50.0), 1073.15, c)]
    y5 = fwd(5, np.minimum(pc, 50.0), 2273.15, c)
    psat = np.clip(pc, PMIN, PC)
    Ts = core.tsatf(psat)
    sl, sg = satcurves(psat, Ts, c)
    y13 = [fwd(1, pc, 623.15, c), fwd(3, np.maximum(pc, PS623), 623.15, c)]
    Tb = core.tb23f(np.maximum(pc, 16.5292))
    y32 = [fwd(2, pc, Tb, c), fwd(3, np.maximum(pc, PS623), Tb, c)]
    out = []
    for k in (0, 1):
        b5 = np.where(p <= 50.0, yb[k], yb[0])
        top = np.where(p <= 50.0, y5, b5)
        a = decide(y, [y0, sl, sg, b5, top], [0, 1, 4, 2, 5, 0])
        b = decide(y, [y0, y13[k], y32[k], b5, top], [0, 1, 3, 2, 5, 0])
        b2 = np.where((b == 3) & (y > sl) & (y < sg), 4, b)
        r = np.where(p <= PS623, a, np.where(p < PC, b2, b))
        r = np.where((p > 50.0) & (r == 5), 0, r)
        out.append(r)
        if c in "hs":
            ps3 = seval([spec.psat3_h(E(P_)) if c == "h" else spec.psat3_s(E(P_))], {P_: y})[0]
            b3 = np.where((b == 3) & (p < ps3), 4, b)
            out.append(np.where(p <= PS623, a, np.where(p < PC, b3, b)))
    bad = ~((p >= PMIN) & (p <= 100.0))
    return [np.where(bad, 0, r) for r in out]


def map_T(T, y, c):
    """(T,y) with y = v, s, h; every property falls along an isotherm of growing pressure except
    where water contracts on heating (s) and in hot compressed water (h)"""
    Tc = np.clip(T, 273.15, 2273.15)
    Ts = np.clip(Tc, 273.15, TC)
    ps = core.psatf(Ts)
    sl, sg = satcurves(ps, Ts, c)
    t1 = np.clip(Tc, 273.15, 623.15)
    y1 = fwd(1, 100.0, t1, c)
    t3 = np.clip(Tc, 623.15, 863.15)
    pb = np.minimum(core.pb23f(t3), 100.0)
    y3 = fwd(3, 100.0, t3, c)
    y32 = [fwd(2, pb, t3, c), fwd(3, pb, t3, c)]
    t2 = np.clip(Tc, 273.15, 1073.15)
    y2hi = fwd(2, 100.0, t2, c)
    y2lo = fwd(2, PMIN, t2, c)
    y2ll = fwd(2, 1e-8, t2, c)
    t5 = np.clip(Tc, 1073.15, 2273.15)
    y5hi = fwd(5, 50.0, t5, c)
    y5lo = fwd(5, PMIN, t5, c)
    y5ll = fwd(5, 1e-8, t5, c)
    out = []
    if c == "h":
        pp = np.exp(np.linspace(0, 1, 60)[:, None] * (np.log(100.0) - np.log(ps))[None, :] + np.log(ps)[None, :])
        hh = fwd(1, pp, np.broadcast_to(t1, pp.shape), c)
        k = np.argmin(hh, axis=0)
        hmin, hmax = hh.min(axis=0), hh.max(axis=0)
        # below the minimum by less than the grid resolves
        slack = np.where((k > 0) & (k < 59), 0.02 * (hmax - hmin), 0.0)
    for k in (0, 1):
        if c == "h":
            # the same enthalpy at two pressures
            r1 = (y >= hmin) & (y <= hmax)
            r4 = (y > sl) & (y < sg)
            cold = np.where(r1 & r4, ANY, np.where(r1, 1, np.where(r4, 4, 0)))
            cold = np.where((y < hmin) & (y > hmin - slack), ANY, cold)
            cold = decide(y, [sg, y2lo, y2ll], [0, 2, ANY, 0]) + np.where(y < sg, cold, 0)
        elif c == "s":
            pp = np.exp(np.linspace(0, 1, 60)[:, None] * (np.log(100.0) - np.log(ps))[None, :] + np.log(ps)[None, :])
            ss = fwd(1, pp, np.broadcast_to(t1, pp.shape), c)
            top = ss.max(axis=0)
            cold = decide(y, [y1, sl, sg, y2lo, y2ll], [0, 1, 4, 2, ANY, 0])
            cold = np.where((y > sl) & (y <= top), ANY, cold)
        else:
            cold = decide(y, [y1, sl, sg, y2lo, y2ll], [0, 1, 4, 2, ANY, 0])
        mid = decide(y, [y3, y32[k], y2lo, y2ll], [0, 3, 2, ANY, 0])
        mid = np.where((T <= TC) & (y > sl) & (y < sg), 4, mid)
        hot = decide(y, [y2hi, y2lo, y2ll], [0, 2, ANY, 0])
        five = decide(y, [y5hi, y5lo, y5ll], [0, 5, ANY, 0])
        r = np.where(T <= 623.15, cold, np.where(T <= 863.15, mid, np.where(T <= 1073.15, hot, five)))
        out.append(np.where((T >= 273.15) & (T <= 2273.15), r, 0))
    return out


_curves = {}


def curve(name, xs, ys):
    k = np.argsort(xs)
    _curves[name] = (xs[k], ys[k])


def curves():
    if _curves:
        return _curves
    n = 4001
    u = np.linspace(0, 1, n)

    def hs(r, p, T):
        p, T = np.broadcast_arrays(np.asarray(p, float), np.asarray(T, float))
        return fwd(r, p, T, "s"), fwd(r, p, T, "h")
    T1 = 273.15 + 350 * u
    curve("liq1", *hs(1, core.psatf(T1), T1))
    curve("top1", *hs(1, 100.0, T1))
    curve("left", *hs(1, PMIN + (100 - PMIN) * u, 273.15))
    curve("b13", *hs(1, PS623 + (100 - PS623) * u, 623.15))
    T3 = 623.15 + 240 * u
    curve("top3", *hs(3, 100.0, T3 - 1e-9))
    pb = np.minimum(core.pb23f(T3), 100.0)
    curve("b23", *hs(2, pb, T3))
    T2 = 863.15 + 210 * u
    curve("top2", *hs(2, 100.0, T2))
    Tg = 273.15 + 350 * u
    curve("vap2", *hs(2, core.psatf(Tg), Tg))
    pl = np.exp(np.log(PMIN) + (np.log(100.0) - np.log(PMIN)) * u)
    curve("iso1073", *hs(2, pl, 1073.15))
    p5 = np.exp(np.log(PMIN) + (np.log(50.0) - np.log(PMIN)) * u)
    curve("iso1073_5", *hs(5, p5, 1073.15))
    T5 = 1073.15 + 1200 * u
    curve("top5", *hs(5, 50.0, T5))
    curve("iso2273", *hs(5, p5, 2273.15))
    curve("right2", *hs(2, PMIN, 273.15 + 800 * u))
    curve("right5", *hs(5, PMIN, T5))
    # saturated curves of region 3
    Ts = 623.15 + (TC - 623.15) * (1 - (1 - u) ** 3)
    ps = core.psatf(Ts)
    for x, nm in ((0, "liq3"), (1, "vap3")):
        d = 1.0 / spec.v3sat(EP, ET, x)
        s, h = seval([spec.hprop(ET, d, OS), spec.hprop(ET, d, OH)], {P_: ps, T_: Ts})
        curve(nm, s, h)
    return _curves


def at(name, s):
    x, y = curves()[name]
    return np.interp(s, x, y)


def span(name):
    x, _ = curves()[name]
    return x[0], x[-1]


def map_hs(h, s, k=0):
    """variant 0: curves computed from the forward equations; 1: published boundary equations"""
    c = curves()
    sat = {}
    if k == 0:
        s3 = span("liq3")
        lo, hi = span("liq1")
        satl = np.where(s <= hi, at("liq1", s), at("liq3", s))
        vlo, vhi = span("vap2")
        satg = np.where(s >= vlo, at("vap2", s), at("vap3", s))
        b13 = at("b13", s)
    else:
        Sx = E(core.sym("S"))
        one, h3, ab, c3, b13 = seval([spec.h1_s(Sx), spec.h3a_s(Sx), spec.h2ab_s(Sx), spec.h2c3b_s(Sx), spec.h13_s(Sx)], {Sx.n: s})
        satl = np.where(s <= 3.778281340, one, h3)
        satg = np.where(s >= 5.85, ab, c3)
    S1, S2 = span("b13")          # s at 100 MPa 623.15 K .. s'(623.15)
    s100_3 = span("top3")
    s4l, s4v = float(fwd(1, PMIN, 273.15, "s")), float(fwd(2, PMIN, 273.15, "s"))
    h4l, h4v = float(fwd(1, PMIN, 273.15, "h")), float(fwd(2, PMIN, 273.15, "h"))
    tie = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l)
    sB, sE = span("top2")
    smin = float(fwd(1, 100.0, 273.15, "s"))
    s50 = float(fwd(5, 50.0, 1073.15, "s"))
    s25 = span("iso1073")[1]
    smax = span("iso2273")[1]
    hsat = np.where(s <= spec.SC, satl, satg)
    # upper limit of regions 1 to 3
    top = np.where(s <= span("top1")[1], at("top1", s), np.where(s <= s100_3[1], at("top3", s), np.where(s <= sE, at("top2", s), at("iso1073", s))))
    r = np.zeros(len(h), int)
    below = (h >= tie) & (h < hsat) & (s >= s4l) & (s < s4v)
    above = (h >= hsat) & (h <= top) & (s >= s4l)
    # region 1, left of the 273.15 K isotherm nothing is valid
    left = (s < s4l) & (h >= at_left(s)) & (h <= top) & (s >= smin)
    one = np.where(s <= S1, True, (s <= S2) & (h < b13))
    two = (s > span("b23")[0]) & right_of_b23(h, s, k)
    inner = np.where(one, 1, np.where(two, 2, 3))
    r = np.where(below, 4, np.where(above | left, inner, 0))
    # superheated steam right of the saturated vapour at 273.15 K
    hr = at("right2", s)
    r = np.where((s >= s4v) & (s <= s25), np.where((h <= at("iso1073", s)) & (h >= hr), 2, 0), r)
    r = np.where(s > s25, 0, r)
    # region 5
    t5lo, t5hi = span("top5")
    base = at("iso1073_5" if k == 0 else "iso1073", s)
    up = np.where(s <= t5hi, at("top5", s), at("iso2273", s))
    # to the right of the isotherm's end at PMIN the lower limit is the isobar PMIN
    base = np.where(s > span("iso1073_5")[1], at("right5", s), base)
    five = (s >= t5lo) & (s <= smax) & (h > base) & (h <= up)
    return np.where(five, 5, r)


def at_left(s):
    """enthalpy on the 273.15 K isotherm at the high-pressure side, for s below the saturated liquid"""
    x, y = curves()["left"]
    # s falls with pressure beyond its maximum near 20 MPa
    k = np.argsort(y)
    yy, xx = y[k], x[k]
    j = int(np.argmax(xx))
    return np.interp(-s, -xx[j:], yy[j:])


def b23_side(h, s, k=0):
    """enthalpy above the 2-3 boundary at the pressure of the state (by either neighbour's p(h,s))"""
    Hx, Sx = E(core.sym("H")), E(core.sym("S"))
    p = seval([spec.hs2c(Hx, Sx) if k else spec.hs3(Hx, Sx)], {Hx.n: h, Sx.n: s})[0]
    if "b23h" not in _curves:
        T = 623.15 + 240 * np.linspace(0, 1, 4001)
        pb = np.minimum(core.pb23f(T), 100.0)
        _curves["b23h"] = (pb, fwd(2, pb, T, "h"))
    return h - np.interp(p, *_curves["b23h"])


def right_of_b23(h, s, k=0):
    return np.where(h < 2563.5, s > 5.2106, np.where(h > 2813.0, True, np.where(s > 5.2607, True, b23_side(h, s, k) > 0)))


TOL = {"h": (1e-6, 2e-3), "s": (1e-6, 5e-6), "v": (3e-6, 0.0)}


def refmap(fn, a, b, wide=1.0):
    """region (1..5, 0 refused) and where that is certain"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if fn == "pt":
        T = b + K
        ps = core.psatf(np.clip(T, 273.15, TC))
        pb = core.pb23f(np.clip(T, 623.15, 863.15))
        r = np.where(T <= 623.15, np.where(a > ps, 1, 2), np.where(T <= 863.15, np.where(a > pb, 3, 2), np.where(T <= 1073.15, 2, 5)))
        q = np.abs(a / ps - 1)
        r = np.where((T < TC) & (q < 1e-9), 4, r)
        out = ~((a >= PMIN) & (a <= 100.0)) | ~((T >= 273.15) & (T <= 2273.15)) | ((T > 1073.15) & (a > 50.0))
        sure = ~((T < TC + 1e-6) & (q >= 1e-9) & (q < 1e-5)) & ~((T > 623.15) & (T <= 863.15 + 1e-9) & (np.abs(a / pb - 1) < 1e-9))
        return np.where(out, 0, r), np.where(out, True, sure)
    if fn == "hs":
        rs = []
        for dh in (-1.0, 0.0, 1.0):
            for ds in (-1.0, 0.0, 1.0):
                for k in (0, 1):
                    rs.append(map_hs(a + dh * 0.15 * wide, b + ds * 2e-4 * wide, k))
        sure = np.ones(len(a), bool)
        for x in rs[1:]:
            sure &= x == rs[0]
        # the 100 MPa isobar is approximated in the code: 1 kJ/kg below and above is left open
        for d in (-6.0, 6.0):
            x = map_hs(a + d, b, 0)
            edge = (x == 0) != (rs[0] == 0)
            sure &= ~(edge & (b < span("top2")[1] + 1e-3))
        # next to the 273.15 K isotherm of water, as wide as the backward equations are wrong
        for d in (-8e-4, 8e-4):
            sure &= ~((b < 2e-3) & (map_hs(a, b + d, 0) != rs[0]))
        # the 2-3 boundary in (h,s) is known through TB23(h,s), accurate to some mK
        sure &= ~((np.abs(b23_side(a, b)) < 1.0) & (a > 2562) & (a < 2815) & (b > 5.04) & (b < 5.27))
        return rs[0], sure
    m = map_p if fn[0] == "p" else map_T
    c = fn[1]
    x = a if fn[0] == "p" else a + K
    rel, ab = TOL[c]
    rs = []
    for d in (0.0, -1.0, 1.0):
        y = b + d * wide * (rel * np.abs(b) + ab)
        rs += m(x, y, c)
        if fn[0] == "p":
            # the saturation pressure at 623.15 K carries its own rounding
            at = np.abs(x / PS623 - 1) < 1e-9
            for q in (-1e-8, 1e-8):
                rs += m(np.where(at, x * (1 + q), x), y, c)
    sure = np.ones(len(a), bool)
    for q in rs[1:]:
        sure &= q == rs[0]
    r = rs[0]
    sure &= r != ANY
    if fn[0] == "t":
        # where the saturation line runs into the 2-3 boundary, the published curves cross within some 1e-5 K
        sg = fwd(2, PS623, 623.15, c)
        sure &= ~((x > 623.15) & (x < 623.1501) & (np.abs(b - sg) < 1e-4 * np.abs(sg)))
    # the saturation line is made of pieces that do not meet exactly: at their ends either is accepted
    ps = x if fn[0] == "p" else core.psatf(np.clip(x, 273.15, TC))
    i = np.nonzero(np.abs(ps[:, None] / PIECES - 1).min(axis=1) < 2e-6)[0]
    if len(i):
        for d in (-2e-6, 2e-6):
            z = ps[i] * (1 + d)
            for k in m(z if fn[0] == "p" else core.tsatf(np.clip(z, PMIN, PC)), b[i], c):
                sure[i] &= k == r[i]
    if fn[0] == "p":
        sg = fwd(2, PS623, 623.15, c)
        sure &= ~((np.abs(x / PS623 - 1) < 1e-6) & (np.abs(b / sg - 1) < 1e-4))
    if fn == "pv":
        sure &= ~((np.abs(x / PC - 1) < 1e-7) & (np.abs(b * 322.0 - 1) < 0.03))
    if fn == "pv":
        # below PMIN the extended pairs are accepted or refused; water denser than at 273.15 K occurs at two temperatures
        pc = np.clip(a, PMIN, 100.0)
        T = 273.15 + np.linspace(0, 20, 40)[:, None]
        vmin = fwd(1, np.broadcast_to(pc, (40, len(pc))), np.broadcast_to(T, (40, len(pc))), "v").min(axis=0)
        pl = np.clip(a, 1e-8, PMIN)
        sure &= ~((a >= 1e-8) & (a < PMIN) & (b > fwd(2, pl, 273.15, "v") * (1 - 1e-5))) & ~((b >= vmin * (1 - 1e-5)) & (b <= fwd(1, pc, 273.15, "v")))
    return r, sure


BOX = {"p": (PMIN * 0.3, 130.0), "t": (-30.0, 2400.0), "h": (-60.0, 7700.0), "s": (-0.3, 21.0), "v": (8e-4, 2000.0)}


def plane(fn, a, b, kind):
    """unit square -> coordinates of the pair; kind 0 linear, 1 logarithmic or zoomed"""
    out = []
    for c, u in zip(fn, (a, b)):
        lo, hi = BOX[c]
        if c in "pv":
            out.append(np.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * u) if kind or c == "v" else lo + (hi - lo) * u)
        elif kind == 2 and c == "t":
            out.append(340.0 + 40.0 * u)
        elif kind == 2 and c == "h":
            out.append(1500.0 + 1400.0 * u)
        elif kind == 2 and c == "s":
            out.append(3.2 + 2.9 * u)
        elif kind == 3 and c == "s":
            out.append(-0.02 + 0.06 * u)
        elif kind == 3 and c == "h":
            out.append(-5.0 + 140.0 * u)
        elif kind == 3 and c == "t":
            out.append(-1.0 + 12.0 * u)
        elif kind == 1 and c == "t":
            out.append(-10.0 + 1000.0 * u)
        elif kind == 1 and c == "h":
            out.append(-10.0 + 4300.0 * u)
        elif kind == 1 and c == "s":
            out.append(-0.05 + 12.0 * u)
        else:
            out.append(lo + (hi - lo) * u)
    if kind == 2 and fn[0] == "p":
        out[0] = 15.0 + 10.0 * a
    if kind == 2 and fn[1] == "v":
        out[1] = np.exp(math.log(1e-3) + (math.log(2e-2) - math.log(1e-3)) * b)
    return out


def plane_cells(fn, roots, rng, most=400, kinds=(0, 1, 2, 3), nl=12, lines=24, grid=None):
    """points of the plane of a pair, one for every combination of outcomes of the comparisons that
    gate the given graphs met along lines: at random, and beside and between the values an argument
    is compared with"""
    grid = core.GRID if grid is None else grid
    A, B, total = [np.zeros(0)], [np.zeros(0)], 0
    known = {}
    th = core.thresholds([g for g in roots if isinstance(g, core.Node)])
    for kind in kinds:
        a0, a1, b0, b1, _ = core.unit_lines(rng, nl, 2)

        def at(i, u):
            return plane(fn, a0[i] + (a1 - a0)[i] * u, b0[i] + (b1 - b0)[i] * u, kind)
        groups = [(nl, at)]
        for k in (0, 1):
            lo, hi = plane(fn, np.array([0.0, 1.0]), np.array([0.0, 1.0]), kind)[k]
            zs = sorted(z for z in th.get(core.sym(fn[k]), ()) if lo < z < hi)
            e = [lo] + zs + [hi]
            ws = [z + d * max(abs(z), 1e-3) for z in zs for d in (-1e-8, 1e-8)] + [0.5 * (x + y) for x, y in zip(e, e[1:])]
            ws = np.array(ws)[rng.permutation(len(ws))[:lines]]

            def on(i, u, k=k, ws=ws):
                o = plane(fn, u, u, kind)[1 - k]
                return (ws[i], o) if k == 0 else (o, ws[i])
            groups.append((len(ws), on))
        for n, fun in groups:
            i, u, t = core.cell_points(roots, lambda i, u: dict(zip((core.sym(fn[0]), core.sym(fn[1])), fun(i, u))), rng, n, grid, most, known=known)
            total += t
            if len(i):
                a, b = fun(i, u)
                A.append(a)
                B.append(b)
    return np.concatenate(A), np.concatenate(B), total


def edges(rng, n):
    """unit coordinates next to 0 and 1 at several scales, and inside"""
    e = rng.choice([1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2], n) * (1 + rng.random(n))
    k = rng.random(n)
    return np.where(k < 0.35, e, np.where(k < 0.7, 1 - e, rng.random(n)))


def special(fn):
    """exactly representable corners and limits of the range of the first coordinate"""
    P = [PMIN, np.nextafter(PMIN, 0), 0.000611213, 0.001, 0.1, 1.0, 4.0, 10.0, 16.5291642526045, 16.529164, 16.53, 20.0, 22.064, np.nextafter(22.064, 0), 22.1, 25.0, 50.0, np.nextafter(50.0, 99), 50.001, 60.0, 99.0, 100.0, np.nextafter(100.0, 200), 100.001,
         0.0, -1.0, 1e-9, 1000.0]
    Tt = [0.0, -1e-9, -0.001, 0.01, 1.0, 20.0, 25.0, 100.0, 200.0, 300.0, 349.0, 350.0, 350.0 + 1e-9, 351.0, 360.0, 370.0, 373.946, 373.946 + 1e-9, 374.0, 400.0, 500.0, 590.0, 590.0 - 1e-6, 590.0 + 1e-6, 600.0, 700.0, 800.0,
          800.0 + 1e-9, 801.0, 1000.0, 1500.0, 2000.0, 2000.0 + 1e-9, 2001.0, -1.0, -300.0, 5000.0]
    return {"p": P, "t": Tt}.get(fn[0])


def points(cx, fn):
    rng = cx.rng
    pts = []
    # states of every region, many next to its edges
    n = cx.npts(500, 6000)
    import checks
    for r in (1, 2, 3, 5):
        for log in (False, True):
            p, T = core.place(r, edges(rng, n), edges(rng, n), np.full(n, log), m=1e-8)
            st = core.mkstates(r, p, T)
            pts.append((st.get(fn[0]), st.get(fn[1]), r))
    if fn != "pt":
        for near in (False, True):
            st = checks.place4(edges(rng, n), edges(rng, n), near)
            pts.append((st.get(fn[0]), st.get(fn[1]), 4))
    # the exact limits crossed with everything
    sp = special(fn)
    if sp:
        m = cx.npts(60, 400)
        for q in sp:
            b = []
            for kind in range(4):
                b.append(plane(fn, np.zeros(m), rng.random(m), kind)[1])
            b = np.concatenate(b)
            if fn == "pt":
                b = np.concatenate([b, np.array(special("t"))])
            pts.append((np.full(len(b), q), b, None))
    if fn == "pt":
        st = rng.random(n) * 373.9
        ps = core.psatf(st + K)
        for f in (1.0, 1 + 2e-5, 1 - 2e-5, 1 + 1e-4, 1 - 1e-4):
            pts.append((ps * f, st, None))
    return pts


def path(g, ev, j, sites, limit=6):
    """comparisons that decided the answer, innermost last"""
    out = []
    x = g
    while isinstance(x, Node) and x.op == "ite":
        c = x.args[0]
        f = ev.F[c.id]
        t = (float(f) if np.ndim(f) == 0 else float(f[j])) > 0.5
        s = sites.of(c)
        out.append("%s is %s%s" % (dag.show(c, 3)[:160], t, " in %s (%s:%s)" % s if s else ""))
        x = x.args[1] if t else x.args[2]
    return out[-limit:]


def invert5(h, s):
    """(p,T) of region 5 for given (h,s), by Newton's method on the reference equations; NaN where none is found"""
    T = np.clip((h - 700.0) / 2.5, 900.0, 2600.0)
    p = np.full(len(h), 1.0)
    ex = [spec.gprop(5, EP, ET, o) for o in (OH, OS, OV, spec.OCP)]
    with np.errstate(all="ignore"):
        for _ in range(60):
            hh, ss, v, cp = seval(ex, {P_: p, T_: T})
            dh, ds = h - hh, s - ss
            dlp = np.clip((dh - T * ds) / v / 1000.0 / p, -1.5, 1.5)
            dT = np.clip(dh / cp, -300.0, 300.0)
            p = np.clip(p * np.exp(dlp), 1e-9, 1e4)
            T = np.clip(T + dT, 500.0, 5000.0)
        hh, ss = seval(ex[:2], {P_: p, T_: T})
        ok = (np.abs(hh - h) < 1e-6) & (np.abs(ss - s) < 1e-9)
    return np.where(ok, p, np.nan), np.where(ok, T, np.nan)


def carried(cx, fn, g):
    """values that loops compute and the region rests on: what they stand for when the loop has
    converged.  Returns a function of (a, b) giving values, or None."""
    mus = [x for x in dag.subnodes(g) if x.op == "mu" and x.args[3] == "f"]
    if not mus:
        return None
    if fn == "th":
        def hmin(a, b):
            T = np.clip(a + K, 273.15, 623.15)
            ps = core.psatf(T)
            pp = np.exp(np.linspace(0, 1, 60)[:, None] * (np.log(100.0) - np.log(ps))[None, :] + np.log(ps)[None, :])
            return {m: fwd(1, pp, np.broadcast_to(T, pp.shape), "h").min(axis=0) for m in mus}
        return hmin
    if fn != "hs" or len(mus) > 10:
        return None
    st = core.region_states(5, 40, cx.rng)
    best = None
    for bits in range(1 << len(mus)):
        vals = {m: (st.T if bits >> k & 1 else st.p) for k, m in enumerate(mus)}
        ev = Eval(st.n, {core.sym("h"): st.h, core.sym("s"): st.s, **vals}, vn=False)
        ev.run([g])
        score = int(((ev.f(g) == 5) & ~ev.u(g)).sum())
        if best is None or score > best[0]:
            best = (score, bits)
    bits = best[1]

    def pT(a, b):
        p, T = invert5(a, b)
        return {m: (T if bits >> k & 1 else p) for k, m in enumerate(mus)}
    return pT


def check_region(cx, fn):
    R, api = cx.R, cx.api
    g = api.call(fn, OR, AUTO)
    if g is None:
        R.und("%s: region graph" % fn)
        return
    pts = points(cx, fn)
    nl, npt = (48, 300) if not cx.thorough else (160, 800)
    for kind in range(4):
        a, b, na = core.border_points([g], lambda a, b: dict(zip((core.sym(fn[0]), core.sym(fn[1])), plane(fn, a, b, kind))), cx.rng, nl=nl, npt=npt,
                                      per_atom=12 if not cx.thorough else 40, offsets=(1e-9, 1e-6, 1e-4), exact=True)
        R.count("case distinctions of %s" % fn, na if kind == 0 else 0)
        if len(a):
            pts.append(tuple(plane(fn, a, b, kind)) + (None,))
        m = cx.npts(800, 8000)
        pts.append(tuple(plane(fn, cx.rng.random(m), cx.rng.random(m), kind)) + (None,))
    # the very values an argument is compared with, alone and in combination
    th = core.thresholds([g])
    tv = [sorted(th.get(core.sym(c), ())) for c in fn]
    m = cx.npts(10, 60)
    for k in (0, 1):
        for kind in range(4):
            ws = np.array([w for z in tv[k] for w in core.around(z)])
            if len(ws):
                o = plane(fn, cx.rng.random(len(ws) * m), cx.rng.random(len(ws) * m), kind)[1 - k]
                w = np.repeat(ws, m)
                pts.append((w, o, None) if k == 0 else (o, w, None))
    if tv[0] and tv[1]:
        w0 = np.array([w for z in tv[0] for w in core.around(z)[:3]])
        w1 = np.array([w for z in tv[1] for w in core.around(z)[:3]])
        pts.append((np.repeat(w0, len(w1)), np.tile(w1, len(w0)), None))
    a, b, nc = plane_cells(fn, [g], cx.rng, *((20000, (0, 1, 2, 3), 60, 400) if cx.thorough else (3000,)))
    R.count("combinations of outcomes of comparisons of %s" % fn, nc)
    if len(a):
        pts.append((a, b, None))
    sites = cx.sites
    loopvals = carried(cx, fn, g)
    for a, b, reg in pts:
        for i in range(0, len(a), 4000):
            aa, bb = a[i:i + 4000], b[i:i + 4000]
            ref, sure = refmap(fn, aa, bb)
            sy = {core.sym(fn[0]): aa, core.sym(fn[1]): bb}
            ev = Eval(len(aa), sy, vn=False)
            ev.run([g])
            if loopvals and ev.u(g).any():
                lv = loopvals(aa, bb)
                known = ~np.isnan(np.sum(list(lv.values()), axis=0))
                ev2 = Eval(len(aa), {**sy, **lv}, vn=False)
                ev2.run([g])
                u = ev.u(g) & ~known
                f = np.where(ev.u(g) & known, ev2.f(g), ev.f(g))
                ev = ev2
            else:
                f, u = ev.f(g), ev.u(g)
            if reg is not None:
                # a state computed forward from a region: the map itself has to agree
                R.count("states computed from a region")
                sure = sure & (ref == reg)
            good = np.where(ref == 0, f < 0, f == ref)
            R.count("points of the (%s,%s) plane" % tuple(fn), int(sure.sum()))
            R.count("points in a band around a border, left out", int((~sure).sum()))
            und = sure & u
            if und.any():
                R.und("%s: region rests on an undecided condition" % fn, int(und.sum()))
            sure = sure & ~u
            R.ok(exact=int((sure & good).sum()))
            bad = sure & ~good
            for want in np.unique(ref[bad]):
                for got in np.unique(f[bad & (ref == want)]):
                    js = np.nonzero(bad & (ref == want) & (f == got))[0]
                    j = int(js[len(js) // 2])
                    key = "%s/region%d/%s" % (fn, want, "region%d" % got if got > 0 else "refused") if want else "%s/outside/region%d" % (fn, got)
                    R.viol(key, obligation="(%s,%s): %s" % (fn[0], fn[1], "state of region %d" % want if want else "pair outside the validity range is refused"),
                           rule="region map", inputs={fn[0]: float(aa[j]), fn[1]: float(bb[j])}, points=len(js), code_value=float(got), expected=int(want),
                           decided_by=path(g, ev, j, sites))


def C08(cx):
    check_region(cx, "pt")


def C09(cx):
    check_region(cx, "ph")
    check_region(cx, "ps")


def C10(cx):
    check_region(cx, "hs")


def C11(cx):
    for fn in ("pv", "tv", "th", "ts"):
        check_region(cx, fn)
