"""Reference expressions: IAPWS-IF97 and its supplementary releases, written from the releases'
formulas over the committed coefficient tables (tables.json), as value graphs.

Units: p MPa, T K (t degrees Celsius where the API uses it), v m3/kg, h u f g e kJ/kg, s cp cv kJ/(kg K), w m/s.
"""
import json
import os
import dag
from dag import E, exp, ln, sqrt, fcmp, ite, const, mk, sym

T_ = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables.json")))

OP, OT, OD, OV, OH, OS, OE, OU, OCP, OCV, OW, OKS, OF, OG, OZ, OX, OR, OEC, OKT, ODVDT, ODVDP, ODPDT, OIJTC, OJTC, ODV, OKV, OTC, OTD, OPR, OST, OSDC, OPC, OBETAP, OFI, OFU, OALFAP = range(36)
ONAMES = "OP OT OD OV OH OS OE OU OCP OCV OW OKS OF OG OZ OX OR OEC OKT ODVDT ODVDP ODPDT OIJTC OJTC ODV OKV OTC OTD OPR OST OSDC OPC OBETAP OFI OFU OALFAP".split()
BASIC = [OV, OD, OU, OH, OS, OCP, OCV, OW]
EXT = [OE, OKS, OF, OG, OZ, OEC, OKT, ODVDT, ODVDP, ODPDT, OIJTC, OJTC, OPC, OBETAP, OFI, OFU, OALFAP]
TRANS = [ODV, OKV, OTC, OTD, OPR, OST, OSDC]
INVALID_VALUE, INVALID_OUTID, INVALID_P, INVALID_T, INVALID_S, INVALID_H, INVALID_PT, INVALID_HS = -9999, -1000, -2100, -2101, -2102, -2103, -2201, -2202

K = 273.15
R = 0.461526
TC, PC, DC = 647.096, 22.064, 322.0
SC = 4.41202148223476
HC = 2087.546845
Tt = 273.16
PS623 = 16.5291642526045
PMIN = 0.000611212677444


# ------------------------------------------------------------------ conditions
def C(a, op, b):
    return fcmp(op, E(a).n, E(b).n)


def AND(*cs):
    r = 1
    for c in cs:
        r = dag.band(r, c)
    return r


def OR_(*cs):
    r = 0
    for c in cs:
        r = dag.bor(r, c)
    return r


def sel(c, a, b):
    return E(ite(c, E(a).n, E(b).n))


def chain(cases, default):
    """first case whose condition holds"""
    r = E(default)
    for c, v in reversed(cases):
        r = sel(c, v, r)
    return r


# ------------------------------------------------------------------ power sums
def poly(a, b, tab):
    r = E(0.0)
    for I, J, n in tab:
        t = E(n)
        if I:
            t = t * (a ** I if isinstance(I, int) else a ** E(float(I)))
        if J:
            t = t * (b ** J)
        r = r + t
    return r


def psum(x, ns, es=None):
    r = E(0.0)
    for k, n in enumerate(ns):
        e = k if es is None else es[k]
        r = r + (E(n) * x ** e if e else E(n))
    return r


def dpoly(a, b, tab, i=0, j=0):
    """partial derivative of sum n a^I b^J, i times in a, j times in b"""
    t2 = []
    for I, J, n in tab:
        c = 1
        for k in range(i):
            c *= I - k
        for k in range(j):
            c *= J - k
        if c:
            t2.append((c, I - i, J - j, n))
    r = E(0.0)
    for c, I, J, n in t2:
        t = E(n)
        if I:
            t = t * a ** I
        if J:
            t = t * b ** J
        if c != 1:
            t = t * float(c)
        r = r + t
    return r


# ------------------------------------------------------------------ basic equations
_memo = {}


def memo(f):
    def g(*a):
        k = (f.__name__,) + tuple(x.n.id if isinstance(x, E) else x for x in a)
        r = _memo.get(k)
        if r is None:
            r = _memo[k] = f(*a)
        return r
    return g


@memo
def gamma(region, p, T, i, j):
    """dimensionless Gibbs energy derivative, i times in pi, j times in tau; region 1, 2, 5"""
    if region == 1:
        pi, tau = p / 16.53, 1386.0 / T
        r = dpoly(7.1 - pi, tau - 1.222, T_["region1_gfe:IJn"], i, j)
        return -r if i % 2 else r
    if region == 2:
        pi, tau = p, 540.0 / T
        J0, n0, IJ, sh = T_["region2_gfe:J0"], T_["region2_gfe:n0"], T_["region2_gfe:IJn"], 0.5
    else:
        pi, tau = p, 1000.0 / T
        J0, n0, IJ, sh = T_["region5_gfe:Jo"], T_["region5_gfe:no"], T_["region5_gfe:IJn"], 0.0
    return gamma0(region, p, T, i, j) + dpoly(pi, tau - sh if sh else tau, IJ, i, j)


@memo
def gamma0(region, p, T, i, j):
    if region == 2:
        pi, tau = p, 540.0 / T
        J0, n0 = T_["region2_gfe:J0"], T_["region2_gfe:n0"]
    else:
        pi, tau = p, 1000.0 / T
        J0, n0 = T_["region5_gfe:Jo"], T_["region5_gfe:no"]
    if i and j:
        return E(0.0)
    if i == 1:
        return 1.0 / pi
    if i == 2:
        return -1.0 / pi ** 2
    r = dpoly(tau, E(1.0), [(int(J), 0, n) for J, n in zip(J0, n0)], j, 0)
    return r + ln(pi) if j == 0 else r


RED = {1: (16.53, 1386.0), 2: (1.0, 540.0), 5: (1.0, 1000.0)}


@memo
def gibbs(region, p, T):
    """specific Gibbs energy and its derivatives in p and T"""
    ps, Ts = RED[region]
    tau = Ts / T
    G = lambda i, j: gamma(region, p, T, i, j)
    return dict(g=R * T * G(0, 0), gp=R * T * G(1, 0) / ps, gpp=R * T * G(2, 0) / ps / ps,
                gT=R * (G(0, 0) - tau * G(0, 1)), gTT=R * tau * tau * G(0, 2) / T,
                gpT=R * (G(1, 0) - tau * G(1, 1)) / ps)


def gprop(region, p, T, o):
    d = gibbs(region, p, T)
    g, gp, gpp, gT, gTT, gpT = (d[k] for k in ("g", "gp", "gpp", "gT", "gTT", "gpT"))
    v = gp / 1000.0
    if o == OP: return p
    if o == OT: return T - K
    if o == OV: return v
    if o == OD: return 1.0 / v
    if o == OH: return g - T * gT
    if o == OS: return -gT
    if o == OU: return g - T * gT - p * gp
    if o == OCP: return -(T * gTT)
    if o == OCV: return T * gpT * gpT / gpp - T * gTT
    w2 = 1000.0 * gp * gp * gTT / (gpT * gpT - gpp * gTT)
    if o == OW: return sqrt(w2)
    if o == OE: return g - (T - Tt) * gT
    if o == OF: return g - p * gp
    if o == OG: return g
    if o == OZ: return 1000.0 * p * v / R / T
    if o == OKS:
        w = sqrt(w2)
        return 1e-6 * w * w / v / p
    if o == OEC: return gpT / gp
    kt = -gpp / gp
    if o == OKT: return kt
    if o == ODVDT: return gpT / 1000.0
    if o == ODVDP: return gpp / 1000.0
    if o == ODPDT: return -gpT / gpp
    ij = gp - T * gpT
    if o == OIJTC: return ij
    if o == OJTC: return ij / (T * gTT)
    if o == OPC: return -gpT / gpp / p
    if o == OBETAP: return 1.0 / (p * v * kt)
    if o in (OFI, OFU):
        if region == 1:
            fi = exp(g / R / T)
        else:
            fi = exp(g / R / T - gamma0(region, p, T, 0, 0))
        return fi if o == OFI else p * fi
    if o == OALFAP: return gpT / gp / p / kt
    if o in TRANS: return trans(1.0 / v, T, -(T * gTT), o)
    raise KeyError(o)


@memo
def phi(d, T, i, j):
    delta, tau = d / DC, TC / T
    n1 = T_["region3_hfe:n1"]
    r = dpoly(delta, tau, T_["region3_hfe:IJn"], i, j)
    if j == 0:
        if i == 0:
            r = n1 * ln(delta) + r
        elif i == 1:
            r = n1 / delta + r
        else:
            r = -n1 / (delta * delta) + r
    return r


def hprop(T, d, o):
    """region 3"""
    delta, tau = d / DC, TC / T
    f = lambda i, j: phi(d, T, i, j)
    dd = delta * f(1, 0)
    p = d * R * T * dd / 1000.0
    A = dd - delta * tau * f(1, 1)
    B = 2.0 * dd + delta * delta * f(2, 0)
    dpdT = R * d * A / 1000.0
    dpdd = R * T * B / 1000.0
    cv = -R * tau * tau * f(0, 2)
    cp = cv + R * A * A / B
    h = R * T * (tau * f(0, 1) + dd)
    s = R * (tau * f(0, 1) - f(0, 0))
    g = R * T * (f(0, 0) + dd)
    w2 = 1000.0 * R * T * (B - A * A / (tau * tau * f(0, 2)))
    kt = 1.0 / (d * dpdd)
    ec = dpdT / (d * dpdd)
    if o == OP: return p
    if o == OT: return T - K
    if o == OD: return d
    if o == OV: return 1.0 / d
    if o == OH: return h
    if o == OS: return s
    if o == OU: return R * T * tau * f(0, 1)
    if o == OCP: return cp
    if o == OCV: return cv
    if o == OW: return sqrt(w2)
    if o == OE: return h - Tt * s
    if o == OF: return R * T * f(0, 0)
    if o == OG: return g
    if o == OZ: return 1000.0 * p / d / R / T
    if o == OKS:
        w = sqrt(w2)
        return 1e-6 * w * w * d / p
    if o == OEC: return ec
    if o == OKT: return kt
    if o == ODVDT: return ec / d
    if o == ODVDP: return -kt / d
    if o == ODPDT: return dpdT
    ij = 1000.0 * (1.0 - T * ec) / d
    if o == OIJTC: return ij
    if o == OJTC: return -ij / cp
    if o == OPC: return dpdT / p
    if o == OBETAP: return d / (p * kt)
    if o in (OFI, OFU):
        fi = exp(g / R / T)
        return fi if o == OFI else p * fi
    if o == OALFAP: return ec / p / kt
    if o in TRANS: return trans(d, T, cp, o)
    raise KeyError(o)


# ------------------------------------------------------------------ transport and further properties
def visc(d, T):
    Tr, D = T / TC, d / DC
    s = psum(1.0 / Tr, T_["viscosity:no"])
    m0 = 100.0 * sqrt(Tr) / s
    m1 = exp(D * poly(1.0 / Tr - 1.0, D - 1.0, T_["viscosity:ijH"]))
    return m0 * m1 * 1e-6


def thcond(d, T):
    Tr, D = T / TC, d / DC
    l0 = sqrt(Tr) / psum(1.0 / Tr, T_["thcond:no"])
    tab = [(i, j, x) for i, row in enumerate(T_["thcond:nij"]) for j, x in enumerate(row) if x != 0.0]
    l1 = exp(D * poly(1.0 / Tr - 1.0, D - 1.0, tab))
    return 1e-3 * (l0 * l1)


def dielectric(d, T):
    D, Tr = d / DC, TC / T
    n = T_["static_dielectric:n"]
    # 1/Tr is T/TC, so TC/228/Tr is T/228
    g = 1.0 + n[11] * D / (TC / 228.0 / Tr - 1.0) ** E(1.2)
    for i, j, c in zip(T_["static_dielectric:I"], T_["static_dielectric:J"], n):
        g = g + c * D ** int(i) * Tr ** E(float(j))
    k, Na, al, e0, mu, M = 1.380658e-23, 6.0221367e23, 1.636e-40, 8.854187817e-12, 6.138e-30, 0.018015268
    A = d * Na * mu * mu * g / M / e0 / k / T
    B = d * Na * al / 3.0 / M / e0
    c = 9.0 + 2.0 * A + 18.0 * B + A * A + 10.0 * A * B + 9.0 * B * B
    return (1.0 + A + 5.0 * B + sqrt(c)) / 4.0 / (1.0 - B)


def surften(T):
    x = 1.0 - T / TC
    r = 1e-3 * (235.8 * x ** E(1.256) * (1.0 - 0.625 * x))
    return sel(AND(C(248.15, "le", T), C(T, "le", TC)), r, float(INVALID_VALUE))


def trans(d, T, cp, o):
    if o == ODV: return visc(d, T)
    if o == OKV: return visc(d, T) / d
    if o == OTC: return thcond(d, T)
    if o == OTD: return 1e-3 * thcond(d, T) / (cp * d)
    if o == OPR: return 1e3 * visc(d, T) * cp / thcond(d, T)
    if o == OST: return surften(T)
    if o == OSDC: return dielectric(d, T)


# ------------------------------------------------------------------ saturation line and boundaries
def psat_raw(T):
    n = T_["region4_sat_pT:n"]
    th = T + n[8] / (T - n[9])
    A = th * th + n[0] * th + n[1]
    B = n[2] * th * th + n[3] * th + n[4]
    C_ = n[5] * th * th + n[6] * th + n[7]
    return (2.0 * C_ / (sqrt(B * B - 4.0 * A * C_) - B)) ** 4


def tsat_raw(p):
    n = T_["region4_sat_pT:n"]
    b = p ** E(0.25)
    e = b * b + n[2] * b + n[5]
    f = n[0] * b * b + n[3] * b + n[6]
    g = n[1] * b * b + n[4] * b + n[7]
    D = 2.0 * g / (-f - sqrt(f * f - 4.0 * e * g))
    return (n[9] + D - sqrt((n[9] + D) * (n[9] + D) - 4.0 * (n[8] + n[9] * D))) / 2.0


def psat(T):
    return sel(OR_(C(T, "lt", 273.15), C(T, "gt", TC)), float(INVALID_VALUE), psat_raw(T))


def tsat(p):
    return sel(OR_(C(p, "lt", 0.000611212677), C(p, "gt", PC)), float(INVALID_VALUE), tsat_raw(p))


def pB23(T):
    n = T_["B23_T2p:n23"]
    return n[0] + n[1] * T + n[2] * T * T


def tB23(p):
    n = T_["B23_p2T:n23"]
    return n[1] + ((p - n[2]) / n[0]) ** E(0.5)


# ------------------------------------------------------------------ region 3 v(p,T)
PARA = {  # subregion: v*, p*, T*, a, b, c, d, e
    "a": (.0024, 100., 760., .085, .817, 1, 1, 1), "b": (.0041, 100., 860., .280, .779, 1, 1, 1),
    "c": (.0022, 40., 690., .259, .903, 1, 1, 1), "d": (.0029, 40., 690., .559, .939, 1, 1, 4),
    "e": (.0032, 40., 710., .587, .918, 1, 1, 1), "f": (.0064, 40., 730., .587, .891, .5, 1, 4),
    "g": (.0027, 25., 660., .872, .971, 1, 1, 4), "h": (.0032, 25., 660., .898, .983, 1, 1, 4),
    "i": (.0041, 25., 660., .910, .984, .5, 1, 4), "j": (.0054, 25., 670., .875, .964, .5, 1, 4),
    "k": (.0077, 25., 680., .802, .935, 1, 1, 1), "l": (.0026, 24., 650., .908, .989, 1, 1, 4),
    "m": (.0028, 23., 650., 1.00, .997, 1, .25, 1), "n": (.0031, 23., 650., .976, .997, None, None, None),
    "o": (.0034, 23., 650., .974, .996, .5, 1, 1), "p": (.0041, 23., 650., .972, .997, .5, 1, 1),
    "q": (.0022, 23., 650., .848, .983, 1, 1, 4), "r": (.0054, 23., 650., .874, .982, 1, 1, 1),
    "s": (.0022, 21., 640., .886, .990, 1, 1, 4), "t": (.0088, 20., 650., .803, 1.02, 1, 1, 1),
    "u": (.0026, 23., 650., .902, .988, 1, 1, 1), "v": (.0031, 23., 650., .960, .995, 1, 1, 1),
    "w": (.0039, 23., 650., .959, .995, 1, 1, 4), "x": (.0049, 23., 650., .910, .988, 1, 1, 1),
    "y": (.0031, 22., 650., .996, .994, 1, 1, 4), "z": (.0038, 22., 650., .993, .994, 1, 1, 4)}


@memo
def v3(sub, p, T):
    vs, ps, Ts, a, b, c, d, e = PARA[sub]
    x, y = p / ps - a, T / Ts - b
    if c is not None and c != 1:
        x = x ** E(c)
    if d is not None and d != 1:
        y = y ** E(d)
    s = poly(x, y, T_["pT2v_3%s:IJn" % sub])
    if sub == "n":
        return exp(s) * vs
    if e == 4:
        s = s ** 4
    return s * vs


@memo
def t3b(name, p):
    """boundary between subregions, Eq. (1)-(3) of S05"""
    if name == "ef":
        return 3.727888004 * (p - 22.064) + 647.096
    n, I = T_["T_atRegionBoundary:n3" + name], T_["T_atRegionBoundary:I3" + name]
    x = ln(p) if name in ("ab", "op", "wx") else p
    return psum(x, n[1:], I[1:])


@memo
def v3pT(p, T):
    return chain3(p, T, lambda s: v3(s, p, T))


def chain3(p, T, val):
    def upto(items, last):
        """items: (boundary name or node, subregion below)"""
        return chain([(C(T, "le", t3b(b, p) if isinstance(b, str) else b), val(s)) for b, s in items], val(last))
    ts = tsat(p)
    near = chain([
        (C(p, "gt", 22.11), upto([("uv", "u"), ("ef", "v"), ("wx", "w")], "x")),
        (C(p, "gt", 22.064), upto([("uv", "u"), ("ef", "y"), ("wx", "z")], "x")),
        (C(T, "le", ts), chain([(AND(C(p, "gt", 21.93161551), C(T, "gt", t3b("uv", p))), val("y"))], val("u"))),
        (AND(C(p, "gt", 21.90096265), C(T, "le", t3b("wx", p))), val("z"))], val("x"))
    p643 = psat_raw(E(643.15))
    return chain([
        (C(p, "gt", 40.0), upto([("ab", "a")], "b")),
        (C(p, "gt", 25.0), upto([("cd", "c"), ("ab", "d"), ("ef", "e")], "f")),
        (C(p, "gt", 23.5), upto([("cd", "c"), ("gh", "g"), ("ef", "h"), ("ij", "i"), ("jk", "j")], "k")),
        (C(p, "gt", 23.0), upto([("cd", "c"), ("gh", "l"), ("ef", "h"), ("ij", "i"), ("jk", "j")], "k")),
        (C(p, "gt", 22.5), upto([("cd", "c"), ("gh", "l"), ("mn", "m"), ("ef", "n"), ("op", "o"), ("ij", "p"), ("jk", "j")], "k")),
        (C(p, "gt", p643), chain([
            (C(T, "le", t3b("cd", p)), val("c")), (C(T, "le", t3b("qu", p)), val("q")),
            (C(T, "gt", t3b("jk", p)), val("k")), (C(T, "gt", t3b("rx", p)), val("r"))], near)),
        (C(p, "gt", 20.5), upto([("cd", "c"), (ts, "s"), ("jk", "r")], "k")),
        (C(p, "gt", 19.00881189173929), upto([("cd", "c"), (ts, "s")], "t"))],
        upto([(ts, "c")], "t"))


@memo
def v3sat(p, T, x):
    if x == 0:
        return chain([(C(p, "lt", 19.0088), v3("c", p, T)), (C(p, "lt", 21.0434), v3("s", p, T)),
                      (C(p, "lt", 21.9316), v3("u", p, T))], v3("y", p, T))
    return chain([(C(p, "lt", 20.5), v3("t", p, T)), (C(p, "lt", 21.0434), v3("r", p, T)),
                  (C(p, "lt", 21.9009), v3("x", p, T))], v3("z", p, T))


# ------------------------------------------------------------------ backward equations
def ph1(p, h): return poly(p, h / 2500.0 + 1.0, T_["ph2T_reg1:IJn"])
def ps1(p, s): return poly(p, s + 2.0, T_["ps2T_reg1:IJn"])
def hs1(h, s): return 100.0 * poly(h / 3400.0 + 0.05, s / 7.6 + 0.05, T_["hs2p_reg1:IJn"])


def h2bc(p):
    n = T_["enthalpy_2bc:n"]
    return n[1] + sqrt((p - n[2]) / n[0])


def ph2(p, h):
    e = h / 2000.0
    return chain([(C(p, "le", 4.0), poly(p, e - 2.1, T_["ph2T_reg2a:IJn"])),
                  (C(h, "lt", h2bc(p)), poly(p + 25.0, e - 1.8, T_["ph2T_reg2c:IJn"]))],
                 poly(p - 2.0, e - 2.6, T_["ph2T_reg2b:IJn"]))


def ps2(p, s):
    return chain([(C(p, "le", 4.0), poly(p, s / 2.0 - 2.0, [(float(a), b, c) if a != int(a) else (int(a), b, c) for a, b, c in T_["ps2T_reg2a:IJn"]])),
                  (C(s, "lt", 5.85), poly(p, 2.0 - s / 2.9251, T_["ps2T_reg2c:IJn"]))],
                 poly(p, 10.0 - s / 0.7853, T_["ps2T_reg2b:IJn"]))


def h2ab(s):
    return psum(s, T_["s2h_reg2_ab:n"])


def hs2c(h, s): return 100.0 * poly(h / 3500.0 - 0.7, s / 5.9 - 1.1, T_["hs2p_reg2c:IJn"]) ** 4
def hs2a(h, s): return 4.0 * poly(h / 4200.0 - 0.5, s / 12.0 - 1.2, T_["hs2p_reg2a:IJn"]) ** 4
def hs2b(h, s): return 100.0 * poly(h / 4100.0 - 0.6, s / 7.9 - 1.01, T_["hs2p_reg2b:IJn"]) ** 4


def hs2(h, s):
    return chain([(C(h, "le", h2ab(s)), hs2a(h, s)), (C(s, "ge", 5.85), hs2b(h, s))], hs2c(h, s))


def h3ab(p):
    return psum(p, T_["p2h_3ab:n"])


def ph3T(p, h):
    a = p / 100.0
    return sel(C(h, "le", h3ab(p)), 760.0 * poly(a + 0.240, h / 2300.0 - 0.615, T_["ph2T_3a_reg3:IJn"]),
               860.0 * poly(a + 0.298, h / 2800.0 - 0.720, T_["ph2T_3b_reg3:IJn"]))


def ph3v(p, h):
    a = p / 100.0
    return sel(C(h, "le", h3ab(p)), 0.0028 * poly(a + 0.128, h / 2100.0 - 0.727, T_["ph2v_3a_reg3:IJn"]),
               0.0088 * poly(a + 0.0661, h / 2800.0 - 0.720, T_["ph2v_3b_reg3:IJn"]))


def ps3T(p, s):
    a = p / 100.0
    return sel(C(s, "le", SC), 760.0 * poly(a + 0.240, s / 4.4 - 0.703, T_["ps2T_3a_reg3:IJn"]),
               860.0 * poly(a + 0.760, s / 5.3 - 0.818, T_["ps2T_3b_reg3:IJn"]))


def ps3v(p, s):
    a = p / 100.0
    return sel(C(s, "le", SC), 0.0028 * poly(a + 0.187, s / 4.4 - 0.755, T_["ps2v_3a_reg3:IJn"]),
               0.0088 * poly(a + 0.298, s / 5.3 - 0.816, T_["ps2v_3b_reg3:IJn"]))


def hs3(h, s):
    return sel(C(s, "le", SC), 99.0 * poly(h / 2300.0 - 1.01, s / 4.4 - 0.75, T_["hs2p3a_reg3:IJn"]),
               16.6 / poly(h / 2800.0 - 0.681, s / 5.3 - 0.792, T_["hs2p3b_reg3:IJn"]))


def tsat_hs(h, s):
    return 550.0 * poly(h / 2800.0 - 0.119, s / 9.2 - 1.07, T_["hs2T_reg43:IJn"])


def h1_s(s): return 1700.0 * poly(s / 3.8 - 1.09, s / 3.8 + 0.366e-4, T_["hs_region_h1_s:IJn"])
def h3a_s(s): return 1700.0 * poly(s / 3.8 - 1.09, s / 3.8 + 0.366e-4, T_["hs_region_h3a_s:IJn"])
def h2ab_s(s): return 2800.0 * exp(poly(1.0 / (s / 5.21) - 0.513, s / 9.2 - 0.524, T_["hs_region_h2ab_s:IJn"]))
def h2c3b_s(s): return 2800.0 * poly(s / 5.9 - 1.02, s / 5.9 - 0.726, T_["hs_region_h2c3b_s:IJn"]) ** 4
def h13_s(s): return 1700.0 * poly(s / 3.8 - 0.884, s / 3.8 - 0.864, T_["hs_region_h13_s:IJn"])
def t23_hs(h, s): return 900.0 * poly(h / 3000.0 - 0.727, s / 5.3 - 0.864, T_["hs_region_t_hs:IJn"])
def psat3_h(h): return 22.0 * poly(h / 2600.0 - 1.02, h / 2600.0 - 0.608, T_["h2p_sat_reg3:IJn"])
def psat3_s(s): return 22.0 * poly(s / 5.2 - 1.03, s / 5.2 - 0.699, T_["s2p_sat_reg3:IJn"])


# ------------------------------------------------------------------ saturated states and mixtures
def satprop(p, T, x, o):
    """saturated liquid (x=0) or vapour (x=1) at (p,T) of the saturation line"""
    if o == OP: return p
    if o == OT: return T - K
    d = 1.0 / v3sat(p, T, x)
    return sel(C(T, "le", 623.15), gprop(2 if x else 1, p, T, o), hprop(T, d, o))
