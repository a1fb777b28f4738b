"""Common machinery of the checks: extraction of the typed program, value graphs of the public
API, representative states, comparison by value numbers, localisation, reporting."""
import hashlib
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)

import dag
import mir
import absint
import spec
from dag import Node, E, sym, fop, const
from mir import Agg
from evalg import Eval, topo, PR

BUILD = os.path.join(VERIF, "build")
DRVDIR = os.path.join(BUILD, "driver")
DRV = os.path.join(DRVDIR, "debug", "mirdump")


class CheckError(Exception):
    """the check itself cannot give an answer"""


def env_nightly():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_driver():
    src = os.path.join(VERIF, "driver")
    r = subprocess.run(["cargo", "build", "-q", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml"),
                        "--target-dir", DRVDIR], env=env_nightly(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(DRV):
        raise CheckError("driver build failed:\n" + r.stdout[-3000:])


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env_nightly(), stdout=subprocess.PIPE, text=True).stdout.strip()
    return _sysroot


def crate_name_edition():
    import tomllib
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        t = tomllib.load(f)
    name = t.get("lib", {}).get("name", t["package"]["name"]).replace("-", "_")
    path = t.get("lib", {}).get("path", "src/lib.rs")
    return name, str(t["package"].get("edition", "2015")), os.path.join(REPO, path), t


def dump(features=()):
    """typed, monomorphised MIR of /repo's current tree"""
    if not os.path.exists(DRV):
        build_driver()
    name, ed, lib, _ = crate_name_edition()
    d = tempfile.mkdtemp(prefix="mirdump")
    try:
        out = os.path.join(d, "d.json")
        e = env_nightly()
        s = sysroot()
        e["LD_LIBRARY_PATH"] = s + "/lib"
        e["MIRDUMP_OUT"] = out
        e["MIRDUMP_CRATE"] = name
        cmd = [DRV, "--sysroot", s, "--edition", ed, "--crate-type", "rlib", "--crate-name", name, lib, "-Zno-codegen",
               "--out-dir", d, "-Coverflow-checks=on", "-Cdebug-assertions=off", "-A", "warnings"]
        for f in features:
            cmd += ["--cfg", 'feature="%s"' % f]
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
        if r.returncode or not os.path.exists(out):
            raise CheckError("cannot compile /repo (%s):\n%s" % (",".join(features) or "default", r.stdout[-3000:]))
        return mir.Program(out)
    finally:
        shutil.rmtree(d)


def dump_python():
    """typed MIR of the Python configuration (needs the pyo3 crates); None when it cannot be built here"""
    if not os.path.exists(DRV):
        build_driver()
    d = tempfile.mkdtemp(prefix="mirpy")
    try:
        for x in os.listdir(REPO):
            if x in ("target", ".git", "dynamic_lib", "img"):
                continue
            s = os.path.join(REPO, x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, x))
            else:
                shutil.copy(s, d)
        if not os.path.exists(os.path.join(d, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", d)
        out = os.path.join(d, "d.json")
        e = env_nightly()
        e.update(PYO3_PYTHON="/usr/bin/python3", CARGO_TARGET_DIR=os.path.join(d, "target"), RUSTC_WORKSPACE_WRAPPER=DRV, MIRDUMP_OUT=out, LD_LIBRARY_PATH=sysroot() + "/lib",
                 MIRDUMP_CRATE=crate_name_edition()[0], CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="-Coverflow-checks=on -Awarnings")
        r = subprocess.run(["cargo", "check", "--lib", "--features", "python", "--offline", "-q"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
        if r.returncode or not os.path.exists(out):
            if os.environ.get("VERIF_DEBUG"):
                print(r.stdout[-3000:])
            return None
        txt = open(out).read().replace(d + "/", REPO + "/")
        with open(out, "w") as f:
            f.write(txt)
        return mir.Program(out)
    finally:
        shutil.rmtree(d)


PAIRS = {"pt": "pt", "ph": "ph", "ps": "ps", "hs": "hs", "pv": "pv", "tv": "tv", "th": "th", "ts": "ts"}
QUAL = {"px": "px", "tx": "tx", "hx": "hx", "sx": "sx"}
AUTO = 10
ECHO = {"p": spec.OP, "t": spec.OT, "h": spec.OH, "s": spec.OS, "v": spec.OV, "x": spec.OX}
REGERR = {"pt": spec.INVALID_PT, "ph": -2103, "ps": -2102, "hs": spec.INVALID_HS}


class Missing(Exception):
    pass


class Origin(absint.Interp):
    """interpreter that remembers in which function a value was first built"""

    def _invoke(self, inst, body, args, isolate):
        old = dag.current
        dag.current = inst
        try:
            return super()._invoke(inst, body, args, isolate)
        finally:
            dag.current = old


class Api:
    def __init__(self, P=None, I=None, bindings=None):
        """bindings: take the functions whose calling convention this accepts for the API"""
        self.P = P or dump()
        self.I = I or Origin(self.P, budget=400_000_000)
        self.roots = {}
        self.bindings = bindings
        for it in self.P.items:
            if not (bindings(it) if bindings else it["abi"] == "Rust"):
                continue
            for tag, k in it["insts"]:
                short = it["name"].split("::")[-1]
                if (it["public"] or bindings) and (short in PAIRS or short in QUAL):
                    t = tag if isinstance(tag, str) else (tag[0] if tag else "")
                    self.roots.setdefault(short, {})[t] = k
        self.memo = {}
        self.undecided = []

    def inst(self, fn, tag):
        r = self.roots.get(fn)
        if not r:
            raise Missing("public function %s" % fn)
        if tag in r:
            return r[tag]
        if fn in QUAL and len(r) == 1:
            return next(iter(r.values()))
        raise Missing("public function %s with argument type %s" % (fn, tag))

    def call(self, fn, o, region=AUTO, a=None, b=None):
        """value graph of a call; o and region are ints or integer symbols; None when the
        construct is outside the interpreter's domain"""
        x = a if a is not None else sym(fn[0])
        y = b if b is not None else sym(fn[1])
        k = (fn, o, region, x, y)
        if k in self.memo:
            return self.memo[k]
        try:
            if self.bindings:
                r = self.roots.get(fn)
                if not r:
                    raise Missing("binding %s" % fn)
                v = self.I.call(next(iter(r.values())), [x, y, o])
            elif fn in QUAL:
                v = self.I.call(self.inst(fn, ""), [x, y, o])
            elif region == "i32":
                v = self.I.call(self.inst(fn, "i32"), [x, y, o])
            else:
                v = self.I.call(self.inst(fn, "(i32,i32)"), [x, y, Agg(0, (o, region))])
        except Missing:
            raise
        except (absint.Budget, mir.Unsupported, absint.SymLoop, absint.LoopSplit, RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            self.undecided.append("%s(%s,%s): %s %s" % (fn, o, region, type(e).__name__, str(e)[:120]))
            v = None
        if v is not None and not isinstance(v, (Node, int, float)):
            self.undecided.append("%s(%s,%s): result %s" % (fn, o, region, str(v)[:80]))
            v = None
        self.memo[k] = v
        return v


# ------------------------------------------------------------------ representative states (from the reference equations)
def seval(exprs, vals):
    """float values of reference expressions"""
    n = max(np.size(v) for v in vals.values())
    ev = Eval(n, {E(k).n if not isinstance(k, Node) else k: v for k, v in vals.items()}, vn=False)
    ns = [E(x).n for x in exprs]
    ev.run(ns)
    return [np.array(ev.f(x)) for x in ns]


P_, T_, D_ = sym("P"), sym("T"), sym("D")
EP, ET, ED = E(P_), E(T_), E(D_)
STATE = ("p", "T", "d", "h", "s", "v", "u", "x", "cp")


class States:
    """arrays p,T,d,h,s,v per state, with t = T - 273.15 rounded as a caller would"""

    def __init__(self, **k):
        self.__dict__.update(k)
        self.n = len(self.p)

    def sub(self, m):
        return States(**{k: (v[m] if isinstance(v, np.ndarray) else v) for k, v in self.__dict__.items() if k != "n"})

    def get(self, c):
        return self.t if c == "t" else getattr(self, c)


def mkstates(region, p, T):
    if region == 3:
        (v,) = seval([spec.v3pT(EP, ET)], {P_: p, T_: T})
        d = 1.0 / v
        h, s, u, p2 = seval([spec.hprop(ET, ED, o) for o in (spec.OH, spec.OS, spec.OU, spec.OP)], {T_: T, D_: d})
        return States(region=region, p=p, T=T, t=T - 273.15, d=d, v=v, h=h, s=s, u=u, peos=p2)
    v, h, s, u = seval([spec.gprop(region, EP, ET, o) for o in (spec.OV, spec.OH, spec.OS, spec.OU)], {P_: p, T_: T})
    return States(region=region, p=p, T=T, t=T - 273.15, d=1.0 / v, v=v, h=h, s=s, u=u)


def psatf(T):
    return seval([spec.psat_raw(ET)], {T_: T})[0]


def tsatf(p):
    return seval([spec.tsat_raw(EP)], {P_: p})[0]


def pb23f(T):
    return seval([spec.pB23(ET)], {T_: T})[0]


def tb23f(p):
    return seval([spec.tB23(EP)], {P_: p})[0]


def uedge(rng, n, edge=0.04):
    """[0,1] coordinates: uniform inside, some close to both ends"""
    u = rng.random(n)
    k = rng.random(n)
    return np.where(k < edge, u * 1e-3, np.where(k > 1 - edge, 1 - u * 1e-3, u))


ROWS3 = [16.5292, 19.00881189173929, 20.5, 21.04336732, 21.90096265, 21.93161551, 22.064, 22.11, 22.5, 23.0, 23.5, 25.0, 40.0, 100.0]


def place(region, a, b, log=None, m=1e-6):
    """state of a region at unit coordinates (a,b); m keeps off the region's border"""
    a = m + (1 - 2 * m) * a
    b = m + (1 - 2 * m) * b
    if region == 1:
        T = 273.15 + 350.0 * a
        lo, hi = psatf(T), 100.0
    elif region == 2:
        T = 273.15 + 800.0 * a
        lo = spec.PMIN
        hi = np.where(T <= 623.15, psatf(np.minimum(T, 623.15)), np.where(T <= 863.15, np.minimum(pb23f(T), 100.0), 100.0))
    elif region == 5:
        T = 1073.15 + 1200.0 * a
        lo, hi = spec.PMIN, 50.0
    elif region == 3:
        T = 623.15 + 240.0 * a
        lo, hi = pb23f(T), 100.0
    elif region == 30:
        # region 3, pressure rows of the subregions times distance from the (pseudo)critical line
        k = np.minimum((b * (len(ROWS3) - 1)).astype(int), len(ROWS3) - 2)
        r = np.array(ROWS3)
        p = r[k] + (r[k + 1] - r[k]) * (b * (len(ROWS3) - 1) - k)
        c = np.where(p < 22.064, tsatf(np.minimum(p, 22.064)), 647.096 + 3.727888004 * (p - 22.064))
        tb = tb23f(p)
        c = np.minimum(c, 700.0)
        x = (a - 0.5) * 2
        T = np.where(x < 0, c - (c - 623.15) * np.abs(x) ** 3, c + (tb - c) * np.abs(x) ** 3)
        T = np.clip(T, 623.15 + 1e-5, tb - 1e-5)
        return p, T
    lo = lo * (1 + m) + 0 * T
    hi = hi * (1 - m) + 0 * T
    lin = lo + (hi - lo) * b
    if log is None:
        return lin, T
    return np.where(log, np.exp(np.log(lo) + (np.log(hi) - np.log(lo)) * b), lin), T


def region_states(region, n, rng):
    k = n // 2 if region == 3 else 0
    p, T = place(region, uedge(rng, n - k), uedge(rng, n - k), rng.random(n - k) < 0.5)
    if k:
        p2, T2 = place(30, rng.random(k), rng.random(k))
        p, T = np.concatenate([p, p2]), np.concatenate([T, T2])
    return mkstates(region, p, T)


def atoms_of(roots):
    """comparisons of floating values that gate the given values"""
    out = []
    for x in topo([r for r in roots if r is not None]):
        if x.op in ("lt", "le", "eq") and (x.args[0].op != "c" or x.args[1].op != "c"):
            out.append(x)
    return out


def unit_lines(rng, nl, npt):
    """segments of the unit square: axis-parallel and oblique"""
    k = np.arange(nl)
    fix = uedge(rng, nl)
    a0 = np.where(k % 3 == 0, 0.0, np.where(k % 3 == 1, fix, rng.random(nl)))
    a1 = np.where(k % 3 == 0, 1.0, np.where(k % 3 == 1, fix, rng.random(nl)))
    b0 = np.where(k % 3 == 0, fix, np.where(k % 3 == 1, 0.0, 0.0))
    b1 = np.where(k % 3 == 0, fix, np.where(k % 3 == 1, 1.0, 1.0))
    # denser towards the ends
    u = np.linspace(0, 1, npt)
    u = np.sort(np.concatenate([u, [1e-6, 1e-5, 1e-4, 1e-3, 1 - 1e-3, 1 - 1e-4, 1 - 1e-5, 1 - 1e-6]]))
    return a0, a1, b0, b1, u


def border_points(roots, values, rng, nl=24, npt=60, per_atom=4, offsets=(1e-8, 1e-5), exact=True):
    """unit-square coordinates on both sides of the zero set of every comparison that gates one
    of the roots.  values(a, b) -> {symbol: array}.  Returns (a, b) arrays."""
    atoms = atoms_of(roots)
    if not atoms:
        return np.zeros(0), np.zeros(0), 0
    a0, a1, b0, b1, u = unit_lines(rng, nl, npt)
    A = (a0[:, None] + (a1 - a0)[:, None] * u[None, :]).ravel()
    B = (b0[:, None] + (b1 - b0)[:, None] * u[None, :]).ravel()

    def signs(aa, bb, need):
        ev = Eval(len(aa), values(aa, bb), vn=False)
        ev.run([x for t in need for x in t.args])
        out = []
        with np.errstate(all="ignore"):
            for t in need:
                out.append(np.sign(ev.f(t.args[0]) - ev.f(t.args[1])))
        return out

    sg = signs(A, B, atoms)
    m = len(u)
    br = []       # atom index, line, lo, hi
    for k, s in enumerate(sg):
        s = s.reshape(nl, m)
        with np.errstate(all="ignore"):
            ch = (s[:, 1:] * s[:, :-1] < 0) | ((s[:, 1:] == 0) != (s[:, :-1] == 0))
        li, pi = np.nonzero(ch)
        if len(li):
            sel = rng.permutation(len(li))[:per_atom]
            for q in sel:
                br.append((k, li[q], u[pi[q]], u[pi[q] + 1], s[li[q], pi[q]]))
    if not br:
        return np.zeros(0), np.zeros(0), len(atoms)
    ki = np.array([x[0] for x in br])
    li = np.array([x[1] for x in br])
    lo = np.array([x[2] for x in br])
    hi = np.array([x[3] for x in br])
    s0 = np.array([x[4] for x in br])
    used = sorted(set(ki.tolist()))
    pos = {k: i for i, k in enumerate(used)}
    row = np.array([pos[k] for k in ki])
    idx = np.arange(len(br))
    for _ in range(46):
        mid = 0.5 * (lo + hi)
        sm = np.stack(signs(a0[li] + (a1 - a0)[li] * mid, b0[li] + (b1 - b0)[li] * mid, [atoms[k] for k in used]))[row, idx]
        same = sm == s0
        lo = np.where(same, mid, lo)
        hi = np.where(same, hi, mid)
    us = [hi] if exact else []
    for d in offsets:
        us += [lo - d, hi + d]
    ua = np.concatenate(us)
    ll = np.concatenate([li] * len(us))
    ok = (ua >= 0) & (ua <= 1)
    ua, ll = ua[ok], ll[ok]
    return a0[ll] + (a1 - a0)[ll] * ua, b0[ll] + (b1 - b0)[ll] * ua, len(atoms)


def cell_points(roots, values, rng, nl, u, most=400, chunk=12, changes=4000, known=None):
    """One representative of every combination of outcomes of the comparisons that gate the given
    graphs, along nl curves: values(i, u) -> {symbol: array} at parameter u of curve i.  Every change of
    an outcome between neighbouring grid points is located by bisection, so that the stretch between
    the changes of two comparisons is visited however short it is.  Returns (i, u, combinations seen)."""
    atoms = atoms_of(roots)
    none = np.zeros(0, int), np.zeros(0)
    if not atoms or nl == 0:
        return none + (0,)

    def signs(i, uu, need):
        ev = Eval(len(uu), values(i, uu), vn=False)
        ev.run([x for t in need for x in t.args])
        with np.errstate(all="ignore"):
            return np.stack([np.sign(ev.f(t.args[0]) - ev.f(t.args[1])) + 0.0 * uu for t in need])

    m = len(u)
    br = []
    for c in range(0, nl, chunk):
        ls = np.arange(c, min(nl, c + chunk))
        sg = signs(np.repeat(ls, m), np.tile(u, len(ls)), atoms).reshape(len(atoms), len(ls), m)
        with np.errstate(all="ignore"):
            # a border is where the sign changes, or where the operands stop being numbers
            ch = (sg[:, :, 1:] != sg[:, :, :-1]) & ~(np.isnan(sg[:, :, 1:]) & np.isnan(sg[:, :, :-1]))
        k, l, q = np.nonzero(ch)
        br.append(np.stack([k, ls[l], q, np.nan_to_num(sg[k, l, q], nan=9.0)], axis=1))
    br = np.concatenate(br)
    if len(br) > changes:
        br = br[rng.permutation(len(br))[:changes]]
    k, li, q, s0 = br[:, 0].astype(int), br[:, 1].astype(int), br[:, 2].astype(int), br[:, 3]
    lo, hi = u[q].astype(float), u[np.minimum(q + 1, m - 1)].astype(float)
    if len(k):
        used = np.unique(k)
        row = np.searchsorted(used, k)
        need = [atoms[j] for j in used]
        idx = np.arange(len(k))
        for _ in range(40):
            mid = 0.5 * (lo + hi)
            sm = np.concatenate([np.nan_to_num(signs(li[a:a + 2000], mid[a:a + 2000], need), nan=9.0) for a in range(0, len(mid), 2000)], axis=1)[row, idx]
            same = sm == s0
            lo = np.where(same, mid, lo)
            hi = np.where(same, hi, mid)
    ii, uu = [], []
    for l in range(nl):
        w = np.concatenate([[u[0]], np.sort(0.5 * (lo[li == l] + hi[li == l])), [u[-1]]])
        keep = np.diff(w) > 1e-11
        mids = (0.5 * (w[1:] + w[:-1]))[keep]
        ii.append(np.full(len(mids), l))
        uu.append(mids)
    ii, uu = np.concatenate(ii), np.concatenate(uu)
    sig = np.concatenate([np.nan_to_num(signs(ii[a:a + 2000], uu[a:a + 2000], atoms), nan=9.0) for a in range(0, len(ii), 2000)], axis=1)
    seen = known if known is not None else {}
    keep = []
    for j in rng.permutation(len(ii)):
        s = sig[:, j].tobytes()
        if s not in seen:
            seen[s] = 1
            keep.append(j)
    total = len(keep)
    keep = np.array(keep[:most], int)
    return ii[keep], uu[keep], total


GRID = np.unique(np.concatenate([np.linspace(0, 1, 81), 10.0 ** np.linspace(-9, -2, 15), 1 - 10.0 ** np.linspace(-9, -2, 15)]))


def cell_states(region, fn, roots, valuesof, rng, most=400, nl=16, lines=40):
    """states of a single-phase region, one for every combination of outcomes of the comparisons that
    gate the given graphs, found along lines of the region: at random, and of constant pressure or
    temperature beside and between the values these are compared with"""
    out = []
    known = {}
    total = 0
    for reg in ((3, 30) if region == 3 else (region, -region)):
        log = reg < 0
        a0, a1, b0, b1, _ = unit_lines(rng, nl, 2)

        def at(i, u):
            a, b = a0[i] + (a1 - a0)[i] * u, b0[i] + (b1 - b0)[i] * u
            return mkstates(region, *place(abs(reg), a, b, np.ones(len(a), bool) if log else None))
        i, u, n = cell_points(roots, lambda i, u: valuesof(at(i, u)), rng, nl, GRID, most, known=known)
        total += n
        if len(i):
            out.append(at(i, u))
    th = thresholds(roots)
    for c, off, (lo, hi) in (("p", 0.0, (spec.PMIN, 100.0)), ("t", 273.15, {1: (273.15, 623.15), 2: (273.15, 1073.15), 3: (623.15, 863.15), 5: (1073.15, 2273.15)}[region])):
        zs = sorted({z + off for s, v in th.items() if s is sym(c) or s.args[0] == c for z in v if lo < z + off < hi})
        if region == 3 and c == "p":
            zs = sorted(set(zs) | {z for z in ROWS3 if z < 100})
        if not zs:
            continue
        e = [lo] + zs + [hi]
        ws = [z * (1 + d) for z in zs for d in (-1e-7, 1e-7)] + [0.5 * (x + y) for x, y in zip(e, e[1:]) if y - x > 1e-9 * y]
        ws = np.array([w for w in ws if lo < w < hi])
        if len(ws) > lines:
            ws = ws[rng.permutation(len(ws))[:lines]]

        def on(i, u, c=c, ws=ws):
            w = ws[i]
            if c == "t":
                T = w
                a = lo_, hi_ = prange(region, T)
                return mkstates(region, lo_ + (hi_ - lo_) * u if region == 3 else np.exp(np.log(lo_) + (np.log(hi_) - np.log(lo_)) * u), T)
            p = w
            t0, t1 = trange(region, p)
            if region == 3:
                # denser next to the saturation temperature and its continuation
                cc = np.clip(np.where(p < 22.064, tsatf(np.minimum(p, 22.064)), 647.096 + 3.727888004 * (p - 22.064)), t0 + 1e-3, np.minimum(t1 - 1e-3, 700.0))
                x = 2 * u - 1
                return mkstates(region, p, np.where(x < 0, cc - (cc - t0) * np.abs(x) ** 5, cc + (t1 - cc) * np.abs(x) ** 5))
            return mkstates(region, p, t0 + (t1 - t0) * u)
        ok = np.array([valid_line(region, c, w) for w in ws])
        ws = ws[ok]
        on.__defaults__ = (c, ws)
        i, u, n = cell_points(roots, lambda i, u: valuesof(on(i, u)), rng, len(ws), GRID, most, known=known)
        total += n
        if len(i):
            out.append(on(i, u))
    return out, total


def prange(region, T):
    m = 1e-7
    if region == 1:
        lo, hi = psatf(T), 100.0
    elif region == 2:
        lo, hi = spec.PMIN, np.where(T <= 623.15, psatf(np.minimum(T, 623.15)), np.where(T <= 863.15, np.minimum(pb23f(np.maximum(T, 623.15)), 100.0), 100.0))
    elif region == 5:
        lo, hi = spec.PMIN, 50.0
    else:
        lo, hi = pb23f(T), 100.0
    return lo * (1 + m) + 0 * T, hi * (1 - m) + 0 * T


def trange(region, p):
    m = 1e-7
    if region == 1:
        lo, hi = 273.15, np.where(p < 16.529, tsatf(np.minimum(p, 16.529)), 623.15)
    elif region == 2:
        lo, hi = np.where(p < 16.529, tsatf(np.minimum(p, 16.529)), tb23f(np.maximum(p, 16.53))), 1073.15
    elif region == 5:
        lo, hi = 1073.15, 2273.15
    else:
        lo, hi = 623.15, tb23f(np.maximum(p, 16.53))
    return lo * (1 + m) + 0 * p, hi * (1 - m) + 0 * p


def valid_line(region, c, w):
    if c == "t":
        return True
    return not (region == 3 and w < 16.53 or region == 5 and w >= 50.0)


def preimage(x, w, depth=8):
    """values of an argument at which a chain of invertible operations on it takes the value w:
    [(argument, value)]"""
    if x.__class__ is not Node or depth == 0:
        return []
    if x.op == "sym":
        return [(x, w)] if x.args[1] == "f" else []
    con = [(k, (a.f if a.op == "c" else None)) for k, a in enumerate(x.args) if a.__class__ is Node]
    try:
        if x.op == "abs":
            return [q for z in {w, -w, 0.0} for q in preimage(x.args[0], z, depth - 1)]
        if x.op == "neg":
            return preimage(x.args[0], -w, depth - 1)
        if x.op == "sqrt":
            return preimage(x.args[0], w * w, depth - 1)
        if x.op == "ln":
            return preimage(x.args[0], math.exp(w), depth - 1)
        if x.op == "exp":
            return preimage(x.args[0], math.log(w), depth - 1)
        if len(con) == 2 and (con[0][1] is None) != (con[1][1] is None):
            left = con[0][1] is None
            c = con[1][1] if left else con[0][1]
            y = x.args[0] if left else x.args[1]
            z = {"add": w - c, "sub": w + c if left else c - w, "mul": w / c, "div": w * c if left else c / w}.get(x.op)
            return [] if z is None else preimage(y, z, depth - 1)
    except (ValueError, ZeroDivisionError, OverflowError):
        pass
    return []


def thresholds(roots):
    """values of the arguments at which a comparison gating the given graphs changes or holds
    exactly: {argument: set of values}"""
    out = {}
    for x in atoms_of([r for r in roots if isinstance(r, Node)]):
        l, q = x.args
        for e, c in ((l, q), (q, l)):
            if c.op == "c" and math.isfinite(c.f):
                for s, z in preimage(e, c.f):
                    if math.isfinite(z):
                        out.setdefault(s, set()).add(z)
        if l.op != "c" and q.op != "c":
            # two expressions in the same argument plus constants: a zero of the difference
            for s, z in preimage(dag.fop("sub", l, q), 0.0):
                if math.isfinite(z):
                    out.setdefault(s, set()).add(z)
    return out


def around(z):
    """a value, its neighbours among the doubles, and values just beyond rounding"""
    d = 1e-9 * max(abs(z), 1e-3)
    return [z, np.nextafter(z, -np.inf), np.nextafter(z, np.inf), z - d, z + d]


def inside(region, p, T, m=1e-9):
    lo, hi = {1: (273.15, 623.15), 2: (273.15, 1073.15), 3: (623.15, 863.15), 5: (1073.15, 2273.15)}[region]
    ok = (T > lo * (1 + m)) & (T < hi * (1 - m)) & (p > spec.PMIN * (1 + m)) & (p < 100 * (1 - m))
    with np.errstate(all="ignore"):
        ps = psatf(np.clip(T, 273.15, 623.15))
        pb = pb23f(np.clip(T, 623.15, 863.15))
    if region == 1:
        return ok & (p > ps * (1 + 1e-6))
    if region == 2:
        return ok & np.where(T <= 623.15, p < ps * (1 - 1e-6), np.where(T <= 863.15, p < pb * (1 - m), True))
    if region == 3:
        return ok & (p > pb * (1 + m))
    return ok & (p < 50 * (1 - m))


def exact_states(pool, fn, roots, rng, cap=400, near=3):
    """states at which an argument takes exactly a value the given graphs compare it with; pool:
    states of the region to start from"""
    th = thresholds(roots)
    cols = {c: [] for c in fn}
    idx = []
    vals = {}
    for c in fn:
        x = pool.get(c)
        lo, hi = np.nanmin(x), np.nanmax(x)
        vals[c] = sorted(z for z in th.get(sym(c), ()) if lo - 1e-3 * (hi - lo) <= z <= hi + 1e-3 * (hi - lo))
    if not any(vals.values()):
        return None

    def scale(c, z):
        return np.log(np.maximum(z, 1e-9)) if c in "pv" else z
    a, b = fn
    span = {c: np.ptp(scale(c, pool.get(c))) + 1e-30 for c in fn}
    dist = {c: {z: np.abs(scale(c, pool.get(c)) - scale(c, z)) / span[c] for z in vals[c]} for c in fn}
    for c, other in ((a, b), (b, a)):
        for z in vals[c]:
            for w in around(z):
                k = np.argpartition(dist[c][z], min(12, pool.n - 1))[:12]
                for j in rng.permutation(k)[:near]:
                    idx.append(j)
                    cols[c].append(w)
                    cols[other].append(pool.get(other)[j])
    pairs = [(z, w) for z in vals[a] for w in vals[b]]
    if len(pairs) > 120:
        pairs = [pairs[k] for k in rng.permutation(len(pairs))[:120]]
    for z, w in pairs:
        d = dist[a][z] + dist[b][w]
        j = int(np.argmin(d))
        if d[j] < 0.12:
            idx.append(j)
            cols[a].append(z)
            cols[b].append(w)
    if len(idx) > cap:
        k = rng.permutation(len(idx))[:cap]
        idx = [idx[i] for i in k]
        cols = {c: [v[i] for i in k] for c, v in cols.items()}
    idx = np.array(idx)
    cols = {c: np.array(v, float) for c, v in cols.items()}
    if fn == "pt" and pool.region != 4:
        ok = inside(pool.region, cols["p"], cols["t"] + 273.15)
        if not ok.any():
            return None
        st = mkstates(pool.region, cols["p"][ok], cols["t"][ok] + 273.15)
        st.t = cols["t"][ok]
        return st
    st = pool.sub(idx)
    for c in fn:
        setattr(st, c, cols[c])
    if "t" in fn:
        st.T = st.t + 273.15
    return st


def region_border_states(region, roots, valuesof, rng, **kw):
    """states of a region next to every case distinction the given graphs make there"""
    out = []
    na = 0
    for reg in ((3, 30) if region == 3 else (region, -region)):
        log = reg < 0

        def at(a, b):
            return mkstates(region, *place(abs(reg), a, b, np.ones(len(a), bool) if log else None))
        a, b, na = border_points(roots, lambda a, b: valuesof(at(a, b)), rng, exact=False, **kw)
        if len(a):
            out.append(at(a, b))
    return out, na


# ------------------------------------------------------------------ comparison
class Sites:
    """origin of graph nodes"""

    def __init__(self, P):
        self.P = P
        self.byinst = {}
        for it in P.items:
            for tag, k in it["insts"]:
                self.byinst[k] = it

    def of(self, node):
        inst = dag.origin.get(node.id)
        if inst is None:
            return None
        f = self.P.fns.get(inst)
        if f is None:
            return None
        it = self.byinst.get(inst)
        if it is None:
            for x in self.P.items:
                if x["name"] == f["name"]:
                    it = x
                    break
        return (f["name"], it["file"] if it else None, it["line"] if it else None)


class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.violations = {}       # key -> dict
        self.obl = 0
        self.exact = 0
        self.numeric = 0
        self.undec = 0
        self.points = 0
        self.units = {}
        self.samples = []
        self.undecided = []
        self.extra = {}
        self.t0 = time.time()

    def viol(self, key, **info):
        """key: stable identification without line numbers"""
        if key not in self.violations:
            self.violations[key] = info

    def count(self, unit, n=1):
        self.units[unit] = self.units.get(unit, 0) + n

    def ok(self, exact=0, numeric=0):
        self.obl += exact + numeric
        self.exact += exact
        self.numeric += numeric

    def und(self, what, n=1):
        self.obl += n
        self.undec += n
        if len(self.undecided) < 60 and what not in self.undecided:
            self.undecided.append(what)


def mpdiff(code, ref, ev, j):
    """evaluate two gate-resolved expressions with 50 digits; returns (difference, bound, code value, ref value)"""
    import mpmath
    mp = mpmath.mp
    mp.dps = 50

    def resolve(x):
        while x.__class__ is Node and x.op == "ite":
            c = ev.F[x.args[0].id]
            c = float(c) if np.ndim(c) == 0 else float(c[j])
            x = x.args[1] if c > 0.5 else x.args[2]
        return x

    vals, adj = {}, {}
    order = []

    def build(root):
        root = resolve(root)
        st = [(root, 0)]
        while st:
            n, i = st.pop()
            if n.__class__ is not Node or n.id in vals:
                continue
            args = [resolve(a) for a in n.args] if n.op not in ("sym", "mu", "c") else []
            if i == 0:
                st.append((n, 1))
                for a in args:
                    if a.__class__ is Node and a.id not in vals:
                        st.append((a, 0))
                continue
            if n.op == "c":
                v = mp.mpf(n.f)
            elif n.op in ("sym", "mu"):
                f = ev.F[n.id]
                v = mp.mpf(float(f) if np.ndim(f) == 0 else float(f[j]))
            else:
                av = [vals[a.id] if a.__class__ is Node else a for a in args]
                v = mpop(mp, n.op, av)
            vals[n.id] = v
            order.append((n, args))
        return root

    try:
        rc, rr = build(code), build(ref)
        vc = vals[rc.id] if rc.__class__ is Node else mp.mpf(rc)
        vr = vals[rr.id] if rr.__class__ is Node else mp.mpf(rr)
        d = vc - vr
        bound = mp.mpf(0)
        for root in (rc, rr):
            if root.__class__ is not Node:
                continue
            adj = {root.id: mp.mpf(1)}
            for n, args in reversed(order):
                g = adj.get(n.id)
                if g is None or g == 0:
                    continue
                if n.op == "c":
                    bound += abs(g * vals[n.id])
                    continue
                if n.op in ("sym", "mu"):
                    continue
                av = [vals[a.id] if a.__class__ is Node else a for a in args]
                for a, dv in zip(args, mpder(mp, n.op, av, vals[n.id])):
                    if a.__class__ is Node and dv is not None:
                        adj[a.id] = adj.get(a.id, mp.mpf(0)) + g * dv
        bound *= mp.mpf(8) * mp.mpf(2) ** -53
        return abs(d), bound, vc, vr
    except (KeyError, ZeroDivisionError, ValueError, OverflowError, TypeError, NotImplementedError):
        return None


def mpop(mp, op, a):
    if op == "add": return a[0] + a[1]
    if op == "sub": return a[0] - a[1]
    if op == "mul": return a[0] * a[1]
    if op == "div": return a[0] / a[1]
    if op == "neg": return -a[0]
    if op == "abs": return abs(a[0])
    if op == "powi": return a[0] ** a[1]
    if op == "powf":
        r = mp.power(a[0], a[1])
        if isinstance(r, mp.mpc):
            raise ValueError("complex")
        return r
    if op == "min": return min(a)
    if op == "max": return max(a)
    if op == "sqrt":
        if a[0] < 0:
            raise ValueError("complex")
        return mp.sqrt(a[0])
    if op == "ln":
        if a[0] <= 0:
            raise ValueError("complex")
        return mp.log(a[0])
    if op in ("exp", "log10", "sin", "cos", "tan", "sinh", "cosh", "tanh", "cbrt", "floor", "ceil", "expm1", "atan"):
        return getattr(mp, op)(a[0])
    if op == "ln_1p": return mp.log(1 + a[0])
    if op == "exp_m1": return mp.expm1(a[0])
    if op == "exp2": return mp.power(2, a[0])
    if op == "log2": return mp.log(a[0], 2)
    raise NotImplementedError(op)


def mpder(mp, op, a, v):
    if op == "add": return (1, 1)
    if op == "sub": return (1, -1)
    if op == "mul": return (a[1], a[0])
    if op == "div": return (1 / a[1], -v / a[1])
    if op == "neg": return (-1,)
    if op == "abs": return (1 if a[0] >= 0 else -1,)
    if op == "powi": return (a[1] * a[0] ** (a[1] - 1) if a[1] else 0, None)
    if op == "powf": return (a[1] * mp.power(a[0], a[1] - 1), v * mp.log(a[0]) if a[0] > 0 else 0)
    if op == "exp": return (v,)
    if op == "ln": return (1 / a[0],)
    if op == "sqrt": return (1 / (2 * v),)
    if op in ("min", "max"): return tuple(1 if x == v else 0 for x in a)
    return tuple(mp.mpf(1) * 1000 for _ in a)     # rarely used operators: generous


def ties(ev, *roots):
    """states where a computed comparison is a matter of rounding"""
    k = tuple(r.id for r in roots if isinstance(r, Node))
    c = getattr(ev, "_ties", None)
    if c is None:
        c = ev._ties = {}
    r = c.get(k)
    if r is None:
        r = np.zeros(ev.n, bool)
        seen = {}
        for a in atoms_of([x for x in roots if isinstance(x, Node)]):
            l, q = a.args
            if a.op == "eq":
                continue
            if (l.op == "c" and q.op == "sym") or (q.op == "c" and l.op == "sym"):
                # an argument against a literal is exact, unless the two sides round the same
                # computed limit differently
                s, z = (l, q.f) if l.op == "sym" else (q, l.f)
                for w in seen.setdefault(s, set()):
                    if w != z and abs(w - z) <= 1e-12 * abs(z):
                        x = ev.f(s)
                        r |= np.abs(x - z) <= 2e-12 * abs(z)
                seen[s].add(z)
                continue
            x, y = ev.f(l), ev.f(q)
            with np.errstate(all="ignore"):
                r |= np.abs(x - y) <= 1e-12 * np.maximum(np.abs(x), np.abs(y))
        c[k] = r
    return r


def compare(R, sites, label, code, ref, ev, mask=None, st=None, key=None, rule="", alts=()):
    """obligation: at every representative state of mask the code's selected expression is the
    reference expression (or one of the alternatives).  Returns a state where it is not."""
    n = ev.n
    m = np.ones(n, bool) if mask is None else mask
    if not m.any():
        return None
    if code is None:
        R.und(label + ": construct outside the domain", 1)
        return None
    vc, vr = ev.v(code), ev.v(ref)
    if vc is None or vr is None:
        R.und(label + ": no value number")
        return None
    eq = (vc == vr).all(axis=0)
    if not eq.all():
        # square roots are represented up to sign; the doubles settle the sign
        alt = ((vc == vr) | (vc == (PR - vr) % PR)).all(axis=0) & ~eq
        if alt.any():
            a, b = ev.f(code), ev.f(ref)
            with np.errstate(all="ignore"):
                eq = eq | (alt & (np.abs(a - b) <= 1e-6 * np.abs(b)))
    for x in alts:
        eq = eq | (vc == ev.v(x)).all(axis=0)
    R.ok(exact=int((eq & m).sum()))
    bad = ~eq & m
    if not bad.any():
        return None
    tie = ties(ev, code, ref, *alts) & bad
    if tie.any():
        R.count("states on a border within rounding, left out", int(tie.sum()))
        bad &= ~tie
        if not bad.any():
            return None
    fc, fr = ev.f(code), ev.f(ref)
    # states where neither side is a number carry no meaning
    und = bad & (ev.u(code) | ev.u(ref))
    if und.any():
        R.und(label + ": rests on an undecided condition", int(und.sum()))
        bad &= ~und
        if not bad.any():
            return None
    with np.errstate(all="ignore"):
        rel = np.abs(fc - fr) / np.maximum(np.abs(fr), 1e-300)
    rel = np.where(np.isnan(rel), np.where(np.isnan(fc) == np.isnan(fr), 0, np.inf), rel)
    idx = np.nonzero(bad)[0]
    order = idx[np.argsort(-rel[idx], kind="stable")]
    pick = list(dict.fromkeys(list(order[:6]) + list(idx[:: max(1, len(idx) // 6)][:6])))
    ndec = 0
    for j in pick:
        r = mpdiff(code, ref, ev, int(j))
        if r is None:
            a, b = float(fc[j]), float(fr[j])
            if math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
                continue
            if not math.isfinite(b):
                continue
            ndec += 1
            fail(R, sites, label, code, ref, ev, int(j), a, b, None, st, key, rule)
            return int(j)
        d, bound, a, b = r
        ndec += 1
        if d > bound:
            fail(R, sites, label, code, ref, ev, int(j), float(a), float(b), float(bound), st, key, rule)
            return int(j)
    if ndec:
        R.ok(numeric=int(bad.sum()))
    else:
        R.und(label + ": not decidable at these states", int(bad.sum()))
    return None


def divergence(code, ref, ev, j, limit=4):
    """innermost operations of the code whose value number occurs nowhere in the reference
    although those of all their operands do"""
    def resolve(x):
        while x.__class__ is Node and x.op == "ite":
            c = ev.F[x.args[0].id]
            c = float(c) if np.ndim(c) == 0 else float(c[j])
            x = x.args[1] if c > 0.5 else x.args[2]
        return x

    def vn(x):
        v = ev.val(x)
        if v is None:
            return None
        k = 0 if v.shape[1] == 1 else j
        return (int(v[0][k]), int(v[1][k]))

    refset = set()
    st, seen = [resolve(ref)], set()
    while st:
        x = st.pop()
        if x.__class__ is not Node or x.id in seen:
            continue
        seen.add(x.id)
        refset.add(vn(x))
        if x.op not in ("sym", "mu", "c"):
            st.extend(resolve(a) for a in x.args)
    out = []
    st, seen = [resolve(code)], set()
    while st:
        x = st.pop()
        if x.__class__ is not Node or x.id in seen:
            continue
        seen.add(x.id)
        if vn(x) in refset:
            continue
        kids = [resolve(a) for a in x.args] if x.op not in ("sym", "mu", "c") else []
        kids = [k for k in kids if k.__class__ is Node]
        bad = [k for k in kids if vn(k) not in refset]
        if not bad:
            out.append(x)
            if len(out) >= 60:
                break
        st.extend(bad)
    return out


def statedict(st, ev, j):
    d = {}
    if st is not None:
        for k in ("region", "p", "T", "t", "d", "v", "h", "s", "x", "y"):
            if hasattr(st, k):
                v = getattr(st, k)
                d[k] = float(v[j]) if isinstance(v, np.ndarray) else v
    return d


def fail(R, sites, label, code, ref, ev, j, a, b, bound, st, key, rule):
    div = divergence(code, ref, ev, j)
    where = []
    for x in div:
        s = sites.of(x)
        if s and s not in where:
            where.append(s)
    k = key or label
    R.viol(k, obligation=label, rule=rule, state=statedict(st, ev, j), code_value=a, reference_value=b, tolerance=bound,
           functions=[{"function": s[0], "file": s[1], "line": s[2]} for s in where[:8]],
           first_divergent=[dag.show(x, 4)[:300] for x in div[:4]])


# ------------------------------------------------------------------ known findings, output
def known_findings():
    """key -> text of findings recorded and not repaired"""
    f = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> key=<key> :: text
                body = l[len("finding:"):].strip()
                head, _, text = body.partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1))
                out[(d["property"], d["key"])] = text
    return out


def finish(R, level, explanation, assumptions=()):
    kf = known_findings()
    unknown = {}
    for k, info in R.violations.items():
        if (R.pid, k) in kf:
            print("KNOWN-FINDING: property=%s %s" % (R.pid, kf[(R.pid, k)]))
        else:
            unknown[k] = info
    cov = {"explanation": explanation, "obligations": R.obl, "discharged": R.exact + R.numeric,
           "discharged_symbolically": R.exact, "discharged_by_difference_of_expressions": R.numeric,
           "undecided": R.undec, "units": R.units, "samples": R.samples[:12], "undecided_samples": R.undecided[:40],
           "functions_analysed": R.extra.pop("functions", 0)}
    cov.update(R.extra)
    ev = {"property": R.pid, "tier": R.tier, "seed": R.seed, "level": level, "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - R.t0, 2), "violations": len(unknown)}
    evd = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, R.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if unknown:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, R.pid + ".json")
        with open(path, "w") as f:
            json.dump([dict(key=k, **v) for k, v in unknown.items()], f, indent=1, default=str)
        for k, v in list(unknown.items())[:20]:
            print("%s: %s" % (R.pid, k))
            for kk, vv in v.items():
                print("    %s: %s" % (kk, str(vv)[:600]))
        print("VIOLATION property=%s replay=%s" % (R.pid, path))
        return 1
    print("%s: held; %d obligations, %d discharged (%d symbolically, %d by the difference of the expressions), %d undecided, %.1f s" % (
        R.pid, R.obl, R.exact + R.numeric, R.exact, R.numeric, R.undec, time.time() - R.t0))
    return 0
