"""Checks of structural properties: panics, termination, effects, bindings, error values, numbering."""
import ast
import json
import math
import os
import re
import time

import numpy as np

import core
import dag
import loops
import spec
from core import AUTO, PAIRS, QUAL
from dag import Node, sym
from evalg import Eval, topo

FNS = list(PAIRS) + list(QUAL)
CFEATURES = ("cdecl", "stdcall")


def isbinding(it):
    """a function with a foreign calling convention"""
    return it["abi"] != "Rust" and not it["ntypes"] and it["kind"] == "Fn"


def calls(cx):
    """every call of the API with all arguments symbolic: the Rust API with and without a region,
    and the C bindings.  Yields (configuration, function, api, value, panics of the call)"""
    o, r = sym("o", "i"), sym("r", "i")

    def one(cfg, api, fn, *a):
        n0 = len(api.I.pan[0])
        v = api.call(fn, *a)
        return cfg, fn, api, v, api.I.pan[0][n0:]
    for fn in FNS:
        if fn in PAIRS:
            yield one("rust", cx.api, fn, o, "i32")
        yield one("rust", cx.api, fn, o, r)
    for f in CFEATURES:
        api = cx.binding(f)
        for fn in FNS:
            yield one(f, api, fn, o)


def plain(fn):
    """name of a function without its generic arguments"""
    out, d = "", 0
    for c in fn:
        d += c == "<"
        if not d:
            out += c
        d -= c == ">"
    return out.rstrip(":") or fn


def where(span):
    return span.replace(core.REPO + "/", "")


# ------------------------------------------------------------------ panics
def irange(x, mr, memo):
    """range of an integer or truth value given the ranges of the loop counters"""
    if x.__class__ is int:
        return x, x
    if x.__class__ is not Node:
        return None
    r = memo.get(x.id, memo)
    if r is not memo:
        return r
    memo[x.id] = r = _irange(x, mr, memo)
    return r


def factranges(cs, mr):
    """ranges of integers narrowed by the comparisons with constants that hold on a path"""
    out = None
    for c, w in cs:
        if c.__class__ is Node and c.op == "not":
            c, w = c.args[0], 1 - w
        if c.__class__ is not Node or c.op not in ("ilt", "ile", "ieq"):
            continue
        a, b = c.args
        if a.__class__ is Node and b.__class__ is int:
            lo, hi = ((-math.inf, b - 1) if c.op == "ilt" else (-math.inf, b)) if w else ((b, math.inf) if c.op == "ilt" else (b + 1, math.inf))
            x, k = a, b
        elif b.__class__ is Node and a.__class__ is int:
            lo, hi = ((a + 1, math.inf) if c.op == "ilt" else (a, math.inf)) if w else ((-math.inf, a) if c.op == "ilt" else (-math.inf, a - 1))
            x, k = b, a
        else:
            continue
        if c.op == "ieq":
            if not w:
                continue
            lo = hi = k
        if out is None:
            out = dict(mr)
        p, q = out.get(x, (-math.inf, math.inf))
        out[x] = (max(p, lo), min(q, hi))
    if out is None:
        return mr
    for x, (p, q) in list(out.items()):
        # comparisons themselves keep their own ranges
        if x.op in dag.BOOL_OPS:
            del out[x]
        elif not (math.isfinite(p) and math.isfinite(q)):
            b = 2 ** 63
            out[x] = (max(p, -b), min(q, b))
    return out


def _irange(x, mr, memo):
    if x in mr:
        return mr[x]
    op = x.op
    a = [irange(y, mr, memo) if y.__class__ in (int, Node) else None for y in x.args]
    if op in ("i:Add", "i:Sub", "i:Mul") and a[0] and a[1]:
        (p, q), (s, t) = a[0], a[1]
        if op == "i:Add":
            return p + s, q + t
        if op == "i:Sub":
            return p - t, q - s
        c = [p * s, p * t, q * s, q * t]
        return min(c), max(c)
    if op == "ovf" and a[1] and a[2]:
        (p, q), (s, t) = a[1], a[2]
        bits, sg = x.args[3], x.args[4]
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if sg else (0, 2 ** bits - 1)
        k = x.args[0]
        c = {"Add": [p + s, q + t], "Sub": [p - t, q - s], "Mul": [p * s, p * t, q * s, q * t]}.get(k)
        if c is None:
            return 0, 1
        if lo <= min(c) and max(c) <= hi:
            return 0, 0
        if max(c) < lo or min(c) > hi:
            return 1, 1
        return 0, 1
    if op in ("ilt", "ile") and a[0] and a[1]:
        (p, q), (s, t) = a
        if op == "ilt":
            return (1, 1) if q < s else (0, 0) if p >= t else (0, 1)
        return (1, 1) if q <= s else (0, 0) if p > t else (0, 1)
    if op == "ieq" and a[0] and a[1]:
        (p, q), (s, t) = a
        return (0, 0) if q < s or t < p else (1, 1) if p == q == s == t else (0, 1)
    if op == "not" and a[0]:
        return 1 - a[0][1], 1 - a[0][0]
    if op == "and" and all(a):
        return min(y[0] for y in a), min(y[1] for y in a)
    if op == "or" and all(a):
        return max(y[0] for y in a), max(y[1] for y in a)
    if op == "ite" and a[1] and a[2]:
        if a[0] == (1, 1):
            return a[1]
        if a[0] == (0, 0):
            return a[2]
        return min(a[1][0], a[2][0]), max(a[1][1], a[2][1])
    if op in ("icast",) and a[0]:
        bits, sg = (x.args[1], x.args[2]) if len(x.args) > 2 else (32, True)
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if sg else (0, 2 ** bits - 1)
        return a[0] if lo <= a[0][0] and a[0][1] <= hi else (lo, hi)
    if op in ("lt", "le", "eq", "isnan", "isfin", "isinf", "ieq", "ilt", "ile", "beq"):
        return 0, 1
    return None


EXTREME = [float("nan"), float("inf"), -float("inf"), 0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e-300, 1e-30, 1e300, -1e300, 1.7976931348623157e308,
           -1.7976931348623157e308, 1e15, -1e15, 2.0 ** 31, -2.0 ** 31 - 1, 2.0 ** 63, 273.15, -273.15, 22.064, 16.529164252604478, 100.0, 647.096, 373.946,
           1e-8, 611.213e-6, 0.000611212677, 0.000611213, 0.0031055962]


def representatives(cx, fn, conds):
    """arguments of fn: the regions, the plane around them, both sides of every border the
    conditions draw, not-a-number, infinities and extremes in all combinations; integer
    arguments from every class the conditions tell apart"""
    import checks
    import regions
    rng = cx.rng
    n = 60 if not cx.thorough else 400
    vals = checks.spread(cx, fn, n) if fn in PAIRS else wetspread(cx, fn, n)
    A, B = [vals[fn[0]]], [vals[fn[1]]]
    for x in EXTREME:
        k = rng.integers(0, len(vals[fn[0]]), 25)
        A += [np.full(25, x), vals[fn[0]][k]]
        B += [vals[fn[1]][k], np.full(25, x)]
    g = np.array(EXTREME)
    A.append(np.repeat(g, len(g)))
    B.append(np.tile(g, len(g)))
    if fn in PAIRS:
        try:
            atoms = [c for c in conds if not any(y.op in ("mu", "loopexit") for y in dag.subnodes(c))]
            for kind in range(4):
                if sum(1 for _ in topo(atoms)) > 60000:
                    break
                a, b, na = core.border_points(atoms, lambda a, b: dict(zip((sym(fn[0]), sym(fn[1])), regions.plane(fn, a, b, kind))), rng, nl=24, npt=100, per_atom=3,
                                              offsets=(1e-9, 1e-6, 1e-3))
                if len(a):
                    a, b = regions.plane(fn, a, b, kind)
                    A.append(a)
                    B.append(b)
        except (KeyError, ValueError):
            pass
    A, B = np.concatenate(A), np.concatenate(B)
    if len(A) > 6000 and not cx.thorough:
        k = rng.permutation(len(A))[:6000]
        A, B = A[k], B[k]
    return A, B


def wetspread(cx, fn, n):
    import checks
    rng = cx.rng
    vals = checks.anywhere(fn, n, rng)
    st = [checks.place4(rng.random(2 * n), rng.random(2 * n), near) for near in (False, True)]
    a = np.concatenate([s.get(fn[0]) for s in st] + [vals[fn[0]]])
    x = np.concatenate([rng.random(n), np.repeat([0.0, 1.0, -1e-9, 1 + 1e-9], n), vals["x"]])[:len(a)]
    x = np.resize(x, len(a))
    return {fn[0]: a, "x": rng.permutation(x)}


def startorder(roots, starts):
    """loop-carried values the roots rest on with their starting values, those of outer loops first"""
    out, done = [], set()

    def add(rs):
        for x in topo([r for r in rs if r.__class__ is Node]):
            if x.op == "mu" and x.id in starts and x.id not in done:
                done.add(x.id)
                m, i = starts[x.id]
                if i.__class__ in (Node, int):
                    add([i])
                    out.append((m, i))
    add(roots)
    return out


def intreps(conds, s):
    import checks
    cells, _ = checks.int_cells(conds, s, known=())
    return cells


def C18(cx):
    R = cx.R
    o, r = sym("o", "i"), sym("r", "i")
    byfn = {}
    apis = {}
    for cfg, fn, api, v, pans in calls(cx):
        R.count("calls of %s analysed with symbolic arguments" % ("the Rust API" if cfg == "rust" else "the " + cfg + " bindings"))
        apis[cfg] = api
        if len(pans) >= 3900:
            R.und("%s %s: too many failing assertions to list" % (cfg, fn))
        if v is None and not api.undecided:
            pass
        byfn.setdefault((cfg, fn), []).extend(pans)
    for cfg, api in apis.items():
        for (inst, bb), p in api.I.panics.items():
            if p["status"] == "ok":
                R.ok(exact=1)
                R.count("assertions discharged on every path (%s)" % ("bounds, arithmetic" if p["kind"] else "other"))
        for note in set(api.I.notes):
            if note[0] in ("no body", "asm"):
                R.count("functions without a body that the analysis meets: %s" % (note[1],))
        # counters
        mr = {}
        for L in api.I.looplist:
            if L is None:
                continue
            b, why = loops.loop_bound(L)
            if b is not None:
                mr.update(loops.mu_ranges(L, b))
        cx.ranges = mr
        api.mr = mr
    for (cfg, fn), pans in byfn.items():
        api = apis[cfg]
        uniq = {}
        for key, bad, pc in pans:
            uniq[(key, bad, pc)] = 1
        left = []
        memo = {}
        for key, bad, pc in uniq:
            cs = [(c, w) for c, w in pc if c.__class__ is Node]
            if bad is not None:
                cs.append((bad[0], 1 - int(bad[1])))
            dis = False
            f = {}
            for c, w in cs:
                if c.__class__ is Node:
                    loops.addfact(f, c, w)
            g = {}
            for c, w in (cs if bad is None else cs[:-1]):
                if c.__class__ is Node:
                    loops.addfact(g, c, w)
            fr = factranges(list(g.items()), api.mr)
            memo2 = memo if fr is api.mr else {}
            for c, w in f.items():
                if c.__class__ is Node:
                    g = irange(c, fr, memo2)
                    if g is not None and g[0] == g[1] and g[0] != w:
                        dis = True
                        break
            if not dis:
                dis = not loops.feasible(f)
            if dis:
                R.ok(exact=1)
                R.count("conditional assertions discharged by counter ranges and path facts")
            else:
                left.append((key, bad, cs))
        if not left:
            continue
        conds = list({c.id: c for _, _, cs in left for c, _ in cs if c.__class__ is Node}.values())
        A, B = representatives(cx, fn, conds)
        oi, ri = intreps(conds, o), (intreps(conds, r) if cfg == "rust" and fn in PAIRS else [0])
        open_ = dict.fromkeys(range(len(left)))
        n = len(A)
        # identifiers and regions that some condition tells apart
        combos = [(a, b) for b in ri for a in oi]
        uses = {x for c in conds for x in dag.subnodes(c) if x in (o, r)}
        if o not in uses:
            combos = [(0, b) for b in ri]
        if r not in uses:
            combos = list(dict.fromkeys((a, 0) for a, _ in combos))
        if len(combos) > 400:
            combos = [combos[i] for i in cx.rng.permutation(len(combos))[:400]]
        starts = {}
        for L in api.I.looplist:
            if L is not None:
                for m, i in L["mus"].values():
                    m = m if m.__class__ is Node else m.path[-1]
                    starts[m.id] = (m, i)
        per = max(1, 12000 // n)
        combos = [combos[i] for i in cx.rng.permutation(len(combos))]
        t0 = time.time()
        for i in range(0, len(combos), per):
            if not open_ or time.time() - t0 > (600 if cx.thorough else 20):
                break
            part = combos[i:i + per]
            k = len(part)
            vals = {sym(fn[0]): np.tile(A, k), sym(fn[1]): np.tile(B, k), o: np.repeat(np.array([c[0] for c in part], float), n), r: np.repeat(np.array([c[1] for c in part], float), n)}
            todo = [left[j] for j in open_]
            need = list({c.id: c for _, _, cs in todo for c, _ in cs if c.__class__ is Node}.values())
            for first in (False, True):
                if not open_:
                    break
                if first:
                    # the first iteration of every loop is certain: carried values have their starting value
                    mus = startorder(need, starts)
                    if not mus:
                        break
                ev = Eval(n * k, vals, vn=False)
                if first:
                    for m, v in mus:
                        ev.run([v])
                        if v.__class__ is Node and v.id in ev.U:
                            ev.U[m.id] = ev.U[v.id]
                        ev.values[m.id] = ev.f(v)
                ev.run(need)
                for j in list(open_):
                    key, bad, cs = left[j]
                    m = np.ones(n * k, bool)
                    for c, w in cs:
                        if c.__class__ is not Node:
                            continue
                        m &= (ev.f(c) > 0.5) == bool(w)
                        m &= ~ev.u(c)
                    if m.any():
                        q = int(np.nonzero(m)[0][0])
                        p = api.I.panics[key]
                        del open_[j]
                        R.viol("%s/%s/%s" % (fn if cfg == "rust" else cfg + " " + fn, plain(p["fn"]).split("::")[-1], p["kind"] if isinstance(p["kind"], str) else "assert"),
                               obligation="%s never panics" % fn, rule="the path condition of a panic is satisfied", panic=str(p["kind"]), location="%s (%s)" % (p["fn"], where(p["span"])),
                               inputs={fn[0]: float(vals[sym(fn[0])][q]), fn[1]: float(vals[sym(fn[1])][q]), "o_id": int(vals[o][q]), "region": int(vals[r][q])},
                               call_path=[plain(s).split("::")[-1] for s in p["stack"]],
                               path=["%s is %s" % (dag.show(c, 4)[:160], bool(w)) for c, w in cs[-6:] if c.__class__ is Node])
        for j in open_:
            p = api.I.panics[left[j][0]]
            R.und("%s: %s in %s (%s) is not shown unreachable" % (fn, p["kind"], plain(p["fn"]).split("::")[-1], where(p["span"])))
    R.samples += ["%s: %s, %s" % (plain(p["fn"]).split("::")[-1], p["kind"], p["status"]) for p in list(cx.api.I.panics.values())[:8]]


# ------------------------------------------------------------------ termination
def C19(cx):
    R = cx.R
    seen = {}
    for cfg, fn, api, v, pans in calls(cx):
        R.count("calls analysed with symbolic arguments (%s)" % cfg)
        seen[cfg] = api
    for cfg, api in seen.items():
        for L in api.I.looplist:
            if L is None:
                R.und("a loop whose transition relation was not obtained")
                continue
            b, why = loops.loop_bound(L)
            short = plain(L["fn"]).split("::")[-1]
            if b is not None:
                R.ok(exact=1)
                R.count("loop instances bounded: %s" % why.split(" ")[0])
                s = "%s %s: at most %d iterations, %s" % (L["fn"], where(L["span"]), b, why)
                if s not in R.samples:
                    R.samples.append(s)
                continue
            if loops.unknown(L):
                R.und("%s: the loop depends on a value the analysis does not understand" % short)
                continue
            R.viol("loop/%s" % short, obligation="the loop in %s ends after a number of iterations fixed by the code" % L["fn"], rule="loop bound", location=where(L["span"]),
                   why=why, carried={str(k): dag.show(i, 4)[:120] if isinstance(i, Node) else str(i) for k, i in ((L["names"].get(k), i) for k, (m, i) in L["mus"].items())},
                   call_path=[plain(api.P.fname(i)).split("::")[-1] for i in L["stack"]])
        rec = recursion(api)
        for c in rec:
            R.count("call cycles")
            names = " -> ".join(plain(api.P.fname(i)).split("::")[-1] for i in c)
            if any("recursion in" in u and any(u.endswith("recursion in " + api.P.fname(i)) for i in c) for u in api.undecided):
                R.viol("recursion/%s" % "/".join(sorted({plain(api.P.fname(i)).split("::")[-1] for i in c})), obligation="no unbounded recursion", rule="call cycle that no constant argument ends", cycle=names)
            else:
                R.ok(exact=1)
                R.samples.append("call cycle %s unfolds completely for every call of the API" % names)
        if not rec:
            R.ok(exact=1)
            R.count("call graphs without a cycle (%s, %d functions)" % (cfg, len(api.I.calls_seen)))


def recursion(api):
    """cycles of the call graph among the functions the API's calls reach"""
    import networkx as nx
    G = nx.DiGraph()
    for i in api.I.calls_seen:
        for j in refs(api.P, i)[0]:
            if j in api.I.calls_seen:
                G.add_edge(i, j)
    return [list(c) for c in nx.strongly_connected_components(G) if len(c) > 1 or any(G.has_edge(x, x) for x in c)]


_refs = {}


def refs(P, inst):
    """functions, statics and thread locals that the body of a function mentions"""
    k = (id(P), inst)
    r = _refs.get(k)
    if r is None:
        r = _refs[k] = _findrefs(P, inst)
    return r


def _findrefs(P, inst):
    f = P.fns[inst]
    fns, allocs, tls, asm = set(f.get("drops") or ()), set(), set(), []
    st = [f.get("body")]
    while st:
        x = st.pop()
        if x.__class__ is dict:
            if "ThreadLocalRef" in x:
                tls.add(json.dumps(x["ThreadLocalRef"])[:80])
            if "InlineAsm" in x:
                asm.append("inline assembly")
            if "provenance" in x and isinstance(x["provenance"], dict):
                for p in x["provenance"].get("ptrs", ()):
                    allocs.add(p[1])
            if "kind" in x and x["kind"] == "ZeroSized" and "ty" in x:
                i = P.types[x["ty"]]["x"].get("inst") if P.types[x["ty"]]["k"] in ("FnDef", "Closure") else None
                if i is not None:
                    fns.add(i)
            st.extend(x.values())
        elif x.__class__ is list:
            st.extend(x)
    return fns, allocs, tls, asm


# ------------------------------------------------------------------ effects
FOREIGN_OK = re.compile(r"(^|::)(exp|exp2|exp_m1|expm1|log|log2|log10|log1p|ln_1p|pow|powi|__powidf2|sqrt|cbrt|hypot|sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|asinh|acosh|atanh|"
                        r"fmod|fmax|fmin|fabs|floor|ceil|round|rint|trunc|fma|ldexp|frexp|tgamma|lgamma|memcpy|memmove|memset|memcmp|bcmp|strlen|__rust_\w+|__rg_\w+)f?\d*(::<.*>)?$")
EFFECTS = re.compile(r"^<?(&?(mut )?)?(std::(io|fs|env|net|process|thread|time|os|sync::(mpsc|Mutex|RwLock|Condvar|Barrier|Once\b|atomic|poison|nonpoison|ReentrantLock)|sys::|collections::hash_map::RandomState|hash::RandomState|backtrace)"
                     r"|core::sync::atomic|std::sync::atomic|core::ptr::(read_volatile|write_volatile))")
PANIC = re.compile(r"(^|::)(panicking|rt)::|panic_|begin_panic|unwrap_failed|expect_failed|handle_alloc_error|slice_(start|end)_index|slice_index_|assert_failed|handle_error|capacity_overflow")
CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w+|OnceCell|OnceLock|LazyCell|LazyLock|Condvar|Once)\b")


def pure_lazy(ty):
    """a value computed at first use, once, without arguments"""
    m = re.match(r"^(?:std::sync::|core::cell::|std::cell::)*(LazyLock|OnceLock)<(.*)>$", ty.strip())
    return bool(m) and not CELLS.search(m.group(2))


def stores_arguments(P, f):
    """the initialiser of a once cell is not a function of nothing"""
    if re.search(r">::(set|take|get_mut|try_insert|replace)(::<.*>)?$", f["name"]) or "body" not in f:
        return True
    t = P.types[f["body"]["locals"][2]["ty"]]
    return bool(t["layout"] and t["layout"]["size"]) and t["k"] != "FnPtr" if f["body"]["arg_count"] > 1 else False


def reach(P, roots):
    """functions and statics that the given functions can reach: calls, function values, drops,
    pointers in constants.  Functions that only lead to a panic are not followed."""
    seen, todo = {r: None for r in roots}, list(roots)
    out = []     # (function, kind, what)
    sseen = set()

    def statics(i, allocs):
        st = list(allocs)
        fns = set()
        got = set(st)
        while st:
            x = st.pop()
            al = P.allocs.get(x)
            if al is None:
                continue
            if al["k"] == "fn":
                fns.add(al["inst"])
            if al["k"] == "static":
                out.append((i, "static", al))
                sseen.add(al["name"])
            m = al.get("a")
            if m:
                for p in m["provenance"]["ptrs"]:
                    if p[1] not in got:
                        got.add(p[1])
                        st.append(p[1])
        return fns
    while todo:
        i = todo.pop()
        f = P.fns[i]
        n = f["name"]
        if PANIC.search(n):
            continue
        fns, allocs, tls, asm = refs(P, i)
        for t in tls:
            out.append((i, "thread local", t))
        for t in asm:
            out.append((i, "asm", t))
        if f.get("intrinsic"):
            out.append((i, "intrinsic", f["intrinsic"]))
            if not f["local"]:
                fns = set(fns)
        if "body" not in f and not f.get("intrinsic") and f["kind"] != "Virtual":
            out.append((i, "nobody", n))
        if f["kind"] == "Virtual":
            out.append((i, "virtual", n))
        if re.match(r"^<?(std::sync|std::cell|core::cell)::(\w+::)?(OnceLock|OnceCell)::<.*>::(set|take|get_mut|try_insert|replace|get_or_init|get_or_try_init|get_mut_or_init)(::<.*>)?$", n) and stores_arguments(P, f):
            out.append((i, "once", n))
        if EFFECTS.match(n):
            out.append((i, "effect", n))
            continue
        for j in set(fns) | statics(i, allocs):
            if j not in seen:
                seen[j] = i
                todo.append(j)
    return seen, out, sseen


def chain_of(P, seen, i):
    out = []
    while i is not None and len(out) < 12:
        out.append(P.fname(i).split("::<")[0])
        i = seen[i]
    return out[::-1]


def once_machinery(P, seen, i):
    """part of how the standard library runs the initialiser of a once cell"""
    if not re.match(r"^<?(std::sync::(Once\b|atomic|poison|sys::|poison::once)|core::sync::atomic|std::sys::sync|std::thread)", P.fname(i)):
        return False
    while i is not None and not P.fns[i]["local"]:
        if re.match(r"^<?(std::sync|std::cell|core::cell)::(\w+::)?(OnceLock|LazyLock|OnceCell|LazyCell)\b", P.fname(i)):
            return True
        i = seen[i]
    return False


def effects(R, P, roots, cfg):
    seen, out, sseen = reach(P, roots)
    R.count("functions reachable from the %s API" % cfg, len(seen))
    R.ok(exact=len(seen))
    bad = {}
    for i, kind, what in out:
        n = P.fname(i)
        why = None
        if kind == "static":
            name, ty = what["name"], what.get("ty", "") or ""
            if what.get("tls"):
                why = ("thread-local %s" % name) if not what.get("freeze") or what.get("mutbl") else None
            elif what.get("mutbl"):
                why = "static mut %s" % name
            elif not what.get("freeze"):
                ty = ty if isinstance(ty, str) else P.types[ty]["name"] if ty in P.types else str(ty)
                if pure_lazy(ty):
                    R.count("lazily computed constants")
                else:
                    why = "static %s with interior mutability (%s)" % (name, ty)
            R.count("statics (%s)" % ("read-only" if not why else "mutable"))
            what = name
        elif kind == "thread local":
            why = "thread-local storage"
            if "core" in P.fns[i]["crate"] or P.fns[i]["crate"] in ("std", "alloc"):
                why = None
        elif kind == "asm":
            why = "inline assembly"
        elif kind == "intrinsic":
            if what.startswith(("atomic_", "volatile_", "unaligned_volatile", "black_box")) and what != "black_box":
                why = "intrinsic %s" % what
        elif kind == "nobody":
            f = P.fns[i]
            if not FOREIGN_OK.search(what) and f["crate"] not in ("core", "alloc") and not what.startswith(("core::", "alloc::", "std::fmt", "<std::fmt", "core::fmt", "<core::fmt", "std::alloc", "std::vec", "std::string")):
                why = "calls %s, whose body is not part of the program" % what
            else:
                R.count("primitives without a body, pure by specification")
        elif kind == "effect":
            if re.match(r"^<?std::sync::(once_lock|lazy_lock)", n) or once_machinery(P, seen, i):
                continue
            why = "calls %s" % n
        elif kind == "virtual":
            R.count("calls through trait objects")
        elif kind == "once":
            why = "a stored value depends on the arguments of the first call (%s)" % n
        if why:
            local = i
            while not P.fns[local]["local"] and seen[local] is not None:
                local = seen[local]
            key = "%s/%s" % (plain(P.fname(local)).split("::")[-1] or P.fname(local), re.sub(r"[^A-Za-z0-9_:]+", "_", why)[:70])
            if key not in bad:
                bad[key] = (i, why, local)
    for key, (i, why, local) in bad.items():
        it = next((x for x in P.items if any(k == local for _, k in x["insts"])), None)
        R.viol(key, obligation="calls of the %s API are pure" % cfg, rule="effect reachable from the API", effect=why, function=P.fname(local),
               location="%s:%s" % (where(it["file"]), it["line"]) if it else "?", call_path=" > ".join(x.split("::")[-1] for x in chain_of(P, seen, i)))
    return seen


def C20(cx):
    R = cx.R
    P = cx.api.P
    effects(R, P, [k for r in cx.api.roots.values() for k in r.values()], "Rust")
    for f in CFEATURES:
        b = cx.binding(f)
        effects(R, b.P, [k for r in b.roots.values() for k in r.values()], f)
    py = cx.python()
    if py is None:
        R.und("the Python configuration could not be analysed")
    else:
        effects(R, py.P, [k for r in py.roots.values() for k in r.values()], "Python")
    for s in P.statics:
        R.count("statics of the crate" if not s.get("mutbl") else "mutable statics of the crate")
    R.samples += ["reachable: " + n for n in sorted({P.fns[k]["crate"] for r in cx.api.roots.values() for k in r.values()})]


# ------------------------------------------------------------------ bindings
def exported(P):
    """functions whose symbol is a plain name"""
    out = {}
    for it in P.items:
        for tag, k in it["insts"]:
            f = P.fns.get(k)
            if f and f.get("mangled") and not f["mangled"].startswith(("_R", "_ZN")) and it["kind"] == "Fn":
                out[f["mangled"]] = (it, k)
    return out


def pymethods(P):
    """Python name -> (text signature, function that computes it), from the method definitions the
    module initialisation registers"""
    init = [k for k, f in P.fns.items() if (f.get("mangled") or "").startswith("PyInit_")]
    out = {}
    if not init:
        return None
    # pyo3 expands the module function X to X::init, which runs X
    owner = {P.fname(i).rsplit("::", 1)[0] for i in init}
    init += [k for k in P.fns if P.fname(k) in owner]
    seen, todo = set(init), list(init)
    while todo:
        i = todo.pop()
        fns, allocs, _, _ = refs(P, i)
        for a in allocs:
            al = P.allocs.get(a)
            if not al or "a" not in al:
                continue
            ptrs = al["a"]["provenance"]["ptrs"]
            tr = [p[1] for p in ptrs if P.allocs.get(p[1], {}).get("k") == "fn"]
            ss = [bytes(c or 0 for c in P.allocs[p[1]]["a"]["bytes"]).split(b"\0")[0].decode("utf8", "replace") for p in ptrs if P.allocs.get(p[1], {}).get("k") == "mem"]
            if len(tr) == 1 and ss and re.match(r"^\w+$", ss[0]):
                t = P.allocs[tr[0]]["inst"]
                target = pytarget(P, t)
                if target is not None:
                    out[ss[0]] = (ss[1] if len(ss) > 1 else "", target)
        for j in fns:
            if j not in seen and P.fns[j]["local"]:
                seen.add(j)
                todo.append(j)
            elif j not in seen and "closure" in P.fname(j):
                seen.add(j)
                todo.append(j)
        for a in allocs:
            al = P.allocs.get(a)
            if al and al["k"] == "fn" and P.fns[al["inst"]]["local"] and al["inst"] not in seen:
                seen.add(al["inst"])
                todo.append(al["inst"])
            # initialisers referred to from a static module definition
            st, got = [a], {a}
            while st:
                x = st.pop()
                al = P.allocs.get(x)
                if al and "a" in al:
                    for p in al["a"]["provenance"]["ptrs"]:
                        if p[1] not in got:
                            got.add(p[1])
                            st.append(p[1])
                elif al and al["k"] == "fn" and al["inst"] not in seen and (P.fns[al["inst"]]["local"] and "trampoline" not in P.fname(al["inst"]) or "call_once" in P.fname(al["inst"])):
                    seen.add(al["inst"])
                    todo.append(al["inst"])
    return out


def pytarget(P, t):
    """the function with plain argument types that a trampoline leads to"""
    plain = {}
    for it in P.items:
        if it["kind"] == "Fn" and it["inputs"] == ["f64", "f64", "i32"] and it["output"] == "f64":
            for _, k in it["insts"]:
                plain[k] = it
    seen, todo = {t}, [t]
    while todo:
        i = todo.pop(0)
        if i in plain:
            return i
        for j in refs(P, i)[0]:
            if j not in seen and P.fns[j]["local"]:
                seen.add(j)
                todo.append(j)
    return None


class Samples:
    """loop-carried values of two analyses of the same loop: matched in order of appearance"""


def same_values(cx, R, fn, ga, gb, label, rust, what):
    """obligation: two value graphs agree for all arguments"""
    if ga is None or gb is None:
        R.und("%s: construct outside the domain" % label)
        return
    if ga is gb or ga == gb:
        R.ok(exact=1)
        R.count("identical value graphs (%s)" % what)
        return
    cond_same(cx, R, fn, ga, gb, label, what, rust)


def atdifference(cx, fn, ga, gb):
    """arguments that tell the conditions of one graph from those of another: the usual
    representatives, both sides of the borders only one of them draws, and the exact values their
    comparisons with constants change at"""
    roots = [g for g in (ga, gb) if isinstance(g, Node)]
    aa = [set(core.atoms_of([g])) if isinstance(g, Node) else set() for g in (ga, gb)]
    only = sorted(aa[0] ^ aa[1], key=lambda x: x.id)[:60]
    A, B = representatives(cx, fn, only)
    pts = {fn[0]: set(), fn[1]: set()}
    for t in only:
        for k in fn:
            s = sym(k)
            x, c = t.args if t.args[1].op == "c" else (t.args[1], t.args[0])
            if c.op != "c":
                continue
            c = c.f
            if x is s:
                pts[k] |= {c, np.nextafter(c, np.inf), np.nextafter(c, -np.inf)}
            elif x.op in ("add", "sub") and s in x.args and any(y.op == "c" for y in x.args):
                d = [y for y in x.args if y.op == "c"][0].f
                v = c - d if x.op == "add" else c + d
                pts[k] |= {v, *(v * (1 + e) for e in (1e-15, -1e-15, 3e-16, -3e-16, 5e-14, -5e-14))}
    m = 12
    for k, other in ((0, 1), (1, 0)):
        for c in sorted(pts[fn[k]]):
            i = cx.rng.integers(0, len(A), m)
            v = [None, None]
            v[k] = np.full(m, c)
            v[other] = (A, B)[other][i]
            A, B = np.concatenate([A, v[0]]), np.concatenate([B, v[1]])
    return A, B


def loop_inputs(rust, ma, mb):
    """values that enter two runs of the same loop, paired; None if the loops are not the same"""
    ll = rust.I.looplist
    out, seen = [], set()
    for x, y in zip(ma, mb):
        la, lb = ll[x.args[0]], ll[y.args[0]]
        if x is y or (x.args[0], y.args[0]) in seen:
            continue
        seen.add((x.args[0], y.args[0]))
        if la["inst"] != lb["inst"] or la["header"] != lb["header"]:
            return None
        ea, eb = dict(la["entry"]), dict(lb["entry"])
        if set(ea) != set(eb):
            return None
        for k in ea:
            u, v = ea[k], eb[k]
            if u is v or u == v:
                continue
            if all(z.__class__ in (Node, int, float) for z in (u, v)):
                out.append((la["fn"], u, v))
            else:
                return None
    return out


def cond_same(cx, R, fn, ga, gb, label, what, rust=None):
    ma = [x for x in topo([g for g in (ga,) if isinstance(g, Node)]) if x.op == "mu"]
    mb = [x for x in topo([g for g in (gb,) if isinstance(g, Node)]) if x.op == "mu"]
    vals0 = {}
    rng = cx.rng
    A, B = atdifference(cx, fn, ga, gb)
    n = len(A)
    base = {sym(fn[0]): A, sym(fn[1]): B}
    ins = []
    if ma != mb:
        if len(ma) == len(mb) and all(x.args[2:] == y.args[2:] for x, y in zip(ma, mb)):
            ins = loop_inputs(rust, ma, mb) if rust is not None else None
            if ins is None:
                ins = []
                R.und("%s: rests on loops of different functions" % label)
            for x, y in zip(ma, mb):
                v = rng.uniform(0.1, 700.0, n) if x.args[3] == "f" else rng.integers(0, 3, n)
                vals0[x] = v
                vals0[y] = v
    bad = None
    for i in range(0, n, 2000):
        sl = slice(i, min(n, i + 2000))
        m = sl.stop - sl.start
        ev = Eval(m, {k: v[sl] for k, v in {**base, **vals0}.items()}, seed=cx.seed, vn=False)
        ev.run([g for g in (ga, gb) if isinstance(g, Node)])
        fa, fb = ev.f(ga), ev.f(gb)
        u = ev.u(ga) | ev.u(gb)
        with np.errstate(all="ignore"):
            eq = (np.abs(fa - fb) <= 1e-9 * np.maximum(np.abs(fa), np.abs(fb))) | (fa == fb) | (np.isnan(fa) & np.isnan(fb))
        if (u & ~eq).any():
            R.und("%s: rests on a loop" % label, int((u & ~eq).sum()))
        R.ok(exact=int((eq & ~u).sum()))
        if ins:
            # arguments at which both results rest on the loop
            e0 = Eval(m, {k: v[sl] for k, v in base.items()}, seed=cx.seed, vn=False)
            e0.run([g for g in (ga, gb) if isinstance(g, Node)])
            on = e0.u(ga) & e0.u(gb)
            ev.run([z for _, p, q in ins for z in (p, q) if isinstance(z, Node)])
            for name, p, q in ins:
                fp, fq = ev.f(p), ev.f(q)
                k = on & ~ev.u(p) & ~ev.u(q)
                with np.errstate(all="ignore"):
                    k &= ~((np.abs(fp - fq) <= 1e-9 * np.maximum(np.abs(fp), np.abs(fq))) | (fp == fq) | (np.isnan(fp) & np.isnan(fq)))
                if k.any() and bad is None:
                    j = int(np.nonzero(k)[0][0])
                    bad = dict(inputs={fn[0]: float(A[sl][j]), fn[1]: float(B[sl][j])}, solver=plain(name), binding_starts_from=float(fq[j] if np.ndim(fq) else fq),
                               rust_starts_from=float(fp[j] if np.ndim(fp) else fp))
            R.count("values entering the loops of both compared (%s)" % what, len(ins))
        w = np.nonzero(~eq & ~u)[0]
        if len(w) and bad is None:
            j = int(w[len(w) // 2])
            bad = dict(inputs={fn[0]: float(A[sl][j]), fn[1]: float(B[sl][j])}, binding_value=float(fb[j]), rust_value=float(fa[j]))
    R.count("value graphs compared at representative arguments (%s)" % what)
    if bad:
        R.viol(label, obligation="%s computes what the Rust API computes" % label, rule="binding equals API", **bad)


def binding_equal(cx, P, bindings, cfg, fns=None):
    """every binding against the Rust API in the same program"""
    from core import Api
    R = cx.R
    rust = Api(P)
    bind = Api(P, I=rust.I, bindings=bindings) if fns is None else fns(P, rust.I)
    o = sym("o", "i")
    for fn in FNS:
        if fn not in bind.roots:
            R.viol("%s/%s/missing" % (cfg, fn), obligation="the %s binding offers %s" % (cfg, fn), rule="anchor")
            continue
        R.count("functions of the %s binding" % cfg)
        ga = rust.call(fn, o, "i32")
        gb = bind.call(fn, o)
        if ga is not None and gb is not None and ga is gb:
            R.ok(exact=1)
            R.count("identical value graphs, identifier symbolic (%s)" % cfg)
            continue
        cells = list(range(36)) + intreps([g for g in (ga, gb) if isinstance(g, Node)], o)
        known = list(dict.fromkeys(cells))
        for k in known:
            ga, gb = rust.call(fn, k, "i32"), bind.call(fn, k)
            same_values(cx, R, fn, ga, gb, "%s %s/%s" % (cfg, fn, spec.ONAMES[k] if 0 <= k < 36 else "other-identifier"), rust, cfg)
    for a in (rust, bind):
        for u in a.undecided:
            R.und("%s: %s" % (cfg, u))
    R.extra["functions"] = R.extra.get("functions", 0) + len(rust.I.calls_seen)


def C21(cx):
    R = cx.R
    for f in CFEATURES:
        P = core.dump((f,))
        binding_equal(cx, P, isbinding, f)
    py = cx.python()
    if py is None:
        R.und("the Python configuration could not be analysed")
    else:
        for fn in FNS:
            if fn in py.sigs:
                args = [a.strip().split("=")[0] for a in re.sub(r"^\w+\(|\).*$", "", py.sigs[fn].split("\n")[0]).split(",")]
                if len(args) >= 2 and args[:2] != list(fn) and set(args[:2]) == set(fn):
                    R.viol("python %s/arguments" % fn, obligation="the Python function %s takes its arguments in the order of its name" % fn, rule="text signature", signature=py.sigs[fn])
                else:
                    R.ok(exact=1)
        binding_equal(cx, py.P, None, "Python", lambda P, I: pyapi(P, I))
    package(cx)


class PyApi(core.Api):
    pass


def pyapi(P, I=None):
    a = PyApi(P, I=I, bindings=lambda it: False)
    a.bindings = isbinding
    m = pymethods(P)
    if m is None:
        return None
    a.sigs = {k: s for k, (s, t) in m.items()}
    a.roots = {k: {"": t} for k, (s, t) in m.items()}
    return a


# the Python package ---------------------------------------------------------------------------
def pyconsts(tree):
    """module-level integer constants"""
    out = {}
    for n in tree.body:
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
        for t in ts:
            if isinstance(t, ast.Name):
                try:
                    v = ast.literal_eval(n.value)
                except (ValueError, SyntaxError):
                    continue
                if isinstance(v, int):
                    out[t.id] = v
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                for a, b in zip(t.elts, n.value.elts):
                    if isinstance(a, ast.Name) and isinstance(b, ast.Constant) and isinstance(b.value, int):
                        out[a.id] = b.value
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "range":
                try:
                    r = list(range(*[ast.literal_eval(x) for x in n.value.args]))
                except (ValueError, TypeError):
                    continue
                for a, b in zip(t.elts, r):
                    if isinstance(a, ast.Name):
                        out[a.id] = b
    return out


class PyVal:
    """what a convenience function computes: a call of a base function"""

    def __init__(self, fn, args):
        self.fn, self.args = fn, args


def pyeval(e, env, consts, aliases, funcs, depth=0):
    """symbolic value of an expression of the package: argument names, constants, calls"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        if e.id in consts:
            return consts[e.id]
        if e.id in aliases:
            return ("fn", aliases[e.id])
        if e.id in funcs:
            return ("def", e.id)
        return None
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.attr in PAIRS or isinstance(e, ast.Attribute) and e.attr in QUAL:
            return ("fn", e.attr)
        return consts.get(e.attr)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = pyeval(e.left, env, consts, aliases, funcs, depth), pyeval(e.right, env, consts, aliases, funcs, depth)
        if isinstance(a, int) and isinstance(b, int):
            return a + b if isinstance(e.op, ast.Add) else a - b
        return ("expr", ast.unparse(e))
    if isinstance(e, ast.Call):
        f = pyeval(e.func, env, consts, aliases, funcs, depth)
        if f is None:
            return None
        if isinstance(f, tuple) and f[0] == "fn":
            a = [pyeval(x, env, consts, aliases, funcs, depth) for x in e.args]
            kw = {k.arg: pyeval(k.value, env, consts, aliases, funcs, depth) for k in e.keywords}
            names = [f[1][0], f[1][1], "o_id"]
            for i, nme in enumerate(names):
                if nme in kw and len(a) == i:
                    a.append(kw[nme])
            return PyVal(f[1], a)
        if isinstance(f, tuple) and f[0] == "def" and depth < 5:
            return pyrun(funcs[f[1]], [pyeval(x, env, consts, aliases, funcs, depth) for x in e.args],
                         {k.arg: pyeval(k.value, env, consts, aliases, funcs, depth) for k in e.keywords}, consts, aliases, funcs, depth + 1)
    return None


def pyrun(d, args, kw, consts, aliases, funcs, depth=0):
    """what a straight-line function returns"""
    names = [a.arg for a in d.args.args]
    env = dict(zip(names, args))
    for n, v in zip(names[::-1], [ast.literal_eval(x) if isinstance(x, ast.Constant) else None for x in d.args.defaults[::-1]]):
        env.setdefault(n, v)
    env.update({k: v for k, v in kw.items() if k})
    for s in d.body if not isinstance(d, ast.Lambda) else [ast.Return(d.body)]:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            env[s.targets[0].id] = pyeval(s.value, env, consts, aliases, funcs, depth)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            env[s.target.id] = pyeval(s.value, env, consts, aliases, funcs, depth)
        elif isinstance(s, ast.Return):
            return pyeval(s.value, env, consts, aliases, funcs, depth) if s.value is not None else None
        elif isinstance(s, ast.Pass):
            continue
        else:
            return None
    return None


def package(cx):
    """python/seuif97/__init__.py: the functions xy2z"""
    R = cx.R
    path = os.path.join(core.REPO, "python", "seuif97", "__init__.py")
    if not os.path.exists(path):
        R.und("no python/seuif97/__init__.py")
        return
    tree = ast.parse(open(path, encoding="utf8").read())
    consts = pyconsts(tree)
    funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Lambda):
            funcs[n.targets[0].id] = n.value
    aliases = {}
    star = False
    for n in tree.body:
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == "*":
                    star = True
                elif a.name in FNS:
                    aliases[a.asname or a.name] = a.name
    if star:
        for fn in FNS:
            aliases.setdefault(fn, fn)
    for fn in FNS:
        if fn in funcs:
            R.viol("python/%s/shadowed" % fn, obligation="the package exports the extension's %s" % fn, rule="name shadowed", location="python/seuif97/__init__.py:%d" % funcs[fn].lineno)
    number = {"p": 0, "t": 1, "d": 2, "v": 3, "h": 4, "s": 5, "e": 6, "u": 7, "x": 15, "r": 16, "cp": 8, "cv": 9, "w": 10, "k": 11, "f": 12, "g": 13, "z": 14}
    doc = documented_wrappers()
    found = set()
    for name, d in funcs.items():
        m = re.match(r"^([a-z]{2})2(\w+)$", name)
        if not m or m.group(1) not in FNS or m.group(2) not in number:
            continue
        fn, z = m.group(1), m.group(2)
        found.add(name)
        R.count("convenience functions of the Python package")
        params = [a.arg for a in d.args.args]
        loc = "python/seuif97/__init__.py:%d" % d.lineno
        v = pyrun(d, [("arg", i) for i in range(len(params))], {}, consts, aliases, funcs)
        if v is None:
            R.und("%s: not a straight-line call" % name)
            continue
        ok = isinstance(v, PyVal) and v.fn == fn and v.args[:2] == [("arg", 0), ("arg", 1)] and v.args[2:] == [number[z]]
        if ok and params[:2] and set(params[:2]) == set(fn) and params[:2] != list(fn):
            ok = False
        if ok:
            R.ok(exact=1)
        else:
            R.viol("python/%s" % name, obligation="%s(%s, %s) returns %s of the state (%s, %s)" % (name, fn[0], fn[1], z, fn[0], fn[1]), rule="convenience function", location=loc,
                   computes="%s(%s)" % (v.fn, ", ".join(str(a[1] if isinstance(a, tuple) else a) for a in v.args)) if isinstance(v, PyVal) else str(v))
    for name in sorted(doc - found):
        m = re.match(r"^([a-z]{2})2(\w)$", name)
        R.viol("python/%s/missing" % name, obligation="the documented function %s exists" % name, rule="documented convenience function")


def documented_wrappers():
    out = set()
    f = os.path.join(core.REPO, "README_Python.md")
    if os.path.exists(f):
        for m in re.finditer(r"\b([a-z]{2})2([a-z])\(", open(f, encoding="utf8").read()):
            if m.group(1) in FNS:
                out.add(m.group(1) + "2" + m.group(2))
    return out


# ------------------------------------------------------------------ the exported interface
def prototypes():
    """the C prototypes the documentation gives"""
    out = {}
    T = {"double": "f64", "int": "i32", "float": "f32", "short": "i16", "long": "i64"}
    for f in ("README.md",):
        p = os.path.join(core.REPO, f)
        if os.path.exists(p):
            for m in re.finditer(r"^\s*double\s+(\w+)\s*\(([^)]*)\)\s*;", open(p, encoding="utf8").read(), re.M):
                out[m.group(1)] = [T.get(a.split()[0]) for a in m.group(2).split(",")]
    return out


DEFAULT_PROTO = {fn: ["f64", "f64", "i32"] for fn in FNS}
FFI = {"f64", "f32", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "()", "bool", "!"}


def C22(cx):
    R = cx.R
    protos = {**DEFAULT_PROTO, **{k: v for k, v in prototypes().items() if k in FNS or v}}
    R.count("documented prototypes", len(prototypes()))
    for f in CFEATURES:
        P = core.dump((f,))
        ex = exported(P)
        R.count("exported symbols (%s)" % f, len(ex))
        want = ("C",) if f == "cdecl" else ("Win64", "System", "Stdcall")
        for fn, sig in protos.items():
            R.count("documented functions checked")
            if fn not in ex:
                it = next((i for i in P.items if i["name"].split("::")[-1] == fn and i["abi"] != "Rust"), None)
                R.viol("%s/%s/symbol" % (f, fn), obligation="the %s library exports the symbol %s" % (f, fn), rule="unmangled symbol",
                       location="%s:%s" % (where(it["file"]), it["line"]) if it else "no such function", symbol=next((P.fns[k].get("mangled") for _, k in it["insts"] if k in P.fns), None) if it else None)
                continue
            it, k = ex[fn]
            loc = "%s:%s" % (where(it["file"]), it["line"])
            abi = it["abi"].split(" ")[0]
            if abi not in want or (f == "stdcall" and abi == "C"):
                R.viol("%s/%s/abi" % (f, fn), obligation="%s uses the %s calling convention" % (fn, f), rule="calling convention", location=loc, abi={"Win64": "stdcall"}.get(abi, it["abi"]))
            else:
                R.ok(exact=1)
            if it["inputs"] != sig or it["output"] != "f64":
                R.viol("%s/%s/type" % (f, fn), obligation="%s has the documented type" % fn, rule="signature", location=loc, signature="(%s) -> %s" % (", ".join(it["inputs"]), it["output"]), documented="(%s) -> f64" % ", ".join(map(str, sig)))
            else:
                R.ok(exact=1)
        for s, (it, k) in ex.items():
            loc = "%s:%s" % (where(it["file"]), it["line"])
            if it["abi"] == "Rust":
                R.viol("%s/%s/rust-abi" % (f, s), obligation="no exported function has the Rust calling convention", rule="calling convention", location=loc)
            elif any(t not in FFI and not t.startswith(("*const ", "*mut ", "std::ffi::", "core::ffi::", "extern ", "unsafe extern ")) for t in it["inputs"] + [it["output"]]):
                R.viol("%s/%s/rust-type" % (f, s), obligation="no exported function passes a Rust-only type", rule="signature", location=loc, signature="(%s) -> %s" % (", ".join(it["inputs"]), it["output"]))
            else:
                R.ok(exact=1)
        # the bindings take the arguments in the documented order: their source names are those of the prototype
    # default configuration: nothing of the C interface is exported
    ex = exported(cx.api.P)
    for s, (it, k) in ex.items():
        if it["abi"] == "Rust":
            R.viol("default/%s/rust-abi" % s, obligation="no exported function has the Rust calling convention", rule="calling convention", location="%s:%s" % (where(it["file"]), it["line"]))
    R.ok(exact=1)


# ------------------------------------------------------------------ numbering
def doctable(path):
    """rows of a property table: name, unit, symbol, identifier, number"""
    rows = []
    for l in open(path, encoding="utf8"):
        c = [x.strip() for x in l.strip().strip("|").split("|")] if l.strip().startswith("|") else []
        if len(c) >= 5 and re.match(r"^O[A-Z]+$", c[3]) and re.match(r"^\d+$", c[4]):
            rows.append((c[0], c[1], c[2], c[3], int(c[4])))
    return rows


def rustconsts(P):
    out = {}
    for c in P.consts:
        n = c["name"].split("::")[-1]
        if re.match(r"^O[A-Z]+$", n) and "i32" in c["ty"] or re.match(r"^O[A-Z]+$", n) and isinstance(c["ty"], str) and "i32" in c["ty"]:
            m = re.search(r"value: (-?\d+)", c["ty"])
            b = c.get("bits")
            v = int(b) if b is not None else int(m.group(1)) if m else None
            if v is not None and v >= 2 ** 31:
                v -= 2 ** 32
            out.setdefault(n, []).append((v, c))
    return out


def C24(cx):
    R = cx.R
    P = cx.api.P
    ref = {n: k for k, n in enumerate(spec.ONAMES)} if not isinstance(spec.ONAMES, dict) else {v: k for k, v in spec.ONAMES.items()}
    rc = rustconsts(P)
    seen = {}
    for n, k in ref.items():
        R.count("identifiers")
        if n not in rc:
            R.viol("rust/%s/missing" % n, obligation="the constant %s exists" % n, rule="anchor")
            continue
        for v, c in rc[n]:
            loc = "%s:%s" % (where(c["file"]), c["line"])
            if v != k:
                R.viol("rust/%s" % n, obligation="%s is %d" % (n, k), rule="one numbering", location=loc, value=v)
            else:
                R.ok(exact=1)
        if not any(c["public"] and c.get("reexported", True) for v, c in rc[n]):
            R.viol("rust/%s/private" % n, obligation="the constant %s is part of the API" % n, rule="visibility", location=loc)
        seen.setdefault(rc[n][0][0], []).append(n)
    for v, ns in seen.items():
        if len(ns) > 1:
            R.viol("rust/duplicate/%s" % "-".join(ns), obligation="identifiers are distinct", rule="one numbering", value=v)
    for f in ("README.md", "README_Python.md"):
        p = os.path.join(core.REPO, f)
        if not os.path.exists(p):
            continue
        rows = doctable(p)
        R.count("rows of the table in %s" % f, len(rows))
        nums = {}
        for name, unit, symb, ident, num in rows:
            nums.setdefault(num, []).append(ident)
            if ident in ref and ref[ident] != num:
                R.viol("%s/%s" % (f, ident), obligation="%s is %d in %s" % (ident, ref[ident], f), rule="one numbering", value=num)
            elif ident in ref and not meaning(ident, name, unit):
                R.viol("%s/%s/meaning" % (f, ident), obligation="%s denotes %s in %s" % (ident, MEANING[ref[ident]][0], f), rule="one meaning", documented="%s [%s]" % (name, unit))
            else:
                R.ok(exact=1)
        for n in ref:
            if rows and not any(r[3] == n for r in rows):
                R.viol("%s/%s/missing" % (f, n), obligation="%s documents %s" % (f, n), rule="one numbering")
    # the Python package's constants
    p = os.path.join(core.REPO, "python", "seuif97", "__init__.py")
    if os.path.exists(p):
        pc = pyconsts(ast.parse(open(p, encoding="utf8").read()))
        for n, v in pc.items():
            if n in ref:
                R.count("constants of the Python package")
                if v != ref[n]:
                    R.viol("python/%s" % n, obligation="%s is %d in the Python package" % (n, ref[n]), rule="one numbering", location="python/seuif97/__init__.py", value=v)
                else:
                    R.ok(exact=1)
    # examples in documents and demonstration programs
    ex = [os.path.join(core.REPO, f) for f in ("README.md", "README_Python.md")]
    dd = os.path.join(core.REPO, "demo_using_lib")
    if os.path.isdir(dd):
        ex += [os.path.join(dd, f) for f in sorted(os.listdir(dd)) if f.endswith((".py", ".c", ".cs", ".java", ".rs", ".f08"))]
    for p in ex:
        if not os.path.exists(p):
            continue
        for m in re.finditer(r"(?:#define\s+(O[A-Z]+)\s+(\d+)\b)|(?:\b(O[A-Z]+)\s*=\s*(\d+)\s*(?:[;,]|$|#|//|!))", open(p, encoding="utf8", errors="replace").read(), re.M):
            n, v = (m.group(1), m.group(2)) if m.group(1) else (m.group(3), m.group(4))
            if n in ref:
                R.count("definitions in examples")
                if int(v) != ref[n]:
                    R.viol("%s/%s" % (os.path.relpath(p, core.REPO), n), obligation="%s is %d in examples" % (n, ref[n]), rule="one numbering", value=int(v))
                else:
                    R.ok(exact=1)
    # the number a constant has is the number the computation answers to
    import checks
    dispatch(cx)


MEANING = {0: ("pressure", "MPa"), 1: ("temperature", "°C"), 2: ("density", "kg/m³"), 3: ("volume", "m³/kg"), 4: ("enthalpy", "kJ/kg"), 5: ("entropy", "kJ/(kg·K)"), 6: ("exergy", "kJ/kg"), 7: ("internal", "kJ/kg"),
           8: ("isobaric heat", "kJ/(kg·K)"), 9: ("isochoric heat", "kJ/(kg·K)"), 10: ("sound", "m/s"), 11: ("isentropic exp", ""), 12: ("helmholtz", "kJ/kg"), 13: ("gibbs", "kJ/kg"), 14: ("compressibility factor", ""),
           15: ("quality", ""), 16: ("region", ""), 17: ("cubic expansion", "1/K"), 18: ("isothermal compressibility", "1/MPa"), 19: ("∂v/∂t", "m³/(kg·K)"), 20: ("∂v/∂p", "m³/(kg·MPa)"), 21: ("∂p/∂t", "MPa/K"),
           22: ("throttling", "kJ/(kg·MPa)"), 23: ("joule", "K/MPa"), 24: ("dynamic visc", "Pa·s"), 25: ("kinematic visc", "m²/s"), 26: ("thermal cond", "W/(m·K)"), 27: ("diffusivity", "m²/s"), 28: ("prandtl", ""),
           29: ("surface tension", "N/m"), 30: ("dielectric", ""), 31: ("isochoric pressure", "1/K"), 32: ("stress", "kg/m³"), 33: ("fugacity coefficient", ""), 34: ("fugacity", "MPa"), 35: ("relative pressure", "1/K")}


def canon(u):
    return re.sub(r"[\s()]", "", u).replace(".", "·").lower()


def meaning(ident, name, unit):
    ref = {v: k for k, v in (spec.ONAMES.items() if isinstance(spec.ONAMES, dict) else enumerate(spec.ONAMES))}
    w, u = MEANING[ref[ident]]
    return w.lower() in name.lower() and (not unit or not u or canon(unit) == canon(u))


def dispatch(cx):
    """each identifier answers with its own property: states of region 1 and 2 through (p,t)"""
    from core import E, P_, T_, compare, region_states
    import checks
    R, api = cx.R, cx.api
    for r in (1, 2, 3, 5):
        st = region_states(r, cx.npts(20, 200), cx.rng)
        gs = {o: api.call("pt", o, r) for o in range(36)}
        for o, g in gs.items():
            pass
    cx2 = cx
    checks.check_pt(cx2, [o for o in range(36) if o not in (spec.OX, spec.OR)], auto=False)
