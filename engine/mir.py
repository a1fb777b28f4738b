"""Loads mirdump output and pre-decodes bodies into compact tuples."""
import json
import re
import struct
from dag import const, Node


class Agg:
    """an aggregate value: tuple/struct/array (v=0) or enum value (v=variant index)"""
    __slots__ = ("v", "f", "_h")

    def __init__(self, v, f):
        self.v = v
        self.f = f
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.v, self.f))
        return self._h

    def __eq__(self, o):
        return self is o or (o.__class__ is Agg and self.v == o.v and hash(self) == hash(o) and self.f == o.f)

    def __repr__(self):
        if len(self.f) > 8:
            return "Agg(%d,[%d])" % (self.v, len(self.f))
        return "Agg(%d,%r)" % (self.v, self.f)


class Ptr:
    """pointer: root object, path of field/element numbers, metadata.
    meta is None for thin pointers, (start,len) for slices, ('dyn', ty) for trait objects"""
    __slots__ = ("root", "path", "meta", "_h")

    def __init__(self, root, path=(), meta=None):
        self.root = root
        self.path = path
        self.meta = meta
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.root, self.path, self.meta))
        return self._h

    def __eq__(self, o):
        return self is o or (o.__class__ is Ptr and self.root == o.root and self.path == o.path and self.meta == o.meta)

    def __repr__(self):
        return "Ptr(%r,%r,%r)" % (self.root, self.path, self.meta)


class Fn:
    """function value (function item, closure reified, fn pointer)"""
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __hash__(self):
        return hash(("fn", self.inst))

    def __eq__(self, o):
        return o.__class__ is Fn and o.inst == self.inst

    def __repr__(self):
        return "Fn(%d)" % self.inst


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(("str", self.s))

    def __eq__(self, o):
        return o.__class__ is Str and o.s == self.s

    def __repr__(self):
        return "Str(%r)" % self.s


class Opaque:
    """a value the analysis does not model"""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __hash__(self):
        return hash(("opq", self.tag))

    def __eq__(self, o):
        return o.__class__ is Opaque and o.tag == self.tag

    def __repr__(self):
        return "Opaque(%r)" % (self.tag,)


UNIT = Agg(0, ())
INTS = {"Isize": (64, True), "I8": (8, True), "I16": (16, True), "I32": (32, True), "I64": (64, True), "I128": (128, True),
        "Usize": (64, False), "U8": (8, False), "U16": (16, False), "U32": (32, False), "U64": (64, False), "U128": (128, False)}


class Unsupported(Exception):
    pass


class Body:
    __slots__ = ("name", "inst", "argc", "locals", "blocks", "spread", "cfg", "ipdom", "loops", "live", "names", "localspans", "addr_taken", "inloop", "fnspan", "dom", "rpo", "joins", "_dj")


DROPIMPL = re.compile(r"^<(.*) as (?:std|core)::ops::Drop>::drop$")
FREEING = re.compile(r"(?:alloc|std::(?:boxed|vec|rc|string|ffi|collections|os|fs|io|array|sync::(?:Arc|Weak|OnceLock|LazyLock))|pyo3)\b")
ERASED = {"std::ptr::NonNull", "std::ptr::Unique", "std::mem::ManuallyDrop", "std::mem::MaybeDangling", "std::mem::MaybeUninit", "std::cell::UnsafeCell", "std::cell::Cell", "std::cell::SyncUnsafeCell"}


class Program:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.d = d
        self.types = {int(k): v for k, v in d["types"].items()}
        self.fns = {int(k): v for k, v in d["fns"].items()}
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.spans = {int(k): v for k, v in d["spans"].items()}
        self.items = d["items"]
        self.statics = d["statics"]
        self.consts = d.get("consts", [])
        self._bodies = {}
        self._constcache = {}
        self._erased = {}
        self._dropfx = {}
        self._alloccache = {}
        self.byname = {}
        for k, f in self.fns.items():
            self.byname.setdefault(f["name"], []).append(k)

    # ------------------------------------------------------------------ lookups
    def item(self, suffix):
        """local item whose path is the crate root re-export or ends with ::suffix"""
        c = [i for i in self.items if i["name"].split("::")[-1] == suffix]
        return c

    def span(self, s):
        v = self.spans.get(s)
        if not v:
            return "?"
        return "%s:%d" % (v[0], v[1])

    def fname(self, inst):
        return self.fns[inst]["name"]

    # ------------------------------------------------------------------ constants
    def ty(self, t):
        return self.types[t]

    def is_zst(self, t):
        l = self.types[t]["layout"]
        return l is not None and l["size"] == 0

    def decode(self, t, by, prov, off=0):
        ty = self.types[t]
        k = ty["k"]
        lay = ty["layout"]
        if k in ("Int", "Uint"):
            bits, sg = INTS[ty["prim"]]
            raw = by[off:off + bits // 8]
            if None in raw:
                return Opaque("uninit")
            return int.from_bytes(bytes(raw), "little", signed=sg)
        if k in ("Bool", "Char"):
            n = 1 if k == "Bool" else 4
            return int.from_bytes(bytes(by[off:off + n]), "little")
        if k == "Float":
            raw = by[off:off + (8 if ty["prim"] == "F64" else 4)]
            if None in raw:
                return Opaque("uninit")
            if ty["prim"] == "F64":
                return const(struct.unpack("<d", bytes(raw))[0])
            return const(struct.unpack("<f", bytes(raw))[0])
        if k == "Tuple":
            offs = lay["fields"]
            offs = offs["Arbitrary"]["offsets"] if isinstance(offs, dict) and "Arbitrary" in offs else []
            return Agg(0, tuple(self.decode(e, by, prov, off + bits_(o)) for e, o in zip(ty["x"]["elems"], offs)))
        if k == "Array":
            e = ty["x"]["elem"]
            n = ty["x"]["len"]
            st = self.types[e]["layout"]["size"]
            return Agg(0, tuple(self.decode(e, by, prov, off + i * st) for i in range(n)))
        if k == "Pat":
            return self.decode(ty["x"]["elem"], by, prov, off)
        if k in ("Ref", "RawPtr"):
            e = ty["x"]["elem"]
            ek = self.types[e]["k"]
            a = prov.get(off)
            if a is None:
                return int.from_bytes(bytes(by[off:off + 8]), "little")
            addend = int.from_bytes(bytes(by[off:off + 8]), "little")
            if ek == "Str":
                n = int.from_bytes(bytes(by[off + 8:off + 16]), "little")
                al = self.allocs[a]["a"]["bytes"][addend:addend + n]
                return Str(bytes(al).decode("utf8", "replace"))
            if ek == "Slice":
                n = int.from_bytes(bytes(by[off + 8:off + 16]), "little")
                se = self.types[e]["x"]["elem"]
                st = self.types[se]["layout"]["size"]
                return Ptr(("S", a, se, True), (), (addend // st if st else 0, n))
            if ek == "Dynamic":
                return Opaque(("dyn", a))
            if addend:
                return Opaque(("ptr", a, addend))
            return Ptr(("S", a, e, False), ())
        if k == "FnPtr":
            a = prov.get(off)
            if a is not None and self.allocs[a]["k"] == "fn":
                return Fn(self.allocs[a]["inst"])
            return Opaque("fnptr")
        if k in ("FnDef", "Closure"):
            return Agg(0, ())
        if k == "Adt" and self.erased(t) is not None:
            return self.decode(self.erased(t), by, prov, off)
        if k == "Adt":
            vs = ty["x"]["variants"]
            if ty["x"]["adtkind"] == "Struct":
                offs = lay["fields"]
                offs = offs["Arbitrary"]["offsets"] if isinstance(offs, dict) and "Arbitrary" in offs else [0] * len(vs[0]["fields"])
                return Agg(0, tuple(self.decode(ft, by, prov, off + bits_(o)) for (_, ft), o in zip(vs[0]["fields"], offs)))
            if ty["x"]["adtkind"] == "Enum":
                v = lay["variants"]
                if "Single" in v:
                    vi = v["Single"]["index"]
                    offs = lay["fields"]
                    offs = offs["Arbitrary"]["offsets"] if isinstance(offs, dict) and "Arbitrary" in offs else []
                    return Agg(vi, tuple(self.decode(ft, by, prov, off + bits_(o)) for (_, ft), o in zip(vs[vi]["fields"], offs)))
                m = v["Multiple"]
                tagoff = bits_(lay["fields"]["Arbitrary"]["offsets"][m["tag_field"]])
                prim = m["tag"].get("Initialized", m["tag"].get("Union"))["value"]
                if "Int" in prim:
                    n = {"I8": 1, "I16": 2, "I32": 4, "I64": 8, "I128": 16}[prim["Int"]["length"]]
                else:
                    n = 8
                raw = by[off + tagoff:off + tagoff + n]
                isptr = (off + tagoff) in prov
                tag = None if None in raw or isptr else int.from_bytes(bytes(raw), "little")
                if m["tag_encoding"] == "Direct":
                    vi = next(i for i, x in enumerate(vs) if (x["discr"] & ((1 << (8 * n)) - 1)) == tag)
                else:
                    ni = m["tag_encoding"]["Niche"]
                    vi = ni["untagged_variant"]
                    if tag is not None:
                        r = ni["niche_variants"]
                        lo, hi = (r["start"], r["end"]) if isinstance(r, dict) else r
                        rel = (tag - ni["niche_start"]) & ((1 << (8 * n)) - 1)
                        if rel <= hi - lo:
                            vi = lo + rel
                offs = m["variants"][vi]["offsets"]
                return Agg(vi, tuple(self.decode(ft, by, prov, off + bits_(o)) for (_, ft), o in zip(vs[vi]["fields"], offs)))
            return Opaque(("union", ty["name"]))
        return Opaque(("const", ty["name"]))

    def constant(self, c):
        """decode a MirConst json"""
        key = (c["id"], c["ty"])
        v = self._constcache.get(key)
        if v is None:
            v = self._constant(c)
            self._constcache[key] = v
        return v

    def _constant(self, c):
        ty = self.types[c["ty"]]
        k = c["kind"]
        if k == "ZeroSized":
            if ty["k"] == "FnDef":
                i = ty["x"].get("inst")
                return Fn(i) if i is not None else Opaque(("fndef", ty["name"]))
            return self.zst(c["ty"])
        if "Allocated" in k:
            a = k["Allocated"]
            return self.decode(c["ty"], a["bytes"], {p[0]: p[1] for p in a["provenance"]["ptrs"]})
        if "Ty" in k:
            tc = k["Ty"]["kind"]
            if "Value" in tc:
                a = tc["Value"][1]
                return self.decode(tc["Value"][0], a["bytes"], {p[0]: p[1] for p in a["provenance"]["ptrs"]})
            return self.zst(c["ty"])
        return Opaque(("const", ty["name"]))

    def zst(self, t):
        ty = self.types[t]
        if ty["k"] == "FnDef":
            i = ty["x"].get("inst")
            return Fn(i) if i is not None else Opaque(("fndef", ty["name"]))
        if ty["k"] == "Tuple":
            return Agg(0, tuple(self.zst(e) for e in ty["x"]["elems"]))
        if ty["k"] == "Adt" and ty["x"]["adtkind"] == "Struct":
            return Agg(0, tuple(self.zst(f[1]) for f in ty["x"]["variants"][0]["fields"]))
        if ty["k"] == "Array":
            if ty["x"]["len"]:
                return Agg(0, tuple(self.zst(ty["x"]["elem"]) for _ in range(ty["x"]["len"])))
            return Agg(0, ())
        return Agg(0, ())

    def static_value(self, root):
        """value behind a static pointer root ('S', alloc, ty, is_slice)"""
        v = self._alloccache.get(root)
        if v is None:
            _, a, t, sl = root
            al = self.allocs[a]
            if al["k"] == "fn":
                v = Fn(al["inst"])
            elif "a" in al:
                if al["k"] == "static" and (al.get("mutbl")):
                    v = Opaque(("static mut", al["name"]))
                else:
                    m = al["a"]
                    prov = {p[0]: p[1] for p in m["provenance"]["ptrs"]}
                    if sl:
                        st = self.types[t]["layout"]["size"]
                        n = len(m["bytes"]) // st if st else 0
                        v = Agg(0, tuple(self.decode(t, m["bytes"], prov, i * st) for i in range(n)))
                    else:
                        v = self.decode(t, m["bytes"], prov)
            else:
                v = Opaque(("alloc", al["k"]))
            self._alloccache[root] = v
        return v

    # ------------------------------------------------------------------ bodies
    def body(self, inst):
        b = self._bodies.get(inst)
        if b is None:
            f = self.fns[inst]
            if "body" not in f:
                return None
            b = self._decode_body(inst, f)
            self._bodies[inst] = b
        return b

    def dropfx(self, inst):
        """whether dropping reaches a Drop implementation other than one that gives memory or handles back"""
        r = self._dropfx.get(inst)
        if r is None:
            r, seen, st = False, {inst}, [inst]
            while st and not r:
                i = st.pop()
                f = self.fns[i]
                m = DROPIMPL.search(f["name"])
                if m:
                    r = r or not FREEING.match(m.group(1))
                    continue
                for d in (f.get("drops") or ()):
                    if d not in seen:
                        seen.add(d)
                        st.append(d)
                for bl in (f.get("body") or {"blocks": ()})["blocks"]:
                    k = bl["terminator"]["kind"]
                    if isinstance(k, dict) and "Call" in k:
                        c = self._operand(k["Call"]["func"]) if "Constant" in k["Call"]["func"] else (None, None)
                        c = getattr(c[1], "inst", None)
                        if c is not None and c not in seen and DROPIMPL.search(self.fns[c]["name"]):
                            seen.add(c)
                            st.append(c)
            self._dropfx[inst] = r
        return r

    def erased(self, t):
        """the only content of a wrapper whose values are those of its content; None otherwise"""
        r = self._erased.get(t, 0)
        if r == 0:
            r = None
            ty = self.types[t]
            if ty["k"] == "Adt" and (ty["x"]["adtkind"] == "Union" or ty["x"]["adt"] in ERASED):
                fs = [f[1] for f in ty["x"]["variants"][0]["fields"] if not self.is_zst(f[1])]
                if len(fs) == 1:
                    r = fs[0]
            self._erased[t] = r
        return r

    def _place(self, p):
        pr = []
        t = self._locs[p["local"]]
        for e in p["projection"]:
            if e == "Deref":
                while self.erased(t) is not None:
                    t = self.erased(t)
                ty = self.types[t]
                t = ty["x"]["args"][0] if ty["k"] == "Adt" else ty["x"].get("elem")
                pr.append(("D",))
            elif "Field" in e:
                inner = self.erased(t) if t is not None else None
                t = e["Field"][1]
                if inner is not None and (inner == t or not self.is_zst(t)):
                    pr.append(("T", t))
                else:
                    pr.append(("F", e["Field"][0], t))
            elif not isinstance(e, str) and ("Index" in e or "ConstantIndex" in e) and t is not None:
                t = self.types[t]["x"].get("elem")
                pr.append(("X", e["Index"]) if "Index" in e else ("C", e["ConstantIndex"]["offset"], e["ConstantIndex"]["from_end"]))
            elif "Index" in e:
                pr.append(("X", e["Index"]))
            elif "ConstantIndex" in e:
                c = e["ConstantIndex"]
                pr.append(("C", c["offset"], c["from_end"]))
            elif "Subslice" in e:
                c = e["Subslice"]
                pr.append(("S", c["from"], c["to"], c["from_end"]))
            elif "Downcast" in e:
                pr.append(("V", e["Downcast"]))
            elif "OpaqueCast" in e:
                pass
            else:
                raise Unsupported("projection %r" % (e,))
        return (p["local"], tuple(pr))

    def place_ty(self, locs, place):
        t = locs[place[0]]
        variant = None
        for e in place[1]:
            ty = self.types[t]
            if e[0] == "D":
                if ty["k"] == "Adt":
                    t = ty["x"]["args"][0]
                else:
                    t = ty["x"]["elem"]
            elif e[0] == "F":
                t = e[2]
            elif e[0] == "T":
                t = e[1]
            elif e[0] in ("X", "C"):
                t = ty["x"]["elem"]
        return t

    def _operand(self, o):
        if "Copy" in o:
            return ("p", self._place(o["Copy"]))
        if "Move" in o:
            return ("p", self._place(o["Move"]))
        if "Constant" in o:
            c = o["Constant"]["const_"]
            return ("k", self.constant(c), c["ty"])
        if "RuntimeChecks" in o:
            return ("k", 0, None)
        raise Unsupported("operand %r" % (o,))

    def op_ty(self, locs, o):
        if o[0] == "k":
            return o[2]
        return self.place_ty(locs, o[1])

    def _rvalue(self, r, locs):
        if "Use" in r:
            return ("use", self._operand(r["Use"][0]))
        if "BinaryOp" in r:
            op, a, b = r["BinaryOp"]
            a, b = self._operand(a), self._operand(b)
            return ("bin", op, a, b, self._scal(self.op_ty(locs, a)))
        if "CheckedBinaryOp" in r:
            op, a, b = r["CheckedBinaryOp"]
            a, b = self._operand(a), self._operand(b)
            return ("cbin", op, a, b, self._scal(self.op_ty(locs, a)))
        if "UnaryOp" in r:
            op, a = r["UnaryOp"]
            a = self._operand(a)
            return ("un", op, a, self._scal(self.op_ty(locs, a)))
        if "Ref" in r:
            return ("ref", self._place(r["Ref"][2]), r["Ref"][1] != "Shared")
        if "Reborrow" in r:
            return ("use", ("p", self._place(r["Reborrow"][2])))
        if "AddressOf" in r:
            return ("ref", self._place(r["AddressOf"][1]), True)
        if "Aggregate" in r:
            k, ops = r["Aggregate"]
            ops = tuple(self._operand(o) for o in ops)
            if k == "Tuple":
                return ("agg", 0, ops)
            if "Array" in k:
                return ("agg", 0, ops)
            if "Adt" in k:
                if k["Adt"][4] is not None:
                    return ("opaque", "union")
                return ("agg", k["Adt"][1], ops)
            if "Closure" in k:
                return ("agg", 0, ops)
            if "RawPtr" in k:
                return ("mkptr", k["RawPtr"][0], ops)
            return ("opaque", repr(k)[:80])
        if "Cast" in r:
            k, o, t = r["Cast"]
            o = self._operand(o)
            return ("cast", k if isinstance(k, str) else "PC:" + (k["PointerCoercion"] if isinstance(k["PointerCoercion"], str) else list(k["PointerCoercion"])[0]), o, t, self.op_ty(locs, o))
        if "Discriminant" in r:
            p = self._place(r["Discriminant"])
            return ("discr", p, self.place_ty(locs, p))
        if "Len" in r:
            return ("len", self._place(r["Len"]))
        if "CopyForDeref" in r:
            return ("use", ("p", self._place(r["CopyForDeref"])))
        if "Repeat" in r:
            n = r["Repeat"][1]["kind"]
            cnt = None
            if "Value" in n:
                cnt = int.from_bytes(bytes(n["Value"][1]["bytes"]), "little")
            return ("repeat", self._operand(r["Repeat"][0]), cnt)
        if "ThreadLocalRef" in r:
            return ("opaque", "threadlocal")
        raise Unsupported("rvalue %r" % (list(r),))

    def _scal(self, t):
        """scalar kind of a type: 'f', ('i',bits,signed), 'b', 'p' or 'o'"""
        if t is None:
            return "b"
        ty = self.types[t]
        k = ty["k"]
        if k == "Float":
            return "f"
        if k in ("Int", "Uint"):
            b, s = INTS[ty["prim"]]
            return ("i", b, s)
        if k == "Bool":
            return "b"
        if k == "Char":
            return ("i", 32, False)
        if k in ("RawPtr", "Ref", "FnPtr"):
            return "p"
        return "o"

    def _decode_body(self, inst, f):
        j = f["body"]
        b = Body()
        b.name = f["name"]
        b.inst = inst
        b.argc = j["arg_count"]
        b.locals = [l["ty"] for l in j["locals"]]
        self._locs = b.locals
        b.localspans = [l["span"] for l in j["locals"]]
        b.spread = j["spread_arg"]
        b.fnspan = j["span"]
        b.names = {}
        for v in j["var_debug_info"]:
            val = v["value"]
            if "Place" in val and not val["Place"]["projection"]:
                b.names.setdefault(val["Place"]["local"], v["name"])
        b.blocks = []
        b.addr_taken = set()
        for bl in j["blocks"]:
            st = []
            for s in bl["statements"]:
                k = s["kind"]
                sp = s["source_info"]["span"]
                if isinstance(k, str):
                    continue
                if "Assign" in k:
                    pl = self._place(k["Assign"][0])
                    rv = self._rvalue(k["Assign"][1], b.locals)
                    if rv[0] == "agg" or rv == ("opaque", "union"):
                        inner = self.erased(self.place_ty(b.locals, pl))
                        if inner is not None:
                            ops = k["Assign"][1]["Aggregate"][1]
                            ops = [self._operand(o) for o in ops]
                            ops = [o for o in ops if o[0] != "k" and not self.is_zst(self.op_ty(b.locals, o)) or o[0] == "k" and o[2] is not None and not self.is_zst(o[2])]
                            rv = ("use", ops[0]) if len(ops) == 1 else ("opaque", "uninit")
                    if rv[0] == "ref" and not any(e[0] == "D" for e in rv[1][1]):
                        b.addr_taken.add(rv[1][0])
                    st.append(("=", pl, rv, sp))
                elif "StorageDead" in k:
                    st.append(("dead", k["StorageDead"]))
                elif "SetDiscriminant" in k:
                    st.append(("setd", self._place(k["SetDiscriminant"]["place"]), k["SetDiscriminant"]["variant_index"], sp))
                elif "Intrinsic" in k:
                    if "CopyNonOverlapping" in k["Intrinsic"]:
                        c = k["Intrinsic"]["CopyNonOverlapping"]
                        st.append(("copy", sp, self._operand(c["src"]), self._operand(c["dst"]), self._operand(c["count"])))
            t = bl["terminator"]
            sp = t["source_info"]["span"]
            k = t["kind"]
            if k == "Return":
                tm = ("ret",)
            elif k in ("Unreachable", "Resume", "Abort"):
                tm = ("dead", k)
            elif "Goto" in k:
                tm = ("goto", k["Goto"]["target"])
            elif "SwitchInt" in k:
                d = self._operand(k["SwitchInt"]["discr"])
                tg = k["SwitchInt"]["targets"]
                sc = self._scal(self.op_ty(b.locals, d))
                br = []
                for val, tgt in tg["branches"]:
                    if isinstance(sc, tuple) and sc[2] and val >= 1 << (sc[1] - 1):
                        val -= 1 << sc[1]
                    br.append((val, tgt))
                tm = ("switch", d, tuple(br), tg["otherwise"], sp, sc)
            elif "Drop" in k:
                pl = self._place(k["Drop"]["place"])
                g = dict(f.get("dropat") or ()).get(len(b.blocks))
                if g is not None and self.dropfx(g):
                    b.addr_taken.add(pl[0])
                else:
                    g = None
                tm = ("drop", pl, k["Drop"]["target"], sp, g)
            elif "Call" in k:
                c = k["Call"]
                tm = ("call", self._operand(c["func"]), tuple(self._operand(a) for a in c["args"]), self._place(c["destination"]), c["target"], sp)
            elif "Assert" in k:
                c = k["Assert"]
                tm = ("assert", self._operand(c["cond"]), 1 if c["expected"] else 0, c["target"], sp, c["msg"] if isinstance(c["msg"], str) else list(c["msg"])[0])
            else:
                tm = ("asm", sp)
            b.blocks.append((tuple(st), tm, sp))
        self._cfg(b)
        return b

    def succs(self, tm):
        k = tm[0]
        if k == "goto":
            return [tm[1]]
        if k == "switch":
            out = []
            for _, t in tm[2]:
                if t not in out:
                    out.append(t)
            if tm[3] not in out:
                out.append(tm[3])
            return out
        if k == "drop":
            return [tm[2]]
        if k == "call":
            return [tm[4]] if tm[4] is not None else []
        if k == "assert":
            return [tm[3]]
        return []

    def _cfg(self, b):
        n = len(b.blocks)
        succ = [self.succs(bl[1]) for bl in b.blocks]
        # blocks that can reach return
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for t in s:
                pred[t].append(i)
        EXIT = n
        good = set()
        st = [i for i in range(n) if b.blocks[i][1][0] == "ret"]
        while st:
            x = st.pop()
            if x in good:
                continue
            good.add(x)
            st.extend(pred[x])
        b.cfg = succ
        # post-dominators over good blocks
        full = set(good) | {EXIT}
        pdom = {i: full for i in good}
        pdom[EXIT] = {EXIT}
        # order: reverse dfs from exits
        order = []
        seen = set()

        def dfs(x):
            stack = [(x, iter([p for p in (pred[x] if x != EXIT else [i for i in good if b.blocks[i][1][0] == "ret"]) if p in good]))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for p in it:
                    if p not in seen:
                        seen.add(p)
                        stack.append((p, iter([q for q in pred[p] if q in good])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(EXIT)
        order.reverse()
        changed = True
        while changed:
            changed = False
            for x in order:
                if x == EXIT:
                    continue
                ss = [t for t in succ[x] if t in good]
                if b.blocks[x][1][0] == "ret":
                    new = {x, EXIT}
                else:
                    new = None
                    for t in ss:
                        new = set(pdom[t]) if new is None else new & pdom[t]
                    new = (new or set()) | {x}
                if new != pdom[x]:
                    pdom[x] = new
                    changed = True
        b.ipdom = {}
        for x in good:
            c = pdom[x] - {x}
            # the nearest: the one whose pdom set is largest
            best = None
            for y in c:
                if best is None or len(pdom[y]) > len(pdom[best]):
                    best = y
            b.ipdom[x] = best
        # natural loops
        dom = self._doms(n, succ)
        b.dom = dom
        b.rpo = self._rpo
        b.joins = [x for x in dom if sum(1 for q in pred[x] if q in dom and x not in dom[q]) >= 2]
        b._dj = {}
        b.loops = {}
        for i in range(n):
            if i not in dom:
                continue
            for t in succ[i]:
                if t in dom[i]:
                    body = b.loops.setdefault(t, {t})
                    st = [i]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in pred[x] if p in dom)
        b.inloop = {}
        for h, bodyset in b.loops.items():
            for x in bodyset:
                b.inloop.setdefault(x, []).append(h)
        b.live = None

    def domjoins(self, b, bb):
        """join blocks all of whose paths pass through bb, at bb's loop depth or outside"""
        r = b._dj.get(bb)
        if r is None:
            ls = set(b.inloop.get(bb, ()))
            r = frozenset(m for m in b.joins if m != bb and bb in b.dom[m] and set(b.inloop.get(m, ())) <= ls)
            b._dj[bb] = r
        return r

    def _doms(self, n, succ):
        reach = []
        seen = set()
        st = [0]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            reach.append(x)
            st.extend(succ[x])
        pred = {x: [] for x in reach}
        for x in reach:
            for t in succ[x]:
                pred[t].append(x)
        full = set(reach)
        dom = {x: full for x in reach}
        dom[0] = {0}
        # rpo
        order = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            y, it = stack[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    stack.append((p, iter(succ[p])))
                    break
            else:
                order.append(y)
                stack.pop()
        order.reverse()
        self._rpo = {x: i for i, x in enumerate(order)}
        self._rpo[n] = len(order) + 1
        ch = True
        while ch:
            ch = False
            for x in order:
                if x == 0:
                    continue
                new = None
                for p in pred[x]:
                    new = set(dom[p]) if new is None else new & dom[p]
                new = (new or set()) | {x}
                if new != dom[x]:
                    dom[x] = new
                    ch = True
        return dom

    # ------------------------------------------------------------------ liveness (locals)
    def liveness(self, b):
        if b.live is not None:
            return b.live
        n = len(b.blocks)

        def uses_place(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e[0] == "X":
                    acc.add(e[1])

        def uses_op(o, acc):
            if o[0] == "p":
                uses_place(o[1], acc)
        gen, kill = [], []
        for st, tm, _ in b.blocks:
            g, k = set(), set()

            def use(fn, x):
                acc = set()
                fn(x, acc)
                g.update(a for a in acc if a not in k)
            for s in st:
                if s[0] == "=":
                    rv = s[2]
                    for part in rv[1:]:
                        if isinstance(part, tuple) and part and part[0] in ("p", "k"):
                            use(uses_op, part)
                        elif isinstance(part, tuple) and part and isinstance(part[0], tuple) and part[0] and part[0][0] in ("p", "k"):
                            for q in part:
                                use(uses_op, q)
                        elif isinstance(part, tuple) and len(part) == 2 and isinstance(part[0], int) and isinstance(part[1], tuple):
                            use(uses_place, part)
                    if s[1][1]:
                        use(uses_place, s[1])
                    else:
                        k.add(s[1][0])
                elif s[0] == "setd":
                    use(uses_place, s[1])
                elif s[0] == "dead":
                    k.add(s[1])
            if tm[0] == "switch":
                use(uses_op, tm[1])
            elif tm[0] == "call":
                use(uses_op, tm[1])
                for a in tm[2]:
                    use(uses_op, a)
                if tm[3][1]:
                    use(uses_place, tm[3])
                else:
                    k.add(tm[3][0])
            elif tm[0] == "assert":
                use(uses_op, tm[1])
            elif tm[0] == "ret":
                if 0 not in k:
                    g.add(0)
            gen.append(g)
            kill.append(k)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for t in b.cfg[i]:
                    out |= live[t]
                new = gen[i] | (out - kill[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        for i in range(n):
            live[i] |= b.addr_taken
        b.live = live
        return live


def bits_(o):
    return o["num_bits"] // 8 if isinstance(o, dict) else int(o)
