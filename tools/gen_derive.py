#!/usr/bin/env python3
"""Generates type definitions for speedy's derive macros together with an independent model of each.

The model side (impl M) is derived from the documented meaning of the attributes, never from the macro.
    gen_derive.py PROFILE SEED COUNT OUTFILE
"""
import random, sys

LENS = ["u7", "u8", "u16", "u32", "u64", "u64_varint"]
LEN_RS = {"u7": "Len::U7", "u8": "Len::U8", "u16": "Len::U16", "u32": "Len::U32", "u64": "Len::U64", "u64_varint": "Len::Varint"}
LEN_MIN = {"u7": 1, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "u64_varint": 1}
INTS = [("u8", 1), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("u64", 8), ("i64", 8)]
PRIMS = INTS + [("f32", 4), ("f64", 8), ("u128", 16), ("i128", 16)]


class T:
    """A type as it appears in a definition ('a is the definition's lifetime)."""
    def __init__(self, rs, min, **fl):
        self.rs, self.min = rs, min
        # default copy key borrow lt eofs nonuniq clone prim cont rest gen slow
        self.fl = {k for k, v in fl.items() if v}
        self.cont = fl.get("cont")          # what kind of container the macro may recognise
        self.item_min = fl.get("item_min", 1)
    def has(self, f): return f in self.fl
    @property
    def st(self): return self.rs.replace("'a", "'static")


class Gen:
    def __init__(self, seed, profile):
        self.r = random.Random(f"{profile}/{seed}")
        self.profile = profile
        self.n = 0
        self.out = []
        self.users = []       # user types usable as fields
        self.reg = []         # (type text, flags)
        self.bulk = []        # element types
        self.enums = []
        self.min_depth = 0

    # ---- types -------------------------------------------------------------------------------
    def prim(self, small=False):
        n, w = self.r.choice(INTS if small else PRIMS)
        return T(n, w, default=1, copy=1, clone=1, key=n[0] != "f", prim=1)
    def key(self, d=0):
        r = self.r
        k = r.randrange(10)
        if k < 5: n, w = r.choice(INTS); return T(n, w, default=1, copy=1, clone=1, key=1, prim=1)
        if k == 5: return T("char", 4, default=1, copy=1, clone=1, key=1)
        if k == 6: return T("String", 4, default=1, clone=1, key=1)
        if k == 7: return T("bool", 1, default=1, copy=1, clone=1, key=1, nonuniq=1)
        if k == 8:
            us = [u for u in self.users if u.has("key") and not u.has("lt") and not u.has("eofs") and not u.has("borrow") and u.min > 0]
            if us: return r.choice(us)
        a, b = self.prim(True), self.prim(True)
        return T(f"({a.rs}, {b.rs})", a.min + b.min, default=1, copy=1, clone=1, key=1)
    def merge(self, ts, drop=()):
        f = {}
        for x in ("lt", "borrow", "eofs", "nonuniq", "rest", "gen", "zst"):
            if x not in drop: f[x] = any(t.has(x) for t in ts)
        for x in ("default", "copy", "key", "clone"):
            f[x] = all(t.has(x) for t in ts)
        return f
    def elem(self, d):
        """An element type: never reads to the end."""
        for _ in range(20):
            t = self.ty(d + 1)
            if not t.has("rest") and not t.has("eofs"): return t
        return self.prim()
    def cont(self, d, kind=None, elem=None):
        """A container type the macro recognises."""
        r = self.r
        kind = kind or r.choice(["String", "Vec", "Vec", "CowStr", "CowSlice", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "CowHashMap", "CowHashSet", "CowBTreeMap", "CowBTreeSet", "RefStr", "RefU8"])
        c = dict(cont=kind, clone=1, default=1)
        if kind == "String": return T("String", 4, key=1, **c)
        if kind == "CowStr": return T("Cow<'a, str>", 4, lt=1, **c)
        if kind == "RefStr": return T("&'a str", 4, lt=1, borrow=1, copy=1, **c)
        if kind == "RefU8": return T("&'a [u8]", 4, lt=1, borrow=1, copy=1, **c)
        if kind in ("Vec", "CowSlice"):
            e = elem or (self.prim() if r.random() < 0.5 else self.elem(d))
            m = self.merge([e])
            m["default"] = 1; m["copy"] = 0
            if kind == "CowSlice" and not e.has("clone"): kind = "Vec"; c["cont"] = "Vec"
            c2 = dict(c); c2.update(m); c2["clone"] = e.has("clone")
            if e.min == 0: c2["zst"] = 1
            if kind == "Vec": return T(f"Vec<{e.rs}>", 4, item_min=e.min, **c2)
            c2["lt"] = 1
            return T(f"Cow<'a, [{e.rs}]>", 4, item_min=e.min, **c2)
        k = self.key()
        name = kind.replace("Cow", "")
        if "Map" in name:
            v = self.prim() if r.random() < 0.6 else self.elem(d)
            if not v.has("clone"): v = self.prim()
            m = self.merge([k, v]); im = k.min + v.min
            rs = f"{name}<{k.rs}, {v.rs}>"
        else:
            m = self.merge([k]); im = k.min
            rs = f"{name}<{k.rs}>"
        m.update(default=1, copy=0, nonuniq=1)
        m["key"] = m["key"] and name.startswith("BTree")
        m["clone"] = 1
        c2 = dict(c); c2.update(m)
        if im == 0: c2["zst"] = 1
        if kind.startswith("Cow"):
            c2["lt"] = 1; c2["key"] = 0
            return T(f"Cow<'a, {rs}>", 4, item_min=im, **c2)
        return T(rs, 4, item_min=im, **c2)
    def ty(self, d=0):
        r = self.r
        k = r.randrange(22) if d < 3 else r.randrange(6)
        if k < 6: return self.prim()
        if k == 6: return T("bool", 1, default=1, copy=1, clone=1, key=1, nonuniq=1)
        if k == 7: return T(*r.choice([("char", 4), ("usize", 8)]), default=1, copy=1, clone=1, key=1)
        if k in (8, 9, 10): return self.cont(d)
        if k == 11:
            e = self.elem(d); m = self.merge([e]); m.update(default=1, nonuniq=1)
            return T(f"Option<{e.rs}>", 1, opt=1, **m)
        if k == 12:
            e = self.elem(d); n = r.choice([0, 1, 2, 3, 4, 5, 9])
            if n == 0: e = self.prim()
            m = self.merge([e])
            return T(f"[{e.rs}; {n}]", e.min * n, **m)
        if k == 13:
            n = r.choice([2, 2, 3, 4]); es = [self.elem(d) for _ in range(n)]
            m = self.merge(es)
            return T("(" + ", ".join(e.rs for e in es) + ")", sum(e.min for e in es), **m)
        if k == 14:
            e = self.elem(d); m = self.merge([e]); m["copy"] = 0
            return T(f"Box<{e.rs}>", e.min, **m)
        if k == 15:
            return r.choice([
                T("std::time::Duration", 12, default=1, copy=1, clone=1, nonuniq=1, key=1),
                T("std::num::NonZeroU16", 2, copy=1, clone=1, key=1),
                T("std::net::IpAddr", 5, copy=1, clone=1, key=1),
                T("()", 0, default=1, copy=1, clone=1, key=1),
                T("std::ops::Range<u16>", 4, default=1, clone=1),
                T("Result<u8, String>", 2, clone=1, nonuniq=1),
                T("Box<str>", 4, default=1, clone=1, key=1),
                T("std::vec::Vec<u16>", 4, default=1, clone=1, key=1),
                T("std::string::String", 4, default=1, clone=1, key=1),
                T("std::option::Option<u8>", 1, default=1, clone=1, copy=1, key=1, nonuniq=1),
                T("std::collections::HashMap<u8, String>", 4, default=1, clone=1, nonuniq=1),
                T("std::borrow::Cow<'a, [u8]>", 4, default=1, clone=1, lt=1),
                T("std::marker::PhantomData<u32>", 0, default=1, clone=1, copy=1, key=1) if False else T("u8", 1, default=1, copy=1, clone=1, key=1, prim=1),
            ])
        us = [u for u in self.users if d < 3]
        if us: return r.choice(us[-25:])
        return self.prim()

    # ---- fields ------------------------------------------------------------------------------
    NAMES = ["alpha", "beta", "value", "error", "length", "name", "r#type", "n", "data", "x", "reader", "writer", "bytes", "slice", "flag", "tag", "sum", "out", "this", "kind", "field", "ctx", "item"]
    def fields(self, n, named, last_ok=True, typ=None, attr=0.45, first=None):
        """A list of field dictionaries: name, var, t, mode, attrs."""
        r = self.r
        names = r.sample(self.NAMES, min(n, len(self.NAMES))) if named else [str(i) for i in range(n)]
        fs = []
        for i in range(n):
            f = dict(name=names[i], var=(names[i] if named else f"t{i}"), i=i, doe=False, pre=None, mode="plain", lt=None, attrs=[])
            f["count"] = None
            if first and i == 0: f.update(first)
            else:
                f["t"] = typ() if typ else (self.cont(1) if r.random() < 0.35 else self.ty())
                if r.random() < attr: self.attr(f, fs, last_ok and i == n - 1)
                elif f["t"].has("rest") or (f["t"].has("eofs") and r.random() < 0.6): f["t"] = self.prim()
            if f["t"].has("rest") and not (last_ok and i == n - 1): f["t"] = self.prim(); f.update(mode="plain", attrs=[], doe=False, pre=None)
            fs.append(f)
        return fs
    def expr(self, fs):
        """A length expression over earlier count fields."""
        r = self.r
        cs = [f for f in fs if f["mode"] == "plain" and f["t"].rs in ("u8", "u16", "u32", "usize") and not f["doe"] and not f["name"].startswith("r#")]
        if not cs: return None
        f = r.choice(cs)
        f["mode"] = "count"
        e = r.choice(["{0}", "{0}", "{0}", "{0} / 2", "{0} % 10", "{0} & 15", "{0} >> 1", "{0} | 1"])
        used = [f]
        others = [g for g in cs if g["t"].rs == f["t"].rs and g is not f]
        if others and r.random() < 0.3:
            g = r.choice(others); g["mode"] = "count"; e = "{0} ^ {1}"; used = [f, g]
        return e, used
    def attr(self, f, fs, is_last):
        r = self.r
        t = f["t"]
        k = r.randrange(9)
        if k <= 2 and t.cont:
            f["mode"] = "lt"; f["lt"] = r.choice(LENS); f["attrs"].append(f"length_type = {f['lt']}")
        elif k <= 2 and t.has("opt") is False and t.rs.startswith("Option<") is False:
            t2 = self.cont(1); m = self.merge([t2]); m.update(default=1, nonuniq=1)
            f["inner"] = t2
            f["t"] = T(f"Option<{t2.rs}>", 1, **m); f["mode"] = "opt"; f["lt"] = r.choice(LENS); f["attrs"].append(f"length_type = {f['lt']}")
        elif k in (3, 4):
            e = self.expr(fs)
            if e:
                if not t.cont: t = f["t"] = self.cont(1)
                f["mode"] = "n"; f["expr"] = e
                f["attrs"].append("length = " + e[0].format(*[u["var"] for u in e[1]]))
        elif k == 5:
            f["t"] = T("u64", 8, default=1, copy=1, clone=1, key=1); f["mode"] = "varint"; f["attrs"].append("varint")
        elif k == 6 and t.has("default"):
            f["mode"] = "skip"; f["attrs"].append("skip")
        elif k == 7 and is_last:
            if not t.cont or t.item_min == 0: t = f["t"] = self.cont(1)
            if t.item_min > 0: f["mode"] = "end"; f["attrs"].append("length = ..")
        elif k == 8: pass
        if f["mode"] != "skip" and r.random() < 0.3: self.prefix(f)
        if f["mode"] != "skip" and f["t"].has("default") and r.random() < (0.4 if k == 8 else 0.2):
            f["doe"] = True; f["attrs"].append("default_on_eof")
        r.shuffle(f["attrs"])
    def prefix(self, f):
        r = self.r
        k = r.randrange(7)
        if k == 0: s, b = '"XYZ"', b"XYZ"
        elif k == 1: s, b = 'b"\\x00\\xff"', b"\x00\xff"
        elif k == 2: s, b = "b'q'", b"q"
        elif k == 3: s, b = "'\u00e9'", "\u00e9".encode()
        elif k == 4: v = r.choice([True, False]); s, b = ("true", b"\x01") if v else ("false", b"\x00")
        elif k == 5: v = r.randrange(256); s, b = f"{v}u8", bytes([v])
        else: v = r.choice([1, 5, 127, 128]); s, b = f"-{v}i8", bytes([(256 - v) & 255])
        f["pre"] = b
        f["attrs"].append(f"constant_prefix = {s}")

    # ---- code for a list of fields -----------------------------------------------------------
    def decl(self, f, vis=""):
        a = f"#[speedy({', '.join(f['attrs'])})] " if f["attrs"] else ""
        if f["attrs"] and len(f["attrs"]) > 1 and self.r.random() < 0.3:
            a = "".join(f"#[speedy({x})] " for x in f["attrs"])
        return f"{a}{vis}{f['name']}: {f['t'].rs}" if not f["name"].isdigit() else f"{a}{vis}{f['t'].rs}"
    def ex(self, f, deref):
        e, us = f["expr"]
        return "((" + e.format(*[("(*%s)" if deref else "%s") % self.v(u) for u in us]) + ") as u64)"
    def v(self, f): return "v_" + f["var"].replace("r#", "")
    def c_gen(self, f):
        t = f["t"].st; m = f["mode"]
        if f.get("fixed") is not None: e = f"{f['fixed']} as {t}"
        elif m in ("plain", "skip"): e = f"<{t} as M>::gen(s)"
        elif m == "count": e = f"gen_count(s, {f['t'].min * 8}) as {t}"
        elif m == "varint": e = "s.int(64)"
        elif m == "lt": e = f"gen_lt::<{t}>(s, {LEN_RS[f['lt']]})"
        elif m == "opt": e = f"gen_opt::<{f['inner'].st}>(s, {LEN_RS[f['lt']]})"
        elif m == "n": e = f"gen_n::<{t}>(s, {self.ex(f, False)})"
        elif m == "end": e = f"gen_end::<{t}>(s)"
        return f"let {self.v(f)}: {t} = {e};"
    def c_enc(self, f):
        v = self.v(f); m = f["mode"]
        p = f"o.raw(&{list(f['pre'])});" if f["pre"] else ""
        if m == "skip": return f"enc_skip({v}, o);"
        if m in ("plain", "count"): e = f"M::enc({v}, o);"
        elif m == "varint": e = f"o.varint(*{v});"
        elif m == "lt": e = f"enc_lt({v}, o, {LEN_RS[f['lt']]});"
        elif m == "opt": e = f"enc_opt({v}, o, {LEN_RS[f['lt']]});"
        elif m == "n": e = f"enc_n({v}, o, {self.ex(f, True)});"
        elif m == "end": e = f"enc_end({v}, o);"
        return p + e
    def c_dec(self, f):
        t = f["t"].st; m = f["mode"]
        if m == "skip": return f"let {self.v(f)}: {t} = Default::default();"
        if m in ("plain", "count"): e = f"<{t} as M>::dec(i)"
        elif m == "varint": e = "i.varint()"
        elif m == "lt": e = f"dec_lt::<{t}>(i, {LEN_RS[f['lt']]})"
        elif m == "opt": e = f"dec_opt::<{f['inner'].st}>(i, {LEN_RS[f['lt']]})"
        elif m == "n": e = f"dec_n::<{t}>(i, {self.ex(f, False)})"
        elif m == "end": e = f"dec_end::<{t}>(i)"
        if f["pre"]: e = f"{{ prefix(i, &{list(f['pre'])})?; {e} }}"
        if f["doe"]: e = f"i.or_default(Default::default, |i| {e})"
        return f"let {self.v(f)}: {t} = {e}?;"
    def f_min(self, f):
        if f["doe"] or f["mode"] == "skip": return 0, "0"
        p = len(f["pre"]) if f["pre"] else 0
        m = f["mode"]
        if m in ("n", "end"): k = 0; e = "0"
        elif m == "varint": k = 1; e = "1"
        elif m == "opt": k = 1; e = "1"
        elif m == "lt": k = LEN_MIN[f["lt"]]; e = str(k)
        else: k = f["t"].min; e = f"<{f['t'].st} as M>::MIN"
        return k + p, f"{p} + {e}"
    def flags_of(self, fs):
        m = self.merge([f["t"] for f in fs])
        m["eofs"] = m.get("eofs") or any(f["doe"] or f["mode"] == "end" for f in fs)
        m["rest"] = m.get("rest") or any(f["mode"] == "end" for f in fs)
        m["nonuniq"] = m.get("nonuniq") or any(f["mode"] == "varint" or f["lt"] == "u64_varint" for f in fs)
        if not fs: m.update(default=1, copy=1, key=1, clone=1)
        return m
    def shape(self, fs, named, unit_ok=True):
        vs = [self.v(f) for f in fs]
        if not fs and not named: return "", ""
        if named: b = "{ " + ", ".join(f"{f['name']}: {self.v(f)}" for f in fs) + " }"
        else: b = "(" + ", ".join(vs) + ")"
        return b, b
    def derives(self, m, extra=""):
        d = []
        if m.get("clone"): d.append("Clone")
        if m.get("copy"): d.append("Copy")
        if m.get("default"): d.append("Default")
        if m.get("key"): d += ["PartialEq", "Eq", "Hash", "PartialOrd", "Ord"]
        d += ["Readable", "Writable"]
        self.r.shuffle(d)
        return f"#[derive({', '.join(d)})]"
    def regflags(self, m, extra=""):
        f = ["DERIVED"]
        if m.get("borrow"): f.append("BORROW")
        if m.get("eofs"): f.append("EOFSENS")
        if m.get("nonuniq"): f += ["NONUNIQUE", "COLLECTION"]
        if m.get("zst"): f.append("ZST")
        return " | ".join(f)

    # ---- definitions -------------------------------------------------------------------------
    def struct(self, fs, named, repr=None, attr=None, register=True, user=True, wrap=True):
        name = f"S{self.n}"; self.n += 1
        m = self.flags_of(fs)
        if repr == "packed": m["copy"] = 1
        lt = "<'a>" if m.get("lt") else ""
        mins = [self.f_min(f) for f in fs]
        mn = sum(x[0] for x in mins)
        o = self.out
        o.append(self.derives(m))
        if repr: o.append(f"#[repr({repr})]")
        if attr: o.append(f"#[speedy({attr})]")
        if not fs and not named: o.append(f"pub struct {name};")
        elif named: o.append(f"pub struct {name}{lt} {{ " + ", ".join(self.decl(f, "pub ") for f in fs) + " }")
        else: o.append(f"pub struct {name}{lt}(" + ", ".join(self.decl(f, "pub ") for f in fs) + ");")
        st = name + ("<'static>" if lt else "")
        pat, _ = self.shape(fs, named)
        tup = ", ".join("&" + self.v(f) for f in fs); tv = ", ".join(self.v(f) for f in fs)
        des = f"let {name}{pat} = *self; let ({tv},) = ({tup},);" if repr == "packed" and fs else (f"let {name}{pat} = self;" if fs else "")
        o.append(f"impl M for {st} {{ const MIN: usize = 0{''.join(' + ' + x[1] for x in mins)};")
        o.append(f"  fn gen(s: &mut Src) -> Self {{ s.nested({max(1, len(fs))}, |s| {{ {' '.join(self.c_gen(f) for f in fs)} {name}{pat} }}) }}")
        o.append(f"  fn enc(&self, o: &mut Out) {{ {des} {' '.join(self.c_enc(f) for f in fs)} }}")
        o.append(f"  fn dec(i: &mut In) -> Result<Self, DE> {{ {' '.join(self.c_dec(f) for f in fs)} Ok({name}{pat}) }} }}")
        t = T(name + lt, mn, **{k: v for k, v in m.items()})
        if register: self.register(t, m, wrap)
        if user: self.users.append(t)
        return t
    def register(self, t, m, wrap=True):
        r = self.r
        self.reg.append((t.st, self.regflags(m)))
        if not wrap or m.get("rest"): return
        k = r.randrange(8)
        m2 = dict(m)
        if t.min == 0: m2["zst"] = 1
        w = None
        if k == 0: w = f"Vec<{t.st}>"
        elif k == 1: w = f"[{t.st}; {r.choice([2, 3])}]"
        elif k == 2: w = f"Box<[{t.st}]>"
        elif k == 3: w = f"Option<{t.st}>"; m2["nonuniq"] = 1
        elif k == 4 and m.get("clone"): w = f"Cow<'static, [{t.st}]>"
        elif k == 5: w = f"({t.st}, u16)"
        if m.get("eofs") and k in (0, 2, 4): return   # a container of elements that vanish at the end of input
        if w: self.reg.append((w, self.regflags(m2)))
    def random_struct(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        named = r.random() < 0.7
        x = r.random()
        if x < 0.25: return self.layout_struct()
        if x < 0.33: return self.generic_struct()
        fs = self.fields(n, named)
        if n and r.random() < 0.35:
            # a count field early on makes length expressions possible
            fs2 = self.fields(n + 1, named, first=dict(t=T(*r.choice([("u8", 1), ("u16", 2), ("u32", 4)]), default=1, copy=1, clone=1, key=1, prim=1)), attr=0.6)
            fs = fs2
        self.struct(fs, named)
    def layout_struct(self, attr=0.12, n=None):
        """Plain-data structs with layout attributes: the candidates for bulk copying."""
        r = self.r
        n = n if n is not None else r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5])
        named = r.random() < 0.7
        rep = r.choice([None, None, "C", "packed", "transparent"])
        def typ():
            us = [u for u in self.users if u.has("prim_struct")]
            k = r.randrange(10)
            if k < 2 and us: return r.choice(us[-12:])
            if k == 2:
                e = r.choice(us[-8:]) if us and r.random() < 0.4 else self.prim()
                c = r.choice([0, 1, 2, 3, 4, 8])
                return T(f"[{e.rs}; {c}]", e.min * c, **self.merge([e]))
            if k == 3: return T("()", 0, default=1, copy=1, clone=1, key=1)
            if k == 4: return T(*r.choice([("bool", 1), ("char", 4), ("usize", 8)]), default=1, copy=1, clone=1, key=1, nonuniq=1)
            return self.prim()
        if rep == "transparent":
            n = 1
        if rep == "transparent" and n != 1: rep = None
        same = r.random() < 0.5
        base = self.prim()
        fs = self.fields(n, named, last_ok=False, typ=(lambda: T(base.rs, base.min, default=1, copy=1, clone=1, key=base.has("key"), prim=1) if same and r.random() < 0.8 else typ()), attr=0)
        for i, f in enumerate(fs):
            if r.random() < attr:
                k = r.randrange(4)
                if k == 0: f["mode"] = "skip"; f["attrs"] = ["skip"]
                elif k == 1: f["t"] = T("u64", 8, default=1, copy=1, clone=1, key=1); f["mode"] = "varint"; f["attrs"] = ["varint"]
                elif k == 2: self.prefix(f)
                elif i == len(fs) - 1: f["doe"] = True; f["attrs"] = ["default_on_eof"]
        a = None
        if rep == "C" and n and all(f["t"].rs == fs[0]["t"].rs and f["t"].has("prim") and f["mode"] == "plain" and not f["attrs"] for f in fs) and r.random() < 0.5: a = "unsafe_is_primitive = always"
        t = self.struct(fs, named, repr=rep, attr=a)
        t.fl.add("prim_struct")
        if not t.has("eofs"): self.bulk.append(t)
        return t
    def grouped_struct(self):
        """A struct without padding whose fields come in runs of the same size, so that the compiler moves whole runs about."""
        r = self.r
        by = {}
        for n, w in PRIMS: by.setdefault(w, []).append(n)
        while True:
            sizes = [r.choice([1, 2, 4, 8, 16])] * r.choice([1, 2, 2, 3, 4])
            for _ in range(r.choice([1, 1, 2])): sizes += [r.choice([1, 2, 4, 8, 16])] * r.choice([1, 2, 2, 3])
            if len(sizes) <= 8 and sum(sizes) % max(sizes) == 0 and len(set(sizes)) > 1 and (sizes != sorted(sizes, reverse=True) or r.random() < 0.1): break
        named = r.random() < 0.7
        it = iter(sizes)
        def typ():
            w = next(it); n = r.choice(by[w])
            return T(n, w, default=1, copy=1, clone=1, key=n[0] != "f", prim=1)
        fs = self.fields(len(sizes), named, last_ok=False, typ=typ, attr=0)
        t = self.struct(fs, named, repr=r.choice([None, None, None, "C"]))
        t.fl.add("prim_struct")
        self.bulk.append(t)
        return t
    def generic_struct(self):
        """A struct with type parameters, registered at a few instances."""
        r = self.r
        name = f"S{self.n}"; self.n += 1
        two = r.random() < 0.4
        ps = ["X", "Y"][: 2 if two else 1]
        named = r.random() < 0.7
        n = r.choice([1, 2, 2, 3, 4])
        def typ():
            p = r.choice(ps)
            k = r.randrange(9)
            if k < 3: return T(p, 0, gen=1)
            if k == 3: return T(f"Vec<{p}>", 4, gen=1, zst=1, default=1, cont="Vec", item_min=0)
            if k == 4: return T(f"Option<{p}>", 1, gen=1, default=1, nonuniq=1)
            if k == 5: return T(f"[{p}; 2]", 0, gen=1)
            if k == 6: return T(f"({p}, u8)", 1, gen=1)
            if k == 7: return T(f"Box<{p}>", 0, gen=1)
            return self.prim()
        fs = self.fields(n, named, last_ok=False, typ=typ, attr=0)
        for f in fs:
            if f["t"].cont and r.random() < 0.5: f["mode"] = "lt"; f["lt"] = r.choice(LENS); f["attrs"] = [f"length_type = {f['lt']}"]
        # every parameter must be used
        txt = " ".join(f["t"].rs for f in fs)
        for p in ps:
            if p not in txt.replace("Box", "").replace("Option", ""):
                fs[-1 if p == "X" else 0].update(t=T(p, 0, gen=1), mode="plain", attrs=[], lt=None)
        txt = " ".join(f["t"].rs for f in fs)
        ps = [p for p in ps if p in txt.replace("Box", "").replace("Option", "")]
        rep = r.choice([None, None, None, "C"])
        mins = [self.f_min(f) for f in fs]
        pat, _ = self.shape(fs, named)
        o = self.out
        g = ", ".join(ps)
        o.append("#[derive(Clone, Readable, Writable)]")
        if rep: o.append(f"#[repr({rep})]")
        if named: o.append(f"pub struct {name}<{g}> {{ " + ", ".join(self.decl(f, "pub ") for f in fs) + " }")
        else: o.append(f"pub struct {name}<{g}>(" + ", ".join(self.decl(f, "pub ") for f in fs) + ");")
        o.append(f"impl<{', '.join(p + ': M' for p in ps)}> M for {name}<{g}> {{ const MIN: usize = 0{''.join(' + ' + x[1] for x in mins)};")
        o.append(f"  fn gen(s: &mut Src) -> Self {{ s.nested({max(1, len(fs))}, |s| {{ {' '.join(self.c_gen(f) for f in fs)} {name}{pat} }}) }}")
        o.append(f"  fn enc(&self, o: &mut Out) {{ let {name}{pat} = self; {' '.join(self.c_enc(f) for f in fs)} }}")
        o.append(f"  fn dec(i: &mut In) -> Result<Self, DE> {{ {' '.join(self.c_dec(f) for f in fs)} Ok({name}{pat}) }} }}")
        insts = []
        for _ in range(2):
            args = []
            for p in ps:
                us = [u for u in self.users if u.has("clone") and not (u.has("lt") or u.has("eofs") or u.has("borrow") or u.has("gen"))]
                c = [T("u8", 1, clone=1), T("u16", 2, clone=1), T("u64", 8, clone=1), T("String", 4, clone=1), T("(u8, u32)", 5, clone=1), T("Option<u8>", 1, clone=1, nonuniq=1)] + us[-4:]
                args.append(r.choice(c))
            txt = f"{name}<{', '.join(a.rs for a in args)}>"
            mn = sum(m for m, _ in mins)
            for f in fs:
                if f["mode"] == "plain":
                    for p, a in zip(ps, args):
                        if f["t"].rs == p: mn += a.min
            m = dict(clone=1, nonuniq=1, eofs=0, zst=any(f["t"].has("zst") or a.has("zst") for f in fs for a in args))
            t = T(txt, mn, **m)
            if txt in insts: continue
            insts.append(txt)
            self.reg.append((txt, self.regflags(m)))
            zm = dict(m); zm["zst"] = zm["zst"] or mn == 0
            self.reg.append((f"Vec<{txt}>", self.regflags(zm)))
            self.users.append(t)
    def enum(self, tag_type=None, peek=None, unit_only=None, nv=None):
        r = self.r
        name = f"S{self.n}"; self.n += 1
        tt = tag_type if tag_type is not None else r.choice([None, None] + LENS)
        real = tt or "u32"
        peek = (r.random() < 0.2) if peek is None else peek
        unit = (r.random() < 0.25 and not peek) if unit_only is None else unit_only
        n = nv or r.choice([1, 2, 2, 3, 4, 5, 8])
        top = {"u7": 127, "u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "u64_varint": 2**64 - 1}[real]
        style = r.choice(["auto", "attr", "mixed", "disc"]) if unit else r.choice(["auto", "attr", "mixed"])
        while True:
            tags, descr, prev, rprev, rtags = [], [], -1, -1, []
            for i in range(n):
                how = {"auto": "auto", "attr": "attr", "disc": r.choice(["disc", "auto"]), "mixed": r.choice(["auto", "attr"] + (["disc"] if unit else []))}[style]
                v = r.choice([r.randrange(0, min(top, 300) + 1), r.randrange(0, 6), top - r.randrange(3), r.randrange(0, top + 1), min(top, r.choice([127, 128, 255, 256, 65535, 65536]))])
                if how == "disc": v = min(v, 2**62); rv = v
                else: rv = rprev + 1
                if how == "auto": v = prev + 1
                tags.append(v); descr.append(how); rtags.append(rv)
                prev, rprev = v, rv
            if len(set(tags)) == n and max(tags) <= top and len(set(rtags)) == n and max(rtags) < 2**63: break
        vs = []
        for i in range(n):
            shape = "unit" if unit else r.choice(["unit", "tuple", "tuple", "named", "named"])
            if peek and shape == "unit": shape = "tuple"
            k = 0 if shape == "unit" else r.choice([1, 1, 2, 3])
            first = None
            if peek:
                w = {"u7": "u8", "u64_varint": "u64"}.get(real, real)
                first = dict(t=T(w, LEN_MIN[real], default=1, copy=1, clone=1, key=1), fixed=f"{tags[i]}u64", attrs=[], mode="plain")
                if real == "u64_varint": first.update(mode="varint", attrs=["varint"])
            if shape == "tuple" and k == 0: k = 1
            fs = self.fields(k, shape == "named", last_ok=False, first=first, attr=0.3)
            vs.append((shape, fs))
        allf = [f for _, fs in vs for f in fs]
        m = self.flags_of(allf)
        m["default"] = False
        if real == "u64_varint": m["nonuniq"] = True
        lt = "<'a>" if m.get("lt") else ""
        st = name + ("<'static>" if lt else "")
        o = self.out
        o.append(self.derives(m))
        at = []
        if tt: at.append(f"tag_type = {tt}")
        if peek: at.append("peek_tag")
        r.shuffle(at)
        if at: o.append(f"#[speedy({', '.join(at)})]")
        body = []
        for i, (shape, fs) in enumerate(vs):
            a = f"#[speedy(tag = {tags[i]})] " if descr[i] == "attr" else ""
            d = f" = {tags[i]}" if descr[i] == "disc" else ""
            if shape == "unit": b = f"V{i}"
            elif shape == "tuple": b = f"V{i}(" + ", ".join(self.decl(f) for f in fs) + ")"
            else: b = f"V{i} {{ " + ", ".join(self.decl(f) for f in fs) + " }"
            body.append(a + b + d)
        o.append("#[allow(dead_code)]" if False else "")
        o.append(f"pub enum {name}{lt} {{ " + ", ".join(body) + " }")
        T0 = LEN_RS[real]
        vm = [sum(self.f_min(f)[0] for f in fs) for _, fs in vs]
        mn = (0 if peek else LEN_MIN[real]) + min(vm)
        minx = " , ".join("0" + "".join(" + " + self.f_min(f)[1] for f in fs) for _, fs in vs)
        o.append(f"impl M for {st} {{ const MIN: usize = {0 if peek else LEN_MIN[real]} + min_of(&[{minx}]);")
        o.append(f"  fn gen(s: &mut Src) -> Self {{ let k = s.usize_below({n}); {name}_variant(s, k) }}")
        o.append("  fn enc(&self, o: &mut Out) { match self {")
        for i, (shape, fs) in enumerate(vs):
            pat, _ = self.shape(fs, shape == "named")
            tg = f"if o.canon {{ o.u64({tags[i]}) }}" if peek else f"tag(o, {tags[i]}, {T0});"
            o.append(f"    {name}::V{i}{pat} => {{ {tg} {' '.join(self.c_enc(f) for f in fs)} }}")
        o.append("  } }")
        o.append(f"  fn dec(i: &mut In) -> Result<Self, DE> {{ match {'peek' if peek else 'untag'}(i, {T0})? {{")
        for i, (shape, fs) in enumerate(vs):
            pat, _ = self.shape(fs, shape == "named")
            o.append(f"    {tags[i]} => {{ {' '.join(self.c_dec(f) for f in fs)} Ok({name}::V{i}{pat}) }}")
        o.append("    _ => Err(DE::Bad) } } }")
        o.append(f"fn {name}_variant(s: &mut Src, k: usize) -> {st} {{ s.nested(3, |s| match k {{")
        for i, (shape, fs) in enumerate(vs):
            pat, _ = self.shape(fs, shape == "named")
            o.append(f"    {i if i < n - 1 else '_'} => {{ {' '.join(self.c_gen(f) for f in fs)} {name}::V{i}{pat} }}")
        o.append("  }) }")
        t = T(name + lt, mn, **m)
        self.register(t, m)
        if not m.get("rest"): self.users.append(t)
        self.enums.append((st, name, tags, T0, peek))
        return t

    # ---- profiles ----------------------------------------------------------------------------
    KINDS = ["String", "Vec", "CowStr", "CowSlice", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "CowHashMap", "CowHashSet", "CowBTreeMap", "CowBTreeSet", "RefStr", "RefU8"]
    def fld(self, name, i, t, mode="plain", **k):
        f = dict(name=name, var=name, i=i, doe=False, pre=None, mode=mode, lt=None, attrs=[], count=None, t=t)
        f.update(k)
        if f["lt"]: f["attrs"] = f["attrs"] + [f"length_type = {f['lt']}"]
        return f
    def profile_lengths(self, count):
        """Every container kind x every length width, plain and optional; length expressions; until the end."""
        r = self.r
        u8, u16 = T("u8", 1, default=1, copy=1, clone=1, key=1), T("u16", 2, default=1, copy=1, clone=1, key=1)
        def wrap_opt(c):
            m = self.merge([c]); m.update(default=1, nonuniq=1)
            return T(f"Option<{c.rs}>", 1, **m)
        for kind in self.KINDS:
            for lt in LENS:
                a, b = self.cont(2, kind), self.cont(2, kind)
                fs = [self.fld("a", 0, a, "lt", lt=lt), self.fld("b", 1, wrap_opt(b), "opt", lt=lt, inner=b), self.fld("c", 2, u16)]
                if r.random() < 0.5: fs = [self.fld("z", 0, u8)] + fs
                if r.random() < 0.25: fs = fs[:-2]
                self.struct(fs, True, user=False, wrap=r.random() < 0.2)
            for ct in [("u8", 1), ("u32", 4), ("u16", 2), ("usize", 8)]:
                n = self.fld("n", 0, T(*ct, default=1, copy=1, clone=1, key=1), "count")
                k = self.fld("k", 1, T(*ct, default=1, copy=1, clone=1, key=1), "count")
                c = self.cont(2, kind); c2 = self.cont(2, kind)
                e1 = r.choice(["{0}", "{0}", "{0} / 2", "{0} % 10"])
                e2 = r.choice(["{0}", "{0} ^ {1}", "{0} & 15", "{0} >> 1", "{0} | 1"])
                fs = [n, k, self.fld("a", 2, c, "n", expr=(e1, [n]), attrs=["length = " + e1.format("n")]),
                      self.fld("b", 3, c2, "n", expr=(e2, [k, n]), attrs=["length = " + e2.format("k", "n")]), self.fld("c", 4, u16)]
                self.struct(fs, True, user=False, wrap=False)
            for _ in range(2):
                c = self.cont(2, kind)
                if c.item_min == 0: continue
                self.struct([self.fld("h", 0, u8), self.fld("a", 1, c, "end", attrs=["length = .."])], True, user=False, wrap=False)
                if r.random() < 0.5: self.struct([self.fld("0", 0, c, "end", attrs=["length = .."], var="t0")], False, user=False, wrap=False)
        for _ in range(count): self.struct(self.fields(r.choice([2, 3, 4]), r.random() < 0.7, attr=0.8, first=dict(t=T(*r.choice([("u8", 1), ("u16", 2)]), default=1, copy=1, clone=1, key=1, prim=1))), True if False else r.random() < 2, user=False) if False else self.random_struct()
    def profile_enums(self, count):
        for _ in range(4): self.layout_struct()
        for tt in [None] + LENS:
            for peek in (False, True):
                for _ in range(3): self.enum(tag_type=tt, peek=peek, nv=self.r.choice([1, 2, 3, 5, 9]))
        for tt in LENS: self.enum(tag_type=tt, peek=False, unit_only=True, nv=self.r.choice([3, 6, 20]))
        for _ in range(count): self.enum()
    def profile_attrs(self, count):
        """default_on_eof, skip, constant_prefix on every kind of field."""
        r = self.r
        for _ in range(5): self.layout_struct(attr=0)
        self.struct(self.fields(2, True, attr=0, last_ok=False), True)
        def some():
            return r.choice([self.prim, lambda: self.cont(2), lambda: self.ty()])()
        def clean():
            while True:
                t = some()
                if t.has("default") and not t.has("rest") and not t.has("eofs"): return t
        for kind in self.KINDS + [None] * 14:
            for mode in ("doe", "doe2", "skip", "pre", "mix"):
                fs = []
                def add(t, **k): fs.append(self.fld("f%d" % len(fs), len(fs), t, k.pop("mode", "plain"), **k)); return fs[-1]
                t = self.cont(2, kind) if kind else clean()
                add(T("u8", 1, default=1, copy=1, clone=1, key=1, prim=1))
                def with_lt(f):
                    if f["t"].cont and f["mode"] == "plain" and r.random() < 0.5:
                        f["mode"] = "lt"; f["lt"] = r.choice(LENS); f["attrs"].append(f"length_type = {f['lt']}")
                if mode == "doe":
                    f = add(t, doe=True, attrs=["default_on_eof"]); with_lt(f)
                    if r.random() < 0.4: self.prefix(f)
                    elif f["mode"] == "plain" and t.cont and r.random() < 0.3:
                        n = fs[0]; n["mode"] = "count"; f["mode"] = "n"; f["expr"] = ("{0}", [n]); f["attrs"].append("length = f0")
                elif mode == "doe2":
                    f = add(t, doe=True, attrs=["default_on_eof"]); with_lt(f)
                    f = add(clean(), doe=True, attrs=["default_on_eof"]); with_lt(f)
                    if r.random() < 0.4: self.prefix(f)
                    if r.random() < 0.5: add(T("u64", 8, default=1, copy=1, clone=1, key=1), mode="varint", doe=True, attrs=["varint", "default_on_eof"])
                elif mode == "skip":
                    add(t, mode="skip", attrs=["skip"] + (["default_on_eof"] if r.random() < 0.2 else [])); add(clean())
                    if r.random() < 0.5: add(clean(), mode="skip", attrs=["skip"])
                elif mode == "pre":
                    f = add(t); with_lt(f); self.prefix(f)
                    f = add(clean()); self.prefix(f)
                else:
                    f = add(t); with_lt(f)
                    if r.random() < 0.5: self.prefix(f)
                    add(clean(), mode="skip", attrs=["skip"])
                    f = add(clean(), doe=True, attrs=["default_on_eof"]); with_lt(f)
                    if r.random() < 0.5: self.prefix(f)
                r.shuffle(f["attrs"])
                self.struct(fs, True, user=False, wrap=r.random() < 0.15)
        for _ in range(count): self.random_struct()
    def profile_layout(self, count):
        r = self.r
        for n in (1, 2, 3, 4):
            for _ in range(3): self.layout_struct(attr=0, n=n)
        for _ in range(24): self.grouped_struct()
        for i in range(count):
            if i % 7 == 6: self.enum(tag_type=r.choice(["u8", "u16", None]), peek=False, unit_only=r.random() < 0.7)
            elif i % 11 == 10: self.generic_struct()
            else: self.layout_struct(attr=r.choice([0, 0, 0, 0.3]))
    def profile_reg(self, count):
        """A bit of everything, for the checks that look at streams, faults and hostile bytes."""
        r = self.r
        for _ in range(5): self.layout_struct(attr=0)
        for _ in range(3): self.grouped_struct()
        for tt in LENS: self.enum(tag_type=tt, peek=True, nv=r.choice([2, 3, 4]))
        for tt in LENS: self.enum(tag_type=tt, peek=False)
        small = lambda: T("u16", 2, default=1, copy=1, clone=1, key=1)
        for kind in self.KINDS[:4] + [None]:
            for lt in LENS:
                a = self.cont(2, kind)
                if a.item_min == 0: continue
                self.struct([self.fld("a", 0, a, "lt", lt=lt), self.fld("b", 1, small())], True, wrap=r.random() < 0.3)
        for w, e in [("u64", "u64"), ("u64", "u32"), ("u64", "u128"), ("u64", "u16"), ("u64_varint", "u32"), ("u64_varint", "u64"), ("u64_varint", "(u8, u16)"), ("u64", "[u16; 5]"), ("u64", "String"), ("u64_varint", "(u32, u64)")]:
            mn = {"u64": 8, "u32": 4, "u128": 16, "u16": 2, "(u8, u16)": 3, "[u16; 5]": 10, "String": 4, "(u32, u64)": 12}[e]
            c = T(f"Vec<{e}>", 4, default=1, clone=1, cont="Vec", item_min=mn)
            self.struct([self.fld("a", 0, c, "lt", lt=w)], True, user=False, wrap=False)
        for kind in self.KINDS[:2]:
            n = self.fld("n", 0, T("usize", 8, default=1, copy=1, clone=1, key=1), "count")
            c = self.cont(2, kind)
            self.struct([n, self.fld("a", 1, c, "n", expr=("{0}", [n]), attrs=["length = n"]), self.fld("b", 2, small())], True, user=False, wrap=False)
            while c.item_min == 0: c = self.cont(2, kind)
            self.struct([self.fld("h", 0, small()), self.fld("a", 1, c, "end", attrs=["length = .."])], True, user=False, wrap=False)
        self.struct([self.fld("v", 0, T("u64", 8, default=1, copy=1, clone=1, key=1), "varint", attrs=["varint"]), self.fld("w", 1, small())], True)
        for _ in range(count): self.random_struct() if r.random() < 0.8 else self.enum()
    def profile_all(self, count):
        r = self.r
        for i in range(count):
            if r.random() < 0.25: self.enum()
            else: self.random_struct()
    def run(self, count):
        {"lengths": self.profile_lengths, "enums": self.profile_enums, "attrs": self.profile_attrs, "layout": self.profile_layout, "reg": self.profile_reg}.get(self.profile, self.profile_all)(count)
        o = []
        o.append(f"// Generated by tools/gen_derive.py: profile {self.profile}. Do not edit.")
        o.append("#![allow(warnings, clippy::all)]")
        o.append("use model::codec::{In, Len, Out, DE, M};\nuse model::dty::*;\nuse model::flags::*;\nuse model::{Ty, ty::ty};\nuse pbt::Src;\nuse speedy::{Readable, Writable};\nuse std::borrow::Cow;\nuse std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};")
        o.append("const fn min_of(v: &[usize]) -> usize { let mut m = v[0]; let mut i = 1; while i < v.len() { if v[i] < m { m = v[i]; } i += 1; } m }")
        o += [x for x in self.out if x]
        o.append("pub fn types() -> Vec<Ty> { let mut v = Vec::new();")
        seen = set()
        for t, f in self.reg:
            if t in seen: continue
            seen.add(t)
            o.append(f'  v.push(ty::<{t}>("{t}", {f}));')
        o.append("  v }")
        if self.profile == "layout":
            o.append("pub fn bulks() -> Vec<model::bulk::Bulk> { vec![")
            for t in self.bulk: o.append(f'  model::bulk::bulk::<{t.st}>("{t.st}", {"true" if t.min == 0 else "false"}),')
            o.append("] }")
        if self.profile == "enums":
            o.append("pub fn enums() -> Vec<model::props::EnumRec> { vec![")
            for st, name, tags, lt, peek in self.enums:
                o.append(f'  model::props::EnumRec {{ ty: types().into_iter().find(|t| t.name == "{st}").unwrap(), tags: &{tags}, lt: {lt}, peek: {str(peek).lower()}, variant: |s, k| Box::new({name}_variant(s, k)) }},')
            o.append("] }")
        return "\n".join(o) + "\n"


if __name__ == "__main__":
    prof, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    text = Gen(seed, prof).run(count)
    open(out, "w").write(text)
