"""C26 and C28: programs the crate has to refuse at compile time, and their neighbours it has to accept.

Definitions and programs are generated at random from a grammar, an oracle working on their structure (never on the
crate) says which must be refused, and the compiler says which are. A program which is wrongly accepted (or wrongly
refused) is made smaller while the oracle and the compiler go on disagreeing."""
import hashlib, json, os, random, shutil, subprocess, sys, time

U64 = (1 << 64) - 1
HEAD = "#![allow(warnings)]\nuse speedy::{BigEndian, Context, Endianness, Error, LittleEndian, Readable, Reader, Writable, Writer};\n"

class Compiler:
    """Type-checks many small modules at once and says which of them the compiler refuses."""
    def __init__(self, root, id, feats=""):
        self.dir = os.path.join(root, "target", "compile", id.lower())
        self.target = os.path.join(root, "target", "compile", "t-" + id.lower())
        os.makedirs(os.path.join(self.dir, "src"), exist_ok=True)
        lock = os.path.join(root, "harness", "Cargo.lock")
        shutil.copyfile(lock, os.path.join(self.dir, "Cargo.lock"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "refusals_{id.lower()}"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nspeedy = {{ path = "/repo" }}\n[profile.dev]\ndebug = 0\nincremental = false\n')
        self.runs = 0
    def once(self, mods):
        """mods: list of texts; the indices refused with a first message each, and whether all of it was accepted."""
        text = HEAD; spans = []
        for i, m in enumerate(mods):
            a = text.count("\n") + 1
            text += f"mod m{i} {{ use super::*;\n{m}\n}}\n"
            spans.append((a, text.count("\n")))
        with open(os.path.join(self.dir, "src", "lib.rs"), "w") as f: f.write(text)
        env = dict(os.environ, CARGO_TARGET_DIR=self.target)
        self.runs += 1
        p = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format=json"], cwd=self.dir, env=env, capture_output=True, text=True)
        starts = [a for a, _ in spans]
        import bisect
        bad = {}; lost = []
        for l in p.stdout.splitlines():
            if not l.startswith("{"): continue
            d = json.loads(l)
            if d.get("reason") != "compiler-message": continue
            m = d["message"]
            if m.get("level") not in ("error", "error: internal compiler error"): continue
            if not d.get("target", {}).get("name", "").startswith("refusals"):
                raise BuildError(m.get("rendered") or m["message"])
            hit = False
            for sp in m["spans"]:
                while sp.get("expansion") and not sp["file_name"].endswith("src/lib.rs"): sp = sp["expansion"]["span"]
                if sp["file_name"] != "src/lib.rs": continue
                k = bisect.bisect_right(starts, sp["line_start"]) - 1
                if k >= 0 and sp["line_start"] <= spans[k][1] and (sp["is_primary"] or len(m["spans"]) == 1):
                    bad.setdefault(k, (m.get("code") or {}).get("code") or m["message"].splitlines()[0]); hit = True
            if not hit and m["spans"]: lost.append(m.get("rendered") or m["message"])
        if p.returncode != 0 and not bad: raise BuildError((lost or [p.stderr or p.stdout])[0])
        return bad, p.returncode == 0
    def refused(self, mods):
        """As `once`, repeated without what was refused until the rest passes: an error in one phase hides those of later ones."""
        left = list(range(len(mods))); out = {}
        while left:
            bad, ok = self.once([mods[i] for i in left])
            for k, why in bad.items(): out[left[k]] = why
            if ok: break
            left = [x for k, x in enumerate(left) if k not in bad]
        return out
class BuildError(Exception): pass

# ------------------------------------------------------------------ C26
LENS = ["Vec<u8>", "Vec<u16>", "Vec<String>", "Vec<(u8, u32)>", "String", "std_HashMap<u8, u16>", "std_HashSet<u32>", "std_BTreeMap<String, u8>", "std_BTreeSet<i16>",
        "std_Cow<'a, str>", "std_Cow<'a, [u8]>", "std_Cow<'a, [u64]>", "std_Cow<'a, std_BTreeMap<u8, u8>>", "std_Cow<'a, std_HashSet<u8>>", "&'a [u8]", "&'a str"]
INTS = ["u8", "u16", "u32", "usize_"]
PRIMS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64"]
NOLEN = PRIMS + ["bool", "char", "[u8; 4]", "[u16; 2]", "(u8, u16)", "Box<[u8]>", "Option<u8>", "Option<u64>", "Option<[u8; 2]>", "Inner", "Option<Inner>", "std::ops::Range<u8>", "()", "Box<str>", "Box<u64>"]
MAXES = {"u7": 127, "u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "u64": U64, "u64_varint": U64}
GOOD_CONST = ['"abc"', 'b"\\x00\\xff"', "b'x'", "'ż'", "true", "false", "5u8", "0u8", "255u8", "-5i8", "-128i8", "-1i8", '""', 'b""', "0xffu8"]
BAD_CONST = ["5", "500", "0", "5u16", "5u32", "1.5", "-5", "-5i16", "-129i8", "-200i8", "-5u8", "256u8", "300u8", "FOO", "1 + 1", "-1.5", "-true", "[1u8, 2u8]", "5u128", "-255i8", "(1u8, 2u8)", "&[1u8]", "foo()"]
BAD_TYPE = ["u128", "i8", "i32", "bool", "usize", "5", "u24", "Vec<u8>", "f32", '"u8"', "u6", "u64_varint_", "U8", "u32_varint"]
# not attributes of the place at all
BAD_FIELD_ATTR = ["tag = 5", "tag_type = u8", "peek_tag", "unsafe_is_primitive = always", "lenght = 3u8", "unknown", "skip_", "default", "constant_prefix", "length", "length_type", "skip = true", "default_on_eof = 5", "varint = u64", "length 3u8", "length_type u8", "Skip", "constant_prefix = ", "length = "]
BAD_ENUM_ATTR = ["tag = 5", "skip", "varint", "length_type = u8", "tag_type", "tag_type = ", "peek_tag = u8", "unsafe_is_primitive = always", "tagtype = u8", "unknown", "tag_type u8"]
BAD_STRUCT_ATTR = ["tag = 5", "tag_type = u8", "peek_tag", "skip", "varint", "length_type = u8", "unsafe_is_primitive", "unsafe_is_primitive = never", "unsafe_is_primitive = true", "is_primitive = always", "unknown", "unsafe_is_primitive always"]
BAD_VARIANT_ATTR = ["tag_type = u8", "peek_tag", "skip", "length_type = u8", "tag", "tag = ", "tag = -1", "tag = 1.5", 'tag = "5"', "tag = FOO", "tag = 1 + 1", "tag = true", "unknown", "tags = 5", "default_on_eof", "tag 5", "tag = b'x'", "tag = (5)"]

DISC = {"1 + 1": 2, "FOO": 7, "7 * 1": 7, "0 + 5": 5, "(5)": 5, "{ 9 }": 9}

def rust_ty(t):
    t = t.replace("usize_", "u32")
    for k in ["HashMap", "HashSet", "BTreeMap", "BTreeSet"]: t = t.replace("std_" + k, "std::collections::" + k).replace("std::collections::" + k, k)
    return t.replace("std_Cow", "Cow")
def num(r, v):
    if v < 0: return str(v)
    k = r.randrange(6)
    return hex(v) if k == 0 else f"{v:_}" if k == 1 else bin(v) if k == 2 and v < 1 << 16 else oct(v) if k == 3 and v < 1 << 32 else str(v)

class Field:
    def __init__(self, ty): self.ty = ty; self.attrs = []
    def keys(self): return [k for k, _ in self.attrs]
    def get(self, k): return next((v for q, v in self.attrs if q == k), None)
class Variant:
    def __init__(self): self.kind = "unit"; self.fields = []; self.tags = []; self.bad = []; self.disc = None
class Def:
    """A struct (one variant), an enum, or a union."""
    def __init__(self): self.what = "struct"; self.variants = []; self.attrs = []; self.bad = []; self.derive = "Readable, Writable"; self.layout = 0

    # what has to be refused, by the documentation
    def reasons(self):
        R = []
        if self.what == "union": return ["a union"]
        if self.bad: R.append("an attribute that does not belong on the type: " + self.bad[0])
        for k in {k for k, _ in self.attrs}:
            if [q for q, _ in self.attrs].count(k) > 1: R.append(f"'{k}' twice")
        tt = dict(self.attrs).get("tag_type")
        if self.what == "enum":
            if tt is not None and tt not in MAXES: R.append(f"no such tag type: {tt}")
            mx = MAXES.get(tt, MAXES["u32"]); prev = None; seen = {}
            for i, v in enumerate(self.variants):
                if v.bad: R.append("an attribute that does not belong on the variant: " + v.bad[0])
                if len(v.tags) > 1: R.append("'tag' twice on a variant")
                if v.tags: t = v.tags[0]
                elif v.disc is not None:
                    if isinstance(v.disc, str): R.append(f"a discriminant of unknown value: {v.disc}"); t = None
                    elif v.disc < 0: R.append(f"a negative discriminant: {v.disc}"); t = None
                    else: t = v.disc
                else: t = 0 if i == 0 else None if prev is None else prev + 1
                if t is not None:
                    if t > mx: R.append(f"the tag {t} of variant {i} does not fit {tt or 'u32'}")
                    if t in seen: R.append(f"variants {seen[t]} and {i} have the same tag {t}")
                    seen.setdefault(t, i)
                prev = t
        for v in self.variants:
            ended = False
            for i, f in enumerate(v.fields):
                if ended: R.append("a field after one that takes the rest of the input")
                keys = f.keys()
                for k in ("length", "length_type", "default_on_eof", "constant_prefix"):
                    if keys.count(k) > 1: R.append(f"'{k}' twice on a field")
                if "length" in keys and "length_type" in keys: R.append("'length' and 'length_type' on a field")
                opt = f.ty.startswith("Option<")
                inner = f.ty[7:-1] if opt else f.ty
                if "length" in keys and (opt or inner not in LENS): R.append(f"'length' on {f.ty}")
                if "length_type" in keys and inner not in LENS: R.append(f"'length_type' on {f.ty}")
                if "varint" in keys and f.ty != "u64": R.append(f"'varint' on {f.ty}")
                for k, x in f.attrs:
                    if k == "length_type" and x not in MAXES: R.append(f"no such length type: {x}")
                    if k == "constant_prefix" and x in BAD_CONST: R.append(f"no constant: {x}")
                    if k == "bad": R.append("an attribute that does not belong on the field: " + x)
                    if k == "length" and x == "..": ended = True
        return R
    def rust_refuses(self):
        """Whether the language itself has something against it (so that nothing can be said)."""
        if self.what != "enum": return False
        ds = []; p = None
        if any(v.disc is not None for v in self.variants):
            lo, hi = (-(1 << 63), (1 << 63) - 1) if self.signed() else (0, U64)
            if self.signed() and any(v.disc == "FOO" for v in self.variants): return True
            for v in self.variants:
                d = DISC[v.disc] if isinstance(v.disc, str) else v.disc if v.disc is not None else 0 if p is None else p + 1
                if d in ds or d < lo or d > hi: return True
                ds.append(d); p = d
        return False
    def signed(self): return any(isinstance(v.disc, int) and v.disc < 0 for v in self.variants)

    def render(self):
        r = random.Random(self.layout)
        def attrs(l):
            l = list(l); r.shuffle(l); s = ""
            while l:
                k = r.randint(1, len(l)); part, l = l[:k], l[k:]
                s += r.choice(["", "", "/// About it.\n", "#[allow(dead_code)] ", "#[doc = \"x\"] "])
                s += "#[speedy(" + ", ".join(part) + r.choice(["", "", ","]) + ")] "
            if not s and r.random() < 0.03: s = "#[speedy()] "
            return s
        lt = "<'a>" if any("'a" in f.ty for v in self.variants for f in v.fields) else ""
        def field(f, i, named):
            a = []
            for k, x in f.attrs:
                if k == "bad": a.append(x)
                elif x is None: a.append(k)
                else: a.append(f"{k} = {x}")
            # a broken attribute only breaks what comes after it in the same list
            return attrs(a) + (f"f{i}: " if named else "") + rust_ty(f.ty)
        def body(v, end):
            if v.kind == "unit": return end
            fs = [field(f, i, v.kind == "named") for i, f in enumerate(v.fields)]
            return (" { " + ", ".join(fs) + " }") if v.kind == "named" else "(" + ", ".join(fs) + ")" + end
        s = "use std::borrow::Cow; use std::collections::*;\n#[derive(Readable, Writable, Default, Clone)] struct Inner(u8);\nconst FOO: u64 = 7;\n"
        s += f"#[derive({self.derive})]\n" if self.layout % 3 else "".join(f"#[derive({d})]\n" for d in self.derive.split(", "))
        top = [f"{k} = {x}" if x is not None else k for k, x in self.attrs] + self.bad
        s += attrs(top)
        if self.what == "union": return s + "union D { a: u8, b: u16 }"
        if self.what == "struct":
            if any(k == "unsafe_is_primitive" for k, _ in self.attrs): s += "#[derive(Clone, Copy)] "
            v = self.variants[0]
            return s + f"struct D{lt}" + body(v, ";")
        if any(v.disc is not None for v in self.variants): s += "#[repr(i64)] " if self.signed() else "#[repr(u64)] "
        s += f"enum D{lt} {{\n"
        for i, v in enumerate(self.variants):
            s += "  " + attrs([f"tag = {num(r, t)}" for t in v.tags] + v.bad) + f"V{i}" + body(v, "")
            if v.disc is not None: s += " = " + (v.disc if isinstance(v.disc, str) else num(r, v.disc))
            s += ",\n"
        return s + "}"
    def smaller(self):
        import copy
        def c(f):
            d = copy.deepcopy(self); f(d); return d
        if self.what == "enum":
            for i in range(len(self.variants)):
                if len(self.variants) > 1: yield c(lambda d: d.variants.pop(i))
        for i, v in enumerate(self.variants):
            if v.fields and self.what == "enum":
                def unit(d): d.variants[i].fields = []; d.variants[i].kind = "unit"
                yield c(unit)
            for k in range(len(v.fields)):
                if len(v.fields) > 1 and not any(q == "length" and x and ("f" in x or "t" in x) for f in v.fields for q, x in f.attrs): yield c(lambda d: d.variants[i].fields.pop(k))
                for a in range(len(v.fields[k].attrs)): yield c(lambda d: d.variants[i].fields[k].attrs.pop(a))
            if v.tags: yield c(lambda d: d.variants[i].tags.pop())
            if v.disc is not None:
                def nod(d): d.variants[i].disc = None
                yield c(nod)
            if v.bad: yield c(lambda d: d.variants[i].bad.pop())
        for a in range(len(self.attrs)): yield c(lambda d: d.attrs.pop(a))
        if self.bad: yield c(lambda d: d.bad.pop())
        if "," in self.derive:
            def one(d): d.derive = "Readable"
            yield c(one)
            def two(d): d.derive = "Writable"
            yield c(two)
        if self.layout:
            def plain(d): d.layout = 0
            yield c(plain)

def gen_field(r, earlier_ints, last, named):
    k = r.random()
    if k < 0.45: t = r.choice(LENS)
    elif k < 0.6: t = r.choice(INTS)
    elif k < 0.7: t = "u64"
    elif k < 0.8: t = "Option<" + r.choice(LENS) + ">"
    else: t = r.choice(NOLEN)
    f = Field(t)
    opt = t.startswith("Option<"); inner = t[7:-1] if opt else t
    if inner in LENS and r.random() < 0.6:
        if not opt and r.random() < 0.5:
            if last and r.random() < 0.4: f.attrs.append(("length", ".."))
            elif earlier_ints and r.random() < 0.7:
                x = r.choice(earlier_ints); f.attrs.append(("length", r.choice(["{0}", "{0}", "{0} / 2", "({0} * 1)"]).format(x)))
            else: f.attrs.append(("length", r.choice(["3_usize", "0u8", "2u16 + 2", "1u32"])))
        else: f.attrs.append(("length_type", r.choice(list(MAXES))))
    if t == "u64" and r.random() < 0.6: f.attrs.append(("varint", None))
    if r.random() < 0.1: f.attrs.append(("skip", None))
    if r.random() < 0.1: f.attrs.append(("default_on_eof", None))
    if r.random() < 0.15: f.attrs.append(("constant_prefix", r.choice(GOOD_CONST)))
    if any(k in ("skip", "default_on_eof") for k in f.keys()) and ("[u8; 4]" in t and 0 or "Range" in t or "Box<str>" in t and 0): f.attrs = [(k, x) for k, x in f.attrs if k not in ("skip", "default_on_eof")]
    return f
def gen_fields(r, v):
    n = r.choice([0, 1, 1, 2, 2, 3, 4]) if v.kind != "unit" else 0
    ints = []
    for i in range(n):
        f = gen_field(r, ints, i == n - 1, v.kind == "named")
        if f.ty in ("u8", "u16", "u32", "usize_") and "skip" not in f.keys(): ints.append(f"f{i}" if v.kind == "named" else f"t{i}")
        v.fields.append(f)
def edges(r, mx, prev):
    c = [0, 1, 2, mx - 1, mx, r.randrange(min(mx, 300) + 1), r.randrange(mx + 1)]
    if prev: c += [prev[-1] + 1, prev[-1] + 2, max(0, r.choice(prev) - 1)]
    return r.choice([x for x in c if 0 <= x <= mx])
def gen_def(r):
    d = Def()
    d.layout = r.randrange(1, 1 << 30)
    d.derive = r.choice(["Readable, Writable", "Writable, Readable", "Readable", "Writable"])
    d.what = "enum" if r.random() < 0.65 else "struct"
    if d.what == "struct":
        v = Variant(); v.kind = r.choice(["named", "named", "tuple", "unit"]); gen_fields(r, v); d.variants = [v]
        if v.fields and all(f.ty in PRIMS and not f.attrs for f in v.fields) and r.random() < 0.5: d.attrs.append(("unsafe_is_primitive", "always"))
        return d
    tt = r.choice([None, None] + list(MAXES))
    if tt: d.attrs.append(("tag_type", tt))
    if r.random() < 0.15: d.attrs.append(("peek_tag", None))
    mx = MAXES[tt or "u32"]
    n = r.choice([1, 2, 2, 3, 3, 4, 6])
    style = r.random(); tags = []
    for i in range(n):
        v = Variant(); v.kind = r.choice(["unit", "unit", "named", "tuple"]); gen_fields(r, v)
        t = None
        if r.random() < 0.45:
            for _ in range(20):
                t = edges(r, mx, tags)
                if t not in tags: break
            if style < 0.4: v.tags = [t]
            elif style < 0.7: v.disc = t
            elif r.random() < 0.5: v.tags = [t]
            else: v.disc = t
            if v.tags and r.random() < 0.1: v.disc = r.choice([5, -3, "FOO", 1000000])
        tags.append(t if t is not None else (tags[-1] + 1 if tags else 0))
        d.variants.append(v)
    return d
def spoil(r, d):
    """One thing made wrong (or nearly wrong)."""
    fields = [f for v in d.variants for f in v.fields]
    kinds = ["type attr"]
    if d.what == "enum": kinds += ["tag", "tag", "tag", "tag", "dup", "dup", "dup", "overflow", "overflow", "disc", "tag type", "variant attr", "two tags", "twice"]
    if fields: kinds += ["after", "both", "length on", "length_type on", "varint on", "again", "const", "field attr", "length type", "after"]
    if d.what == "struct": kinds += ["union", "twice"]
    k = r.choice(kinds)
    d.kind = k
    v = r.choice(d.variants)
    tt = dict(d.attrs).get("tag_type"); mx = MAXES.get(tt, MAXES["u32"])
    def near(): return r.choice([mx + 1, mx + 1, mx + 2, 2 * mx + 1, 2 * mx + 2, U64, U64 + 1, mx, mx - 1, 128, 256, 65536, 1 << 32])
    def settag(v, t):
        if r.random() < 0.55 or t > U64: v.tags = [t]; v.disc = None
        else: v.tags = []; v.disc = t
    if k == "tag": settag(v, near())
    elif k == "dup" and len(d.variants) > 1:
        i, j = r.sample(range(len(d.variants)), 2)
        tags = tags_of(d)
        if tags[i] is not None: settag(d.variants[j], tags[i] if r.random() < 0.9 else tags[i] + 1)
    elif k == "dup": pass
    elif k == "overflow":
        i = r.randrange(len(d.variants)); settag(d.variants[i], r.choice([mx, mx, mx - 1]))
        if i + 1 < len(d.variants):
            w = d.variants[i + 1]; w.tags = []; w.disc = None
    elif k == "disc": v.tags = []; v.disc = r.choice([-1, -128] + list(DISC))
    elif k == "tag type": d.attrs = [a for a in d.attrs if a[0] != "tag_type"] + [("tag_type", r.choice(BAD_TYPE))]
    elif k == "variant attr": v.bad.append(r.choice(BAD_VARIANT_ATTR))
    elif k == "two tags": v.tags = [r.choice([3, 9]), r.choice([3, 9])]
    elif k == "twice":
        if d.attrs: d.attrs.append(r.choice(d.attrs))
        elif d.what == "enum": d.attrs += [("peek_tag", None)] * 2 if r.random() < 0.5 else [("tag_type", "u8"), ("tag_type", r.choice(["u8", "u16"]))]
        elif all(f.ty in PRIMS and not f.attrs for f in fields) and fields: d.attrs += [("unsafe_is_primitive", "always")] * 2
    elif k == "type attr": d.bad.append(r.choice(BAD_ENUM_ATTR if d.what == "enum" else BAD_STRUCT_ATTR))
    elif k == "union": d.what = "union"; d.attrs = []; d.bad = []; d.variants = []
    else:
        v = r.choice([v for v in d.variants if v.fields]); f = r.choice(v.fields); i = v.fields.index(f)
        if k == "after":
            f.ty = r.choice(LENS); f.attrs = [(q, x) for q, x in f.attrs if q not in ("length", "length_type", "varint")] + [("length", "..")]
            if r.random() < 0.7: v.fields.insert(i + 1, Field(r.choice(["u8", "()", "Vec<u8>", "Option<u8>"])))
            if r.random() < 0.3: v.fields[-1].attrs.append((r.choice(["skip", "default_on_eof"]), None))
        elif k == "both":
            f.ty = r.choice(LENS); f.attrs = [("length", r.choice(["3u8", ".."])), ("length_type", r.choice(list(MAXES)))]
        elif k == "length on": f.ty = r.choice(NOLEN + ["Option<" + x + ">" for x in LENS]); f.attrs = [("length", r.choice(["3u8", "..", "2_usize"]))]
        elif k == "length_type on": f.ty = r.choice(NOLEN); f.attrs = [("length_type", r.choice(list(MAXES)))]
        elif k == "varint on": f.ty = r.choice(["u8", "u16", "u32", "i64", "u128", "Option<u64>", "[u64; 2]", "Vec<u64>", "usize_", "Box<u64>", "f64", "(u64, u8)", "std::num::NonZeroU64", "Inner", "String"]); f.attrs = [("varint", None)]
        elif k == "again":
            if f.attrs: f.attrs.append(r.choice(f.attrs))
            else: f.attrs = [("default_on_eof", None)] * 2
        elif k == "const": f.attrs = [a for a in f.attrs if a[0] != "constant_prefix"] + [("constant_prefix", r.choice(BAD_CONST))]
        elif k == "field attr": f.attrs.append(("bad", r.choice(BAD_FIELD_ATTR)))
        elif k == "length type": f.ty = r.choice(LENS); f.attrs = [("length_type", r.choice(BAD_TYPE))]
    return d
def tags_of(d):
    out = []; p = None
    for i, v in enumerate(d.variants):
        t = v.tags[0] if v.tags else v.disc if isinstance(v.disc, int) and v.disc >= 0 else None if v.disc is not None else (0 if i == 0 else None if p is None else p + 1)
        out.append(t); p = t
    return out
def unclear(d):
    """Wrong or doubtful for other reasons than the ones the property is about."""
    if d.what == "union": return False
    if d.rust_refuses(): return True
    for v in d.variants:
        for f in v.fields:
            # skipping what other lengths are computed from, or attributes without meaning together
            if "skip" in f.keys() and len(f.attrs) > 1 and not d.reasons(): return True
            if f.ty == "std::num::NonZeroU64" and any(k in ("skip", "default_on_eof") for k in f.keys()): return True
            if f.ty.startswith("std::ops") and f.attrs and not d.reasons(): return True
            if "char" == f.ty and 0: return True
            if f.ty in ("Box<str>",) and 0: return True
        if v.kind == "named" and 0: return True
    if any(k == "unsafe_is_primitive" for k, _ in d.attrs) and not all(f.ty in PRIMS for f in d.variants[0].fields): return True
    return False
def c26_cases(seed, n):
    r = random.Random(seed * 7919 + 26)
    out = []; seen = set()
    while len(out) < n:
        if r.random() < 0.3: d = gen_generic(r)
        else:
            d = gen_def(r); d.kind = "plain"
            if r.random() < 0.78: spoil(r, d)
            if unclear(d): continue
        t = d.render()
        if t in seen: continue
        seen.add(t); out.append(d)
    return out

# (c) definitions which are generic, borrow, are named unusually, or are written by a macro: they have a meaning, so they are accepted,
# and what they need to be read (or written) is that what they read (or write) can be, and nothing else
GENPRE = """use std::borrow::Cow; use std::collections::*; use std::hash::Hash; use std::marker::PhantomData;
#[derive(Readable, Writable, Default, Clone)] pub struct Inner(u8);
#[derive(Readable, Writable, Clone, Default)] pub struct Pair<A, B>(A, B);
pub enum OwnError { E(Error) } impl From<Error> for OwnError { fn from(e: Error) -> Self { OwnError::E(e) } }
impl speedy::IsEof for OwnError { fn is_eof(&self) -> bool { false } }
pub struct Own; impl Context for Own { type Error = OwnError; fn endianness(&self) -> Endianness { Endianness::LittleEndian } }
#[derive(Default, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Mute;
#[derive(Default, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct OnlyRead(u8);
impl<'a, C: Context> Readable<'a, C> for OnlyRead { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(OnlyRead(r.read_u8()?)) } }
#[derive(Default, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct OnlyWrite(u8);
impl<C: Context> Writable<C> for OnlyWrite { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u8(self.0) } }
pub trait Has { type Item; const N: usize; }
impl Has for u8 { type Item = u16; const N: usize = 3; } impl Has for Mute { type Item = String; const N: usize = 1; } impl Has for String { type Item = Mute; const N: usize = 1; }
pub trait Mark {} impl<T: ?Sized> Mark for T {}
const LEN: usize = 2; type Alias = Vec<u8>; type AliasOf<T> = Option<T>;
fn reads<'x, C: Context, X: Readable<'x, C>>() {}
fn writes<C: Context, X: Writable<C>>() {}
"""
# the type of a field, the traits its parameter needs for that, and what it takes to have a default value
GENTYS = [("@", "", "Default"), ("@", "", "Default"), ("Vec<@>", "", ""), ("Option<@>", "", ""), ("Box<@>", "", "Default"), ("Box<[@]>", "", ""), ("[@; 3]", "", "Default"), ("[@; LEN]", "", None), ("(@, u8)", "", "Default"), ("(u16, @, @)", "", "Default"),
    ("Pair<@, u8>", "", "Default"), ("Pair<u8, Vec<@>>", "", ""), ("Vec<Option<@>>", "", ""), ("Result<@, u8>", "", None), ("std::ops::Range<@>", "", "Default"), ("Option<Vec<@>>", "", ""), ("BTreeMap<@, u8>", "Ord", ""), ("BTreeSet<@>", "Ord", ""),
    ("HashMap<@, String>", "Hash + Eq", ""), ("HashSet<@>", "Hash + Eq", ""), ("Vec<(u8, @)>", "", ""), ("BTreeMap<u8, @>", "", ""), ("HashMap<u8, Vec<@>>", "", ""), ("Cow<'a, [@]>", "Clone", None), ("Cow<'a, BTreeSet<@>>", "Ord + Clone", None),
    ("Cow<'a, HashMap<u8, @>>", "Clone", None), ("self::Pair<@, @>", "", "Default"), ("std::vec::Vec<@>", "", ""), ("std::option::Option<@>", "", ""), ("Option<Box<@>>", "", ""), ("AliasOf<@>", "", ""), ("((@,), [(@, u8); 2])", "", None), ("(@)", "", "Default")]
GENLEN = {"Vec<@>", "BTreeMap<@, u8>", "BTreeSet<@>", "HashMap<@, String>", "HashSet<@>", "Vec<Option<@>>", "Vec<(u8, @)>", "BTreeMap<u8, @>", "Cow<'a, [@]>", "Cow<'a, BTreeSet<@>>"}
PLAINTYS = ["u8", "String", "Inner", "Vec<u16>", "&'a str", "Cow<'a, str>", "&'b [u8]", "Cow<'b, [u16]>", "()", "self::Inner", "std::string::String", "[u8; 2]", "[u16; LEN]", "[u8; { 1 + 1 }]", "[u8; <u8 as Has>::N]", "(u8)", "Option<Cow<'a, str>>", "std::num::NonZeroU16", "char", "std::time::Duration", "f32", "Box<str>", "[[u8; 2]; 3]",
    "((u8, (u16,)), u8)", "Alias", "AliasOf<u8>", "Pair<u8, Inner>", "Pair<Cow<'a, str>, &'b str>", "<u8 as Has>::Item", "Vec<&'a [u8]>", "HashMap<Cow<'a, str>, u8>"]
GOODARGS = ["u8", "String", "Inner", "Vec<u16>", "Option<u32>", "(u8, i64)", "Box<str>", "char", "[u8; 2]", "Pair<u8, String>", "()", "BTreeMap<u8, u8>"]
ORDARGS = ["u8", "String", "Vec<u16>", "Option<u32>", "(u8, i64)", "char", "[u8; 2]", "()"]
NAMES = ["a", "b", "value", "length", "len", "reader", "writer", "tag", "context", "r#type", "r#fn", "r#match", "self_", "t0", "t1", "out", "size", "count", "x", "_y", "__z", "item", "error", "slice", "ctx", "r#box", "kind", "data", "is_some", "name", "v", "read_from", "core", "speedy", "String", "r#struct"]
VARS = ["A", "B", "None", "Some", "Ok", "Err", "r#Type", "Self_", "Error", "Readable", "Vec", "Reader", "String", "X", "r#fn"]
PARAMS = ["T", "U", "C", "R", "W", "S", "K", "E", "Item", "A", "Ctx", "Value"]
TNAMES = ["D", "D", "D", "Result_", "r#enum", "Data", "lower_case", "Context_"]
class Gf:
    """A field: `ty` with `@` for the type parameter `p`, through its associated type if `assoc`."""
    def __init__(self, name, ty, p=None, needs="", default="", attr="", assoc=False): self.name, self.ty, self.p, self.needs, self.default, self.attr, self.assoc = name, ty, p, needs, default, attr, assoc; self.vis = ""; self.group = False; self.qself = False; self.itself = ""
    def skipped(self): return self.attr == "skip"
    def text(self):
        return self.ty.replace("SELF", self.itself).replace("@", self.p if not self.assoc else f"<{self.p} as Has>::Item" if self.qself else f"{self.p}::Item") if self.p else self.ty.replace("SELF", self.itself)
class Gen:
    kind = "generic"
    def fields(self): return [f for v in self.variants for f in v[2]]
    def of(self, p): return [f for f in self.fields() if f.p == p]
    def lts(self): return [l for l in ("'a", "'b") if any(l in f.text() for f in self.fields())]
    def bounds(self, p):
        """What the language wants of a parameter whatever it is used for, and of its associated type."""
        own = set(self.extra.get(p, [])); item = set()
        for f in self.of(p):
            b = {x for x in f.needs.split(" + ") if x}
            if f.attr in ("skip", "default_on_eof") and f.default: b.add(f.default)
            if f.assoc: own.add("Has"); item |= b
            else: own |= b
        return sorted(own), sorted(item)
    def expect(self):
        for f in self.fields():
            if not f.p or f.skipped() or f.ty.startswith("PhantomData"): continue
            x = self.args[f.p]
            if f.assoc: x = {"u8": "u16", "Mute": "String", "String": "Mute"}[x]
            if x == "Mute" or x == "OnlyRead" and "W" in self.asked or x == "OnlyWrite" and "R" in self.asked: return self.through == "concrete"
        return False
    def reasons(self): return ["the type of a field can't be " + "/".join({"R": "read", "W": "written"}[k] for k in self.asked)]
    def render(self):
        r = random.Random(self.layout); lts = self.lts(); inl = []; wh = []
        for l in lts: inl.append(l)
        if len(lts) == 2 and self.outlives == 1: inl[1] += ": 'a"
        if len(lts) == 2 and self.outlives == 2: wh.append("'b: 'a")
        split = []
        for p in self.params:
            own, item = self.bounds(p); k = r.choice([0, len(own), len(own), r.randint(0, len(own))])
            inl.append(p + (": " + " + ".join(own[:k]) if k else ""))
            if own[k:]: wh.append(f"{p}: " + " + ".join(own[k:]))
            if item: wh.append(f"{p}::Item: " + " + ".join(item))
        allw = list(wh)
        if self.params and self.default: inl[-1] += " = u8"
        if self.odd_where: wh.append(self.odd_where)
        g = "<" + ", ".join(inl) + r.choice(["", ","]) + ">" if inl else ""
        w = " where " + ", ".join(wh) + r.choice(["", ","]) + " " if wh else r.choice(["", "", " where " if self.what == "struct" and self.variants[0][1] == "named" and g else ""])
        tys = []
        def field(f, named):
            t = f.text()
            if self.macro == "parts" and f.group: tys.append(t); t = f"$y{len(tys) - 1}"
            return (f"#[speedy({f.attr})] " if f.attr else "") + f.vis + (f"{f.name}: " if named else "") + t
        def body(v): return "" if v[1] == "unit" else " { " + ", ".join(field(f, 1) for f in v[2]) + " }" if v[1] == "named" else "(" + ", ".join(field(f, 0) for f in v[2]) + ")"
        s = f"#[derive({self.traits})] " + self.extra_attr + self.vis
        if self.what == "struct":
            v = self.variants[0]
            s += f"struct {self.name}{g}" + (w + body(v) if v[1] == "named" else body(v) + w + ";")
        else:
            s += f"enum {self.name}{g}{w} {{ " + ", ".join((f"#[speedy(tag = {7 + i})] " if self.layout % 5 == 0 else "") + v[0] + body(v) for i, v in enumerate(self.variants)) + " }"
        if self.macro == "whole": s = "macro_rules! make { ($($t:tt)*) => { $($t)* } }\nmake! { " + s + " }"
        elif self.macro: s = "macro_rules! make { (" + ", ".join(f"$y{i}:ty" for i in range(len(tys))) + ") => { " + s + " } }\nmake!(" + ", ".join(tys) + ");"
        out = GENPRE + s + "\n"
        if self.through == "generic":
            for t in self.asked:
                ps = ["'x"] if t == "R" else []
                ps.append("G_: Context"); hb = []
                for p in self.params:
                    own, item = self.bounds(p); own = list(own); item = list(item)
                    tr = "Readable<'x, G_>" if t == "R" else "Writable<G_>"
                    for f in self.of(p):
                        if f.skipped() or f.ty.startswith("PhantomData"): continue
                        (item if f.assoc else own).append(tr)
                    if lts: own.append("'x" if t == "R" else "'static")
                    ps.append(p + (": " + " + ".join(dict.fromkeys(own)) if own else ""))
                    if item: hb.append(f"{p}::Item: " + " + ".join(dict.fromkeys(item)))
                a = (["'x" if t == "R" else "'static"] * len(lts)) + self.params
                ty = self.name + ("<" + ", ".join(a) + ">" if a else "")
                if self.odd_where: hb.append(self.odd_where.replace("'a", "'x" if t == "R" else "'static").replace("Self:", ty + ":"))
                out += f"fn through{t}<{', '.join(ps)}>()" + (" where " + ", ".join(hb) if hb else "") + " { " + (f"reads::<'x, G_, {ty}>()" if t == "R" else f"writes::<G_, {ty}>()") + " }\n"
            return out
        a = ["'static"] * len(lts) + [self.args[p] for p in self.params]
        ty = self.name + ("<" + ", ".join(a) + ">" if a else "")
        return out + "fn main_() { " + "".join(f"reads::<{self.ctx}, {ty}>(); " if t == "R" else f"writes::<{self.ctx}, {ty}>(); " for t in self.asked) + "}\n"
    def whole(self):
        """The language insists on every parameter being used other than through its associated types."""
        return all(any(not f.assoc for f in self.of(p)) for p in self.params) and (self.odd_where == "" or "'a" not in self.odd_where or "'a" in self.lts())
    def smaller(self): return (d for d in self.smaller_() if d.whole())
    def smaller_(self):
        import copy
        for i, v in enumerate(self.variants):
            if len(self.variants) > 1:
                d = copy.deepcopy(self); d.variants.pop(i); yield d
            for k, f in enumerate(v[2]):
                d = copy.deepcopy(self); d.variants[i][2].pop(k); yield d
                if f.attr and not f.ty.startswith("PhantomData"):
                    d = copy.deepcopy(self); d.variants[i][2][k].attr = ""; yield d
                if f.vis:
                    d = copy.deepcopy(self); d.variants[i][2][k].vis = ""; yield d
        for k, x in [("macro", ""), ("default", False), ("odd_where", ""), ("outlives", 0), ("extra_attr", ""), ("vis", "")]:
            if getattr(self, k) != x: d = copy.deepcopy(self); setattr(d, k, x); yield d
        if self.traits != "Readable, Writable": d = copy.deepcopy(self); d.traits = "Readable, Writable"; yield d
        if len(self.asked) > 1:
            for x in "RW": d = copy.deepcopy(self); d.asked = x; yield d
        for p in self.params:
            if not self.of(p): d = copy.deepcopy(self); d.params = [q for q in self.params if q != p]; yield d
            if self.extra.get(p): d = copy.deepcopy(self); d.extra[p] = []; yield d
def gen_generic(r):
    d = Gen(); d.layout = r.randrange(1, 1 << 30); d.name = r.choice(TNAMES); d.what = r.choice(["struct", "struct", "enum"])
    d.params = r.sample(PARAMS, r.choice([0, 0, 1, 1, 1, 2, 3])); d.extra = {p: r.choice([[], [], ["Mark"], ["Clone"], ["Default"]]) for p in d.params}
    d.default = r.random() < 0.15; d.outlives = r.choice([0, 1, 2]); d.macro = r.choice(["", "", "", "whole", "parts"]); d.vis = r.choice(["", "", "pub ", "pub(crate) ", "pub(super) "])
    d.asked = r.choice(["RW", "RW", "R", "W"]); d.traits = r.choice(["Readable, Writable", "Writable, Readable"]) if d.asked == "RW" else {"R": "Readable", "W": "Writable"}[d.asked] if r.random() < 0.6 else "Readable, Writable"
    d.ctx = r.choice(["LittleEndian", "BigEndian", "Endianness", "Own"]); d.through = "generic" if d.params and r.random() < 0.4 else "concrete"; d.odd_where = ""; d.extra_attr = r.choice(["", "", "", "#[allow(dead_code)] ", "/// Documented.\n", "#[must_use] ", "#[cfg(not(any()))] "])
    if d.what == "struct" and r.random() < 0.1: d.extra_attr += r.choice(["#[repr(C)] ", "#[repr(align(4))] "])
    d.variants = []
    seen = set(r.sample(VARS, 4))
    for name in ([None] if d.what == "struct" else sorted(seen)[: r.randint(1, 4)]):
        v = [name, r.choice(["named", "named", "tuple", "unit"] if d.what == "enum" else ["named", "tuple"]), []]
        if v[1] != "unit":
            for n in r.sample(NAMES, r.choice([1, 1, 2, 2, 3, 4])):
                if d.params and r.random() < 0.65:
                    p = r.choice(d.params); t, needs, dflt = r.choice(GENTYS); f = Gf(n, t, p, needs, dflt); k = r.random()
                    if k < 0.15: f.ty, f.needs, f.default, f.attr = r.choice(["PhantomData<@>", "PhantomData<fn(@) -> @>", "PhantomData<Vec<@>>"]), "", "", "skip"
                    elif k < 0.3 and dflt is not None: f.attr = r.choice(["skip", "skip", "default_on_eof"])
                    elif k < 0.5 and t in GENLEN: f.attr = r.choice(["length = 2u8", "length_type = u8", "length_type = u64_varint", "length = 1_usize"])
                    elif k < 0.55: f.attr = 'constant_prefix = "x"'
                    elif k < 0.65: f.assoc = True; f.qself = r.random() < 0.5
                elif not d.params and r.random() < 0.15: f = Gf(n, r.choice(["Vec<SELF>", "Option<Box<SELF>>", "HashMap<u8, SELF>", "Vec<(u8, SELF)>", "Option<Vec<SELF>>"] + (["Box<SELF>", "(u8, Box<SELF>)"] if d.what == "enum" else []))); f.itself = d.name
                else: f = Gf(n, r.choice(PLAINTYS))
                if not f.attr.startswith("length") and "[" not in f.ty: f.group = r.random() < 0.5
                if f.group and (f.attr and f.attr.startswith("length")): f.group = False
                if d.what == "struct": f.vis = r.choice(["", "", "", "pub ", "pub(crate) "])
                v[2].append(f)
        d.variants.append(v)
    if d.lts():
        for f in d.fields(): f.itself = f.itself and f.itself + "<" + ", ".join(d.lts()) + ">"
    if d.what == "struct" and len(d.variants[0][2]) == 1 and not d.fields()[0].attr and r.random() < 0.5 and "repr" not in d.extra_attr: d.extra_attr += "#[repr(transparent)] "
    # every parameter has to appear
    v = d.variants[-1]
    if v[1] == "unit" and d.params: v[1] = "tuple"
    for p in d.params:
        if not any(not f.assoc for f in d.of(p)):
            n = next(x for x in NAMES if x not in [f.name for f in v[2]])
            f = Gf(n, "PhantomData<@>", p, "", "", "skip") if r.random() < 0.4 else Gf(n, "@", p)
            v[2].append(f)
    if len(d.fields()) != 1: d.extra_attr = d.extra_attr.replace("#[repr(transparent)] ", "")
    d.args = {}
    for p in d.params:
        own, item = d.bounds(p)
        if any(f.assoc for f in d.of(p)):
            d.args[p] = r.choice(["u8", "u8", "Mute", "String"])
        else:
            k = r.random()
            d.args[p] = "Mute" if k < 0.25 else "OnlyRead" if k < 0.33 else "OnlyWrite" if k < 0.41 else r.choice(ORDARGS if set(own) & {"Ord", "Hash", "Clone", "Default"} else GOODARGS)
            # (a parameter which is only skipped or only marks something may be anything at all)
    if d.params and r.random() < 0.15: d.odd_where = r.choice(["Self: Sized", f"Vec<{d.params[0]}>: Mark", f"for<'z> &'z {d.params[0]}: Mark", f"{d.params[0]}: Sized"])
    return d

# ------------------------------------------------------------------ C28
# leaves: name, every bit pattern is a value
LEAVES = [("u8", 1), ("i8", 1), ("u16", 1), ("i16", 1), ("u32", 1), ("i32", 1), ("u64", 1), ("i64", 1), ("u128", 1), ("i128", 1), ("f32", 1), ("f64", 1),
          ("bool", 0), ("char", 0), ("std::num::NonZeroU8", 0), ("std::num::NonZeroU32", 0), ("Endianness", 0), ("Flag", 0), ("Option<u8>", 0), ("String", 0), ("Vec<u8>", 0), ("Box<u8>", 0), ("std::net::Ipv4Addr", None), ("[u8; 4]", None), ("(u8, u8)", None), ("usize", 0), ("Option<Flag>", 0), ("[bool; 2]", 0), ("(u8, bool)", 0), ("Tagged", 0), ("()", None)]
class Zc:
    """An element type: a leaf or a struct of element types."""
    def __init__(self): self.repr = ""; self.fields = []; self.attrs = []; self.leaf = None; self.ok = None; self.forced = False; self.named = True
    def sound(self):
        """1: must be usable for borrowing; 0: must not be; None: no opinion."""
        if self.leaf: return self.ok
        s = [f.sound() for f in self.fields]
        if self.forced: return None # (the user has vouched for it)
        if 0 in s: return 0
        if any(self.attrs): return 0 # (not what lies in the bytes)
        if self.repr == "packed" and s and all(x == 1 for x in s): return 1
        if self.repr == "transparent" and s == [1]: return 1
        if not s: return None
        if self.repr != "packed" and self.repr != "transparent" and self.padded(): return 0
        if self.repr == "" and len(s) > 1: return None
        return None
    def size_align(self):
        if self.leaf: return {"u8": (1, 1), "i8": (1, 1), "u16": (2, 2), "i16": (2, 2), "u32": (4, 4), "i32": (4, 4), "f32": (4, 4), "u64": (8, 8), "i64": (8, 8), "f64": (8, 8), "u128": (16, 16), "i128": (16, 16)}.get(self.leaf)
        l = [f.size_align() for f in self.fields]
        if None in l: return None
        total = sum(a for a, _ in l); al = 1 if self.repr == "packed" else max([b for _, b in l] or [1])
        return (total, al) if not self.padded() else ((total + al - 1) // al * al + al, al)
    def padded(self):
        l = [f.size_align() for f in self.fields]
        if self.leaf or None in l or self.repr == "packed": return False
        off = 0
        if self.repr == "C":
            for s, a in l:
                if off % a: return True
                off += s
        else: off = sum(s for s, _ in l)
        return off % max([a for _, a in l] or [1]) != 0
    def depth(self): return 0 if self.leaf else 1 + max([f.depth() for f in self.fields] or [0])
    def render(self, names, out):
        if self.leaf: return self.leaf
        tys = [f.render(names, out) for f in self.fields]
        n = f"E{len(out)}"
        at = [("#[speedy(" + a + ")] " if a else "") for a in self.attrs]
        body = " { " + ", ".join(f"{a}f{i}: {t}" for i, (a, t) in enumerate(zip(at, tys))) + " }" if self.named else "(" + ", ".join(a + t for a, t in zip(at, tys)) + ");"
        out.append(f"#[derive(Readable)]{' #[repr(' + self.repr + ')]' if self.repr else ''}{' #[speedy(unsafe_is_primitive = always)]' if self.forced else ''} struct {n}{body}")
        return n
    def smaller(self):
        import copy
        if self.leaf: return
        for f in self.fields: yield copy.deepcopy(f)
        for i in range(len(self.fields)):
            if len(self.fields) > 1:
                d = copy.deepcopy(self); d.fields.pop(i); d.attrs.pop(i); yield d
            if self.attrs[i]:
                d = copy.deepcopy(self); d.attrs[i] = None; yield d
            for x in self.fields[i].smaller():
                d = copy.deepcopy(self); d.fields[i] = x; yield d
def leaf(r, good):
    z = Zc(); z.leaf, z.ok = r.choice([l for l in LEAVES if l[1] == 1] if r.random() < good else LEAVES); return z
def gen_zc(r, depth, good):
    if depth == 0 or r.random() < 0.12: return leaf(r, good)
    z = Zc(); z.repr = r.choice(["packed", "packed", "packed", "transparent", "transparent", "C", ""]); z.named = r.random() < 0.6
    n = 1 if z.repr == "transparent" else r.choice([1, 2, 2, 3, 4])
    for _ in range(n):
        z.fields.append(gen_zc(r, depth - 1 if r.random() < 0.5 else 0, good)); z.attrs.append(None)
    if r.random() < 0.12:
        i = r.randrange(n); f = z.fields[i]
        if f.leaf == "u64": z.attrs[i] = r.choice(["varint", "default_on_eof", "skip"])
        elif f.leaf in ("Vec<u8>", "String"): z.attrs[i] = r.choice(["length = 3u8", "length_type = u8", "skip"])
        elif f.leaf and f.leaf in PRIMS + ["bool"]: z.attrs[i] = r.choice(["skip", "default_on_eof", 'constant_prefix = "x"', 'constant_prefix = 1u8'])
    # (a packed struct cannot lend its fields, which reading by reference might need)
    return z
CTX = ["LittleEndian", "BigEndian", "Endianness", "Own"]
USES = ["&'static [T]", "&'static [T; 3]", "field", "field length", "field length_type", "field rest", "field array", "enum"]
class Zuse:
    def __init__(self, z, use, ctx): self.z, self.use, self.ctx = z, use, ctx
    def expect(self):
        """True: must be refused; False: must be accepted; None: no opinion."""
        s = self.z.sound()
        if s == 0: return True
        if self.use == "field array": return None # (derived readers work in every context; borrowed arrays only do so in some)
        if s == 1 and self.ctx == "LittleEndian": return False
        return None
    def reasons(self): return [f"borrowing {self.z.leaf or 'a struct'} from bytes ({self.use}, {self.ctx})"]
    def render(self):
        out = []
        t = self.z.render(None, out)
        s = "#[derive(Readable, Writable, Clone, Copy)] enum Flag { A, B }\n#[derive(Readable, Clone, Copy)] #[speedy(tag_type = u8)] #[repr(u8)] enum Tagged { A = 3, B = 7 }\n"
        s += "struct Own; impl Context for Own { type Error = Error; fn endianness(&self) -> Endianness { Endianness::LittleEndian } }\n" + "\n".join(out) + "\n"
        u = self.use
        if u.startswith("&"): x = u.replace("T", t, 1) if "; 3" not in u else f"&'static [{t}; 3]"
        else:
            a = {"field": "", "field length": "#[speedy(length = 3u8)] ", "field length_type": "#[speedy(length_type = u16)] ", "field rest": "#[speedy(length = ..)] ", "field array": "", "enum": ""}[u]
            ft = f"&'a [{t}; 2]" if u == "field array" else f"&'a [{t}]"
            s += (f"#[derive(Readable)] enum H<'a> {{ X {{ k: u8, {a}v: {ft} }}, Y }}\n" if u == "enum" else f"#[derive(Readable)] struct H<'a> {{ k: u8, {a}v: {ft} }}\n")
            x = "H<'static>"
        return s + f"fn holds<C: Context, X: Readable<'static, C>>() {{}}\nfn main_() {{ holds::<{self.ctx}, {x}>() }}"
    def smaller(self):
        for z in self.z.smaller(): yield Zuse(z, self.use, self.ctx)
        if self.use != USES[0]: yield Zuse(self.z, USES[0], self.ctx)

# (b) what is borrowed must not outlive what it is borrowed from
BORROWERS = ["&'x str", "&'x [u8]", "&'x [u16]", "Cow<'x, str>", "Cow<'x, [u8]>", "Cow<'x, [u32]>", "Item<'x>", "Vec<Cow<'x, str>>", "Option<&'x str>", "(u8, &'x [u8])", "Box<Item<'x>>", "[&'x str; 2]", "Choice<'x>", "Result<Cow<'x, str>, u8>", "std::collections::BTreeMap<u8, &'x str>", "&'x [u8; 3]", "Gen<&'x str>"]
OWNERS = ["String", "Vec<u8>", "u32", "Plain", "Box<[u16]>", "Option<String>", "std::collections::BTreeMap<String, u8>", "(u8, Vec<String>)", "Gen<String>"]
# entry: expression and whether the result borrows from the buffer
ENTRIES = [("{T}::read_from_buffer(&b).unwrap()", 1), ("{T}::read_with_length_from_buffer(&b).0.unwrap()", 1), ("{T}::read_from_buffer_with_ctx({C}, &b).unwrap()", 1), ("{T}::read_with_length_from_buffer_with_ctx({C}, &b).0.unwrap()", 1)]
COPIES = [("{T}::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, &b).0.unwrap()", 0), ("{T}::read_from_buffer_copying_data(&b).unwrap()", 0), ("{T}::read_with_length_from_buffer_copying_data(&b).0.unwrap()", 0), ("{T}::read_from_buffer_copying_data_with_ctx({C}, &b).unwrap()", 0), ("{T}::read_from_stream_unbuffered(&b[..]).unwrap()", 0), ("{T}::read_from_stream_buffered(&b[..]).unwrap()", 0), ("{T}::read_from_stream_unbuffered_with_ctx({C}, &b[..]).unwrap()", 0)]
FATES = [("drop(b);", 1), ("let b = b;", 1), ("b.push(1);", 1), ("b[0] = 1;", 1), ("b.clear();", 1), ("let _ = b.len();", 0), ("let _ = &b[..];", 0), ("let _k = b.clone();", 0), ("return_it", 1)]
# inside of a user's own reading routine: body of `read_from`, result type of the borrowed field, refused?
ROUTINES = [
    ("let x = r.read_bytes_borrowed(4).unwrap()?; Ok(My { s: x })", 0), ("let x = r.read_bytes_borrowed_from_reader(4).unwrap()?; Ok(My { s: x })", 1), ("let x = r.read_bytes_borrowed_until_eof().unwrap(); Ok(My { s: x })", 0),
    ("let x = r.read_bytes_borrowed_from_reader(4).unwrap()?; let n = x.len(); let y = r.read_bytes_borrowed(n).unwrap()?; Ok(My { s: y })", 0), ("let x = r.read_bytes_borrowed_from_reader(4).unwrap()?; let y = r.read_bytes_borrowed(1).unwrap()?; let _ = x.len(); Ok(My { s: y })", 1),
    ("let x = r.read_bytes_borrowed(4).unwrap()?; let y = r.read_bytes_borrowed(1).unwrap()?; let _ = x.len(); Ok(My { s: y })", 0), ("let x: Cow<'a, [u8]> = r.read_cow(4)?; match x { Cow::Borrowed(s) => Ok(My { s }), Cow::Owned(_) => Ok(My { s: &[] }) }", 0),
    ("let x: Cow<'a, [u8]> = r.read_cow(4)?; Ok(My { s: &x })", 1), ("let x: &'a [u8] = r.read_value()?; Ok(My { s: x })", 0), ("let x: Vec<u8> = r.read_value()?; Ok(My { s: &x })", 1), ("let x: &'static [u8] = r.read_value()?; Ok(My { s: x })", 1),
    ("let x: Cow<'static, [u8]> = r.read_cow(4)?; Ok(My { s: &[] })", 1), ("let x: &'static str = r.read_value()?; Ok(My { s: &[] })", 1), ("let x: Cow<'static, [u8]> = r.read_cow_until_eof()?; Ok(My { s: &[] })", 1), ("let x: &'static [u8] = r.read_bytes_borrowed(4).unwrap()?; Ok(My { s: x })", 1), ("let x: &'static [u8] = r.read_bytes_borrowed_until_eof().unwrap(); Ok(My { s: x })", 1),
    ("let x: Vec<&'a str> = r.read_vec(4)?; let _ = r.read_u8()?; Ok(My { s: x[0].as_bytes() })", 0), ("let x: Vec<&'static str> = r.read_vec(4)?; Ok(My { s: &[] })", 1), ("let c = r.context(); let x = r.read_u8()?; let _ = c.endianness(); Ok(My { s: &[] })", 1), ("let e = r.context().endianness(); let x = r.read_u8()?; let _ = e; Ok(My { s: &[] })", 0), ("let c = r.context_mut(); let e = r.endianness(); let _ = c.endianness(); Ok(My { s: &[] })", 1),
]
LTDEFS = """use std::borrow::Cow;
#[derive(Readable, Writable, Clone)] struct Item<'a> { n: u8, #[speedy(length = n)] s: &'a [u8], t: Cow<'a, str> }
#[derive(Readable, Writable, Clone)] enum Choice<'a> { A(&'a str), B { #[speedy(length_type = u8)] x: Cow<'a, [u16]> } }
#[derive(Readable, Writable, Clone)] struct Gen<T>(T, u8);
#[derive(Readable, Writable, Clone)] struct Plain { s: String, v: Vec<u16> }
struct Own; impl Context for Own { type Error = Error; fn endianness(&self) -> Endianness { Endianness::LittleEndian } }
fn use_<T>(_: T) {}
"""
class Life:
    def __init__(self, ty, entry, fate, ctx, annotate): self.ty, self.entry, self.fate, self.ctx, self.annotate = ty, entry, fate, ctx, annotate
    def borrows(self): return "'x" in self.ty and self.entry[1] == 1
    def expect(self): return bool(self.borrows() and self.fate[1])
    def reasons(self): return [f"a {self.ty} from {self.entry[0].split('(')[0]} living on after: {self.fate[0]}"]
    def render(self):
        t = self.ty.replace("'x", "'_")
        e = self.entry[0].replace("{T}", f"<{t}>").replace("{C}", self.ctx)
        if self.fate[0] == "return_it":
            ret = self.ty.replace("'x", "'static")
            return LTDEFS + f"fn main_() -> {ret} {{ let mut b: Vec<u8> = vec![0; 100]; let mut c = {self.ctx}; let v = {e.replace(chr(39) + '_', chr(39) + 'static')}; v }}"
        ann = f": {t}" if self.annotate else ""
        return LTDEFS + f"fn main_() {{ let mut b: Vec<u8> = vec![0; 100]; let mut c = {self.ctx}; let v{ann} = {e}; {self.fate[0]} use_(v); }}"
    def smaller(self): return iter(())
class Routine:
    def __init__(self, k): self.k = k
    def expect(self): return bool(ROUTINES[self.k][1])
    def reasons(self): return ["a reading routine: " + ROUTINES[self.k][0]]
    def render(self): return LTDEFS + "struct My<'a> { s: &'a [u8] }\nimpl<'a, C: Context> Readable<'a, C> for My<'a> { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { " + ROUTINES[self.k][0] + " } }"
    def smaller(self): return iter(())
def c28_cases(seed, n):
    r = random.Random(seed * 6151 + 28)
    out = []; seen = set()
    for k in range(len(ROUTINES)): out.append(Routine(k))
    # every leaf by itself in every use
    for l, ok in LEAVES:
        for u in USES:
            z = Zc(); z.leaf, z.ok = l, ok; out.append(Zuse(z, u, r.choice(CTX) if ok == 0 else "LittleEndian"))
    ctxs = lambda: r.choice(["Endianness::LittleEndian", "LittleEndian {}", "BigEndian {}", "Own"])
    while len(out) < n:
        if r.random() < 0.65:
            z = gen_zc(r, r.choice([1, 1, 2, 3]), r.choice([1.0, 0.8, 0.4])); c = r.choice(CTX)
            x = Zuse(z, r.choice(USES), "LittleEndian" if z.sound() == 1 else c)
        else:
            t = r.choice(BORROWERS if r.random() < 0.75 else OWNERS); c = ctxs(); e = r.choice(ENTRIES if r.random() < 0.7 else COPIES)
            if "[u16]" in t or "[u32]" in t and t.startswith("&"): c = "LittleEndian {}"
            if "Item" in t or "Choice" in t or "&'x [u8" in t or True: pass
            x = Life(t, e, r.choice(FATES), c, r.random() < 0.5)
        x_ = x.expect()
        if x_ is None: continue
        t = x.render()
        if t in seen: continue
        seen.add(t); out.append(x)
    return [x for x in out if x.expect() is not None]

# ------------------------------------------------------------------ running
def expect(case): return bool(case.reasons()) if isinstance(case, Def) else case.expect()
RULE = {"C26": "random type definitions, most of them with one thing made wrong or nearly wrong, and random generic ones used with random type arguments; non-trivial = distinct definitions that must be refused, or are as close as one step to such, and distinct uses of generic ones",
        "C28": "random element types in every borrowing position and context, and random uses of borrowed values; non-trivial = distinct programs that must be refused, or nearly so (a sound type of the same shape, a harmless use)"}
def run(id, root, rest):
    t0 = time.time()
    comp = Compiler(root, id)
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
    try: seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError: seed = 1
    if len(rest) == 2 and rest[0] == "--replay": return replay(id, comp, rest[1])
    rounds = 8 if thorough else 1
    n = {"C26": 2400, "C28": 1500}[id]
    found = []; total = 0; refused_n = 0; labels = {}; samples = []; keys = set()
    for k in range(rounds):
        cases = (c26_cases if id == "C26" else c28_cases)(seed + 1000 * k, n)
        wrong = [c for c in cases if expect(c)]; right = [c for c in cases if not expect(c)]
        # what must be refused together, what must be accepted by itself
        a = comp.refused([c.render() for c in wrong])
        b = comp.refused([c.render() for c in right])
        total += len(cases); refused_n += len(a)
        for c in cases:
            l = getattr(c, "kind", None) or type(c).__name__
            labels[("refused: " if expect(c) else "accepted: ") + l] = labels.get(("refused: " if expect(c) else "accepted: ") + l, 0) + 1
            keys.add(c.render())
        r = random.Random(seed)
        for c in r.sample(wrong, 4) + r.sample(right, 2): samples.append(("must be refused: " + "; ".join(c.reasons()) if expect(c) else "must be accepted") + ":\n" + c.render()[:700])
        found += [(c, None) for i, c in enumerate(wrong) if i not in a] + [(right[i], why) for i, why in sorted(b.items())]
        if found: break
    known = []
    try:
        for l in open(os.path.join(root, "known-findings.txt")):
            if l.startswith(f"finding: property={id} "): known.append(l.split(" ", 2)[2].strip())
    except OSError: pass
    shown = 0
    for c, why in found[:1]:
        c, why = shrink(comp, c, why)
        text = c.render()
        head = ("accepted, though it has to be refused: " + "; ".join(c.reasons())) if expect(c) else f"refused ({why}), though nothing is wrong with it"
        os.makedirs(os.path.join(root, "replays"), exist_ok=True)
        path = os.path.join(root, "replays", f"{id}-{hashlib.sha1(text.encode()).hexdigest()[:8]}.txt")
        with open(path, "w") as f: f.write(f"property={id}\nexpect={'refused' if expect(c) else 'accepted'}\nmessage={head}\n# run again: ./check {id} --replay {path}\n----\n{text}\n")
        print(head); print(text)
        print(f"VIOLATION property={id} replay={path}"); shown += 1
    for k in known: print(f"KNOWN-FINDING: property={id} {k}")
    ev = {"property": id, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": len(found), "assumptions": ["a program counts as refused when the compiler reports an error inside of it"],
          "coverage": {"evaluations": total, "distinct_nontrivial": len(keys), "rule": RULE[id], "refused": refused_n, "compilations": comp.runs, "labels": labels, "samples": samples[:14]}}
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    with open(os.path.join(root, "evidence", f"{id}.json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{id}: {total} cases, {len(keys)} distinct non-trivial, {len(found)} violation(s), {time.time() - t0:.1f}s")
    return 1 if found else 0
def shrink(comp, c, why):
    end = time.time() + 60; again = True
    while again and time.time() < end:
        again = False
        cands = [d for d in c.smaller() if expect(d) == expect(c) and not (isinstance(d, Def) and unclear(d))]
        if not cands: break
        bad = comp.refused([d.render() for d in cands])
        for i, d in enumerate(cands):
            if (i in bad) != expect(d): c, why, again = d, bad.get(i), True; break
    return c, why
def replay(id, comp, path):
    t = open(path).read()
    want = "expect=refused" in t.split("----\n")[0]
    text = t.split("----\n", 1)[1]
    print(text)
    bad = comp.refused([text])
    if bool(bad) == want: print("replay passes: the property holds for this input"); return 0
    print("the compiler " + (f"refuses it: {bad[0]}" if bad else "accepts it"))
    print(f"VIOLATION property={id} replay={path}")
    return 1
