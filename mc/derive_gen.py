"""Generates crates of derived declarations together with an independent
description of what they mean, builds them, and decides which declarations the
derives have to refuse."""
import itertools, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target")
STYLES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def thorough():
    return os.environ.get("VERIF_TIER") == "thorough"


# ------------------------------------------------------------------ names

def aup(s):
    return "".join(c.upper() if c.isascii() else c for c in s)


def alow(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def unraw(ident):
    return ident[2:] if ident.startswith("r#") else ident


def pascal(s):
    return "".join(aup(w[:1]) + w[1:] for w in s.split("_"))


def field_name(ident, style):
    s = unraw(ident)
    if style in (None, "lowercase", "snake_case"):
        return s
    if style in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return aup(s)
    if style == "PascalCase":
        return pascal(s)
    if style == "camelCase":
        # the first word as it is
        w = [x for x in s.split("_") if x]
        return "".join(w[:1] + [aup(x[0]) + x[1:] for x in w[1:]])
    if style == "kebab-case":
        return s.replace("_", "-")
    if style == "SCREAMING-KEBAB-CASE":
        return aup(s).replace("_", "-")
    raise ValueError(style)


def variant_name(ident, style):
    s = unraw(ident)
    if style in (None, "PascalCase"):
        return s
    if style == "lowercase":
        return alow(s)
    if style == "UPPERCASE":
        return aup(s)
    if style == "camelCase":
        return alow(s[0]) + s[1:]
    snake = "".join(("_" if i and c.isupper() else "") + c for i, c in enumerate(s))
    if style == "snake_case":
        return alow(snake)
    if style == "SCREAMING_SNAKE_CASE":
        return aup(snake)
    if style == "kebab-case":
        return alow("".join(("-" if i and c.isupper() else "") + c for i, c in enumerate(s)))
    if style == "SCREAMING-KEBAB-CASE":
        return aup("".join(("-" if i and c.isupper() else "") + c for i, c in enumerate(s)))
    raise ValueError(style)


def rs(s):
    """A Rust string literal."""
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c.isprintable():
            out += c
        else:
            out += "\\u{%x}" % ord(c)
    return out + '"'


# ----------------------------------------------------------- declarations

U64, BOOL, STR, UNIT = ("u64",), ("bool",), ("String",), ("()",)


def opt(t):
    return ("opt", t)


def vec(t):
    return ("vec", t)


def box(t):
    return ("box", t)


def st(d):
    return ("struct", d)


def en(d):
    return ("enum", d)


def rust_ty(t):
    k = t[0]
    if k == "opt":
        return "Option<%s>" % rust_ty(t[1])
    if k == "vec":
        return "Vec<%s>" % rust_ty(t[1])
    if k == "box":
        return "Box<%s>" % rust_ty(t[1])
    if k in ("struct", "enum"):
        return "super::%s::%s" % (t[1].mod, t[1].ident)
    return k


def desc_ty(t):
    k = t[0]
    if k in ("opt", "vec", "box"):
        return "Ty::%s(&%s)" % (k.capitalize(), desc_ty(t[1]))
    if k == "struct":
        return "Ty::Struct(&super::%s::DECL)" % t[1].mod
    if k == "enum":
        return "Ty::Enum(&super::%s::DECL)" % t[1].mod
    return {"u64": "Ty::U64", "bool": "Ty::Bool", "String": "Ty::Str", "()": "Ty::Unit"}[k]


def dval(t, n):
    """A value of the type that tells where it comes from."""
    k = t[0]
    if k == "u64":
        return "num(%d)" % n
    if k == "bool":
        return "boolean(%s)" % ("true" if n else "false")
    if k == "String":
        return "text(%s)" % rs("d%d" % n if n else "")
    if k == "()":
        return "null()"
    if k == "opt":
        return dval(t[1], n) if n else "null()"
    if k == "vec":
        return "list(vec![%s])" % (dval(t[1], n) if n else "")
    if k == "box":
        return dval(t[1], n)
    if k == "struct":
        return "list(vec![%s])" % ", ".join(dval(f.ty, n) for f in t[1].fields)
    if k == "enum":
        return "num(%d)" % (min(n, len(t[1].variants) - 1))
    raise ValueError(t)


class Fld:
    def __init__(self, ident, ty, rename=None, aliases=(), default=None, skip=False, flat=False):
        self.ident, self.ty, self.rename, self.aliases = ident, ty, rename, tuple(aliases)
        self.default, self.skip, self.flat = default, skip, flat

    def name(self, style):
        return self.rename if self.rename is not None else field_name(self.ident, style)

    def skip_paths(self):
        """The predicate and its meaning."""
        if self.skip == "own":
            return {"opt": ("Option::is_none", "is_null"), "vec": ("Vec::is_empty", "is_nothing"), "String": ("String::is_empty", "is_nothing")}[self.ty[0]]
        return {True: ("low", "is_low"), "high": ("high", "is_high"), "any": ("any", "is_any"), "never": ("mc_decl::never", "is_never")}[self.skip]

    def attrs(self):
        a = []
        if self.rename is not None:
            a.append("rename = %s" % rs(self.rename))
        a += ["alias = %s" % rs(x) for x in self.aliases]
        if self.default == "impl":
            a.append("default")
        if self.default == "path":
            a.append('default = "df_%s"' % unraw(self.ident))
        if self.skip:
            a.append('skip_serializing_if = "%s"' % self.skip_paths()[0])
        if self.flat:
            a.append("flatten")
        return a


class Dcl:
    """A struct declaration."""
    n = 0

    def __init__(self, fields, rename=None, rename_all=None, cdefault=None, skip_opt=False):
        self.fields, self.rename, self.rename_all = fields, rename, rename_all
        self.cdefault, self.skip_opt = cdefault, skip_opt

    def place(self, i):
        self.mod, self.ident, self.id = "m%d" % i, "S%d" % i, i

    def name(self):
        return self.rename if self.rename is not None else self.ident

    def ok(self):
        names = [n for f in self.fields if not f.flat for n in (f.name(self.rename_all),) + f.aliases]
        return len(names) == len(set(names))

    def attrs(self):
        a = []
        if self.rename is not None:
            a.append("rename = %s" % rs(self.rename))
        if self.rename_all:
            a.append("rename_all = %s" % rs(self.rename_all))
        if self.cdefault == "impl":
            a.append("default")
        if self.cdefault == "path":
            a.append('default = "cd"')
        if self.skip_opt:
            a.append("skip_serializing_optionals")
        return a

    def text(self):
        s = ""
        if self.attrs():
            s += "#[deser(%s)] " % ", ".join(self.attrs())
        s += "struct %s { " % self.ident
        for f in self.fields:
            if f.attrs():
                s += "#[deser(%s)] " % ", ".join(f.attrs())
            s += "%s: %s, " % (f.ident, re.sub(r"super::m\d+::", "", rust_ty(f.ty)))
        return s + "}"

    def rust(self):
        out = ["pub mod %s {" % self.mod, "use mc_decl::*;", "use deser::{Serialize, Deserialize};"]
        out.append("#[derive(Serialize, Deserialize)]")
        # attributes one by one in separate attributes for every other declaration
        for a in ([self.attrs()] if self.id % 2 else [[x] for x in self.attrs()]):
            if a:
                out.append("#[deser(%s)]" % ", ".join(a))
        out.append("pub struct %s {" % self.ident)
        for f in self.fields:
            for a in ([f.attrs()] if self.id % 3 else [[x] for x in f.attrs()]):
                if a:
                    out.append("#[deser(%s)]" % ", ".join(a))
            out.append("pub %s: %s," % (f.ident, rust_ty(f.ty)))
        out.append("}")
        fs = []
        for i, f in enumerate(self.fields):
            default = "None"
            if f.default:
                num = self.id * 10 + i + 1
                val = dval(f.ty, 0 if f.default == "impl" else 70 + i)
                default = "Some((dv_%d, %d))" % (i, num)
                out.append("fn dv_%d() -> Val { %s }" % (i, val))
                if f.default == "path":
                    out.append("pub fn df_%s() -> %s { called(%d); F::make(&dv_%d()) }" % (unraw(f.ident), rust_ty(f.ty), num, i))
            fs.append("Field { ident: %s, name: %s, aliases: &[%s], ty: %s, default: %s, skip: %s, flat: %s }" % (
                rs(f.ident), rs(f.name(self.rename_all)), ", ".join(map(rs, f.aliases)), desc_ty(f.ty), default,
                "Some(%s)" % f.skip_paths()[1] if f.skip else "None", "true" if f.flat else "false"))
        cd = "None"
        num = self.id * 10
        if self.cdefault:
            cd = "Some((cdv, %d))" % num
            out.append("fn cdv() -> Val { list(vec![%s]) }" % ", ".join(dval(f.ty, 80 + i) for i, f in enumerate(self.fields)))
            out.append("pub fn cd() -> %s { called(%d); F::make(&cdv()) }" % (self.ident, num))
        if self.cdefault == "path":
            # never to be used
            out.append("impl Default for %s { fn default() -> Self { called(u32::MAX); F::make(&list(vec![%s])) } }" % (
                self.ident, ", ".join(dval(f.ty, 60) for f in self.fields)))
        elif self.cdefault:
            out.append("impl Default for %s { fn default() -> Self { cd() } }" % self.ident)
        else:
            out.append("impl Default for %s { fn default() -> Self { F::make(&list(vec![%s])) } }" % (
                self.ident, ", ".join(dval(f.ty, 0) for f in self.fields)))
        out.append("pub static DECL: Decl = Decl { name: %s, text: %s, fields: &[%s], cdefault: %s, skip_opt: %s };" % (
            rs(self.name()), rs(self.text()), ", ".join(fs), cd, "true" if self.skip_opt else "false"))
        out.append("impl F for %s {" % self.ident)
        out.append("fn make(v: &Val) -> Self { let v = items(v); %s { %s } }" % (
            self.ident, ", ".join("%s: F::make(&v[%d])" % (f.ident, i) for i, f in enumerate(self.fields))))
        out.append("fn see(&self) -> Val { list(vec![%s]) }" % ", ".join("self.%s.see()" % f.ident for f in self.fields))
        out.append("}")
        out.append("impl Subject for %s { const DECL: &'static Decl = &DECL; }" % self.ident)
        out.append("}")
        return "\n".join(out)

    def entry(self, group):
        return "Entry::new::<%s::%s>(%s)" % (self.mod, self.ident, rs(group))


class EDcl:
    """An enum declaration."""

    def __init__(self, variants, rename=None, rename_all=None):
        # (ident, rename, aliases)
        self.variants, self.rename, self.rename_all = variants, rename, rename_all

    def place(self, i):
        self.mod, self.ident, self.id = "m%d" % i, "E%d" % i, i

    def names(self):
        return [v[1] if v[1] is not None else variant_name(v[0], self.rename_all) for v in self.variants]

    def ok(self):
        names = self.names() + [a for v in self.variants for a in v[2]]
        return len(names) == len(set(names))

    def body(self, sep):
        s = ""
        a = []
        if self.rename is not None:
            a.append("rename = %s" % rs(self.rename))
        if self.rename_all:
            a.append("rename_all = %s" % rs(self.rename_all))
        if a:
            s += "#[deser(%s)]%s" % (", ".join(a), sep)
        s += "pub enum %s {%s" % (self.ident, sep)
        for ident, rename, aliases in self.variants:
            a = []
            if rename is not None:
                a.append("rename = %s" % rs(rename))
            a += ["alias = %s" % rs(x) for x in aliases]
            if a:
                s += "#[deser(%s)]%s" % (", ".join(a), sep)
            s += "%s,%s" % (ident, sep)
        return s + "}"

    def rust(self):
        out = ["pub mod %s {" % self.mod, "use mc_decl::*;", "use deser::{Serialize, Deserialize};"]
        out.append("#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]")
        out.append(self.body("\n"))
        out.append("pub static DECL: EnumDecl = EnumDecl { text: %s, variants: &[%s] };" % (
            rs(self.body(" ")), ", ".join("(%s, &[%s])" % (rs(n), ", ".join(map(rs, v[2]))) for n, v in zip(self.names(), self.variants))))
        out.append("const ALL: &[%s] = &[%s];" % (self.ident, ", ".join("%s::%s" % (self.ident, v[0]) for v in self.variants)))
        out.append("impl F for %s {" % self.ident)
        out.append("fn make(v: &Val) -> Self { ALL[index(v)] }")
        out.append("fn see(&self) -> Val { num(ALL.iter().position(|x| x == self).unwrap() as u64) }")
        out.append("}")
        if self.variants:
            out.append("impl Default for %s { fn default() -> Self { ALL[0] } }" % self.ident)
        out.append("impl EnumSubject for %s { const DECL: &'static EnumDecl = &DECL; }" % self.ident)
        out.append("}")
        return "\n".join(out)

    def entry(self, group):
        return "Entry::new_enum::<%s::%s>(%s)" % (self.mod, self.ident, rs(group))


class Space:
    """Groups of declarations and the declarations they mention."""

    def __init__(self):
        self.groups = []

    def add(self, name, decls):
        decls = [d for d in decls if d.ok()]
        self.groups.append((name, decls))


def mentioned(d):
    """Declarations a declaration needs, itself last."""
    out = []

    def ty(t):
        if t[0] in ("opt", "vec", "box"):
            ty(t[1])
        elif t[0] in ("struct", "enum"):
            go(t[1])

    def go(d):
        if isinstance(d, Dcl):
            for f in d.fields:
                ty(f.ty)
        if d not in out:
            out.append(d)

    go(d)
    return out


CONTAINERS = [
    dict(),
    dict(cdefault="impl"),
    dict(cdefault="path"),
    dict(skip_opt=True, rename_all="camelCase"),
    dict(rename="Re Named", cdefault="impl", skip_opt=True, rename_all="SCREAMING-KEBAB-CASE"),
]


def space_decl():
    s = Space()
    inner = Dcl([Fld("k_k", U64), Fld("m", opt(BOOL))])
    inner2 = Dcl([Fld("k", U64, default="path"), Fld("m", STR)], rename_all="UPPERCASE", skip_opt=True)
    kind = EDcl([("Ab", None, ()), ("Cd", "c d", ("q",))], rename_all="snake_case")
    types = [U64, BOOL, STR, UNIT, opt(U64), opt(STR), vec(U64), vec(opt(U64)), box(U64), box(STR), opt(box(U64)), opt(vec(U64)), opt(opt(U64)), st(inner), opt(st(inner)), vec(st(inner2)), box(st(inner2)), en(kind), opt(en(kind))]

    # one field, everything about deserialization
    ds = []
    for t in types:
        for fd in (None, "impl", "path"):
            for cd in (None, "impl", "path"):
                for rename, aliases in ((None, ()), ("re", ()), (None, ("al",)), ("re", ("al", "a_a")), (None, ("a_a ", "A_A"))):
                    if t[0] == "opt" and t[1][0] == "opt" and (fd or cd):
                        continue
                    ds.append(Dcl([Fld("a_a", t, rename, aliases, fd)], cdefault=cd))
    s.add("one field, names and defaults", ds)

    # one field, everything about serialization
    ds = []
    for t in types:
        for skip in (False, True):
            for so in (False, True):
                for rename, ra, cn in ((None, None, None), ("re", "UPPERCASE", "other"), (None, "camelCase", ""), (None, "SCREAMING-KEBAB-CASE", "ü x")):
                    for al, fd in (((), None), (("al",), "path")):
                        if t[0] == "opt" and t[1][0] == "opt" and fd:
                            continue
                        ds.append(Dcl([Fld("a_a", t, rename, al, fd, skip)], rename=cn, rename_all=ra, skip_opt=so))
    s.add("one field, selection and names", ds)

    def profiles(i, ident, k):
        """Ways to declare a field."""
        p = [
            Fld(ident, U64),
            Fld(ident, opt(U64)),
            Fld(ident, U64, default="path", skip=True),
            Fld(ident, UNIT),
            Fld(ident, opt(U64), default="path", rename="x%d" % i, aliases=("y%d" % i,)),
            Fld(ident, STR, aliases=("z%d" % i, "zz%d" % i)),
            Fld(ident, U64, default="impl"),
            Fld(ident, st(inner), skip=True),
            Fld(ident, vec(U64), skip=True, default="impl"),
            Fld(ident, en(kind), aliases=("w%d" % i,)),
            Fld(ident, opt(st(inner2)), rename="r %d" % i),
        ]
        return p[:k]

    ds = []
    for c in CONTAINERS:
        for a in profiles(0, "a_f", 11):
            for b in profiles(1, "b_g", 11):
                ds.append(Dcl([a, b], **c))
    s.add("two fields", ds)

    ds = []
    for c in CONTAINERS if thorough() else CONTAINERS[:4]:
        k = 8 if thorough() else 5
        for a in profiles(0, "a_f", k):
            for b in profiles(1, "b_g", k):
                for x in profiles(2, "c_h_i", k):
                    ds.append(Dcl([a, b, x], **c))
    s.add("three fields", ds)

    # predicates and optionals
    ds = []
    preds = (False, True, "high", "any", "never")
    for so in (False, True):
        for t in (U64, STR, UNIT, opt(U64), opt(vec(U64)), vec(U64), box(opt(U64)), opt(st(inner)), st(inner2), box(UNIT)):
            for sk in preds + (("own",) if t[0] in ("opt", "vec", "String") else ()):
                ds.append(Dcl([Fld("a", t, skip=sk)], skip_opt=so))
                ds.append(Dcl([Fld("b", opt(U64)), Fld("a", t, skip=sk), Fld("c", UNIT, skip="never")], skip_opt=so))
        for x, y, z in itertools.product(preds, repeat=3):
            ds.append(Dcl([Fld("a", opt(U64), skip=x), Fld("b", U64, skip=y), Fld("c", opt(STR), skip=z)], skip_opt=so))
    s.add("predicates", ds)

    # names and aliases crossing
    ds = []
    for ra in (None, "PascalCase"):
        for r1, r2 in itertools.product((None, "a", "b", "c"), repeat=2):
            for al1, al2 in itertools.product(((), ("a",), ("b",), ("c", "A")), repeat=2):
                d = Dcl([Fld("a", U64, r1, al1), Fld("b", opt(U64), r2, al2)], rename_all=ra)
                ds.append(d)
    s.add("crossing names", ds)

    # many fields
    ds = []
    for n in (0, 4, 5, 8, 12, 40, 63, 64, 65, 129, 300):
        for c in CONTAINERS if n <= 40 else CONTAINERS[:1]:
            ps = [profiles(i, "f_%d" % i, 6)[(i * 7 + n) % 6] for i in range(n)]
            ds.append(Dcl(ps, **c))
    s.add("many fields", ds)

    # enums
    ds = []
    for ra in (None, "snake_case", "UPPERCASE"):
        ds.append(EDcl([("OnlyOne", None, ())], rename_all=ra))
        for r, al in itertools.product((None, "a", "Bb", "", "OnlyTwo"), ((), ("x",), ("a", "A"), ("Bb",))):
            ds.append(EDcl([("Aa", r, al), ("Bb", None, ())], rename_all=ra))
            ds.append(EDcl([("Bb", None, ("q",)), ("OnlyTwo", r, al), ("Aa", None, ())], rename_all=ra, rename="E"))
    ds.append(EDcl([("V%d" % i, None, ("w%d" % i,) if i % 3 else ()) for i in range(60)]))
    ds.append(EDcl([("V%d" % i, None, ("w%d" % i,) if i % 3 else ()) for i in range(300)], rename_all="snake_case"))
    s.add("enums", ds)
    return s


def space_flat():
    s = Space()
    leaf = Dcl([Fld("p", U64)])
    inners = [
        Dcl([Fld("a", U64)]),
        Dcl([Fld("b", opt(U64)), Fld("a", U64, default="path")]),
        Dcl([Fld("b", U64, skip=True)], skip_opt=True),
        Dcl([Fld("x_y", opt(U64)), Fld("u", UNIT)], rename_all="camelCase", skip_opt=True),
        Dcl([Fld("k", U64, rename="a", aliases=("b", "c"))]),
        Dcl([Fld("a", U64), Fld("c", U64)], cdefault="impl"),
        Dcl([Fld("c", st(leaf)), Fld("d", vec(U64))]),
        Dcl([]),
        Dcl([Fld("m", st(leaf), flat=True), Fld("b", U64)]),
        Dcl([Fld("b", opt(U64)), Fld("m", st(leaf), flat=True)], cdefault="path", skip_opt=True),
    ]
    nested2 = Dcl([Fld("q", U64), Fld("in2", st(inners[8]), flat=True), Fld("r", opt(U64))])
    nested3 = Dcl([Fld("in3", st(nested2), flat=True)], rename_all="UPPERCASE")
    twice = Dcl([Fld("i1", st(inners[1]), flat=True), Fld("i2", st(inners[5]), flat=True)])
    hidden = Dcl([Fld("i1", st(inners[3]), flat=True, skip=True), Fld("b", U64, default="impl")])
    deep = [nested2, nested3, twice, hidden]
    conts = [dict(), dict(skip_opt=True), dict(cdefault="impl"), dict(rename_all="UPPERCASE", cdefault="path")]

    ds = []
    for x in inners + deep:
        for c in conts:
            for skip in (False, True):
                f = lambda skip=skip: Fld("fl", st(x), flat=True, skip=skip)
                if not skip or c in conts[:2]:
                    ds.append(Dcl([f()], **c))
                    ds.append(Dcl([Fld("a", U64), f()], **c))
                    ds.append(Dcl([f(), Fld("a", U64, default="path")], **c))
                    ds.append(Dcl([Fld("n", opt(U64), skip=True), f(), Fld("b", STR, aliases=("p",))], **c))
    for x in inners + deep:
        ds.append(Dcl([Fld("fl", box(st(x)), flat=True), Fld("b", opt(U64))]))
        ds.append(Dcl([Fld("fl", st(x), flat=True, rename="a", aliases=("zz",)), Fld("b", opt(U64))]))
    s.add("one flattened struct", ds)

    ds = []
    for x in inners + deep[:2]:
        for y in inners + deep[:2]:
            ds.append(Dcl([Fld("f1", st(x), flat=True), Fld("f2", st(y), flat=True)]))
            ds.append(Dcl([Fld("a", opt(U64)), Fld("f1", st(x), flat=True), Fld("o", UNIT), Fld("f2", st(y), flat=True), Fld("z", U64, default="impl")], skip_opt=True))
    s.add("two flattened structs", ds)

    # predicates around and inside of flattened structs
    ds = []
    preds = (False, True, "high", "any")
    part = Dcl([Fld("p", opt(U64), skip="high"), Fld("q", U64, skip="any"), Fld("r", opt(U64))])
    for so in (False, True):
        for x, y, z in itertools.product(preds, repeat=3):
            ds.append(Dcl([Fld("a", opt(U64), skip=x), Fld("f1", st(inners[0]), flat=True, skip=y), Fld("b", U64, skip=z)], skip_opt=so))
            ds.append(Dcl([Fld("f1", st(part), flat=True, skip=x), Fld("a", U64, skip=y), Fld("f2", st(inners[6]), flat=True, skip=z)], skip_opt=so))
            ds.append(Dcl([Fld("f1", st(inners[7]), flat=True, skip=x), Fld("f2", st(inners[3]), flat=True, skip=y), Fld("f3", box(st(part)), flat=True, skip=z)], skip_opt=so))
    s.add("predicates and flattened structs", ds)

    if thorough():
        ds = []
        for x, y, z in itertools.product(inners[:6] + inners[8:9], repeat=3):
            ds.append(Dcl([Fld("f1", st(x), flat=True), Fld("f2", st(y), flat=True), Fld("f3", st(z), flat=True)]))
        s.add("three flattened structs", ds)

    # deep chains
    ds = []
    d = Dcl([Fld("base", U64)])
    for i in range(12):
        d = Dcl([Fld("l%d" % i, opt(U64)), Fld("next", st(d), flat=True)] if i % 2 else [Fld("next", st(d), flat=True), Fld("l%d" % i, U64, default="path")])
        if i in (2, 5, 11):
            ds.append(d)
    s.add("chains of flattened structs", ds)

    # flattened structs as fields, elements and options
    ds = []
    for x in inners[:6] + deep:
        o = Dcl([Fld("f", st(x), flat=True), Fld("t", opt(U64))])
        ds.append(Dcl([Fld("s", st(o)), Fld("v", vec(st(o))), Fld("o", opt(st(o)))]))
    s.add("structs with flattened structs inside", ds)
    return s


def identifiers(alphabet, n):
    out = []
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            x = "".join(t)
            if not x[0].isdigit() and x != "_":
                out.append(x)
    return out


WORDS = ["user_id", "id", "utf8_string", "x2_y3", "HTTPServer", "aVeryMixed_Name_9", "_private", "__dunder__", "trailing_", "a__b", "snake_case_with_many_words", "SCREAMING", "W" * 60 + "_x",
         "r#type", "r#fn", "r#match", "r#dyn", "r#async", "r#box", "straße", "über_groß", "Ñandú", "éa_éb", "_ñ", "naïve_É", "ж_д", "日本_語"]
VWORDS = ["User", "HTTPServer", "Utf8String", "X2Y3", "lower", "Mixed_Name", "A" * 40, "_Private", "Trailing_", "r#Type", "r#fn", "r#match", "Straße", "ÜberGroß", "ÉtéÀ", "Ñ", "日本", "ЖД"]
RENAMES = ["", " ", "a b", "ünï", "a.b", 'q"uote', "back\\slash", "r#type", "__", "new\nline", "\x00", "😀", "UPPER", "x" * 200, "self", "0", "{}", "{", "%s", "'"]


def packed(idents, name, make):
    """Declarations without coinciding names, as few as possible."""
    groups = []
    for i in idents:
        n = name(i)
        for g in groups:
            if n not in g:
                g[n] = i
                break
        else:
            groups.append({n: i})
    return [make(list(g.values())) for g in groups]


def space_names():
    s = Space()
    fs = identifiers("aB_1", 5 if thorough() else 4) + WORDS
    vs = identifiers("Ab_1", 5 if thorough() else 4) + VWORDS
    for style in [None] + STYLES:
        s.add("fields: %s" % style, packed(fs, lambda i: field_name(i, style), lambda g: Dcl([Fld(i, opt(U64)) for i in g], rename_all=style)))
        s.add("variants: %s" % style, packed(vs, lambda i: variant_name(i, style), lambda g: EDcl([(i, None, ()) for i in g], rename_all=style)))
        # explicit names win, aliases stay as they are
        ds, es = [], []
        for i, r in enumerate(RENAMES):
            ds.append(Dcl([Fld("a_b", opt(U64), r), Fld("cD", opt(U64))], rename_all=style))
            ds.append(Dcl([Fld("a_b", opt(U64), None, (r, "a_b ", "C_d")), Fld("r#type", opt(U64), "type " + r, ("B",))], rename_all=style))
            es.append(EDcl([("AbCd", r, ()), ("Ef", None, ())], rename_all=style))
            es.append(EDcl([("AbCd", None, (r, "x_y", "AB")), ("Ef", "Ef " + r, ("type",))], rename_all=style))
        s.add("explicit field names: %s" % style, ds)
        s.add("explicit variant names: %s" % style, es)
    return s


# ---------------------------------------------------------------- building

PROFILE = """
[profile.release]
opt-level = 2
debug-assertions = true
overflow-checks = true
codegen-units = 16
incremental = false
"""


def env_for():
    e = dict(os.environ)
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "-Awarnings"
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return e


class Refused(Exception):
    """A generated declaration does not compile although deser does."""

    def __init__(self, msgs):
        self.msgs = msgs


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def dep(p):
    return '{ path = "%s" }' % os.path.join(ROOT, "mc", p)


DEPS = 'mc-decl = %s\nmc-core = %s\nmc-vals = %s\ndeser = { path = "/repo/deser", features = ["derive"] }\ndeser-json = { path = "/repo/deser-json" }\n'


def crates_of(space, k):
    """Distributes declarations over crates."""
    parts = [[] for _ in range(k)]
    n = 0
    for name, ds in space.groups:
        for i in range(0, len(ds), 20):
            parts[n % k].append((name, ds[i:i + 20]))
            n += 1
    out = []
    for part in parts:
        mods, entries = [], []
        for name, ds in part:
            for d in ds:
                for x in mentioned(d):
                    if x not in mods:
                        mods.append(x)
                entries.append((name, d))
        for i, d in enumerate(mods):
            d.place(i)
        text = "#![allow(warnings)]\nuse mc_decl::Entry;\n"
        text += "\n".join(d.rust() for d in mods)
        text += "\npub static ENTRIES: &[Entry] = &[%s];\n" % ",\n".join(d.entry(name) for name, d in entries)
        out.append(text)
    return out


def cargo_build(gen, tdir, bins):
    """Builds a generated package. Returns the messages of errors inside of
    generated sources or raises SystemExit when something else is wrong."""
    cmd = ["cargo", "build", "--release", "--offline", "-q", "--message-format=json", "--manifest-path", os.path.join(gen, "Cargo.toml"), "--target-dir", tdir, "--keep-going"]
    r = subprocess.run(cmd, env=env_for(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode == 0:
        return []
    inside, other = [], []
    for line in r.stdout.split("\n"):
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        if m["message"]["message"].startswith("aborting due to"):
            continue
        (inside if m["target"]["name"] not in bins and "/gen/" in m.get("manifest_path", "") else other).append(m)
    if inside and not other:
        return inside
    print((r.stdout if not other else "\n".join(m["message"]["rendered"] or "" for m in other))[-5000:])
    print(r.stderr[-4000:])
    print("ERROR: cannot build generated harness")
    sys.exit(2)


def describe(gen, m):
    """The declaration an error is about."""
    span = None
    for sp in m["message"]["spans"]:
        while sp.get("expansion") and sp["expansion"].get("span"):
            sp = sp["expansion"]["span"]
        if span is None or sp["is_primary"]:
            span = sp
    msg = m["message"]["message"]
    if span is None:
        return msg
    path = span["file_name"]
    for base in (gen, os.path.dirname(os.path.dirname(m["target"]["src_path"])), "/"):
        p = os.path.join(base, path)
        if os.path.exists(p):
            lines = open(p).read().split("\n")
            i = span["line_start"] - 1
            a = i
            while a > 0 and not lines[a].startswith("pub mod") and i - a < 12:
                a -= 1
            b = i
            while b < len(lines) - 1 and not lines[b].startswith("}") and b - i < 8:
                b += 1
            return "%s in:\n%s" % (msg, "\n".join(lines[a:b + 1])[:900])
    return "%s at %s:%d" % (msg, path, span["line_start"])


def build_variant(name):
    """Generates and builds the harness of a variant. Returns the binary."""
    t = time.time()
    gen = os.path.join(TARGET, "gen", name)
    shutil.rmtree(gen, ignore_errors=True)
    tdir = os.path.join(TARGET, name)
    k = 8
    if name == "gen-decl":
        texts = crates_of(space_decl(), k)
    elif name == "gen-flat":
        texts = crates_of(space_flat(), k)
    elif name == "gen-names":
        texts = crates_of(space_names(), k)
    else:
        raise ValueError(name)
    deps = DEPS % (dep("decl"), dep("core"), dep("vals"))
    prof = PROFILE
    toml = '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n\n[[bin]]\nname = "%s"\npath = "%s"\n\n[dependencies]\n%s' % (
        name, name, os.path.join(ROOT, "mc", "decl", "bin", "names.rs" if name == "gen-names" else "main.rs"), deps)
    for i in range(k):
        write(os.path.join(gen, "d%d" % i, "Cargo.toml"), '[package]\nname = "d%d"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n%s' % (i, deps))
        write(os.path.join(gen, "d%d" % i, "src", "lib.rs"), texts[i])
        toml += 'd%d = { path = "d%d" }\n' % (i, i)
        prof += "[profile.release.package.d%d]\nopt-level = 0\ncodegen-units = 4\n" % i
    members = ["d%d" % i for i in range(k)]
    if name == "gen-names":
        write(os.path.join(gen, "shapes", "Cargo.toml"), '[package]\nname = "shapes"\nversion = "0.0.0"\nedition = "2021"\n\n[lib]\npath = "%s"\n\n[dependencies]\n%s' % (
            os.path.join(ROOT, "mc", "decl", "shapes", "lib.rs"), deps))
        toml += 'shapes = { path = "shapes" }\n'
        members.append("shapes")
    toml += "\n[workspace]\nmembers = [%s]\n" % ", ".join('"d%d"' % i for i in range(k)) + prof
    write(os.path.join(gen, "Cargo.toml"), toml)
    shutil.copy(os.path.join(ROOT, "mc", "decl", "Cargo.lock"), os.path.join(gen, "Cargo.lock"))
    errs = cargo_build(gen, tdir, [name])
    if errs:
        raise Refused([describe(gen, m) for m in errs])
    print("generated and built %s in %.1fs" % (name, time.time() - t), flush=True)
    return os.path.join(tdir, "release", name)


# ------------------------------------------------- C29: what is to be refused

class Case:
    def __init__(self, group, derive, text, accept):
        self.group, self.derive, self.text, self.accept = group, derive, text, accept


def attr_texts(items, split):
    """Attributes holding the items in one or in separate attributes."""
    if not items:
        return ""
    if split:
        return " ".join("#[deser(%s)]" % i for i in items)
    return "#[deser(%s)]" % ", ".join(items)


# (text, key); key None for what is never right
CONT_OK = [('rename = "x"', "rename"), ('rename_all = "UPPERCASE"', "rename_all"), ("default", "default"), ('default = "mks"', "default"), ("skip_serializing_optionals", "skip")]
FIELD_OK = [('rename = "x"', "rename"), ('alias = "y"', "alias y"), ('alias = "z"', "alias z"), ("default", "default"), ('default = "mk"', "default"), ("flatten", "flatten"), ('skip_serializing_if = "sk"', "skip")]
VAR_OK = [('rename = "x"', "rename"), ('alias = "y"', "alias y"), ('alias = "z"', "alias z")]

NEVER = ["foo", 'foo = "x"', 'foo("x")', "Rename", 'renameall = "UPPERCASE"', "rename", "rename = 1", "rename = b\"x\"", "rename = 'x'", "rename = true", 'rename("x")', 'a::rename = "x"', '"x"', "1", "true",
         "default = 1", 'default = ""', 'default = "1 + 1"', 'default = "f()"', 'default("mk")', "default = true", "skip", 'skip = "x"', "skip_serializing", "deny_unknown_fields", "transparent", 'tag = "x"', "rename_all = 1", "rename_all",
         'rename_all("UPPERCASE")', "a::default"]
CONT_BAD = NEVER + ['rename_all = "other"', 'rename_all = ""', 'rename_all = "camelcase"', 'rename_all = "CamelCase"', 'rename_all = " lowercase"', 'skip_serializing_optionals = "x"', "skip_serializing_optionals = true",
                    'skip_serializing_optionals("x")', 'alias = "y"', "flatten", 'skip_serializing_if = "sk"', "alias"]
FIELD_BAD = NEVER + ['rename_all = "UPPERCASE"', "skip_serializing_optionals", "alias", "alias = 1", 'alias("y")', "alias = 'y'", 'flatten = "x"', 'flatten("x")', "flatten = true", "skip_serializing_if", "skip_serializing_if = 1",
                     'skip_serializing_if = ""', 'skip_serializing_if = "!f"', 'skip_serializing_if("sk")']
VAR_BAD = NEVER + ['rename_all = "UPPERCASE"', "default", 'default = "mk"', "flatten", 'skip_serializing_if = "sk"', "skip_serializing_optionals", "alias", "alias = 1", 'alias("y")']
MALFORMED = ["#[deser]", '#[deser = "x"]', "#[deser(a b)]", '#[deser(rename "x")]', "#[deser(rename = x)]", '#[deser[rename = "x"]]', '#[deser{rename = "x"}]', "#[deser(=)]", "#[deser(,)]", '#[deser(rename = "x",,)]',
             '#[deser(rename = "a" "b")]', '#[deser(rename = "x" default)]', "#[deser(rename = )]", "#[deser(+)]", "#[deser(rename == \"x\")]", "#[deser(-1)]", "#[deser((default))]", "#[deser(#)]", "#[deser = 1]"]
BOTH = ("Serialize", "Deserialize")


def structure(cont="", fa="", fb="", ta="u64", tb="u64"):
    return "%s struct S { %s a: %s, %s b: %s }" % (cont, fa, ta, fb, tb)


def dup(keys):
    return len(set(keys)) != len(keys)


def reject_cases():
    out = []

    def add(group, text, accept, derives=BOTH):
        for d in derives:
            a = accept[d] if isinstance(accept, dict) else accept
            out.append(Case(group, d, " ".join(text.split(" ")), a))

    # shapes
    g = "shapes"
    for attr in ("", '#[deser(rename = "x")]', "#[deser(default)]"):
        dflt = "#[derive(Default)] " if "default" in attr else ""
        for t, ok in [
            ("struct S;", False), ("struct S();", False), ("struct S(u64);", True), ("struct S(u64,);", True), ("struct S(u64, u64);", False), ("struct S(u64, u64, u64);", False),
            ("struct S<T>(T);", True), ("struct S<T>(T, T);", False), ("struct S<T>(T, u64) where T: Clone;", False), ("struct S {}", True), ("struct S { a: u64 }", True),
            ("struct S<T> { a: T }", True), ("struct S<T, const N: usize> where T: Clone { a: [T; N] }", True), ("struct S<T: Default> { a: T, }", True),
            ("struct S(pub Vec<u64>);", True), ("struct S(());", True), ("struct S((u64, u64));", True),
        ]:
            if ("const N" in t or t == "struct S<T> { a: T }") and dflt:
                continue
            add(g, attr + " " + (dflt if ok else "") + t, ok)
        for t, ok in [
            ("union S { a: u64 }", False), ("union S { a: u64, b: u64 }", False), ("enum S {}", True), ("enum S { A }", True), ("enum S { A, B, }", True), ("enum S { A = 3, B }", True),
            ("enum S { A(u64) }", False), ("enum S { A, B(u64) }", False), ("enum S { A(u64), B }", False), ("enum S { A, B { x: u64 } }", False), ("enum S { A(u64, u64), B }", False), ("enum S { A, B, C { x: u64, y: u64 }, D }", False),
            ("enum S { A(()) }", False), ("enum S<T> { A(T) }", False), ("enum S<T> { A, B(T) }", False), ("enum S<const N: usize> { A }", False), ("enum S<const N: usize> { A, B }", False), ("enum S<'a> { A(&'a str), B }", False),
        ]:
            if "Default" in t:
                continue
            add(g, attr + " " + t, ok)

    # container attributes
    bodies = [("struct S { a: u64, b: u64 }", True), ("struct S(u64);", False), ("enum S { A, B }", False), ("struct S<T: Default> { a: T }", True)]
    for body, needs in bodies:
        g = "container attributes of " + body
        for items in [[]] + [[i] for i in CONT_OK] + [[i, j] for i in CONT_OK for j in CONT_OK] + [list(p) for p in itertools.permutations(CONT_OK, 3)]:
            for split in (False, True):
                if split and len(items) < 2:
                    continue
                texts = [i[0] for i in items]
                ok = not dup([i[1] for i in items])
                d = "#[derive(Default)] " if ok and needs and "default" in texts else ""
                add(g, d + attr_texts(texts, split) + " " + body, ok)
        for s in STYLES:
            add(g, '#[deser(rename_all = "%s")] %s' % (s, body), True)
        for bad in CONT_BAD:
            add(g, "#[deser(%s)] %s" % (bad, body), False)
            for okay in CONT_OK:
                for items in ([okay[0], bad], [bad, okay[0]]):
                    for split in (False, True):
                        add(g, attr_texts(items, split) + " " + body, False)
        for m in MALFORMED:
            add(g, m + " " + body, False)
            add(g, '#[deser(rename = "q")] ' + m + " " + body, False)
            add(g, m + ' #[deser(rename = "q")] ' + body, False)

    # field attributes
    g = "field attributes"
    for items in [[i] for i in FIELD_OK] + [[i, j] for i in FIELD_OK for j in FIELD_OK] + [list(p) for p in itertools.permutations(FIELD_OK, 3)]:
        keys = [i[1] for i in items]
        flat = "flatten" in keys
        named = [k for k in keys if not k.startswith("alias")]
        for split in (False, True):
            if split and len(items) < 2:
                continue
            a = attr_texts([i[0] for i in items], split)
            ok = not dup(named) and not (flat and "default" in keys)
            # aliases of flattened fields are no names
            acc = {"Serialize": ok, "Deserialize": ok and (flat or not dup(keys))}
            ty = "super::Inner" if flat else "u64"
            add(g, structure(fa=a, ta=ty), acc)
            if len(items) < 3:
                add(g, structure(fb=a, tb=ty), acc)
    for where in (0, 1):
        for bad in FIELD_BAD:
            for items in [[bad]] + [p for o in FIELD_OK for p in ([o[0], bad], [bad, o[0]])]:
                for split in (False, True):
                    if split and len(items) < 2:
                        continue
                    a = attr_texts(items, split)
                    ty = "super::Inner" if "flatten" in items else "u64"
                    add(g, structure(fa=a, ta=ty) if where == 0 else structure(fb=a, tb=ty), False)
        for m in MALFORMED:
            for a in (m, '#[deser(alias = "y")] ' + m, m + ' #[deser(alias = "y")]'):
                add(g, structure(fa=a) if where == 0 else structure(fb=a), False)

    # fields of newtypes
    g = "newtype field attributes"
    for item in [i[0] for i in FIELD_OK] + FIELD_BAD + ['rename = "x", alias = "y"']:
        add(g, "struct S(#[deser(%s)] u64);" % item, False)
        add(g, '#[deser(rename = "q")] struct S<T>(#[deser(%s)] T);' % item, False)
        add(g, "struct S(#[deser()] #[deser(%s)] u64);" % item, False)
    for m in MALFORMED:
        add(g, "struct S(%s u64);" % m, False)
    add(g, "struct S(#[deser()] u64);", True)
    add(g, "struct S(#[allow(dead_code)] u64);", True)

    # variant attributes
    g = "variant attributes"
    for items in [[i] for i in VAR_OK] + [[i, j] for i in VAR_OK for j in VAR_OK] + [list(p) for p in itertools.product(VAR_OK, repeat=3)]:
        keys = [i[1] for i in items]
        named = [k for k in keys if not k.startswith("alias")]
        for split in (False, True):
            if split and len(items) < 2:
                continue
            a = attr_texts([i[0] for i in items], split)
            acc = {"Serialize": not dup(named), "Deserialize": not dup(keys)}
            add(g, "enum S { %s A, B }" % a, acc)
            add(g, "enum S { A, %s B }" % a, acc)
    for bad in VAR_BAD:
        for items in [[bad]] + [p for o in VAR_OK[:2] for p in ([o[0], bad], [bad, o[0]])]:
            for split in (False, True):
                if split and len(items) < 2:
                    continue
                a = attr_texts(items, split)
                add(g, "enum S { %s A, B }" % a, False)
                add(g, "enum S { A, %s B }" % a, False)
    for m in MALFORMED:
        add(g, "enum S { %s A, B }" % m, False)
        add(g, "enum S { A, %s B }" % m, False)
        add(g, 'enum S { A, #[deser(rename = "q")] %s B }' % m, False)

    # coinciding names
    renames = (None, "a", "b", "c", "B")
    aliases = ((), ("a",), ("b",), ("c",), ("c", "d"), ("c", "c"), ("A",), ("d", "B"))
    prof = [(r, al) for r in renames for al in aliases]
    for style in (None, "UPPERCASE"):
        for p, q in itertools.product(prof, prof):
            def attrs(x):
                a = ([] if x[0] is None else ['rename = "%s"' % x[0]]) + ['alias = "%s"' % y for y in x[1]]
                return attr_texts(a, False)
            fn = [x[0] if x[0] is not None else field_name(i, style) for i, x in (("a", p), ("b", q))]
            names = [fn[0]] + list(p[1]) + [fn[1]] + list(q[1])
            c = '#[deser(rename_all = "%s")]' % style if style else ""
            add("coinciding field names", structure(c, attrs(p), attrs(q)), {"Serialize": True, "Deserialize": not dup(names)})
            # identifiers of variants written in upper case: only style differs
            vn = [x[0] if x[0] is not None else i for i, x in (("A", p), ("B", q))]
            names = [vn[0]] + list(p[1]) + [vn[1]] + list(q[1])
            add("coinciding variant names", "%s enum S { %s A, %s B }" % (c, attrs(p), attrs(q)), {"Serialize": True, "Deserialize": not dup(names)})
    idents = ["a_b", "aB", "AB", "a_B", "_ab", "ab", "a__b", "r#type", "type_"]
    for style in [None] + STYLES:
        c = '#[deser(rename_all = "%s")]' % style if style else ""
        for x, y in itertools.permutations(idents, 2):
            n = [field_name(x, style), field_name(y, style)]
            add("coinciding converted names", "%s struct S { %s: u64, m: u64, %s: u64 }" % (c, x, y), not dup(n), ("Deserialize",))
        vids = ["AbC", "Ab_c", "abC", "ABC", "AbcD", "a", "A", "r#Type", "TYPE"]
        for x, y in itertools.permutations(vids, 2):
            n = [variant_name(x, style), variant_name(y, style)]
            if "M" in n or "m" in n:
                continue
            add("coinciding converted names", "%s enum S { %s, M, %s }" % (c, x, y), not dup(n), ("Deserialize",))
        add("coinciding converted names", "%s struct S { %s }" % (c, " ".join("%s: u64," % i for i in idents)), True, ("Serialize",))
    for a, b, ok in [("flatten", "", True), ('flatten, rename = "b"', "", True), ('flatten, alias = "b"', "", True), ('flatten, rename = "a", alias = "a"', "", True), ("flatten", 'rename = "a"', True), ("flatten", 'alias = "b"', False)]:
        add("coinciding names and flattened fields", structure(fa=attr_texts([a], False), fb=attr_texts([b], False) if b else "", ta="super::Inner"), {"Serialize": True, "Deserialize": ok})
    if thorough():
        # three names, and what is wrong among more that is right
        for style in (None, "UPPERCASE"):
            c = '#[deser(rename_all = "%s")]' % style if style else ""
            small = [(r, al) for r in (None, "a", "b", "c") for al in ((), ("a",), ("b",), ("c",))]
            for ps in itertools.product(small, repeat=3):
                t, v, names, vnames = "", "", [], []
                for i, (r, al) in zip("abc", ps):
                    a = attr_texts(([] if r is None else ['rename = "%s"' % r]) + ['alias = "%s"' % y for y in al], False)
                    t += "%s %s: u64, " % (a, i)
                    v += "%s %s, " % (a, i)
                    names += [r if r is not None else field_name(i, style)] + list(al)
                    vnames += [r if r is not None else variant_name(i, style)] + list(al)
                add("coinciding names of three", "%s struct S { %s}" % (c, t), not dup(names), ("Deserialize",))
                add("coinciding names of three", "%s enum S { %s}" % (c, v), not dup(vnames), ("Deserialize",))
        for bad in CONT_BAD:
            for x, y in itertools.permutations(CONT_OK, 2):
                for items in ([bad, x[0], y[0]], [x[0], bad, y[0]], [x[0], y[0], bad]):
                    for body in ("struct S { a: u64 }", "enum S { A }", "struct S(u64);"):
                        add("one wrong of three", attr_texts(items, False) + " " + body, False)
        for bad in FIELD_BAD:
            for x, y in itertools.permutations(FIELD_OK, 2):
                for items in ([bad, x[0], y[0]], [x[0], bad, y[0]], [x[0], y[0], bad]):
                    for split in (False, True):
                        add("one wrong of three", structure(fb=attr_texts(items, split), tb="super::Inner" if "flatten" in items else "u64"), False)
        for bad in VAR_BAD:
            for x, y in itertools.permutations(VAR_OK, 2):
                for items in ([bad, x[0], y[0]], [x[0], bad, y[0]], [x[0], y[0], bad]):
                    add("one wrong of three", "enum S { A, %s B }" % attr_texts(items, False), False)
    # many fields, two of them coincide
    for n in (3, 8):
        for i, j in itertools.combinations(range(n), 2):
            f = ["f%d: u64" % k for k in range(n)]
            f[j] = '#[deser(alias = "f%d")] ' % i + f[j]
            add("coinciding names among many", "struct S { %s }" % ", ".join(f), {"Serialize": True, "Deserialize": False})
            v = ["V%d" % k for k in range(n)]
            v[i] = '#[deser(rename = "V%d")] ' % j + v[i]
            add("coinciding names among many", "enum S { %s }" % ", ".join(v), {"Serialize": True, "Deserialize": False})
    seen, uniq = set(), []
    for c in out:
        k = (c.derive, c.text)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    return uniq


def reject_crate(cases):
    lines = ["#![allow(warnings)]", "fn mk<T>() -> T { panic!() }", "fn sk<T>(_: &T) -> bool { false }", "#[derive(deser::Serialize, deser::Deserialize, Default)]", "pub struct Inner { inner: u64 }"]
    at = {}
    for i, c in enumerate(cases):
        at[len(lines) + 1] = i
        mks = ""
        if "mks" in c.text:
            mks = " fn mks<T: Default>() -> S<T> { panic!() }" if "S<T" in c.text else " fn mks() -> S { panic!() }"
        lines.append("mod m%d { use super::{mk, sk}; #[derive(deser::%s)] %s%s }" % (i, c.derive, c.text, mks))
    return "\n".join(lines) + "\n", at


def check_reject(replay=None):
    """The result of C29, in the form of the harnesses."""
    t = time.time()
    cases = reject_cases() if replay is None else [Case("replay", *replay), Case("control", "Serialize", "struct S;", False)]
    wrong = judge(cases)
    sections = []
    for g in dict.fromkeys(c.group for c in cases):
        cs = [c for c in cases if c.group == g]
        sections.append(dict(name=g, bounds="all declarations of the grammar in mc/derive_gen.py (reject_cases)", executions=len(cs), states=len({c.text for c in cs}), transitions=len(cs), capped=False,
                             outcomes=dict(accepted=sum(c.accept for c in cs), refused=sum(not c.accept for c in cs)), wall=0.0,
                             samples=["derive(%s) on %s: %s" % (c.derive, c.text, "accepted" if c.accept else "refused") for c in cs[1::max(1, len(cs) // 3)]]))
    return dict(states=sum(s["states"] for s in sections), transitions=len(cases), executions=len(cases), capped=False, wall=time.time() - t, notes=[], sections=sections,
                violations=[dict(section=c.group, choices=[], key="", msg=m, case=[c.derive, c.text, c.accept]) for c, m in wrong[:20]])


def outer_lines(m):
    for sp in m["message"]["spans"]:
        yield sp["line_start"]
        while sp.get("expansion") and sp["expansion"].get("span"):
            sp = sp["expansion"]["span"]
            yield sp["line_start"]


def judge(cases, name="gen-reject"):
    """Returns [(case, message)] for all cases that are judged wrongly."""
    gen = os.path.join(TARGET, "gen", name)
    shutil.rmtree(gen, ignore_errors=True)
    members, maps = [], {}
    for accept in (False, True):
        mine = [c for c in cases if c.accept == accept]
        k = 6 if accept else 2
        for i in range(k):
            part = mine[i::k]
            crate = "%s%d" % ("yes" if accept else "no", i)
            text, at = reject_crate(part)
            write(os.path.join(gen, crate, "Cargo.toml"), '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\ndeser = { path = "/repo/deser", features = ["derive"] }\n' % crate)
            write(os.path.join(gen, crate, "src", "lib.rs"), text)
            maps[crate] = (part, at)
            members.append(crate)
    write(os.path.join(gen, "Cargo.toml"), '[workspace]\nresolver = "2"\nmembers = [%s]\n' % ", ".join('"%s"' % m for m in members))
    shutil.copy(os.path.join(ROOT, "mc", "decl", "Cargo.lock"), os.path.join(gen, "Cargo.lock"))
    cmd = ["cargo", "check", "--offline", "-q", "--keep-going", "--message-format=json", "--manifest-path", os.path.join(gen, "Cargo.toml"), "--target-dir", os.path.join(TARGET, name)]
    r = subprocess.run(cmd, env=env_for(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errors = {c: {} for c in members}
    loose, other = [], []
    for line in r.stdout.split("\n"):
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or m["message"]["message"].startswith("aborting due to"):
            continue
        crate = m["target"]["name"]
        if crate not in maps:
            other.append(m["message"]["rendered"] or "")
            continue
        part, at = maps[crate]
        hit = [at[x] for x in outer_lines(m) if x in at]
        if not hit:
            loose.append(m["message"]["rendered"] or "")
            continue
        # what the derives themselves report has no code
        if part[hit[0]].accept or m["message"].get("code") is None:
            errors[crate].setdefault(hit[0], m["message"]["message"])
    seen = any(errors[c] for c in members if c.startswith("no"))
    if other or loose or not seen:
        print("\n".join(other + loose)[-4000:] + r.stderr[-4000:])
        print("ERROR: cannot judge declarations")
        sys.exit(2)
    wrong = []
    for crate in members:
        part, at = maps[crate]
        for i, c in enumerate(part):
            e = errors[crate].get(i)
            if c.accept and e is not None:
                wrong.append((c, "derive(%s) refuses (%s): %s" % (c.derive, e.split("\n")[0], c.text)))
            if not c.accept and e is None:
                wrong.append((c, "derive(%s) accepts: %s" % (c.derive, c.text)))
    return wrong
