"""Random struct definitions in the language that define_varlen documents."""
import re

WORDS = (
    "alpha bravo chess delta echo foxtrot golf hotel indigo jade kilo lima mango nectar oscar papa quark romeo sierra "
    "tango umbra violet walnut xenon yodel zebra acorn birch cedar dune ember fjord glade heron"
).split()

# (type, generator of small values, is copy)
NORM = ["u8", "u16", "u32", "u64", "u128", "bool", "char", "f64", "()", "[u8; 3]", "[u64; 0]", "Pad", "String", "Box<u32>", "Option<Box<u64>>", "Vec<Tr>", "Tr", "TrZ", "(u8, Tr)", "A2<u8>", "A16<u8>", "A64<u16>", "VBox<Str>", "Cn", "Cc"]
ARR = ["u8", "u16", "u32", "u64", "u128", "bool", "char", "f64", "()", "[u8; 3]", "[u64; 0]", "Pad", "String", "Box<u32>", "Tr", "TrZ", "(u8, Tr)", "A2<u8>", "A16<u8>", "A64<u8>", "Cn", "CnZ", "Cc"]
COPY = ["u8", "u16", "u32", "u64", "u128", "bool", "Pad", "A2<u8>", "A16<u8>", "[u8; 3]", "()", "Cc"]
LENT = ["u8", "u16", "u32", "u64", "usize"]
CTL = ["u8", "u8", "u16", "u32", "u64", "usize", "bool", "P"]
# Other controllers: how they are read (as usize), the model of that, what the generator gives them.
RICH = {
    "i32": [("(%s.unsigned_abs() as usize)", "(c[%d].n() as i64).unsigned_abs()", "V::N((s.below(7) as i64 - 3) as u64)"), ("((*%s & 3) as usize)", "(c[%d].n() & 3)", "V::N((s.below(7) as i64 - 3) as u64)")],
    "u128": [("((*%s & 3) as usize)", "(c[%d].n() & 3)", "u128::gen(s)"), ("(*%s as usize %% 5)", "(c[%d].n() %% 5)", "u128::gen(s)")],
    "[u8; 3]": [("(%s[1] as usize %% 4)", "(((c[%d].n() >> 8) & 255) %% 4)", "<[u8; 3]>::gen(s)")],
    "String": [("%s.len()", "(c[%d].s().len() as u64)", "String::gen(s)"), ("(if %s.is_empty() { 3 } else { 0 })", "(if c[%d].s().is_empty() { 3u64 } else { 0 })", "String::gen(s)")],
    "Option<Box<u64>>": [("(%s.is_some() as usize)", "(c[%d].l().len() as u64)", "<Option<Box<u64>>>::gen(s)"), ("(match %s { Some(_) => 2usize, None => 1 })", "(c[%d].l().len() as u64 + 1)", "<Option<Box<u64>>>::gen(s)")],
    "f64": [("((*%s > 1.0) as usize * 2)", "((f64::from_bits(c[%d].n()) > 1.0) as u64 * 2)", "f64::gen(s)"), ("(*%s as u8 as usize %% 3)", "(f64::from_bits(c[%d].n()) as u8 as u64 %% 3)", "f64::gen(s)")],
    "Vec<Tr>": [("%s.len()", "(c[%d].l().len() as u64)", "<Vec<Tr>>::gen(s)")],
    "Box<u32>": [("(**%s as usize %% 5)", "(c[%d].n() %% 5)", "<Box<u32>>::gen(s)")],
    "(u8, Tr)": [("(%s.0 as usize %% 4)", "(c[%d].l()[0].n() %% 4)", "<(u8, Tr)>::gen(s)")],
    "A16<u8>": [("(%s.0 as usize %% 3)", "(c[%d].n() %% 3)", "<A16<u8>>::gen(s)")],
    "()": [("{ let () = *%s; 2usize }", "(c[%d].n() + 2)", "V::N(0)")],
}
# Names of fields that the macro's own code also uses for something.
NAMES = "layout size lengths p p_typed mut_ref mut_ptr self_mut valid dst lengths_before lengths_after layout_controllers pointer refs muts init vdrop drop len offset base array this".split()
SHADOWED = "size lengths layout p p_typed mut_ref mut_ptr varlen_layout offset len".split()
METHODS = "refs muts init vdrop drop".split()
VIS = ["", "", "pub ", "pub ", "pub(crate) ", "pub(self) ", "pub(super) "]


def var_type(r, earlier, depth=0):
    k = r.randrange(10 if depth < 2 else 6)
    if k == 0:
        return "Str"
    if k == 1:
        return "Str<%s>" % r.choice(LENT)
    if k in (2, 3):
        return "Array<%s, %s>" % (r.choice(ARR), r.choice(LENT))
    if k == 4:
        return "FixedLen<%s>" % r.choice(NORM)
    if k == 5:
        return r.choice(["NStr", "NTup", "NFix", "NN", "NGen<Tr, u16>", "SA", "SB", "SC", "SZ", "SK", "SL", "SQ", "SI"])
    if k == 6 and earlier:
        return r.choice(earlier)
    n = 2 + r.randrange(3)
    return "Tup%d<%s>" % (n, ", ".join(var_type(r, earlier, depth + 1) for _ in range(n)))


class Expr:
    """A length expression: the Rust text, and the model's text over c[0], c[1], ... as u64."""

    def __init__(self, rust, model, degree):
        self.rust, self.model, self.degree = rust, model, degree


def leaf(r, ctls):
    k, (name, ty) = r.choice(list(enumerate(ctls)))
    if ty in RICH:
        a, b, _ = r.choice(RICH[ty])
        return Expr(a.replace("%%", "\0").replace("%s", name).replace("\0", "%"), b.replace("%%", "\0").replace("%d", str(k)).replace("\0", "%"), 1)
    if ty == "bool":
        form = r.randrange(2)
        return Expr(["(if *%s { 2usize } else { 0 })", "(*%s as usize)"][form] % name, ["(c[%d].n() * 2)", "c[%d].n()"][form] % k, 1)
    if ty == "P":
        return Expr("(%s.0 as usize)" % name, "c[%d].l()[0].n()" % k, 1)
    if ty == "usize":
        f = r.randrange(3)
        return Expr(["(*%s)", "%s.saturating_sub(1)", "(*%s as usize)"][f] % name, ["c[%d].n()", "c[%d].n().saturating_sub(1)", "c[%d].n()"][f] % k, 1)
    f = r.randrange(3)
    return Expr(["(*%s as usize)", "(%s.saturating_sub(1) as usize)", "(%s.count_ones() as usize)"][f] % name, ["c[%d].n()", "c[%d].n().saturating_sub(1)", "(c[%d].n().count_ones() as u64)"][f] % k, 1)


def expr(r, ctls, depth=0):
    if not ctls or r.randrange(12) == 0:
        n = r.randrange(5)
        return r.choice([Expr("%d" % n, "%d" % n, 0), Expr("FOUR", "4", 0), Expr("double(%d)" % n, "%d" % (2 * n), 0)])
    k = r.randrange(18) if depth < 2 else 0
    if k < 5:
        return leaf(r, ctls)
    a, b = expr(r, ctls, depth + 1), expr(r, ctls, depth + 1)
    if k == 5:
        return Expr("(%s + %s)" % (a.rust, b.rust), "(%s + %s)" % (a.model, b.model), max(a.degree, b.degree))
    if k == 6 and a.degree + b.degree <= 2:
        return Expr("(%s * %s)" % (a.rust, b.rust), "(%s * %s)" % (a.model, b.model), a.degree + b.degree)
    if k == 7:
        n = 2 + r.randrange(2)
        return Expr("(%s / %d)" % (a.rust, n), "(%s / %d)" % (a.model, n), a.degree)
    if k == 8:
        n = 2 + r.randrange(3)
        return Expr("(%s %% %d)" % (a.rust, n), "(%s %% %d)" % (a.model, n), 0)
    if k == 9:
        return Expr("(if %s > %s { %s } else { %s })" % (a.rust, b.rust, a.rust, b.rust), "%s.max(%s)" % (u(a.model), b.model), max(a.degree, b.degree))
    if k == 10:
        return Expr("{ let x = %s; x + %s }" % (a.rust, b.rust), "(%s + %s)" % (a.model, b.model), max(a.degree, b.degree))
    if k == 11 and a.degree <= 1:
        return Expr("double(%s)" % a.rust, "(2 * %s)" % a.model, a.degree)
    if k == 12:
        return Expr("(%s >> 1)" % a.rust, "(%s >> 1)" % u(a.model), a.degree)
    if k == 13:
        op, n = r.choice([("&", 3), ("&", 5), ("^", 1), ("|", 1)])
        return Expr("(%s %s %d)" % (a.rust, op, n), "(%s %s %d)" % (a.model, op, n), 0 if op == "&" else a.degree)
    if k == 14:
        return Expr("{ let mut i = 0usize; while i * i < %s && i < 40 { i += 1; } i }" % a.rust, "{ let mut i = 0u64; while i * i < %s && i < 40 { i += 1; } i }" % a.model, 1)
    if k == 15:
        return Expr("([3usize, 0, 2][%s %% 3])" % a.rust, "([3u64, 0, 2][(%s %% 3) as usize])" % a.model, 0)
    if k == 16:
        return Expr("(if %s < %s { %s } else { %s })" % (a.rust, b.rust, a.rust, b.rust), "%s.min(%s)" % (u(a.model), b.model), max(a.degree, b.degree))
    if k == 17:
        return Expr("{ const K: usize = core::mem::size_of::<u16>(); K + %s }" % a.rust, "(2 + %s)" % a.model, a.degree)
    return Expr("(match %s { 0 => 3usize, x => x - 1 })" % a.rust, "(if %s == 0 { 3 } else { %s - 1 })" % (a.model, a.model), a.degree)


def u(m):
    return "(%s as u64)" % m if m.isdigit() else m


class Field:
    def __init__(self, kind, name, ty, attrs="", vis="", length=None):
        self.kind, self.name, self.ty, self.attrs, self.vis, self.length = kind, name, ty, attrs, vis, length

    def role(self):
        return {"norm": "", "ctl": "#[controls_layout] ", "var": "#[varlen] ", "arr": "#[varlen_array] "}[self.kind]

    def decl(self, decl_ty=None, apart=False):
        t = decl_ty or self.ty
        if self.kind == "arr" and apart:
            t = "%s; %s" % (t, self.length.rust)
        elif self.kind == "arr":
            t = "[%s; %s]" % (t, self.length.rust)
        return "    %s%s%s%s: %s," % (self.attrs, self.role(), self.vis, self.name, t)


class Param:
    """A generic parameter: its declaration, its default, what it stands for in the concrete type, a where clause."""

    def __init__(self, kind, name, decl, default, conc, where=""):
        self.kind, self.name, self.decl, self.default, self.conc, self.where = kind, name, decl, default, conc, where
        self.with_default = False


class Def:
    """A struct definition. `fields` in order; `generics` are its parameters."""

    def __init__(self, name, fields, attrs, vis, generics):
        self.name, self.fields, self.attrs, self.vis, self.generics = name, fields, attrs, vis, generics
        # How it is made by macro_rules, if it is; what stands before it.
        self.via, self.context = None, ""

    @property
    def module(self):
        r = ""
        for ch in self.name:
            r += ("_" if ch.isupper() and r else "") + ch.lower()
        return r

    @property
    def concrete(self):
        return self.name + ("T" if self.generics else "")

    def not_generic(self):
        self.generics = []
        for f in self.fields:
            f.generic_ty = None

    def head(self):
        g, w = "", ""
        if self.generics:
            g = "<%s>" % ", ".join(p.decl + (" = " + p.default if p.with_default else "") for p in self.generics)
            where = [p.where for p in self.generics if p.where]
            if where:
                w = " where " + ", ".join(where)
        return "%sstruct %s%s%s {" % (self.vis, self.name, g, w)

    def decl(self, attrs=None):
        lines = ["#[define_varlen]"] + (attrs if attrs is not None else self.attrs)
        if self.via:
            lines = [VIA[self.via], "via! {"] + lines[self.via != "all" :]
        lines.append(self.head())
        for f in self.fields:
            lines.append(f.decl(getattr(f, "generic_ty", None), self.via == "lengths"))
        lines.append("}")
        if self.via:
            lines.append("}")
        if self.generics:
            lines.append("pub type %s = %s<%s>;" % (self.concrete, self.name, ", ".join(p.conc for p in self.generics)))
        return "\n".join(lines)

    def glue(self):
        """Connects the definition to the harness."""
        ctls = [f for f in self.fields if f.kind == "ctl"]
        lens = [f.length.model for f in self.fields if f.kind == "arr"]
        o = ["fn lens(c: &[V]) -> Vec<u64> { let _ = c; vec![%s] }" % ", ".join(u(m) for m in lens)]
        o.append("fn gen(s: &mut Src) -> V {")
        o.append("    let _ = &s;")
        cg = []
        for f in ctls:
            cg.append(RICH[f.ty][0][2] if f.ty in RICH else {"bool": "V::N(s.below(2))", "P": "P::gen(s)"}.get(f.ty, "V::N(s.below(5))"))
        o.append("    let c: Vec<V> = vec![%s];" % ", ".join(cg))
        o.append("    let l = lens(&c);")
        o.append("    let _ = &l;")
        vals, ci, li = [], 0, 0
        for f in self.fields:
            if f.kind == "norm":
                vals.append("<%s as Elem>::gen(s)" % f.ty)
            elif f.kind == "ctl":
                vals.append("c[%d].clone()" % ci)
                ci += 1
            elif f.kind == "var":
                vals.append("small::<%s>(s)" % f.ty)
            else:
                vals.append("V::L(gen_elems_n(s, <%s as Elem>::ed(), l[%d] as usize))" % (f.ty, li))
                li += 1
        o.append("    V::L(vec![%s])" % ", ".join(vals))
        o.append("}")
        o.append("vh::model_struct!(%s, %s, gen, [%s]);" % (self.concrete, self.module, ", ".join("%s %s: %s" % (f.kind, f.name, f.ty) for f in self.fields)))
        o.append("vh::controlled!(%s, %s, [%s], |c| lens(c));" % (self.concrete, self.module, ", ".join("%s: %s" % (f.name, f.ty) for f in ctls)))
        return "\n".join(o)


# Give types that depend on a parameter, but are the same whatever it is.
TRAITS = """pub trait Same<'b> { type Out; }
impl<'b, T> Same<'b> for T { type Out = T; }
pub trait Nth<const N: usize> { type Out; }
impl<T, const N: usize> Nth<N> for T { type Out = T; }
"""
# Names that mean different things where the definitions are and one module further out.
OUTER = "pub const WHICH: usize = 4;\npub type Kind = u8;\n"
INNER = "const WHICH: usize = 1;\ntype Kind = u64;\n"
# Definitions that come out of macro_rules, with parts that went in: as tokens, an item, or pieces.
VIA = {
    "tokens": "macro_rules! via { ($($t:tt)*) => { #[define_varlen] $($t)* } }",
    "all": "macro_rules! via { ($($t:tt)*) => { $($t)* } }",
    "item": "macro_rules! via { ($i:item) => { #[define_varlen] $i } }",
    "pieces": "macro_rules! via { ($(#[$a:meta])* $v:vis struct $n:ident { $($(#[$fa:meta])* $fv:vis $f:ident : $t:ty,)* }) => { #[define_varlen] $(#[$a])* $v struct $n { $($(#[$fa])* $fv $f: $t,)* } } }",
    "lengths": "macro_rules! via { ($(#[$a:meta])* $v:vis struct $n:ident { $($(#[$fa:meta])* $fv:vis $f:ident : $t:ty $(; $l:expr)?,)* }) => { via!{@ [$(#[$a])* $v struct $n] [] $({ $(#[$fa])* $fv $f: $t $(; $l)?})*} }; (@ [$($h:tt)*] [$($d:tt)*]) => { #[define_varlen] $($h)* { $($d)* } }; (@ $h:tt [$($d:tt)*] { $(#[$fa:meta])* $fv:vis $f:ident : $t:ty } $($r:tt)*) => { via!{@ $h [$($d)* $(#[$fa])* $fv $f: $t,] $($r)*} }; (@ $h:tt [$($d:tt)*] { $(#[$fa:meta])* $fv:vis $f:ident : $t:ty ; $l:expr } $($r:tt)*) => { via!{@ $h [$($d)* $(#[$fa])* $fv $f: [$t; $l],] $($r)*} }; }",
}


def make_generic(r, fields, earlier):
    """Makes a definition generic, perhaps."""
    vs = [f for f in fields if f.kind in ("var", "arr")]
    if not vs or r.randrange(3):
        return []
    names = ["T", "Item", "X", "Other", "B"]
    r.shuffle(names)
    params = []
    for k in range(r.choice([1, 1, 2, 3])):
        kind = r.choice(["varlen", "elem", "elem", "assoc", "life", "const"])
        n = names.pop()
        if kind == "varlen":
            bound, where = r.choice([(": VarLen", ""), (": VarLen + 'static", ""), ("", n + ": VarLen")])
            p = Param(kind, n, n + bound, "Str", None, where)
            p.ty = var_type(r, earlier, 1)
            p.conc = p.ty
            p.expr = [n]
        elif kind == "elem":
            p = Param(kind, n, n + r.choice(["", ": 'static", ": Sized"]), "u8", None, r.choice(["", "", n + ": Sized"]))
            p.ty = r.choice(ARR)
            p.conc = p.ty
            p.expr = [n]
        elif kind == "assoc":
            p = Param(kind, n, n + ": Iterator", "std::vec::IntoIter<u8>", None)
            p.ty = r.choice(ARR)
            p.conc = "std::vec::IntoIter<%s>" % p.ty
            p.expr = ["<%s as Iterator>::Item" % n, n + "::Item"]
        elif kind == "life":
            n = "'" + n.lower()
            p = Param(kind, n, n, None, "'static", r.choice(["", "", n + ": 'static"]))
            p.ty = r.choice(ARR)
            p.expr = ["<%s as Same<%s>>::Out" % (p.ty, n)]
        else:
            n = n[0].upper() + "_"
            p = Param(kind, n, "const %s: usize" % n, "3", str(r.randrange(5)))
            p.ty = r.choice(ARR)
            p.expr = ["<%s as Nth<%s>>::Out" % (p.ty, n)]
        params.append(p)
    used, in_var = set(), set()
    for f in vs:
        p = r.choice(params)
        if len(used) == len(params) and r.randrange(2):
            continue
        x = r.choice(p.expr)
        if f.kind == "arr":
            if p.kind == "varlen":
                continue
            f.ty, f.generic_ty = p.ty, x
        elif p.kind == "varlen":
            form = r.choice(["%s", "%s", "Tup2<FixedLen<u8>, %s>"])
            f.ty, f.generic_ty = form % p.ty, form % x
            in_var.add(p)
        else:
            form = r.choice(["Array<%s, u8>", "Array<%s>", "FixedLen<%s>", "Tup2<Str, Array<%s, u16>>"])
            f.ty, f.generic_ty = form % p.ty, form % x
            in_var.add(p)
        used.add(p)
    params = [p for p in params if p in used]
    for p in params:
        if p not in in_var:
            # A where clause is accepted only if a varlen field mentions the parameter.
            p.where = ""
            if p.kind == "varlen":
                raise AssertionError
    params = [p for p in params if p.kind == "life"] + [p for p in params if p.kind != "life"]
    cut = r.randrange(len(params) + 1) if r.randrange(2) else 0
    for p in params[cut:]:
        p.with_default = p.default is not None
    return params


def definition(r, n, earlier, want_ctl=False, rich=False):
    """The n-th definition. The rich ones may come from macro_rules, and mean things in other modules."""
    words = list(WORDS)
    r.shuffle(words)
    name = words.pop().capitalize() + r.choice(["", words.pop().capitalize()])
    name += "Abcdefghijklmnop"[n % 16] + "x"
    count = r.choice([1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 9, 9, 14])
    if want_ctl:
        count = max(count, 2)
    kinds = [r.choice(["norm", "norm", "ctl", "ctl", "var", "var", "arr", "arr", "arr"]) for _ in range(count)]
    if want_ctl:
        kinds[r.randrange(count)] = "ctl"
        if "arr" not in kinds:
            k = [i for i, x in enumerate(kinds) if x != "ctl"]
            if k:
                kinds[r.choice(k)] = "arr"
            else:
                kinds.append("arr")
    fields = []
    ctls = []
    for k in kinds:
        name_f = words.pop()
        if r.randrange(25) == 0:
            name_f = r.choice(["r#type", "r#fn", "r#match", "r#mod"])
            if any(f.name == name_f for f in fields):
                name_f = words.pop()
        if r.randrange(12) == 0:
            name_f = r.choice(METHODS + (SHADOWED if rich else []) if k in ("var", "arr") else NAMES)
            if any(f.name == name_f for f in fields):
                name_f = words.pop()
        if rich and fields and r.randrange(10) == 0:
            name_f = r.choice(fields).name.replace("r#", "")
            name_f = r.choice([name_f + "_len", name_f + "_layout", name_f + "1", name_f + "_1", "init_" + name_f, name_f + "_init"])
            if any(f.name == name_f for f in fields):
                name_f = words.pop()
            if any(f.name == name_f for f in fields):
                name_f = words.pop()
        attrs = ""
        if r.randrange(8) == 0:
            attrs = r.choice(["/// Documented.\n    ", "#[allow(dead_code)] ", "#[cfg(all())] ", "#[doc = \"x\"] "])
        vis = r.choice(VIS)
        if k == "norm":
            ty = r.choice(NORM)
        elif k == "ctl":
            ty = r.choice(CTL) if r.randrange(3) else r.choice(sorted(RICH))
            ctls.append((name_f, ty))
        elif k == "var":
            ty = var_type(r, earlier)
        else:
            ty = r.choice(ARR)
        f = Field(k, name_f, ty, attrs, vis)
        fields.append(f)
    generics = make_generic(r, fields, earlier)
    for f in fields:
        if f.kind == "arr":
            f.length = expr(r, ctls)
            if rich and r.randrange(4) == 0:
                a, b = r.choice([("super::WHICH", 4), ("self::WHICH", 1), ("WHICH", 1), ("{ self::super::WHICH }", 4)])
                f.length = Expr("(%s + %s)" % (f.length.rust, a), "(%s + %d)" % (f.length.model, b), f.length.degree)
    if rich:
        for f in fields:
            if getattr(f, "generic_ty", None) is None and r.randrange(4) == 0:
                t = re.sub(r"\bu8\b", "super::Kind", f.ty, count=r.randrange(2))
                t = re.sub(r"\bu64\b", r.choice(["self::Kind", "Kind"]), t)
                if t != f.ty:
                    f.generic_ty = t
    attrs = []
    if r.randrange(4) == 0:
        attrs.append(r.choice(["#[repr(C)]", "#[repr(align(16))]", "#[repr(C, align(8))]", "/// Documented.", "#[allow(dead_code)]", "#[repr(align(64))]", "#[must_use]", "#[cfg(all())]"]))
    d = Def(name, fields, attrs, r.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", "", "pub(self) "]), generics)
    if rich:
        d.context = INNER
        if r.randrange(3) == 0:
            d.via = r.choice(sorted(VIA)) if not generics else r.choice(["tokens", "all", "item"])
        arrays = [f for f in fields if f.kind == "arr" and "#" not in f.name]
        if arrays and r.randrange(4) == 0:
            # A function that is called as the array is.
            f = r.choice(arrays)
            if all(g.name != f.name + "_len" for g in fields):
                d.context += "const fn %s_len(x: usize) -> usize { x }\n" % f.name
                f.length.rust = "%s_len(%s)" % (f.name, f.length.rust)
    return d


PRELUDE = """#![allow(warnings)]
extern crate varlen;
extern crate vh;
use varlen::prelude::*;
use vh::elem::*;
use vh::modeled::*;
use vh::src::Src;
use vh::track::{Tr, TrZ};
use vh::types::*;
use vh::value::*;
const FOUR: usize = 4;
const fn double(x: usize) -> usize { x * 2 }
""" + TRAITS + OUTER + """/// Values of moderate size.
fn small<T: Modeled>(s: &mut Src) -> V {
    let d = T::desc();
    for _ in 0..8 {
        let v = d.gen(s);
        if d.lay(&v).size < 400 {
            return v;
        }
    }
    d.gen(s)
}
"""


def program(defs, types=True, settings=True):
    """A worker whose catalog is these definitions."""
    o = [PRELUDE]
    for k, d in enumerate(defs):
        o.append("mod k%d {\nuse super::*;\n%s%s\n%s" % (k, d.context, d.decl(), d.glue()))
        o.append("pub fn info() -> vh::state::TypeInfo { vh::type_info!(%s) }" % d.concrete if types else "")
        o.append("pub fn setting() -> vh::cases::Setting { vh::cases::setting::<%s> }" % d.concrete if settings else "")
        o.append("}")
        if d.vis == "pub ":
            # Later definitions may contain this one.
            o.append("pub use k%d::%s;" % (k, d.concrete))
    o.append("fn main() {")
    if types:
        o.append("    vh::state::set_types(vec![%s]);" % ", ".join("k%d::info()" % k for k in range(len(defs))))
    if settings:
        o.append("    vh::cases::set_settings(vec![%s]);" % ", ".join("k%d::setting()" % k for k in range(len(defs))))
    o.append("    vh::main_loop::worker_main();\n}")
    return "\n".join(o) + "\n"


def catalog(r, n, want_ctl=False, rich=True):
    defs, earlier = [], []
    for k in range(n):
        d = definition(r, k, earlier, want_ctl, rich)
        defs.append(d)
        if d.vis == "pub ":
            earlier.append(d.concrete)
    return defs
