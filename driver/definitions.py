"""C16: definitions that the macros cannot support, next to ones that they can.

A case takes a random definition that follows the rules (the neighbour), breaks one rule in it, and asks the compiler
about both."""
import copy
import random
import re
import time

from . import defs
from .base import say
from .rustc import ask_all

HEAD = """#![allow(warnings)]
use varlen::prelude::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
const FOUR: usize = 4;
static COUNTER: AtomicUsize = AtomicUsize::new(3);
const fn double(x: usize) -> usize { x * 2 }
fn runtime(x: usize) -> usize { x }
pub struct Helper;
pub trait Trait {}
""" + defs.TRAITS + """
#[derive(Clone, Copy)] pub struct Pad(u8, u32);
pub struct Tr(u32);
impl Drop for Tr { fn drop(&mut self) {} }
pub struct TrZ;
pub struct Cn(u32); pub struct CnZ(()); #[derive(Clone, Copy)] pub struct Cc(u16);
#[derive(Clone, Copy)] #[repr(align(2))] pub struct A2<T>(pub T);
#[derive(Clone, Copy)] #[repr(align(16))] pub struct A16<T>(pub T);
#[derive(Clone, Copy)] #[repr(align(64))] pub struct A64<T>(pub T);
#[derive(Clone, Copy)] pub struct P(pub u32, pub u8);
impl P { pub fn total(&self) -> usize { self.0 as usize } }
pub type NStr = Str<u8>;
pub type NTup = Tup2<FixedLen<Tr>, Array<u16, u8>>;
pub type NFix = FixedLen<Tr>;
pub type NN = NTup;
pub type NGen<T, L> = Array<T, L>;
pub type SA = Array<Tr, u8>;
pub type SB = Tup2<Str, Array<String>>;
pub type SC = Str<u64>;
pub type SZ = Array<()>;
pub type SK = Array<u128, u16>;
pub type SL = FixedLen<Tr>;
pub type SQ = Tup2<Str, SC>;
pub type SI = Array<Tr>;
pub type Three = [u8; 3];
macro_rules! three { () => { [u8; 3] } }
"""
MODS = "pub mod outer { use super::*; pub mod inner { use super::*;\n"


class Program:
    """Lines; the essential ones are what breaks the rule."""

    def __init__(self, label, lines, essential=(), expect="rejected"):
        self.label, self.lines, self.essential, self.expect = label, lines, set(essential), expect

    def text(self, without=()):
        return HEAD + MODS + "\n".join(l for k, l in enumerate(self.lines) if k not in without) + "\n}}\n"


def listing(d):
    """The lines of a definition, and those of its fields that carry `bad`."""
    lines, bad = [], []
    lines.append(" ".join(["#[define_varlen]"] + [a for a in d.attrs if not a.startswith("//")]) + " " + d.head())
    for f in d.fields:
        if getattr(f, "bad", False):
            bad.append(len(lines))
        if getattr(f, "raw", None):
            lines.append(f.raw)
        else:
            lines.append(f.decl(getattr(f, "generic_ty", None)).strip())
    lines.append("}")
    return lines, bad


def broken(label, d):
    lines, bad = listing(d)
    # The lines that are not fields stay.
    return Program(label, lines, {0, len(lines) - 1} | set(bad))


def a_field(r, d, last=False):
    """Another field, somewhere: nothing else depends on it."""
    f = defs.Field("norm", "added", "u8", "", r.choice(defs.VIS))
    f.bad = True
    d.fields.insert(len(d.fields) if last else r.randrange(len(d.fields) + 1), f)
    return f


def shape(r, d, pick):
    n = d.name
    low = n.lower()
    items = [
        "enum %s { A { x: u8 }, B }" % n,
        "enum %s {}" % n,
        "enum %s { A }" % n,
        "enum %s { A(u8), B(u16, u32) }" % n,
        "enum %s<T> { A { x: T } }" % n,
        "union %s { a: u8, b: u16 }" % n,
        "struct %s(u8, u16);" % n,
        "struct %s(pub u8);" % n,
        "struct %s();" % n,
        "struct %s;" % n,
        "struct %s<T>(T);" % n,
        "struct %s where u8: Copy;" % n,
        "fn %s() {}" % low,
        "fn %s(x: u8) -> u8 { x }" % low,
        "async fn %s() {}" % low,
        "const fn %s<const N: usize>() -> usize { N }" % low,
        "mod %s {}" % low,
        "mod %s { pub struct X { a: u8 } }" % low,
        "trait %s {}" % n,
        "trait %s { fn x(&self) -> usize; }" % n,
        "const %s: usize = 3;" % n.upper(),
        "static %s: u8 = 3;" % n.upper(),
        "type %s = u8;" % n,
        "use std::vec as %s;" % low,
        "extern crate core as %s;" % low,
    ]
    noviz = [
        "impl Helper { fn %s(&self) {} }" % low,
        "impl Trait for Helper {}",
        'extern "C" {}',
        "macro_rules! %s { () => {} }" % low,
    ]
    k = pick("shape", len(items) + len(noviz))
    item = items[k] if k < len(items) else noviz[k - len(items)]
    vis = d.vis if k < len(items) else ""
    label = "item: " + re.sub(r"\b(%s|%s|%s)\b" % (n, low, n.upper()), "X", item)
    return Program(label, ["#[define_varlen] %s%s" % (vis, item)], {0})


ROLES = ["#[varlen]", "#[varlen_array]", "#[controls_layout]"]


def roles(r, d, pick):
    f = a_field(r, d)
    k = pick("roles", 9 + 6)
    chosen = [ROLES[k % 3], ROLES[k // 3]] if k < 9 else [r.choice(ROLES) for _ in range(3)]
    label = "roles: " + " ".join(chosen)
    between = [r.choice(["", "", "/** doc */", "#[allow(dead_code)]", "#[cfg(all())]"]) for _ in chosen]
    fits = {"#[varlen]": ["Str", "Array<u16>"], "#[varlen_array]": ["[u8; 3]", "[u16; 0]"], "#[controls_layout]": ["u8", "usize"]}
    ty = r.choice(fits[r.choice(chosen)] if r.randrange(8) else ["Str", "u8", "[u8; 3]"])
    f.raw = "%s %s%s: %s," % (" ".join(b + " " + c for b, c in zip(between, chosen)), f.vis, f.name, ty)
    return broken(label, d)


NOT_ARRAYS = ["Vec<u8>", "[u8]", "&'static [u8]", "&'static [u8; 3]", "Box<[u8; 3]>", "Box<[u8]>", "([u8; 3],)", "([u8; 3], u8)", "Three", "*const [u8; 3]", "*mut [u8; 3]", "three!()", "fn([u8; 3])", "Option<[u8; 3]>", "Str", "Array<u8>", "u8", "usize", "()", "String", "std::vec::Vec<u8>", "dyn Trait", "impl Trait", "!", "_", "<Helper as Trait>::X", "A2<[u8; 3]>"]


def not_array(r, d, pick):
    f = a_field(r, d)
    ty = NOT_ARRAYS[pick("arrays", len(NOT_ARRAYS))]
    f.raw = "#[varlen_array] %s%s: %s," % (f.vis, f.name, ty)
    return broken("array role on " + ty, d)


def visibility(r, d, pick):
    """A visibility the macro does not know, on the struct or on a field. The neighbour has it nearby."""
    path = ["crate::outer", "crate::outer::inner", "super::super"][pick("path", 3)]
    # `crate::outer::inner` is the module itself.
    k = pick("whose", 6)
    if k == 0:
        d.vis = "pub(in %s) " % path
        return broken("visibility of the struct: pub(in %s)" % path, d)
    f = r.choice(d.fields)
    f.bad = True
    f.vis = "pub(in %s) " % path
    return broken("visibility of a field (%s): pub(in %s)" % (f.kind, path), d)


def of_kind(r, d, kinds):
    c = [f for f in d.fields if f.kind in kinds]
    return r.choice(c) if c else None


def expression(r, d, pick):
    """A length expression that is not a constant computation over the controlling fields."""
    arrs = [f for f in d.fields if f.kind == "arr"]
    if not arrs:
        f = defs.Field("arr", "anarray", r.choice(["u8", "u16", "String"]), "", r.choice(defs.VIS), defs.Expr("2", "2", 0))
        d.fields.insert(r.randrange(len(d.fields) + 1), f)
        arrs = [f]
    f = r.choice(arrs)
    # A controlling field of a known type, wherever.
    c = defs.Field("ctl", "ctlq", "usize")
    d.fields.insert(r.randrange(len(d.fields) + 1), c)
    others = {}
    for k in ("norm", "var", "arr"):
        o = defs.Field(k, "other" + k, {"norm": "usize", "var": "Str", "arr": "u8"}[k], length=defs.Expr("3", "3", 0))
        others[k] = o
    n = "ctlq"
    uses = [
        # Other fields.
        ("norm", "*othernorm"),
        ("norm", "othernorm"),
        ("norm", "*othernorm + *%s" % n),
        ("norm", "{ let x = othernorm; 3 }"),
        ("var", "othervar.len()"),
        ("var", "{ let x = &othervar; 3 }"),
        ("arr", "otherarr.len()"),
        ("arr", "{ let x = otherarr; 3 }"),
        ("norm", "self.othernorm"),
        (None, "self.%s" % n),
        (None, "(*self).%s" % n),
        (None, "Self::N"),
        (None, "{ let x: &Self = self; 3 }"),
        (None, "unknown"),
        (None, "*unknown"),
        (None, "unknown(*%s)" % n),
        (None, f.name),
        (None, "*%s" % f.name),
        # Not constant.
        (None, "runtime(*%s)" % n),
        (None, "format!(\"{}\", %s).len()" % n),
        (None, "%s.to_string().len()" % n),
        (None, "vec![0u8; *%s].len()" % n),
        (None, "std::env::args().count()"),
        (None, "COUNTER.load(Ordering::Relaxed)"),
        (None, "COUNTER.fetch_add(1, Ordering::Relaxed)"),
        (None, "std::time::Instant::now().elapsed().as_secs() as usize"),
        (None, "std::process::id() as usize"),
        (None, "{ thread_local!(static X: Cell<usize> = Cell::new(3)); X.with(|x| x.get()) }"),
        (None, "{ static X: std::sync::Mutex<usize> = std::sync::Mutex::new(3); *X.lock().unwrap() }"),
        (None, "{ static X: std::sync::OnceLock<usize> = std::sync::OnceLock::new(); *X.get_or_init(|| 3) }"),
        (None, "{ fn local() -> usize { 3 } local() }"),
        (None, "{ let f = |x: usize| x; f(*%s) }" % n),
        (None, "(|| 3usize)()"),
        (None, "Box::new(*%s).wrapping_add(1)" % n),
        (None, "Some(*%s).unwrap_or_default()" % n),
        (None, "Default::default()"),
        (None, "%s.clone()" % n),
        (None, "std::cmp::max(*%s, 3)" % n),
        (None, "(0..*%s).sum::<usize>()" % n),
        (None, "{ let mut t = 0; for i in 0..*%s { t += i; } t }" % n),
        (None, "[1usize, 2].iter().sum::<usize>()"),
        (None, "usize::from(3u8)"),
        (None, "3u8.into()"),
        (None, "std::hint::black_box(runtime(3))"),
        (None, "unsafe { *(3 as *const usize) + runtime(1) }"),
        # Of another type.
        (None, n),
        (None, "&*%s" % n),
        (None, "*%s as u32" % n),
        (None, "*%s as isize" % n),
        (None, "-1i32"),
        (None, "3u8"),
        (None, "3i64"),
        (None, "()"),
        (None, "true"),
        (None, "'x'"),
        (None, "\"3\""),
        (None, "3.0"),
        (None, "Some(3usize)"),
        (None, "(3usize,)"),
        (None, "[3usize]"),
        (None, "{ *%s; }" % n),
        (None, "Helper"),
        (None, "_"),
        (None, "-1"),
        # Changing something.
        (None, "{ *%s += 1; 3 }" % n),
        (None, "{ *%s = 3; 3 }" % n),
        (None, "{ let x = &mut *%s; 3 }" % n),
        (None, "std::mem::replace(%s, 3)" % n),
        (None, "{ COUNTER = AtomicUsize::new(3); 3 }"),
        # Control flow to nowhere.
        (None, "{ break 3 }"),
        (None, "{ continue }"),
        (None, "Some(3usize)?"),
        (None, "async { 3usize }.await"),
        (None, "return 3u8"),
        (None, "return"),
    ]
    use, e = uses[pick("expression", len(uses))]
    if use:
        others[use].bad = True
        d.fields.insert(r.randrange(len(d.fields) + 1), others[use])
        if use == "arr":
            others[use].length = defs.Expr("3", "3", 0)
    c.bad = True
    f.bad = True
    f.raw = "%s#[varlen_array] %s%s: [%s; %s]," % ("", f.vis, f.name, getattr(f, "generic_ty", None) or f.ty, e)
    label = "length: " + re.sub(r"\b%s\b" % f.name, "itself", e)
    return broken(label, d)


def types(r, d, pick):
    bads = [
        ("varlen role on u8", "#[varlen] %s: u8,"),
        ("varlen role on an array", "#[varlen] %s: [u8; 3],"),
        ("varlen role on String", "#[varlen] %s: String,"),
        ("varlen role on a reference", "#[varlen] %s: &'static Str,"),
        ("varlen role on a box", "#[varlen] %s: VBox<Str>,"),
        ("varlen role on an option", "#[varlen] %s: Option<Str>,"),
        ("varlen role on a slice", "#[varlen] %s: [u8],"),
        ("varlen role on a trait object", "#[varlen] %s: dyn Trait,"),
        ("varlen role on a tuple", "#[varlen] %s: (Str, Str),"),
        ("varlen role on Array of something unsized", "#[varlen] %s: Array<str>,"),
        ("varlen role on Array with another length type", "#[varlen] %s: Array<u8, i32>,"),
        ("varlen role on Array with another length type", "#[varlen] %s: Str<u128>,"),
        ("plain unsized field", "%s: str,"),
        ("plain unsized field", "%s: [u8],"),
        ("plain unsized field", "%s: dyn Trait,"),
        ("unsized controlling field", "#[controls_layout] %s: str,"),
        ("unsized controlling field", "#[controls_layout] %s: [u8],"),
        ("array of something unsized", "#[varlen_array] %s: [str; 3],"),
        ("array of something unsized", "#[varlen_array] %s: [[u8]; 3],"),
        ("array of something unsized", "#[varlen_array] %s: [dyn Trait; 3],"),
        ("unknown type", "%s: Unknown,"),
        ("unknown type", "#[varlen] %s: Unknown,"),
        ("unknown type", "#[varlen_array] %s: [Unknown; 3],"),
        ("unknown type", "#[controls_layout] %s: Unknown,"),
        ("impl type", "%s: impl Trait,"),
        ("the type itself", "%s: " + d.name + ","),
        ("the type itself", "%s: (u8, [" + d.name + "; 1]),"),
        ("the type itself", "#[controls_layout] %s: " + d.name + ","),
    ]
    label, line = bads[pick("types", len(bads))]
    if "itself" in label:
        d.not_generic()
    # An unsized field is allowed at the end of an ordinary struct.
    f = a_field(r, d, last=r.randrange(2))
    f.raw = line % f.name
    return broken("%s: %s" % (label, line % "x"), d)


def twice(r, d, pick):
    f = copy.deepcopy(r.choice(d.fields))
    g = copy.deepcopy(f)
    if r.randrange(2):
        g = defs.Field("norm", f.name, "u8")
    d.fields = [x for x in d.fields if x.name != f.name]
    f.bad = g.bad = True
    for x in (f, g):
        d.fields.insert(r.randrange(len(d.fields) + 1), x)
    for x in (f, g):
        if x.kind == "arr":
            x.length = defs.Expr("3", "3", 0)
    return broken("two fields of one name", d)


NEWTYPES = [
    # (label, text); the neighbour is the correct newtype.
    ("no repr", "define_varlen_newtype! { pub struct N(pub Inner); WITH }"),
    ("repr(C)", "define_varlen_newtype! { #[repr(C)] pub struct N(pub Inner); WITH }"),
    ("repr(align)", "define_varlen_newtype! { #[repr(align(8))] pub struct N(pub Inner); WITH }"),
    ("another repr too", "define_varlen_newtype! { #[repr(transparent)] #[repr(align(64))] pub struct N(pub Inner); WITH }"),
    ("another repr too", "define_varlen_newtype! { #[repr(transparent)] #[repr(C)] pub struct N(pub Inner); WITH }"),
    ("two fields", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner, u8); WITH }"),
    ("two fields", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner, ()); WITH }"),
    ("no field", "define_varlen_newtype! { #[repr(transparent)] pub struct N(); WITH }"),
    ("unit", "define_varlen_newtype! { #[repr(transparent)] pub struct N; WITH }"),
    ("named field", "define_varlen_newtype! { #[repr(transparent)] pub struct N { pub x: Inner } WITH }"),
    ("enum", "define_varlen_newtype! { #[repr(transparent)] pub enum N { A(Inner) } WITH }"),
    ("inner type is not variable-length", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub u8); WITH }"),
    ("inner type is not variable-length", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub String); WITH }"),
    ("inner type is not variable-length", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub VBox<Inner>); WITH }"),
    ("inner type is not variable-length", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub &'static Inner); WITH }"),
    ("inner type is not variable-length", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub [Inner; 1]); WITH }"),
    ("Drop by the user", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner); WITH } impl Unpin for N {}"),
    ("implemented again", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner); WITH } unsafe impl VarLen for N { }"),
    ("no init", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner); with inner_ref: pub fn ir(&self) -> &_; with inner_mut: pub fn im(self: _) -> _; }"),
    ("no inner_ref", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner); with init: pub struct NInit<_>(pub _); with inner_mut: pub fn im(self: _) -> _; }"),
    ("inner_mut takes a reference", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner); with init: pub struct NInit<_>(pub _); with inner_ref: pub fn ir(&self) -> &_; with inner_mut: pub fn im(&mut self) -> &mut _; }"),
    ("initializer with two fields", "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner); with init: pub struct NInit<_>(pub _, u8); with inner_ref: pub fn ir(&self) -> &_; with inner_mut: pub fn im(self: _) -> _; }"),
    ("delegation to another type's initializer", "pub struct I(pub SizedInit<FillWithDefault>); impl_initializer_as_newtype! { impl Initializer<Array<String>> for I { _ } } pub struct J(pub u8); impl_initializer_as_newtype! { impl Initializer<Inner> for J { _ } }"),
    ("delegation without a field", "pub struct J; impl_initializer_as_newtype! { impl Initializer<Inner> for J { _ } }"),
    ("delegation for a type that is not variable-length", "pub struct J(pub SizedInit<FillWithDefault>); impl_initializer_as_newtype! { impl Initializer<Vec<u8>> for J { _ } }"),
    ("delegation to an initializer of something else", "pub struct J<'a>(pub <Str as VClone<'a>>::Cloner); impl_initializer_as_newtype! { impl<('a)> Initializer<FixedLen<u8>> for J<'a> { _ } }"),
]
WITH = "with init: pub struct NInit<_>(pub _); with inner_ref: pub fn ir(&self) -> &_; with inner_mut: pub fn im(self: _) -> _;"


def newtypes(r, d, pick):
    k = pick("newtypes", len(NEWTYPES))
    label, text = NEWTYPES[k]
    inner = defs.var_type(r, [])
    t = "pub type Inner = %s;" % inner
    p = Program("newtype: " + label, [t, text.replace("WITH", WITH)], {0, 1})
    p.neighbour = Program("newtype", [t, "define_varlen_newtype! { #[repr(transparent)] pub struct N(pub Inner); %s }" % WITH], expect="accepted")
    return p


TOKEN = re.compile(r"'[a-z]+|r#\w+|\w+|\"[^\"]*\"|/\*.*?\*/|::|->|=>|\.\.|#\[[a-z_]+\]|\S")
SOUP = ["#[varlen]", "#[varlen_array]", "#[controls_layout]", "#[varlen()]", "#[varlen_array = 3]", "#[controls_layout(x)]", "r#type", "r#fn", "__", "_1", "_", "Z9", "é", "self", "Self", "crate", "super", "pub", "pub(in x)", "pub(in crate)", "mut", "&", "*", "[u8; 3]", "[u8; _]", "{", "}", "(", ")", "[", "]", "<", ">", ",", ";", ":", "=", "'a", "'static", "dyn", "impl", "for<'a>", "where", "const N: usize", "T", "<T>", "<'a>", "<const N: usize = 3>", "where T: VarLen", "!", "()", "3", "3u8", '"x"', "macro_rules!", "three!()", "#", "$", "\u00a0", "union", "enum", "struct", "fn", "r#struct", "async", "unsafe", "if", "match", "=> 3", "..", "...", "..=", "|x| x", "b'x'", "0x", "1e9", "#[cfg(any())]", "#[cfg(all())]", "#[doc(hidden)]", "/** d */", "#[repr(packed)]", "#[derive(Clone)]", "#[define_varlen]"]
NAMES = ["__", "___", "_1", "_a", "a_", "A_", "r#type", "r#Fn", "r#match", "A1b2", "é", "Ünï", "日本", "x1_2", "ABC", "aBc", "_A_B", "r#async", "Z", "aA", "r#struct", "r#impl", "union", "r#union", "std", "core", "varlen", "u8", "Str", "Init", "Refs", "Muts", "LayoutControllers", "VarLenLayout", "lengths", "init", "refs", "size", "layout", "p", "Self_", "T", "x_len", "x_layout"]


def soup(r, d, pick):
    """Anything. Only the macro itself must not panic."""
    lines, _ = listing(d)
    text = " ".join(lines)
    toks = TOKEN.findall(text)
    mode = pick("soup", 4)
    if mode == 0:
        # Names that are legal, but unusual.
        ids = sorted(set([f.name for f in d.fields] + [d.name]))
        for _ in range(1 + r.randrange(3)):
            a, b = r.choice(ids), r.choice(NAMES)
            toks = [b if t == a else t for t in toks]
    elif mode == 1:
        args = " ".join(r.choice(SOUP) for _ in range(1 + r.randrange(4)))
        toks = ["#", "[", "define_varlen", "(", args, ")", "]"] + toks[1:] if toks[0] == "#[define_varlen]" else toks
    else:
        for _ in range(1 + r.randrange(4)):
            k = 1 + r.randrange(len(toks) - 1)
            m = r.randrange(4)
            if m == 0:
                del toks[k]
            elif m == 1:
                toks.insert(k, r.choice(SOUP))
            elif m == 2:
                toks[k] = r.choice(SOUP + NAMES)
            else:
                j = 1 + r.randrange(len(toks) - 1)
                toks[k], toks[j] = toks[j], toks[k]
    return Program("soup", [" ".join(toks)], {0}, expect="any")


def through_macro(r, d, pick):
    """The definition comes out of another macro, as fragments. It stays as valid as it was."""
    params, args = [], []
    n = [0]

    def frag(kind, text):
        n[0] += 1
        params.append("$%s%d:%s" % (kind[0] + "x", n[0], kind))
        args.append(text)
        return "$%s%d" % (kind[0] + "x", n[0])

    mode = pick("fragments", 5)
    body = []
    vis, name = d.vis, d.name
    if mode in (0, 4):
        vis = frag("vis", d.vis.strip()) + " "
    if mode in (1, 4):
        name = frag("ident", d.name)
    for f in d.fields:
        ty = f.ty
        if mode in (2, 4):
            ty = frag("ty", f.ty)
        fv = f.vis
        if mode == 0:
            fv = frag("vis", f.vis.strip()) + " "
        if f.kind == "arr":
            ty = "[%s; %s]" % (ty, f.length.rust)
        fname = f.name
        body.append("%s%s%s: %s," % (f.role(), fv, fname, ty))
    text = "macro_rules! make { (%s) => { #[define_varlen] %sstruct %s { %s } } }" % (", ".join(params + ["end"]), vis, name, " ".join(body))
    return Program("through a macro (%s)" % ["visibilities", "name", "types", "nothing", "everything"][mode], [text, "make! { %s }" % ", ".join(args + ["end"])], {0, 1}, expect="accepted")


BREAKS = [(shape, 4), (roles, 3), (not_array, 3), (visibility, 3), (expression, 10), (types, 4), (twice, 1), (newtypes, 3), (soup, 12), (through_macro, 2)]


class Deck:
    def __init__(self, r):
        self.r, self.decks = r, {}

    def __call__(self, key, n):
        d = self.decks.setdefault((key, n), [])
        if not d:
            d += range(n)
            self.r.shuffle(d)
        return d.pop()


def cases(r, n, deck):
    out = []
    for _ in range(n):
        if not deck.decks.get("bag"):
            deck.decks["bag"] = [f for f, w in BREAKS for _ in range(w)]
            r.shuffle(deck.decks["bag"])
        f = deck.decks["bag"].pop()
        d = defs.definition(r, r.randrange(16), [], want_ctl=r.randrange(3) > 0)
        if f is through_macro:
            d.not_generic()
        good = Program("supported", listing(d)[0], expect="accepted")
        bad = f(r, copy.deepcopy(d), deck)
        out.append((f.__name__, bad, getattr(bad, "neighbour", good)))
    return out


CASES = {"quick": 1100, "thorough": 14_000}
BATCH = 450


def run(ctx):
    from .programs import fingerprint, wrong

    n = ctx.cases or CASES[ctx.tier]
    r = random.Random("C16 %d" % ctx.seed)
    deck = Deck(r)
    t0 = time.time()
    kinds, labels, reasons = {}, {}, 0
    done = 0
    ctx.rules.append(
        "A case is a pair of programs: a random struct definition that follows the documented rules (fields of all roles and types, length expressions, visibilities, attributes, generics; or a newtype), which the compiler has to accept, and the same definition with one rule broken (another kind of item, several roles on a field, an array role on something else, a visibility with a path, a length expression that uses other fields or unknown names, is not constant, has another type or changes something, types that cannot be there, malformed newtypes), which it has to reject. "
        "In a quarter of the cases the second is arbitrary tokens or unusual names instead, for which the macro only must not panic; in some it comes out of another macro, and has to be accepted. Non-trivial: all but those with arbitrary tokens; distinct by text."
    )
    while done < n:
        cs = cases(r, min(BATCH, n - done), deck)
        done += len(cs)
        answers = ask_all([c[1].text() for c in cs] + [c[2].text() for c in cs], ctx.dir, "d")
        for k, (kind, bad, good) in enumerate(cs):
            a, b = answers[k], answers[len(cs) + k]
            ctx.evaluations += 1
            if bad.expect != "any":
                ctx.hashes.add(fingerprint(bad.text()))
            kinds[kind] = kinds.get(kind, 0) + 1
            labels[bad.label] = labels.get(bad.label, 0) + 1
            if len(ctx.samples) < 8 and k % 57 == 5:
                ctx.samples.append({"broken_rule": bad.label, "answer": ("accepted" if a.accepted else a.summary())[:200], "program": bad.lines[-12:]})
        ctx.parts["programs"] = {"pairs": done, "kinds": kinds, "different_rules_broken": len(labels)}
        for k, (kind, bad, good) in enumerate(cs):
            for p, a in ((bad, answers[k]), (good, answers[len(cs) + k])):
                if wrong(p.expect, a):
                    raise smallest(ctx, p, a)
    say("definitions: %d pairs, %d different rules broken, %.1f s" % (done, len(labels), time.time() - t0))


def smallest(ctx, p, answer):
    """Without the lines that do not matter."""
    from .programs import violation, wrong

    gone = set()
    # A rejected neighbour is wrong because of all of it: what is left must be a valid definition.
    again = p.expect != "any"
    while again:
        again = False
        c = [k for k in range(len(p.lines)) if k not in gone and k not in p.essential and k not in (0, len(p.lines) - 1)]
        if p.expect == "accepted":
            # Controlling fields may be needed by others.
            c = [k for k in c if "#[controls_layout]" not in p.lines[k]]
        for k, a in zip(c, ask_all([p.text(gone | {k}) for k in c], ctx.dir, "z")):
            w = wrong(p.expect, a)
            if w and (p.expect != "accepted" or [e[:2] for e in a.errors] == [e[:2] for e in answer.errors]):
                gone.add(k)
                answer = a
                again = True
                break
    name = {"rejected": "an unsupported definition (%s)", "accepted": "a supported definition (%s)", "any": "a definition (%s)"}[p.expect] % p.label
    v = violation("%s %s" % (name, wrong(p.expect, answer)), p.text(gone), p.expect, answer)
    v.data["log"] = [l for k, l in enumerate(p.lines) if k not in gone] + v.data["log"][v.data["log"].index("--"):]
    return v
