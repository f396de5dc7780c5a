"""C17: programs without unsafe code that misuse variable-length objects, and their correct neighbours.

A pair is (label, misuse, neighbour): the first must be rejected, the second accepted. Both have the same items and
setup, so that a misuse is not rejected for something else."""

import re

HEAD = """#![allow(warnings)]
use varlen::prelude::*;
use varlen::marker::{ArrayMarker, FieldMarker};
use varlen::Layout;
use bumpalo::Bump;
use std::pin::Pin;
use std::cell::Cell;
fn touch<X: ?Sized>(_: &X) {}
fn keep<X>(_: X) {}
"""

ELEMS = [("u8", "i as u8"), ("u64", "i as u64"), ("String", "String::new()"), ("()", "()"), ("Box<u32>", "Box::new(i as u32)"), ("char", "'x'"), ("(u8, u16)", "(i as u8, 3)"), ("Option<Box<u8>>", "None"), ("[u32; 3]", "[7; 3]")]
LENS = ["u8", "u16", "u32", "u64", "usize"]


class Ty:
    """A type that is not Unpin, unless unpin is set. clones: implements VClone."""

    def __init__(self, text, init, items=(), unpin=False, fields=None, module=None, kind="", clones=False, inner=None, copies=False):
        self.text, self.init, self.items, self.unpin, self.fields, self.module, self.kind, self.clones, self.inner, self.copies = text, init, list(items), unpin, fields, module, kind, clones, inner, copies


class Names:
    """New names, and a deck for each list of options: every option comes up before any comes up again."""

    def __init__(self, decks):
        self.n = 0
        self.decks = decks

    def pick(self, r, key, options):
        d = self.decks.setdefault((key, len(options)), [])
        if not d:
            d += range(len(options))
            r.shuffle(d)
        return options[d.pop()]

    def __call__(self, stem):
        self.n += 1
        return stem + "abcdefghijklmnopqrstuvwxyz"[self.n // 26] + "abcdefghijklmnopqrstuvwxyz"[self.n % 26]


def string(r):
    if r.randrange(2):
        return Ty("Str", 'Str::copy("hello")', kind="str", clones=True, copies=True)
    l = r.choice(LENS)
    return Ty("Str<%s>" % l, 'Str::<%s>::try_copy("hi").unwrap()' % l, kind="str", clones=True, copies=True)


def array(r):
    e, v = r.choice(ELEMS)
    l = r.choice(LENS)
    return Ty("Array<%s, %s>" % (e, l), "SizedInit(%d%s, FillSequentially(|i| %s))" % (r.randrange(5), l, v), kind="array", clones=True, copies=e in ("u8", "u64", "()", "char", "(u8, u16)", "[u32; 3]"))


def fixed(r):
    e, v = r.choice(ELEMS)
    return Ty("FixedLen<%s>" % e, "FixedLen({ let i = 3; %s })" % v, unpin=True, kind="fixed", clones=True)


def tup(r, names, depth):
    parts = [any_type(r, names, depth + 1) for _ in range(2 + r.randrange(4))]
    n = len(parts)
    return Ty("Tup%d<%s>" % (n, ", ".join(p.text for p in parts)), "tup%d::Init(%s)" % (n, ", ".join(p.init for p in parts)), sum((p.items for p in parts), []), fields=parts, kind="tuple", clones=all(p.clones for p in parts), copies=all(p.copies for p in parts))


def newtype(r, names, depth):
    p = any_type(r, names, depth + 1)
    n = names("Nt")
    items = p.items + ["define_varlen_newtype! { #[repr(transparent)] pub struct %s(pub %s); with init: pub struct %sInit<_>(pub _); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }" % (n, p.text, n)]
    return Ty(n, "%sInit(%s)" % (n, p.init), items, unpin=p.unpin, kind="newtype", inner=p)


def struct(r, names, depth):
    n = names("Rec")
    fields, items, init = [], [], []
    kinds = [r.choice(["norm", "ctl", "var", "arr"]) for _ in range(1 + r.randrange(5))]
    kinds += ["norm", "ctl", "arr" if "var" not in kinds else r.choice(["arr", "var"])]
    r.shuffle(kinds)
    ctls = []
    for k in kinds:
        f = names("f")
        if k == "norm":
            e, v = r.choice(ELEMS)
            fields.append((k, f, e, "{ let i = 3; %s }" % v, None))
        elif k == "ctl":
            l = r.choice(LENS)
            ctls.append((f, l))
            fields.append((k, f, l, "%d" % r.randrange(4), None))
        elif k == "var":
            t = any_type(r, names, depth + 1)
            items += t.items
            fields.append((k, f, t.text, t.init, t))
        else:
            e, v = r.choice(ELEMS)
            fields.append((k, f, e, "FillSequentially(|i| %s)" % v, None))
    body = []
    for k, f, t, _, _ in fields:
        if k == "arr":
            c, l = r.choice(ctls)
            body.append("#[varlen_array] pub %s: [%s; *%s as usize]" % (f, t, c))
        else:
            body.append({"norm": "", "ctl": "#[controls_layout] ", "var": "#[varlen] "}[k] + "pub %s: %s" % (f, t))
    items.append("#[define_varlen] pub struct %s { %s }" % (n, ", ".join(body)))
    m = n.lower()
    return Ty(n, "%s::Init { %s }" % (m, ", ".join("%s: %s" % (f, v) for _, f, _, v, _ in fields)), items, fields=fields, module=m, kind="struct")


def any_type(r, names, depth=0):
    k = r.randrange(8 if depth < 2 else 4)
    if k in (0, 1):
        return string(r)
    if k == 2:
        return array(r)
    if k == 3:
        return fixed(r)
    if k in (4, 5):
        return struct(r, names, depth)
    if k == 6:
        return tup(r, names, depth)
    return newtype(r, names, depth)


def pinned_type(r, names):
    """A type that is not Unpin."""
    while True:
        t = r.choice([lambda: string(r), lambda: array(r), lambda: struct(r, names, 0), lambda: struct(r, names, 0), lambda: tup(r, names, 0), lambda: newtype(r, names, 0)])()
        if not t.unpin:
            return t


PLACES = ["vbox", "arena", "seq", "indexed", "drained", "tuple", "field", "inner", "param", "leaked"]


def place(r, t, v, names, which=None):
    """(items, parameters, setup, pin expression, shared expression) of an object in a variable v."""
    which = which or r.choice(PLACES)
    T, I = t.text, t.init
    p = "%s.as_mut()" % v
    s = "(&*%s)" % v
    if which == "vbox":
        return [], "", "let mut %s = VBox::<%s>::new(%s);" % (v, T, I), p, s
    if which == "arena":
        return [], "", "let %s_b = Bump::new(); let mut %s = Owned::<%s>::new_in(%s, &%s_b);" % (v, v, T, I, v), p, s
    if which == "leaked":
        return [], "", "let %s_b = Bump::new(); let mut %s = Owned::<%s>::new_in(%s, &%s_b).leak();" % (v, v, T, I, v), p, s
    if which == "seq":
        return [], "", "let mut %s_s: Seq<%s> = Seq::new(); %s_s.push(%s); let mut %s = %s_s.iter_mut().next().unwrap();" % (v, T, v, I, v, v), p, s
    if which == "indexed":
        return [], "", "let mut %s_s: IndexableSeq<%s> = Seq::new(); %s_s.push(%s); let mut %s = %s_s.from_offset_mut(0);" % (v, T, v, I, v, v), p, s
    if which == "drained":
        return [], "", "let mut %s_s: Seq<%s> = Seq::new(); %s_s.push(%s); let mut %s = %s_s.take_elems().next().unwrap();" % (v, T, v, I, v, v), p, s
    if which == "tuple":
        return [], "", "let mut %s_t = VBox::<Tup2<FixedLen<u8>, %s>>::new(tup2::Init(FixedLen(3), %s)); let mut %s = %s_t.as_mut().muts().1;" % (v, T, I, v, v), p, s
    if which == "field":
        n = names("Wrap")
        return ["#[define_varlen] pub struct %s { #[controls_layout] pub n: u8, #[varlen_array] pub a: [u8; *n as usize], #[varlen] pub it: %s }" % (n, T)], "", "let mut %s_t = VBox::new(%s::Init { n: 3, a: FillWithDefault, it: %s }); let mut %s = %s_t.as_mut().muts().it;" % (v, n.lower(), I, v, v), p, s
    if which == "inner":
        n = names("Wrap")
        return ["define_varlen_newtype! { #[repr(transparent)] pub struct %s(%s); with init: pub struct %sInit<_>(pub _); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }" % (n, T, n)], "", "let mut %s_t = VBox::<%s>::new(%sInit(%s)); let mut %s = %s_t.as_mut().inner_mut();" % (v, n, n, I, v, v), p, s
    return [], "mut %s: Pin<&mut %s>, " % (v, T), "", p, s


def program(items, params, setup, statement, extra=""):
    return HEAD + "\n".join(dict.fromkeys(items)) + "\n" + extra + "\nfn program(%s) {\n    %s\n    %s\n}\n" % (params, setup, statement)


def whole(r, names):
    """Treating the header as a value of its own."""
    t = pinned_type(r, names)
    ia, qa, sa, pa, ra = place(r, t, "a", names)
    ib, qb, sb, pb, rb = place(r, t, "b", names)
    T = t.text
    bad = [
        ("swap", "core::mem::swap(&mut *%s, &mut *%s);" % (pa, pb)),
        ("swap through get_mut", "core::mem::swap(%s.get_mut(), %s.get_mut());" % (pa, pb)),
        ("get_mut", "let x: &mut %s = %s.get_mut();" % (T, pa)),
        ("mutable borrow", "let x: &mut %s = &mut *%s;" % (T, pa)),
        ("deref_mut", "let x: &mut %s = core::ops::DerefMut::deref_mut(&mut %s);" % (T, pa)),
        ("into_inner", "let x: &mut %s = Pin::into_inner(%s);" % (T, pa)),
        ("get_unchecked_mut", "let x: &mut %s = %s.get_unchecked_mut();" % (T, pa)),
        ("move out", "let x = *%s;" % ra),
        ("move out into a call", "keep::<%s>(*%s);" % (T, ra)),
        ("move out of the pin", "let x: %s = *%s;" % (T, pa)),
        ("read", "let x: %s = core::ptr::read(%s);" % (T, ra)),
        ("take", "let x: %s = core::mem::take(&mut *%s);" % (T, pa)),
        ("replace", "fn f(mut p: Pin<&mut %s>, x: %s) { core::mem::replace(&mut *p, x); }" % (T, T)),
        ("assign", "fn f(mut p: Pin<&mut %s>, x: %s) { *p = x; }" % (T, T)),
        ("clone", "let x: %s = <%s as Clone>::clone(%s);" % (T, T, ra)),
        ("clone by method", "let x: %s = (*%s).clone();" % (T, ra)),
        ("default", "let x: %s = Default::default();" % T),
        ("to_owned", "let x: %s = %s.to_owned();" % (T, ra)),
        ("array of headers", "let x: [%s; 1] = [*%s];" % (T, ra)),
        ("is Unpin", "fn unpin<X: Unpin>() {} unpin::<%s>();" % T),
        ("is Copy", "fn copy<X: Copy>() {} copy::<%s>();" % T),
        ("is Clone", "fn clone<X: Clone>() {} clone::<%s>();" % T),
        ("is Default", "fn default<X: Default>() {} default::<%s>();" % T),
        ("new pin of moved value", "let x = Pin::new(&mut *%s);" % pa),
        ("closure by value", "(|x: %s| ())(*%s);" % (T, ra)),
        ("box the header", "let x: Box<%s> = Box::new(*%s);" % (T, ra)),
    ]
    label, st = names.pick(r, "whole", bad)
    good = "touch(%s); touch(%s); keep(%s); keep(%s);" % (ra, rb, pa, pb)
    items = t.items + ia + ib
    return ("header as a value: " + label, program(items, qa + qb, sa + " " + sb, st), program(items, qa + qb, sa + " " + sb, good))


def owners(r, names):
    """Owners as if they gave mutable references or values."""
    t = pinned_type(r, names)
    T = t.text
    which = r.choice(["vbox", "vbox", "arena", "drained"])
    ia, qa, sa, pa, ra = place(r, t, "a", names, which)
    ib, qb, sb, pb, rb = place(r, t, "b", names, which)
    bad = [
        ("mutable borrow", "let x: &mut %s = &mut *a;" % T),
        ("mutable borrow by coercion", "fn f(_: &mut %s) {} f(&mut a);" % T),
        ("swap", "core::mem::swap::<%s>(&mut *a, &mut *b);" % T),
        ("swap by coercion", "core::mem::swap::<%s>(&mut a, &mut b);" % T),
        ("deref_mut", "let x: &mut %s = core::ops::DerefMut::deref_mut(&mut a);" % T),
        ("is DerefMut", "fn f<X: core::ops::DerefMut<Target = Y>, Y: ?Sized>(_: &mut X, _: &mut Y) {} f(&mut a, &mut *b);"),
        ("AsMut", "let x: &mut %s = AsMut::as_mut(&mut a);" % T),
        ("BorrowMut", "let x: &mut %s = core::borrow::BorrowMut::borrow_mut(&mut a);" % T),
        ("get_mut", "let x: &mut %s = a.get_mut();" % T),
        ("into_inner", "let x: %s = a.into_inner();" % T),
        ("move out", "let x: %s = *a;" % T),
        ("into a box", "let x: Box<%s> = a.into();" % T),
        ("into a pinned box", "let x: Pin<Box<%s>> = a.into();" % T),
        ("into a value", "let x: %s = a.into();" % T),
        ("a box by from", "let x = Box::<%s>::from(a);" % T),
        ("pin of the owner", "let x: Pin<&mut %s> = Pin::new(&mut *a);" % T),
        ("the inside of a pinned owner", "let x: &mut %s = Pin::new(&mut a).get_mut();" % T),
        ("the inside of an owner in a pin", "let x: Pin<&mut %s> = Pin::new(a).as_mut(); let x: &mut %s = x.get_mut();" % (T, T)),
        ("assign through", "fn f(y: %s) { let mut a: Option<%s> = None; *a.as_mut().unwrap() = y; }" % (T, "VBox<%s>" % T if which == "vbox" else "Owned<'static, %s>" % T)),
        ("copy of the owner", "let c = a; touch(&a); touch(&c);"),
        ("owner made of a box", "fn f(x: Box<%s>) -> %s { x.into() }" % (T, "VBox<%s>" % T if which == "vbox" else "Owned<'static, %s>" % T)),
        ("pin from a shared owner", "let c = &a; let x: Pin<&mut %s> = c.as_mut();" % T),
        ("static pin of a borrowed owner", "let x: Pin<&'static mut %s> = a.as_mut();" % T),
    ]
    seq = [
        ("element by index", "let x: &mut %s = &mut s[0];" % T, "let x: Option<Pin<&mut %s>> = s.iter_mut().next();" % T),
        ("elements as a slice", "let x: &[%s] = &s[..];" % T, "let x: &Seq<%s> = &s;" % T),
        ("elements as a coerced slice", "let x: &[%s] = &s;" % T, "let x: &Seq<%s> = &s;" % T),
        ("element by value", "for x in s { let x: %s = x; }" % T, "for x in s.take_elems() { let x: Owned<%s> = x; }" % T),
        ("mutable element", "let x: &mut %s = s.iter_mut().next().unwrap().get_mut();" % T, "let x: Pin<&mut %s> = s.iter_mut().next().unwrap();" % T),
        ("mutable element from a shared sequence", "let c = &s; let x = c.iter_mut();", "let c = &mut s; let x = c.iter_mut();"),
        ("drain of a shared sequence", "let c = &s; let x = c.take_elems();", "let c = &mut s; let x = c.take_elems();"),
        ("push into a shared sequence", "let c = &s; c.push(%s);" % t.init, "let c = &mut s; c.push(%s);" % t.init),
        ("offset in a sequence without offsets", "let x = s.from_offset(0);", "let x = s.iter().next();"),
        ("mutable offset in a sequence without offsets", "let x = s.from_offset_mut(0);", "let x = s.iter_mut().next();"),
        ("swap of elements", "{ let mut i = s.iter_mut(); core::mem::swap(&mut *i.next().unwrap(), &mut *i.next().unwrap()); }", "{ let mut i = s.iter_mut(); keep(i.next()); keep(i.next()); }"),
        ("copied iterator over pins", "let i = s.iter_mut(); let j = i; keep(i); keep(j);", "let i = s.iter(); let j = s.iter(); keep(i); keep(j);"),
        ("cloned iterator over pins", "let i = s.iter_mut(); let j = i.clone();", "let i = s.iter(); let j = s.iter();"),
        ("cloned iterator over drained elements", "let i = s.take_elems(); let j = i.clone();", "let i = s.take_elems(); keep(i);"),
        ("collected values", "let x: Vec<%s> = s.take_elems().collect();" % T, "let x: Vec<Owned<%s>> = s.take_elems().collect();" % T),
        ("cloned values", "let x: Vec<%s> = s.iter().cloned().collect();" % T, "let x: Vec<&%s> = s.iter().collect();" % T),
        ("copied values", "let x: Vec<%s> = s.iter().copied().collect();" % T, "let x: Vec<&%s> = s.iter().collect();" % T),
        ("push of a reference", "let x = VBox::<%s>::new(%s); s.push(&*x);" % (T, t.init), "let x = VBox::<%s>::new(%s); s.push(x);" % (T, t.init)),
        ("push of a pin", "let mut x = VBox::<%s>::new(%s); s.push(x.as_mut());" % (T, t.init), "let x = VBox::<%s>::new(%s); s.push(x);" % (T, t.init)),
        ("push of an element of another type", "s.push(VBox::<Tup2<%s, Str>>::new(tup2::Init(%s, Str::copy(\"\"))));" % (T, t.init), "s.push(VBox::<%s>::new(%s));" % (T, t.init)),
    ]
    k = names.pick(r, "owners", list(range(len(bad) + len(seq))))
    if k >= len(bad):
        label, b, g = seq[k - len(bad)]
        setup = "let mut s: Seq<%s> = Seq::new(); s.push(%s); s.push(%s);" % (T, t.init, t.init)
        return ("sequence as owner: " + label, program(t.items, "", setup, b), program(t.items, "", setup, g))
    label, st = bad[k]
    good = "touch(&a); touch(&b); touch(%s); keep(%s); keep(%s); touch(&a);" % (ra, pa, pb)
    items = t.items + ia + ib
    return ("owner as a value: " + label, program(items, qa + qb, sa + " " + sb, st), program(items, qa + qb, sa + " " + sb, good))


def fields(r, names):
    """Fields of macro-defined structs and tuples."""
    t = struct(r, names, 0) if r.randrange(4) else tup(r, names, 0)
    ia, qa, sa, pa, ra = place(r, t, "a", names)
    ib, qb, sb, pb, rb = place(r, t, "b", names)
    items = t.items + ia + ib
    q, s = qa + qb, sa + " " + sb
    if t.kind == "tuple":
        k = r.randrange(len(t.fields))
        bad, good = names.pick(r, "tuple", [
            ("let x = &mut %s.%d;" % (pa, k), "let x = &%s.%d;" % (ra, k)),
            ("let x = %s.%d;" % (ra, k), "let x = &%s.%d;" % (ra, k)),
            ("core::mem::swap(&mut %s.%d, &mut %s.%d);" % (pa, k, pb, k), "core::mem::swap(&mut %s.muts().%d, &mut %s.muts().%d);" % (pa, k, pb, k)),
            ("let x: %s = Tup%d(%s);" % (t.text, len(t.fields), ", ".join("FieldMarker::new_unchecked()" for _ in t.fields)), "touch(%s);" % ra),
            ("let x: %s = Tup%d(%s);" % (t.text, len(t.fields), ", ".join("Clone::clone(&%s.%d)" % (ra, i) for i, _ in enumerate(t.fields))), "touch(%s);" % ra),
            ("let x: %s = Tup%d(%s);" % (t.text, len(t.fields), ", ".join("Default::default()" for _ in t.fields)), "touch(%s);" % ra),
            ("let x: &mut %s = %s.refs().%d;" % (t.fields[k].text, ra, k), "let x: &%s = %s.refs().%d;" % (t.fields[k].text, ra, k)),
        ])
        return ("tuple fields", program(items, q, s, bad), program(items, q, s, good))
    markers = lambda e: "let x = %s { %s };" % (t.text, ", ".join("%s: %s" % (f[1], f[3] if f[0] in ("norm", "ctl") else e % f[1] if "%s" in e else e) for f in t.fields))
    norm = r.choice([f for f in t.fields if f[0] == "norm"])
    ctl = r.choice([f for f in t.fields if f[0] == "ctl"])
    other = r.choice([f for f in t.fields if f[0] in ("var", "arr")])
    lit = lambda tail: ", ".join("%s: %s" % (f[1], {"norm": f[3], "ctl": f[3], "var": "FieldMarker::new_unchecked()", "arr": "ArrayMarker::new_unchecked()"}[f[0]]) for f in t.fields)
    n, m = t.text, t.module
    some = [
        ("assign a plain field directly", "%s.%s = %s;" % (pa, norm[1], norm[3]), "*%s.muts().%s = %s;" % (pa, norm[1], norm[3])),
        ("assign a controller", "%s.%s = 1;" % (pa, ctl[1]), "let x = %s.%s;" % (ra, ctl[1])),
        ("assign a controller through muts", "*%s.muts().%s = 1;" % (pa, ctl[1]), "let x: %s = *%s.muts().%s;" % (ctl[2], pa, ctl[1])),
        ("borrow a controller through muts", "let x: &mut %s = %s.muts().%s;" % (ctl[2], pa, ctl[1]), "let x: &%s = %s.muts().%s;" % (ctl[2], pa, ctl[1])),
        ("assign a controller through refs", "*%s.refs().%s = 1;" % (ra, ctl[1]), "let x: %s = *%s.refs().%s;" % (ctl[2], ra, ctl[1])),
        ("borrow a controller", "let x: &mut %s = &mut %s.%s;" % (ctl[2], pa, ctl[1]), "let x: &%s = &%s.%s;" % (ctl[2], ra, ctl[1])),
        ("swap controllers", "core::mem::swap(%s.muts().%s, %s.muts().%s);" % (pa, ctl[1], pb, ctl[1]), "core::mem::swap(%s.muts().%s, %s.muts().%s);" % (pa, norm[1], pb, norm[1])),
        ("assign a plain field through refs", "*%s.refs().%s = %s;" % (ra, norm[1], norm[3]), "touch(%s.refs().%s);" % (ra, norm[1])),
        ("swap markers", "core::mem::swap(&mut %s.%s, &mut %s.%s);" % (pa, other[1], pb, other[1]), "touch(&%s.%s);" % (ra, other[1])),
        ("move a marker out", "let x = %s.%s;" % (ra, other[1]), "touch(&%s.%s);" % (ra, other[1])),
        ("build a header", "let x = %s { %s };" % (n, lit("")), "touch(%s);" % ra),
        ("build a header from clones", markers("Clone::clone(&" + ra.replace("%", "%%") + ".%s)"), "touch(%s);" % ra),
        ("build a header from copies", markers(ra.replace("%", "%%") + ".%s"), "touch(%s);" % ra),
        ("build a header from defaults", markers("Default::default()"), "touch(%s);" % ra),
        ("functional update", "let x = %s { %s: %s, ..*%s };" % (n, norm[1], norm[3], ra), "touch(%s);" % ra),
        ("destructure", "let %s { %s, .. } = *%s;" % (n, other[1], ra), "let %s { %s, .. } = %s;" % (n, other[1], ra)),
        ("mutable pattern", "let %s { ref mut %s, .. } = *%s;" % (n, ctl[1], pa), "let %s { ref %s, .. } = *%s;" % (n, ctl[1], ra)),
        ("mutable controllers argument", "let mut c = %s::LayoutControllers { %s }; core::mem::swap(&mut c.%s, %s.muts().%s);" % (m, ", ".join("%s: 1" % f[1] for f in t.fields if f[0] == "ctl"), ctl[1], pa, ctl[1]), "let mut c = %s::LayoutControllers { %s }; let _ = %s.try_set_layout_controllers(c);" % (m, ", ".join("%s: 1" % f[1] for f in t.fields if f[0] == "ctl"), pa)),
        ("set controllers through a shared reference", "let _ = %s.try_set_layout_controllers(%s::LayoutControllers { %s });" % (ra, m, ", ".join("%s: 1" % f[1] for f in t.fields if f[0] == "ctl")), "let _ = %s.try_set_layout_controllers(%s::LayoutControllers { %s });" % (pa, m, ", ".join("%s: 1" % f[1] for f in t.fields if f[0] == "ctl"))),
        ("muts through a shared reference", "let x = %s.muts();" % ra, "let x = %s.muts();" % pa),
        ("array through refs", None, None),
    ]
    label, bad, good = names.pick(r, "fields", some)
    if bad is None:
        arrs = [f for f in t.fields if f[0] == "arr"]
        if not arrs:
            return fields(r, names)
        f = r.choice(arrs)
        bad, good = "let x: &mut [%s] = %s.refs().%s;" % (f[2], ra, f[1]), "let x: &mut [%s] = %s.muts().%s;" % (f[2], pa, f[1])
    return ("struct fields: " + label, program(items, q, s, bad), program(items, q, s, good))


def items_of(r, names):
    """Items that would make the above possible."""
    t = pinned_type(r, names)
    while t.kind not in ("struct", "newtype", "tuple"):
        t = pinned_type(r, names)
    T = t.text
    k = t.kind
    bads = [
        ("impl Unpin", "impl Unpin for %s {}" % T),
        ("impl Clone", "impl Clone for %s { fn clone(&self) -> Self { *self } }" % T),
        ("impl Copy", "impl Clone for %s { fn clone(&self) -> Self { loop {} } } impl Copy for %s {}" % (T, T)),
        ("impl VarLen for another type", "struct Other(u8); impl VarLen for Other { type Layout = <%s as VarLen>::Layout; fn calculate_layout(&self) -> Self::Layout { loop {} } const ALIGN: usize = 1; const NEEDS_VDROP: bool = false; unsafe fn vdrop(self: Pin<&mut Self>, _: Self::Layout) {} }" % T),
        ("impl Initializer", "struct Other; impl Initializer<%s> for Other { fn calculate_layout_cautious(&self) -> Option<<%s as VarLen>::Layout> { None } unsafe fn initialize(self, dst: std::ptr::NonNull<%s>, layout: <%s as VarLen>::Layout) {} }" % (T, T, T, T)),
        ("impl ArrayInitializer", "struct Other; impl ArrayInitializer<u8> for Other { fn initialize(self, dst: &mut [std::mem::MaybeUninit<u8>]) {} }"),
        ("impl ArrayLen", "#[derive(Clone, Copy)] struct Other(u8); impl ArrayLen for Other { fn as_usize(self) -> usize { 3 } fn from_usize(_: usize) -> Option<Self> { None } }"),
        ("impl Indexing", "struct Other; impl Indexing for Other {}"),
    ]
    if k in ("struct", "newtype"):
        # Tuples belong to another crate, so only rustc's own rules are in the way of these.
        bads += [("impl Unpin for a wrapper's type", "impl<'a> Unpin for %s where &'a (): Sized {}" % T)] * 2
    if k == "struct":
        bads += [("impl Drop", "impl Drop for %s { fn drop(&mut self) {} }" % T)]
        bads += [("impl VCopy", "impl<'a> varlen::VClone<'a> for %s { type Cloner = varlen::VCopier<'a, Self>; fn vclone(&'a self) -> Self::Cloner { self.vcopy() } } impl<'a> VCopy<'a> for %s {}" % (T, T))]
        dec = t.items[-1]
        for tr in ("Clone", "Default", "Clone, Copy"):
            bads += [("derive %s" % tr, ("replace", dec, dec.replace("#[define_varlen]", "#[define_varlen] #[derive(%s)]" % tr)))]
            bads += [("derive %s before" % tr, ("replace", dec, dec.replace("#[define_varlen]", "#[derive(%s)] #[define_varlen]" % tr)))]
    if k == "newtype":
        dec = t.items[-1]
        for tr in ("Clone", "Default", "Clone, Copy"):
            bads += [("derive %s" % tr, ("replace", dec, dec.replace("pub struct %s(" % T, "#[derive(%s)] pub struct %s(" % (tr, T), 1)))]
    label, bad = names.pick(r, "items", bads)
    user = "fn program() { let a = VBox::<%s>::new(%s); touch(&*a); }\n" % (T, t.init)
    good = HEAD + "\n".join(dict.fromkeys(t.items)) + "\n" + user
    if isinstance(bad, tuple):
        b = HEAD + "\n".join(bad[2] if x == bad[1] else x for x in dict.fromkeys(t.items)) + "\n" + user
    else:
        b = good + bad + "\n"
    return ("items: " + label, b, good)


def controllers(r, names):
    """Controllers whose values can change without mutable access."""
    get = names.pick(r, "controllers", [
        ("Cell<u8>", "n.get() as usize", "Cell::new(3)", "a.n.set(9);"),
        ("Cell<usize>", "n.get()", "Cell::new(3)", "a.n.set(9);"),
        ("&'static Cell<u8>", "n.get() as usize", "Box::leak(Box::new(Cell::new(3)))", "a.n.set(9);"),
        ("Box<Cell<u8>>", "n.get() as usize", "Box::new(Cell::new(3))", "a.n.set(9);"),
        ("[Cell<u8>; 2]", "n[1].get() as usize", "[Cell::new(3), Cell::new(4)]", "a.n[1].set(9);"),
        ("(u8, Cell<u8>)", "n.1.get() as usize", "(1, Cell::new(3))", "a.n.1.set(9);"),
        ("Cell<u8>", "n.replace(9) as usize", "Cell::new(3)", "touch(&a.n);"),
        ("Option<Cell<u8>>", "match n { Some(x) => x.get() as usize, None => 0 }", "Some(Cell::new(3))", "touch(&a.n);"),
        ("UserCell", "n.get()", "UserCell(Cell::new(3))", "a.n.0.set(9);"),
    ])
    ty, e, init, change = get
    el, v = r.choice(ELEMS)
    items = "pub struct UserCell(pub Cell<usize>); impl UserCell { pub const fn get(&self) -> usize { self.0.get() } }\n"
    t = any_type(r, names, 1)
    text = HEAD + items + "\n".join(dict.fromkeys(t.items)) + "\n#[define_varlen] pub struct Rec { #[controls_layout] pub n: %s, #[varlen] pub v: %s, #[varlen_array] pub a: [%s; %s], }\nfn program() { let a = VBox::new(rec::Init { n: %s, v: %s, a: FillSequentially(|i| %s) }); %s touch(&a.refs().a); }\n"
    good = r.choice([("u8", "*n as usize", "3"), ("usize", "*n", "3"), ("&'static u8", "**n as usize", "&3"), ("Box<u8>", "**n as usize", "Box::new(3)"), ("[u8; 2]", "n[1] as usize", "[3, 4]"), ("std::sync::atomic::AtomicU8", "3", "std::sync::atomic::AtomicU8::new(3)"), ("std::sync::Arc<u8>", "2", "std::sync::Arc::new(3)"), ("String", "n.len()", "String::new()")])
    return ("controllers with interior mutability", text % (ty, t.text, el, e, init, t.init, v, change), text % (good[0], t.text, el, good[1], good[2], t.init, v, "touch(&a.n);"))


def borrow(r, names):
    """References kept over what ends the object, its place or its exclusivity."""
    t = pinned_type(r, names) if r.randrange(4) else fixed(r)
    T, I = t.text, t.init
    which = r.choice(["vbox", "seq", "seq", "seq", "arena", "owned"])
    if which == "vbox":
        setup = "let mut v = VBox::<%s>::new(%s);" % (T, I)
        shared = ["&*v", "&v"]
        mut = ["v.as_mut()", "&mut v"]
        ends = ["drop(v);", "let w = v;", "v = VBox::new(%s);" % I, "{ let mut s: Seq<%s> = Seq::new(); s.push(v); }" % T, "let w = Some(v);", "core::mem::swap(&mut v, &mut VBox::new(%s));" % I]
        if t.kind == "struct" or t.kind == "tuple":
            shared += ["v.refs()"]
            mut += ["v.as_mut().muts()"]
            if t.kind == "struct":
                shared += ["v.refs().%s" % f[1] for f in t.fields] + ["&v.%s" % f[1] for f in t.fields]
                mut += ["v.as_mut().muts().%s" % f[1] for f in t.fields if f[0] != "ctl"]
            else:
                shared += ["v.refs().%d" % k for k in range(len(t.fields))]
                mut += ["v.as_mut().muts().%d" % k for k in range(len(t.fields))]
        if t.kind in ("str", "array"):
            shared += ["&v[..]"]
            mut += ["v.as_mut().mut_slice()"]
        if t.kind == "newtype":
            shared += ["v.inner()"]
            mut += ["v.as_mut().inner_mut()"]
        if t.clones:
            shared += ["v.vclone()"]
        if t.copies:
            shared += ["v.vcopy()"]
    elif which == "seq":
        idx = r.randrange(2)
        S = ("IndexableSeq<%s>" if idx else "Seq<%s>") % T
        setup = "let mut s: %s = Seq::new(); s.push(%s); s.push(%s);" % (S, I, I)
        shared = ["s.iter()", "s.iter().next().unwrap()", "s.iter().limited_to(1)", "s.iter().last().unwrap()", "&s"]
        mut = ["s.iter_mut()", "s.iter_mut().next().unwrap()", "s.iter_mut().limited_to(1)", "s.iter_mut().last().unwrap()", "s.take_elems()", "s.take_elems().next().unwrap()", "s.take_elems().collect::<Vec<_>>()"]
        if idx:
            shared += ["s.from_offset(0)"]
            mut += ["s.from_offset_mut(0)"]
        if t.clones:
            shared += ["s.iter().next().unwrap().vclone()"]
        if t.copies:
            shared += ["s.iter().next().unwrap().vcopy()"]
        if t.kind in ("str", "array"):
            shared += ["&s.iter().next().unwrap()[..]"]
            mut += ["s.iter_mut().next().unwrap().mut_slice()"]
        ends = ["s.push(%s);" % I, "s.extend(Some(%s));" % I, "drop(s);", "let w = s;", "s = Seq::new();", "drop(s.take_elems());", "core::mem::swap(&mut s, &mut Seq::new());", "drop(core::mem::replace(&mut s, Seq::new()));", "let w = s.iter_mut();"] + (["let w = s.from_offset_mut(0);"] if idx else [])
    elif which == "arena":
        setup = "let mut b = Bump::new(); let mut v = Owned::<%s>::new_in(%s, &b);" % (T, I)
        shared, mut = ["v", "v.leak()", "Some(v)"], []
        ends = ["drop(b);", "b.reset();", "let w = b;", "b = Bump::new();"]
    else:
        setup = "let b = Bump::new(); let mut v = Owned::<%s>::new_in(%s, &b);" % (T, I)
        shared, mut = ["&*v"], ["v.as_mut()"]
        ends = ["drop(v);", "let w = v;", "let w = v.leak();", "v = Owned::new_in(%s, &b);" % I, "let w = VBox::<%s>::new(v);" % T]
    if r.randrange(3) == 0 and mut:
        first = r.choice(mut)
        label = "alias"
        end = "let w = %s; touch(&w);" % r.choice(mut + shared) if r.randrange(2) else "let w = %s; touch(&w);" % r.choice(mut)
    else:
        first = r.choice(shared + mut)
        label = "use after"
        end = r.choice(ends)
    bad = "let x = %s; %s touch(&x);" % (first, end)
    good = "{ let x = %s; touch(&x); } %s" % (first, end)
    if which == "arena":
        good = "let x = %s; touch(&x); drop(x); %s" % (first, end)
    return ("%s: %s of %s" % (label, end.split("(")[0], which), program(t.items, "", setup, bad), program(t.items, "", setup, good))


def escapes(r, names):
    """Results that claim to live longer than what they come from."""
    t = pinned_type(r, names) if r.randrange(4) else fixed(r)
    T, I = t.text, t.init
    # (parameter type, result type, expression), with 'P for the lifetime of the parameter, 'R of the result
    c = [
        ("&'P VBox<T>", "&'R T", "x"),
        ("&'P mut VBox<T>", "Pin<&'R mut T>", "x.as_mut()"),
        ("&'P Seq<T>", "varlen::seq::Iter<'R, T>", "x.iter()"),
        ("&'P Seq<T>", "varlen::seq::Iter<'R, T>", "x.iter().limited_to(1)"),
        ("&'P Seq<T>", "Option<&'R T>", "x.iter().next()"),
        ("&'P mut Seq<T>", "varlen::seq::IterMut<'R, T>", "x.iter_mut()"),
        ("&'P mut Seq<T>", "varlen::seq::IterMut<'R, T>", "x.iter_mut().limited_to(1)"),
        ("&'P mut Seq<T>", "Option<Pin<&'R mut T>>", "x.iter_mut().next()"),
        ("&'P mut Seq<T>", "varlen::seq::OwnedElems<'R, T>", "x.take_elems()"),
        ("&'P mut Seq<T>", "Option<Owned<'R, T>>", "x.take_elems().next()"),
        ("&'P IndexableSeq<T>", "&'R T", "x.from_offset(0)"),
        ("&'P mut IndexableSeq<T>", "Pin<&'R mut T>", "x.from_offset_mut(0)"),
        ("&'P mut Owned<'P, T>", "Pin<&'R mut T>", "x.as_mut()"),
        ("&'P Owned<'P, T>", "&'R T", "x"),
        ("Owned<'P, T>", "Pin<&'R mut T>", "x.leak()"),
        ("Owned<'P, T>", "Owned<'R, T>", "x"),
        ("varlen::seq::Iter<'P, T>", "varlen::seq::Iter<'R, T>", "x"),
        ("varlen::seq::IterMut<'P, T>", "varlen::seq::IterMut<'R, T>", "x"),
        ("varlen::seq::IterMut<'P, T>", "Option<Pin<&'R mut T>>", "{ let mut x = x; x.next() }"),
        ("varlen::seq::Iter<'P, T>", "Option<&'R T>", "{ let mut x = x; x.next() }"),
        ("varlen::seq::OwnedElems<'P, T>", "varlen::seq::OwnedElems<'R, T>", "x"),
        ("varlen::seq::OwnedElems<'P, T>", "Option<Owned<'R, T>>", "{ let mut x = x; x.next() }"),
        ("&'P Bump", "Owned<'R, T>", "Owned::new_in(%s, x)" % I),
        ("&'P str", "impl Initializer<Str> + 'R", "Str::copy(x)"),
        ("&'P str", "Option<impl Initializer<Str<u16>> + 'R>", "Str::try_copy(x)"),
        ("&'P [u8]", "SizedInit<CopyFrom<'R, u8>>", "Array::copy(x)"),
        ("&'P [String]", "SizedInit<CloneFrom<'R, String>>", "Array::clone_from_slice(x)"),
        ("&'P [u8]", "Option<SizedInit<CopyFrom<'R, u8>, u8>>", "Array::try_copy(x)"),
        ("&'P [u8]", "Option<SizedInit<CloneFrom<'R, u8>, u16>>", "Array::try_clone_from_slice(x)"),
        ("Pin<&'P mut Array<String, u8>>", "&'R mut [String]", "x.mut_slice()"),
        ("&'P Array<String, u8>", "&'R [String]", "x"),
        ("Pin<&'P mut Str>", "&'R mut str", "x.mut_slice()"),
        ("&'P Str", "&'R str", "x"),
        ("&'P Tup2<T, Str>", "tup2::Refs<'R, T, Str>", "x.refs()"),
        ("Pin<&'P mut Tup2<T, Str>>", "tup2::Muts<'R, T, Str>", "x.muts()"),
        ("&'P Tup2<Str, T>", "&'R T", "x.refs().1"),
        ("Pin<&'P mut Tup2<Str, T>>", "Pin<&'R mut T>", "x.muts().1"),
    ]
    always = len(c)
    if t.kind == "struct":
        c += [("&'P T", "%s::Refs<'R>" % t.module, "x.refs()"), ("Pin<&'P mut T>", "%s::Muts<'R>" % t.module, "x.muts()")] * 2
        for k, f, ty, _, _ in t.fields:
            if k in ("norm", "ctl"):
                c += [("&'P T", "&'R %s" % ty, "x.refs().%s" % f)]
            if k == "norm":
                c += [("Pin<&'P mut T>", "&'R mut %s" % ty, "x.muts().%s" % f)]
            if k == "ctl":
                c += [("Pin<&'P mut T>", "&'R %s" % ty, "x.muts().%s" % f)]
            if k == "var":
                c += [("&'P T", "&'R %s" % ty, "x.refs().%s" % f), ("Pin<&'P mut T>", "Pin<&'R mut %s>" % ty, "x.muts().%s" % f)]
            if k == "arr":
                c += [("&'P T", "&'R [%s]" % ty, "x.refs().%s" % f), ("Pin<&'P mut T>", "&'R mut [%s]" % ty, "x.muts().%s" % f)]
    if t.kind == "newtype":
        c += [("&'P T", "&'R %s" % t.inner.text, "x.inner()"), ("Pin<&'P mut T>", "Pin<&'R mut %s>" % t.inner.text, "x.inner_mut()")] * 3
    if t.clones:
        c += [("&'P T", "<T as VClone<'R>>::Cloner", "x.vclone()"), ("&'P T", "impl Initializer<T> + 'R", "x.vclone()")]
    if t.copies:
        c += [("&'P T", "varlen::VCopier<'R, T>", "x.vcopy()")]
    p, res, e = r.choice(c[always:]) if len(c) > always and r.randrange(2) else names.pick(r, "escapes", c[:always])
    long = r.choice(["'static", "'b"])
    items = HEAD + "\n".join(dict.fromkeys(t.items)) + "\ntype T = %s;\n" % T
    mk = lambda lt: items + "pub fn escape<'a, 'b: 'a>(x: %s) -> %s { %s }\n" % (p.replace("'P", "'a"), res.replace("'R", lt), e)
    return ("outlives: %s -> %s" % (p, res), mk(long), mk("'a"))


def variance(r, names):
    """Lifetimes inside of elements."""
    el = r.choice([("FixedLen<&'X str>", None), ("Array<&'X str>", None), ("Array<&'X str, u8>", None), ("Tup2<FixedLen<&'X str>, Str>", None), ("Tup3<Str, Array<&'X u8>, FixedLen<u8>>", None)])[0]
    both = ["VBox<T>", "Seq<T>", "IndexableSeq<T>", "Owned<'a, T>", "varlen::seq::Iter<'a, T>", "varlen::seq::OwnedElems<'a, T>", "&'a T", "&'a Seq<T>", "Option<VBox<T>>"]
    inv = ["varlen::seq::IterMut<'a, T>", "Pin<&'a mut T>", "tup2::Muts<'a, T, Str>", "&'a mut Seq<T>", "&'a mut VBox<T>"]
    f = lambda c, x: re.sub(r"\bT\b", el.replace("'X", x), c)
    if r.randrange(2):
        c = names.pick(r, "lengthen", both + inv)
        return ("lengthening %s" % c, HEAD + "pub fn f<'a>(x: %s) -> %s { x }\n" % (f(c, "'a"), f(c, "'static")), HEAD + "pub fn f<'a>(x: %s) -> %s { x }\n" % (f(c, "'a"), f(c, "'a")))
    c = names.pick(r, "shorten", inv)
    return ("shortening %s" % c, HEAD + "pub fn f<'a>(x: %s) -> %s { x }\n" % (f(c, "'static"), f(c, "'a")), HEAD + "pub fn f<'a>(x: %s) -> %s { x }\n" % (f(c, "'static"), f(c, "'static")))


def dropping(r, names):
    """Elements whose destructors look at something that is gone."""
    d = "struct Loud<'a>(&'a String); impl<'a> Drop for Loud<'a> { fn drop(&mut self) { println!(\"{}\", self.0); } }\n"
    el, init = r.choice([
        ("FixedLen<Loud<'_>>", "FixedLen(Loud(&x))"),
        ("Array<Loud<'_>>", "SizedInit(2, FillSequentially(|_| Loud(&x)))"),
        ("Tup2<Str, FixedLen<Loud<'_>>>", 'tup2::Init(Str::copy("a"), FixedLen(Loud(&x)))'),
        ("Array<Loud<'_>, u8>", "SizedInit(2u8, FillSequentially(|_| Loud(&x)))"),
    ])
    late = names.pick(r, "late", [
        ("let mut s: Seq<%s> = Seq::new();" % el, "s.push(%s);" % init),
        ("let mut s: IndexableSeq<%s> = Seq::new();" % el, "s.push(%s);" % init),
        ("let mut s: Option<VBox<%s>> = None;" % el, "s = Some(VBox::new(%s));" % init),
        ("let b = Bump::new(); let mut s: Option<Owned<%s>> = None;" % el, "s = Some(Owned::new_in(%s, &b));" % init),
        ("let mut s: Vec<Seq<%s>> = Vec::new();" % el, "let mut q = Seq::new(); q.push(%s); s.push(q);" % init),
    ])
    make = "let x = String::from(\"x\");"
    return ("drop check", HEAD + d + "pub fn f() { %s %s %s }\n" % (late[0], make, late[1]), HEAD + d + "pub fn f() { %s %s %s }\n" % (make, late[0], late[1]))


def unsafe_calls(r, names):
    """What trusts its caller must be unsafe to call."""
    t = pinned_type(r, names) if r.randrange(4) else fixed(r)
    T, I = t.text, t.init
    v = "let mut v = VBox::<T>::new(%s);" % I
    o = "let b = Bump::new(); let mut v = Owned::<T>::new_in(%s, &b);" % I
    s = "let mut s: Seq<T> = Seq::new(); s.push(%s); s.push(%s);" % (I, I)
    c = [
        (v, "VBox::into_raw(v)"),
        (v, "v.into_raw()"),
        ("let p = std::ptr::null_mut::<T>();", "VBox::<T>::from_raw(p)"),
        (o, "v.into_raw()"),
        ("let p = std::ptr::NonNull::<T>::dangling();", "Owned::<'static, T>::from_raw(p)"),
        (s, "s.from_offset_unchecked(0)"),
        (s, "s.from_offset_unchecked_mut(0)"),
        (v, "{ let l = v.calculate_layout(); v.as_mut().vdrop(l) }"),
        (v, "{ let l = v.calculate_layout(); <T as VarLen>::vdrop(v.as_mut(), l) }"),
        (v, "{ let l = v.calculate_layout(); Initializer::<T>::initialize(v, std::ptr::NonNull::dangling(), l) }"),
        ("", "FieldMarker::<T>::new_unchecked()"),
        ("", "ArrayMarker::<u8>::new_unchecked()"),
        ("let x = 3u8;", "varlen::macro_support::cat_field_fast::<T, u8>(&x, 0)"),
        ("let x = 3u8;", "varlen::macro_support::ref_field::<u8, T>(&x, 0)"),
        ("let mut x = 3u8;", "varlen::macro_support::mut_field::<u8, T>(&mut x, 0)"),
        ("let x = 3u8;", "varlen::macro_support::ref_array::<u8, u8>(&x, 0, 9)"),
        ("let mut x = 3u8;", "varlen::macro_support::mut_array::<u8, u8>(&mut x, 0, 9)"),
        ("let mut x = 3u8;", "varlen::macro_support::drop_array::<String>(&mut x, 0, 9)"),
        (v + " let mut x = 3u8; let l = v.calculate_layout();", "varlen::macro_support::vdrop_field::<T>(&mut x, 0, l)"),
        (v + " let l = v.calculate_layout();", "varlen::macro_support::init_field::<T, _>(v, std::ptr::NonNull::dangling(), 0, l)"),
        ("", "varlen::macro_support::init_array::<u8>(FillWithDefault, std::ptr::NonNull::dangling(), 0, 9)"),
    ]
    if r.randrange(4) == 0:
        c = [
            (v, "{ let VBox(p) = &v; }", "&v"),
            (v, "VBox::<T>(std::ptr::NonNull::dangling())", "&v"),
            (o, "{ let Owned(p, _) = &v; }", "&v"),
            (o, "Owned::<T>(std::ptr::NonNull::dangling(), std::marker::PhantomData)", "&v"),
            (s, "s.ptr", "&s"),
            (s, "{ s.len_elements = 9; }", "s.len()"),
            (s, "{ s.occupied_offsets = 0; }", "s.offset()"),
            (s, "{ s.capacity_offsets = 99; }", "s.capacity_in_offsets()"),
            (s, "{ s.iter().len_elements = 9; }", "s.iter().len()"),
            (s, "{ s.iter_mut().len_elements = 9; }", "s.iter_mut().len()"),
            (s, "{ s.take_elems().len_elements = 9; }", "s.take_elems().len()"),
            ("let mut a = VBox::<Array<u8>>::new(Array::copy(&[1, 2]));", "{ let x = a.len; }", "a.len_short()"),
            ("let mut a = VBox::<Str>::new(Str::copy(\"ab\"));", "{ let x = &a.0; }", "&a[..]"),
            ("let mut a = VBox::<Str>::new(Str::copy(\"ab\"));", "{ let x: &mut [u8] = a.as_mut().inner_mut().mut_slice(); }", "&a[..]"),
            ("let mut a = VBox::<Str>::new(Str::copy(\"ab\"));", "varlen::str::StrInit(Array::copy(&[255u8]))", "&a[..]"),
            ("let mut a = VBox::<Str>::new(Str::copy(\"ab\"));", "VBox::<Str>::new(Array::copy(&[255u8]))", "VBox::<Str>::new(Str::copy(\"é\"))"),
            (v, "varlen::VCopier(&*v)", "&*v"),
            ("", "varlen::array::ArrayLayout { size: 0, array_offset: 0, array_len: 9 }", "3"),
            ("", "FieldMarker::<T>(std::marker::PhantomPinned, std::marker::PhantomData)", "3"),
            ("", "ArrayMarker::<u8>(std::marker::PhantomPinned, std::marker::PhantomData)", "3"),
            ("let a = VBox::<FixedLen<u8>>::new(FixedLen(1));", "varlen::seq::Iter::<FixedLen<u8>> { ptr: std::ptr::NonNull::dangling(), len_elements: 9, marker: std::marker::PhantomData }", "&a"),
            ("let a = VBox::<Array<std::rc::Rc<u8>>>::new(SizedInit(2, FillSequentially(|i| std::rc::Rc::new(1))));", "a.vcopy()", "a.vclone()"),
            ("let a = VBox::<Array<String>>::new(SizedInit(2, FillSequentially(|i| String::new())));", "VBox::<Array<String>>::new(Array::copy(&[String::new()]))", "VBox::<Array<String>>::new(Array::clone_from_slice(&[String::new()]))"),
            ("let a = VBox::<FixedLen<String>>::new(FixedLen(String::new()));", "a.vcopy()", "a.vclone()"),
            ("let a = VBox::<Tup2<FixedLen<String>, Str>>::new(tup2::Init(FixedLen(String::new()), Str::copy(\"\")));", "a.vcopy()", "a.vclone()"),
        ]
        setup, bad, good = names.pick(r, "private", c)
        h = HEAD + "\n".join(dict.fromkeys(t.items)) + "\ntype T = %s;\n" % T
        # Private modules are not part of what the neighbour shows.
        return ("private: " + bad, h + "pub fn f() { %s let x = %s; }\n" % (setup, bad), h + "pub fn f() { %s let x = %s; }\n" % (setup, good))
    setup, e = names.pick(r, "unsafe", c)
    h = HEAD + "\n".join(dict.fromkeys(t.items)) + "\ntype T = %s;\n" % T
    return ("unsafe: " + e, h + "pub fn f() { %s let x = %s; }\n" % (setup, e), h + "pub fn f() { %s let x = unsafe { %s }; }\n" % (setup, e))


KINDS = [(whole, 5), (owners, 5), (fields, 4), (items_of, 3), (controllers, 2), (borrow, 6), (escapes, 4), (variance, 2), (dropping, 1), (unsafe_calls, 5)]


class Decks:
    """What has not come up yet."""

    def __init__(self):
        self.options, self.bag = {}, []


def pairs(r, n, decks):
    """n times (kind, label, misuse, neighbour)."""
    out = []
    for _ in range(n):
        if not decks.bag:
            decks.bag = [f for f, w in KINDS for _ in range(w)]
            r.shuffle(decks.bag)
        f = decks.bag.pop()
        out.append((f.__name__,) + f(r, Names(decks.options)))
    return out
