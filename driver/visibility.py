"""C23: where the generated items, accessors and fields can be used.

Definitions with random visibilities are put into nested modules of a crate, and used from every relation of modules
and from another crate. Each use is a line; the model says which lines have to be accepted."""
import concurrent.futures
import os
import random
import time

from . import defs
from .base import PROCS, CheckError, build_library, say
from .rustc import ask
from .definitions import HEAD

VIS = ["", "pub(self)", "pub(super)", "pub(crate)", "pub"]
# Definitions are in mK::a::b. The levels are how far out a visibility reaches.
REACH = {"": 0, "pub(self)": 0, "pub(super)": 1, "pub(crate)": 2, "pub": 3}
# How far out each place is.
PLACES = [("b", 0), ("b::child", 0), ("b::child::deep", 0), ("a", 1), ("a::sibling", 1), ("m", 2), ("root", 2), ("other", 2), ("outside", 3)]


class Use:
    """An expression in a function; `kind` is "name" if it is refused while names are resolved."""

    def __init__(self, what, params, body, reach, kind):
        self.what, self.params, self.body, self.reach, self.kind = what, params, body, reach, kind

    def line(self, n, path):
        return "fn use%d(%s) { %s }" % (n, self.params.replace("$", path), self.body.replace("$", path))


def struct_uses(d):
    """What can be done with a definition; $ is the path of its module."""
    s = REACH[d.vis.strip()]
    x, m = "$::" + d.name, "$::" + d.module
    init = "%s::Init<%s>" % (m, ", ".join("()" for f in d.fields if f.kind in ("var", "arr")))
    u = []
    for what, t in (("the struct", x), ("Init", init), ("Refs", m + "::Refs"), ("Muts", m + "::Muts"), ("LayoutControllers", m + "::LayoutControllers"), ("VarLenLayout", m + "::VarLenLayout")):
        if what in ("the struct", "Init", "LayoutControllers"):
            u.append(Use("%s of %s" % (what, d.name) if what != "the struct" else "struct " + d.name, "x: &" + t, "", s, "name"))
        else:
            u.append(Use("%s of %s" % (what, d.name), "", "{ use %s as Y; }" % t, s, "name"))
    u.append(Use("the module of %s" % d.name, "", "{ use %s as y; }" % m, s, "name"))
    p = "mut x: std::pin::Pin<&mut %s>" % x
    u.append(Use("refs of " + d.name, "x: &" + x, "x.refs();", s, "name"))
    u.append(Use("muts of " + d.name, p, "x.as_mut().muts();", s, "name"))
    u.append(Use("try_set_layout_controllers of " + d.name, p, "x.try_set_layout_controllers(todo!());", s, "name"))
    u.append(Use("VBox of " + d.name, "x: VBox<%s>" % x, "drop(x);", s, "name"))
    for f in d.fields:
        r = min(s, REACH[f.vis.strip()])
        n = f.name

        def field(where, params, body):
            # Where the struct can be named, it is the field that is refused.
            u.append(Use("%s %s of %s" % (where, n, d.name), params, body, r, "name" if False else "member"))
            u[-1].named = s

        field("field", "x: &" + x, "let _ = &x.%s;" % n)
        field("field of refs()", "x: &" + x, "let _ = &x.refs().%s;" % n)
        field("field of muts()", p, "let _ = &x.as_mut().muts().%s;" % n)
        field("initializer", "x: %s" % init, "let _ = &x.%s;" % n)
        if f.kind == "ctl":
            field("layout controller", "x: %s::LayoutControllers" % m, "let _ = &x.%s;" % n)
    for w in u:
        w.named = getattr(w, "named", s)
    return u


class Newtype:
    def __init__(self, r, n):
        v = lambda: r.choice(VIS)
        self.name = "Nt" + "abcdefghijklmnop"[n]
        self.vis, self.field, self.init, self.initfield, self.ir, self.im = v(), v(), v(), v(), v(), v()
        self.inner = r.choice(["Str", "Array<u16>", "FixedLen<u8>", "Tup2<Str, Array<u8>>"])

    def decl(self):
        return "define_varlen_newtype! { #[repr(transparent)] %s struct %s(%s %s); with init: %s struct %sInit<_>(%s _); with inner_ref: %s fn ir(&self) -> &_; with inner_mut: %s fn im(self: _) -> _; }" % (self.vis, self.name, self.field, self.inner, self.init, self.name, self.initfield, self.ir, self.im)

    def uses(self):
        s, i = REACH[self.vis], REACH[self.init]
        x = "$::" + self.name
        u = []

        def add(what, params, body, reach, named, kind):
            w = Use(what + " of " + self.name, params, body, min(reach, named), kind)
            w.named = named
            u.append(w)

        add("newtype", "x: &" + x, "", s, s, "name")
        add("initializer", "x: &%sInit<u8>" % x, "", i, i, "name")
        add("field", "x: &" + x, "let _ = &x.0;", REACH[self.field], s, "member")
        add("field of the initializer", "x: &%sInit<u8>" % x, "let _ = &x.0;", REACH[self.initfield], i, "member")
        add("inner_ref", "x: &" + x, "x.ir();", REACH[self.ir], s, "member")
        add("inner_mut", "x: std::pin::Pin<&mut %s>" % x, "x.im();", REACH[self.im], s, "member")
        return u


class Crate:
    """Definitions in modules, and lines that use them."""

    def __init__(self, r, count):
        self.items = []
        for k in range(count):
            if r.randrange(4) == 0:
                self.items.append(Newtype(r, k))
                continue
            d = defs.definition(r, k, [], want_ctl=r.randrange(2))
            d.not_generic()
            for f in d.fields:
                f.vis = r.choice(VIS)
                f.vis += " " if f.vis else ""
            d.vis = r.choice(VIS)
            d.vis += " " if d.vis else ""
            self.items.append(d)
        self.uses = [(k, w) for k, i in enumerate(self.items) for w in (i.uses() if isinstance(i, Newtype) else struct_uses(i))]

    def plan(self):
        """(place, module's number, path, use, allowed, kind) of each possible line."""
        for k, w in self.uses:
            for place, level in PLACES:
                path = ("defs" if place == "outside" else "crate") + "::m%d::a::b" % k
                allowed = w.reach >= level
                # What cannot be named is refused for that.
                kind = "name" if w.named < level else w.kind
                yield place, k, path, w, allowed, kind

    def text(self, lines):
        """The crate with these lines (place, number, text). Also says on which line each of them is."""
        at = {}
        for place, k, t in lines:
            at.setdefault((place, k if place != "root" else None), []).append(t)
        out = HEAD.strip().splitlines()
        where = {}

        def put(place, k):
            for t in at.get((place, k), []):
                out.append(t)
                where[t] = len(out)

        for k, i in enumerate(self.items):
            out.append("pub mod m%d { use super::*;" % k)
            put("m", k)
            out.append("pub mod other { use super::*;")
            out.append("}")
            out.append("pub mod a { use super::*;")
            put("a", k)
            out.append("pub mod sibling { use super::*;")
            put("a::sibling", k)
            out.append("}")
            out.append("pub mod b { use super::*;")
            out += i.decl().splitlines()
            put("b", k)
            out.append("pub mod child { use super::*;")
            put("b::child", k)
            out.append("pub mod deep { use super::*;")
            put("b::child::deep", k)
            out.append("} } } } }")
        put("root", None)
        for k, i in enumerate(self.items):
            # Another module, as deep as the definitions are.
            out.append("pub mod o%d { use super::*; pub mod a { use super::*; pub mod b { use super::*;" % k)
            put("other", k)
            out.append("} } }")
        return "\n".join(out) + "\n", where


OUTSIDE = "#![allow(warnings)]\nuse varlen::prelude::*;\n"


def outside(lines):
    out = OUTSIDE.splitlines()
    where = {}
    for _, _, t in lines:
        out.append(t)
        where[t] = len(out)
    return "\n".join(out) + "\n", where


def check(crate, d, stem):
    """(number of uses, problems, samples)."""
    groups = {}
    n = 0
    info = {}
    for place, k, path, w, allowed, kind in crate.plan():
        line = w.line(n, path)
        n += 1
        info[line] = (place, w, allowed)
        groups.setdefault((place == "outside", "allowed" if allowed else kind), []).append((place, k, line))
    problems = []
    text, _ = crate.text([])
    lib = os.path.join(d, "lib%s.rs" % stem)
    a = ask(text, lib, name="defs", keep=True)
    if not a.accepted:
        problems.append(("the definitions are rejected: " + a.summary(), text, "accepted", None, a))
        return n, problems, []
    try:
        for (ext, group), lines in sorted(groups.items()):
            text, where = outside(lines) if ext else crate.text(lines)
            a = ask(text, os.path.join(d, "p%s%s%d.rs" % (stem, group, ext)), externs=[("defs", lib[:-3] + ".rmeta")] if ext else ())
            for place, k, t in lines:
                bad = where[t] in a.lines
                if bad == (group == "allowed"):
                    _, w, allowed = info[t]
                    rel = {"b": "its own module", "b::child": "a child module", "b::child::deep": "a module two levels inside", "a": "the parent module", "a::sibling": "a sibling module", "m": "the grandparent module", "root": "the root of the crate", "other": "an unrelated module", "outside": "another crate"}[place]
                    problems.append(("%s %s in %s" % (w.what, "cannot be used" if allowed else "can be used", rel), k, place, t, a))
            if group == "allowed" and not a.accepted and not problems:
                raise CheckError("errors on other lines:\n" + a.summary())
    finally:
        if os.path.exists(lib[:-3] + ".rmeta"):
            os.remove(lib[:-3] + ".rmeta")
    return n, problems, sorted(groups)


PLAN = {"quick": (24, 6), "thorough": (400, 8)}


def run(ctx):
    from .base import Violation
    from .programs import fingerprint

    build_library()
    crates, count = PLAN[ctx.tier]
    if ctx.cases:
        crates = max(1, ctx.cases // 400)
    t0 = time.time()
    r = random.Random("C23 %d" % ctx.seed)
    cs = [Crate(r, count) for _ in range(crates)]
    with concurrent.futures.ThreadPoolExecutor(PROCS) as pool:
        outs = list(pool.map(lambda x: check(x[1], ctx.dir, str(x[0])), enumerate(cs)))
    ctx.rules.append(
        "A case is a use (of the struct or newtype, its module, a generated item, an accessor, or a field directly, through refs, through muts, in the initializer or among the layout controllers) of a definition with random visibilities of struct and fields, from one of nine places (its module, modules inside it, its parent, a sibling, its grandparent, the root, an unrelated module, another crate). "
        "By Rust's rules for the visibility written in the definition it has to be accepted or refused by the compiler. Non-trivial: all; distinct by the text of the use and the definition."
    )
    yes = no = 0
    for c, (n, problems, _) in zip(cs, outs):
        ctx.evaluations += n
        for place, k, path, w, allowed, kind in c.plan():
            ctx.hashes.add(fingerprint(place + w.what + w.body + c.items[k].decl()))
            yes += allowed
            no += not allowed
    d = cs[0].items[0]
    ctx.samples.append({"definition": d.decl(), "uses": ["%s, from %s: %s" % (w.what, place, "allowed" if al else "refused") for place, k, _, w, al, _ in list(cs[0].plan())[:60:7]]})
    ctx.parts["uses"] = {"crates": crates, "definitions": crates * count, "allowed": yes, "refused": no}
    say("visibility: %d uses (%d allowed, %d refused) of %d definitions, %.1f s" % (yes + no, yes, no, crates * count, time.time() - t0))
    for c, (n, problems, _) in zip(cs, outs):
        if problems:
            raise Violation(smallest(ctx, c, problems))


def smallest(ctx, crate, problems):
    """One use of one definition."""
    p = problems[0]
    if p[0].startswith("the definitions"):
        return {"kind": "program", "message": p[0], "expect": "accepted", "source": p[1], "log": [x for e in p[4].errors[:2] for x in e[2].splitlines()]}
    message, k, place, line, a = p
    one = Crate.__new__(Crate)
    one.items = [crate.items[k]]
    one.uses = []
    path = "m%d::" % k
    line = line.replace("::" + path, "::m0::")
    lib, _ = one.text([])
    text, where = outside([(place, 0, line)]) if place == "outside" else one.text([(place, 0, line)])
    expect = "accepted" if "cannot be used" in message else "rejected"
    v = {"kind": "visibility", "message": message, "expect": expect, "outside": place == "outside", "library": lib, "source": text, "line": where[line]}
    v["log"] = one.items[0].decl().splitlines() + ["in %s:" % place, line]
    return v


def replay(v):
    if v["kind"] != "visibility":
        return None
    from .base import scratch

    build_library()
    d = scratch("replay")
    lib = os.path.join(d, "libdefs.rs")
    if v["outside"]:
        if not ask(v["library"], lib, name="defs", keep=True).accepted:
            say("the definitions are rejected")
            return 2
    a = ask(v["source"], os.path.join(d, "program.rs"), externs=[("defs", lib[:-3] + ".rmeta")] if v["outside"] else ())
    say("accepted" if a.accepted else a.errors[0][2])
    say("expected: " + v["expect"])
    return 1 if (v["line"] in a.lines) == (v["expect"] == "accepted") else 0
