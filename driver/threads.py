"""C24: what is sent to or shared with other threads.

Random types with components that must not be sent or must not be shared are put into every container, reference and
iterator; the compiler must not consider the result as something that may be."""
import concurrent.futures
import os
import random
import time

from .base import PROCS, CheckError, Violation, build_library, say
from .rustc import ask

# (type, may be sent, may be shared)
COMPONENTS = [
    ("u8", 1, 1),
    ("String", 1, 1),
    ("std::rc::Rc<u8>", 0, 0),
    ("std::cell::Cell<u8>", 1, 0),
    ("std::cell::RefCell<String>", 1, 0),
    ("std::sync::MutexGuard<'static, u8>", 0, 1),
    ("*const u8", 0, 0),
    ("Box<dyn Fn()>", 0, 0),
    ("Box<dyn Fn() + Send>", 1, 0),
    ("Option<std::rc::Weak<String>>", 0, 0),
    ("std::sync::mpsc::Receiver<u8>", 1, 0),
    ("VBox<Str>", 0, 0),
    ("std::sync::Arc<std::cell::Cell<u8>>", 0, 0),
]
# Never sent nor shared because of what they are now, but that may change: nothing is expected of them.
UNKNOWN = {"VBox<Str>"}

HEAD = """#![allow(warnings)]
use varlen::prelude::*;
use std::marker::PhantomData;
use std::pin::Pin;
pub struct Is<T: ?Sized>(PhantomData<T>);
pub trait NotSend { const SEND: bool = false; }
pub trait NotSync { const SYNC: bool = false; }
impl<T: ?Sized> NotSend for Is<T> {}
impl<T: ?Sized> NotSync for Is<T> {}
impl<T: ?Sized + Send> Is<T> { pub const SEND: bool = true; }
impl<T: ?Sized + Sync> Is<T> { pub const SYNC: bool = true; }
// This works at all.
const _: () = assert!(Is::<u8>::SEND && Is::<u8>::SYNC && !Is::<std::rc::Rc<u8>>::SEND && !Is::<std::cell::Cell<u8>>::SYNC && Is::<std::cell::Cell<u8>>::SEND);
"""


class Gen:
    def __init__(self, r):
        self.r, self.items, self.n = r, [], 0

    def name(self, stem):
        self.n += 1
        return stem + "abcdefghijklmnopqrstuvwxyz"[self.n // 26] + "abcdefghijklmnopqrstuvwxyz"[self.n % 26]

    def component(self, shared=False):
        return self.r.choice([c for c in COMPONENTS if c[0] not in UNKNOWN and (c[2] or not shared)])

    def type(self, depth=0):
        """(type, may be sent, may be shared)"""
        r = self.r
        k = r.randrange(7 if depth < 2 else 3)
        if k == 0:
            c = self.component()
            return ("Array<%s, %s>" % (c[0], r.choice(["u8", "u16", "u32", "u64", "usize"])), c[1], c[2])
        if k == 1:
            c = self.component()
            return ("FixedLen<%s>" % c[0], c[1], c[2])
        if k == 2:
            return (r.choice(["Str", "Str<u8>"]), 1, 1)
        if k == 3:
            p = [self.type(depth + 1) for _ in range(2 + r.randrange(3))]
            return ("Tup%d<%s>" % (len(p), ", ".join(x[0] for x in p)), min(x[1] for x in p), min(x[2] for x in p))
        if k == 4:
            t = self.type(depth + 1)
            n = self.name("Nt")
            self.items.append("define_varlen_newtype! { #[repr(transparent)] pub struct %s(pub %s); with init: pub struct %sInit<_>(pub _); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }" % (n, t[0], n))
            return (n, t[1], t[2])
        fields, parts, access = [], [], []
        for _ in range(1 + r.randrange(4)):
            f = self.name("f")
            k = r.randrange(4)
            if k == 0:
                c = self.component()
                fields.append("pub %s: %s" % (f, c[0]))
            elif k == 1:
                c = self.component(shared=True)
                fields.append("#[controls_layout] pub %s: %s" % (f, c[0]))
            elif k == 2:
                c = self.type(depth + 1)
                fields.append("#[varlen] pub %s: %s" % (f, c[0]))
            else:
                c = self.component()
                fields.append("#[varlen_array] pub %s: [%s; %d]" % (f, c[0], r.randrange(4)))
            parts.append(c)
            # muts() gives only shared access to what controls the layout.
            access.append((c[2], c[2]) if k == 1 else (c[1], c[2]))
        n = self.name("Rec")
        self.items.append("#[define_varlen] pub struct %s { %s }" % (n, ", ".join(fields)))
        t = (n, min(x[1] for x in parts), min(x[2] for x in parts))
        return t + ((min(x[0] for x in access), min(x[1] for x in access)),)


# (type with $ for the object's, what sending and sharing it does to the object)
OWNERS = ["$", "VBox<$>", "Seq<$>", "IndexableSeq<$>", "Owned<'static, $>", "Pin<&'static mut $>", "&'static mut Seq<$>", "varlen::seq::IterMut<'static, $>", "varlen::seq::OwnedElems<'static, $>", "Option<VBox<$>>", "Vec<Seq<$>>"]
SHARED = ["&'static $", "varlen::seq::Iter<'static, $>", "&'static Seq<$>", "&'static VBox<$>", "Option<&'static $>"]


def program(r, types):
    g = Gen(r)
    rows = []
    while len(rows) < types:
        t = g.type()
        if t[1] and t[2]:
            continue
        rows.append(t)
    lines = HEAD.splitlines() + g.items
    where = {}
    for t in rows:
        send, sync = t[1], t[2]
        outs = [(o, send, sync) for o in OWNERS] + [(o, sync, sync) for o in SHARED]
        if len(t) > 3:
            m = t[0].lower()
            outs += [(m + "::Muts<'static>",) + t[3], (m + "::Refs<'static>", sync, sync)]
        if t[0].startswith("Tup"):
            m = "tup" + t[0][3]
            args = t[0][5:-1]
            outs += [("varlen::tuple::%s::Muts<'static, %s>" % (m, args), send, sync), ("varlen::tuple::%s::Refs<'static, %s>" % (m, args), sync, sync)]
        for o, s, y in outs:
            x = o.replace("$", t[0])
            for ok, what, c in ((s, "sent to", "SEND"), (y, "shared with", "SYNC")):
                if not ok:
                    lines.append("const _: () = assert!(!Is::<%s>::%s);" % (x, c))
                    where[len(lines)] = "%s can be %s other threads, although %s" % (x, what, t[0] + (" must not be" if x == t[0] else " has a component that must not be"))
    return "\n".join(lines) + "\n", where, rows


PLAN = {"quick": (64, 12), "thorough": (1500, 12)}


def run(ctx):
    from .programs import fingerprint

    build_library()
    n, types = PLAN[ctx.tier]
    if ctx.cases:
        n = max(1, ctx.cases // 100)
    r = random.Random("C24 %d" % ctx.seed)
    t0 = time.time()
    ps = [program(r, types) for _ in range(n)]
    with concurrent.futures.ThreadPoolExecutor(PROCS) as pool:
        answers = list(pool.map(lambda x: ask(x[1][0], os.path.join(ctx.dir, "t%d.rs" % x[0])), enumerate(ps)))
    ctx.rules.append(
        "A case is a container, reference, iterator or accessor result over a random type (arrays, fixed-length, tuples, newtypes and structs made by the macros, nested) with at least one component that must not be sent to, or not be shared with, other threads; the compiler is asked whether the whole may be sent or shared, which must not be so. Non-trivial: all; distinct by text."
    )
    for text, where, rows in ps:
        lines = text.splitlines()
        ctx.evaluations += len(where)
        for k in where:
            ctx.hashes.add(fingerprint(lines[k - 1]))
    text, where, rows = ps[0]
    ctx.samples += [{"assertion": text.splitlines()[k - 1]} for k in sorted(where)[:160:20]]
    ctx.parts["assertions"] = {"programs": n, "types": n * types, "assertions": ctx.evaluations}
    say("threads: %d assertions about %d types, %.1f s" % (ctx.evaluations, n * types, time.time() - t0))
    for (text, where, rows), a in zip(ps, answers):
        if a.accepted:
            continue
        other = [e for e in a.errors if e[0] != "E0080"]
        if other:
            raise Violation({"kind": "program", "expect": "accepted", "message": "correct definitions are rejected: " + other[0][1], "source": text, "log": other[0][2].splitlines()})
        bad = sorted((l for l in a.lines if l in where), key=lambda l: len(text.splitlines()[l - 1]))
        lines = text.splitlines()
        if not bad:
            raise CheckError("errors elsewhere: " + a.errors[0][2])
        keep = [l for k, l in enumerate(lines, 1) if k not in where or k == bad[0]]
        raise Violation({"kind": "program", "expect": "accepted", "message": where[bad[0]], "source": "\n".join(keep) + "\n", "log": [l for l in lines if not l.startswith("const _") and l.split("struct ")[-1].split("(")[0].split(" ")[0] in lines[bad[0] - 1]][:6] + [lines[bad[0] - 1]]})
