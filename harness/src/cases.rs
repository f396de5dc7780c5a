//! One generated case of each property.

use crate::alloc::quiet;
use crate::elem::*;
use crate::modeled::*;
use crate::src::Src;
use crate::state::*;
use crate::track::{arm, disarm, obs, reg, tick, Fail, Injected, Tr, TrZ, DROP, NEXT};
use crate::types::*;
use crate::value::*;
use crate::world::*;
use core::mem::MaybeUninit;
use core::pin::Pin;
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::prelude::*;
use varlen::seq::IndexableSeq;
use varlen::{Initializer, Layout};
use V::*;

/// What a case was like.
#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub log: Vec<String>,
    /// Components that a failed operation leaked.
    pub lost: bool,
}
impl Info {
    fn label(&mut self, l: &'static str, c: bool) {
        if c && !self.labels.contains(&l) {
            quiet(|| self.labels.push(l));
        }
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        quiet(|| {
            let m = f();
            crate::track::trace(&m);
            self.log.push(m)
        });
    }
}

pub const CASES: &[(&str, fn(&mut Src, &mut Info))] = &[
    ("C01", c01),
    ("C02", c02),
    ("C03", c03),
    ("C04", c04),
    ("C05", c05),
    ("C06", c06),
    ("C07", c07),
    ("C08", c08),
    ("C09", c09),
    ("C10", c10),
    ("C11", c11),
    ("C12", c12),
    ("C13", c13),
    ("C14", c14),
    ("C15", c15),
    ("C18", c18),
    ("C19", c19),
    ("C20", c20),
    ("C21", c21),
    ("C22", c22),
];

fn pick_type<'a>(s: &mut Src) -> &'a TypeInfo {
    let t = &crate::state::types()[s.idx(crate::state::types().len())];
    t
}

fn kind(d: &Desc) -> &'static str {
    match d {
        Desc::Fixed(_) => "fixed-length",
        Desc::Arr(..) => "array",
        Desc::Str(..) => "string",
        Desc::Tup(_) => "tuple",
        Desc::Struct(_) => "struct",
        Desc::New(_) => "newtype",
    }
}

// ---- Histories ----

struct Plan {
    aspects: u32,
    weights: &'static Weights,
    faults: bool,
}

fn history(s: &mut Src, i: &mut Info, p: Plan, types: &dyn Fn(&TypeInfo) -> bool) -> World {
    let c: Vec<&TypeInfo> = crate::state::types().iter().filter(|t| types(t)).collect();
    let t = *s.pick(&c);
    let mut w = World::new(t, p.aspects, p.faults);
    i.note(|| format!("elements: {}", t.name));
    let n = if cfg!(miri) {
        1 + s.below(12)
    } else {
        match s.below(16) {
            0..=3 => 1 + s.below(6),
            4..=13 => 1 + s.below(40),
            14 => 1 + s.below(100),
            _ => 1 + s.below(250),
        }
    };
    let limit = if cfg!(miri) { 2_000 } else { 60_000 };
    // Panics of checks unwind through here, and the log should survive.
    struct Save<'a>(&'a mut Info, &'a mut World);
    impl Drop for Save<'_> {
        fn drop(&mut self) {
            quiet(|| self.0.log.append(&mut self.1.log));
        }
    }
    {
        let g = Save(i, &mut w);
        // Now and then, as many elements as make counts cross the limits of smaller integers.
        let many = !cfg!(miri) && !cfg!(fuzzing) && s.chance(1, 160);
        if many {
            let k = match s.below(10) {
                0..=5 => 250 + s.below(12),
                6 | 7 => 1018 + s.below(12),
                8 => 4090 + s.below(12),
                _ => 65_530 + s.below(12),
            };
            g.1.many(k as usize, s);
            for _ in 0..s.below(4) {
                g.1.step(s, p.weights);
            }
        }
        for _ in 0..if many { 0 } else { n } {
            g.1.step(s, p.weights);
            if g.1.bytes > limit {
                break;
            }
        }
    }
    i.label(kind(&w.desc), true);
    i.label("grew", w.growths > 0);
    i.label("drained", w.reuse > 0);
    i.label("moved", w.moves > 0);
    i.label("mutated", w.muts > 0);
    i.label("leaked", w.leaks > 0);
    i.label("panicked", w.panics > 0);
    i.label("stale offset queried", w.stale_queries > 0);
    i.label("long values", w.bytes > 5_000);
    i.label("over 255 elements", w.m.iter().any(|m| m.len() > 255));
    i.label("over 65535 elements", w.m.iter().any(|m| m.len() > 65535));
    w
}

fn any(_: &TypeInfo) -> bool {
    true
}

fn c02(s: &mut Src, i: &mut Info) {
    let weights = if s.chance(1, 3) { &W_ALL } else { &W_SEQ };
    let w = history(s, i, Plan { aspects: CONTENT, weights, faults: false }, &any);
    i.nontrivial = w.pushes >= 3 && (w.growths > 0 || w.reuse > 0);
    w.finish(s);
}
fn c03(s: &mut Src, i: &mut Info) {
    let w = history(s, i, Plan { aspects: VALID, weights: &W_SEQ, faults: false }, &any);
    i.nontrivial = w.pushes >= 2 && (w.stale_queries > 0 || w.growths > 0);
    w.finish(s);
}
fn c04(s: &mut Src, i: &mut Info) {
    let w = history(s, i, Plan { aspects: PACK, weights: &W_SEQ, faults: false }, &any);
    i.nontrivial = w.pushes >= 3;
    w.finish(s);
}
fn c05(s: &mut Src, i: &mut Info) {
    let drops = |t: &TypeInfo| (t.desc)().needs_drop();
    let faults = s.chance(1, 4);
    let p = Plan { aspects: DROPS, weights: if s.chance(1, 2) { &W_ALL } else { &W_OWN }, faults };
    let w = history(s, i, p, &drops);
    i.nontrivial = reg().drops >= 3 && w.pushes + w.moves >= 2;
    i.lost = w.finish(s).any_lost;
}
fn c06(s: &mut Src, i: &mut Info) {
    let w = history(s, i, Plan { aspects: CONTENT | BOXES | MEM | ALIGN, weights: &W_ALL, faults: false }, &any);
    i.nontrivial = w.pushes >= 2 && w.bytes > 16;
    w.finish(s);
}
fn c10(s: &mut Src, i: &mut Info) {
    let w = history(s, i, Plan { aspects: CONTENT | BOXES | PLACE, weights: &W_MUT, faults: false }, &any);
    i.nontrivial = w.muts >= 2 && w.bytes > 8;
    w.finish(s);
}
fn c12(s: &mut Src, i: &mut Info) {
    let w = history(s, i, Plan { aspects: ALL, weights: &W_FAULT, faults: true }, &|t| {
        let d = (t.desc)();
        d.needs_drop() || !matches!(d, Desc::Fixed(_) | Desc::Str(..))
    });
    i.nontrivial = w.panics > 0;
    // A panic may leak storage.
    i.lost = w.panics > 0;
    i.lost |= w.finish(s).any_lost;
}
fn c14(s: &mut Src, i: &mut Info) {
    let structs = |t: &TypeInfo| matches!((t.desc)(), Desc::Struct(_));
    match s.below(4) {
        0 => {
            let c: Vec<&TypeInfo> = crate::state::types().iter().filter(|t| structs(t)).collect();
            let t = *s.pick(&c);
            let v = (t.desc)().gen(s);
            i.note(|| format!("{}: {}", t.name, v.show()));
            let o = (t.make)();
            o.probe(Probe::Layout, &v, s);
            o.probe(Probe::Init, &v, s);
            i.nontrivial = true;
        }
        _ => {
            let faults = s.chance(1, 3);
            let p = Plan { aspects: ALL, weights: if s.chance(1, 2) { &W_MUT } else if faults { &W_FAULT } else { &W_ALL }, faults };
            let w = history(s, i, p, &structs);
            i.nontrivial = w.pushes + w.muts >= 2;
            i.lost = w.panics > 0;
            i.lost |= w.finish(s).any_lost;
        }
    }
}
fn c21(s: &mut Src, i: &mut Info) {
    let w = history(s, i, Plan { aspects: CONTENT | BOXES | DROPS | PLACE, weights: &W_OWN, faults: false }, &any);
    i.nontrivial = w.moves + w.leaks >= 2;
    w.finish(s);
}
fn c19(s: &mut Src, i: &mut Info) {
    let t = pick_type(s);
    i.note(|| format!("elements: {}", t.name));
    let mut w = World::new(t, 0, false);
    let d = (t.desc)();
    let which = s.idx(3);
    let mut vs: Vec<V> = Vec::new();
    let rounds = 1 + s.idx(4);
    let mut longest = 0;
    for _ in 0..rounds {
        let n = if s.chance(1, 12) && !cfg!(miri) { s.idx(60) } else { s.idx(7) };
        let long = !cfg!(miri) && !cfg!(fuzzing) && s.chance(1, 800);
        if long {
            let n = if s.chance(1, 4) { 65_530 + s.idx(12) } else { 250 + s.idx(12) };
            let base: Vec<V> = (0..5).map(|_| gen_small(&d, s)).collect();
            let n = if d.heap() || base.iter().any(|v| d.lay(v).size > 100) { n.min(1000) } else { n };
            let more: Vec<V> = (0..n).map(|i| base[(crate::src::mix(i as u64) % 5) as usize].clone()).collect();
            w.ops.extend(which, &more, s);
            vs.extend(more);
        }
        for _ in 0..if long { 0 } else { n } {
            let v = gen_small(&d, s);
            w.ops.push(which, &v, s);
            vs.push(v);
        }
        longest = longest.max(vs.len());
        let mut log = Vec::new();
        let before = vs.len();
        struct Save<'a>(&'a mut Info, &'a mut Vec<String>, usize);
        impl Drop for Save<'_> {
            fn drop(&mut self) {
                self.0.note(|| format!("{} elements: {}", self.2, self.1.join(", ")));
            }
        }
        let g = Save(i, &mut log, before);
        w.ops.iterate(which, &mut vs, s, g.1);
        let got = w.ops.views(which, vs.len() + 1);
        check!(got == vs, "afterwards the sequence yields {} elements, or others, expected {}", got.len(), vs.len());
    }
    i.label(kind(&d), true);
    i.label("empty", longest == 0);
    i.label("over 65535 elements", longest > 65535);
    i.nontrivial = longest >= 2;
}

/// Values whose size is moderate.
fn gen_small(d: &Desc, s: &mut Src) -> V {
    for _ in 0..8 {
        let v = d.gen(s);
        if d.lay(&v).size < 600 {
            return v;
        }
    }
    d.gen(s)
}

// ---- Single values ----

fn probe(p: Probe, s: &mut Src, i: &mut Info, types: &dyn Fn(&TypeInfo) -> bool) -> (Desc, V) {
    let c: Vec<&TypeInfo> = crate::state::types().iter().filter(|t| types(t)).collect();
    let t = *s.pick(&c);
    let d = (t.desc)();
    let v = d.gen(s);
    i.note(|| format!("{}: {}", t.name, v.show()));
    i.label(kind(&d), true);
    let l = d.lay(&v);
    i.label("empty tail", l.leaves.iter().any(|l| l.1 == 0));
    i.label("over 255 elements", l.size > 255);
    i.label("no bytes", l.size == 0);
    (t.make)().probe(p, &v, s);
    (d, v)
}
fn c01(s: &mut Src, i: &mut Info) {
    if s.chance(1, 6) {
        return direct(s, i);
    }
    let (d, v) = probe(Probe::Init, s, i, &any);
    i.nontrivial = d.lay(&v).size > 0;
}
fn c07(s: &mut Src, i: &mut Info) {
    let (d, v) = probe(Probe::Layout, s, i, &any);
    i.nontrivial = d.lay(&v).size > 0;
}
fn c09(s: &mut Src, i: &mut Info) {
    let cl = |t: &TypeInfo| t.clone;
    if s.chance(1, 3) {
        let p = Plan { aspects: CONTENT | BOXES, weights: &W_CLONE, faults: false };
        let w = history(s, i, p, &cl);
        i.nontrivial = w.pushes >= 2 && w.muts >= 1;
        w.finish(s);
        return;
    }
    let (d, v) = probe(Probe::Clone, s, i, &cl);
    i.nontrivial = d.lay(&v).size > 0;
}
fn c20(s: &mut Src, i: &mut Info) {
    let (d, v) = probe(Probe::Cost, s, i, &any);
    i.nontrivial = d.lay(&v).size > 0;
}
fn c13(s: &mut Src, i: &mut Info) {
    let (d, v) = probe(Probe::AllocFail, s, i, &any);
    i.nontrivial = d.lay(&v).size > 0;
}

/// Arrays of elements without bytes may be longer than anything that memory has room for.
fn long<T: Copy + Default>(s: &mut Src, i: &mut Info, name: &'static str) {
    let n = match s.below(4) {
        0 => 1usize << s.below(40),
        1 => (1usize << s.below(48)).wrapping_sub(1 + s.below(3) as usize) & (usize::MAX >> 1),
        2 => (1usize << 32) + s.below(1000) as usize,
        _ => s.below(1 << 45) as usize,
    };
    // No elements are touched.
    let a: &[T] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), n) };
    i.note(|| format!("Array<{name}> of {n} elements"));
    i.nontrivial = n >= 1 << 16;
    fn one<T: Copy, L: varlen::array::ArrayLen>(s: &mut Src, a: &[T]) {
        let n = a.len();
        let i = match Array::<T, L>::try_copy(a) {
            Some(i) => i,
            None => {
                check!(L::from_usize(n).is_none(), "an array of {n} elements is refused");
                return;
            }
        };
        let b = VBox::new(i);
        check!(b.len() == n && b[..].len() == n, "array of {n} elements has length {}", b.len());
        check!(b.calculate_layout().size() == core::mem::size_of::<L>(), "array of {n} elements without bytes has {} bytes", b.calculate_layout().size());
        let mut q: IndexableSeq<Array<T, L>> = Seq::new();
        q.push(b.vcopy());
        q.push(Array::<T, L>::try_copy(&a[..n / 2]).unwrap());
        q.push(b);
        let got: Vec<usize> = q.iter().take(4).map(|x| x.len()).collect();
        check!(got == [n, n / 2, n], "the lengths in a sequence are {got:?}");
        let t: VBox<Tup2<Array<T, L>, FixedLen<u8>>> = VBox::new(tup2::Init(Array::<T, L>::try_copy(a).unwrap(), FixedLen(7)));
        check!(t.refs().0.len() == n && t.refs().1 .0 == 7, "in a tuple the length is {}", t.refs().0.len());
        if s.chance(1, 2) {
            let bump = bumpalo::Bump::new();
            let o: Owned<Array<T, L>> = Owned::new_in(q.iter().next().unwrap().vcopy(), &bump);
            check!(o.len() == n, "in an arena the length is {}", o.len());
        }
    }
    match s.below(3) {
        0 => one::<T, u32>(s, a),
        1 => one::<T, u64>(s, a),
        _ => one::<T, usize>(s, a),
    }
}

/// The constructors with concrete types.
fn direct(s: &mut Src, i: &mut Info) {
    fn sl<T: Elem + Copy + PartialEq + core::fmt::Debug>(s: &mut Src, i: &mut Info, name: &'static str) {
        let vs = gen_elems(s, T::ed(), 255);
        let a: Vec<T> = vs.iter().map(T::make).collect();
        i.note(|| format!("constructors of Array<{name}> of {}", L(vs.clone()).show()));
        i.nontrivial = !a.is_empty();
        let same = |x: &[T], what: &str| check!(x == &a[..], "{what} reads {x:?}, expected {a:?}");
        same(&VBox::new(Array::copy(&a)), "Array::copy");
        same(&VBox::new(Array::clone_from_slice(&a)), "Array::clone_from_slice");
        same(&VBox::<Array<T, u8>>::new(Array::try_copy(&a).unwrap()), "Array<_, u8>::try_copy");
        same(&VBox::<Array<T, u16>>::new(Array::try_clone_from_slice(&a).unwrap()), "Array<_, u16>::try_clone_from_slice");
        same(&VBox::<Array<T, u32>>::new(SizedInit(a.len() as u32, CopyFrom(&a))), "SizedInit(CopyFrom)");
        same(&VBox::<Array<T, u64>>::new(SizedInit(a.len() as u64, FromIterPrefix(a.iter().copied()))), "SizedInit(FromIterPrefix)");
        let sq: Seq<Array<T>> = varlen::seq![Array::copy(&a), Array::copy(&a[..a.len() / 2]), Array::copy(&a)];
        let got: Vec<&[T]> = sq.iter().take(4).map(|x| &x[..]).collect();
        check!(got == [&a[..], &a[..a.len() / 2], &a[..]], "seq! reads {got:?}");
        let col: IndexableSeq<Array<T>> = (0..=a.len().min(5)).map(|k| Array::copy(&a[..k])).collect();
        for (k, x) in col.iter().enumerate() {
            check!(x[..] == a[..k], "collected element {k} reads {:?}", &x[..]);
        }
        obs(a.len() as u64);
    }
    match s.below(8) {
        7 => long::<()>(s, i, "()"),
        0 => sl::<u8>(s, i, "u8"),
        1 => sl::<u16>(s, i, "u16"),
        2 => sl::<u64>(s, i, "u64"),
        3 => sl::<u128>(s, i, "u128"),
        4 => sl::<[u8; 3]>(s, i, "[u8; 3]"),
        5 => sl::<()>(s, i, "()"),
        _ => {
            let a = gen_str(s, 255);
            i.note(|| format!("constructors of Str of {a:?}"));
            i.nontrivial = !a.is_empty();
            let same = |x: &str, what: &str| check!(x == a, "{what} reads {x:?}, expected {a:?}");
            same(&VBox::new(Str::copy(&a)), "Str::copy");
            same(&VBox::<Str<u8>>::new(Str::try_copy(&a).unwrap()), "Str<u8>::try_copy");
            same(&VBox::<Str<u32>>::new(Str::try_copy(&a).unwrap()), "Str<u32>::try_copy");
            let b = bumpalo::Bump::new();
            same(&Owned::new_in(Str::copy(&a), &b), "arena Str");
            let sq: Seq<Str> = varlen::seq![Str::copy(&a), Str::copy(""), Str::copy(&a)];
            let got: Vec<&str> = sq.iter().take(4).map(|x| &x[..]).collect();
            check!(got == [&a[..], "", &a[..]], "seq! reads {got:?}");
        }
    }
}

// ---- Lengths and sizes (C08) ----

/// An initializer that must not be run.
struct Never;
unsafe impl<T> ArrayInitializer<T> for Never {
    fn initialize(self, dst: &mut [MaybeUninit<T>]) {
        fail!("an array of {} elements is initialized although its size does not fit", dst.len())
    }
}

fn lens<Ln: Len + PartialEq + core::fmt::Debug>(s: &mut Src, i: &mut Info) {
    let n = near(s, Ln::MAX as u128);
    i.note(|| format!("length {n} as u{}", Ln::BYTES * 8));
    let got = Ln::from_usize(n);
    let want = n as u128 <= Ln::MAX as u128;
    obs(got.is_some() as u64);
    check!(got.is_some() == want, "from_usize({n}) is {got:?} for lengths up to {}", Ln::MAX);
    if let Some(l) = got {
        check!(l.as_usize() == n, "from_usize({n}).as_usize() is {}", l.as_usize());
    }
    // Without bytes, any length is possible.
    let zs: &[()] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), n.min(isize::MAX as usize)) };
    let z = n.min(isize::MAX as usize);
    let want = z as u128 <= Ln::MAX as u128;
    i.nontrivial = (z as u128).abs_diff(Ln::MAX as u128) < 3 || z as u128 > Ln::MAX as u128;
    let a = Array::<(), Ln>::try_copy(zs);
    let b = Array::<(), Ln>::try_clone_from_slice(zs);
    check!(a.is_some() == want && b.is_some() == want, "try_copy/try_clone_from_slice of {z} elements: {}, {}", a.is_some(), b.is_some());
    if let Some(a) = a {
        check!(a.0.as_usize() == z, "try_copy of {z} elements has length {}", a.0.as_usize());
        let x = VBox::<Array<(), Ln>>::new(a);
        check!(x.len() == z && x.len_short().as_usize() == z, "array of {z} elements has {}", x.len());
    }
    if let Some(b) = b {
        check!(b.0.as_usize() == z, "try_clone_from_slice of {z} elements has length {}", b.0.as_usize());
    }
}
fn near(s: &mut Src, max: u128) -> usize {
    let base = match s.below(6) {
        0..=2 => max,
        3 => *s.pick(&[u8::MAX as u128, u16::MAX as u128, u32::MAX as u128, u64::MAX as u128, i64::MAX as u128]),
        4 => return s.bits() as usize,
        _ => max + 1 + max * s.below(4) as u128,
    };
    let d = s.below(4) as u128;
    let x = if s.chance(1, 2) { base + d } else { base.saturating_sub(d) };
    x.min(usize::MAX as u128) as usize
}

/// Slices and strings with real bytes, around the limits of small length types.
fn slices<Ln: Len>(s: &mut Src, i: &mut Info) {
    let n = near(s, Ln::MAX as u128).min(if cfg!(miri) { 300 } else { 200_000 });
    let want = n as u64 <= Ln::MAX;
    i.nontrivial = n as u64 + 3 > Ln::MAX;
    i.note(|| format!("slices and strings of {n} with lengths of u{}", Ln::BYTES * 8));
    let k = s.bits() as u8;
    let a: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(k)).collect();
    let x = Array::<u8, Ln>::try_copy(&a);
    let y = Array::<u8, Ln>::try_clone_from_slice(&a);
    check!(x.is_some() == want && y.is_some() == want, "try_copy/try_clone_from_slice of {n} elements: {}, {}", x.is_some(), y.is_some());
    if let (Some(x), Some(y)) = (x, y) {
        let (x, y) = (VBox::new(x), VBox::new(y));
        check!(x[..] == a && y[..] == a, "arrays of {n} elements have {} and {}, or other contents", x.len(), y.len());
    }
    // The limit is in bytes.
    let mut t = String::new();
    let c = *s.pick(&['q', 'é', '€', '𝄞']);
    while t.len() + c.len_utf8() <= n {
        t.push(c);
    }
    while t.len() < n {
        t.push('x');
    }
    let x = Str::<Ln>::try_copy(&t);
    match x {
        None => check!(!want, "Str::try_copy refuses {n} bytes"),
        Some(x) => {
            check!(want, "Str::try_copy accepts {n} bytes");
            let x = VBox::<Str<Ln>>::new(x);
            check!(x[..] == t[..], "string of {n} bytes has {}, or other contents", x.len());
        }
    }
}

/// Sizes of more than the address space.
fn refuse<T: VarLen, I: Initializer<T>>(s: &mut Src, i: &mut Info, size: u128, name: &str, mk: impl Fn() -> I, small: impl Fn(&mut Seq<T>, &mut IndexableSeq<T>)) {
    i.note(|| format!("{name} of {size:#x} bytes"));
    check!(size > isize::MAX as u128, "harness: size fits");
    let l = mk().calculate_layout_cautious();
    obs(l.is_some() as u64);
    if size > usize::MAX as u128 {
        check!(l.is_none(), "{name} of {size:#x} bytes has a layout, of {:#x} bytes", l.unwrap().size());
    } else if let Some(l) = l {
        check!(l.size() as u128 == size, "{name} of {size:#x} bytes has a layout of {:#x} bytes", l.size());
    }
    fn refused<R>(what: &str, f: impl FnOnce() -> R) {
        match caught(f) {
            Ok(r) => {
                core::mem::forget(r);
                fail!("{what} accepts a size that does not fit")
            }
            Err(p) if p.is::<Fail>() => std::panic::resume_unwind(p),
            Err(_) => {}
        }
    }
    let mut q: Seq<T> = Seq::new();
    let mut x: IndexableSeq<T> = Seq::new();
    for _ in 0..s.below(4) {
        small(&mut q, &mut x);
    }
    match s.below(4) {
        0 => refused("VBox::new", || VBox::new(mk())),
        1 => {
            let b = bumpalo::Bump::new();
            refused("Owned::new_in", || {
                Owned::new_in(mk(), &b);
            })
        }
        2 => {
            let before = (q.len(), q.offset(), q.capacity_in_offsets());
            refused("Seq::push", || q.push(mk()));
            let after = (q.len(), q.offset(), q.capacity_in_offsets());
            check!(before == after, "a refused push changed (len, offset, capacity) from {before:?} to {after:?}");
            let n = q.iter().take(before.0 + 1).map(|t| t.calculate_layout().size()).count();
            check!(n == before.0, "a refused push changed the elements");
        }
        _ => {
            let before = (x.len(), x.offset(), x.capacity_in_offsets());
            refused("IndexableSeq::push", || x.push(mk()));
            let after = (x.len(), x.offset(), x.capacity_in_offsets());
            check!(before == after, "a refused push changed (len, offset, capacity) from {before:?} to {after:?}");
            for o in 0..before.2 + 9 {
                let e = x.iter().any(|t| x.offset_of(t) == o);
                check!(x.is_offset_valid(o) == e, "after a refused push, validity of offset {o} is {}", !e);
            }
        }
    }
    // Still usable.
    let n = q.len();
    small(&mut q, &mut x);
    check!(q.len() == n + 1, "unusable after a refused push");
    i.nontrivial = true;
}

fn big(s: &mut Src, unit: u128, header: u128) -> usize {
    // Element counts around where the size stops fitting, but never one that does.
    let lim = *s.pick(&[isize::MAX as u128, usize::MAX as u128]);
    let k = match s.below(4) {
        0 => usize::MAX as u128 - s.below(3) as u128,
        1 => (lim - header) / unit + 1 + s.below(3) as u128,
        2 => (lim / unit).max(1) + s.below(20) as u128,
        _ => (lim / unit + 1) * (1 + s.below(5) as u128) + s.below(3) as u128,
    };
    let k = k.min(usize::MAX as u128);
    let k = if k * unit + header <= isize::MAX as u128 { (isize::MAX as u128 - header) / unit + 1 } else { k };
    k as usize
}

fn small_arr<T: Elem>(q: &mut Seq<Array<T>>, x: &mut IndexableSeq<Array<T>>) {
    q.push(SizedInit(2, FillSequentially(|_| T::make(&N(1)))));
    x.push(SizedInit(2, FillSequentially(|_| T::make(&N(1)))));
}
fn arr_big<T: Elem>(s: &mut Src, i: &mut Info) {
    let e = core::mem::size_of::<T>() as u128;
    let h = round_up(8, core::mem::align_of::<T>()) as u128;
    let n = big(s, e, h);
    refuse::<Array<T>, _>(s, i, n as u128 * e + h, "array", || SizedInit(n, Never), small_arr::<T>);
}

#[varlen::define_varlen]
struct Big {
    #[controls_layout]
    n: usize,
    #[controls_layout]
    k: usize,
    #[varlen_array]
    a: [u8; *n],
    #[varlen_array]
    b: [u32; *k],
    #[varlen]
    c: Array<u16>,
}

fn c08(s: &mut Src, i: &mut Info) {
    match s.below(16) {
        0 => lens::<u8>(s, i),
        1 => lens::<u16>(s, i),
        2 => lens::<u32>(s, i),
        3 => lens::<u64>(s, i),
        4 => lens::<usize>(s, i),
        5 | 6 => slices::<u8>(s, i),
        7 => slices::<u16>(s, i),
        8 => arr_big::<u8>(s, i),
        9 => arr_big::<u16>(s, i),
        10 => arr_big::<u64>(s, i),
        11 => arr_big::<A64<u8>>(s, i),
        12 => arr_big::<[u8; 3]>(s, i),
        13 => {
            // The parts fit, but not the whole.
            let (mut a, mut b) = (big(s, 2, 8), big(s, 1, 8));
            for x in [&mut a, &mut b] {
                if s.chance(1, 2) {
                    *x = match s.below(3) {
                        0 => s.below(20) as usize,
                        1 => (isize::MAX as usize) / 2 - s.below(20) as usize,
                        _ => (isize::MAX as usize) - s.below(20) as usize,
                    };
                }
            }
            let size = |a: usize, b: usize| {
                let x = 8 + 2 * a as u128;
                (x + 7) / 8 * 8 + 8 + b as u128
            };
            if size(a, b) <= isize::MAX as u128 {
                a = isize::MAX as usize - 2;
            }
            refuse::<Tup2<Array<u16>, Array<u8>>, _>(s, i, size(a, b), "tuple", || tup2::Init(SizedInit(a, Never), SizedInit(b, Never)), |q, x| {
                q.push(tup2::Init(Array::copy(&[1, 2]), Array::copy(&[3])));
                x.push(tup2::Init(Array::copy(&[1, 2]), Array::copy(&[3])));
            });
        }
        14 => {
            let mut v = [0usize; 3];
            for x in &mut v {
                *x = match s.below(5) {
                    0 => s.below(20) as usize,
                    1 => isize::MAX as usize / 4 - s.below(20) as usize,
                    2 => isize::MAX as usize - s.below(20) as usize,
                    3 => usize::MAX / 2 - s.below(8) as usize,
                    _ => usize::MAX - s.below(30) as usize,
                };
            }
            let size = |v: &[usize; 3]| {
                let up = |x: u128, a: u128| (x + a - 1) / a * a;
                up(up(16 + v[0] as u128, 4) + 4 * v[1] as u128, 8) + 8 + 2 * v[2] as u128
            };
            if size(&v) <= isize::MAX as u128 {
                v[2] = isize::MAX as usize;
            }
            let [n, k, l] = v;
            refuse::<Big, _>(s, i, size(&v), "struct", || big::Init { n, k, a: Never, b: Never, c: SizedInit(l, Never) }, |q, x| {
                q.push(big::Init { n: 2, k: 1, a: FillWithDefault, b: FillWithDefault, c: Array::copy(&[7]) });
                x.push(big::Init { n: 2, k: 1, a: FillWithDefault, b: FillWithDefault, c: Array::copy(&[7]) });
            });
        }
        _ => {
            let n = big(s, 8, 8);
            refuse::<NGen<u64, usize>, _>(s, i, n as u128 * 8 + 8, "newtype", || NGenInit(SizedInit(n, Never)), |q, x| {
                q.push(NGenInit(Array::copy(&[1, 2])));
                x.push(NGenInit(Array::copy(&[1, 2])));
            });
        }
    }
}

// ---- Array initializers (C11) ----

/// An iterator that keeps a record, and whose size hint may be anything.
struct Rec<'a> {
    vs: &'a [V],
    at: &'a core::cell::Cell<usize>,
    hint: u64,
}
impl<'a> Rec<'a> {
    fn go<T: Elem>(&self) -> Option<T> {
        tick(NEXT);
        let k = self.at.get();
        self.at.set(k + 1);
        self.vs.get(k).map(T::make)
    }
}
struct RecI<'a, T>(Rec<'a>, core::marker::PhantomData<T>);
impl<'a, T: Elem> Iterator for RecI<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.go()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.0.hint {
            0 => (0, None),
            1 => (0, Some(0)),
            2 => (usize::MAX, None),
            3 => (self.0.vs.len() + 1, Some(self.0.vs.len() + 1)),
            _ => (self.0.vs.len(), Some(self.0.vs.len())),
        }
    }
}

fn arr_of<T, const N: usize>(mut v: Vec<T>) -> [T; N] {
    v.truncate(N);
    match v.try_into() {
        Ok(a) => a,
        Err(_) => fail!("harness: length"),
    }
}

/// Initializes `n` slots in one of several ways; the result, or None if it panicked.
fn into_slots<T: Elem>(s: &mut Src, n: usize, init: impl ArrayInitializer<T>) -> Option<Vec<V>> {
    match s.below(3) {
        0 => {
            const G: usize = 3;
            let mut buf: Vec<MaybeUninit<T>> = (0..n + 2 * G).map(|_| MaybeUninit::uninit()).collect();
            let z = core::mem::size_of::<T>();
            let p = buf.as_mut_ptr() as *mut u8;
            unsafe { core::ptr::write_bytes(p, 0xEE, z * (n + 2 * G)) };
            let r = caught(|| init.initialize(&mut buf[G..G + n]));
            for k in (0..G * z).chain((G + n) * z..(n + 2 * G) * z) {
                check!(unsafe { *p.add(k) } == 0xEE, "byte {} outside the {n} slots was written", k as isize - (G * z) as isize);
            }
            match r {
                Ok(()) => Some(
                    buf[G..G + n]
                        .iter_mut()
                        .map(|x| unsafe {
                            let v = (*x.as_ptr()).view();
                            core::ptr::drop_in_place(x.as_mut_ptr());
                            v
                        })
                        .collect(),
                ),
                Err(p) if p.is::<Fail>() => std::panic::resume_unwind(p),
                Err(_) => None,
            }
        }
        1 if n <= 8 => {
            macro_rules! fixed {
                ($($n:literal)*) => {
                    match n {
                        $( $n => caught(|| new_array::<T, $n>(init).iter().map(T::view).collect::<Vec<V>>()), )*
                        _ => fail!("harness: slots"),
                    }
                };
            }
            match fixed!(0 1 2 3 4 5 6 7 8) {
                Ok(r) => Some(r),
                Err(p) if p.is::<Fail>() => std::panic::resume_unwind(p),
                Err(_) => None,
            }
        }
        _ => match caught(|| VBox::<Array<T>>::new(SizedInit(n, init))) {
            Ok(b) => Some(b.iter().map(T::view).collect()),
            Err(p) if p.is::<Fail>() => std::panic::resume_unwind(p),
            Err(_) => None,
        },
    }
}

fn inits<T: Elem>(s: &mut Src, i: &mut Info) {
    // Now and then, more slots than a 16-bit index has.
    let vs = if !cfg!(miri) && !cfg!(fuzzing) && s.chance(1, 400) {
        let n = if s.chance(1, 3) { (1 << 17) + s.idx(9) - 4 } else { 65_530 + s.idx(12) };
        gen_elems_n(s, T::ed(), n)
    } else if s.chance(1, 8) { gen_elems(s, T::ed(), 3000) } else { let n = s.idx(10); gen_elems_n(s, T::ed(), n) };
    let m = vs.len();
    let n = match s.below(6) {
        0..=2 => m,
        3 => s.idx(m + 1),
        4 => m + 1,
        _ => m.saturating_sub(1),
    };
    let which = s.below(7);
    let n = if which == 2 && m == 0 { 0 } else { n };
    let check_eq = |got: &Option<Vec<V>>, what: &str| match got {
        Some(g) => {
            check!(g.len() == n, "{what} gives {} elements, expected {n}", g.len());
            for (k, (a, b)) in g.iter().zip(&vs).enumerate() {
                check!(a == b, "{what} gives {} at {k}, expected {}", a.show(), b.show());
            }
        }
        None => fail!("{what} of {m} elements into {n} slots panics"),
    };
    let must_panic = |got: &Option<Vec<V>>, what: &str| {
        check!(got.is_none(), "{what} of {m} elements fills {n} slots instead of panicking");
    };
    const NAMES: [&str; 7] = ["FromIterPrefix", "FromIterPrefix by reference", "FillSequentially", "FillWithDefault", "CopyFrom", "CloneFrom", "MoveFrom"];
    let what = NAMES[which as usize];
    i.note(|| format!("{what} of {m} {} into {n} slots: {}", core::any::type_name::<T>(), L(vs.clone()).show()));
    i.label(what, true);
    i.label("wrong length", m != n);
    i.nontrivial = n > 0;
    let at = core::cell::Cell::new(0);
    let hint = s.below(8);
    let made0 = reg().makes;
    let _ = made0;
    match which {
        0 | 1 => {
            let mut it = RecI::<T>(Rec { vs: &vs, at: &at, hint }, core::marker::PhantomData);
            let got = if which == 0 { into_slots::<T>(s, n, FromIterPrefix(it)) } else { into_slots::<T>(s, n, FromIterPrefix(&mut it)) };
            if n <= m {
                check_eq(&got, what);
                check!(at.get() == n, "{what}: {} items were taken for {n} slots", at.get());
            } else {
                must_panic(&got, what);
                check!(at.get() <= m + 1, "{what}: the iterator was asked again after its end");
            }
        }
        2 => {
            let got = into_slots::<T>(
                s,
                n,
                FillSequentially(|k: usize| {
                    check!(k == at.get(), "FillSequentially calls for index {k} when {} is due", at.get());
                    at.set(k + 1);
                    check!(k < n, "FillSequentially calls for {k} of {n}");
                    T::make(&vs[k % m])
                }),
            );
            let g = match got {
                Some(g) => g,
                None => fail!("FillSequentially of {n} slots panics"),
            };
            check!(g.len() == n && at.get() == n, "FillSequentially made {} calls, {} elements for {n} slots", at.get(), g.len());
            for (k, a) in g.iter().enumerate() {
                check!(*a == vs[k % m], "FillSequentially gives {} at {k}, expected {}", a.show(), vs[k % m].show());
            }
        }
        3 => {
            if let (Some(f), Some(d)) = (T::DEFAULT, T::default_v()) {
                struct ByFn<T>(fn(&mut [MaybeUninit<T>]));
                unsafe impl<T> ArrayInitializer<T> for ByFn<T> {
                    fn initialize(self, dst: &mut [MaybeUninit<T>]) {
                        (self.0)(dst)
                    }
                }
                let d0 = reg().defaults;
                let got = into_slots::<T>(s, n, ByFn(f));
                let calls = reg().defaults - d0;
                let want = (n * T::ticks(&d)) as u64;
                check!(calls == want, "FillWithDefault of {n} slots made {calls} default calls");
                match got {
                    Some(g) => check!(g.len() == n && g.iter().all(|x| *x == d), "FillWithDefault gives {}", L(g).show()),
                    None => fail!("FillWithDefault of {n} slots panics"),
                }
            }
        }
        4 | 5 => {
            let f = if which == 4 { T::COPY } else { T::CLONE };
            if let Some(f) = f {
                struct ByFn<'a, T>(InitFn<T>, &'a [T]);
                unsafe impl<'a, T> ArrayInitializer<T> for ByFn<'a, T> {
                    fn initialize(self, dst: &mut [MaybeUninit<T>]) {
                        (self.0)(self.1, dst)
                    }
                }
                let src: Vec<T> = vs.iter().map(T::make).collect();
                let c0 = reg().clones;
                let got = into_slots::<T>(s, n, ByFn(f, &src));
                let calls = reg().clones - c0;
                if n == m {
                    check_eq(&got, what);
                    let want: usize = if which == 4 { 0 } else { vs.iter().map(|v| T::ticks(v)).sum() };
                    check!(calls == want as u64, "{what} of {n} elements made {calls} clone calls, expected {want}");
                } else {
                    must_panic(&got, what);
                }
                for (a, v) in src.iter().zip(&vs) {
                    check!(a.view() == *v, "{what} changed its source");
                }
            }
        }
        _ => {
            macro_rules! mv {
                ($($k:literal)*) => {
                    match m {
                        $( $k => Some(into_slots::<T>(s, n, MoveFrom(arr_of::<T, $k>(vs.iter().map(T::make).collect())))), )*
                        _ => None,
                    }
                };
            }
            if let Some(got) = mv!(0 1 2 3 4 5 6 7 8 9) {
                if n == m {
                    check_eq(&got, what);
                } else {
                    must_panic(&got, what);
                }
            }
        }
    }
    if let Some(m) = crate::track::take_flag() {
        fail!("{m}");
    }
    i.lost = true;
}

fn c11(s: &mut Src, i: &mut Info) {
    match s.below(12) {
        0 => inits::<u8>(s, i),
        1 => inits::<u32>(s, i),
        2 => inits::<Tr>(s, i),
        3 => inits::<String>(s, i),
        4 => inits::<TrZ>(s, i),
        5 => inits::<Pad>(s, i),
        6 => inits::<()>(s, i),
        7 => inits::<A64<u16>>(s, i),
        8 => inits::<Cn>(s, i),
        9 => inits::<CnZ>(s, i),
        10 => inits::<Cc>(s, i),
        _ => inits::<(u8, Tr)>(s, i),
    }
}

// ---- Layout controllers (C15) ----

pub fn setting<T: Controlled>(s: &mut Src, i: &mut Info) {
    let d = T::desc();
    let sd = match &d {
        Desc::Struct(sd) => sd.clone(),
        _ => fail!("harness: not a struct"),
    };
    let ctl: Vec<usize> = (0..sd.fields.len()).filter(|k| matches!(sd.fields[*k], Fd::Ctl(_))).collect();
    let controllers = |v: &V| -> Vec<V> { ctl.iter().map(|k| v.l()[*k].clone()).collect() };
    // An object with neighbours.
    let n = 1 + s.idx(3);
    let mut vs: Vec<V> = (0..n).map(|_| d.gen(s)).collect();
    let mut q: IndexableSeq<T> = Seq::new();
    for v in &vs {
        q.push(T::init(v, s));
    }
    let mut boxed = VBox::new(T::init(&vs[0], s));
    let mut bv = vs[0].clone();
    i.note(|| format!("{}", core::any::type_name::<T>()));
    for _ in 0..1 + s.below(5) {
        let at = s.idx(n + 1);
        let cur = if at < n { vs[at].clone() } else { bv.clone() };
        let old = controllers(&cur);
        // Candidates: small changes, those of another value, anything that happens to agree.
        let mut new = old.clone();
        let lens0 = T::lens(&old);
        let change = |new: &mut Vec<V>, s: &mut Src| {
            if new.is_empty() {
                return;
            }
            let k = s.idx(new.len());
            let e = match &sd.fields[ctl[k]] {
                Fd::Ctl(e) => *e,
                _ => fail!("harness: not a controller"),
            };
            new[k] = match (&new[k], s.below(4)) {
                (N(x), 0) => N(x.saturating_add(1)),
                (N(x), 1) => N(x.saturating_sub(1)),
                _ => (e.gen)(s),
            };
            // Something that the type can store, and not too large.
            if let N(x) = new[k] {
                new[k] = N(x.min(e.max).min(0xffff));
            }
        };
        let mut agree = false;
        match s.below(4) {
            0 => {}
            1 => new = controllers(&d.gen(s)),
            2 => change(&mut new, s),
            _ => {
                for _ in 0..30 {
                    let mut c = old.clone();
                    for _ in 0..1 + s.below(3) {
                        change(&mut c, s);
                    }
                    if T::lens(&c) == lens0 && c != old {
                        new = c;
                        agree = true;
                        break;
                    }
                }
            }
        }
        let want = T::lens(&new) == lens0;
        i.label("accepted, changed", want && new != old);
        i.label("rejected", !want);
        i.label("same lengths sought", agree);
        i.nontrivial |= new != old;
        i.note(|| format!("set {} to {}: lengths {:?} to {:?}", L(old.clone()).show(), L(new.clone()).show(), lens0, T::lens(&new)));
        let fault = s.chance(1, 4);
        if fault {
            arm(1 + s.below(2 + old.len() as u64), DROP);
        }
        let target: Pin<&mut T> = if at < n {
            let o = (0..at).map(|k| d.units(&vs[k])).sum();
            q.from_offset_mut(o)
        } else {
            boxed.as_mut()
        };
        let r = caught(|| target.set(&new));
        let hit = disarm();
        let mut next = cur.clone();
        for (k, c) in ctl.iter().zip(&new) {
            next.lm()[*k] = c.clone();
        }
        let after = if at < n { q.iter().nth(at).map(|t| t.view()) } else { Some(boxed.view()) };
        let after = after.unwrap_or_else(|| fail!("element lost"));
        let got = match r {
            Ok(got) => {
                obs(got as u64);
                check!(
                    got == want,
                    "setting {} instead of {} is {}: lengths {:?} and {:?}",
                    L(new.clone()).show(),
                    L(old.clone()).show(),
                    if got { "accepted" } else { "rejected" },
                    T::lens(&new),
                    lens0
                );
                let expect = if want { &next } else { &cur };
                check!(after == *expect, "after setting controllers the object reads {}, expected {}", after.show(), expect.show());
                if want { next } else { cur }
            }
            Err(p) if hit && p.is::<Injected>() => {
                i.label("panicked", true);
                let ac = controllers(&after);
                // Fields may be mixed only if that is consistent; arrays keep their lengths.
                check!(T::lens(&ac) == lens0, "after a panic the controllers are {}, giving lengths {:?} instead of {:?}", L(ac.clone()).show(), T::lens(&ac), lens0);
                for (k, c) in ctl.iter().zip(&ac) {
                    check!(*c == cur.l()[*k] || *c == next.l()[*k], "after a panic a controller has a value it never had");
                }
                if !want {
                    check!(after == cur, "a rejected setting that panics changes the object");
                }
                let mut e = cur.clone();
                for (k, c) in ctl.iter().zip(&ac) {
                    e.lm()[*k] = c.clone();
                }
                check!(after == e, "after a panic the object reads {}, expected {}", after.show(), e.show());
                e
            }
            Err(p) => std::panic::resume_unwind(p),
        };
        if at < n {
            vs[at] = got;
        } else {
            bv = got;
        }
        // Everything else is as before.
        let all: Vec<V> = q.iter().take(n + 1).map(|t| t.view()).collect();
        check!(all == vs, "neighbouring objects changed");
        let size = boxed.calculate_layout().size();
        check!(boxed.view() == bv && size == d.lay(&bv).size, "the boxed object changed");
        let live: usize = vs.iter().chain([&bv]).map(|v| d.tracked(v)).sum();
        check!(reg().live == live as isize, "{} components are alive, the objects hold {live}", reg().live);
        if let Some(m) = crate::track::take_flag() {
            fail!("{m}");
        }
    }
    drop((q, boxed));
    check!(reg().live == 0, "{} components are alive after the drop", reg().live);
}

pub type Setting = fn(&mut Src, &mut Info);
static mut SETTINGS: Option<&'static [Setting]> = None;
/// Replaces the structs that C15 uses.
pub fn set_settings(t: Vec<Setting>) {
    unsafe { SETTINGS = Some(Vec::leak(t)) }
}

fn c15(s: &mut Src, i: &mut Info) {
    if let Some(t) = unsafe { SETTINGS } {
        return s.pick(t)(s, i);
    }
    match s.below(12) {
        0 => setting::<SA>(s, i),
        1 => setting::<SB>(s, i),
        2 => setting::<SC>(s, i),
        3 => setting::<SE>(s, i),
        4 | 5 => setting::<SM>(s, i),
        6 => setting::<SH>(s, i),
        7 => setting::<SL>(s, i),
        8 => setting::<SI>(s, i),
        9 => setting::<SX>(s, i),
        _ => setting::<SK>(s, i),
    }
}

// ---- Newtypes (C18) ----

fn newtype<Nt: Modeled, I: Modeled>(s: &mut Src, i: &mut Info, name: &'static str, ir: fn(&Nt) -> &I, im: for<'a> fn(Pin<&'a mut Nt>) -> Pin<&'a mut I>, bytes: bool) {
    let d = I::desc();
    let mut v = d.gen(s);
    i.note(|| format!("{name}: {}", v.show()));
    i.nontrivial = d.lay(&v).size > 0;
    check!(Nt::ALIGN == I::ALIGN, "newtype has alignment {}, inner type {}", Nt::ALIGN, I::ALIGN);
    check!(Nt::NEEDS_VDROP == I::NEEDS_VDROP, "NEEDS_VDROP differs");
    check!(core::mem::size_of::<Nt>() == core::mem::size_of::<I>(), "header sizes differ");
    check!(core::mem::align_of::<Nt>() == core::mem::align_of::<I>(), "header alignments differ");
    // The same choices for both.
    let k = s.below(1 << 20);
    let a = Nt::init(&v, &mut Src::random(k));
    let b = I::init(&v, &mut Src::random(k + 1));
    let (la, lb) = (a.calculate_layout_cautious(), b.calculate_layout_cautious());
    let (la, lb) = (la.map(|l| l.size()), lb.map(|l| l.size()));
    check!(la == lb && la.is_some(), "predicted sizes are {la:?} and {lb:?}");
    let fill = s.below(256) as u8;
    crate::alloc::set_fill(fill);
    let mut x = VBox::new(a);
    let y = VBox::new(b);
    crate::alloc::set_fill(0xA5);
    let n = d.lay(&v).size;
    check!(x.calculate_layout().size() == n && y.calculate_layout().size() == n, "reported sizes differ");
    if bytes && cfg!(not(any(miri, feature = "plain-alloc"))) {
        let (p, q) = (&*x as *const Nt as *const u8, &*y as *const I as *const u8);
        for k in 0..n {
            let (a, b) = unsafe { (*p.add(k), *q.add(k)) };
            check!(a == b, "byte {k} is {a:#x} in the newtype, {b:#x} in the inner type");
        }
    }
    let r = ir(&x);
    check!(r as *const I as usize == &*x as *const Nt as usize, "inner reference has another address");
    check!(r.view() == v && y.view() == v, "inner value is {}, expected {}", r.view().show(), v.show());
    check!(r.calculate_layout().size() == n, "inner value has another size");
    {
        let adr = &*x as *const Nt as usize;
        let m = im(x.as_mut());
        check!(&*m as *const I as usize == adr, "inner mutable reference has another address");
        m.mutate(&mut v, s);
    }
    check!(x.view() == v && ir(&x).view() == v, "a change through inner_mut reads {}, expected {}", x.view().show(), v.show());
    // Moved around like the inner type.
    let mut q: IndexableSeq<Nt> = Seq::new();
    q.push(x);
    let mut q2: IndexableSeq<I> = Seq::new();
    q2.push(y);
    check!(q.offset() == q2.offset(), "newtype takes {} offsets, inner type {}", q.offset(), q2.offset());
    check!(ir(q.from_offset(0)).view() == v, "after a move the inner value is {}", ir(q.from_offset(0)).view().show());
    let live = (reg().live, reg().zlive);
    let want = 2 * d.tracked(&v) as isize;
    check!(live.0 == want || !d.needs_drop(), "{} components are alive, expected {want}", live.0);
    drop(q);
    check!((reg().live, reg().zlive) == (live.0 - d.tracked(&v) as isize, live.1 - d.ztracked(&v) as isize), "dropping the newtype does not drop its components exactly once");
    drop(q2);
    if let Some(m) = crate::track::take_flag() {
        fail!("{m}");
    }
}

fn c18(s: &mut Src, i: &mut Info) {
    match s.below(11) {
        10 => newtype::<NZ, NZInner>(s, i, "NZ", NZ::ir, NZ::im, false),
        0 => newtype::<NStr, Str<u8>>(s, i, "NStr", NStr::ir, NStr::im, true),
        1 => newtype::<NTup, NTupInner>(s, i, "NTup", NTup::ir, NTup::im, false),
        2 => newtype::<NGen<Tr, u16>, Array<Tr, u16>>(s, i, "NGen<Tr, u16>", NGen::ir, NGen::im, false),
        3 => newtype::<NGen<u16, u8>, Array<u16, u8>>(s, i, "NGen<u16, u8>", NGen::ir, NGen::im, false),
        4 => newtype::<NGen<A16<u8>, usize>, Array<A16<u8>, usize>>(s, i, "NGen<A16<u8>>", NGen::ir, NGen::im, false),
        5 => newtype::<NFix, FixedLen<Tr>>(s, i, "NFix", NFix::ir, NFix::im, false),
        6 => newtype::<NN, NTup>(s, i, "NN", NN::ir, NN::im, false),
        7 => newtype::<NStruct, SB>(s, i, "NStruct", NStruct::ir, NStruct::im, false),
        8 => {
            // An initializer by delegation.
            let v = Str::<u8>::desc().gen(s);
            i.note(|| format!("delegated initializer of {}", v.show()));
            i.nontrivial = !v.s().is_empty();
            let x = VBox::new(NStrInit(Str::<u8>::try_copy(v.s()).unwrap()));
            let c = x.vclone();
            let (a, b) = (c.calculate_layout_cautious().map(|l| l.size()), Some(1 + v.s().len()));
            check!(a == b, "delegating initializer predicts {a:?} bytes, expected {b:?}");
            let y = VBox::new(c);
            check!(y.view() == v, "delegating initializer gives {}, expected {}", y.view().show(), v.show());
            let z = VBox::new(x.vcopy());
            check!(z.view() == v, "copied newtype is {}, expected {}", z.view().show(), v.show());
            let mut q: Seq<NStr> = Seq::new();
            q.push(y.vclone());
            q.push(z);
            check!(q.iter().take(3).all(|t| t.view() == v) && q.len() == 2, "sequence of cloned newtypes differs");
        }
        _ => {
            let nt = |t: &TypeInfo| matches!((t.desc)(), Desc::New(_));
            let p = Plan { aspects: CONTENT | BOXES | DROPS | PLACE, weights: &W_ALL, faults: false };
            let w = history(s, i, p, &nt);
            i.nontrivial = w.pushes >= 2;
            w.finish(s);
        }
    }
}

// ---- Build profiles (C22) ----

/// Outcomes are compared between builds, not judged here.
fn c22(s: &mut Src, i: &mut Info) {
    let r = match s.below(8) {
        0 => caught(|| c08(s, i)),
        1 => caught(|| c15(s, i)),
        2 => caught(|| c11(s, i)),
        3 => caught(|| c19(s, i)),
        4 => caught(|| c07(s, i)),
        _ => caught(|| {
            let p = Plan { aspects: CONTENT | VALID | PACK | BOXES | DROPS, weights: &W_ALL, faults: false };
            let w = history(s, i, p, &any);
            i.nontrivial = w.pushes >= 2;
            w.finish(s);
        }),
    };
    i.lost = true;
    if let Err(p) = r {
        // Whether it fails may depend on the build, if there is a bug.
        let m = match p.downcast_ref::<Fail>() {
            Some(f) => f.0.clone(),
            None => "panic".to_string(),
        };
        i.note(|| format!("outcome: {m}"));
        obs(0xFA11);
        for b in m.bytes() {
            obs(b as u64);
        }
        std::panic::resume_unwind(p);
    }
}
