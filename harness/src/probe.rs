//! Checks of one value of one type, without a history.

use crate::alloc::{counts, last_request};
use crate::modeled::*;
use crate::src::Src;
use crate::track::reg;
use crate::value::V;
use core::ptr::NonNull;
use varlen::prelude::*;
use varlen::seq::IndexableSeq;
use varlen::{Initializer, Layout};

const GUARD: usize = 192;

/// Storage with guards around it, aligned to `align` but not more.
struct Guarded {
    buf: Vec<u8>,
    at: usize,
    size: usize,
}
impl Guarded {
    fn new(size: usize, align: usize, fill: u8) -> Self {
        let buf = vec![fill; size + 2 * GUARD + 3 * align];
        let a = buf.as_ptr() as usize + GUARD;
        let mut at = (a + align - 1) / align * align;
        if at / align % 2 == 0 {
            at += align;
        }
        let at = at - buf.as_ptr() as usize;
        let mut g = Guarded { buf, at, size };
        for i in 0..g.buf.len() {
            if i < at || i >= at + size {
                g.buf[i] = Self::pat(i);
            }
        }
        g
    }
    fn pat(i: usize) -> u8 {
        (i * 29 + 7) as u8
    }
    fn ptr<T>(&mut self) -> NonNull<T> {
        unsafe { NonNull::new_unchecked(self.buf.as_mut_ptr().add(self.at) as *mut T) }
    }
    fn verify(&self, when: &str) {
        for i in 0..self.buf.len() {
            if (i < self.at || i >= self.at + self.size) && self.buf[i] != Self::pat(i) {
                fail!(
                    "{when}: byte {} relative to an object of size {} was overwritten",
                    i as isize - self.at as isize,
                    self.size
                );
            }
        }
    }
}

pub fn layout<T: Modeled>(v: &V, s: &mut Src) {
    let d = T::desc();
    let want = d.lay(v);
    check!(T::ALIGN == d.align(), "ALIGN is {}, expected {}", T::ALIGN, d.align());
    check!(T::NEEDS_VDROP || !d.needs_drop(), "NEEDS_VDROP is false but there are components to drop");
    check!(core::mem::align_of::<T>() <= T::ALIGN, "header is aligned more than the type");
    let i = T::init_nested(v, s);
    let l = match i.calculate_layout_cautious() {
        Some(l) => l,
        None => fail!("initializer has no layout for {}", v.show()),
    };
    check!(l.size() == want.size, "initializer predicts {} bytes, expected {}", l.size(), want.size);
    let mut g = Guarded::new(want.size, T::ALIGN, 0x5D);
    let p: NonNull<T> = g.ptr();
    unsafe { i.initialize(p, l) };
    g.verify("initialize");
    let base = p.as_ptr() as usize;
    let verify = |t: &T, base: usize| {
        let size = t.calculate_layout().size();
        check!(size == want.size, "object reports {} bytes, expected {}", size, want.size);
        let mut ext = Vec::new();
        t.extents(&mut ext);
        check!(ext.len() == want.leaves.len(), "harness: leaves");
        for (k, ((a, n), (o, m, al))) in ext.iter().zip(&want.leaves).enumerate() {
            check!(
                a.wrapping_sub(base) == *o,
                "component {k} is at offset {}, documented at {o}",
                a.wrapping_sub(base) as isize
            );
            check!(n == m, "component {k} has {n} bytes, expected {m}");
            check!(a % al == 0, "component {k} is not aligned to {al}");
        }
        let mut he = Vec::new();
        t.header_extents(&mut he);
        for (k, (a, n, al)) in he.iter().enumerate() {
            let o = a.wrapping_sub(base);
            check!(o + n <= core::mem::size_of::<T>() && a % al == 0, "header field {k} is at offset {o}");
            for (b, m, _) in &he[k + 1..] {
                check!(a + n <= *b || b + m <= *a || *n == 0 || *m == 0, "header fields overlap");
            }
        }
        let w = t.view();
        check!(w == *v, "object reads {}, initialized with {}", w.show(), v.show());
        w.observe();
    };
    verify(unsafe { p.as_ref() }, base);
    // An object is moved by moving its bytes.
    let mut h = Guarded::new(want.size, T::ALIGN, 0x3C);
    let q: NonNull<T> = h.ptr();
    unsafe {
        core::ptr::copy_nonoverlapping(p.as_ptr() as *const u8, q.as_ptr() as *mut u8, want.size);
        verify(q.as_ref(), q.as_ptr() as usize);
        let mut o = Owned::from_raw(q);
        if s.chance(1, 2) {
            let mut v = v.clone();
            o.as_mut().mutate(&mut v, s);
            let w = o.view();
            check!(w == v, "after mutation object reads {}, expected {}", w.show(), v.show());
            check!(o.calculate_layout().size() == want.size, "mutation changed the size");
        }
        drop(o);
    }
    h.verify("mutate or drop");
    g.verify("mutate or drop");
    // Where the library chooses the address.
    let at = |t: &T| verify(t, t as *const T as usize);
    match s.below(4) {
        0 => at(&VBox::new(T::init(v, s))),
        1 => {
            let b = bumpalo::Bump::new();
            for _ in 0..1 + s.below(3) {
                unalign(&b);
                let o = Owned::new_in(T::init(v, s), &b);
                at(&o);
            }
        }
        2 => {
            let mut q: IndexableSeq<T> = Seq::new();
            for _ in 0..1 + s.below(4) {
                q.push(T::init(v, s));
            }
            for t in q.iter().take(5) {
                at(t);
            }
        }
        _ => {
            let b: VBox<Tup2<FixedLen<u8>, T>> = VBox::new(tup2::Init(FixedLen(1), T::init(v, s)));
            at(b.refs().1);
        }
    }
    check!(reg().live == 0 && reg().zlive == 0, "{} components are alive after the drop", reg().live + reg().zlive);
}

/// The next allocation in the arena isn't aligned by accident.
pub fn unalign(b: &bumpalo::Bump) {
    let _ = b.try_alloc(0xA5u8);
}

/// The same value by different initializers and containers.
pub fn init<T: Modeled>(v: &V, s: &mut Src) {
    let bump = bumpalo::Bump::new();
    let n = 2 + s.idx(3);
    let mut seq: Seq<T> = Seq::new();
    let mut ixs: IndexableSeq<T> = Seq::new();
    for _ in 0..n {
        let i = T::init_nested(v, s);
        let same = |t: &T, what: &str| {
            let w = t.view();
            check!(w == *v, "{what} reads {}, initialized with {}", w.show(), v.show());
            w.observe();
            let z = t.calculate_layout().size();
            check!(z == T::desc().lay(v).size, "{what} reports {} bytes", z);
        };
        match s.below(6) {
            0 => same(&VBox::new(i), "VBox"),
            1 => same(&Owned::new_in(i, &bump), "Owned"),
            2 => {
                seq.push(i);
                let t = seq.iter().last();
                same(t.unwrap_or_else(|| fail!("empty after push")), "Seq element")
            }
            3 => {
                let o = ixs.offset();
                ixs.push(i);
                same(ixs.from_offset(o), "indexable Seq element")
            }
            4 => {
                let t: VBox<Tup3<FixedLen<u8>, T, Array<u8, u8>>> =
                    VBox::new(tup3::Init(FixedLen(7), i, Array::try_copy(&[1, 2, 3]).unwrap()));
                let r = t.refs();
                same(r.1, "tuple component");
                check!(r.0 .0 == 7 && r.2[..] == [1, 2, 3], "neighbouring components changed");
            }
            _ => {
                let b = VBox::new(i);
                same(&b, "VBox");
                let b = VBox::new(b);
                same(&b, "moved VBox");
                unalign(&bump);
                let o = Owned::new_in(b, &bump);
                same(&o, "Owned made from a VBox");
                let b = VBox::new(o);
                same(&b, "VBox made from an Owned");
            }
        }
    }
    for t in seq.iter().take(n + 1).chain(ixs.iter().take(n + 1)) {
        check!(t.view() == *v, "Seq element changed");
    }
}

pub fn cost<T: Modeled>(caps: &Caps<T>, v: &V, s: &mut Src) {
    let d = T::desc();
    let heap = d.heap();
    let size = d.lay(v).size;
    let i = T::init(v, s);
    let c0 = counts();
    let b = VBox::new(i);
    let c = counts().since(c0);
    if !heap {
        let want = (size > 0) as u64;
        check!(c.allocs == want, "building a VBox of {size} bytes made {} allocations", c.allocs);
        check!(c.reallocs == 0, "building a VBox made {} reallocations", c.reallocs);
        if size > 0 {
            check!(
                last_request() == (size, T::ALIGN),
                "VBox requested (size, align) {:?}, expected {:?}",
                last_request(),
                (size, T::ALIGN)
            );
        }
        if let Some(clone) = caps.bclone {
            let c0 = counts();
            let copy = clone(&b);
            let c = counts().since(c0);
            check!((c.allocs, c.reallocs, c.frees) == (want, 0, 0), "cloning a VBox of {size} bytes made {:?}", c);
            check!(size == 0 || last_request() == (size, T::ALIGN), "cloning a VBox requested {:?}", last_request());
            let c0 = counts();
            drop(copy);
            let c = counts().since(c0);
            check!((c.allocs, c.reallocs, c.frees) == (0, 0, want), "dropping a VBox of {size} bytes made {:?}", c);
        }
        let c0 = counts();
        let i = T::init(v, s);
        let pre = counts().since(c0).allocs;
        let c0 = counts();
        let mut q: Seq<T> = Seq::new();
        check!(counts() == c0, "Seq::new allocates");
        let ix: IndexableSeq<T> = Seq::new_indexable();
        check!(counts() == c0, "Seq::new allocates");
        drop(ix);
        check!(counts() == c0, "dropping an empty Seq frees something");
        q.push(i);
        let c = counts().since(c0);
        check!(c.allocs == 1 && c.reallocs == 0, "the first push made {:?}", c);
        let _ = pre;
        // Moving out of a box costs no allocation and one deallocation.
        let cap = q.capacity_in_offsets();
        let c0 = counts();
        q.push(b);
        let c = counts().since(c0);
        let grown = (q.capacity_in_offsets() != cap) as u64;
        check!(c.allocs + c.reallocs <= grown, "moving a box into a Seq made {:?}", c);
        check!(c.frees <= (size > 0) as u64 + grown, "moving a box into a Seq made {:?}", c);
        let c0 = counts();
        // Reads cost nothing.
        let n = q.iter().map(|t| t.calculate_layout().size()).sum::<usize>();
        check!(n == 2 * size && q.iter().len() == 2, "harness: sizes");
        check!(counts() == c0, "iteration allocates");
    }
    grow::<T, _>(Seq::<T>::new_minimal(), false, v, s);
    grow::<T, _>(Seq::<T, varlen::seq::CheckedIndexing>::new_indexable(), true, v, s);
}

fn grow<T: Modeled, X: varlen::seq::Indexing>(mut q: Seq<T, X>, indexable: bool, v: &V, s: &mut Src) {
    let d = T::desc();
    let heap = d.heap();
    let units = d.units(v);
    let n = if cfg!(miri) { 1 + s.idx(6) } else { (1 + s.idx(300)).min(1 + 40_000 / (units * T::ALIGN + v_weight(v))) };
    let mut grows = 0u64;
    let mut cap = 0;
    if s.chance(1, 3) {
        // A few at a time.
        let chunk = 1 + s.idx(4);
        let (mut k, mut calls, mut total) = (0, 0, 0);
        while k < n {
            let m = chunk.min(n - k);
            let inits: Vec<_> = (0..m).map(|_| T::init(v, s)).collect();
            let c0 = counts();
            q.extend(inits);
            let c = counts().since(c0);
            calls += c.allocs + c.reallocs;
            let ncap = q.capacity_in_offsets();
            check!(ncap >= cap, "capacity shrank from {cap} to {ncap}");
            grows += (ncap != cap) as u64;
            check!(heap || c.allocs + c.reallocs == 0 || ncap != cap, "extending by {m} made {:?} at capacity {cap}", c);
            cap = ncap;
            k += m;
            total += m * units;
            check!(q.offset() == total, "offset() is {}, expected {total}", q.offset());
        }
        let bound = 4 + 2 * (usize::BITS - total.leading_zeros()) as u64;
        check!(grows <= bound, "extending to {total} units, {chunk} elements at a time, grew the sequence {grows} times");
        check!(heap || calls <= bound, "extending to {total} units, {chunk} elements at a time, made {calls} requests for memory");
        check!(cap * T::ALIGN <= 4 * total * T::ALIGN + 64 + 2 * chunk * units * T::ALIGN, "capacity {cap} for {total} units");
        return;
    }
    for k in 0..n {
        let i = T::init(v, s);
        let c0 = counts();
        q.push(i);
        let c = counts().since(c0);
        let ncap = q.capacity_in_offsets();
        check!(ncap >= cap, "capacity shrank from {cap} to {ncap}");
        if ncap != cap {
            grows += 1;
        }
        if !heap {
            check!(c.allocs + c.reallocs <= (ncap != cap) as u64, "push number {k} made {:?} at capacity {cap} -> {ncap}", c);
            if ncap != cap {
                let (size, align) = last_request();
                let min = ncap * T::ALIGN;
                let max = min + if indexable { (ncap + 7) / 8 } else { 0 };
                check!(align == T::ALIGN, "Seq requested alignment {align}, expected {}", T::ALIGN);
                check!(size >= min && size <= max, "Seq of capacity {ncap} requested {size} bytes, expected {min} to {max}");
            }
        }
        cap = ncap;
    }
    let total = units * n;
    check!(q.offset() == total, "offset() is {}, expected {total}", q.offset());
    let bound = 4 + 2 * (usize::BITS - total.leading_zeros()) as u64;
    check!(grows <= bound, "{n} pushes of {units} units grew the sequence {grows} times");
    check!(cap * T::ALIGN <= 4 * total * T::ALIGN + 64 + T::ALIGN, "capacity {cap} for {total} units");
    // Draining keeps the storage, and reuses it.
    let c0 = counts();
    let d = q.take_elems();
    check!(d.len() == n, "drain of {} elements, expected {n}", d.len());
    drop(d);
    check!(q.capacity_in_offsets() == cap, "capacity changed from {cap} to {} by draining", q.capacity_in_offsets());
    if !heap {
        check!(counts() == c0, "draining changes the storage");
        let i = T::init(v, s);
        let c0 = counts();
        q.push(i);
        let c = counts().since(c0);
        check!(c.allocs + c.reallocs == 0, "pushing into a drained sequence allocates");
    }
}

fn v_weight(v: &V) -> usize {
    match v {
        V::N(_) => 4,
        V::S(s) => 4 + s.len(),
        V::L(l) => 8 + l.iter().map(v_weight).sum::<usize>(),
    }
}

pub fn clone<T: Modeled>(caps: &Caps<T>, v: &V, s: &mut Src) {
    let (vclone, bclone) = match (caps.vclone, caps.bclone) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    let d = T::desc();
    let n = d.ticks(v) as u64;
    let mut v = v.clone();
    let mut orig = VBox::new(T::init_nested(&v, s));
    let copy = match caps.vcopy {
        Some(c) if s.chance(1, 2) => Some(c),
        _ => None,
    };
    let (c0, m0, d0) = (reg().clones, reg().makes + reg().defaults + reg().nexts, reg().drops);
    let bump = bumpalo::Bump::new();
    let f = copy.unwrap_or(vclone);
    let mut seq: IndexableSeq<T> = Seq::new();
    let mut holder: Option<VBox<T>> = None;
    let mut owned: Option<Owned<T>> = None;
    let mut tup: Option<VBox<Tup2<FixedLen<u16>, T>>> = None;
    let which = s.below(5);
    match which {
        0 => holder = Some(VBox::new(f(&orig))),
        1 => holder = Some(if copy.is_some() { VBox::new(f(&orig)) } else { bclone(&orig) }),
        2 => seq.push(f(&orig)),
        3 => owned = Some(Owned::new_in(f(&orig), &bump)),
        _ => tup = Some(VBox::new(tup2::Init(FixedLen(9), f(&orig)))),
    }
    let calls = reg().clones - c0;
    let want = if copy.is_some() { 0 } else { n };
    check!(calls == want, "cloning made {calls} component clones, expected {want}");
    check!(reg().makes + reg().defaults + reg().nexts == m0, "cloning calls other callbacks");
    check!(reg().drops == d0, "cloning drops components");
    // A macro because the holders have different types.
    macro_rules! with {
        ($x:ident, $b:expr) => {
            match which {
                0 | 1 => {
                    let $x = holder.as_mut().unwrap().as_mut();
                    $b
                }
                2 => {
                    let $x = seq.from_offset_mut(0);
                    $b
                }
                3 => {
                    let $x = owned.as_mut().unwrap().as_mut();
                    $b
                }
                _ => {
                    let $x = tup.as_mut().unwrap().as_mut().muts().1;
                    $b
                }
            }
        };
    }
    let mut cv = v.clone();
    let ov = orig.view();
    check!(ov == v, "cloning changed the original to {}", ov.show());
    with!(x, {
        let w = x.view();
        check!(w == cv, "clone reads {}, original {}", w.show(), cv.show());
        check!(x.calculate_layout().size() == orig.calculate_layout().size(), "clone has another size");
        let (mut a, mut b) = (Vec::new(), Vec::new());
        x.extents(&mut a);
        orig.extents(&mut b);
        for (a, b) in a.iter().zip(&b) {
            check!(a.1 == b.1, "component sizes differ");
            check!(a.1 == 0 || a.0 + a.1 <= b.0 || b.0 + b.1 <= a.0, "clone shares storage with the original");
        }
    });
    for _ in 0..1 + s.below(4) {
        match s.below(3) {
            0 => orig.as_mut().mutate(&mut v, s),
            1 => with!(x, x.mutate(&mut cv, s)),
            _ => {
                // A clone of the clone.
                let t = with!(x, VBox::new(vclone(&*x)));
                let w = t.view();
                check!(w == cv, "clone of the clone reads {}, expected {}", w.show(), cv.show());
            }
        }
        let ov = orig.view();
        check!(ov == v, "original reads {}, expected {}", ov.show(), v.show());
        ov.observe();
        with!(x, {
            let w = x.view();
            check!(w == cv, "clone reads {}, expected {}", w.show(), cv.show());
        });
    }
    if s.chance(1, 2) {
        drop(orig);
        with!(x, {
            let w = x.view();
            check!(w == cv, "clone reads {} after dropping the original, expected {}", w.show(), cv.show());
        });
    } else {
        drop((holder, seq, owned, tup));
        let ov = orig.view();
        check!(ov == v, "original reads {} after dropping the clone, expected {}", ov.show(), v.show());
        return;
    }
    let _ = NonNull::from(&v);
}
