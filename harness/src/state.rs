//! The containers of one case, for one type of element, behind a type-erased interface.

use crate::modeled::*;
use crate::src::Src;
use crate::value::*;
use bumpalo::Bump;
use core::pin::Pin;
use core::ptr::NonNull;
use std::panic::{catch_unwind, AssertUnwindSafe};
use varlen::prelude::*;
use varlen::seq::IndexableSeq;
use varlen::Layout;

/// Where an object is.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loc {
    Seq(usize, usize),
    Box(usize),
    Owned(usize),
}

/// What to do with the elements of a drain.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Drain {
    /// Take `n` one by one and drop each; then drop the rest with the drain.
    Drop(usize),
    /// Collect `n`, drop the drain, then drop the collected ones.
    Hold(usize),
    /// Move `n` to the end of another sequence; drop the rest.
    Move(usize, usize),
    /// Move `n` into boxes; drop the rest.
    Boxes(usize),
    /// Take `n`, then forget the drain.
    Forget(usize),
    /// Leak `n` (use them, and reclaim them at the end), drop the rest.
    Leak(usize),
    /// Move `n` to the arena.
    Arena(usize),
}

pub trait Ops {
    fn len(&self, w: usize) -> usize;
    fn offset(&self, w: usize) -> usize;
    fn capacity(&self, w: usize) -> usize;
    fn align(&self) -> usize;
    fn push(&mut self, w: usize, v: &V, s: &mut Src);
    fn push_move(&mut self, w: usize, from: Loc);
    fn push_clone(&mut self, w: usize, from: Loc, copy: bool);
    fn extend(&mut self, w: usize, vs: &[V], s: &mut Src);
    fn collect(&mut self, w: usize, vs: &[V], s: &mut Src);
    fn reset(&mut self, w: usize);
    /// The elements by shared iteration. At most `cap` of them.
    fn views(&self, w: usize, cap: usize) -> Vec<V>;
    fn views_mut(&mut self, w: usize, cap: usize) -> Vec<V>;
    fn view(&self, at: Loc) -> V;
    fn mutate(&mut self, at: Loc, v: &mut V, s: &mut Src);
    fn mutate_all(&mut self, w: usize, vs: &mut [V], s: &mut Src);
    fn drain(&mut self, w: usize, how: Drain, expect: &[V], s: &mut Src);
    fn address(&self, at: Loc) -> usize;
    fn size(&self, at: Loc) -> usize;
    fn extents(&self, at: Loc) -> Vec<(usize, usize)>;
    fn header_extents(&self, at: Loc) -> Vec<(usize, usize, usize)>;
    fn header_size(&self) -> usize;
    fn offset_of(&self, w: usize, at: Loc) -> usize;
    fn is_valid(&self, w: usize, o: usize) -> bool;
    fn from_offset(&self, w: usize, o: usize) -> (usize, V);
    fn from_offset_mut(&mut self, w: usize, o: usize) -> (usize, V);
    fn from_offset_unchecked(&mut self, w: usize, o: usize) -> (usize, usize);
    fn mutate_at_offset(&mut self, w: usize, o: usize, v: &mut V, s: &mut Src);
    fn new_box(&mut self, v: &V, s: &mut Src);
    fn new_owned(&mut self, v: &V, s: &mut Src);
    fn box_of(&mut self, from: Loc, copy: bool);
    fn owned_of(&mut self, from: Loc, copy: bool);
    fn box_move(&mut self, from: Loc);
    fn owned_move(&mut self, from: Loc);
    fn clone_box(&mut self, i: usize);
    fn drop_at(&mut self, from: Loc);
    fn raw_round_trip(&mut self, at: Loc);
    fn leak_owned(&mut self, i: usize);
    fn leaked_view(&self, i: usize) -> V;
    fn leaked_mutate(&mut self, i: usize, v: &mut V, s: &mut Src);
    fn can_clone(&self) -> bool;
    fn can_copy(&self) -> bool;
    fn iterate(&mut self, w: usize, vs: &mut Vec<V>, s: &mut Src, log: &mut Vec<String>);
    fn swap_seqs(&mut self);
    /// Runs the checks that only apply to the type, not to a history.
    fn probe(&self, which: Probe, v: &V, s: &mut Src);
    /// Number of boxes, owned values, leaked values.
    fn pools(&self) -> (usize, usize, usize);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Probe {
    Layout,
    Cost,
    Clone,
    Init,
    AllocFail,
}

pub struct State<T: Modeled> {
    pub s0: Seq<T>,
    pub s1: IndexableSeq<T>,
    pub s2: IndexableSeq<T>,
    pub boxes: Vec<VBox<T>>,
    pub owned: Vec<Owned<'static, T>>,
    pub leaked: Vec<Pin<&'static mut T>>,
    pub bump: *mut Bump,
    pub caps: Caps<T>,
}

macro_rules! sq {
    ($s:expr, $w:expr, |$x:ident| $b:expr) => {
        match $w {
            0 => {
                let $x = &$s.s0;
                $b
            }
            1 => {
                let $x = &$s.s1;
                $b
            }
            _ => {
                let $x = &$s.s2;
                $b
            }
        }
    };
}
macro_rules! sqm {
    ($s:expr, $w:expr, |$x:ident| $b:expr) => {
        match $w {
            0 => {
                let $x = &mut $s.s0;
                $b
            }
            1 => {
                let $x = &mut $s.s1;
                $b
            }
            _ => {
                let $x = &mut $s.s2;
                $b
            }
        }
    };
}
/// Two different sequences.
macro_rules! sqm2 {
    ($s:expr, $w:expr, $w2:expr, |$x:ident, $y:ident| $b:expr) => {
        match ($w, $w2) {
            (0, 1) => {
                let ($x, $y) = (&mut $s.s0, &mut $s.s1);
                $b
            }
            (0, _) => {
                let ($x, $y) = (&mut $s.s0, &mut $s.s2);
                $b
            }
            (1, 0) => {
                let ($x, $y) = (&mut $s.s1, &mut $s.s0);
                $b
            }
            (1, _) => {
                let ($x, $y) = (&mut $s.s1, &mut $s.s2);
                $b
            }
            (_, 0) => {
                let ($x, $y) = (&mut $s.s2, &mut $s.s0);
                $b
            }
            (_, _) => {
                let ($x, $y) = (&mut $s.s2, &mut $s.s1);
                $b
            }
        }
    };
}
macro_rules! chk {
    ($s:expr, $w:expr, |$x:ident| $b:expr) => {
        match $w {
            1 => {
                let $x = &$s.s1;
                $b
            }
            2 => {
                let $x = &$s.s2;
                $b
            }
            _ => crate::fail!("harness: not an indexable sequence"),
        }
    };
}
macro_rules! chkm {
    ($s:expr, $w:expr, |$x:ident| $b:expr) => {
        match $w {
            1 => {
                let $x = &mut $s.s1;
                $b
            }
            2 => {
                let $x = &mut $s.s2;
                $b
            }
            _ => crate::fail!("harness: not an indexable sequence"),
        }
    };
}

impl<T: Modeled> State<T> {
    pub fn new(caps: Caps<T>) -> Self {
        State {
            s0: Seq::new(),
            s1: Seq::new_indexable(),
            s2: Seq::new(),
            boxes: Vec::new(),
            owned: Vec::new(),
            leaked: Vec::new(),
            bump: Box::into_raw(Box::new(Bump::new())),
            caps,
        }
    }
    /// The arena, at an address that isn't aligned.
    fn bump(&self) -> &'static Bump {
        let b = unsafe { &*self.bump };
        crate::probe::unalign(b);
        b
    }
    fn get(&self, at: Loc) -> &T {
        match at {
            Loc::Seq(w, i) => match sq!(self, w, |x| x.iter().nth(i)) {
                Some(t) => t,
                None => crate::fail!("no element {i} in sequence"),
            },
            Loc::Box(i) => &self.boxes[i],
            Loc::Owned(i) => &self.owned[i],
        }
    }
    fn with_mut<R>(&mut self, at: Loc, f: impl FnOnce(Pin<&mut T>) -> R) -> R {
        match at {
            Loc::Seq(w, i) => match sqm!(self, w, |x| x.iter_mut().nth(i)) {
                Some(t) => f(t),
                None => crate::fail!("no element {i} in sequence"),
            },
            Loc::Box(i) => f(self.boxes[i].as_mut()),
            Loc::Owned(i) => f(self.owned[i].as_mut()),
        }
    }
    fn cloner(&self, from: Loc, copy: bool) -> BoxInit<'_, T> {
        let f = if copy { self.caps.vcopy } else { self.caps.vclone };
        f.unwrap()(self.get(from))
    }
}

impl<T: Modeled> Drop for State<T> {
    fn drop(&mut self) {
        // Reclaim what was leaked on purpose.
        for p in self.leaked.drain(..) {
            unsafe { drop(Owned::from_raw(NonNull::from(Pin::into_inner_unchecked(p)))) };
        }
        self.owned.clear();
        unsafe { drop(Box::from_raw(self.bump)) };
    }
}

/// A drain must give exactly these elements.
fn expect_elem<'a, T: Modeled>(o: Option<Owned<'a, T>>, i: usize, expect: &[V]) -> Option<Owned<'a, T>> {
    match (&o, expect.get(i)) {
        (Some(o), Some(v)) => {
            let w = o.view();
            crate::check!(w == *v, "drained element {i} is {}, expected {}", w.show(), v.show());
        }
        (None, None) => {}
        (Some(_), None) => crate::fail!("drain yields more than the {} elements", expect.len()),
        (None, Some(_)) => crate::fail!("drain ends after {i} of {} elements", expect.len()),
    }
    o
}

impl<T: Modeled> Ops for State<T> {
    fn len(&self, w: usize) -> usize {
        sq!(self, w, |x| x.len())
    }
    fn offset(&self, w: usize) -> usize {
        sq!(self, w, |x| x.offset())
    }
    fn capacity(&self, w: usize) -> usize {
        sq!(self, w, |x| x.capacity_in_offsets())
    }
    fn align(&self) -> usize {
        T::ALIGN
    }
    fn push(&mut self, w: usize, v: &V, s: &mut Src) {
        let i = T::init_nested(v, s);
        sqm!(self, w, |x| x.push(i))
    }
    fn push_move(&mut self, w: usize, from: Loc) {
        match from {
            Loc::Box(i) => {
                let b = self.boxes.swap_remove(i);
                sqm!(self, w, |x| x.push(b))
            }
            Loc::Owned(i) => {
                let b = self.owned.swap_remove(i);
                sqm!(self, w, |x| x.push(b))
            }
            Loc::Seq(..) => crate::fail!("harness: move of a sequence element"),
        }
    }
    fn push_clone(&mut self, w: usize, from: Loc, copy: bool) {
        let f = if copy { self.caps.vcopy } else { self.caps.vclone }.unwrap();
        match from {
            Loc::Seq(w2, i) => {
                crate::check!(w2 != w, "harness: same sequence");
                sqm2!(self, w, w2, |x, y| {
                    let t = y.iter().nth(i).unwrap_or_else(|| crate::fail!("no element {i} in sequence"));
                    x.push(f(t))
                })
            }
            Loc::Box(i) => {
                let t = &self.boxes[i];
                sqm!(self, w, |x| x.push(f(t)))
            }
            Loc::Owned(i) => {
                let t = &self.owned[i];
                sqm!(self, w, |x| x.push(f(t)))
            }
        }
    }
    fn extend(&mut self, w: usize, vs: &[V], s: &mut Src) {
        let it = Feed::<T>::new(vs, s);
        sqm!(self, w, |x| x.extend(it))
    }
    fn collect(&mut self, w: usize, vs: &[V], s: &mut Src) {
        let it = Feed::<T>::new(vs, s);
        match w {
            0 => self.s0 = it.collect(),
            1 => self.s1 = it.collect(),
            _ => self.s2 = it.collect(),
        }
    }
    fn reset(&mut self, w: usize) {
        match w {
            0 => self.s0 = Seq::new_minimal(),
            1 => self.s1 = Seq::new_indexable(),
            _ => self.s2 = Seq::new(),
        }
    }
    fn views(&self, w: usize, cap: usize) -> Vec<V> {
        sq!(self, w, |x| x.iter().take(cap).map(|t| t.view()).collect())
    }
    fn views_mut(&mut self, w: usize, cap: usize) -> Vec<V> {
        sqm!(self, w, |x| x.iter_mut().take(cap).map(|t| t.view()).collect())
    }
    fn view(&self, at: Loc) -> V {
        self.get(at).view()
    }
    fn mutate(&mut self, at: Loc, v: &mut V, s: &mut Src) {
        self.with_mut(at, |t| t.mutate(v, s))
    }
    fn mutate_all(&mut self, w: usize, vs: &mut [V], s: &mut Src) {
        sqm!(self, w, |x| {
            // Hold all the mutable references at the same time.
            let all: Vec<Pin<&mut T>> = x.iter_mut().take(vs.len() + 1).collect();
            crate::check!(all.len() == vs.len(), "iter_mut yields {} elements, expected {}", all.len(), vs.len());
            for (t, v) in all.into_iter().zip(vs.iter_mut()) {
                t.mutate(v, s);
            }
        })
    }
    fn drain(&mut self, w: usize, how: Drain, ex: &[V], s: &mut Src) {
        let cap = ex.len() + 1;
        match how {
            Drain::Drop(n) => sqm!(self, w, |x| {
                let mut d = x.take_elems();
                for i in 0..n.min(cap) {
                    drop(expect_elem(d.next(), i, ex));
                }
            }),
            Drain::Hold(n) => sqm!(self, w, |x| {
                let mut d = x.take_elems();
                let held: Vec<_> = (0..n.min(cap)).map(|i| expect_elem(d.next(), i, ex)).collect();
                drop(d);
                for (i, o) in held.iter().enumerate() {
                    if let Some(o) = o {
                        let v = o.view();
                        crate::check!(v == ex[i], "drained element {i} changed to {}", v.show());
                    }
                }
                drop(held);
            }),
            Drain::Move(n, to) => sqm2!(self, w, to, |x, y| {
                let mut d = x.take_elems();
                for i in 0..n.min(cap) {
                    if let Some(o) = expect_elem(d.next(), i, ex) {
                        y.push(o);
                    }
                }
            }),
            Drain::Boxes(n) => {
                let boxes = &mut self.boxes;
                sqm!(self, w, |x| {
                    let mut d = x.take_elems();
                    for i in 0..n.min(cap) {
                        if let Some(o) = expect_elem(d.next(), i, ex) {
                            boxes.push(VBox::new(o));
                        }
                    }
                })
            }
            Drain::Arena(n) => {
                let b = unsafe { &*self.bump };
                let owned = &mut self.owned;
                sqm!(self, w, |x| {
                    let mut d = x.take_elems();
                    for i in 0..n.min(cap) {
                        if let Some(o) = expect_elem(d.next(), i, ex) {
                            owned.push(Owned::new_in(o, b));
                        }
                    }
                })
            }
            Drain::Forget(n) => sqm!(self, w, |x| {
                let mut d = x.take_elems();
                for i in 0..n.min(cap) {
                    drop(expect_elem(d.next(), i, ex));
                }
                // Forgotten elements are leaked; remember them, so as to reclaim them.
                let rest: Vec<NonNull<T>> = Vec::new();
                let mut rest = rest;
                let mut e = core::mem::ManuallyDrop::new(d);
                for i in n.min(cap)..cap {
                    if let Some(o) = expect_elem(e.next(), i, ex) {
                        rest.push(unsafe { o.into_raw() });
                    }
                }
                for p in rest {
                    unsafe { drop(Owned::from_raw(p)) };
                }
            }),
            Drain::Leak(n) => sqm!(self, w, |x| {
                let mut d = x.take_elems();
                let mut l = Vec::new();
                for i in 0..n.min(cap) {
                    if let Some(o) = expect_elem(d.next(), i, ex) {
                        l.push((o.leak(), ex[i].clone()));
                    }
                }
                drop(d);
                for (i, (p, v)) in l.iter_mut().enumerate() {
                    let w = p.view();
                    crate::check!(w == *v, "leaked element {i} is {}, expected {}", w.show(), v.show());
                    p.as_mut().mutate(v, s);
                    let w = p.view();
                    crate::check!(w == *v, "leaked element {i} is {} after mutation, expected {}", w.show(), v.show());
                }
                for (i, (p, v)) in l.iter().enumerate() {
                    let w = p.view();
                    crate::check!(w == *v, "leaked element {i} changed to {}", w.show());
                }
                for (p, _) in l {
                    unsafe { drop(Owned::from_raw(NonNull::from(Pin::into_inner_unchecked(p)))) };
                }
            }),
        }
    }
    fn address(&self, at: Loc) -> usize {
        self.get(at) as *const T as usize
    }
    fn size(&self, at: Loc) -> usize {
        self.get(at).calculate_layout().size()
    }
    fn extents(&self, at: Loc) -> Vec<(usize, usize)> {
        let mut r = Vec::new();
        self.get(at).extents(&mut r);
        r
    }
    fn header_extents(&self, at: Loc) -> Vec<(usize, usize, usize)> {
        let mut r = Vec::new();
        self.get(at).header_extents(&mut r);
        r
    }
    fn header_size(&self) -> usize {
        core::mem::size_of::<T>()
    }
    fn offset_of(&self, w: usize, at: Loc) -> usize {
        let t = self.get(at);
        sq!(self, w, |x| x.offset_of(t))
    }
    fn is_valid(&self, w: usize, o: usize) -> bool {
        chk!(self, w, |x| x.is_offset_valid(o))
    }
    fn from_offset(&self, w: usize, o: usize) -> (usize, V) {
        let t = chk!(self, w, |x| x.from_offset(o));
        (t as *const T as usize, t.view())
    }
    fn from_offset_mut(&mut self, w: usize, o: usize) -> (usize, V) {
        let t = chkm!(self, w, |x| x.from_offset_mut(o));
        (&*t as *const T as usize, t.view())
    }
    fn from_offset_unchecked(&mut self, w: usize, o: usize) -> (usize, usize) {
        sqm!(self, w, |x| unsafe {
            let a = x.from_offset_unchecked(o) as *const T as usize;
            let b = &*x.from_offset_unchecked_mut(o) as *const T as usize;
            (a, b)
        })
    }
    fn mutate_at_offset(&mut self, w: usize, o: usize, v: &mut V, s: &mut Src) {
        chkm!(self, w, |x| x.from_offset_mut(o)).mutate(v, s)
    }
    fn new_box(&mut self, v: &V, s: &mut Src) {
        let i = T::init_nested(v, s);
        let b = VBox::new(i);
        self.boxes.push(b);
    }
    fn new_owned(&mut self, v: &V, s: &mut Src) {
        let i = T::init_nested(v, s);
        let b = self.bump();
        let o = Owned::new_in(i, b);
        self.owned.push(o);
    }
    fn box_of(&mut self, from: Loc, copy: bool) {
        let b = VBox::new(self.cloner(from, copy));
        self.boxes.push(b);
    }
    fn owned_of(&mut self, from: Loc, copy: bool) {
        let b = self.bump();
        let o = Owned::new_in(self.cloner(from, copy), b);
        self.owned.push(o);
    }
    fn box_move(&mut self, from: Loc) {
        let b = match from {
            Loc::Box(i) => VBox::new(self.boxes.swap_remove(i)),
            Loc::Owned(i) => VBox::new(self.owned.swap_remove(i)),
            Loc::Seq(..) => crate::fail!("harness: move of a sequence element"),
        };
        self.boxes.push(b);
    }
    fn owned_move(&mut self, from: Loc) {
        let b = self.bump();
        let o = match from {
            Loc::Box(i) => Owned::new_in(self.boxes.swap_remove(i), b),
            Loc::Owned(i) => Owned::new_in(self.owned.swap_remove(i), b),
            Loc::Seq(..) => crate::fail!("harness: move of a sequence element"),
        };
        self.owned.push(o);
    }
    fn clone_box(&mut self, i: usize) {
        let b = (self.caps.bclone.unwrap())(&self.boxes[i]);
        self.boxes.push(b);
    }
    fn drop_at(&mut self, from: Loc) {
        match from {
            Loc::Box(i) => drop(self.boxes.swap_remove(i)),
            Loc::Owned(i) => drop(self.owned.swap_remove(i)),
            Loc::Seq(..) => crate::fail!("harness: drop of a sequence element"),
        }
    }
    fn raw_round_trip(&mut self, at: Loc) {
        unsafe {
            match at {
                Loc::Box(i) => {
                    let b = self.boxes.swap_remove(i);
                    let a = &*b as *const T as usize;
                    let p = b.into_raw();
                    crate::check!(p as usize == a, "VBox::into_raw gives another address");
                    let b = VBox::from_raw(p);
                    crate::check!(&*b as *const T as usize == a, "VBox::from_raw gives another address");
                    self.boxes.push(b);
                }
                Loc::Owned(i) => {
                    let b = self.owned.swap_remove(i);
                    let a = &*b as *const T as usize;
                    let p = b.into_raw();
                    crate::check!(p.as_ptr() as usize == a, "Owned::into_raw gives another address");
                    let b = Owned::from_raw(p);
                    crate::check!(&*b as *const T as usize == a, "Owned::from_raw gives another address");
                    self.owned.push(b);
                }
                Loc::Seq(..) => {}
            }
        }
    }
    fn leak_owned(&mut self, i: usize) {
        let o = self.owned.swap_remove(i);
        let a = &*o as *const T as usize;
        let p = o.leak();
        crate::check!(&*p as *const T as usize == a, "Owned::leak gives another address");
        self.leaked.push(p);
    }
    fn leaked_view(&self, i: usize) -> V {
        self.leaked[i].view()
    }
    fn leaked_mutate(&mut self, i: usize, v: &mut V, s: &mut Src) {
        self.leaked[i].as_mut().mutate(v, s)
    }
    fn can_clone(&self) -> bool {
        self.caps.vclone.is_some()
    }
    fn can_copy(&self) -> bool {
        self.caps.vcopy.is_some()
    }
    fn iterate(&mut self, w: usize, vs: &mut Vec<V>, s: &mut Src, log: &mut Vec<String>) {
        sqm!(self, w, |x| crate::iters::script::<T, _>(x, vs, s, log))
    }
    fn swap_seqs(&mut self) {
        core::mem::swap(&mut self.s1, &mut self.s2)
    }
    fn probe(&self, which: Probe, v: &V, s: &mut Src) {
        match which {
            Probe::Layout => crate::probe::layout::<T>(v, s),
            Probe::Cost => crate::probe::cost::<T>(&self.caps, v, s),
            Probe::Clone => crate::probe::clone::<T>(&self.caps, v, s),
            Probe::Init => crate::probe::init::<T>(v, s),
            Probe::AllocFail => crate::refusal::alloc_fail::<T>(&self.caps, v, s),
        }
    }
    fn pools(&self) -> (usize, usize, usize) {
        (self.boxes.len(), self.owned.len(), self.leaked.len())
    }
}

/// An iterator of initializers, with a size hint of some kind. Having ended, it may start again: what it
/// gives then is not part of the sequence.
struct Feed<'a, 'b, T> {
    vs: &'a [V],
    at: usize,
    again: usize,
    hint: (bool, bool),
    s: &'b mut Src,
    t: core::marker::PhantomData<T>,
}
impl<'a, 'b, T> Feed<'a, 'b, T> {
    fn new(vs: &'a [V], s: &'b mut Src) -> Self {
        let k = s.below(8);
        let hint = (k & 1 == 0, k & 2 == 0);
        Feed { vs, at: 0, again: if k & 4 == 0 { 0 } else { 3 }, hint, s, t: core::marker::PhantomData }
    }
}
impl<'a, 'b, T: Modeled> Iterator for Feed<'a, 'b, T> {
    type Item = BoxInit<'a, T>;
    fn next(&mut self) -> Option<BoxInit<'a, T>> {
        if self.at == self.vs.len() {
            if self.again > 0 {
                self.again -= 1;
                self.at = 0;
            }
            return None;
        }
        crate::track::tick(crate::track::NEXT);
        self.at += 1;
        Some(T::init(&self.vs[self.at - 1], self.s))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.vs.len() - self.at;
        (if self.hint.0 { n } else { 0 }, if self.hint.1 { Some(n) } else { None })
    }
}

/// Runs something that may panic; gives the payload if it did.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}

pub struct TypeInfo {
    pub name: &'static str,
    pub desc: fn() -> Desc,
    pub make: fn() -> Box<dyn Ops>,
    pub clone: bool,
    pub copy: bool,
}

macro_rules! table {
    ($($t:ty, $c:ident;)*) => {
        pub static TYPES: &[TypeInfo] = {
            use crate::elem::*;
            use crate::types::*;
            use crate::track::{Tr, TrZ};
            &[$( TypeInfo {
                name: stringify!($t),
                desc: <$t as Modeled>::desc,
                make: || Box::new(State::<$t>::new(Caps::$c())),
                clone: cap!($c clone),
                copy: cap!($c copy),
            } ),*]
        };
    };
}
macro_rules! cap {
    (none $x:ident) => { false };
    (clone clone) => { true };
    (clone copy) => { false };
    (copy $x:ident) => { true };
}
crate::for_types!(table);

static mut EXTRA: Option<&'static [TypeInfo]> = None;
/// Replaces the catalog (programs with generated struct definitions do).
pub fn set_types(t: Vec<TypeInfo>) {
    unsafe { EXTRA = Some(Vec::leak(t)) }
}
pub fn types() -> &'static [TypeInfo] {
    unsafe { EXTRA.unwrap_or(TYPES) }
}
#[macro_export]
macro_rules! type_info {
    ($t:ty) => {
        $crate::state::TypeInfo {
            name: stringify!($t),
            desc: <$t as $crate::modeled::Modeled>::desc,
            make: || Box::new($crate::state::State::<$t>::new($crate::modeled::Caps::none())),
            clone: false,
            copy: false,
        }
    };
}
