//! Scripts of iterator calls, compared with a model.

use crate::modeled::*;
use crate::src::Src;
use crate::value::V;
use core::pin::Pin;
use varlen::prelude::*;
use varlen::seq::{Indexing, Iter, IterMut, OwnedElems};

/// What the three iterators have in common.
trait It: ExactSizeIterator + Sized {
    fn view(i: &Self::Item) -> V;
    fn place(i: &Self::Item) -> usize;
    fn change(i: Self::Item, v: &mut V, s: &mut Src) -> bool;
    /// Some(itself limited to n), if it can be.
    fn limited(self, n: usize) -> Result<Self, Self>;
}
impl<'a, T: Modeled> It for Iter<'a, T> {
    fn view(i: &&'a T) -> V {
        i.view()
    }
    fn place(i: &&'a T) -> usize {
        *i as *const T as usize
    }
    fn change(_: &'a T, _: &mut V, _: &mut Src) -> bool {
        false
    }
    fn limited(self, n: usize) -> Result<Self, Self> {
        Ok(self.limited_to(n))
    }
}
impl<'a, T: Modeled> It for IterMut<'a, T> {
    fn view(i: &Pin<&'a mut T>) -> V {
        i.view()
    }
    fn place(i: &Pin<&'a mut T>) -> usize {
        &**i as *const T as usize
    }
    fn change(i: Pin<&'a mut T>, v: &mut V, s: &mut Src) -> bool {
        i.mutate(v, s);
        true
    }
    fn limited(self, n: usize) -> Result<Self, Self> {
        Ok(self.limited_to(n))
    }
}
impl<'a, T: Modeled> It for OwnedElems<'a, T> {
    fn view(i: &Owned<'a, T>) -> V {
        i.view()
    }
    fn place(i: &Owned<'a, T>) -> usize {
        &**i as *const T as usize
    }
    fn change(mut i: Owned<'a, T>, v: &mut V, s: &mut Src) -> bool {
        i.as_mut().mutate(v, s);
        true
    }
    fn limited(self, _: usize) -> Result<Self, Self> {
        Err(self)
    }
}

/// `vs` are the elements still to come when starting, `ps` where they are; `s` chooses the calls.
fn run<I: It>(mut it: I, vs: &mut [V], ps: &[usize], s: &mut Src, log: &mut Vec<String>) {
    let (mut at, mut end) = (0, vs.len());
    let steps = 1 + s.below(10);
    // Where an element is tells it from others of the same value.
    let same = |x: &I::Item, k: usize, v: &V, what: &str| {
        crate::check!(I::place(x) == ps[k], "{what} yields what is at {:#x}, expected element {k}, which is at {:#x}", I::place(x), ps[k]);
        let x = I::view(x);
        crate::check!(x == *v, "{what} yields {}, expected {}", x.show(), v.show());
    };
    let expect = |x: Option<&I::Item>, k: usize, vs: &[V], what: &str| match (x, vs.get(k)) {
        (None, None) => {}
        (Some(x), Some(w)) => same(x, k, w, what),
        (Some(x), None) => crate::fail!("{what} yields {} after the end", I::view(x).show()),
        (None, Some(_)) => crate::fail!("{what} ends too early"),
    };
    for _ in 0..steps {
        let left = end - at;
        crate::check!(it.len() == left, "len() is {}, {left} elements remain", it.len());
        crate::check!(it.size_hint() == (left, Some(left)), "size_hint() is {:?}, {left} elements remain", it.size_hint());
        match s.below(12) {
            0..=3 => {
                log.push("next".into());
                let x = it.next();
                expect(x.as_ref(), at, &vs[..end], "next()");
                if let Some(x) = x {
                    if s.chance(1, 3) {
                        I::change(x, &mut vs[at], s);
                    }
                    at += 1;
                }
            }
            4 => {
                let n = match s.below(6) {
                    0 => 0,
                    1 => left,
                    2 => left + 1,
                    3 => usize::MAX,
                    _ => s.idx(left + 2),
                };
                log.push(format!("limited_to {n}"));
                it = match it.limited(n) {
                    Ok(i) => {
                        end = at + left.min(n);
                        i
                    }
                    Err(i) => i,
                };
            }
            5 => {
                let n = s.idx(left + 2);
                log.push(format!("nth {n}"));
                let x = it.nth(n);
                expect(x.as_ref(), at + n, &vs[..end], "nth()");
                at = (at + n + 1).min(end);
            }
            6 => {
                let n = s.idx(left + 2);
                log.push(format!("by_ref().take {n}"));
                let got: Vec<(usize, V)> = it.by_ref().take(n).map(|x| (I::place(&x), I::view(&x))).collect();
                let to = end.min(at + n);
                let want = ps[at..to].iter().zip(&vs[at..to]);
                crate::check!(
                    got.len() == to - at && got.iter().zip(want).all(|((p, v), (q, w))| p == q && v == w),
                    "by_ref().take({n}) yields {} elements, or others, of {left}",
                    got.len()
                );
                at = to;
            }
            7 => {
                log.push("count".into());
                let c = it.count();
                crate::check!(c == left, "count() is {c}, {left} elements remain");
                return;
            }
            8 => {
                log.push("fold".into());
                let mut n = 0;
                it.for_each(|x| {
                    crate::check!(n < left, "for_each yields more than the {left} elements");
                    same(&x, at + n, &vs[at + n], "for_each");
                    n += 1;
                });
                crate::check!(n == left, "for_each yields {n} of {left} elements");
                return;
            }
            9 => {
                log.push("last".into());
                let x = it.last();
                expect(x.as_ref(), if at < end { end - 1 } else { end }, &vs[..end], "last()");
                return;
            }
            10 => {
                let (k, st) = (s.idx(3), 1 + s.idx(3));
                log.push(format!("skip {k} step_by {st}"));
                let it = it.skip(k).step_by(st);
                let want: Vec<(usize, &V)> = (at..end).skip(k).step_by(st).map(|k| (ps[k], &vs[k])).collect();
                crate::check!(it.len() == want.len(), "skip({k}).step_by({st}) has len {}, expected {}", it.len(), want.len());
                let got: Vec<(usize, V)> = it.take(left + 1).map(|x| (I::place(&x), I::view(&x))).collect();
                crate::check!(got.iter().map(|(p, v)| (*p, v)).collect::<Vec<_>>() == want, "skip({k}).step_by({st}) yields wrong elements");
                return;
            }
            _ => {
                log.push("collect, change all".into());
                let all: Vec<I::Item> = it.by_ref().take(left + 1).collect();
                crate::check!(all.len() == left, "collect yields {} of {left} elements", all.len());
                for (k, (x, v)) in all.into_iter().zip(&mut vs[at..end]).enumerate() {
                    same(&x, at + k, v, "collect");
                    I::change(x, v, s);
                }
                at = end;
            }
        }
        if at == end {
            for _ in 0..3 {
                crate::check!(it.next().is_none(), "next() after the end yields an element");
                crate::check!(it.len() == 0, "len() after the end is {}", it.len());
            }
        }
    }
}

pub fn script<T: Modeled, X: Indexing>(x: &mut Seq<T, X>, vs: &mut Vec<V>, s: &mut Src, log: &mut Vec<String>) {
    let ps: Vec<usize> = x.iter().map(|t| t as *const T as usize).collect();
    crate::check!(ps.len() == vs.len(), "iter() yields {} elements of {}", ps.len(), vs.len());
    match s.below(3) {
        0 => {
            log.push("iter".into());
            // A limited iterator is independent of the one it was made from.
            if s.chance(1, 3) {
                let mut a = x.iter();
                let k = s.idx(vs.len() + 1);
                for _ in 0..k {
                    a.next();
                }
                let n = s.idx(vs.len() + 2);
                let b = a.limited_to(n);
                log.push(format!("after {k}: limited_to {n}, both used"));
                let rest = &mut vs[k..];
                run(b, &mut rest[..n.min(rest.len())].to_vec(), &ps[k..], s, log);
                run(a, &mut vs[k..].to_vec(), &ps[k..], s, log);
            } else {
                run(x.iter(), vs, &ps, s, log)
            }
        }
        1 => {
            log.push("iter_mut".into());
            run(x.iter_mut(), vs, &ps, s, log)
        }
        _ => {
            log.push("take_elems".into());
            let mut mine = vs.clone();
            vs.clear();
            run(x.take_elems(), &mut mine, &ps, s, log);
        }
    }
    crate::check!(x.len() == vs.len(), "sequence has {} elements afterwards, expected {}", x.len(), vs.len());
}
