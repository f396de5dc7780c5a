//! Histories over the containers of one case, compared with models after every step.

use crate::alloc::quiet;
use crate::src::Src;
use crate::state::*;
use crate::track::{arm, disarm, obs, reg, Injected, ANY, CLONE, DEFAULT, DROP, MAKE, NEXT};
use crate::value::*;

pub const CONTENT: u32 = 1; // C02
pub const VALID: u32 = 2; // C03
pub const PACK: u32 = 4; // C04
pub const DROPS: u32 = 8; // C05
pub const BOXES: u32 = 16; // boxes and owned values
pub const ALIGN: u32 = 32; // alignment of all objects
pub const PLACE: u32 = 64; // size and placement of all objects (C10)
pub const MEM: u32 = 128; // memory errors seen by the allocator
pub const ALL: u32 = 255;

pub const NOPS: usize = 20;
pub type Weights = [u32; NOPS];
//                            push pmov pcln extd coll rset mut1 mutA drain box own clon move bcln drop raw  leak lmut iter swap
pub const W_ALL: Weights = [12, 3, 3, 3, 2, 1, 4, 2, 5, 3, 2, 2, 2, 2, 3, 1, 1, 1, 2, 1];
pub const W_SEQ: Weights = [16, 2, 3, 4, 2, 1, 4, 2, 6, 1, 1, 0, 0, 0, 0, 0, 0, 0, 3, 1];
pub const W_MUT: Weights = [10, 1, 1, 3, 1, 0, 12, 6, 1, 3, 3, 1, 1, 0, 1, 0, 1, 2, 2, 0];
pub const W_OWN: Weights = [6, 5, 2, 2, 0, 0, 3, 0, 8, 4, 6, 3, 6, 1, 4, 4, 4, 4, 1, 1];
//                              push pmov pcln extd coll rset mut1 mutA drain box own clon move bcln drop raw  leak lmut iter swap
pub const W_CLONE: Weights = [6, 1, 8, 0, 0, 0, 10, 0, 2, 3, 3, 8, 2, 6, 4, 0, 0, 0, 0, 1];
pub const W_FAULT: Weights = [14, 2, 4, 5, 3, 0, 5, 0, 6, 4, 4, 4, 1, 3, 4, 0, 0, 0, 0, 1];

pub struct World {
    pub ops: Box<dyn Ops>,
    pub desc: Desc,
    pub m: [Vec<V>; 3],
    pub mb: Vec<V>,
    pub mo: Vec<V>,
    pub ml: Vec<V>,
    /// Components leaked by failed operations.
    lost: (isize, isize),
    pub any_lost: bool,
    old_offsets: Vec<usize>,
    caps: [usize; 3],
    pub aspects: u32,
    pub faults: bool,
    pub log: Vec<String>,
    // Labels for classification.
    pub pushes: u32,
    pub growths: u32,
    pub reuse: u32,
    pub moves: u32,
    pub muts: u32,
    pub panics: u32,
    pub leaks: u32,
    pub iters: u32,
    pub stale_queries: u32,
    pub bytes: usize,
}

impl World {
    pub fn new(t: &TypeInfo, aspects: u32, faults: bool) -> Self {
        World {
            ops: (t.make)(),
            desc: (t.desc)(),
            m: [vec![], vec![], vec![]],
            mb: vec![],
            mo: vec![],
            ml: vec![],
            lost: (0, 0),
            any_lost: false,
            old_offsets: vec![],
            caps: [0; 3],
            aspects,
            faults,
            log: vec![],
            pushes: 0,
            growths: 0,
            reuse: 0,
            moves: 0,
            muts: 0,
            panics: 0,
            leaks: 0,
            iters: 0,
            stale_queries: 0,
            bytes: 0,
        }
    }

    fn note(&mut self, f: impl FnOnce() -> String) {
        let l = &mut self.log;
        quiet(|| {
            let m = f();
            crate::track::trace(&m);
            l.push(m)
        });
    }

    fn gen(&mut self, s: &mut Src) -> V {
        let v = self.desc.gen(s);
        self.bytes += self.desc.lay(&v).size;
        v
    }

    /// Runs an operation, possibly with an injected panic in a callback. False if it was hit.
    fn exec(&mut self, s: &mut Src, mask: u8, f: impl FnOnce(&mut dyn Ops, &mut Src)) -> bool {
        if !(self.faults && mask != 0 && s.chance(1, 2)) {
            f(&mut *self.ops, s);
            return true;
        }
        let kinds = [ANY, MAKE | NEXT, CLONE, DEFAULT | MAKE, DROP];
        let mask = mask & *s.pick(&kinds);
        let far = s.chance(1, 3);
        let n = 1 + s.below(if far { 12 } else { 3 });
        arm(n, mask);
        let ops = &mut *self.ops;
        let r = caught(|| f(ops, s));
        let hit = disarm();
        match r {
            Ok(()) => true,
            Err(p) if hit && p.is::<Injected>() => {
                self.panics += 1;
                self.note(|| format!("  (a callback panicked, number {n})"));
                false
            }
            Err(p) => std::panic::resume_unwind(p),
        }
    }

    fn any_seq(&self, s: &mut Src) -> usize {
        *s.pick(&[1, 0, 1, 2])
    }
    fn pool_loc(&self, s: &mut Src) -> Option<Loc> {
        let n = self.mb.len() + self.mo.len();
        if n == 0 {
            return None;
        }
        let i = s.idx(n);
        Some(if i < self.mb.len() { Loc::Box(i) } else { Loc::Owned(i - self.mb.len()) })
    }
    fn any_loc(&self, s: &mut Src, not: usize) -> Option<Loc> {
        let mut c = Vec::new();
        for w in 0..3 {
            if w != not && !self.m[w].is_empty() {
                c.push(Loc::Seq(w, s.idx(self.m[w].len())));
            }
        }
        c.extend(self.pool_loc(s));
        if c.is_empty() {
            None
        } else {
            Some(*s.pick(&c))
        }
    }
    fn model(&self, at: Loc) -> &V {
        match at {
            Loc::Seq(w, i) => &self.m[w][i],
            Loc::Box(i) => &self.mb[i],
            Loc::Owned(i) => &self.mo[i],
        }
    }
    fn model_take(&mut self, at: Loc) -> V {
        match at {
            Loc::Seq(w, i) => self.m[w].remove(i),
            Loc::Box(i) => self.mb.swap_remove(i),
            Loc::Owned(i) => self.mo.swap_remove(i),
        }
    }

    fn record_offsets(&mut self, w: usize) {
        let mut o = 0;
        for v in &self.m[w] {
            if self.old_offsets.len() < 64 {
                self.old_offsets.push(o);
            }
            o += self.desc.units(v);
        }
        self.old_offsets.push(o);
    }

    pub fn step(&mut self, s: &mut Src, weights: &Weights) {
        let op = s.weighted(weights);
        let made = MAKE | NEXT | DEFAULT | CLONE | DROP;
        match op {
            0 => {
                let w = self.any_seq(s);
                let v = self.gen(s);
                self.note(|| format!("s{w}.push({})", v.show()));
                if self.exec(s, made, |o, s| o.push(w, &v, s)) {
                    self.m[w].push(v);
                    self.pushes += 1;
                }
            }
            1 => {
                let w = self.any_seq(s);
                if let Some(at) = self.pool_loc(s) {
                    self.note(|| format!("s{w}.push({at:?}) by move"));
                    self.exec(s, 0, |o, _| o.push_move(w, at));
                    let v = self.model_take(at);
                    self.m[w].push(v);
                    self.pushes += 1;
                    self.moves += 1;
                }
            }
            2 => {
                let w = self.any_seq(s);
                if !self.ops.can_clone() {
                    return;
                }
                if let Some(at) = self.any_loc(s, w) {
                    let copy = self.ops.can_copy() && s.chance(1, 2);
                    let v = self.model(at).clone();
                    self.note(|| format!("s{w}.push(clone of {at:?}) copy={copy}"));
                    if self.exec(s, made, |o, _| o.push_clone(w, at, copy)) {
                        self.m[w].push(v);
                        self.pushes += 1;
                    }
                }
            }
            3 | 4 => {
                let w = self.any_seq(s);
                let n = s.idx(6);
                let vs: Vec<V> = (0..n).map(|_| self.gen(s)).collect();
                if op == 3 {
                    self.note(|| format!("s{w}.extend({})", V::L(vs.clone()).show()));
                    let before = self.m[w].len();
                    if self.exec(s, made, |o, s| o.extend(w, &vs, s)) {
                        self.m[w].extend(vs);
                    } else {
                        // Some prefix of the values was pushed.
                        let k = self.ops.len(w).wrapping_sub(before);
                        check!(k <= vs.len(), "after a failed extend of {before} by {} elements there are {}", vs.len(), self.ops.len(w));
                        self.m[w].extend(vs.into_iter().take(k));
                    }
                } else {
                    self.note(|| format!("s{w} = collect({})", V::L(vs.clone()).show()));
                    if self.exec(s, MAKE | NEXT | CLONE | DEFAULT, |o, s| o.collect(w, &vs, s)) {
                        self.record_offsets(w);
                        self.m[w] = vs;
                        self.caps[w] = 0;
                    }
                }
                self.pushes += n as u32;
            }
            5 => {
                let w = self.any_seq(s);
                self.note(|| format!("s{w} = new"));
                self.exec(s, 0, |o, _| o.reset(w));
                self.record_offsets(w);
                self.m[w].clear();
                self.caps[w] = 0;
            }
            6 => {
                if let Some(at) = self.any_loc(s, 9) {
                    let mut v = self.model(at).clone();
                    let by_offset = s.chance(1, 2);
                    let done = match at {
                        Loc::Seq(w, i) if w > 0 && by_offset => {
                            let o: usize = self.m[w][..i].iter().map(|v| self.desc.units(v)).sum();
                            self.note(|| format!("mutate s{w} at offset {o}"));
                            self.exec(s, MAKE, |x, s| x.mutate_at_offset(w, o, &mut v, s))
                        }
                        _ => {
                            self.note(|| format!("mutate {at:?}"));
                            self.exec(s, MAKE, |x, s| x.mutate(at, &mut v, s))
                        }
                    };
                    let _ = done;
                    // Even when interrupted, what was changed was changed in the model as well.
                    match at {
                        Loc::Seq(w, i) => self.m[w][i] = v,
                        Loc::Box(i) => self.mb[i] = v,
                        Loc::Owned(i) => self.mo[i] = v,
                    }
                    self.muts += 1;
                }
            }
            7 => {
                let w = self.any_seq(s);
                self.note(|| format!("mutate all of s{w}"));
                let mut vs = core::mem::take(&mut self.m[w]);
                self.exec(s, 0, |o, s| o.mutate_all(w, &mut vs, s));
                self.m[w] = vs;
                self.muts += 1;
            }
            8 => {
                let w = self.any_seq(s);
                let n = self.m[w].len();
                let k = match s.below(4) {
                    0 => 0,
                    1 => n,
                    2 => n + 1,
                    _ => s.idx(n + 2),
                };
                let to = (w + 1 + s.idx(2)) % 3;
                let how = match s.below(if self.faults { 6 } else { 8 }) {
                    0 => Drain::Drop(k),
                    1 => Drain::Hold(k),
                    2 | 3 => Drain::Move(k, to),
                    4 => Drain::Boxes(k),
                    5 => Drain::Arena(k),
                    6 => Drain::Forget(k),
                    _ => Drain::Leak(k),
                };
                self.note(|| format!("drain s{w} of {n}: {how:?}"));
                self.record_offsets(w);
                let ex = core::mem::take(&mut self.m[w]);
                let before = (self.ops.len(to), self.ops.pools());
                self.exec(s, DROP, |o, s| o.drain(w, how, &ex, s));
                let k = match how {
                    Drain::Move(..) => self.ops.len(to).wrapping_sub(before.0),
                    Drain::Boxes(_) => self.ops.pools().0 - before.1 .0,
                    Drain::Arena(_) => self.ops.pools().1 - before.1 .1,
                    _ => 0,
                };
                check!(k <= ex.len(), "{k} elements were moved of {}", ex.len());
                let ex = ex.into_iter().take(k);
                match how {
                    Drain::Move(..) => self.m[to].extend(ex),
                    Drain::Boxes(_) => self.mb.extend(ex),
                    Drain::Arena(_) => self.mo.extend(ex),
                    _ => {}
                }
                if matches!(how, Drain::Move(..) | Drain::Boxes(_) | Drain::Arena(_)) {
                    self.moves += k as u32;
                }
                if matches!(how, Drain::Leak(_)) {
                    self.leaks += 1;
                }
                if n > 0 {
                    self.reuse += 1;
                }
            }
            9 | 10 => {
                let v = self.gen(s);
                self.note(|| format!("new {}({})", if op == 9 { "box" } else { "owned" }, v.show()));
                if op == 9 {
                    if self.exec(s, made, |o, s| o.new_box(&v, s)) {
                        self.mb.push(v);
                    }
                } else if self.exec(s, made, |o, s| o.new_owned(&v, s)) {
                    self.mo.push(v);
                }
            }
            11 => {
                if !self.ops.can_clone() {
                    return;
                }
                if let Some(at) = self.any_loc(s, 9) {
                    let copy = self.ops.can_copy() && s.chance(1, 2);
                    let v = self.model(at).clone();
                    let b = s.chance(1, 2);
                    self.note(|| format!("new {} cloned from {at:?} copy={copy}", if b { "box" } else { "owned" }));
                    if b {
                        if self.exec(s, made, |o, _| o.box_of(at, copy)) {
                            self.mb.push(v);
                        }
                    } else if self.exec(s, made, |o, _| o.owned_of(at, copy)) {
                        self.mo.push(v);
                    }
                }
            }
            12 => {
                if let Some(at) = self.pool_loc(s) {
                    let b = s.chance(1, 2);
                    self.note(|| format!("new {} moved from {at:?}", if b { "box" } else { "owned" }));
                    let v = self.model_take(at);
                    if b {
                        self.exec(s, 0, |o, _| o.box_move(at));
                        self.mb.push(v);
                    } else {
                        self.exec(s, 0, |o, _| o.owned_move(at));
                        self.mo.push(v);
                    }
                    self.moves += 1;
                }
            }
            13 => {
                if self.ops.can_clone() && !self.mb.is_empty() {
                    let i = s.idx(self.mb.len());
                    self.note(|| format!("clone box {i}"));
                    if self.exec(s, made, |o, _| o.clone_box(i)) {
                        let v = self.mb[i].clone();
                        self.mb.push(v);
                    }
                }
            }
            14 => {
                if let Some(at) = self.pool_loc(s) {
                    self.note(|| format!("drop {at:?}"));
                    self.exec(s, DROP, |o, _| o.drop_at(at));
                    self.model_take(at);
                }
            }
            15 => {
                if let Some(at) = self.pool_loc(s) {
                    self.note(|| format!("raw round trip {at:?}"));
                    self.exec(s, 0, |o, _| o.raw_round_trip(at));
                    let v = self.model_take(at);
                    match at {
                        Loc::Box(_) => self.mb.push(v),
                        _ => self.mo.push(v),
                    }
                }
            }
            16 => {
                if !self.mo.is_empty() {
                    let i = s.idx(self.mo.len());
                    self.note(|| format!("leak owned {i}"));
                    self.exec(s, 0, |o, _| o.leak_owned(i));
                    let v = self.mo.swap_remove(i);
                    self.ml.push(v);
                    self.leaks += 1;
                }
            }
            17 => {
                if !self.ml.is_empty() {
                    let i = s.idx(self.ml.len());
                    self.note(|| format!("mutate leaked {i}"));
                    let mut v = self.ml[i].clone();
                    self.exec(s, 0, |o, s| o.leaked_mutate(i, &mut v, s));
                    self.ml[i] = v;
                    self.muts += 1;
                }
            }
            18 => {
                let w = self.any_seq(s);
                let mut vs = core::mem::take(&mut self.m[w]);
                let mut log = Vec::new();
                self.record_offsets(w);
                self.ops.iterate(w, &mut vs, s, &mut log);
                self.m[w] = vs;
                self.note(|| format!("iterate s{w}: {}", log.join(", ")));
                self.iters += 1;
            }
            _ => {
                self.note(|| "swap s1 and s2".into());
                self.ops.swap_seqs();
                self.m.swap(1, 2);
                self.caps.swap(1, 2);
            }
        }
        self.check(s);
    }

    /// Extends a sequence by many small elements.
    pub fn many(&mut self, n: usize, s: &mut Src) {
        let w = self.any_seq(s);
        let mut base = Vec::new();
        for _ in 0..5 {
            for k in 0..8 {
                let v = self.desc.gen(s);
                let z = self.desc.lay(&v).size;
                if z < 64 || (k == 7 && z < 1000) {
                    base.push(v);
                    break;
                }
            }
        }
        if base.is_empty() {
            return;
        }
        let size = base.iter().map(|v| self.desc.lay(v).size).max().unwrap();
        let n = if size > 200 || self.desc.heap() { n.min(5000) } else { n };
        let k = s.below(1000);
        let vs: Vec<V> = (0..n).map(|i| base[(crate::src::mix(i as u64 + k) % base.len() as u64) as usize].clone()).collect();
        self.note(|| format!("s{w}.extend({})", V::L(vs.clone()).show()));
        self.ops.extend(w, &vs, s);
        self.m[w].extend(vs);
        self.pushes += n as u32;
        self.check(s);
    }

    fn invalid_must_panic(&mut self, w: usize, o: usize, mutable: bool) {
        let ops = &mut *self.ops;
        let r = caught(|| {
            if mutable {
                ops.from_offset_mut(w, o).0
            } else {
                ops.from_offset(w, o).0
            }
        });
        check!(r.is_err(), "looking up invalid offset {o} did not panic");
    }

    /// Compares everything with the models.
    pub fn check(&mut self, s: &mut Src) {
        let a = self.aspects;
        let align = self.desc.align();
        for w in 0..3 {
            let n = self.m[w].len();
            let len = self.ops.len(w);
            if a & CONTENT != 0 {
                check!(len == n, "s{w}.len() is {len}, expected {n}");
            }
            obs(len as u64);
            let vs = self.ops.views(w, n + 1);
            for v in &vs {
                v.observe();
            }
            if a & CONTENT != 0 {
                check!(vs.len() == n, "s{w} yields {} elements, expected {n}", vs.len());
                for (i, (x, y)) in vs.iter().zip(&self.m[w]).enumerate() {
                    check!(x == y, "s{w}[{i}] is {}, expected {}", x.show(), y.show());
                }
                if s.chance(1, 8) {
                    let vm = self.ops.views_mut(w, n + 1);
                    check!(vm == vs, "s{w} iterated mutably yields other elements");
                }
            }
            let units: Vec<usize> = self.m[w].iter().map(|v| self.desc.units(v)).collect();
            let end: usize = units.iter().sum();
            let cap = self.ops.capacity(w);
            if cap > self.caps[w] && self.caps[w] > 0 {
                self.growths += 1;
            }
            if a & PACK != 0 {
                let o = self.ops.offset(w);
                obs(o as u64);
                check!(o == end, "s{w}.offset() is {o}, expected {end}");
                check!(cap >= end, "s{w} has capacity {cap} below its end {end}");
                check!(cap >= self.caps[w], "s{w} capacity shrank from {} to {cap}", self.caps[w]);
                let mut at = 0;
                let base = if n > 0 { self.ops.address(Loc::Seq(w, 0)) } else { 0 };
                for (i, u) in units.iter().enumerate() {
                    if n > 12 && !s.chance(8, n as u64) {
                        at += u;
                        continue;
                    }
                    let adr = self.ops.address(Loc::Seq(w, i));
                    check!(adr.wrapping_sub(base) == at * align, "s{w}[{i}] is {} bytes from the first, expected {}", adr.wrapping_sub(base) as isize, at * align);
                    let o = self.ops.offset_of(w, Loc::Seq(w, i));
                    check!(o == at, "s{w}.offset_of([{i}]) is {o}, expected {at}");
                    let (p, q) = self.ops.from_offset_unchecked(w, o);
                    check!(p == adr && q == adr, "unchecked lookup of offset {o} gives another address");
                    at += u;
                }
                if s.chance(1, 8) {
                    if let Some(f) = self.any_loc(s, w) {
                        let ops = &self.ops;
                        let r = caught(|| ops.offset_of(w, f));
                        check!(r.is_err(), "s{w}.offset_of({f:?}) is {:?} instead of a panic", r.ok());
                    }
                }
            }
            self.caps[w] = cap;
            if a & VALID != 0 && w > 0 {
                let mut starts = Vec::with_capacity(n);
                let mut at = 0;
                for u in &units {
                    starts.push(at);
                    at += u;
                }
                let mut k = 0;
                let full = end <= 600;
                let mut q: Vec<usize> = if full {
                    (0..end + 70).collect()
                } else {
                    let mut q = starts.clone();
                    q.extend((0..40).map(|_| s.idx(end + 70)));
                    q.sort();
                    q
                };
                q.extend([cap, cap + 1, cap * 8, usize::MAX, usize::MAX - 1, usize::MAX / align, isize::MAX as usize, 1 << 32].iter().filter(|o| **o > end + 70));
                for o in q {
                    while k < n && starts[k] < o {
                        k += 1;
                    }
                    let want = k < n && starts[k] == o;
                    let got = self.ops.is_valid(w, o);
                    obs(got as u64);
                    check!(got == want, "s{w}.is_offset_valid({o}) is {got}, expected {want} (end {end}, capacity {cap})");
                    if want && (n <= 12 || s.chance(6, n as u64)) {
                        let adr = self.ops.address(Loc::Seq(w, k));
                        let (p, v) = self.ops.from_offset(w, o);
                        check!(p == adr && v == self.m[w][k], "s{w}.from_offset({o}) is not element {k}");
                        let (p, v) = self.ops.from_offset_mut(w, o);
                        check!(p == adr && v == self.m[w][k], "s{w}.from_offset_mut({o}) is not element {k}");
                    }
                    if !want && self.old_offsets.contains(&o) {
                        self.stale_queries += 1;
                    }
                    if !want && s.chance(1, 48) {
                        let m = s.chance(1, 2);
                        self.invalid_must_panic(w, o, m);
                    }
                }
            }
        }
        if a & BOXES != 0 {
            for i in 0..self.mb.len() {
                let v = self.ops.view(Loc::Box(i));
                v.observe();
                check!(v == self.mb[i], "box {i} is {}, expected {}", v.show(), self.mb[i].show());
            }
            for i in 0..self.mo.len() {
                let v = self.ops.view(Loc::Owned(i));
                v.observe();
                check!(v == self.mo[i], "owned {i} is {}, expected {}", v.show(), self.mo[i].show());
            }
            for i in 0..self.ml.len() {
                let v = self.ops.leaked_view(i);
                v.observe();
                check!(v == self.ml[i], "leaked {i} is {}, expected {}", v.show(), self.ml[i].show());
            }
        }
        if a & (ALIGN | PLACE) != 0 {
            let mut locs: Vec<Loc> = (0..self.mb.len()).map(Loc::Box).collect();
            locs.extend((0..self.mo.len()).map(Loc::Owned));
            for w in 0..3 {
                let n = self.m[w].len();
                locs.extend((0..n.min(6)).map(|i| Loc::Seq(w, i)));
            }
            for at in locs {
                let adr = self.ops.address(at);
                check!(adr % align == 0, "{at:?} is at {} modulo its alignment {align}", adr % align);
                if a & PLACE != 0 {
                    let lay = self.desc.lay(self.model(at));
                    let size = self.ops.size(at);
                    check!(size == lay.size, "{at:?} reports {size} bytes, expected {}", lay.size);
                    for (k, ((p, n), (o, m, _))) in self.ops.extents(at).iter().zip(&lay.leaves).enumerate() {
                        check!(p.wrapping_sub(adr) == *o && n == m, "component {k} of {at:?} is at {} with {n} bytes, expected {o} with {m}", p.wrapping_sub(adr) as isize);
                    }
                }
            }
        }
        if a & DROPS != 0 {
            let (t, z) = self.expected_live();
            let (lt, lz) = (reg().live - t, reg().zlive - z);
            if self.faults {
                check!(lt >= self.lost.0 && lz >= self.lost.1, "{} components too few are alive", self.lost.0 - lt + self.lost.1 - lz);
                if (lt, lz) != self.lost {
                    check!(self.panics > 0, "{} components were leaked without a panic", lt - self.lost.0 + lz - self.lost.1);
                    self.any_lost = true;
                    self.lost = (lt, lz);
                }
            } else {
                check!(lt == 0 && lz == 0, "{} components are alive (and {} zero-sized ones), the containers hold {t} and {z}", reg().live, reg().zlive);
            }
        }
        if a & DROPS != 0 {
            if let Some(m) = crate::track::take_flag() {
                fail!("{m}");
            }
        }
        if a & MEM != 0 {
            if let Some(m) = crate::alloc::take_flag() {
                fail!("{m}");
            }
        }
    }

    fn expected_live(&self) -> (isize, isize) {
        let (mut t, mut z) = (0, 0);
        for v in self.m.iter().flatten().chain(&self.mb).chain(&self.mo).chain(&self.ml) {
            t += self.desc.tracked(v);
            z += self.desc.ztracked(v);
        }
        (t as isize, z as isize)
    }

    /// Drops everything and checks that nothing is left.
    pub fn finish(mut self, s: &mut Src) -> World2 {
        // Drop order is arbitrary.
        if s.chance(1, 2) {
            for w in [1usize, 0, 2] {
                self.ops.reset(w);
                self.m[w].clear();
                self.caps[w] = 0;
            }
            self.check(s);
        }
        let World { ops, aspects, lost, any_lost, .. } = self;
        drop(ops);
        if aspects & DROPS != 0 {
            check!(
                (reg().live, reg().zlive) == lost,
                "{} components are alive after all containers are dropped, expected {}",
                reg().live + reg().zlive,
                lost.0 + lost.1
            );
        }
        World2 { any_lost }
    }
}
pub struct World2 {
    pub any_lost: bool,
}
