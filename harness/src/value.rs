//! The universal model value, structural descriptions of types, and the reference layout.

use crate::src::Src;
use crate::track::obs;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    N(u64),
    S(String),
    L(Vec<V>),
}
use V::*;

impl V {
    pub fn n(&self) -> u64 {
        match self {
            N(x) => *x,
            _ => crate::fail!("harness: not a number: {:?}", self),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            S(x) => x,
            _ => crate::fail!("harness: not a string: {:?}", self),
        }
    }
    pub fn l(&self) -> &[V] {
        match self {
            L(x) => x,
            _ => crate::fail!("harness: not a list: {:?}", self),
        }
    }
    pub fn lm(&mut self) -> &mut Vec<V> {
        match self {
            L(x) => x,
            _ => crate::fail!("harness: not a list"),
        }
    }
    pub fn observe(&self) {
        match self {
            N(x) => obs(*x),
            S(s) => {
                obs(1000 + s.len() as u64);
                for b in s.bytes() {
                    obs(b as u64);
                }
            }
            L(l) => {
                obs(2000 + l.len() as u64);
                for v in l {
                    v.observe();
                }
            }
        }
    }
    /// Short form for messages and samples.
    pub fn show(&self) -> String {
        let s = match self {
            N(x) => format!("{x}"),
            S(s) => format!("{s:?}"),
            L(l) => {
                let head: Vec<String> = l.iter().take(6).map(|v| v.show()).collect();
                if l.len() > 6 {
                    format!("[{}, .. {} in all]", head.join(", "), l.len())
                } else {
                    format!("[{}]", head.join(", "))
                }
            }
        };
        if s.len() > 160 {
            let mut n = 150;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            format!("{}.. {} chars", &s[..n], s.len())
        } else {
            s
        }
    }
}

pub fn round_up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}

/// Description of an element type.
#[derive(Clone, Copy)]
pub struct Ed {
    pub size: usize,
    pub align: usize,
    pub needs_drop: bool,
    pub heap: bool,
    pub max: u64,
    pub gen: fn(&mut Src) -> V,
    /// Registered components in a value.
    pub tracked: fn(&V) -> usize,
    /// Registered zero-sized components in a value.
    pub ztracked: fn(&V) -> usize,
    /// Counted calls that cloning a value, or making the default, takes.
    pub ticks: fn(&V) -> usize,
    pub default: fn() -> Option<V>,
}

#[derive(Clone)]
pub enum Fd {
    Normal(Ed),
    Ctl(Ed),
    Var(Desc),
    Arr(Ed),
}

#[derive(Clone)]
pub struct Sd {
    pub header: usize,
    pub halign: usize,
    pub fields: Vec<Fd>,
    pub gen: fn(&mut Src) -> V,
}

#[derive(Clone)]
pub enum Desc {
    Fixed(Ed),
    /// Size and alignment of the length, its largest value.
    Arr(usize, u64, Ed),
    Str(usize, u64),
    Tup(Vec<Desc>),
    Struct(Sd),
    New(Box<Desc>),
}

#[derive(Clone, Debug, Default)]
pub struct Lay {
    pub size: usize,
    /// Offset, size and alignment of each leaf component in order.
    pub leaves: Vec<(usize, usize, usize)>,
}

impl Desc {
    pub fn align(&self) -> usize {
        match self {
            Desc::Fixed(e) => e.align,
            Desc::Arr(l, _, e) => (*l).max(e.align),
            Desc::Str(l, _) => *l,
            Desc::Tup(ds) => ds.iter().map(|d| d.align()).max().unwrap(),
            Desc::Struct(s) => s
                .fields
                .iter()
                .map(|f| match f {
                    Fd::Normal(_) | Fd::Ctl(_) => 1,
                    Fd::Var(d) => d.align(),
                    Fd::Arr(e) => e.align,
                })
                .max()
                .unwrap_or(1)
                .max(s.halign),
            Desc::New(d) => d.align(),
        }
    }
    pub fn needs_drop(&self) -> bool {
        match self {
            Desc::Fixed(e) => e.needs_drop,
            Desc::Arr(_, _, e) => e.needs_drop,
            Desc::Str(..) => false,
            Desc::Tup(ds) => ds.iter().any(|d| d.needs_drop()),
            Desc::Struct(s) => s.fields.iter().any(|f| match f {
                Fd::Normal(e) | Fd::Ctl(e) | Fd::Arr(e) => e.needs_drop,
                Fd::Var(d) => d.needs_drop(),
            }),
            Desc::New(d) => d.needs_drop(),
        }
    }
    /// Whether making a value allocates anything but its own storage.
    pub fn heap(&self) -> bool {
        match self {
            Desc::Fixed(e) | Desc::Arr(_, _, e) => e.heap,
            Desc::Str(..) => false,
            Desc::Tup(ds) => ds.iter().any(|d| d.heap()),
            Desc::Struct(s) => s.fields.iter().any(|f| match f {
                Fd::Normal(e) | Fd::Ctl(e) | Fd::Arr(e) => e.heap,
                Fd::Var(d) => d.heap(),
            }),
            Desc::New(d) => d.heap(),
        }
    }
    pub fn lay(&self, v: &V) -> Lay {
        match self {
            Desc::Fixed(e) => Lay { size: e.size, leaves: vec![(0, e.size, e.align)] },
            Desc::Arr(l, _, e) => {
                let off = round_up(*l, e.align);
                let n = v.l().len() * e.size;
                Lay { size: off + n, leaves: vec![(off, n, e.align)] }
            }
            Desc::Str(l, _) => Lay { size: l + v.s().len(), leaves: vec![(*l, v.s().len(), 1)] },
            Desc::Tup(ds) => {
                let mut r = Lay::default();
                for (d, v) in ds.iter().zip(v.l()) {
                    let off = round_up(r.size, d.align());
                    let sub = d.lay(v);
                    r.leaves.extend(sub.leaves.iter().map(|(o, s, a)| (off + o, *s, *a)));
                    r.size = off + sub.size;
                }
                r
            }
            Desc::Struct(s) => {
                let mut r = Lay { size: s.header, leaves: vec![] };
                for (f, v) in s.fields.iter().zip(v.l()) {
                    match f {
                        Fd::Normal(_) | Fd::Ctl(_) => {}
                        Fd::Var(d) => {
                            let off = round_up(r.size, d.align());
                            let sub = d.lay(v);
                            r.leaves.extend(sub.leaves.iter().map(|(o, s, a)| (off + o, *s, *a)));
                            r.size = off + sub.size;
                        }
                        Fd::Arr(e) => {
                            let off = round_up(r.size, e.align);
                            let n = v.l().len() * e.size;
                            r.leaves.push((off, n, e.align));
                            r.size = off + n;
                        }
                    }
                }
                r
            }
            Desc::New(d) => d.lay(v),
        }
    }
    /// Units of alignment the value takes up in a sequence.
    pub fn units(&self, v: &V) -> usize {
        let a = self.align();
        round_up(self.lay(v).size.max(1), a) / a
    }
    fn count(&self, v: &V, f: &dyn Fn(&Ed, &V) -> usize) -> usize {
        match self {
            Desc::Fixed(e) => f(e, v),
            Desc::Arr(_, _, e) => v.l().iter().map(|v| f(e, v)).sum(),
            Desc::Str(..) => 0,
            Desc::Tup(ds) => ds.iter().zip(v.l()).map(|(d, v)| d.count(v, f)).sum(),
            Desc::Struct(s) => s
                .fields
                .iter()
                .zip(v.l())
                .map(|(d, v)| match d {
                    Fd::Normal(e) | Fd::Ctl(e) => f(e, v),
                    Fd::Var(d) => d.count(v, f),
                    Fd::Arr(e) => v.l().iter().map(|v| f(e, v)).sum(),
                })
                .sum(),
            Desc::New(d) => d.count(v, f),
        }
    }
    pub fn tracked(&self, v: &V) -> usize {
        self.count(v, &|e, v| (e.tracked)(v))
    }
    pub fn ticks(&self, v: &V) -> usize {
        self.count(v, &|e, v| (e.ticks)(v))
    }
    pub fn ztracked(&self, v: &V) -> usize {
        self.count(v, &|e, v| (e.ztracked)(v))
    }
    pub fn gen(&self, s: &mut Src) -> V {
        match self {
            Desc::Fixed(e) => (e.gen)(s),
            Desc::Arr(_, max, e) => L(gen_elems(s, *e, *max)),
            Desc::Str(_, max) => S(gen_str(s, *max)),
            Desc::Tup(ds) => L(ds.iter().map(|d| d.gen(s)).collect()),
            Desc::Struct(d) => (d.gen)(s),
            Desc::New(d) => d.gen(s),
        }
    }
}

/// Array lengths: mostly small, sometimes around powers of two and limits of length types.
pub fn gen_len(s: &mut Src, max: u64) -> usize {
    let n = if cfg!(miri) {
        match s.below(8) {
            0 => 0,
            1..=6 => s.below(6),
            _ => 5 + s.below(20),
        }
    } else {
        match s.below(64) {
            0..=7 => 0,
            8..=39 => 1 + s.below(5),
            40..=55 => s.below(20),
            56..=59 => 13 + s.below(54),
            60 => 100 + s.below(60),
            61 => 250 + s.below(16),
            62 => (1 << (6 + s.below(5))) + s.below(3) - 1,
            _ => match s.below(24) {
                0 => 65530 + s.below(12),
                _ => s.below(3000),
            },
        }
    };
    n.min(max) as usize
}

pub fn gen_elems_n(s: &mut Src, e: Ed, n: usize) -> Vec<V> {
    if s.chance(1, 8) {
        if let Some(d) = (e.default)() {
            return vec![d; n];
        }
    }
    if n > 48 {
        // Long arrays repeat a few values in an irregular pattern, to keep cases short.
        let base: Vec<V> = (0..7).map(|_| (e.gen)(s)).collect();
        let k = s.below(1000);
        return (0..n).map(|i| base[(crate::src::mix(i as u64 + k) % 7) as usize].clone()).collect();
    }
    (0..n).map(|_| (e.gen)(s)).collect()
}
pub fn gen_elems(s: &mut Src, e: Ed, max: u64) -> Vec<V> {
    let n = gen_len(s, max);
    // Keep big elements from making cases slow.
    let n = if e.size > 64 { n.min(300) } else { n };
    gen_elems_n(s, e, n)
}
pub fn gen_str(s: &mut Src, max: u64) -> String {
    let n = gen_len(s, max);
    const CH: [char; 12] = ['a', 'b', 'Z', '0', ' ', '\0', '\n', 'é', 'ß', '€', '𝄞', '\u{7f}'];
    let mut r = String::new();
    let pat: Vec<char> = (0..n.min(24)).map(|_| *s.pick(&CH)).collect();
    let mut i = 0;
    while r.len() < n {
        let c = pat[(i * 7 + i / 24) % pat.len()];
        if r.len() + c.len_utf8() <= n {
            r.push(c);
        } else {
            r.push('x');
        }
        i += 1;
    }
    r
}
