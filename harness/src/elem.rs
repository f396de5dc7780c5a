//! Element types and how they correspond to model values.

use crate::src::Src;
use crate::track::{tick, Tr, TrZ, CLONE, DEFAULT, MAKE};
use crate::value::{Ed, V};
use core::mem::MaybeUninit;
use varlen::array_init::*;
use varlen::prelude::*;
use V::*;

pub type InitFn<T> = fn(&[T], &mut [MaybeUninit<T>]);

pub trait Elem: Sized + Unpin + 'static {
    fn gen(s: &mut Src) -> V;
    fn make(v: &V) -> Self;
    fn view(&self) -> V;
    /// Initialization by the library's CopyFrom, CloneFrom and FillWithDefault, where available.
    const COPY: Option<InitFn<Self>> = None;
    const CLONE: Option<InitFn<Self>> = None;
    const DEFAULT: Option<fn(&mut [MaybeUninit<Self>])> = None;
    fn default_v() -> Option<V> {
        None
    }
    fn tracked(_: &V) -> usize {
        0
    }
    fn ztracked(_: &V) -> usize {
        0
    }
    /// Counted calls that cloning a value, or making the default, takes.
    fn ticks(v: &V) -> usize {
        Self::tracked(v) + Self::ztracked(v)
    }
    /// The largest number that stands for a value.
    const MAX: u64 = u64::MAX;
    /// Whether making a value allocates.
    const HEAP: bool = false;
    fn ed() -> Ed {
        Ed {
            heap: Self::HEAP,
            max: Self::MAX,
            size: core::mem::size_of::<Self>(),
            align: core::mem::align_of::<Self>(),
            needs_drop: core::mem::needs_drop::<Self>(),
            gen: Self::gen,
            tracked: Self::tracked,
            ztracked: Self::ztracked,
            ticks: Self::ticks,
            default: Self::default_v,
        }
    }
}

pub fn copy_init<T: Copy>(s: &[T], d: &mut [MaybeUninit<T>]) {
    CopyFrom(s).initialize(d)
}
pub fn clone_init<T: Clone>(s: &[T], d: &mut [MaybeUninit<T>]) {
    CloneFrom(s).initialize(d)
}
pub fn default_init<T: Default>(d: &mut [MaybeUninit<T>]) {
    FillWithDefault.initialize(d)
}

#[macro_export]
macro_rules! elem_copy {
    () => {
        const COPY: Option<$crate::elem::InitFn<Self>> = Some($crate::elem::copy_init::<Self>);
        $crate::elem_clone!();
    };
}
#[macro_export]
macro_rules! elem_clone {
    () => {
        const CLONE: Option<$crate::elem::InitFn<Self>> = Some($crate::elem::clone_init::<Self>);
    };
}
#[macro_export]
macro_rules! elem_default {
    () => {
        const DEFAULT: Option<fn(&mut [core::mem::MaybeUninit<Self>])> = Some($crate::elem::default_init::<Self>);
        fn default_v() -> Option<V> {
            Some(<Self as Default>::default().view())
        }
    };
}

macro_rules! ints {
    ($($t:ty),*) => { $(
        impl Elem for $t {
            const MAX: u64 = <$t>::MAX as u64;
            fn gen(s: &mut Src) -> V { N(s.bits() as $t as u64) }
            fn make(v: &V) -> Self { v.n() as $t }
            fn view(&self) -> V { N(*self as u64) }
            elem_copy!();
            elem_default!();
        }
    )* }
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64);

impl Elem for u128 {
    fn gen(s: &mut Src) -> V {
        N(s.bits())
    }
    fn make(v: &V) -> Self {
        v.n() as u128 * 0x1_0000_0000_0000_0001
    }
    fn view(&self) -> V {
        crate::check!(*self as u64 == (*self >> 64) as u64, "torn u128 {:x}", self);
        N(*self as u64)
    }
    elem_copy!();
    elem_default!();
}
impl Elem for bool {
    const MAX: u64 = 1;
    fn gen(s: &mut Src) -> V {
        N(s.below(2))
    }
    fn make(v: &V) -> Self {
        v.n() != 0
    }
    fn view(&self) -> V {
        let b = unsafe { *(self as *const bool as *const u8) };
        N(b as u64)
    }
    elem_copy!();
    elem_default!();
}
impl Elem for char {
    const MAX: u64 = 0xD7FF;
    fn gen(s: &mut Src) -> V {
        N(*s.pick(&['a', '\0', 'ß', '\u{10FFFF}', '\u{D7FF}']) as u64)
    }
    fn make(v: &V) -> Self {
        char::from_u32(v.n() as u32).unwrap()
    }
    fn view(&self) -> V {
        let c = unsafe { *(self as *const char as *const u32) };
        N(c as u64)
    }
    elem_copy!();
    elem_default!();
}
impl Elem for f64 {
    fn gen(s: &mut Src) -> V {
        N(s.pick(&[0.0f64, 1.5, -0.0, f64::INFINITY, 1e-300]).to_bits() ^ s.below(4))
    }
    fn make(v: &V) -> Self {
        f64::from_bits(v.n())
    }
    fn view(&self) -> V {
        N(self.to_bits())
    }
    elem_copy!();
}
impl Elem for () {
    const MAX: u64 = 0;
    fn gen(_: &mut Src) -> V {
        N(0)
    }
    fn make(_: &V) -> Self {}
    fn view(&self) -> V {
        N(0)
    }
    elem_copy!();
    elem_default!();
}
impl Elem for [u8; 3] {
    const MAX: u64 = (1 << 24) - 1;
    fn gen(s: &mut Src) -> V {
        N(s.below(1 << 24))
    }
    fn make(v: &V) -> Self {
        let n = v.n();
        [n as u8, (n >> 8) as u8, (n >> 16) as u8]
    }
    fn view(&self) -> V {
        N(self[0] as u64 | (self[1] as u64) << 8 | (self[2] as u64) << 16)
    }
    elem_copy!();
    elem_default!();
}
/// Zero-sized but aligned.
impl Elem for [u64; 0] {
    const MAX: u64 = 0;
    fn gen(_: &mut Src) -> V {
        N(0)
    }
    fn make(_: &V) -> Self {
        []
    }
    fn view(&self) -> V {
        N(0)
    }
    elem_copy!();
    elem_default!();
}
/// A struct with padding, bigger alignment than its first field.
#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Pad {
    a: u8,
    b: u32,
    c: u16,
}
impl Elem for Pad {
    const MAX: u64 = (1 << 56) - 1;
    fn gen(s: &mut Src) -> V {
        N(s.bits() & ((1 << 56) - 1))
    }
    fn make(v: &V) -> Self {
        let n = v.n();
        Pad { a: n as u8, b: (n >> 8) as u32, c: (n >> 40) as u16 }
    }
    fn view(&self) -> V {
        N(self.a as u64 | (self.b as u64) << 8 | (self.c as u64) << 40)
    }
    elem_copy!();
    elem_default!();
}

impl Elem for String {
    const HEAP: bool = true;
    fn gen(s: &mut Src) -> V {
        let n = s.idx(5);
        S((0..n).map(|_| *s.pick(&['a', 'b', 'é', '€'])).collect())
    }
    fn make(v: &V) -> Self {
        v.s().to_string()
    }
    fn view(&self) -> V {
        S(self.clone())
    }
    elem_clone!();
    elem_default!();
}
impl Elem for Box<u32> {
    const MAX: u64 = u32::MAX as u64;
    const HEAP: bool = true;
    fn gen(s: &mut Src) -> V {
        N(s.below(1 << 32))
    }
    fn make(v: &V) -> Self {
        Box::new(v.n() as u32)
    }
    fn view(&self) -> V {
        N(**self as u64)
    }
    elem_clone!();
    elem_default!();
}
impl Elem for Option<Box<u64>> {
    const HEAP: bool = true;
    fn gen(s: &mut Src) -> V {
        if s.chance(1, 2) {
            L(vec![N(s.bits())])
        } else {
            L(vec![])
        }
    }
    fn make(v: &V) -> Self {
        v.l().first().map(|v| Box::new(v.n()))
    }
    fn view(&self) -> V {
        L(self.iter().map(|x| N(**x)).collect())
    }
    elem_clone!();
    elem_default!();
}
impl Elem for Vec<Tr> {
    const HEAP: bool = true;
    fn gen(s: &mut Src) -> V {
        L((0..s.below(3)).map(|_| Tr::gen(s)).collect())
    }
    fn make(v: &V) -> Self {
        v.l().iter().map(Tr::make).collect()
    }
    fn view(&self) -> V {
        L(self.iter().map(Tr::view).collect())
    }
    fn tracked(v: &V) -> usize {
        v.l().len()
    }
    elem_clone!();
    elem_default!();
}
impl Elem for Tr {
    fn gen(s: &mut Src) -> V {
        N(s.below(1000))
    }
    fn make(v: &V) -> Self {
        Tr::new(v.n())
    }
    fn view(&self) -> V {
        N(self.get())
    }
    fn tracked(_: &V) -> usize {
        1
    }
    elem_clone!();
    const DEFAULT: Option<fn(&mut [MaybeUninit<Self>])> = Some(default_init::<Self>);
    fn default_v() -> Option<V> {
        Some(N(0))
    }
}
impl Elem for TrZ {
    fn gen(_: &mut Src) -> V {
        N(0)
    }
    fn make(_: &V) -> Self {
        TrZ::new()
    }
    fn view(&self) -> V {
        N(0)
    }
    fn ztracked(_: &V) -> usize {
        1
    }
    elem_clone!();
    const DEFAULT: Option<fn(&mut [MaybeUninit<Self>])> = Some(default_init::<Self>);
    fn default_v() -> Option<V> {
        Some(N(0))
    }
}

/// Nothing to drop, but cloning and making the default are counted.
pub struct Cn(u32);
impl Clone for Cn {
    fn clone(&self) -> Self {
        tick(CLONE);
        Cn(self.0)
    }
}
impl Default for Cn {
    fn default() -> Self {
        tick(DEFAULT);
        Cn(0)
    }
}
impl Elem for Cn {
    fn gen(s: &mut Src) -> V {
        N(s.below(1 << 32))
    }
    fn make(v: &V) -> Self {
        tick(MAKE);
        Cn(v.n() as u32)
    }
    fn view(&self) -> V {
        N(self.0 as u64)
    }
    fn ticks(_: &V) -> usize {
        1
    }
    elem_clone!();
    const DEFAULT: Option<fn(&mut [MaybeUninit<Self>])> = Some(default_init::<Self>);
    fn default_v() -> Option<V> {
        Some(N(0))
    }
}
/// As `Cn`, without size.
pub struct CnZ(());
impl Clone for CnZ {
    fn clone(&self) -> Self {
        tick(CLONE);
        CnZ(())
    }
}
impl Default for CnZ {
    fn default() -> Self {
        tick(DEFAULT);
        CnZ(())
    }
}
impl Elem for CnZ {
    fn gen(_: &mut Src) -> V {
        N(0)
    }
    fn make(_: &V) -> Self {
        tick(MAKE);
        CnZ(())
    }
    fn view(&self) -> V {
        N(0)
    }
    fn ticks(_: &V) -> usize {
        1
    }
    elem_clone!();
    const DEFAULT: Option<fn(&mut [MaybeUninit<Self>])> = Some(default_init::<Self>);
    fn default_v() -> Option<V> {
        Some(N(0))
    }
}
/// Can be copied, but cloning is counted.
#[derive(Copy)]
pub struct Cc(u16);
impl Clone for Cc {
    fn clone(&self) -> Self {
        tick(CLONE);
        Cc(self.0)
    }
}
impl Elem for Cc {
    const MAX: u64 = 0xffff;
    fn gen(s: &mut Src) -> V {
        N(s.below(1 << 16))
    }
    fn make(v: &V) -> Self {
        tick(MAKE);
        Cc(v.n() as u16)
    }
    fn view(&self) -> V {
        N(self.0 as u64)
    }
    fn ticks(_: &V) -> usize {
        1
    }
    elem_copy!();
}

macro_rules! aligned {
    ($name:ident, $a:literal) => {
        /// Over-aligned wrapper.
        #[derive(Clone, Copy, Default)]
        #[repr(align($a))]
        pub struct $name<T>(pub T);
        impl<T: Elem + Default> Elem for $name<T> {
            const HEAP: bool = T::HEAP;
            const MAX: u64 = T::MAX;
            fn gen(s: &mut Src) -> V {
                T::gen(s)
            }
            fn make(v: &V) -> Self {
                $name(T::make(v))
            }
            fn view(&self) -> V {
                self.0.view()
            }
            fn tracked(v: &V) -> usize {
                T::tracked(v)
            }
            fn ztracked(v: &V) -> usize {
                T::ztracked(v)
            }
            fn ticks(v: &V) -> usize {
                T::ticks(v)
            }
        }
    };
}
aligned!(A2, 2);
aligned!(A16, 16);
aligned!(A64, 64);

impl Elem for (u8, Tr) {
    fn gen(s: &mut Src) -> V {
        L(vec![u8::gen(s), Tr::gen(s)])
    }
    fn make(v: &V) -> Self {
        (u8::make(&v.l()[0]), Tr::make(&v.l()[1]))
    }
    fn view(&self) -> V {
        L(vec![self.0.view(), self.1.view()])
    }
    fn tracked(_: &V) -> usize {
        1
    }
    elem_clone!();
}

// Containers as components.
impl Elem for VBox<Str> {
    const HEAP: bool = true;
    fn gen(s: &mut Src) -> V {
        String::gen(s)
    }
    fn make(v: &V) -> Self {
        VBox::new(Str::copy(v.s()))
    }
    fn view(&self) -> V {
        S(self[..].to_string())
    }
    elem_clone!();
}
impl Elem for Seq<Tup2<FixedLen<Tr>, Str<u8>>> {
    const HEAP: bool = true;
    fn gen(s: &mut Src) -> V {
        L((0..s.below(4)).map(|_| L(vec![Tr::gen(s), String::gen(s)])).collect())
    }
    fn make(v: &V) -> Self {
        v.l()
            .iter()
            .map(|v| tup2::Init(FixedLen(Tr::make(&v.l()[0])), Str::<u8>::try_copy(v.l()[1].s()).unwrap()))
            .collect()
    }
    fn view(&self) -> V {
        L(self.iter().map(|t| {
            let r = t.refs();
            L(vec![r.0 .0.view(), S(r.1[..].to_string())])
        }).collect())
    }
    fn tracked(v: &V) -> usize {
        v.l().len()
    }
}

/// A length with something to drop.
pub struct P(pub u8, pub Tr);
impl Elem for P {
    fn gen(s: &mut Src) -> V {
        L(vec![N(s.below(4)), Tr::gen(s)])
    }
    fn make(v: &V) -> Self {
        P(v.l()[0].n() as u8, Tr::make(&v.l()[1]))
    }
    fn view(&self) -> V {
        L(vec![N(self.0 as u64), self.1.view()])
    }
    fn tracked(_: &V) -> usize {
        1
    }
}
