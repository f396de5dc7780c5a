//! Variable-length types and how they correspond to model values.

use crate::elem::Elem;
use crate::src::Src;
use crate::track::{tick, MAKE, NEXT};
use crate::value::{Desc, V};
use core::mem::MaybeUninit;
use core::pin::Pin;
use core::ptr::NonNull;
use varlen::array::{ArrayLen, SizedInit};
use varlen::array_init::*;
use varlen::prelude::*;
use varlen::{Initializer, Layout, VCopy, VarLen};
use V::*;

/// A type-erased initializer.
pub trait ErasedInit<T: VarLen> {
    fn calc(&self) -> Option<T::Layout>;
    unsafe fn init(self: Box<Self>, dst: NonNull<T>, layout: T::Layout);
}
impl<T: VarLen, I: Initializer<T>> ErasedInit<T> for I {
    fn calc(&self) -> Option<T::Layout> {
        self.calculate_layout_cautious()
    }
    unsafe fn init(self: Box<Self>, dst: NonNull<T>, layout: T::Layout) {
        (*self).initialize(dst, layout)
    }
}
pub struct BoxInit<'a, T: VarLen>(pub Box<dyn ErasedInit<T> + 'a>);
unsafe impl<'a, T: VarLen> Initializer<T> for BoxInit<'a, T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.0.calc()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        self.0.init(dst, layout)
    }
}
pub fn bi<'a, T: VarLen, I: Initializer<T> + 'a>(i: I) -> BoxInit<'a, T> {
    BoxInit(Box::new(i))
}

pub trait Modeled: VarLen + 'static {
    fn desc() -> Desc;
    /// An initializer for the value, of a kind chosen by `s`.
    fn init<'a>(v: &'a V, s: &mut Src) -> BoxInit<'a, Self>;
    fn view(&self) -> V;
    /// Changes some component in place, and the model with it. Returns the index of the leaf that
    /// was changed.
    fn mutate(self: Pin<&mut Self>, v: &mut V, s: &mut Src);
    /// Address and size of each leaf component.
    fn extents(&self, out: &mut Vec<(usize, usize)>);
    /// Address, size and alignment of each field in the header.
    fn header_extents(&self, _out: &mut Vec<(usize, usize, usize)>) {}
    /// Like `init`, but possibly moving the value out of another container.
    fn init_nested<'a>(v: &'a V, s: &mut Src) -> BoxInit<'a, Self> {
        match s.below(8) {
            0..=5 => Self::init(v, s),
            6 => bi(VBox::new(Self::init(v, s))),
            _ => bi(OwnedHold::new(VBox::new(Self::init(v, s)))),
        }
    }
}

/// An Owned and the storage it is in.
pub struct OwnedHold<T: VarLen> {
    p: NonNull<T>,
    size: usize,
    moved: bool,
}
impl<T: VarLen> OwnedHold<T> {
    pub fn new(b: VBox<T>) -> Self {
        let size = b.calculate_layout().size();
        OwnedHold { p: NonNull::new(unsafe { b.into_raw() }).unwrap(), size, moved: false }
    }
}
unsafe impl<T: VarLen> Initializer<T> for OwnedHold<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        let o = unsafe { Owned::from_raw(self.p) };
        let r = o.calculate_layout_cautious();
        let _ = unsafe { o.into_raw() };
        r
    }
    unsafe fn initialize(mut self, dst: NonNull<T>, layout: T::Layout) {
        self.moved = true;
        Owned::from_raw(self.p).initialize(dst, layout);
    }
}
impl<T: VarLen> Drop for OwnedHold<T> {
    fn drop(&mut self) {
        unsafe {
            if !self.moved {
                drop(Owned::from_raw(self.p));
            }
            if self.size > 0 {
                std::alloc::dealloc(
                    self.p.as_ptr() as *mut u8,
                    std::alloc::Layout::from_size_align(self.size, T::ALIGN).unwrap(),
                );
            }
        }
    }
}

// ---- Array initializers ----

/// One of the library's array initializers, chosen at run time.
pub enum AnyArr<'a, T> {
    Iter(&'a [V]),
    IterLonger(&'a [V]),
    Fill(&'a [V]),
    Copy(Vec<T>),
    Clone(Vec<T>),
    Default,
    Move(Vec<T>),
}

pub fn any_arr<'a, T: Elem>(vs: &'a [V], s: &mut Src) -> AnyArr<'a, T> {
    let mk = || vs.iter().map(T::make).collect::<Vec<T>>();
    match s.below(8) {
        0 | 1 => AnyArr::Iter(vs),
        2 => AnyArr::IterLonger(vs),
        3 => AnyArr::Fill(vs),
        4 if T::COPY.is_some() => AnyArr::Copy(mk()),
        4 | 5 if T::CLONE.is_some() => AnyArr::Clone(mk()),
        6 if vs.len() <= 4 => AnyArr::Move(mk()),
        7 if T::DEFAULT.is_some() && vs.iter().all(|v| Some(v) == T::default_v().as_ref()) => AnyArr::Default,
        _ => AnyArr::Fill(vs),
    }
}

fn arr<T, const N: usize>(v: Vec<T>) -> [T; N] {
    match v.try_into() {
        Ok(a) => a,
        Err(_) => crate::fail!("harness: length"),
    }
}

unsafe impl<'a, T: Elem> ArrayInitializer<T> for AnyArr<'a, T> {
    fn initialize(self, dst: &mut [MaybeUninit<T>]) {
        match self {
            AnyArr::Iter(vs) => FromIterPrefix(vs.iter().map(|v| {
                tick(NEXT);
                T::make(v)
            }))
            .initialize(dst),
            AnyArr::IterLonger(vs) => {
                let mut it = vs.iter();
                FromIterPrefix(core::iter::from_fn(move || {
                    tick(NEXT);
                    match it.next() {
                        Some(v) => Some(T::make(v)),
                        None => crate::fail!("the iterator was advanced past the prefix"),
                    }
                }))
                .initialize(dst)
            }
            AnyArr::Fill(vs) => FillSequentially(|i: usize| {
                tick(MAKE);
                T::make(&vs[i])
            })
            .initialize(dst),
            AnyArr::Copy(s) => (T::COPY.unwrap())(&s, dst),
            AnyArr::Clone(s) => (T::CLONE.unwrap())(&s, dst),
            AnyArr::Default => (T::DEFAULT.unwrap())(dst),
            AnyArr::Move(s) => match s.len() {
                0 => MoveFrom(arr::<T, 0>(s)).initialize(dst),
                1 => MoveFrom(arr::<T, 1>(s)).initialize(dst),
                2 => MoveFrom(arr::<T, 2>(s)).initialize(dst),
                3 => MoveFrom(arr::<T, 3>(s)).initialize(dst),
                _ => MoveFrom(arr::<T, 4>(s)).initialize(dst),
            },
        }
    }
}

// ---- FixedLen ----

impl<T: Elem> Modeled for FixedLen<T> {
    fn desc() -> Desc {
        Desc::Fixed(T::ed())
    }
    fn init<'a>(v: &'a V, _s: &mut Src) -> BoxInit<'a, Self> {
        bi(FixedLen(T::make(v)))
    }
    fn view(&self) -> V {
        self.0.view()
    }
    fn mutate(self: Pin<&mut Self>, v: &mut V, s: &mut Src) {
        let n = T::gen(s);
        self.get_mut().0 = T::make(&n);
        *v = n;
    }
    fn extents(&self, out: &mut Vec<(usize, usize)>) {
        out.push((&self.0 as *const T as usize, core::mem::size_of::<T>()));
    }
}

// ---- Array ----

pub trait Len: ArrayLen {
    const BYTES: usize;
    const MAX: u64;
}
macro_rules! lens {
    ($($t:ty),*) => { $( impl Len for $t { const BYTES: usize = core::mem::size_of::<$t>(); const MAX: u64 = <$t>::MAX as u64; } )* }
}
lens!(u8, u16, u32, u64, usize);

/// Changes a slice of elements in place, and the model with it.
pub fn mutate_slice<T: Elem>(xs: &mut [T], vs: &mut [V], s: &mut Src) {
    crate::check!(xs.len() == vs.len(), "mutable slice has {} elements, expected {}", xs.len(), vs.len());
    if xs.is_empty() {
        return;
    }
    let (i, j) = (s.idx(xs.len()), s.idx(xs.len()));
    match s.below(4) {
        0 | 1 => {
            let n = T::gen(s);
            xs[i] = T::make(&n);
            vs[i] = n;
        }
        2 => {
            xs.swap(i, j);
            vs.swap(i, j);
        }
        _ => {
            xs.rotate_left(i);
            vs.rotate_left(i);
        }
    }
}


impl<T: Elem, L: Len> Modeled for Array<T, L> {
    fn desc() -> Desc {
        Desc::Arr(L::BYTES, L::MAX, T::ed())
    }
    fn init<'a>(v: &'a V, s: &mut Src) -> BoxInit<'a, Self> {
        let vs = v.l();
        bi(SizedInit(L::from_usize(vs.len()).unwrap(), any_arr::<T>(vs, s)))
    }
    fn view(&self) -> V {
        let n = self.len_short().as_usize();
        let sl: &[T] = &self[..];
        crate::check!(sl.len() == n, "len_short {} but slice of {}", n, sl.len());
        L(sl.iter().map(T::view).collect())
    }
    fn mutate(self: Pin<&mut Self>, v: &mut V, s: &mut Src) {
        mutate_slice(self.mut_slice(), v.lm(), s)
    }
    fn extents(&self, out: &mut Vec<(usize, usize)>) {
        let sl: &[T] = &self[..];
        out.push((sl.as_ptr() as usize, core::mem::size_of_val(sl)));
    }
}

// ---- Str ----

impl<L: Len> Modeled for Str<L> {
    fn desc() -> Desc {
        Desc::Str(L::BYTES, L::MAX)
    }
    fn init<'a>(v: &'a V, _s: &mut Src) -> BoxInit<'a, Self> {
        bi(Str::<L>::try_copy(v.s()).unwrap())
    }
    fn view(&self) -> V {
        // Check before anything relies on it.
        match core::str::from_utf8(self.as_bytes()) {
            Ok(s) => S(s.to_string()),
            Err(e) => crate::fail!("string is not UTF-8: {:?}", e),
        }
    }
    fn mutate(self: Pin<&mut Self>, v: &mut V, s: &mut Src) {
        let m = self.mut_slice();
        let mut w = v.s().to_string();
        if s.chance(1, 2) {
            m.make_ascii_uppercase();
            w.make_ascii_uppercase();
        } else {
            m.make_ascii_lowercase();
            w.make_ascii_lowercase();
        }
        crate::check!(m == w.as_str(), "mutable string slice differs from the model");
        *v = S(w);
    }
    fn extents(&self, out: &mut Vec<(usize, usize)>) {
        out.push((self.as_ptr() as usize, self.len()));
    }
}

// ---- Tuples ----

macro_rules! tup {
    ($name:ident, $m:ident, $( $t:ident $i:tt ),*) => {
        impl<$($t: Modeled),*> Modeled for $name<$($t),*> {
            fn desc() -> Desc {
                Desc::Tup(vec![$($t::desc()),*])
            }
            fn init<'a>(v: &'a V, s: &mut Src) -> BoxInit<'a, Self> {
                let vs = v.l();
                bi($m::Init($($t::init_nested(&vs[$i], s)),*))
            }
            fn view(&self) -> V {
                let r = self.refs();
                L(vec![$(r.$i.view()),*])
            }
            fn mutate(self: Pin<&mut Self>, v: &mut V, s: &mut Src) {
                let vs = v.lm();
                let n = vs.len();
                let which = s.idx(n);
                let both = s.chance(1, 2);
                let m = self.muts();
                // All the components are mutably borrowed at the same time here.
                $(
                    if $i == which || both {
                        m.$i.mutate(&mut vs[$i], s);
                    }
                )*
            }
            fn extents(&self, out: &mut Vec<(usize, usize)>) {
                let r = self.refs();
                $( r.$i.extents(out); )*
            }
        }
    }
}
tup!(Tup2, tup2, A 0, B 1);
tup!(Tup3, tup3, A 0, B 1, C 2);
tup!(Tup4, tup4, A 0, B 1, C 2, D 3);
tup!(Tup5, tup5, A 0, B 1, C 2, D 3, E 4);

// ---- Cloning, where available ----

pub type CloneFn<T> = for<'a> fn(&'a T) -> BoxInit<'a, T>;
pub fn vclone_of<T: Modeled + for<'a> VClone<'a>>(t: &T) -> BoxInit<'_, T> {
    bi(t.vclone())
}
pub fn vcopy_of<T: Modeled + for<'a> VCopy<'a>>(t: &T) -> BoxInit<'_, T> {
    bi(t.vcopy())
}
pub fn box_clone_of<T: Modeled + for<'a> VClone<'a>>(t: &VBox<T>) -> VBox<T> {
    t.clone()
}
/// What a type offers beyond `Modeled`.
pub struct Caps<T: VarLen> {
    pub vclone: Option<CloneFn<T>>,
    pub vcopy: Option<CloneFn<T>>,
    pub bclone: Option<fn(&VBox<T>) -> VBox<T>>,
}
impl<T: Modeled> Caps<T> {
    pub fn none() -> Self {
        Caps { vclone: None, vcopy: None, bclone: None }
    }
    pub fn clone() -> Self
    where
        T: for<'a> VClone<'a>,
    {
        Caps { vclone: Some(vclone_of::<T>), vcopy: None, bclone: Some(box_clone_of::<T>) }
    }
    pub fn copy() -> Self
    where
        T: for<'a> VCopy<'a>,
    {
        Caps { vclone: Some(vclone_of::<T>), vcopy: Some(vcopy_of::<T>), bclone: Some(box_clone_of::<T>) }
    }
}
