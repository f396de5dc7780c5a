//! Newtypes and macro-defined structs, and the catalog of types that cases draw from.

use crate::elem::*;
use crate::modeled::*;
use crate::src::Src;
use crate::track::{Tr, TrZ};
use crate::value::*;
use varlen::array::ArrayLen;
use varlen::newtype::*;
use varlen::prelude::*;
use varlen::VCopy;
use V::*;

// ---- Newtypes ----

#[macro_export]
macro_rules! model_newtype {
    ($t:ty, $inner:ty, $init:path, $r:ident, $m:ident, [$($g:tt)*]) => {
        impl<$($g)*> $crate::modeled::Modeled for $t {
            fn desc() -> $crate::value::Desc {
                $crate::value::Desc::New(Box::new(<$inner as $crate::modeled::Modeled>::desc()))
            }
            fn init<'a>(v: &'a $crate::value::V, s: &mut $crate::src::Src) -> $crate::modeled::BoxInit<'a, Self> {
                $crate::modeled::bi($init(<$inner as $crate::modeled::Modeled>::init_nested(v, s)))
            }
            fn view(&self) -> $crate::value::V {
                self.$r().view()
            }
            fn mutate(self: core::pin::Pin<&mut Self>, v: &mut $crate::value::V, s: &mut $crate::src::Src) {
                self.$m().mutate(v, s)
            }
            fn extents(&self, out: &mut Vec<(usize, usize)>) {
                self.$r().extents(out)
            }
        }
    };
}

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NStr(Str<u8>);
    with init: pub struct NStrInit<_>(pub _);
    with inner_ref: pub fn ir(&self) -> &_;
    with inner_mut: pub fn im(self: _) -> _;
}
model_newtype!(NStr, Str<u8>, NStrInit, ir, im, []);
// Methods of a user that happen to be called like those of the library's traits are not meant.
impl<I> NStrInit<I> {
    pub fn initialize<P, L>(self, _: P, _: L) {
        panic!("a method of the user is called instead of Initializer::initialize");
    }
    pub fn calculate_layout_cautious<L>(&self) -> Option<L> {
        panic!("a method of the user is called instead of Initializer::calculate_layout_cautious");
    }
}
impl NTup {
    pub fn calculate_layout(&self) -> <NTup as VarLen>::Layout {
        panic!("a method of the user is called instead of VarLen::calculate_layout");
    }
    pub fn vdrop<L>(self: core::pin::Pin<&mut Self>, _: L) {
        panic!("a method of the user is called instead of VarLen::vdrop");
    }
}
impl SB {
    pub fn calculate_layout(&self) -> sb::VarLenLayout {
        panic!("a method of the user is called instead of VarLen::calculate_layout");
    }
    pub fn vdrop<L>(self: core::pin::Pin<&mut Self>, _: L) {
        panic!("a method of the user is called instead of VarLen::vdrop");
    }
}
pub struct NStrCloner<'a>(NStrInit<<Str<u8> as VClone<'a>>::Cloner>);
impl_initializer_as_newtype! {
    impl<('a)> Initializer<NStr> for NStrCloner<'a> { _ }
}
impl<'a> VClone<'a> for NStr {
    type Cloner = NStrCloner<'a>;
    fn vclone(&'a self) -> NStrCloner<'a> {
        NStrCloner(NStrInit(self.ir().vclone()))
    }
}
unsafe impl<'a> VCopy<'a> for NStr {}

pub type NTupInner = Tup2<FixedLen<Tr>, Array<u16, u8>>;
define_varlen_newtype! {
    #[repr(transparent)]
    /// Documented.
    pub struct NTup(pub NTupInner);
    with init: #[derive(Clone)] pub struct NTupInit<_>(pub _);
    with inner_ref: #[inline] pub fn ir(&self) -> &_;
    with inner_mut: #[inline] pub fn im(self: _) -> _;
}
model_newtype!(NTup, NTupInner, NTupInit, ir, im, []);

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NGen<(T), (L: ArrayLen = u16)>(Array<T, L>);
    with signature: impl<(T), (L: ArrayLen)> NGen<(T), (L)> { _ }
    with init: pub struct NGenInit<_>(pub _);
    with inner_ref: pub fn ir(&self) -> &_;
    with inner_mut: pub fn im(self: _) -> _;
}
model_newtype!(NGen<T, L>, Array<T, L>, NGenInit, ir, im, [T: Elem, L: Len]);

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NFix(FixedLen<Tr>);
    with init: pub struct NFixInit<_>(pub _);
    with inner_ref: pub fn ir(&self) -> &_;
    with inner_mut: pub fn im(self: _) -> _;
}
model_newtype!(NFix, FixedLen<Tr>, NFixInit, ir, im, []);

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NZ(NZInner);
    with init: pub struct NZInit<_>(pub _);
    with inner_ref: pub fn ir(&self) -> &_;
    with inner_mut: pub fn im(self: _) -> _;
}
/// No bytes, but destructors.
pub type NZInner = Tup2<FixedLen<TrZ>, FixedLen<TrZ>>;
model_newtype!(NZ, NZInner, NZInit, ir, im, []);

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NN(NTup);
    with init: pub struct NNInit<_>(pub _);
    with inner_ref: pub fn ir(&self) -> &_;
    with inner_mut: pub fn im(self: _) -> _;
}
model_newtype!(NN, NTup, NNInit, ir, im, []);

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NStruct(SB);
    with init: pub struct NStructInit<_>(pub _);
    with inner_ref: pub fn ir(&self) -> &_;
    with inner_mut: pub fn im(self: _) -> _;
}
model_newtype!(NStruct, SB, NStructInit, ir, im, []);

// ---- Macro-defined structs ----

/// Implements `Modeled` for a struct defined with `define_varlen`:
/// `model_struct!(S, s, gen_fn, [norm a: u32, ctl n: u8, var s: Str, arr d: u16]);`
#[macro_export]
macro_rules! model_struct {
    ($t:ty, $m:ident, $gen:path, [$($k:ident $f:ident : $ft:ty),* $(,)?]) => {
        // Exactly these fields.
        const _: () = {
            #[allow(unused_variables, dead_code)]
            fn exact(mut x: core::pin::Pin<&mut $t>) {
                { let $m::Refs { $($f),* } = x.refs(); }
                { let $m::Muts { $($f),* } = x.as_mut().muts(); }
            }
        };
        impl $crate::modeled::Modeled for $t {
            fn desc() -> $crate::value::Desc {
                $crate::value::Desc::Struct($crate::value::Sd {
                    header: core::mem::size_of::<$t>(),
                    halign: core::mem::align_of::<$t>(),
                    fields: vec![$( $crate::ms_desc!($k $ft) ),*],
                    gen: $gen,
                })
            }
            #[allow(unused_variables, unused_mut)]
            fn init<'a>(v: &'a $crate::value::V, s: &mut $crate::src::Src) -> $crate::modeled::BoxInit<'a, Self> {
                let mut vs = v.l().iter();
                $crate::modeled::bi($m::Init { $( $f: { let v = vs.next().unwrap(); $crate::ms_init!($k $ft, v, s) } ),* })
            }
            fn view(&self) -> $crate::value::V {
                #[allow(unused_variables)]
                let r = self.refs();
                $crate::value::V::L(vec![$( $crate::ms_view!($k $ft, r.$f) ),*])
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn mutate(self: core::pin::Pin<&mut Self>, v: &mut $crate::value::V, s: &mut $crate::src::Src) {
                let vs = v.lm();
                let n = vs.len();
                let which = s.idx(n);
                let all = s.chance(1, 2);
                let mut i = 0;
                // All the fields are mutably borrowed at the same time here.
                let mut m = self.muts();
                $(
                    if i == which || all {
                        $crate::ms_mut!($k $ft, m.$f, &mut vs[i], s);
                    }
                    i += 1;
                )*
            }
            #[allow(unused_variables)]
            fn extents(&self, out: &mut Vec<(usize, usize)>) {
                let r = self.refs();
                $( $crate::ms_ext!($k r.$f, out); )*
            }
            #[allow(unused_variables)]
            fn header_extents(&self, out: &mut Vec<(usize, usize, usize)>) {
                let r = self.refs();
                $( $crate::ms_hext!($k r.$f, &self.$f, out); )*
            }
        }
    };
}
#[macro_export]
macro_rules! ms_desc {
    (norm $t:ty) => { $crate::value::Fd::Normal(<$t as $crate::elem::Elem>::ed()) };
    (ctl $t:ty) => { $crate::value::Fd::Ctl(<$t as $crate::elem::Elem>::ed()) };
    (var $t:ty) => { $crate::value::Fd::Var(<$t as $crate::modeled::Modeled>::desc()) };
    (arr $t:ty) => { $crate::value::Fd::Arr(<$t as $crate::elem::Elem>::ed()) };
}
#[macro_export]
macro_rules! ms_init {
    (norm $t:ty, $v:expr, $s:expr) => { <$t as $crate::elem::Elem>::make($v) };
    (ctl $t:ty, $v:expr, $s:expr) => { <$t as $crate::elem::Elem>::make($v) };
    (var $t:ty, $v:expr, $s:expr) => { <$t as $crate::modeled::Modeled>::init_nested($v, $s) };
    (arr $t:ty, $v:expr, $s:expr) => { $crate::modeled::any_arr::<$t>($v.l(), $s) };
}
#[macro_export]
macro_rules! ms_view {
    (norm $t:ty, $r:expr) => { <$t as $crate::elem::Elem>::view($r) };
    (ctl $t:ty, $r:expr) => { <$t as $crate::elem::Elem>::view($r) };
    (var $t:ty, $r:expr) => { <$t as $crate::modeled::Modeled>::view($r) };
    (arr $t:ty, $r:expr) => {{
        let a: &[$t] = $r;
        $crate::value::V::L(a.iter().map(<$t as $crate::elem::Elem>::view).collect())
    }};
}
#[macro_export]
macro_rules! ms_mut {
    (norm $t:ty, $r:expr, $v:expr, $s:expr) => {{
        let r: &mut $t = $r;
        let n = <$t as $crate::elem::Elem>::gen($s);
        *r = <$t as $crate::elem::Elem>::make(&n);
        *$v = n;
    }};
    (ctl $t:ty, $r:expr, $v:expr, $s:expr) => {{
        let r: &$t = $r;
        let w = <$t as $crate::elem::Elem>::view(r);
        $crate::check!(w == *$v, "length field read through muts() is {:?}, expected {:?}", w, $v);
    }};
    (var $t:ty, $r:expr, $v:expr, $s:expr) => { <$t as $crate::modeled::Modeled>::mutate($r.as_mut(), $v, $s) };
    (arr $t:ty, $r:expr, $v:expr, $s:expr) => { $crate::modeled::mutate_slice::<$t>($r, $v.lm(), $s) };
}
#[macro_export]
macro_rules! ms_ext {
    (norm $r:expr, $o:expr) => {};
    (ctl $r:expr, $o:expr) => {};
    (var $r:expr, $o:expr) => { $crate::modeled::Modeled::extents($r, $o) };
    (arr $r:expr, $o:expr) => { $o.push(($r.as_ptr() as usize, core::mem::size_of_val($r))) };
}
#[macro_export]
macro_rules! ms_hext {
    (norm $r:expr, $d:expr, $o:expr) => {{
        $crate::check!($r as *const _ == $d as *const _, "refs() gives another field of the header");
        $o.push(($r as *const _ as usize, core::mem::size_of_val($r), core::mem::align_of_val($r)))
    }};
    (ctl $r:expr, $d:expr, $o:expr) => { $crate::ms_hext!(norm $r, $d, $o) };
    (var $r:expr, $d:expr, $o:expr) => {};
    (arr $r:expr, $d:expr, $o:expr) => {};
}

#[define_varlen]
pub struct SA {
    pub a: u32,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub data: [u16; *n as usize],
    #[varlen]
    pub s: Str,
}
fn gen_sa(s: &mut Src) -> V {
    let d = gen_elems(s, u16::ed(), 255);
    L(vec![u32::gen(s), N(d.len() as u64), L(d), S(gen_str(s, u64::MAX))])
}
model_struct!(SA, sa, gen_sa, [norm a: u32, ctl n: u8, arr data: u16, var s: Str]);

#[define_varlen]
pub struct SB {
    name: String,
    #[varlen]
    t: Array<Tr, u8>,
    #[controls_layout]
    n: u16,
    #[controls_layout]
    k: u8,
    #[varlen_array]
    xs: [Tr; *n as usize],
    flag: Tr,
    #[varlen_array]
    ys: [String; *n as usize + *k as usize],
    #[varlen_array]
    zs: [u8; 3],
}
fn gen_sb(s: &mut Src) -> V {
    let n = gen_len(s, 20) as u64;
    let k = s.below(4);
    L(vec![
        String::gen(s),
        L(gen_elems(s, Tr::ed(), 30)),
        N(n),
        N(k),
        L(gen_elems_n(s, Tr::ed(), n as usize)),
        Tr::gen(s),
        L(gen_elems_n(s, String::ed(), (n + k) as usize)),
        L(gen_elems_n(s, u8::ed(), 3)),
    ])
}
model_struct!(SB, sb, gen_sb, [norm name: String, var t: Array<Tr, u8>, ctl n: u16, ctl k: u8, arr xs: Tr, norm flag: Tr, arr ys: String, arr zs: u8]);

/// Nothing of variable length.
#[define_varlen]
pub struct SC {
    pub x: u8,
    pub y: Tr,
}
fn gen_sc(s: &mut Src) -> V {
    L(vec![u8::gen(s), Tr::gen(s)])
}
model_struct!(SC, sc, gen_sc, [norm x: u8, norm y: Tr]);

/// No header at all; a constant length.
#[define_varlen]
pub struct SD {
    #[varlen]
    pub s: Array<A16<u8>, u8>,
    #[varlen_array]
    pub c: [u8; 5],
    #[varlen]
    pub t: Tup2<FixedLen<u8>, Array<u64, u8>>,
}
fn gen_sd(s: &mut Src) -> V {
    L(vec![<Array<A16<u8>, u8>>::desc().gen(s), L(gen_elems_n(s, u8::ed(), 5)), <Tup2<FixedLen<u8>, Array<u64, u8>>>::desc().gen(s)])
}
model_struct!(SD, sd, gen_sd, [var s: Array<A16<u8>, u8>, arr c: u8, var t: Tup2<FixedLen<u8>, Array<u64, u8>>]);

/// Nested structs, over-aligned header.
#[define_varlen]
#[repr(align(32))]
pub struct SE {
    #[varlen]
    pub inner: SA,
    pub b: A2<u8>,
    #[varlen]
    pub other: NTup,
    #[controls_layout]
    pub n: usize,
    #[varlen_array]
    pub f: [A64<u8>; n.saturating_sub(1)],
}
fn gen_se(s: &mut Src) -> V {
    let n = s.below(4);
    L(vec![
        gen_sa(s),
        u8::gen(s),
        NTup::desc().gen(s),
        N(n),
        L(gen_elems_n(s, u8::ed(), n.saturating_sub(1) as usize)),
    ])
}
model_struct!(SE, se, gen_se, [var inner: SA, norm b: A2<u8>, var other: NTup, ctl n: usize, arr f: A64<u8>]);

/// Only zero-sized things.
#[define_varlen]
pub struct SZ {
    pub z: TrZ,
    #[varlen_array]
    pub zs: [TrZ; 3],
    #[varlen]
    pub f: FixedLen<()>,
}
fn gen_sz(_: &mut Src) -> V {
    L(vec![N(0), L(vec![N(0); 3]), N(0)])
}
model_struct!(SZ, sz, gen_sz, [norm z: TrZ, arr zs: TrZ, var f: FixedLen<()>]);

/// Generic in a variable-length field.
#[define_varlen]
pub struct SG<T: VarLen = Str> {
    pub id: u64,
    #[varlen]
    pub x: T,
    #[varlen]
    pub y: Array<u8, u16>,
}
pub type SGT = SG<Tup2<FixedLen<Tr>, Str<u8>>>;
fn gen_sg(s: &mut Src) -> V {
    L(vec![u64::gen(s), <Tup2<FixedLen<Tr>, Str<u8>>>::desc().gen(s), <Array<u8, u16>>::desc().gen(s)])
}
model_struct!(SGT, sg, gen_sg, [norm id: u64, var x: Tup2<FixedLen<Tr>, Str<u8>>, var y: Array<u8, u16>]);

/// Only arrays; lengths by arithmetic over several controllers.
#[define_varlen]
pub struct SM {
    #[controls_layout]
    pub rows: u8,
    #[controls_layout]
    pub cols: u16,
    #[controls_layout]
    pub sym: bool,
    #[varlen_array]
    pub m: [u32; (*rows as usize) * (*cols as usize)],
    #[varlen_array]
    pub d: [Tr; if *sym { *rows as usize } else { 0 }],
}
fn gen_sm(s: &mut Src) -> V {
    let (r, c, y) = (s.below(5), s.below(5), s.below(2));
    L(vec![N(r), N(c), N(y), L(gen_elems_n(s, u32::ed(), (r * c) as usize)), L(gen_elems_n(s, Tr::ed(), (r * y) as usize))])
}
model_struct!(SM, sm, gen_sm, [ctl rows: u8, ctl cols: u16, ctl sym: bool, arr m: u32, arr d: Tr]);

/// Lengths with slack: several settings of the controllers give the same lengths.
#[define_varlen]
pub struct SH {
    #[controls_layout]
    pub a: u8,
    pub x: u64,
    #[varlen_array]
    pub xs: [u16; (*a as usize + *b as usize) / 2],
    #[varlen]
    pub tail: Str<u8>,
    #[controls_layout]
    pub b: u8,
}
fn gen_sh(s: &mut Src) -> V {
    let (a, b) = (s.below(6), s.below(6));
    L(vec![N(a), u64::gen(s), L(gen_elems_n(s, u16::ed(), ((a + b) / 2) as usize)), S(gen_str(s, 40)), N(b)])
}
model_struct!(SH, sh, gen_sh, [ctl a: u8, norm x: u64, arr xs: u16, var tail: Str<u8>, ctl b: u8]);

/// Lengths whose destructor can be observed.
#[define_varlen]
pub struct SK {
    #[controls_layout]
    pub a: P,
    #[varlen_array]
    pub xs: [Tr; a.0 as usize + b.0 as usize + *c as usize],
    #[controls_layout]
    pub b: P,
    #[controls_layout]
    pub c: u16,
    #[varlen_array]
    pub ys: [u32; if a.0 > b.0 { (a.0 - b.0) as usize } else { (b.0 - a.0) as usize }],
    pub t: Tr,
}
fn gen_sk(s: &mut Src) -> V {
    let (a, b, c) = (P::gen(s), P::gen(s), s.below(3));
    let (x, y) = (a.l()[0].n(), b.l()[0].n());
    L(vec![
        a,
        L(gen_elems_n(s, Tr::ed(), (x + y + c) as usize)),
        b,
        N(c),
        L(gen_elems_n(s, u32::ed(), x.abs_diff(y) as usize)),
        Tr::gen(s),
    ])
}
model_struct!(SK, sk, gen_sk, [ctl a: P, arr xs: Tr, ctl b: P, ctl c: u16, arr ys: u32, norm t: Tr]);

/// The only destructors are those of a length.
#[define_varlen]
pub struct SL {
    #[controls_layout]
    pub n: P,
    #[varlen_array]
    pub d: [u8; n.0 as usize],
}
fn gen_sl(s: &mut Src) -> V {
    let n = P::gen(s);
    let k = n.l()[0].n() as usize;
    L(vec![n, L(gen_elems_n(s, u8::ed(), k))])
}
model_struct!(SL, sl, gen_sl, [ctl n: P, arr d: u8]);

/// The only destructor is that of a plain field.
#[define_varlen]
pub struct SQ {
    pub t: Tr,
    #[varlen]
    pub s: Str<u8>,
}
fn gen_sq(s: &mut Src) -> V {
    L(vec![Tr::gen(s), S(gen_str(s, 40))])
}
model_struct!(SQ, sq, gen_sq, [norm t: Tr, var s: Str<u8>]);

/// The only destructor is that of a variable-length field.
#[define_varlen]
pub struct SO {
    #[varlen]
    pub o: Tup2<Str<u8>, FixedLen<Tr>>,
    pub k: u16,
}
fn gen_so(s: &mut Src) -> V {
    L(vec![L(vec![S(gen_str(s, 40)), Tr::gen(s)]), u16::gen(s)])
}
model_struct!(SO, so, gen_so, [var o: Tup2<Str<u8>, FixedLen<Tr>>, norm k: u16]);

/// The only destructors are those of an array.
#[define_varlen]
pub struct SI {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub d: [Tr; *n as usize],
}
fn gen_si(s: &mut Src) -> V {
    let n = s.below(6);
    L(vec![N(n), L(gen_elems_n(s, Tr::ed(), n as usize))])
}
model_struct!(SI, si, gen_si, [ctl n: u8, arr d: Tr]);

/// The lengths are in memory that the header owns.
#[define_varlen]
pub struct SX {
    #[varlen_array]
    pub d: [Tr; **n as usize],
    #[controls_layout]
    pub n: Box<u32>,
    pub p: String,
    #[varlen]
    pub s: Str<u8>,
    #[varlen_array]
    pub e: [u16; (**n + **k) as usize],
    #[controls_layout]
    pub k: Box<u32>,
}
fn gen_sx(s: &mut Src) -> V {
    let (n, k) = (s.below(6), s.below(6));
    L(vec![
        L(gen_elems_n(s, Tr::ed(), n as usize)),
        N(n),
        String::gen(s),
        S(gen_str(s, 40)),
        L(gen_elems_n(s, u16::ed(), (n + k) as usize)),
        N(k),
    ])
}
model_struct!(SX, sx, gen_sx, [arr d: Tr, ctl n: Box<u32>, norm p: String, var s: Str<u8>, arr e: u16, ctl k: Box<u32>]);

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NSL(SL);
    with init: pub struct NSLInit<_>(pub _);
    with inner_ref: pub fn ir(&self) -> &_;
    with inner_mut: pub fn im(self: _) -> _;
}
model_newtype!(NSL, SL, NSLInit, ir, im, []);

// ---- Setting the layout controllers ----

pub trait Controlled: Modeled {
    /// The array lengths that these values of the controllers give.
    fn lens(c: &[V]) -> Vec<u64>;
    /// True if it succeeded.
    fn set(self: core::pin::Pin<&mut Self>, c: &[V]) -> bool;
}
#[macro_export]
macro_rules! controlled {
    ($t:ty, $m:ident, [$($f:ident: $ft:ty),* $(,)?], |$c:ident| $lens:expr) => {
        const _: () = {
            #[allow(unused_variables, dead_code)]
            fn exact(x: $m::LayoutControllers) {
                let $m::LayoutControllers { $($f),* } = x;
            }
        };
        impl $crate::types::Controlled for $t {
            #[allow(unused_variables)]
            fn lens($c: &[$crate::value::V]) -> Vec<u64> {
                $lens
            }
            #[allow(unused_variables, unused_mut)]
            fn set(self: core::pin::Pin<&mut Self>, c: &[$crate::value::V]) -> bool {
                let mut c = c.iter();
                let l = $m::LayoutControllers { $( $f: <$ft as $crate::elem::Elem>::make(c.next().unwrap()) ),* };
                self.try_set_layout_controllers(l).is_ok()
            }
        }
    };
}
controlled!(SA, sa, [n: u8], |c| vec![c[0].n()]);
controlled!(SB, sb, [n: u16, k: u8], |c| vec![c[0].n(), c[0].n() + c[1].n(), 3]);
controlled!(SC, sc, [], |c| vec![]);
controlled!(SE, se, [n: usize], |c| vec![c[0].n().saturating_sub(1)]);
controlled!(SL, sl, [n: P], |c| vec![c[0].l()[0].n()]);
controlled!(SI, si, [n: u8], |c| vec![c[0].n()]);
controlled!(SX, sx, [n: Box<u32>, k: Box<u32>], |c| vec![c[0].n(), c[0].n() + c[1].n()]);
controlled!(SM, sm, [rows: u8, cols: u16, sym: bool], |c| vec![c[0].n() * c[1].n(), c[0].n() * c[2].n()]);
controlled!(SH, sh, [a: u8, b: u8], |c| vec![(c[0].n() + c[1].n()) / 2]);
controlled!(SK, sk, [a: P, b: P, c: u16], |c| {
    let (a, b) = (c[0].l()[0].n(), c[1].l()[0].n());
    vec![a + b + c[2].n(), a.abs_diff(b)]
});

// ---- The catalog ----

/// Calls `$mac!(type, capabilities)` for every catalog type.
#[macro_export]
macro_rules! for_types {
    ($mac:ident) => {
        $mac! {
            // Fixed length
            FixedLen<u8>, copy;
            FixedLen<u64>, copy;
            FixedLen<()>, copy;
            FixedLen<[u64; 0]>, copy;
            FixedLen<Tr>, clone;
            FixedLen<TrZ>, clone;
            FixedLen<A64<u16>>, copy;
            FixedLen<Vec<Tr>>, clone;
            FixedLen<Option<Box<u64>>>, clone;
            FixedLen<Seq<Tup2<FixedLen<Tr>, Str<u8>>>>, none;
            FixedLen<VBox<Str>>, clone;
            FixedLen<Cn>, clone;
            // Arrays
            Array<u8>, copy;
            Array<u8, u8>, copy;
            Array<u16, u8>, copy;
            Array<u64, u8>, copy;
            Array<u128, u16>, copy;
            Array<bool, u32>, copy;
            Array<Tr, u16>, clone;
            Array<Tr, u64>, clone;
            Array<TrZ, u8>, clone;
            Array<()>, copy;
            Array<[u64; 0], u8>, copy;
            Array<String, u32>, clone;
            Array<A16<u8>, u8>, copy;
            Array<Pad, u8>, copy;
            Array<[u8; 3], u16>, copy;
            Array<Box<u32>>, clone;
            Array<(u8, Tr), u8>, clone;
            Array<Cn, u16>, clone;
            Array<CnZ, u8>, clone;
            Array<Cc>, copy;
            // Strings
            Str, copy;
            Str<u8>, copy;
            Str<u16>, copy;
            // Tuples
            Tup2<FixedLen<u8>, Array<u64, u8>>, copy;
            Tup2<Str<u8>, Str<u16>>, copy;
            Tup3<FixedLen<Cn>, Array<Cc, u8>, Array<Cn>>, clone;
            Tup2<FixedLen<()>, FixedLen<()>>, copy;
            Tup2<FixedLen<TrZ>, Array<TrZ, u8>>, clone;
            Tup3<Array<Tr, u8>, FixedLen<u8>, Array<u32, u16>>, clone;
            Tup3<Str<u8>, FixedLen<Tr>, FixedLen<String>>, clone;
            Tup4<FixedLen<u8>, FixedLen<A16<u8>>, Array<u8, u8>, Array<A2<u8>, u8>>, copy;
            Tup5<FixedLen<u16>, Array<Tr, u8>, Str, Array<String, u8>, FixedLen<u64>>, clone;
            Tup2<Tup2<Str<u8>, Array<u16, u8>>, Tup3<FixedLen<u8>, FixedLen<u32>, Array<Tr>>>, clone;
            // Newtypes
            NStr, copy;
            NTup, none;
            NGen<Tr, u16>, none;
            NFix, none;
            NZ, none;
            Tup3<NZ, Array<TrZ, u8>, NFix>, none;
            NN, none;
            NStruct, none;
            // Macro-defined structs
            SA, none;
            SB, none;
            SC, none;
            SD, none;
            SE, none;
            SZ, none;
            SGT, none;
            SM, none;
            SH, none;
            SK, none;
            SL, none;
            SQ, none;
            SI, none;
            SX, none;
            NSL, none;
            Tup2<FixedLen<u8>, SL>, none;
            Tup3<SQ, Array<u16, u8>, SO>, none;
            Tup2<SI, FixedLen<u8>>, none;
            Tup2<SX, Str<u16>>, none;
        }
    };
}
