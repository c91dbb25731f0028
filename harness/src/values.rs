//! Generators for the values a property can hold, and their canonical form in the models: the type
//! and the bytes. It is written out by variant, so that nothing here goes through the conversions
//! that are under test.
use crate::pbt::Src;
use arena::generational_arena as ga;
use tp_client::contract::properties::channels::{dyn_channel as dc, Channel, DynChannel, Keyframe};
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::traits::{ITpData, ITpPropertyStatic};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

pub use tp_client::contract::properties::dynamic::{TpPrimitiveType as PT, TpPropertyType as Ty};

/// Calls `$m!{ Variant type, ... }` (after optional leading tokens) for the 14 primitive types
#[macro_export]
macro_rules! each_prim {
    ($m:ident $(; $($x:tt)*)?) => {
        $m! { $($($x)*)?
            U8 u8, U16 u16, U32 u32, U64 u64, I8 i8, I16 i16, I32 i32, I64 i64, Bool bool,
            F32 f32, F64 f64, String String,
            ObjectHandle tp_client::object::ObjectHandle,
            ContractDataHandle tp_client::contract::ContractDataHandle
        }
    };
}

pub const PRIMS: [PT; 14] = [
    PT::U8,
    PT::U16,
    PT::U32,
    PT::U64,
    PT::I8,
    PT::I16,
    PT::I32,
    PT::I64,
    PT::Bool,
    PT::F32,
    PT::F64,
    PT::String,
    PT::ObjectHandle,
    PT::ContractDataHandle,
];

pub fn prim_name(p: PT) -> &'static str {
    macro_rules! names {
        ($($v:ident $t:ty),*) => { match p { $(PT::$v => stringify!($v)),* } };
    }
    each_prim!(names)
}
pub fn ty_name(t: Ty) -> String {
    match t {
        Ty::Primitive(p) => prim_name(p).to_string(),
        Ty::Vec(p) => format!("Vec<{}>", prim_name(p)),
    }
}
pub fn ty_key(t: Ty) -> usize {
    let i = |p| PRIMS.iter().position(|q| *q == p).unwrap();
    match t {
        Ty::Primitive(p) => i(p),
        Ty::Vec(p) => 14 + i(p),
    }
}
pub fn ty_of_key(k: usize) -> Ty {
    if k < 14 {
        Ty::Primitive(PRIMS[k])
    } else {
        Ty::Vec(PRIMS[k - 14])
    }
}
pub fn any_ty(s: &mut Src) -> Ty {
    ty_of_key(s.below(28))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Val {
    pub ty: usize,
    pub parts: Vec<Vec<u8>>,
}
impl Val {
    pub fn ty(&self) -> Ty {
        ty_of_key(self.ty)
    }
    pub fn show(&self) -> String {
        fn hex(b: &[u8]) -> String {
            b.iter().map(|b| format!("{b:02x}")).collect()
        }
        let p: Vec<String> = self.parts.iter().map(|p| hex(p)).collect();
        format!("{}({})", ty_name(self.ty()), p.join(" "))
    }
}

pub trait Prim: ITpData {
    const PT: PT;
    fn gen(s: &mut Src) -> Self;
    fn enc(&self) -> Vec<u8>;
    fn dec(b: &[u8]) -> Self;
    fn to_dyn(self) -> DynTpProperty;
    fn vec_to_dyn(v: Vec<Self>) -> DynTpProperty;
    fn chan_to_dyn(c: Channel<Self>) -> DynChannel;
    fn vec_chan_to_dyn(c: Channel<Vec<Self>>) -> DynChannel;
}

pub trait Codec: Sized {
    fn cgen(s: &mut Src) -> Self;
    fn cenc(&self) -> Vec<u8>;
    fn cdec(b: &[u8]) -> Self;
}
macro_rules! int_codec {
    ($($t:ty : $w:literal),*) => { $(impl Codec for $t {
        fn cgen(s: &mut Src) -> Self { s.bits($w) as $t }
        fn cenc(&self) -> Vec<u8> { self.to_be_bytes().to_vec() }
        fn cdec(b: &[u8]) -> Self { <$t>::from_be_bytes(b.try_into().unwrap()) }
    })* };
}
int_codec!(u8: 8, u16: 16, u32: 32, u64: 64, i8: 8, i16: 16, i32: 32, i64: 64);
impl Codec for bool {
    fn cgen(s: &mut Src) -> Self {
        s.bool()
    }
    fn cenc(&self) -> Vec<u8> {
        vec![*self as u8]
    }
    fn cdec(b: &[u8]) -> Self {
        b[0] == 1
    }
}
impl Codec for f32 {
    fn cgen(s: &mut Src) -> Self {
        s.f32()
    }
    fn cenc(&self) -> Vec<u8> {
        self.to_bits().to_be_bytes().to_vec()
    }
    fn cdec(b: &[u8]) -> Self {
        f32::from_bits(u32::from_be_bytes(b.try_into().unwrap()))
    }
}
impl Codec for f64 {
    fn cgen(s: &mut Src) -> Self {
        s.f64()
    }
    fn cenc(&self) -> Vec<u8> {
        self.to_bits().to_be_bytes().to_vec()
    }
    fn cdec(b: &[u8]) -> Self {
        f64::from_bits(u64::from_be_bytes(b.try_into().unwrap()))
    }
}
impl Codec for String {
    fn cgen(s: &mut Src) -> Self {
        s.string()
    }
    fn cenc(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn cdec(b: &[u8]) -> Self {
        String::from_utf8(b.to_vec()).unwrap()
    }
}
pub fn raw<T>(h: arena::Index<T>) -> (usize, u64) {
    let i: ga::Index = h.into();
    i.into_raw_parts()
}
pub fn idx<T>(slot: usize, gen: u64) -> arena::Index<T> {
    arena::Index::new(ga::Index::from_raw_parts(slot, gen))
}
impl<T> Codec for arena::Index<T> {
    fn cgen(s: &mut Src) -> Self {
        // as values, handles may refer to anything
        idx(s.draw(5) as usize, s.draw(5))
    }
    fn cenc(&self) -> Vec<u8> {
        let (a, b) = raw(*self);
        let mut v = (a as u64).to_be_bytes().to_vec();
        v.extend(b.to_be_bytes());
        v
    }
    fn cdec(b: &[u8]) -> Self {
        idx(
            u64::from_be_bytes(b[..8].try_into().unwrap()) as usize,
            u64::from_be_bytes(b[8..].try_into().unwrap()),
        )
    }
}

macro_rules! impl_prim {
    ($($v:ident $t:ty),*) => { $(
        impl Prim for $t {
            const PT: PT = PT::$v;
            fn gen(s: &mut Src) -> Self { <$t as Codec>::cgen(s) }
            fn enc(&self) -> Vec<u8> { self.cenc() }
            fn dec(b: &[u8]) -> Self { <$t as Codec>::cdec(b) }
            fn to_dyn(self) -> DynTpProperty { DynTpProperty::Primitive(DynTpPrimitive::$v(self)) }
            fn vec_to_dyn(v: Vec<Self>) -> DynTpProperty { DynTpProperty::Vec(DynTpVec::$v(v)) }
            fn chan_to_dyn(c: Channel<Self>) -> DynChannel { DynChannel::Primitive(dc::DynChannelPrimitive::$v(c)) }
            fn vec_chan_to_dyn(c: Channel<Vec<Self>>) -> DynChannel { DynChannel::Vec(dc::DynChannelVec::$v(c)) }
        }
        impl PropT for $t {
            fn key() -> usize { ty_key(Ty::Primitive(PT::$v)) }
            fn gen(s: &mut Src) -> Self { <$t as Prim>::gen(s) }
            fn val(&self) -> Val { Val { ty: Self::key(), parts: vec![self.enc()] } }
            fn of(v: &Val) -> Self { <$t as Prim>::dec(&v.parts[0]) }
            fn into_dyn(self) -> DynTpProperty { self.to_dyn() }
            fn chan_into_dyn(c: Channel<Self>) -> DynChannel { <$t as Prim>::chan_to_dyn(c) }
        }
    )* };
}

/// A type a property can have
pub trait PropT: ITpPropertyStatic {
    fn key() -> usize;
    fn gen(s: &mut Src) -> Self;
    fn val(&self) -> Val;
    fn of(v: &Val) -> Self;
    fn into_dyn(self) -> DynTpProperty;
    fn chan_into_dyn(c: Channel<Self>) -> DynChannel;
}
each_prim!(impl_prim);
impl<T: Prim> PropT for Vec<T> {
    fn key() -> usize {
        ty_key(Ty::Vec(T::PT))
    }
    fn gen(s: &mut Src) -> Self {
        let mean = *s.pick(&[1u32, 0, 4]);
        let few = s.vec(mean, 40, |s| T::gen(s));
        if s.draw(3000) < 3000 || few.is_empty() {
            return few;
        }
        // a long one, of few different items
        let n = 4000 + s.below(6000);
        (0..n).map(|i| T::dec(&few[(i * i + i / 7) % few.len()].enc())).collect()
    }
    fn val(&self) -> Val {
        Val { ty: Self::key(), parts: self.iter().map(|x| x.enc()).collect() }
    }
    fn of(v: &Val) -> Self {
        v.parts.iter().map(|p| T::dec(p)).collect()
    }
    fn into_dyn(self) -> DynTpProperty {
        T::vec_to_dyn(self)
    }
    fn chan_into_dyn(c: Channel<Self>) -> DynChannel {
        T::vec_chan_to_dyn(c)
    }
}

/// `with_ty!(key, T => expr)`: `expr` with `T` bound to the type with that key
#[macro_export]
macro_rules! with_ty {
    ($key:expr, $T:ident => $e:expr) => {
        match $key {
            0 => { type $T = u8; $e }
            1 => { type $T = u16; $e }
            2 => { type $T = u32; $e }
            3 => { type $T = u64; $e }
            4 => { type $T = i8; $e }
            5 => { type $T = i16; $e }
            6 => { type $T = i32; $e }
            7 => { type $T = i64; $e }
            8 => { type $T = bool; $e }
            9 => { type $T = f32; $e }
            10 => { type $T = f64; $e }
            11 => { type $T = String; $e }
            12 => { type $T = tp_client::object::ObjectHandle; $e }
            13 => { type $T = tp_client::contract::ContractDataHandle; $e }
            14 => { type $T = Vec<u8>; $e }
            15 => { type $T = Vec<u16>; $e }
            16 => { type $T = Vec<u32>; $e }
            17 => { type $T = Vec<u64>; $e }
            18 => { type $T = Vec<i8>; $e }
            19 => { type $T = Vec<i16>; $e }
            20 => { type $T = Vec<i32>; $e }
            21 => { type $T = Vec<i64>; $e }
            22 => { type $T = Vec<bool>; $e }
            23 => { type $T = Vec<f32>; $e }
            24 => { type $T = Vec<f64>; $e }
            25 => { type $T = Vec<String>; $e }
            26 => { type $T = Vec<tp_client::object::ObjectHandle>; $e }
            27 => { type $T = Vec<tp_client::contract::ContractDataHandle>; $e }
            k => unreachable!("type key {k}"),
        }
    };
}

pub fn gen_val(s: &mut Src, ty: Ty) -> Val {
    gen_val_key(s, ty_key(ty))
}
fn gen_val_key(s: &mut Src, key: usize) -> Val {
    s.span(|s| crate::with_ty!(key, T => <T as PropT>::gen(s).val()))
}

pub fn to_dyn(v: &Val) -> DynTpProperty {
    crate::with_ty!(v.ty, T => <T as PropT>::of(v).into_dyn())
}

/// A value, read off a dynamic property by variant
pub fn of_dyn(p: &DynTpProperty) -> Val {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match p {
                DynTpProperty::Primitive(p) => match p { $(DynTpPrimitive::$v(x) => x.val()),* },
                DynTpProperty::Vec(p) => match p { $(DynTpVec::$v(x) => x.val()),* },
            }
        };
    }
    each_prim!(arms)
}
pub fn of_ref(p: &DynTpPropertyRef) -> Val {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match p {
                DynTpPropertyRef::Primitive(p) => match p { $(DynTpPrimitiveRef::$v(x) => x.val()),* },
                DynTpPropertyRef::Vec(p) => match p { $(DynTpVecRef::$v(x) => x.to_vec().val()),* },
            }
        };
    }
    each_prim!(arms)
}
pub fn of_mut(p: &DynTpPropertyMut) -> Val {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match p {
                DynTpPropertyMut::Primitive(p) => match p { $(DynTpPrimitiveMut::$v(x) => x.val()),* },
                DynTpPropertyMut::Vec(p) => match p { $(DynTpVecMut::$v(x) => x.to_vec().val()),* },
            }
        };
    }
    each_prim!(arms)
}

// ---- channels in the models: keyframes as (value, bits of the time) ----

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Chan {
    pub ty: usize,
    pub kfs: Vec<(Val, u64)>,
}
impl Chan {
    pub fn show(&self) -> String {
        let k: Vec<String> = self.kfs.iter().map(|(v, t)| format!("{}@{:?}", v.show(), f64::from_bits(*t))).collect();
        format!("channel of {}[{}]", ty_name(ty_of_key(self.ty)), k.join(", "))
    }
}

pub fn gen_time(s: &mut Src) -> f64 {
    match s.weighted(&[6, 2, 1]) {
        0 => s.range(-3, 6) as f64,
        1 => s.range(-4000, 4000) as f64 / 16.0,
        _ => s.f64(),
    }
}

/// Keyframes at ordered times, so that there is only one order they can be in: those of the same
/// time are the same
pub fn gen_chan_ordered(s: &mut Src, ty: Ty) -> Chan {
    let key = ty_key(ty);
    let mut t = s.range(-8, 8) as f64 / 4.0;
    let mut last: Option<(Val, u64)> = None;
    let kfs = s.vec(2, 8, |s| {
        if s.chance(15) {
            if let Some(k) = &last {
                return k.clone();
            }
        }
        let v = gen_val(s, ty);
        t += 0.25 + s.draw(8) as f64 / 4.0;
        last = Some((v.clone(), t.to_bits()));
        (v, t.to_bits())
    });
    let mut c = Chan { ty: key, kfs };
    // now and then the times are huge or tiny, or without end
    if s.chance(12) {
        let scale = 2f64.powi(s.range(-1000, 900) as i32);
        for k in c.kfs.iter_mut() {
            k.1 = (f64::from_bits(k.1) * scale).to_bits();
        }
    }
    if s.chance(20) {
        for k in c.kfs.iter_mut().filter(|k| f64::from_bits(k.1) == 0.0) {
            k.1 = (-0f64).to_bits();
        }
    }
    if s.chance(8) {
        c.kfs.insert(0, (gen_val(s, ty), f64::NEG_INFINITY.to_bits()));
    }
    if s.chance(8) {
        c.kfs.push((gen_val(s, ty), f64::INFINITY.to_bits()));
    }
    c
}

pub fn chan_of<T: PropT>(c: &Chan) -> Channel<T> {
    Channel::new(c.kfs.iter().map(|(v, t)| Keyframe::new(T::of(v), f64::from_bits(*t))))
}
pub fn chan_to_dyn(c: &Chan) -> DynChannel {
    crate::with_ty!(c.ty, T => <T as PropT>::chan_into_dyn(chan_of::<T>(c)))
}
pub fn chan_val<T: PropT>(c: &Channel<T>) -> Chan {
    Chan { ty: T::key(), kfs: c.keyframes().iter().map(|k| (k.value().val(), k.time().to_bits())).collect() }
}
pub fn of_dyn_chan(c: &DynChannel) -> Chan {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match c {
                DynChannel::Primitive(p) => match p { $(dc::DynChannelPrimitive::$v(x) => chan_val(x)),* },
                DynChannel::Vec(p) => match p { $(dc::DynChannelVec::$v(x) => chan_val(x)),* },
            }
        };
    }
    each_prim!(arms)
}
pub fn of_chan_ref(c: &dc::DynChannelRef) -> Chan {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match c {
                dc::DynChannelRef::Primitive(p) => match p { $(dc::DynChannelPrimitiveRef::$v(x) => chan_val(*x)),* },
                dc::DynChannelRef::Vec(p) => match p { $(dc::DynChannelVecRef::$v(x) => chan_val(*x)),* },
            }
        };
    }
    each_prim!(arms)
}
pub fn of_chan_mut(c: &dc::DynChannelMut) -> Chan {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match c {
                dc::DynChannelMut::Primitive(p) => match p { $(dc::DynChannelPrimitiveMut::$v(x) => chan_val(*x)),* },
                dc::DynChannelMut::Vec(p) => match p { $(dc::DynChannelVecMut::$v(x) => chan_val(*x)),* },
            }
        };
    }
    each_prim!(arms)
}

// ---- values that are equal, or nearly ----

/// Equality as the language has it for the types
pub fn val_eq(a: &Val, b: &Val) -> bool {
    a.ty == b.ty
        && a.parts.len() == b.parts.len()
        && a.parts.iter().zip(&b.parts).all(|(x, y)| match a.ty().primitive_type() {
            PT::F32 => f32::cdec(x) == f32::cdec(y),
            PT::F64 => f64::cdec(x) == f64::cdec(y),
            _ => x == y,
        })
}

/// A value that is easily mistaken for `v`
pub fn near(s: &mut Src, v: &Val) -> Val {
    match s.weighted(&[3, 3, 3, 2, 2, 2]) {
        0 => v.clone(),
        1 => {
            // one part differs
            let mut w = v.clone();
            if !w.parts.is_empty() {
                let i = s.below(w.parts.len());
                w.parts[i] = gen_val(s, Ty::Primitive(v.ty().primitive_type())).parts.remove(0);
            }
            w
        }
        2 => {
            // the same bytes or number in another type
            let ty = s.below(28);
            recode(v, ty)
        }
        3 => recode(v, (v.ty + 14) % 28), // a vec of one and its element
        4 => {
            // longer or shorter
            let mut w = v.clone();
            if w.ty >= 14 {
                if s.bool() && !w.parts.is_empty() {
                    w.parts.pop();
                } else {
                    w.parts.push(gen_val(s, Ty::Primitive(v.ty().primitive_type())).parts.remove(0));
                }
            }
            w
        }
        _ => match any_ty(s) {
            t => gen_val(s, t),
        },
    }
}
/// Another value of the type of `old`, now and then one that can hardly be told from it
pub fn gen_new(s: &mut Src, old: &Val) -> Val {
    if !s.chance(20) {
        return gen_val(s, old.ty());
    }
    let mut v = old.clone();
    let prim = old.ty().primitive_type();
    if v.ty >= 14 && (v.parts.is_empty() || s.chance(35)) {
        match s.below(3) {
            0 => drop(v.parts.pop()),
            1 => v.parts.push(gen_val(s, Ty::Primitive(prim)).parts.remove(0)),
            _ => v.parts.reverse(),
        }
        return v;
    }
    let i = s.below(v.parts.len());
    let p = &mut v.parts[i];
    match prim {
        PT::Bool => p[0] ^= 1,
        PT::String => match s.below(3) {
            0 => p.push(0),
            1 => p.make_ascii_uppercase(),
            _ => p.push(b' '),
        },
        PT::ObjectHandle | PT::ContractDataHandle => p[*s.pick(&[7usize, 15])] ^= 1,
        // a sign, or the least there is
        _ => match s.bool() {
            true => p[0] ^= 0x80,
            false => *p.last_mut().unwrap() ^= 1,
        },
    }
    v
}
pub fn recode(v: &Val, ty: usize) -> Val {
    let p = ty_of_key(ty).primitive_type();
    let one = |b: &[u8]| -> Vec<u8> {
        let w = match p {
            PT::U8 | PT::I8 | PT::Bool => 1,
            PT::U16 | PT::I16 => 2,
            PT::U32 | PT::I32 | PT::F32 => 4,
            PT::U64 | PT::I64 | PT::F64 => 8,
            PT::String => return String::from_utf8_lossy(b).into_owned().into_bytes(),
            PT::ObjectHandle | PT::ContractDataHandle => 16,
        };
        // big endian: fill or cut on the left
        let mut o = vec![0u8; w];
        for (x, y) in o.iter_mut().rev().zip(b.iter().rev()) {
            *x = *y
        }
        if p == PT::Bool {
            o[0] &= 1
        }
        o
    };
    let mut parts: Vec<Vec<u8>> = v.parts.iter().map(|b| one(b)).collect();
    if ty < 14 {
        parts.truncate(1);
        if parts.is_empty() {
            parts.push(one(&[]))
        }
    }
    Val { ty, parts }
}

#[allow(unused)]
fn _handles(_: ObjectHandle, _: ContractDataHandle) {}
