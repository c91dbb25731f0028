//! The contracts the checks use, behind an object-safe face so that a generated history can mix
//! them, and field ids in a comparable form.
use crate::each_prim;
use crate::values::*;
use std::any::TypeId;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::{self as ch, ChannelId, DynChannel, DynChannelId, IChannels};
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::{id as st, DynStateId, IStates, StateId};
use tp_client::contract::{channels, states, Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

/// A field id: the type, the contract's (slot, generation) and the field index
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fid {
    pub ty: usize,
    pub contract: (usize, u64),
    pub idx: usize,
}
const NO_IDX: usize = usize::MAX;
const MAX_IDX: usize = 1000;

pub fn sid<T: PropT>(id: &StateId<T>) -> Fid {
    let c = id.contract();
    let idx = (0..MAX_IDX).find(|i| *id == StateId::new(*i, c)).unwrap_or(NO_IDX);
    Fid { ty: T::key(), contract: raw(c), idx }
}
pub fn cid<T: PropT>(id: &ChannelId<T>) -> Fid {
    let c = id.contract();
    let idx = (0..MAX_IDX).find(|i| *id == ChannelId::new(*i, c)).unwrap_or(NO_IDX);
    Fid { ty: T::key(), contract: raw(c), idx }
}
pub fn dyn_sid(d: &DynStateId) -> Fid {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match d {
                DynStateId::Primitive(p) => match p { $(st::DynStateIdPrimitive::$v(x) => sid(x)),* },
                DynStateId::Vec(p) => match p { $(st::DynStateIdVec::$v(x) => sid(x)),* },
            }
        };
    }
    each_prim!(arms)
}
pub fn dyn_cid(d: &DynChannelId) -> Fid {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match d {
                DynChannelId::Primitive(p) => match p { $(ch::DynChannelIdPrimitive::$v(x) => cid(x)),* },
                DynChannelId::Vec(p) => match p { $(ch::DynChannelIdVec::$v(x) => cid(x)),* },
            }
        };
    }
    each_prim!(arms)
}

pub trait AnyC {
    fn kind(&self) -> usize;
    fn handle(&self) -> ContractDataHandle;
    /// Creates from iterators one of which panics in place of an item; says whether that came out
    fn create_panicking(&self, b: &mut Baseline, s: Vec<DynTpProperty>, c: Vec<DynChannel>, state: bool, at: usize) -> bool;
    fn create(&self, b: &mut Baseline, s: Vec<DynTpProperty>, c: Vec<DynChannel>, hint: bool)
        -> Result<ObjectHandle, String>;
    /// Through the accessor of each field
    fn field_states(&self) -> Vec<Fid>;
    fn field_chans(&self) -> Vec<Fid>;
    fn state_iter(&self) -> Box<dyn Iterator<Item = DynStateId>>;
    fn chan_iter(&self) -> Box<dyn Iterator<Item = DynChannelId>>;
    fn state_id(&self, i: usize) -> Option<DynStateId>;
    fn chan_id(&self, i: usize) -> Option<DynChannelId>;
}

pub trait Fields {
    const KIND: usize;
    fn field_states(&self) -> Vec<Fid>;
    fn field_chans(&self) -> Vec<Fid>;
}

impl<C: Contract + Fields> AnyC for C
where
    C::States: 'static,
    C::Channels: 'static,
{
    fn kind(&self) -> usize {
        C::KIND
    }
    fn handle(&self) -> ContractDataHandle {
        Contract::handle(self)
    }
    fn create(
        &self,
        b: &mut Baseline,
        s: Vec<DynTpProperty>,
        c: Vec<DynChannel>,
        hint: bool,
    ) -> Result<ObjectHandle, String> {
        if hint {
            b.object_create(self, s.into_iter(), c.into_iter()).map_err(|e| e.to_string())
        } else {
            // iterators that cannot say how much they hold
            let (mut s, mut c) = (s.into_iter(), c.into_iter());
            b.object_create(self, std::iter::from_fn(move || s.next()), std::iter::from_fn(move || c.next()))
                .map_err(|e| e.to_string())
        }
    }
    fn create_panicking(&self, b: &mut Baseline, s: Vec<DynTpProperty>, c: Vec<DynChannel>, state: bool, at: usize) -> bool {
        fn until<T>(v: Vec<T>, at: Option<usize>) -> impl Iterator<Item = T> {
            let mut v = v.into_iter().enumerate();
            std::iter::from_fn(move || {
                let (i, x) = v.next()?;
                assert!(Some(i) != at, "the caller's iterator panics");
                Some(x)
            })
        }
        let (s, c) = (until(s, state.then_some(at)), until(c, (!state).then_some(at)));
        crate::pbt::panics(|| b.object_create(self, s, c)).is_err()
    }
    fn field_states(&self) -> Vec<Fid> {
        Fields::field_states(self)
    }
    fn field_chans(&self) -> Vec<Fid> {
        Fields::field_chans(self)
    }
    fn state_iter(&self) -> Box<dyn Iterator<Item = DynStateId>> {
        Box::new(Contract::state_iter(self))
    }
    fn chan_iter(&self) -> Box<dyn Iterator<Item = DynChannelId>> {
        Box::new(Contract::chan_iter(self))
    }
    fn state_id(&self, i: usize) -> Option<DynStateId> {
        Contract::state_id(self, i)
    }
    fn chan_id(&self, i: usize) -> Option<DynChannelId> {
        Contract::chan_id(self, i)
    }
}

pub struct Kind {
    pub id: ContractId,
    /// What the struct declarations say
    pub states: Vec<(&'static str, usize)>,
    pub chans: Vec<(&'static str, usize)>,
    pub state_type_ids: Vec<TypeId>,
    pub chan_type_ids: Vec<TypeId>,
    /// What the derived code says
    pub d_states: fn() -> (Vec<&'static str>, Vec<Ty>, Vec<TypeId>),
    pub d_chans: fn() -> (Vec<&'static str>, Vec<Ty>, Vec<TypeId>),
    pub register: fn(&mut Baseline) -> Result<Box<dyn AnyC>, String>,
    pub make: fn(ContractDataHandle) -> Box<dyn AnyC>,
    pub remove: fn(&mut Baseline, ObjectHandle) -> Result<(), String>,
    pub unregister: fn(&mut Baseline, ContractDataHandle) -> Result<(), String>,
}
impl Kind {
    pub fn state_tys(&self) -> Vec<Ty> {
        self.states.iter().map(|(_, k)| ty_of_key(*k)).collect()
    }
    pub fn chan_tys(&self) -> Vec<Ty> {
        self.chans.iter().map(|(_, k)| ty_of_key(*k)).collect()
    }
}

pub fn kind_of<C: Contract + Fields + 'static>(
    states: Vec<(&'static str, usize)>,
    chans: Vec<(&'static str, usize)>,
    state_type_ids: Vec<TypeId>,
    chan_type_ids: Vec<TypeId>,
) -> Kind
where
    C::States: 'static,
    C::Channels: 'static,
{
    Kind {
        id: C::ID,
        states,
        chans,
        state_type_ids,
        chan_type_ids,
        d_states: || {
            (
                C::States::field_names().to_vec(),
                C::States::enumerate_types().to_vec(),
                C::States::type_ids().to_vec(),
            )
        },
        d_chans: || {
            (
                C::Channels::field_names().to_vec(),
                C::Channels::enumerate_types().to_vec(),
                C::Channels::type_ids().to_vec(),
            )
        },
        register: |b| b.register_contract::<C>().map(|c| Box::new(c) as Box<dyn AnyC>).map_err(|e| e.to_string()),
        make: |h| Box::new(C::new(h)),
        remove: |b, o| b.object_remove::<C>(o).map_err(|e| e.to_string()),
        unregister: |b, h| b.unregister_contract::<C>(h).map_err(|e| e.to_string()),
    }
}

#[macro_export]
macro_rules! contract {
    ($k:expr, $m:ident, $name:literal, $ver:expr, { $($f:ident: $t:ty),* }, { $($g:ident: $u:ty),* }) => {
        pub mod $m {
            use super::*;
            #[states]
            pub struct S { $($f: $t),* }
            #[channels]
            pub struct Ch { $($g: $u),* }
            pub struct C { handle: ContractDataHandle, s: S, c: Ch }
            impl Contract for C {
                type States = S;
                type Channels = Ch;
                const ID: ContractId = ContractId { name: $name, version: $ver };
                fn new(handle: ContractDataHandle) -> Self { C { handle, s: S::new(handle), c: Ch::new(handle) } }
                fn states(&self) -> &S { &self.s }
                fn channels(&self) -> &Ch { &self.c }
                fn handle(&self) -> ContractDataHandle { self.handle }
            }
            impl Fields for C {
                const KIND: usize = $k;
                fn field_states(&self) -> Vec<Fid> { vec![$(sid(&self.states().$f())),*] }
                fn field_chans(&self) -> Vec<Fid> { vec![$(cid(&self.channels().$g())),*] }
            }
            pub fn kind() -> Kind {
                kind_of::<C>(
                    vec![$((stringify!($f), <$t as PropT>::key())),*],
                    vec![$((stringify!($g), <$u as PropT>::key())),*],
                    vec![$(TypeId::of::<$t>()),*],
                    vec![$(TypeId::of::<$u>()),*],
                )
            }
        }
    };
}

type Obj = ObjectHandle;
type Con = ContractDataHandle;

contract!(0, mixed, "verif.mixed", (1, 2, 3),
    { a: u8, b: u8, name: String, tags: Vec<String>, x: f64, refs: Vec<Obj> },
    { pos: f32, blob: Vec<u8>, text: String, vel: f32 });
contract!(1, one, "verif.one", (0, 0, 1), { v: u32 }, {});
contract!(2, prims, "verif.prims", (1, 0, 0),
    { u8_: u8, u16_: u16, u32_: u32, u64_: u64, i8_: i8, i16_: i16, i32_: i32, i64_: i64, bool_: bool,
      f32_: f32, f64_: f64, string_: String, object_: Obj, contract_: Con }, {});
contract!(3, vecs, "verif.vecs", (1, 0, 0),
    { u8_: Vec<u8>, u16_: Vec<u16>, u32_: Vec<u32>, u64_: Vec<u64>, i8_: Vec<i8>, i16_: Vec<i16>, i32_: Vec<i32>,
      i64_: Vec<i64>, bool_: Vec<bool>, f32_: Vec<f32>, f64_: Vec<f64>, string_: Vec<String>,
      object_: Vec<Obj>, contract_: Vec<Con> }, {});
contract!(4, chans, "verif.chans", (1, 0, 0), {},
    { u8_: u8, u16_: u16, u32_: u32, u64_: u64, i8_: i8, i16_: i16, i32_: i32, i64_: i64, bool_: bool,
      f32_: f32, f64_: f64, string_: String, object_: Obj, contract_: Con });
contract!(5, vec_chans, "verif.vec_chans", (1, 0, 0), {},
    { u8_: Vec<u8>, u16_: Vec<u16>, u32_: Vec<u32>, u64_: Vec<u64>, i8_: Vec<i8>, i16_: Vec<i16>, i32_: Vec<i32>,
      i64_: Vec<i64>, bool_: Vec<bool>, f32_: Vec<f32>, f64_: Vec<f64>, string_: Vec<String>,
      object_: Vec<Obj>, contract_: Vec<Con> });
contract!(6, twin_a, "verif.twin", (1, 0, 0), { a: u16, s: String }, { c: i32 });
// the same shape and name as twin_a, but another version in one place each
contract!(7, twin_b, "verif.twin", (1, 0, 1), { a: u16, s: String }, { c: i32 });
contract!(8, twin_c, "verif.twin", (1, 1, 0), { a: u16, s: String }, { c: i32 });
contract!(9, twin_d, "verif.twin", (2, 0, 0), { a: u16, s: String }, { c: i32 });
contract!(10, twin_e, "verif.twins", (1, 0, 0), { a: u16, s: String }, { c: i32 });
// the same id as twin_a: the same contract, by definition
contract!(11, alias, "verif.twin", (1, 0, 0), { a: u16, s: String }, { c: i32 });
contract!(12, empty, "", (0, 0, 0), {}, {});
contract!(13, many, "verif.many", (65535, 65535, 65535),
    { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8,
      f13: u8, f14: u8, f15: u8, f16: String, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: u8,
      f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: u8, f32: u8, f33: u8, f34: Vec<u8>, f35: u64 },
    { c0: f32, c1: f32, c2: f32, c3: f32, c4: f32, c5: f32, c6: f32, c7: f32, c8: f32, c9: f32, c10: f32, c11: f32,
      c12: f32, c13: f32, c14: f32, c15: f32, c16: f32, c17: String, c18: f32 });

// names that are almost the name of twin_a
contract!(15, twin_f, "Verif.Twin", (1, 0, 0), { a: u16, s: String }, { c: i32 });
contract!(16, twin_g, "verif.twin ", (1, 0, 0), { a: u16, s: String }, { c: i32 });
contract!(17, twin_h, "verif.twin\0", (1, 0, 0), { a: u16, s: String }, { c: i32 });
contract!(18, twin_i, "twin", (1, 0, 0), { a: u16, s: String }, { c: i32 });
contract!(19, twin_j, "verif.tw\u{456}n", (1, 0, 0), { a: u16, s: String }, { c: i32 });

pub mod unit {
    use super::*;
    pub struct C(ContractDataHandle);
    impl Contract for C {
        type States = ();
        type Channels = ();
        const ID: ContractId = ContractId { name: "verif.unit", version: (0, 1, 0) };
        fn new(handle: ContractDataHandle) -> Self {
            C(handle)
        }
        fn states(&self) -> &() {
            &()
        }
        fn channels(&self) -> &() {
            &()
        }
        fn handle(&self) -> ContractDataHandle {
            self.0
        }
    }
    impl Fields for C {
        const KIND: usize = 14;
        fn field_states(&self) -> Vec<Fid> {
            vec![]
        }
        fn field_chans(&self) -> Vec<Fid> {
            vec![]
        }
    }
    pub fn kind() -> Kind {
        kind_of::<C>(vec![], vec![], vec![], vec![])
    }
}

/// How many there are before `MORE`
pub const KINDS: usize = 20;
/// Contracts of a generated program; to be set before the first use of `kinds`
pub static MORE: std::sync::OnceLock<Vec<fn() -> Kind>> = std::sync::OnceLock::new();

pub fn kinds() -> &'static [Kind] {
    use std::sync::OnceLock;
    static K: OnceLock<Vec<Kind>> = OnceLock::new();
    K.get_or_init(|| {
        let mut all = vec![
            mixed::kind(),
            one::kind(),
            prims::kind(),
            vecs::kind(),
            chans::kind(),
            vec_chans::kind(),
            twin_a::kind(),
            twin_b::kind(),
            twin_c::kind(),
            twin_d::kind(),
            twin_e::kind(),
            alias::kind(),
            empty::kind(),
            many::kind(),
            unit::kind(),
            twin_f::kind(),
            twin_g::kind(),
            twin_h::kind(),
            twin_i::kind(),
            twin_j::kind(),
        ];
        all.extend(MORE.get().into_iter().flatten().map(|k| k()));
        all
    })
}
