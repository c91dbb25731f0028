//! The contracts of these checks, and what a baseline holds in a form that does not depend on
//! where things lie.
use harness::pbt::*;
use harness::values::*;
use harness::{each_prim, ensure};
use std::collections::HashMap;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::DynChannel;
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::{id as st, DynStateId};
use tp_client::contract::{channels, states, Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;
use tp_serialize::{Deserializer, DeserializerBuilder, Serializer};

pub const OBJ: usize = 12;
pub const CON: usize = 13;

pub trait AnyS {
    fn handle(&self) -> ContractDataHandle;
    fn create(&self, b: &mut Baseline, s: Vec<DynTpProperty>) -> Result<ObjectHandle, String>;
    fn remove(&self, b: &mut Baseline, o: ObjectHandle) -> Result<(), String>;
    fn unregister(&self, b: &mut Baseline) -> Result<(), String>;
    fn ids(&self) -> Vec<DynStateId>;
    fn save(&self, s: &mut Serializer<'_>) -> Result<(), String>;
    fn restore(&self, d: &mut Deserializer<'_>) -> Result<(), String>;
}
impl<C: Contract> AnyS for C {
    fn handle(&self) -> ContractDataHandle {
        Contract::handle(self)
    }
    fn create(&self, b: &mut Baseline, s: Vec<DynTpProperty>) -> Result<ObjectHandle, String> {
        b.object_create(self, s.into_iter(), std::iter::empty::<DynChannel>()).map_err(|e| e.to_string())
    }
    fn remove(&self, b: &mut Baseline, o: ObjectHandle) -> Result<(), String> {
        b.object_remove::<C>(o).map_err(|e| e.to_string())
    }
    fn unregister(&self, b: &mut Baseline) -> Result<(), String> {
        b.unregister_contract::<C>(Contract::handle(self)).map_err(|e| e.to_string())
    }
    fn ids(&self) -> Vec<DynStateId> {
        Contract::state_iter(self).collect()
    }
    fn save(&self, s: &mut Serializer<'_>) -> Result<(), String> {
        s.serialize(self).map_err(|e| format!("{e:#}"))
    }
    fn restore(&self, d: &mut Deserializer<'_>) -> Result<(), String> {
        d.deserialize_objects(self).map_err(|e| format!("{e:#}"))
    }
}

pub struct Shape {
    pub id: ContractId,
    pub names: Vec<&'static str>,
    pub types: Vec<usize>,
    pub register: fn(&mut Baseline) -> Result<Box<dyn AnyS>, String>,
    pub find: fn(&mut DeserializerBuilder<'_>) -> Result<Box<dyn AnyS>, String>,
}
impl Shape {
    /// Whether it can be saved at all
    pub fn plain(&self) -> bool {
        self.types.iter().all(|t| *t < 14)
    }
}

fn shape<C: Contract + 'static>(fields: Vec<(&'static str, usize)>) -> Shape {
    Shape {
        id: C::ID,
        names: fields.iter().map(|f| f.0).collect(),
        types: fields.iter().map(|f| f.1).collect(),
        register: |b| b.register_contract::<C>().map(|c| Box::new(c) as Box<dyn AnyS>).map_err(|e| e.to_string()),
        find: |b| b.register_contract::<C>().map(|c| Box::new(c) as Box<dyn AnyS>).map_err(|e| format!("{e:#}")),
    }
}

macro_rules! contract {
    ($m:ident, $name:literal, $ver:expr, { $($f:ident: $t:ty),* }) => {
        mod $m {
            use super::*;
            #[states]
            pub struct S { $($f: $t),* }
            #[channels]
            pub struct Ch {}
            pub struct C { handle: ContractDataHandle, s: S, c: Ch }
            impl Contract for C {
                type States = S;
                type Channels = Ch;
                const ID: ContractId = ContractId { name: $name, version: $ver };
                fn new(handle: ContractDataHandle) -> Self { C { handle, s: S::new(handle), c: Ch::new(handle) } }
                fn states(&self) -> &S { &self.s }
                fn channels(&self) -> &Ch { &self.c }
                fn handle(&self) -> ContractDataHandle { self.handle }
            }
            pub fn shape() -> Shape {
                super::shape::<C>(vec![$((stringify!($f), <$t as PropT>::key())),*])
            }
        }
    };
}
type Obj = ObjectHandle;
type Con = ContractDataHandle;

contract!(all, "verif.all", (1, 0, 0),
    { u8_: u8, u16_: u16, u32_: u32, u64_: u64, i8_: i8, i16_: i16, i32_: i32, i64_: i64, bool_: bool,
      f32_: f32, f64_: f64, string_: String, object_: Obj, contract_: Con });
contract!(links, "verif.links", (0, 1, 0), { o0: Obj, c0: Con, o1: Obj, n: u32 });
contract!(empty, "", (0, 0, 0), {});
contract!(pair, "verif.pair", (1, 2, 3), { a: i64, s: String });
contract!(pair_renamed, "verif.pair", (1, 2, 3), { a: i64, t: String });
contract!(pair_retyped, "verif.pair", (1, 2, 3), { a: u64, s: String });
contract!(pair_short, "verif.pair", (1, 2, 3), { a: i64 });
contract!(pair_long, "verif.pair", (1, 2, 3), { a: i64, s: String, z: u8 });
contract!(pair_swapped, "verif.pair", (1, 2, 3), { s: String, a: i64 });
contract!(pair_patch, "verif.pair", (1, 2, 4), { a: i64, s: String });
contract!(pair_minor, "verif.pair", (1, 3, 3), { a: i64, s: String });
contract!(pair_major, "verif.pair", (2, 2, 3), { a: i64, s: String });
contract!(pairs, "verif.pairs", (1, 2, 3), { a: i64, s: String });
contract!(pair_alias, "verif.pair", (1, 2, 3), { a: i64, s: String });
contract!(ring, "verif.ring", (0, 0, 1), { next: Obj });
contract!(cons, "verif.cons", (0, 0, 2), { c: Con, b: bool });
contract!(wide, "verif.wide", (65535, 65534, 65533),
    { f0: u8, f1: u16, f2: u32, f3: u64, f4: i8, f5: i16, f6: i32, f7: i64, f8: bool, f9: f32, f10: f64, f11: String,
      f12: Obj, f13: Con, f14: u8, f15: u8, f16: String, f17: u8, f18: Obj, f19: Con, f20: i8, f21: bool, f22: f64,
      f23: u64, f24: Obj, f25: u8, f26: i16, f27: u16, f28: String, f29: f32, f30: u32, f31: i32, f32: i64, f33: u8 });
contract!(lists, "verif.lists", (0, 0, 3), { n: u8, v: Vec<u16> });

mod unit {
    use super::*;
    pub struct C(ContractDataHandle);
    impl Contract for C {
        type States = ();
        type Channels = ();
        const ID: ContractId = ContractId { name: "verif.unit \u{e9}\u{1f300}", version: (0, 1, 0) };
        fn new(handle: ContractDataHandle) -> Self {
            C(handle)
        }
        fn states(&self) -> &() {
            &()
        }
        fn channels(&self) -> &() {
            &()
        }
        fn handle(&self) -> ContractDataHandle {
            self.0
        }
    }
    pub fn shape() -> Shape {
        super::shape::<C>(vec![])
    }
}

pub const LISTS: usize = 17;

pub fn shapes() -> &'static [Shape] {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<Shape>> = OnceLock::new();
    S.get_or_init(|| {
        vec![
            all::shape(),
            links::shape(),
            empty::shape(),
            pair::shape(),
            pair_renamed::shape(),
            pair_retyped::shape(),
            pair_short::shape(),
            pair_long::shape(),
            pair_swapped::shape(),
            pair_patch::shape(),
            pair_minor::shape(),
            pair_major::shape(),
            pairs::shape(),
            pair_alias::shape(),
            ring::shape(),
            cons::shape(),
            wide::shape(),
            lists::shape(),
            unit::shape(),
            shape::<tp_contract_example::ExampleContract>(vec![
                ("u8_0", 0),
                ("u8_1", 0),
                ("i8_0", 4),
                ("i8_1", 4),
                ("f32_0", 9),
                ("f32_1", 9),
                ("str_0", 11),
                ("oh_0", OBJ),
                ("ch_0", CON),
            ]),
        ]
    })
}

/// A value, handles by what they refer to
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NV {
    Plain(Val),
    /// an object, by its contract and place among the contract's
    Obj(usize, usize),
    Con(usize),
    /// a handle to nothing known
    Dead,
}

/// A contract and its objects
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NC {
    pub name: String,
    pub version: (u16, u16, u16),
    pub fields: Vec<(String, usize)>,
    pub objs: Vec<Vec<NV>>,
}

pub fn nc(s: &Shape) -> NC {
    NC {
        name: s.id.name.to_string(),
        version: s.id.version,
        fields: s.names.iter().zip(&s.types).map(|(n, t)| (n.to_string(), *t)).collect(),
        objs: vec![],
    }
}

pub fn show(n: &[NC]) -> String {
    let mut s = String::new();
    for (i, c) in n.iter().enumerate() {
        s += &format!("#{i} {:?} {:?}:", c.name, c.version);
        for o in &c.objs {
            let v: Vec<String> = o
                .iter()
                .map(|v| match v {
                    NV::Plain(v) => v.show(),
                    NV::Obj(c, i) => format!("->{c}.{i}"),
                    NV::Con(c) => format!("->#{c}"),
                    NV::Dead => "->nothing".into(),
                })
                .collect();
            s += &format!(" [{}]", v.join(", "));
        }
        s += "; ";
    }
    s
}

/// The value of a state, read by its id
pub fn read(b: &Baseline, id: &DynStateId, o: ObjectHandle) -> Result<Val, String> {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match id {
                DynStateId::Primitive(p) => match p { $(st::DynStateIdPrimitive::$v(x) => {
                    let h = b.bind_state(*x, o).map_err(|e| e.to_string())?;
                    Ok(b.state(h).map_err(|e| e.to_string())?.value.val())
                }),* },
                DynStateId::Vec(p) => match p { $(st::DynStateIdVec::$v(x) => {
                    let h = b.bind_state(*x, o).map_err(|e| e.to_string())?;
                    Ok(b.state(h).map_err(|e| e.to_string())?.value.val())
                }),* },
            }
        };
    }
    each_prim!(arms)
}

/// Points a state that holds an object or a contract at something
pub fn point(b: &mut Baseline, id: &DynStateId, o: ObjectHandle, obj: ObjectHandle, con: ContractDataHandle) {
    match id {
        DynStateId::Primitive(st::DynStateIdPrimitive::ObjectHandle(x)) => {
            let h = b.bind_state(*x, o).unwrap();
            b.state_mut(h).unwrap().value = obj;
        }
        DynStateId::Primitive(st::DynStateIdPrimitive::ContractDataHandle(x)) => {
            let h = b.bind_state(*x, o).unwrap();
            b.state_mut(h).unwrap().value = con;
        }
        _ => unreachable!(),
    }
}

/// All that a baseline holds of the contracts given
pub fn contents(b: &Baseline, cs: &[(usize, &dyn AnyS)]) -> Result<Vec<NC>, Fail> {
    let mut of_obj: HashMap<(usize, u64), NV> = HashMap::new();
    let mut of_con: HashMap<(usize, u64), NV> = HashMap::new();
    let mut lists: Vec<Vec<ObjectHandle>> = vec![];
    for (ci, (k, c)) in cs.iter().enumerate() {
        let d = b.contract_data(c.handle()).map_err(|e| Fail { sig: "contract".into(), msg: e.to_string() })?;
        ensure!(d.id() == shapes()[*k].id, "contract", "contract {ci} has the id {:?}", d.id());
        let mut objs: Vec<ObjectHandle> = d.objects().iter().copied().collect();
        objs.sort_by_key(|o| raw(*o));
        for (oi, o) in objs.iter().enumerate() {
            of_obj.insert(raw(*o), NV::Obj(ci, oi));
        }

        lists.push(objs);
        of_con.insert(raw(c.handle()), NV::Con(ci));
    }
    let n: usize = lists.iter().map(|l| l.len()).sum();
    ensure!(of_obj.len() == n && of_con.len() == cs.len(), "contents", "the same handle twice");
    let all = b.iter_objects().count();
    ensure!(all == n, "contents", "{all} objects, {n} of which are of the contracts asked about");
    let mut out = vec![];
    for ((k, c), objs) in cs.iter().zip(lists) {
        let mut one = nc(&shapes()[*k]);
        let ids = c.ids();
        for o in objs {
            let x = b.object(o).map_err(|e| Fail { sig: "object".into(), msg: e.to_string() })?;
            ensure!(x.contract() == c.handle(), "object", "an object of another contract among {:?}", one.name);
            let mut vals = vec![];
            for id in &ids {
                let v = read(b, id, o).map_err(|e| Fail { sig: "state".into(), msg: e })?;
                let at = || raw::<()>(<arena::Index<()> as Codec>::cdec(&v.parts[0]));
                vals.push(match v.ty {
                    OBJ => of_obj.get(&at()).cloned().unwrap_or(NV::Dead),
                    CON => of_con.get(&at()).cloned().unwrap_or(NV::Dead),
                    _ => NV::Plain(v),
                });
            }
            one.objs.push(vals);
        }
        out.push(one);
    }
    Ok(out)
}

/// `n`, with its contracts put as `order` says: `order[i]` is where the new i-th was
pub fn reorder(n: &[NC], order: &[usize]) -> Vec<NC> {
    let to = |c: usize| order.iter().position(|o| *o == c);
    order
        .iter()
        .map(|&i| {
            let mut c = n[i].clone();
            for v in c.objs.iter_mut().flatten() {
                *v = match &*v {
                    NV::Obj(c, o) => to(*c).map_or(NV::Dead, |c| NV::Obj(c, *o)),
                    NV::Con(c) => to(*c).map_or(NV::Dead, NV::Con),
                    v => v.clone(),
                }
            }
            c
        })
        .collect()
}

/// Whether two baselines hold the same: the objects of a contract are a set, so some way of
/// pairing them must make everything equal
///
/// The format leaves out a field that equals its default, so that -0.0 becomes 0.0; they are
/// equal numbers and count as the same here.
pub fn same(a: &[NC], b: &[NC]) -> bool {
    let (a, b) = (&zeros(a)[..], &zeros(b)[..]);
    if a == b {
        return true;
    }
    let head = |n: &NC| (n.name.clone(), n.version, n.fields.clone(), n.objs.len());
    if !a.iter().map(head).eq(b.iter().map(head)) {
        return false;
    }
    let (a, b) = (Graph::of(a), Graph::of(b));
    pair(&a, &b, a.color.clone(), b.color.clone(), &mut (400_000 / (a.color.len() + 1)).min(2_000))
}

fn zeros(n: &[NC]) -> Vec<NC> {
    let mut n = n.to_vec();
    for v in n.iter_mut().flat_map(|c| c.objs.iter_mut().flatten()) {
        if let NV::Plain(p) = v {
            let zero = match p.ty {
                9 => p.parts[0] == (-0f32).val().parts[0],
                10 => p.parts[0] == (-0f64).val().parts[0],
                _ => false,
            };
            if zero {
                *v = NV::Plain(if p.ty == 9 { 0f32.val() } else { 0f64.val() });
            }
        }
    }
    n
}

struct Graph {
    color: Vec<u64>,
    /// where the states of an object point
    out: Vec<Vec<usize>>,
    /// what points to it, by which state
    into: Vec<Vec<(usize, usize)>>,
}

fn hash<T: std::hash::Hash>(t: T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Graph {
    fn of(n: &[NC]) -> Graph {
        let mut start = vec![0];
        for c in n {
            start.push(start.last().unwrap() + c.objs.len());
        }
        let total = *start.last().unwrap();
        let mut g = Graph { color: vec![], out: vec![], into: vec![vec![]; total] };
        for (ci, c) in n.iter().enumerate() {
            for o in &c.objs {
                let me = g.out.len();
                let mut out = vec![];
                let mut own = vec![ci.to_string()];
                for (f, v) in o.iter().enumerate() {
                    match v {
                        NV::Obj(c, o) => {
                            out.push(start[*c] + o);
                            g.into[start[*c] + o].push((me, f));
                            own.push("->".into());
                        }
                        v => own.push(format!("{v:?}")),
                    }
                }
                g.color.push(hash(own));
                g.out.push(out);
            }
        }
        g
    }
    fn refine(&self, c: &[u64]) -> Vec<u64> {
        (0..c.len())
            .map(|i| {
                let out: Vec<u64> = self.out[i].iter().map(|o| c[*o]).collect();
                let mut into: Vec<(u64, usize)> = self.into[i].iter().map(|(o, f)| (c[*o], *f)).collect();
                into.sort_unstable();
                hash((c[i], out, into))
            })
            .collect()
    }
}

fn sizes(c: &[u64]) -> HashMap<u64, usize> {
    let mut m = HashMap::new();
    for c in c {
        *m.entry(*c).or_insert(0) += 1;
    }
    m
}

/// Splits both by what surrounds each object; where that leaves a choice, tries it
fn pair(a: &Graph, b: &Graph, mut ca: Vec<u64>, mut cb: Vec<u64>, budget: &mut usize) -> bool {
    let mut classes = sizes(&ca);
    loop {
        if classes != sizes(&cb) {
            return false;
        }
        let (na, nb) = (a.refine(&ca), b.refine(&cb));
        let next = sizes(&na);
        if next != sizes(&nb) {
            return false;
        }
        let done = next.len() == classes.len();
        (ca, cb, classes) = (na, nb, next);
        if done {
            break;
        }
    }
    if *budget == 0 {
        return true;
    }
    *budget -= 1;
    let Some(i) = (0..ca.len()).find(|i| classes[&ca[*i]] > 1) else {
        return true;
    };
    let old = ca[i];
    ca[i] = hash((old, "this one"));
    (0..cb.len()).filter(|j| cb[*j] == old).any(|j| {
        let mut cb = cb.clone();
        cb[j] = ca[i];
        pair(a, b, ca.clone(), cb, budget)
    })
}

#[cfg(test)]
mod tests {
    use super::*;
    fn links(to: &[usize]) -> Vec<NC> {
        vec![NC { name: "n".into(), version: (0, 0, 0), fields: vec![], objs: to.iter().map(|o| vec![NV::Obj(0, *o)]).collect() }]
    }
    #[test]
    fn pairing() {
        // two rings of three, however numbered, and never one of six
        assert!(same(&links(&[1, 2, 0, 4, 5, 3]), &links(&[2, 3, 4, 5, 0, 1])));
        assert!(!same(&links(&[1, 2, 0, 4, 5, 3]), &links(&[1, 2, 3, 4, 5, 0])));
        assert!(!same(&links(&[0, 0]), &links(&[0, 1])));
        assert!(same(&links(&[0, 0]), &links(&[1, 1])));
    }
}
