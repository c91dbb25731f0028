//! A model of baselines: contracts, objects, fields; and the operations of a generated history that
//! are applied to both and compared.
use crate::contracts::*;
use crate::ensure;
use crate::pbt::*;
use crate::values::*;
use crate::with_ty;
use std::collections::{HashMap, HashSet};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::dyn_handle as cdh;
use tp_client::contract::properties::channels::{
    ChannelHandle, ChannelId, DynChannelHandle, IChannelHandle, Keyframe,
};
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::dyn_handle as sdh;
use tp_client::contract::properties::states::{DynStateHandle, StateHandle, StateId};
use tp_client::contract::ContractDataHandle;
use tp_client::engine::Engine;
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::{Ticks, TimeScale};

pub enum Bases {
    Own(Vec<Baseline>),
    Realm(Box<Realm>),
    Engine(Box<Engine>),
}
pub fn kind_at(i: usize) -> BaselineKind {
    if i == 0 {
        BaselineKind::Main
    } else {
        BaselineKind::Fork
    }
}
impl Bases {
    pub fn own(n: usize) -> Self {
        Bases::Own((0..n).map(|i| Baseline::new(kind_at(i))).collect())
    }
    pub fn realm() -> Self {
        Bases::Realm(Box::new(Realm::new(RealmID::new("verif".into()))))
    }
    pub fn len(&self) -> usize {
        match self {
            Bases::Own(v) => v.len(),
            _ => 2,
        }
    }
    pub fn at(&self, i: usize) -> &Baseline {
        match self {
            Bases::Own(v) => &v[i],
            Bases::Realm(r) => r.baseline(kind_at(i)),
            Bases::Engine(e) => e.realm().baseline(kind_at(i)),
        }
    }
    pub fn at_mut(&mut self, i: usize) -> &mut Baseline {
        match self {
            Bases::Own(v) => &mut v[i],
            Bases::Realm(r) => r.baseline_mut(kind_at(i)),
            Bases::Engine(e) => e.realm_mut().baseline_mut(kind_at(i)),
        }
    }
}

pub struct MCon {
    pub kind: usize,
    pub handle: ContractDataHandle,
    pub live: bool,
    pub c: Box<dyn AnyC>,
}

#[derive(Clone, Debug)]
pub struct MObj {
    pub h: ObjectHandle,
    /// index into `cons`
    pub con: usize,
    pub states: Vec<Val>,
    pub chans: Vec<Chan>,
    pub warp: (i32, i32),
    /// raw handles of the fields
    pub sh: Vec<(usize, u64)>,
    pub ch: Vec<(usize, u64)>,
}

#[derive(Default)]
pub struct MBase {
    pub cons: Vec<MCon>,
    pub objs: Vec<MObj>,
    pub dead: Vec<MObj>,
}

pub struct World {
    pub b: Bases,
    pub m: Vec<MBase>,
    /// which kinds this history uses
    pub kinds: Vec<usize>,
    pub ops: usize,
    pub reused: bool,
}

/// Reads a state through one of the ways there are
pub fn read_state(b: &Baseline, ty: usize, h: (usize, u64), way: u64) -> Result<Val, String> {
    with_ty!(ty, T => {
        let h: StateHandle<T> = idx(h.0, h.1);
        match way % 3 {
            0 => b.state(h).map(|s| s.value.val()).map_err(|e| e.to_string()),
            1 => b.state(DynStateHandle::from(h)).map(|s| of_ref(&s.0)).map_err(|e| e.to_string()),
            _ => panics(|| b[h].value.val()),
        }
    })
}
pub fn read_chan(b: &Baseline, ty: usize, h: (usize, u64), way: u64) -> Result<Chan, String> {
    with_ty!(ty, T => {
        let h: ChannelHandle<T> = idx(h.0, h.1);
        match way % 3 {
            0 => b.channel(h).map(|c| chan_val(c)).map_err(|e| e.to_string()),
            1 => dyn_chan_handle(ty, raw(h)).get(b).map(|c| of_chan_ref(&c)).map_err(|e| e.to_string()),
            _ => panics(|| chan_val(&b[h])),
        }
    })
}

pub fn dyn_state_handle(ty: usize, h: (usize, u64)) -> DynStateHandle {
    use sdh::{DynStateHandlePrimitive as P, DynStateHandleVec as V};
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match ty_of_key(ty) {
                $(Ty::Primitive(PT::$v) => DynStateHandle::Primitive(P::$v(idx(h.0, h.1))),
                  Ty::Vec(PT::$v) => DynStateHandle::Vec(V::$v(idx(h.0, h.1))),)*
            }
        };
    }
    crate::each_prim!(arms)
}
pub fn dyn_chan_handle(ty: usize, h: (usize, u64)) -> DynChannelHandle {
    use cdh::{DynChannelHandlePrimitive as P, DynChannelHandleVec as V};
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match ty_of_key(ty) {
                $(Ty::Primitive(PT::$v) => DynChannelHandle::Primitive(P::$v(idx(h.0, h.1))),
                  Ty::Vec(PT::$v) => DynChannelHandle::Vec(V::$v(idx(h.0, h.1))),)*
            }
        };
    }
    crate::each_prim!(arms)
}

/// Writes a value through a mutable dynamic reference, by variant. Slices cannot change length.
pub fn write_mut(p: DynTpPropertyMut, v: &Val) {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match p {
                DynTpPropertyMut::Primitive(p) => match p { $(DynTpPrimitiveMut::$v(x) => *x = <$t as PropT>::of(v)),* },
                DynTpPropertyMut::Vec(p) => match p { $(DynTpVecMut::$v(x) => x.clone_from_slice(&<Vec<$t> as PropT>::of(v))),* },
            }
        };
    }
    crate::each_prim!(arms)
}

/// Overwrites a state; `false` if the way needs an equal length and it isn't
pub fn write_state(b: &mut Baseline, h: (usize, u64), old: &Val, new: &Val, way: u64) -> Result<(), String> {
    let same_len = old.parts.len() == new.parts.len();
    with_ty!(new.ty, T => {
        let h: StateHandle<T> = idx(h.0, h.1);
        match way % 3 {
            1 if same_len => {
                let s = b.state_mut(DynStateHandle::from(h)).map_err(|e| e.to_string())?;
                if of_mut(&s.0) != *old {
                    return Err(format!("reads {} through the mutable dynamic handle", of_mut(&s.0).show()));
                }
                write_mut(s.0, new);
                Ok(())
            }
            2 => panics(|| b[h].value = T::of(new)),
            _ => b.state_mut(h).map(|s| s.value = T::of(new)).map_err(|e| e.to_string()),
        }
    })
}

pub fn bind_state(b: &Baseline, id: Fid, o: ObjectHandle) -> Result<(usize, u64), String> {
    with_ty!(id.ty, T => {
        let i: StateId<T> = StateId::new(id.idx, idx(id.contract.0, id.contract.1));
        b.bind_state(i, o).map(raw).map_err(|e| e.to_string())
    })
}
pub fn bind_chan(b: &Baseline, id: Fid, o: ObjectHandle) -> Result<(usize, u64), String> {
    with_ty!(id.ty, T => {
        let i: ChannelId<T> = ChannelId::new(id.idx, idx(id.contract.0, id.contract.1));
        b.bind_channel(i, o).map(raw).map_err(|e| e.to_string())
    })
}
/// The same on the object itself, which panics where the baseline gives an error
pub fn obj_state(b: &Baseline, id: Fid, o: ObjectHandle) -> Result<(usize, u64), String> {
    let o = b.object(o).map_err(|e| e.to_string())?;
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match ty_of_key(id.ty) {
                $(Ty::Primitive(PT::$v) => {
                    let i: StateId<$t> = StateId::new(id.idx, idx(id.contract.0, id.contract.1));
                    panics(|| raw(o.state(i)))
                })*
                // `Object::state` is only there for primitives
                Ty::Vec(_) => Ok((usize::MAX, 0)),
            }
        };
    }
    crate::each_prim!(arms)
}
pub fn obj_chan(b: &Baseline, id: Fid, o: ObjectHandle) -> Result<(usize, u64), String> {
    let o = b.object(o).map_err(|e| e.to_string())?;
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match ty_of_key(id.ty) {
                $(Ty::Primitive(PT::$v) => {
                    let i: ChannelId<$t> = ChannelId::new(id.idx, idx(id.contract.0, id.contract.1));
                    panics(|| raw(o.channel(i)))
                })*
                Ty::Vec(_) => Ok((usize::MAX, 0)),
            }
        };
    }
    crate::each_prim!(arms)
}

pub fn oh(h: ObjectHandle) -> String {
    let (a, b) = raw(h);
    format!("o{a}.{b}")
}

#[derive(Clone, Copy)]
pub struct Weights {
    pub register: u32,
    pub unregister: u32,
    pub create: u32,
    pub create_bad: u32,
    pub remove: u32,
    pub remove_bad: u32,
    pub write: u32,
    pub write_chan: u32,
    pub warp: u32,
    pub bind: u32,
    pub audit: u32,
}
pub const BALANCED: Weights = Weights {
    register: 6,
    unregister: 3,
    create: 24,
    create_bad: 6,
    remove: 10,
    remove_bad: 3,
    write: 14,
    write_chan: 8,
    warp: 3,
    bind: 6,
    audit: 2,
};

impl World {
    pub fn new(b: Bases, kinds: Vec<usize>) -> Self {
        let m = (0..b.len()).map(|_| MBase::default()).collect();
        World { b, m, kinds, ops: 0, reused: false }
    }

    /// A selection of kinds, with a liking for few of them
    pub fn pick_kinds(s: &mut Src) -> Vec<usize> {
        let n = 1 + s.below(4);
        (0..n).map(|_| s.weighted(&[6, 4, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 2, 1, 2])).collect()
    }

    pub fn id_taken(&self, b: usize, kind: usize) -> bool {
        let id = &kinds()[kind].id;
        self.m[b].cons.iter().any(|c| {
            let o = &kinds()[c.kind].id;
            c.live && o.name == id.name && o.version == id.version
        })
    }

    pub fn step(&mut self, s: &mut Src, cx: &mut Cx, w: &Weights) -> Res {
        self.ops += 1;
        let b = s.below(self.m.len());
        let op = s.weighted(&[
            w.create, w.register, w.write, w.remove, w.write_chan, w.bind, w.unregister, w.warp, w.create_bad, w.remove_bad,
            w.audit,
        ]);
        match op {
            0 => {
                if let Some(c) = self.pick_con(s, b, true) {
                    self.create(s, cx, b, c)?;
                } else {
                    self.register_some(s, cx, b)?;
                }
            }
            1 => self.register_some(s, cx, b)?,
            2 => self.write_some(s, cx, b)?,
            3 => self.remove_some(s, cx, b)?,
            4 => self.write_chan_some(s, cx, b)?,
            5 => self.bind_some(s, cx, b)?,
            6 => self.unregister_some(s, cx, b)?,
            7 => self.warp_some(s, cx, b)?,
            8 => self.create_bad(s, cx, b)?,
            9 => self.remove_bad(s, cx, b)?,
            _ => {
                let way = s.draw(5);
                self.audit(b, way)?
            }
        }
        Ok(())
    }

    pub fn pick_con(&self, s: &mut Src, b: usize, live: bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.m[b].cons.len()).filter(|i| self.m[b].cons[*i].live == live).collect();
        if v.is_empty() {
            None
        } else {
            Some(*s.pick(&v))
        }
    }

    pub fn register_some(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        let k = *s.pick(&self.kinds.clone());
        self.register(cx, b, k)
    }

    pub fn register(&mut self, cx: &mut Cx, b: usize, k: usize) -> Res {
        let taken = self.id_taken(b, k);
        cx.op(|| format!("b{b}: register kind {k}{}", if taken { " (already there)" } else { "" }));
        let r = (kinds()[k].register)(self.b.at_mut(b));
        match (r, taken) {
            (Ok(_), true) => fail("register", format!("kind {k} registered although its id already is")),
            (Err(e), false) => fail("register", format!("kind {k} could not be registered: {e}")),
            (Err(_), true) => {
                cx.label("register duplicate");
                Ok(())
            }
            (Ok(c), false) => {
                let h = c.handle();
                ensure!(
                    self.m[b].cons.iter().all(|o| o.handle != h),
                    "register",
                    "the new contract has the handle {h:?} of an earlier one"
                );
                if self.m[b].cons.iter().any(|o| !o.live && raw(o.handle).0 == raw(h).0) {
                    self.reused = true;
                    cx.label("contract slot reused");
                }
                let d = self.b.at(b).contract_data(h);
                match d {
                    Ok(d) => {
                        ensure!(d.id() == kinds()[k].id, "register", "registered as {:?}", d.id());
                        ensure!(d.objects().is_empty(), "register", "a new contract has objects: {:?}", d.objects());
                    }
                    Err(e) => return fail("register", format!("the new contract cannot be found: {e}")),
                }
                self.m[b].cons.push(MCon { kind: k, handle: h, live: true, c });
                Ok(())
            }
        }
    }

    pub fn gen_values(s: &mut Src, k: usize) -> (Vec<Val>, Vec<Chan>) {
        let kd = &kinds()[k];
        let st = kd.state_tys().into_iter().map(|t| gen_val(s, t)).collect();
        let ch = kd.chan_tys().into_iter().map(|t| s.span(|s| gen_chan_ordered(s, t))).collect();
        (st, ch)
    }

    pub fn create(&mut self, s: &mut Src, cx: &mut Cx, b: usize, con: usize) -> Res {
        let k = self.m[b].cons[con].kind;
        let (st, ch) = Self::gen_values(s, k);
        let hint = !s.chance(30);
        self.create_with(cx, b, con, st, ch, hint)
    }

    pub fn create_with(&mut self, cx: &mut Cx, b: usize, con: usize, st: Vec<Val>, ch: Vec<Chan>, hint: bool) -> Res {
        let k = self.m[b].cons[con].kind;
        cx.op(|| {
            let a: Vec<String> = st.iter().map(|v| v.show()).collect();
            let c: Vec<String> = ch.iter().map(|v| v.show()).collect();
            format!("b{b}: create kind {k} with {} {}", a.join(" "), c.join(" "))
        });
        let r = self.m[b].cons[con].c.create(
            self.b.at_mut(b),
            st.iter().map(to_dyn).collect(),
            ch.iter().map(chan_to_dyn).collect(),
            hint,
        );
        let h = match r {
            Ok(h) => h,
            Err(e) => return fail("create", format!("an object that matches contract kind {k} was rejected: {e}")),
        };
        let m = &self.m[b];
        for o in m.objs.iter().chain(&m.dead) {
            ensure!(o.h != h, "create", "the new object has the handle {} of an earlier one", oh(h));
        }
        if m.dead.iter().any(|o| raw(o.h).0 == raw(h).0) {
            self.reused = true;
            cx.label("object slot reused");
        }
        let bl = self.b.at(b);
        let sf = m.cons[con].c.field_states();
        let cf = m.cons[con].c.field_chans();
        let mut sh = Vec::new();
        let mut chh = Vec::new();
        for f in &sf {
            match bind_state(bl, *f, h) {
                Ok(x) => sh.push(x),
                Err(e) => return fail("create", format!("state {f:?} of a new object does not bind: {e}")),
            }
        }
        for f in &cf {
            match bind_chan(bl, *f, h) {
                Ok(x) => chh.push(x),
                Err(e) => return fail("create", format!("channel {f:?} of a new object does not bind: {e}")),
            }
        }
        // no two fields, alive or gone, of one type share a handle
        let dup = |ty: usize, x: (usize, u64), chan: bool| {
            m.objs.iter().chain(&m.dead).any(|o| {
                if chan {
                    o.chans.iter().zip(&o.ch).any(|(v, y)| v.ty == ty && *y == x)
                } else {
                    o.states.iter().zip(&o.sh).any(|(v, y)| v.ty == ty && *y == x)
                }
            })
        };
        for (i, (v, x)) in st.iter().zip(&sh).enumerate() {
            ensure!(!dup(v.ty, *x, false), "create", "state {i} shares its handle {x:?} with another object's");
            ensure!(
                st.iter().zip(&sh).take(i).all(|(w, y)| w.ty != v.ty || y != x),
                "create",
                "state {i} shares its handle {x:?} with another field"
            );
        }
        for (i, (v, x)) in ch.iter().zip(&chh).enumerate() {
            ensure!(!dup(v.ty, *x, true), "create", "channel {i} shares its handle {x:?} with another object's");
            ensure!(
                ch.iter().zip(&chh).take(i).all(|(w, y)| w.ty != v.ty || y != x),
                "create",
                "channel {i} shares its handle {x:?} with another field"
            );
        }
        let o = bl.object(h).map_err(|e| Fail { sig: "create".into(), msg: e.to_string() })?;
        let warp = (o.time_warp().offset.as_millis(), o.time_warp().scale.numerator());
        ensure!(
            warp == (0, TimeScale::denominator() as i32),
            "create",
            "a new object starts with the time warp {warp:?} and not with none"
        );
        let o = MObj { h, con, states: st, chans: ch, warp, sh, ch: chh };
        self.m[b].objs.push(o);
        self.audit_obj(b, self.m[b].objs.len() - 1, 0)
    }

    /// Creations that the contract does not allow
    pub fn create_bad(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        let n = self.m[b].cons.len();
        if n == 0 {
            return self.register_some(s, cx, b);
        }
        let con = s.below(n);
        let k = self.m[b].cons[con].kind;
        let kd = &kinds()[k];
        let (mut st, mut ch) = Self::gen_values(s, k);
        let mut what = "stale contract";
        // through a contract object of another type but on the handle of this one
        let mut other: Option<Box<dyn AnyC>> = None;
        let mut how = s.below(11);
        let mut panic_at = None;
        if !self.m[b].cons[con].live {
            how = 99;
        }
        match how {
            0 | 1 if !st.is_empty() => {
                let i = s.below(st.len());
                let t = loop_ty(s, st[i].ty);
                st[i] = gen_val(s, ty_of_key(t));
                what = "state of another type";
            }
            2 if !ch.is_empty() => {
                let i = s.below(ch.len());
                let t = loop_ty(s, ch[i].ty);
                ch[i] = gen_chan_ordered(s, ty_of_key(t));
                what = "channel of another type";
            }
            3 if !st.is_empty() => {
                let i = s.below(st.len());
                st.remove(i);
                what = "state missing";
            }
            4 if !ch.is_empty() => {
                let i = s.below(ch.len());
                ch.remove(i);
                what = "channel missing";
            }
            5 => {
                let t = if st.is_empty() || s.bool() { any_ty(s) } else { s.pick(&st).ty() };
                let v = gen_val(s, t);
                let i = s.below(st.len() + 1);
                st.insert(i, v);
                what = "state too many";
            }
            6 => {
                let t = if ch.is_empty() || s.bool() { any_ty(s) } else { ty_of_key(s.pick(&ch).ty) };
                let v = gen_chan_ordered(s, t);
                let i = s.below(ch.len() + 1);
                ch.insert(i, v);
                what = "channel too many";
            }
            7 if st.iter().any(|v| v.ty != st[0].ty) => {
                let i = s.below(st.len());
                let js: Vec<usize> = (0..st.len()).filter(|j| st[*j].ty != st[i].ty).collect();
                if js.is_empty() {
                    return Ok(());
                }
                let j = *s.pick(&js);
                st.swap(i, j);
                what = "states swapped";
            }
            8 if ch.iter().any(|v| v.ty != ch[0].ty) => {
                let i = s.below(ch.len());
                let js: Vec<usize> = (0..ch.len()).filter(|j| ch[*j].ty != ch[i].ty).collect();
                if js.is_empty() {
                    return Ok(());
                }
                let j = *s.pick(&js);
                ch.swap(i, j);
                what = "channels swapped";
            }
            9 if st.len() + ch.len() > 0 => {
                let i = s.below(st.len() + ch.len());
                panic_at = Some(if i < st.len() { (true, i) } else { (false, i - st.len()) });
                what = "an iterator that panics";
            }
            99 => (),
            _ => {
                // contract type k2 on the handle of a contract of type k
                let k2 = *s.pick(&self.kinds.clone());
                if kinds()[k2].id == kd.id {
                    return Ok(());
                }
                other = Some((kinds()[k2].make)(self.m[b].cons[con].handle));
                let v = Self::gen_values(s, k2);
                st = v.0;
                ch = v.1;
                what = "handle of another contract type";
            }
        }
        let hint = s.bool();
        cx.op(|| {
            let a: Vec<String> = st.iter().map(|v| v.show()).collect();
            let c: Vec<String> = ch.iter().map(|v| v.show()).collect();
            format!("b{b}: create kind {k} with {what}: {} {}", a.join(" "), c.join(" "))
        });
        cx.label("create rejected");
        cx.label(what);
        let run = |w: &mut Self| {
            let c = other.as_deref().unwrap_or(&*w.m[b].cons[con].c);
            if let Some((state, at)) = panic_at {
                let (s, c_) = (st.iter().map(to_dyn).collect(), ch.iter().map(chan_to_dyn).collect());
                return !c.create_panicking(w.b.at_mut(b), s, c_, state, at);
            }
            c.create(w.b.at_mut(b), st.iter().map(to_dyn).collect(), ch.iter().map(chan_to_dyn).collect(), hint).is_ok()
        };
        ensure!(!run(self), "create-bad", "an object was created of kind {k} with {what}");
        // and nothing stays behind
        let mut last = crate::alloc::live().1;
        for i in 0..4 {
            ensure!(!run(self), "create-bad", "an object was created of kind {k} with {what}");
            let now = crate::alloc::live().1;
            if now <= last {
                break;
            }
            ensure!(i < 3, "create-leak", "each rejected creation (kind {k} with {what}) keeps memory: {} bytes", now - last);
            last = now;
        }
        let way = s.draw(5);
        self.audit(b, way)
    }

    pub fn pick_obj(&self, s: &mut Src, b: usize) -> Option<usize> {
        let n = self.m[b].objs.len();
        if n == 0 {
            None
        } else {
            Some(s.below(n))
        }
    }

    pub fn remove_some(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        match self.pick_obj(s, b) {
            Some(i) => self.remove(cx, b, i),
            None => Ok(()),
        }
    }

    pub fn remove(&mut self, cx: &mut Cx, b: usize, i: usize) -> Res {
        let o = self.m[b].objs[i].clone();
        let k = self.m[b].cons[o.con].kind;
        cx.op(|| format!("b{b}: remove {} of kind {k}", oh(o.h)));
        if let Err(e) = (kinds()[k].remove)(self.b.at_mut(b), o.h) {
            return fail("remove", format!("object {} of kind {k} could not be removed: {e}", oh(o.h)));
        }
        let o = self.m[b].objs.remove(i);
        self.check_gone(b, &o)?;
        self.m[b].dead.push(o);
        cx.label("object removed");
        Ok(())
    }

    /// Removals that must be refused: a contract type that is not the object's, or an object that is gone
    pub fn remove_bad(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        let dead = self.m[b].dead.len();
        if dead > 0 && s.bool() {
            let o = self.m[b].dead[s.below(dead)].clone();
            let k = self.m[b].cons[o.con].kind;
            cx.op(|| format!("b{b}: remove {} of kind {k}, which is gone", oh(o.h)));
            cx.label("remove twice");
            let r = (kinds()[k].remove)(self.b.at_mut(b), o.h);
            ensure!(r.is_err(), "remove-stale", "removing the removed object {} again succeeded", oh(o.h));
        } else if let Some(i) = self.pick_obj(s, b) {
            let o = self.m[b].objs[i].clone();
            let k = self.m[b].cons[o.con].kind;
            let k2 = *s.pick(&self.kinds.clone());
            if kinds()[k2].id == kinds()[k].id {
                return Ok(());
            }
            cx.op(|| format!("b{b}: remove {} of kind {k} as kind {k2}", oh(o.h)));
            cx.label("remove as another contract");
            let r = (kinds()[k2].remove)(self.b.at_mut(b), o.h);
            ensure!(r.is_err(), "remove-type", "an object of kind {k} was removed as one of kind {k2}");
        }
        let way = s.draw(5);
        self.audit(b, way)
    }

    pub fn unregister_some(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        let n = self.m[b].cons.len();
        if n == 0 {
            return Ok(());
        }
        let con = s.below(n);
        let k = self.m[b].cons[con].kind;
        let as_kind = if s.chance(30) { *s.pick(&self.kinds.clone()) } else { k };
        self.unregister(cx, b, con, as_kind)?;
        let way = s.draw(5);
        self.audit(b, way)
    }

    pub fn unregister(&mut self, cx: &mut Cx, b: usize, con: usize, as_kind: usize) -> Res {
        let (k, h, live) = {
            let c = &self.m[b].cons[con];
            (c.kind, c.handle, c.live)
        };
        let ok = live && kinds()[as_kind].id == kinds()[k].id;
        cx.op(|| format!("b{b}: unregister contract {con} of kind {k} as {as_kind}{}", if ok { "" } else { " (to be refused)" }));
        let r = (kinds()[as_kind].unregister)(self.b.at_mut(b), h);
        match (r, ok) {
            (Ok(()), false) => {
                fail("unregister", format!("unregistering a contract (live: {live}) of kind {k} as {as_kind} succeeded"))
            }
            (Err(e), true) => fail("unregister", format!("a contract of kind {k} could not be unregistered: {e}")),
            (Err(_), false) => {
                cx.label("unregister refused");
                Ok(())
            }
            (Ok(()), true) => {
                self.m[b].cons[con].live = false;
                let (gone, stay): (Vec<MObj>, Vec<MObj>) =
                    std::mem::take(&mut self.m[b].objs).into_iter().partition(|o| o.con == con);
                self.m[b].objs = stay;
                if !gone.is_empty() {
                    cx.label("unregistered with objects");
                }
                ensure!(self.b.at(b).contract_data(h).is_err(), "unregister", "the contract is still there");
                for o in gone {
                    self.check_gone(b, &o)?;
                    self.m[b].dead.push(o);
                }
                Ok(())
            }
        }
    }

    /// Nothing of a removed object can be reached any more
    pub fn check_gone(&mut self, b: usize, o: &MObj) -> Res {
        let sf = self.m[b].cons[o.con].c.field_states();
        let cf = self.m[b].cons[o.con].c.field_chans();
        let bl = self.b.at_mut(b);
        let n = oh(o.h);
        ensure!(bl.object(o.h).is_err(), "gone", "the removed object {n} is still there");
        ensure!(bl.object_mut(o.h).is_err(), "gone", "the removed object {n} is still there (mut)");
        ensure!(panics(|| bl[o.h].contract()).is_err(), "gone", "the removed object {n} can still be indexed");
        ensure!(bl.iter_objects().all(|(h, _)| h != o.h), "gone", "the removed object {n} is still listed");
        if let Ok(d) = bl.contract_data(self.m[b].cons[o.con].handle) {
            ensure!(!d.objects().contains(&o.h), "gone", "its contract still lists the removed object {n}");
        }
        for (f, (v, h)) in sf.iter().zip(o.states.iter().zip(&o.sh)) {
            ensure!(bind_state(bl, *f, o.h).is_err(), "gone", "state {f:?} still binds to the removed object {n}");
            for way in 0..3 {
                ensure!(read_state(bl, v.ty, *h, way).is_err(), "gone", "state {f:?} of the removed object {n} can still be read ({way})");
            }
            for way in 0..3 {
                ensure!(
                    write_state(bl, *h, v, v, way).is_err(),
                    "gone",
                    "state {f:?} of the removed object {n} can still be written ({way})"
                );
            }
        }
        for (f, (v, h)) in cf.iter().zip(o.chans.iter().zip(&o.ch)) {
            ensure!(bind_chan(bl, *f, o.h).is_err(), "gone", "channel {f:?} still binds to the removed object {n}");
            for way in 0..3 {
                ensure!(read_chan(bl, v.ty, *h, way).is_err(), "gone", "channel {f:?} of the removed object {n} can still be read ({way})");
            }
            let gone = with_ty!(v.ty, T => {
                let h: ChannelHandle<T> = idx(h.0, h.1);
                bl.channel_mut(h).is_err() && dyn_chan_handle(v.ty, raw(h)).get_mut(bl).is_err() && panics(|| bl[h].keyframes_mut().clear()).is_err()
            });
            ensure!(gone, "gone", "channel {f:?} of the removed object {n} can still be written");
        }
        Ok(())
    }

    pub fn write_some(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        let i = match self.pick_obj(s, b) {
            Some(i) => i,
            None => return Ok(()),
        };
        if self.m[b].objs[i].states.is_empty() {
            return Ok(());
        }
        let f = s.below(self.m[b].objs[i].states.len());
        let old = self.m[b].objs[i].states[f].clone();
        let mut new = gen_new(s, &old);
        let way = s.draw(2);
        if way == 1 && new.parts.len() != old.parts.len() && s.bool() {
            // in place
            new = old.clone();
            for p in new.parts.iter_mut() {
                *p = gen_val(s, Ty::Primitive(old.ty().primitive_type())).parts.remove(0);
            }
        }
        let o = &self.m[b].objs[i];
        cx.op(|| format!("b{b}: {}.state{f} = {} (way {way})", oh(o.h), new.show()));
        if let Err(e) = write_state(self.b.at_mut(b), self.m[b].objs[i].sh[f], &old, &new, way) {
            return fail("write", format!("state {f} of a live object cannot be written: {e}"));
        }
        self.m[b].objs[i].states[f] = new;
        cx.label("state written");
        self.audit_obj(b, i, way)
    }

    pub fn write_chan_some(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        let i = match self.pick_obj(s, b) {
            Some(i) => i,
            None => return Ok(()),
        };
        if self.m[b].objs[i].chans.is_empty() {
            return Ok(());
        }
        let f = s.below(self.m[b].objs[i].chans.len());
        let new = gen_chan_ordered(s, ty_of_key(self.m[b].objs[i].chans[f].ty));
        let way = s.draw(2);
        let h = self.m[b].objs[i].ch[f];
        let o = &self.m[b].objs[i];
        cx.op(|| format!("b{b}: {}.channel{f} = {} (way {way})", oh(o.h), new.show()));
        let bl = self.b.at_mut(b);
        let r: Result<(), String> = with_ty!(new.ty, T => {
            let h: ChannelHandle<T> = idx(h.0, h.1);
            let kf: Vec<Keyframe<T>> = new.kfs.iter().map(|(v, t)| Keyframe::new(T::of(v), f64::from_bits(*t))).collect();
            match way {
                0 => bl.channel_mut(h).map(|c| *c.keyframes_mut() = kf).map_err(|e| e.to_string()),
                1 => bl.channel_mut(h).map(|c| *c = chan_of::<T>(&new)).map_err(|e| e.to_string()),
                _ => panics(|| { bl[h].keyframes_mut().clear(); bl[h].keyframes_mut().extend(kf) }),
            }
        });
        if let Err(e) = r {
            return fail("write", format!("channel {f} of a live object cannot be written: {e}"));
        }
        self.m[b].objs[i].chans[f] = new;
        cx.label("channel written");
        self.audit_obj(b, i, way)
    }

    pub fn warp_some(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        let i = match self.pick_obj(s, b) {
            Some(i) => i,
            None => return Ok(()),
        };
        let w = (s.i32(), s.i32());
        let h = self.m[b].objs[i].h;
        cx.op(|| format!("b{b}: {}.time_warp = {w:?}", oh(h)));
        let bl = self.b.at_mut(b);
        let o = if s.bool() { &mut bl[h] } else {
            match bl.object_mut(h) { Ok(o) => o, Err(e) => return fail("object", e.to_string()) }
        };
        o.time_warp_mut().offset = Ticks::new(w.0);
        o.time_warp_mut().scale = TimeScale::from(w.1);
        self.m[b].objs[i].warp = w;
        self.audit_obj(b, i, 0)
    }

    /// Any field id against any object
    pub fn bind_some(&mut self, s: &mut Src, cx: &mut Cx, b: usize) -> Res {
        let nc = self.m[b].cons.len();
        let (no, nd) = (self.m[b].objs.len(), self.m[b].dead.len());
        if nc == 0 || no + nd == 0 {
            return Ok(());
        }
        let x = s.below(no + nd);
        let (o, alive) = if x < no { (&self.m[b].objs[x], true) } else { (&self.m[b].dead[x - no], false) };
        // half of them with the object's own contract
        let con = if s.bool() { o.con } else { s.below(nc) };
        let c = &self.m[b].cons[con];
        let chan = s.bool();
        let ids = if chan { c.c.field_chans() } else { c.c.field_states() };
        if ids.is_empty() {
            return Ok(());
        }
        let id = *s.pick(&ids);
        let expect = alive && con == o.con;
        cx.op(|| format!("b{b}: bind {} {id:?} to {} -> {expect}", if chan { "channel" } else { "state" }, oh(o.h)));
        cx.label(if expect { "bind own" } else if alive { "bind foreign" } else { "bind to removed" });
        let bl = self.b.at(b);
        let (r, d, want) = if chan {
            (bind_chan(bl, id, o.h), obj_chan(bl, id, o.h), o.ch.get(id.idx))
        } else {
            (bind_state(bl, id, o.h), obj_state(bl, id, o.h), o.sh.get(id.idx))
        };
        match (&r, expect) {
            (Ok(h), true) => ensure!(Some(h) == want, "bind", "{id:?} binds to {h:?} and earlier to {want:?}"),
            (Err(e), true) => return fail("bind", format!("{id:?} does not bind to {}: {e}", oh(o.h))),
            (Ok(_), false) => {
                return fail("bind", format!("{id:?} binds to {} (alive: {alive}), of another contract or gone", oh(o.h)))
            }
            (Err(_), false) => (),
        }
        match (&d, expect) {
            (Ok(h), true) => {
                ensure!(h.0 == usize::MAX || Some(h) == want, "bind", "the object binds {id:?} to {h:?}, the baseline to {want:?}")
            }
            (Err(e), true) => return fail("bind", format!("the object does not bind {id:?}: {e}")),
            (Ok(h), false) => ensure!(h.0 == usize::MAX, "bind", "the object binds {id:?} of another contract"),
            (Err(_), false) => (),
        }
        Ok(())
    }

    pub fn audit_obj(&self, b: usize, i: usize, way: u64) -> Res {
        let o = &self.m[b].objs[i];
        let bl = self.b.at(b);
        let n = oh(o.h);
        let obj = match bl.object(o.h) {
            Ok(x) => x,
            Err(e) => return fail("object", format!("the live object {n} is not there: {e}")),
        };
        let con = &self.m[b].cons[o.con];
        ensure!(obj.contract() == con.handle, "object", "{n} claims contract {:?} and is of {:?}", obj.contract(), con.handle);
        let w = (obj.time_warp().offset.as_millis(), obj.time_warp().scale.numerator());
        ensure!(w == o.warp, "warp", "{n} has the time warp {w:?} where {:?} was set", o.warp);
        for (f, (v, h)) in o.states.iter().zip(&o.sh).enumerate() {
            match read_state(bl, v.ty, *h, way + f as u64) {
                Ok(x) => ensure!(x == *v, "value", "state {f} of {n} reads {} and should be {}", x.show(), v.show()),
                Err(e) => return fail("value", format!("state {f} of {n} cannot be read: {e}")),
            }
        }
        for (f, (v, h)) in o.chans.iter().zip(&o.ch).enumerate() {
            match read_chan(bl, v.ty, *h, way + f as u64) {
                Ok(x) => ensure!(x == *v, "value", "channel {f} of {n} reads {} and should be {}", x.show(), v.show()),
                Err(e) => return fail("value", format!("channel {f} of {n} cannot be read: {e}")),
            }
        }
        Ok(())
    }

    /// Everything the baseline can be asked, against the model
    pub fn audit(&mut self, b: usize, way: u64) -> Res {
        let m = &self.m[b];
        let bl = self.b.at(b);
        ensure!(bl.kind() == kind_at(b), "kind", "baseline {b} says it is {:?}", bl.kind());
        let mut listed: HashMap<ObjectHandle, usize> = HashMap::new();
        for (h, o) in bl.iter_objects() {
            *listed.entry(h).or_insert(0) += 1;
            ensure!(bl.object(h).map_or(false, |p| std::ptr::eq(p, o)), "list", "{} is listed with another object", oh(h));
        }
        for o in &m.objs {
            ensure!(listed.get(&o.h) == Some(&1), "list", "the live object {} is listed {:?} times", oh(o.h), listed.get(&o.h));
        }
        ensure!(
            listed.len() == m.objs.len(),
            "list",
            "{} objects are listed and {} are alive",
            listed.len(),
            m.objs.len()
        );
        for (i, c) in m.cons.iter().enumerate() {
            match (bl.contract_data(c.handle), c.live) {
                (Ok(d), true) => {
                    ensure!(d.id() == kinds()[c.kind].id, "contract", "contract {i} has the id {:?}", d.id());
                    let want: HashSet<ObjectHandle> = m.objs.iter().filter(|o| o.con == i).map(|o| o.h).collect();
                    ensure!(
                        *d.objects() == want,
                        "members",
                        "contract {i} lists {:?}, its live objects are {want:?}",
                        d.objects()
                    );
                }
                (Err(e), true) => return fail("contract", format!("contract {i} is not there: {e}")),
                (Ok(_), false) => return fail("contract", format!("the unregistered contract {i} is still there")),
                (Err(_), false) => (),
            }
        }
        for i in 0..m.objs.len() {
            self.audit_obj(b, i, way)?;
        }
        let from = self.m[b].dead.len().saturating_sub(12);
        for o in self.m[b].dead[from..].to_vec() {
            self.check_gone(b, &o)?;
        }
        Ok(())
    }

    pub fn audit_all(&mut self, way: u64) -> Res {
        for b in 0..self.m.len() {
            self.audit(b, way)?
        }
        Ok(())
    }
}

/// Some type other than `k`
pub fn loop_ty(s: &mut Src, k: usize) -> usize {
    match s.weighted(&[2, 1]) {
        // the vec of it, or what it is a vec of
        1 => (k + 14) % 28,
        _ => (k + 1 + s.below(27)) % 28,
    }
}

/// Runs a history, then again from its choices, twice: what is alive afterwards must not grow
pub fn leak_checked(s: &mut Src, cx: &mut Cx, body: fn(&mut Src, &mut Cx) -> Res) -> Res {
    let from = s.rec.len();
    body(s, cx)?;
    let choices = s.rec[from..].to_vec();
    let mut grown = (0, 0);
    for _ in 0..3 {
        let before = crate::alloc::live();
        {
            let mut s = Src::replay(choices.clone());
            let mut cx = Cx::default();
            body(&mut s, &mut cx)?;
        }
        let after = crate::alloc::live();
        grown = (after.0 - before.0, after.1 - before.1);
        if grown.0 <= 0 && grown.1 <= 0 {
            return Ok(());
        }
    }
    fail("leak", format!("the history leaves {} blocks of {} bytes behind each time", grown.0, grown.1))
}
