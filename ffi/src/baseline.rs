//! P20: what C reads and writes through a baseline is what Rust has there
use crate::abi::*;
use crate::{c, with_prim};
use harness::contracts::*;
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use harness::world::*;
use std::ffi::c_void;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::{ChannelHandle, ChannelId};
use tp_client::contract::properties::states::{StateHandle, StateId};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

pub const P20: Prop = Prop {
    id: "P20",
    title: "the C API sees the baseline as Rust does",
    rule: "C wrote a state, bound a field or read a channel with keyframes, and at least two objects were made",
    quick: 15_000,
    thorough: 150_000,
    run: p20,
};

type B = *const Baseline;
type BM = *mut Baseline;

fn new_baseline(kind: u8) -> Result<Baseline, Fail> {
    let p = c!(format!("{BL}new"), fn(u8) -> *mut Baseline)(kind);
    ensure!(!p.is_null(), "null", "a baseline at null");
    Ok(*unsafe { Box::from_raw(p) })
}

fn p20(s: &mut Src, cx: &mut Cx) -> Res {
    leak_checked(s, cx, |s, cx| {
        let n = 1 + s.below(2);
        let bases: Result<Vec<Baseline>, Fail> = (0..n).map(|i| new_baseline(i as u8)).collect();
        let kinds = (0..1 + s.below(3)).map(|_| s.weighted(&[6, 2, 6, 0, 5, 0, 3, 3, 0, 0, 0, 0, 1, 1, 1])).collect();
        let mut w = World::new(Bases::Own(bases?), kinds);
        let weights = Weights { register: 8, create: 30, create_bad: 0, remove_bad: 0, bind: 0, warp: 0, unregister: 1, ..BALANCED };
        let mut todo = 0;
        loop {
            let go = s.span(|s| {
                if s.draw(30) == 0 || todo >= 90 {
                    return Ok(false);
                }
                todo += 1;
                if s.chance(50) {
                    w.step(s, cx, &weights)
                } else {
                    c_step(s, cx, &mut w)
                }
                .map(|_| true)
            })?;
            if !go {
                break;
            }
        }
        w.audit_all(0)?;
        let made: usize = w.m.iter().map(|m| m.objs.len() + m.dead.len()).sum();
        let did = ["C wrote", "C bound", "C read keyframes"].iter().any(|l| cx.labels.contains_key(l));
        cx.nontrivial_if(made >= 2 && did);
        if let Bases::Own(v) = w.b {
            for b in v {
                c!(format!("{BL}drop"), fn(*mut Baseline))(Box::into_raw(Box::new(b)));
            }
        }
        Ok(())
    })
}

/// Which of an object's fields have an instance in the C API
fn fields(s: &mut Src, tys: impl Iterator<Item = usize>) -> Option<usize> {
    let v: Vec<usize> = tys.enumerate().filter(|(_, t)| *t < 14).map(|(i, _)| i).collect();
    if v.is_empty() {
        None
    } else {
        Some(*s.pick(&v))
    }
}

pub fn state_at<T: CPrim>(b: B, h: (usize, u64), mutably: bool) -> Result<P, Fail> {
    let h: StateHandle<T> = idx(h.0, h.1);
    let f = if mutably { "state_mut" } else { "state" };
    Ok(c!(format!("{BL}{f}_{}", T::N), fn(B, *const StateHandle<T>) -> P)(b, &h))
}
pub fn chan_at<T: CPrim>(b: B, h: (usize, u64), mutably: bool) -> Result<P, Fail> {
    let h: ChannelHandle<T> = idx(h.0, h.1);
    let f = if mutably { "channel_mut" } else { "channel" };
    Ok(c!(format!("{BL}{f}_{}", T::N), fn(B, *const ChannelHandle<T>) -> P)(b, &h))
}
pub fn state_value<T: CPrim>(st: P) -> Result<Val, Fail> {
    ensure!(!st.is_null(), "null", "a state at null");
    let p = c!(of::<T>(ST, "State", "value"), fn(P) -> *const c_void)(st);
    Ok(T::read(p)?.val())
}
pub fn c_bind_state<T: CPrim>(b: B, id: StateId<T>, o: ObjectHandle) -> Result<(usize, u64), Fail> {
    let p = c!(format!("{BL}bind_state_{}", T::N), fn(B, *const StateId<T>, *const ObjectHandle) -> *mut StateHandle<T>)(b, &id, &o);
    ensure!(!p.is_null(), "null", "a handle at null");
    let r = raw(unsafe { *p });
    c!(format!("{ST}StateHandle_{}__drop", T::N), fn(*mut StateHandle<T>))(p);
    Ok(r)
}
pub fn c_bind_chan<T: CPrim>(b: B, id: ChannelId<T>, o: ObjectHandle) -> Result<(usize, u64), Fail> {
    let p = c!(format!("{BL}bind_channel_{}", T::N), fn(B, *const ChannelId<T>, *const ObjectHandle) -> *mut ChannelHandle<T>)(b, &id, &o);
    ensure!(!p.is_null(), "null", "a handle at null");
    // there is no function that drops these
    Ok(raw(*unsafe { Box::from_raw(p) }))
}

/// What C is told of a contract
pub fn c_contract(b: B, h: ContractDataHandle) -> Result<(String, (u16, u16, u16), Vec<ObjectHandle>), Fail> {
    let d = c!(format!("{BL}contract_data"), fn(B, *const ContractDataHandle) -> P)(b, &h);
    ensure!(!d.is_null(), "null", "contract data at null");
    let id = c!(format!("{CO}ContractData__id"), fn(P) -> P)(d);
    ensure!(!id.is_null(), "null", "a contract id at null");
    let name = c!(format!("{CO}ContractId__name"), fn(P) -> Slice<u8>)(id).get()?;
    let name = match std::str::from_utf8(name) {
        Ok(n) => n.to_string(),
        Err(_) => return fail("utf8", "a contract name that is not valid"),
    };
    #[repr(C)]
    struct Version(u16, u16, u16);
    let v = c!(format!("{CO}ContractId__version"), fn(P) -> Version)(id);
    let objs = c!(format!("{CO}ContractData__objects"), fn(P) -> CVec<ObjectHandle>)(d);
    let members = objs.get()?.to_vec();
    objs.release();
    Ok((name, (v.0, v.1, v.2), members))
}

fn c_step(s: &mut Src, cx: &mut Cx, w: &mut World) -> Res {
    let b = s.below(w.m.len());
    match s.weighted(&[5, 4, 4, 3, 2, 2, 1]) {
        0 => {
            let Some(i) = w.pick_obj(s, b) else { return Ok(()) };
            let o = &w.m[b].objs[i];
            let Some(f) = fields(s, o.states.iter().map(|v| v.ty)) else { return Ok(()) };
            let (v, h) = (o.states[f].clone(), o.sh[f]);
            cx.op(|| format!("C reads b{b}.{}.state{f}", oh(o.h)));
            cx.label("C read");
            let r = with_prim!(v.ty, T => {
                let st = state_at::<T>(w.b.at(b), h, false)?;
                let r = state_value::<T>(st)?;
                let same = w.b.at(b).state(idx::<tp_client::contract::properties::states::State<T>>(h.0, h.1));
                ensure!(same.map_or(false, |x| x as *const _ as usize == st as usize), "place", "C is given a state elsewhere");
                r
            });
            ensure!(r == v, "value", "C reads {} where {} is", r.show(), v.show());
        }
        1 => {
            let Some(i) = w.pick_obj(s, b) else { return Ok(()) };
            let o = &w.m[b].objs[i];
            let Some(f) = fields(s, o.states.iter().map(|v| v.ty)) else { return Ok(()) };
            let (old, h) = (o.states[f].clone(), o.sh[f]);
            let new = gen_new(s, &old);
            cx.op(|| format!("C sets b{b}.{}.state{f} to {}", oh(o.h), new.show()));
            cx.label("C wrote");
            with_prim!(new.ty, T => {
                let p = T::of(&new).boxed()?;
                let st = state_at::<T>(w.b.at_mut(b), h, true)?;
                let r = state_value::<T>(st)?;
                ensure!(r == old, "value", "C reads {} where {} is", r.show(), old.show());
                c!(of::<T>(ST, "State", "value_set"), fn(P, P))(st, p);
            });
            w.m[b].objs[i].states[f] = new;
            w.audit_obj(b, i, 0)?;
            if w.m[b].objs.len() > 1 {
                let j = s.below(w.m[b].objs.len());
                w.audit_obj(b, j, 1)?;
            }
        }
        2 => {
            // any id against any object
            let nc = w.m[b].cons.len();
            let (no, nd) = (w.m[b].objs.len(), w.m[b].dead.len());
            if nc == 0 || no + nd == 0 {
                return Ok(());
            }
            let odd = s.chance(12);
            let x = if odd || no == 0 { s.below(no + nd) } else { s.below(no) };
            let (o, alive) = if x < no { (&w.m[b].objs[x], true) } else { (&w.m[b].dead[x - no], false) };
            let con = if odd && s.bool() { s.below(nc) } else { o.con };
            let chan = s.bool();
            let cc = &w.m[b].cons[con];
            let ids = if chan { cc.c.field_chans() } else { cc.c.field_states() };
            let Some(f) = fields(s, ids.iter().map(|f| f.ty)) else { return Ok(()) };
            let id = ids[f];
            let fine = alive && con == o.con;
            cx.op(|| format!("C binds {} {id:?} to {} -> {fine}", if chan { "channel" } else { "state" }, oh(o.h)));
            let bl: B = w.b.at(b);
            let oh_ = o.h;
            let ch = cc.handle;
            // the id knows its contract
            let owner = with_prim!(id.ty, T => {
                let p = if chan {
                    let i: ChannelId<T> = ChannelId::new(id.idx, ch);
                    c!(format!("{CH}ChannelId_{}__contract", T::N), fn(*const ChannelId<T>) -> P)(&i)
                } else {
                    let i: StateId<T> = StateId::new(id.idx, ch);
                    c!(format!("{ST}StateId_{}__contract", T::N), fn(*const StateId<T>) -> P)(&i)
                };
                let r = ContractDataHandle::read(p)?;
                ContractDataHandle::free(p)?;
                r
            });
            ensure!(owner == ch, "owner", "an id of contract {ch:?} says it is of {owner:?}");
            let bind = || -> Result<(usize, u64), Fail> {
                with_prim!(id.ty, T => if chan {
                    c_bind_chan::<T>(bl, ChannelId::new(id.idx, ch), oh_)
                } else {
                    c_bind_state::<T>(bl, StateId::new(id.idx, ch), oh_)
                })
            };
            if fine {
                cx.label("C bound");
                let want = if chan { o.ch[f] } else { o.sh[f] };
                let r = bind()?;
                ensure!(r == want, "bind", "C binds {id:?} to {r:?}, it is {want:?}");
            } else {
                cx.label("C may not bind");
                refused(|| format!("binding {id:?} to {} (alive: {alive}) of another contract or gone", oh(oh_)), || drop(bind()))?;
            }
        }
        3 => {
            let Some(i) = w.pick_obj(s, b) else { return Ok(()) };
            let o = &w.m[b].objs[i];
            let Some(f) = fields(s, o.chans.iter().map(|v| v.ty)) else { return Ok(()) };
            let (v, h) = (o.chans[f].clone(), o.ch[f]);
            let mutably = s.bool();
            cx.op(|| format!("C reads b{b}.{}.channel{f}", oh(o.h)));
            if !v.kfs.is_empty() {
                cx.label("C read keyframes");
            }
            let r = with_prim!(v.ty, T => {
                let c = chan_at::<T>(w.b.at_mut(b) as BM as B, h, mutably)?;
                let same = w.b.at(b).channel(idx::<tp_client::contract::properties::channels::Channel<T>>(h.0, h.1));
                ensure!(same.map_or(false, |x| x as *const _ as usize == c as usize), "place", "C is given a channel elsewhere");
                chan_read::<T>(c, mutably)?
            });
            ensure!(r == v, "value", "C reads {} where {} is", r.show(), v.show());
            w.audit_obj(b, i, 0)?;
        }
        4 => {
            let bl: B = w.b.at(b);
            let k = c!(format!("{BL}kind"), fn(B) -> u8)(bl);
            ensure!(k as usize == b.min(1), "kind", "C is told that baseline {b} is of kind {k}");
            let Some(i) = w.pick_obj(s, b) else { return Ok(()) };
            let h = w.m[b].objs[i].h;
            cx.op(|| format!("C looks up {}", oh(h)));
            let p = c!(format!("{BL}object"), fn(B, *const ObjectHandle) -> P)(bl, &h);
            let q = c!(format!("{BL}object_mut"), fn(B, *const ObjectHandle) -> P)(bl, &h);
            let r = w.b.at(b).object(h).map_or(0, |o| o as *const _ as usize);
            ensure!(p as usize == r && q as usize == r, "place", "C is given another object for {}", oh(h));
        }
        5 => {
            let Some(c) = w.pick_con(s, b, true) else { return Ok(()) };
            let (h, k) = (w.m[b].cons[c].handle, w.m[b].cons[c].kind);
            cx.op(|| format!("C asks for contract {c} of kind {k}"));
            cx.label("C asked for a contract");
            let (name, version, members) = c_contract(w.b.at(b), h)?;
            let id = &kinds()[k].id;
            ensure!(name == id.name && version == id.version, "contract", "C is told that {id:?} is {name:?} {version:?}");
            let mut got: Vec<_> = members.into_iter().map(raw).collect();
            let mut want: Vec<_> = w.m[b].objs.iter().filter(|o| o.con == c).map(|o| raw(o.h)).collect();
            got.sort();
            want.sort();
            ensure!(got == want, "members", "C is told that contract {c} has {got:?}, its objects are {want:?}");
        }
        _ => {
            // nothing can be had through what is gone
            let bl: B = w.b.at(b);
            let what = s.below(5);
            if what == 4 {
                let Some(c) = w.pick_con(s, b, false) else { return Ok(()) };
                let h = w.m[b].cons[c].handle;
                cx.op(|| format!("C asks for contract {c}, which is gone"));
                cx.label("C reached for what is gone");
                let f = c!(format!("{BL}contract_data"), fn(B, *const ContractDataHandle) -> P);
                return refused(|| format!("looking up contract {c}, which is gone,"), || drop(f(bl, &h)));
            }
            let nd = w.m[b].dead.len();
            if nd == 0 {
                return Ok(());
            }
            let o = w.m[b].dead[s.below(nd)].clone();
            cx.op(|| format!("C reaches for {}, which is gone", oh(o.h)));
            cx.label("C reached for what is gone");
            match what {
                0 | 1 => {
                    let f = c!(format!("{BL}{}", if what == 0 { "object" } else { "object_mut" }), fn(B, *const ObjectHandle) -> P);
                    refused(|| format!("looking up {}, which is gone,", oh(o.h)), || drop(f(bl, &o.h)))?
                }
                2 => {
                    let Some(f) = fields(s, o.states.iter().map(|v| v.ty)) else { return Ok(()) };
                    let m = s.bool();
                    refused(
                        || format!("looking up state {f} of {}, which is gone,", oh(o.h)),
                        || with_prim!(o.states[f].ty, T => drop(state_at::<T>(bl, o.sh[f], m))),
                    )?
                }
                _ => {
                    let Some(f) = fields(s, o.chans.iter().map(|v| v.ty)) else { return Ok(()) };
                    let m = s.bool();
                    refused(
                        || format!("looking up channel {f} of {}, which is gone,", oh(o.h)),
                        || with_prim!(o.chans[f].ty, T => drop(chan_at::<T>(bl, o.ch[f], m))),
                    )?
                }
            }
        }
    }
    Ok(())
}
