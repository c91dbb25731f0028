//! P24: the contracts that ship with a C API
use crate::abi::*;
use crate::baseline::{c_bind_state, c_contract, state_at, state_value};
use crate::{c, with_prim};
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use harness::world::{leak_checked, oh};
use std::ffi::c_void;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::states::StateId;
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

pub const P24: Prop = Prop {
    id: "P24",
    title: "the contracts with a C API keep each argument in its field",
    rule: "two objects were alive at once and one was removed or written",
    quick: 12_000,
    thorough: 150_000,
    run: p24,
};

type B = *const Baseline;
const EX: &str = "tp_contract_example__";
const EX_FIELDS: [(&str, usize); 9] =
    [("u8_0", 0), ("u8_1", 0), ("i8_0", 4), ("i8_1", 4), ("f32_0", 9), ("f32_1", 9), ("str_0", 11), ("oh_0", 12), ("ch_0", 13)];
const BALL_FIELDS: [(&str, usize); 10] = [
    ("pos_x", 9), ("pos_y", 9), ("pos_z", 9), ("euler_x", 5), ("euler_y", 5), ("euler_z", 5), ("scale_x", 9), ("scale_y", 9),
    ("scale_z", 9), ("color", 3),
];

struct Con {
    ball: bool,
    /// `None` once dropped
    p: Option<P>,
    h: ContractDataHandle,
    live: bool,
    /// state ids, as boxes
    ids: Vec<(usize, P)>,
}
impl Con {
    fn fields(&self) -> &'static [(&'static str, usize)] {
        if self.ball { &BALL_FIELDS } else { &EX_FIELDS }
    }
    fn id(&self) -> (&'static str, (u16, u16, u16)) {
        if self.ball { ("Ball", (0, 0, 0)) } else { ("teleportal.example-ffi-contract", (1, 2, 3)) }
    }
    fn sym(&self, f: &str) -> String {
        if self.ball { format!("BallContract__{f}") } else { format!("{EX}ExampleContract__{f}") }
    }
}
struct Obj {
    con: usize,
    h: ObjectHandle,
    vals: Vec<Val>,
}

fn register(b: B, ball: bool) -> Result<P, Fail> {
    let n = if ball { "BallContract__register".to_string() } else { format!("{EX}ExampleContract__register") };
    let p = c!(n, fn(B) -> P)(b);
    ensure!(!p.is_null(), "null", "a contract at null");
    Ok(p)
}

fn make(b: B, ball: bool, con: P, v: &[Val]) -> Result<*mut ObjectHandle, Fail> {
    Ok(if ball {
        let f = |i: usize| f32::of(&v[i]);
        let h = |i: usize| i16::of(&v[i]);
        c!("BallContract__object_create", fn(B, P, f32, f32, f32, i16, i16, i16, f32, f32, f32, u64) -> *mut ObjectHandle)(
            b, con, f(0), f(1), f(2), h(3), h(4), h(5), f(6), f(7), f(8), u64::of(&v[9]),
        )
    } else {
        let (st, o, c) = (String::of(&v[6]).boxed()?, ObjectHandle::of(&v[7]).boxed()?, ContractDataHandle::of(&v[8]).boxed()?);
        c!(format!("{EX}ExampleContract__object_create"), fn(P, B, u8, u8, i8, i8, f32, f32, P, P, P) -> *mut ObjectHandle)(
            con, b, u8::of(&v[0]), u8::of(&v[1]), i8::of(&v[2]), i8::of(&v[3]), f32::of(&v[4]), f32::of(&v[5]), st, o, c,
        )
    })
}

fn read<T: CPrim>(b: B, id: P, o: ObjectHandle) -> Result<Val, Fail> {
    let id = unsafe { *(id as *const StateId<T>) };
    let h = c_bind_state::<T>(b, id, o)?;
    state_value::<T>(state_at::<T>(b, h, false)?)
}
fn write<T: CPrim>(b: B, id: P, o: ObjectHandle, v: &Val) -> Res {
    let id = unsafe { *(id as *const StateId<T>) };
    let h = c_bind_state::<T>(b, id, o)?;
    let st = state_at::<T>(b, h, true)?;
    Ok(c!(of::<T>(ST, "State", "value_set"), fn(P, P))(st, T::of(v).boxed()?))
}

fn audit(b: B, cons: &[Con], objs: &[Obj]) -> Res {
    for (i, c) in cons.iter().enumerate() {
        if !c.live {
            continue;
        }
        let (name, version, members) = c_contract(b, c.h)?;
        ensure!((name.as_str(), version) == c.id(), "contract", "contract {:?} is called {name:?} {version:?}", c.id());
        let mut got: Vec<_> = members.into_iter().map(raw).collect();
        let mut want: Vec<_> = objs.iter().filter(|o| o.con == i).map(|o| raw(o.h)).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "members", "contract {i} has {got:?}, its objects are {want:?}");
    }
    for o in objs {
        let c = &cons[o.con];
        for (i, (n, ty)) in c.fields().iter().enumerate() {
            let r = with_prim!(*ty, T => read::<T>(b, c.ids[i].1, o.h))?;
            ensure!(r == o.vals[i], "value", "field {n} of {} is {} and should be {}", oh(o.h), r.show(), o.vals[i].show());
        }
    }
    Ok(())
}

fn p24(s: &mut Src, cx: &mut Cx) -> Res {
    leak_checked(s, cx, |s, cx| {
        let base = Box::into_raw(Box::new(Baseline::new(BaselineKind::Fork)));
        let b = base as B;
        let mut cons: Vec<Con> = vec![];
        let mut objs: Vec<Obj> = vec![];
        let mut dead: Vec<(bool, ObjectHandle)> = vec![];
        let mut steps = 0;
        let (mut two, mut forks) = (false, 0);
        loop {
            let more = s.span(|s| -> Result<bool, Fail> {
                if s.draw(25) == 0 || steps >= 60 {
                    return Ok(false);
                }
                steps += 1;
                let live: Vec<usize> = (0..cons.len()).filter(|i| cons[*i].live).collect();
                two |= objs.len() >= 2;
                match s.weighted(&[8, 4, 5, 3, 1, 1, 2]) {
                    // an object
                    0 if !live.is_empty() => {
                        let con = *s.pick(&live);
                        let Some(p) = cons[con].p else { return Ok(true) };
                        let vals: Vec<Val> = cons[con].fields().iter().map(|(_, t)| gen_val(s, ty_of_key(*t))).collect();
                        cx.op(|| format!("create with {}", vals.iter().map(|v| v.show()).collect::<Vec<_>>().join(" ")));
                        let h = make(b, cons[con].ball, p, &vals)?;
                        ensure!(!h.is_null(), "null", "an object handle at null");
                        let o = unsafe { *h };
                        ObjectHandle::free(h as P)?;
                        ensure!(objs.iter().all(|x| x.h != o) && dead.iter().all(|x| x.1 != o), "create", "{} was given out before", oh(o));
                        objs.push(Obj { con, h: o, vals });
                        audit(b, &cons, &objs)?;
                    }
                    // a contract, or again
                    0 | 1 => {
                        let ball = s.bool();
                        let taken = live.iter().any(|i| cons[*i].ball == ball);
                        cx.op(|| format!("register {}{}", if ball { "Ball" } else { "Example" }, if taken { " again" } else { "" }));
                        if taken {
                            if forks < 1 {
                                forks += 1;
                                cx.label("registered twice");
                                refused(|| "registering a contract twice".to_string(), || drop(register(b, ball)))?;
                            }
                            return Ok(true);
                        }
                        let p = register(b, ball)?;
                        let mut con = Con { ball, p: Some(p), h: idx(0, 0), live: true, ids: vec![] };
                        let h = c!(con.sym("handle"), fn(P) -> P)(p);
                        con.h = ContractDataHandle::read(h)?;
                        ContractDataHandle::free(h)?;
                        ensure!(cons.iter().all(|c| c.h != con.h), "register", "the new contract has the handle of an earlier one");
                        let st = c!(con.sym("states"), fn(P) -> P)(p);
                        for (n, ty) in con.fields() {
                            let f = if ball { format!("BallStates__{n}") } else { format!("{EX}ExampleStates__{n}") };
                            let id = c!(f, fn(P) -> P)(st);
                            ensure!(!id.is_null(), "null", "an id at null");
                            con.ids.push((*ty, id));
                            // it belongs to this registration
                            let own = with_prim!(*ty, T => {
                                let p = c!(format!("{ST}StateId_{}__contract", T::N), fn(P) -> P)(id);
                                let r = ContractDataHandle::read(p)?;
                                ContractDataHandle::free(p)?;
                                r
                            });
                            ensure!(own == con.h, "owner", "id {n} says it is of {own:?} and not of {:?}", con.h);
                        }
                        cons.push(con);
                    }
                    // written
                    2 if !objs.is_empty() => {
                        let i = s.below(objs.len());
                        let c = &cons[objs[i].con];
                        let f = s.below(c.fields().len());
                        let ty = c.fields()[f].1;
                        let v = gen_val(s, ty_of_key(ty));
                        cx.op(|| format!("{}.{} = {}", oh(objs[i].h), c.fields()[f].0, v.show()));
                        with_prim!(ty, T => write::<T>(b, c.ids[f].1, objs[i].h, &v))?;
                        objs[i].vals[f] = v;
                        cx.label("written");
                        cx.nontrivial_if(two);
                        audit(b, &cons, &objs)?;
                    }
                    3 if !objs.is_empty() => {
                        let i = s.below(objs.len());
                        let o = objs.swap_remove(i);
                        cx.op(|| format!("remove {}", oh(o.h)));
                        c!(cons[o.con].sym("object_remove"), fn(B, P))(b, o.h.boxed()?);
                        ensure!(unsafe { &*b }.object(o.h).is_err(), "gone", "the removed object {} is still there", oh(o.h));
                        dead.push((cons[o.con].ball, o.h));
                        cx.label("removed");
                        cx.nontrivial_if(two);
                        audit(b, &cons, &objs)?;
                    }
                    4 => {
                        let Some(i) = live.iter().copied().find(|i| cons[*i].ball) else { return Ok(true) };
                        cx.op(|| "unregister Ball".to_string());
                        cx.label("unregistered");
                        c!("BallContract__unregister", fn(B, P))(b, cons[i].h.boxed()?);
                        cons[i].live = false;
                        ensure!(unsafe { &*b }.contract_data(cons[i].h).is_err(), "gone", "the contract is still there");
                        for o in objs.iter().filter(|o| o.con == i) {
                            ensure!(unsafe { &*b }.object(o.h).is_err(), "gone", "an object of the contract is still there");
                            dead.push((true, o.h));
                        }
                        objs.retain(|o| o.con != i);
                        audit(b, &cons, &objs)?;
                    }
                    // what must be refused
                    5 if forks < 1 => {
                        forks += 1;
                        match s.below(4) {
                            0 => {
                                if dead.is_empty() {
                                    return Ok(true);
                                }
                                let (ball, h) = *s.pick(&dead);
                                let f = if ball { "BallContract__object_remove".to_string() } else { format!("{EX}ExampleContract__object_remove") };
                                let f = c!(f, fn(B, P));
                                cx.label("removed twice");
                                cx.op(|| format!("remove {} again", oh(h)));
                                let p = h.boxed()?;
                                let r = refused(|| format!("removing {} again", oh(h)), || f(b, p));
                                ObjectHandle::free(p)?;
                                r?
                            }
                            1 => {
                                let Some(o) = objs.first() else { return Ok(true) };
                                let ball = !cons[o.con].ball;
                                let f = if ball { "BallContract__object_remove".to_string() } else { format!("{EX}ExampleContract__object_remove") };
                                let f = c!(f, fn(B, P));
                                cx.label("removed as another contract");
                                cx.op(|| format!("remove {} as another contract", oh(o.h)));
                                let p = o.h.boxed()?;
                                let r = refused(|| format!("removing {} as another contract", oh(o.h)), || f(b, p));
                                ObjectHandle::free(p)?;
                                r?
                            }
                            2 => {
                                let Some(i) = (0..cons.len()).find(|i| !cons[*i].live && cons[*i].p.is_some()) else { return Ok(true) };
                                let vals: Vec<Val> = cons[i].fields().iter().map(|(_, t)| gen_val(s, ty_of_key(*t))).collect();
                                let p = cons[i].p.unwrap();
                                cx.label("created under a contract that is gone");
                                cx.op(|| "create under a contract that is gone".to_string());
                                refused(|| "creating under a contract that is gone".to_string(), || drop(make(b, cons[i].ball, p, &vals)))?
                            }
                            _ => {
                                let Some(c) = cons.iter().find(|c| !c.live || !c.ball) else { return Ok(true) };
                                let f = c!("BallContract__unregister", fn(B, P));
                                cx.label("unregistered what is not there");
                                cx.op(|| "unregister what is not there".to_string());
                                let p = c.h.boxed()?;
                                let r = refused(|| "unregistering Ball by another handle or twice".to_string(), || f(b, p));
                                ContractDataHandle::free(p)?;
                                r?
                            }
                        }
                    }
                    // the contract value itself goes; what it registered stays
                    6 => {
                        let Some(i) = (0..cons.len()).find(|i| cons[*i].p.is_some()) else { return Ok(true) };
                        if s.draw(3) == 0 {
                            cx.op(|| "drop a contract value".to_string());
                            c!(cons[i].sym("drop"), fn(P))(cons[i].p.take().unwrap());
                            audit(b, &cons, &objs)?;
                        }
                    }
                    _ => (),
                }
                Ok(true)
            })?;
            if !more {
                break;
            }
        }
        audit(b, &cons, &objs)?;
        for c in cons {
            if let Some(p) = c.p {
                c!(c.sym("drop"), fn(P))(p);
            }
            for (ty, id) in c.ids {
                with_prim!(ty, T => c!(format!("{ST}StateId_{}__drop", T::N), fn(P))(id));
            }
        }
        Ok(c!(format!("{BL}drop"), fn(*mut Baseline))(base))
    })
}

#[allow(unused)]
fn _p(_: *const c_void) {}
