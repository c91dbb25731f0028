//! Few operations on many objects, of two contracts that share a baseline. The histories of `world`
//! compare everything after every few operations, which keeps them small.
use crate::contracts::{one, twin_a};
use crate::ensure;
use crate::pbt::*;
use crate::values::*;
use std::collections::{HashMap, HashSet};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{Channel, Keyframe};
use tp_client::contract::properties::dynamic::{DynTpPrimitive, DynTpProperty};
use tp_client::contract::properties::states::StateHandle;
use tp_client::contract::Contract;
use tp_client::object::ObjectHandle;

struct Crowd {
    b: Baseline,
    one: Option<one::C>,
    twin: Option<twin_a::C>,
    live: Vec<Member>,
    dead: Vec<Member>,
    issued: HashSet<(usize, u64)>,
    n: u32,
}
#[derive(Clone, Copy)]
struct Member {
    o: ObjectHandle,
    twin: bool,
    v: u32,
    /// The state that holds `v`
    h: (usize, u64),
}

fn ok<T, E: ToString>(r: Result<T, E>, sig: &str) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: sig.into(), msg: e.to_string() })
}

impl Crowd {
    fn create(&mut self, twin: bool) -> Result<(), Fail> {
        self.n += 1;
        let v = self.n;
        let (o, h) = if twin {
            let c = self.twin.as_ref().unwrap();
            let ch: Channel<i32> = Channel::new([Keyframe::new(v as i32, 1.)].into_iter());
            let st = [(v as u16).into_dyn(), v.to_string().into_dyn()];
            let o = ok(self.b.object_create(c, st.into_iter(), [ch].into_iter().map(i32::chan_into_dyn)), "create")?;
            (o, raw(ok(self.b.bind_state(c.states().s(), o), "bind")?))
        } else {
            let c = self.one.as_ref().unwrap();
            let st = [DynTpProperty::from(DynTpPrimitive::from(v))];
            let o = ok(self.b.object_create(c, st.into_iter(), [].into_iter()), "create")?;
            (o, raw(ok(self.b.bind_state(c.states().v(), o), "bind")?))
        };
        ensure!(self.issued.insert(raw(o)), "unique", "{o:?} was given out for the second time");
        self.live.push(Member { o, twin, v, h });
        Ok(())
    }
    fn remove(&mut self, i: usize) -> Res {
        let m = self.live.swap_remove(i);
        let r = if m.twin { self.b.object_remove::<twin_a::C>(m.o) } else { self.b.object_remove::<one::C>(m.o) };
        ok(r, "remove")?;
        self.dead.push(m);
        Ok(())
    }
    fn unregister(&mut self, twin: bool) -> Res {
        let h = if twin { self.twin.as_ref().unwrap().handle() } else { self.one.as_ref().unwrap().handle() };
        let r = if twin { self.b.unregister_contract::<twin_a::C>(h) } else { self.b.unregister_contract::<one::C>(h) };
        ok(r, "unregister")?;
        ensure!(self.b.contract_data(h).is_err(), "unregister", "the contract is still there");
        let (gone, live) = self.live.iter().partition(|m| m.twin == twin);
        self.live = live;
        let gone: Vec<Member> = gone;
        self.dead.extend(gone);
        if twin {
            self.twin = Some(ok(self.b.register_contract(), "register")?);
        } else {
            self.one = Some(ok(self.b.register_contract(), "register")?);
        }
        Ok(())
    }
    fn write(&mut self, i: usize, v: u32) -> Res {
        let m = &mut self.live[i];
        m.v = v;
        if m.twin {
            let c = self.twin.as_ref().unwrap();
            let (a, s, k) = (
                ok(self.b.bind_state(c.states().a(), m.o), "bind")?,
                ok(self.b.bind_state(c.states().s(), m.o), "bind")?,
                ok(self.b.bind_channel(c.channels().c(), m.o), "bind")?,
            );
            self.b[a].value = v as u16;
            self.b[s].value = v.to_string();
            self.b[k].keyframes_mut()[0] = Keyframe::new(v as i32, 1.);
        } else {
            self.b[StateHandle::<u32>::from(idx(m.h.0, m.h.1))].value = v;
        }
        Ok(())
    }
    fn audit(&self) -> Res {
        let b = &self.b;
        let (one, twin) = (self.one.as_ref().unwrap(), self.twin.as_ref().unwrap());
        let mut members = [HashSet::new(), HashSet::new()];
        for m in &self.live {
            let o = ok(b.object(m.o), "object")?;
            members[m.twin as usize].insert(m.o);
            let want = if m.twin { twin.handle() } else { one.handle() };
            ensure!(o.contract() == want, "object", "{:?} is of {:?} and should be of {want:?}", m.o, o.contract());
            if m.twin {
                let (a, s, k) = (
                    ok(b.bind_state(twin.states().a(), m.o), "bind")?,
                    ok(b.bind_state(twin.states().s(), m.o), "bind")?,
                    ok(b.bind_channel(twin.channels().c(), m.o), "bind")?,
                );
                ensure!(raw(s) == m.h, "bind", "a state moved from {:?} to {s:?}", m.h);
                let (a, s) = (ok(b.state(a), "state")?.value, &ok(b.state(s), "state")?.value);
                let k = ok(b.channel(k), "channel")?.keyframes().iter().map(|k| *k.value()).collect::<Vec<_>>();
                ensure!(
                    a == m.v as u16 && *s == m.v.to_string() && k == [m.v as i32],
                    "value",
                    "object {:?} has {a}, {s:?} and {k:?} and should have {}",
                    m.o,
                    m.v
                );
            } else {
                let h = ok(b.bind_state(one.states().v(), m.o), "bind")?;
                ensure!(raw(h) == m.h, "bind", "a state moved from {:?} to {h:?}", m.h);
                let v = ok(b.state(h), "state")?.value;
                ensure!(v == m.v, "value", "object {:?} has {v} and should have {}", m.o, m.v);
            }
        }
        for m in &self.dead {
            ensure!(b.object(m.o).is_err(), "gone", "the removed {:?} is still there", m.o);
            let left = if m.twin {
                b.state(StateHandle::<String>::from(idx(m.h.0, m.h.1))).is_ok()
            } else {
                b.state(StateHandle::<u32>::from(idx(m.h.0, m.h.1))).is_ok()
            };
            ensure!(!left, "gone", "a state of the removed {:?} is still there", m.o);
        }
        for (c, h) in [one.handle(), twin.handle()].into_iter().enumerate() {
            let got = ok(b.contract_data(h), "contract")?.objects();
            ensure!(*got == members[c], "members", "a contract has {} objects of {}, or others", got.len(), members[c].len());
        }
        let want: HashMap<_, _> = self.live.iter().map(|m| (raw(m.o), m.twin)).collect();
        let mut n = 0;
        let mut seen = HashSet::new();
        for (h, o) in b.iter_objects() {
            n += 1;
            let c = o.contract() == twin.handle();
            ensure!(want.get(&raw(h)) == Some(&c) && seen.insert(raw(h)), "iter", "iter_objects gives {h:?}");
        }
        ensure!(n == want.len(), "iter", "iter_objects gives {n} objects of {}", want.len());
        Ok(())
    }
}

/// With `removals`, more of what removes
pub fn crowd(s: &mut Src, cx: &mut Cx, removals: u32) -> Res {
    let mut w = Crowd {
        b: Baseline::new(*s.pick(&[BaselineKind::Main, BaselineKind::Fork])),
        one: None,
        twin: None,
        live: vec![],
        dead: vec![],
        issued: HashSet::new(),
        n: 0,
    };
    w.one = Some(ok(w.b.register_contract(), "register")?);
    w.twin = Some(ok(w.b.register_contract(), "register")?);
    let rounds = 2 + s.below(5);
    let mut removed = false;
    for _ in 0..rounds {
        s.span(|s| -> Res {
            let k = *s.pick(&[70usize, 300, 300, 1_100, 1_100, 4_200]) + s.below(3);
            let twin = s.chance(40);
            match s.weighted(&[6, 2 * removals, removals, removals, 1]) {
                0 => {
                    cx.op(|| format!("create {k} objects{}", if twin { " of twin" } else { "" }));
                    for _ in 0..k {
                        w.create(twin)?;
                    }
                }
                1 => {
                    let how = s.below(3);
                    let k = k.min(w.live.len());
                    cx.op(|| format!("remove {k} objects, {}", ["the oldest", "the latest", "any"][how]));
                    for j in 0..k {
                        let i = match how {
                            0 => 0,
                            1 => w.live.len() - 1,
                            _ => j * 7919 % w.live.len(),
                        };
                        w.remove(i)?;
                    }
                    removed |= k > 0;
                }
                2 => {
                    let k = if s.chance(15) { 66_000 } else { k };
                    cx.op(|| format!("create and remove {k} times{}", if twin { " of twin" } else { "" }));
                    cx.label("slots reused often");
                    for _ in 0..k {
                        w.create(twin)?;
                        w.remove(w.live.len() - 1)?;
                    }
                    removed = true;
                }
                3 => {
                    cx.op(|| format!("unregister and register {}", if twin { "twin" } else { "one" }));
                    let n = w.live.len();
                    w.unregister(twin)?;
                    if n > w.live.len() + 255 {
                        cx.label("contract with many objects unregistered");
                    }
                    removed = true;
                }
                _ => {
                    cx.op(|| "write all".into());
                    for i in 0..w.live.len() {
                        w.write(i, 1_000_000 + i as u32)?;
                    }
                }
            }
            Ok(())
        })?;
    }
    w.audit()?;
    cx.label("many objects");
    cx.nontrivial_if(removed && !w.live.is_empty());
    Ok(())
}
