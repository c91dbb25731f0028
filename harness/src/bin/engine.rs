//! P16 the engine's queue, P17 collactions, P18 single actions.
use crossbeam_channel::{RecvTimeoutError, TryRecvError, TrySendError};
use harness::contracts::kinds;
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use harness::world::*;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
use tp_client::action::property::{ChannelAction, PropertyAction, StateAction};
use tp_client::action::{Action, ActionKind, Collaction, IAction};
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::dyn_handle::{DynStateHandlePrimitive, DynStateHandleVec};
use tp_client::contract::properties::states::DynStateHandle;
use tp_client::engine::{ActionSender, Engine};
use tp_client::realm::{Realm, RealmID};

type Raw = (usize, u64);
const FORK: usize = 1;

fn raw_of(h: &DynStateHandle) -> (usize, Raw) {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match h {
                DynStateHandle::Primitive(p) => match p { $(DynStateHandlePrimitive::$v(h) => (<$t as PropT>::key(), raw(*h))),* },
                DynStateHandle::Vec(p) => match p { $(DynStateHandleVec::$v(h) => (<Vec<$t> as PropT>::key(), raw(*h))),* },
            }
        };
    }
    harness::each_prim!(arms)
}

/// What a generated action says
#[derive(Clone, Debug)]
struct MAct {
    write: bool,
    ty: usize,
    h: Raw,
    data: Val,
}
impl MAct {
    fn show(&self) -> String {
        format!(
            "{} {} state {}.{} {}",
            if self.write { "write" } else { "assert" },
            ty_name(ty_of_key(self.ty)),
            self.h.0,
            self.h.1,
            self.data.show()
        )
    }
    fn action(&self) -> Action {
        let (handle, data) = (dyn_state_handle(self.ty, self.h), to_dyn(&self.data));
        Action::Property(PropertyAction::State(match self.write {
            true => StateAction::Write { handle, data },
            false => StateAction::Assert { handle, data },
        }))
    }
}
fn shown(a: &Action) -> Option<MAct> {
    match a {
        Action::Property(PropertyAction::State(s)) => {
            let (write, handle, data) = match s {
                StateAction::Write { handle, data } => (true, handle, data),
                StateAction::Assert { handle, data } => (false, handle, data),
            };
            let (ty, h) = raw_of(handle);
            Some(MAct { write, ty, h, data: of_dyn(data) })
        }
        _ => None,
    }
}

/// Every state alive in the fork: object, field, type, handle
fn slots(w: &World, b: usize) -> Vec<(usize, usize, usize, Raw)> {
    let mut v = Vec::new();
    for (i, o) in w.m[b].objs.iter().enumerate() {
        for (f, (x, h)) in o.states.iter().zip(&o.sh).enumerate() {
            v.push((i, f, x.ty, *h));
        }
    }
    v
}
fn find(w: &World, ty: usize, h: Raw) -> Option<(usize, usize)> {
    slots(w, FORK).into_iter().find(|s| s.2 == ty && s.3 == h).map(|s| (s.0, s.1))
}

/// The model: whether the action succeeds, and its effect
fn m_apply(w: &mut World, a: &MAct) -> bool {
    let Some((o, f)) = find(w, a.ty, a.h) else { return false };
    let st = &mut w.m[FORK].objs[o].states[f];
    if a.write {
        if a.data.ty != st.ty {
            return false;
        }
        *st = a.data.clone();
        true
    } else {
        val_eq(st, &a.data)
    }
}

fn setup(s: &mut Src, cx: &mut Cx, kinds: Vec<usize>, n: usize) -> Result<(World, ActionSender), Fail> {
    let cap = if s.bool() { Some(1 + s.below(3)) } else { None };
    let (e, tx) = Engine::new(Realm::new(RealmID::new("verif".into())), cap);
    let mut w = World::new(Bases::Engine(Box::new(e)), kinds.clone());
    for b in [FORK, 0] {
        for k in &kinds {
            if !w.id_taken(b, *k) {
                w.register(cx, b, *k)?;
            }
        }
    }
    for _ in 0..n {
        let b = if s.chance(25) { 0 } else { FORK };
        let c = w.pick_con(s, b, true).unwrap();
        w.create(s, cx, b, c)?;
        if s.chance(10) {
            w.remove_some(s, cx, b)?;
        }
    }
    Ok((w, tx))
}

/// An action, on a copy of the model that has seen those before it
fn gen_act(s: &mut Src, w: &World, bad: bool) -> Option<MAct> {
    let live = slots(w, FORK);
    let write = s.chance(60);
    let gone: Vec<(usize, Raw)> = w.m[FORK]
        .dead
        .iter()
        .flat_map(|o| o.states.iter().map(|v| v.ty).zip(o.sh.iter().copied()))
        .chain(w.m[0].objs.iter().flat_map(|o| o.states.iter().map(|v| v.ty).zip(o.sh.iter().copied())))
        .filter(|(ty, h)| find(w, *ty, *h).is_none())
        .collect();
    if bad && !gone.is_empty() && s.chance(30) {
        let (ty, h) = *s.pick(&gone);
        let data = gen_val(s, ty_of_key(ty));
        return Some(MAct { write, ty, h, data });
    }
    if live.is_empty() {
        return None;
    }
    let (o, f, ty, h) = *s.pick(&live);
    let cur = w.m[FORK].objs[o].states[f].clone();
    if bad {
        return Some(match s.below(4) {
            // a handle that is none
            0 => MAct { write, ty, h: (h.0, h.1 + 1 + s.draw(2)), data: cur },
            1 => MAct { write, ty, h: (h.0 + 1000, h.1), data: cur },
            // data of another type
            2 => {
                let other = loop_ty(s, ty);
                let data = if s.bool() { recode(&cur, other) } else { gen_val(s, ty_of_key(other)) };
                MAct { write, ty, h, data }
            }
            // a failing assertion, as long as it is one
            _ => {
                let data = near(s, &cur);
                MAct { write: false, ty, h, data }
            }
        });
    }
    let data = if write {
        match s.weighted(&[5, 1, 1]) {
            0 => gen_new(s, &cur),
            1 => cur,
            // the value of another state of the type
            _ => {
                let same: Vec<_> = live.iter().filter(|x| x.2 == ty).collect();
                let x = s.pick(&same);
                w.m[FORK].objs[x.0].states[x.1].clone()
            }
        }
    } else {
        cur
    };
    Some(MAct { write, ty, h, data })
}

enum Out {
    Accepted(Collaction),
    Rejected(Collaction),
}

/// Sends a collaction through the engine and has it applied
fn run_one(w: &mut World, tx: &ActionSender, acts: &[MAct], timeout: bool) -> Result<Out, Fail> {
    if tx.try_send(Collaction::verif_new(acts.iter().map(|a| a.action()).collect())).is_err() {
        return fail("send", "an empty queue does not take a collaction");
    }
    let Bases::Engine(e) = &mut w.b else { unreachable!() };
    // there is something to apply, so that it is not a matter of time
    let patience = if acts.len() % 3 == 2 { Duration::MAX } else { Duration::from_secs(5) };
    let r = if timeout {
        e.apply_timeout(patience).map_err(|e| e.to_string())
    } else {
        e.try_apply().map_err(|e| e.to_string())
    };
    match r {
        Ok(Ok(c)) => Ok(Out::Accepted(c)),
        Ok(Err(c)) => Ok(Out::Rejected(c)),
        Err(e) => fail("queue", format!("a queued collaction is not applied: {e}")),
    }
}

fn kind_name(k: &ActionKind) -> &'static str {
    match k {
        ActionKind::StateWrite => "StateWrite",
        ActionKind::StateIncrement => "StateIncrement",
        ActionKind::QueueWrite => "QueueWrite",
        ActionKind::QueueIncrement => "QueueIncrement",
        ActionKind::ChannelWrite => "ChannelWrite",
        ActionKind::ChannelAssert => "ChannelAssert",
        ActionKind::ChannelCommit => "ChannelCommit",
        ActionKind::ObjectArm => "ObjectArm",
        ActionKind::ObjectRtPreviewEnable => "ObjectRtPreviewEnable",
        ActionKind::TimeWrite => "TimeWrite",
        ActionKind::Lock => "Lock",
        ActionKind::StateAssert => "StateAssert",
        ActionKind::QueueAssert => "QueueAssert",
    }
}

/// Applies to the model and to the engine, compares everything
fn play(w: &mut World, cx: &mut Cx, tx: &ActionSender, acts: &[MAct], timeout: bool, way: u64) -> Result<bool, Fail> {
    let before = w.m[FORK].objs.clone();
    let mut ok = true;
    for (i, a) in acts.iter().enumerate() {
        cx.op(|| format!("  {}", a.show()));
        ok = m_apply(w, a);
        if !ok {
            cx.op(|| format!("  ... fails, action {i} of {}", acts.len()));
            break;
        }
    }
    if !ok {
        w.m[FORK].objs = before;
    }
    let what = |n: usize| format!("a collaction of {n} actions ({})", acts.iter().map(|a| a.show()).collect::<Vec<_>>().join("; "));
    match run_one(w, tx, acts, timeout)? {
        Out::Accepted(mut c) => {
            ensure!(ok, "accepted", "{} is accepted although an action fails", what(acts.len()));
            ensure!(c.actions().len() == acts.len() && c.actions_mut().len() == acts.len(), "returned", "{} comes back with {}", what(acts.len()), c.actions().len());
        }
        Out::Rejected(c) => {
            ensure!(!ok, "rejected", "{} is rejected although all of it holds", what(acts.len()));
            ensure!(c.actions().len() == acts.len(), "returned", "{} comes back with {}", what(acts.len()), c.actions().len());
            for (i, (x, y)) in c.actions().iter().zip(acts).enumerate() {
                let Some(x) = shown(x) else { return fail("returned", "another kind of action comes back") };
                ensure!(
                    x.write == y.write && x.ty == y.ty && x.h == y.h && x.data == y.data,
                    "returned",
                    "action {i} of the rejected collaction comes back as {}, sent as {}",
                    x.show(),
                    y.show()
                );
            }
        }
    }
    w.audit_all(way).map_err(|f| Fail { msg: format!("after {}: {}", what(acts.len()), f.msg), ..f })?;
    Ok(ok)
}

fn pick_state_kinds(s: &mut Src) -> Vec<usize> {
    let with: Vec<usize> = (0..kinds().len()).filter(|k| !kinds()[*k].states.is_empty() && kinds()[*k].states.len() < 60).collect();
    (0..1 + s.below(3)).map(|_| *s.pick(&with)).collect()
}

// ---- P17 ----

pub const P17: Prop = Prop {
    id: "P17",
    title: "a collaction applies entirely or not at all",
    rule: "a collaction with at least two actions fails after one of them wrote",
    quick: 25_000,
    thorough: 400_000,
    run: p17,
};
fn p17_body(s: &mut Src, cx: &mut Cx) -> Res {
    let ks = pick_state_kinds(s);
    let n = 1 + s.below(5);
    let (mut w, tx) = setup(s, cx, ks, n)?;
    for _ in 0..1 + s.below(6) {
        let go = s.span(|s| -> Result<bool, Fail> {
            // a collaction, generated on a model that goes along
            let long = s.draw(299) == 299;
            let len = if long { 40 + s.below(1200) } else { *s.pick(&[3usize, 1, 2, 6, 0, 14]) };
            if long {
                cx.label("many actions");
            }
            let fail_at = match s.chance(60) && len > 0 {
                true if long && s.bool() => Some(len - 1),
                true => Some(s.below(len)),
                false => None,
            };
            let keep = w.m[FORK].objs.clone();
            let mut acts: Vec<MAct> = Vec::new();
            // a few states that most actions are about, so that they interfere
            let mut wrote = false;
            let mut bad = false;
            for i in 0..len {
                let again: Option<MAct> = if !acts.is_empty() && s.chance(35) { Some(s.pick(&acts).clone()) } else { None };
                let a = s.span(|s| {
                    let a = gen_act(s, &w, fail_at == Some(i));
                    match (a, again) {
                        // the same state once more
                        (Some(a), Some(r)) if fail_at != Some(i) => match find(&w, r.ty, r.h) {
                            Some((o, f)) => {
                                let cur = w.m[FORK].objs[o].states[f].clone();
                                let data = if a.write { gen_new(s, &cur) } else { cur };
                                Some(MAct { write: a.write, ty: r.ty, h: r.h, data })
                            }
                            None => Some(a),
                        },
                        (a, _) => a,
                    }
                });
                let Some(a) = a else { continue };
                if !bad {
                    if m_apply(&mut w, &a) {
                        wrote |= a.write;
                    } else {
                        bad = true;
                        cx.label("collaction with a failing action");
                        if wrote {
                            cx.nontrivial();
                            cx.label("fails after a write");
                        }
                    }
                }
                acts.push(a);
            }
            w.m[FORK].objs = keep;
            cx.op(|| format!("collaction of {}:", acts.len()));
            let (timeout, way) = (s.bool(), s.draw(5));
            play(&mut w, cx, &tx, &acts, timeout, way)?;
            if s.chance(15) {
                w.remove_some(s, cx, FORK)?;
            }
            if s.chance(15) {
                if let Some(c) = w.pick_con(s, FORK, true) {
                    w.create(s, cx, FORK, c)?;
                }
            }
            Ok(s.chance(85))
        })?;
        if !go {
            break;
        }
    }
    Ok(())
}
fn p17(s: &mut Src, cx: &mut Cx) -> Res {
    if s.chance(10) {
        leak_checked(s, cx, p17_body)
    } else {
        p17_body(s, cx)
    }
}

// ---- P18 ----

pub const P18: Prop = Prop {
    id: "P18",
    title: "an action affects exactly its own state, and only when it fits",
    rule: "the action is a write of another value, or one that has to fail",
    quick: 60_000,
    thorough: 1_000_000,
    run: p18,
};
fn p18(s: &mut Src, cx: &mut Cx) -> Res {
    let ks = pick_state_kinds(s);
    let n = 1 + s.below(3);
    let (mut w, tx) = setup(s, cx, ks, n)?;
    for _ in 0..1 + s.below(4) {
        let go = s.span(|s| -> Result<bool, Fail> {
            let bad = s.chance(45);
            let Some(a) = gen_act(s, &w, bad) else { return Ok(false) };
            let act = a.action();
            let kind = match &act {
                Action::Property(p) => (kind_name(&act.kind()), kind_name(&p.kind())),
            };
            let want = if a.write { "StateWrite" } else { "StateAssert" };
            ensure!(kind == (want, want), "kind", "a {want} says it is {kind:?}");
            let other = w.m[FORK].objs.iter().flat_map(|o| o.states.clone()).collect::<Vec<_>>();
            let ok = play(&mut w, cx, &tx, &[a.clone()], s.bool(), s.draw(5))?;
            if !ok {
                cx.label(if find(&w, a.ty, a.h).is_none() {
                    "handle of nothing"
                } else if a.data.ty != a.ty {
                    "data of another type"
                } else {
                    "failing assertion"
                });
            }
            cx.nontrivial_if(!ok || (a.write && !other.contains(&a.data)));
            Ok(s.chance(80))
        })?;
        if !go {
            break;
        }
    }
    // channel actions only have their kind so far
    let ty = s.below(28);
    let data = || to_dyn(&Val { ty: 8, parts: vec![vec![1]] });
    let handle = || dyn_chan_handle(ty, (0, 0));
    for (a, want) in [
        (ChannelAction::Assert { handle: handle(), data: data() }, "ChannelAssert"),
        (ChannelAction::Write { handle: handle(), data: data() }, "ChannelWrite"),
    ] {
        ensure!(kind_name(&a.kind()) == want, "kind", "a {want} says it is {}", kind_name(&a.kind()));
        let a = Action::Property(PropertyAction::Channel(a));
        ensure!(kind_name(&a.kind()) == want, "kind", "a {want} says it is {}", kind_name(&a.kind()));
    }
    Ok(())
}

// ---- P16 ----

pub const P16: Prop = Prop {
    id: "P16",
    title: "the engine applies each queued collaction once, in order",
    rule: "several collactions were pending at a time, or several threads sent",
    quick: 40_000,
    thorough: 600_000,
    run: p16,
};

/// An engine whose fork has two numbers: the collactions say who they are by what they write
fn log_engine(cap: Option<usize>) -> Result<(Engine, ActionSender, [Raw; 2]), Fail> {
    let (e, tx) = Engine::new(Realm::new(RealmID::new("verif".into())), cap);
    let u64_key = <u64 as PropT>::key();
    let k = kinds().iter().position(|k| k.states.iter().any(|(_, t)| *t == u64_key) && k.states.len() > 1).unwrap();
    let mut w = World::new(Bases::Engine(Box::new(e)), vec![k]);
    let mut cx = Cx::default();
    w.register(&mut cx, FORK, k)?;
    for _ in 0..2 {
        let st = kinds()[k].state_tys().iter().map(|t| Val { ty: ty_key(*t), parts: vec![] }).collect::<Vec<_>>();
        let st = st.into_iter().map(|v| recode(&v, v.ty)).collect();
        let ch = kinds()[k].chan_tys().iter().map(|t| Chan { ty: ty_key(*t), kfs: vec![] }).collect();
        w.create_with(&mut cx, FORK, 0, st, ch, true)?;
    }
    let at = kinds()[k].states.iter().position(|(_, t)| *t == u64_key).unwrap();
    let h = [w.m[FORK].objs[0].sh[at], w.m[FORK].objs[1].sh[at]];
    match w.b {
        Bases::Engine(e) => Ok((*e, tx, h)),
        _ => unreachable!(),
    }
}
fn num(x: u64) -> Val {
    PropT::val(&x)
}
fn read_num(e: &Engine, h: Raw) -> Result<u64, Fail> {
    match read_state(e.realm().baseline(BaselineKind::Fork), <u64 as PropT>::key(), h, 0) {
        Ok(v) => Ok(<u64 as PropT>::of(&v)),
        Err(e) => fail("state", format!("the log state is gone: {e}")),
    }
}
/// Writes its number, and fails or not
fn marked(h: [Raw; 2], id: u64, ok: bool) -> Collaction {
    let ty = <u64 as PropT>::key();
    let w = MAct { write: true, ty, h: h[0], data: num(id) };
    // the second state stays 0
    let a = MAct { write: false, ty, h: h[1], data: num(if ok { 0 } else { 1 }) };
    Collaction::verif_new(vec![w.action(), a.action()])
}
fn id_of(c: &Collaction) -> Option<u64> {
    shown(c.actions().first()?).map(|a| <u64 as PropT>::of(&a.data))
}

fn p16(s: &mut Src, cx: &mut Cx) -> Res {
    if s.draw(799) == 799 {
        flood(s, cx)
    } else if s.chance(4) {
        threads(s, cx)
    } else {
        script(s, cx)
    }
}

fn script(s: &mut Src, cx: &mut Cx) -> Res {
    let cap = match s.below(4) {
        0 => None,
        1 => Some(s.below(3)),
        2 => Some(1 + s.below(6)),
        _ => Some(40),
    };
    cx.op(|| format!("engine with a queue of {cap:?}"));
    let (e, tx, h) = log_engine(cap)?;
    let mut e = Some(e);
    let mut senders = vec![tx];
    let mut q: VecDeque<(u64, bool)> = VecDeque::new();
    let mut next = 1u64;
    let mut cur = 0u64;
    let mut most = 0;
    let mut naps = 0;
    for _ in 0..4 + s.below(60) {
        let go = s.span(|s| -> Result<bool, Fail> {
            match s.weighted(&[12, 8, 5, 1, 1]) {
                0 => {
                    if senders.is_empty() {
                        return Ok(true);
                    }
                    let tx = &senders[s.below(senders.len())];
                    let (id, ok) = (next, !s.chance(20));
                    next += 1;
                    let full = cap.map_or(false, |c| q.len() >= c);
                    cx.op(|| format!("send {id}{}{}", if ok { "" } else { ", which fails" }, if full { " (full)" } else { "" }));
                    match tx.try_send(marked(h, id, ok)) {
                        Ok(()) => {
                            ensure!(e.is_some(), "capacity", "an engine that is gone takes a collaction");
                            ensure!(!full, "capacity", "a queue of {cap:?} takes one more than that");
                            q.push_back((id, ok));
                        }
                        Err(TrySendError::Full(c)) => {
                            ensure!(e.is_some() && full, "capacity", "a queue of {cap:?} with {} pending is full", q.len());
                            ensure!(id_of(&c) == Some(id), "capacity", "another collaction comes back");
                            cx.label("queue full");
                        }
                        Err(TrySendError::Disconnected(_)) => {
                            ensure!(e.is_none(), "disconnected", "a sender is cut off from a live engine");
                            cx.label("engine gone");
                        }
                    }
                    most = most.max(q.len());
                }
                n @ (1 | 2) => {
                    let Some(e) = e.as_mut() else { return Ok(true) };
                    let timeout = n == 2;
                    // waiting for nothing takes time
                    if timeout && q.is_empty() && !senders.is_empty() {
                        if naps > 3 {
                            return Ok(true);
                        }
                        naps += 1;
                    }
                    let d = match q.is_empty() || s.chance(60) {
                        true => Duration::from_micros(s.draw(1500)),
                        // none of which is used up
                        false => *s.pick(&[Duration::ZERO, Duration::from_secs(3600), Duration::from_secs(u64::MAX), Duration::MAX]),
                    };
                    let start = Instant::now();
                    let r = if timeout {
                        e.apply_timeout(d).map_err(|e| e == RecvTimeoutError::Disconnected)
                    } else {
                        e.try_apply().map_err(|e| e == TryRecvError::Disconnected)
                    };
                    let took = start.elapsed();
                    let name = if timeout { "apply_timeout" } else { "try_apply" };
                    let got = match &r {
                        Ok(Ok(c)) => format!("accepts {} actions", c.actions().len()),
                        Ok(Err(c)) => format!("rejects {:?}", id_of(c)),
                        Err(true) => "disconnected".to_string(),
                        Err(false) => "nothing pending".to_string(),
                    };
                    cx.op(|| format!("{name}: {got}"));
                    match (q.pop_front(), r) {
                        (Some((id, true)), Ok(Ok(_))) => cur = id,
                        (Some((id, false)), Ok(Err(c))) => {
                            ensure!(id_of(&c) == Some(id), "order", "{name} rejects {:?} where {id} is next", id_of(&c));
                        }
                        (None, Err(disc)) => {
                            ensure!(disc == senders.is_empty(), "empty", "{name} with {} senders: {got}", senders.len());
                            if timeout && !disc {
                                ensure!(took >= d, "timeout", "gives up after {took:?} instead of {d:?}");
                                cx.label("timeout");
                            }
                            if disc {
                                cx.label("disconnected");
                            }
                        }
                        (want, _) => return fail("order", format!("{name} {got} where {want:?} is next")),
                    }
                    let now = read_num(e, h[0])?;
                    ensure!(now == cur, "order", "{name}: the state is that of collaction {now} and should be of {cur}");
                    ensure!(read_num(e, h[1])? == 0, "state", "a state nobody wrote has changed");
                }
                3 => {
                    if s.bool() {
                        if let Some(t) = senders.first() {
                            let t = t.clone();
                            senders.push(t);
                            cx.op(|| "another sender".into());
                        }
                    } else if !senders.is_empty() {
                        let i = s.below(senders.len());
                        drop(senders.remove(i));
                        cx.op(|| format!("drop a sender, {} left", senders.len()));
                    }
                }
                _ => {
                    if s.chance(15) {
                        e = None;
                        q.clear();
                        cx.op(|| "drop the engine".into());
                    } else if s.chance(30) {
                        senders.clear();
                        cx.op(|| "drop all senders".into());
                    }
                }
            }
            Ok(true)
        })?;
        if !go {
            break;
        }
    }
    cx.nontrivial_if(most >= 2);
    Ok(())
}

/// Many pending collactions
fn flood(s: &mut Src, cx: &mut Cx) -> Res {
    let n = *s.pick(&[300usize, 70_000, 1_100, 5_000, 20_000]) + s.below(3);
    let cap = if s.bool() { Some(n) } else { None };
    cx.op(|| format!("{n} collactions are sent into a queue of {cap:?}"));
    cx.label("many pending");
    cx.nontrivial();
    let (mut e, tx, h) = log_engine(cap)?;
    let bad = 2 + s.draw(50);
    let ok = |id: u64| id % bad != 0;
    let mut next = 1u64;
    let mut cur = 0;
    for round in 0..2 {
        let first = next;
        for _ in 0..n {
            ensure!(tx.try_send(marked(h, next, ok(next))).is_ok(), "capacity", "a queue of {cap:?} is full with {}", next - first);
            next += 1;
        }
        if cap.is_some() {
            ensure!(tx.try_send(marked(h, 0, true)).is_err(), "capacity", "a queue of {cap:?} takes one more than that");
        }
        // the first time, some are left
        let apply = if round == 0 && cap.is_none() { s.below(n) } else { usize::MAX };
        let mut from = cur;
        for _ in 0..apply {
            let r = match e.try_apply() {
                Ok(r) => r,
                Err(_) => break,
            };
            from += 1;
            match r {
                Ok(_) => {
                    cur = read_num(&e, h[0])?;
                    ensure!(ok(from) && cur == from, "order", "{cur} is applied where {from} is next");
                }
                Err(c) => ensure!(!ok(from) && id_of(&c) == Some(from), "order", "{:?} is rejected where {from} is next", id_of(&c)),
            }
        }
        cur = from;
        if apply == usize::MAX {
            ensure!(cur == next - 1, "lost", "{cur} collactions are applied of {}", next - 1);
        }
    }
    Ok(())
}

fn threads(s: &mut Src, cx: &mut Cx) -> Res {
    let cap = *s.pick(&[None, Some(1), Some(0), Some(2), Some(7)]);
    let counts: Vec<u64> = (0..2 + s.below(3)).map(|_| 1 + s.draw(40)).collect();
    let way = s.below(3);
    let yields: Vec<u64> = (0..counts.len() + 1).map(|_| s.draw(7)).collect();
    let fails = s.draw(6);
    cx.op(|| format!("{} threads send {counts:?} collactions into a queue of {cap:?}", counts.len()));
    cx.label("several threads");
    cx.nontrivial();
    let (e, tx, h) = log_engine(cap)?;
    let done = AtomicU64::new(0);
    let ok_of = |i: u64| fails == 0 || i % (fails + 1) != fails;
    let total: u64 = counts.iter().sum();
    std::thread::scope(|sc| {
        for (t, n) in counts.iter().enumerate() {
            let (tx, done, y, n) = (tx.clone(), &done, yields[t], *n);
            sc.spawn(move || {
                for i in 0..n {
                    if tx.send(marked(h, (t as u64) << 32 | (i + 1), ok_of(i))).is_err() {
                        return;
                    }
                    done.fetch_add(1, SeqCst);
                    if y > 0 && i % y == 0 {
                        std::thread::yield_now();
                    }
                }
            });
        }
        drop(tx);
        // goes with this closure, so that no sender is left waiting when a check fails
        let mut e = e;
        let mut next = vec![0u64; counts.len()];
        let mut applied = 0u64;
        let mut cur = 0;
        let idle = Instant::now();
        loop {
            let sent = done.load(SeqCst);
            if let Some(c) = cap {
                ensure!(sent <= applied + c as u64, "capacity", "{sent} are sent and {applied} applied, in a queue of {c}");
            }
            let r = match way {
                0 => e.try_apply().map_err(|e| e == TryRecvError::Disconnected),
                1 => e.apply_timeout(Duration::from_secs(20)).map_err(|e| e == RecvTimeoutError::Disconnected),
                _ => e.apply_timeout(Duration::from_micros(50)).map_err(|e| e == RecvTimeoutError::Disconnected),
            };
            let id = match &r {
                Ok(Ok(_)) => {
                    cur = read_num(&e, h[0])?;
                    cur
                }
                Ok(Err(c)) => {
                    ensure!(read_num(&e, h[0])? == cur, "order", "a rejected collaction has changed the state");
                    id_of(c).unwrap_or(0)
                }
                Err(true) => break,
                Err(false) => {
                    ensure!(idle.elapsed() < Duration::from_secs(60), "lost", "{applied} of {total} are applied and no more come");
                    std::thread::yield_now();
                    continue;
                }
            };
            applied += 1;
            let (t, i) = ((id >> 32) as usize, id & 0xffff_ffff);
            ensure!(t < counts.len() && i == next[t] + 1, "order", "{i} of thread {t} is applied, {:?} are so far", next);
            ensure!(ok_of(i - 1) == matches!(r, Ok(Ok(_))), "order", "{i} of thread {t} should {}fail", if ok_of(i - 1) { "not " } else { "" });
            next[t] = i;
        }
        ensure!(next == counts, "lost", "{next:?} are applied of {counts:?}");
        Ok(())
    })
}

#[allow(unused)]
fn _unused(_: DynTpProperty) {}

fn main() {
    harness::run(&[P16, P17, P18])
}
