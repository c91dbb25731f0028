//! P02 to P06 and P19: histories of a baseline against the model in `world`.
use harness::contracts::*;
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use harness::world::*;
use tp_client::baseline::BaselineKind;
use tp_client::engine::Engine;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::Ticks;

fn play(s: &mut Src, cx: &mut Cx, w: &mut World, weights: &Weights, mean: u32, max: usize) -> Res {
    let mut todo = 0;
    // every operation is a span of its own, so that shrinking can take it out
    loop {
        let go = s.span(|s| {
            if s.draw(mean as u64) == 0 || todo >= max {
                return Ok(false);
            }
            todo += 1;
            w.step(s, cx, weights).map(|_| true)
        })?;
        if !go {
            break;
        }
    }
    let way = s.draw(2);
    w.audit_all(way)
}

fn counts(w: &World) -> (usize, usize, usize) {
    (
        w.m.iter().map(|m| m.objs.len()).sum(),
        w.m.iter().map(|m| m.dead.len()).sum(),
        w.m.iter().map(|m| m.cons.len()).sum(),
    )
}

pub const P02: Prop = Prop {
    id: "P02",
    title: "live objects keep their values",
    rule: "at least 3 objects were created, one was removed, and a freed slot was used again or a value was overwritten",
    quick: 20_000,
    thorough: 150_000,
    run: p02,
};
fn p02(s: &mut Src, cx: &mut Cx) -> Res {
    if s.draw(499) == 499 {
        return harness::crowd::crowd(s, cx, 1);
    }
    let n = 1 + s.below(2);
    let kinds = World::pick_kinds(s);
    let mut w = World::new(Bases::own(n), kinds);
    let weights = Weights { create_bad: 2, remove_bad: 1, bind: 2, unregister: 2, write: 20, write_chan: 10, ..BALANCED };
    play(s, cx, &mut w, &weights, 30, 90)?;
    let (live, dead, _) = counts(&w);
    cx.nontrivial_if(live + dead >= 3 && dead >= 1 && (w.reused || cx.labels.contains_key("state written")));
    Ok(())
}

pub const P03: Prop = Prop {
    id: "P03",
    title: "object creation follows the contract",
    rule: "a creation was rejected while the baseline had a live object",
    quick: 30_000,
    thorough: 150_000,
    run: p03,
};
fn p03(s: &mut Src, cx: &mut Cx) -> Res {
    let n = 1 + s.below(2);
    let kinds = World::pick_kinds(s);
    let mut w = World::new(Bases::own(n), kinds);
    let weights = Weights {
        create: 16,
        create_bad: 30,
        remove: 4,
        remove_bad: 0,
        write: 3,
        write_chan: 2,
        warp: 1,
        bind: 1,
        unregister: 2,
        ..BALANCED
    };
    play(s, cx, &mut w, &weights, 16, 50)?;
    let (live, _, _) = counts(&w);
    cx.nontrivial_if(live >= 1 && cx.labels.contains_key("create rejected"));
    Ok(())
}

pub const P04: Prop = Prop {
    id: "P04",
    title: "removal is complete and precise",
    rule: "an object with fields was removed, or a contract with objects unregistered, while other objects were alive",
    quick: 8_000,
    thorough: 100_000,
    run: p04,
};
fn p04(s: &mut Src, cx: &mut Cx) -> Res {
    if s.draw(249) == 249 {
        return harness::crowd::crowd(s, cx, 2);
    }
    leak_checked(s, cx, p04_history)
}
fn p04_history(s: &mut Src, cx: &mut Cx) -> Res {
    let kinds = World::pick_kinds(s);
    let mut w = World::new(Bases::own(1), kinds);
    let weights = Weights {
        create: 24,
        create_bad: 0,
        remove: 22,
        remove_bad: 6,
        unregister: 8,
        write: 6,
        write_chan: 4,
        warp: 1,
        bind: 1,
        ..BALANCED
    };
    play(s, cx, &mut w, &weights, 24, 80)?;
    let (live, dead, _) = counts(&w);
    cx.nontrivial_if(live >= 1 && dead >= 1);
    // what is created and removed in turn does not use more and more memory
    if let Some(con) = w.pick_con(s, 0, true) {
        let k = w.m[0].cons[con].kind;
        let (st, ch) = World::gen_values(s, k);
        let whole = s.chance(25) && w.m[0].cons[con].live;
        cx.op(|| format!("create and remove kind {k} again and again{}", if whole { ", by unregistering" } else { "" }));
        cx.label(if whole { "cycles of unregister" } else { "cycles of remove" });
        if whole {
            w.unregister(&mut Cx::default(), 0, con, k)?;
        }
        let kd = &kinds_[k];
        let mut marks = [0i64; 4];
        for mark in marks.iter_mut() {
            for _ in 0..5 {
                let b = w.b.at_mut(0);
                let fresh = if whole { Some((kd.register)(b).map_err(bad)?) } else { None };
                let c = fresh.as_deref().unwrap_or(&*w.m[0].cons[con].c);
                let h = c.create(b, st.iter().map(to_dyn).collect(), ch.iter().map(chan_to_dyn).collect(), true).map_err(bad)?;
                if whole {
                    (kd.unregister)(b, c.handle()).map_err(bad)?;
                } else {
                    (kd.remove)(b, h).map_err(bad)?;
                }
                ensure!(b.object(h).is_err(), "gone", "the removed object is still there");
            }
            *mark = harness::alloc::live().1;
        }
        ensure!(
            !(marks[0] < marks[1] && marks[1] < marks[2] && marks[2] < marks[3]),
            "grow",
            "creating and removing an object of kind {k} keeps memory each time: {marks:?}"
        );
        w.audit_all(0)?;
    }
    Ok(())
}
fn bad(e: String) -> Fail {
    Fail { sig: "cycle".into(), msg: e }
}

pub const P05: Prop = Prop {
    id: "P05",
    title: "contract registry and membership",
    rule: "a registration was refused or an unregistration happened, with at least two contracts registered before",
    quick: 40_000,
    thorough: 150_000,
    run: p05,
};
fn p05(s: &mut Src, cx: &mut Cx) -> Res {
    if s.draw(999) == 999 {
        return harness::crowd::crowd(s, cx, 2);
    }
    let n = 1 + s.below(2);
    // kinds that differ in one part of their id only, and some others
    let mut kinds = vec![6, 11];
    kinds.extend(s.vec(4, 6, |s| *s.pick(&[7usize, 8, 9, 10, 12, 14, 1, 0, 15, 16, 17, 18, 19])));
    let mut w = World::new(Bases::own(n), kinds);
    let weights = Weights {
        register: 30,
        unregister: 14,
        create: 14,
        create_bad: 1,
        remove: 8,
        remove_bad: 5,
        write: 1,
        write_chan: 1,
        warp: 0,
        bind: 1,
        audit: 3,
    };
    play(s, cx, &mut w, &weights, 24, 80)?;
    let (_, _, cons) = counts(&w);
    cx.nontrivial_if(
        cons >= 2 && (cx.labels.contains_key("register duplicate") || w.m.iter().any(|m| m.cons.iter().any(|c| !c.live))),
    );
    Ok(())
}

pub const P06: Prop = Prop {
    id: "P06",
    title: "field ids bind to their own contract only",
    rule: "ids were bound both to an object of their own contract and to one of another or to a removed one",
    quick: 15_000,
    thorough: 150_000,
    run: p06,
};
fn p06(s: &mut Src, cx: &mut Cx) -> Res {
    let mut kinds = World::pick_kinds(s);
    kinds.extend([0, 6]);
    let mut w = World::new(Bases::own(1), kinds);
    let weights = Weights {
        register: 10,
        unregister: 5,
        create: 20,
        create_bad: 0,
        remove: 6,
        remove_bad: 0,
        write: 3,
        write_chan: 3,
        warp: 0,
        bind: 50,
        audit: 1,
    };
    play(s, cx, &mut w, &weights, 40, 120)?;
    let l = &cx.labels;
    cx.nontrivial = l.contains_key("bind own") && (l.contains_key("bind foreign") || l.contains_key("bind to removed"));
    Ok(())
}

pub const P19: Prop = Prop {
    id: "P19",
    title: "the two baselines of a realm are independent",
    rule: "objects were created in both baselines, and time passed or something was removed",
    quick: 20_000,
    thorough: 120_000,
    run: p19,
};
fn p19(s: &mut Src, cx: &mut Cx) -> Res {
    let kinds = World::pick_kinds(s);
    let engine = s.bool();
    let id = s.string();
    let bases = if engine {
        let cap = if s.bool() { Some(s.below(4)) } else { None };
        let (e, _tx) = Engine::new(Realm::new(RealmID::new(id)), cap);
        Bases::Engine(Box::new(e))
    } else {
        Bases::Realm(Box::new(Realm::new(RealmID::new(id))))
    };
    let mut w = World::new(bases, kinds);
    let mut time: i64 = 0;
    let mut ticked = false;
    let weights = Weights { unregister: 5, ..BALANCED };
    for _ in 0..1 + s.below(6) {
        s.span(|s| play(s, cx, &mut w, &weights, 6, 20))?;
        let t = s.i32();
        cx.op(|| format!("tick {t}"));
        ticked = true;
        match &mut w.b {
            Bases::Engine(e) if s.bool() => e.tick(Ticks::new(t)),
            Bases::Engine(e) => *e.realm_mut().time_mut().ticks_mut() += Ticks::new(t),
            Bases::Realm(r) => *r.time_mut().ticks_mut() += Ticks::new(t),
            _ => unreachable!(),
        }
        time = (time + t as i64).clamp(i32::MIN as i64, i32::MAX as i64);
        let r = match &w.b {
            Bases::Engine(e) => e.realm(),
            Bases::Realm(r) => r,
            _ => unreachable!(),
        };
        let now = r.time().ticks().as_millis() as i64;
        ensure!(now == time, "time", "the realm is at {now} ticks and should be at {time}");
        ensure!(
            r.baseline(BaselineKind::Main).kind() == BaselineKind::Main && r.baseline(BaselineKind::Fork).kind() == BaselineKind::Fork,
            "kind",
            "the baselines are mixed up"
        );
        w.audit_all(0)?;
    }
    let both = w.m.iter().all(|m| m.objs.len() + m.dead.len() > 0);
    cx.nontrivial_if(both && (ticked || w.m.iter().any(|m| !m.dead.is_empty())));
    Ok(())
}

use harness::contracts::kinds as kinds_fn;
struct KindsRef;
impl std::ops::Index<usize> for KindsRef {
    type Output = Kind;
    fn index(&self, i: usize) -> &Kind {
        &kinds_fn()[i]
    }
}
#[allow(non_upper_case_globals)]
static kinds_: KindsRef = KindsRef;
fn main() { harness::run(&[P02, P03, P04, P05, P06, P19]) }
