//! P21 and P23: values that C owns
use crate::abi::*;
use crate::{c, with_prim};
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use harness::world::leak_checked;
use std::ffi::c_void;

pub const P21: Prop = Prop {
    id: "P21",
    title: "values owned by C keep their contents and are released exactly once",
    rule: "at least three values were made of others and one was released on its own",
    quick: 40_000,
    thorough: 100_000,
    run: p21,
};
pub const P23: Prop = Prop {
    id: "P23",
    title: "lists of keyframes agree with a vector",
    rule: "an element was replaced, or an access past the end refused, in a list of two or more",
    quick: 12_000,
    thorough: 100_000,
    run: p23,
};

type Kf = (Val, u64);

enum Item {
    Boxed(P, Val),
    State(P, Val),
    Kf(P, Kf),
    List(CVec<c_void>, usize, Vec<Kf>),
    Chan(P, Chan),
}

fn show(k: &Kf) -> String {
    format!("{}@{:?}", k.0.show(), f64::from_bits(k.1))
}

fn list_new(ty: usize) -> Result<CVec<c_void>, Fail> {
    Ok(with_prim!(ty, T => c!(of::<T>(CH, "RVec", "new"), fn() -> CVec<c_void>)()))
}
fn list_push(ty: usize, v: &mut CVec<c_void>, k: P) -> Res {
    Ok(with_prim!(ty, T => c!(of::<T>(CH, "RVec", "push"), fn(*mut CVec<c_void>, P))(v, k)))
}
fn list_set(ty: usize, v: &mut CVec<c_void>, i: usize, k: P) -> Res {
    Ok(with_prim!(ty, T => c!(of::<T>(CH, "RVec", "set"), fn(*mut CVec<c_void>, usize, P))(v, i, k)))
}
fn list_get(ty: usize, v: &CVec<c_void>, i: usize) -> Result<*const c_void, Fail> {
    Ok(with_prim!(ty, T => c!(of::<T>(CH, "RVec", "get"), fn(*const CVec<c_void>, usize) -> *const c_void)(v, i)))
}
fn list_drop(ty: usize, v: CVec<c_void>) -> Res {
    Ok(with_prim!(ty, T => c!(of::<T>(CH, "RVec", "drop"), fn(CVec<c_void>))(v)))
}
fn list_check(ty: usize, v: &CVec<c_void>, m: &[Kf]) -> Res {
    ensure!(v.len == m.len(), "length", "a list of {} says it has {}", m.len(), v.len);
    ensure!(v.cap >= v.len, "length", "a list of {} has room for {}", v.len, v.cap);
    for (i, k) in m.iter().enumerate() {
        let p = list_get(ty, v, i)?;
        let r = with_prim!(ty, T => kf_read::<T>(p))?;
        ensure!(r == *k, "value", "element {i} of a list is {} and should be {}", show(&r), show(k));
    }
    Ok(())
}
fn kf_make(k: &Kf) -> Result<P, Fail> {
    let p = with_prim!(k.0.ty, T => kf_new::<T>(&T::of(&k.0), f64::from_bits(k.1)))?;
    ensure!(!p.is_null(), "null", "a keyframe at null");
    Ok(p)
}
fn boxed(v: &Val) -> Result<P, Fail> {
    with_prim!(v.ty, T => T::of(v).boxed())
}

impl Item {
    fn show(&self) -> String {
        match self {
            Item::Boxed(_, v) => format!("box of {}", v.show()),
            Item::State(_, v) => format!("state of {}", v.show()),
            Item::Kf(_, k) => format!("keyframe {}", show(k)),
            Item::List(_, _, m) => format!("list of {}", m.len()),
            Item::Chan(_, c) => c.show(),
        }
    }
    fn check(&self) -> Res {
        match self {
            Item::Boxed(p, v) => {
                let r = with_prim!(v.ty, T => T::read(*p).map(|x| x.val()))?;
                ensure!(r == *v, "value", "a box of {} reads {}", v.show(), r.show())
            }
            Item::State(p, v) => {
                let r = with_prim!(v.ty, T => {
                    let x = c!(of::<T>(ST, "State", "value"), fn(P) -> *const c_void)(*p);
                    T::read(x).map(|x| x.val())
                })?;
                ensure!(r == *v, "value", "a state of {} reads {}", v.show(), r.show())
            }
            Item::Kf(p, k) => {
                let r = with_prim!(k.0.ty, T => kf_read::<T>(*p))?;
                ensure!(r == *k, "value", "a keyframe {} reads {}", show(k), show(&r))
            }
            Item::List(v, ty, m) => list_check(*ty, v, m)?,
            Item::Chan(p, m) => {
                let r = with_prim!(m.ty, T => chan_read::<T>(*p, false))?;
                ensure!(r == *m, "value", "a {} reads {}", m.show(), r.show());
                let r = with_prim!(m.ty, T => chan_read::<T>(*p, true))?;
                ensure!(r == *m, "value", "a {} reads {} for writing", m.show(), r.show())
            }
        }
        Ok(())
    }
    fn drop(self) -> Res {
        Ok(match self {
            Item::Boxed(p, v) => with_prim!(v.ty, T => T::free(p))?,
            Item::State(p, v) => with_prim!(v.ty, T => c!(of::<T>(ST, "State", "drop"), fn(P))(p)),
            Item::Kf(p, k) => with_prim!(k.0.ty, T => c!(of::<T>(CH, "Keyframe", "drop"), fn(P))(p)),
            Item::List(v, ty, _) => list_drop(ty, v)?,
            Item::Chan(p, m) => with_prim!(m.ty, T => c!(of::<T>(CH, "Channel", "drop"), fn(P))(p)),
        })
    }
}

fn take(s: &mut Src, pool: &mut Vec<Item>, f: impl Fn(&Item) -> bool) -> Option<Item> {
    let at: Vec<usize> = (0..pool.len()).filter(|i| f(&pool[*i])).collect();
    if at.is_empty() {
        return None;
    }
    let i = *s.pick(&at);
    Some(pool.swap_remove(i))
}

fn p21(s: &mut Src, cx: &mut Cx) -> Res {
    leak_checked(s, cx, |s, cx| {
        let n = 1 + s.below(2);
        let tys: Vec<usize> = (0..n).map(|_| if s.chance(35) { 11 } else { s.below(14) }).collect();
        let mut pool: Vec<Item> = vec![];
        let (mut made, mut gone) = (0, 0);
        let mut steps = 0;
        loop {
            let more = s.span(|s| -> Result<bool, Fail> {
                if s.draw(30) == 0 || steps >= 120 {
                    return Ok(false);
                }
                steps += 1;
                let item = step(s, cx, &tys, &mut pool, &mut made, &mut gone)?;
                if let Some(i) = item {
                    cx.op(|| format!("make a {}", i.show()));
                    i.check()?;
                    pool.push(i);
                }
                Ok(true)
            })?;
            if !more {
                break;
            }
        }
        for i in &pool {
            i.check()?;
        }
        // in any order
        s.shuffle(&mut pool);
        while let Some(i) = pool.pop() {
            i.drop()?;
            if let Some(i) = pool.last() {
                i.check()?;
            }
        }
        cx.nontrivial_if(made >= 3 && gone > 0);
        Ok(())
    })
}

fn step(s: &mut Src, cx: &mut Cx, tys: &[usize], pool: &mut Vec<Item>, made: &mut usize, gone: &mut usize) -> Result<Option<Item>, Fail> {
    let ty = *s.pick(tys);
    let is_box = |i: &Item| matches!(i, Item::Boxed(_, v) if v.ty == ty);
    let is_kf = |i: &Item| matches!(i, Item::Kf(_, k) if k.0.ty == ty);
    match s.weighted(&[6, 5, 5, 3, 7, 3, 3, 4, 3, 2]) {
        0 => {
            let v = gen_val(s, ty_of_key(ty));
            return Ok(Some(Item::Boxed(boxed(&v)?, v)));
        }
        1 => {
            if let Some(Item::Boxed(p, v)) = take(s, pool, is_box) {
                *made += 1;
                cx.label("state made");
                let p = with_prim!(ty, T => c!(of::<T>(ST, "State", "new"), fn(P) -> P)(p));
                ensure!(!p.is_null(), "null", "a state at null");
                return Ok(Some(Item::State(p, v)));
            }
        }
        2 => {
            if let Some(Item::Boxed(p, v)) = take(s, pool, is_box) {
                *made += 1;
                cx.label("keyframe made");
                let t = gen_time(s);
                let p = with_prim!(ty, T => c!(of::<T>(CH, "Keyframe", "new"), fn(P, f64) -> P)(p, t));
                ensure!(!p.is_null(), "null", "a keyframe at null");
                return Ok(Some(Item::Kf(p, (v, t.to_bits()))));
            }
        }
        3 => return Ok(Some(Item::List(list_new(ty)?, ty, vec![]))),
        4 => {
            if let Some(Item::Kf(p, k)) = take(s, pool, is_kf) {
                let l = pool.iter_mut().find_map(|i| match i {
                    Item::List(v, t, m) if *t == ty => Some((v, m)),
                    _ => None,
                });
                match l {
                    Some((v, m)) => {
                        *made += 1;
                        cx.op(|| format!("push {} onto a list of {}", show(&k), m.len()));
                        list_push(ty, v, p)?;
                        m.push(k);
                        list_check(ty, v, m)?;
                        cx.label("pushed");
                    }
                    None => pool.push(Item::Kf(p, k)),
                }
            }
        }
        5 => {
            // a list becomes a channel
            if let Some(Item::List(v, _, m)) = take(s, pool, |i| matches!(i, Item::List(_, t, _) if *t == ty)) {
                *made += 1;
                cx.label("channel made");
                let p = with_prim!(ty, T => c!(of::<T>(CH, "Channel", "new"), fn(CVec<c_void>) -> P)(v));
                let r = with_prim!(ty, T => chan_read::<T>(p, false))?;
                sorted(&r, &m)?;
                return Ok(Some(Item::Chan(p, r)));
            }
        }
        6 => {
            if let Some(Item::Boxed(p, v)) = take(s, pool, is_box) {
                let st = pool.iter_mut().find_map(|i| match i {
                    Item::State(q, w) if w.ty == ty => Some((q, w)),
                    _ => None,
                });
                match st {
                    Some((q, w)) => {
                        *made += 1;
                        cx.op(|| format!("set a state of {} to {}", w.show(), v.show()));
                        with_prim!(ty, T => c!(of::<T>(ST, "State", "value_set"), fn(P, P))(*q, p));
                        *w = v;
                        cx.label("state set");
                    }
                    None => pool.push(Item::Boxed(p, v)),
                }
            }
        }
        7 => {
            if let Some(i) = take(s, pool, |_| true) {
                *gone += 1;
                cx.op(|| format!("drop a {}", i.show()));
                i.drop()?;
            }
        }
        8 => {
            for i in pool.iter() {
                i.check()?;
            }
        }
        _ => {
            // replaced in a list
            if let Some(Item::Kf(p, k)) = take(s, pool, is_kf) {
                let x = s.draw(100) as usize;
                let l = pool.iter_mut().find_map(|i| match i {
                    Item::List(v, t, m) if *t == ty && !m.is_empty() => Some((v, m)),
                    _ => None,
                });
                match l {
                    Some((v, m)) => {
                        *made += 1;
                        let i = x % m.len();
                        cx.op(|| format!("element {i} of a list becomes {}", show(&k)));
                        list_set(ty, v, i, p)?;
                        m[i] = k;
                        list_check(ty, v, m)?;
                        cx.label("replaced");
                    }
                    None => pool.push(Item::Kf(p, k)),
                }
            }
        }
    }
    Ok(None)
}

/// A channel has the keyframes it was given, by ascending time
fn sorted(c: &Chan, given: &[Kf]) -> Res {
    let key = |k: &Kf| (k.1, k.0.parts.clone());
    let mut a: Vec<_> = c.kfs.iter().map(key).collect();
    let mut b: Vec<_> = given.iter().map(key).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "keyframes", "a channel of {:?} has {}", given.iter().map(show).collect::<Vec<_>>(), c.show());
    let t: Vec<f64> = c.kfs.iter().map(|k| f64::from_bits(k.1)).filter(|t| !t.is_nan()).collect();
    ensure!(t.windows(2).all(|w| w[0] <= w[1]), "order", "a channel is out of order: {}", c.show());
    Ok(())
}

fn p23(s: &mut Src, cx: &mut Cx) -> Res {
    leak_checked(s, cx, |s, cx| {
        let ty = if s.chance(30) { 11 } else { s.below(14) };
        let mut v = list_new(ty)?;
        let mut m: Vec<Kf> = vec![];
        list_check(ty, &v, &m)?;
        cx.op(|| format!("a list of keyframes of {}", ty_name(ty_of_key(ty))));
        let mut forks = 0;
        let mut steps = 0;
        let deep = s.chance(20);
        let long = s.draw(399) == 399;
        if long {
            let n = *s.pick(&[300usize, 300, 1_100, 5_000, 66_000]) + s.below(3);
            let few: Vec<Val> = (0..3).map(|_| gen_val(s, ty_of_key(ty))).collect();
            cx.op(|| format!("push {n} keyframes"));
            cx.label("long list");
            for i in 0..n {
                let k = (few[i % 3].clone(), (i as f64).to_bits());
                list_push(ty, &mut v, kf_make(&k)?)?;
                m.push(k);
            }
            list_check(ty, &v, &m)?;
        }
        loop {
            let more = s.span(|s| -> Result<bool, Fail> {
                if s.draw(if long { 5 } else if deep { 90 } else { 25 }) == 0 || steps >= 400 {
                    return Ok(false);
                }
                steps += 1;
                match s.weighted(&[8, 4, 3, 1]) {
                    0 => {
                        let k = (gen_val(s, ty_of_key(ty)), gen_time(s).to_bits());
                        cx.op(|| format!("push {}", show(&k)));
                        list_push(ty, &mut v, kf_make(&k)?)?;
                        m.push(k);
                        ensure!(v.len == m.len(), "length", "a list of {} says it has {}", m.len(), v.len);
                    }
                    1 if !m.is_empty() => {
                        let i = s.below(m.len());
                        let k = (gen_val(s, ty_of_key(ty)), gen_time(s).to_bits());
                        cx.op(|| format!("set {i} to {}", show(&k)));
                        list_set(ty, &mut v, i, kf_make(&k)?)?;
                        m[i] = k;
                        cx.label("replaced");
                        cx.nontrivial_if(m.len() > 1);
                        list_check(ty, &v, &m)?;
                    }
                    2 if !m.is_empty() => {
                        let i = s.below(m.len());
                        let p = list_get(ty, &v, i)?;
                        let r = with_prim!(ty, T => kf_read::<T>(p))?;
                        ensure!(r == m[i], "value", "element {i} is {} and should be {}", show(&r), show(&m[i]));
                    }
                    3 if forks < 1 => {
                        forks += 1;
                        let i = match s.weighted(&[5, 2, 1]) {
                            0 => m.len(),
                            1 => m.len() + 1 + s.below(40),
                            _ => usize::MAX - s.below(3),
                        };
                        let set = s.bool();
                        let k = (gen_val(s, ty_of_key(ty)), gen_time(s).to_bits());
                        cx.op(|| format!("{} {i}, past the end", if set { "set" } else { "get" }));
                        cx.label("past the end");
                        cx.nontrivial_if(m.len() > 1);
                        let n = m.len();
                        refused(
                            || format!("{} element {i} of a list of {n}", if set { "setting" } else { "getting" }),
                            || {
                                if set {
                                    let k = kf_make(&k).ok().unwrap();
                                    let _ = list_set(ty, &mut v, i, k);
                                } else {
                                    let _ = list_get(ty, &v, i);
                                }
                            },
                        )?;
                    }
                    _ => (),
                }
                Ok(true)
            })?;
            if !more {
                break;
            }
        }
        list_check(ty, &v, &m)?;
        if s.bool() {
            return list_drop(ty, v);
        }
        let p = with_prim!(ty, T => c!(of::<T>(CH, "Channel", "new"), fn(CVec<c_void>) -> P)(v));
        let r = with_prim!(ty, T => chan_read::<T>(p, false))?;
        sorted(&r, &m)?;
        cx.label("became a channel");
        Ok(with_prim!(ty, T => c!(of::<T>(CH, "Channel", "drop"), fn(P))(p)))
    })
}
