//! P01: the arena against a map from handles to values.
use harness::ensure;
use harness::pbt::*;
use harness::values::{idx, raw};
use harness::world::leak_checked;
use arena::{Arena, Index};
use std::collections::{BTreeMap, HashMap, HashSet};

pub const PROP: Prop = Prop {
    id: "P01",
    title: "arena handles",
    rule: "the history has at least 8 operations, removes an element and inserts into a slot that had been freed",
    quick: 60_000,
    thorough: 300_000,
    run,
};

type V = (u64, String);

struct M {
    live: Vec<(Index<V>, V)>,
    dead: Vec<Index<V>>,
    issued: HashSet<(usize, u64)>,
    n: u64,
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    if s.draw(499) == 499 {
        leak_checked(s, cx, big)
    } else {
        leak_checked(s, cx, history)
    }
}

/// Few operations on many elements
fn big(s: &mut Src, cx: &mut Cx) -> Res {
    let size = |s: &mut Src| *s.pick(&[70usize, 300, 300, 1_100, 1_100, 5_000, 20_000, 70_000]) + s.below(3);
    let mut live: Vec<(Index<V>, u64)> = vec![];
    let mut dead: Vec<Index<V>> = vec![];
    let mut issued = HashSet::new();
    let mut n = 0u64;
    let mut a: Arena<V> = match s.below(3) {
        0 => Arena::new(),
        1 => {
            let c = size(s);
            let a = Arena::with_capacity(c);
            ensure!(a.capacity() >= c, "capacity", "with_capacity({c}) has capacity {}", a.capacity());
            a
        }
        _ => {
            let c = size(s) as u64;
            let a: Arena<V> = (0..c).map(|i| (i, String::new())).collect();
            ensure!(a.len() as u64 == c, "from_iter", "collecting {c} elements gives {}", a.len());
            live = a.iter().map(|(h, v)| (h, v.0)).collect();
            issued.extend(live.iter().map(|x| raw(x.0)));
            let vs: HashSet<u64> = live.iter().map(|x| x.1).collect();
            ensure!(vs.len() as u64 == c && live.len() as u64 == c, "from_iter", "collecting {c} elements gives {}", vs.len());
            n = c;
            a
        }
    };
    let rounds = 1 + s.below(4);
    for _ in 0..rounds {
        let k = size(s);
        match s.weighted(&[4, 3, 2, 1]) {
            0 => {
                cx.op(|| format!("insert {k} elements"));
                for _ in 0..k {
                    n += 1;
                    let h = a.insert((n, String::new()));
                    ensure!(issued.insert(raw(h)), "unique", "insert gave {h:?} out for the second time");
                    live.push((h, n));
                }
            }
            1 => {
                let how = s.below(3);
                let k = k.min(live.len());
                cx.op(|| format!("remove {k} elements, {}", ["the oldest", "the latest", "any"][how]));
                for _ in 0..k {
                    let i = match how {
                        0 => 0,
                        1 => live.len() - 1,
                        _ => n as usize * 7919 % live.len(),
                    };
                    let (h, v) = live.swap_remove(i);
                    ensure!(a.remove(h).map(|x| x.0) == Some(v), "remove", "remove({h:?}) does not give {v}");
                    dead.push(h);
                    n += 1;
                }
            }
            2 => {
                cx.op(|| format!("insert and remove {k} times"));
                cx.label("slots reused often");
                for _ in 0..k {
                    n += 1;
                    let h = a.insert((n, String::new()));
                    ensure!(issued.insert(raw(h)), "unique", "insert gave {h:?} out for the second time");
                    ensure!(a.remove(h).map(|x| x.0) == Some(n), "remove", "remove({h:?}) does not give {n}");
                    dead.push(h);
                }
            }
            _ => {
                let c = a.capacity();
                cx.op(|| format!("reserve {k} at {c}"));
                a.reserve(k);
                ensure!(a.capacity() >= c + k || a.capacity() >= a.len() + k, "capacity", "reserve({k}) at {c} leads to {}", a.capacity());
            }
        }
        ensure!(a.len() == live.len() && a.is_empty() == live.is_empty(), "len", "len() is {} with {} elements", a.len(), live.len());
    }
    for (h, v) in &live {
        ensure!(a.get(*h).map(|x| x.0) == Some(*v) && a.contains(*h), "get", "get({h:?}) is {:?} and should be {v}", a.get(*h));
    }
    for h in &dead {
        ensure!(a.get(*h).is_none() && !a.contains(*h) && a.get_mut(*h).is_none(), "stale", "{h:?} of a removed element gives {:?}", a.get(*h));
    }
    let want: HashMap<(usize, u64), u64> = live.iter().map(|(h, v)| (raw(*h), *v)).collect();
    let fwd: Vec<_> = a.iter().map(|(h, v)| (raw(h), v.0)).collect();
    ensure!(fwd.len() == live.len() && a.iter().len() == live.len(), "iter", "{} of {} elements were iterated over", fwd.len(), live.len());
    ensure!(fwd.iter().all(|(h, v)| want.get(h) == Some(v)), "iter", "an element comes with another's handle");
    ensure!(fwd.iter().map(|x| x.0).collect::<HashSet<_>>().len() == live.len(), "iter", "a handle comes twice");
    ensure!(a.iter().rev().map(|(h, _)| raw(h)).eq(fwd.iter().rev().map(|x| x.0)), "iter", "backwards is not forwards turned around");
    ensure!(a.iter_mut().map(|(h, v)| (raw(h), v.0)).eq(fwd.iter().copied()), "iter", "iter_mut differs from iter");
    let mut c = a.clone();
    for (i, (h, v)) in live.iter().enumerate() {
        ensure!(c.get(*h).map(|x| x.0) == Some(*v), "clone", "the clone has {:?} at {h:?}", c.get(*h));
        if i % 3 == 0 {
            ensure!(c.remove(*h).is_some(), "clone", "{h:?} cannot be removed from the clone");
        }
    }
    ensure!(a.len() == live.len(), "clone", "changing a clone changed the original");
    let mut got: Vec<u64> = a.into_iter().map(|x| x.0).collect();
    got.sort();
    let mut want: Vec<u64> = live.iter().map(|x| x.1).collect();
    want.sort();
    ensure!(got == want, "into_iter", "into_iter gives {} of {} elements, or others", got.len(), want.len());
    cx.label("many elements");
    cx.nontrivial_if(!dead.is_empty() && live.len() + dead.len() >= 256);
    Ok(())
}

/// Takes an iterator from both ends, by every means, and gives the handles in their forward order.
fn script<T, I>(mut it: I, val: impl Fn(T) -> V, want: &HashMap<(usize, u64), &V>, s: &mut Src) -> Result<Vec<(usize, u64)>, Fail>
where
    I: ExactSizeIterator<Item = (Index<V>, T)> + DoubleEndedIterator,
{
    let mut seen = HashSet::new();
    let mut left = want.len();
    let (mut order, mut back_order) = (Vec::new(), Vec::new());
    // what nth passes over is missing from the order
    let mut whole = true;
    let backs = *s.pick(&[0, 30, 30, 100]);
    loop {
        ensure!(it.len() == left, "iter", "the iterator's len is {} with {left} to go", it.len());
        ensure!(it.size_hint() == (left, Some(left)), "iter", "size_hint {:?} with {left} to go", it.size_hint());
        let back = s.chance(backs);
        let skip = if s.chance(6) { s.below(4) } else { 0 };
        let x = match (back, skip) {
            (false, 0) => it.next(),
            (true, 0) => it.next_back(),
            (false, n) => it.nth(n),
            (true, n) => it.nth_back(n),
        };
        if skip > 0 {
            whole = false;
            ensure!(x.is_some() == (skip < left), "iter", "passing over {skip} of {left} gives {:?}", x.map(|x| x.0));
            left = left.saturating_sub(skip);
        }
        match x {
            None => break,
            Some((h, v)) => {
                ensure!(left > 0 && seen.insert(raw(h)), "iter", "{h:?} comes twice, or too many do");
                let v = val(v);
                ensure!(want.get(&raw(h)) == Some(&&v), "iter", "{h:?} comes with {v:?} and should with {:?}", want.get(&raw(h)));
                if back {
                    back_order.push(raw(h))
                } else {
                    order.push(raw(h))
                }
                left -= 1;
            }
        }
    }
    ensure!(left == 0, "iter", "{left} elements were not iterated over");
    for _ in 0..2 {
        ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)), "iter", "a spent iterator's len is {}", it.len());
        ensure!(it.next().is_none() && it.next_back().is_none(), "iter", "a spent iterator goes on");
    }
    back_order.reverse();
    order.extend(back_order);
    if !whole {
        order = vec![];
    }
    Ok(order)
}

fn check(a: &mut Arena<V>, m: &M, s: &mut Src) -> Res {
    ensure!(a.len() == m.live.len(), "len", "len() is {} with {} elements", a.len(), m.live.len());
    ensure!(a.is_empty() == m.live.is_empty(), "len", "is_empty() is {} with {} elements", a.is_empty(), m.live.len());
    ensure!(a.capacity() >= a.len(), "len", "capacity {} < len {}", a.capacity(), a.len());
    for (h, v) in &m.live {
        ensure!(a.get(*h) == Some(v), "get", "get({h:?}) is {:?} and should be {v:?}", a.get(*h));
        ensure!(a.contains(*h), "get", "contains({h:?}) is false");
        ensure!(a[*h] == *v, "get", "[{h:?}] is {:?} and should be {v:?}", a[*h]);
        let mut v2 = v.clone();
        ensure!(a.get_mut(*h) == Some(&mut v2), "get", "get_mut({h:?}) is not {v:?}");
    }
    for h in &m.dead {
        ensure!(a.get(*h).is_none(), "stale", "get({h:?}) of a removed element is {:?}", a.get(*h));
        ensure!(a.get_mut(*h).is_none(), "stale", "get_mut({h:?}) of a removed element succeeds");
        ensure!(!a.contains(*h), "stale", "contains({h:?}) of a removed element");
        if s.chance(10) {
            ensure!(panics(|| a[*h].0).is_err(), "stale", "indexing by {h:?} of a removed element succeeds");
            ensure!(panics(|| a[*h].0 = 1).is_err(), "stale", "mutably indexing by {h:?} of a removed element succeeds");
        }
    }
    // the iterators: every element once, with its own handle, whichever end they are taken from
    let want: HashMap<(usize, u64), &V> = m.live.iter().map(|(h, v)| (raw(*h), v)).collect();
    let order = script(a.iter(), |v| v.clone(), &want, s)?;
    let fwd: Vec<_> = a.iter().map(|(h, _)| raw(h)).collect();
    let len = a.iter().len();
    ensure!(fwd.len() == len && a.iter().count() == len && a.iter().last().map(|x| raw(x.0)) == fwd.last().copied(), "iter", "count or last of {fwd:?}");
    // a clone of an iterator goes on by itself
    let mut it = a.iter();
    let k = s.below(len + 2);
    (0..k).for_each(|_| drop(it.next()));
    let rest: Vec<_> = it.clone().map(|(h, _)| raw(h)).collect();
    let rest2: Vec<_> = it.map(|(h, _)| raw(h)).collect();
    ensure!(rest == rest2 && rest[..] == fwd[k.min(len)..], "iter", "after {k} of {fwd:?} come {rest2:?}, in a clone {rest:?}");
    ensure!(order.is_empty() || fwd == order, "iter", "forwards it is {fwd:?}, from both ends {order:?}");
    let mut rev: Vec<_> = a.iter().rev().map(|(h, _)| raw(h)).collect();
    rev.reverse();
    ensure!(fwd == rev, "iter", "forwards it is {fwd:?}, backwards {rev:?} turned around");
    let muts: Vec<_> = a.iter_mut().map(|(h, v)| (raw(h), v.clone())).collect();
    ensure!(
        muts.len() == fwd.len() && muts.iter().zip(&fwd).all(|((h, v), f)| h == f && want.get(h) == Some(&v)),
        "iter",
        "iter_mut gives {muts:?}"
    );
    let muts2 = script(a.iter_mut(), |v| v.clone(), &want, s)?;
    ensure!(muts2.is_empty() || fwd == muts2, "iter", "forwards it is {fwd:?}, from both ends of iter_mut {muts2:?}");
    let into: Vec<_> = (&mut *a).into_iter().map(|(h, v)| (raw(h), v.clone())).collect();
    ensure!(into == muts, "iter", "into_iter of &mut gives {into:?}");
    Ok(())
}

fn history(s: &mut Src, cx: &mut Cx) -> Res {
    let mut m = M { live: vec![], dead: vec![], issued: HashSet::new(), n: 0 };
    let value = |m: &mut M, s: &mut Src| {
        m.n += 1;
        (m.n, if s.chance(30) { "x".repeat(s.below(40)) } else { String::new() })
    };
    let mut a: Arena<V> = match s.below(4) {
        0 => Arena::new(),
        1 => Arena::default(),
        2 => {
            let n = s.below(20);
            let a = Arena::with_capacity(n);
            ensure!(a.capacity() >= n, "capacity", "with_capacity({n}) has capacity {}", a.capacity());
            a
        }
        _ => {
            let vs: Vec<V> = s.vec(4, 12, |s| (1000 + s.draw(50), String::new()));
            cx.op(|| format!("from_iter {vs:?}"));
            let a: Arena<V> = vs.clone().into_iter().collect();
            let mut got: Vec<V> = a.iter().map(|(_, v)| v.clone()).collect();
            let mut want = vs;
            got.sort();
            want.sort();
            ensure!(got == want, "from_iter", "collecting {want:?} gives {got:?}");
            for (h, v) in a.iter() {
                m.live.push((h, v.clone()));
                m.issued.insert(raw(h));
            }
            a
        }
    };
    ensure!(a.len() == m.live.len(), "len", "a new arena has {} elements", a.len());
    let n = s.vec(30, 80, |s| s.draw(u32::MAX as u64)).len();
    let mut removed = false;
    let mut reused = false;
    for _ in 0..n {
        match s.weighted(&[10, 7, 3, 2, 2, 1, 2, 1, 2]) {
            0 => {
                let v = value(&mut m, s);
                let h = a.insert(v.clone());
                cx.op(|| format!("insert {v:?} -> {h:?}"));
                ensure!(m.issued.insert(raw(h)), "unique", "insert gave {h:?} out for the second time");
                ensure!(
                    m.live.iter().all(|(o, _)| raw(*o).0 != raw(h).0 && *o != h),
                    "unique",
                    "insert gave the slot of a live element: {h:?}"
                );
                if m.dead.iter().any(|d| raw(*d).0 == raw(h).0) {
                    reused = true;
                    cx.label("slot reused");
                }
                m.live.push((h, v));
            }
            1 if !m.live.is_empty() => {
                let (h, v) = m.live.remove(s.below(m.live.len()));
                cx.op(|| format!("remove {h:?}"));
                let r = a.remove(h);
                ensure!(r.as_ref() == Some(&v), "remove", "remove({h:?}) gave {r:?} and not {v:?}");
                m.dead.push(h);
                removed = true;
            }
            2 if !m.live.is_empty() => {
                let i = s.below(m.live.len());
                let v = value(&mut m, s);
                let h = m.live[i].0;
                cx.op(|| format!("write {h:?} = {v:?}"));
                match s.below(3) {
                    0 => *a.get_mut(h).ok_or(Fail { sig: "get".into(), msg: format!("get_mut({h:?}) is None") })? = v.clone(),
                    1 => a[h] = v.clone(),
                    _ => {
                        for (g, x) in a.iter_mut() {
                            if g == h {
                                *x = v.clone()
                            }
                        }
                    }
                }
                m.live[i].1 = v;
            }
            3 if !m.dead.is_empty() => {
                let h = *s.pick(&m.dead);
                cx.op(|| format!("remove stale {h:?}"));
                cx.label("stale remove");
                let r = a.remove(h);
                ensure!(r.is_none(), "stale", "removing by the stale {h:?} gave {r:?}");
            }
            4 => {
                // a handle that was never given out
                let (i, g) = (s.below(a.capacity() + 3), s.draw(6));
                let h: Index<V> = idx(i, g);
                if !m.issued.contains(&(i, g)) {
                    cx.op(|| format!("foreign {h:?}"));
                    ensure!(a.get(h).is_none() && !a.contains(h), "foreign", "{h:?} was never given out and has a value");
                    ensure!(a.remove(h).is_none(), "foreign", "{h:?} was never given out and could be removed");
                }
            }
            5 => {
                let n = s.below(30);
                cx.op(|| format!("reserve {n}"));
                let c = a.capacity();
                a.reserve(n);
                ensure!(a.capacity() >= c + n || a.capacity() >= a.len() + n, "capacity", "reserve({n}) at {c} leads to {}", a.capacity());
            }
            6 => {
                let _ = check(&mut a, &m, s)?;
            }
            7 => {
                cx.op(|| "clone".into());
                // a clone is a copy of its own
                let mut c = a.clone();
                for (h, v) in &m.live {
                    ensure!(c.get(*h) == Some(v), "clone", "the clone has {:?} at {h:?}", c.get(*h));
                    c[*h].0 = u64::MAX;
                    if s.bool() {
                        c.remove(*h);
                    }
                }
                ensure!(m.dead.iter().all(|h| c.get(*h).is_none()), "clone", "the clone knows a stale handle");
                check(&mut a, &m, s)?;
            }
            _ => {
                let mut all: Vec<Index<V>> = m.live.iter().map(|x| x.0).chain(m.dead.iter().copied()).collect();
                if all.len() >= 2 {
                    let (x, y) = (*s.pick(&all), *s.pick(&all));
                    let same = raw(x) == raw(y);
                    ensure!((x == y) == same, "index", "{x:?} == {y:?} is {}", x == y);
                    ensure!(x.cmp(&y) == raw(x).cmp(&raw(y)) || !same && x.cmp(&y) != std::cmp::Ordering::Equal, "index", "cmp");
                    ensure!(x.partial_cmp(&y) == Some(x.cmp(&y)) && x.cmp(&y) == y.cmp(&x).reverse(), "index", "order of {x:?} and {y:?}");
                    let hash = |i: Index<V>| {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        i.hash(&mut h);
                        h.finish()
                    };
                    ensure!(!same || hash(x) == hash(y), "index", "equal handles {x:?}, {y:?} hash differently");
                    ensure!(x.clone() == x, "index", "the clone of {x:?} differs");
                    all.sort();
                    ensure!(all.windows(2).all(|w| w[0] <= w[1]), "index", "not a total order");
                    let set: BTreeMap<Index<V>, ()> = all.iter().map(|i| (*i, ())).collect();
                    let hs: HashSet<Index<V>> = all.iter().copied().collect();
                    ensure!(set.len() == all.len() && hs.len() == all.len(), "index", "handles collide in a map");
                }
            }
        }
        if s.chance(20) {
            check(&mut a, &m, s)?;
        }
    }
    check(&mut a, &m, s)?;
    cx.nontrivial_if(n >= 8 && removed && reused);
    let mut want: Vec<V> = m.live.iter().map(|x| x.1.clone()).collect();
    let mut got: Vec<V> = if s.bool() {
        a.into_iter().collect()
    } else {
        let g: arena::generational_arena::Arena<V> = a.into();
        for (h, v) in &m.live {
            ensure!(g.get((*h).into()) == Some(v), "into", "as a plain arena {h:?} gives {:?}", g.get((*h).into()));
        }
        g.into_iter().collect()
    };
    want.sort();
    got.sort();
    ensure!(got == want, "into_iter", "into_iter gives {got:?} and should {want:?}");
    Ok(())
}
fn main() { harness::run(&[PROP]) }
