//! P12 keyframes of a channel, P13 tweening, P14 ticks, P15 time warps.
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use harness::with_ty;
use keyframe::functions as kf;
use keyframe::{ease, CanTween, EasingFunction};
use std::collections::BTreeMap;
use tp_client::contract::properties::channels::{Channel, IntTweenable, JumpTweenable, Keyframe};
use tp_client::time::{ChannelTime, RealmTime, Ticks, TimeScale, TimeWarp};

// ---- P12 ----

pub const P12: Prop = Prop {
    id: "P12",
    title: "a channel holds exactly its keyframes, in order of time",
    rule: "at least three keyframes, not in order as given",
    quick: 150_000,
    thorough: 2_000_000,
    run: p12,
};

fn next_up(x: f64) -> f64 {
    f64::from_bits(x.to_bits().wrapping_add(1))
}

fn gen_kfs(s: &mut Src, ty: Ty) -> Vec<(Val, f64)> {
    let mean = *s.pick(&[4u32, 1, 12, 30, 120]);
    let max = if s.chance(1) { 3000 } else { 300 };
    let mean = if max == 3000 { 1500 } else { mean };
    let pool: Vec<Val> = if mean > 12 { (0..4).map(|_| gen_val(s, ty)).collect() } else { vec![] };
    let style = s.weighted(&[4, 2, 1, 1, 1]);
    let mut last = gen_time(s);
    let mut kfs = s.vec(mean, max, |s| {
        let v = if pool.is_empty() { gen_val(s, ty) } else { s.pick(&pool).clone() };
        let t = match style {
            0 => gen_time(s),
            // few distinct times
            1 => s.range(-2, 3) as f64 / 2.0,
            // neighbours in f64 and in f32
            2 => match s.below(4) {
                0 => last,
                1 => next_up(last),
                2 => last as f32 as f64,
                _ => -last,
            },
            // large numbers and infinities
            3 => *s.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e300, -1e300, 9e18, 1e19, -9.3e18, 0.0, -0.0]),
            _ => f64::from_bits(s.draw(u64::MAX)),
        };
        last = if t.is_nan() { 1.0 } else { t };
        (v, t)
    });
    if s.chance(20) {
        // a few keyframes without a valid time
        for _ in 0..1 + s.below(3) {
            if !kfs.is_empty() {
                let i = s.below(kfs.len());
                kfs[i].1 = if s.bool() { f64::NAN } else { -f64::NAN };
            }
        }
    }
    match s.weighted(&[6, 1, 1, 1]) {
        0 => (),
        1 => kfs.sort_by(|a, b| a.1.total_cmp(&b.1)),
        2 => kfs.sort_by(|a, b| b.1.total_cmp(&a.1)),
        _ => {
            // sorted but for one
            kfs.sort_by(|a, b| a.1.total_cmp(&b.1));
            if kfs.len() > 1 {
                let (i, j) = (s.below(kfs.len()), s.below(kfs.len()));
                kfs.swap(i, j)
            }
        }
    }
    kfs
}

/// An iterator that says nothing about its length, as the constructor may be given
struct Opaque<I>(I, usize);
impl<I: Iterator> Iterator for Opaque<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, if self.1 == 0 { None } else { Some(self.1) })
    }
}

fn kf_check<T: PropT>(given: &[(Val, f64)], c: &Channel<T>) -> Res {
    let got: Vec<(Val, f64)> = c.keyframes().iter().map(|k| (k.value().val(), k.time())).collect();
    ensure!(got.len() == given.len(), "count", "{} keyframes of {} given", got.len(), given.len());
    // a NaN is a NaN, whichever it is
    let bits = |t: f64| if t.is_nan() { u64::MAX } else { t.to_bits() };
    let mut m: BTreeMap<(Vec<Vec<u8>>, u64), i64> = BTreeMap::new();
    for (v, t) in given {
        *m.entry((v.parts.clone(), bits(*t))).or_insert(0) += 1;
    }
    for (v, t) in &got {
        *m.entry((v.parts.clone(), bits(*t))).or_insert(0) -= 1;
    }
    if let Some(((v, t), n)) = m.iter().find(|(_, n)| **n != 0) {
        return fail("content", format!("keyframe {v:?}@{:?}: {} times too often or too rarely", f64::from_bits(*t), n));
    }
    let real: Vec<f64> = got.iter().map(|k| k.1).filter(|t| !t.is_nan()).collect();
    for w in real.windows(2) {
        ensure!(w[0] <= w[1], "order", "keyframe at {:?} before one at {:?}", w[0], w[1]);
    }
    Ok(())
}

/// More keyframes than 16 bits count
fn p12_many(s: &mut Src, cx: &mut Cx) -> Res {
    let n = *s.pick(&[5_000usize, 33_000, 66_000, 140_000]) + s.below(3);
    let (mul, distinct) = (1 + 2 * s.below(40_000), *s.pick(&[7usize, 1_000, usize::MAX]));
    cx.op(|| format!("channel of {n} keyframes"));
    cx.label("over 100 keyframes");
    cx.nontrivial();
    let time = |i: usize| (i.wrapping_mul(mul) % n % distinct) as f64 - 100.;
    let mk = || (0..n).map(|i| Keyframe::new(i as u32, time(i)));
    let c: Channel<u32> = if s.bool() { Channel::new(mk()) } else { Channel::new(Opaque(mk(), 0)) };
    let kfs = c.keyframes();
    ensure!(kfs.len() == n, "count", "{} keyframes of {n} given", kfs.len());
    let mut seen = vec![false; n];
    for k in kfs {
        let i = *k.value() as usize;
        ensure!(i < n && !std::mem::replace(&mut seen[i], true), "content", "keyframe {i} comes twice");
        ensure!(k.time() == time(i), "content", "keyframe {i} is at {} and should be at {}", k.time(), time(i));
    }
    ensure!(kfs.windows(2).all(|w| w[0].time() <= w[1].time()), "order", "the keyframes are not in order");
    Ok(())
}

fn p12(s: &mut Src, cx: &mut Cx) -> Res {
    if s.draw(9999) == 9999 {
        return p12_many(s, cx);
    }
    let ty = any_ty(s);
    let kfs = gen_kfs(s, ty);
    cx.op(|| {
        let k: Vec<String> = kfs.iter().map(|(v, t)| format!("{}@{t:?}", v.show())).collect();
        format!("channel of {} keyframes of {}: {}", kfs.len(), ty_name(ty), k.join(", "))
    });
    let sorted = kfs.windows(2).all(|w| w[0].1 <= w[1].1);
    cx.nontrivial_if(kfs.len() >= 3 && !sorted);
    if kfs.len() > 100 {
        cx.label("over 100 keyframes");
    }
    if kfs.iter().any(|k| k.1.is_nan()) {
        cx.label("NaN among the times");
    }
    let how = s.below(3);
    with_ty!(ty_key(ty), T => {
        let mk = || kfs.iter().map(|(v, t)| Keyframe::new(<T as PropT>::of(v), *t));
        for k in mk().take(3).zip(&kfs) {
            ensure!(k.0.value().val() == k.1.0, "keyframe", "keyframe has value {}", k.0.value().val().show());
            ensure!(k.0.time().to_bits() == k.1.1.to_bits() || k.1.1.is_nan(), "keyframe", "keyframe has time {}", k.0.time());
        }
        let mut c: Channel<T> = match how {
            0 => Channel::new(mk()),
            1 => Channel::new(Opaque(mk(), 0)),
            _ => Channel::new(mk().collect::<Vec<_>>().into_iter()),
        };
        kf_check(&kfs, &c)?;
        // the mutable view is of the same keyframes
        let shared: Vec<_> = c.keyframes().iter().map(|k| (k.value().val(), k.time().to_bits())).collect();
        let muts: Vec<_> = c.keyframes_mut().iter().map(|k| (k.value().val(), k.time().to_bits())).collect();
        ensure!(shared == muts, "mutable", "keyframes_mut() differs from keyframes()");
        // making a channel of what a channel holds changes nothing but the order of equal times
        let held: Vec<(Val, f64)> = c.keyframes().iter().map(|k| (k.value().val(), k.time())).collect();
        let again: Channel<T> = Channel::new(std::mem::take(c.keyframes_mut()).into_iter());
        ensure!(c.keyframes().is_empty(), "mutable", "keyframes are still there after taking them");
        kf_check(&held, &again)?;
    });
    Ok(())
}

// ---- P13 ----

pub const P13: Prop = Prop {
    id: "P13",
    title: "tweening stays between its end points and arrives",
    rule: "different end points, and a fraction other than 0 and 1",
    quick: 3_000_000,
    thorough: 60_000_000,
    run: p13,
};

fn gen_fraction(s: &mut Src) -> f64 {
    match s.weighted(&[4, 4, 3, 2, 2, 1]) {
        0 => s.draw(64) as f64 / 64.0,
        1 => s.draw(1000) as f64 / 1000.0,
        2 => s.draw(u64::MAX >> 11) as f64 / (1u64 << 53) as f64,
        // just below one, just above nought
        3 => match s.below(4) {
            0 => 1.0 - f64::EPSILON / 2.0 * (1 + s.draw(3)) as f64,
            1 => 5e-324 * (1 + s.draw(3)) as f64,
            2 => 1.0 - (f32::EPSILON / 2.0 * (1 + s.draw(3)) as f32) as f64,
            _ => -0.0,
        },
        // overshooting
        4 => s.range(-4000, 4000) as f64 / 1000.0,
        _ => s.f64(),
    }
}

/// trunc(t * diff), and how far the result may be off for rounding in f64, both ends included
fn scaled(t: f64, diff: i128) -> Option<(i128, i128)> {
    if t.is_nan() {
        return None;
    }
    let sat = |neg: bool| if neg { -(1i128 << 100) } else { 1i128 << 100 };
    if t.is_infinite() {
        return match diff {
            0 => None, // no number
            _ => Some((sat((t < 0.0) != (diff < 0)), sat((t < 0.0) != (diff < 0)))),
        };
    }
    let bits = t.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32;
    let frac = (bits & ((1 << 52) - 1)) as i128;
    let (m, e) = if exp == 0 { (frac, -1074) } else { (frac | 1 << 52, exp - 1075) };
    let neg = (t < 0.0) != (diff < 0);
    let p = m * diff.abs(); // below 2^118
    let slack = (p >> 51) + 1;
    let at = |p: i128| -> i128 {
        let v = if e >= 0 {
            if p == 0 {
                0
            } else if e as u32 + (128 - p.leading_zeros()) > 110 {
                1 << 100
            } else {
                p << e
            }
        } else if -e >= 127 {
            0
        } else {
            p >> -e
        };
        v.min(1 << 100)
    };
    let (a, b) = (at((p - slack).max(0)), at(p + slack));
    Some(if neg { (-b, -a) } else { (a, b) })
}

trait Int: Codec + Copy + Ord + std::fmt::Debug + 'static {
    const NAME: &'static str;
    const LO: i128;
    const HI: i128;
    fn wide(self) -> i128;
    fn ease(from: Self, to: Self, t: f64, how: usize) -> Self;
    fn through<F: EasingFunction>(f: F, from: Self, to: Self, t: f64) -> Self;
}
macro_rules! ints {
    ($($t:ident),*) => { $(impl Int for $t {
        const NAME: &'static str = stringify!($t);
        const LO: i128 = <$t>::MIN as i128;
        const HI: i128 = <$t>::MAX as i128;
        fn wide(self) -> i128 { self as i128 }
        fn ease(from: Self, to: Self, t: f64, how: usize) -> Self {
            match how {
                0 => IntTweenable::ease(IntTweenable(from), IntTweenable(to), t).0,
                _ => IntTweenable::ease(IntTweenable(from), IntTweenable(to), t as f32).0,
            }
        }
        fn through<F: EasingFunction>(f: F, from: Self, to: Self, t: f64) -> Self {
            ease(f, IntTweenable(from), IntTweenable(to), t).0
        }
    })* };
}
ints!(u8, u16, u32, u64, i8, i16, i32, i64);

/// Eases to exactly `y`, whatever the time
struct At(f64);
impl EasingFunction for At {
    fn y(&self, _: f64) -> f64 {
        self.0
    }
}

fn int_check<T: Int>(from: T, to: T, t: f64, got: T) -> Res {
    let at = || format!("{} from {from:?} to {to:?} at {t:?} is {got:?}", T::NAME);
    let (f, o, g) = (from.wide(), to.wide(), got.wide());
    if t == 1.0 {
        ensure!(g == o, "arrives", "{}", at());
        return Ok(());
    }
    if t == 0.0 {
        ensure!(g == f, "starts", "{}", at());
        return Ok(());
    }
    if t > 0.0 && t < 1.0 {
        ensure!(g >= f.min(o) && g <= f.max(o), "between", "{}", at());
    }
    if let Some((a, b)) = scaled(t, o - f) {
        let (a, b) = ((f + a).clamp(T::LO, T::HI), (f + b).clamp(T::LO, T::HI));
        ensure!(g >= a && g <= b, "value", "{}, not {a} or {b}", at());
    }
    Ok(())
}

fn tween_int<T: Int>(s: &mut Src, cx: &mut Cx) -> Res {
    let (from, to) = (T::cgen(s), T::cgen(s));
    let (from, to) = if s.chance(5) { (T::cdec(&from.cenc()), from) } else { (from, to) };
    let mut ts: Vec<f64> = (0..2 + s.below(3)).map(|_| gen_fraction(s)).collect();
    let how = s.weighted(&[3, 2]);
    if how == 1 {
        ts.iter_mut().for_each(|t| *t = *t as f32 as f64);
    }
    cx.op(|| format!("{} from {from:?} to {to:?} at {ts:?} as {}", T::NAME, ["f64", "f32"][how]));
    cx.nontrivial_if(from != to && ts.iter().any(|t| *t > 0.0 && *t < 1.0));
    if to < from {
        cx.label("descending");
    }
    if ts.iter().any(|t| !(0.0..=1.0).contains(t)) {
        cx.label("fraction past the ends");
    }
    ts.sort_by(|a, b| a.total_cmp(b));
    let mut last: Option<T> = None;
    for t in ts {
        let got = T::ease(from, to, t, how);
        int_check(from, to, t, got)?;
        if t.is_nan() {
            continue;
        }
        if let Some(l) = last {
            ensure!(
                if from <= to { l <= got } else { l >= got },
                "monotonic",
                "{} from {from:?} to {to:?} is {l:?} and later, at {t:?}, {got:?}",
                T::NAME
            );
        }
        last = Some(got);
    }
    // through the easing functions: the value is that of easing at what the function yields
    let x = gen_fraction(s);
    macro_rules! through {
        ($($f:ident),*) => {
            match s.below(0 $( + { let _ = kf::$f; 1 })* + 1) {
                0 => (At(x).y(0.5), T::through(At(x), from, to, 0.5)),
                n => {
                    let all = [$(( |x: f64| kf::$f.y(x) ) as fn(f64) -> f64),*];
                    let f = all[n - 1];
                    let x = x.clamp(0.0, 1.0);
                    let x = if x.is_nan() { 0.0 } else { x };
                    let got = [$( |from: T, to: T, x: f64| T::through(kf::$f, from, to, x) ),*][n - 1](from, to, x);
                    (f(x), got)
                }
            }
        };
    }
    let (y, got) = through!(
        Linear, Step, Hold, EaseIn, EaseOut, EaseInOut, EaseInQuad, EaseOutQuad, EaseInOutQuad, EaseInCubic, EaseOutCubic,
        EaseInOutCubic, EaseInQuart, EaseOutQuart, EaseInOutQuart, EaseInQuint, EaseOutQuint, EaseInOutQuint
    );
    cx.op(|| format!("... through a function that yields {y:?}: {got:?}"));
    int_check(from, to, y, got)
}

fn p13(s: &mut Src, cx: &mut Cx) -> Res {
    match s.below(9) {
        0 => tween_int::<u8>(s, cx),
        1 => tween_int::<i8>(s, cx),
        2 => tween_int::<i16>(s, cx),
        3 => tween_int::<u16>(s, cx),
        4 => tween_int::<i32>(s, cx),
        5 => tween_int::<u32>(s, cx),
        6 => tween_int::<i64>(s, cx),
        7 => tween_int::<u64>(s, cx),
        _ => {
            let (from, to) = (s.i32(), s.i32());
            let t = gen_fraction(s);
            cx.op(|| format!("jump from {from} to {to} at {t:?}"));
            cx.nontrivial_if(from != to && t != 0.0 && t != 1.0);
            cx.label("jump");
            let a = JumpTweenable::ease(JumpTweenable(from), JumpTweenable(to), t).0;
            let t32 = t as f32;
            let b = JumpTweenable::ease(JumpTweenable((from, true)), JumpTweenable((to, false)), t32).0;
            let c = JumpTweenable::ease(JumpTweenable('x'), JumpTweenable('y'), t).0;
            ensure!((c == 'x') == (a == from) || from == to, "jump", "jump of chars and ints differ at {t:?}");
            if !t.is_nan() {
                ensure!(a == if t < 1.0 { from } else { to }, "jump", "jump from {from} to {to} at {t:?} is {a}");
                let want = if t32 < 1.0 { (from, true) } else { (to, false) };
                ensure!(b == want, "jump", "jump from {from} to {to} at {t32:?} is {b:?}");
            } else {
                ensure!(a == from || a == to, "jump", "jump from {from} to {to} at {t:?} is {a}");
            }
            let d = ease(At(t), JumpTweenable(from), JumpTweenable(to), 0.5).0;
            ensure!(d == a, "jump", "jump through a function that yields {t:?} is {d}, directly {a}");
            Ok(())
        }
    }
}

// ---- P14, P15 ----

pub const P14: Prop = Prop {
    id: "P14",
    title: "tick arithmetic saturates and unit conversions are exact",
    rule: "neither tick count is zero",
    quick: 6_000_000,
    thorough: 100_000_000,
    run: p14,
};
pub const P15: Prop = Prop {
    id: "P15",
    title: "time warps map parent time to channel time by their formula",
    rule: "offset is not zero and the scale is neither zero nor one",
    quick: 6_000_000,
    thorough: 100_000_000,
    run: p15,
};

fn sat(x: i128) -> i32 {
    x.clamp(i32::MIN as i128, i32::MAX as i128) as i32
}
fn m_scale(t: i32, n: i32) -> i32 {
    sat((t as i128 * n as i128).div_euclid(1024))
}
/// Scales of practical size are as common as any
fn gen_scale(s: &mut Src) -> i32 {
    match s.weighted(&[3, 2, 5]) {
        0 => *s.pick(&[1024, 512, 2048, 1, 0, -1, -1024, -512, 1023, 1025, 3072, 256]),
        1 => s.range(-5000, 5000) as i32,
        _ => s.i32(),
    }
}
fn gen_ticks(s: &mut Src) -> i32 {
    match s.weighted(&[3, 2, 1]) {
        0 => s.i32(),
        1 => s.range(-100_000, 100_000) as i32,
        _ => s.range(-30, 30) as i32 * 1000 + s.range(-1, 1) as i32,
    }
}

fn p14(s: &mut Src, cx: &mut Cx) -> Res {
    let (a, b, n) = (gen_ticks(s), gen_ticks(s), gen_scale(s));
    cx.op(|| format!("ticks {a} and {b}, scale {n}/1024"));
    cx.nontrivial_if(a != 0 && b != 0);
    let (x, y, k) = (Ticks::new(a), Ticks::new(b), TimeScale::from(n));
    ensure!(x.as_millis() == a && x.as_millis_i64() == a as i64, "value", "Ticks::new({a}) is {}", x.as_millis());
    ensure!(Ticks::from(a) == x, "value", "Ticks::from({a}) is {:?}", Ticks::from(a));
    let want = [sat(a as i128 + b as i128), sat(a as i128 - b as i128), m_scale(a, n)];
    if want[0] as i128 != a as i128 + b as i128 || want[1] as i128 != a as i128 - b as i128 {
        cx.label("sum or difference saturates");
    }
    let got = [(x + y), (x - y), (x * k)];
    let (mut p, mut q, mut r) = (x, x, x);
    p += y;
    q -= y;
    r *= k;
    let assigned = [p, q, r];
    for (i, op) in ["+", "-", "*"].iter().enumerate() {
        let other = if i == 2 { n } else { b };
        ensure!(got[i].as_millis() == want[i], "operator", "{a} {op} {other} is {}, not {}", got[i].as_millis(), want[i]);
        ensure!(
            assigned[i].as_millis() == want[i],
            "assign",
            "{a} {op}= {other} is {}, not {}",
            assigned[i].as_millis(),
            want[i]
        );
    }
    ensure!(
        (x == y) == (a == b) && (x != y) == (a != b) && x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == a.partial_cmp(&b)
            && (x < y) == (a < b) && (x <= y) == (a <= b),
        "order",
        "{a} and {b} compare otherwise than as ticks"
    );
    let per = Ticks::ticks_per_second();
    ensure!(per > 0, "seconds", "ticks_per_second() is {per}");
    ensure!(x.as_secs() as i128 == a as i128 / per as i128, "seconds", "{a} ticks are {} seconds", x.as_secs());
    let near = |got: f64, want: f64, rel: f64| (got - want).abs() <= want.abs() * rel;
    let secs = a as f64 / per as f64;
    ensure!(near(x.as_secs_f32() as f64, secs, 1.0 / (1 << 22) as f64), "seconds", "{a} ticks are {} seconds", x.as_secs_f32());
    ensure!(k.numerator() == n && k.numerator_as_i64() == n as i64, "scale", "numerator of {n} is {}", k.numerator());
    ensure!(
        TimeScale::denominator() == 1024 && TimeScale::denominator() as u32 == 1 << TimeScale::denominator_as_log2(),
        "scale",
        "denominator is {}",
        TimeScale::denominator()
    );
    let f = n as f64 / 1024.0;
    ensure!(near(k.as_f64(), f, 1e-15) && near(k.as_f32() as f64, f, 1.0 / (1 << 23) as f64), "scale", "scale {n} is {}", k.as_f64());
    let one = TimeScale::default();
    ensure!(one.numerator() == 1024 && x * one == x, "identity", "{a} under the default scale is {:?}", x * one);
    ensure!((k == TimeScale::from(b)) == (n == b), "scale", "scales {n} and {b} compare otherwise");
    ensure!(Ticks::default().as_millis() == 0, "value", "the default is {:?}", Ticks::default());
    // realm and channel time carry ticks along
    let (ct, ct2, rt, rt2) = (ChannelTime::from(x), ChannelTime::from(y), RealmTime::from(x), RealmTime::from(y));
    ensure!(ct.ticks() == x && rt.ticks() == x, "wrapped", "time of {a} ticks has {:?}, {:?}", ct.ticks(), rt.ticks());
    ensure!(
        ct.cmp(&ct2) == a.cmp(&b) && rt.cmp(&rt2) == a.cmp(&b) && (ct == ct2) == (a == b) && (rt == rt2) == (a == b),
        "order",
        "times of {a} and {b} ticks compare otherwise than as ticks"
    );
    let mut rt = rt;
    *rt.ticks_mut() += y;
    ensure!(rt.ticks().as_millis() == want[0], "wrapped", "realm time of {a} and {b} more ticks is {:?}", rt.ticks());
    ensure!(
        ChannelTime::default().ticks().as_millis() == 0 && RealmTime::default().ticks().as_millis() == 0,
        "value",
        "the default time is not zero"
    );
    Ok(())
}

fn m_warp(t: i32, off: i32, n: i32) -> i32 {
    m_scale(sat(t as i128 - off as i128), n)
}

fn p15(s: &mut Src, cx: &mut Cx) -> Res {
    let (t, u) = (gen_ticks(s), gen_ticks(s));
    let warps: Vec<(i32, i32)> = (0..1 + s.below(3)).map(|_| (gen_ticks(s), gen_scale(s))).collect();
    cx.op(|| format!("times {t} and {u} through {}", warps.iter().map(|(o, n)| format!("(- {o}) * {n}/1024")).collect::<Vec<_>>().join(" and ")));
    cx.nontrivial_if(warps[0].0 != 0 && warps[0].1 != 0 && warps[0].1 != 1024);
    let ct = |x: i32| ChannelTime::from(Ticks::new(x));
    let (mut a, mut b) = ((t, ct(t)), (u, ct(u)));
    for (off, n) in &warps {
        let mut w = TimeWarp { offset: Ticks::new(*off), scale: TimeScale::from(*n) };
        if s.chance(10) {
            w = w.clone();
        }
        let before = (a.0, b.0);
        for x in [&mut a, &mut b] {
            let want = m_warp(x.0, *off, *n);
            let got = w.apply(x.1);
            ensure!(
                got.ticks().as_millis() == want,
                "value",
                "({} - {off}) * {n}/1024 is {}, not {want}",
                x.0,
                got.ticks().as_millis()
            );
            ensure!(x.1.warp(&w) == got, "both ways", "warp() of {} is {:?}, apply() {:?}", x.0, x.1.warp(&w), got);
            ensure!(x.1.ticks().as_millis() == x.0, "input", "the input changed");
            *x = (want, got);
        }
        ensure!(w.offset.as_millis() == *off && w.scale.numerator() == *n, "input", "the warp changed");
        let (lo, hi) = if before.0 <= before.1 { (a.1, b.1) } else { (b.1, a.1) };
        if *n >= 0 {
            ensure!(lo <= hi, "monotonic", "warping {before:?} by (- {off}) * {n} turns the order around");
        }
        if *n <= 0 {
            ensure!(lo >= hi, "monotonic", "warping {before:?} by (- {off}) * {n} keeps the order");
        }
        if a.0 == i32::MAX || a.0 == i32::MIN {
            cx.label("saturates");
        }
    }
    let id = TimeWarp::default();
    ensure!(id.apply(ct(t)) == ct(t) && ct(t).warp(&id) == ct(t), "identity", "the default warp turns {t} into {:?}", id.apply(ct(t)));
    ensure!(
        id.offset.as_millis() == 0 && id.scale.numerator() == 1024,
        "identity",
        "the default warp is {id:?}"
    );
    Ok(())
}

fn main() {
    harness::run(&[P12, P13, P14, P15])
}
