//! A small property-based testing engine: every generated value is derived from a sequence of
//! bounded integer choices, so that a failing case is shrunk and replayed as that sequence.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Fail {
    /// What kind of failure this is; known findings are keyed on it.
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)+) => {
        if !($cond) {
            return Err($crate::pbt::Fail { sig: $sig.to_string(), msg: format!($($fmt)+) });
        }
    };
}

// ---- choices ----

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93);
    splitmix(&mut s);
    splitmix(&mut s)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x1000_0000_01b3))
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    echo: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self { mode: Mode::Random(seed), rec: vec![], spans: vec![], open: vec![], echo: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Self { mode: Mode::Replay(choices), rec: vec![], spans: vec![], open: vec![], echo: None }
    }
    pub fn echo_to(&mut self, f: std::fs::File) {
        self.echo = Some(f)
    }

    /// The only source of choices: a value in `0..=max`, where smaller means simpler.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(s) => {
                let r = splitmix(s);
                if max == u64::MAX {
                    r
                } else {
                    ((r as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            Mode::Replay(c) => c.get(self.rec.len()).copied().unwrap_or(0).min(max),
        };
        self.rec.push(v);
        if let Some(f) = &mut self.echo {
            use std::io::Write;
            let _ = writeln!(f, "{v}");
        }
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.draw(hi.wrapping_sub(lo) as u64) as i64)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// True in about `pct` of 100 cases; simplest is false
    pub fn chance(&mut self, pct: u64) -> bool {
        self.draw(99) >= 100 - pct
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = self.draw(total as u64 - 1) as u32;
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let start = self.rec.len();
        self.open.push(start);
        let r = f(self);
        self.open.pop();
        self.spans.push((start, self.rec.len()));
        r
    }

    /// A vector whose mean length is about `mean`, at most `max`.
    pub fn vec<T>(&mut self, mean: u32, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut v = Vec::new();
        while v.len() < max {
            let item = self.span(|s| {
                if s.draw(mean as u64) == 0 {
                    None
                } else {
                    Some(f(s))
                }
            });
            match item {
                Some(i) => v.push(i),
                None => break,
            }
        }
        v
    }

    // ---- values with the corners of their type over-represented ----

    pub fn bits(&mut self, width: u32) -> u64 {
        let mask = if width == 64 { u64::MAX } else { (1 << width) - 1 };
        match self.weighted(&[3, 3, 4, 2]) {
            0 => self.draw(16.min(mask)),
            1 => {
                // near the ends of the signed and the unsigned range
                let base = *self.pick(&[0, mask, mask >> 1, (mask >> 1) + 1]);
                base.wrapping_add(self.draw(4)).wrapping_sub(2) & mask
            }
            2 => self.draw(mask),
            _ => {
                let k = self.draw(width as u64 - 1);
                (1u64 << k).wrapping_add(self.draw(2)).wrapping_sub(1) & mask
            }
        }
    }
    pub fn i32(&mut self) -> i32 {
        self.bits(32) as u32 as i32
    }
    pub fn f64(&mut self) -> f64 {
        const S: [f64; 16] = [
            0.0,
            -0.0,
            1.0,
            -1.0,
            0.5,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            f64::EPSILON,
            9007199254740993.0,
            1e-7,
            1e300,
        ];
        match self.weighted(&[3, 3, 3, 2]) {
            0 => self.range(-20, 20) as f64,
            1 => *self.pick(&S),
            2 => self.range(-100_000, 100_000) as f64 / 1024.0,
            _ => f64::from_bits(self.draw(u64::MAX)),
        }
    }
    pub fn f32(&mut self) -> f32 {
        match self.weighted(&[3, 2, 2]) {
            0 => self.range(-2000, 2000) as f32 / 8.0,
            1 => self.f64() as f32,
            _ => f32::from_bits(self.draw(u32::MAX as u64) as u32),
        }
    }
    pub fn char(&mut self) -> char {
        let c = match self.weighted(&[6, 1, 2, 2, 3, 1]) {
            0 => 'a' as u32 + self.draw(25) as u32,
            1 => self.draw(0x1f) as u32,
            2 => 0x20 + self.draw(0x5e) as u32,
            3 => *self.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0xfffd, 0xfeff, 0x301]),
            4 => *self.pick(&[0x1_0000, 0x10_ffff, 0x1_f600, 0x2_0000, 0x1_03ff, 0x1_0400, 0xf_ffff]),
            _ => self.draw(0x10_ffff) as u32,
        };
        char::from_u32(c).unwrap_or('\u{fffd}')
    }
    pub fn string(&mut self) -> String {
        let mean = *self.pick(&[2u32, 0, 8, 40]);
        self.vec(mean, 400, |s| s.char()).into_iter().collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j)
        }
    }
}

// ---- context of one case ----

#[derive(Default)]
pub struct Cx {
    pub tracing: bool,
    pub trace: Vec<String>,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// Fingerprint of what was generated, for counting distinct cases
    pub print: u64,
}
impl Cx {
    pub fn op(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            if self.trace.len() < 400 {
                self.trace.push(if s.len() > 2000 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s })
            }
        }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c
    }
}

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Cx) -> Res,
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| {
            *p.borrow_mut() = format!(
                "{} at {}",
                payload(info.payload()),
                info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
            )
        })
    }));
}
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = Default::default();
}
fn payload(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Whether `f` panics, for calls that are specified to.
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| payload(&*p))
}

pub fn run_case(prop: &Prop, src: &mut Src, cx: &mut Cx) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(src, cx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => fail("panic", LAST_PANIC.with(|p| format!("unexpected panic: {}", p.borrow()))),
    };
    let r = match crate::alloc::take_fault() {
        Some(f) if r.is_ok() => fail("memory", f),
        _ => r,
    };
    let mut h = 0u64;
    for c in &src.rec {
        h = mix(h, *c);
    }
    cx.print = h;
    r
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), idx)
}

// ---- shrinking ----

/// Finds a simpler failing sequence. `test` says whether a sequence fails and gives back the
/// canonical choices and spans it used.
pub fn shrink(
    start: Vec<u64>,
    spans: Vec<(usize, usize)>,
    budget: usize,
    mut test: impl FnMut(&[u64]) -> Option<(Vec<u64>, Vec<(usize, usize)>)>,
) -> Vec<u64> {
    let mut best = start;
    let mut spans = spans;
    let mut left = budget;
    let mut seen: HashSet<u64> = HashSet::new();
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            let h = cand.iter().fold(cand.len() as u64, |h, c| mix(h, *c));
            if left > 0 && seen.insert(h) {
                left -= 1;
                if let Some((used, sp)) = test(&cand) {
                    if simpler(&used, &best) {
                        best = used;
                        spans = sp;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    let mut progress = true;
    while progress && left > 0 {
        progress = false;
        // remove whole spans, longest first
        let mut again = true;
        while again && left > 0 {
            again = false;
            let mut sp = spans.clone();
            sp.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
            for (a, b) in sp {
                if b > a && b <= best.len() {
                    let mut c = best[..a].to_vec();
                    c.extend_from_slice(&best[b..]);
                    if attempt!(c) {
                        again = true;
                        progress = true;
                        break;
                    }
                }
            }
        }
        // remove blocks of choices
        for n in [16usize, 8, 4, 2, 1] {
            let mut i = best.len();
            while i > 0 && left > 0 {
                i = i.min(best.len());
                if i >= n {
                    let mut c = best[..i - n].to_vec();
                    c.extend_from_slice(&best[i..]);
                    if attempt!(c) {
                        progress = true;
                        continue;
                    }
                }
                if i == 0 {
                    break;
                }
                i -= 1;
            }
        }
        // zero spans
        for (a, b) in spans.clone() {
            if b <= best.len() && best[a..b].iter().any(|x| *x != 0) {
                let mut c = best.clone();
                c[a..b].iter_mut().for_each(|x| *x = 0);
                progress |= attempt!(c);
            }
        }
        // lower single choices
        let mut i = 0;
        while i < best.len() && left > 0 {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if attempt!(c) {
                    progress = true;
                } else {
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 && left > 0 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                            progress = true;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}
