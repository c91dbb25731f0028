//! P32: scripts of clients of a realm, with what they look up and what they borrow typed. A model
//! says which of them the compiler has to accept and what those see.
use crate::driver::*;
use harness::pbt::*;
use std::fmt::Write;

pub const FAMILY: Family = Family {
    id: "P32",
    rule: "what was borrowed was used at least twice, and something was written",
    quick: 240,
    thorough: 5000,
    gen,
};

const PRIM: [&str; 14] = [
    "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "f32", "f64", "String", "ObjectHandle", "ContractDataHandle",
];
fn ty(k: usize) -> String {
    if k < 14 {
        PRIM[k].into()
    } else {
        format!("Vec<{}>", PRIM[k - 14])
    }
}
/// A value of a type, different for each `n` below 200 or so (but for bool)
fn val(k: usize, n: u64) -> String {
    let n = n % 120;
    match k {
        0..=7 => format!("{n}{}", PRIM[k]),
        8 => format!("{}", n % 2 == 1),
        9 | 10 => format!("{n}.25{}", PRIM[k]),
        11 => format!("String::from(\"v{n}\")"),
        12 | 13 => format!("raw::<{}>({n}, {})", if k == 12 { "Object" } else { "ContractData" }, n / 2),
        k => {
            let v: Vec<String> = (0..n % 4).map(|i| val(k - 14, n + i)).collect();
            format!("Vec::<{}>::from([{}])", PRIM[k - 14], v.join(", "))
        }
    }
}
fn dynamic(v: &str) -> String {
    format!("DynTpProperty::from({v})")
}

const BASE: &str = "
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{Channel, ChannelHandle, ChannelId, DynChannel, Keyframe};
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::{State, StateHandle, StateId};
use tp_client::contract::{channels, states, Contract, ContractData, ContractDataHandle, ContractId};
use tp_client::object::{Object, ObjectHandle};
use tp_client::realm::{Realm, RealmID};
use tp_client::time::{ChannelTime, RealmTime, Ticks, TimeScale, TimeWarp};
fn raw<T>(a: usize, b: u64) -> arena::Index<T> { arena::Index::new(arena::generational_arena::Index::from_raw_parts(a, b)) }
fn same<X: PartialEq + std::fmt::Debug>(a: X, b: X) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!(\"{a:?} and should be {b:?}\")) }
}
fn e<X, E: ToString>(r: Result<X, E>) -> Result<X, String> { r.map_err(|e| e.to_string()) }
";

#[derive(Clone)]
struct Fieldy {
    con: usize,
    chan: bool,
    n: usize,
    ty: usize,
    /// of each of the two objects of the contract
    now: [String; 2],
    kfs: [usize; 2],
}

#[derive(Clone, Copy)]
enum Of {
    State(usize, usize),
    Chan(usize, usize),
    Obj(usize, usize),
    Con(usize),
}

#[derive(Clone)]
struct Loan {
    of: Of,
    exclusive: bool,
    dead: bool,
    used: u32,
}

fn gen(s: &mut Src) -> Program {
    // the contracts
    let pool: Vec<usize> = (0..3).map(|_| s.below(28)).collect();
    let mut fs: Vec<Fieldy> = vec![];
    for con in 0..2 {
        for chan in [false, true] {
            let n = if chan { s.below(3) } else { 1 + s.below(3) };
            for n in 0..n {
                let ty = *s.pick(&pool);
                let now = [val(ty, s.draw(119)), val(ty, s.draw(119))];
                let kfs = [s.below(3), s.below(3)];
                fs.push(Fieldy { con, chan, n, ty, now, kfs });
            }
        }
    }
    let mut head = format!("#![allow(warnings)]\n{BASE}");
    for con in 0..2 {
        for (attr, chan, name) in [("states", false, "S"), ("channels", true, "C")] {
            let list: Vec<String> = fs.iter().filter(|f| f.con == con && f.chan == chan).map(|f| format!("pub f{}: {}", f.n, ty(f.ty))).collect();
            if list.is_empty() {
                write!(head, "type {name}{con} = ();\n").unwrap();
            } else {
                write!(head, "#[{attr}]\npub struct {name}{con} {{ {} }}\n", list.join(", ")).unwrap();
            }
        }
        let new = |n: &str, any: bool| if any { format!("{n}{con}::new(h)") } else { "()".into() };
        let any = |chan| fs.iter().any(|f| f.con == con && f.chan == chan);
        write!(
            head,
            "pub struct K{con} {{ h: ContractDataHandle, s: S{con}, c: C{con} }}
impl Contract for K{con} {{
    type States = S{con};
    type Channels = C{con};
    const ID: ContractId = ContractId {{ name: \"gen.@CASE@.{con}\", version: (1, 0, {con}) }};
    fn new(h: ContractDataHandle) -> Self {{ K{con} {{ h, s: {}, c: {} }} }}
    fn states(&self) -> &S{con} {{ &self.s }}
    fn channels(&self) -> &C{con} {{ &self.c }}
    fn handle(&self) -> ContractDataHandle {{ self.h }}
}}\n",
            new("S", any(false)),
            new("C", any(true))
        )
        .unwrap();
    }
    // where they are used
    let realm = s.bool();
    let kind = *s.pick(&["Main", "Fork"]);
    let (sh, ex) = if realm {
        (format!("realm.baseline(BaselineKind::{kind})"), format!("realm.baseline_mut(BaselineKind::{kind})"))
    } else {
        ("base".to_string(), "base".to_string())
    };
    let create = |fs: &[Fieldy], con: usize, o: usize| {
        let st: Vec<String> = fs.iter().filter(|f| f.con == con && !f.chan).map(|f| dynamic(&f.now[o])).collect();
        let ch: Vec<String> = fs
            .iter()
            .filter(|f| f.con == con && f.chan)
            .map(|f| {
                let k: Vec<String> = (0..f.kfs[o]).map(|i| format!("Keyframe::new({}, {i}.5)", f.now[o])).collect();
                format!("<{0} as harness::values::PropT>::chan_into_dyn(Channel::<{0}>::new(Vec::<Keyframe<{0}>>::from([{1}]).into_iter()))", ty(f.ty), k.join(", "))
            })
            .collect();
        format!("e({ex}.object_create(&k{con}, Vec::<DynTpProperty>::from([{}]).into_iter(), Vec::<DynChannel>::from([{}]).into_iter()))?", st.join(", "), ch.join(", "))
    };
    let mut setup = String::new();
    if realm {
        setup += "    let mut realm = Realm::new(RealmID::new(\"r\".into()));\n";
    } else {
        write!(setup, "    let mut base = Baseline::new(BaselineKind::{kind});\n").unwrap();
    }
    for con in 0..2 {
        write!(setup, "    let k{con} = e({ex}.register_contract::<K{con}>())?;\n    let c{con}: ContractDataHandle = k{con}.handle();\n").unwrap();
        for o in 0..2 {
            write!(setup, "    let o{con}{o}: ObjectHandle = {};\n", create(&fs, con, o)).unwrap();
        }
        for f in fs.iter().filter(|f| f.con == con) {
            let (c, k, m) = if f.chan { ("c", "Channel", "channel") } else { ("s", "State", "state") };
            write!(setup, "    let {c}i{con}{}: {k}Id<{}> = k{con}.{c}.f{}();\n", f.n, ty(f.ty), f.n).unwrap();
            for o in 0..2 {
                write!(setup, "    let {c}h{con}{}{o}: {k}Handle<{}> = e({sh}.bind_{m}({c}i{con}{}, o{con}{o}))?;\n", f.n, ty(f.ty), f.n).unwrap();
            }
        }
    }
    let id = |f: &Fieldy| format!("{}i{}{}", if f.chan { "c" } else { "s" }, f.con, f.n);
    let hd = |f: &Fieldy, o: usize| format!("{}h{}{}{o}", if f.chan { "c" } else { "s" }, f.con, f.n);

    let mut body = setup.clone();
    let mut loans: Vec<Loan> = vec![];
    let mut bad: Option<(&'static str, String)> = None;
    let (mut uses, mut writes) = (0, 0);
    let mut warps = [[0u64; 2]; 2];
    let states: Vec<usize> = (0..fs.len()).filter(|i| !fs[*i].chan).collect();
    let chans: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].chan).collect();
    let mut extra = 0;
    for step in 0..8 + s.below(16) {
        let mut fault = None;
        let mut next = loans.clone();
        let n = loans.len();
        let touch = |l: &mut Vec<Loan>, change: bool| {
            for x in l.iter_mut() {
                x.dead |= change || x.exclusive;
            }
        };
        let mut now = fs.clone();
        let mut warp = warps;
        let mut more = extra;
        let (mut used, mut wrote) = (0, 0);
        let text = match s.weighted(&[5, 4, if n > 0 { 12 } else { 0 }, 2, 1, 1, 2, 1]) {
            w @ (0 | 1) => {
                let exclusive = w == 1;
                touch(&mut next, exclusive);
                let m = if exclusive { "_mut" } else { "" };
                let x = if exclusive { &ex } else { &sh };
                let amp = if exclusive { "&mut" } else { "&" };
                let (of, text) = match s.weighted(&[5, if chans.is_empty() { 0 } else { 4 }, 2, if exclusive { 0 } else { 1 }]) {
                    1 => {
                        let (i, o) = (*s.pick(&chans), s.below(2));
                        let h = hd(&fs[i], o);
                        let t = ty(fs[i].ty);
                        let r = if s.chance(30) { format!("{amp} {x}[{h}]") } else { format!("e({x}.channel{m}({h}))?") };
                        (Of::Chan(i, o), format!("    let r{n}: {amp} Channel<{t}> = {r};\n"))
                    }
                    2 => {
                        let (c, o) = (s.below(2), s.below(2));
                        let r = if s.chance(30) { format!("{amp} {x}[o{c}{o}]") } else { format!("e({x}.object{m}(o{c}{o}))?") };
                        (Of::Obj(c, o), format!("    let r{n}: {amp} Object = {r};\n"))
                    }
                    3 => {
                        let c = s.below(2);
                        (Of::Con(c), format!("    let r{n}: &ContractData = e({x}.contract_data(c{c}))?;\n"))
                    }
                    _ => {
                        let (i, o) = (*s.pick(&states), s.below(2));
                        let h = hd(&fs[i], o);
                        let t = ty(fs[i].ty);
                        let r = match s.below(4) {
                            0 => format!("{amp} {x}[{h}]"),
                            1 if !exclusive => format!("e(tp_client::contract::properties::states::IStateHandle::get(&{h}, &{x}))?"),
                            _ => format!("e({x}.state{m}({h}))?"),
                        };
                        (Of::State(i, o), format!("    let r{n}: {amp} State<{t}> = {r};\n"))
                    }
                };
                next.push(Loan { of, exclusive, dead: false, used: 0 });
                text
            }
            2 => {
                let i = n - 1 - s.below(n).min(s.below(n));
                if next[i].dead {
                    fault = Some("use of what was borrowed before a change");
                }
                next[i].used += 1;
                used = 1;
                let exclusive = next[i].exclusive && s.bool();
                wrote = exclusive as u32;
                match next[i].of {
                    Of::State(f, o) if exclusive => {
                        let v = val(fs[f].ty, s.draw(119));
                        now[f].now[o] = v.clone();
                        match s.below(3) {
                            0 => format!("    std::mem::drop(std::mem::replace(&mut r{i}.value, {v}));\n"),
                            1 => format!("    *r{i} = State::new({v});\n"),
                            _ => format!("    r{i}.value = {v};\n"),
                        }
                    }
                    Of::State(f, o) => format!("    same(&r{i}.value, &{})?;\n", fs[f].now[o]),
                    Of::Chan(f, o) if exclusive => {
                        now[f].kfs[o] += 1;
                        format!("    r{i}.keyframes_mut().push(Keyframe::new({}, 1000.0));\n", fs[f].now[o])
                    }
                    Of::Chan(f, o) => {
                        format!("    same(r{i}.keyframes().len(), {})?; for k in r{i}.keyframes() {{ same(k.value(), &{})?; }}\n", fs[f].kfs[o], fs[f].now[o])
                    }
                    Of::Obj(c, o) if exclusive => {
                        warp[c][o] = s.draw(1000);
                        format!("    r{i}.time_warp_mut().offset = Ticks::new({});\n", warp[c][o])
                    }
                    Of::Obj(c, o) => format!("    same(r{i}.contract(), c{c})?; same(r{i}.time_warp().offset.as_millis(), {})?;\n", warps[c][o]),
                    Of::Con(c) => format!("    same(r{i}.id(), K{c}::ID)?; same(r{i}.objects().contains(&o{c}0), true)?;\n"),
                }
            }
            3 => {
                // bound again, to the same
                touch(&mut next, false);
                let (i, o) = (s.below(fs.len()), s.below(2));
                let f = &fs[i];
                let m = if f.chan { "channel" } else { "state" };
                if s.bool() || f.ty >= 14 {
                    format!("    same(e({sh}.bind_{m}({}, o{}{o}))?, {})?;\n", id(f), f.con, hd(f, o))
                } else {
                    format!("    same(e({sh}.object(o{}{o}))?.{m}({}), {})?;\n", f.con, id(f), hd(f, o))
                }
            }
            4 => {
                touch(&mut next, true);
                more += 1;
                let c = s.below(2);
                format!("    let x{step}: ObjectHandle = {}; e({ex}.object_remove::<K{c}>(x{step}))?; same({sh}.object(x{step}).is_err(), true)?;\n", create(&fs, c, 0))
            }
            5 => {
                // seen from other threads
                let (i, o) = (*s.pick(&states), s.below(2));
                let (h, v) = (hd(&fs[i], o), &fs[i].now[o]);
                match s.below(3) {
                    0 => {
                        touch(&mut next, false);
                        format!("    std::thread::scope(|t| {{ let a = t.spawn(|| same(&e({sh}.state({h}))?.value, &{v})); let b = t.spawn(|| same(&e({sh}.state({h}))?.value, &{v})); a.join().unwrap()?; b.join().unwrap() }})?;\n")
                    }
                    1 => {
                        touch(&mut next, true);
                        let v = val(fs[i].ty, s.draw(119));
                        now[i].now[o] = v.clone();
                        wrote = 1;
                        format!("    std::thread::scope(|t| t.spawn(|| -> Result<(), String> {{ e({ex}.state_mut({h}))?.value = {v}; Ok(()) }}).join().unwrap())?;\n")
                    }
                    _ => {
                        let all: Vec<String> = fs.iter().flat_map(|f| [id(f), hd(f, 0), hd(f, 1)]).collect();
                        format!("    {{ let all = ({}); let a = all; same(std::thread::spawn(move || all).join().unwrap(), a)?; }}\n", nest(&all))
                    }
                }
            }
            6 => {
                touch(&mut next, false);
                let (i, o) = (*s.pick(&states), s.below(2));
                let f = &fs[i];
                match s.below(4) {
                    3 => format!("    same({sh}.iter_objects().filter(|(h, o): &(ObjectHandle, &Object)| o.contract() == c{0} && (*h == o{0}0 || *h == o{0}1)).count(), 2)?;\n", f.con),
                    0 => format!("    same(&{sh}[{}].value, &{})?;\n", hd(f, o), f.now[o]),
                    1 => format!("    {{ let v: {} = e({sh}.state({}))?.value.clone(); same(v, {})?; }}\n", ty(f.ty), hd(f, o), f.now[o]),
                    _ => format!("    same(e({sh}.state({}))? == &State::new({}), true)?;\n", hd(f, o), f.now[o]),
                }
            }
            _ => {
                touch(&mut next, true);
                let (i, o) = (*s.pick(&states), s.below(2));
                let v = val(fs[i].ty, s.draw(119));
                now[i].now[o] = v.clone();
                wrote = 1;
                format!("    {ex}[{}].value = {v};\n", hd(&fs[i], o))
            }
        };
        match fault {
            None => {
                body += &text;
                loans = next;
                fs = now;
                warps = warp;
                extra = more;
                uses += used;
                writes += wrote;
            }
            Some(f) if bad.is_none() => bad = Some((f, format!("{body}{text}"))),
            Some(_) => (),
        }
    }
    for f in &fs {
        for o in 0..2 {
            if f.chan {
                write!(body, "    same(e({sh}.channel({}))?.keyframes().len(), {})?;\n", hd(f, o), f.kfs[o]).unwrap();
            } else {
                write!(body, "    same(&e({sh}.state({}))?.value, &{})?;\n", hd(f, o), f.now[o]).unwrap();
            }
        }
    }
    let reject = if s.bool() {
        bad
    } else {
        // a confusion, after all that was right
        let (i, o) = (*s.pick(&states), s.below(2));
        let f = fs[i].clone();
        let (h, t) = (hd(&f, o), ty(f.ty));
        let u = (f.ty + 1 + s.below(27)) % 28;
        let (tu, vu) = (ty(u), val(u, 3));
        let c = chans.first().map(|i| fs[*i].clone());
        let other = states.iter().map(|i| &fs[*i]).find(|g| g.ty != f.ty).cloned();
        let w = s.below(30);
        let (what, text) = match (w, &c, &other) {
            (0, Some(c), _) => ("a channel handle for a state's", format!("{sh}.state({})", hd(c, 0))),
            (1, _, _) => ("a state handle for a channel's", format!("{sh}.channel({h})")),
            (2, _, _) => ("a state borrowed as one of another type", format!("let x: &State<{tu}> = e({sh}.state({h}))?")),
            (3, Some(c), _) => ("a channel id for a state's", format!("{sh}.bind_state({}, o{}0)", id(c), c.con)),
            (4, _, _) => ("a state id for a channel's", format!("{sh}.bind_channel({}, o{}0)", id(&f), f.con)),
            (5, _, _) => ("a state bound as one of another type", format!("let x: StateHandle<{tu}> = e({sh}.bind_state({}, o{}0))?", id(&f), f.con)),
            (6, _, _) => ("a contract for an object", format!("{sh}.bind_state({}, c0)", id(&f))),
            (7, _, _) => ("a contract looked up as an object", format!("{sh}.object(c0)")),
            (8, _, _) => ("an object looked up as a contract", format!("{sh}.contract_data(o00)")),
            (9, _, _) => ("a state handle for an object's", format!("{sh}.object({h})")),
            (10, _, Some(g)) => ("handles of two types compared", format!("let x = {h} == {}", hd(g, 0))),
            (11, _, Some(g)) => ("ids of two types compared", format!("let x = {} == {}", id(&f), id(g))),
            (12, _, _) => ("an object compared with a contract", "let x = o00 == c0".into()),
            (13, _, _) => ("a value of another type written", format!("e({ex}.state_mut({h}))?.value = {vu}")),
            (14, Some(c), _) => {
                let u = (c.ty + 1 + s.below(27)) % 28;
                ("a keyframe of another type added", format!("e({ex}.channel_mut({}))?.keyframes_mut().push(Keyframe::<{}>::new({}, 0.0))", hd(c, 0), ty(u), val(u, 1)))
            }
            (15, _, _) => ("a channel made of keyframes of another type", format!("let x = Channel::<{t}>::new(Vec::<Keyframe<{tu}>>::new().into_iter())")),
            (16, _, _) => ("a write through a shared loan", format!("e({sh}.state({h}))?.value = {}", val(f.ty, 1))),
            (17, _, _) => ("a contract removed as an object", format!("{ex}.object_remove::<K0>(c0)")),
            (18, _, _) => ("an object unregistered as a contract", format!("{ex}.unregister_contract::<K0>(o00)")),
            (19, _, _) => ("a state of what is not a property type", format!("let x = State::new({})", ["'c'", "Some(1u8)", "[1u8]", "()", "1u128", "1usize", "vec![vec![1u8]]", "\"text\"", "vec!['c']", "(1u8, 2u8)", "Box::new(1u8)", "vec![1u8].into_boxed_slice()"][s.below(12)])),
            (20, _, _) => ("a keyframe of what is not a property type", format!("let x = Keyframe::new({}, 0.0)", ["'c'", "Some(1u8)", "()", "vec![vec![1u8]]", "\"text\"", "1usize"][s.below(6)])),
            (21, _, _) => ("an id of another type in a list of ids", format!("let x: Vec<StateId<{tu}>> = vec![{}]", id(&f))),
            (22, _, _) => ("ticks mixed with numbers", ["let x = Ticks::new(1) + 1", "let x: Ticks = 5", "let x = Ticks::new(1) * 2", "let x = Ticks::new(1) < 2"][s.below(4)].into()),
            (23, _, _) => ("kinds of time mixed", ["let x: RealmTime = ChannelTime::default()", "let x: ChannelTime = Ticks::new(1)", "let x = ChannelTime::default() == RealmTime::default()", "let x = Ticks::new(1) * Ticks::new(1)", "let x = Ticks::new(1) + TimeScale::default()", "let x = TimeWarp::default().apply(RealmTime::default())", "let x = TimeWarp { offset: TimeScale::default(), scale: TimeScale::default() }"][s.below(7)].into()),
            (24, _, _) => ("an arena asked with an index of another", format!("let x = arena::Arena::<{t}>::new().get(arena::Arena::<{tu}>::new().insert({vu}))")),
            (25, _, _) => ("a value put into an arena of another type", format!("arena::Arena::<{t}>::new().insert({vu})")),
            (26, _, _) => ("an index kept as one of another type", format!("let x: arena::Index<{t}> = arena::Arena::<{tu}>::new().insert({vu})")),
            (27, _, _) => ("an arena changed while it is borrowed", {
                let v = val(f.ty, 1);
                let borrow = *s.pick(&["a.get(i)", "a.get_mut(i)", "a.iter().next()", "a.iter_mut().next()", "Some(&a[i])"]);
                let change = *s.pick(&["a.insert(@);", "a.remove(i);", "a[i] = @;", "a.reserve(3);", "drop(a);", "for _ in &mut a {}"]);
                format!("let mut a = arena::Arena::<{t}>::new(); let i = a.insert({v}); let r = {borrow}; {} drop(r)", change.replace('@', &v))
            }),
            (28, _, _) => ("what was borrowed outlives its owner", format!("let r; {{ let b = Baseline::new(BaselineKind::Main); r = b.{}; }} drop(r)", ["object(o00)", "contract_data(c0)", &format!("state({h})"), "iter_objects()"][s.below(4)])),
            (29, _, _) => ("a loan made static", format!("fn f(b: &Baseline, h: StateHandle<{t}>) -> Option<&'static State<{t}>> {{ b.state(h).ok() }}")),
            (_, _, _) => ("a handle of one type for a function of another", format!("fn f(_: StateHandle<{tu}>) {{}} f({h})")),
        };
        Some((what, format!("{body}    {text};\n")))
    };
    let wrap = |b: &str| format!("{head}\npub fn check() -> Result<(), String> {{\n{b}    Ok(())\n}}\n");
    Program {
        module: wrap(&body),
        kind: false,
        check: true,
        seed: 0,
        reject: reject.map(|(w, b)| (w, wrap(&b))),
        nontrivial: uses >= 2 && writes > 0,
        labels: vec![if realm { "in a realm" } else { "in a baseline" }],
    }
}

/// A tuple of any length, as nested pairs
fn nest(v: &[String]) -> String {
    match v {
        [] => "()".into(),
        [a, rest @ ..] => format!("({a}, {})", nest(rest)),
    }
}
