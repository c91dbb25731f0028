//! P33: what is known dynamically, handed to code that knows it statically by the `apply_to_*` macros.
use crate::driver::*;
use harness::pbt::*;
use std::fmt::Write;

pub const FAMILY: Family = Family {
    id: "P33",
    rule: "at least three macros, or a list, or a write through what was handed over",
    quick: 120,
    thorough: 3000,
    gen,
};

const PRIM: [&str; 14] = [
    "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "f32", "f64", "String", "ObjectHandle", "ContractDataHandle",
];
fn ty(k: usize) -> String {
    if k < 14 {
        PRIM[k].into()
    } else {
        format!("Vec<{}>", PRIM[k - 14])
    }
}
fn val(k: usize, n: usize) -> String {
    match k {
        0..=7 => format!("{}{}", n % 120, PRIM[k]),
        8 => format!("{}", n % 2 == 1),
        9 | 10 => ["0.0", "-0.0", "1.5", "f32::NAN as", "-2.25"][n % 5].replace(" as", "") + if n % 5 == 3 { ["", " as f64"][k - 9] } else { PRIM[k] },
        11 => format!("String::from({:?})", ["", "a", "\u{e9}\u{1f600}", "long enough to be somewhere"][n % 4]),
        12 | 13 => format!("raw::<{}>({n}, {})", if k == 12 { "Object" } else { "ContractData" }, n / 2),
        k => {
            let v: Vec<String> = (0..n % 4).map(|i| val(k - 14, n + i)).collect();
            format!("Vec::<{}>::from([{}])", PRIM[k - 14], v.join(", "))
        }
    }
}

const NAMES: [&str; 16] = [
    "PS", "PV", "P", "V", "Primitive", "DynStateId", "DynChannelId", "DynTpProperty", "DynTpPrimitive", "DynTpVec", "DynChannel", "DynStateHandle",
    "DynChannelHandle", "DynTpPropertyRef", "DynTpPropertyMut", "DynChannelRef",
];

const BASE: &str = "
use std::fmt::Debug;
use tp_client::contract::{ContractData, ContractDataHandle};
use tp_client::contract::properties::channels as ch;
use tp_client::contract::properties::channels::{Channel, ChannelHandle, ChannelId, Keyframe};
use tp_client::contract::properties::dynamic as dy;
use tp_client::contract::properties::states as st;
use tp_client::contract::properties::states::{StateHandle, StateId};
use tp_client::contract::properties::traits::ITpPropertyStatic;
use tp_client::object::{Object, ObjectHandle};
use harness::values::PropT;
fn raw<T>(a: usize, b: u64) -> arena::Index<T> { arena::Index::new(arena::generational_arena::Index::from_raw_parts(a, b as u64)) }
fn seen<X: Debug>(x: X) -> String { format!(\"{}: {:?}\", std::any::type_name::<X>(), x) }
fn same<X: PartialEq + Debug>(a: X, b: X) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!(\"{a:?} and should be {b:?}\")) }
}
pub trait Poke { fn poke(&mut self); }
fn poke<X: Poke + ?Sized>(x: &mut X) -> String { x.poke(); String::new() }
macro_rules! poke { ($($t:ty = $e:expr),*) => { $(
    impl Poke for $t { fn poke(&mut self) { *self = $e } }
    impl Poke for [$t] { fn poke(&mut self) { for x in self { *x = $e } } }
)* } }
poke!(u8 = 201, u16 = 201, u32 = 201, u64 = 201, i8 = -101, i16 = -101, i32 = -101, i64 = -101, bool = true, f32 = 77.5, f64 = 77.5,
    String = \"poked\".into(), ObjectHandle = raw(77, 7), ContractDataHandle = raw(77, 7));
";

/// name, how it is found besides at the root, its dynamic type, what its closure can ask for
const KINDS: [(&str, &str, &str, &str); 10] = [
    ("apply_to_state_id", "st::apply_to_state_id", "st::DynStateId", "StateId<_>"),
    ("apply_to_channel_id", "ch::apply_to_channel_id", "ch::DynChannelId", "ChannelId<_>"),
    ("apply_to_prop", "dy::apply_to_prop", "dy::DynTpProperty", "_"),
    ("apply_to_channel", "ch::apply_to_channel", "ch::DynChannel", "Channel<_>"),
    ("apply_to_channel_ref", "ch::apply_to_channel_ref", "ch::DynChannelRef", "&Channel<_>"),
    ("apply_to_channel_mut", "ch::apply_to_channel_mut", "ch::DynChannelMut", "&mut Channel<_>"),
    ("apply_to_state_handle", "", "st::DynStateHandle", "StateHandle<_>"),
    ("apply_to_channel_handle", "", "ch::DynChannelHandle", "ChannelHandle<_>"),
    ("apply_to_prop_ref", "", "dy::DynTpPropertyRef", "&_"),
    ("apply_to_prop_mut", "", "dy::DynTpPropertyMut", "&mut _"),
];

struct Value {
    /// Statements before
    setup: String,
    dynamic: String,
    fixed: String,
}

/// A value of a kind and type, as known dynamically and statically; `i` tells its variables from others
fn value(s: &mut Src, kind: usize, t: usize, i: usize) -> Value {
    let n = s.below(40);
    let (tn, v) = (ty(t), val(t, n));
    let id = format!("raw({}, {})", s.below(300), s.below(9));
    let idx = *s.pick(&[0usize, 1, 2, 7, 255, 256, 65536]);
    let kfs: Vec<String> = (0..s.below(3)).map(|i| format!("Keyframe::new({}, {i}.0)", val(t, n + i))).collect();
    let chan = format!("Channel::<{tn}>::new(Vec::<Keyframe<{tn}>>::from([{}]).into_iter())", kfs.join(", "));
    let slice = if t >= 14 { "[..]" } else { "" };
    let (setup, dynamic, fixed) = match kind {
        0 | 1 => {
            let c = ["StateId", "ChannelId"][kind];
            let (m, d) = [("st", "DynStateId"), ("ch", "DynChannelId")][kind];
            (String::new(), format!("{m}::{d}::new({id}, {idx}, <{tn} as ITpPropertyStatic>::PROPERTY_TYPE)"), format!("{c}::<{tn}>::new({idx}, {id})"))
        }
        2 => (String::new(), format!("<{tn} as PropT>::into_dyn({v})"), v),
        3 => (String::new(), format!("<{tn} as PropT>::chan_into_dyn({chan})"), chan),
        4 => (format!("let c{i} = {chan};"), format!("ch::DynChannelRef::from(&c{i})"), format!("&{chan}")),
        5 => (format!("let mut c{i} = {chan};"), format!("ch::DynChannelMut::from(&mut c{i})"), format!("&mut {chan}")),
        6 => (String::new(), format!("st::DynStateHandle::from(StateHandle::<{tn}>::from({id}))"), format!("StateHandle::<{tn}>::from({id})")),
        7 => (String::new(), format!("ch::DynChannelHandle::from(ch::dyn_handle::DynChannelHandle{}::from(ChannelHandle::<{tn}>::from({id})))", if t < 14 { "Primitive" } else { "Vec" }), format!("ChannelHandle::<{tn}>::from({id})")),
        8 => (format!("let v{i}: {tn} = {v};"), format!("dy::DynTpPropertyRef::from(&v{i})"), format!("&({v}){slice}")),
        _ => (format!("let mut v{i}: {tn} = {v};"), format!("dy::DynTpPropertyMut::from(&mut v{i})"), format!("&mut ({v}){slice}")),
    };
    Value { setup, dynamic, fixed }
}

fn gen(s: &mut Src) -> Program {
    let mut body = String::new();
    let names = s.chance(25);
    let mut head = format!("#![allow(warnings)]\n{BASE}");
    if names {
        // names the expansion might use for itself
        head += "trait Mine { const N: &'static str; }\n";
        for n in NAMES {
            write!(head, "struct {n};\nimpl Mine for {n} {{ const N: &'static str = \"<{n}>\"; }}\n").unwrap();
        }
        head += "mod paste {} mod contract {} mod properties {} mod dynamic {} mod states {} mod channels {}\n";
    }
    let uses = s.bool();
    if uses {
        for k in KINDS {
            write!(head, "use tp_client::{};\n", k.0).unwrap();
        }
    }
    let (mut kinds, mut lists, mut pokes) = (vec![], false, false);
    let n = 3 + s.below(4);
    for i in 0..n {
        let kind = s.below(10);
        let t = s.below(28);
        let v = value(s, kind, t, i);
        lists |= t >= 14;
        if !kinds.contains(&kind) {
            kinds.push(kind);
        }
        let k = KINDS[kind];
        let mac = match s.below(3) {
            0 if uses => k.0.to_string(),
            1 if !k.1.is_empty() => k.1.to_string(),
            _ => format!("tp_client::{}", k.0),
        };
        // what is handed over: itself, or a borrow of it
        let by = if [4, 5, 8, 9].contains(&kind) { 0 } else { s.weighted(&[4, 1, 1]) };
        let amp = ["", "&", "&mut "][by];
        let fixed = if by == 0 { v.fixed.clone() } else { format!("{amp}({})", v.fixed) };
        let d = format!("d{i}");
        let arg = match s.below(8) {
            0 => format!("{amp}{d}"),
            1 => format!("{{ evals += 1; {amp}{d} }}"),
            2 => format!("({amp}{d})"),
            3 => format!("std::convert::identity({amp}{d})"),
            4 => format!("Some({amp}{d}).unwrap()"),
            5 => format!("if evals < 1000 {{ {amp}{d} }} else {{ unreachable!() }}"),
            6 => format!("(0, {amp}{d}).1"),
            _ => format!("match {amp}{d} {{ x => x }}"),
        };
        let counted = arg.contains("evals +=") as u32;
        let mut extra = String::new();
        let (closure, want, tail) = match s.weighted(&[3, 2, 3, 2, 2, if by == 0 { 3 } else { 0 }, 1, 2, if kind == 9 || kind == 5 { 12 } else { 0 }, 1]) {
            0 => ("|x| seen(x)".to_string(), format!("seen({fixed})"), ""),
            1 => ("seen".into(), format!("seen({fixed})"), ""),
            2 => ("|x| { calls += 1; seen(x) }".into(), format!("seen({fixed})"), ""),
            3 => (format!("move |x| p{i} + &seen(x)"), format!("String::from(\"p\") + &seen({fixed})"), ""),
            4 => ("|x| -> Result<String, String> { Ok(seen(x)) }".into(), format!("seen({fixed})"), "?"),
            5 => (format!("|x: {}| seen(x)", k.3.replace("&_", if kind == 8 { "_" } else { "&_" }).replace("&mut _", "_")), format!("seen({fixed})"), ""),
            6 => ("|x| { if true { return seen(x); } String::new() }".into(), format!("seen({fixed})"), ""),
            7 => {
                let mine = *s.pick(&NAMES[..]);
                let (c, w) = if names { (format!("<{mine}>::N"), format!("<{mine}>")) } else { ("\"\"".into(), String::new()) };
                (format!("|x| format!(\"{{}}{{id}}{{s}}{{}}\", {c}, seen(x))"), format!("format!(\"{w}id s{{}}\", seen({fixed}))"), "")
            }
            8 => {
                pokes = true;
                if kind == 9 {
                    let slice = if t >= 14 { "[..]" } else { "" };
                    write!(extra, "    {{ let mut w: {} = {}; Poke::poke(&mut w{slice}); same(seen(&v{i}), seen(&w))?; }}\n", ty(t), v.fixed.trim_start_matches("&mut ").trim_end_matches("[..]")).unwrap();
                    (["|x| poke(x)", "poke", "|x| { calls += 1; poke(x) }"][s.below(3)].into(), "String::new()".into(), "")
                } else {
                    write!(extra, "    same(c{i}.keyframes().len(), 0)?;\n").unwrap();
                    ("|x: &mut Channel<_>| { x.keyframes_mut().clear(); String::new() }".into(), "String::new()".into(), "")
                }
            }
            _ => {
                // one inside another
                let t2 = s.below(28);
                let v2 = value(s, 0, t2, 100 + i);
                (format!("|x| seen(x) + &tp_client::apply_to_state_id!({}, |y| seen(y))", v2.dynamic), format!("seen({fixed}) + &seen({})", v2.fixed), "")
            }
        };
        let counts = closure.contains("calls +=") as u32;
        write!(
            body,
            "    {}\n    let mut d{i} = {};\n    let p{i} = String::from(\"p\");\n    evals = 0; calls = 0;\n    let got: String = {mac}!({arg}, {closure}){tail};\n    same(got, {want})?;\n    same((evals, calls), ({counted}, {counts}))?;\n{extra}",
            v.setup, v.dynamic
        )
        .unwrap();
    }
    let (kind, t) = (s.below(10), s.below(28));
    let v = value(s, kind, t, 99);
    let k = KINDS[kind];
    let other = (kind + 1 + s.below(9)) % 10;
    let reject = match s.below(5) {
        0 => Some(("another kind of dynamic value", format!("{} let d = {}; let x: String = tp_client::{}!(d, |x| seen(x));", v.setup, v.dynamic, KINDS[other].0))),
        1 => Some(("code for one type only", {
            let w = [format!("StateId<{}>", ty(t)), format!("ChannelId<{}>", ty(t)), ty(t), format!("Channel<{}>", ty(t))];
            let kind = kind % 4;
            let v = value(s, kind, t, 98);
            format!("let d = {}; let x: String = tp_client::{}!(d, |x: {}| seen(x));", v.dynamic, KINDS[kind].0, w[kind])
        })),
        2 => Some(("results of different types", format!("{} let d = {}; let x = tp_client::{}!(d, |x| x);", v.setup, v.dynamic, k.0))),
        3 => Some(("a closure missing", format!("{} let d = {}; let x: String = tp_client::{}!(d);", v.setup, v.dynamic, k.0))),
        _ => Some(("used after it was handed over", {
            let kind = [2, 3, 5, 9][s.below(4)];
            let v = value(s, kind, t, 98);
            format!("{} let d = {}; let x: String = tp_client::{}!(d, |x| seen(x)); drop(d);", v.setup, v.dynamic, KINDS[kind].0)
        })),
    };
    let wrap = |b: &str| {
        format!("{head}\npub fn check() -> Result<(), String> {{\n    let (mut evals, mut calls) = (0u32, 0u32);\n    let (id, s) = (\"id \", \"s\");\n{b}    Ok(())\n}}\n")
    };
    Program {
        module: wrap(&body),
        kind: false,
        check: true,
        seed: 0,
        reject: reject.map(|(w, b)| (w, wrap(&format!("{body}    {b}\n")))),
        nontrivial: kinds.len() >= 3 || lists || pokes,
        labels: vec![if names { "names of the expansion taken" } else { "names free" }],
    }
}
