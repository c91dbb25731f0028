//! P26: items under `#[remangle]` and `#[substitute]`.
use crate::driver::*;
use harness::pbt::*;
use std::fmt::Write;

pub const FAMILY: Family = Family {
    id: "P26",
    rule: "an item was renamed by a path of at least two segments, or an expression was substituted in at least two places",
    quick: 600,
    thorough: 6000,
    gen,
};

fn gen(s: &mut Src) -> Program {
    let mut p = if s.bool() { substitute(s) } else { remangle(s) };
    if s.chance(40) {
        p.reject = Some(reject(s));
    }
    p
}

fn ident(s: &mut Src) -> String {
    let n: String = match s.weighted(&[4, 2, 1, 1]) {
        0 => (0..1 + s.below(4)).map(|_| (b'a' + s.draw(25) as u8) as char).collect(),
        1 => s.pick(&["tp_client", "contract", "properties", "std", "core", "a_b", "a__b", "Type", "_x", "c_api"]).to_string(),
        2 => format!("m{}", s.draw(1000)),
        _ => format!("l{}", "o".repeat(1 + s.below(80))),
    };
    // keywords would only be a problem alone, and they are always joined; but keep clear of them
    n
}

/// A path as it may be written, and what it mangles to: every segment that is there, with `__` behind
fn path(s: &mut Src) -> (String, String, usize) {
    let n = 1 + s.below(4);
    let mut text = String::new();
    let mut mangled = String::new();
    let mut last: Option<String> = None;
    if s.chance(15) {
        text += "::";
    }
    for i in 0..n {
        if i > 0 {
            text += if s.chance(10) { "::::" } else { "::" };
        }
        let id = match &last {
            // its parent's name once more, or the end of it
            Some(l) if s.chance(20) => l.clone(),
            Some(l) if s.chance(10) && l.len() > 1 && l.is_ascii() && l.as_bytes()[l.len() - 1].is_ascii_alphabetic() => l[l.len() - 1..].into(),
            _ if i == 0 && s.bool() => "verif_@CASE@".into(),
            _ => ident(s),
        };
        last = Some(id.clone());
        let (a, b) = if s.chance(10) { (" ", "  ") } else { ("", "") };
        write!(text, "{a}{id}{b}").unwrap();
        write!(mangled, "{id}__").unwrap();
    }
    if s.chance(10) {
        text += "::";
    }
    (text, mangled, n)
}

fn remangle(s: &mut Src) -> Program {
    let (path, pre, segs) = path(s);
    let lit = match s.below(3) {
        0 => format!("r\"{path}\""),
        1 => format!("r#\"{path}\"#"),
        _ => format!("\"{path}\""),
    };
    let attr = *s.pick(&["rsharp_macro::remangle", "::rsharp_macro::remangle", "remangle"]);
    let mut labels = vec![];
    let k = s.draw(1 << 20);
    let name = format!("{}_@CASE@", ident(s));
    let new = format!("{pre}{name}");
    let vis = "pub";
    let before = *s.pick(&["", "/// Documentation.\n", "#[allow(dead_code)]\n", "#[doc(hidden)]\n"]);
    let after = *s.pick(&["", "", "#[allow(non_snake_case)]\n", "/// More.\n"]);
    // in a macro, as the repository has it, or plainly
    let in_macro = s.chance(30);
    let (item, check) = match s.below(8) {
        6 => {
            labels.push("large struct");
            let n = 20 + s.below(60);
            let f: String = (0..n).map(|i| format!("pub f{i}: u32, ")).collect();
            let v: String = (0..n).map(|i| format!("f{i}: x ^ {i}, ")).collect();
            let (i, d) = (s.below(n), *s.pick(&["", "#[repr(C)]\n"]));
            (
                format!("{d}#[derive(Clone, Debug, PartialEq)]\n{vis} struct {name} {{ {f} }}"),
                format!("let v: m::{new} = m::{name} {{ {v} }}; same(v.f{i}, x ^ {i})?; same(std::mem::size_of::<m::{new}>(), {})?;", 4 * n),
            )
        }
        7 => {
            labels.push("large enum");
            let n = 20 + s.below(60);
            let f: String = (0..n).map(|i| format!("V{i}, ")).collect();
            let i = s.below(n);
            (
                format!("#[repr(u8)]\n#[derive(Clone, Copy, Debug, PartialEq)]\n{vis} enum {name} {{ {f} }}"),
                format!("let v: m::{new} = m::{name}::V{i}; same(v as u8, {i})?; same(std::any::type_name::<m::{name}>().rsplit(\"::\").next(), Some(\"{new}\"))?;"),
            )
        }
        0 => {
            labels.push("function");
            (
                format!("{vis} fn {name}(x: u32) -> u32 {{ x.wrapping_mul(3).wrapping_add({k}) }}"),
                format!("same(m::{name}(x), x.wrapping_mul(3).wrapping_add({k}))?; same(m::{new}(x), x.wrapping_mul(3).wrapping_add({k}))?;"),
            )
        }
        1 => {
            labels.push("exported function");
            (
                format!("#[no_mangle]\n{vis} extern \"C\" fn {name}(x: u32) -> u32 {{ x ^ {k} }}"),
                format!(
                    "extern \"C\" {{ #[link_name = \"{new}\"] fn by_name(x: u32) -> u32; }}
    same(unsafe {{ by_name(x) }}, x ^ {k})?; same(m::{name}(x), x ^ {k})?; same(m::{name} as usize, m::{new} as usize)?;"
                ),
            )
        }
        2 => {
            labels.push("generic function");
            (
                format!("{vis} fn {name}<'a, T: Clone + 'a>(x: &'a T, y: [u8; {}]) -> (T, usize) where T: PartialEq {{ (x.clone(), y.len()) }}", k % 9),
                format!("same(m::{name}(&x, [0; {0}]), (x, {0}))?; same(m::{new}(&x, [0; {0}]), (x, {0}))?;", k % 9),
            )
        }
        3 => {
            labels.push("struct");
            (
                format!("#[derive(Clone, Debug, PartialEq)]\n{vis} struct {name} {{ pub a: u32, pub b: String }}"),
                format!(
                    "let v: m::{new} = m::{name} {{ a: x, b: x.to_string() }}; same(v.clone(), m::{new} {{ a: x, b: x.to_string() }})?;
    same(std::any::type_name::<m::{name}>().rsplit(\"::\").next(), Some(\"{new}\"))?;
    impl m::{name} {{ fn twice(&self) -> u64 {{ self.a as u64 * 2 }} }} same(v.twice(), x as u64 * 2)?;"
                ),
            )
        }
        4 => {
            labels.push("generic struct");
            (
                format!("#[derive(Clone, Copy, Debug, PartialEq)]\n{vis} struct {name}<T, const N: usize>(pub T, pub [T; N]);"),
                format!("let v: m::{new}<u32, 2> = m::{name}(x, [x, 1]); same(v, m::{new}(x, [x, 1]))?;"),
            )
        }
        _ => {
            labels.push("enum");
            (
                format!("#[derive(Clone, Debug, PartialEq)]\n{vis} enum {name} {{ A, B(u32), C {{ x: u32 }} }}"),
                format!(
                    "use m::{name} as E; let v: m::{new} = E::B(x); same(&v, &m::{new}::B(x))?; same(E::C {{ x }} == m::{new}::A, false)?;
    same(std::any::type_name::<E>().rsplit(\"::\").next(), Some(\"{new}\"))?;"
                ),
            )
        }
    };
    let item = if in_macro {
        labels.push("from a macro");
        format!("macro_rules! make {{ ($path:literal) => {{ {before}#[{attr}($path)]\n{after}{item} }} }}\nmake!({lit});")
    } else {
        format!("{before}#[{attr}({lit})]\n{after}{item}")
    };
    Program {
        module: format!(
            "#![allow(warnings)]
{SAME}pub mod m {{ use rsharp_macro::remangle;
{item}
}}
pub fn check() -> Result<(), String> {{
    for x in [0u32, 1, 77, u32::MAX] {{
    {check}
    }}
    Ok(())
}}\n"
        ),
        kind: false,
        check: true,
        seed: 0,
        reject: None,
        nontrivial: segs >= 2,
        labels,
    }
}

const SAME: &str = "fn same<T: PartialEq + std::fmt::Debug>(a: T, b: T) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!(\"{a:?} and should be {b:?}\")) }
}\n";

/// An expression of type i64 and its twin, with the substituted expression written out
fn expr(s: &mut Src, depth: usize, uses: &mut usize) -> String {
    if depth == 0 || s.chance(15) {
        return match s.weighted(&[5, 2, 1]) {
            0 => {
                *uses += 1;
                s.pick(&["substitute!()", "substitute! ()", "substitute ! ( )", "substitute![]", "rsharp_macro::substitute!()"]).to_string()
            }
            1 => format!("{}i64", s.draw(100)),
            _ => "x".into(),
        };
    }
    macro_rules! e { ($s:expr) => { expr($s, depth - 1, uses) } }
    match s.below(36) {
        0 => format!("({}).wrapping_add({})", e!(s), e!(s)),
        1 => format!("f({})", e!(s)),
        2 => format!("{{ let a = {}; a }}", e!(s)),
        3 => format!("if ({}) > {} {{ {} }} else {{ {} }}", e!(s), s.draw(9), e!(s), e!(s)),
        4 => format!("match {} {{ 0 => {}, n if n > ({}) => n, _ => {} }}", e!(s), e!(s), e!(s), e!(s)),
        5 => format!("[{}, {}][({} & 1) as usize]", e!(s), e!(s), e!(s)),
        6 => format!("(|y: i64| y.wrapping_sub({}))({})", e!(s), e!(s)),
        7 => format!("({}, {}).1", e!(s), e!(s)),
        8 => format!("(P {{ a: {}, ..P {{ a: 1, b: {} }} }}).b", e!(s), e!(s)),
        9 => format!("{{ let mut t = 0i64; for i in [{}, 2] {{ t = t.wrapping_add(i) }} t }}", e!(s)),
        10 => format!("*(&({}))", e!(s)),
        11 => format!("unsafe {{ {} }}", e!(s)),
        12 => format!("loop {{ break {} }}", e!(s)),
        13 => format!("(({}) as i32 as i64)", e!(s)),
        14 => format!("vec![3i64, 4][(({}) & 1) as usize]", e!(s)),
        16 => format!("({}.wrapping_sub(5))", atom(s, uses)),
        17 => format!("({} {} {})", atom(s, uses), s.pick(&["&", "|", "^"]), atom(s, uses)),
        18 => format!("({}{})", s.pick(&["!", "!!"]), atom(s, uses)),
        19 => format!("({} as i16 as i64)", atom(s, uses)),
        15 => format!("{{ const fn g() -> i64 {{ 5 }} g().wrapping_mul({}) }}", e!(s)),
        20 => format!("(move |y: i64, z: i64| -> i64 {{ y ^ z ^ ({}) }})({}, x)", e!(s), e!(s)),
        21 => format!("{{ let v = x; let c = move |a: i64, (b, d): (i64, i64)| a ^ b ^ d ^ v ^ ({}); c(1, (2, {})) }}", e!(s), e!(s)),
        22 => format!("{{ {}; 4i64 }}", atom(s, uses)),
        23 => format!("('a: {{ if ({}) & 1 == 0 {{ break 'a {} }} {} }})", e!(s), e!(s), e!(s)),
        24 => format!("{{ let mut n = 0i64; while n < (({}) & 3) {{ n += 1; }} n }}", e!(s)),
        25 => format!("Some({}).and_then(|q| -> Option<i64> {{ let r = Some({})?; Some(q ^ r) }}).unwrap_or({})", e!(s), e!(s), e!(s)),
        26 => format!("[{}; 3].iter().copied().fold({}, |a, b| a ^ b)", e!(s), e!(s)),
        27 => format!("((({}) & 7)..(({}) & 15)).sum::<i64>()", e!(s), e!(s)),
        28 => format!("{{ let mut t = [1i64, 2]; t[(({}) & 1) as usize] = {}; t[0] ^= {}; t[0] | t[1] }}", e!(s), e!(s), e!(s)),
        29 => format!("if let Some(q) = Some({}).filter(|q| *q > ({})) {{ q }} else if ({}) == 3 {{ 1 }} else {{ 2 }}", e!(s), e!(s), e!(s)),
        30 => format!("('b: {{ let Some(q) = Some({}).filter(|q| *q != 5) else {{ break 'b {} }}; q }})", e!(s), e!(s)),
        31 => format!("{{ mod inner {{ pub struct Q<const N: i64>; impl<const N: i64> Q<N> {{ pub const M: i64 = N; }} }} inner::Q::<{}>::M ^ ({}) }}", s.draw(9), e!(s)),
        32 => format!("match ({}, {}) {{ (1..=9, q) | (q, 1..=9) if q != ({}) => {{ q }} (a, ..) => a }}", e!(s), e!(s), e!(s)),
        33 => format!("{{ struct T3(i64, i64); let T3(a, b) = T3({}, {}); a ^ b }}", e!(s), e!(s)),
        34 => format!("std::convert::identity::<fn(i64) -> i64>(|y| y ^ 3)({})", e!(s)),
        _ => {
            let op = *s.pick(&["&", "|", "^"]);
            format!("({} {op} {})", e!(s), e!(s))
        }
    }
}

/// A use where an operator binds it to its neighbour
fn atom(s: &mut Src, uses: &mut usize) -> String {
    if s.chance(30) {
        return "x".into();
    }
    *uses += 1;
    "substitute!()".into()
}

fn substitute(s: &mut Src) -> Program {
    let value = match s.weighted(&[4, 3, 2, 2, 1, 1, 2, 2]) {
        0 => format!("{}i64", s.draw(1000)),
        1 => "K".to_string(),
        2 => format!("f({})", s.draw(50)),
        3 => format!("{{ let q = {}; q * 2i64 }}", s.draw(50)),
        4 => format!("self::f({}i64.wrapping_add(1))", s.draw(50)),
        5 => "<i64 as Default>::default()".into(),
        7 => "f(N.with(|n| { n.set(n.get() + 1); n.get() }))".into(),
        _ => format!("{}i64 + {}", s.draw(50), s.draw(50)),
    };
    let attr = *s.pick(&["rsharp_macro::substitute", "substitute", "::rsharp_macro::substitute"]);
    let mut labels = vec![];
    let mut uses = 0;
    let d = 1 + s.below(4);
    let body = expr(s, d, &mut uses);
    let twin = {
        let mut t = body.clone();
        for w in ["rsharp_macro::substitute!()", "substitute!()", "substitute! ()", "substitute ! ( )", "substitute![]"] {
            t = t.replace(w, &format!("({value})"));
        }
        t
    };
    let helpers = "std::thread_local! { pub static N: std::cell::Cell<i64> = std::cell::Cell::new(0); }
    pub const K: i64 = 1234; pub fn f(x: i64) -> i64 { x.wrapping_mul(7) }
    #[derive(Clone, Copy)] pub struct P { pub a: i64, pub b: i64 }\n";
    let shape = s.below(7);
    let wrap = |b: &str, attr: &str| -> String {
        match shape {
            0 => format!("{attr} pub fn run(x: i64) -> i64 {{ {b} }}"),
            1 => format!("{attr} pub mod inner {{ use super::{{f, K, N, P}}; pub fn run(x: i64) -> i64 {{ {b} }} }} pub use inner::run;"),
            2 => format!("pub struct W; {attr} impl W {{ pub fn run(x: i64) -> i64 {{ {b} }} }} pub fn run(x: i64) -> i64 {{ W::run(x) }}"),
            3 => format!("{attr} pub trait Tr {{ fn run(x: i64) -> i64 {{ {b} }} }} impl Tr for u8 {{}} pub fn run(x: i64) -> i64 {{ <u8 as Tr>::run(x) }}"),
            4 => format!("pub fn run(x: i64) -> i64 {{ {attr} fn within(x: i64) -> i64 {{ {b} }} within(x) }}"),
            5 => format!("{attr} pub mod a {{ pub mod b {{ use super::super::{{f, K, N, P}}; pub struct T(pub i64); impl From<i64> for T {{ fn from(x: i64) -> T {{ T({b}) }} }} }} }} pub fn run(x: i64) -> i64 {{ a::b::T::from(x).0 }}"),
            _ => format!("{attr} pub fn run(x: i64) -> i64 {{ let c = move || -> i64 {{ {b} }}; let r = c(); return r; }}"),
        }
    };
    labels.push(["in a function", "in a module", "in an impl", "in a trait", "on a local function", "in nested modules", "in a closure"][shape]);
    if uses == 0 {
        labels.push("nowhere to substitute");
    }
    let mut text = format!(
        "#![allow(warnings)]
{SAME}mod subst {{ use rsharp_macro::substitute;
    {helpers}{}
}}
mod twin {{
    {helpers}{}
}}\n",
        wrap(&body, &format!("#[{attr}({value})]")),
        wrap(&twin, "")
    );
    let mut checks = "        same(subst::run(x), twin::run(x))?; same(subst::N.with(|n| n.get()), twin::N.with(|n| n.get()))?;\n".to_string();
    // and in attributes
    if s.chance(50) {
        labels.push("in attributes");
        let call = *s.pick(&["substitute!()", "substitute! ()", "substitute ! ()"]);
        match s.below(7) {
            5 => {
                // wherever an attribute may be
                let no = format!("#[cfg(not({call}))]");
                let yes = format!("#[cfg({call})]");
                write!(text, "#[{attr}(debug_assertions)] mod at {{
    pub struct F {{ {yes} pub a: u8, {no} pub a: u64, pub b: u8 }}
    #[derive(Debug, PartialEq)] pub enum V {{ {no} X, {yes} Y, Z }}
    pub struct I; impl I {{ {yes} pub const C: u8 = 1; {no} pub const C: u8 = 2; {no} pub fn g() -> u8 {{ 3 }} {yes} pub fn g() -> u8 {{ 4 }} }}
    pub fn h({yes} a: u8, {no} a: u64, b: u8) -> u8 {{
        {yes} let c = a; {no} let c = 9u8;
        match b {{ {yes} 0 => c, {no} 0 => 77, _ => {{ {no} return 78; 5 }} }}
    }}
    {no} pub fn only() -> u8 {{ 6 }} {yes} pub fn only() -> u8 {{ 7 }}
    pub trait Tr {{ {yes} fn k(&self) -> u8 {{ 8 }} {no} fn k(&self) -> u16 {{ 9 }} }} impl Tr for I {{}}
}}\n").unwrap();
                checks += "        use at::Tr; let d = cfg!(debug_assertions); same(at::F { a: 1, b: 2 }.a as u8, 1)?; same(at::V::Z as u8, 1)?; same((at::I::C, at::I::g(), at::only()), if d { (1, 4, 7) } else { (2, 3, 6) })?; if d { same((at::h(11, 0), at::h(11, 1), at::I.k() as u8), (11, 5, 8))?; }\n";
            }
            6 => {
                // expressions that are part of a type or an item
                let n = 1 + s.below(40);
                write!(text, "#[{attr}({n})] mod at {{
    pub const C: usize = {call}; pub static S: [u8; {call}] = [5; {call}];
    pub fn a() -> [u16; {call}] {{ [C as u16; {call}] }}
    pub struct G<const N: usize>; impl<const N: usize> G<N> {{ pub const M: usize = N; }}
    pub fn g() -> usize {{ G::<{{ {call} }}>::M + G::<{{ 1 + {call} }}>::M }}
    pub enum E {{ A = {call}, B }}
    pub struct F {{ pub f: [u8; {call} * 2] }}
    pub trait Tr {{ const D: usize = {call} + 1; type T; }} impl Tr for u8 {{ type T = [u8; {call}]; }}
}}\n").unwrap();
                write!(checks, "        use at::Tr; same((at::C, at::S, at::a(), at::g()), ({n}, [5u8; {n}], [{n}u16; {n}], 2 * {n} + 1))?; same((at::E::A as usize, at::E::B as usize, std::mem::size_of::<at::F>()), ({n}, {n} + 1, 2 * {n}))?; same((<u8 as Tr>::D, std::mem::size_of::<<u8 as Tr>::T>()), ({n} + 1, {n}))?;\n").unwrap();
            }
            3 => {
                let (a, b) = s.pick(&[("any", "none"), ("all", "none"), ("any", "all")]);
                let k = 1 + s.below(3);
                let list = vec![call; k].join(", ");
                write!(
                    text,
                    "#[{attr}(debug_assertions)] mod at {{ #[cfg({a}({call}, not({call})))] pub const A: bool = true; #[cfg(not({a}({call}, not({call}))))] pub const A: bool = false;
    #[cfg(all({list}))] pub const B: bool = true; #[cfg(not(any({list})))] pub const B: bool = false; pub const C: &str = \"{b}\"; }}\n"
                )
                .unwrap();
                write!(checks, "        same((at::A, at::B), ({}, cfg!(debug_assertions)))?;\n", *a == "any").unwrap();
            }
            4 => {
                write!(text, "#[{attr}(PartialEq)] mod at {{ #[cfg_attr(all(), derive(Debug, {call}))] #[cfg_attr(any(), derive({call}, {call}))] pub struct D(pub u8); #[derive(Clone, Copy, {call}, Debug)] pub struct G<const N: usize>(pub [u8; N]); }}\n").unwrap();
                checks += "        same(at::D(x as u8), at::D(x as u8))?; same(at::G([x as u8; 2]) == at::G([x as u8; 2]), true)?;\n";
            }
            0 => {
                let more = *s.pick(&["", "PartialEq, ", "Clone, PartialEq, "]);
                write!(text, "#[{attr}(Default)] mod at {{ #[derive({more}{call})] pub struct D {{ pub a: u8, pub b: String }} }}\n").unwrap();
                checks += "        let d = at::D::default(); same((d.a, d.b.clone()), (0, String::new()))?;\n";
            }
            1 => {
                write!(
                    text,
                    "#[{attr}(\"verif::@CASE@\")] mod at {{ use rsharp_macro::*; #[remangle({call})] #[derive(Debug, PartialEq)] pub struct D(pub i64); #[remangle({call})] pub fn d(x: i64) -> D {{ D(x) }} pub fn s() -> &'static str {{ substitute!() }} }}\n"
                )
                .unwrap();
                checks += "        same(at::verif__@CASE@__d(x), at::verif__@CASE@__D(x))?; same(at::d(x), at::D(x))?; same(at::s(), \"verif::@CASE@\")?;\n";
            }
            _ => {
                write!(text, "#[{attr}(u8)] mod at {{ #[repr({call})] #[derive(Clone, Copy)] pub enum R {{ A = 200, B }} #[repr({call})] pub enum Q {{ A = 3 }} }}\n").unwrap();
                checks += "        same((std::mem::size_of::<at::R>(), at::R::B as u8, std::mem::size_of::<at::Q>()), (1, 201, 1))?;\n";
            }
        }
    }
    text += &format!("pub fn check() -> Result<(), String> {{\n    for x in [0i64, 1, -5, 77, i64::MAX, i64::MIN] {{\n{checks}    }}\n    Ok(())\n}}\n");
    if attr.starts_with("::") || attr.starts_with("rsharp") {
        // nothing is imported where the path is given
        text = text.replace("mod at {", "mod at {");
    } else {
        text = text.replacen("mod twin", "use rsharp_macro::substitute;\nmod twin", 1);
    }
    Program { module: text, kind: false, check: true, seed: 0, reject: None, nontrivial: uses >= 2, labels }
}

fn reject(s: &mut Src) -> (&'static str, String) {
    let p = "rsharp_macro::";
    let item = *s.pick(&["pub fn f() {}", "pub struct S;", "pub enum E { A }"]);
    let (what, text) = match s.below(5) {
        0 => {
            let bad = *s.pick(&[
                "pub const C: u8 = 1;",
                "pub static C: u8 = 1;",
                "pub trait T {}",
                "pub mod m {}",
                "pub type T = u8;",
                "pub union U { a: u8 }",
                "pub use std::vec::Vec as V;",
                "extern \"C\" {}",
            ]);
            ("remangling what has no support", format!("#[{p}remangle(\"a::b\")]\n{bad}"))
        }
        1 => ("remangling without a path", format!("#[{p}remangle]\n{item}")),
        2 => ("remangling by what is no string", format!("#[{p}remangle({})]\n{item}", ["a::b", "1", "'a'", "\"a\", \"b\"", "b\"a\""][s.below(5)])),
        3 => ("substituting nothing", format!("#[{p}substitute{}]\n{item}", ["", "()"][s.below(2)])),
        _ => ("substituting what is no expression", format!("#[{p}substitute({})]\n{item}", ["let", "1, 2", "pub fn x() {}", "1 +", "struct"][s.below(5)])),
    };
    (what, format!("#![allow(warnings)]\n{text}\n"))
}
