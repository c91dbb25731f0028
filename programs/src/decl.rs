//! P08: declarations of contracts.
use crate::driver::*;
use harness::pbt::*;
use std::fmt::Write;

pub const FAMILY: Family = Family {
    id: "P08",
    rule: "the contract has at least three fields, and its module, visibilities, names or types are written in an unusual way",
    quick: 320,
    thorough: 6000,
    gen,
};

const PRIM: [&str; 14] = [
    "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "f32", "f64", "String", "ObjectHandle", "ContractDataHandle",
];
/// By a path that nothing around it can change
fn full(k: usize) -> String {
    let p = match PRIM[k % 14] {
        "String" => "::std::string::String".to_string(),
        "ObjectHandle" => "::tp_client::object::ObjectHandle".into(),
        "ContractDataHandle" => "::tp_client::contract::ContractDataHandle".into(),
        p => p.to_string(),
    };
    if k < 14 {
        p
    } else {
        format!("::std::vec::Vec<{p}>")
    }
}

struct G {
    /// items beside the structs
    items: Vec<String>,
    labels: Vec<&'static str>,
    /// the prelude is shadowed
    shadowed: bool,
    aliases: usize,
    unusual: bool,
}

/// A way to write a type
fn ty(s: &mut Src, g: &mut G, k: usize) -> String {
    let short = match PRIM[k % 14] {
        "ObjectHandle" | "ContractDataHandle" => full(k % 14),
        p => p.to_string(),
    };
    let short = if k < 14 { short } else { format!("Vec<{short}>") };
    let short = if g.shadowed { full(k) } else { short };
    match s.weighted(&[8, 3, 2, 1, 1, 1]) {
        0 => short,
        1 => full(k),
        2 => {
            g.labels.push("type alias");
            g.unusual = true;
            g.aliases += 1;
            g.items.push(format!("type Alias{} = {};", g.aliases, full(k)));
            format!("Alias{}", g.aliases)
        }
        3 => {
            g.unusual = true;
            format!("({short})")
        }
        4 => {
            g.labels.push("associated type");
            g.unusual = true;
            g.aliases += 1;
            let n = g.aliases;
            g.items.push(format!("pub struct Has{n}; pub trait Ty{n} {{ type T; }} impl Ty{n} for Has{n} {{ type T = {}; }}", full(k)));
            format!("<Has{n} as Ty{n}>::T")
        }
        _ => {
            g.labels.push("macro type");
            g.unusual = true;
            g.aliases += 1;
            let n = g.aliases;
            // before its use, as the text order of macros matters
            g.items.push(format!("macro_rules! ty{n} {{ () => {{ {} }} }}", full(k)));
            format!("ty{n}!()")
        }
    }
}

const NAMES: [&str; 46] = [
    "id", "i", "s", "c", "handle", "contract", "states", "channels", "state", "channel", "index", "idx", "value", "x", "std", "vec", "core",
    "u8", "string", "str", "len", "clone", "drop", "fmt", "eq", "hash", "default", "from", "into", "union", "auto", "get", "name", "names",
    "types", "type_id", "enumerate_type", "field_name", "TYPE_IDS", "PROP_TYPES", "FIELD_NAMES", "lazy_static", "tp_client", "_a", "__b", "größe",
];
const RAW: [&str; 6] = ["type", "fn", "struct", "match", "self_", "dyn"];

fn name(s: &mut Src, g: &mut G, taken: &[String]) -> String {
    let n = match s.weighted(&[6, 5, 1, 1, 2]) {
        0 => format!("f{}", taken.len()),
        1 => {
            g.unusual = true;
            s.pick(&NAMES).to_string()
        }
        2 => {
            g.labels.push("raw identifier");
            g.unusual = true;
            format!("r#{}", s.pick(&RAW))
        }
        3 => {
            g.unusual = true;
            format!("{}{}", ["a", "X", "_"][s.below(3)], "y_".repeat(1 + s.below(60)))
        }
        _ => {
            let n: String = (0..1 + s.below(3)).map(|_| (b'a' + s.draw(25) as u8) as char).collect();
            if ["as", "do", "fn", "if", "in", "box", "dyn", "for", "let", "mod", "mut", "new", "pub", "ref", "try", "use"].contains(&n.as_str()) {
                format!("{n}_")
            } else {
                n
            }
        }
    };
    if taken.contains(&n) {
        // names that only differ in their ends
        format!("{n}_{}", taken.len())
    } else {
        n
    }
}

struct Field {
    name: String,
    key: usize,
    ty: String,
    vis: String,
    attrs: String,
}

fn fields(s: &mut Src, g: &mut G, viss: &[&str]) -> Vec<Field> {
    let (mean, n) = match s.weighted(&[8, 4, 1]) {
        0 => (4, 12),
        1 => (15, 40),
        _ => {
            g.labels.push("many fields");
            (1 << 40, 60 + s.below(240))
        }
    };
    let few = n > 40;
    // a few types again and again, or all of them
    let pool: Vec<usize> = (0..1 + s.below(6)).map(|_| s.below(28)).collect();
    let mut taken: Vec<String> = vec![];
    let mut v = vec![];
    for i in 0..n {
        let f = s.span(|s| {
            if s.draw(mean) == 0 {
                return None;
            }
            let key = if few || s.chance(50) { *s.pick(&pool) } else { s.below(28) };
            let nm = if few && i % 16 != 0 { format!("f{i}") } else { name(s, g, &taken) };
            taken.push(nm.clone());
            let attrs = match s.weighted(&[12, 1, 1, 1]) {
                0 => "",
                1 => "/// A field.\n        ",
                2 => "#[allow(unused)] ",
                _ => "#[doc(hidden)] #[doc = \"x\"] ",
            };
            if !attrs.is_empty() {
                g.unusual = true;
                g.labels.push("field attribute");
            }
            let vis = s.pick(viss).to_string();
            let ty = if few { full(key) } else { ty(s, g, key) };
            Some(Field { name: nm, key, ty, vis, attrs: attrs.into() })
        });
        match f {
            Some(f) => v.push(f),
            None => break,
        }
    }
    v
}

fn strukt(s: &mut Src, g: &mut G, attr: &str, vis: &str, name: &str, fs: &[Field]) -> String {
    let mut t = String::new();
    let before = *s.pick(&["", "", "/// Documentation.\n", "#[allow(dead_code)]\n", "#[doc(hidden)]\n"]);
    let after = *s.pick(&["", "", "", "#[derive(Clone)]\n", "#[derive(Debug, Clone, Copy)]\n", "#[derive(PartialEq)]\n#[allow(unused)]\n", "#[repr(C)]\n"]);
    if !before.is_empty() || !after.is_empty() {
        g.unusual = true;
        g.labels.push("struct attribute");
    }
    let path = match s.weighted(&[5, 2, 2, 2]) {
        0 => attr.to_string(),
        1 => format!("tp_client::contract::{attr}"),
        2 => format!("::tp_client::contract::{attr}"),
        _ => format!("::tp_contract_macro::{attr}"),
    };
    write!(t, "{before}#[{path}]\n{after}{vis} struct {name} {{").unwrap();
    let multi = s.bool();
    for (i, f) in fs.iter().enumerate() {
        let last = i + 1 == fs.len();
        let comma = if last && s.bool() { "" } else { "," };
        write!(t, "{}{}{} {}: {}{comma}", if multi { "\n        " } else { " " }, f.attrs, f.vis, f.name, f.ty).unwrap();
    }
    t.push_str(" }\n");
    t
}

const SHADOWS: [(&str, bool); 14] = [
    ("struct TypeId;", false),
    ("struct StateId<T>(T); struct ChannelId;", false),
    ("trait IStates {} trait IChannels {}", false),
    ("enum TpPropertyType { A }", false),
    ("struct ContractDataHandle;", false),
    ("fn new() {}", false),
    ("struct Vec; struct String;", true),
    ("macro_rules! vec { ($($x:tt)*) => { compile_error!(\"shadowed vec\") } }", true),
    ("macro_rules! stringify { ($($x:tt)*) => { \"shadowed\" } }", false),
    ("mod std { }", true),
    ("mod core { }", false),
    ("macro_rules! lazy_static { ($($x:tt)*) => { compile_error!(\"shadowed lazy_static\") } }", false),
    ("mod any { } mod contract { }", false),
    ("enum Opt { Some, None } use Opt::*;", false),
];

fn gen(s: &mut Src) -> Program {
    let mut g = G { items: vec![], labels: vec![], shadowed: false, aliases: 0, unusual: false };
    let place = s.weighted(&[4, 3, 2]);
    let viss: &[&str] = match place {
        0 => &["", "", "pub", "pub(crate)", "pub(self)", "pub(super)"],
        1 => &["", "", "pub", "pub(crate)", "pub(super)", "pub(in super::super)"],
        _ => &["", "", "pub", "pub(crate)"],
    };
    let mut shadows = vec![];
    if s.chance(40) {
        g.labels.push("shadowed names");
        g.unusual = true;
        for _ in 0..1 + s.below(3) {
            let (text, prelude) = *s.pick(&SHADOWS);
            if !shadows.contains(&text) {
                shadows.push(text);
                g.shadowed |= prelude;
            }
        }
    }
    let no_states = s.chance(8);
    let no_chans = s.chance(12);
    let mut fs = s.span(|s| fields(s, &mut g, viss));
    let mut gs = s.span(|s| fields(s, &mut g, viss));
    if no_states {
        fs.clear()
    }
    if no_chans {
        gs.clear()
    }
    let names: [&str; 2] = *s.pick(&[["S", "Ch"], ["MyStates", "MyChannels"], ["A", "B"], ["Self_", "Static"], ["Data", "Handle"], ["s", "c"], ["Contract_", "Property"], ["States", "Channels"]]);
    let vis = *s.pick(&["pub", "", "pub(crate)"]);
    let st = if no_states { String::new() } else { strukt(s, &mut g, "states", vis, names[0], &fs) };
    let ch = if no_chans { String::new() } else { strukt(s, &mut g, "channels", vis, names[1], &gs) };
    let (sn, cn) = (if no_states { "()" } else { names[0] }, if no_chans { "()" } else { names[1] });
    let new = |n: &str| if n == "()" { "()".to_string() } else { format!("{n}::new(handle)") };
    let version = (s.draw(65535), s.draw(2), s.draw(65535));
    let swapped = s.bool();
    let contract = format!(
        "{vis} struct Con {{ handle: ::tp_client::contract::ContractDataHandle, st: {sn}, ch: {cn} }}
impl ::tp_client::contract::Contract for Con {{
    type States = {sn};
    type Channels = {cn};
    const ID: ::tp_client::contract::ContractId = ::tp_client::contract::ContractId {{ name: \"gen.@CASE@\", version: {version:?} }};
    fn new(handle: ::tp_client::contract::ContractDataHandle) -> Self {{ Con {{ handle, st: {}, ch: {} }} }}
    fn states(&self) -> &{sn} {{ &self.st }}
    fn channels(&self) -> &{cn} {{ &self.ch }}
    fn handle(&self) -> ::tp_client::contract::ContractDataHandle {{ self.handle }}
}}\n",
        new(sn),
        new(cn)
    );
    // by path: a method call could find a method of the prelude first
    let ids = |fs: &[Field], f: &str, ty: &str, side: &str| -> String {
        fs.iter().map(|x| format!("::harness::contracts::{f}(&{ty}::{}(&self.{side}))", x.name)).collect::<Vec<_>>().join(", ")
    };
    let bare = |n: &str| n.strip_prefix("r#").unwrap_or(n).to_string();
    let decls = |fs: &[Field]| fs.iter().map(|f| format!("({:?}, {})", bare(&f.name), f.key)).collect::<Vec<_>>().join(", ");
    let tids = |fs: &[Field]| fs.iter().map(|f| format!("::std::any::TypeId::of::<{}>()", full(f.key))).collect::<Vec<_>>().join(", ");
    let face = format!(
        "impl ::harness::contracts::Fields for Con {{
    const KIND: usize = 0;
    fn field_states(&self) -> ::std::vec::Vec<::harness::contracts::Fid> {{ ::std::vec![{}] }}
    fn field_chans(&self) -> ::std::vec::Vec<::harness::contracts::Fid> {{ ::std::vec![{}] }}
}}\n",
        ids(&fs, "sid", sn, "st"),
        ids(&gs, "cid", cn, "ch")
    );
    let kind = format!(
        "::harness::contracts::kind_of::<Con>(::std::vec![{}], ::std::vec![{}], ::std::vec![{}], ::std::vec![{}])",
        decls(&fs),
        decls(&gs),
        tids(&fs),
        tids(&gs)
    );
    // macros first, as they are seen from where they stand on
    let (mut first, rest): (Vec<String>, Vec<String>) =
        g.items.iter().cloned().chain(shadows.iter().map(|x| x.to_string())).partition(|i| i.starts_with("macro_rules"));
    first.extend(rest);
    let import = "use ::tp_client::contract::{channels, states};";
    let body = format!(
        "{import}\n{}\n{}{}{contract}{face}",
        first.join("\n"),
        if swapped { &ch } else { &st },
        if swapped { &st } else { &ch }
    );
    g.labels.push(["in a module", "in nested modules", "in a function"][place]);
    g.unusual |= place > 0;
    let allow = "#![allow(warnings)]\n";
    let module = match place {
        0 => format!("{allow}{body}pub fn kind() -> ::harness::contracts::Kind {{ {kind} }}\n"),
        1 => format!(
            "{allow}mod outer {{\n    pub mod inner {{\n{body}pub fn kind() -> ::harness::contracts::Kind {{ {kind} }}\n    }}\n}}\npub use outer::inner::kind;\n"
        ),
        _ => format!("{allow}pub fn kind() -> ::harness::contracts::Kind {{\n{body}{kind}\n}}\n"),
    };
    let total = fs.len() + gs.len();
    for f in fs.iter().chain(&gs) {
        if f.key >= 14 {
            g.labels.push("list field");
        }
    }
    if no_states || no_chans {
        g.labels.push("one side without struct");
    }
    let reject = if s.chance(40) { Some(reject(s)) } else { None };
    Program {
        module,
        kind: true,
        check: false,
        seed: s.draw(u64::MAX >> 1),
        reject,
        nontrivial: total >= 3 && g.unusual,
        labels: g.labels,
    }
}

/// A declaration that cannot become a contract, but would be Rust without the attribute
fn reject(s: &mut Src) -> (&'static str, String) {
    let attr = *s.pick(&["states", "channels"]);
    let path = *s.pick(&["tp_client::contract", "tp_contract_macro"]);
    let mut fields: Vec<String> = (0..s.below(4)).map(|i| format!("pub f{i}: {}", full(s.below(28)))).collect();
    let vis = *s.pick(&["pub ", "", "pub(crate) "]);
    let (what, item) = match s.below(6) {
        0 => ("an enum", format!("{vis}enum T {{ {} }}", ["", "A", "A, B", "A { x: u8 }", "A(u8), B", "A = 1, B = 2"][s.below(6)])),
        1 => ("a union", format!("{vis}union T {{ pub a: u8, b: {} }}", ["u8", "f32", "u64"][s.below(3)])),
        2 => ("a tuple struct", format!("{vis}struct T({});", ["", "u8", "pub f32, u8", "Vec<u8>, pub String"][s.below(4)])),
        3 => ("a unit struct", format!("{vis}struct T;")),
        4 => {
            let n = *s.pick(&["type_ids", "enumerate_types", "field_names"]);
            let at = s.below(fields.len() + 1);
            fields.insert(at, format!("{n}: {}", full(s.below(28))));
            ("a reserved field name", format!("{vis}struct T {{ {} }}", fields.join(", ")))
        }
        _ => {
            let t = *s.pick(&["char", "u128", "i128", "usize", "isize", "Option<u8>", "[u8; 4]", "()", "&'static str", "Vec<Vec<u8>>", "Box<u8>", "(u8, u8)", "Vec<char>", "std::collections::HashMap<u8, u8>"]);
            let at = s.below(fields.len() + 1);
            fields.insert(at, format!("g: {t}"));
            ("a field that is no property", format!("{vis}struct T {{ {} }}", fields.join(", ")))
        }
    };
    (what, format!("#![allow(warnings)]\n#[{path}::{attr}]\n{item}\n"))
}
