//! Stand-in for flatc-rust together with flatc 23.1.21: compiles the schemas of the serializer
//! (tables, enums, unions and namespaces) to Rust, in the shape flatc gives it.
use std::collections::BTreeMap;
use std::fmt::Write;
use std::io;
use std::path::{Path, PathBuf};

pub type Result<T> = io::Result<T>;

pub struct Flatc(());
pub struct Version(());

impl Flatc {
    pub fn from_env_path() -> Flatc {
        Flatc(())
    }
    pub fn check(&self) -> Result<()> {
        Ok(())
    }
    pub fn version(&self) -> Result<Version> {
        Ok(Version(()))
    }
    pub fn run(&self, args: Args) -> Result<()> {
        let mut s = Schema::default();
        for i in args.inputs {
            s.load(i, args.includes)?;
        }
        std::fs::create_dir_all(args.out_dir)?;
        std::fs::write(args.out_dir.join("mod.rs"), s.emit())
    }
}
impl Version {
    pub fn version(&self) -> &str {
        "23.1.21"
    }
}

pub struct Args<'a> {
    pub lang: &'a str,
    pub inputs: &'a [&'a Path],
    pub out_dir: &'a Path,
    pub includes: &'a [&'a Path],
    pub binary: bool,
    pub schema: bool,
    pub json: bool,
    pub extra: &'a [&'a str],
}
impl<'a> Default for Args<'a> {
    fn default() -> Self {
        Args { lang: "rust", inputs: &[], out_dir: Path::new("."), includes: &[], binary: false, schema: false, json: false, extra: &[] }
    }
}

fn bad<T>(m: impl std::fmt::Display) -> Result<T> {
    Err(io::Error::new(io::ErrorKind::Other, m.to_string()))
}

#[derive(Default)]
struct Schema {
    seen: Vec<PathBuf>,
    items: Vec<(Vec<String>, String, Item)>,
}

enum Item {
    Table(Vec<Field>),
    Enum { repr: String, values: Vec<(String, i128)> },
    Union(Vec<String>),
}

struct Field {
    name: String,
    ty: Ty,
    default: Option<String>,
    required: bool,
}

enum Ty {
    Named(String),
    Vector(String),
}

fn tokens(text: &str) -> Result<Vec<String>> {
    let mut v = vec![];
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let word = |x: char| x.is_alphanumeric() || x == '_' || x == '.' || x == '-' || x == '+';
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i..].starts_with(&['/', '/']) {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i..].starts_with(&['/', '*']) {
            while i < c.len() && !c[i..].starts_with(&['*', '/']) {
                i += 1;
            }
            i += 2;
        } else if c[i] == '"' {
            let s = i;
            i += 1;
            while i < c.len() && c[i] != '"' {
                i += 1;
            }
            i += 1;
            v.push(c[s..i.min(c.len())].iter().collect());
        } else if word(c[i]) {
            let s = i;
            while i < c.len() && word(c[i]) {
                i += 1;
            }
            v.push(c[s..i].iter().collect());
        } else {
            v.push(c[i].to_string());
            i += 1;
        }
    }
    Ok(v)
}

struct P(Vec<String>, usize);
impl P {
    fn peek(&self) -> &str {
        self.0.get(self.1).map_or("", |s| s)
    }
    fn next(&mut self) -> String {
        let s = self.peek().to_string();
        self.1 += 1;
        s
    }
    fn eat(&mut self, t: &str) -> bool {
        let y = self.peek() == t;
        self.1 += y as usize;
        y
    }
    fn expect(&mut self, t: &str) -> Result<()> {
        match self.eat(t) {
            true => Ok(()),
            false => bad(format!("expected {t}, found {}", self.peek())),
        }
    }
    /// `(required, id: 3)`
    fn attributes(&mut self) -> Result<Vec<String>> {
        let mut v = vec![];
        if self.eat("(") {
            while !self.eat(")") {
                if self.peek().is_empty() {
                    return bad("unclosed attributes");
                }
                v.push(self.next());
            }
        }
        Ok(v)
    }
}

impl Schema {
    fn load(&mut self, path: &Path, includes: &[&Path]) -> Result<()> {
        let found = std::iter::once(path.to_path_buf()).chain(includes.iter().map(|i| i.join(path))).find(|p| p.exists());
        let path = match found {
            Some(p) => p.canonicalize()?,
            None => return bad(format!("no such schema: {}", path.display())),
        };
        if self.seen.contains(&path) {
            return Ok(());
        }
        println!("cargo:rerun-if-changed={}", path.display());
        println!("cargo:rerun-if-changed={}", path.parent().unwrap().display());
        self.seen.push(path.clone());
        let mut p = P(tokens(&std::fs::read_to_string(&path)?)?, 0);
        let mut ns: Vec<String> = vec![];
        loop {
            match p.next().as_str() {
                "" => return Ok(()),
                "include" => {
                    let f = p.next();
                    p.expect(";")?;
                    self.load(&path.parent().unwrap().join(f.trim_matches('"')), includes)?;
                }
                "namespace" => {
                    let n = p.next();
                    if n == ";" {
                        ns = vec![];
                        continue;
                    }
                    p.expect(";")?;
                    ns = n.split('.').map(|s| s.to_string()).collect();
                }
                "table" => {
                    let name = p.next();
                    p.attributes()?;
                    p.expect("{")?;
                    let mut fields = vec![];
                    while !p.eat("}") {
                        let name = p.next();
                        p.expect(":")?;
                        let ty = if p.eat("[") {
                            let t = p.next();
                            p.expect("]")?;
                            Ty::Vector(t)
                        } else {
                            Ty::Named(p.next())
                        };
                        let default = if p.eat("=") { Some(p.next()) } else { None };
                        let a = p.attributes()?;
                        p.expect(";")?;
                        fields.push(Field { name, ty, default, required: a.iter().any(|a| a == "required") });
                    }
                    self.items.push((ns.clone(), name, Item::Table(fields)));
                }
                "enum" => {
                    let name = p.next();
                    p.expect(":")?;
                    let repr = p.next();
                    p.attributes()?;
                    p.expect("{")?;
                    let mut values = vec![];
                    let mut at: i128 = 0;
                    while !p.eat("}") {
                        let n = p.next();
                        if p.eat("=") {
                            at = match p.next().parse() {
                                Ok(v) => v,
                                Err(e) => return bad(e),
                            };
                        }
                        values.push((n, at));
                        at += 1;
                        p.eat(",");
                    }
                    self.items.push((ns.clone(), name, Item::Enum { repr, values }));
                }
                "union" => {
                    let name = p.next();
                    p.attributes()?;
                    p.expect("{")?;
                    let mut v = vec![];
                    while !p.eat("}") {
                        v.push(p.next());
                        p.eat(",");
                    }
                    self.items.push((ns.clone(), name, Item::Union(v)));
                }
                "root_type" | "file_identifier" | "file_extension" | "attribute" => {
                    p.next();
                    p.expect(";")?;
                }
                other => return bad(format!("not supported in {}: {other}", path.display())),
            }
        }
    }

    /// The item a name means in a namespace
    fn find(&self, ns: &[String], name: &str) -> Option<usize> {
        let parts: Vec<&str> = name.split('.').collect();
        for n in (0..=ns.len()).rev() {
            let mut full: Vec<&str> = ns[..n].iter().map(|s| s.as_str()).collect();
            full.extend(&parts);
            if let Some(i) = self.items.iter().position(|(ns, n, _)| full.len() == ns.len() + 1 && full.last() == Some(&n.as_str()) && ns.iter().zip(&full).all(|(a, b)| a == b)) {
                return Some(i);
            }
        }
        None
    }

    fn path(&self, i: usize) -> String {
        let (ns, n, _) = &self.items[i];
        format!("super::{}{}", ns.iter().map(|s| format!("{s}::")).collect::<String>(), n)
    }

    fn emit(&self) -> String {
        let mut modules: BTreeMap<Vec<String>, String> = BTreeMap::new();
        for (ns, name, item) in &self.items {
            for n in 1..=ns.len() {
                modules.entry(ns[..n].to_vec()).or_default();
            }
            let out = modules.entry(ns.clone()).or_default();
            // a path from the module of the item to the root of what is generated
            let up = "super::".repeat(ns.len());
            match item {
                Item::Table(f) => self.table(ns, &up, name, f, out),
                Item::Enum { repr, values } => enumeration(scalar(repr).expect("repr"), name, values, out),
                Item::Union(v) => {
                    let mut values = vec![("NONE".to_string(), 0)];
                    values.extend(v.iter().enumerate().map(|(i, n)| (n.replace('.', "_"), i as i128 + 1)));
                    enumeration("u8", name, &values, out);
                }
            }
        }
        let mut s = String::new();
        nest(&modules, &[], &mut s);
        s
    }

    fn table(&self, ns: &[String], up: &str, name: &str, fields: &[Field], out: &mut String) {
        let fb = "::flatbuffers";
        // name, kind, slot
        enum K {
            Scalar(String, String),
            Offset(String),
            Key(String),
            Union(usize, String),
        }
        let mut slots: Vec<(String, K, bool)> = vec![];
        let local = |i: usize| self.path(i).replacen("super::", up, 1);
        for f in fields {
            match &f.ty {
                Ty::Named(t) if t == "string" => slots.push((f.name.clone(), K::Offset("&'a str".into()), f.required)),
                Ty::Named(t) => match scalar(t) {
                    Some(r) => {
                        let d = f.default.clone().unwrap_or_else(|| match r {
                            "bool" => "false".into(),
                            "f32" | "f64" => "0.0".into(),
                            _ => "0".into(),
                        });
                        slots.push((f.name.clone(), K::Scalar(r.into(), d), false));
                    }
                    None => {
                        let i = self.find(ns, t).unwrap_or_else(|| panic!("no such type: {t}"));
                        match &self.items[i].2 {
                            Item::Table(_) => slots.push((f.name.clone(), K::Offset(format!("{}<'a>", local(i))), f.required)),
                            Item::Enum { values, .. } => {
                                let d = f.default.clone().unwrap_or_else(|| values[0].0.clone());
                                slots.push((f.name.clone(), K::Scalar(local(i), format!("{}::{}", local(i), d)), false));
                            }
                            Item::Union(_) => {
                                slots.push((format!("{}_type", f.name), K::Key(local(i)), f.required));
                                slots.push((f.name.clone(), K::Union(i, format!("{}_type", f.name)), f.required));
                            }
                        }
                    }
                },
                Ty::Vector(t) => {
                    let e = if t == "string" {
                        format!("{fb}::ForwardsUOffset<&'a str>")
                    } else if let Some(r) = scalar(t) {
                        r.to_string()
                    } else {
                        let i = self.find(ns, t).unwrap_or_else(|| panic!("no such type: {t}"));
                        match &self.items[i].2 {
                            Item::Table(_) => format!("{fb}::ForwardsUOffset<{}<'a>>", local(i)),
                            Item::Enum { .. } => local(i),
                            Item::Union(_) => panic!("vectors of unions are not supported"),
                        }
                    };
                    slots.push((f.name.clone(), K::Offset(format!("{fb}::Vector<'a, {e}>")), f.required));
                }
            }
        }
        let lifetime = slots.iter().any(|s| matches!(s.1, K::Offset(_)));
        let (l, la) = if lifetime { ("<'a>", "<'args>") } else { ("", "") };
        let w = out;
        macro_rules! p { ($($t:tt)*) => { writeln!(w, $($t)*).unwrap() } }
        p!("pub enum {name}Offset {{}}");
        p!("#[derive(Copy, Clone, PartialEq)]\npub struct {name}<'a> {{ pub _tab: {fb}::Table<'a> }}");
        p!("impl<'a> {fb}::Follow<'a> for {name}<'a> {{ type Inner = {name}<'a>; unsafe fn follow(buf: &'a [u8], loc: usize) -> Self::Inner {{ Self {{ _tab: {fb}::Table::new(buf, loc) }} }} }}");
        p!("impl<'a> {name}<'a> {{");
        for (i, (n, _, _)) in slots.iter().enumerate() {
            p!("pub const VT_{}: {fb}::VOffsetT = {};", n.to_uppercase(), 4 + 2 * i);
        }
        let full: String = ns.iter().map(|s| format!("{s}.")).collect();
        p!("pub const fn get_fully_qualified_name() -> &'static str {{ \"{full}{name}\" }}");
        p!("pub unsafe fn init_from_table(table: {fb}::Table<'a>) -> Self {{ {name} {{ _tab: table }} }}");
        p!("#[allow(unused_mut, unused_variables)]\npub fn create<'bldr: 'args, 'args: 'mut_bldr, 'mut_bldr>(_fbb: &'mut_bldr mut {fb}::FlatBufferBuilder<'bldr>, args: &'args {name}Args{la}) -> {fb}::WIPOffset<{name}<'bldr>> {{");
        p!("let mut builder = {name}Builder::new(_fbb);");
        // flatc writes the largest first, and of the same size the last first
        let size = |k: &K| match k {
            K::Offset(_) | K::Union(..) => 4,
            K::Key(_) => 1,
            K::Scalar(t, _) => match t.as_str() {
                "u64" | "i64" | "f64" => 8,
                "u32" | "i32" | "f32" => 4,
                "u16" | "i16" => 2,
                _ => 1,
            },
        };
        for want in [8, 4, 2, 1] {
            for (n, k, _) in slots.iter().rev().filter(|s| size(&s.1) == want) {
                match k {
                    K::Offset(_) | K::Union(..) => p!("if let Some(x) = args.{n} {{ builder.add_{n}(x); }}"),
                    _ => p!("builder.add_{n}(args.{n});"),
                }
            }
        }
        p!("builder.finish()\n}}");
        for (n, k, required) in &slots {
            let vt = format!("{name}::VT_{}", n.to_uppercase());
            match k {
                K::Scalar(t, d) => p!("pub fn {n}(&self) -> {t} {{ unsafe {{ self._tab.get::<{t}>({vt}, Some({d})).unwrap() }} }}"),
                K::Key(t) => p!("pub fn {n}(&self) -> {t} {{ unsafe {{ self._tab.get::<{t}>({vt}, Some({t}::NONE)).unwrap() }} }}"),
                K::Offset(t) if *required => p!("pub fn {n}(&self) -> {t} {{ unsafe {{ self._tab.get::<{fb}::ForwardsUOffset<{t}>>({vt}, None).unwrap() }} }}"),
                K::Offset(t) => p!("pub fn {n}(&self) -> Option<{t}> {{ unsafe {{ self._tab.get::<{fb}::ForwardsUOffset<{t}>>({vt}, None) }} }}"),
                K::Union(i, key) => {
                    p!("pub fn {n}(&self) -> Option<{fb}::Table<'a>> {{ unsafe {{ self._tab.get::<{fb}::ForwardsUOffset<{fb}::Table<'a>>>({vt}, None) }} }}");
                    let u = local(*i);
                    for m in self.members(*i) {
                        let t = local(m.2);
                        p!("#[allow(non_snake_case)]\npub fn {n}_as_{}(&self) -> Option<{t}<'a>> {{ if self.{key}() == {u}::{} {{ self.{n}().map(|t| unsafe {{ {t}::init_from_table(t) }}) }} else {{ None }} }}", m.1, m.0);
                    }
                }
            }
        }
        p!("}}");
        // the verifier
        p!("impl {fb}::Verifiable for {name}<'_> {{ fn run_verifier(v: &mut {fb}::Verifier, pos: usize) -> Result<(), {fb}::InvalidFlatbuffer> {{ v.visit_table(pos)?");
        for (n, k, required) in &slots {
            let un = n.to_uppercase();
            match k {
                K::Scalar(t, _) => p!(".visit_field::<{t}>(\"{n}\", Self::VT_{un}, false)?"),
                K::Offset(t) => p!(".visit_field::<{fb}::ForwardsUOffset<{}>>(\"{n}\", Self::VT_{un}, {required})?", t.replace("'a", "'_")),
                K::Key(_) => (),
                K::Union(i, key) => {
                    let u = local(*i);
                    p!(".visit_union::<{u}, _>(\"{key}\", Self::VT_{}, \"{n}\", Self::VT_{un}, {required}, |key, v, pos| match key {{", key.to_uppercase());
                    for m in self.members(*i) {
                        p!("{u}::{0} => v.verify_union_variant::<{fb}::ForwardsUOffset<{1}>>(\"{u}::{0}\", pos),", m.0, local(m.2));
                    }
                    p!("_ => Ok(()) }})?");
                }
            }
        }
        p!(".finish(); Ok(()) }} }}");
        // the arguments
        p!("pub struct {name}Args{l} {{");
        for (n, k, _) in &slots {
            match k {
                K::Scalar(t, _) | K::Key(t) => p!("pub {n}: {t},"),
                K::Offset(t) => p!("pub {n}: Option<{fb}::WIPOffset<{t}>>,"),
                K::Union(..) => p!("pub {n}: Option<{fb}::WIPOffset<{fb}::UnionWIPOffset>>,"),
            }
        }
        p!("}}\nimpl{l} Default for {name}Args{l} {{ fn default() -> Self {{ {name}Args {{");
        for (n, k, _) in &slots {
            match k {
                K::Scalar(_, d) => p!("{n}: {d},"),
                K::Key(t) => p!("{n}: {t}::NONE,"),
                _ => p!("{n}: None,"),
            }
        }
        p!("}} }} }}");
        // the builder
        p!("pub struct {name}Builder<'a: 'b, 'b> {{ fbb_: &'b mut {fb}::FlatBufferBuilder<'a>, start_: {fb}::WIPOffset<{fb}::TableUnfinishedWIPOffset> }}");
        p!("impl<'a: 'b, 'b> {name}Builder<'a, 'b> {{");
        for (n, k, _) in &slots {
            let vt = format!("{name}::VT_{}", n.to_uppercase());
            match k {
                K::Scalar(t, d) => p!("pub fn add_{n}(&mut self, {n}: {t}) {{ self.fbb_.push_slot::<{t}>({vt}, {n}, {d}); }}"),
                K::Key(t) => p!("pub fn add_{n}(&mut self, {n}: {t}) {{ self.fbb_.push_slot::<{t}>({vt}, {n}, {t}::NONE); }}"),
                K::Offset(t) => p!("pub fn add_{n}(&mut self, {n}: {fb}::WIPOffset<{}>) {{ self.fbb_.push_slot_always::<{fb}::WIPOffset<_>>({vt}, {n}); }}", t.replace("'a", "'b")),
                K::Union(..) => p!("pub fn add_{n}(&mut self, {n}: {fb}::WIPOffset<{fb}::UnionWIPOffset>) {{ self.fbb_.push_slot_always::<{fb}::WIPOffset<_>>({vt}, {n}); }}"),
            }
        }
        p!("pub fn new(_fbb: &'b mut {fb}::FlatBufferBuilder<'a>) -> {name}Builder<'a, 'b> {{ let start = _fbb.start_table(); {name}Builder {{ fbb_: _fbb, start_: start }} }}");
        p!("pub fn finish(self) -> {fb}::WIPOffset<{name}<'a>> {{ let o = self.fbb_.end_table(self.start_);");
        for (n, _, required) in &slots {
            if *required {
                p!("self.fbb_.required(o, {name}::VT_{}, \"{n}\");", n.to_uppercase());
            }
        }
        p!("{fb}::WIPOffset::new(o.value()) }}\n}}");
        p!("impl ::std::fmt::Debug for {name}<'_> {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ let mut ds = f.debug_struct(\"{name}\");");
        for (n, _, _) in &slots {
            p!("ds.field(\"{n}\", &self.{n}());");
        }
        p!("ds.finish() }} }}");
    }

    /// variant, method and item of each member of a union
    fn members(&self, i: usize) -> Vec<(String, String, usize)> {
        let (ns, _, Item::Union(v)) = &self.items[i] else { panic!() };
        v.iter()
            .map(|m| {
                let flat = m.replace('.', "_");
                (flat.clone(), snake(&flat), self.find(ns, m).unwrap_or_else(|| panic!("no such table: {m}")))
            })
            .collect()
    }
}

fn snake(s: &str) -> String {
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    for (i, x) in c.iter().enumerate() {
        if x.is_uppercase() && i > 0 && c[i - 1] != '_' && !c[i - 1].is_uppercase() {
            out.push('_');
        }
        out.extend(x.to_lowercase());
    }
    out
}

fn scalar(t: &str) -> Option<&'static str> {
    Some(match t {
        "bool" => "bool",
        "byte" | "int8" => "i8",
        "ubyte" | "uint8" => "u8",
        "short" | "int16" => "i16",
        "ushort" | "uint16" => "u16",
        "int" | "int32" => "i32",
        "uint" | "uint32" => "u32",
        "long" | "int64" => "i64",
        "ulong" | "uint64" => "u64",
        "float" | "float32" => "f32",
        "double" | "float64" => "f64",
        _ => return None,
    })
}

fn enumeration(repr: &str, name: &str, values: &[(String, i128)], w: &mut String) {
    let fb = "::flatbuffers";
    macro_rules! p { ($($t:tt)*) => { writeln!(w, $($t)*).unwrap() } }
    p!("#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]\n#[repr(transparent)]\npub struct {name}(pub {repr});");
    p!("#[allow(non_upper_case_globals)]\nimpl {name} {{");
    for (n, v) in values {
        p!("pub const {n}: Self = Self({v});");
    }
    let min = values.iter().map(|v| v.1).min().unwrap();
    let max = values.iter().map(|v| v.1).max().unwrap();
    p!("pub const ENUM_MIN: {repr} = {min};\npub const ENUM_MAX: {repr} = {max};");
    p!("pub const ENUM_VALUES: &'static [Self] = &[{}];", values.iter().map(|v| format!("Self::{},", v.0)).collect::<String>());
    p!("pub fn variant_name(self) -> Option<&'static str> {{ match self {{");
    for (n, _) in values {
        p!("Self::{n} => Some(\"{n}\"),");
    }
    p!("_ => None }} }} }}");
    p!("impl ::std::fmt::Debug for {name} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {{ if let Some(n) = self.variant_name() {{ f.write_str(n) }} else {{ f.write_fmt(format_args!(\"<UNKNOWN {{:?}}>\", self.0)) }} }} }}");
    p!("impl<'a> {fb}::Follow<'a> for {name} {{ type Inner = Self; unsafe fn follow(buf: &'a [u8], loc: usize) -> Self {{ Self(<{repr} as {fb}::Follow>::follow(buf, loc)) }} }}");
    p!("impl {fb}::Push for {name} {{ type Output = {name}; unsafe fn push(&self, dst: &mut [u8], w: usize) {{ {fb}::Push::push(&self.0, dst, w) }} }}");
    p!("impl {fb}::Verifiable for {name} {{ fn run_verifier(v: &mut {fb}::Verifier, pos: usize) -> Result<(), {fb}::InvalidFlatbuffer> {{ <{repr} as {fb}::Verifiable>::run_verifier(v, pos) }} }}");
}

fn nest(m: &BTreeMap<Vec<String>, String>, at: &[String], out: &mut String) {
    if let Some(t) = m.get(at) {
        out.push_str(t);
    }
    for k in m.keys().filter(|k| k.len() == at.len() + 1 && k.starts_with(at)) {
        writeln!(out, "#[allow(unused_imports, dead_code, clippy::all)]\npub mod {} {{", k.last().unwrap()).unwrap();
        nest(m, k, out);
        out.push_str("}\n");
    }
}
