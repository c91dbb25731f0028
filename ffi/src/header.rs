//! P25: C (and C++) programs written against the header of the C API, built and run with the library.
use crate::abi::sym;
use harness::ensure;
use harness::pbt::*;
use harness::runner::Env;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub const P25: Prop = Prop {
    id: "P25",
    title: "C programs written against the header build, link and do what it says",
    rule: "the program used functions of at least three property types, or the confusion was about opaque types",
    quick: 480,
    thorough: 12_000,
    run,
};

const TYPES: [(&str, &str); 14] = [
    ("U8", "uint8_t"),
    ("U16", "uint16_t"),
    ("U32", "uint32_t"),
    ("U64", "uint64_t"),
    ("I8", "int8_t"),
    ("I16", "int16_t"),
    ("I32", "int32_t"),
    ("I64", "int64_t"),
    ("Bool", "bool"),
    ("F32", "float"),
    ("F64", "double"),
    ("String", "String_t"),
    ("ObjectHandle", "tp_client__object__ObjectHandle_t"),
    ("ContractDataHandle", "tp_client__contract__ContractDataHandle_t"),
];
const STR: usize = 11;
const OBJ: usize = 12;
const CON: usize = 13;
const S: &str = "tp_client__contract__properties__states__";
const K: &str = "tp_client__contract__properties__channels__";
const B: &str = "tp_client__baseline__Baseline__";
const BALL: [(&str, usize); 10] = [
    ("pos_x", 9), ("pos_y", 9), ("pos_z", 9), ("euler_x", 5), ("euler_y", 5), ("euler_z", 5), ("scale_x", 9), ("scale_y", 9), ("scale_z", 9), ("color", 3),
];
const EXAMPLE: [(&str, usize); 9] =
    [("u8_0", 0), ("u8_1", 0), ("i8_0", 4), ("i8_1", 4), ("f32_0", 9), ("f32_1", 9), ("str_0", STR), ("oh_0", OBJ), ("ch_0", CON)];

/// Everything the API is made of
fn expected() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (n, _) in &TYPES[..STR] {
        v.extend(["new", "drop"].map(|f| format!("rsharp__Box_{n}__{f}")));
    }
    v.extend(["value", "drop", "copy_utf8", "copy_utf16"].map(|f| format!("rsharp__String__{f}")));
    v.push("tp_client__object__ObjectHandle__drop".into());
    v.extend(["ContractDataHandle__drop", "ContractData__id", "ContractData__objects", "ContractId__name", "ContractId__version"].map(|f| format!("tp_client__contract__{f}")));
    v.extend(["new", "drop", "kind", "contract_data", "object", "object_mut"].map(|f| format!("{B}{f}")));
    for (n, _) in TYPES {
        v.extend(["state", "state_mut", "channel", "channel_mut", "bind_state", "bind_channel"].map(|f| format!("{B}{f}_{n}")));
        v.extend(["new", "drop", "value", "value_set"].map(|f| format!("{S}State_{n}__{f}")));
        v.extend(["contract", "drop"].map(|f| format!("{S}StateId_{n}__{f}")));
        v.push(format!("{S}StateHandle_{n}__drop"));
        v.extend(["new", "drop", "value", "time"].map(|f| format!("{K}Keyframe_{n}__{f}")));
        v.extend(["new", "drop", "keyframes", "keyframes_mut"].map(|f| format!("{K}Channel_{n}__{f}")));
        v.push(format!("{K}ChannelId_{n}__contract"));
        v.extend(["new", "drop", "push", "get", "set"].map(|f| format!("{K}RVec_Keyframe{n}__{f}")));
    }
    let e = "tp_contract_example__Example";
    v.extend(["register", "drop", "handle", "states", "object_create", "object_remove"].map(|f| format!("{e}Contract__{f}")));
    v.extend(EXAMPLE.map(|(f, _)| format!("{e}States__{f}")));
    v.extend(["register", "unregister", "drop", "handle", "states", "object_create", "object_remove"].map(|f| format!("BallContract__{f}")));
    v.extend(BALL.map(|(f, _)| format!("BallStates__{f}")));
    v
}

#[derive(Clone, Debug)]
struct Proto {
    ret: String,
    name: String,
    params: Vec<String>,
}

struct Api {
    dir: PathBuf,
    protos: Vec<Proto>,
    names: BTreeSet<String>,
    problem: Option<Fail>,
}

fn lib_dir() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

/// The declarations of functions in a header
fn parse(text: &str) -> Vec<Proto> {
    let mut t = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("/*") {
        t += &rest[..i];
        rest = rest[i..].split_once("*/").map_or("", |x| x.1);
    }
    t += rest;
    let t: String = t.lines().filter(|l| !l.trim_start().starts_with('#')).collect::<Vec<_>>().join("\n");
    let mut v = vec![];
    let (mut depth, mut cur) = (0, String::new());
    for c in t.chars() {
        match c {
            '{' => depth += 1,
            '}' => depth -= 1,
            ';' if depth <= 0 => {
                let one = cur.split_whitespace().collect::<Vec<_>>().join(" ");
                cur.clear();
                if let (false, Some((head, tail))) = (one.contains("typedef"), one.split_once('(')) {
                    let head = head.trim();
                    let Some(i) = head.rfind(|c: char| !c.is_alphanumeric() && c != '_') else { continue };
                    let mut ret = head[..=i].to_string();
                    if let Some(x) = ret.rsplit('"').next() {
                        ret = x.trim_start_matches(|c| c == '{' || c == ' ').to_string();
                    }
                    let params = tail.trim_end_matches(')').split(',').map(|p| p.trim().to_string()).filter(|p| p != "void" && !p.is_empty()).collect();
                    v.push(Proto { ret: ret.trim().into(), name: head[i + 1..].into(), params });
                }
                continue;
            }
            _ => (),
        }
        // `extern "C" {` opens what everything is in
        if c == '{' && cur.trim_end().ends_with("extern \"C\"") {
            depth -= 1;
            cur.clear();
            continue;
        }
        cur.push(c);
    }
    v
}

fn api() -> &'static Api {
    static A: OnceLock<Api> = OnceLock::new();
    A.get_or_init(|| {
        let work = Env::new().work;
        // what earlier processes left
        for e in std::fs::read_dir(&work).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = name.strip_prefix("header-") {
                if !Path::new("/proc").join(pid).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        let dir = work.join(format!("header-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let mut problem = None;
        let mut text = vec![];
        if let Err(e) = safer_ffi::headers::builder().with_guard("VERIF_API").to_writer(&mut text).generate() {
            problem = Some(Fail { sig: "header".into(), msg: format!("the header cannot be generated: {e}") });
        }
        std::fs::write(dir.join("api.h"), &text).unwrap();
        std::fs::write(dir.join("base.h"), PRELUDE).unwrap();
        let protos = parse(&String::from_utf8_lossy(&text));
        let names: BTreeSet<String> = protos.iter().map(|p| p.name.clone()).collect();
        let mut bad = |sig: &str, msg: String| problem = problem.take().or(Some(Fail { sig: sig.into(), msg }));
        for n in expected() {
            if !names.contains(&n) {
                bad("undeclared", format!("the header does not declare `{n}`"));
            }
        }
        if names.len() != protos.len() {
            bad("declared-twice", "the header declares a function twice".into());
        }
        for n in &names {
            if let Err(e) = sym(n) {
                bad("not-exported", format!("the header declares `{n}`, and {}", e.msg));
            }
        }
        // what the library exports under the names of the API
        let out = Command::new("nm").args(["-D", "--defined-only"]).arg(lib_dir().join("libverif_ffi.so")).output();
        for l in out.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default().lines() {
            let n = l.split_whitespace().last().unwrap_or_default();
            if ["tp_client__", "rsharp__", "tp_contract_example__", "BallContract__", "BallStates__"].iter().any(|p| n.starts_with(p)) && !names.contains(n) {
                bad("undeclared", format!("the library exports `{n}`, which the header does not declare"));
            }
        }
        Api { dir, protos, names, problem }
    })
}

const PRELUDE: &str = r#"
#include "api.h"
#include <math.h>
#include <stdio.h>
#include <string.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static inline String_t * str8(char const * p, size_t n) {
    slice_ref_uint8_t s;
    s.ptr = (uint8_t const *) p;
    s.len = n;
    return rsharp__String__copy_utf8(s);
}
static inline String_t * str16(uint16_t const * p, size_t n) {
    slice_ref_uint16_t s;
    s.ptr = p;
    s.len = n;
    return rsharp__String__copy_utf16(s);
}
static inline bool is_str(String_t const * s, char const * p, size_t n) {
    slice_ref_uint8_t v = rsharp__String__value(s);
    return v.len == n && memcmp(v.ptr, p, n) == 0;
}
static inline bool is_ball(Baseline_t const * b, BallContract_t const * ball, tp_client__object__ObjectHandle_t const * o, uint64_t color) {
    tp_client__contract__properties__states__StateId_U64_t * id = BallStates__color(BallContract__states(ball));
    tp_client__contract__properties__states__StateHandle_U64_t * h = tp_client__baseline__Baseline__bind_state_U64(b, id, o);
    tp_client__contract__properties__states__State_U64_t const * s = tp_client__baseline__Baseline__state_U64(b, h);
    bool r = *tp_client__contract__properties__states__State_U64__value(s) == color;
    tp_client__contract__properties__states__StateId_U64__drop(id);
    tp_client__contract__properties__states__StateHandle_U64__drop(h);
    return r && tp_client__baseline__Baseline__object(b, o) != 0;
}
static inline bool is_contract(Baseline_t const * b, tp_client__contract__ContractDataHandle_t const * c, char const * name, int major, int minor, int patch) {
    tp_client__contract__ContractData_t const * d = tp_client__baseline__Baseline__contract_data(b, c);
    tp_client__contract__ContractId_t const * id = tp_client__contract__ContractData__id(d);
    slice_ref_uint8_t n = tp_client__contract__ContractId__name(id);
    tp_client__contract__ContractId_Version_t v = tp_client__contract__ContractId__version(id);
    return n.len == strlen(name) && memcmp(n.ptr, name, n.len) == 0 && v.major == major && v.minor == minor && v.patch == patch;
}
"#;

#[derive(Clone, Debug, PartialEq)]
enum V {
    Int(i128),
    F32(f32),
    F64(f64),
    Bool(bool),
    Str(String),
    Obj(usize),
    /// whether it is the example contract
    Con(bool),
}

struct Obj {
    example: bool,
    vals: Vec<V>,
    /// the program still owns its handle
    owned: bool,
    alive: bool,
}

struct Prog {
    body: String,
    n: usize,
    objs: Vec<Obj>,
    types: BTreeSet<usize>,
}

fn int_range(ty: usize) -> (i128, i128) {
    match ty {
        0..=3 => (0, (1i128 << (8 << ty)) - 1),
        _ => (-(1i128 << ((8 << (ty - 4)) - 1)), (1i128 << ((8 << (ty - 4)) - 1)) - 1),
    }
}

fn float(f: f64, suffix: &str) -> String {
    match f {
        f if f == f64::INFINITY => "HUGE_VAL".into(),
        f if f == f64::NEG_INFINITY => "-HUGE_VAL".into(),
        f => format!("{f:e}{suffix}"),
    }
}

fn lit(v: &V) -> String {
    match v {
        V::Int(i) if *i == i64::MIN as i128 => "(-9223372036854775807LL - 1)".into(),
        V::Int(i) if *i < 0 => format!("{i}LL"),
        V::Int(i) => format!("{i}ULL"),
        V::F32(f) if f.is_infinite() => float(*f as f64, "").replace("HUGE_VAL", "HUGE_VALF"),
        V::F32(f) => format!("{f:e}f"),
        V::F64(f) => float(*f, ""),
        V::Bool(b) => b.to_string(),
        _ => unreachable!(),
    }
}

fn c_str(b: &[u8]) -> String {
    format!("\"{}\", {}", b.iter().map(|b| format!("\\{b:03o}")).collect::<String>(), b.len())
}

impl Prog {
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    fn line(&mut self, l: String) {
        writeln!(self.body, "    {l}").unwrap()
    }

    fn scalar(&mut self, s: &mut Src, ty: usize) -> V {
        match ty {
            0..=7 => {
                let (lo, hi) = int_range(ty);
                match s.weighted(&[3, 1, 1, 1]) {
                    0 => V::Int(lo.wrapping_add((s.draw(u64::MAX) as i128) & (hi - lo))),
                    1 => V::Int(lo),
                    2 => V::Int(hi),
                    _ => V::Int(s.draw(9) as i128),
                }
            }
            8 => V::Bool(s.bool()),
            9 => V::F32(Some(s.f32()).filter(|f| !f.is_nan() && (*f == 0.0 || f.is_infinite() || f.is_normal())).unwrap_or(1.5)),
            10 => V::F64(Some(s.f64()).filter(|f| !f.is_nan() && (*f == 0.0 || f.is_infinite() || f.is_normal())).unwrap_or(-2.25)),
            _ => V::Str(s.string()),
        }
    }

    /// A value of the type, and an expression that makes a C value which owns it
    fn own(&mut self, s: &mut Src, ty: usize) -> (V, String) {
        self.types.insert(ty);
        match ty {
            STR => {
                let V::Str(t) = self.scalar(s, STR) else { unreachable!() };
                let units: Vec<u16> = t.encode_utf16().collect();
                let e = if s.bool() || units.is_empty() {
                    format!("str8({})", c_str(t.as_bytes()))
                } else {
                    let v = self.fresh("u");
                    self.line(format!("uint16_t const {v}[] = {{ {} }};", units.iter().map(|u| u.to_string()).collect::<Vec<_>>().join(", ")));
                    format!("str16({v}, {})", units.len())
                };
                (V::Str(t), e)
            }
            OBJ => {
                let i = match (0..self.objs.len()).filter(|i| self.objs[*i].owned && !self.objs[*i].example).collect::<Vec<_>>() {
                    v if !v.is_empty() && s.bool() => *s.pick(&v),
                    _ => self.ball(s),
                };
                self.objs[i].owned = false;
                (V::Obj(i), format!("o{i}"))
            }
            CON => {
                let example = s.bool();
                let f = if example { "tp_contract_example__ExampleContract__handle(example)" } else { "BallContract__handle(ball)" };
                (V::Con(example), f.to_string())
            }
            _ => {
                let v = self.scalar(s, ty);
                let e = format!("rsharp__Box_{}__new({})", TYPES[ty].0, lit(&v));
                (v, e)
            }
        }
    }
    /// That `*p` is the value; nothing if there is no way to tell any more
    fn check(&mut self, v: &V, p: &str) {
        let c = match v {
            V::Str(t) => format!("is_str({p}, {})", c_str(t.as_bytes())),
            V::Obj(i) if !self.objs[*i].alive => return,
            V::Obj(i) => format!("is_ball(cb, ball, {p}, {})", lit(&self.objs[*i].vals[9])),
            V::Con(true) => format!("is_contract(cb, {p}, \"teleportal.example-ffi-contract\", 1, 2, 3)"),
            V::Con(false) => format!("is_contract(cb, {p}, \"Ball\", 0, 0, 0)"),
            v => format!("*({p}) == {}", lit(v)),
        };
        self.line(format!("CHECK({c});"))
    }
    fn free(&mut self, ty: usize, p: &str) {
        let f = match ty {
            STR => "rsharp__String__drop".to_string(),
            OBJ => "tp_client__object__ObjectHandle__drop".into(),
            CON => "tp_client__contract__ContractDataHandle__drop".into(),
            _ => format!("rsharp__Box_{}__drop", TYPES[ty].0),
        };
        self.line(format!("{f}({p});"))
    }

    fn ball(&mut self, s: &mut Src) -> usize {
        let vals: Vec<V> = BALL.iter().map(|(_, ty)| self.scalar(s, *ty)).collect();
        let i = self.objs.len();
        self.line(format!(
            "tp_client__object__ObjectHandle_t * o{i} = BallContract__object_create(b, ball, {});",
            vals.iter().map(lit).collect::<Vec<_>>().join(", ")
        ));
        self.objs.push(Obj { example: false, vals, owned: true, alive: true });
        i
    }
    fn example(&mut self, s: &mut Src) {
        let mut args = vec![];
        let mut vals = vec![];
        for (_, ty) in EXAMPLE {
            let (v, e) = if ty < STR {
                let v = self.scalar(s, ty);
                let l = lit(&v);
                (v, l)
            } else {
                self.own(s, ty)
            };
            vals.push(v);
            args.push(e);
        }
        let i = self.objs.len();
        self.line(format!("tp_client__object__ObjectHandle_t * o{i} = tp_contract_example__ExampleContract__object_create(example, b, {});", args.join(", ")));
        self.objs.push(Obj { example: true, vals, owned: true, alive: true });
    }

    fn step(&mut self, s: &mut Src) {
        let live: Vec<usize> = (0..self.objs.len()).filter(|i| self.objs[*i].owned && self.objs[*i].alive).collect();
        let some = !live.is_empty() as u32;
        let ty = s.below(14);
        let n = TYPES[ty].0;
        let ct = TYPES[ty].1;
        match s.weighted(&[3, 2, 7 * some, 5 * some, some, 3, 4, 4, 3, 2]) {
            0 => drop(self.ball(s)),
            1 => self.example(s),
            w @ (2 | 3) => {
                let i = *s.pick(&live);
                let (fields, st, c): (&[(&str, usize)], _, _) = if self.objs[i].example {
                    (&EXAMPLE, "tp_contract_example__ExampleStates", "tp_contract_example__ExampleContract__states(example)")
                } else {
                    (&BALL, "BallStates", "BallContract__states(ball)")
                };
                let f = s.below(fields.len());
                let (name, ty) = fields[f];
                let (n, ct) = TYPES[ty];
                self.types.insert(ty);
                let x = self.fresh("x");
                self.line(format!("{S}StateId_{n}_t * id{x} = {st}__{name}({c});"));
                self.line(format!("{S}StateHandle_{n}_t * h{x} = {B}bind_state_{n}(cb, id{x}, o{i});"));
                if s.bool() {
                    self.line(format!("tp_client__contract__ContractDataHandle_t * c{x} = {S}StateId_{n}__contract(id{x});"));
                    let e = V::Con(self.objs[i].example);
                    self.check(&e, &format!("c{x}"));
                    self.free(CON, &format!("c{x}"));
                }
                if w == 2 {
                    self.line(format!("{S}State_{n}_t const * s{x} = {B}state_{n}(cb, h{x});"));
                    self.line(format!("{ct} const * v{x} = {S}State_{n}__value(s{x});"));
                    let v = self.objs[i].vals[f].clone();
                    self.check(&v, &format!("v{x}"));
                } else {
                    let (v, e) = self.own(s, ty);
                    self.line(format!("{S}State_{n}_t * s{x} = {B}state_mut_{n}(b, h{x});"));
                    self.line(format!("{S}State_{n}__value_set(s{x}, {e});"));
                    self.objs[i].vals[f] = v.clone();
                    self.check(&v, &format!("{S}State_{n}__value(s{x})"));
                }
                self.line(format!("{S}StateId_{n}__drop(id{x});"));
                self.line(format!("{S}StateHandle_{n}__drop(h{x});"));
            }
            4 => {
                let i = *s.pick(&live);
                let f = if self.objs[i].example { "tp_contract_example__ExampleContract" } else { "BallContract" };
                self.line(format!("{f}__object_remove(b, o{i});"));
                self.objs[i].owned = false;
                self.objs[i].alive = false;
            }
            5 => {
                // a value by itself
                let (v, e) = self.own(s, ty);
                let x = self.fresh("x");
                self.line(format!("{ct} * {x} = {e};"));
                self.check(&v, &x);
                self.free(ty, &x);
            }
            6 => {
                let (v, e) = self.own(s, ty);
                let x = self.fresh("x");
                self.line(format!("{S}State_{n}_t * {x} = {S}State_{n}__new({e});"));
                self.line(format!("{S}State_{n}_t const * c{x} = {x};"));
                self.check(&v, &format!("{S}State_{n}__value(c{x})"));
                if s.bool() {
                    let (v, e) = self.own(s, ty);
                    self.line(format!("{S}State_{n}__value_set({x}, {e});"));
                    self.check(&v, &format!("{S}State_{n}__value(c{x})"));
                }
                self.line(format!("{S}State_{n}__drop({x});"));
            }
            7 => {
                // keyframes, in a list, in a channel
                let x = self.fresh("x");
                let vec = format!("Vec_{K}Keyframe_{n}_t");
                let list = format!("{K}RVec_Keyframe{n}");
                self.line(format!("{vec} {x} = {list}__new();"));
                self.line(format!("{vec} const * c{x} = &{x};"));
                let mut model: Vec<(V, f64)> = vec![];
                for _ in 0..s.below(5) {
                    let (v, e) = self.own(s, ty);
                    let t = s.range(-50, 50) as f64 / 4.0;
                    let k = self.fresh("k");
                    self.line(format!("{K}Keyframe_{n}_t * {k} = {K}Keyframe_{n}__new({e}, {t:?});"));
                    self.line(format!("{K}Keyframe_{n}_t const * c{k} = {k};"));
                    self.line(format!("CHECK({K}Keyframe_{n}__time(c{k}) == {t:?});"));
                    self.check(&v, &format!("{K}Keyframe_{n}__value(c{k})"));
                    match s.weighted(&[4, 1, 1]) {
                        1 if !model.is_empty() => {
                            let i = s.below(model.len());
                            self.line(format!("{list}__set(&{x}, {i}, {k});"));
                            model[i] = (v, t);
                        }
                        2 => self.line(format!("{K}Keyframe_{n}__drop({k});")),
                        _ => {
                            self.line(format!("{list}__push(&{x}, {k});"));
                            model.push((v, t));
                        }
                    }
                }
                self.line(format!("CHECK({x}.len == {} && {x}.cap >= {x}.len);", model.len()));
                for (i, (v, t)) in model.clone().iter().enumerate() {
                    self.line(format!("CHECK({K}Keyframe_{n}__time({list}__get(c{x}, {i})) == {t:?});"));
                    self.check(v, &format!("{K}Keyframe_{n}__value({list}__get(c{x}, {i}))"));
                }
                if s.bool() {
                    self.line(format!("{list}__drop({x});"));
                    return;
                }
                self.line(format!("{K}Channel_{n}_t * ch{x} = {K}Channel_{n}__new({x});"));
                self.line(format!("{K}Channel_{n}_t const * cch{x} = ch{x};"));
                model.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
                // keyframes of the same time may be in any order
                let distinct = model.windows(2).all(|w| w[0].1 != w[1].1);
                let (f, q, a) = if s.bool() { ("keyframes_mut", "", "ch") } else { ("keyframes", "const_", "cch") };
                self.line(format!("Vec_{K}Keyframe_{n}_{q}ptr_t l{x} = {K}Channel_{n}__{f}({a}{x});"));
                self.line(format!("CHECK(l{x}.len == {});", model.len()));
                for (i, (v, t)) in model.clone().iter().enumerate() {
                    self.line(format!("CHECK({K}Keyframe_{n}__time(l{x}.ptr[{i}]) == {t:?});"));
                    if distinct {
                        self.check(v, &format!("{K}Keyframe_{n}__value(l{x}.ptr[{i}])"));
                    }
                }
                self.line(format!("{K}Channel_{n}__drop(ch{x});"));
            }
            8 => {
                // no contract of the C API has channels: only that the calls can be written, and link
                self.types.insert(ty);
                let x = self.fresh("x");
                self.line("if (never) {".into());
                self.line(format!("{K}ChannelId_{n}_t const * id{x} = 0;"));
                self.line(format!("tp_client__object__ObjectHandle_t const * o{x} = 0;"));
                self.line(format!("tp_client__contract__ContractDataHandle_t * c{x} = {K}ChannelId_{n}__contract(id{x});"));
                self.line(format!("{K}ChannelHandle_{n}_t * h{x} = {B}bind_channel_{n}(cb, id{x}, o{x});"));
                self.line(format!("{K}Channel_{n}_t const * r{x} = {B}channel_{n}(cb, h{x});"));
                self.line(format!("{K}Channel_{n}_t * w{x} = {B}channel_mut_{n}(b, h{x});"));
                self.line(format!("CHECK(r{x} == w{x} && c{x});"));
                self.line(format!("CHECK({B}object_mut(b, o{x}) == {B}object(cb, o{x}));"));
                self.line("}".into());
            }
            _ => {
                // what the contract says it has
                let example = s.bool();
                let x = self.fresh("x");
                let f = if example { "tp_contract_example__ExampleContract__handle(example)" } else { "BallContract__handle(ball)" };
                self.line(format!("tp_client__contract__ContractDataHandle_t * {x} = {f};"));
                self.check(&V::Con(example), &x);
                self.line(format!(
                    "CHECK(tp_client__contract__ContractData__objects({B}contract_data(cb, {x})).len == {});",
                    self.objs.iter().filter(|o| o.alive && o.example == example).count()
                ));
                self.free(CON, &x);
            }
        }
    }
}

enum Built {
    Yes,
    No(String),
}

fn cc(dir: &Path, file: &str, cpp: bool, link: bool) -> Built {
    let mut c = Command::new(if cpp { "g++" } else { "gcc" });
    c.arg(if cpp { "-std=c++11" } else { "-std=c99" });
    c.args(["-Wall", "-Wextra", "-Werror", "-pedantic-errors", "-Wno-unused", "-O0"]);
    c.arg("-I").arg(&api().dir);
    if link {
        let lib = lib_dir();
        c.arg(dir.join(file)).arg("-o").arg(dir.join("prog"));
        c.arg(lib.join("libverif_ffi.so")).arg(format!("-Wl,-rpath,{}", lib.display()));
    } else {
        c.args(["-fsyntax-only"]).arg(dir.join(file));
    }
    match c.stdin(Stdio::null()).env("LC_ALL", "C").output() {
        Ok(o) if o.status.success() => Built::Yes,
        Ok(o) => Built::No(String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.contains("error")).take(4).collect::<Vec<_>>().join("; ")),
        Err(e) => panic!("no compiler: {e}"),
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let a = api();
    if let Some(f) = &a.problem {
        return Err(f.clone());
    }
    let dir = a.dir.join("case");
    let _ = std::fs::create_dir_all(&dir);
    let cpp = s.chance(40);
    cx.label(if cpp { "C++" } else { "C" });
    if s.chance(35) {
        return confused(s, cx, &dir, cpp);
    }
    let mut p = Prog { body: String::new(), n: 0, objs: vec![], types: BTreeSet::new() };
    let fork = s.bool();
    p.line(format!("Baseline_t * b = {B}new({});", if fork { "BASELINE_KIND_FORK" } else { "BASELINE_KIND_MAIN" }));
    p.line("Baseline_t const * cb = b;".into());
    p.line(format!("CHECK({B}kind(cb) == {});", if fork { "BASELINE_KIND_FORK" } else { "BASELINE_KIND_MAIN" }));
    p.line("BallContract_t * ball = BallContract__register(b);".into());
    p.line("tp_contract_example__ExampleContract_t * example = tp_contract_example__ExampleContract__register(b);".into());
    for _ in 0..3 + s.below(22) {
        s.span(|s| p.step(s));
    }
    // everything at the end
    for i in 0..p.objs.len() {
        if p.objs[i].owned {
            if !p.objs[i].example {
                let e = V::Obj(i);
                p.check(&e, &format!("o{i}"));
            }
            p.line(format!("tp_client__object__ObjectHandle__drop(o{i});"));
        }
    }
    if s.bool() {
        p.line("BallContract__unregister(b, BallContract__handle(ball));".into());
        p.line("BallContract__drop(ball);".into());
        p.line("ball = BallContract__register(b);".into());
        p.line("tp_client__contract__ContractDataHandle_t * again = BallContract__handle(ball);".into());
        p.check(&V::Con(false), "again");
        p.line(format!("CHECK(tp_client__contract__ContractData__objects({B}contract_data(cb, again)).len == 0);"));
        p.free(CON, "again");
    }
    p.line("BallContract__drop(ball);".into());
    p.line("tp_contract_example__ExampleContract__drop(example);".into());
    p.line(format!("{B}drop(b);"));
    let text = format!("#include \"base.h\"\nint main(void) {{\n    volatile int never = 0;\n{}    return 0;\n}}\n", p.body);
    for l in p.body.lines() {
        cx.op(|| l.trim().to_string());
    }
    cx.nontrivial_if(p.types.len() >= 3);
    let file = if cpp { "prog.cc" } else { "prog.c" };
    std::fs::write(dir.join(file), &text).unwrap();
    if let Built::No(e) = cc(&dir, file, cpp, true) {
        return fail("compile", format!("the program does not build: {e}"));
    }
    let out = Command::new("timeout").arg("20").arg(dir.join("prog")).stdin(Stdio::null()).output().map_err(|e| Fail { sig: "run".into(), msg: e.to_string() })?;
    let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
    ensure!(out.status.success(), "wrong", "the program ends with {}: {said}{}", out.status, String::from_utf8_lossy(&out.stderr).lines().take(3).collect::<Vec<_>>().join("; "));
    Ok(())
}

/// One argument of another type, or a constant where the call changes it
fn confused(s: &mut Src, cx: &mut Cx, dir: &Path, cpp: bool) -> Res {
    let a = api();
    let ptr = |p: &str| p.contains('*');
    let base = |p: &str| p.split(|c: char| !c.is_alphanumeric() && c != '_').find(|w| !["const", "struct", ""].contains(w)).unwrap_or_default().to_string();
    let protos: Vec<&Proto> = a.protos.iter().filter(|p| p.params.iter().any(|x| ptr(x)) && expected_name(&p.name)).collect();
    let p = (*s.pick(&protos)).clone();
    let at: Vec<usize> = (0..p.params.len()).filter(|i| ptr(&p.params[*i])).collect();
    let at = *s.pick(&at);
    let mine = base(&p.params[at]);
    // a release, or a change, is never of something constant
    let changes = at == 0 && ["__drop", "__value_set", "__push", "__set", "__keyframes_mut", "__register", "__unregister", "__object_remove"].iter().any(|e| p.name.ends_with(e))
        || p.name.starts_with(&format!("{B}state_mut_")) && at == 0
        || p.name.starts_with(&format!("{B}channel_mut_")) && at == 0
        || p.name.ends_with("__object_create") && mine == "Baseline_t";
    let (other, what) = if changes && s.chance(30) {
        let t = p.params[at].split('*').next().unwrap().replace("const", " ");
        (format!("{} const * a{at}", t.trim()), "a constant")
    } else {
        let all: BTreeSet<String> = a.protos.iter().flat_map(|p| p.params.iter().filter(|x| ptr(x)).map(|x| base(x))).collect();
        let all: Vec<String> = all.into_iter().filter(|t| *t != mine).collect();
        // another instance of the same template is the likeliest mistake
        let stem = |t: &str| t.rsplit_once('_').and_then(|x| x.0.rsplit_once('_')).map(|x| x.0.to_string());
        let near: Vec<String> = all.iter().filter(|t| stem(t).is_some() && stem(t) == stem(&mine)).cloned().collect();
        let t = if !near.is_empty() && s.chance(60) { s.pick(&near).clone() } else { s.pick(&all).clone() };
        (format!("{t} * a{at}"), "another type")
    };
    cx.label(if what == "a constant" { "constant refused" } else { "other type refused" });
    cx.nontrivial_if(mine.contains("__") || other.contains("__"));
    let args: Vec<String> = (0..p.params.len()).map(|i| format!("a{i}")).collect();
    // the parameter as it is declared, with a name of ours
    let named = |i: usize, x: &str| match x.rsplit_once(|c: char| !c.is_alphanumeric() && c != '_') {
        Some((t, _)) if x.ends_with(|c: char| c.is_alphanumeric() || c == '_') => format!("{}{} a{i}", t, if x.as_bytes()[t.len()] == b'*' { "*" } else { "" }),
        _ => x.to_string(),
    };
    let mut good: Vec<String> = p.params.iter().enumerate().map(|(i, x)| named(i, x)).collect();
    let call = |params: &[String]| {
        let r = if p.ret == "void" { "" } else { "return " };
        format!("#include \"api.h\"\n{} f({}) {{ {r}{}({}); }}\n", p.ret, params.join(", "), p.name, args.join(", "))
    };
    let file = if cpp { "confused.cc" } else { "confused.c" };
    std::fs::write(dir.join(file), call(&good)).unwrap();
    if let Built::No(e) = cc(dir, file, cpp, false) {
        return fail("control", format!("`{}` cannot be called with its own types: {e}", p.name));
    }
    good[at] = other;
    cx.op(|| call(&good).lines().nth(1).unwrap_or_default().to_string());
    std::fs::write(dir.join(file), call(&good)).unwrap();
    match cc(dir, file, cpp, false) {
        Built::No(_) => Ok(()),
        Built::Yes => fail("confused", format!("`{}` takes `{}` for its argument {at}", p.name, good[at])),
    }
}

fn expected_name(n: &str) -> bool {
    static E: OnceLock<BTreeSet<String>> = OnceLock::new();
    E.get_or_init(|| expected().into_iter().collect()).contains(n) && api().names.contains(n)
}
