//! P29: scripts over an owner and what it lends, through `better_borrow` and, beside it, through
//! the standard traits. A model of the borrow rules says which scripts the compiler has to accept.
use crate::driver::*;
use harness::pbt::*;
use std::fmt::Write;

pub const FAMILY: Family = Family {
    id: "P29",
    rule: "at least two loans were taken and used, one of them exclusive where the owner lends exclusively",
    quick: 240,
    thorough: 5000,
    gen,
};

struct Owner {
    name: &'static str,
    t: &'static str,
    /// what is lent; empty for one that lends something of its own, not a reference
    b: &'static str,
    make: &'static str,
    copy: bool,
    /// changes a `m: M`, if it lends exclusively
    write: &'static str,
    /// changes the owner `@`
    own: &'static str,
    /// whether `t.borrow()` can mean nothing but the owner's own
    method: bool,
}

const fn o(name: &'static str, t: &'static str, b: &'static str, make: &'static str, copy: bool, write: &'static str, own: &'static str) -> Owner {
    Owner { name, t, b, make, copy, write, own, method: true }
}

const OWNERS: &[Owner] = &[
    o("String as str", "String", "str", "format!(\"a\\u{e9}\\0{k}\")", false, "@.make_ascii_uppercase()", "@.push('x')"),
    o("String as itself", "String", "String", "k.to_string()", false, "@.push('q')", "@.push('x')"),
    o("Vec as slice", "Vec<u8>", "[u8]", "k.to_le_bytes().to_vec()", false, "@.reverse()", "@.push(3)"),
    o("empty Vec as slice", "Vec<u64>", "[u64]", "Vec::new()", false, "@.reverse()", "@.push(k)"),
    o("Vec as itself", "Vec<String>", "Vec<String>", "vec![k.to_string()]", false, "@.push(\"m\".into())", "@.clear()"),
    o("array as slice", "[u16; 4]", "[u16]", "[k as u16, 2, 3, 4]", true, "@[1] ^= 5", "@[0] ^= 9"),
    o("number as itself", "u32", "u32", "k as u32", true, "*@ ^= 77", "@ ^= 13"),
    o("unit as itself", "()", "()", "()", true, "*@ = ()", "@ = ()"),
    o("Box as its contents", "Box<u64>", "u64", "Box::new(k)", false, "*@ ^= 3", "*@ ^= 12"),
    o("Box as itself", "Box<u64>", "Box<u64>", "Box::new(k)", false, "**@ ^= 3", "*@ ^= 12"),
    o("Box of a text", "Box<str>", "str", "k.to_string().into_boxed_str()", false, "@.make_ascii_uppercase()", "@ = \"other\".into()"),
    o("Box of a trait object", "Box<dyn Look>", "dyn Look", "Box::new(k) as Box<dyn Look>", false, "@.set(8)", "@.set(5)"),
    o("Rc of a text", "std::rc::Rc<str>", "str", "k.to_string().as_str().into()", false, "", "@ = \"other\".into()"),
    o("Arc of a Vec", "std::sync::Arc<Vec<u8>>", "Vec<u8>", "std::sync::Arc::new(k.to_be_bytes().to_vec())", false, "", "std::sync::Arc::make_mut(&mut @).push(1)"),
    o("Cow, owned", "std::borrow::Cow<'static, str>", "str", "std::borrow::Cow::Owned(k.to_string())", false, "", "@.to_mut().push('c')"),
    o("Cow, lent", "std::borrow::Cow<'static, [u8]>", "[u8]", "std::borrow::Cow::Borrowed(&b\"lent\"[..])", false, "", "@.to_mut().push(7)"),
    Owner { name: "reference", t: "&'static str", b: "str", make: "[\"abc\", \"\", \"z\"][k as usize % 3]", copy: true, write: "", own: "@ = \"other\"", method: false },
    o("PathBuf as Path", "std::path::PathBuf", "std::path::Path", "std::path::PathBuf::from(format!(\"/a/{k}\"))", false, "", "@.push(\"b\")"),
    o("OsString as OsStr", "std::ffi::OsString", "std::ffi::OsStr", "std::ffi::OsString::from(k.to_string())", false, "", "@.push(\"b\")"),
    o("CString as CStr", "std::ffi::CString", "std::ffi::CStr", "std::ffi::CString::new(k.to_string()).unwrap()", false, "", "@ = Default::default()"),
    o("a type that lends a part", "Part", "[u8]", "Part::new(k)", false, "@.reverse()", "@.data.push(2)"),
    o("a type that lends another type", "Own", "", "Own::new(k)", false, "@.set()", "@.push()"),
];

/// What the programs share
const BASE: &str = "
use std::fmt::Debug;
pub trait Look: Debug { fn set(&mut self, k: u64); }
impl Look for u64 { fn set(&mut self, k: u64) { *self ^= k } }
/// Lends all but the first byte
#[derive(Debug)]
pub struct Part { pub data: Vec<u8> }
impl Part {
    pub fn new(k: u64) -> Self { let mut data = k.to_le_bytes().to_vec(); data.push(1); Part { data } }
}
impl std::borrow::Borrow<[u8]> for Part {
    fn borrow(&self) -> &[u8] { self.data.get(1..).unwrap_or(&[]) }
}
impl std::borrow::BorrowMut<[u8]> for Part {
    fn borrow_mut(&mut self) -> &mut [u8] { self.data.get_mut(1..).unwrap_or(&mut []) }
}
/// Lends something that is not a reference
#[derive(Debug)]
pub enum Own { A(String), B(Vec<u8>) }
#[derive(Clone, Copy, Debug)]
pub enum Ref<'a> { A(&'a str), B(&'a [u8]) }
#[derive(Debug)]
pub enum Mut<'a> { A(&'a mut str), B(&'a mut [u8]) }
impl Own {
    pub fn new(k: u64) -> Self { if k % 2 == 0 { Own::A(k.to_string()) } else { Own::B(vec![k as u8, 2, 3]) } }
    pub fn push(&mut self) { match self { Own::A(s) => s.push('p'), Own::B(v) => v.push(4) } }
    pub fn lent(&self) -> Ref<'_> { match self { Own::A(s) => Ref::A(s), Own::B(v) => Ref::B(v) } }
    pub fn lent_mut(&mut self) -> Mut<'_> { match self { Own::A(s) => Mut::A(s), Own::B(v) => Mut::B(v) } }
}
impl<'a> Mut<'a> {
    pub fn set(&mut self) { match self { Mut::A(s) => s.make_ascii_uppercase(), Mut::B(v) => v.reverse() } }
}
impl<'a> Ref<'a> {
    pub fn place(&self) -> *const () { match self { Ref::A(s) => s.as_ptr() as _, Ref::B(v) => v.as_ptr() as _ } }
}
impl<'a> Mut<'a> {
    pub fn place(&self) -> *const () { match self { Mut::A(s) => s.as_ptr() as _, Mut::B(v) => v.as_ptr() as _ } }
}
impl<'b> BBorrow<'b, Ref<'b>> for Own { fn borrow<'a>(&'a self) -> Ref<'b> where 'a: 'b { self.lent() } }
impl<'b> BBorrowMut<'b, Mut<'b>> for Own {
    type Borrowed = Ref<'b>;
    fn borrow_mut<'a>(&'a mut self) -> Mut<'b> where 'a: 'b { self.lent_mut() }
}
fn same<X: PartialEq + Debug>(a: X, b: X) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!(\"{a:?} and should be {b:?}\")) }
}
";

#[derive(Clone, Copy)]
struct Loan {
    exclusive: bool,
    dead: bool,
    used: u32,
}

fn gen(s: &mut Src) -> Program {
    let ow = &OWNERS[s.below(OWNERS.len())];
    let reference = !ow.b.is_empty();
    let exclusive = !ow.write.is_empty();
    let mut head = format!("#![allow(warnings)]\nuse better_borrow::{{BBorrow, BBorrowMut}};\n{BASE}\ntype T = {};\n", ow.t);
    if reference {
        write!(head, "type B = {};\ntype R<'b> = &'b B;\ntype M<'b> = &'b mut B;\n", ow.b).unwrap();
        head += "fn std_lent(t: &T) -> R<'_> { std::borrow::Borrow::<B>::borrow(t) }\n";
        head += "fn at(r: &B) -> *const () { r as *const B as *const () }\n";
        if exclusive {
            head += "fn std_lent_mut(t: &mut T) -> M<'_> { std::borrow::BorrowMut::<B>::borrow_mut(t) }\n";
            head += "fn at_mut(m: &mut B) -> *const () { m as *mut B as *const () }\n";
        }
    } else {
        head += "type R<'b> = Ref<'b>;\ntype M<'b> = Mut<'b>;\nfn std_lent(t: &T) -> R<'_> { t.lent() }\nfn std_lent_mut(t: &mut T) -> M<'_> { t.lent_mut() }\n";
        head += "fn at(r: Ref) -> *const () { r.place() }\nfn at_mut(m: &mut Mut) -> *const () { m.place() }\n";
    }
    head += "
fn lend<'b>(t: &'b T) -> R<'b> { BBorrow::<R<'b>>::borrow(t) }
fn lend_any<'b, X: ?Sized + BBorrow<'b, Y>, Y>(t: &'b X) -> Y { t.borrow() }
fn with<X: ?Sized, Z>(t: &X, f: impl for<'b> FnOnce(R<'b>) -> Z) -> Z where X: for<'b> BBorrow<'b, R<'b>> { f(t.borrow()) }
";
    if exclusive {
        head += "
fn lend_mut<'b>(t: &'b mut T) -> M<'b> { BBorrowMut::<M<'b>>::borrow_mut(t) }
fn lend_mut_any<'b, X: ?Sized + BBorrowMut<'b, Y>, Y>(t: &'b mut X) -> Y { t.borrow_mut() }
fn with_mut<X: ?Sized, Z>(t: &mut X, f: impl for<'b> FnOnce(M<'b>) -> Z) -> Z where X: for<'b> BBorrowMut<'b, M<'b>, Borrowed = R<'b>> { f(t.borrow_mut()) }
fn lend_first<'b, X: ?Sized + BBorrowMut<'b, Y, Borrowed = Z>, Y, Z>(t: &'b X) -> Z { t.borrow() }
fn look_then_lend<X: ?Sized>(t: &mut X) -> (String, String) where X: for<'b> BBorrowMut<'b, M<'b>, Borrowed = R<'b>> {
    let before = { let r: R = BBorrow::<R>::borrow(t); format!(\"{r:?}\") };
    let after = { let m: M = t.borrow_mut(); format!(\"{m:?}\") };
    (before, after)
}
fn tied<'b>(r: <T as BBorrowMut<'b, M<'b>>>::Borrowed) -> R<'b> { r }
";
    }
    let k = if s.bool() { s.draw(9) } else { s.draw(u64::MAX) };
    // the script with its twin, and without
    let mut body = format!("    let k: u64 = {k};\n    let mut t: T = {0};\n    let mut u: T = {0};\n", ow.make);
    let mut alone = format!("    let k: u64 = {k};\n    let mut t: T = {};\n", ow.make);
    let mut loans: Vec<Loan> = vec![];
    let mut moved = false;
    let mut bad: Option<(&'static str, String)> = None;
    for _ in 0..8 + s.below(14) {
        let mut fault = None;
        let mut next = loans.clone();
        let mut next_moved = moved;
        let n = loans.len();
        let touch = |l: &mut Vec<Loan>, change: bool| {
            for x in l.iter_mut() {
                x.dead |= change || x.exclusive;
            }
        };
        let what = s.weighted(&[6, if exclusive { 5 } else { 1 }, if n > 0 { 12 } else { 0 }, 2, 2, 1, 1, 2, if exclusive { 2 } else { 0 }]);
        if moved && what != 2 && what != 6 {
            fault = Some("use of an owner that is gone");
        }
        let (mine, both) = match what {
            0 => {
                touch(&mut next, false);
                next.push(Loan { exclusive: false, dead: false, used: 0 });
                let last = if ow.method { "t.borrow()" } else { "lend_any(&t)" };
                let mut routes = vec!["BBorrow::<R>::borrow(&t)", "<T as BBorrow<R>>::borrow(&t)", "lend(&t)", "lend_any::<T, R>(&t)", last];
                if exclusive {
                    routes.push("lend_first::<T, M, R>(&t)");
                }
                let route = *s.pick(&routes);
                let mine = format!("    let r{n}: R = {route};\n");
                (mine.clone(), format!("{mine}    same(at(r{n}), at(std_lent(&t)))?;\n    let q{n}: R = std_lent(&u);\n"))
            }
            1 if exclusive => {
                touch(&mut next, true);
                next.push(Loan { exclusive: true, dead: false, used: 0 });
                let route = *s.pick(&[
                    "BBorrowMut::<M>::borrow_mut(&mut t)",
                    "<T as BBorrowMut<M>>::borrow_mut(&mut t)",
                    "lend_mut(&mut t)",
                    "lend_mut_any::<T, M>(&mut t)",
                    "t.borrow_mut()",
                ]);
                let star = if reference { "*" } else { "" };
                let mine = format!("    let mut r{n}: M = {route};\n");
                let both = format!(
                    "    let place = {{ let mut m = std_lent_mut(&mut t); at_mut(&mut {star}m) }};\n{mine}    same(at_mut(&mut {star}r{n}), place)?;\n    let mut q{n}: M = std_lent_mut(&mut u);\n"
                );
                (mine, both)
            }
            1 => {
                fault = fault.or(Some("an exclusive loan of what is only shared"));
                (format!("    let r{n} = BBorrowMut::<M>::borrow_mut(&mut t);\n"), String::new())
            }
            2 => {
                // rather a recent one, which is likelier to be alive
                let i = n - 1 - s.below(n).min(s.below(n));
                let l = &mut next[i];
                if l.dead {
                    fault = fault.or(Some("use of a loan after its end"));
                }
                l.used += 1;
                let (mut mine, mut both) = (String::new(), String::new());
                if l.exclusive && s.bool() {
                    let w = |n: &str| ow.write.replace('@', &format!("{n}{i}"));
                    mine = format!("    {};\n", w("r"));
                    both = format!("    {}; {};\n", w("r"), w("q"));
                }
                mine += &format!("    let _ = format!(\"{{:?}}\", r{i});\n");
                both += &format!("    same(format!(\"{{:?}}\", r{i}), format!(\"{{:?}}\", q{i}))?;\n");
                (mine, both)
            }
            3 => {
                touch(&mut next, false);
                ("    let _ = format!(\"{t:?}\");\n".into(), "    same(format!(\"{t:?}\"), format!(\"{u:?}\"))?;\n".into())
            }
            4 => {
                touch(&mut next, true);
                let w = |n: &str| ow.own.replace('@', n);
                (format!("    {};\n", w("t")), format!("    {}; {};\n", w("t"), w("u")))
            }
            5 => {
                // moving a copy does not take it away
                touch(&mut next, !ow.copy);
                next_moved |= !ow.copy;
                ("    drop(t);\n".into(), "    drop(t); drop(u);\n".into())
            }
            6 => {
                touch(&mut next, true);
                next_moved = false;
                (format!("    t = {};\n", ow.make), format!("    t = {0}; u = {0};\n", ow.make))
            }
            7 if exclusive && s.chance(30) => {
                touch(&mut next, true);
                (
                    "    look_then_lend(&mut t);\n".into(),
                    "    { let s = format!(\"{:?}\", std_lent(&u)); same(look_then_lend(&mut t), (s, format!(\"{:?}\", std_lent_mut(&mut u))))?; }\n".into(),
                )
            }
            7 => {
                touch(&mut next, false);
                (
                    "    with(&t, |r| format!(\"{r:?}\"));\n".into(),
                    "    same(with(&t, |r| format!(\"{r:?}\")), format!(\"{:?}\", std_lent(&u)))?;\n".into(),
                )
            }
            _ => {
                touch(&mut next, true);
                let w = ow.write.replace('@', "m");
                let mine = format!("    with_mut(&mut t, |mut m| {{ {w}; }});\n");
                (mine.clone(), format!("{mine}    {{ let mut m = std_lent_mut(&mut u); {w}; }}\n"))
            }
        };
        match fault {
            None => {
                body += &both;
                alone += &mine;
                loans = next;
                moved = next_moved;
            }
            Some(f) if bad.is_none() => bad = Some((f, format!("{alone}{mine}"))),
            Some(_) => (),
        }
    }
    if !moved {
        body += "    same(format!(\"{t:?}\"), format!(\"{u:?}\"))?;\n";
    }
    // what is wrong whatever came before
    let (f, wrong) = match s.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => match bad {
            Some((f, b)) => (f, format!("pub fn check() -> Result<(), String> {{\n{b}    Ok(())\n}}")),
            None => ("", String::new()),
        },
        1 => ("a loan returned from its owner's function", format!("pub fn f<'x>(k: u64) -> R<'x> {{ let t: T = {}; {}(&t) }}", ow.make, s.pick(&["BBorrow::<R>::borrow", "lend", "lend_any::<T, R>"]))),
        2 => ("a loan that leaves the scope of its owner", format!("pub fn f(k: u64) {{ let r: R; {{ let t: T = {}; r = {}(&t); }} println!(\"{{r:?}}\"); }}", ow.make, s.pick(&["BBorrow::<R>::borrow", "lend", "lend_any::<T, R>"]))),
        3 => ("a loan for longer than it was asked for", "pub fn f<'x>(t: &'x T) -> R<'static> { BBorrow::<R<'static>>::borrow(t) }".into()),
        4 if exclusive => ("two exclusive loans at once", format!("pub fn f(mut t: T) {{ let mut a: M = BBorrowMut::<M>::borrow_mut(&mut t); let mut b: M = BBorrowMut::<M>::borrow_mut(&mut t); {}; {}; }}", ow.write.replace('@', "a"), ow.write.replace('@', "b"))),
        5 if exclusive => ("an exclusive loan through a shared reference", "pub fn f(t: &T) { let _: M = BBorrowMut::<M>::borrow_mut(t); }".into()),
        _ => ("a loan of another type", "pub fn f(t: &T) { let _ = BBorrow::<&std::cell::Cell<i128>>::borrow(t); }".into()),
    };
    let reject = (!f.is_empty()).then(|| (f, format!("{head}\n{wrong}\n")));
    let used = loans.iter().filter(|l| l.used > 0).count();
    Program {
        module: format!("{head}\npub fn check() -> Result<(), String> {{\n{body}    Ok(())\n}}\n"),
        kind: false,
        check: true,
        seed: 0,
        reject,
        nontrivial: used >= 2 && (!exclusive || loans.iter().any(|l| l.exclusive)),
        labels: vec![ow.name],
    }
}

