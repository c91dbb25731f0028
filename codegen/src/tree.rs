//! What a generator may and may not do to a directory, and C# text up to layout.
use crate::tools::*;
use harness::ensure;
use harness::pbt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File(Vec<u8>),
    Dir,
}
pub type Tree = BTreeMap<String, Node>;

/// All there is below a directory
pub fn read(dir: &Path) -> Tree {
    fn go(dir: &Path, at: &str, t: &mut Tree) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let n = format!("{at}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                go(&e.path(), &format!("{n}/"), t);
                t.insert(n, Node::Dir);
            } else {
                t.insert(n, Node::File(std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    let mut t = Tree::new();
    go(dir, "", &mut t);
    t
}

/// C# text without comments, and with white space only where it separates words
pub fn norm(text: &str) -> String {
    let mut t = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("//").into_iter().chain(rest.find("/*")).min() {
        t += &rest[..i];
        let end = if rest[i..].starts_with("//") { "\n" } else { "*/" };
        t.push(' ');
        rest = rest[i..].split_once(end).map_or("", |x| x.1);
    }
    t += rest;
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut gap = false;
    for c in t.chars() {
        if c.is_whitespace() {
            gap = true;
        } else {
            if gap && word(c) && out.ends_with(word) {
                out.push(' ');
            }
            gap = false;
            out.push(c);
        }
    }
    out
}

/// A generator, as its user sees it
pub struct Tool {
    pub bin: &'static str,
    /// where it writes, in a lane
    pub out: &'static str,
    /// what it writes
    pub files: &'static BTreeMap<String, String>,
}

fn differ(got: &str, want: &str) -> String {
    let n = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| s.chars().skip(n.saturating_sub(60)).take(160).collect::<String>();
    format!("it is ...{}... and should be ...{}...", cut(got), cut(want))
}

pub fn same_text(name: &str, got: &[u8], want: &str) -> Res {
    let got = String::from_utf8_lossy(got);
    let (g, w) = (norm(&got), norm(want));
    ensure!(g == w, format!("text of {}", name.split('_').next().unwrap()), "{name}: {}", differ(&g, &w));
    Ok(())
}

fn write(out: &Path, name: &str, n: &Node) {
    let p = out.join(name);
    match n {
        Node::Dir => std::fs::create_dir_all(p).unwrap(),
        Node::File(b) => {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, b).unwrap()
        }
    }
}

fn content(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[1, 2, 2]) {
        0 => vec![],
        1 => s.string().into_bytes(),
        // longer than what is generated
        _ => b"// not generated\n".repeat(1 + s.below(400)),
    }
}

/// A history of runs and of what others do to the directory
pub fn history(s: &mut Src, cx: &mut Cx, t: &Tool) -> Res {
    let lane = lane();
    lane.reset();
    let out: PathBuf = lane.dir.join(t.out);
    let names: Vec<&String> = t.files.keys().collect();
    // nothing else changes
    let around = |exists: bool| -> Tree {
        let mut r = read(&lane.dir);
        let own = format!("{}/", t.out);
        r.retain(|k, _| !k.starts_with(&own) && !k.starts_with("bin"));
        if !exists {
            r.retain(|k, _| !own.starts_with(&format!("{k}/")) || k.ends_with("codegen_wrapped") || ["client", "crates", "crates/rsharp"].contains(&k.as_str()));
        }
        r
    };
    let sources = around(false);
    let mut model: Option<Tree> = None;
    let mut first: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let (mut refused, mut forced, mut kept) = (0, 0, 0);
    let steps = 1 + s.below(9);
    for _ in 0..steps {
        s.span(|s| -> Res {
            match s.weighted(&[5, 2, 2, 1, 1, 1, 1]) {
                0 => {
                    let force = s.bool();
                    let odd = s.chance(6);
                    let args: Vec<&str> = match (force, odd) {
                        (_, true) => vec![*s.pick(&["--nonsense", "-x", "extra", "--force"])],
                        (true, _) => vec!["-f"],
                        _ => vec![],
                    };
                    cx.op(|| format!("{} {args:?}", t.bin));
                    let o = lane.run(t.bin, &args, "");
                    let said = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
                    let now = read(&out);
                    let before = model.clone().unwrap_or_default();
                    let ok = o.status.success();
                    ensure!(o.status.code().is_some(), "killed", "{} {args:?} did not exit: {said}", t.bin);
                    if odd || (!force && !before.is_empty()) {
                        ensure!(!ok, "not refused", "{} {args:?} succeeded in a directory that holds {:?}", t.bin, before.keys());
                        ensure!(now == before, "refused and changed", "{} {args:?} was refused and changed the directory", t.bin);
                        ensure!(odd || model.is_none() || out.is_dir(), "refused and changed", "{args:?} was refused and the directory is gone");
                        refused += !odd as usize;
                        if out.is_dir() {
                            model = Some(now);
                        }
                        return Ok(());
                    }
                    forced += (force && !before.is_empty()) as usize;
                    let blocked = names.iter().any(|n| before.get(*n) == Some(&Node::Dir));
                    ensure!(ok != blocked, if ok { "blocked" } else { "failed" }, "{} {args:?} over {:?}: {said}", t.bin, before.keys());
                    for (k, n) in &before {
                        let own = t.files.contains_key(k);
                        if !own || *n == Node::Dir {
                            ensure!(now.get(k) == Some(n), "touched", "{} {args:?} changed {k:?}, which is not its own", t.bin);
                            kept += 1;
                        }
                    }
                    for (k, n) in &now {
                        if before.get(k) == Some(n) && (blocked || !t.files.contains_key(k)) {
                            continue;
                        }
                        let (Some(want), Node::File(got)) = (t.files.get(k), n) else {
                            return fail("stray", format!("{} {args:?} made {k:?}", t.bin));
                        };
                        same_text(k, got, want)?;
                        let f = first.entry(k.clone()).or_insert_with(|| got.clone());
                        ensure!(f == got, "repeated", "{k} is not the same on every run");
                    }
                    if !blocked {
                        for n in &names {
                            ensure!(now.contains_key(*n), "missing", "{} {args:?} did not make {n}", t.bin);
                        }
                    }
                    ensure!(out.is_dir(), "missing", "{} {args:?} made no directory", t.bin);
                    model = Some(now);
                }
                k => {
                    let name = match (k, s.weighted(&[2, 1])) {
                        (1, 0) => s.pick(&["README.md", ".gitkeep", "Foo.cs", "state_u8.cs", "State_U8.cs.bak", "RBox_u8.cs", "é 🌀.cs", "sub/State_U8.cs", "RBox_String.cs", "State_.cs"]).to_string(),
                        _ => (*s.pick(&names)).clone(),
                    };
                    let m = model.get_or_insert_with(Tree::new);
                    match k {
                        1 | 2 | 3 => {
                            let n = if k == 3 { Node::Dir } else { Node::File(content(s)) };
                            if m.get(&name).is_some_and(|o| (*o == Node::Dir) != (n == Node::Dir)) {
                                return Ok(());
                            }
                            cx.op(|| format!("{} {name:?}", if k == 3 { "mkdir" } else { "write" }));
                            write(&out, &name, &n);
                            if let Some((d, _)) = name.split_once('/') {
                                m.insert(d.into(), Node::Dir);
                            }
                            m.insert(name, n);
                        }
                        4 => {
                            let all: Vec<String> = m.keys().cloned().collect();
                            if all.is_empty() {
                                return Ok(());
                            }
                            let name = s.pick(&all).clone();
                            if m[&name] == Node::Dir || name.contains('/') {
                                return Ok(());
                            }
                            cx.op(|| format!("rm {name:?}"));
                            std::fs::remove_file(out.join(&name)).unwrap();
                            m.remove(&name);
                        }
                        _ => {
                            cx.op(|| if k == 5 { "rm *".into() } else { "rm -r".into() });
                            let _ = std::fs::remove_dir_all(&out);
                            m.clear();
                            if k == 6 {
                                model = None;
                            }
                        }
                    }
                    if model.is_some() {
                        std::fs::create_dir_all(&out).unwrap();
                    }
                }
            }
            Ok(())
        })?;
    }
    let after = around(false);
    let changed: BTreeSet<&String> = sources.keys().chain(after.keys()).filter(|k| sources.get(*k) != after.get(*k)).collect();
    ensure!(changed.is_empty(), "elsewhere", "{} changed {changed:?}", t.bin);
    cx.nontrivial_if(refused > 0 || (forced > 0 && kept > 0));
    if refused > 0 {
        cx.label("refused");
    }
    if forced > 0 {
        cx.label("forced");
    }
    Ok(())
}
