//! Compiles and runs generated programs, several to a crate, and finds out which of them fails.
use harness::pbt::*;
use harness::runner::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Program {
    /// A module that has to compile, with `@CASE@` for what tells it from the others
    pub module: String,
    /// The module has a `kind()`
    pub kind: bool,
    /// The module has a `check()`
    pub check: bool,
    pub seed: u64,
    /// A crate that must not compile, and why
    pub reject: Option<(&'static str, String)>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

#[derive(Clone, Copy)]
pub struct Family {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub gen: fn(&mut Src) -> Program,
}

/// The crates a program can name
const EXTERNS: [&str; 7] = ["harness", "tp_client", "rsharp_macro", "tp_contract_macro", "paste", "better_borrow", "arena"];

struct Tools {
    externs: Vec<(String, PathBuf)>,
    deps: Vec<PathBuf>,
}

/// Where cargo put what this package depends on
fn tools(env: &Env) -> Result<Tools, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let deep = exe.parent().map_or(false, |p| p.ends_with("deep"));
    let out = Command::new("cargo")
        .args(["build", "--offline", "--locked", "--lib", "--message-format", "json", "--profile", if deep { "deep" } else { "dev" }])
        .arg("--manifest-path")
        .arg(env.verif.join("programs/Cargo.toml"))
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).into());
    }
    let text = String::from_utf8_lossy(&out.stdout);
    let mut t = Tools { externs: vec![], deps: vec![] };
    for l in text.lines().filter(|l| l.contains("\"compiler-artifact\"")) {
        let Some(files) = l.split("\"filenames\":[").nth(1).and_then(|r| r.split(']').next()) else { continue };
        let name = l.split("\"target\":{").nth(1).and_then(|r| r.split("\"name\":\"").nth(1)).and_then(|r| r.split('"').next()).unwrap_or_default();
        for f in files.split(',').map(|f| PathBuf::from(f.trim_matches('"'))) {
            let ext = f.extension().and_then(|e| e.to_str()).unwrap_or_default().to_string();
            if !["rlib", "so"].contains(&&*ext) {
                continue;
            }
            let dir = f.parent().unwrap().to_path_buf();
            let deps = if dir.ends_with("deps") { dir } else { dir.join("deps") };
            if !t.deps.contains(&deps) {
                t.deps.push(deps);
            }
            if EXTERNS.contains(&name) {
                t.externs.push((name.to_string(), f));
            }
        }
    }
    for want in EXTERNS {
        if !t.externs.iter().any(|(n, _)| n == want) {
            return Err(format!("cargo did not say where {want} is"));
        }
    }
    Ok(t)
}

enum Compiled {
    Yes,
    No(String),
}

fn rustc(t: &Tools, main: &Path, extra: &[&str], out: &Path) -> Compiled {
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--cap-lints", "allow", "--error-format", "short", "--cfg", "constellation_verif"]);
    c.args(["-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "debuginfo=0", "-C", "codegen-units=4"]).args(extra);
    for (n, f) in &t.externs {
        c.arg("--extern").arg(format!("{n}={}", f.display()));
    }
    for d in &t.deps {
        c.arg("-L").arg(format!("dependency={}", d.display()));
    }
    c.arg("-o").arg(out).arg(main).stdin(Stdio::null());
    match c.output() {
        Ok(o) if o.status.success() => Compiled::Yes,
        Ok(o) => {
            let text = String::from_utf8_lossy(&o.stderr);
            Compiled::No(format!("{:?}: {}", o.status.code(), text.lines().filter(|l| !l.starts_with("warning")).take(12).collect::<Vec<_>>().join("\n")))
        }
        Err(e) => Compiled::No(e.to_string()),
    }
}

/// Runs a built group; the lines it printed about its cases
fn run(exe: &Path) -> (HashMap<usize, Result<(), Fail>>, String) {
    let out = exe.with_extension("out");
    let child = Command::new(exe)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(Stdio::null())
        .spawn();
    let mut end = "it did not start".to_string();
    if let Ok(mut c) = child {
        let until = Instant::now() + Duration::from_secs(120);
        loop {
            match c.try_wait() {
                Ok(Some(st)) => break end = format!("it ended with {st}"),
                Ok(None) if Instant::now() < until => std::thread::sleep(Duration::from_millis(5)),
                _ => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break end = "it did not end".into();
                }
            }
        }
    }
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let mut got = HashMap::new();
    for l in text.lines() {
        let w: Vec<&str> = l.splitn(5, ' ').collect();
        match w[..] {
            ["case", n, "ok"] => drop(got.insert(n.parse().unwrap(), Ok(()))),
            ["case", n, "fail", sig, msg] => drop(got.insert(n.parse().unwrap(), Err(Fail { sig: sig.into(), msg: msg.into() }))),
            _ => (),
        }
    }
    (got, end)
}

/// The verdict on each of some programs, which share a crate as long as that goes well
fn judge(t: &Tools, dir: &Path, ps: &[(usize, &Program)]) -> Vec<(usize, Result<(), Fail>)> {
    if ps.is_empty() {
        return vec![];
    }
    let _ = std::fs::create_dir_all(dir);
    let mut main = String::from("#![allow(warnings)]\n");
    let mut table = String::new();
    for (i, p) in ps {
        let tag = format!("k{i}");
        std::fs::write(dir.join(format!("case_{tag}.rs")), p.module.replace("@CASE@", &tag)).unwrap();
        main += &format!("mod case_{tag};\n");
        let opt = |b, f| if b { format!("Some(case_{tag}::{f})") } else { "None".to_string() };
        table += &format!(
            "    harness::programs::Case {{ name: \"{i}\", seed: {}, kind: {}, check: {} }},\n",
            p.seed,
            opt(p.kind, "kind"),
            opt(p.check, "check")
        );
    }
    main += &format!("fn main() {{ harness::programs::main(&[\n{table}]) }}\n");
    std::fs::write(dir.join("main.rs"), main).unwrap();
    let alone = |why: String, sig: &str| -> Vec<(usize, Result<(), Fail>)> {
        if ps.len() == 1 {
            return vec![(ps[0].0, fail(sig, why))];
        }
        ps.iter().flat_map(|p| judge(t, &dir.join(format!("a{}", p.0)), &[*p])).collect()
    };
    match rustc(t, &dir.join("main.rs"), &[], &dir.join("main.bin")) {
        Compiled::No(why) => return alone(format!("does not compile: {why}"), "compile"),
        Compiled::Yes => (),
    }
    let (mut got, end) = run(&dir.join("main.bin"));
    if ps.iter().any(|(i, _)| !got.contains_key(i)) {
        return alone(format!("the program says nothing: {end}"), "crash");
    }
    ps.iter().map(|(i, _)| (*i, got.remove(i).unwrap())).collect()
}

fn refused(t: &Tools, dir: &Path, i: usize, p: &Program) -> Result<(), Fail> {
    let Some((what, text)) = &p.reject else { return Ok(()) };
    let _ = std::fs::create_dir_all(dir);
    let src = dir.join(format!("reject_{i}.rs"));
    std::fs::write(&src, text.replace("@CASE@", &format!("r{i}"))).unwrap();
    match rustc(t, &src, &["--crate-type", "lib", "--crate-name", "refused", "--emit", "metadata"], &src.with_extension("rmeta")) {
        Compiled::Yes => fail(format!("accepted-{}", what.replace(' ', "-")), format!("{what} is accepted")),
        Compiled::No(why) if why.starts_with("Some(1)") => {
            if std::env::var_os("VERIF_WHY").is_some() {
                eprintln!("refused {what}: {}", why.lines().next().unwrap_or_default());
            }
            Ok(())
        }
        Compiled::No(why) => fail("ice", format!("{what} makes the compiler fail: {why}")),
    }
}

/// Judges all of some programs with several compilers at a time
fn judge_all(t: &Tools, dir: &Path, ps: &[Program], group: usize) -> Vec<Result<(), Fail>> {
    let jobs_list: Vec<Vec<usize>> = (0..ps.len()).collect::<Vec<_>>().chunks(group).map(|c| c.to_vec()).collect();
    let next = Mutex::new(0usize);
    let results: Mutex<HashMap<usize, Result<(), Fail>>> = Mutex::default();
    std::thread::scope(|s| {
        for _ in 0..jobs() {
            s.spawn(|| loop {
                let j = {
                    let mut n = next.lock().unwrap();
                    *n += 1;
                    *n - 1
                };
                let Some(mine) = jobs_list.get(j) else { break };
                let d = dir.join(format!("g{j}"));
                let mine_ps: Vec<(usize, &Program)> = mine.iter().map(|i| (*i, &ps[*i])).collect();
                let mut rs = judge(t, &d, &mine_ps);
                for (i, r) in &mut rs {
                    if r.is_ok() {
                        *r = refused(t, &d, *i, &ps[*i]);
                    }
                }
                let _ = std::fs::remove_dir_all(&d);
                results.lock().unwrap().extend(rs);
            });
        }
    });
    let mut r = results.into_inner().unwrap();
    (0..ps.len()).map(|i| r.remove(&i).unwrap()).collect()
}

fn check(f: &Family, env: &Env, t: &Tools) -> i32 {
    let n = if env.thorough() { f.thorough } else { f.quick };
    let n = std::env::var("VERIF_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(n);
    let limit = Instant::now() + Duration::from_secs(if env.thorough() { 4 * 3600 } else { 420 });
    let dir = env.work.join(format!("{}-{}", f.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let known = known(env, f.id);
    let mut cov = Coverage { rule: f.rule.to_string(), ..Default::default() };
    let mut failure = None;
    let mut idx = 0;
    'all: while idx < n && Instant::now() < limit {
        let upto = n.min(idx + 160);
        let mut recs = Vec::new();
        let ps: Vec<Program> = (idx..upto)
            .map(|i| {
                let mut s = Src::random(case_seed(env.seed, f.id, i as u64));
                let p = (f.gen)(&mut s);
                recs.push((s.rec, s.spans));
                p
            })
            .collect();
        let rs = judge_all(t, &dir, &ps, 10);
        for (i, r) in rs.into_iter().enumerate() {
            let p = &ps[i];
            cov.evaluations += 1;
            for l in p.labels.iter().collect::<std::collections::HashSet<_>>() {
                *cov.labels.entry(l.to_string()).or_insert(0) += 1;
            }
            if let Some((what, _)) = &p.reject {
                *cov.labels.entry(format!("refused: {what}")).or_insert(0) += 1;
            }
            if p.nontrivial {
                let h = recs[i].0.iter().fold(0, |h, c| mix(h, *c));
                cov.prints.insert(h);
                if cov.samples.len() < 3 && i > 3 && p.module.len() < 4000 {
                    cov.samples.push(p.module.clone());
                }
            }
            if let Err(e) = r {
                if known.iter().any(|(s, _)| *s == e.sig) {
                    *cov.known_hits.entry(e.sig).or_insert(0) += 1;
                } else {
                    failure = Some((recs[i].clone(), e));
                    break 'all;
                }
            }
        }
        idx = upto;
    }
    let failure = failure.map(|((rec, spans), e)| {
        let path = replay_path(env, f.id);
        write_replay(&path, f.id, &e, &rec, &[]);
        let until = Instant::now() + Duration::from_secs(60);
        let mut last = e.clone();
        let best = shrink(rec, spans, 300, |c| {
            if Instant::now() > until {
                return None;
            }
            let mut s = Src::replay(c.to_vec());
            let p = (f.gen)(&mut s);
            match judge_all(t, &dir, &[p], 1).remove(0) {
                Err(g) if g.sig == e.sig => {
                    last = g;
                    Some((s.rec, s.spans))
                }
                _ => None,
            }
        });
        let p = (f.gen)(&mut Src::replay(best.clone()));
        write_replay(&path, f.id, &last, &best, &text(&p));
        (last, path)
    });
    let _ = std::fs::remove_dir_all(&dir);
    finish(env, f.id, &cov, failure)
}

fn text(p: &Program) -> Vec<String> {
    let mut v: Vec<String> = p.module.lines().map(|l| l.to_string()).collect();
    if let Some((what, r)) = &p.reject {
        v.push(format!("---- and, to be refused as {what}:"));
        v.extend(r.lines().map(|l| l.to_string()));
    }
    v
}

pub fn main(all: &[Family]) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let env = Env::new();
    let find = |id: &str| *all.iter().find(|f| f.id == id).expect("no such property");
    let t = match tools(&env) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("no verdict: {e}");
            std::process::exit(2)
        }
    };
    let code = match a[..] {
        ["check", id] => check(&find(id), &env, &t),
        ["show", id, n] => {
            let mut s = Src::random(case_seed(env.seed, id, n.parse().unwrap()));
            println!("{}", text(&(find(id).gen)(&mut s)).join("\n"));
            0
        }
        ["replay", file] => {
            let (id, choices) = read_choices(Path::new(file));
            let f = find(&id);
            let p = (f.gen)(&mut Src::replay(choices));
            println!("{}", text(&p).join("\n"));
            let dir = env.work.join(format!("{}-{}", f.id, std::process::id()));
            let r = judge_all(&t, &dir, &[p], 1).remove(0);
            let _ = std::fs::remove_dir_all(&dir);
            match r {
                Ok(()) => 0,
                Err(e) => {
                    println!("failed [{}]: {}", e.sig, e.msg);
                    println!("VIOLATION property={id} replay={file}");
                    1
                }
            }
        }
        _ => 2,
    };
    std::process::exit(code)
}
