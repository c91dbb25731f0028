//! Runs a property: splits its cases over worker processes (so that a crash of the code under test
//! is a finding and not the end of the check), collects what they covered, shrinks, reports.
use crate::pbt::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Env {
    pub verif: PathBuf,
    pub work: PathBuf,
    pub seed: u64,
    pub tier: String,
    pub start: Instant,
}
impl Env {
    pub fn new() -> Self {
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let work = PathBuf::from(
            std::env::var("VERIF_WORK").unwrap_or_else(|_| verif.join("target/work").display().to_string()),
        );
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough".to_string(),
            _ => "quick".to_string(),
        };
        Env { verif, work, seed: seed as u64, tier, start: Instant::now() }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o
}

/// (property, signature) pairs of genuine defects that are recorded and not repaired.
pub fn known(env: &Env, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(env.verif.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(" sig="))
        .filter(|(p, _)| *p == id)
        .map(|(_, r)| {
            let (sig, what) = r.split_once(' ').unwrap_or((r, ""));
            (sig.to_string(), what.to_string())
        })
        .collect()
}

#[derive(Default)]
pub struct Coverage {
    pub evaluations: u64,
    pub prints: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: BTreeMap<String, u64>,
    pub known_hits: BTreeMap<String, u64>,
}

pub fn write_evidence(env: &Env, id: &str, c: &Coverage, violations: u64) {
    let mut s = String::new();
    write!(
        s,
        "{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":\"{}\",\"samples\":[{}],\"classes\":{{{}}}",
        env.tier,
        env.seed as i64,
        c.evaluations,
        c.prints.len(),
        esc(&c.rule),
        c.samples.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","),
        c.labels.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(","),
    )
    .unwrap();
    for (k, v) in &c.extra {
        write!(s, ",\"{}\":{v}", esc(k)).unwrap();
    }
    write!(
        s,
        "}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{violations}}}\n",
        c.assumptions.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","),
        env.start.elapsed().as_secs_f64()
    )
    .unwrap();
    let dir = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), s).expect("cannot write evidence");
}

pub fn replay_path(env: &Env, id: &str) -> PathBuf {
    let dir = env.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{id}-{}-{}.txt", env.tier, env.seed as i64))
}

pub fn write_replay(path: &Path, id: &str, f: &Fail, choices: &[u64], trace: &[String]) {
    let mut s = String::new();
    writeln!(s, "property={id}").unwrap();
    writeln!(s, "sig={}", f.sig).unwrap();
    writeln!(s, "choices={}", choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    writeln!(s, "message={}", f.msg.replace('\n', "\\n")).unwrap();
    writeln!(s, "# the case, decoded:").unwrap();
    for t in trace {
        writeln!(s, "#   {}", t.replace('\n', "\\n")).unwrap();
    }
    writeln!(s, "# replay with: /verif/check replay {}", path.display()).unwrap();
    std::fs::write(path, s).expect("cannot write replay file");
}

pub fn read_choices(path: &Path) -> (String, Vec<u64>) {
    let text = std::fs::read_to_string(path).expect("cannot read replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_default().to_string();
    let ch = get("choices=").split(',').filter_map(|x| x.trim().parse().ok()).collect();
    (get("property="), ch)
}

// ---- worker side ----

pub fn worker(prop: &Prop, args: &[String], env: &Env) -> i32 {
    let w: u64 = args[0].parse().unwrap();
    let of: u64 = args[1].parse().unwrap();
    let n: u64 = args[2].parse().unwrap();
    let out = PathBuf::from(&args[3]);
    quiet_panics();
    crate::alloc::quarantine(true);
    let progress = std::fs::File::create(out.with_extension("progress")).unwrap();
    let known = known(env, prop.id);
    let mut s = String::new();
    let mut prints: Vec<u8> = Vec::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut count = 0u64;
    let mut samples = 0;
    let mut idx = w;
    let mut failure = None;
    while idx < n {
        progress.write_all_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        let seed = case_seed(env.seed, prop.id, idx);
        let mut src = Src::random(seed);
        // the first nontrivial cases past the very start are kept as samples
        let mut cx = Cx { tracing: samples < 2 && count > 3, ..Cx::default() };
        let r = run_case(prop, &mut src, &mut cx);
        count += 1;
        for (l, k) in &cx.labels {
            *labels.entry(l).or_insert(0) += k.min(&1);
        }
        if cx.nontrivial {
            prints.extend_from_slice(&cx.print.to_le_bytes());
            if cx.tracing && !cx.trace.is_empty() {
                samples += 1;
                let t: Vec<String> = cx.trace.iter().take(60).cloned().collect();
                writeln!(s, "sample={}", esc(&format!("case {idx}: {}", t.join("; ")))).unwrap();
            }
        }
        if let Err(f) = r {
            if known.iter().any(|(sig, _)| *sig == f.sig) {
                *known_hits.entry(f.sig).or_insert(0) += 1;
            } else {
                failure = Some((idx, src.rec, src.spans, f));
                break;
            }
        }
        idx += of;
    }
    writeln!(s, "count={count}").unwrap();
    for (l, k) in &labels {
        writeln!(s, "label={k} {l}").unwrap();
    }
    for (l, k) in &known_hits {
        writeln!(s, "known={k} {l}").unwrap();
    }
    if let Some((idx, rec, spans, f)) = failure {
        // keep the unshrunk one in case shrinking crashes
        let write = |f: &Fail, ch: &[u64], trace: &[String]| {
            write_replay(&out.with_extension("fail"), prop.id, f, ch, trace);
        };
        write(&f, &rec, &[]);
        let until = Instant::now() + Duration::from_secs(25);
        let best = shrink(rec, spans, 4000, |c| {
            if Instant::now() > until {
                return None;
            }
            let mut src = Src::replay(c.to_vec());
            let mut cx = Cx::default();
            match run_case(prop, &mut src, &mut cx) {
                Err(g) if !known.iter().any(|(s, _)| *s == g.sig) => Some((src.rec, src.spans)),
                _ => None,
            }
        });
        let mut src = Src::replay(best.clone());
        let mut cx = Cx { tracing: true, ..Cx::default() };
        match run_case(prop, &mut src, &mut cx) {
            Err(g) => write(&g, &best, &cx.trace),
            Ok(()) => (), // does not repeat in this process: the unshrunk one stays
        }
        writeln!(s, "failed={idx}").unwrap();
    }
    std::fs::write(out.with_extension("prints"), prints).unwrap();
    std::fs::write(&out, s).unwrap();
    0
}

/// Runs one sequence of choices; exit 0 held, 1 failed. Used for replays and for crashes.
pub fn one(prop: &Prop, src: Src, verbose: bool, echo: Option<PathBuf>) -> i32 {
    quiet_panics();
    crate::alloc::quarantine(true);
    let mut src = src;
    if let Some(p) = echo {
        src.echo_to(std::fs::File::create(p).unwrap());
    }
    let mut cx = Cx { tracing: verbose, ..Cx::default() };
    let r = run_case(prop, &mut src, &mut cx);
    if verbose {
        for t in &cx.trace {
            println!("  {t}");
        }
    }
    match r {
        Ok(()) => 0,
        Err(f) => {
            println!("failed [{}]: {}", f.sig, f.msg);
            1
        }
    }
}

// ---- parent side ----

enum End {
    Ok,
    Crash(i32),
    Hang,
    Lost(String),
}

/// How long one case may take before it counts as hanging; cases take milliseconds, shrinking half
/// a minute
const STALL: Duration = Duration::from_secs(75);

fn wait(mut c: std::process::Child, until: Instant, progress: Option<&Path>) -> End {
    let mut seen = (Vec::new(), Instant::now());
    loop {
        if let Some(p) = progress {
            let now = std::fs::read(p).unwrap_or_default();
            if now != seen.0 {
                seen = (now, Instant::now());
            } else if !seen.0.is_empty() && seen.1.elapsed() > STALL {
                let _ = c.kill();
                let _ = c.wait();
                return End::Hang;
            }
        }
        match c.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(0), _) => End::Ok,
                    (Some(k), _) => End::Lost(format!("worker exited with {k}")),
                    // the out-of-memory guard and outside interference use KILL and TERM
                    (_, Some(s)) if s == 9 || s == 15 => End::Lost(format!("worker killed by signal {s}")),
                    (_, s) => End::Crash(s.unwrap_or(0)),
                };
            }
            Ok(None) => {
                if Instant::now() > until {
                    let _ = c.kill();
                    let _ = c.wait();
                    return End::Lost("worker timed out".into());
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(e) => return End::Lost(e.to_string()),
        }
    }
}


pub fn jobs() -> u64 {
    std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8)
}

pub fn finish(env: &Env, id: &str, cov: &Coverage, failure: Option<(Fail, PathBuf)>) -> i32 {
    for (sig, what) in known(env, id) {
        if cov.known_hits.contains_key(&sig) {
            println!("KNOWN-FINDING: property={id} {sig} {what}");
        }
    }
    write_evidence(env, id, cov, failure.is_some() as u64);
    println!(
        "{id}: {} cases, {} distinct non-trivial, {:.1} s",
        cov.evaluations,
        cov.prints.len(),
        env.start.elapsed().as_secs_f64()
    );
    match failure {
        None => 0,
        Some((f, path)) => {
            println!("[{}] {}", f.sig, f.msg);
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
    }
}

pub fn check(prop: &Prop, env: &Env) -> i32 {
    let n = if env.thorough() { prop.thorough } else { prop.quick };
    let n = std::env::var("VERIF_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(n);
    let limit = Instant::now() + Duration::from_secs(if env.thorough() { 6 * 3600 } else { 700 });
    let dir = env.work.join(format!("{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("cannot create work directory");
    let exe = std::env::current_exe().unwrap();
    let of = jobs();
    let mut kids = Vec::new();
    for w in 0..of {
        let out = dir.join(format!("w{w}"));
        let c = Command::new(&exe)
            .args(["worker", prop.id, &w.to_string(), &of.to_string(), &n.to_string()])
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(out.with_extension("err")).unwrap())
            .spawn()
            .expect("cannot start worker");
        kids.push((w, out, c));
    }
    let mut cov = Coverage { rule: prop.rule.to_string(), ..Default::default() };
    let mut failures: Vec<(u64, PathBuf)> = Vec::new();
    let mut crash: Option<(u64, i32)> = None;
    let mut lost = None;
    for (_, out, c) in kids {
        match wait(c, limit, Some(&out.with_extension("progress"))) {
            End::Ok => {
                let text = std::fs::read_to_string(&out).unwrap_or_default();
                for l in text.lines() {
                    if let Some(v) = l.strip_prefix("count=") {
                        cov.evaluations += v.parse::<u64>().unwrap_or(0);
                    } else if let Some(v) = l.strip_prefix("label=") {
                        let (k, name) = v.split_once(' ').unwrap();
                        *cov.labels.entry(name.into()).or_insert(0) += k.parse::<u64>().unwrap();
                    } else if let Some(v) = l.strip_prefix("known=") {
                        let (k, name) = v.split_once(' ').unwrap();
                        *cov.known_hits.entry(name.into()).or_insert(0) += k.parse::<u64>().unwrap();
                    } else if let Some(v) = l.strip_prefix("sample=") {
                        if cov.samples.len() < 4 {
                            cov.samples.push(unesc(v));
                        }
                    } else if let Some(v) = l.strip_prefix("failed=") {
                        failures.push((v.parse().unwrap(), out.with_extension("fail")));
                    }
                }
                for p in std::fs::read(out.with_extension("prints")).unwrap_or_default().chunks_exact(8) {
                    cov.prints.insert(u64::from_le_bytes(p.try_into().unwrap()));
                }
            }
            end @ (End::Crash(_) | End::Hang) => {
                let sig = if let End::Crash(s) = end { s } else { 0 };
                let idx = std::fs::read(out.with_extension("progress"))
                    .ok()
                    .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
                    .unwrap_or(0);
                cov.evaluations += idx / of;
                if crash.map_or(true, |(i, _)| idx < i) {
                    crash = Some((idx, sig));
                }
            }
            End::Lost(why) => lost = Some(format!("{why}; stderr: {}", std::fs::read_to_string(out.with_extension("err")).unwrap_or_default())),
        }
    }
    if let Some(why) = lost {
        if failures.is_empty() && crash.is_none() {
            eprintln!("{}: no verdict: {why}", prop.id);
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
    }
    failures.sort();
    let path = replay_path(env, prop.id);
    let mut failure = None;
    if let Some((_, f)) = failures.first() {
        let text = std::fs::read_to_string(f).expect("cannot read replay");
        let text = text.replace(&f.display().to_string(), &path.display().to_string());
        std::fs::write(&path, &text).expect("cannot write replay");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_default().to_string();
        failure = Some((Fail { sig: get("sig="), msg: get("message=") }, path));
    } else if let Some((idx, sig)) = crash {
        if idx == 0 {
            eprintln!("{}: worker died with signal {sig} before its first case", prop.id);
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
        match shrink_crash(prop, env, idx - 1, &dir) {
            Some((choices, trace)) => {
                let f = match sig {
                    0 => Fail { sig: "hang".into(), msg: "the case does not end".into() },
                    _ => Fail { sig: "crash".into(), msg: format!("the process dies with signal {sig}") },
                };
                write_replay(&path, prop.id, &f, &choices, &trace);
                failure = Some((f, path));
            }
            // The case alone does not do it: it takes those the worker ran before
            None if again(prop, env, (idx - 1) % of, of, idx, &dir) => {
                let f = Fail { sig: "crash".into(), msg: format!("the process dies with signal {sig}, in a series of cases") };
                let mut s = format!("property={}\nsig={}\nmessage={}\n", prop.id, f.sig, f.msg);
                writeln!(s, "series={} {of} {idx} {}", (idx - 1) % of, env.seed as i64).unwrap();
                writeln!(s, "# replay with: /verif/check replay {}", path.display()).unwrap();
                std::fs::write(&path, s).expect("cannot write replay");
                failure = Some((f, path));
            }
            None => {
                eprintln!("{}: a worker died with signal {sig} in case {}, which does not repeat", prop.id, idx - 1);
                let _ = std::fs::remove_dir_all(&dir);
                return 2;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    finish(env, prop.id, &cov, failure)
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'))
            }
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

/// Runs choices in a process of their own; whether it died or failed, and what it drew
fn isolated(prop: &Prop, dir: &Path, how: &[String]) -> (bool, Vec<u64>) {
    let echo = dir.join("echo");
    let _ = std::fs::remove_file(&echo);
    let c = Command::new(std::env::current_exe().unwrap())
        .arg("one")
        .arg(prop.id)
        .arg(&echo)
        .args(how)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let bad = !matches!(wait(c, Instant::now() + Duration::from_secs(20), None), End::Ok);
    let used = std::fs::read_to_string(&echo).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
    (bad, used)
}

/// Whether the worker that runs these cases dies
fn again(prop: &Prop, env: &Env, w: u64, of: u64, n: u64, dir: &Path) -> bool {
    let c = Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop.id, &w.to_string(), &of.to_string(), &n.to_string()])
        .arg(dir.join("again"))
        .env("VERIF_SEED", (env.seed as i64).to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    matches!(wait(c, Instant::now() + Duration::from_secs(300), None), End::Crash(_))
}

/// Replays what a replay file describes; `None` if it is not a series of cases
pub fn replay_series(prop: &Prop, file: &Path) -> Option<i32> {
    let text = std::fs::read_to_string(file).ok()?;
    let v: Vec<i64> = text.lines().find_map(|l| l.strip_prefix("series="))?.split(' ').map(|x| x.parse().unwrap()).collect();
    let env = Env { seed: v[3] as u64, ..Env::new() };
    let dir = env.work.join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).ok()?;
    let bad = again(prop, &env, v[0] as u64, v[1] as u64, v[2] as u64, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    Some(bad as i32)
}

fn shrink_crash(prop: &Prop, env: &Env, idx: u64, dir: &Path) -> Option<(Vec<u64>, Vec<String>)> {
    let (bad, used) = isolated(prop, dir, &["case".into(), case_seed(env.seed, prop.id, idx).to_string()]);
    if !bad {
        return None;
    }
    let until = Instant::now() + Duration::from_secs(40);
    let file = dir.join("try");
    let write = |c: &[u64]| {
        let f = Fail { sig: String::new(), msg: String::new() };
        write_replay(&file, prop.id, &f, c, &[]);
    };
    let best = shrink(used, vec![], 600, |c| {
        if Instant::now() > until {
            return None;
        }
        write(c);
        let (bad, used) = isolated(prop, dir, &["file".into(), file.display().to_string()]);
        bad.then(|| (used, vec![]))
    });
    Some((best, vec!["(a crash has no decoded history; the replay command prints none)".into()]))
}
