//! Builds the generators and gives every process a place of its own to run them in.
//!
//! A generator writes to a place relative to its own source, fixed when it is compiled. They are
//! compiled once from a copy, in `lane--`; a process takes a free lane, whose copies of the
//! programs have its name in place of that one.
use harness::runner::Env;
use std::fs::File;
use std::io::Write as _;
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::sync::OnceLock;

extern "C" {
    fn flock(fd: i32, op: i32) -> i32;
}
const EXCLUSIVE: i32 = 2;
const NO_WAIT: i32 = 4;

const CRATES: [&str; 2] = ["client/codegen_wrapped", "crates/rsharp/codegen"];
pub const BINS: [&str; 3] = ["cs_codegen", "rsharp_codegen", "probe"];

fn root() -> PathBuf {
    Env::new().work.join("codegen")
}

fn lock(name: &str, how: i32) -> Option<File> {
    let dir = root();
    std::fs::create_dir_all(&dir).unwrap();
    let f = File::create(dir.join(name)).unwrap();
    (unsafe { flock(f.as_raw_fd(), how) } == 0).then_some(f)
}

fn put(to: &Path, what: &[u8]) {
    if std::fs::read(to).ok().as_deref() != Some(what) {
        std::fs::create_dir_all(to.parent().unwrap()).unwrap();
        std::fs::write(to, what).unwrap();
    }
}

/// Makes `to` what `from` is, leaving alone what is the same
fn mirror(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    let mut names = vec![];
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let (p, t) = (e.path(), to.join(e.file_name()));
        names.push(e.file_name());
        if p.is_dir() {
            mirror(&p, &t);
        } else {
            put(&t, &std::fs::read(&p).unwrap());
        }
    }
    for e in std::fs::read_dir(to).unwrap().flatten() {
        if !names.contains(&e.file_name()) {
            let p = e.path();
            let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
        }
    }
}

pub fn build() -> Result<(), String> {
    let _held = lock("build.lock", EXCLUSIVE);
    let env = Env::new();
    let ws = root().join("lane--");
    for c in CRATES {
        mirror(&Path::new("/repo").join(c), &ws.join(c));
    }
    let from = env.verif.join("codegen/tools");
    for (a, b) in [("Cargo.toml.in", "Cargo.toml"), ("Cargo.lock", "Cargo.lock"), ("probe/Cargo.toml.in", "probe/Cargo.toml"), ("probe/src/main.rs", "probe/src/main.rs")] {
        put(&ws.join(b), &std::fs::read(from.join(a)).map_err(|e| e.to_string())?);
    }
    let o = Command::new("cargo")
        .args(["build", "--offline", "--locked"])
        .current_dir(&ws)
        .env("CARGO_TARGET_DIR", root().join("target"))
        .output()
        .map_err(|e| e.to_string())?;
    match o.status.success() {
        true => Ok(()),
        false => Err(format!("the generators do not build: {}", String::from_utf8_lossy(&o.stderr))),
    }
}

pub struct Lane {
    pub dir: PathBuf,
    _held: File,
}

pub fn lane() -> &'static Lane {
    static L: OnceLock<Lane> = OnceLock::new();
    L.get_or_init(|| {
        let (k, held) = (0..100)
            .find_map(|k| lock(&format!("lane{k:02}.lock"), EXCLUSIVE | NO_WAIT).map(|f| (k, f)))
            .expect("no lane is free");
        let dir = root().join(format!("lane{k:02}"));
        let _ = std::fs::remove_dir_all(&dir);
        for b in BINS {
            let mut code = std::fs::read(root().join("target/debug").join(b)).expect("the generators are not built");
            let (from, to) = (b"/codegen/lane--", format!("/codegen/lane{k:02}"));
            let mut i = 0;
            while i + from.len() <= code.len() {
                if &code[i..i + from.len()] == from {
                    code[i..i + from.len()].copy_from_slice(to.as_bytes());
                    i += from.len();
                } else {
                    i += 1;
                }
            }
            let to = dir.join("bin").join(b);
            put(&to, &code);
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        Lane { dir, _held: held }
    })
}

impl Lane {
    /// The lane as it is before a generator ran
    pub fn reset(&self) {
        for top in ["client", "crates"] {
            let _ = std::fs::remove_dir_all(self.dir.join(top));
        }
        for c in CRATES {
            let ws = root().join("lane--").join(c);
            mirror(&ws, &self.dir.join(c));
        }
    }
    pub fn run(&self, bin: &str, args: &[&str], input: &str) -> Output {
        let mut c = Command::new(self.dir.join("bin").join(bin))
            .args(args)
            .current_dir(&self.dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("cannot run a generator");
        let _ = c.stdin.take().unwrap().write_all(input.as_bytes());
        c.wait_with_output().expect("cannot run a generator")
    }
}
