#![allow(clippy::all)]
//! What the checks share. Every group of properties is a binary of its own (src/bin), so that a
//! check builds only what it runs.
pub mod alloc;
pub mod contracts;
pub mod crowd;
pub mod pbt;
pub mod programs;
pub mod runner;
pub mod values;
pub mod world;

use runner::Env;
use std::path::Path;

#[global_allocator]
static ALLOC: alloc::Checked = alloc::Checked;

/// The command line of every binary
pub fn run(all: &[pbt::Prop]) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = Env::new();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let find = |id: &str| all.iter().copied().find(|p| p.id == id);
    let code = match a.as_slice() {
        ["list"] => {
            for p in all {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        ["check", id] => match find(id) {
            Some(p) => runner::check(&p, &env),
            None => {
                eprintln!("no such property: {id}");
                2
            }
        },
        ["worker", id, ..] => runner::worker(&find(id).expect("property"), &args[2..], &env),
        ["one", id, echo, how, what] => {
            let p = find(id).expect("property");
            let src = match *how {
                "case" => pbt::Src::random(what.parse().unwrap()),
                _ => pbt::Src::replay(runner::read_choices(Path::new(what)).1),
            };
            runner::one(&p, src, false, Some(echo.into()))
        }
        ["replay", file] => {
            let (id, choices) = runner::read_choices(Path::new(file));
            let p = find(&id).expect("property");
            let code = runner::replay_series(&p, Path::new(file))
                .unwrap_or_else(|| runner::one(&p, pbt::Src::replay(choices), true, None));
            if code != 0 {
                println!("VIOLATION property={id} replay={file}");
            }
            code
        }
        _ => {
            eprintln!("usage: harness list | check ID | replay FILE");
            2
        }
    };
    std::process::exit(code)
}
