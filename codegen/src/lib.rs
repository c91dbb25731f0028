//! The generators of C# code: what they write, over what, and whether it fits the C API.
#![allow(clippy::all)]
mod api;
mod boxes;
mod tools;
mod tree;
mod wrapped;

use rsharp as _;
use tp_client as _;

#[no_mangle]
pub extern "C" fn verif_main() {
    if matches!(std::env::args().nth(1).as_deref(), Some("check" | "replay")) {
        if let Err(e) = tools::build() {
            eprintln!("no verdict: {e}");
            std::process::exit(2);
        }
    }
    harness::run(&[wrapped::P30, boxes::P31])
}
