//! P08, P26, P29, P32, P33: programs written from choices, compiled against the macros of the repository, run.
mod apply;
mod borrow;
mod decl;
mod driver;
mod macros;
mod typed;

fn main() {
    driver::main(&[decl::FAMILY, macros::FAMILY, borrow::FAMILY, typed::FAMILY, apply::FAMILY])
}
