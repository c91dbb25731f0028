//! The C API, used as C uses it: through the exported symbols of a shared library.
#![allow(clippy::all)]
mod abi;
mod baseline;
mod contracts;
mod header;
mod heap;
mod strings;

use rsharp as _;
use tp_contract_example as _;
use unity_states as _;

#[no_mangle]
pub extern "C" fn verif_main() {
    harness::run(&[baseline::P20, heap::P21, strings::P22, heap::P23, contracts::P24, header::P25])
}
