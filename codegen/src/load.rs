//! Loads the library under test, as a C program would, and lets the checks in it run.
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::os::unix::ffi::OsStrExt;

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
const RTLD_NOW_GLOBAL: c_int = 0x2 | 0x100;

fn main() {
    let exe = std::env::current_exe().unwrap();
    let lib = exe.with_file_name("libverif_codegen.so");
    let name = CString::new(lib.as_os_str().as_bytes()).unwrap();
    unsafe {
        let h = dlopen(name.as_ptr(), RTLD_NOW_GLOBAL);
        if h.is_null() {
            eprintln!("{}", CStr::from_ptr(dlerror()).to_string_lossy());
            std::process::exit(2);
        }
        let f = dlsym(h, b"verif_main\0".as_ptr() as *const c_char);
        assert!(!f.is_null(), "the library has no verif_main");
        let f: extern "C" fn() = std::mem::transmute(f);
        f()
    }
}
