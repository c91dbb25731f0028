//! Calling convention and naming of the C API, as a user of the header has them.
use harness::pbt::*;
use harness::values::*;
use std::ffi::{c_char, c_int, c_void, CString};
use tp_client::contract::properties::channels::{Channel, Keyframe};

pub type P = *mut c_void;

extern "C" {
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn setrlimit(what: c_int, lim: *const [u64; 2]) -> c_int;
    fn _exit(code: c_int) -> !;
}

pub fn sym(name: &str) -> Result<*mut c_void, Fail> {
    let c = CString::new(name).unwrap();
    let p = unsafe { dlsym(std::ptr::null_mut(), c.as_ptr()) };
    if p.is_null() {
        return fail("symbol", format!("the library exports no `{name}`"));
    }
    Ok(p)
}

/// `c!(name, fn(A, B) -> R)(a, b)` calls an exported function
#[macro_export]
macro_rules! c {
    ($name:expr, fn($($t:ty),*) $(-> $r:ty)?) => {{
        let p = $crate::abi::sym(&$name)?;
        unsafe { std::mem::transmute::<*mut std::ffi::c_void, extern "C" fn($($t),*) $(-> $r)?>(p) }
    }};
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Slice<T> {
    pub ptr: *const T,
    pub len: usize,
}
impl<T> Slice<T> {
    pub fn of(v: &[T]) -> Self {
        Slice { ptr: v.as_ptr(), len: v.len() }
    }
    pub fn get<'a>(self) -> Result<&'a [T], Fail> {
        if self.ptr.is_null() {
            return fail("null", "a slice at null");
        }
        Ok(unsafe { std::slice::from_raw_parts(self.ptr, self.len) })
    }
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CVec<T> {
    pub ptr: *mut T,
    pub len: usize,
    pub cap: usize,
}
impl<T> CVec<T> {
    pub fn get<'a>(&self) -> Result<&'a [T], Fail> {
        if self.ptr.is_null() {
            return fail("null", "a vector at null");
        }
        Ok(unsafe { std::slice::from_raw_parts(self.ptr, self.len) })
    }
    /// The C API has no function that releases this kind of vector
    pub fn release(self) {
        unsafe { drop(Vec::from_raw_parts(self.ptr, self.len, self.cap)) }
    }
}

/// How a process ended that made this call: `None` if the call returned
pub fn ends(f: impl FnOnce()) -> Option<i32> {
    unsafe {
        let pid = fork();
        if pid == 0 {
            setrlimit(4, &[0, 0]); // no core file
            close(1);
            close(2);
            f();
            _exit(0)
        }
        assert!(pid > 0, "cannot fork");
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        match st & 0x7f {
            0 if st == 0 => None,
            0 => Some(0),
            sig => Some(sig),
        }
    }
}
/// The call must not return, and must not be stopped by the machine either
pub fn refused(what: impl Fn() -> String, f: impl FnOnce()) -> Res {
    match ends(f) {
        None => fail("accepted", format!("{} returns", what())),
        Some(sig @ (4 | 7 | 8 | 11)) => fail("crash", format!("{} dies with signal {sig}", what())),
        Some(_) => Ok(()),
    }
}

/// The types the C API has instances for
pub trait CPrim: Prim + PropT {
    const N: &'static str;
    /// A new C value that owns this
    fn boxed(&self) -> Result<P, Fail>;
    fn read(p: *const c_void) -> Result<Self, Fail>;
    fn free(p: P) -> Res;
}
macro_rules! value {
    ($($t:ident $n:literal),*) => { $(impl CPrim for $t {
        const N: &'static str = $n;
        fn boxed(&self) -> Result<P, Fail> {
            let p = c!(concat!("rsharp__Box_", $n, "__new"), fn($t) -> P)(*self);
            if p.is_null() { return fail("null", "a box at null") }
            Ok(p)
        }
        fn read(p: *const c_void) -> Result<Self, Fail> {
            if p.is_null() { return fail("null", "a value at null") }
            if std::mem::size_of::<$t>() == 1 {
                let b = unsafe { *(p as *const u8) };
                if stringify!($t) == "bool" && b > 1 { return fail("bool", format!("a bool that is {b}")) }
            }
            Ok(unsafe { *(p as *const $t) })
        }
        fn free(p: P) -> Res {
            Ok(c!(concat!("rsharp__Box_", $n, "__drop"), fn(P))(p))
        }
    })* };
}
value!(u8 "U8", u16 "U16", u32 "U32", u64 "U64", i8 "I8", i16 "I16", i32 "I32", i64 "I64", bool "Bool", f32 "F32", f64 "F64");

pub fn str_bytes<'a>(p: *const c_void) -> Result<&'a [u8], Fail> {
    if p.is_null() {
        return fail("null", "a string at null");
    }
    c!("rsharp__String__value", fn(*const c_void) -> Slice<u8>)(p).get()
}
impl CPrim for String {
    const N: &'static str = "String";
    fn boxed(&self) -> Result<P, Fail> {
        // both encodings are as good
        let p = if self.len() % 3 == 2 {
            let u: Vec<u16> = self.encode_utf16().collect();
            c!("rsharp__String__copy_utf16", fn(Slice<u16>) -> P)(Slice::of(&u))
        } else {
            c!("rsharp__String__copy_utf8", fn(Slice<u8>) -> P)(Slice::of(self.as_bytes()))
        };
        if p.is_null() {
            return fail("null", "a string at null");
        }
        Ok(p)
    }
    fn read(p: *const c_void) -> Result<Self, Fail> {
        match String::from_utf8(str_bytes(p)?.to_vec()) {
            Ok(s) => Ok(s),
            Err(e) => fail("utf8", format!("a string that is not valid: {e}")),
        }
    }
    fn free(p: P) -> Res {
        Ok(c!("rsharp__String__drop", fn(P))(p))
    }
}
macro_rules! handle {
    ($t:ty, $n:literal, $drop:literal) => {
        impl CPrim for $t {
            const N: &'static str = $n;
            fn boxed(&self) -> Result<P, Fail> {
                Ok(Box::into_raw(Box::new(*self)) as P)
            }
            fn read(p: *const c_void) -> Result<Self, Fail> {
                if p.is_null() {
                    return fail("null", "a handle at null");
                }
                Ok(unsafe { *(p as *const $t) })
            }
            fn free(p: P) -> Res {
                Ok(c!($drop, fn(P))(p))
            }
        }
    };
}
handle!(tp_client::object::ObjectHandle, "ObjectHandle", "tp_client__object__ObjectHandle__drop");
handle!(tp_client::contract::ContractDataHandle, "ContractDataHandle", "tp_client__contract__ContractDataHandle__drop");

pub const ST: &str = "tp_client__contract__properties__states__";
pub const CH: &str = "tp_client__contract__properties__channels__";
pub const BL: &str = "tp_client__baseline__Baseline__";
pub const CO: &str = "tp_client__contract__";

/// A name like `..channels__Keyframe_U8__new`
pub fn of<T: CPrim>(ns: &str, what: &str, f: &str) -> String {
    if what == "RVec" {
        format!("{ns}RVec_Keyframe{}__{f}", T::N)
    } else {
        format!("{ns}{what}_{}__{f}", T::N)
    }
}

/// What a keyframe says of itself through the C API
pub fn kf_read<T: CPrim>(k: *const c_void) -> Result<(Val, u64), Fail> {
    if k.is_null() {
        return fail("null", "a keyframe at null");
    }
    let v = c!(of::<T>(CH, "Keyframe", "value"), fn(*const c_void) -> *const c_void)(k);
    let t = c!(of::<T>(CH, "Keyframe", "time"), fn(*const c_void) -> f64)(k);
    Ok((T::read(v)?.val(), t.to_bits()))
}
pub fn kf_new<T: CPrim>(v: &T, t: f64) -> Result<P, Fail> {
    let v = v.boxed()?;
    Ok(c!(of::<T>(CH, "Keyframe", "new"), fn(P, f64) -> P)(v, t))
}
pub fn chan_read<T: CPrim>(ch: P, mutably: bool) -> Result<Chan, Fail> {
    if ch.is_null() {
        return fail("null", "a channel at null");
    }
    let f = if mutably { "keyframes_mut" } else { "keyframes" };
    let v = c!(of::<T>(CH, "Channel", f), fn(P) -> CVec<P>)(ch);
    let mut kfs = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for k in v.get()? {
        if !seen.insert(*k as usize) {
            return fail("keyframes", "a keyframe is listed twice");
        }
        kfs.push(kf_read::<T>(*k)?);
    }
    v.release();
    Ok(Chan { ty: T::key(), kfs })
}

/// `with_prim!(key, T => expr)` for the 14 types without `Vec`
#[macro_export]
macro_rules! with_prim {
    ($key:expr, $T:ident => $e:expr) => {
        match $key {
            0 => { type $T = u8; $e }
            1 => { type $T = u16; $e }
            2 => { type $T = u32; $e }
            3 => { type $T = u64; $e }
            4 => { type $T = i8; $e }
            5 => { type $T = i16; $e }
            6 => { type $T = i32; $e }
            7 => { type $T = i64; $e }
            8 => { type $T = bool; $e }
            9 => { type $T = f32; $e }
            10 => { type $T = f64; $e }
            11 => { type $T = String; $e }
            12 => { type $T = tp_client::object::ObjectHandle; $e }
            13 => { type $T = tp_client::contract::ContractDataHandle; $e }
            k => unreachable!("primitive type key {k}"),
        }
    };
}

#[allow(unused)]
fn _types(_: Channel<u8>, _: Keyframe<u8>) {}
