//! P22: strings over the C boundary
use crate::abi::*;
use crate::c;
use harness::ensure;
use harness::pbt::*;
use harness::world::leak_checked;
use std::ffi::c_void;

pub const P22: Prop = Prop {
    id: "P22",
    title: "strings cross the C boundary unchanged",
    rule: "a string with a character beyond ASCII crossed, or an invalid one was refused",
    quick: 60_000,
    thorough: 600_000,
    run: p22,
};

fn copy8(b: &[u8]) -> Result<P, Fail> {
    Ok(c!("rsharp__String__copy_utf8", fn(Slice<u8>) -> P)(Slice::of(b)))
}
fn copy16(b: &[u16]) -> Result<P, Fail> {
    Ok(c!("rsharp__String__copy_utf16", fn(Slice<u16>) -> P)(Slice::of(b)))
}
fn free(p: P) -> Res {
    Ok(c!("rsharp__String__drop", fn(P))(p))
}

/// Bytes near valid UTF-8
fn bytes(s: &mut Src) -> Vec<u8> {
    let mut b = s.string().into_bytes();
    const ODD: [&[u8]; 22] = [
        b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x8f\xbf\xbf",
        b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98",
        b"\xe2\x28\xa1", b"\xf0\x28\x8c\xbc", b"\xed\xa0\x80\xed\xb0\x80", b"\xf8\x88\x80\x80\x80", b"\xfc", b"\xef\xbf\xbe",
    ];
    for _ in 0..1 + s.below(2) {
        match s.weighted(&[3, 2, 2, 1]) {
            0 => {
                let i = s.below(b.len() + 1);
                let o = *s.pick(&ODD);
                b.splice(i..i, o.iter().copied());
            }
            1 if !b.is_empty() => {
                let i = s.below(b.len());
                b[i] ^= 1 << s.below(8);
            }
            2 if !b.is_empty() => {
                let n = s.below(b.len());
                b.truncate(n)
            }
            _ => (0..s.below(5)).for_each(|_| b.push(s.draw(255) as u8)),
        }
    }
    b
}
fn units(s: &mut Src) -> Vec<u16> {
    let mut u: Vec<u16> = s.string().encode_utf16().collect();
    for _ in 0..1 + s.below(2) {
        match s.weighted(&[4, 2, 2]) {
            0 => {
                let i = s.below(u.len() + 1);
                let x = *s.pick(&[0xd800u16, 0xdfff, 0xdbff, 0xdc00, 0xd83d, 0xde00, 0, 0xffff, 0xfffe, 0xe000, 0xd7ff]);
                u.insert(i, x);
            }
            1 if u.len() > 1 => {
                let i = s.below(u.len() - 1);
                u.swap(i, i + 1);
            }
            _ => u.push(s.draw(0xffff) as u16),
        }
    }
    u
}

fn p22(s: &mut Src, cx: &mut Cx) -> Res {
    // what is refused ends a process, so that only the others can leave something behind
    if s.weighted(&[5, 5]) == 0 {
        leak_checked(s, cx, valid)
    } else {
        p22_case(s, cx)
    }
}

/// Rarely, a string of up to 200,000 characters
fn long(s: &mut Src) -> Option<String> {
    if s.draw(499) < 499 {
        return None;
    }
    let n = *s.pick(&[300usize, 70_000, 5_000, 33_000, 200_000]);
    let mut x = String::new();
    let piece = s.string() + "a";
    while x.len() < n {
        x.push_str(&piece)
    }
    Some(x + &s.string())
}
fn brief(x: &str) -> String {
    if x.len() <= 2_000 {
        return format!("{x:?}");
    }
    format!("a string of {} bytes that begins with {:?}", x.len(), x.chars().take(50).collect::<String>())
}

fn valid(s: &mut Src, cx: &mut Cx) -> Res {
    let x = long(s);
    if x.is_some() {
        cx.label("long");
    }
    let x = x.unwrap_or_else(|| s.string());
    let wide = s.bool();
    cx.op(|| format!("copy {} from {}", brief(&x), if wide { "UTF-16" } else { "UTF-8" }));
    cx.label(if wide { "from UTF-16" } else { "from UTF-8" });
    cx.nontrivial_if(!x.is_ascii());
    let p = if wide {
        let mut u: Vec<u16> = x.encode_utf16().collect();
        let p = copy16(&u)?;
        // the copy does not share the source
        u.iter_mut().for_each(|c| *c = 0x58);
        p
    } else {
        let mut b = x.clone().into_bytes();
        let p = copy8(&b)?;
        b.iter_mut().for_each(|c| *c = b'X');
        p
    };
    ensure!(!p.is_null(), "null", "the copy is null");
    let v = str_bytes(p)?.to_vec();
    ensure!(v == x.as_bytes(), "value", "{} arrives as {}", brief(&x), brief(&String::from_utf8_lossy(&v)));
    // reading does not change it
    let q = str_bytes(p)?.to_vec();
    ensure!(q == v, "value", "the second reading gives {}", brief(&String::from_utf8_lossy(&q)));
    // and back through Rust
    let r: &rsharp::string::String = unsafe { &*(p as *const c_void as *const rsharp::string::String) };
    let std: &String = r.into();
    ensure!(*std == x, "value", "Rust sees {} where C sees {}", brief(std), brief(&x));
    let back: &rsharp::string::String = std.into();
    ensure!(std::ptr::eq(back, r), "value", "a reference converts to another place");
    free(p)
}

fn p22_case(s: &mut Src, cx: &mut Cx) -> Res {
    match s.weighted(&[3, 2]) {
        0 => {
            let mut b = bytes(s);
            if let Some(x) = long(s) {
                // what is odd comes at the end, or in between
                let mut y = x.into_bytes();
                y.extend(b);
                b = y;
                b.extend(s.string().into_bytes());
                cx.label("long");
            }
            cx.op(|| format!("copy the {} bytes {:02x?}", b.len(), &b[..b.len().min(500)]));
            match std::str::from_utf8(&b) {
                Ok(x) => {
                    cx.label("mangled and still valid");
                    let p = copy8(&b)?;
                    ensure!(!p.is_null(), "null", "the copy is null");
                    let v = str_bytes(p)?.to_vec();
                    ensure!(v == b, "value", "{} arrives as {}", brief(&x), brief(&String::from_utf8_lossy(&v)));
                    free(p)
                }
                Err(_) => {
                    cx.label("invalid UTF-8");
                    cx.nontrivial();
                    sym("rsharp__String__copy_utf8")?;
                    refused(|| format!("copying {} bytes, invalid, {:02x?}", b.len(), &b[..b.len().min(500)]), || drop(copy8(&b)))
                }
            }
        }
        _ => {
            let mut u = units(s);
            if let Some(x) = long(s) {
                u = x.encode_utf16().chain(u).collect();
                cx.label("long");
            }
            cx.op(|| format!("copy the {} units {:04x?}", u.len(), &u[..u.len().min(500)]));
            match String::from_utf16(&u) {
                Ok(x) => {
                    cx.label("mangled and still valid");
                    let p = copy16(&u)?;
                    ensure!(!p.is_null(), "null", "the copy is null");
                    let v = str_bytes(p)?.to_vec();
                    ensure!(v == x.as_bytes(), "value", "{} arrives as {}", brief(&x), brief(&String::from_utf8_lossy(&v)));
                    free(p)
                }
                Err(_) => {
                    cx.label("invalid UTF-16");
                    cx.nontrivial();
                    sym("rsharp__String__copy_utf16")?;
                    refused(|| format!("copying {} units, invalid, {:04x?}", u.len(), &u[..u.len().min(500)]), || drop(copy16(&u)))
                }
            }
        }
    }
}
