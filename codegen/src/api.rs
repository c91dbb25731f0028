//! The C API, as its header declares it.
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Proto {
    pub ret: String,
    pub params: Vec<String>,
}

fn parse(text: &str) -> BTreeMap<String, Proto> {
    let mut t = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("/*") {
        t += &rest[..i];
        rest = rest[i..].split_once("*/").map_or("", |x| x.1);
    }
    t += rest;
    let t: String = t.lines().filter(|l| !l.trim_start().starts_with('#')).collect::<Vec<_>>().join("\n");
    let mut v = BTreeMap::new();
    let (mut depth, mut cur) = (0, String::new());
    for c in t.chars() {
        match c {
            '{' => depth += 1,
            '}' => depth -= 1,
            ';' if depth <= 0 => {
                let one = cur.split_whitespace().collect::<Vec<_>>().join(" ");
                cur.clear();
                if let (false, Some((head, tail))) = (one.contains("typedef"), one.split_once('(')) {
                    let head = head.trim();
                    let Some(i) = head.rfind(|c: char| !c.is_alphanumeric() && c != '_') else { continue };
                    let ret = head[..=i].rsplit('"').next().unwrap().trim_start_matches(|c| c == '{' || c == ' ').trim().to_string();
                    let params = tail.trim_end_matches(')').split(',').map(|p| p.trim().to_string()).filter(|p| p != "void" && !p.is_empty()).collect();
                    v.insert(head[i + 1..].to_string(), Proto { ret, params });
                }
                continue;
            }
            _ => (),
        }
        if c == '{' && cur.trim_end().ends_with("extern \"C\"") {
            depth -= 1;
            cur.clear();
            continue;
        }
        cur.push(c);
    }
    v
}

/// A C type as it is written, without the name of a parameter: `uint8_t const *`
fn c_type(p: &str) -> String {
    let t = p.trim();
    match t.rfind(|c: char| !c.is_alphanumeric() && c != '_') {
        Some(i) if !["const", "double", "float", "bool"].contains(&&t[i + 1..]) => t[..=i].trim().to_string(),
        _ => t.to_string(),
    }
}

/// By the name with all but letters and digits left out, in lower case
pub fn api() -> &'static BTreeMap<String, (String, Proto)> {
    static A: OnceLock<BTreeMap<String, (String, Proto)>> = OnceLock::new();
    A.get_or_init(|| {
        let mut text = vec![];
        safer_ffi::headers::builder().with_guard("VERIF_API").to_writer(&mut text).generate().expect("no header");
        parse(&String::from_utf8_lossy(&text))
            .into_iter()
            .map(|(n, mut p)| {
                p.params = p.params.iter().map(|p| c_type(p)).collect();
                (key(&n), (n, p))
            })
            .collect()
    })
}

pub fn key(n: &str) -> String {
    n.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase()
}
