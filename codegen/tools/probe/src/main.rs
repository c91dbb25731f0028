//! Uses the library of the generator as its own binary does, with whatever data it is given.
use cs_codegen::{ClassData, Codegen};
use serde_json::{Map, Value};
use std::io::Read;

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).unwrap();
    let text = |v: &Value| v.as_str().unwrap().to_string();
    let c = match Codegen::new(v["partial"].as_str().unwrap(), v["force"].as_bool().unwrap()) {
        Ok(c) => c,
        Err(e) => {
            println!("new: {e}");
            return;
        }
    };
    println!("new");
    for d in v["data"].as_array().unwrap() {
        let data: ClassData<Map<String, Value>> = ClassData {
            namespace_super: text(&d["sup"]),
            namespace_sub: text(&d["sub"]),
            class_ident: text(&d["ident"]),
            only_owned: d["owned"].as_bool().unwrap(),
            new_args: text(&d["args"]),
            new_expr: d["new"].as_str().map(|s| s.to_string()),
            drop_ident: d["drop"].as_str().map(|s| s.to_string()),
            additional_methods: d["more"].as_object().cloned(),
        };
        match c.render_to_file(&data) {
            Ok(()) => println!("ok"),
            Err(_) => println!("err"),
        }
    }
}
