//! P30: the generator of the C# wrappers.
use crate::api::*;
use crate::boxes::VALUES;
use crate::tools::*;
use crate::tree::*;
use harness::ensure;
use harness::pbt::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::OnceLock;

pub const P30: Prop = Prop {
    id: "P30",
    title: "the C# wrappers are generated whole, fit the C API and replace nothing unasked",
    rule: "a run was refused, or one that was forced left files of others as they were, or at least two classes were rendered from data of their own",
    quick: 2_000,
    thorough: 60_000,
    run,
};

const OUT: &str = "client/cs/src/generated/wrapped";

/// A property type: its name, what owns a value of it in C#, what a pointer to it is, to what, and
/// what it is in C
pub struct Ty {
    pub name: &'static str,
    pub owned: String,
    pub raw: String,
    pub inner: String,
    pub c: String,
}

pub fn types() -> Vec<Ty> {
    let mut v: Vec<Ty> = VALUES
        .iter()
        .map(|(n, cs, c)| Ty { name: n, owned: format!("RBox_{n}"), raw: format!("{cs}*"), inner: cs.to_string(), c: c.to_string() })
        .collect();
    v.push(Ty { name: "String", owned: "RString".into(), raw: "IntPtr".into(), inner: "RString".into(), c: "String_t".into() });
    for (n, at) in [("ObjectHandle", "Object"), ("ContractDataHandle", "Contract")] {
        let cs = format!("Teleportal.Client.{at}.{n}");
        v.push(Ty { name: n, owned: cs.clone(), raw: "IntPtr".into(), inner: cs, c: format!("tp_client__{}__{n}_t", at.to_lowercase()) });
    }
    v
}

/// The data of a class
#[derive(Clone, Debug, Default)]
struct Class {
    sup: String,
    sub: String,
    ident: String,
    owned: bool,
    args: String,
    new: Option<String>,
    drop: Option<String>,
}

fn class(c: &Class, more: &str) -> String {
    let Class { sup, sub, ident, .. } = c;
    let mut t = String::from("using IntPtr = System.IntPtr;\nusing generated = tp_client.generated;\nusing RSharp;\n");
    let (params, args, base) = match c.owned {
        true => ("", "", "OwnershipSemantics.Owned"),
        false => ("OwnershipSemantics ownershipSemantics", ", ownershipSemantics", "ownershipSemantics"),
    };
    let (before, after) = if c.owned { (String::new(), String::new()) } else { (format!("{params}, "), format!(", {params}")) };
    writeln!(t, "namespace Teleportal.Client.{sup} {{ partial class ToManaged {{").unwrap();
    writeln!(t, "public static unsafe {sub}.{ident} f({before}Ptr<{sub}.{ident}> inner) {{ return new {sub}.{ident}(inner{args}); }} }} }}").unwrap();
    writeln!(t, "namespace Teleportal.Client.{sup}.{sub} {{ public sealed class {ident} : OpaqueWrapper<{ident}> {{").unwrap();
    writeln!(t, "public unsafe {ident}(Ptr<{ident}> inner{after}) : base(inner, {base}) {{ }}").unwrap();
    if let Some(e) = &c.new {
        writeln!(t, "public unsafe {ident}({}) : base(new Ptr<{ident}>({e}), OwnershipSemantics.Owned) {{ }}", c.args).unwrap();
    }
    writeln!(t, "override protected void NativeDrop(Ptr<{ident}> inner) {{").unwrap();
    if let Some(d) = &c.drop {
        writeln!(t, "{d}(inner.p);").unwrap();
    }
    writeln!(t, "}}\n{more}\n}}\n}}").unwrap();
    t
}

const CALL: &str = "generated.__Internal.TpClientContractProperties";

fn files() -> &'static BTreeMap<String, String> {
    static F: OnceLock<BTreeMap<String, String>> = OnceLock::new();
    F.get_or_init(|| {
        let mut m = BTreeMap::new();
        for Ty { name, owned, raw, inner, .. } in types() {
            let new = |sub: &str, class: &str, args: String, call: String| Class {
                sup: "Contract.Properties".into(),
                sub: sub.into(),
                ident: format!("{class}_{name}"),
                args,
                new: Some(call),
                drop: Some(format!("{CALL}{sub}{class}{name}Drop")),
                owned: false,
            };
            let value = |at: &str| {
                format!(
                    "get {{ var raw_ptr = {CALL}{at}{name}Value(this.Inner.Value.p); var ptr = new Ptr<{inner}>((IntPtr) raw_ptr);
                    return new {owned}(ptr, OwnershipSemantics.SharedRef); }}"
                )
            };
            let k = new("Channels", "Keyframe", format!("{owned} value, double time"), format!("{CALL}ChannelsKeyframe{name}New(({raw}) value.StealInner().p, time)"));
            let more = format!(
                "public unsafe {owned} Value {{ {} }}
                public double Time {{ get => {CALL}ChannelsKeyframe{name}Time(this.Inner.Value.p); }}",
                value("ChannelsKeyframe")
            );
            m.insert(format!("Keyframe_{name}.cs"), class(&k, &more));
            let k = new("States", "State", format!("{owned} value"), format!("{CALL}StatesState{name}New(({raw}) value.StealInner().p)"));
            let more = format!(
                "public unsafe {owned} Value {{ {} set {{ {{
                    {CALL}StatesState{name}ValueSet(this.Inner.Value.p, ({raw}) value.StealInner().p); value.Inner = null;
                }} }} }}",
                value("StatesState")
            );
            m.insert(format!("State_{name}.cs"), class(&k, &more));
            let k = Class { new: None, ..new("States", "StateId", String::new(), String::new()) };
            let more = format!(
                "public unsafe ContractDataHandle Contract {{ get {{ var raw_ptr = {CALL}StatesStateId{name}Contract(this.Inner.Value.p);
                var ptr = new Ptr<ContractDataHandle>(raw_ptr); return new ContractDataHandle(ptr, OwnershipSemantics.Owned); }} }}"
            );
            m.insert(format!("StateId_{name}.cs"), class(&k, &more));
            let k = Class { new: None, owned: true, ..new("States", "StateHandle", String::new(), String::new()) };
            m.insert(format!("StateHandle_{name}.cs"), class(&k, ""));
        }
        m
    })
}

/// What the wrappers call is what the library exports, with the same arguments
fn fits() -> Res {
    for Ty { name, c, .. } in types() {
        let at = |sub: &str, class: &str| format!("tp_client__contract__properties__{sub}__{class}_{name}");
        let (k, st, id, h) = (at("channels", "Keyframe"), at("states", "State"), at("states", "StateId"), at("states", "StateHandle"));
        let own = |t: &str| format!("{t}_t *");
        let lent = |t: &str| format!("{t}_t const *");
        let d = |s: &str| s.to_string();
        let v = (format!("{c} *"), format!("{c} const *"));
        for (f, ret, params) in [
            (format!("{k}__new"), own(&k), vec![v.0.clone(), d("double")]),
            (format!("{k}__drop"), d("void"), vec![own(&k)]),
            (format!("{k}__value"), v.1.clone(), vec![lent(&k)]),
            (format!("{k}__time"), d("double"), vec![lent(&k)]),
            (format!("{st}__new"), own(&st), vec![v.0.clone()]),
            (format!("{st}__drop"), d("void"), vec![own(&st)]),
            (format!("{st}__value"), v.1.clone(), vec![lent(&st)]),
            (format!("{st}__value_set"), d("void"), vec![own(&st), v.0.clone()]),
            (format!("{id}__drop"), d("void"), vec![own(&id)]),
            (format!("{id}__contract"), own("tp_client__contract__ContractDataHandle"), vec![lent(&id)]),
            (format!("{h}__drop"), d("void"), vec![own(&h)]),
        ] {
            let Some((real, p)) = api().get(&key(&f)) else {
                return fail("import", format!("there is no {f} to call"));
            };
            ensure!(p.ret == ret && p.params == params, "import", "{real} takes {:?} and returns {:?}, and is called with {params:?} for {ret:?}", p.params, p.ret);
        }
    }
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    fits()?;
    match s.weighted(&[3, 2]) {
        0 => history(s, cx, &Tool { bin: "cs_codegen", out: OUT, files: files() }),
        _ => render(s, cx),
    }
}

fn json(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

fn text(s: &mut Src) -> String {
    let t: String = match s.weighted(&[2, 1]) {
        0 => s.vec(4, 10, |s| *s.pick(&["a", "_b", "1", ".", ", ", "<", ">", "&", "\"", "'", "{{", "}}", "(", ")", " ", "\n", "=", "Ptr", "{{class_ident}}", "&amp;"])).concat(),
        _ => s.string(),
    };
    // a comment would swallow what follows, here and there differently
    t.replace('/', "")
}

fn some(s: &mut Src) -> Option<String> {
    let t = text(s);
    (s.chance(70) && !t.is_empty()).then_some(t)
}

const KEYS: [&str; 4] = ["value_owned", "k1", "methods", "Z"];

/// Classes from data and templates of a user's own
fn render(s: &mut Src, cx: &mut Cx) -> Res {
    let lane = lane();
    lane.reset();
    let out = lane.dir.join(OUT);
    // the template: text, the keys of its own and those of the class
    let parts: Vec<(usize, String)> = s.vec(4, 12, |s| match s.weighted(&[3, 3, 1]) {
        0 => (0, text(s).replace(['{', '}', '\\'], "")),
        1 => (1, s.pick(&KEYS).to_string()),
        _ => (2, s.pick(&["class_ident", "namespace_sub", "namespace_super", "new_args"]).to_string()),
    });
    let tpl: String = parts.iter().map(|(k, t)| if *k == 0 { t.clone() } else { format!("{{{{{t}}}}}") }).collect();
    let there = s.chance(95);
    if there {
        std::fs::write(lane.dir.join("client/codegen_wrapped/own.tpl"), &tpl).unwrap();
    }
    let force = s.bool();
    let before = s.below(3);
    if before > 0 {
        std::fs::create_dir_all(&out).unwrap();
    }
    if before > 1 {
        std::fs::write(out.join("Foo.cs"), "other").unwrap();
    }
    let n = s.below(5);
    let mut data = vec![];
    let mut list = vec![];
    for _ in 0..n {
        let c = Class {
            sup: text(s),
            sub: text(s),
            ident: s.pick(&["State_U8", "A", "b_2", "Long_Name_Of_A_Class", "Foo"]).to_string(),
            owned: s.bool(),
            args: text(s),
            new: some(s),
            drop: some(s),
        };
        let more: Option<Vec<(&str, String)>> = match s.chance(85) {
            true => Some(KEYS.iter().filter_map(|k| s.chance(90).then(|| (*k, text(s)))).collect()),
            false => None,
        };
        let opt = |o: &Option<String>| o.as_ref().map_or("null".into(), |t| json(t));
        list.push(format!(
            "{{\"sup\":{},\"sub\":{},\"ident\":{},\"owned\":{},\"args\":{},\"new\":{},\"drop\":{},\"more\":{}}}",
            json(&c.sup),
            json(&c.sub),
            json(&c.ident),
            c.owned,
            json(&c.args),
            opt(&c.new),
            opt(&c.drop),
            more.as_ref().map_or("null".into(), |m| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", json(k), json(v))).collect::<Vec<_>>().join(","))),
        ));
        data.push((c, more));
    }
    let input = format!("{{\"partial\":\"own.tpl\",\"force\":{force},\"data\":[{}]}}", list.join(","));
    cx.op(|| format!("template {tpl:?}, force {force}, directory {before}: {input}"));
    let o = lane.run("probe", &[], &input);
    let said = String::from_utf8_lossy(&o.stdout).into_owned();
    ensure!(o.status.success(), "panic", "{said}{}", String::from_utf8_lossy(&o.stderr));
    let mut said = said.lines();
    let first = said.next().unwrap_or_default();
    if !there || (before == 2 && !force) {
        ensure!(first != "new", "not refused", "a template that is not there, or a directory that is not empty, was accepted");
        let want: Vec<&str> = if before > 1 { vec!["Foo.cs"] } else { vec![] };
        ensure!(read(&out).keys().eq(want.iter()), "refused and changed", "it was refused and the directory holds {:?}", read(&out).keys());
        cx.label("refused");
        return Ok(());
    }
    ensure!(first == "new", "failed", "{first}");
    let mut want: BTreeMap<String, Option<String>> = BTreeMap::new();
    let mut good = 0;
    for (c, more) in &data {
        let mut t = String::new();
        let mut ok = true;
        for (k, p) in &parts {
            match (*k, p.as_str()) {
                (0, p) => t += p,
                (2, "class_ident") => t += &c.ident,
                (2, "namespace_sub") => t += &c.sub,
                (2, "namespace_super") => t += &c.sup,
                (2, _) => t += &c.args,
                (_, p) => match more.iter().flatten().find(|m| m.0 == p) {
                    Some(m) => t += &m.1,
                    None => ok = false,
                },
            }
        }
        let got = said.next().unwrap_or("nothing");
        ensure!(got == if ok { "ok" } else { "err" }, "rendered", "rendering {c:?} with {more:?}: {got}");
        good += ok as usize;
        // what is left of a class that cannot be rendered is not said
        want.insert(format!("{}.cs", c.ident), ok.then(|| class(c, &t)));
    }
    let now = read(&out);
    for (k, t) in &want {
        match (t, now.get(k)) {
            (Some(t), Some(Node::File(got))) => same_text(k, got, t)?,
            (Some(_), o) => return fail("missing", format!("{k} is {o:?}")),
            (None, _) => (),
        }
    }
    for k in now.keys() {
        ensure!(want.contains_key(k) || (k == "Foo.cs" && before == 2), "stray", "{k} was made");
    }
    if before == 2 && !want.contains_key("Foo.cs") {
        ensure!(now.get("Foo.cs") == Some(&Node::File(b"other".to_vec())), "touched", "Foo.cs was changed");
    }
    cx.nontrivial_if(good >= 2);
    cx.label("rendered");
    Ok(())
}
