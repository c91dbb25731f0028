//! P31: the generator of the C# boxes.
use crate::api::*;
use crate::tree::*;
use harness::ensure;
use harness::pbt::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const P31: Prop = Prop {
    id: "P31",
    title: "the C# boxes are generated whole, fit the C API and replace nothing unasked",
    rule: "a run was refused, or one that was forced left files of others as they were",
    quick: 1_500,
    thorough: 40_000,
    run,
};

/// A type of values: its name in Rust, in C# and in C
pub const VALUES: [(&str, &str, &str); 11] = [
    ("U8", "byte", "uint8_t"),
    ("U16", "ushort", "uint16_t"),
    ("U32", "uint", "uint32_t"),
    ("U64", "ulong", "uint64_t"),
    ("I8", "sbyte", "int8_t"),
    ("I16", "short", "int16_t"),
    ("I32", "int", "int32_t"),
    ("I64", "long", "int64_t"),
    ("Bool", "bool", "bool"),
    ("F32", "float", "float"),
    ("F64", "double", "double"),
];

fn files() -> &'static BTreeMap<String, String> {
    static F: OnceLock<BTreeMap<String, String>> = OnceLock::new();
    F.get_or_init(|| {
        VALUES
            .iter()
            .map(|(n, cs, _)| {
                let text = format!(
                    "using System; using System.Runtime.InteropServices;
                    namespace RSharp {{
                        public class RBox_{n} : OpaqueWrapper<{cs}> {{
                            public unsafe RBox_{n}({cs} value) : base(new Ptr<{cs}>((IntPtr) rsharp__Box_{n}__new(value)), OwnershipSemantics.Owned) {{ }}
                            public unsafe RBox_{n}(Ptr<{cs}> inner, OwnershipSemantics ownershipSemantics) : base(inner, ownershipSemantics) {{ }}
                            protected override unsafe void NativeDrop(Ptr<{cs}> inner) {{ rsharp__Box_{n}__drop(({cs}*) inner.p); }}
                            public unsafe {cs} Value {{ get => *({cs}*) this.Inner.Value.p; }}
                            [DllImport(Metadata.LIBRARY_NAME)]
                            private static extern unsafe {cs}* rsharp__Box_{n}__new({cs} value);
                            [DllImport(Metadata.LIBRARY_NAME)]
                            private static extern unsafe void rsharp__Box_{n}__drop({cs}* value);
                        }}
                    }}"
                );
                (format!("RBox_{n}.cs"), text)
            })
            .collect()
    })
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    // what the boxes import is what the library exports
    for (n, _, c) in VALUES {
        for (f, ret, params) in [("new", format!("{c} *"), vec![c.to_string()]), ("drop", "void".into(), vec![format!("{c} *")])] {
            let name = format!("rsharp__Box_{n}__{f}");
            let Some((real, p)) = api().get(&key(&name)) else {
                return fail("import", format!("there is no {name} to import"));
            };
            ensure!(*real == name && p.ret == ret && p.params == params, "import", "{name} is {real}{:?} -> {:?}", p.params, p.ret);
        }
    }
    history(s, cx, &Tool { bin: "rsharp_codegen", out: "crates/rsharp/cs/src/generated", files: files() })
}
