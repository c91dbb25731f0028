//! What a generated program is linked with: it hands over its cases, and each is judged here.
use crate::contracts::*;
use crate::ensure;
use crate::pbt::*;
use crate::values::*;
use crate::world::*;

pub struct Case {
    pub name: &'static str,
    pub seed: u64,
    /// the contract it declares
    pub kind: Option<fn() -> Kind>,
    /// its own test
    pub check: Option<fn() -> Result<(), String>>,
}

pub fn main(cases: &[Case]) {
    quiet_panics();
    crate::alloc::quarantine(true);
    let _ = MORE.set(cases.iter().filter_map(|c| c.kind).collect());
    let mut k = KINDS;
    for c in cases {
        let mine = k;
        k += c.kind.is_some() as usize;
        let r = panics(|| {
            if c.kind.is_some() {
                declared(mine).and_then(|_| used(mine, c.seed))?
            }
            if let Some(f) = c.check {
                f().map_err(|msg| Fail { sig: "check".into(), msg })?
            }
            Ok(())
        });
        let r = match (r, crate::alloc::take_fault()) {
            (Ok(Ok(())), Some(f)) => fail("memory", f),
            (Ok(r), _) => r,
            (Err(p), _) => fail("panic", format!("unexpected panic: {p}")),
        };
        match r {
            Ok(()) => println!("case {} ok", c.name),
            Err(f) => println!("case {} fail {} {}", c.name, f.sig, crate::runner::esc(&f.msg)),
        }
    }
}

/// The derived descriptions against the declaration
fn declared(k: usize) -> Res {
    let kd = &kinds()[k];
    for (what, decl, ids, derived) in [
        ("states", &kd.states, &kd.state_type_ids, (kd.d_states)()),
        ("channels", &kd.chans, &kd.chan_type_ids, (kd.d_chans)()),
    ] {
        let names: Vec<&str> = decl.iter().map(|(n, _)| *n).collect();
        let types: Vec<Ty> = decl.iter().map(|(_, t)| ty_of_key(*t)).collect();
        // a raw identifier may be named with or without its prefix
        let got: Vec<&str> = derived.0.iter().map(|n| n.strip_prefix("r#").unwrap_or(n)).collect();
        ensure!(got == names, "names", "field_names() of the {what} is {got:?}, declared is {names:?}");
        ensure!(derived.1 == types, "types", "enumerate_types() of the {what} is {:?}, declared is {types:?}", derived.1);
        ensure!(derived.2 == *ids, "type_ids", "type_ids() of the {what} is not the TypeIds of the declaration");
    }
    let c = (kd.make)(idx(3, 7));
    for (what, decl, fields, iter, at) in [
        (
            "states",
            &kd.states,
            c.field_states(),
            c.state_iter().map(|d| dyn_sid(&d)).collect::<Vec<_>>(),
            &(|i| c.state_id(i).map(|d| dyn_sid(&d))) as &dyn Fn(usize) -> Option<Fid>,
        ),
        ("channels", &kd.chans, c.field_chans(), c.chan_iter().map(|d| dyn_cid(&d)).collect(), &|i| c.chan_id(i).map(|d| dyn_cid(&d))),
    ] {
        let want: Vec<Fid> = decl.iter().enumerate().map(|(idx, (_, ty))| Fid { ty: *ty, contract: (3, 7), idx }).collect();
        ensure!(fields == want, "accessors", "the accessors of the {what} give {fields:?}, declared is {want:?}");
        ensure!(iter == want, "iter", "the {what} enumerate as {iter:?}, declared is {want:?}");
        for i in 0..want.len() + 2 {
            ensure!(at(i) == want.get(i).copied(), "at", "the {what} have {:?} at {i}, declared is {:?}", at(i), want.get(i));
        }
    }
    Ok(())
}

/// Objects of the contract beside those of another one
fn used(k: usize, seed: u64) -> Res {
    let mut s = Src::random(seed);
    let mut cx = Cx::default();
    let mut w = World::new(Bases::own(1), vec![k, k, s.below(KINDS)]);
    w.register(&mut cx, 0, k)?;
    for _ in 0..2 {
        w.create(&mut s, &mut cx, 0, 0)?;
    }
    for _ in 0..40 {
        w.step(&mut s, &mut cx, &BALANCED)?;
    }
    w.audit_all(s.draw(2))
}
