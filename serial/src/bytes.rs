//! P28: whatever the bytes are, they are restored as what they say or refused.
use crate::shapes::*;
use crate::trip::*;
use crate::wire::*;
use flatbuffers::{FlatBufferBuilder, WIPOffset};
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::dynamic::TpPropertyType;
use tp_serialize::baseline as fb;
use tp_serialize::{contract, object, primitive, state};
use tp_serialize::DeserializerBuilder;

pub const P28: Prop = Prop {
    id: "P28",
    title: "serialized data is restored as what it says or refused, whatever the bytes",
    rule: "the bytes passed the structural verification and at least one contract was found in them",
    quick: 60_000,
    thorough: 2_000_000,
    run,
};

/// A stored type is a type of the model, or another stored one, exactly when it is the same one
fn tags(s: &mut Src) -> Res {
    fn tag(s: &mut Src, known: &[u8]) -> u8 {
        match s.weighted(&[8, 1]) {
            0 => *s.pick(known),
            _ => s.draw(255) as u8,
        }
    }
    let known: Vec<u8> = KINDS.iter().map(|k| k.0 as u8).collect();
    let k = tag(s, &known);
    let known: Vec<u8> = VARIANTS.iter().map(|v| v.0).collect();
    let v = if s.chance(30) { VARIANTS[KINDS.iter().position(|o| o.0 as u8 == k).unwrap_or(3)].0 } else { tag(s, &known) };
    let (k, v) = (primitive::TpPrimitiveKind(k as i8), primitive::TpPrimitive(v));
    let (kt, vt) = (KINDS.iter().position(|o| o.0 == k.0), VARIANTS.iter().position(|o| o.0 == v.0));
    let ty = match s.chance(60) {
        true => kt.or(vt).unwrap_or(0),
        false => s.below(14),
    };
    let list = s.chance(20);
    let one = ty_of_key(ty).primitive_type();
    let model = if list { TpPropertyType::Vec(one) } else { TpPropertyType::Primitive(one) };
    let want = [!list && kt == Some(ty), !list && vt == Some(ty), kt.is_some() && kt == vt];
    let got = [k == model, v == model, v == k];
    let back = [model == k, model == v, k == v];
    ensure!(got == want && back == want, "types", "kind {k:?}, union {v:?}, model {model:?}: equal {got:?} and {back:?}, should be {want:?} (kind = model, union = model, union = kind)");
    ensure!(primitive::TpPrimitiveKind::from(one) == KINDS[ty], "types", "{one:?} is stored as {:?}", primitive::TpPrimitiveKind::from(one));
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    tags(s)?;
    let (data, mut ks) = match s.weighted(&[3, 4]) {
        0 => {
            let w = world(s, cx, false, true);
            let mut cs = w.cons();
            s.shuffle(&mut cs);
            let f = save(s, &w.base, &cs, None).and_then(|f| f).map_err(|e| Fail { sig: "save".into(), msg: e })?;
            (f.finished_data().to_vec(), cs.iter().map(|c| c.0).collect::<Vec<_>>())
        }
        _ => forged(s, cx),
    };
    let data = match s.weighted(&[3, 5]) {
        0 => data,
        _ => mutate(s, cx, data),
    };
    // asked for: what should be there, some of it, or others
    s.shuffle(&mut ks);
    if s.chance(25) {
        ks.truncate(s.below(ks.len() + 1));
    }
    if s.chance(25) {
        ks.push(s.below(shapes().len()));
    }
    let kind = if s.bool() { BaselineKind::Main } else { BaselineKind::Fork };
    bimap::verif_order(1 + s.draw(1_000_000));

    let root = flatbuffers::root::<fb::Baseline>(&data);
    let mut b = match (DeserializerBuilder::new(&data, kind), root.is_ok()) {
        (Ok(b), true) => b,
        (Err(_), false) => {
            cx.label("refused as a buffer");
            return Ok(());
        }
        (Err(e), true) => return fail("open", format!("refused, though it is a well-formed buffer: {e:#}")),
        (Ok(_), false) => return fail("open", format!("accepted, though it is no well-formed buffer: {:?}", root.err())),
    };
    let root = root.unwrap();
    let mut cons: Vec<(usize, usize, Box<dyn AnyS>)> = vec![];
    for k in ks {
        let sh = &shapes()[k];
        let want = match find(&root, sh) {
            Some(Some(i)) if !cons.iter().any(|c| shapes()[c.0].id == sh.id) => Some(i),
            Some(_) => None,
            None => {
                cx.label("unclear");
                return Ok(());
            }
        };
        match ((sh.find)(&mut b), want) {
            (Ok(c), Some(i)) => cons.push((k, i, c)),
            (Err(_), None) => cx.label("contract refused"),
            (Err(e), Some(i)) => return fail("find", format!("contract {:?} is at {i} and not found: {e}", sh.id)),
            (Ok(_), None) => return fail("found", format!("contract {:?} is not there, or there already, and was found", sh.id)),
        }
    }
    cx.nontrivial_if(!cons.is_empty());
    let mut d = b.finish();
    // which objects are restored, in which order, and which states of theirs refer to which
    let mut done: Vec<(usize, usize)> = vec![];
    let mut order: Vec<usize> = (0..cons.len()).collect();
    s.shuffle(&mut order);
    if s.chance(15) {
        order.truncate(s.below(order.len() + 1));
    }
    let at: Vec<usize> = cons.iter().map(|c| c.1).collect();
    let mut handles_seen = vec![];
    let mut shared = false;
    for i in order {
        let (k, ci, c) = &cons[i];
        let want = objects(&root, *ci, &shapes()[*k], &at);
        if let Ok(os) = &want {
            for (o, _, h) in os {
                done.push((i, *o));
                for h in h {
                    shared |= handles_seen.contains(h);
                    handles_seen.push(*h);
                }
            }
        }
        match (c.restore(&mut d), want) {
            (Ok(()), Ok(os)) => cx.op(|| format!("{} objects of contract {ci}", os.len())),
            (Err(_), Err(why)) => {
                cx.label(why);
                return Ok(());
            }
            // two objects cannot own the same state, and a list left out is not an empty one;
            // whether those are errors is left open
            (Err(_), Ok(_)) if shared || root.states().is_none() => return Ok(()),
            (Err(e), Ok(_)) => return fail("restore", format!("refused the objects of {:?}: {e}", shapes()[*k].id)),
            (Ok(()), Err(why)) => return fail("restored", format!("restored the objects of {:?}, though {why}", shapes()[*k].id)),
        }
    }
    // the whole of it
    let mut want: Option<Vec<NC>> = Some(vec![]);
    for (i, (k, ci, _)) in cons.iter().enumerate() {
        let mut one = nc(&shapes()[*k]);
        if done.iter().any(|d| d.0 == i) {
            for (_, vals, _) in objects(&root, *ci, &shapes()[*k], &at).unwrap() {
                let vals: Option<Vec<NV>> = vals
                    .into_iter()
                    .map(|v| match v {
                        WV::Plain(v) => Some(NV::Plain(v)),
                        WV::Con(c) => Some(NV::Con(at.iter().position(|a| *a == c as usize).unwrap())),
                        WV::Obj(o) => {
                            let (ci, _) = done.iter().find(|d| d.1 == o as usize)?;
                            let n = done.iter().filter(|d| d.0 == *ci && d.1 < o as usize).count();
                            Some(NV::Obj(*ci, n))
                        }
                    })
                    .collect();
                match vals {
                    Some(v) => one.objs.push(v),
                    None => want = None,
                }
            }
        }
        if let Some(w) = &mut want {
            w.push(one);
        } else {
            break;
        }
    }
    match (d.finish(), want) {
        (Ok(base), Some(want)) => {
            let cs: Vec<(usize, &dyn AnyS)> = cons.iter().map(|(k, _, c)| (*k, &**c)).collect();
            let got = crate::shapes::contents(&base, &cs)?;
            ensure!(same(&got, &want), "contents", "restored is {} and the bytes say {}", show(&got), show(&want));
            ensure!(base.kind() == kind, "kind", "restored as {kind:?}, it is {:?}", base.kind());
            cx.label("restored");
            Ok(())
        }
        (Err(_), None) => {
            cx.label("a reference to what was not restored");
            Ok(())
        }
        (Err(_), Some(_)) if shared => Ok(()),
        (Err(e), Some(want)) => fail("finish", format!("refused, though the bytes say {}: {e:#}", show(&want))),
        (Ok(_), None) => fail("finish", "restored, though something refers to an object that was not".to_string()),
    }
}

/// Where a contract is; `None` if the documentation does not say whether it is
fn find(b: &fb::Baseline, sh: &Shape) -> Option<Option<usize>> {
    for (i, c) in b.contracts().into_iter().flatten().enumerate() {
        let Some(id) = c.id() else { continue };
        if id.name() != Some(sh.id.name) || (id.v_major(), id.v_minor(), id.v_patch()) != sh.id.version {
            continue;
        }
        let names = c.states().and_then(|s| s.names());
        let types = c.states().and_then(|s| s.types());
        let (Some(names), Some(types)) = (names, types) else {
            if sh.names.is_empty() {
                return None;
            }
            continue;
        };
        if names.iter().eq(sh.names.iter().copied()) && types.iter().map(|t| KINDS.iter().position(|k| *k == t)).eq(sh.types.iter().map(|t| Some(*t))) {
            return Some(Some(i));
        }
    }
    Some(None)
}

/// The objects of a contract: where, their values, and the states that refer to objects
#[allow(clippy::type_complexity)]
fn objects(b: &fb::Baseline, ci: usize, sh: &Shape, known: &[usize]) -> Result<Vec<(usize, Vec<WV>, Vec<u32>)>, &'static str> {
    let mut out = vec![];
    for (oi, o) in b.objects().into_iter().flatten().enumerate() {
        if o.contract().map(|c| c.idx() as usize) != Some(ci) {
            continue;
        }
        let ids: Vec<u32> = o.states().into_iter().flatten().map(|s| s.idx()).collect();
        if ids.len() != sh.types.len() {
            return Err("an object has more or fewer states than its contract");
        }
        let mut vals = vec![];
        let mut refs = vec![];
        for (i, ty) in ids.iter().zip(&sh.types) {
            let Some(states) = b.states().filter(|s| (*i as usize) < s.len()) else {
                return Err("a state is not there");
            };
            let st = states.get(*i as usize);
            if st.p_type() != VARIANTS[*ty] {
                return Err("a state is of another type");
            }
            let v = value(&st, *ty).ok_or("a string is missing")?;
            if let WV::Con(c) = &v {
                if !known.contains(&(*c as usize)) {
                    return Err("a state refers to a contract that was not registered");
                }
            }
            if let WV::Obj(_) = &v {
                refs.push(*i);
            }
            vals.push(v);
        }
        out.push((oi, vals, refs));
    }
    Ok(out)
}

type F = FlatBufferBuilder<'static>;

/// A buffer built by the schema, with anything wrong that the schema allows
fn forged(s: &mut Src, cx: &mut Cx) -> (Vec<u8>, Vec<usize>) {
    // how often something is off, in per mille
    let off = *s.pick(&[0u64, 8, 30, 100]);
    fn odd(s: &mut Src, off: u64) -> bool {
        off > 0 && s.draw(999) >= 1000 - off
    }
    let mut f: F = FlatBufferBuilder::new();
    let mut ks = pick_shapes(s, false);
    if odd(s, off * 2) {
        let k = *s.pick(&ks);
        ks.push(k);
    }
    let mut cons = vec![];
    for k in &ks {
        let sh = &shapes()[*k];
        let name = f.create_string(sh.id.name);
        let (v_major, v_minor, v_patch) = sh.id.version;
        let id = contract::ContractId::create(
            &mut f,
            &contract::ContractIdArgs {
                name: if odd(s, off / 4) { None } else { Some(name) },
                v_major: v_major.wrapping_add(odd(s, off / 8) as u16),
                v_minor: v_minor.wrapping_add(odd(s, off / 8) as u16),
                v_patch: v_patch.wrapping_add(odd(s, off / 8) as u16),
            },
        );
        let mut names: Vec<&str> = sh.names.clone();
        let mut types: Vec<_> = sh.types.iter().map(|t| KINDS[*t]).collect();
        if odd(s, off / 4) && !names.is_empty() {
            match s.below(6) {
                0 => drop(names.pop()),
                1 => drop(types.pop()),
                2 => names[0] = "other",
                3 => types[0] = KINDS[s.below(14)],
                4 => types[0] = primitive::TpPrimitiveKind(*s.pick(&[14i8, -1, 100])),
                _ => names.push("more"),
            }
        }
        let names: Vec<_> = names.iter().map(|n| f.create_string(n)).collect();
        let names = f.create_vector(&names);
        let types = f.create_vector(&types);
        let st = contract::ContractStates::create(
            &mut f,
            &contract::ContractStatesArgs {
                names: if odd(s, off / 8) { None } else { Some(names) },
                types: if odd(s, off / 8) { None } else { Some(types) },
            },
        );
        let c = contract::Contract::create(
            &mut f,
            &contract::ContractArgs { id: if odd(s, off / 8) { None } else { Some(id) }, states: if odd(s, off / 8) { None } else { Some(st) } },
        );
        cons.push(c);
    }
    let objs: Vec<usize> = s.vec(5, 30, |s| s.below(ks.len()));
    let mut states: Vec<WIPOffset<state::State<'static>>> = vec![];
    let mut made = vec![];
    for c in &objs {
        let mut hs = vec![];
        for ty in &shapes()[ks[*c]].types {
            let ty = if odd(s, off) { s.below(14) } else { *ty };
            let p = one_state(s, &mut f, ty, objs.len(), ks.len(), off);
            states.push(p);
            let idx = if odd(s, off) {
                *s.pick(&[0u32, states.len() as u32 - 1, states.len() as u32, states.len() as u32 + 1, u32::MAX, 1 << 31])
            } else {
                states.len() as u32 - 1
            };
            hs.push(state::StateHandle::create(&mut f, &state::StateHandleArgs { idx }));
        }
        if odd(s, off) {
            if s.bool() {
                hs.pop();
            } else if let Some(h) = hs.last() {
                hs.push(*h);
            }
        }
        if odd(s, off) && hs.len() > 1 {
            let n = hs.len();
            hs.swap(0, n - 1);
        }
        let hs = f.create_vector(&hs);
        let idx = if odd(s, off) { *s.pick(&[0u16, ks.len() as u16, u16::MAX]) } else { *c as u16 };
        let c = contract::ContractDataHandle::create(&mut f, &contract::ContractDataHandleArgs { idx });
        let o = object::Object::create(
            &mut f,
            &object::ObjectArgs { contract: if odd(s, off / 2) { None } else { Some(c) }, states: if odd(s, off / 2) { None } else { Some(hs) } },
        );
        made.push(o);
    }
    if odd(s, off) {
        if let Some(o) = made.last() {
            made.push(*o);
        }
    }
    if odd(s, off) && !states.is_empty() {
        states.truncate(s.below(states.len()));
    }
    let cons = f.create_vector(&cons);
    let states = f.create_vector(&states);
    let made = f.create_vector(&made);
    let b = fb::Baseline::create(
        &mut f,
        &fb::BaselineArgs {
            contracts: if odd(s, off / 4) { None } else { Some(cons) },
            states: if odd(s, off / 4) { None } else { Some(states) },
            objects: if odd(s, off / 4) { None } else { Some(made) },
        },
    );
    f.finish(b, if odd(s, off) { None } else { Some("TPF1") });
    cx.op(|| format!("forged, off {off}: contracts {ks:?}, objects {objs:?}"));
    (f.finished_data().to_vec(), ks)
}

fn one_state(s: &mut Src, f: &mut F, ty: usize, objs: usize, cons: usize, off: u64) -> WIPOffset<state::State<'static>> {
    macro_rules! p {
        ($t:ident, $a:ident, $r:ty) => {
            primitive::$t::create(f, &primitive::$a { v: <$r as PropT>::gen(s) }).as_union_value()
        };
    }
    let odd = off > 0 && s.draw(999) >= 1000 - off;
    let p = match ty {
        0 => p!(U8, U8Args, u8),
        1 => p!(U16, U16Args, u16),
        2 => p!(U32, U32Args, u32),
        3 => p!(U64, U64Args, u64),
        4 => p!(I8, I8Args, i8),
        5 => p!(I16, I16Args, i16),
        6 => p!(I32, I32Args, i32),
        7 => p!(I64, I64Args, i64),
        8 => p!(Bool, BoolArgs, bool),
        9 => p!(F32, F32Args, f32),
        10 => p!(F64, F64Args, f64),
        11 => {
            let v = if odd { None } else { Some(f.create_string(&s.string())) };
            primitive::FbString::create(f, &primitive::FbStringArgs { v }).as_union_value()
        }
        OBJ => {
            let idx = if odd { *s.pick(&[objs as u32, u32::MAX, 1 << 31]) } else { s.below(objs) as u32 };
            object::ObjectHandle::create(f, &object::ObjectHandleArgs { idx }).as_union_value()
        }
        _ => {
            let idx = if odd { *s.pick(&[cons as u16, u16::MAX]) } else { s.below(cons) as u16 };
            contract::ContractDataHandle::create(f, &contract::ContractDataHandleArgs { idx }).as_union_value()
        }
    };
    let none = off > 0 && s.draw(999) >= 1000 - off / 2 - 1;
    let (p_type, p) = match none {
        true => *s.pick(&[
            (primitive::TpPrimitive::NONE, None),
            (primitive::TpPrimitive(15), Some(p)),
            (primitive::TpPrimitive(255), Some(p)),
            (VARIANTS[ty], None),
            (VARIANTS[0], Some(p)),
        ]),
        false => (VARIANTS[ty], Some(p)),
    };
    state::State::create(f, &state::StateArgs { p_type, p })
}

fn mutate(s: &mut Src, cx: &mut Cx, mut d: Vec<u8>) -> Vec<u8> {
    for _ in 0..1 + s.below(3) {
        s.span(|s| {
            let n = d.len();
            if n == 0 {
                return;
            }
            let at = s.below(n);
            match s.weighted(&[6, 3, 3, 1, 1, 1]) {
                0 => {
                    let v = *s.pick(&[0u8, 1, 2, 4, 8, 255, 128, 14, 15]);
                    cx.op(|| format!("byte {at}: {} -> {v}", d[at]));
                    d[at] = v;
                }
                1 => d[at] ^= 1 << s.below(8),
                2 => {
                    // a word, aligned, as offsets are
                    let at = at & !3;
                    if at + 4 <= n {
                        let w = u32::from_le_bytes(d[at..at + 4].try_into().unwrap());
                        let w = match s.below(5) {
                            0 => w.wrapping_add(4),
                            1 => w.wrapping_sub(4),
                            2 => s.below(n + 8) as u32,
                            3 => s.draw(u32::MAX as u64) as u32,
                            _ => w.wrapping_add(1),
                        };
                        cx.op(|| format!("word {at}: {w}"));
                        d[at..at + 4].copy_from_slice(&w.to_le_bytes());
                    }
                }
                3 => d.truncate(at),
                4 => {
                    let len = s.below(n - at).min(16);
                    let from = s.below(n - len);
                    let part = d[from..from + len].to_vec();
                    d[at..at + len].copy_from_slice(&part);
                }
                _ => {
                    let more = s.vec(8, 64, |s| s.draw(255) as u8);
                    d.extend(more);
                }
            }
        });
    }
    d
}
