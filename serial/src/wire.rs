//! What serialized bytes say, read by the schema.
use crate::shapes::*;
use harness::values::*;
use tp_serialize::baseline as fb;
use tp_serialize::primitive::{TpPrimitive as P, TpPrimitiveKind as K};
use tp_serialize::state::State;

pub const KINDS: [K; 14] = [
    K::U8,
    K::U16,
    K::U32,
    K::U64,
    K::I8,
    K::I16,
    K::I32,
    K::I64,
    K::Bool,
    K::F32,
    K::F64,
    K::String,
    K::ObjectHandle,
    K::ContractDataHandle,
];
pub const VARIANTS: [P; 14] = [
    P::U8,
    P::U16,
    P::U32,
    P::U64,
    P::I8,
    P::I16,
    P::I32,
    P::I64,
    P::Bool,
    P::F32,
    P::F64,
    P::FbString,
    P::tp_serialize_object_ObjectHandle,
    P::tp_serialize_contract_ContractDataHandle,
];

/// A stored value: handles are indices
#[derive(Clone, Debug, PartialEq)]
pub enum WV {
    Plain(Val),
    Obj(u32),
    Con(u16),
}

/// The value a stored state has if it is of the type given
pub fn value(s: &State, ty: usize) -> Option<WV> {
    if s.p_type() != VARIANTS[ty] {
        return None;
    }
    macro_rules! v {
        ($f:ident) => {
            WV::Plain(s.$f()?.v().val())
        };
    }
    Some(match ty {
        0 => v!(p_as_u8),
        1 => v!(p_as_u16),
        2 => v!(p_as_u32),
        3 => v!(p_as_u64),
        4 => v!(p_as_i8),
        5 => v!(p_as_i16),
        6 => v!(p_as_i32),
        7 => v!(p_as_i64),
        8 => v!(p_as_bool),
        9 => v!(p_as_f32),
        10 => v!(p_as_f64),
        11 => WV::Plain(s.p_as_fb_string()?.v()?.to_string().val()),
        OBJ => WV::Obj(s.p_as_tp_serialize_object_object_handle()?.idx()),
        _ => WV::Con(s.p_as_tp_serialize_contract_contract_data_handle()?.idx()),
    })
}

/// All of a well-formed buffer, or what is wrong with it
pub fn contents(data: &[u8]) -> Result<Vec<NC>, String> {
    let b = flatbuffers::root::<fb::Baseline>(data).map_err(|e| e.to_string())?;
    if data.get(4..8) != Some(b"TPF1") {
        return Err("it does not have the file identifier".into());
    }
    let mut out = vec![];
    for c in b.contracts().ok_or("no contracts")? {
        let id = c.id().ok_or("no id")?;
        let st = c.states().ok_or("no states")?;
        let names: Vec<String> = st.names().ok_or("no names")?.iter().map(|n| n.to_string()).collect();
        let types: Vec<K> = st.types().ok_or("no types")?.iter().collect();
        if names.len() != types.len() {
            return Err("as many names as types".into());
        }
        let types: Option<Vec<usize>> = types.iter().map(|t| KINDS.iter().position(|k| k == t)).collect();
        out.push(NC {
            name: id.name().ok_or("no name")?.to_string(),
            version: (id.v_major(), id.v_minor(), id.v_patch()),
            fields: names.into_iter().zip(types.ok_or("an unknown type")?).collect(),
            objs: vec![],
        });
    }
    let states = b.states().ok_or("no states")?;
    let mut used = vec![false; states.len()];
    // where each object is among those of its contract
    let mut at = vec![];
    let mut next = vec![0; out.len()];
    for o in b.objects().ok_or("no objects")? {
        let c = o.contract().ok_or("an object without a contract")?.idx() as usize;
        if c >= out.len() {
            return Err("an object of a contract that is not there".into());
        }
        at.push((c, next[c]));
        next[c] += 1;
    }
    for (o, (c, _)) in b.objects().unwrap().iter().zip(&at) {
        let ids: Vec<usize> = o.states().ok_or("an object without states")?.iter().map(|s| s.idx() as usize).collect();
        if ids.len() != out[*c].fields.len() {
            return Err(format!("an object has {} states and its contract {}", ids.len(), out[*c].fields.len()));
        }
        let mut vals = vec![];
        for (i, ty) in ids.iter().zip(out[*c].fields.clone()) {
            if *i >= used.len() || std::mem::replace(&mut used[*i], true) {
                return Err(format!("state {i} is used twice or not there"));
            }
            let v = value(&states.get(*i), ty.1).ok_or_else(|| format!("state {i} is not of its type"))?;
            vals.push(match v {
                WV::Plain(v) => NV::Plain(v),
                WV::Obj(o) => match at.get(o as usize) {
                    Some((c, i)) => NV::Obj(*c, *i),
                    None => return Err(format!("state {i} refers to object {o}, which is not there")),
                },
                WV::Con(c) if (c as usize) < out.len() => NV::Con(c as usize),
                WV::Con(c) => return Err(format!("state {i} refers to contract {c}, which is not there")),
            });
        }
        out[*c].objs.push(vals);
    }
    if !used.iter().all(|u| *u) {
        return Err("a state of no object".into());
    }
    Ok(out)
}
