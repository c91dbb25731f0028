//! P27: what was saved comes back.
use crate::shapes::*;
use crate::wire;
use flatbuffers::FlatBufferBuilder;
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::object::ObjectHandle;
use tp_serialize::{DeserializerBuilder, Serializer};

pub const P27: Prop = Prop {
    id: "P27",
    title: "a baseline that was saved comes back as it was",
    rule: "objects of at least two contracts were restored, with at least one reference among them",
    quick: 15_000,
    thorough: 400_000,
    run,
};

/// A baseline and what it holds
pub struct World {
    pub base: Baseline,
    pub cons: Vec<(usize, Box<dyn AnyS>)>,
    /// the objects of each, and their values
    pub objs: Vec<Vec<(ObjectHandle, Vec<NV>)>>,
}

impl World {
    pub fn contents(&self) -> Vec<NC> {
        self.cons
            .iter()
            .zip(&self.objs)
            .map(|((k, _), o)| NC { objs: o.iter().map(|o| o.1.clone()).collect(), ..nc(&shapes()[*k]) })
            .collect()
    }
    pub fn cons(&self) -> Vec<(usize, &dyn AnyS)> {
        self.cons.iter().map(|(k, c)| (*k, &**c)).collect()
    }
}

/// A set of shapes that can be registered together
pub fn pick_shapes(s: &mut Src, lists: bool) -> Vec<usize> {
    let n = 1 + s.below(5);
    let mut v: Vec<usize> = vec![];
    for _ in 0..n {
        let k = match s.weighted(&[3, 2]) {
            0 => *s.pick(&[0usize, 1, 14, 15, 16, 19]),
            _ => s.below(shapes().len()),
        };
        if (k != LISTS || lists) && !v.iter().any(|o| shapes()[*o].id == shapes()[k].id) {
            v.push(k);
        }
    }
    if v.is_empty() {
        v.push(1);
    }
    v
}

pub fn world(s: &mut Src, cx: &mut Cx, lists: bool, closed: bool) -> World {
    let kind = if s.bool() { BaselineKind::Main } else { BaselineKind::Fork };
    let mut base = Baseline::new(kind);
    let picked = pick_shapes(s, lists);
    // what was there before
    for _ in 0..s.below(3) {
        let k = *s.pick(&picked);
        if let Ok(c) = (shapes()[k].register)(&mut base) {
            for _ in 0..s.below(3) {
                let vals = shapes()[k].types.iter().map(|t| to_dyn(&gen_val(s, ty_of_key(*t)))).collect();
                c.create(&mut base, vals).unwrap();
            }
            c.unregister(&mut base).unwrap();
        }
    }
    let cons: Vec<(usize, Box<dyn AnyS>)> = picked.iter().map(|k| (*k, (shapes()[*k].register)(&mut base).unwrap())).collect();
    let mut objs: Vec<Vec<(ObjectHandle, Vec<NV>)>> = cons.iter().map(|_| vec![]).collect();
    let mut gone: Vec<ObjectHandle> = vec![];
    // a crowd, more than a byte or two can number
    let crowd = match s.draw(4999) {
        4999 if lists => 65_536 + s.below(4_000),
        4960.. => 200 + s.below(700),
        _ => 0,
    };
    if crowd > 0 {
        cx.label("a crowd");
        let c = s.below(cons.len());
        let types = &shapes()[cons[c].0].types;
        // a reader takes no more than a million tables, of which each state needs a few
        let crowd = crowd.min(900_000 / (3 * types.len() + 2));
        let rows: Vec<Vec<Val>> = (0..4).map(|_| types.iter().map(|t| gen_val(s, ty_of_key(*t))).collect()).collect();
        for i in 0..crowd {
            let mut vals = rows[i % rows.len()].clone();
            // most can be told apart
            for (v, t) in vals.iter_mut().zip(types) {
                match *t {
                    2 => *v = (i as u32).val(),
                    7 => *v = (i as i64).val(),
                    11 => *v = i.to_string().val(),
                    _ => (),
                }
            }
            let h = cons[c].1.create(&mut base, vals.iter().map(to_dyn).collect()).unwrap();
            objs[c].push((h, vals.into_iter().map(NV::Plain).collect()));
        }
    }
    let steps = match s.weighted(&[6, 3, 1]) {
        0 => s.below(6),
        1 => s.below(25),
        _ => s.below(120),
    };
    for _ in 0..steps {
        s.span(|s| {
            let c = s.below(cons.len());
            if s.chance(20) && !objs[c].is_empty() {
                let i = s.below(objs[c].len());
                let (h, _) = objs[c].remove(i);
                cons[c].1.remove(&mut base, h).unwrap();
                gone.push(h);
            } else {
                let vals: Vec<Val> = shapes()[cons[c].0].types.iter().map(|t| gen_val(s, ty_of_key(*t))).collect();
                let h = cons[c].1.create(&mut base, vals.iter().map(to_dyn).collect()).unwrap();
                objs[c].push((h, vals.into_iter().map(NV::Plain).collect()));
            }
        });
    }
    // the references
    let live: Vec<(usize, usize)> = objs.iter().enumerate().flat_map(|(c, o)| (0..o.len()).map(move |i| (c, i))).collect();
    for c in 0..cons.len() {
        let ids = cons[c].1.ids();
        for i in 0..objs[c].len() {
            for (f, t) in shapes()[cons[c].0].types.iter().enumerate() {
                let o = objs[c][i].0;
                match *t {
                    OBJ => {
                        if !closed && s.chance(4) {
                            let dead = gone.last().copied().filter(|_| s.bool()).unwrap_or_else(|| idx(9, 77));
                            point(&mut base, &ids[f], o, dead, cons[0].1.handle());
                            objs[c][i].1[f] = NV::Dead;
                        } else {
                            let (oc, oi) = *s.pick(&live);
                            point(&mut base, &ids[f], o, objs[oc][oi].0, cons[0].1.handle());
                            objs[c][i].1[f] = NV::Obj(oc, oi);
                        }
                    }
                    CON => {
                        let t = s.below(cons.len());
                        if !closed && s.chance(2) {
                            point(&mut base, &ids[f], o, o, idx(7, 70));
                            objs[c][i].1[f] = NV::Dead;
                        } else {
                            point(&mut base, &ids[f], o, o, cons[t].1.handle());
                            objs[c][i].1[f] = NV::Con(t);
                        }
                    }
                    _ => (),
                }
            }
        }
    }
    let w = World { base, cons, objs };
    cx.op(|| format!("{kind:?}: {}", show(&w.contents())));
    w
}

/// Saves the contracts of a world in the order given
pub fn save(s: &mut Src, base: &Baseline, cons: &[(usize, &dyn AnyS)], used: Option<FlatBufferBuilder<'static>>) -> Result<Result<FlatBufferBuilder<'static>, String>, String> {
    bimap::verif_order(1 + s.draw(1_000_000));
    let fbb = used.unwrap_or_else(|| FlatBufferBuilder::with_capacity(s.below(200)));
    let mut ser = Serializer::new(fbb, base);
    for (_, c) in cons {
        c.save(&mut ser)?;
    }
    Ok(panics(|| ser.finish()))
}

fn references(n: &[NC]) -> usize {
    n.iter().flat_map(|c| c.objs.iter().flatten()).filter(|v| matches!(v, NV::Obj(..) | NV::Con(_))).count()
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let open = s.chance(25);
    let lists = s.chance(25);
    let w = world(s, cx, lists, !open);
    let model = w.contents();
    let seen = contents(&w.base, &w.cons())?;
    ensure!(same(&seen, &model), "setup", "the baseline to save holds {} and should {}", show(&seen), show(&model));
    let mut order: Vec<usize> = (0..w.cons.len()).collect();
    s.shuffle(&mut order);
    if s.chance(20) {
        order.truncate(1 + s.below(order.len()));
    }
    let all = w.cons();
    let saved: Vec<(usize, &dyn AnyS)> = order.iter().map(|i| all[*i]).collect();
    cx.op(|| format!("saved: {order:?}"));
    let lists = saved.iter().any(|(k, _)| !shapes()[*k].plain());
    // a builder that was used before, now and then
    let used = if s.chance(15) {
        let mut f = FlatBufferBuilder::new();
        f.create_string("left over");
        if s.bool() {
            let t = f.create_string("root");
            f.finish(t, None);
        }
        Some(f)
    } else {
        None
    };
    let out = match save(s, &w.base, &saved, used) {
        Err(e) => {
            ensure!(lists, "save refused", "saving failed: {e}");
            cx.label("refused: lists");
            return Ok(());
        }
        Ok(o) => o,
    };
    ensure!(!lists, "save lists", "a contract with a list was saved");
    let want = reorder(&model, &order);
    let dead = want.iter().flat_map(|c| c.objs.iter().flatten()).any(|v| *v == NV::Dead);
    let fbb = match out {
        Err(e) => {
            ensure!(dead, "save panicked", "saving panicked: {e}");
            cx.label("refused: refers to what is not saved");
            return Ok(());
        }
        Ok(f) => f,
    };
    ensure!(!dead, "save dead", "saved although something refers to what is not saved");
    let data = fbb.finished_data().to_vec();

    // what the bytes say
    let wire = wire::contents(&data).map_err(|e| Fail { sig: "bytes".into(), msg: format!("the bytes are not well-formed: {e}") })?;
    ensure!(same(&wire, &want), "bytes", "the bytes say {} and should {}", show(&wire), show(&want));
    // saving changes nothing
    let seen = contents(&w.base, &w.cons())?;
    ensure!(same(&seen, &model), "saved baseline", "after saving, the baseline holds {} and should {}", show(&seen), show(&model));

    // and back
    let ks: Vec<usize> = saved.iter().map(|c| c.0).collect();
    let (base, cons) = restore(s, cx, &data, &ks, &want)?;
    cx.nontrivial_if(want.iter().filter(|c| !c.objs.is_empty()).count() >= 2 && references(&want) > 0);

    // what came back is a baseline like any other
    if s.chance(30) {
        cx.label("saved again");
        let cs: Vec<(usize, &dyn AnyS)> = cons.iter().map(|(k, c)| (*k, &**c)).collect();
        let again = save(s, &base, &cs, Some(fbb));
        let fbb = match again {
            Ok(Ok(f)) => f,
            Ok(Err(e)) | Err(e) => return fail("save again", format!("saving what was restored failed: {e}")),
        };
        let wire = wire::contents(fbb.finished_data()).map_err(|e| Fail { sig: "bytes".into(), msg: e })?;
        ensure!(same(&wire, &want), "save again", "saved again, it is {} and was {}", show(&wire), show(&want));
    }
    if s.chance(30) {
        let mut base = base;
        let mut n = base.iter_objects().count();
        for (k, c) in &cons {
            let vals = shapes()[*k].types.iter().map(|t| to_dyn(&gen_val(s, ty_of_key(*t)))).collect();
            c.create(&mut base, vals).map_err(|e| Fail { sig: "use".into(), msg: format!("cannot create in what was restored: {e}") })?;
            n += 1;
        }
        ensure!(base.iter_objects().count() == n, "use", "creating adds one object");
        for (_, c) in &cons {
            let os: Vec<ObjectHandle> = base.contract_data(c.handle()).unwrap().objects().iter().copied().collect();
            for o in os {
                c.remove(&mut base, o).map_err(|e| Fail { sig: "use".into(), msg: format!("cannot remove from what was restored: {e}") })?;
            }
            c.unregister(&mut base).map_err(|e| Fail { sig: "use".into(), msg: e })?;
        }
        ensure!(base.iter_objects().count() == 0, "use", "objects remain after all were removed");
    }
    Ok(())
}

type Restored = (Baseline, Vec<(usize, Box<dyn AnyS>)>);

/// Restores all of it, in any order, by the shapes given or ones that are the same
fn restore(s: &mut Src, cx: &mut Cx, data: &[u8], ks: &[usize], want: &[NC]) -> Result<Restored, Fail> {
    bimap::verif_order(1 + s.draw(1_000_000));
    let kind = if s.bool() { BaselineKind::Main } else { BaselineKind::Fork };
    let mut b = DeserializerBuilder::new(data, kind).map_err(|e| Fail { sig: "open".into(), msg: format!("{e:#}") })?;
    let mut order: Vec<usize> = (0..ks.len()).collect();
    s.shuffle(&mut order);
    let mut cons: Vec<Option<(usize, Box<dyn AnyS>)>> = ks.iter().map(|_| None).collect();
    for i in order {
        // others are refused, before or after
        if s.chance(20) {
            let k = s.below(shapes().len());
            let same = |o: usize| shapes()[o].id == shapes()[k].id && shapes()[o].names == shapes()[k].names && shapes()[o].types == shapes()[k].types;
            if !ks.iter().any(|o| same(*o)) {
                ensure!((shapes()[k].find)(&mut b).is_err(), "found", "found the contract {:?}, which was not saved", shapes()[k].id);
            }
        }
        let k = if ks[i] == 3 && s.bool() { 13 } else { ks[i] };
        let c = (shapes()[k].find)(&mut b).map_err(|e| Fail { sig: "find".into(), msg: format!("contract {:?} was saved and is not found: {e}", shapes()[k].id) })?;
        cons[i] = Some((k, c));
        if s.chance(10) {
            ensure!((shapes()[k].find)(&mut b).is_err(), "found", "registered {:?} twice", shapes()[k].id);
        }
    }
    let cons: Vec<(usize, Box<dyn AnyS>)> = cons.into_iter().flatten().collect();
    let mut d = b.finish();
    let mut order: Vec<usize> = (0..ks.len()).collect();
    s.shuffle(&mut order);
    for i in order {
        cons[i].1.restore(&mut d).map_err(|e| Fail { sig: "restore".into(), msg: format!("contract {:?}: {e}", shapes()[cons[i].0].id) })?;
    }
    let base = d.finish().map_err(|e| Fail { sig: "restore".into(), msg: format!("{e:#}") })?;
    ensure!(base.kind() == kind, "kind", "restored as {kind:?}, it is {:?}", base.kind());
    let cs: Vec<(usize, &dyn AnyS)> = cons.iter().map(|(k, c)| (*k, &**c)).collect();
    let got = contents(&base, &cs)?;
    ensure!(same(&got, &want), "contents", "restored is {} and was saved {}", show(&got), show(want));
    cx.label("restored");
    Ok((base, cons))
}
