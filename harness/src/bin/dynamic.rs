//! P09 conversions into and out of dynamic properties, P10 comparing them, P11 dynamic handles.
use harness::contracts::*;
use harness::ensure;
use harness::pbt::*;
use harness::values::*;
use harness::with_ty;
use harness::world::*;
use better_borrow::{BBorrow, BBorrowMut};
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::{
    dyn_channel as dc, dyn_handle as cdh, Channel, ChannelHandle, ChannelId, DynChannel, DynChannelHandle, DynChannelId,
    DynChannelMut, DynChannelRef, IChannelHandle,
};
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::{
    dyn_handle as sdh, dyn_state::*, id as sid_, DynStateHandle, DynStateId, IStateHandle, State, StateHandle, StateId,
};
use tp_client::contract::properties::traits::{ITpData, ITpProperty, ITpPropertyStatic};

pub const P09: Prop = Prop {
    id: "P09",
    title: "dynamic properties hold and give back what was put in",
    rule: "the value is neither zero nor empty",
    quick: 400_000,
    thorough: 10_000_000,
    run: p09,
};

fn owned<T: PropT>(x: T) -> Val {
    x.val()
}
fn owned_chan<T: PropT>(x: Channel<T>) -> Chan {
    chan_val(&x)
}
fn ref_chan<T: PropT>(x: &Channel<T>) -> Chan {
    chan_val(x)
}
fn mut_chan<T: PropT>(x: &mut Channel<T>) -> Chan {
    chan_val(x)
}
fn any_sid<T: PropT>(x: StateId<T>) -> Fid {
    sid(&x)
}
fn any_cid<T: PropT>(x: ChannelId<T>) -> Fid {
    cid(&x)
}
fn any_sh<T: PropT>(x: StateHandle<T>) -> (usize, (usize, u64)) {
    (T::key(), raw(x))
}
fn any_ch<T: PropT>(x: ChannelHandle<T>) -> (usize, (usize, u64)) {
    (T::key(), raw(x))
}

fn same(what: &str, got: Val, want: &Val) -> Res {
    if got == *want {
        Ok(())
    } else {
        fail("value", format!("{what} of {} is {}", want.show(), got.show()))
    }
}
fn typed(what: &str, got: Ty, want: &Val) -> Res {
    if got == want.ty() {
        Ok(())
    } else {
        fail("type", format!("{what} of {} says {got:?}", want.show()))
    }
}

fn p09(s: &mut Src, cx: &mut Cx) -> Res {
    let v = match any_ty(s) {
        t => gen_val(s, t),
    };
    // overwritten with, in place, so of the same length
    let mut w = v.clone();
    for p in w.parts.iter_mut() {
        *p = gen_val(s, Ty::Primitive(v.ty().primitive_type())).parts.remove(0);
    }
    cx.op(|| format!("{} / {}", v.show(), w.show()));
    cx.nontrivial_if(v.parts.iter().any(|p| p.iter().any(|b| *b != 0)));
    typed("primitive_type", Ty::Primitive(v.ty().primitive_type()), &Val { ty: v.ty % 14, parts: vec![] })?;

    with_ty!(v.ty, T => {
        let x = T::of(&v);
        typed("PROPERTY_TYPE", <T as ITpPropertyStatic>::PROPERTY_TYPE, &v)?;
        typed("the static prop_type()", ITpProperty::prop_type(&x), &v)?;
        // owned
        let d = DynTpProperty::from(T::of(&v));
        same("From", of_dyn(&d), &v)?;
        typed("prop_type()", d.prop_type(), &v)?;
        typed("ITpProperty::prop_type()", ITpProperty::prop_type(&d), &v)?;
        same("Clone", of_dyn(&d.clone()), &v)?;
        // borrowed
        same("Ref from the value", of_ref(&DynTpPropertyRef::from(&x)), &v)?;
        typed("prop_type() of the Ref", DynTpPropertyRef::from(&x).prop_type(), &v)?;
        let mut y = T::of(&v);
        {
            let m = DynTpPropertyMut::from(&mut y);
            typed("prop_type() of the Mut", m.prop_type(), &v)?;
            same("Mut from the value", of_mut(&m), &v)?;
            write_mut(m, &w);
        }
        same("the value written through a Mut", y.val(), &w)?;
        // states and channels
        same("DynState", of_dyn(&DynState::from(State::new(T::of(&v))).0), &v)?;
        let mut st = State::new(T::of(&v));
        same("DynStateRef", of_ref(&DynStateRef::from(&st).0), &v)?;
        write_mut(DynStateMut::from(&mut st).0, &w);
        same("the state written through a DynStateMut", st.value.val(), &w)?;
    });
    borrowed(&v, &w)?;
    by_container(s, &v, &w)?;
    channels(s, &v)?;
    ids(s, &v)
}

/// Through a `DynTpProperty` that is borrowed in the ways there are
fn borrowed(v: &Val, w: &Val) -> Res {
    let mut d = to_dyn(v);
    let r: DynTpPropertyRef = BBorrow::borrow(&d);
    same("borrow()", of_ref(&r), v)?;
    let r2 = r;
    same("a copy of the Ref", of_ref(&r2.clone()), v)?;
    same("Ref from the dynamic property", of_ref(&DynTpPropertyRef::from(&d)), v)?;
    {
        let rr = &d;
        let r: DynTpPropertyRef = BBorrow::borrow(&rr);
        same("borrow() of a reference", of_ref(&r), v)?;
    }
    same("apply_to_prop", tp_client::apply_to_prop!(to_dyn(v), owned), v)?;
    {
        let m: DynTpPropertyMut = BBorrowMut::borrow_mut(&mut d);
        same("borrow_mut()", of_mut(&m), v)?;
        write_mut(m, w);
    }
    same("what was written through borrow_mut()", of_dyn(&d), w)?;
    {
        let m = DynTpPropertyMut::from(&mut d);
        write_mut(m, v);
    }
    same("what was written through a Mut from the dynamic property", of_dyn(&d), v)?;
    {
        let mut rm = &mut d;
        let m: DynTpPropertyMut = BBorrowMut::borrow_mut(&mut rm);
        write_mut(m, w);
    }
    same("what was written through borrow_mut() of a reference", of_dyn(&d), w)
}

/// The two levels of the enums, and back
fn by_container(s: &mut Src, v: &Val, w: &Val) -> Res {
    let other = s.below(14);
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match v.ty() {
                $(Ty::Primitive(PT::$v) => {
                    let x = <$t as PropT>::of(v);
                    if <$t as ITpData>::DATA_TYPE != PT::$v {
                        return fail("type", format!("DATA_TYPE of {} is {:?}", v.show(), <$t as ITpData>::DATA_TYPE));
                    }
                    let p = DynTpPrimitive::from(x.clone());
                    typed("prop_type() of the primitive", p.prop_type(), v)?;
                    let d: DynTpProperty = p.into();
                    same("DynTpPrimitive into DynTpProperty", of_dyn(&d), v)?;
                    let p: DynTpPrimitive = match DynTpPrimitive::try_from(d) {
                        Ok(p) => p,
                        Err(e) => return fail("try_into", format!("{} is not a primitive: {e}", v.show())),
                    };
                    match <$t>::try_from(p) {
                        Ok(x) => same("TryInto", x.val(), v)?,
                        Err(e) => return fail("try_into", format!("{} out again: {e}", v.show())),
                    }
                    ensure!(DynTpVec::try_from(to_dyn(v)).is_err(), "try_into", "{} comes out as a vec", v.show());
                    let q = DynTpPrimitive::from(<$t as PropT>::of(v));
                    ensure!(
                        try_prim(q, other) == (other == v.ty),
                        "try_into",
                        "{} taken out as a {} is {}",
                        v.show(), ty_name(ty_of_key(other)), other != v.ty
                    );
                    let mut z = <$t as PropT>::of(v);
                    let r = DynTpPrimitiveRef::from(&z);
                    typed("prop_type() of the primitive Ref", r.prop_type(), v)?;
                    same("a copy of the primitive Ref", of_ref(&DynTpPropertyRef::from(r.clone())), v)?;
                    let m = DynTpPrimitiveMut::from(&mut z);
                    typed("prop_type() of the primitive Mut", m.prop_type(), v)?;
                    write_mut(m.into(), w);
                    same("what was written through a primitive Mut", z.val(), w)?;
                })*
                $(Ty::Vec(PT::$v) => {
                    let mut x = <Vec<$t> as PropT>::of(v);
                    let p = DynTpVec::from(x.clone());
                    typed("prop_type() of the vec", p.prop_type(), v)?;
                    let d: DynTpProperty = p.into();
                    same("DynTpVec into DynTpProperty", of_dyn(&d), v)?;
                    let p: DynTpVec = match DynTpVec::try_from(d) {
                        Ok(p) => p,
                        Err(e) => return fail("try_into", format!("{} is not a vec: {e}", v.show())),
                    };
                    match <Vec<$t>>::try_from(p) {
                        Ok(x) => same("TryInto", x.val(), v)?,
                        Err(e) => return fail("try_into", format!("{} out again: {e}", v.show())),
                    }
                    ensure!(DynTpPrimitive::try_from(to_dyn(v)).is_err(), "try_into", "{} comes out as a primitive", v.show());
                    let q = DynTpVec::from(x.clone());
                    ensure!(
                        try_vec(q, other) == (other + 14 == v.ty),
                        "try_into",
                        "{} taken out as a vec of {} is {}",
                        v.show(), ty_name(ty_of_key(other)), other + 14 != v.ty
                    );
                    // slices
                    let r = DynTpVecRef::from(x.as_slice());
                    typed("prop_type() of the vec Ref", r.prop_type(), v)?;
                    same("a copy of the vec Ref", of_ref(&DynTpPropertyRef::from(r.clone())), v)?;
                    same("Ref from the slice", of_ref(&DynTpPropertyRef::from(x.as_slice())), v)?;
                    same("vec Ref from the vec", of_ref(&DynTpVecRef::from(&x).into()), v)?;
                    let m = DynTpVecMut::from(x.as_mut_slice());
                    typed("prop_type() of the vec Mut", m.prop_type(), v)?;
                    write_mut(m.into(), w);
                    same("what was written through a vec Mut", x.val(), w)?;
                    write_mut(DynTpPropertyMut::from(x.as_mut_slice()), v);
                    same("what was written through a Mut from the slice", x.val(), v)?;
                    write_mut(DynTpVecMut::from(&mut x).into(), w);
                    same("what was written through a vec Mut from the vec", x.val(), w)?;
                })*
            }
        };
    }
    harness::each_prim!(arms);
    Ok(())
}
fn try_prim(p: DynTpPrimitive, as_: usize) -> bool {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => { match PRIMS[as_] { $(PT::$v => <$t>::try_from(p).is_ok()),* } };
    }
    harness::each_prim!(arms)
}
fn try_vec(p: DynTpVec, as_: usize) -> bool {
    macro_rules! arms {
        ($($v:ident $t:ty),*) => { match PRIMS[as_] { $(PT::$v => <Vec<$t>>::try_from(p).is_ok()),* } };
    }
    harness::each_prim!(arms)
}

fn channels(s: &mut Src, v: &Val) -> Res {
    let c = gen_chan_ordered(s, v.ty());
    let show = |what: &str, got: Chan| {
        if got == c {
            Ok(())
        } else {
            fail("channel", format!("{what} of {} is {}", c.show(), got.show()))
        }
    };
    let d = chan_to_dyn(&c);
    typed("prop_type() of the channel", d.prop_type(), v)?;
    with_ty!(c.ty, T => {
        let mut x = chan_of::<T>(&c);
        let r = DynChannelRef::from(&x);
        typed("prop_type() of the channel Ref", r.prop_type(), v)?;
        show("a copy of the channel Ref", of_chan_ref(&r.clone()))?;
        show("apply_to_channel_ref", tp_client::apply_to_channel_ref!(r, ref_chan))?;
        let m = DynChannelMut::from(&mut x);
        typed("prop_type() of the channel Mut", m.prop_type(), v)?;
        show("the channel Mut", of_chan_mut(&m))?;
        show("apply_to_channel_mut", tp_client::apply_to_channel_mut!(m, mut_chan))?;
    });
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match v.ty() {
                $(Ty::Primitive(PT::$v) => {
                    let p = dc::DynChannelPrimitive::from(chan_of::<$t>(&c));
                    typed("prop_type() of the primitive channel", p.prop_type(), v)?;
                    show("the channel", of_dyn_chan(&DynChannel::from(p)))?;
                    match dc::DynChannelPrimitive::try_from(chan_to_dyn(&c)).ok().and_then(|p| Channel::<$t>::try_from(p).ok()) {
                        Some(x) => show("TryInto", chan_val(&x))?,
                        None => return fail("try_into", format!("{} does not come out again", c.show())),
                    }
                    ensure!(dc::DynChannelVec::try_from(chan_to_dyn(&c)).is_err(), "try_into", "{} comes out as one of a vec", c.show());
                })*
                $(Ty::Vec(PT::$v) => {
                    let p = dc::DynChannelVec::from(chan_of::<Vec<$t>>(&c));
                    typed("prop_type() of the vec channel", p.prop_type(), v)?;
                    show("the channel", of_dyn_chan(&DynChannel::from(p)))?;
                    match dc::DynChannelVec::try_from(chan_to_dyn(&c)).ok().and_then(|p| Channel::<Vec<$t>>::try_from(p).ok()) {
                        Some(x) => show("TryInto", chan_val(&x))?,
                        None => return fail("try_into", format!("{} does not come out again", c.show())),
                    }
                    ensure!(dc::DynChannelPrimitive::try_from(chan_to_dyn(&c)).is_err(), "try_into", "{} comes out as a primitive one", c.show());
                })*
            }
        };
    }
    harness::each_prim!(arms);
    show("apply_to_channel", tp_client::apply_to_channel!(d, owned_chan))
}

fn ids(s: &mut Src, v: &Val) -> Res {
    let contract = idx(s.draw(4) as usize, s.draw(4));
    let f = Fid { ty: v.ty, contract: raw(contract), idx: s.below(40) };
    let got = tp_client::apply_to_state_id!(DynStateId::new(contract, f.idx, v.ty()), any_sid);
    ensure!(got == f && dyn_sid(&DynStateId::new(contract, f.idx, v.ty())) == f, "id", "the state id {f:?} is {got:?}");
    let got = tp_client::apply_to_channel_id!(DynChannelId::new(contract, f.idx, v.ty()), any_cid);
    ensure!(got == f && dyn_cid(&DynChannelId::new(contract, f.idx, v.ty())) == f, "id", "the channel id {f:?} is {got:?}");
    let h = (s.draw(5) as usize, s.draw(5));
    let (sh, ch) = (dyn_state_handle(v.ty, h), dyn_chan_handle(v.ty, h));
    typed("prop_type() of a state handle", sh.prop_type(), v)?;
    typed("prop_type() of a channel handle", ch.prop_type(), v)?;
    let got = tp_client::apply_to_state_handle!(sh, any_sh);
    ensure!(got == (v.ty, h), "handle", "the state handle {h:?} of {} is {got:?}", v.show());
    let got = tp_client::apply_to_channel_handle!(ch, any_ch);
    ensure!(got == (v.ty, h), "handle", "the channel handle {h:?} of {} is {got:?}", v.show());
    with_ty!(v.ty, T => {
        let x: StateHandle<T> = idx(h.0, h.1);
        typed("prop_type() of a static state handle", IStateHandle::prop_type(&x), v)?;
        ensure!(DynStateHandle::from(x) == sh, "handle", "from the static state handle it is another");
        let x: ChannelHandle<T> = idx(h.0, h.1);
        typed("prop_type() of a static channel handle", IChannelHandle::prop_type(&x), v)?;
    });
    let _ = |a: sdh::DynStateHandlePrimitive, b: cdh::DynChannelHandlePrimitive, c: sid_::DynStateIdPrimitive| (a, b, c);
    Ok(())
}

// ---- P10 ----

pub const P10: Prop = Prop {
    id: "P10",
    title: "dynamic and static properties compare alike",
    rule: "the two values have one type or one encoding, and are neither zero nor empty",
    quick: 1_000_000,
    thorough: 15_000_000,
    run: p10,
};


fn p10(s: &mut Src, cx: &mut Cx) -> Res {
    let a = match any_ty(s) {
        t => gen_val(s, t),
    };
    let b = near(s, &a);
    let e = val_eq(&a, &b);
    cx.op(|| format!("{} against {}", a.show(), b.show()));
    cx.label(if e { "equal" } else { "unequal" });
    cx.nontrivial_if((a.ty == b.ty || a.parts == b.parts) && a.parts.iter().any(|p| p.iter().any(|x| *x != 0)));
    let (mut da, mut db) = (to_dyn(&a), to_dyn(&b));
    let check = |what: &str, got: bool| {
        if got == e {
            Ok(())
        } else {
            fail("compare", format!("{what}: {} and {} compare as {got}", a.show(), b.show()))
        }
    };
    check("dynamic ==", da == db)?;
    check("dynamic == (flipped)", db == da)?;
    check("dynamic !=", !(da != db))?;
    check("DynState ==", DynState(to_dyn(&a)) == DynState(to_dyn(&b)))?;
    check("Ref ==", DynTpPropertyRef::from(&da) == DynTpPropertyRef::from(&db))?;
    check("DynStateRef ==", DynStateRef(BBorrow::borrow(&da)) == DynStateRef(BBorrow::borrow(&db)))?;
    check("Mut ==", DynTpPropertyMut::from(&mut da) == DynTpPropertyMut::from(&mut db))?;
    // with itself, in one place: a value with NaN in it does not equal even itself
    let own = val_eq(&a, &a);
    let alias = |what: &str, got: bool| {
        if got == own {
            Ok(())
        } else {
            fail("compare", format!("{what}: {} and itself compare as {got}", a.show()))
        }
    };
    alias("dynamic ==", da == da)?;
    alias("Ref ==", DynTpPropertyRef::from(&da) == DynTpPropertyRef::from(&da))?;
    let r = DynTpPropertyRef::from(&da);
    alias("Ref ==, one Ref", r == r)?;
    match &da {
        DynTpProperty::Primitive(p) => alias("dynamic primitive ==", *p == *p)?,
        DynTpProperty::Vec(p) => alias("dynamic vec ==", *p == *p)?,
    }
    macro_rules! selves {
        ($($v:ident $t:ty),*) => {
            match &da {
                $(DynTpProperty::Primitive(DynTpPrimitive::$v(x)) => {
                    alias("dynamic == static", da == *x)?;
                    alias("static == dynamic", *x == da)?;
                    alias("Ref == Ref to the static", DynTpPropertyRef::from(&da) == DynTpPropertyRef::from(x))?;
                })*
                $(DynTpProperty::Vec(DynTpVec::$v(x)) => {
                    alias("dynamic == static vec", da == *x)?;
                    alias("static vec == dynamic", *x == da)?;
                    alias("dynamic == slice", da == x.as_slice())?;
                    alias("slice == dynamic", x.as_slice() == da)?;
                    alias("Ref == Ref to the slice", DynTpPropertyRef::from(&da) == DynTpPropertyRef::from(x.as_slice()))?;
                    if let DynTpProperty::Vec(p) = &da {
                        alias("dynamic vec == static", *p == *x)?;
                        alias("static == dynamic vec", *x == *p)?;
                        alias("dynamic vec == slice", *p == x.as_slice())?;
                        alias("slice == dynamic vec", x.as_slice() == *p)?;
                        // a part of itself
                        let n = s.below(x.len() + 1);
                        let part = own && n == x.len();
                        for (what, got) in [("dynamic == slice", da == &x[..n]), ("slice == dynamic", &x[..n] == da), ("slice == dynamic vec", &x[..n] == *p)] {
                            if got != part {
                                return fail("compare", format!("{what}: {} and the first {n} of its own items compare as {got}", a.show()));
                            }
                        }
                    }
                })*
            }
        };
    }
    harness::each_prim!(selves);
    macro_rules! arms {
        ($($v:ident $t:ty),*) => {
            match b.ty() {
                $(Ty::Primitive(PT::$v) => {
                    let x = <$t as PropT>::of(&b);
                    check("dynamic == static", da == x)?;
                    check("dynamic != static", !(da != x))?;
                    check("static == dynamic", x == da)?;
                    if let DynTpProperty::Primitive(p) = &da {
                        check("dynamic primitive == static", *p == x)?;
                        check("static == dynamic primitive", x == *p)?;
                        check("dynamic primitive ==", *p == DynTpPrimitive::from(x.clone()))?;
                    }
                    check("Ref == Ref to the static", DynTpPropertyRef::from(&da) == DynTpPropertyRef::from(&x))?;
                })*
                $(Ty::Vec(PT::$v) => {
                    let x = <Vec<$t> as PropT>::of(&b);
                    check("dynamic == static vec", da == x)?;
                    check("dynamic != static vec", !(da != x))?;
                    check("static vec == dynamic", x == da)?;
                    check("dynamic == slice", da == x.as_slice())?;
                    check("slice == dynamic", x.as_slice() == da)?;
                    if let DynTpProperty::Vec(p) = &da {
                        check("dynamic vec == static", *p == x)?;
                        check("static == dynamic vec", x == *p)?;
                        check("dynamic vec == slice", *p == x.as_slice())?;
                        check("slice == dynamic vec", x.as_slice() == *p)?;
                        check("dynamic vec ==", *p == DynTpVec::from(x.clone()))?;
                    }
                    check("Ref == Ref to the slice", DynTpPropertyRef::from(&da) == DynTpPropertyRef::from(x.as_slice()))?;
                })*
            }
        };
    }
    harness::each_prim!(arms);
    Ok(())
}

// ---- P11 ----

pub const P11: Prop = Prop {
    id: "P11",
    title: "dynamic and static handles reach the same data",
    rule: "a value was written through one kind of handle and read through the other",
    quick: 80_000,
    thorough: 1_000_000,
    run: p11,
};
fn p11(s: &mut Src, cx: &mut Cx) -> Res {
    let kinds = World::pick_kinds(s);
    let mut w = World::new(Bases::own(1), kinds);
    for _ in 0..2 {
        w.register_some(s, cx, 0)?;
    }
    for _ in 0..1 + s.below(5) {
        if let Some(c) = w.pick_con(s, 0, true) {
            s.span(|s| w.create(s, cx, 0, c))?;
        }
        if s.chance(25) {
            w.remove_some(s, cx, 0)?;
        }
    }
    let mut all: Vec<(bool, usize, (usize, u64))> = Vec::new();
    for o in &w.m[0].objs {
        all.extend(o.states.iter().zip(&o.sh).map(|(v, h)| (false, v.ty, *h)));
        all.extend(o.chans.iter().zip(&o.ch).map(|(v, h)| (true, v.ty, *h)));
    }
    // handles as such: equal exactly if they name the same field
    for _ in 0..4 {
        if all.len() >= 2 {
            let (a, b) = (*s.pick(&all), *s.pick(&all));
            if !a.0 && !b.0 {
                let (x, y) = (dyn_state_handle(a.1, a.2), dyn_state_handle(b.1, b.2));
                ensure!((x == y) == (a == b), "handle", "{a:?} == {b:?} is {}", x == y);
                let hash = |d: &DynStateHandle| {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    d.hash(&mut h);
                    h.finish()
                };
                ensure!(a != b || hash(&x) == hash(&y), "handle", "equal handles hash differently");
            } else if a.0 && b.0 {
                let (x, y) = (dyn_chan_handle(a.1, a.2), dyn_chan_handle(b.1, b.2));
                ensure!((x == y) == (a == b), "handle", "{a:?} == {b:?} is {}", x == y);
            }
        }
    }
    for _ in 0..s.below(10) {
        s.span(|s| p11_step(s, cx, &mut w))?;
    }
    let way = s.draw(2);
    w.audit(0, way)
}

fn read_dyn(b: &Baseline, ty: usize, h: (usize, u64)) -> Result<Val, Fail> {
    let d = dyn_state_handle(ty, h);
    ensure!(d.prop_type() == ty_of_key(ty), "type", "the handle of a {} says {:?}", ty_name(ty_of_key(ty)), d.prop_type());
    match d.get(b) {
        Ok(r) => {
            ensure!(r.0.prop_type() == ty_of_key(ty), "type", "a {} reads as {:?}", ty_name(ty_of_key(ty)), r.0.prop_type());
            Ok(of_ref(&r.0))
        }
        Err(e) => fail("dead", e.to_string()),
    }
}

fn p11_step(s: &mut Src, cx: &mut Cx, w: &mut World) -> Res {
    if w.m[0].objs.is_empty() {
        return Ok(());
    }
    let i = s.below(w.m[0].objs.len());
    let o = w.m[0].objs[i].clone();
    let b = w.b.at_mut(0);
    if s.bool() && !o.states.is_empty() {
        let f = s.below(o.states.len());
        let (v, h) = (&o.states[f], o.sh[f]);
        let st = read_state(b, v.ty, h, 0).map_err(|e| Fail { sig: "static".into(), msg: e })?;
        let dy = read_dyn(b, v.ty, h)?;
        ensure!(st == dy && dy == *v, "agree", "state {f} is {} statically, {} dynamically, {} was put in", st.show(), dy.show(), v.show());
        let mut new = v.clone();
        for p in new.parts.iter_mut() {
            *p = gen_val(s, Ty::Primitive(v.ty().primitive_type())).parts.remove(0);
        }
        let way = s.draw(1);
        cx.op(|| format!("{}.state{f} = {} ({})", oh(o.h), new.show(), ["static", "dynamic"][way as usize]));
        if way == 1 {
            let m = dyn_state_handle(v.ty, h).get_mut(b).map_err(|e| Fail { sig: "dynamic".into(), msg: e.to_string() })?;
            ensure!(m.0.prop_type() == v.ty(), "type", "a {} is written as {:?}", v.show(), m.0.prop_type());
            ensure!(of_mut(&m.0) == *v, "agree", "mutably, state {f} reads {}", of_mut(&m.0).show());
            write_mut(m.0, &new);
        } else {
            write_state(b, h, v, &new, 0).map_err(|e| Fail { sig: "static".into(), msg: e })?;
        }
        let (st, dy) = (read_state(b, v.ty, h, 0), read_dyn(b, v.ty, h)?);
        ensure!(
            st.as_ref() == Ok(&new) && dy == new,
            "agree",
            "after writing {}, state {f} is {st:?} statically, {} dynamically",
            new.show(),
            dy.show()
        );
        w.m[0].objs[i].states[f] = new;
        cx.nontrivial();
    } else if !o.chans.is_empty() {
        let f = s.below(o.chans.len());
        let (v, h) = (&o.chans[f], o.ch[f]);
        let new = gen_chan_ordered(s, ty_of_key(v.ty));
        let dyn_h: DynChannelHandle = dyn_chan_handle(v.ty, h);
        ensure!(dyn_h.prop_type() == ty_of_key(v.ty), "type", "the handle of {} says {:?}", v.show(), dyn_h.prop_type());
        {
            let r = dyn_h.get(b).map_err(|e| Fail { sig: "dynamic".into(), msg: e.to_string() })?;
            ensure!(r.prop_type() == ty_of_key(v.ty) && of_chan_ref(&r) == *v, "agree", "channel {f} reads {}", of_chan_ref(&r).show());
        }
        {
            let m = dyn_h.get_mut(b).map_err(|e| Fail { sig: "dynamic".into(), msg: e.to_string() })?;
            ensure!(m.prop_type() == ty_of_key(v.ty) && of_chan_mut(&m) == *v, "agree", "mutably, channel {f} reads {}", of_chan_mut(&m).show());
            cx.op(|| format!("{}.channel{f} = {}", oh(o.h), new.show()));
            macro_rules! arms {
                ($($v:ident $t:ty),*) => {
                    match m {
                        DynChannelMut::Primitive(p) => match p { $(dc::DynChannelPrimitiveMut::$v(x) => *x = chan_of::<$t>(&new)),* },
                        DynChannelMut::Vec(p) => match p { $(dc::DynChannelVecMut::$v(x) => *x = chan_of::<Vec<$t>>(&new)),* },
                    }
                };
            }
            harness::each_prim!(arms);
        }
        let st = read_chan(b, v.ty, h, 0);
        ensure!(st.as_ref() == Ok(&new), "agree", "after writing {} dynamically, channel {f} is {st:?} statically", new.show());
        w.m[0].objs[i].chans[f] = new;
        cx.nontrivial();
    }
    Ok(())
}
fn main() { harness::run(&[P09, P10, P11]) }
