//! P34: the demo of the circles, frame by frame.
use bevy::prelude::{App, Assets, Entity, Mesh, Transform, Vec3, With, Without};
use bevy::sprite::Mesh2dHandle;
use bevy_prototype_lyon::prelude::DrawMode;
use harness::ensure;
use harness::pbt::{fail, panics, Cx, Fail, Prop, Res, Src};
use harness::values::raw;
use std::collections::{BTreeMap, HashSet};
use tp_client::action::property::{PropertyAction, StateAction};
use tp_client::action::{Action, Collaction};
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::dynamic::{DynTpPrimitive, DynTpProperty};
use tp_client::contract::properties::states::{StateHandle, StateId};
use tp_client::contract::{states, Contract, ContractDataHandle, ContractId};
use tp_client::engine::{ActionSender, Engine};
use tp_client::object::ObjectHandle;

pub const P34: Prop = Prop {
    id: "P34",
    title: "the circles of the demo are where their states are",
    rule: "states were written, or circles changed or removed, between at least three frames",
    quick: 600,
    thorough: 20_000,
    run,
};

/// Someone else's contract, with states of the same type
#[states]
pub struct S {
    a: f32,
    b: f32,
}
pub struct Stranger(ContractDataHandle, S);
impl Contract for Stranger {
    type States = S;
    type Channels = ();
    const ID: ContractId = ContractId { name: "verif.stranger", version: (1, 0, 0) };
    fn new(h: ContractDataHandle) -> Self {
        Stranger(h, S::new(h))
    }
    fn states(&self) -> &S {
        &self.1
    }
    fn channels(&self) -> &() {
        &()
    }
    fn handle(&self) -> ContractDataHandle {
        self.0
    }
}

struct Circle {
    obj: ObjectHandle,
    h: [StateHandle<f32>; 2],
    /// None once it is not drawn any more
    entity: Option<Entity>,
    at: [f32; 2],
    /// The rest of its transform
    rest: Transform,
}

fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn rest_of(t: &Transform) -> Transform {
    let mut t = *t;
    t.translation.x = 0.;
    t.translation.y = 0.;
    t
}

struct Game {
    app: App,
    circles: Vec<Circle>,
    others: Vec<(BaselineKind, [StateHandle<f32>; 2], [f32; 2])>,
    strangers: BTreeMap<u8, Stranger>,
}

impl Game {
    fn engine(&self) -> &Engine {
        self.app.world.get_resource::<Engine>().expect("the engine is a resource")
    }
    fn read(&self, k: BaselineKind, h: StateHandle<f32>) -> Result<f32, Fail> {
        match self.engine().realm().baseline(k).state(h) {
            Ok(s) => Ok(s.value),
            Err(e) => fail("state", format!("a state is gone: {e}")),
        }
    }
    /// One value, through one of the ways there are
    fn write(&mut self, s: &mut Src, h: StateHandle<f32>, k: BaselineKind, v: f32) -> Res {
        let by_action = k == BaselineKind::Fork && s.chance(30);
        if by_action {
            let c = Collaction::verif_new(vec![Action::Property(PropertyAction::State(StateAction::Write {
                handle: h.into(),
                data: DynTpProperty::from(DynTpPrimitive::from(v)),
            }))]);
            let tx = self.app.world.get_resource::<ActionSender>().expect("the sender is a resource").clone();
            ensure!(tx.send(c).is_ok(), "send", "the engine of the game takes no actions");
            let mut e = self.app.world.get_resource_mut::<Engine>().unwrap();
            ensure!(matches!(e.try_apply(), Ok(Ok(_))), "send", "the engine refuses a write");
        } else {
            let mut e = self.app.world.get_resource_mut::<Engine>().unwrap();
            let b = e.realm_mut().baseline_mut(k);
            match s.bool() {
                true => b[h].value = v,
                false => b.state_mut(h).map_err(|e| Fail { sig: "state".into(), msg: e.to_string() })?.value = v,
            }
        }
        Ok(())
    }
}

/// The circle that walks furthest in one frame
const STEP: f32 = 1.0;

fn start(s: &mut Src) -> Result<Game, Fail> {
    let mut app = circle_game::configure_app();
    // nothing is there before the first frame, which is the one that makes the circles
    app.update();
    let mut g = Game { app, circles: vec![], others: vec![], strangers: BTreeMap::new() };
    let b = g.engine().realm().baseline(BaselineKind::Fork);
    let mut objs: Vec<ObjectHandle> = b.iter_objects().map(|(h, _)| h).collect();
    s.shuffle(&mut objs);
    ensure!(objs.len() == 100, "start", "{} objects are made", objs.len());
    ensure!(g.engine().realm().baseline(BaselineKind::Main).iter_objects().count() == 0, "start", "objects in the main baseline");
    let mut cells = HashSet::new();
    let mut circles = vec![];
    for obj in objs {
        let contract = b.object(obj).unwrap().contract();
        let data = b.contract_data(contract).map_err(|e| Fail { sig: "start".into(), msg: e.to_string() })?;
        ensure!(
            data.id() == ContractId { name: "teleportal.app-circle_game-Circle", version: (0, 0, 1) },
            "start",
            "an object of {:?}",
            data.id()
        );
        ensure!(data.objects().len() == 100 && data.objects().contains(&obj), "start", "the contract does not know its objects");
        let bind = |i| b.bind_state(StateId::<f32>::new(i, contract), obj).map_err(|e| Fail { sig: "start".into(), msg: e.to_string() });
        let h = [bind(0)?, bind(1)?];
        let at = [b[h[0]].value, b[h[1]].value];
        // the first frame has walked already, or not
        let cell = at.map(|v| ((v / 50.).round() as i32, (v - (v / 50.).round() * 50.).abs()));
        ensure!(
            cell.iter().all(|(c, off)| (-5..5).contains(c) && *off <= STEP) && cells.insert((cell[0].0, cell[1].0)),
            "start",
            "a circle starts at {at:?}"
        );
        circles.push(Circle { obj, h, entity: None, at, rest: Transform::default() });
    }
    g.circles = circles;
    ensure!(g.circles.iter().map(|c| raw(c.obj)).collect::<HashSet<_>>().len() == 100, "start", "a handle comes twice");
    // which entity is which circle's
    let mut q = g.app.world.query_filtered::<(Entity, &Transform), With<DrawMode>>();
    let drawn: Vec<(Entity, Transform)> = q.iter(&g.app.world).map(|(e, t)| (e, *t)).collect();
    ensure!(drawn.len() == 100, "start", "{} circles are drawn", drawn.len());
    for (e, t) in drawn {
        let cell = [t.translation.x, t.translation.y].map(|v| (v / 50.).round() * 50.);
        let c = g.circles.iter_mut().find(|c| c.at.map(|v| (v / 50.).round() * 50.) == cell && c.entity.is_none());
        let Some(c) = c else { return fail("start", format!("a circle is drawn at {:?}, where none is", t.translation)) };
        // with the first frame it is where it started, or has walked
        let d = [t.translation.x - c.at[0], t.translation.y - c.at[1]];
        ensure!(
            d == [0., 0.] || [t.translation.x, t.translation.y] == cell,
            "start",
            "a circle at {:?} is drawn at {:?}",
            c.at,
            t.translation
        );
        c.entity = Some(e);
        c.rest = rest_of(&t);
        ensure!(c.rest == Transform::default(), "start", "a circle starts with {:?}", c.rest);
        let mesh = g.app.world.get::<Mesh2dHandle>(e).map(|m| m.0.clone());
        let meshes = g.app.world.get_resource::<Assets<Mesh>>().unwrap();
        ensure!(mesh.map_or(false, |m| meshes.get(&m).is_some()), "start", "a circle has no shape");
    }
    Ok(g)
}

/// Everything else that has a place
fn strange_transforms(g: &mut Game) -> Vec<(Entity, String)> {
    let mut q = g.app.world.query_filtered::<(Entity, &Transform), Without<DrawMode>>();
    let mut v: Vec<_> = q.iter(&g.app.world).map(|(e, t)| (e, format!("{t:?}"))).collect();
    v.sort_by_key(|x| x.0);
    v
}

fn frame(g: &mut Game) -> Res {
    let before: Vec<[f32; 2]> = g.circles.iter().map(|c| c.at).collect();
    let strange = strange_transforms(g);
    if let Err(e) = panics(|| g.app.update()) {
        return fail("panic", format!("a frame panics: {e}"));
    }
    let mut after = vec![];
    for c in &g.circles {
        after.push([g.read(BaselineKind::Fork, c.h[0])?, g.read(BaselineKind::Fork, c.h[1])?]);
    }
    // the states walk, those of circles only
    let (mut steps, mut left) = (vec![], 0);
    for (i, c) in g.circles.iter().enumerate() {
        for a in 0..2 {
            let (v, w) = (before[i][a], after[i][a]);
            if c.entity.is_none() {
                ensure!(same(v, w), "walk", "a circle that is not drawn walks from {v} to {w}");
                continue;
            }
            let fits = if v.is_finite() { (v - STEP..=v + STEP).contains(&w) } else { same(v, w) };
            ensure!(fits, "walk", "circle {i} walks from {v} to {w}");
            if v.abs() < 1e4 {
                steps.push((a, w - v));
                left += 1;
            }
        }
    }
    if left >= 160 {
        for a in 0..2 {
            let d = || steps.iter().filter(|x| x.0 == a).map(|x| x.1);
            ensure!(d().any(|d| d > 0.2 * STEP) && d().any(|d| d < -0.2 * STEP), "walk", "the circles walk one way only along axis {a}");
            let all: HashSet<i32> = d().map(|d| (d * 1000.) as i32).collect();
            ensure!(all.len() > 10, "walk", "the circles all take the same step along axis {a}");
        }
        let alike = steps.chunks(2).filter(|p| p.len() == 2 && (p[0].1.abs() - p[1].1.abs()).abs() < 1e-3).count();
        ensure!(alike < 60, "walk", "{alike} circles walk diagonally");
    }
    // they are drawn where they were before, or are after that
    let mut fits = [true, true];
    let mut wrong = [String::new(), String::new()];
    for (i, c) in g.circles.iter_mut().enumerate() {
        let Some(e) = c.entity else {
            c.at = after[i];
            continue;
        };
        let Some(t) = g.app.world.get::<Transform>(e) else { return fail("drawn", "a circle is not drawn any more") };
        for (k, want) in [before[i], after[i]].iter().enumerate() {
            if !(same(t.translation.x, want[0]) && same(t.translation.y, want[1])) {
                fits[k] = false;
                wrong[k] = format!("circle {i} is at {}, {} and was at {:?} before, {:?} after", t.translation.x, t.translation.y, before[i], after[i]);
            }
        }
        ensure!(rest_of(t) == c.rest, "drawn", "a circle has {t:?} and had {:?}", c.rest);
        c.at = after[i];
    }
    ensure!(fits[0] || fits[1], "drawn", "{}; {}", wrong[0], wrong[1]);
    // nobody else changes
    ensure!(strange_transforms(g) == strange, "others", "an entity that is no circle moved");
    let mut q = g.app.world.query_filtered::<Entity, With<DrawMode>>();
    let n = q.iter(&g.app.world).count();
    let want = g.circles.iter().filter(|c| c.entity.is_some()).count();
    ensure!(n == want, "drawn", "{n} circles are drawn, of {want}");
    for (k, h, v) in &g.others {
        for a in 0..2 {
            let w = g.read(*k, h[a])?;
            ensure!(same(w, v[a]), "others", "a state that is no circle's went from {} to {w}", v[a]);
        }
    }
    for (k, n) in [(BaselineKind::Fork, g.circles.len()), (BaselineKind::Main, 0)] {
        let others = g.others.iter().filter(|o| o.0 == k).count();
        let real = g.engine().realm().baseline(k).iter_objects().count();
        ensure!(real == n + others, "others", "{real} objects, of {}", n + others);
    }
    Ok(())
}

fn float(s: &mut Src) -> f32 {
    match s.weighted(&[4, 1]) {
        0 => s.range(-4000, 4000) as f32 / 8.,
        _ => s.f32(),
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let mut g = start(s)?;
    let (mut changed, mut frames) = (false, 0);
    let ops = 3 + s.below(30);
    for _ in 0..ops {
        s.span(|s| -> Res {
            match s.weighted(&[6, 5, 2, 1, 1, 1, 1, 1]) {
                0 => {
                    cx.op(|| "a frame".into());
                    frame(&mut g)?;
                    frames += changed as u32;
                    changed = false;
                    return Ok(());
                }
                1 => {
                    let (i, a, v) = (s.below(100), s.below(2), float(s));
                    cx.op(|| format!("circle {i}: axis {a} is written {v}"));
                    let h = g.circles[i].h[a];
                    g.write(s, h, BaselineKind::Fork, v)?;
                    g.circles[i].at[a] = v;
                    cx.label("state written");
                }
                2 => {
                    let (i, t) = (s.below(100), Transform::from_xyz(float(s), float(s), s.range(-8, 8) as f32));
                    cx.op(|| format!("circle {i}: its transform becomes {t:?}"));
                    if let Some(e) = g.circles[i].entity {
                        let mut t = t;
                        t.scale = Vec3::new(1., s.range(1, 4) as f32, 1.);
                        *g.app.world.get_mut::<Transform>(e).unwrap() = t;
                        g.circles[i].rest = rest_of(&t);
                        cx.label("transform written");
                    }
                }
                3 => {
                    let n = *s.pick(&[1, 1, 5, 40]);
                    cx.op(|| format!("{n} entities are removed"));
                    for _ in 0..n {
                        let i = s.below(100);
                        if let Some(e) = g.circles[i].entity.take() {
                            g.app.world.despawn(e);
                        }
                    }
                    cx.label("entity removed");
                }
                4 => {
                    let t = Transform::from_xyz(float(s), 1., 2.);
                    cx.op(|| format!("an entity that is no circle comes at {t:?}"));
                    g.app.world.spawn().insert(t);
                    cx.label("other entity");
                }
                5 => {
                    let k = *s.pick(&[BaselineKind::Fork, BaselineKind::Main]);
                    let v = [float(s), float(s)];
                    cx.op(|| format!("another contract's object in {k:?}, {v:?}"));
                    let mut e = g.app.world.get_resource_mut::<Engine>().unwrap();
                    let b = e.realm_mut().baseline_mut(k);
                    let c = g.strangers.entry(k as u8).or_insert_with(|| b.register_contract::<Stranger>().expect("register"));
                    let o = b
                        .object_create(c, v.into_iter().map(|v| DynTpProperty::from(DynTpPrimitive::from(v))), [].into_iter())
                        .map_err(|e| Fail { sig: "create".into(), msg: e.to_string() })?;
                    let h = [b.bind_state(c.states().a(), o).unwrap(), b.bind_state(c.states().b(), o).unwrap()];
                    g.others.push((k, h, v));
                    cx.label("other object");
                }
                6 => {
                    let n = s.below(60);
                    cx.op(|| format!("{n} frames"));
                    for _ in 0..n {
                        frame(&mut g)?;
                    }
                    frames += changed as u32;
                    changed = false;
                    return Ok(());
                }
                _ => {
                    if g.others.is_empty() {
                        return Ok(());
                    }
                    let (i, a, v) = (s.below(g.others.len()), s.below(2), float(s));
                    cx.op(|| format!("another object: {v} is written"));
                    let (k, h, _) = g.others[i];
                    g.write(s, h[a], k, v)?;
                    g.others[i].2[a] = v;
                    cx.label("other state written");
                }
            }
            changed = true;
            Ok(())
        })?;
    }
    frame(&mut g)?;
    cx.nontrivial_if(frames + changed as u32 >= 3);
    Ok(())
}
