//! P07: how a contract enumerates its fields, against the struct declarations.
use harness::contracts::*;
use harness::ensure;
use harness::pbt::*;
use harness::values::*;

pub const PROP: Prop = Prop {
    id: "P07",
    title: "contracts enumerate their fields as declared",
    rule: "the enumerated side has at least two fields and the iterator was advanced in at least two different ways",
    quick: 400_000,
    thorough: 3_000_000,
    run,
};

mod more {
    use harness::contract;
    use harness::contracts::{cid, kind_of, sid, Fid, Fields, Kind};
    use harness::values::PropT;
    use std::any::TypeId;
    use tp_client::contract::{channels, states, Contract, ContractDataHandle, ContractId};
    // more fields than 8 bits count
    contract!(harness::contracts::KINDS, wide, "verif.wide", (1, 0, 0),
        { s0: u8, s1: u16, s2: String, s3: i64, s4: f32, s5: i32, s6: Vec<f64>, s7: bool, s8: Vec<u8>, s9: u8, s10: u16, s11: String, s12: i64, s13: f32, s14: i32, s15: Vec<f64>, s16: bool, s17: Vec<u8>, s18: u8, s19: u16, s20: String, s21: i64, s22: f32, s23: i32, s24: Vec<f64>, s25: bool, s26: Vec<u8>, s27: u8, s28: u16, s29: String, s30: i64, s31: f32, s32: i32, s33: Vec<f64>, s34: bool, s35: Vec<u8>, s36: u8, s37: u16, s38: String, s39: i64, s40: f32, s41: i32, s42: Vec<f64>, s43: bool, s44: Vec<u8>, s45: u8, s46: u16, s47: String, s48: i64, s49: f32, s50: i32, s51: Vec<f64>, s52: bool, s53: Vec<u8>, s54: u8, s55: u16, s56: String, s57: i64, s58: f32, s59: i32, s60: Vec<f64>, s61: bool, s62: Vec<u8>, s63: u8, s64: u16, s65: String, s66: i64, s67: f32, s68: i32, s69: Vec<f64>, s70: bool, s71: Vec<u8>, s72: u8, s73: u16, s74: String, s75: i64, s76: f32, s77: i32, s78: Vec<f64>, s79: bool, s80: Vec<u8>, s81: u8, s82: u16, s83: String, s84: i64, s85: f32, s86: i32, s87: Vec<f64>, s88: bool, s89: Vec<u8>, s90: u8, s91: u16, s92: String, s93: i64, s94: f32, s95: i32, s96: Vec<f64>, s97: bool, s98: Vec<u8>, s99: u8, s100: u16, s101: String, s102: i64, s103: f32, s104: i32, s105: Vec<f64>, s106: bool, s107: Vec<u8>, s108: u8, s109: u16, s110: String, s111: i64, s112: f32, s113: i32, s114: Vec<f64>, s115: bool, s116: Vec<u8>, s117: u8, s118: u16, s119: String, s120: i64, s121: f32, s122: i32, s123: Vec<f64>, s124: bool, s125: Vec<u8>, s126: u8, s127: u16, s128: String, s129: i64, s130: f32, s131: i32, s132: Vec<f64>, s133: bool, s134: Vec<u8>, s135: u8, s136: u16, s137: String, s138: i64, s139: f32, s140: i32, s141: Vec<f64>, s142: bool, s143: Vec<u8>, s144: u8, s145: u16, s146: String, s147: i64, s148: f32, s149: i32, s150: Vec<f64>, s151: bool, s152: Vec<u8>, s153: u8, s154: u16, s155: String, s156: i64, s157: f32, s158: i32, s159: Vec<f64>, s160: bool, s161: Vec<u8>, s162: u8, s163: u16, s164: String, s165: i64, s166: f32, s167: i32, s168: Vec<f64>, s169: bool, s170: Vec<u8>, s171: u8, s172: u16, s173: String, s174: i64, s175: f32, s176: i32, s177: Vec<f64>, s178: bool, s179: Vec<u8>, s180: u8, s181: u16, s182: String, s183: i64, s184: f32, s185: i32, s186: Vec<f64>, s187: bool, s188: Vec<u8>, s189: u8, s190: u16, s191: String, s192: i64, s193: f32, s194: i32, s195: Vec<f64>, s196: bool, s197: Vec<u8>, s198: u8, s199: u16, s200: String, s201: i64, s202: f32, s203: i32, s204: Vec<f64>, s205: bool, s206: Vec<u8>, s207: u8, s208: u16, s209: String, s210: i64, s211: f32, s212: i32, s213: Vec<f64>, s214: bool, s215: Vec<u8>, s216: u8, s217: u16, s218: String, s219: i64, s220: f32, s221: i32, s222: Vec<f64>, s223: bool, s224: Vec<u8>, s225: u8, s226: u16, s227: String, s228: i64, s229: f32, s230: i32, s231: Vec<f64>, s232: bool, s233: Vec<u8>, s234: u8, s235: u16, s236: String, s237: i64, s238: f32, s239: i32, s240: Vec<f64>, s241: bool, s242: Vec<u8>, s243: u8, s244: u16, s245: String, s246: i64, s247: f32, s248: i32, s249: Vec<f64>, s250: bool, s251: Vec<u8>, s252: u8, s253: u16, s254: String, s255: i64, s256: f32, s257: i32, s258: Vec<f64>, s259: bool, s260: Vec<u8>, s261: u8, s262: u16, s263: String, s264: i64, s265: f32, s266: i32, s267: Vec<f64>, s268: bool, s269: Vec<u8>, s270: u8, s271: u16, s272: String, s273: i64, s274: f32, s275: i32, s276: Vec<f64>, s277: bool, s278: Vec<u8>, s279: u8, s280: u16, s281: String, s282: i64, s283: f32, s284: i32, s285: Vec<f64>, s286: bool, s287: Vec<u8>, s288: u8, s289: u16, s290: String, s291: i64, s292: f32, s293: i32, s294: Vec<f64>, s295: bool, s296: Vec<u8>, s297: u8, s298: u16, s299: String },
        { c0: Vec<u8>, c1: u16, c2: i64, c3: i32, c4: bool, c5: u8, c6: String, c7: f32, c8: Vec<f64>, c9: Vec<u8>, c10: u16, c11: i64, c12: i32, c13: bool, c14: u8, c15: String, c16: f32, c17: Vec<f64>, c18: Vec<u8>, c19: u16, c20: i64, c21: i32, c22: bool, c23: u8, c24: String, c25: f32, c26: Vec<f64>, c27: Vec<u8>, c28: u16, c29: i64, c30: i32, c31: bool, c32: u8, c33: String, c34: f32, c35: Vec<f64>, c36: Vec<u8>, c37: u16, c38: i64, c39: i32, c40: bool, c41: u8, c42: String, c43: f32, c44: Vec<f64>, c45: Vec<u8>, c46: u16, c47: i64, c48: i32, c49: bool, c50: u8, c51: String, c52: f32, c53: Vec<f64>, c54: Vec<u8>, c55: u16, c56: i64, c57: i32, c58: bool, c59: u8, c60: String, c61: f32, c62: Vec<f64>, c63: Vec<u8>, c64: u16, c65: i64, c66: i32, c67: bool, c68: u8, c69: String, c70: f32, c71: Vec<f64>, c72: Vec<u8>, c73: u16, c74: i64, c75: i32, c76: bool, c77: u8, c78: String, c79: f32, c80: Vec<f64>, c81: Vec<u8>, c82: u16, c83: i64, c84: i32, c85: bool, c86: u8, c87: String, c88: f32, c89: Vec<f64>, c90: Vec<u8>, c91: u16, c92: i64, c93: i32, c94: bool, c95: u8, c96: String, c97: f32, c98: Vec<f64>, c99: Vec<u8>, c100: u16, c101: i64, c102: i32, c103: bool, c104: u8, c105: String, c106: f32, c107: Vec<f64>, c108: Vec<u8>, c109: u16, c110: i64, c111: i32, c112: bool, c113: u8, c114: String, c115: f32, c116: Vec<f64>, c117: Vec<u8>, c118: u16, c119: i64, c120: i32, c121: bool, c122: u8, c123: String, c124: f32, c125: Vec<f64>, c126: Vec<u8>, c127: u16, c128: i64, c129: i32, c130: bool, c131: u8, c132: String, c133: f32, c134: Vec<f64>, c135: Vec<u8>, c136: u16, c137: i64, c138: i32, c139: bool, c140: u8, c141: String, c142: f32, c143: Vec<f64>, c144: Vec<u8>, c145: u16, c146: i64, c147: i32, c148: bool, c149: u8, c150: String, c151: f32, c152: Vec<f64>, c153: Vec<u8>, c154: u16, c155: i64, c156: i32, c157: bool, c158: u8, c159: String, c160: f32, c161: Vec<f64>, c162: Vec<u8>, c163: u16, c164: i64, c165: i32, c166: bool, c167: u8, c168: String, c169: f32, c170: Vec<f64>, c171: Vec<u8>, c172: u16, c173: i64, c174: i32, c175: bool, c176: u8, c177: String, c178: f32, c179: Vec<f64>, c180: Vec<u8>, c181: u16, c182: i64, c183: i32, c184: bool, c185: u8, c186: String, c187: f32, c188: Vec<f64>, c189: Vec<u8>, c190: u16, c191: i64, c192: i32, c193: bool, c194: u8, c195: String, c196: f32, c197: Vec<f64>, c198: Vec<u8>, c199: u16, c200: i64, c201: i32, c202: bool, c203: u8, c204: String, c205: f32, c206: Vec<f64>, c207: Vec<u8>, c208: u16, c209: i64, c210: i32, c211: bool, c212: u8, c213: String, c214: f32, c215: Vec<f64>, c216: Vec<u8>, c217: u16, c218: i64, c219: i32, c220: bool, c221: u8, c222: String, c223: f32, c224: Vec<f64>, c225: Vec<u8>, c226: u16, c227: i64, c228: i32, c229: bool, c230: u8, c231: String, c232: f32, c233: Vec<f64>, c234: Vec<u8>, c235: u16, c236: i64, c237: i32, c238: bool, c239: u8, c240: String, c241: f32, c242: Vec<f64>, c243: Vec<u8>, c244: u16, c245: i64, c246: i32, c247: bool, c248: u8, c249: String, c250: f32, c251: Vec<f64>, c252: Vec<u8>, c253: u16, c254: i64, c255: i32, c256: bool, c257: u8, c258: String, c259: f32, c260: Vec<f64>, c261: Vec<u8>, c262: u16, c263: i64, c264: i32, c265: bool, c266: u8, c267: String, c268: f32, c269: Vec<f64> });
}

/// One enumeration of fields, whichever it is
struct Side<'a> {
    what: &'static str,
    want: Vec<Fid>,
    iter: Box<dyn Fn() -> Box<dyn Iterator<Item = Fid> + 'a> + 'a>,
    at: Box<dyn Fn(usize) -> Option<Fid> + 'a>,
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let k = if s.chance(3) { kinds().len() - 1 } else { s.below(kinds().len() - 1) };
    let kd = &kinds()[k];
    let handle = idx::<tp_client::contract::ContractData>(s.draw(9) as usize, s.draw(1000));
    // the contract as made from a handle is the same as one that was registered
    let mut b = tp_client::baseline::Baseline::new(tp_client::baseline::BaselineKind::Main);
    let c = if s.bool() {
        (kd.make)(handle)
    } else {
        for _ in 0..s.below(3) {
            // something else registered before
            let o = s.below(kinds().len());
            if o != k && kinds()[o].id != kd.id {
                let _ = (kinds()[o].register)(&mut b);
            }
        }
        (kd.register)(&mut b).map_err(|e| Fail { sig: "register".into(), msg: e })?
    };
    let h = raw(c.handle());
    let chan = s.bool();
    cx.op(|| format!("kind {k}, {}", if chan { "channels" } else { "states" }));

    // what the declaration says
    let (decl, ids, derived) = if chan { (&kd.chans, &kd.chan_type_ids, (kd.d_chans)()) } else { (&kd.states, &kd.state_type_ids, (kd.d_states)()) };
    let names: Vec<&str> = decl.iter().map(|(n, _)| *n).collect();
    let types: Vec<Ty> = decl.iter().map(|(_, t)| ty_of_key(*t)).collect();
    ensure!(derived.0 == names, "names", "kind {k}: field_names() is {:?}, declared is {names:?}", derived.0);
    ensure!(derived.1 == types, "types", "kind {k}: enumerate_types() is {:?}, declared is {types:?}", derived.1);
    ensure!(derived.2 == *ids, "type_ids", "kind {k}: type_ids() is not the TypeIds of the declaration");

    let side = if chan {
        Side {
            what: "channels",
            want: c.field_chans(),
            iter: Box::new(|| Box::new(c.chan_iter().map(|d| dyn_cid(&d)))),
            at: Box::new(|i| c.chan_id(i).map(|d| dyn_cid(&d))),
        }
    } else {
        Side {
            what: "states",
            want: c.field_states(),
            iter: Box::new(|| Box::new(c.state_iter().map(|d| dyn_sid(&d)))),
            at: Box::new(|i| c.state_id(i).map(|d| dyn_sid(&d))),
        }
    };
    let n = decl.len();
    let want: Vec<Fid> = decl.iter().enumerate().map(|(i, (_, ty))| Fid { ty: *ty, contract: h, idx: i }).collect();
    ensure!(side.want == want, "accessors", "the accessors of the {} give {:?}, declared is {want:?}", side.what, side.want);

    // by index
    for _ in 0..1 + s.below(4) {
        let i = match s.weighted(&[4, 2, 1]) {
            0 => s.below(n + 2),
            1 => n.wrapping_sub(1).wrapping_add(s.below(3)),
            _ => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, 255, 256]),
        };
        let got = (side.at)(i);
        ensure!(got == want.get(i).copied(), "by index", "{} {i} of kind {k} is {got:?} and should be {:?}", side.what, want.get(i));
    }

    // the iterator against one over the list. It is used both through `map` (which only uses
    // `next`) and directly, so that its own `nth` and `size_hint` are used
    let all: Vec<Fid> = (side.iter)().collect();
    ensure!(all == want, "iterator", "iterating gives {all:?} and should {want:?}");
    let mut ways = 0u32;
    let r = if chan {
        laws(s, cx, c.chan_iter(), &want, &mut ways, |d| dyn_cid(&d))
    } else {
        laws(s, cx, c.state_iter(), &want, &mut ways, |d| dyn_sid(&d))
    };
    cx.nontrivial_if(n >= 2 && ways.count_ones() >= 2);
    r
}

fn laws<D>(
    s: &mut Src,
    cx: &mut Cx,
    mut it: Box<dyn Iterator<Item = D>>,
    want: &[Fid],
    ways: &mut u32,
    show: fn(D) -> Fid,
) -> Res {
    let mut model = want.iter().copied();
    for _ in 0..s.below(7) {
        let w = s.weighted(&[4, 5, 3, 2]);
        *ways |= 1 << w;
        match w {
            0 => {
                cx.op(|| "next".into());
                let (g, e) = (it.next().map(show), model.next());
                ensure!(g == e, "iterator", "next() is {g:?} and should be {e:?}");
            }
            1 => {
                let n = if s.chance(10) { *s.pick(&[usize::MAX, usize::MAX - 1, 1000]) } else { s.below(want.len() + 2) };
                cx.op(|| format!("nth({n})"));
                let (g, e) = (it.nth(n).map(show), model.nth(n));
                ensure!(g == e, "iterator", "nth({n}) is {g:?} and should be {e:?}");
            }
            2 => {
                let (k, n) = (1 + s.below(4), s.below(4));
                cx.op(|| format!("by_ref().step_by({k}).take({n})"));
                let g: Vec<Fid> = it.by_ref().step_by(k).take(n).map(show).collect();
                let e: Vec<Fid> = model.by_ref().step_by(k).take(n).collect();
                ensure!(g == e, "iterator", "step_by({k}) gives {g:?} and should {e:?}");
            }
            _ => {
                cx.op(|| "size_hint".into());
                let (g, e) = (it.size_hint(), model.size_hint());
                ensure!(
                    g.0 <= e.0 && g.1.map_or(true, |u| u >= e.0),
                    "size_hint",
                    "size_hint() is {g:?} with {} to go",
                    e.0
                );
            }
        }
    }
    match s.below(5) {
        0 => {
            let (g, e) = (it.count(), model.count());
            ensure!(g == e, "iterator", "{g} are left and should be {e}");
        }
        1 => {
            let (g, e) = (it.last().map(show), model.last());
            ensure!(g == e, "iterator", "the last is {g:?} and should be {e:?}");
        }
        2 => {
            let n = s.below(want.len() + 2);
            let (g, e): (Vec<_>, Vec<_>) = (it.skip(n).map(show).collect(), model.skip(n).collect());
            ensure!(g == e, "iterator", "skip({n}) leaves {g:?} and should {e:?}");
        }
        3 => {
            let k = 1 + s.below(5);
            let (g, e): (Vec<_>, Vec<_>) = (it.step_by(k).map(show).collect(), model.step_by(k).collect());
            ensure!(g == e, "iterator", "step_by({k}) leaves {g:?} and should {e:?}");
        }
        _ => {
            let (g, e): (Vec<_>, Vec<_>) = (it.map(show).collect(), model.collect());
            ensure!(g == e, "iterator", "{g:?} are left and should be {e:?}");
        }
    }
    Ok(())
}
fn main() {
    let _ = MORE.set(vec![more::wide::kind]);
    harness::run(&[PROP])
}
