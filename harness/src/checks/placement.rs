//! C18: property placement, multiplicity and values against the specification table, for the
//! builders and for the parsers.
use crate::checks::codec::show;
use crate::engine::*;
use crate::gen::{self, G};
use crate::libx::*;
use crate::spec::*;
use crate::{exhaustive, stage, CheckDef};

/// The 14 places that carry properties: packet types and 0 for the will.
const PLACES: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15];

pub fn defs() -> Vec<CheckDef> {
    vec![CheckDef {
        id: "C18",
        rule: "a case is a property list placed in one of the 14 v5.0 property positions, offered to the builder and (encoded by the reference codec) to the parser; the exhaustive stages enumerate position x property x multiplicity x value class and all ordered pairs of properties; non-trivial = the list is not empty",
        assumptions: &["lists on which MQTT v5.0 adds cross-property rules (Authentication Data without Method in CONNECT and CONNACK, a successful AUTH with neither) are only checked for builder/parser agreement"],
        stages: vec![
            exhaustive("position-x-property-x-multiplicity", (PLACES.len() * PROPS.len() * 3 * 2) as u64, single),
            exhaustive("position-x-property-x-value", (PLACES.len() * PROPS.len() * VALS) as u64, values),
            exhaustive("position-x-ordered-pairs", (PLACES.len() * PROPS.len() * PROPS.len()) as u64, pairs),
            exhaustive("position-x-unknown-identifier", (PLACES.len() * 256) as u64, unknown),
            exhaustive("context-x-property-x-value", (CONTEXTS * PROPS.len() * (VALS + 1)) as u64, in_context),
            stage("random-lists-u16", 250_000, 6_000_000, random::<u16>),
            stage("random-lists-u32", 60_000, 1_500_000, random::<u32>),
        ],
    }]
}

/// A packet of kind `t` carrying exactly `ps` (will properties for 0).
fn carrier(t: u8, ps: Props, variant: u32) -> Pk {
    match t {
        0 | 1 => Pk::Connect(Box::new(ConnectP {
            v5: true,
            clean: true,
            keep_alive: 0,
            client_id: "c".into(),
            will: if t == 0 || variant % 2 == 1 {
                Some(Will { topic: "w".into(), payload: vec![], qos: 0, retain: false, props: if t == 0 { ps.clone() } else { vec![] } })
            } else {
                None
            },
            user: None,
            pass: None,
            props: if t == 1 { ps } else { vec![] },
        })),
        2 => Pk::Connack { v5: true, sp: false, code: if variant % 2 == 1 { 0x87 } else { 0 }, props: ps },
        3 => Pk::Publish(Box::new(PublishP {
            v5: true,
            dup: false,
            qos: (variant % 3) as u8,
            retain: false,
            topic: "t".into(),
            pid: if variant % 3 > 0 { Some(7) } else { None },
            props: ps,
            payload: vec![1, 2],
        })),
        4..=7 => Pk::Ack { v5: true, kind: t, pid: 7, code: Some(0), props: Some(ps) },
        8 => Pk::Subscribe { v5: true, pid: 7, props: ps, entries: vec![("f".into(), 1)] },
        9 => Pk::Suback { v5: true, pid: 7, props: ps, codes: vec![0] },
        10 => Pk::Unsubscribe { v5: true, pid: 7, props: ps, filters: vec!["f".into()] },
        11 => Pk::Unsuback { v5: true, pid: 7, props: ps, codes: vec![0] },
        14 => Pk::Disconnect { v5: true, code: Some(0), props: Some(ps) },
        _ => Pk::Auth { code: Some(0), props: Some(ps) },
    }
}

/// An upper bound of what `contexts` lists.
const CONTEXTS: usize = 320;

/// The packets the properties are put into: every reason code, every combination of the flags.
fn contexts() -> &'static [(u8, Pk)] {
    static ALL: std::sync::OnceLock<Vec<(u8, Pk)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<(u8, Pk)> = vec![];
        let on = |k: u8, b: u8| k >> b & 1 == 1;
        for k in 0..32u8 {
            let will = on(k, 1).then(|| Will { topic: "w".into(), payload: vec![1], qos: 1, retain: true, props: vec![] });
            v.push((1, Pk::Connect(Box::new(ConnectP {
                v5: true,
                clean: on(k, 0),
                keep_alive: if on(k, 4) { 10 } else { 0 },
                client_id: if on(k, 4) && on(k, 0) { String::new() } else { "c".into() },
                will,
                user: on(k, 2).then(|| "u".to_string()),
                pass: (on(k, 3) && on(k, 2)).then(|| vec![0, 1]),
                props: vec![],
            }))));
        }
        for k in 0..24u8 {
            let will = Some(Will { topic: "w".into(), payload: vec![3; on(k, 1) as usize * 3], qos: k / 8, retain: on(k, 2), props: vec![] });
            v.push((0, Pk::Connect(Box::new(ConnectP { v5: true, clean: on(k, 0), keep_alive: 5, client_id: "c".into(), will, user: None, pass: None, props: vec![] }))));
        }
        for &code in codes(2, true) {
            v.push((2, Pk::Connack { v5: true, sp: false, code, props: vec![] }));
        }
        v.push((2, Pk::Connack { v5: true, sp: true, code: 0, props: vec![] }));
        for k in 0..24u8 {
            let qos = k / 8;
            if qos == 0 && on(k, 0) {
                continue;
            }
            v.push((3, Pk::Publish(Box::new(PublishP { v5: true, dup: on(k, 0), qos, retain: on(k, 1), topic: "t/u".into(), pid: (qos > 0).then_some(0x100), props: vec![], payload: vec![2; on(k, 2) as usize * 4] }))));
        }
        for kind in 4..=7u8 {
            for &code in codes(kind, true) {
                v.push((kind, Pk::Ack { v5: true, kind, pid: 0x00ff, code: Some(code), props: Some(vec![]) }));
            }
        }
        for o in [0u8, 1, 2, 4, 8, 0x10, 0x20, 0x2e] {
            v.push((8, Pk::Subscribe { v5: true, pid: 1, props: vec![], entries: vec![("a/+".into(), o), ("$share/g/#".into(), 0)] }));
            v.push((8, Pk::Subscribe { v5: true, pid: 65535, props: vec![], entries: vec![("#".into(), o)] }));
        }
        for t in [9u8, 11] {
            for &c in codes(t, true) {
                for cs in [vec![c], vec![0, c]] {
                    v.push((t, if t == 9 { Pk::Suback { v5: true, pid: 9, props: vec![], codes: cs } } else { Pk::Unsuback { v5: true, pid: 9, props: vec![], codes: cs } }));
                }
            }
        }
        v.push((10, Pk::Unsubscribe { v5: true, pid: 9, props: vec![], filters: vec!["a".into(), "#".into()] }));
        for &code in codes(14, true) {
            v.push((14, Pk::Disconnect { v5: true, code: Some(code), props: Some(vec![]) }));
        }
        for &code in codes(15, true) {
            v.push((15, Pk::Auth { code: Some(code), props: Some(vec![]) }));
        }
        assert!(v.len() <= CONTEXTS, "HARNESS: contexts {}", v.len());
        v
    })
}

fn set_props(p: &mut Pk, t: u8, ps: Props) {
    match p {
        Pk::Connect(c) if t == 0 => c.will.as_mut().expect("HARNESS: will").props = ps,
        Pk::Connect(c) => c.props = ps,
        Pk::Publish(c) => c.props = ps,
        Pk::Connack { props, .. } | Pk::Subscribe { props, .. } | Pk::Suback { props, .. } | Pk::Unsubscribe { props, .. } | Pk::Unsuback { props, .. } => *props = ps,
        Pk::Ack { props, .. } | Pk::Disconnect { props, .. } | Pk::Auth { props, .. } => *props = Some(ps),
        _ => unreachable!("HARNESS: no properties"),
    }
}

/// Some(true/false) = the specification decides; None = only agreement is checked.
fn expected(t: u8, ps: &[Pr]) -> Option<bool> {
    for (i, p) in ps.iter().enumerate() {
        if !prop_allowed(p.id, t) || !prop_value_ok(p) {
            return Some(false);
        }
        if !prop_repeatable(p.id, t) && ps[..i].iter().any(|q| q.id == p.id) {
            return Some(false);
        }
    }
    let method = ps.iter().any(|p| p.id == 0x15);
    let data = ps.iter().any(|p| p.id == 0x16);
    if data && !method || t == 15 && !method {
        return None;
    }
    Some(true)
}

fn place_name(t: u8) -> &'static str {
    if t == 0 {
        "v5.connect(will)"
    } else {
        kind_name(t, true)
    }
}

fn judge<P: Pid>(t: u8, ps: Props, variant: u32, c: &mut Ctx) -> Res {
    let p = carrier(t, ps.clone(), variant);
    judge_in::<P>(t, ps, p, c)
}

fn judge_in<P: Pid>(t: u8, ps: Props, p: Pk, c: &mut Ctx) -> Res {
    c.nontrivial = !ps.is_empty();
    let want = match (expected(t, &ps), &p) {
        // "it is a Protocol Error to omit the Authentication Method"
        (None, Pk::Auth { code: Some(1..), .. }) => Some(false),
        (None, Pk::Auth { .. }) if ps.iter().any(|p| p.id == 0x16) => Some(false),
        (w, _) => w,
    };
    let b = body(&p, P::WIDE);
    let h = header_byte(&p);
    c.log(|| format!("{}: {ps:?} expected {want:?} in {}", place_name(t), show(&p)));
    let built = build::<P>(&p);
    let parsed = parse::<P>(h, &b, true).expect("HARNESS: parser");
    let ids: Vec<String> = ps.iter().map(|p| format!("{:#04x}", p.id)).collect();
    let sig = |side: &str| format!("c18-{side}-{}-{}", place_name(t), ids.join("+"));
    if let Some(w) = want {
        c.label(if w { "spec-allows" } else { "spec-forbids" });
        ensure!(built.is_ok() == w, sig("builder"), "{}: builder {} the property list {ps:?}, the specification {}", place_name(t), if built.is_ok() { "accepts" } else { "refuses" }, if w { "allows it" } else { "forbids it" });
        ensure!(parsed.is_ok() == w, sig("parser"), "{}: parser {} the property list {ps:?} ({}), the specification {}", place_name(t), if parsed.is_ok() { "accepts" } else { "refuses" }, hex(&b), if w { "allows it" } else { "forbids it" });
    } else {
        c.label("agreement-only");
        ensure!(built.is_ok() == parsed.is_ok(), sig("agree"), "{}: builder ({:?}) and parser ({:?}) disagree on {ps:?}", place_name(t), built.as_ref().err(), parsed.as_ref().err());
    }
    if let (Ok(x), Ok((y, _))) = (&built, &parsed) {
        ensure!(x == y, sig("equal"), "{}: builder and parser produce different packets for {ps:?}", place_name(t));
        let got = view(y);
        ensure!(got == p, sig("view"), "{}: accessors report {got:?} for {ps:?}", place_name(t));
    }
    Ok(())
}

fn plain(id: u8, n: u8) -> Pr {
    let v = match prop_ty(id).unwrap() {
        Ty::Byte => Pv::U8(n & 1),
        Ty::Two => Pv::U16(n as u16 + 1),
        Ty::Four => Pv::U32(n as u32 + 1),
        Ty::Vbi => Pv::Vbi(n as u32 + 1),
        Ty::Str => Pv::Str(format!("s{n}")),
        Ty::Bin => Pv::Bin(vec![n]),
        Ty::Pair => Pv::Pair("k".into(), format!("{n}")),
    };
    Pr { id, v }
}

/// AUTH needs a method, and data needs a method, before anything else can be judged.
fn with_method(t: u8, mut ps: Props, id: u8, front: bool) -> Props {
    let need = prop_allowed(0x15, t) && id != 0x15 && (t == 15 || id == 0x16);
    if need {
        let m = plain(0x15, 9);
        if front {
            ps.insert(0, m);
        } else {
            ps.push(m);
        }
    }
    ps
}

fn single(s: &mut Src, c: &mut Ctx) -> Res {
    let mut i = s.u32() as usize;
    let t = PLACES[i % PLACES.len()];
    i /= PLACES.len();
    let id = PROPS[i % PROPS.len()].0;
    i /= PROPS.len();
    let n = i % 3 + 1;
    i /= 3;
    // the same value twice is as forbidden as two different ones
    let ps: Props = (0..n).map(|k| plain(id, if i % 2 == 0 { k as u8 } else { 1 })).collect();
    judge::<u16>(t, with_method(t, ps, id, true), i as u32, c)
}

const VALUES: [u32; 13] = [0, 1, 2, 127, 128, 255, 256, 16384, 32768, 65535, 2_097_152, 268_435_455, u32::MAX];
const VALS: usize = VALUES.len();
const MAX_TEXT: u32 = 65535;
fn values(s: &mut Src, c: &mut Ctx) -> Res {
    let mut i = s.u32() as usize;
    let t = PLACES[i % PLACES.len()];
    i /= PLACES.len();
    let id = PROPS[i % PROPS.len()].0;
    i /= PROPS.len();
    let k = i % VALS;
    let n = VALUES[k];
    let v = value(id, n);
    // an empty Response Topic is not a Topic Name; leave it undecided
    if id == 0x08 && n == 0 {
        return Ok(());
    }
    judge::<u16>(t, with_method(t, vec![Pr { id, v }], id, false), 0, c)
}

fn in_context(s: &mut Src, c: &mut Ctx) -> Res {
    let mut i = s.u32() as usize;
    let all = contexts();
    let Some((t, p)) = all.get(i % CONTEXTS) else { return Ok(()) };
    i /= CONTEXTS;
    let id = PROPS[i % PROPS.len()].0;
    i /= PROPS.len();
    let ps = if i == VALS {
        vec![plain(id, 1), plain(id, 0)]
    } else {
        let n = VALUES[i];
        if id == 0x08 && n == 0 {
            return Ok(());
        }
        vec![Pr { id, v: value(id, if n > 20_000 && matches!(prop_ty(id), Some(Ty::Str | Ty::Bin | Ty::Pair)) { n % 600 } else { n }) }]
    };
    let ps = if i % 2 == 0 && *t == 15 { ps } else { with_method(*t, ps, id, i % 4 < 2) };
    let mut p = p.clone();
    set_props(&mut p, *t, ps.clone());
    judge_in::<u16>(*t, ps, p, c)
}

fn value(id: u8, n: u32) -> Pv {
    match prop_ty(id).unwrap() {
        Ty::Byte => Pv::U8(n.min(255) as u8),
        Ty::Two => Pv::U16(n.min(65535) as u16),
        Ty::Four => Pv::U32(n),
        Ty::Vbi => Pv::Vbi(n.min(268_435_455)),
        Ty::Str => Pv::Str("x".repeat(n.min(MAX_TEXT) as usize)),
        Ty::Bin => Pv::Bin(vec![7; n.min(MAX_TEXT) as usize]),
        Ty::Pair => Pv::Pair("k".repeat((n / 2).min(MAX_TEXT) as usize), "v".repeat(n.min(MAX_TEXT) as usize)),
    }
}

fn pairs(s: &mut Src, c: &mut Ctx) -> Res {
    let mut i = s.u32() as usize;
    let t = PLACES[i % PLACES.len()];
    i /= PLACES.len();
    let a = PROPS[i % PROPS.len()].0;
    i /= PROPS.len();
    let b = PROPS[i % PROPS.len()].0;
    let mut ps = vec![plain(a, 1), plain(b, 0)];
    if a == 0x16 || b == 0x16 || t == 15 {
        if a != 0x15 && b != 0x15 && prop_allowed(0x15, t) {
            ps.push(plain(0x15, 5));
        }
    }
    judge::<u16>(t, ps, 1, c)
}

/// Identifiers outside the table are refused everywhere.
fn unknown(s: &mut Src, c: &mut Ctx) -> Res {
    let i = s.u32() as usize;
    let t = PLACES[i % PLACES.len()];
    let id = (i / PLACES.len()) as u8;
    if prop_ty(id).is_some() {
        return Ok(());
    }
    c.nontrivial = true;
    let marker = Pr { id: 0x26, v: Pv::Pair("unknown".into(), "property".into()) };
    let p = carrier(t, with_method(t, vec![marker.clone()], 0x26, true), 0);
    let mut b = body(&p, false);
    let mut e = vec![];
    e_prop(&mut e, &marker);
    let at = b.windows(e.len()).position(|w| w == e).expect("HARNESS: marker");
    b[at] = id;
    c.log(|| format!("{}: property identifier {id:#04x}", place_name(t)));
    let r = parse::<u16>(header_byte(&p), &b, true).expect("HARNESS: parser");
    ensure!(r.is_err(), format!("c18-unknown-{}", place_name(t)), "{}: parser accepts the undefined property identifier {id:#04x} in {}", place_name(t), hex(&b));
    Ok(())
}

fn random<P: Pid>(s: &mut Src, c: &mut Ctx) -> Res {
    let t = *s.pick(PLACES);
    let g = G { wide: P::WIDE, strict: true, big: false };
    let mut ps = gen::props(s, g, t);
    let allowed: Vec<u8> = PROPS.iter().filter(|p| p.2.contains(&t)).map(|p| p.0).collect();
    // fill up with further permitted properties, then perhaps one offence
    let n = s.range(0, 6);
    for _ in 0..n {
        s.begin();
        let id = *s.pick(&allowed);
        if prop_repeatable(id, t) || !ps.iter().any(|p| p.id == id) {
            let at = s.draw(ps.len() as u32 + 1) as usize;
            ps.insert(at, gen::prop(s, g, id));
        }
        s.end();
    }
    match s.weighted(&[4, 3, 3, 3]) {
        1 => {
            let id = s.pick(PROPS).0;
            let at = s.draw(ps.len() as u32 + 1) as usize;
            ps.insert(at, gen::prop(s, g, id));
        }
        2 if !ps.is_empty() => {
            let k = s.draw(ps.len() as u32) as usize;
            let id = ps[k].id;
            let at = s.draw(ps.len() as u32 + 1) as usize;
            ps.insert(at, gen::prop(s, g, id));
        }
        3 if !ps.is_empty() => {
            let k = s.draw(ps.len() as u32) as usize;
            match &mut ps[k].v {
                Pv::U8(x) => *x = s.range(0, 255) as u8,
                Pv::U16(x) => *x = 0,
                Pv::U32(x) => *x = 0,
                Pv::Vbi(x) => *x = 0,
                _ => {}
            }
        }
        _ => {}
    }
    let v = s.draw(12);
    if v < 4 {
        return judge::<P>(t, ps, v, c);
    }
    // in a packet of any other content
    let mut p = gen::packet(s, g, if t == 0 { 1 } else { t }, true);
    match &mut p {
        Pk::Connect(x) if t == 0 && x.will.is_none() => x.will = Some(gen::will(s, g, true)),
        Pk::Publish(x) if x.topic.is_empty() => x.topic = "t".into(),
        Pk::Ack { code, .. } | Pk::Disconnect { code, .. } | Pk::Auth { code, .. } if code.is_none() => *code = Some(*s.pick(codes(t, true))),
        _ => {}
    }
    set_props(&mut p, t, ps.clone());
    judge_in::<P>(t, ps, p, c)
}
