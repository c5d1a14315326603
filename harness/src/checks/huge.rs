//! The largest packets there can be: Remaining Length around 268,435,455.
use crate::conn::*;
use crate::engine::*;
use crate::libx::*;
use crate::spec::{self, *};
use crate::{exhaustive, StageDef};
use std::sync::{Condvar, Mutex};

const MAX: usize = 268_435_455;
/// At most this many such cases at a time.
const ROOM: u32 = 4;
static TAKEN: Mutex<u32> = Mutex::new(0);
static FREED: Condvar = Condvar::new();
struct Seat;
fn seat() -> Seat {
    let mut n = TAKEN.lock().unwrap();
    while *n >= ROOM {
        n = FREED.wait(n).unwrap();
    }
    *n += 1;
    big_case();
    Seat
}
impl Drop for Seat {
    fn drop(&mut self) {
        if let Ok(mut n) = TAKEN.lock() {
            *n -= 1;
        }
        FREED.notify_one();
    }
}

/// User properties of exactly `n` bytes.
fn user_props(mut n: usize) -> Props {
    const FULL: usize = 5 + 2 * 65_535;
    let mut v = vec![];
    while n > 0 {
        let k = if n >= FULL + 5 { FULL } else if n > FULL { n - 5 } else { n };
        let a = (k - 5).min(65_535);
        v.push(Pr { id: 0x26, v: Pv::Pair("k".repeat(a), "v".repeat(k - 5 - a)) });
        n -= k;
    }
    v
}
/// Topic filters whose strings and length fields take exactly `n` bytes, with `per` more each.
fn filters(mut n: usize, per: usize) -> Vec<String> {
    let (full, least) = (2 + 65_535 + per, 3 + per);
    let mut v = vec![];
    while n > 0 {
        let k = if n >= full + least { full } else if n > full { n - least } else { n };
        v.push("f".repeat(k - 2 - per));
        n -= k;
    }
    v
}
const KINDS: usize = 23;
/// A packet whose body has exactly `len` bytes, 2,097,151 < len.
fn largest(kind: usize, len: usize, wide: bool) -> Pk {
    let id = if wide { 4 } else { 2 };
    // the property length takes four bytes
    let props = |fixed: usize| user_props(len - fixed - 4);
    let publish = |v5: bool, qos: u8, props: Props, payload: usize| {
        Pk::Publish(Box::new(PublishP { v5, dup: false, qos, retain: false, topic: "t".into(), pid: (qos > 0).then_some(7), props, payload: vec![0x55; payload] }))
    };
    let connect = |props: Props, will: Option<Will>| Pk::Connect(Box::new(ConnectP { v5: true, clean: true, keep_alive: 0, client_id: String::new(), will, user: None, pass: None, props }));
    let sub = |per: usize, fixed: usize| filters(len - fixed, per);
    match kind {
        0 => publish(false, 0, vec![], len - 3),
        1 => publish(false, 2, vec![], len - 3 - id),
        2 => publish(true, 1, vec![], len - 4 - id),
        3 => publish(true, 0, vec![Pr { id: 0x23, v: Pv::U16(1) }], len - 7),
        4 => publish(true, 0, props(3), 0),
        5 => publish(true, 2, user_props(len - 3 - id - 4 - 1000), 1000),
        6 => Pk::Suback { v5: false, pid: 7, props: vec![], codes: vec![1; len - id] },
        7 => Pk::Suback { v5: true, pid: 7, props: vec![], codes: vec![1; len - id - 1] },
        8 => Pk::Unsuback { v5: true, pid: 7, props: vec![], codes: vec![0x11; len - id - 1] },
        9 => Pk::Subscribe { v5: false, pid: 7, props: vec![], entries: sub(1, id).into_iter().map(|f| (f, 1)).collect() },
        10 => Pk::Subscribe { v5: true, pid: 7, props: vec![], entries: sub(1, id + 1).into_iter().map(|f| (f, 1)).collect() },
        11 => Pk::Unsubscribe { v5: false, pid: 7, props: vec![], filters: sub(0, id) },
        12 => Pk::Unsubscribe { v5: true, pid: 7, props: vec![], filters: sub(0, id + 1) },
        13 => connect(props(10 + 2), None),
        14 => connect(vec![], Some(Will { topic: "w".into(), payload: vec![1], qos: 1, retain: false, props: user_props(len - 10 - 1 - 2 - 4 - 3 - 3) })),
        15 => Pk::Connack { v5: true, sp: false, code: 0, props: props(2) },
        k @ 16..=19 => Pk::Ack { v5: true, kind: k as u8 - 12, pid: 7, code: Some(0), props: Some(props(id + 1)) },
        20 => Pk::Disconnect { v5: true, code: Some(0), props: Some(props(1)) },
        21 => {
            let mut p = user_props(len - 1 - 4 - 4);
            p.push(Pr { id: 0x15, v: Pv::Str("m".into()) });
            Pk::Auth { code: Some(0x18), props: Some(p) }
        }
        _ => Pk::Suback { v5: true, pid: 7, props: user_props(len - id - 4 - 1), codes: vec![0] },
    }
}
const BUILT: u64 = 2 * KINDS as u64;
/// Up to the limit builders and parsers agree about the packet, beyond it there is none.
fn built<P: Pid>(s: &mut Src, c: &mut Ctx) -> Res {
    let i = s.u32() as usize;
    let _seat = seat();
    let (kind, len) = (i / 2 % KINDS, MAX + i % 2);
    let p = largest(kind, len, P::WIDE);
    let name = p.kind_name();
    c.log(|| format!("{name} with a body of {len} bytes"));
    c.nontrivial = true;
    match build::<P>(&p) {
        Ok(g) => {
            ensure!(len <= MAX, "c02-remaining-length", "a {name} with a body of {len} bytes is built");
            ensure!(g.size() == len + 5, "c02-size", "a {name} with a body of {len} bytes has size {}", g.size());
            let b = bytes_of(&g);
            ensure!(b.len() == len + 5, "c02-size", "a {name} with a body of {len} bytes has {} bytes", b.len());
            ensure!(b[1..5] == [0xff, 0xff, 0xff, 0x7f], "c02-remaining-length", "a {name} with a body of {len} bytes says {:x?}", &b[..5]);
            match parse::<P>(b[0], &b[5..], p.v5()) {
                Some(Ok((g2, n))) => ensure!(n == len && g2 == g, "c02-unequal", "a {name} with a body of {len} bytes is parsed to another packet, {n} bytes consumed"),
                r => fail!("c02-parse-refused", "a {name} with a body of {len} bytes is not parsed: {:?}", r.map(|r| r.err())),
            }
        }
        Err(e) => ensure!(len > MAX, "c02-refused", "a {name} with a body of {len} bytes is refused: {e:?}"),
    }
    Ok(())
}
/// Bodies of any length are parsed or refused.
fn parsed<P: Pid>(s: &mut Src, c: &mut Ctx) -> Res {
    let i = s.u32() as usize;
    let _seat = seat();
    let (kind, len) = (i % KINDS, MAX + 1);
    let p = largest(kind, len, P::WIDE);
    let (name, h, v5) = (p.kind_name(), spec::header_byte(&p), p.v5());
    c.log(|| format!("a body of {len} bytes for {name}"));
    c.nontrivial = true;
    let b = spec::body(&p, P::WIDE);
    drop(p);
    ensure!(b.len() == len, "harness", "the body has {} bytes", b.len());
    if let Some(Ok((g, n))) = parse::<P>(h, &b, v5) {
        drop(b);
        ensure!(n <= len, "c04-consumed", "{n} of {len} bytes consumed");
        let out = bytes_of(&g);
        ensure!(g.size() == out.len() && len <= MAX, "c04-size", "a {name} parsed from {len} bytes has size {} and {} bytes", g.size(), out.len());
    } else {
        ensure!(len > MAX, "c04-refused", "a {name} with a body of {len} bytes is refused");
    }
    Ok(())
}

/// The largest PUBLISH on a connection, where an alias or a topic would make it larger still.
fn connection(target: &'static str, i: u32, c: &mut Ctx) -> Res {
    let _seat = seat();
    c.nontrivial = true;
    let bad = |sig: &str, m: String| Err(Fail::new(format!("{target}/{sig}"), m));
    let show = |v: &[Ev]| {
        let one = |e: &Ev| match e {
            Ev::Send { bytes, pk, .. } => format!("send {} of {} bytes", pk.kind_name(), bytes.len()),
            Ev::Recv { pk, .. } => format!("received {}", pk.kind_name()),
            e => format!("{e:?}"),
        };
        v.iter().map(one).collect::<Vec<_>>().join(", ")
    };
    // ours(client): everything the other side announces is generous
    let persist = i >= 4;
    let mut a = make(Role::Client, Ver::V5, false);
    let mut props = vec![Pr { id: 0x22, v: Pv::U16(9) }];
    if persist {
        props.push(Pr { id: 0x11, v: Pv::U32(100) });
    }
    let con = Pk::Connect(Box::new(ConnectP { v5: true, clean: true, keep_alive: 0, client_id: "c".into(), will: None, user: None, pass: None, props }));
    let ack = Pk::Connack { v5: true, sp: false, code: 0, props: vec![Pr { id: 0x22, v: Pv::U16(9) }] };
    a.send(&con);
    a.recv(&encode(&ack, false), 0);
    let publish = |qos: u8, topic: &str, alias: u16, n: usize| {
        let props = if alias > 0 { vec![Pr { id: 0x23, v: Pv::U16(alias) }] } else { vec![] };
        let fixed = 2 + topic.len() + if qos > 0 { 2 } else { 0 } + 1 + if alias > 0 { 3 } else { 0 };
        Pk::Publish(Box::new(PublishP { v5: true, dup: false, qos, retain: false, topic: topic.into(), pid: (qos > 0).then_some(1), props, payload: vec![0; n - fixed] }))
    };
    a.register(1);
    let long = "l".repeat(500);
    let (what, evs) = match i {
        0 | 1 => {
            // the peer binds an alias, then sends the largest packet there is with the alias alone
            let qos = [0, 2][i as usize];
            a.recv(&encode(&publish(0, &long, 3, 600), false), 0);
            let f = encode(&publish(qos, "", 3, MAX), false);
            let mut pos = 0;
            let mut out = vec![];
            while pos < f.len() {
                let (e, n) = a.recv(&f, pos);
                out.extend(e);
                if n <= pos {
                    break;
                }
                pos = n;
            }
            ("the largest PUBLISH with an alias arrives", out)
        }
        2 | 3 => {
            a.auto_map(true);
            if i == 3 {
                a.send(&publish(0, "t", 0, 50));
            }
            ("the largest PUBLISH is sent, aliases are automatic", a.send(&publish(0, "t", 0, MAX - 1)).unwrap_or_default())
        }
        4 => {
            a.send(&publish(0, &long, 3, 600));
            ("the largest PUBLISH that is stored with its topic is sent with the alias", a.send(&publish(1, "", 3, MAX)).unwrap_or_default())
        }
        5 => {
            a.auto_repl(true);
            a.send(&publish(0, "t", 3, 50));
            ("the largest PUBLISH is sent, aliases are replaced", a.send(&publish(2, "t", 0, MAX)).unwrap_or_default())
        }
        _ => ("the largest PUBLISH is sent with a new alias", a.send(&publish(1, "t", 3, MAX)).unwrap_or_default()),
    };
    c.log(|| format!("{what} -> {}", show(&evs)));
    let (mut sent, mut errors, mut delivered, mut released) = (0, 0, 0, 0);
    for e in &evs {
        match e {
            Ev::Send { bytes, pk: Pk::Publish(_), .. } => {
                sent += 1;
                if bytes.len() > MAX + 5 || bytes[1..5] != vbi((bytes.len() - 5) as u32)[..] {
                    return bad("largest", format!("{what}: {} bytes are sent, beginning with {:x?}", bytes.len(), &bytes[..5]));
                }
            }
            Ev::Error(_) => errors += 1,
            Ev::Recv { .. } => delivered += 1,
            Ev::Released(_) => released += 1,
            _ => {}
        }
    }
    if i < 2 {
        if delivered + errors == 0 {
            return bad("largest-swallowed", format!("{what}, and nothing happens"));
        }
    } else {
        let stored = a.stored().len();
        if sent + errors != 1 || (errors > 0 && i >= 4 && (released != 1 || stored > 0)) || (sent > 0 && i >= 4 && stored != 1) {
            return bad("largest-swallowed", format!("{what}: {} ({stored} stored)", show(&evs)));
        }
    }
    let evs = a.closed();
    if evs.iter().any(|e| matches!(e, Ev::Send { .. })) {
        return bad("largest", "a packet is sent at the close".into());
    }
    Ok(())
}
fn conn05(s: &mut Src, c: &mut Ctx) -> Res {
    connection("C05", s.u32() % 2, c)
}
fn conn13(s: &mut Src, c: &mut Ctx) -> Res {
    connection("C13", [2, 3, 5][s.u32() as usize % 3], c)
}
fn conn06(s: &mut Src, c: &mut Ctx) -> Res {
    connection("C06", [4, 6][s.u32() as usize % 2], c)
}

pub fn stages(id: &str) -> Vec<StageDef> {
    if cfg!(any(feature = "sso-lv10", feature = "sso-lv20", feature = "sso-min-32bit", feature = "sso-min-64bit")) {
        return vec![];
    }
    match id {
        "C02" => vec![exhaustive("largest-packets", BUILT, built::<u16>)],
        "C04" => vec![exhaustive("largest-bodies", KINDS as u64, parsed::<u32>)],
        "C05" => vec![exhaustive("largest-publish", 2, conn05)],
        "C06" => vec![exhaustive("largest-publish", 2, conn06)],
        "C13" => vec![exhaustive("largest-publish", 3, conn13)],
        _ => vec![],
    }
}
