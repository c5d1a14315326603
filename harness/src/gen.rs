//! Generators of abstract packets.  `strict` restricts to packets MQTT itself allows; the
//! library's own extra builder rules (password needs user name, share names, AUTH) are kept.

use crate::engine::Src;
use crate::spec::*;

#[derive(Clone, Copy)]
pub struct G {
    pub wide: bool,
    pub strict: bool,
    /// permit values of tens of kilobytes and remaining-length boundaries
    pub big: bool,
}

const EDGES: &[u32] = &[
    11, 12, 13, 14, 15, 16, 17, 22, 23, 24, 25, 26, 30, 31, 32, 33, 46, 47, 48, 49, 50, 125, 126,
    127, 128, 129, 130, 253, 254, 255, 256, 257,
];

pub fn len(s: &mut Src, g: G) -> usize {
    let k = s.weighted(&[60, 28, 8, if g.big { 1 } else { 0 }, if g.big { 1 } else { 0 }]);
    (match k {
        0 => s.range(0, 10),
        1 => *s.pick(EDGES),
        2 => s.range(0, 400),
        3 => s.range(16360, 16400),
        _ => s.range(65520, 65535),
    }) as usize
}

/// A UTF-8 string of exactly `n` bytes.
pub fn text(s: &mut Src, n: usize) -> String {
    let mode = s.weighted(&[70, 15, 15]);
    let seed = s.draw(26) as usize;
    let mut o = String::with_capacity(n);
    let wide: [&str; 4] = ["é", "字", "😀", "\u{7f}"];
    let mut i = seed;
    while o.len() < n {
        let c: &str = match mode {
            1 => wide[i % 4],
            2 if i % 3 == 0 => wide[i % 4],
            _ => {
                let a = b"abcdefghijklmnopqrstuvwxyz/0";
                let k = i % a.len();
                std::str::from_utf8(&a[k..k + 1]).unwrap()
            }
        };
        if o.len() + c.len() <= n {
            o.push_str(c);
        } else {
            o.push('z');
        }
        i += 1;
    }
    o
}
pub fn string(s: &mut Src, g: G) -> String {
    let n = len(s, g);
    text(s, n)
}
pub fn bytes(s: &mut Src, n: usize) -> Vec<u8> {
    let mut x = s.draw(256) as u32;
    let mut o = Vec::with_capacity(n);
    for _ in 0..n {
        o.push((x >> 3) as u8);
        x = x.wrapping_mul(1103515245).wrapping_add(12345);
    }
    if n > 0 && s.chance(1, 4) {
        let v = *s.pick(&[0u8, 0x80, 0xff]);
        o[0] = v;
    }
    o
}
pub fn bin(s: &mut Src, g: G) -> Vec<u8> {
    let n = len(s, g);
    bytes(s, n)
}
pub fn u16v(s: &mut Src) -> u16 {
    match s.weighted(&[3, 2, 2]) {
        0 => s.draw(12) as u16,
        1 => *s.pick(&[0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535]),
        _ => s.draw(65536) as u16,
    }
}
pub fn u32v(s: &mut Src) -> u32 {
    match s.weighted(&[3, 2, 2]) {
        0 => s.draw(12),
        1 => *s.pick(&[0, 1, 127, 128, 16383, 16384, 65535, 65536, 0x00ff_ffff, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
        _ => s.u32(),
    }
}
pub fn pid(s: &mut Src, g: G) -> u32 {
    let max = if g.wide { u32::MAX } else { 65535 };
    match s.weighted(&[4, 2, 2]) {
        0 => s.range(1, 5),
        1 => {
            let v = *s.pick(&[1u32, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 0x00ff_ffff, 0x0100_0000, u32::MAX - 1, u32::MAX]);
            v.min(max)
        }
        _ => (s.u32() & max).max(1),
    }
}

pub fn topic(s: &mut Src, g: G) -> String {
    let n = len(s, g).max(1);
    text(s, n)
}
pub fn filter(s: &mut Src, g: G, v5: bool) -> (String, bool) {
    match s.weighted(&[5, 1, 1, 1, 1]) {
        0 => (topic(s, g), false),
        1 => ("#".into(), false),
        2 => ("a/+/b/#".into(), false),
        3 => {
            let t = topic(s, g);
            (if v5 && t.len() < 60000 { format!("$share/g{}/{}", s.draw(9), t) } else { t }, true)
        }
        _ => ("+/".to_string() + &text(s, 3), false),
    }
}

/// A valid value for a property.
pub fn prop(s: &mut Src, g: G, id: u8) -> Pr {
    let v = match prop_ty(id).expect("HARNESS: property id") {
        Ty::Byte => Pv::U8(s.draw(2) as u8),
        Ty::Two => {
            let v = u16v(s);
            Pv::U16(if matches!(id, 0x21 | 0x23) { v.max(1) } else { v })
        }
        Ty::Four => {
            let v = u32v(s);
            Pv::U32(if id == 0x27 { v.max(1) } else { v })
        }
        Ty::Vbi => {
            let v = *s.pick(&[1u32, 2, 127, 128, 16383, 16384, 2097151, 2097152, 268_435_455]);
            Pv::Vbi(v)
        }
        Ty::Str => {
            let t = string(s, g);
            // Response Topic is a Topic Name; Server Reference/Reason String are free text
            Pv::Str(if id == 0x08 && t.is_empty() { "r".into() } else { t })
        }
        Ty::Bin => Pv::Bin(bin(s, g)),
        Ty::Pair => {
            let a = string(s, g);
            Pv::Pair(a, string(s, g))
        }
    };
    Pr { id, v }
}

/// A valid property list for packet type `pkt` (0 = will), in arbitrary order.
pub fn props(s: &mut Src, g: G, pkt: u8) -> Props {
    let mut out: Props = vec![];
    let n = s.weighted(&[35, 20, 15, 12, 9, 9]);
    let ids: Vec<u8> = PROPS.iter().filter(|p| p.2.contains(&pkt)).map(|p| p.0).collect();
    for _ in 0..n {
        s.begin();
        let id = *s.pick(&ids);
        if prop_repeatable(id, pkt) || !out.iter().any(|p| p.id == id) {
            let p = prop(s, g, id);
            let at = s.draw(out.len() as u32 + 1) as usize;
            out.insert(out.len() - at, p);
        }
        s.end();
    }
    // Authentication Data needs an Authentication Method (3.1.2.11.10)
    if out.iter().any(|p| p.id == 0x16) && !out.iter().any(|p| p.id == 0x15) {
        out.push(prop(s, g, 0x15));
    }
    out
}

pub fn will(s: &mut Src, g: G, v5: bool) -> Will {
    Will {
        topic: topic(s, g),
        payload: bin(s, g),
        qos: s.draw(3) as u8,
        retain: s.bool(),
        props: if v5 { props(s, g, 0) } else { vec![] },
    }
}

pub fn connect(s: &mut Src, g: G, v5: bool) -> Pk {
    let clean = s.bool();
    let mut client_id = string(s, g);
    if !v5 && !clean && client_id.is_empty() {
        client_id = "c".into();
    }
    let will = if s.chance(1, 2) { Some(will(s, g, v5)) } else { None };
    let user = if s.chance(1, 2) { Some(string(s, g)) } else { None };
    let pass = if user.is_some() && s.chance(1, 2) { Some(bin(s, g)) } else { None };
    Pk::Connect(Box::new(ConnectP {
        v5,
        clean,
        keep_alive: u16v(s),
        client_id,
        will,
        user,
        pass,
        props: if v5 { props(s, g, 1) } else { vec![] },
    }))
}

pub fn connack(s: &mut Src, g: G, v5: bool) -> Pk {
    let code = if s.bool() { 0 } else { *s.pick(codes(2, v5)) };
    let sp = s.bool() && (code == 0 || !g.strict);
    Pk::Connack { v5, sp, code, props: if v5 { props(s, g, 2) } else { vec![] } }
}

pub fn publish(s: &mut Src, g: G, v5: bool) -> Pk {
    let qos = s.draw(3) as u8;
    let dup = s.chance(1, 4) && (qos > 0 || !g.strict);
    let retain = s.bool();
    let ps = if v5 { props(s, g, 3) } else { vec![] };
    let has_alias = ps.iter().any(|p| p.id == 0x23);
    let topic = if has_alias && s.bool() { String::new() } else { topic(s, g) };
    let payload = bin(s, g);
    Pk::Publish(Box::new(PublishP {
        v5,
        dup,
        qos,
        retain,
        topic,
        pid: if qos > 0 { Some(pid(s, g)) } else { None },
        props: ps,
        payload,
    }))
}

pub fn ack(s: &mut Src, g: G, v5: bool, kind: u8) -> Pk {
    let pid = pid(s, g);
    let mut code = None;
    let mut props_ = None;
    if v5 || !g.strict {
        if s.chance(2, 3) {
            code = Some(*s.pick(codes(kind, true)));
            if v5 && s.chance(2, 3) {
                props_ = Some(props(s, g, kind));
            }
        }
    }
    Pk::Ack { v5, kind, pid, code, props: props_ }
}

fn count(s: &mut Src) -> u32 {
    match s.weighted(&[50, 35, 10, 2]) {
        0 => 1,
        1 => s.range(2, 4),
        2 => s.range(5, 20),
        _ => s.range(60, 140),
    }
}

pub fn packet(s: &mut Src, g: G, ptype: u8, v5: bool) -> Pk {
    match ptype {
        1 => connect(s, g, v5),
        2 => connack(s, g, v5),
        3 => publish(s, g, v5),
        4..=7 => ack(s, g, v5, ptype),
        8 => {
            let pid = pid(s, g);
            let ps = if v5 { props(s, g, 8) } else { vec![] };
            let n = count(s);
            let mut entries = vec![];
            for _ in 0..n {
                s.begin();
                let (f, shared) = filter(s, g, v5);
                let mut o = s.draw(3) as u8;
                if v5 || !g.strict {
                    if s.bool() && !shared {
                        o |= 4;
                    }
                    if s.bool() {
                        o |= 8;
                    }
                    o |= (s.draw(3) as u8) << 4;
                }
                entries.push((f, o));
                s.end();
            }
            Pk::Subscribe { v5, pid, props: ps, entries }
        }
        9 | 11 => {
            let pid = pid(s, g);
            let ps = if v5 { props(s, g, ptype) } else { vec![] };
            let mut cs = vec![];
            if v5 || ptype == 9 {
                let n = count(s);
                for _ in 0..n {
                    cs.push(*s.pick(codes(ptype, v5)));
                }
            }
            if ptype == 9 {
                Pk::Suback { v5, pid, props: ps, codes: cs }
            } else {
                Pk::Unsuback { v5, pid, props: ps, codes: cs }
            }
        }
        10 => {
            let pid = pid(s, g);
            let ps = if v5 { props(s, g, 10) } else { vec![] };
            let n = count(s);
            let filters = (0..n).map(|_| filter(s, g, v5).0).collect();
            Pk::Unsubscribe { v5, pid, props: ps, filters }
        }
        12 => Pk::Pingreq { v5 },
        13 => Pk::Pingresp { v5 },
        14 => {
            let mut code = None;
            let mut ps = None;
            if v5 && s.chance(3, 4) {
                code = Some(*s.pick(codes(14, true)));
                if s.chance(2, 3) {
                    ps = Some(props(s, g, 14));
                }
            }
            Pk::Disconnect { v5, code, props: ps }
        }
        _ => {
            if s.chance(1, 6) {
                return Pk::Auth { code: None, props: None };
            }
            let code = *s.pick(codes(15, true));
            let mut ps = props(s, g, 15);
            if !ps.iter().any(|p| p.id == 0x15) {
                ps.push(prop(s, g, 0x15));
            }
            Pk::Auth { code: Some(code), props: Some(ps) }
        }
    }
}

/// (type, v5) of the 29 kinds.
pub fn kinds() -> Vec<(u8, bool)> {
    let mut v: Vec<(u8, bool)> = (1..=14).map(|t| (t, false)).collect();
    v.extend((1..=15).map(|t| (t, true)));
    v
}

/// Any kind; occasionally padded so that the Remaining Length or the Property Length falls on
/// an encoding boundary.
pub fn any(s: &mut Src, g: G) -> Pk {
    let (t, v5) = *s.pick(&kinds());
    let p = packet(s, g, t, v5);
    if s.chance(1, 6) {
        let w = if g.big { &[10u32, 3, 1][..] } else { &[10u32, 1, 0][..] };
        let (lo, hi) = [(125, 131), (16381, 16387), (2097149, 2097155)][s.weighted(w)];
        let target = s.range(lo, hi) as usize;
        return pad(s, p, target, g.wide);
    }
    p
}

/// Grows a packet so that its body has exactly `target` bytes where the kind permits.
pub fn pad(s: &mut Src, mut p: Pk, target: usize, wide: bool) -> Pk {
    let cur = body(&p, wide).len();
    if cur >= target {
        return p;
    }
    let mut need = target - cur;
    match &mut p {
        Pk::Publish(q) => {
            if !q.v5 || need > 60000 || s.bool() {
                let b = bytes(s, need);
                q.payload.extend_from_slice(&b);
            } else {
                pad_props(s, &mut q.props, need);
            }
        }
        Pk::Connect(c) => {
            if c.v5 && s.bool() {
                pad_props(s, &mut c.props, need);
            } else {
                let room = 65535 - c.client_id.len();
                let n = need.min(room);
                let t = text(s, n);
                c.client_id.push_str(&t);
            }
        }
        Pk::Suback { codes, .. } => {
            let c = codes[0];
            codes.resize(codes.len() + need.min(70000), c);
        }
        Pk::Unsuback { v5: true, codes, .. } => {
            let c = codes[0];
            codes.resize(codes.len() + need.min(70000), c);
        }
        Pk::Subscribe { entries, .. } => {
            while need > 3 && need < 300_000 {
                let n = (need - 3).min(65535).min(if need > 70000 { 60000 } else { 65535 });
                entries.push((text(s, n.max(1)), 0));
                need -= n.max(1) + 3;
            }
        }
        Pk::Unsubscribe { filters, .. } => {
            while need > 2 && need < 300_000 {
                let n = (need - 2).min(if need > 70000 { 60000 } else { 65535 });
                filters.push(text(s, n.max(1)));
                need -= n.max(1) + 2;
            }
        }
        Pk::Connack { v5: true, props, .. } => pad_props(s, props, need),
        Pk::Ack { props: Some(props), .. }
        | Pk::Disconnect { props: Some(props), .. }
        | Pk::Auth { props: Some(props), .. } => pad_props(s, props, need),
        _ => {}
    }
    p
}

/// Adds user properties worth about `need` bytes (exact unless the length prefix grows).
pub fn pad_props(s: &mut Src, ps: &mut Props, need: usize) {
    let before: usize = {
        let mut o = vec![];
        e_props(&mut o, ps);
        o.len()
    };
    let mut left = need;
    while left >= 5 && left < 400_000 {
        let n = (left - 5).min(120_000);
        let a = n / 2;
        let v = Pv::Pair(text(s, a), text(s, n - a));
        ps.push(Pr { id: 0x26, v });
        let mut o = vec![];
        e_props(&mut o, ps);
        if o.len() > before + need {
            // the property-length prefix grew: shorten
            let over = o.len() - before - need;
            if let Some(Pr { v: Pv::Pair(_, b), .. }) = ps.last_mut() {
                let keep = b.len().saturating_sub(over);
                *b = text(s, keep);
            }
            return;
        }
        left = before + need - o.len();
    }
}

/// The k-th order of 0..n.
pub fn permutation(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let i = k % left.len();
        k /= left.len();
        out.push(left.remove(i));
    }
    out
}
