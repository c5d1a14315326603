//! Generates histories: what the application and the peer do next, given the model state.

use crate::conn::*;
use crate::engine::*;
use crate::gen::{self, G};
use crate::model::*;
use crate::spec::*;

/// Weights of the things that may happen; drawn per case around a per-property base, so that
/// different cases stress different mixtures.
#[derive(Clone)]
pub struct Prof {
    pub role: Option<Role>,
    pub ver: Option<Ver>,
    pub und: bool,
    pub persist: u32,
    pub limits: u32,
    pub aliases: u32,
    pub publish: u32,
    pub inbound: u32,
    pub acks: u32,
    pub bad_acks: u32,
    pub subs: u32,
    pub ids: u32,
    pub options: u32,
    pub timers: u32,
    pub closes: u32,
    pub wrong: u32,
    pub forbidden: u32,
    pub junk: u32,
    pub partial: u32,
    pub cuts: u32,
    pub erase: u32,
    pub regulate: u32,
    pub restart: u32,
    pub offline: u32,
    pub after_close: u32,
    pub checked: u32,
    pub auth: u32,
    pub send_error: u32,
    pub refuse_conn: u32,
    pub steps: (u32, u32),
}
pub const BASE: Prof = Prof {
    role: None,
    ver: None,
    und: false,
    persist: 50,
    limits: 30,
    aliases: 30,
    publish: 20,
    inbound: 16,
    acks: 24,
    bad_acks: 1,
    subs: 4,
    ids: 2,
    options: 2,
    timers: 2,
    closes: 4,
    wrong: 2,
    forbidden: 0,
    junk: 0,
    partial: 2,
    cuts: 10,
    erase: 1,
    regulate: 0,
    restart: 0,
    offline: 15,
    after_close: 0,
    checked: 15,
    auth: 1,
    send_error: 0,
    refuse_conn: 3,
    steps: (4, 70),
};

pub struct Gen {
    pub p: Prof,
    pub wide: bool,
    /// bytes of a frame whose first part has been delivered
    pub rest: Vec<u8>,
    seq: u32,
    /// new ids prefer small values
    topics: Vec<String>,
}

const TOPICS: &[&str] = &["a", "b", "c/d", "t/0123456789", "long/topic/0123456789/0123456789/0123456789", "é/字"];

fn has(s: &mut Src, pct: u32) -> bool {
    s.chance(pct.min(100), 100)
}

impl Gen {
    pub fn new(s: &mut Src, p: Prof, wide: bool) -> Gen {
        let mut p = p;
        // swarm: each case scales the mixture
        for w in [
            &mut p.publish,
            &mut p.inbound,
            &mut p.acks,
            &mut p.subs,
            &mut p.ids,
            &mut p.options,
            &mut p.timers,
            &mut p.closes,
            &mut p.wrong,
            &mut p.erase,
            &mut p.partial,
            &mut p.cuts,
            &mut p.limits,
            &mut p.aliases,
        ] {
            *w = match s.weighted(&[4, 2, 2, 1]) {
                0 => *w,
                1 => *w / 2,
                2 => *w * 2,
                _ => *w / 8,
            };
        }
        let mut topics: Vec<String> = TOPICS.iter().map(|s| s.to_string()).collect();
        match s.weighted(&[70, 10, 12, 2]) {
            0 => {}
            1 => {
                // many topics, some of them a prefix of another
                let n = s.range(8, 24);
                topics = (0..n).map(|i| format!("n/{i}")).collect();
            }
            2 => {
                let n = *s.pick(&[126u32, 127, 128, 129, 254, 255, 256, 257, 300]) as usize;
                topics.truncate(2);
                topics.push(gen::text(s, n));
            }
            _ => {
                let n = *s.pick(&[16383u32, 16384, 32767, 32768, 65534, 65535]) as usize;
                topics.truncate(2);
                topics.push(gen::text(s, n));
            }
        }
        Gen { p, wide, rest: vec![], seq: 0, topics }
    }
    fn g(&self) -> G {
        G { wide: self.wide, strict: true, big: false }
    }
    pub fn payload(&mut self, s: &mut Src) -> Vec<u8> {
        self.seq += 1;
        let mut v = format!("m{}", self.seq).into_bytes();
        match s.weighted(&[300, 100, 50, 50, 1, 1]) {
            0 => {}
            4 => {
                let n = s.range(16350, 16390) as usize;
                v.resize(n, b'v');
            }
            5 => {
                let n = s.range(65500, 65560) as usize;
                v.resize(n, b'u');
            }
            1 => {
                let n = s.range(1, 40) as usize;
                v.resize(v.len() + n, b'x');
            }
            2 => {
                let n = s.range(100, 140) as usize;
                v.resize(v.len() + n, b'y');
            }
            _ => v.clear(),
        }
        v
    }

    /// Connection limits as CONNECT / CONNACK properties.
    fn limit_props(&self, s: &mut Src, ps: &mut Props) {
        if has(s, self.p.limits + 15) {
            let v = match s.weighted(&[12, 4, 2, 1]) {
                0 => s.range(1, 3),
                1 => s.range(4, 10),
                2 => 65535,
                _ => *s.pick(&[16u32, 20, 127, 128, 255, 256, 257, 32768, 65534]),
            };
            ps.push(Pr { id: 0x21, v: Pv::U16(v as u16) });
        }
        if has(s, self.p.limits) {
            let v = match s.weighted(&[6, 10, 6, 2, 2]) {
                0 => s.range(20, 40),
                1 => s.range(12, 80),
                2 => s.range(80, 200),
                3 => s.range(1, 12),
                _ => *s.pick(&[127u32, 128, 129, 130, 131, 255, 256, 4000, 16384, 16387, 16388, 65536, 268_435_455, u32::MAX]),
            };
            ps.push(Pr { id: 0x27, v: Pv::U32(v) });
        }
        if has(s, self.p.aliases + 15) {
            let v = match s.weighted(&[6, 1, 1]) {
                0 => s.range(1, 4),
                1 => 0,
                _ => *s.pick(&[10u32, 255, 65535]),
            };
            ps.push(Pr { id: 0x22, v: Pv::U16(v as u16) });
        }
    }
    pub fn connect(&mut self, s: &mut Src, v5: bool) -> Pk {
        let persist = has(s, self.p.persist);
        let clean = if persist { has(s, 15) } else { has(s, 70) };
        let mut props = vec![];
        if v5 {
            if persist || has(s, 10) {
                props.push(Pr { id: 0x11, v: Pv::U32(if persist { *s.pick(&[100u32, 1, u32::MAX]) } else { 0 }) });
            }
            self.limit_props(s, &mut props);
            if has(s, 8) {
                props.push(Pr { id: 0x26, v: Pv::Pair("k".into(), "v".into()) });
            }
        }
        let keep_alive = match s.weighted(&[50, 45, 5]) {
            0 => 0,
            1 => s.range(1, 60) as u16,
            _ => *s.pick(&[127u16, 128, 255, 256, 32767, 32768, 43690, 43691, 65534, 65535]),
        };
        let mut c = ConnectP { v5, clean: if v5 { clean } else { !persist }, keep_alive, client_id: "cid".into(), will: None, user: None, pass: None, props };
        if has(s, 8) {
            // whatever else a CONNECT may carry
            if let Pk::Connect(x) = gen::connect(s, self.g(), v5) {
                c.client_id = if x.client_id.is_empty() { "c".into() } else { x.client_id };
                (c.will, c.user, c.pass) = (x.will, x.user, x.pass);
                self.mix(s, &mut c.props, x.props, &[0x11, 0x21, 0x22, 0x27]);
            }
        }
        Pk::Connect(Box::new(c))
    }
    pub fn connack_ok(&mut self, s: &mut Src, m: &Model, sent_by_us: bool) -> Pk {
        let v5 = m.v5();
        let mut props = vec![];
        let sp = if m.persist || !m.store.is_empty() || !m.handled.is_empty() { has(s, 80) } else { has(s, 10) };
        if v5 {
            self.limit_props(s, &mut props);
            if has(s, 15) {
                props.push(Pr { id: 0x13, v: Pv::U16(*s.pick(&[0u16, 5, 30, 1, 255, 256, 43691, 65535])) });
            }
            if has(s, 10) {
                let v = if m.persist == has(s, 70) { 100 } else { 0 };
                props.push(Pr { id: 0x11, v: Pv::U32(v) });
            }
        }
        let _ = sent_by_us;
        if v5 && has(s, 8) {
            let more = gen::props(s, self.g(), 2);
            self.mix(s, &mut props, more, &[0x11, 0x13, 0x21, 0x22, 0x27]);
        }
        Pk::Connack { v5, sp, code: 0, props }
    }
    /// Adds the properties whose identifiers are not among `skip`, in any position.
    fn mix(&self, s: &mut Src, ps: &mut Props, more: Props, skip: &[u8]) {
        for p in more {
            if !skip.contains(&p.id) {
                let at = s.draw(ps.len() as u32 + 1) as usize;
                ps.insert(at, p);
            }
        }
    }
    fn publish_props(&self, s: &mut Src, v5: bool) -> Props {
        if v5 && has(s, 8) {
            let mut ps = vec![];
            let more = gen::props(s, self.g(), 3);
            self.mix(s, &mut ps, more, &[0x23]);
            return ps;
        }
        self.user_props(s, v5)
    }
    fn alias_prop(&self, s: &mut Src, ps: &mut Props, a: u16) {
        let at = s.draw(ps.len() as u32 + 1) as usize;
        ps.insert(ps.len() - at, Pr { id: 0x23, v: Pv::U16(a) });
    }
    fn user_props(&self, s: &mut Src, v5: bool) -> Props {
        if v5 && has(s, 12) {
            vec![Pr { id: 0x26, v: Pv::Pair("key".into(), gen::text(s, 3)) }]
        } else {
            vec![]
        }
    }

    /// An outbound PUBLISH; acquires an identifier through the world when it needs one.
    pub fn publish(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
        let v5 = w.m.v5();
        let qos = s.weighted(&[2, 4, 5]) as u8;
        let mut pid = None;
        if qos > 0 {
            pid = Some(self.new_id(w, s, ctx)?);
        }
        let ti = s.draw(self.topics.len() as u32) as usize;
        let mut topic = self.topics[ti].clone();
        let mut props = self.publish_props(s, v5);
        if v5 && (w.m.tam_send > 0 || has(s, 4)) && has(s, self.p.aliases + 15) {
            // manual alias: mostly valid
            let max = w.m.tam_send as u32;
            let bound: Vec<u16> = w.m.tx_alias.keys().copied().collect();
            let a = match s.weighted(&[8, 6, 1]) {
                0 if max > 0 => {
                    let top = if has(s, 8) { max } else { max.min(4) };
                    s.range(1, top)
                }
                1 if !bound.is_empty() => {
                    let b = *s.pick(&bound);
                    if has(s, 70) {
                        topic = String::new();
                    }
                    b as u32
                }
                _ => *s.pick(&[1u32, 2, max + 1, 65535]),
            };
            let a = a.clamp(1, 65535);
            if has(s, 6) {
                topic = String::new();
            }
            self.alias_prop(s, &mut props, a as u16);
        }
        let mut payload = self.payload(s);
        let retain = has(s, 15);
        let mk = |payload: Vec<u8>| Pk::Publish(Box::new(PublishP { v5, dup: false, qos, retain, topic: topic.clone(), pid, props: props.clone(), payload }));
        // around the peer's Maximum Packet Size
        if v5 && w.m.mps_send < 5000 && has(s, 40) {
            let cur = encode(&mk(payload.clone()), self.wide).len() as i64;
            let want = w.m.mps_send as i64 + s.range(0, 4) as i64 - 3;
            if want > cur {
                payload.resize(payload.len() + (want - cur) as usize, b'z');
            }
        }
        let p = mk(payload);
        self.send(w, s, ctx, p)
    }
    fn send(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx, p: Pk) -> WRes<()> {
        let op = if has(s, self.p.checked) { Op::Checked(p) } else { Op::Send(p) };
        let evs = w.op(ctx, op)?;
        // a failed transport write: give the identifier back, then the transport is closed
        if self.p.send_error > 0 && has(s, self.p.send_error) {
            if let Some(id) = evs.iter().find_map(|e| if let Ev::Send { rel, .. } = e { *rel } else { None }) {
                w.op(ctx, Op::Release(id))?;
                self.close(w, ctx)?;
            }
        }
        Ok(())
    }
    pub fn close(&mut self, w: &mut World, ctx: &mut Ctx) -> WRes<()> {
        self.rest.clear();
        w.op(ctx, Op::Closed)?;
        Ok(())
    }
    /// An identifier the application holds, or a fresh one; rarely one that is not in use.
    fn new_id(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx) -> WRes<u32> {
        if !w.m.held.is_empty() && has(s, 60) {
            let v: Vec<u32> = w.m.held.iter().copied().collect();
            return Ok(*s.pick(&v));
        }
        if has(s, 3) {
            // not acquired
            let id = s.range(1, 9);
            if !w.m.in_use.contains(&id) || w.m.held.contains(&id) {
                return Ok(id);
            }
        }
        if has(s, 15) {
            let id = if has(s, 80) { *s.pick(&[1u32, 2, 3, 255, 256, 65535, 70000, u32::MAX]) } else { gen::pid(s, self.g()) };
            if id <= w.m.id_max() && !w.m.in_use.contains(&id) {
                w.op(ctx, Op::Register(id))?;
                return Ok(id);
            }
        }
        w.op(ctx, Op::Acquire)?;
        Ok(w.m.held.iter().next_back().copied().unwrap_or(1))
    }

    // ---------------------------------------------------------------- peer
    pub fn deliver(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx, frame: Vec<u8>) -> WRes<()> {
        let mut b = std::mem::take(&mut self.rest);
        b.extend_from_slice(&frame);
        if b.len() > 1 && has(s, self.p.partial * 2) {
            // only a part arrives now
            let k = s.range(1, b.len() as u32 - 1) as usize;
            self.rest = b.split_off(k);
        }
        let mut cuts = vec![];
        if has(s, self.p.cuts) {
            match s.draw(3) {
                0 => cuts = (1..b.len().min(40)).collect(),
                _ => {
                    for _ in 0..s.range(1, 3) {
                        cuts.push(s.draw(b.len() as u32) as usize);
                    }
                    cuts.sort();
                }
            }
        }
        w.op(ctx, Op::Recv(b, cuts))?;
        Ok(())
    }
    fn peer(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx, p: Pk) -> WRes<()> {
        let f = encode(&p, self.wide);
        self.deliver(w, s, ctx, f)
    }
    fn in_id(&self, s: &mut Src) -> u32 {
        match s.weighted(&[9, 1]) {
            0 => s.range(1, 4),
            _ if has(s, 40) => gen::pid(s, self.g()),
            _ => {
                if self.wide {
                    *s.pick(&[65535u32, 65536, u32::MAX])
                } else {
                    *s.pick(&[255u32, 256, 65535])
                }
            }
        }
    }
    fn inbound_publish(&mut self, w: &mut World, s: &mut Src) -> Pk {
        let v5 = w.m.v5();
        let qos = s.weighted(&[2, 3, 6]) as u8;
        let dup_of: Vec<u32> = w.m.handled.iter().copied().collect();
        let mut dup = false;
        let pid = if qos == 0 {
            None
        } else if qos == 2 && !dup_of.is_empty() && has(s, 30) {
            dup = has(s, 80);
            Some(*s.pick(&dup_of))
        } else {
            Some(self.in_id(s))
        };
        let ti = s.draw(self.topics.len() as u32) as usize;
        let mut topic = self.topics[ti].clone();
        let mut props = self.publish_props(s, v5);
        if v5 && (w.m.tam_recv > 0 && has(s, self.p.aliases + 20) || has(s, 1)) {
            let max = w.m.tam_recv as u32;
            let bound: Vec<u16> = w.m.rx_alias.keys().copied().collect();
            let a = match s.weighted(&[8, 8, 1]) {
                0 if max > 0 => {
                    let top = if has(s, 8) { max } else { max.min(4) };
                    s.range(1, top)
                }
                1 if !bound.is_empty() => {
                    if has(s, 70) {
                        topic = String::new();
                    }
                    *s.pick(&bound) as u32
                }
                _ => {
                    if has(s, 50) {
                        topic = String::new();
                    }
                    *s.pick(&[1u32, 2, max + 1, 65535])
                }
            };
            self.alias_prop(s, &mut props, a.clamp(1, 65535) as u16);
        }
        let mut payload = self.payload(s);
        if v5 && w.m.mps_recv < 5000 && has(s, 30) {
            let q = PublishP { v5, dup, qos, retain: false, topic: topic.clone(), pid, props: props.clone(), payload: payload.clone() };
            let cur = encode(&Pk::Publish(Box::new(q)), self.wide).len() as i64;
            // mostly inside the limit
            let want = w.m.mps_recv as i64 + s.range(0, 3) as i64 - 2;
            if want > cur {
                payload.resize(payload.len() + (want - cur) as usize, b'w');
            }
        }
        Pk::Publish(Box::new(PublishP { v5, dup, qos, retain: has(s, 10), topic, pid, props, payload }))
    }
    fn ack_code(&self, s: &mut Src, v5: bool, kind: u8) -> (Option<u8>, Option<Props>) {
        if !v5 {
            return (None, None);
        }
        let code = match s.weighted(&[6, 2, 2]) {
            0 => None,
            1 => Some(0),
            _ => Some(*s.pick(codes(kind, true))),
        };
        let props = if code.is_some() && has(s, 20) { Some(self.user_props(s, true)) } else { None };
        (code, props)
    }
    fn rel_code(&self, s: &mut Src, v5: bool) -> (Option<u8>, Option<Props>) {
        if !v5 || has(s, 80) {
            return (None, None);
        }
        let code = Some(*s.pick(&[0u8, 0, 0x92]));
        (code, if has(s, 40) { Some(self.user_props(s, true)) } else { None })
    }
    /// The peer acknowledges something (mostly something in flight).
    fn peer_ack(&mut self, w: &mut World, s: &mut Src) -> Option<Pk> {
        let v5 = w.m.v5();
        let mut cand: Vec<(u32, u8)> = vec![];
        for (id, e) in &w.m.exch {
            match e {
                Ex::WaitPuback => cand.push((*id, 4)),
                Ex::WaitPubrec => cand.push((*id, 5)),
                Ex::WaitPubcomp => cand.push((*id, 7)),
                Ex::Limbo => {}
            }
        }
        // only what has been sent on this connection can be acknowledged
        cand.retain(|c| w.m.out_conn.contains(&c.0));
        if cand.is_empty() {
            return None;
        }
        let (id, k) = *s.pick(&cand);
        let (code, props) = self.ack_code(s, v5, k);
        Some(Pk::Ack { v5, kind: k, pid: id, code, props })
    }
    fn bad_ack(&mut self, w: &mut World, s: &mut Src) -> Pk {
        let v5 = w.m.v5();
        let ids: Vec<u32> = w.m.exch.keys().copied().chain(w.m.held.iter().copied()).chain(w.m.subs.iter().copied()).chain(w.m.unsubs.iter().copied()).collect();
        let pid = if !ids.is_empty() && has(s, 70) { *s.pick(&ids) } else { self.in_id(s) };
        match s.weighted(&[3, 3, 3, if w.m.role == Role::Server { 0 } else { 2 }, if w.m.role == Role::Server { 0 } else { 2 }]) {
            k @ 0..=2 => {
                let kind = [4, 5, 7][k];
                let (code, props) = self.ack_code(s, v5, kind);
                Pk::Ack { v5, kind, pid, code, props }
            }
            3 => Pk::Suback { v5, pid, props: vec![], codes: vec![0] },
            _ => Pk::Unsuback { v5, pid, props: vec![], codes: if v5 { vec![0] } else { vec![] } },
        }
    }
    pub fn any_packet(&self, s: &mut Src, t: u8, v5: bool) -> Pk {
        gen::packet(s, self.g(), t, v5)
    }
    /// Bytes that are not a well-formed packet, or one out of place.
    pub fn junk(&mut self, w: &mut World, s: &mut Src) -> Vec<u8> {
        let v5 = w.m.ver != Ver::V3;
        match s.weighted(&[4, 4, 2, 1, 3]) {
            0 => {
                // mutate a valid packet
                let t = s.range(1, if v5 { 15 } else { 14 }) as u8;
                let p = self.any_packet(s, t, v5);
                let mut f = encode(&p, self.wide);
                for _ in 0..s.range(1, 3) {
                    if f.len() <= 2 {
                        break;
                    }
                    let n = f.len() as u32;
                    match s.draw(4) {
                        0 => {
                            let i = s.range(0, n - 1) as usize;
                            if i != 1 {
                                f[i] = *s.pick(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0xff]);
                            }
                        }
                        1 => {
                            // truncate the body, fixing the length
                            let (h, st) = (f[0], f.iter().skip(1).position(|b| b & 0x80 == 0).unwrap_or(0) + 2);
                            let b = f[st.min(f.len())..].to_vec();
                            let k = s.draw(b.len() as u32 + 1) as usize;
                            f = frame(h, &b[..k]);
                        }
                        2 => {
                            let (h, st) = (f[0], f.iter().skip(1).position(|b| b & 0x80 == 0).unwrap_or(0) + 2);
                            let mut b = f[st.min(f.len())..].to_vec();
                            let k = s.range(1, 4) as usize;
                            for _ in 0..k {
                                b.push(s.draw(256) as u8);
                            }
                            f = frame(h, &b);
                        }
                        _ => {
                            let i = s.range(0, n - 1) as usize;
                            if i != 1 {
                                f[i] ^= 1 << s.draw(8);
                            }
                        }
                    }
                }
                f
            }
            1 => {
                let h = s.draw(256) as u8;
                let n = s.draw(12) as usize;
                let b: Vec<u8> = (0..n).map(|_| *s.pick(&[0u8, 1, 2, 3, 4, 5, 0x10, 0x23, 0x80, 0xff, b'a'])).collect();
                frame(h, &b)
            }
            2 => {
                // packet of the other version, or of any kind
                let t = s.range(1, 15) as u8;
                let o5 = if t == 15 { true } else { s.bool() };
                encode(&self.any_packet(s, t, o5), self.wide)
            }
            3 => {
                let mut f = vec![s.draw(256) as u8];
                f.extend([0xff, 0xff, 0xff, *s.pick(&[0x80u8, 0xff, 0x81])]);
                f
            }
            _ => {
                let p = if s.bool() { self.bad_ack(w, s) } else { self.any_packet(s, 3, v5) };
                encode(&p, self.wide)
            }
        }
    }

    // ---------------------------------------------------------------- one step
    pub fn step(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
        if w.closing {
            return self.closing_step(w, s, ctx);
        }
        let p = self.p.clone();
        let v5 = w.m.v5();
        let und = w.m.ver == Ver::Und;
        // things possible at any time
        let armed = w.armed.iter().any(|b| *b);
        let can_restart = p.restart > 0 && w.m.persist && !und;
        let common = [
            p.ids,
            p.options,
            if armed { p.timers } else { 0 },
            p.wrong,
            if und { p.forbidden } else { p.forbidden },
            p.junk,
            if w.m.store.is_empty() { 0 } else { p.erase },
            if can_restart { p.restart } else { 0 },
            if self.rest.is_empty() { 0 } else { 30 },
            if v5 { p.regulate } else { 0 },
        ];
        let st = match w.m.st {
            St::Disc => [30, if w.m.persist { p.offline } else { 1 }, p.closes / 4, 0, 0, 0, 0, 0, 0],
            St::Conning => [60, p.closes, p.auth, 2, p.refuse_conn, 1, 0, 0, 0],
            St::Conned => [p.publish, p.acks, p.inbound, p.inbound, p.subs, 3, p.closes, p.auth, p.bad_acks],
        };
        let mut ws: Vec<u32> = st.to_vec();
        ws.extend(common);
        let k = s.weighted(&ws);
        if k >= 9 {
            return self.common(w, s, ctx, k - 9);
        }
        match w.m.st {
            St::Disc => match k {
                0 => {
                    let as_server = match w.m.role {
                        Role::Client => false,
                        Role::Server => true,
                        Role::Any => und || s.bool(),
                    };
                    let c5 = if und { s.bool() } else { v5 };
                    let c = self.connect(s, c5);
                    if as_server {
                        self.peer(w, s, ctx, c)
                    } else {
                        self.send(w, s, ctx, c)
                    }
                }
                1 if !und => self.publish(w, s, ctx),
                _ => self.close(w, ctx),
            },
            St::Conning => match k {
                0 => {
                    let c = self.connack_ok(s, &w.m, !w.m.is_client);
                    if w.m.is_client {
                        self.peer(w, s, ctx, c)
                    } else {
                        self.send(w, s, ctx, c)
                    }
                }
                1 => self.close(w, ctx),
                2 if v5 => {
                    let a = self.any_packet(s, 15, true);
                    if s.bool() {
                        self.send(w, s, ctx, a)
                    } else {
                        self.peer(w, s, ctx, a)
                    }
                }
                3 => self.publish(w, s, ctx),
                4 => {
                    let code = if v5 { *s.pick(&codes(2, true)[1..]) } else { s.range(1, 5) as u8 };
                    let c = Pk::Connack { v5, sp: false, code, props: vec![] };
                    if w.m.is_client {
                        self.peer(w, s, ctx, c)?;
                        if w.m.st == St::Conning && self.rest.is_empty() {
                            self.close(w, ctx)?;
                        }
                        Ok(())
                    } else {
                        self.send(w, s, ctx, c)
                    }
                }
                _ if !w.m.is_client => {
                    // a client that does not wait for CONNACK
                    let f = self.inbound_publish(w, s);
                    self.peer(w, s, ctx, f)
                }
                _ => Ok(()),
            },
            St::Conned => match k {
                0 if has(s, 1) => {
                    for _ in 0..s.range(8, 30) {
                        if w.m.st != St::Conned {
                            break;
                        }
                        self.publish(w, s, ctx)?;
                    }
                    Ok(())
                }
                0 => self.publish(w, s, ctx),
                1 => {
                    // acknowledgements in both directions
                    if let Some(id) = w.m.exch.iter().find(|e| *e.1 == Ex::Limbo).map(|e| *e.0) {
                        if s.bool() {
                            let (code, props) = self.rel_code(s, v5);
                            let r = Pk::Ack { v5, kind: 6, pid: id, code, props };
                            return self.send(w, s, ctx, r);
                        }
                    }
                    match self.peer_ack(w, s) {
                        Some(a) => self.peer(w, s, ctx, a),
                        None => self.publish(w, s, ctx),
                    }
                }
                2 => {
                    // mostly a peer that respects the limits
                    let mut f = self.inbound_publish(w, s);
                    for _ in 0..4 {
                        let q = match &f {
                            Pk::Publish(q) => q.clone(),
                            _ => break,
                        };
                        let rm = q.qos > 0 && w.m.rm_recv.is_some_and(|r| !w.m.in_conn.contains(&q.pid.unwrap_or(0)) && w.m.in_conn.len() >= r as usize);
                        let big = encode(&f, self.wide).len() as u64 > w.m.mps_recv;
                        if (rm || big) && !has(s, 8) {
                            f = self.inbound_publish(w, s);
                        } else {
                            break;
                        }
                    }
                    self.peer(w, s, ctx, f)
                }
                3 => {
                    // the second half of inbound exchanges
                    let ids: Vec<u32> = w.m.handled.iter().copied().collect();
                    let outstanding: Vec<u32> = w.m.in_conn.iter().copied().collect();
                    match s.weighted(&[4, if w.m.auto_pub { 0 } else { 6 }, 1]) {
                        0 if !ids.is_empty() => {
                            let id = *s.pick(&ids);
                            let (code, props) = self.rel_code(s, v5);
                            let r = Pk::Ack { v5, kind: 6, pid: id, code, props };
                            self.peer(w, s, ctx, r)
                        }
                        1 => {
                            let id = if !outstanding.is_empty() && has(s, 85) {
                                *s.pick(&outstanding)
                            } else if !ids.is_empty() {
                                *s.pick(&ids)
                            } else {
                                self.in_id(s)
                            };
                            let kind = if w.m.handled.contains(&id) { *s.pick(&[5u8, 5, 5, 7]) } else { *s.pick(&[4u8, 4, 7]) };
                            let (code, props) = self.ack_code(s, v5, kind);
                            let a = Pk::Ack { v5, kind, pid: id, code, props };
                            self.send(w, s, ctx, a)
                        }
                        _ => {
                            let id = self.in_id(s);
                            let (code, props) = self.rel_code(s, v5);
                            let r = Pk::Ack { v5, kind: 6, pid: id, code, props };
                            self.peer(w, s, ctx, r)
                        }
                    }
                }
                4 => self.subscriptions(w, s, ctx),
                5 => self.ping(w, s, ctx),
                6 => match s.weighted(&[5, 3, 2]) {
                    0 => self.close(w, ctx),
                    1 => {
                        let d = self.disconnect(w, s);
                        self.send(w, s, ctx, d)
                    }
                    _ => {
                        if w.m.role == Role::Client && !v5 {
                            return self.close(w, ctx);
                        }
                        let d = self.disconnect(w, s);
                        self.peer(w, s, ctx, d)
                    }
                },
                7 if v5 => {
                    let a = self.any_packet(s, 15, true);
                    if s.bool() {
                        self.send(w, s, ctx, a)
                    } else {
                        self.peer(w, s, ctx, a)
                    }
                }
                8 => {
                    let a = self.bad_ack(w, s);
                    self.peer(w, s, ctx, a)
                }
                _ => Ok(()),
            },
        }
    }
    fn disconnect(&mut self, w: &World, s: &mut Src) -> Pk {
        let v5 = w.m.v5();
        let code = if v5 && s.bool() { Some(*s.pick(codes(14, true))) } else { None };
        let props = if code.is_some() && has(s, 30) { Some(self.user_props(s, true)) } else { None };
        Pk::Disconnect { v5, code, props }
    }
    fn subscriptions(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
        let v5 = w.m.v5();
        let subs: Vec<u32> = w.m.subs.iter().copied().collect();
        let unsubs: Vec<u32> = w.m.unsubs.iter().copied().collect();
        let client = match w.m.role {
            Role::Client => true,
            Role::Server => false,
            Role::Any => w.m.is_client,
        };
        if client {
            match s.weighted(&[3, 2, if subs.is_empty() { 0 } else { 4 }, if unsubs.is_empty() { 0 } else { 4 }]) {
                0 => {
                    let pid = self.new_id(w, s, ctx)?;
                    let mut p = Pk::Subscribe { v5, pid, props: self.user_props(s, v5), entries: vec![("a/#".into(), s.draw(3) as u8)] };
                    self.vary(s, &mut p);
                    self.send(w, s, ctx, p)
                }
                1 => {
                    let pid = self.new_id(w, s, ctx)?;
                    let mut p = Pk::Unsubscribe { v5, pid, props: self.user_props(s, v5), filters: vec!["a/#".into()] };
                    self.vary(s, &mut p);
                    self.send(w, s, ctx, p)
                }
                2 => {
                    let mut p = Pk::Suback { v5, pid: *s.pick(&subs), props: vec![], codes: vec![0] };
                    self.vary(s, &mut p);
                    self.peer(w, s, ctx, p)
                }
                _ => {
                    let mut p = Pk::Unsuback { v5, pid: *s.pick(&unsubs), props: vec![], codes: if v5 { vec![0] } else { vec![] } };
                    self.vary(s, &mut p);
                    self.peer(w, s, ctx, p)
                }
            }
        } else {
            let pid = self.in_id(s);
            let mut p = match s.draw(4) {
                0 => Pk::Subscribe { v5, pid, props: vec![], entries: vec![("a/#".into(), 1)] },
                1 => Pk::Unsubscribe { v5, pid, props: vec![], filters: vec!["a/#".into()] },
                2 => {
                    let mut a = Pk::Suback { v5, pid, props: vec![], codes: vec![1] };
                    self.vary(s, &mut a);
                    return self.send(w, s, ctx, a);
                }
                _ => {
                    let mut a = Pk::Unsuback { v5, pid, props: vec![], codes: if v5 { vec![0] } else { vec![] } };
                    self.vary(s, &mut a);
                    return self.send(w, s, ctx, a);
                }
            };
            self.vary(s, &mut p);
            self.peer(w, s, ctx, p)
        }
    }
    /// Sometimes replaces everything but the identifier.
    fn vary(&self, s: &mut Src, p: &mut Pk) {
        if !has(s, 30) {
            return;
        }
        let mut q = self.any_packet(s, p.ptype(), p.v5());
        if let (Some(id), Pk::Subscribe { pid, .. } | Pk::Suback { pid, .. } | Pk::Unsubscribe { pid, .. } | Pk::Unsuback { pid, .. }) = (p.pid(), &mut q) {
            *pid = id;
            *p = q;
        }
    }
    fn ping(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
        let v5 = w.m.v5();
        let client = match w.m.role {
            Role::Client => true,
            Role::Server => false,
            Role::Any => w.m.is_client,
        };
        match (client, s.bool()) {
            (true, false) => self.send(w, s, ctx, Pk::Pingreq { v5 }),
            (true, true) => self.peer(w, s, ctx, Pk::Pingresp { v5 }),
            (false, false) => self.peer(w, s, ctx, Pk::Pingreq { v5 }),
            (false, true) => self.send(w, s, ctx, Pk::Pingresp { v5 }),
        }
    }
    fn closing_step(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
        let a = self.p.after_close;
        match s.weighted(&[20, 2, 1, a, a]) {
            0 => self.close(w, ctx),
            1 => self.common(w, s, ctx, 0),
            2 => self.common(w, s, ctx, 1),
            3 => {
                w.lenient = true;
                let f = if s.bool() && w.m.ver != Ver::Und {
                    let p = match s.draw(4) {
                        0 => self.inbound_publish(w, s),
                        1 => self.peer_ack(w, s).unwrap_or(Pk::Pingresp { v5: w.m.v5() }),
                        2 => Pk::Ack { v5: w.m.v5(), kind: 6, pid: self.in_id(s), code: None, props: None },
                        _ => {
                            let t = s.range(1, 14) as u8;
                            self.any_packet(s, t, w.m.v5())
                        }
                    };
                    encode(&p, self.wide)
                } else {
                    self.junk(w, s)
                };
                self.deliver(w, s, ctx, f)
            }
            _ => {
                w.lenient = true;
                match s.draw(3) {
                    0 if w.m.ver != Ver::Und => {
                        // the application has not noticed the close request yet
                        let v5 = w.m.v5();
                        let t = *s.pick(&[3u8, 12, 4, 14, 8]);
                        let mut p = self.any_packet(s, t, v5);
                        if let Pk::Publish(q) = &mut p {
                            q.qos = 0;
                            q.pid = None;
                            q.dup = false;
                        }
                        if let Pk::Subscribe { pid, .. } = &mut p {
                            *pid = self.new_id(w, s, ctx)?;
                        }
                        self.send(w, s, ctx, p)
                    }
                    1 => self.common(w, s, ctx, 2),
                    _ => self.common(w, s, ctx, 1),
                }
            }
        }
    }
    pub fn common(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx, k: usize) -> WRes<()> {
        let v5 = w.m.v5();
        let und = w.m.ver == Ver::Und;
        match k {
            0 => {
                // identifier management
                let held: Vec<u32> = w.m.held.iter().copied().collect();
                match s.weighted(&[4, 3, 4, 2]) {
                    0 => w.op(ctx, Op::Acquire)?,
                    1 => {
                        let id = *s.pick(&[0u32, 1, 2, 3, 4, 5, 6, 65535, 65536, u32::MAX]);
                        let id = if self.wide { id } else { id & 65535 };
                        w.op(ctx, Op::Register(id))?
                    }
                    2 if !held.is_empty() => w.op(ctx, Op::Release(*s.pick(&held)))?,
                    _ => {
                        // a free one, or 0
                        let id = *s.pick(&[0u32, 1, 2, 3, 7, 40000, 65535, u32::MAX]);
                        let id = if self.wide { id } else { id & 65535 };
                        if w.m.in_use.contains(&id) && !w.m.held.contains(&id) {
                            return Ok(());
                        }
                        w.op(ctx, Op::Release(id))?
                    }
                };
                Ok(())
            }
            1 => {
                let b = s.bool();
                let op = match s.draw(7) {
                    0 => Op::AutoPub(b),
                    1 => Op::AutoPing(b),
                    2 => Op::AutoMap(b),
                    3 => Op::AutoRepl(b),
                    4 => Op::RespTo(*s.pick(&[0u64, 1, 5000, 1 << 32, u64::MAX])),
                    5 => Op::Interval(*s.pick(&[None, Some(0u64), Some(1), Some(7000), Some(65_536_000), Some(u64::MAX)])),
                    _ => {
                        if w.closing || (!b && w.m.st == St::Disc) {
                            return Ok(());
                        }
                        Op::Offline(b)
                    }
                };
                w.op(ctx, op)?;
                Ok(())
            }
            2 => {
                let c: Vec<Tk> = TKS.iter().enumerate().filter(|x| w.armed[x.0]).map(|x| *x.1).collect();
                if c.is_empty() {
                    return Ok(());
                }
                let t = *s.pick(&c);
                w.op(ctx, Op::Timer(t))?;
                Ok(())
            }
            3 => self.wrong(w, s, ctx),
            4 => {
                // a packet the remote side never sends to this role, or a second CONNECT / CONNACK
                let ver = if und { s.bool() } else { v5 };
                let t = if w.m.st == St::Conned && s.bool() {
                    *s.pick(&[1u8, 2])
                } else {
                    *s.pick(&[1u8, 2, 8, 9, 10, 11, 12, 13, 14, 15])
                };
                if und && t == 1 {
                    // an unknown protocol level
                    let c = self.connect(s, ver);
                    let mut f = encode(&c, self.wide);
                    if let Some(i) = f.iter().skip(1).position(|b| b & 0x80 == 0) {
                        if let Some(l) = f.get_mut(i + 2 + 6) {
                            *l = *s.pick(&[0u8, 3, 6, 255]);
                        }
                    }
                    return self.deliver(w, s, ctx, f);
                }
                let bad = !role_may_recv(w.m.role, t, w.m.ver);
                let second = (t == 1 && w.m.st != St::Disc) || (t == 2 && (w.m.st == St::Conned || (w.m.st == St::Conning && !w.m.is_client)));
                if !bad && !second && !und {
                    return Ok(());
                }
                let f = if t == 1 {
                    encode(&self.connect(s, ver), self.wide)
                } else if t == 15 {
                    encode(&self.any_packet(s, 15, true), self.wide)
                } else {
                    encode(&self.any_packet(s, t, ver), self.wide)
                };
                self.deliver(w, s, ctx, f)
            }
            5 => {
                let f = self.junk(w, s);
                self.deliver(w, s, ctx, f)
            }
            6 => {
                let ids: Vec<u32> = w.m.store.iter().filter_map(|p| p.pid()).collect();
                let id = if !ids.is_empty() && has(s, 80) { *s.pick(&ids) } else { s.range(1, 6) };
                w.op(ctx, Op::Erase(id))?;
                Ok(())
            }
            7 => {
                self.rest.clear();
                w.restart(s.draw(6), ctx)
            }
            9 => self.regulate(w, s, ctx),
            _ => {
                let r = std::mem::take(&mut self.rest);
                if r.is_empty() {
                    return Ok(());
                }
                w.op(ctx, Op::Recv(r, vec![]))?;
                Ok(())
            }
        }
    }
    /// What an application does that keeps its own copy of a message it publishes.
    fn regulate(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
        let mut props = self.publish_props(s, true);
        let mut topic = self.topics[s.draw(self.topics.len() as u32) as usize].clone();
        if has(s, 85) {
            let bound: Vec<u16> = w.m.tx_alias.keys().copied().collect();
            let a = if !bound.is_empty() && has(s, 85) { *s.pick(&bound) } else { *s.pick(&[1u16, 2, 3, 65535]) };
            self.alias_prop(s, &mut props, a);
            if has(s, 70) {
                topic = String::new();
            }
        }
        let qos = s.weighted(&[1, 3, 3]) as u8;
        let payload = self.payload(s);
        let pid = if qos > 0 { Some(s.range(1, 9)) } else { None };
        let p = Pk::Publish(Box::new(PublishP { v5: true, dup: s.bool(), qos, retain: s.bool(), topic, pid, props, payload }));
        w.op(ctx, Op::Regulate(p))?;
        Ok(())
    }
    /// A send that the rules refuse in this state, for this role or version (or nothing special).
    fn wrong(&mut self, w: &mut World, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
        let v5 = w.m.v5();
        let o5 = if has(s, 25) { !v5 } else { v5 };
        let t = s.range(1, if o5 { 15 } else { 14 }) as u8;
        let mut p = if t == 1 { self.connect(s, o5) } else { self.any_packet(s, t, o5) };
        let fresh = self.new_id(w, s, ctx)?;
        match &mut p {
            Pk::Publish(q) => {
                q.dup = false;
                if q.qos > 0 {
                    q.pid = Some(fresh);
                }
                if q.topic.len() > 200 {
                    q.topic = "t".into();
                }
                q.props.retain(|x| x.id != 0x23);
                if q.topic.is_empty() {
                    q.topic = "e".into();
                }
            }
            Pk::Subscribe { pid, .. } | Pk::Unsubscribe { pid, .. } => *pid = fresh,
            Pk::Ack { kind: 6, pid, .. } => {
                // of an exchange that waits for it, or of a free identifier
                match w.m.exch.iter().find(|e| *e.1 == Ex::Limbo) {
                    Some(e) => *pid = *e.0,
                    None => {
                        *pid = 77;
                        if w.m.in_use.contains(&77) {
                            return Ok(());
                        }
                    }
                }
            }
            Pk::Disconnect { props: Some(ps), .. } => ps.retain(|p| p.id != 0x11),
            _ => {}
        }
        if matches!(p, Pk::Ack { kind: 4 | 5 | 7, .. }) && w.m.st == St::Conned && w.m.ver.is(o5) {
            // answering what was never received is not correct use
            return Ok(());
        }
        if t == 2 && w.m.is_client && w.m.st == St::Conning {
            // the Any role cannot know that it is not a server; not correct use
            return Ok(());
        }
        if w.refusals(&p).is_empty() && matches!(p.ptype(), 1 | 2 | 14) && has(s, 70) {
            return Ok(());
        }
        self.send(w, s, ctx, p)
    }
}

pub fn pick_env(s: &mut Src, p: &Prof) -> (Role, Ver, bool) {
    let role = p.role.unwrap_or_else(|| [Role::Client, Role::Server, Role::Any][s.weighted(&[4, 4, 2])]);
    let ver = p.ver.unwrap_or_else(|| [Ver::V5, Ver::V3][s.weighted(&[6, 4])]);
    let ver = if p.und && role != Role::Client && s.chance(1, 3) { Ver::Und } else { ver };
    let wide = s.chance(1, 4);
    (role, ver, wide)
}
/// Draws options and a history.
pub fn world(target: &'static str, s: &mut Src, ctx: &mut Ctx, prof: &Prof) -> WRes<(World, Gen)> {
    let (mut w, mut g) = start(target, s, ctx, prof)?;
    steps(&mut w, &mut g, s, ctx, prof.steps)?;
    Ok((w, g))
}
pub fn start(target: &'static str, s: &mut Src, ctx: &mut Ctx, prof: &Prof) -> WRes<(World, Gen)> {
    let (role, ver, wide) = pick_env(s, prof);
    let mut w = World::new(target, role, ver, wide);
    let mut g = Gen::new(s, prof.clone(), wide);
    ctx.log(|| format!("{role:?} {ver:?} {} bit identifiers", if wide { 32 } else { 16 }));
    options(&mut w, &mut g, s, ctx)?;
    Ok((w, g))
}
pub fn steps(w: &mut World, g: &mut Gen, s: &mut Src, ctx: &mut Ctx, n: (u32, u32)) -> WRes<()> {
    // every step decides inside its own span whether it happens: deleting one leaves the others
    let mean = [n.1 / 2, n.1 * 3, n.1 / 4][s.weighted(&[4, 4, 2])].max(2);
    let mut k = 0;
    while k < n.1 && !s.exhausted() {
        s.begin();
        let stop = s.draw(mean) == 0 && k >= n.0;
        let r = if stop { Ok(()) } else { g.step(w, s, ctx) };
        s.end();
        r?;
        if stop {
            break;
        }
        k += 1;
    }
    Ok(())
}
pub fn options(w: &mut World, g: &mut Gen, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
    let p = &g.p;
    let auto = s.bool();
    let ping = s.bool();
    let (map, repl) = match s.weighted(&[50, p.aliases, p.aliases / 2, p.aliases / 6]) {
        0 => (false, false),
        1 => (true, false),
        2 => (false, true),
        _ => (true, true),
    };
    let off = has(s, p.offline);
    let resp = if has(s, 40) { *s.pick(&[1u64, 3000]) } else { 0 };
    let user = if has(s, 20) { Some(*s.pick(&[0u64, 1, 7000])) } else { None };
    for (c, o) in [
        (auto, Op::AutoPub(auto)),
        (ping, Op::AutoPing(ping)),
        (map, Op::AutoMap(map)),
        (repl, Op::AutoRepl(repl)),
        (off, Op::Offline(off)),
        (resp > 0, Op::RespTo(resp)),
        (user.is_some(), Op::Interval(user)),
    ] {
        if c {
            w.op(ctx, o)?;
        }
    }
    Ok(())
}
/// Runs a history and ends it: identifiers probed, transport closed, probed again.
pub fn finish(w: &mut World, g: &mut Gen, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
    let _ = s;
    let ids: Vec<u32> = (0..=9).chain([77, 255, 256, 65535]).chain(if w.m.wide { vec![65536, u32::MAX] } else { vec![] }).collect();
    w.probe(ctx, &ids)?;
    g.close(w, ctx)?;
    w.probe(ctx, &ids)?;
    if w.target == "C08" {
        // every identifier that is left, those of stored exchanges included, can be given back once
        for id in w.m.in_use.iter().copied().take(20).collect::<Vec<_>>() {
            w.op(ctx, Op::Release(id))?;
            w.op(ctx, Op::Release(id))?;
        }
        w.probe(ctx, &ids)?;
    }
    Ok(())
}
pub fn to_res(r: WRes<()>) -> Res {
    match r {
        Ok(()) | Err(Stop::Quiet) => Ok(()),
        Err(Stop::Fail(f)) => Err(f),
    }
}
