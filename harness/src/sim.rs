//! Two endpoints connected by two byte queues: workloads from both sides, arbitrary delivery,
//! transport losses, resumed sessions, process deaths.  The oracle is end to end: what was
//! accepted against what was notified, and the state both sides are left in.

use crate::conn::*;
use crate::engine::*;
use crate::model::alias_of;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct SimCfg {
    pub target: &'static str,
    pub restarts: bool,
    pub steps: u32,
}
struct Msg {
    from: usize,
    qos: u8,
    topic: String,
    retain: bool,
    props: Props,
    seen: u32,
    losses_at_accept: u32,
    payload: Vec<u8>,
}
struct Side {
    ep: Box<dyn Ep>,
    role: Role,
    auto_pub: bool,
    auto_ping: bool,
    offline: bool,
    map: bool,
    repl: bool,
    resp_to: u64,
    rm: Option<u16>,
    mps: Option<u32>,
    tam: u16,
    /// responses the application still has to give
    pending: Vec<Pk>,
    /// identifiers the application acquired and that were not announced as released
    ids: BTreeSet<u32>,
    connected: bool,
    session: bool,
    bound: BTreeMap<u16, String>,
    armed_psend: bool,
    closed: bool,
    /// an export that a server restores once it knows the client
    waiting: Option<(Vec<Pk>, BTreeSet<u32>)>,
}
pub struct Sim {
    cfg: SimCfg,
    v5: bool,
    wide: bool,
    persist: bool,
    side: [Side; 2],
    /// q[i]: bytes sent by side i
    q: [Vec<u8>; 2],
    dead: bool,
    msgs: Vec<Msg>,
    by_payload: BTreeMap<Vec<u8>, usize>,
    losses: u32,
    restarts: u32,
    seq: u32,
    conns: u32,
    dup_resumes: u32,
    resent: u32,
    responses: u32,
}
const CL: usize = 0;
const SV: usize = 1;

fn name(i: usize) -> &'static str {
    ["client", "server"][i]
}
fn new_side(s: &mut Src, i: usize, v5: bool, wide: bool) -> Side {
    let role = if s.chance(1, 5) {
        Role::Any
    } else if i == CL {
        Role::Client
    } else {
        Role::Server
    };
    let ver = if i == SV && s.chance(1, 4) {
        Ver::Und
    } else if v5 {
        Ver::V5
    } else {
        Ver::V3
    };
    let (map, repl) = match s.weighted(&[4, 2, 2]) {
        0 => (false, false),
        1 => (true, false),
        _ => (false, true),
    };
    let mut x = Side {
        ep: make(role, ver, wide),
        role,
        auto_pub: !s.bool(),
        auto_ping: !s.bool(),
        offline: s.chance(1, 4),
        map,
        repl,
        resp_to: if s.chance(1, 3) { 1000 } else { 0 },
        rm: if s.chance(1, 2) { Some(*s.pick(&[1u16, 2, 3, 5, 65535])) } else { None },
        mps: if s.chance(1, 3) { Some(*s.pick(&[100u32, 127, 150, 300])) } else { None },
        tam: if s.bool() { *s.pick(&[1u16, 2, 3, 10]) } else { 0 },
        pending: vec![],
        ids: BTreeSet::new(),
        connected: false,
        session: false,
        bound: BTreeMap::new(),
        armed_psend: false,
        closed: true,
        waiting: None,
    };
    apply_options(&mut x);
    x
}
fn apply_options(x: &mut Side) {
    if x.offline {
        x.ep.offline(true);
    }
    x.ep.auto_pub(x.auto_pub);
    x.ep.auto_ping(x.auto_ping);
    x.ep.auto_map(x.map);
    x.ep.auto_repl(x.repl);
    x.ep.resp_to(x.resp_to);
}

/// Length of the first packet of a stream of whole packets.
fn packet_len(b: &[u8]) -> usize {
    let (mut n, mut i) = (0usize, 0);
    while i < 4 && i + 1 < b.len() {
        n |= (b[i + 1] as usize & 0x7f) << (7 * i);
        i += 1;
        if b[i] & 0x80 == 0 {
            return i + 1 + n;
        }
    }
    b.len()
}
fn restore(x: &mut Side, stored: &[Pk], handled: &BTreeSet<u32>) {
    x.ep.restore_packets(stored);
    x.ep.restore_handled(handled);
    x.ids = stored.iter().filter_map(|p| p.pid()).collect();
}

macro_rules! bad {
    ($s:expr, $sig:expr, $($a:tt)*) => { return Err(Fail::new(format!("{}/{}", $s.cfg.target, $sig), format!($($a)*))) };
}

/// A step of the exhaustive variant.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Publish(usize, u8),
    /// the next packet sent by this side arrives
    Deliver(usize),
    Respond(usize),
    /// the transport is lost; which sides die; whether the beginning of a packet still arrives
    Lose([bool; 2], bool),
    Connect,
}

impl Sim {
    /// Two endpoints with a persistent session, connected.  `x` chooses what does not change what
    /// is possible.
    pub fn small(cfg: SimCfg, v5: bool, manual: [bool; 2], x: u64, ctx: &mut Ctx) -> Result<Sim, Fail> {
        let side = |i: usize| {
            let y = x >> (16 * i);
            let role = if y % 5 == 0 { Role::Any } else { [Role::Client, Role::Server][i] };
            let mut z = Side {
                ep: make(
                    role,
                    if i == SV && y / 5 % 3 == 0 {
                        Ver::Und
                    } else if v5 {
                        Ver::V5
                    } else {
                        Ver::V3
                    },
                    x >> 40 & 3 == 0,
                ),
                role,
                auto_pub: !manual[i],
                auto_ping: true,
                offline: y / 15 % 2 == 0,
                map: y / 30 % 3 == 0,
                repl: y / 30 % 3 == 1,
                resp_to: 0,
                rm: [None, Some(1), Some(2)][(y / 90 % 3) as usize],
                mps: None,
                tam: (y / 270 % 3) as u16,
                pending: vec![],
                ids: BTreeSet::new(),
                connected: false,
                session: false,
                bound: BTreeMap::new(),
                armed_psend: false,
                closed: true,
                waiting: None,
            };
            apply_options(&mut z);
            z
        };
        let (a, b) = (side(CL), side(SV));
        ctx.log(|| {
            let d = |x: &Side| format!("{:?} auto_pub={} offline={} alias map={} replace={} rm={:?} tam={}", x.role, x.auto_pub, x.offline, x.map, x.repl, x.rm, x.tam);
            format!("v5={v5} wide={}; client: {}; server: {} ({:?})", x >> 40 & 3 == 0, d(&a), d(&b), b.ep.version())
        });
        let mut w = Sim {
            cfg,
            v5,
            wide: x >> 40 & 3 == 0,
            persist: true,
            side: [a, b],
            q: [vec![], vec![]],
            dead: true,
            msgs: vec![],
            by_payload: BTreeMap::new(),
            losses: 0,
            restarts: 0,
            seq: 0,
            conns: 0,
            dup_resumes: 0,
            resent: 0,
            responses: 0,
        };
        w.connect(ctx, None)?;
        let n = w.q[CL].len();
        w.deliver(CL, n, ctx)?;
        let n = w.q[SV].len();
        w.deliver(SV, n, ctx)?;
        Ok(w)
    }
    pub fn choices(&self) -> Vec<Step> {
        let mut v = vec![];
        for i in 0..2 {
            let x = &self.side[i];
            let room = self.side[1 - i].rm.filter(|_| self.v5).is_none_or(|r| x.ep.stored().len() < r as usize);
            if x.waiting.is_none() && room && (x.connected || x.session) {
                v.push(Step::Publish(i, 2));
                v.push(Step::Publish(i, 1));
            }
            if !self.q[i].is_empty() {
                v.push(Step::Deliver(i));
            }
            let can = |p: &Pk| x.connected || (matches!(p, Pk::Ack { kind: 6, .. }) && x.session);
            if x.pending.first().is_some_and(can) {
                v.push(Step::Respond(i));
            }
        }
        if self.dead {
            v.push(Step::Connect);
        } else {
            v.push(Step::Lose([false, false], false));
            if self.cfg.restarts {
                v.push(Step::Lose([true, false], true));
                v.push(Step::Lose([false, true], false));
                v.push(Step::Lose([true, true], false));
            } else {
                v.push(Step::Lose([false, false], true));
            }
        }
        v
    }
    pub fn act(&mut self, a: Step, x: u64, ctx: &mut Ctx) -> Res {
        match a {
            Step::Publish(i, qos) => {
                self.seq += 1;
                let topic = ["a", "b"][(self.seq as u64 / 2 + x) as usize % 2];
                let pid = match self.side[i].ep.acquire() {
                    Ok(id) => id,
                    Err(e) => bad!(self, "acquire", "{} cannot acquire an identifier with {} in use: {e}", name(i), self.side[i].ids.len()),
                };
                if !self.side[i].ids.insert(pid) {
                    bad!(self, "acquire", "{} acquires the identifier {pid}, which is in use", name(i));
                }
                let payload = format!("{}{}q{qos}", ["c", "s"][i], self.seq).into_bytes();
                let q = PublishP { v5: self.v5, dup: false, qos, retain: false, topic: topic.into(), pid: Some(pid), props: vec![], payload };
                self.offer(i, q, topic.into(), x % 3 == 0, ctx)
            }
            Step::Deliver(i) => {
                let n = packet_len(&self.q[i]);
                self.deliver(i, n, ctx)
            }
            Step::Respond(i) => self.respond_at(i, 0, None, ctx),
            Step::Lose(restart, part) => {
                if part {
                    for i in 0..2 {
                        let n = packet_len(&self.q[i]);
                        if n > 1 {
                            self.deliver(i, 1 + (x as usize / 3) % (n - 1), ctx)?;
                        }
                    }
                }
                self.losses += 1;
                self.q = [vec![], vec![]];
                self.dead = true;
                let first = (x / 64) as usize % 2;
                for i in [first, 1 - first] {
                    self.gone(i, restart[i], x / 128 % 2 == 0, ctx)?;
                }
                Ok(())
            }
            Step::Connect => self.connect(ctx, None),
        }
    }
    pub fn finish(&mut self, ctx: &mut Ctx) -> Res {
        self.quiesce(ctx)?;
        ctx.nontrivial = !self.msgs.is_empty();
        Ok(())
    }

    pub fn run(cfg: SimCfg, s: &mut Src, ctx: &mut Ctx) -> Res {
        let v5 = s.chance(3, 5);
        let wide = s.chance(1, 4);
        let persist = s.chance(4, 5) || cfg.restarts;
        let a = new_side(s, CL, v5, wide);
        let b = new_side(s, SV, v5, wide);
        ctx.log(|| {
            let d = |x: &Side| {
                format!(
                    "{:?} auto_pub={} auto_ping={} offline={} alias map={} replace={} rm={:?} mps={:?} tam={}",
                    x.role, x.auto_pub, x.auto_ping, x.offline, x.map, x.repl, x.rm, x.mps, x.tam
                )
            };
            format!("v5={v5} wide={wide} persistent={persist}; client: {}; server: {} ({:?})", d(&a), d(&b), b.ep.version())
        });
        let steps = cfg.steps;
        let mut w = Sim {
            cfg,
            v5,
            wide,
            persist,
            side: [a, b],
            q: [vec![], vec![]],
            dead: true,
            msgs: vec![],
            by_payload: BTreeMap::new(),
            losses: 0,
            restarts: 0,
            seq: 0,
            conns: 0,
            dup_resumes: 0,
            resent: 0,
            responses: 0,
        };
        let loss = if persist { *s.pick(&[0u32, 1, 3, 6]) } else { 0 };
        let mean = *s.pick(&[20u32, 60, 150]);
        let weights = [s.range(2, 12), s.range(2, 12), s.range(8, 30), s.range(8, 30), s.range(4, 20), s.range(4, 20), loss, s.range(0, 3), s.range(0, 2)];
        for k in 0..steps {
            if s.exhausted() {
                break;
            }
            s.begin();
            let stop = s.draw(mean) == 0 && k > 5;
            let r = if stop { Ok(()) } else { w.step(s, ctx, &weights) };
            s.end();
            r?;
            if stop {
                break;
            }
        }
        w.quiesce(ctx)?;
        ctx.nontrivial = w.msgs.iter().any(|m| m.qos > 0) && w.msgs.len() >= 2;
        for (c, l) in [
            (v5, "v5.0"),
            (!v5, "v3.1.1"),
            (persist, "persistent"),
            (w.losses > 0, "transport lost"),
            (w.losses > 2, "transport lost more than twice"),
            (w.restarts > 0, "process died"),
            (w.resent > 0, "retransmission"),
            (w.responses > 0, "manual responses"),
            (w.msgs.len() > 10, "over 10 messages"),
            (w.msgs.iter().any(|m| m.qos == 2 && m.from == SV), "server QoS 2"),
            (w.msgs.iter().any(|m| m.qos == 1 && m.seen > 1), "QoS 1 delivered again"),
            (w.msgs.iter().any(|m| m.qos == 2 && m.losses_at_accept < w.losses), "QoS 2 across a loss"),
        ] {
            if c {
                ctx.label(l);
            }
        }
        Ok(())
    }

    fn step(&mut self, s: &mut Src, ctx: &mut Ctx, w: &[u32; 9]) -> Res {
        if self.dead {
            // maybe something offline first
            if s.chance(1, 3) {
                let i = s.draw(2) as usize;
                return if s.bool() { self.publish(i, s, ctx) } else { self.respond(i, s, ctx) };
            }
            return self.connect(ctx, Some(s));
        }
        match s.weighted(w) {
            0 => self.publish(CL, s, ctx),
            1 => self.publish(SV, s, ctx),
            k @ 2..=3 => {
                let i = k - 2;
                let n = self.q[i].len();
                if n == 0 {
                    return Ok(());
                }
                let k = match s.weighted(&[3, 2, 2]) {
                    0 => n,
                    1 => s.range(1, n as u32) as usize,
                    _ => s.range(1, n.min(6) as u32) as usize,
                };
                self.deliver(i, k, ctx)
            }
            k @ 4..=5 => self.respond(k - 4, s, ctx),
            6 => self.lose(s, ctx),
            7 => self.subscribe(s, ctx),
            _ => self.ping(s, ctx),
        }
    }

    // ------------------------------------------------------------ events of one side
    fn events(&mut self, i: usize, what: &str, evs: &[Ev], from_peer: bool, ctx: &mut Ctx) -> Res {
        ctx.log(|| format!("{} {what} -> {}", name(i), show_evs(evs)));
        let o = 1 - i;
        for e in evs {
            match e {
                Ev::Send { bytes, pk, .. } => {
                    if !self.side[i].closed && !self.dead {
                        self.q[i].extend_from_slice(bytes);
                    }
                    if matches!(pk, Pk::Publish(q) if q.dup) || (from_peer && matches!(pk, Pk::Ack { kind: 6, .. })) {
                        self.resent += 1;
                    }
                }
                Ev::Released(id) => {
                    if !self.side[i].ids.remove(id) {
                        bad!(self, "released", "{} announces the release of identifier {id}, which is not in use ({what}: {})", name(i), show_evs(evs));
                    }
                }
                Ev::Error(e) if from_peer => bad!(self, "error", "{} reports {e} about its peer ({what}: {})", name(i), show_evs(evs)),
                Ev::Close if from_peer && !evs.iter().any(|e| matches!(e, Ev::Recv { pk: Pk::Disconnect { .. }, .. })) => {
                    bad!(self, "close", "{} closes because of its peer ({what}: {})", name(i), show_evs(evs))
                }
                Ev::Reset(Tk::PSend, _) => self.side[i].armed_psend = true,
                Ev::Cancel(Tk::PSend) => self.side[i].armed_psend = false,
                Ev::Recv { pk, .. } => self.received(i, o, pk, what)?,
                _ => {}
            }
        }
        Ok(())
    }
    fn received(&mut self, i: usize, o: usize, pk: &Pk, what: &str) -> Res {
        let v5 = self.v5;
        match pk {
            Pk::Publish(q) => {
                let Some(k) = self.by_payload.get(&q.payload).copied() else {
                    bad!(self, "unknown-message", "{} is notified of a message nobody sent: {}", name(i), show_pk(pk));
                };
                let losses = self.losses;
                let m = &mut self.msgs[k];
                m.seen += 1;
                let props: Props = q.props.iter().filter(|p| p.id != 0x23).cloned().collect();
                if m.from != o || m.topic != q.topic || m.qos != q.qos || m.retain != q.retain || m.props != props {
                    bad!(self, "content", "{} receives {}, sent was QoS {} topic {:?} props {:?}", name(i), show_pk(pk), m.qos, m.topic, m.props);
                }
                if m.seen > 1 && (m.qos != 1 || losses == 0) {
                    bad!(self, "delivered-twice", "{} is notified {} times of the QoS {} message {}", name(i), m.seen, m.qos, show_pk(pk));
                }
                if !self.side[i].auto_pub && q.qos > 0 {
                    let kind = if q.qos == 1 { 4 } else { 5 };
                    self.side[i].pending.push(Pk::Ack { v5, kind, pid: q.pid.unwrap_or(0), code: None, props: None });
                }
            }
            Pk::Ack { kind: 5, pid, code, .. } => {
                if !self.side[i].auto_pub && code.unwrap_or(0) < 0x80 {
                    self.side[i].pending.push(Pk::Ack { v5, kind: 6, pid: *pid, code: None, props: None });
                }
            }
            Pk::Ack { kind: 6, pid, .. } => {
                if !self.side[i].auto_pub {
                    self.side[i].pending.push(Pk::Ack { v5, kind: 7, pid: *pid, code: None, props: None });
                }
            }
            Pk::Subscribe { pid, .. } => self.side[i].pending.push(Pk::Suback { v5, pid: *pid, props: vec![], codes: vec![0] }),
            Pk::Unsubscribe { pid, .. } => self.side[i].pending.push(Pk::Unsuback { v5, pid: *pid, props: vec![], codes: if v5 { vec![0] } else { vec![] } }),
            Pk::Pingreq { .. } => {
                if !self.side[i].auto_ping {
                    self.side[i].pending.push(Pk::Pingresp { v5 });
                }
            }
            Pk::Connack { code, sp, .. } => {
                if *code != 0 {
                    bad!(self, "connack", "{what}: connection refused with {code}");
                }
                self.side[i].connected = true;
                // what was about to be answered is retransmitted by the library
                self.side[i].pending.clear();
                if self.side[i].session && *sp {
                    self.dup_resumes += 1;
                }
                self.side[i].session = true;
            }
            _ => {}
        }
        Ok(())
    }

    // ------------------------------------------------------------ applications
    fn publish(&mut self, i: usize, s: &mut Src, ctx: &mut Ctx) -> Res {
        let v5 = self.v5;
        let peer_mps = self.side[1 - i].mps.filter(|_| v5).unwrap_or(u32::MAX);
        let peer_rm = self.side[1 - i].rm.filter(|_| v5);
        let peer_tam = if v5 { self.side[1 - i].tam } else { 0 };
        let qos = s.weighted(&[2, 4, 5]) as u8;
        self.seq += 1;
        let topic = s.pick(&["a", "b", "c/d", "e", "topic/0123456789/0123456789/0123456789"]).to_string();
        let mut payload = format!("{}{}q{qos}", ["c", "s"][i], self.seq).into_bytes();
        if s.chance(1, 5) {
            let n = s.range(1, 150) as usize;
            payload.resize(payload.len() + n, b'.');
        }
        let props = if v5 && s.chance(1, 6) { vec![Pr { id: 0x26, v: Pv::Pair("k".into(), "v".into()) }] } else { vec![] };
        let retain = s.chance(1, 8);
        let side = &mut self.side[i];
        if side.waiting.is_some() {
            return Ok(());
        }
        if !side.connected && (!side.session || !self.persist) {
            // a message accepted before there is a session would be dropped with it
            return Ok(());
        }
        if qos > 0 {
            // what is stored is retransmitted at once on resume: it has to fit the peer's limit
            if let Some(rm) = peer_rm {
                if side.ep.stored().len() >= rm as usize {
                    return Ok(());
                }
            }
        }
        let mut pid = None;
        if qos > 0 {
            match side.ep.acquire() {
                Ok(id) => {
                    if !side.ids.insert(id) {
                        bad!(self, "acquire", "{} acquires the identifier {id}, which is in use", name(i));
                    }
                    pid = Some(id);
                }
                Err(e) => bad!(self, "acquire", "{} cannot acquire an identifier with {} in use: {e}", name(i), side.ids.len()),
            }
        }
        let mut q = PublishP { v5, dup: false, qos, retain, topic: topic.clone(), pid, props: props.clone(), payload: payload.clone() };
        let full = encode(&Pk::Publish(Box::new(q.clone())), self.wide).len() as u32 + 3;
        let mut want = topic.clone();
        if v5 && side.connected && !side.map && !side.repl && peer_tam > 0 && full <= peer_mps && s.chance(1, 3) {
            // an alias chosen by the application
            let a = s.range(1, peer_tam.min(3) as u32) as u16;
            if let (Some(t), true) = (side.bound.get(&a), s.bool()) {
                want = t.clone();
                let f2 = encode(&Pk::Publish(Box::new(PublishP { topic: want.clone(), ..q.clone() })), self.wide).len() as u32 + 3;
                if f2 > peer_mps {
                    want = topic.clone();
                } else {
                    q.topic = String::new();
                }
            }
            q.props.push(Pr { id: 0x23, v: Pv::U16(a) });
        }
        if full > peer_mps && (!side.connected || self.dead || side.map || side.repl) {
            if let Some(id) = pid {
                let e = side.ep.release(id);
                self.events(i, "release", &e, false, ctx)?;
            }
            return Ok(());
        }
        let checked = s.chance(1, 6);
        self.offer(i, q, want, checked, ctx)
    }
    fn offer(&mut self, i: usize, q: PublishP, want: String, checked: bool, ctx: &mut Ctx) -> Res {
        let (qos, retain, pid, payload) = (q.qos, q.retain, q.pid, q.payload.clone());
        let props: Props = q.props.iter().filter(|p| p.id != 0x23).cloned().collect();
        let side = &mut self.side[i];
        let p = Pk::Publish(Box::new(q.clone()));
        let evs = if checked { side.ep.checked(&p).flatten() } else { side.ep.send(&p) };
        let Some(evs) = evs else { return Ok(()) };
        // the record comes first: accepting and sending are one call
        let accepted = !evs.iter().any(|e| matches!(e, Ev::Error(_)));
        let sent = evs.iter().any(|e| matches!(e, Ev::Send { .. }));
        if accepted {
            if let (Some(a), false, true) = (alias_of(&q.props), q.topic.is_empty(), sent) {
                side.bound.insert(a, q.topic.clone());
            }
            self.by_payload.insert(payload.clone(), self.msgs.len());
            self.msgs.push(Msg { from: i, qos, topic: want, retain, props, seen: 0, losses_at_accept: self.losses, payload });
        }
        self.events(i, &format!("publishes {}", show_pk(&p)), &evs, false, ctx)?;
        if !accepted {
            // a refused message gives its identifier back
            if let Some(id) = pid {
                if self.side[i].ids.contains(&id) {
                    bad!(self, "refused-id", "{} refuses {} and keeps identifier {id}", name(i), show_pk(&p));
                }
            }
        }
        Ok(())
    }
    fn respond(&mut self, i: usize, s: &mut Src, ctx: &mut Ctx) -> Res {
        let n = self.side[i].pending.len();
        if n == 0 {
            return Ok(());
        }
        let k = if s.bool() { 0 } else { s.draw(n as u32) as usize };
        let code = if self.v5 && self.losses == 0 && s.chance(1, 12) { Some(0x80u8) } else { None };
        self.respond_at(i, k, code, ctx)
    }
    fn respond_at(&mut self, i: usize, k: usize, fail: Option<u8>, ctx: &mut Ctx) -> Res {
        let side = &mut self.side[i];
        let mut p = side.pending[k].clone();
        if !side.connected && !(matches!(p, Pk::Ack { kind: 6, .. }) && self.persist && side.session) {
            return Ok(());
        }
        side.pending.remove(k);
        if !self.persist {
            // an error code is only given where no loss can follow
            if let (Pk::Ack { kind: 4 | 5, code, .. }, Some(f)) = (&mut p, fail) {
                *code = Some(f);
            }
        }
        let evs = side.ep.send(&p).unwrap_or_default();
        self.responses += 1;
        let ok = !evs.iter().any(|e| matches!(e, Ev::Error(_)));
        self.events(i, &format!("answers {}", show_pk(&p)), &evs, false, ctx)?;
        if !ok {
            bad!(self, "answer-refused", "{} cannot send {}: {}", name(i), show_pk(&p), show_evs(&evs));
        }
        Ok(())
    }
    fn subscribe(&mut self, s: &mut Src, ctx: &mut Ctx) -> Res {
        let side = &mut self.side[CL];
        if !side.connected {
            return Ok(());
        }
        let Ok(id) = side.ep.acquire() else {
            return Ok(());
        };
        side.ids.insert(id);
        let p = if s.bool() {
            Pk::Subscribe { v5: self.v5, pid: id, props: vec![], entries: vec![("a/#".into(), 2)] }
        } else {
            Pk::Unsubscribe { v5: self.v5, pid: id, props: vec![], filters: vec!["a/#".into()] }
        };
        let evs = side.ep.send(&p).unwrap_or_default();
        self.events(CL, &show_pk(&p), &evs, false, ctx)
    }
    fn ping(&mut self, s: &mut Src, ctx: &mut Ctx) -> Res {
        let side = &mut self.side[CL];
        if !side.connected {
            return Ok(());
        }
        if side.armed_psend && s.bool() {
            side.armed_psend = false;
            let evs = side.ep.timer(Tk::PSend);
            return self.events(CL, "PINGREQ timer fires", &evs, false, ctx);
        }
        let evs = side.ep.send(&Pk::Pingreq { v5: self.v5 }).unwrap_or_default();
        self.events(CL, "PINGREQ", &evs, false, ctx)
    }

    // ------------------------------------------------------------ transport
    fn deliver(&mut self, i: usize, n: usize, ctx: &mut Ctx) -> Res {
        let o = 1 - i;
        let b: Vec<u8> = self.q[i].drain(..n).collect();
        let mut pos = 0;
        while pos < b.len() {
            let (evs, k) = self.side[o].ep.recv(&b, pos);
            if k <= pos {
                bad!(self, "no-progress", "{} does not take the bytes {}", name(o), hex(&b[pos..]));
            }
            let what = format!("receives {}", hex(&b[pos..k]));
            pos = k;
            self.events(o, &what, &evs, true, ctx)?;
            // a server answers a CONNECT
            if evs.iter().any(|e| matches!(e, Ev::Recv { pk: Pk::Connect(_), .. })) {
                self.accept(ctx)?;
            }
        }
        Ok(())
    }
    fn limits(&self, i: usize) -> Props {
        let x = &self.side[i];
        let mut ps = vec![];
        if let Some(v) = x.rm {
            ps.push(Pr { id: 0x21, v: Pv::U16(v) });
        }
        if let Some(v) = x.mps {
            ps.push(Pr { id: 0x27, v: Pv::U32(v) });
        }
        if x.tam > 0 {
            ps.push(Pr { id: 0x22, v: Pv::U16(x.tam) });
        }
        ps
    }
    fn connect(&mut self, ctx: &mut Ctx, s: Option<&mut Src>) -> Res {
        self.q = [vec![], vec![]];
        self.dead = false;
        self.conns += 1;
        for x in &mut self.side {
            x.closed = false;
        }
        let mut props = vec![];
        if self.v5 {
            props = self.limits(CL);
            if self.persist {
                props.push(Pr { id: 0x11, v: Pv::U32(u32::MAX) });
            }
        }
        let (mut clean, mut ka) = (!self.persist, 0);
        if let Some(s) = s {
            if self.v5 && self.conns > 1 && s.chance(1, 3) {
                // another connection, other limits: never smaller ones, what is stored has to fit
                for x in &mut self.side {
                    x.tam = *s.pick(&[0u16, 1, 2, 3, 10, 65535]);
                    x.rm = match (x.rm, s.draw(3)) {
                        (r, 0) => r,
                        (Some(r), 1) => Some(r.saturating_add(s.range(1, 4) as u16)),
                        _ => None,
                    };
                    x.mps = match (x.mps, s.draw(3)) {
                        (m, 0) => m,
                        (Some(m), 1) => Some(m + s.range(1, 100)),
                        _ => None,
                    };
                }
                props = self.limits(CL);
                props.push(Pr { id: 0x11, v: Pv::U32(u32::MAX) });
            }
            if self.v5 && !self.side[CL].session && !self.side[SV].session {
                clean = s.bool();
            }
            ka = if s.bool() { 10 } else { 0 };
        }
        let c = Pk::Connect(Box::new(ConnectP { v5: self.v5, clean, keep_alive: ka, client_id: "sim".into(), will: None, user: None, pass: None, props }));
        let evs = self.side[CL].ep.send(&c).unwrap_or_default();
        let ok = evs.iter().any(|e| matches!(e, Ev::Send { .. }));
        self.events(CL, "CONNECT", &evs, false, ctx)?;
        if !ok {
            bad!(self, "connect", "the client cannot connect: {}", show_evs(&evs));
        }
        Ok(())
    }
    fn accept(&mut self, ctx: &mut Ctx) -> Res {
        let sp = self.side[SV].session;
        let props = if self.v5 { self.limits(SV) } else { vec![] };
        let a = Pk::Connack { v5: self.v5, sp, code: 0, props };
        let x = &mut self.side[SV];
        x.connected = true;
        x.session = self.persist;
        x.pending.clear();
        if let Some((stored, handled)) = x.waiting.take() {
            restore(x, &stored, &handled);
        }
        let evs = x.ep.send(&a).unwrap_or_default();
        let ok = evs.iter().any(|e| matches!(e, Ev::Send { .. }));
        self.events(SV, &format!("CONNACK sp={sp}"), &evs, false, ctx)?;
        if !ok {
            bad!(self, "accept", "the server cannot accept: {}", show_evs(&evs));
        }
        Ok(())
    }
    fn lose(&mut self, s: &mut Src, ctx: &mut Ctx) -> Res {
        // a prefix of what is in flight still arrives
        for i in 0..2 {
            let n = self.q[i].len();
            if n > 0 && s.bool() {
                let k = s.range(1, n as u32) as usize;
                self.deliver(i, k, ctx)?;
            }
        }
        if s.chance(1, 5) && self.side[CL].connected {
            let evs = self.side[CL].ep.send(&Pk::Disconnect { v5: self.v5, code: None, props: None }).unwrap_or_default();
            self.events(CL, "DISCONNECT", &evs, false, ctx)?;
            self.side[CL].connected = false;
            if s.bool() {
                let n = self.q[CL].len();
                self.deliver(CL, n, ctx)?;
            }
        }
        self.losses += 1;
        let lost = self.q[CL].len() + self.q[SV].len();
        ctx.log(|| format!("--- the transport is lost with {lost} bytes in flight"));
        self.q = [vec![], vec![]];
        self.dead = true;
        let first = s.draw(2) as usize;
        let restart = [self.cfg.restarts && s.chance(1, 2), self.cfg.restarts && s.chance(1, 2)];
        let late = s.chance(1, 3);
        self.gone(first, restart[first], late, ctx)?;
        // the other side notices later
        for _ in 0..s.draw(4) {
            if s.bool() {
                self.publish(1 - first, s, ctx)?;
            } else {
                self.respond(1 - first, s, ctx)?;
            }
        }
        self.gone(1 - first, restart[1 - first], late, ctx)
    }
    fn gone(&mut self, i: usize, restart: bool, late: bool, ctx: &mut Ctx) -> Res {
        let x = &mut self.side[i];
        x.connected = false;
        x.closed = true;
        x.bound.clear();
        x.armed_psend = false;
        x.pending.retain(|p| matches!(p, Pk::Ack { kind: 6, .. }));
        if restart && x.session && x.waiting.is_none() {
            self.restarts += 1;
            let (stored, handled) = (x.ep.stored(), x.ep.handled());
            ctx.log(|| format!("{}: the process dies and restores {} packets and handled ids {handled:?}", name(i), stored.len()));
            let late = late && i == SV;
            let ver = match (late, self.v5) {
                (true, _) => Ver::Und,
                (false, true) => Ver::V5,
                (false, false) => Ver::V3,
            };
            x.ep = make(x.role, ver, self.wide);
            apply_options(x);
            x.ids.clear();
            x.pending.clear();
            if late {
                // the server learns who the client is from the CONNECT
                x.waiting = Some((stored, handled));
                return Ok(());
            }
            restore(x, &stored, &handled);
            return Ok(());
        }
        let evs = x.ep.closed();
        self.events(i, "transport closed", &evs, false, ctx)
    }

    /// No more workload: everything is delivered and answered.
    fn quiesce(&mut self, ctx: &mut Ctx) -> Res {
        ctx.log(|| "--- no more workload".into());
        if self.dead {
            if self.conns == 0 {
                return Ok(());
            }
            self.connect(ctx, None)?;
        }
        let limit = 400 + 60 * self.msgs.len();
        let mut n = 0;
        loop {
            let mut idle = true;
            for i in 0..2 {
                let k = self.q[i].len();
                if k > 0 {
                    idle = false;
                    self.deliver(i, k, ctx)?;
                }
                while self.side[i].connected && !self.side[i].pending.is_empty() {
                    idle = false;
                    self.respond_at(i, 0, None, ctx)?;
                    n += 1;
                    if n > limit {
                        break;
                    }
                }
            }
            if idle {
                break;
            }
            n += 1;
            if n > limit {
                bad!(self, "endless", "the exchange does not end: {} messages, still talking after {limit} rounds", self.msgs.len());
            }
        }
        for i in 0..2 {
            if !self.side[i].connected {
                bad!(self, "not-connected", "{} is not connected at the end", name(i));
            }
        }
        for m in &self.msgs {
            let ok = match m.qos {
                0 => m.seen <= 1,
                1 => m.seen >= 1,
                _ => m.seen == 1,
            };
            let q0_lossless = m.qos == 0 && self.losses == 0 && m.seen != 1;
            if !ok {
                bad!(
                    self,
                    "not-delivered",
                    "QoS {} message {:?} of the {} on {:?} was notified {} times",
                    m.qos,
                    String::from_utf8_lossy(&m.payload),
                    name(m.from),
                    m.topic,
                    m.seen
                );
            }
            let _ = q0_lossless;
        }
        let rms = [self.side[CL].rm, self.side[SV].rm];
        for i in 0..2 {
            let x = &mut self.side[i];
            let st = x.ep.stored();
            if !st.is_empty() {
                bad!(self, "store", "{} still stores [{}]", name(i), st.iter().map(show_pk).collect::<Vec<_>>().join(", "));
            }
            let h = x.ep.handled();
            if !h.is_empty() {
                bad!(self, "handled", "{} still holds the QoS 2 ids {h:?}", name(i));
            }
            if !x.ids.is_empty() {
                bad!(self, "ids", "{} did not release the identifiers {:?}", name(i), x.ids);
            }
            let want = if self.v5 { rms[1 - i] } else { None };
            let v = x.ep.vacancy();
            if v != want {
                bad!(self, "vacancy", "{} has vacancy {v:?}, the peer's Receive Maximum is {want:?}", name(i));
            }
            for id in 1..=12 {
                if !x.ep.register(id) {
                    bad!(self, "ids", "{}: identifier {id} is in use at the end", name(i));
                }
                x.ep.release(id);
            }
        }
        Ok(())
    }
}
