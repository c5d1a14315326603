//! Reference model of a connection: what the MQTT rules (and the documented API contract) say
//! each call has to do.  `World` drives a real connection through `Ep`, predicts every call with
//! the model, and turns differences into violations tagged with the properties they break.
//!
//! The comparison is by content, not by representation: sends in order, the delivered packet,
//! the set of released identifiers, the presence (and where a property names it, the kind) of
//! an error, the close request, the timers; the relative order of other events is only
//! constrained where a property constrains it.

use crate::conn::*;
use crate::engine::*;
use crate::libx::{parse, view};
use crate::spec::{self, *};
use std::collections::{BTreeMap, BTreeSet};

pub type Tags = Vec<&'static str>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Disc,
    Conning,
    Conned,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ex {
    WaitPuback,
    WaitPubrec,
    Limbo,
    WaitPubcomp,
}
pub const NO_LIMIT: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub struct Model {
    pub role: Role,
    pub ver: Ver,
    pub wide: bool,
    // options
    pub offline: bool,
    pub auto_pub: bool,
    pub auto_ping: bool,
    pub auto_map: bool,
    pub auto_repl: bool,
    pub user_int: Option<u64>,
    pub resp_to: u64,
    // connection scope
    pub st: St,
    pub is_client: bool,
    pub ka: u64,
    pub ska: Option<u64>,
    pub recv_to: u64,
    pub mps_send: u64,
    pub mps_recv: u64,
    pub rm_send: Option<u16>,
    pub rm_recv: Option<u16>,
    pub tam_send: u16,
    pub tam_recv: u16,
    pub tx_alias: BTreeMap<u16, String>,
    pub rx_alias: BTreeMap<u16, String>,
    pub out_conn: BTreeSet<u32>,
    pub in_conn: BTreeSet<u32>,
    pub subs: BTreeSet<u32>,
    pub unsubs: BTreeSet<u32>,
    // session scope
    pub persist: bool,
    pub in_use: BTreeSet<u32>,
    pub exch: BTreeMap<u32, Ex>,
    pub store: Vec<Pk>,
    pub handled: BTreeSet<u32>,
    /// ids acquired or registered by the application and not yet given to a packet
    pub held: BTreeSet<u32>,
}

impl Model {
    pub fn new(role: Role, ver: Ver, wide: bool) -> Self {
        Model {
            role,
            ver,
            wide,
            offline: false,
            auto_pub: false,
            auto_ping: false,
            auto_map: false,
            auto_repl: false,
            user_int: None,
            resp_to: 0,
            st: St::Disc,
            is_client: false,
            ka: 0,
            ska: None,
            recv_to: 0,
            mps_send: NO_LIMIT,
            mps_recv: NO_LIMIT,
            rm_send: None,
            rm_recv: None,
            tam_send: 0,
            tam_recv: 0,
            tx_alias: BTreeMap::new(),
            rx_alias: BTreeMap::new(),
            out_conn: BTreeSet::new(),
            in_conn: BTreeSet::new(),
            subs: BTreeSet::new(),
            unsubs: BTreeSet::new(),
            persist: false,
            in_use: BTreeSet::new(),
            exch: BTreeMap::new(),
            store: vec![],
            handled: BTreeSet::new(),
            held: BTreeSet::new(),
        }
    }
    pub fn v5(&self) -> bool {
        self.ver == Ver::V5
    }
    pub fn id_max(&self) -> u32 {
        if self.wide {
            u32::MAX
        } else {
            65535
        }
    }
    pub fn interval(&self) -> u64 {
        self.user_int.or(self.ska).unwrap_or(self.ka)
    }
    fn init_conn(&mut self, is_client: bool) {
        self.rm_send = None;
        self.rm_recv = None;
        self.tam_send = 0;
        self.tam_recv = 0;
        self.tx_alias.clear();
        self.rx_alias.clear();
        self.out_conn.clear();
        self.in_conn.clear();
        self.subs.clear();
        self.unsubs.clear();
        self.persist = false;
        self.is_client = is_client;
        self.ka = 0;
        self.ska = None;
        self.recv_to = 0;
    }
    /// A new session: everything of the old one goes.
    fn wipe(&mut self) {
        self.in_use.clear();
        self.held.clear();
        self.exch.clear();
        self.store.clear();
        self.handled.clear();
    }
    fn stored_publish(&self, id: u32) -> bool {
        self.store.iter().any(|p| matches!(p, Pk::Publish(_)) && p.pid() == Some(id))
    }
    fn free(&mut self, id: u32, x: &mut X) {
        self.held.remove(&id);
        if self.in_use.remove(&id) {
            x.rel.insert(id);
        }
    }
    pub fn vacancy(&self) -> Option<u16> {
        self.rm_send.map(|m| (m as usize).saturating_sub(self.out_conn.len()) as u16)
    }
    fn close_conn(&mut self, x: &mut X) {
        self.mps_send = NO_LIMIT;
        self.mps_recv = NO_LIMIT;
        self.st = St::Disc;
        self.tam_send = 0;
        self.tam_recv = 0;
        self.tx_alias.clear();
        self.rx_alias.clear();
        self.rm_send = None;
        self.rm_recv = None;
        self.out_conn.clear();
        self.in_conn.clear();
        self.ka = 0;
        self.ska = None;
        self.recv_to = 0;
        for id in std::mem::take(&mut self.subs) {
            self.free(id, x);
        }
        for id in std::mem::take(&mut self.unsubs) {
            self.free(id, x);
        }
        if !self.persist {
            self.handled.clear();
            self.store.clear();
            for id in std::mem::take(&mut self.exch).into_keys() {
                self.free(id, x);
            }
        }
        if self.offline {
            self.persist = true;
        }
    }
    /// The application restarted from an export of the stored packets and the handled ids.
    pub fn restarted(&mut self) {
        let mut x = X::default();
        self.close_conn(&mut x);
        self.persist = self.offline || !self.store.is_empty() || !self.handled.is_empty();
        self.is_client = false;
        self.held.clear();
        self.in_use.clear();
        self.exch.clear();
        for p in self.store.clone() {
            let Some(id) = p.pid() else { continue };
            self.in_use.insert(id);
            let e = match &p {
                Pk::Publish(q) if q.qos == 1 => Ex::WaitPuback,
                Pk::Publish(_) => Ex::WaitPubrec,
                _ => Ex::WaitPubcomp,
            };
            self.exch.insert(id, e);
        }
    }
    fn send_stored(&mut self, x: &mut X) {
        let mut keep = vec![];
        for p in std::mem::take(&mut self.store) {
            let id = p.pid().unwrap_or(0);
            if encode(&p, self.wide).len() as u64 > self.mps_send {
                self.exch.remove(&id);
                self.free(id, x);
                x.dropped = true;
                continue;
            }
            self.out_conn.insert(id);
            if self.exch.get(&id) == Some(&Ex::Limbo) {
                self.exch.insert(id, Ex::WaitPubcomp);
            }
            x.sends.push(SX::stored(p.clone()));
            keep.push(p);
        }
        self.store = keep;
    }
    fn v5_error(&mut self, x: &mut X, code: Option<u8>, names: &[&'static str], tags: &[&'static str]) {
        x.err = if names.is_empty() { Er::Any } else { Er::OneOf(names.to_vec()) };
        x.t_err.extend(tags);
        x.t_recv.extend(tags);
        if self.st == St::Conned {
            self.st = St::Disc;
            x.close = Some(true);
            x.t_close.extend(tags);
            if 4 <= self.mps_send.saturating_add(1) {
                x.sends.push(SX { pk: Pk::Disconnect { v5: true, code, props: None }, rel: None, mode: if code.is_some() { Mode::Code } else { Mode::Kind }, tags: tags.to_vec() });
            }
        }
    }
    fn proto_error(&mut self, x: &mut X, code: Option<u8>, names: &[&'static str], tags: &[&'static str]) {
        if self.v5() {
            self.v5_error(x, code, names, tags)
        } else {
            x.err = Er::Any;
            x.t_err.extend(tags);
            x.t_recv.extend(tags);
            x.close = Some(true);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Exact,
    /// a PUBLISH whose topic may be carried by an alias
    Topic(String),
    /// same kind and reason code
    Code,
    /// same kind
    Kind,
    /// an acknowledgement of the same kind, id and outcome
    Ack,
}
#[derive(Clone, Debug)]
pub struct SX {
    pub pk: Pk,
    /// expected release_packet_id_if_send_error
    pub rel: Option<u32>,
    pub mode: Mode,
    pub tags: Tags,
}
impl SX {
    fn stored(pk: Pk) -> SX {
        SX { pk, rel: None, mode: Mode::Exact, tags: vec!["C06", "C16", "C01"] }
    }
    fn auto(pk: Pk) -> SX {
        SX { pk, rel: None, mode: Mode::Ack, tags: vec!["C01"] }
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub enum Er {
    #[default]
    No,
    Any,
    OneOf(Vec<&'static str>),
    Opt,
}
/// Expected outcome of one call.
#[derive(Clone, Debug, Default)]
pub struct X {
    pub sends: Vec<SX>,
    pub recv: Option<Pk>,
    pub rel: BTreeSet<u32>,
    pub err: Er,
    /// None: not compared
    pub close: Option<bool>,
    pub dropped: bool,
    /// a frame the connection accepts (restarts the receive timer)
    pub accepted: bool,
    /// a duplicate QoS 2 PUBLISH
    pub dup: bool,
    pub t_send: Tags,
    pub t_recv: Tags,
    pub t_rel: Tags,
    pub t_err: Tags,
    pub t_close: Tags,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Tags,
    pub sig: &'static str,
    pub msg: String,
}
#[derive(Debug)]
pub enum Stop {
    Fail(Fail),
    /// a difference that concerns other properties: the case cannot be continued
    Quiet,
}
pub type WRes<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct RefFramer {
    pub buf: Vec<u8>,
}
pub enum Fr {
    Need,
    Frame(u8, Vec<u8>, usize),
    Bad,
}
impl RefFramer {
    /// State after the bytes seen so far; a complete frame is taken out.
    pub fn take(&mut self) -> Fr {
        let d = &self.buf;
        if d.len() < 2 {
            return Fr::Need;
        }
        let mut v = 0usize;
        for k in 0..4 {
            let Some(b) = d.get(1 + k) else { return Fr::Need };
            v |= ((b & 0x7f) as usize) << (7 * k);
            if b & 0x80 == 0 {
                let end = 2 + k + v;
                if d.len() < end {
                    return Fr::Need;
                }
                let f = Fr::Frame(d[0], d[2 + k..end].to_vec(), end);
                self.buf.drain(..end);
                return f;
            }
        }
        self.buf.drain(..5);
        Fr::Bad
    }
}

pub struct Step {
    pub op: Op,
    pub evs: Vec<Ev>,
    /// the model said the send had to be refused
    pub refused: bool,
}

pub struct Twin {
    pub ep: Box<dyn Ep>,
    pub tags: &'static [&'static str],
    /// sends that the rules refuse are not made here; the release they cause is
    pub skip_refused: bool,
    /// the session state is not yet comparable
    pub events_only: bool,
    pub compared: u32,
    pub skipped: u32,
    pub what: &'static str,
}
impl Twin {
    pub fn new(ep: Box<dyn Ep>, tags: &'static [&'static str], what: &'static str) -> Twin {
        Twin { ep, tags, skip_refused: false, events_only: false, compared: 0, skipped: 0, what }
    }
}

pub struct World {
    pub ep: Box<dyn Ep>,
    pub m: Model,
    pub framer: RefFramer,
    pub hist: Vec<Step>,
    pub target: &'static str,
    /// armed timers, from the events seen
    pub armed: [bool; 3],
    pub closing: bool,
    pub lenient: bool,
    pub conn_no: u32,
    pub restarts: u32,
    pub init_ver: Ver,
    /// A second connection object that has to behave the same from here on.
    pub twin: Option<Twin>,
    viols: Vec<Viol>,
    refused: bool,
    refused_rel: Option<u32>,
    /// the packet just received must not touch the established connection's state
    gated: bool,
    /// stored packets were dropped as oversize in this call
    dropped: bool,
    /// compare the whole state only after every so many calls (0: after each)
    pub sparse: u32,
    calls: u32,
}

fn ti(t: Tk) -> usize {
    match t {
        Tk::PSend => 0,
        Tk::PRecv => 1,
        Tk::PResp => 2,
    }
}
pub fn alias_of(ps: &Props) -> Option<u16> {
    ps.iter().find_map(|p| match (p.id, &p.v) {
        (0x23, Pv::U16(v)) => Some(*v),
        _ => None,
    })
}
pub fn u16p(ps: &Props, id: u8) -> Option<u16> {
    ps.iter().find_map(|p| match &p.v {
        Pv::U16(v) if p.id == id => Some(*v),
        _ => None,
    })
}
pub fn u32p(ps: &Props, id: u8) -> Option<u32> {
    ps.iter().find_map(|p| match &p.v {
        Pv::U32(v) if p.id == id => Some(*v),
        _ => None,
    })
}
fn no_alias(ps: &Props) -> Props {
    ps.iter().filter(|p| p.id != 0x23).cloned().collect()
}
pub fn parse_pk(h: u8, b: &[u8], v5: bool, wide: bool) -> Result<Pk, ()> {
    let r = guarded(|| {
        if wide {
            parse::<u32>(h, b, v5).and_then(|r| r.ok()).map(|(p, _)| view(&p))
        } else {
            parse::<u16>(h, b, v5).and_then(|r| r.ok()).map(|(p, _)| view(&p))
        }
    });
    // a panicking parser panics in the connection as well, where it is reported
    r.ok().flatten().ok_or(())
}
fn same_ack(a: &Pk, b: &Pk) -> bool {
    match (a, b) {
        (Pk::Ack { v5, kind, pid, code, .. }, Pk::Ack { v5: w5, kind: k2, pid: p2, code: c2, .. }) => {
            v5 == w5 && kind == k2 && pid == p2 && (code.unwrap_or(0) >= 0x80) == (c2.unwrap_or(0) >= 0x80)
        }
        _ => a == b,
    }
}

macro_rules! viol {
    ($s:expr, $tags:expr, $sig:expr, $($a:tt)*) => { $s.viols.push(Viol { tags: $tags.to_vec(), sig: $sig, msg: format!($($a)*) }) };
}

/// Roles the MQTT specification allows to send a packet type.
pub fn role_may_send(role: Role, t: u8, v5: bool) -> bool {
    match role {
        Role::Any => true,
        Role::Client => !matches!(t, 2 | 9 | 11 | 13),
        Role::Server => !(matches!(t, 1 | 8 | 10 | 12) || (t == 14 && !v5)),
    }
}
pub fn role_may_recv(role: Role, t: u8, v: Ver) -> bool {
    let v3 = v == Ver::V3;
    match role {
        Role::Any => true,
        Role::Client => !(matches!(t, 1 | 8 | 10 | 12) || (v3 && matches!(t, 14 | 15))),
        Role::Server => !(matches!(t, 2 | 9 | 11 | 13) || (v3 && t == 15)),
    }
}

/// Debugging aid: report differences whatever property they concern.
pub fn strict() -> bool {
    static S: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var("VERIF_STRICT").is_ok())
}

impl World {
    pub fn new(target: &'static str, role: Role, ver: Ver, wide: bool) -> Self {
        World {
            ep: make(role, ver, wide),
            m: Model::new(role, ver, wide),
            framer: RefFramer::default(),
            hist: vec![],
            target,
            armed: [false; 3],
            closing: false,
            lenient: false,
            conn_no: 0,
            restarts: 0,
            init_ver: ver,
            twin: None,
            viols: vec![],
            refused: false,
            refused_rel: None,
            gated: false,
            dropped: false,
            sparse: 0,
            calls: 0,
        }
    }

    fn done(&mut self) -> WRes<()> {
        let v = std::mem::take(&mut self.viols);
        if v.is_empty() {
            return Ok(());
        }
        // in states the properties leave open only the monitors count
        if let Some(x) = v.iter().find(|x| x.tags.contains(&self.target) && (!self.lenient || x.sig.starts_with("mon:"))) {
            return Err(Stop::Fail(Fail::new(format!("{}/{}", self.target, x.sig), x.msg.clone())));
        }
        if strict() && !self.lenient {
            return Err(Stop::Fail(Fail::new(format!("strict/{}", v[0].sig), format!("{:?} {}", v[0].tags, v[0].msg))));
        }
        Err(Stop::Quiet)
    }

    // ------------------------------------------------------------------ one call
    /// Performs a call, checks it, records it.
    pub fn op(&mut self, ctx: &mut Ctx, op: Op) -> WRes<Vec<Ev>> {
        if let Op::Recv(b, cuts) = &op {
            return self.recv(ctx, b, cuts);
        }
        ctx.log(|| show_op(&op));
        let Some(evs) = self.ep.apply(&op) else { return Ok(vec![]) };
        ctx.log(|| format!("    -> {}", show_evs(&evs)));
        self.refused = false;
        self.refused_rel = None;
        self.gated = false;
        self.dropped = false;
        self.local(&op, &evs);
        let refused = self.refused;
        self.twin_local(&op, &evs);
        self.hist.push(Step { op, evs: evs.clone(), refused });
        self.getters();
        self.done()?;
        Ok(evs)
    }

    fn twin_local(&mut self, op: &Op, evs: &[Ev]) {
        let Some(t) = &mut self.twin else { return };
        if t.skip_refused && self.refused {
            t.skipped += 1;
            if let Some(id) = self.refused_rel {
                t.ep.release(id);
            }
        } else {
            let e2 = t.ep.apply(op).unwrap_or_default();
            t.compared += 1;
            if norm(evs) != norm(&e2) {
                let (tags, what) = (t.tags, t.what);
                viol!(self, tags, "mon:twin", "{} returned [{}], {what} returns [{}]", show_op(op), show_evs(evs), show_evs(&e2));
            }
        }
        self.twin_state();
    }
    fn twin_state(&mut self) {
        let Some(t) = &self.twin else { return };
        if t.events_only {
            return;
        }
        let (a, b) = (&self.ep, &t.ep);
        for (ok, n) in [
            (a.stored() == b.stored(), "stored packets"),
            (a.handled() == b.handled(), "QoS 2 handled ids"),
            (a.vacancy() == b.vacancy(), "vacancy"),
            (a.version() == b.version(), "version"),
        ] {
            if !ok {
                viol!(self, t.tags, "mon:twin-state", "{n} differ from {}: {:?}/{:?}/{:?} and {:?}/{:?}/{:?}", t.what, a.stored(), a.handled(), a.vacancy(), b.stored(), b.handled(), b.vacancy());
            }
        }
    }

    fn recv(&mut self, ctx: &mut Ctx, b: &[u8], cuts: &[usize]) -> WRes<Vec<Ev>> {
        let op = Op::Recv(b.to_vec(), cuts.to_vec());
        ctx.log(|| show_op(&op));
        let mut all = vec![];
        for piece in pieces(b, cuts) {
            let mut pos = 0;
            while pos < piece.len() {
                let (evs, n) = self.ep.recv(piece, pos);
                ctx.log(|| format!("    [{}..{}] -> {}", pos, n, show_evs(&evs)));
                if n <= pos || n > piece.len() {
                    viol!(self, ["C05", "C09"], "no-progress", "recv at {pos} of {} bytes left the cursor at {n}", piece.len());
                    self.done()?;
                    return Err(Stop::Quiet);
                }
                let mut taken = None;
                for k in pos..n {
                    if taken.is_some() {
                        viol!(self, ["C09"], "more-than-one-frame", "one recv call consumed bytes beyond the end of a frame");
                        self.done()?;
                    }
                    self.framer.buf.push(piece[k]);
                    match self.framer.take() {
                        Fr::Need => {}
                        f => taken = Some(f),
                    }
                }
                if let Some(t) = &mut self.twin {
                    let (e2, n2) = t.ep.recv(piece, pos);
                    t.compared += 1;
                    if norm(&evs) != norm(&e2) || n != n2 {
                        let (tags, what) = (t.tags, t.what);
                        viol!(self, tags, "mon:twin", "recv of {} returned [{}] at {n}, {what} returns [{}] at {n2}", hex(&piece[pos..n]), show_evs(&evs), show_evs(&e2));
                    }
                    self.twin_state();
                }
                let lenient0 = self.lenient;
                self.refused = false;
                self.gated = false;
                self.dropped = false;
                match taken {
                    None => {
                        if !evs.is_empty() {
                            viol!(self, ["C09"], "events-without-frame", "events although no frame was complete: {}", show_evs(&evs));
                        }
                        self.mon(&evs, None, false);
                    }
                    Some(Fr::Bad) => {
                        let mut x = X { err: Er::Any, t_err: vec!["C09", "C05"], t_recv: vec!["C09"], ..X::default() };
                        x.close = None;
                        self.compare("recv (Remaining Length over four bytes)", &evs, x, false);
                        self.closing |= evs.contains(&Ev::Close);
                    }
                    Some(Fr::Frame(h, body, total)) => {
                        self.lenient |= self.open_frame(h);
                        self.frame(h, &body, total, &evs);
                    }
                    _ => {}
                }
                self.getters();
                self.done()?;
                if self.gated && !self.lenient {
                    let mut ids: Vec<u32> = self.m.in_use.iter().take(3).copied().collect();
                    ids.extend(self.m.in_use.iter().next_back());
                    self.probe(ctx, &ids)?;
                }
                self.lenient = lenient0;
                all.extend(evs);
                pos = n;
            }
        }
        self.hist.push(Step { op, evs: all.clone(), refused: false });
        Ok(all)
    }

    /// Frames whose treatment MQTT (and the properties) leave open: anything but a CONNECT or
    /// CONNACK before the connection is set up, anything after a close was requested.
    fn open_frame(&self, h: u8) -> bool {
        let t = h >> 4;
        if self.closing {
            return true;
        }
        if self.m.ver == Ver::Und || !role_may_recv(self.m.role, t, self.m.ver) {
            return false;
        }
        match self.m.st {
            St::Conned => false,
            St::Conning if self.m.is_client => !matches!(t, 1 | 2 | 15),
            St::Conning => false,
            St::Disc => t != 1,
        }
    }

    // ------------------------------------------------------------------ comparison
    fn compare(&mut self, what: &str, evs: &[Ev], x: X, local: bool) {
        self.dropped |= x.dropped;
        let ctx = |s: &str| format!("{what}: {s}; events: {}", show_evs(evs));
        // deliveries
        let recvs: Vec<(&Pk, bool)> = evs
            .iter()
            .filter_map(|e| if let Ev::Recv { pk, extracted } = e { Some((pk, *extracted)) } else { None })
            .collect();
        let errs: Vec<&String> = evs.iter().filter_map(|e| if let Ev::Error(s) = e { Some(s) } else { None }).collect();
        let mut by_err: Tags = vec![];
        for e in &errs {
            match e.as_str() {
                "ReceiveMaximumExceeded" => by_err.push("C12"),
                "PacketTooLarge" => by_err.push("C14"),
                "TopicAliasInvalid" => by_err.push("C13"),
                "PacketIdentifierInvalid" | "PacketIdentifierConflict" => by_err.extend(["C08", "C06"]),
                "PacketNotAllowedToSend" => by_err.push("C11"),
                "VersionMismatch" => by_err.extend(["C11", "C17"]),
                _ => {}
            }
        }
        match (&x.recv, recvs.len()) {
            (None, 0) => {}
            (None, _) => viol!(self, x.t_recv, "unexpected-delivery", "{}", ctx("nothing may be delivered")),
            (Some(_), 0) => {
                let mut t = x.t_recv.clone();
                t.extend(by_err.iter().copied());
                viol!(self, t, "not-delivered", "{}", ctx("the packet must be delivered"))
            }
            (Some(_), n) if n > 1 => viol!(self, x.t_recv, "delivered-twice", "{}", ctx("one packet must be delivered once")),
            (Some(want), _) => {
                let got = recvs[0].0;
                match (want, got) {
                    (Pk::Publish(a), Pk::Publish(b)) => {
                        if a.topic != b.topic {
                            viol!(self, ["C13", "C09", "C01"], "topic", "{}", ctx(&format!("delivered topic {:?}, expected {:?}", b.topic, a.topic)));
                        } else if a.payload != b.payload || a.qos != b.qos || a.pid != b.pid || a.retain != b.retain || a.dup != b.dup || no_alias(&a.props) != no_alias(&b.props) {
                            viol!(self, ["C09", "C01"], "content", "{}", ctx(&format!("delivered {}, expected {}", show_pk(got), show_pk(want))));
                        }
                    }
                    _ if want != got => viol!(self, ["C09", "C01"], "content", "{}", ctx(&format!("delivered {}, expected {}", show_pk(got), show_pk(want)))),
                    _ => {}
                }
            }
        }
        // errors
        match &x.err {
            Er::No if !errs.is_empty() => {
                let mut t = x.t_err.clone();
                t.extend(by_err.iter().copied());
                viol!(self, t, "unexpected-error", "{}", ctx("no error is expected"));
            }
            Er::Any | Er::OneOf(_) if errs.is_empty() => viol!(self, x.t_err, "no-error", "{}", ctx("an error event is expected")),
            Er::OneOf(n) if !errs.iter().any(|e| n.contains(&e.as_str())) => {
                viol!(self, x.t_err, "wrong-error", "{}", ctx(&format!("the error has to be one of {n:?}")))
            }
            _ => {}
        }
        // releases
        let mut rel = BTreeSet::new();
        for e in evs {
            if let Ev::Released(i) = e {
                if !rel.insert(*i) {
                    viol!(self, ["C08"], "mon:released-twice", "{}", ctx(&format!("identifier {i} released twice")));
                }
            }
        }
        if rel != x.rel {
            let mut t = x.t_rel.clone();
            t.push("C08");
            if x.recv.is_some() {
                t.extend(["C06", "C01"]);
            }
            viol!(self, t, "releases", "{}", ctx(&format!("released {rel:?}, expected {:?}", x.rel)));
        }
        // sends
        let sends: Vec<(&Pk, &Vec<u8>, Option<u32>)> = evs
            .iter()
            .filter_map(|e| if let Ev::Send { pk, bytes, rel } = e { Some((pk, bytes, *rel)) } else { None })
            .collect();
        let mut bad = false;
        for k in 0..sends.len().max(x.sends.len()) {
            match (sends.get(k), x.sends.get(k)) {
                (Some((pk, _, rel)), Some(sx)) => {
                    let same = match &sx.mode {
                        Mode::Exact => *pk == &sx.pk,
                        Mode::Kind => pk.ptype() == sx.pk.ptype() && pk.v5() == sx.pk.v5(),
                        Mode::Ack => same_ack(pk, &sx.pk),
                        Mode::Code => match (pk, &sx.pk) {
                            (Pk::Disconnect { code: a, .. }, Pk::Disconnect { code: b, .. }) => a == b,
                            (Pk::Connack { code: a, .. }, Pk::Connack { code: b, .. }) => a == b,
                            _ => false,
                        },
                        Mode::Topic(_) => match (pk, &sx.pk) {
                            (Pk::Publish(a), Pk::Publish(b)) => {
                                a.payload == b.payload && a.qos == b.qos && a.pid == b.pid && a.retain == b.retain && a.dup == b.dup && a.v5 == b.v5 && no_alias(&a.props) == no_alias(&b.props)
                            }
                            _ => false,
                        },
                    };
                    if !same {
                        let mut t = sx.tags.clone();
                        if matches!(&sx.mode, Mode::Exact) && matches!((pk, &sx.pk), (Pk::Publish(a), Pk::Publish(b)) if a.topic != b.topic || alias_of(&a.props) != alias_of(&b.props)) {
                            t.push("C13");
                        }
                        viol!(self, t, "sent-content", "{}", ctx(&format!("sends {}, expected {}", show_pk(pk), show_pk(&sx.pk))));
                        bad = true;
                    }
                    if same && *rel != sx.rel {
                        viol!(self, ["C08"], "release-on-send-error", "{}", ctx(&format!("release_packet_id_if_send_error is {rel:?}, expected {:?}", sx.rel)));
                    }
                    if same {
                        let topic = match (&sx.mode, &sx.pk) {
                            (Mode::Topic(t), _) => Some(t.clone()),
                            (_, Pk::Publish(q)) => Some(q.topic.clone()),
                            _ => None,
                        };
                        self.alias(pk, topic);
                    }
                }
                (Some((pk, _, _)), None) => {
                    let mut t = x.t_send.clone();
                    match pk.ptype() {
                        3 | 6 => t.push("C06"),
                        4 | 5 | 7 => t.push("C01"),
                        _ => {}
                    }
                    viol!(self, t, "unexpected-send", "{}", ctx(&format!("unexpected {}", show_pk(pk))));
                    bad = true;
                }
                (None, Some(sx)) => {
                    let mut t = sx.tags.clone();
                    t.extend(x.t_send.iter().copied());
                    t.extend(by_err.iter().copied());
                    viol!(self, t, "not-sent", "{}", ctx(&format!("{} must be sent", show_pk(&sx.pk))));
                    bad = true;
                }
                _ => {}
            }
            if bad {
                break;
            }
        }
        if let Some(c) = x.close {
            if c != evs.contains(&Ev::Close) {
                viol!(self, x.t_close, if c { "no-close" } else { "unexpected-close" }, "{}", ctx(if c { "a close request is expected" } else { "no close request is expected" }));
            }
        }
        self.mon(evs, Some(&x), local);
    }

    /// Receiver model for topic aliases.
    fn alias(&mut self, pk: &Pk, topic: Option<String>) {
        let (Pk::Publish(q), Some(topic)) = (pk, topic) else { return };
        if !q.v5 {
            return;
        }
        let a = alias_of(&q.props);
        if let Some(a) = a {
            if a == 0 || a > self.m.tam_send {
                viol!(self, ["C13"], "mon:alias-range", "alias {a} sent although the peer's Topic Alias Maximum is {}", self.m.tam_send);
                return;
            }
        }
        let resolved = if q.topic.is_empty() {
            match a.and_then(|a| self.m.tx_alias.get(&a)) {
                Some(t) => t.clone(),
                None => {
                    viol!(self, ["C13", "C01"], "mon:alias-unbound", "PUBLISH sent with an empty topic and alias {a:?}, which the receiver does not know");
                    return;
                }
            }
        } else {
            if let Some(a) = a {
                self.m.tx_alias.insert(a, q.topic.clone());
            }
            q.topic.clone()
        };
        if resolved != topic {
            viol!(self, ["C13", "C01"], "mon:alias-topic", "the receiver resolves the PUBLISH to {resolved:?}, the application asked for {topic:?}");
        }
    }

    /// What holds for every event list.
    fn mon(&mut self, evs: &[Ev], x: Option<&X>, local: bool) {
        let all = || show_evs(evs);
        let mut closed = false;
        let mut last_send = None;
        for (i, e) in evs.iter().enumerate() {
            match e {
                Ev::Send { pk, bytes, rel } => {
                    last_send = Some(i);
                    if closed {
                        viol!(self, ["C19"], "mon:send-after-close", "send requested after the close request: {}", all());
                    }
                    let final_ = match pk {
                        Pk::Disconnect { .. } => true,
                        Pk::Connack { code, .. } => *code != 0,
                        _ => false,
                    };
                    if final_ && !evs.contains(&Ev::Close) {
                        viol!(self, ["C19"], "mon:no-close", "{} sent without a close request: {}", show_pk(pk), all());
                    }
                    if self.m.v5() && bytes.len() as u64 > self.m.mps_send {
                        viol!(self, ["C14"], "mon:too-large", "{} bytes requested for sending, the peer's Maximum Packet Size is {}: {}", bytes.len(), self.m.mps_send, all());
                    }
                    if !self.m.ver.is(pk.v5()) {
                        viol!(self, ["C11", "C17"], "mon:version", "packet of another protocol version sent: {}", all());
                    }
                    if !role_may_send(self.m.role, pk.ptype(), pk.v5()) {
                        viol!(self, ["C11"], "mon:role", "packet this role must not send: {}", all());
                    }
                    if let Some(r) = rel {
                        if !self.m.in_use.contains(r) {
                            viol!(self, ["C08"], "mon:rel-free", "release_packet_id_if_send_error names the free identifier {r}: {}", all());
                        }
                    }
                }
                Ev::Close => closed = true,
                Ev::Reset(t, ms) => {
                    if *ms == 0 {
                        viol!(self, ["C15"], "mon:zero-timer", "timer requested with duration 0: {}", all());
                    }
                    self.armed[ti(*t)] = true;
                    let want = match t {
                        Tk::PSend => self.m.interval(),
                        Tk::PRecv => self.m.recv_to,
                        Tk::PResp => self.m.resp_to,
                    };
                    if *ms != want {
                        viol!(self, ["C15"], "mon:duration", "{t:?} armed with {ms} ms, expected {want} ms: {}", all());
                    }
                    if (*t == Tk::PSend && !self.m.is_client) || (*t == Tk::PRecv && self.m.is_client) {
                        viol!(self, ["C15"], "mon:wrong-side", "{t:?} armed on the wrong side: {}", all());
                    }
                }
                Ev::Cancel(t) => {
                    if !self.armed[ti(*t)] {
                        viol!(self, ["C15"], "mon:cancel-unarmed", "cancel of {t:?}, which is not armed: {}", all());
                    }
                    self.armed[ti(*t)] = false;
                }
                Ev::Released(_) | Ev::Recv { .. } | Ev::Error(_) | Ev::Ret(_) => {}
            }
        }
        if closed {
            self.closing = true;
        }
        if evs.iter().any(|e| matches!(e, Ev::Send { pk: Pk::Disconnect { .. }, .. })) && self.armed != [false; 3] {
            viol!(self, ["C15"], "mon:armed-after-disconnect", "timers {:?} still armed after DISCONNECT: {}", self.armed, all());
        }
        if local && self.m.st == St::Disc && evs.iter().any(|e| matches!(e, Ev::Reset(..))) {
            viol!(self, ["C15"], "mon:armed-while-disconnected", "timer armed by a local call while disconnected: {}", all());
        }
        // re-arm after the last packet sent
        if let Some(i) = last_send {
            if self.m.is_client && self.m.st == St::Conned {
                let after = evs[i + 1..].iter().any(|e| matches!(e, Ev::Reset(Tk::PSend, _)));
                let iv = self.m.interval();
                if iv > 0 && !after {
                    viol!(self, ["C15"], "mon:no-rearm", "no PINGREQ timer ({iv} ms) after the packet sent: {}", all());
                }
            }
            for e in evs {
                if let Ev::Send { pk: Pk::Pingreq { .. }, .. } = e {
                    if self.m.resp_to > 0 && !evs.iter().any(|e| matches!(e, Ev::Reset(Tk::PResp, _))) {
                        viol!(self, ["C15"], "mon:no-pingresp-timer", "PINGREQ sent without arming the response timer: {}", all());
                    }
                }
            }
        }
        if let Some(x) = x {
            if x.accepted && self.m.recv_to > 0 && !self.m.is_client && self.m.st != St::Disc && !evs.iter().any(|e| matches!(e, Ev::Reset(Tk::PRecv, _))) {
                viol!(self, ["C15"], "mon:no-recv-rearm", "accepted packet did not re-arm the keep-alive timer: {}", all());
            }
        }
    }

    /// Compares the whole state now.
    pub fn full(&mut self) -> WRes<()> {
        self.calls = 0;
        self.getters();
        self.done()
    }
    fn getters(&mut self) {
        self.calls += 1;
        if self.sparse > 0 && self.calls % self.sparse != 1 {
            return self.cheap_getters();
        }
        let got = self.ep.stored();
        if got != self.m.store {
            let mut t: Tags = vec!["C06", "C16"];
            if self.refused {
                t.extend(["C11", "C08"]);
            }
            if self.gated {
                t.push("C17");
            }
            if self.dropped {
                t.push("C14");
            }
            let alias = got.iter().any(|p| matches!(p, Pk::Publish(q) if q.topic.is_empty() || alias_of(&q.props).is_some()));
            if alias {
                t.push("C13");
            }
            viol!(
                self,
                t,
                "store",
                "stored packets are [{}], expected [{}]",
                got.iter().map(show_pk).collect::<Vec<_>>().join(", "),
                self.m.store.iter().map(show_pk).collect::<Vec<_>>().join(", ")
            );
        }
        let got = self.ep.handled();
        if got != self.m.handled {
            let mut t: Tags = vec!["C07", "C16"];
            if self.refused {
                t.push("C11");
            }
            if self.gated {
                t.push("C17");
            }
            viol!(self, t, "handled", "QoS 2 handled ids are {got:?}, expected {:?}", self.m.handled);
        }
        self.cheap_getters();
    }
    fn cheap_getters(&mut self) {
        let got = self.ep.vacancy();
        if got != self.m.vacancy() {
            let mut t: Tags = vec!["C12"];
            if self.refused {
                t.push("C11");
            }
            if self.gated {
                t.push("C17");
            }
            viol!(self, t, "vacancy", "vacancy is {got:?}, expected {:?} (Receive Maximum {:?}, incomplete {:?})", self.m.vacancy(), self.m.rm_send, self.m.out_conn);
        }
        let got = self.ep.version();
        if got != self.m.ver {
            viol!(self, ["C17"], "mon:version-getter", "protocol version is {got:?}, expected {:?}", self.m.ver);
        }
    }

    /// Compares the identifiers in use on a window of values (registering is only visible as
    /// its result, and undone at once).
    pub fn probe(&mut self, ctx: &mut Ctx, ids: &[u32]) -> WRes<()> {
        for id in ids {
            let id = *id;
            let ok = self.ep.register(id);
            if let Some(t) = &mut self.twin {
                let ok2 = t.ep.register(id);
                if ok2 {
                    t.ep.release(id);
                }
                if ok != ok2 {
                    let (tags, what) = (t.tags, t.what);
                    viol!(self, tags, "mon:twin-ids", "register_packet_id({id}) gives {ok}, {what} gives {ok2}");
                }
            }
            let want = id != 0 && id <= self.m.id_max() && !self.m.in_use.contains(&id);
            if ok {
                let r = self.ep.release(id);
                if want && r != vec![Ev::Released(id)] {
                    viol!(self, ["C08"], "release", "release_packet_id({id}) of a registered identifier returned {}", show_evs(&r));
                }
            }
            if ok != want {
                let mut t: Tags = vec!["C08"];
                if self.gated {
                    t.push("C17");
                }
                if self.dropped {
                    t.push("C14");
                }
                if self.m.in_use.contains(&id) {
                    t.extend(["C06", "C16"]);
                } else {
                    t.push("C01");
                }
                ctx.log(|| format!("probe identifier {id}: register -> {ok}"));
                viol!(self, t, "id-in-use", "register_packet_id({id}) -> {ok}, but the identifier is {}", if want { "free" } else { "in use" });
            }
        }
        self.getters();
        self.done()
    }

    // ------------------------------------------------------------------ local calls
    fn local(&mut self, op: &Op, evs: &[Ev]) {
        match op {
            Op::Send(p) | Op::Checked(p) => self.send(p, evs),
            Op::Timer(t) => self.timer(*t, evs),
            Op::Closed => {
                let mut x = X { t_rel: vec!["C08", "C10"], t_send: vec!["C11"], ..X::default() };
                self.m.close_conn(&mut x);
                self.framer = RefFramer::default();
                self.compare("notify_closed", evs, x, true);
                if self.armed != [false; 3] {
                    let a = self.armed;
                    viol!(self, ["C15", "C10"], "mon:armed-after-close", "timers {a:?} (PINGREQ send, receive, response) still armed after the transport closed: {}", show_evs(evs));
                }
                self.closing = false;
                self.lenient = false;
                self.armed = [false; 3];
            }
            Op::Interval(i) => {
                self.m.user_int = *i;
                let was = self.armed[0];
                self.compare("set_pingreq_send_interval", evs, X { t_send: vec!["C15", "C11"], ..X::default() }, true);
                match i {
                    Some(0) if was && self.armed[0] => {
                        viol!(self, ["C15"], "mon:interval-0", "interval 0 leaves the PINGREQ timer armed: {}", show_evs(evs))
                    }
                    Some(n) if *n > 0 && self.m.is_client && self.m.st == St::Conned && !self.closing && !evs.iter().any(|e| matches!(e, Ev::Reset(Tk::PSend, _))) => {
                        viol!(self, ["C15"], "mon:interval", "new interval {n} not applied: {}", show_evs(evs))
                    }
                    _ => {}
                }
            }
            Op::RespTo(n) => self.m.resp_to = *n,
            Op::Offline(b) => {
                self.m.offline = *b;
                if *b && self.m.st == St::Disc {
                    self.m.persist = true;
                }
            }
            Op::AutoPub(b) => self.m.auto_pub = *b,
            Op::AutoPing(b) => self.m.auto_ping = *b,
            Op::AutoMap(b) => self.m.auto_map = *b,
            Op::AutoRepl(b) => self.m.auto_repl = *b,
            Op::Acquire => {
                let id = match evs {
                    [Ev::Ret(s)] => s.strip_prefix("Ok(").and_then(|s| s.strip_suffix(')')).and_then(|s| s.parse::<u32>().ok()),
                    _ => None,
                };
                match id {
                    None if self.m.in_use.len() as u64 == self.m.id_max() as u64 => {}
                    None => viol!(self, ["C08"], "acquire-failed", "acquire_packet_id failed with {} identifiers in use: {}", self.m.in_use.len(), show_evs(evs)),
                    Some(id) if id == 0 || id > self.m.id_max() => viol!(self, ["C08"], "acquire-range", "acquire_packet_id gave {id}"),
                    Some(id) if self.m.in_use.contains(&id) => {
                        viol!(self, ["C08", "C16", "C06"], "acquire-in-use", "acquire_packet_id gave {id}, which is in use")
                    }
                    Some(id) => {
                        self.m.in_use.insert(id);
                        self.m.held.insert(id);
                    }
                }
            }
            Op::Register(id) => {
                let ok = evs == [Ev::Ret("true".into())];
                let want = *id != 0 && *id <= self.m.id_max() && !self.m.in_use.contains(id);
                if ok != want {
                    viol!(self, ["C08", "C16"], "register", "register_packet_id({id}) -> {ok}, expected {want} (in use: {:?})", self.m.in_use);
                }
                if want {
                    self.m.in_use.insert(*id);
                    self.m.held.insert(*id);
                }
            }
            Op::Release(id) => {
                let mut x = X { t_send: vec!["C11"], ..X::default() };
                self.m.free(*id, &mut x);
                self.compare("release_packet_id", evs, x, true);
            }
            Op::Erase(id) => {
                let mut x = X { t_rel: vec!["C06"], t_send: vec!["C06"], ..X::default() };
                if self.m.stored_publish(*id) {
                    self.m.store.retain(|p| p.pid() != Some(*id));
                    self.m.exch.remove(id);
                    self.m.out_conn.remove(id);
                    self.m.free(*id, &mut x);
                }
                self.compare("erase_stored_publish", evs, x, true);
            }
            Op::Regulate(p) => {
                let Pk::Publish(q) = p else { return };
                let a = alias_of(&q.props);
                let topic = if q.topic.is_empty() { a.and_then(|a| self.m.tx_alias.get(&a).cloned()) } else { Some(q.topic.clone()) };
                let got = match evs {
                    [Ev::Ret(s)] => s.clone(),
                    _ => String::new(),
                };
                match topic {
                    None => {
                        if !got.starts_with("Err") {
                            viol!(self, ["C13"], "regulate", "regulate_for_store of an unresolvable alias gave {got}");
                        }
                    }
                    Some(t) => {
                        let mut w = q.clone();
                        w.topic = t;
                        w.props = no_alias(&q.props);
                        let want = format!("{:?}", Ok::<Pk, String>(Pk::Publish(w)));
                        if got != want {
                            viol!(self, ["C13"], "regulate", "regulate_for_store gave {got}, expected {want}");
                        }
                    }
                }
            }
            Op::Recv(..) => {}
        }
    }

    fn timer(&mut self, t: Tk, evs: &[Ev]) {
        self.armed[ti(t)] = false;
        let mut x = X { t_send: vec!["C15"], t_close: vec!["C15", "C19"], t_err: vec!["C15"], t_recv: vec!["C15"], ..X::default() };
        let conned = self.m.st == St::Conned;
        match t {
            Tk::PSend => {
                x.close = Some(false);
                if conned {
                    if self.m.mps_send >= 2 {
                        x.sends.push(SX { pk: Pk::Pingreq { v5: self.m.v5() }, rel: None, mode: Mode::Exact, tags: vec!["C15"] });
                    } else {
                        x.err = Er::Opt;
                    }
                }
            }
            Tk::PRecv | Tk::PResp => {
                if conned {
                    x.close = Some(true);
                    if self.m.v5() {
                        self.m.st = St::Disc;
                        if self.m.mps_send >= 3 {
                            x.sends.push(SX { pk: Pk::Disconnect { v5: true, code: Some(0x8d), props: None }, rel: None, mode: Mode::Code, tags: vec!["C15"] });
                        }
                    }
                } else if !self.m.v5() {
                    x.close = Some(true);
                    x.t_close = vec!["C15"];
                }
            }
        }
        self.compare(&format!("notify_timer_fired({t:?})"), evs, x, true);
    }

    /// Reasons for which MQTT or the API contract has the packet refused.
    pub fn refusals(&self, p: &Pk) -> Vec<(&'static str, &'static str)> {
        let m = &self.m;
        if !m.ver.is(p.v5()) {
            return vec![("VersionMismatch", "C11")];
        }
        let t = p.ptype();
        let mut r = vec![];
        if !role_may_send(m.role, t, p.v5()) {
            r.push(("PacketNotAllowedToSend", "C11"));
        }
        let qos = match p {
            Pk::Publish(q) => q.qos,
            _ => 0,
        };
        let ok = match t {
            1 => m.st == St::Disc,
            2 => m.st == St::Conning,
            15 => m.st != St::Disc,
            3 if qos > 0 => m.st == St::Conned || m.persist,
            6 => m.st == St::Conned || m.persist,
            _ => m.st == St::Conned,
        };
        if !ok {
            r.push(("PacketNotAllowedToSend", "C11"));
        }
        if (matches!(t, 6 | 8 | 10) || qos > 0) && !p.pid().is_some_and(|i| m.in_use.contains(&i)) {
            r.push(("PacketIdentifierInvalid", "C08"));
        }
        if m.v5() && encode(p, m.wide).len() as u64 > m.mps_send {
            r.push(("PacketTooLarge", "C14"));
        }
        if let Pk::Publish(q) = p {
            if m.v5() {
                if qos > 0 && m.st == St::Conned && m.rm_send.is_some_and(|x| m.out_conn.len() >= x as usize) {
                    r.push(("ReceiveMaximumExceeded", "C12"));
                }
                let a = alias_of(&q.props);
                let bad = match (q.topic.is_empty(), a) {
                    (true, None) => true,
                    (true, Some(a)) => !m.tx_alias.contains_key(&a),
                    (false, Some(a)) => a == 0 || a > m.tam_send,
                    (false, None) => false,
                };
                if bad {
                    r.push(("PacketNotAllowedToSend", "C13"));
                }
            }
            if qos > 0 && m.persist && q.pid.is_some_and(|i| m.store.iter().any(|s| s.pid() == Some(i))) {
                r.push(("PacketIdentifierConflict", "C06"));
            }
        }
        if t == 6 && m.persist && p.pid().is_some_and(|i| m.stored_publish(i)) {
            r.push(("PacketIdentifierConflict", "C06"));
        }
        r
    }

    fn send(&mut self, p: &Pk, evs: &[Ev]) {
        let why = self.refusals(p);
        let what = format!("send {}", show_pk(p));
        let t = p.ptype();
        if !why.is_empty() {
            self.refused = true;
            let tags: Tags = why.iter().map(|w| w.1).chain(["C11"]).collect();
            let mut x = X {
                err: Er::OneOf(why.iter().map(|w| w.0).collect()),
                close: Some(false),
                t_send: tags.clone(),
                t_recv: tags.clone(),
                t_rel: tags.clone(),
                t_err: tags.clone(),
                t_close: tags.clone(),
                ..X::default()
            };
            if matches!(t, 3 | 8 | 10) {
                if let Some(id) = p.pid() {
                    // the errors that leave the identifier with its owner come alone
                    if why.iter().any(|w| w.0 != "PacketIdentifierConflict") {
                        self.m.free(id, &mut x);
                        self.refused_rel = x.rel.iter().next().copied();
                    }
                }
            }
            if evs.iter().any(|e| matches!(e, Ev::Reset(..) | Ev::Cancel(_))) {
                viol!(self, ["C11", "C15"], "refused-timer", "{what}: a refused send changes timers: {}", show_evs(evs));
            }
            self.compare(&what, evs, x, true);
            return;
        }
        let mut x = X { t_send: vec!["C11"], t_err: vec!["C11"], t_recv: vec!["C11"], close: Some(false), t_close: vec!["C19", "C11"], ..X::default() };
        let conned = self.m.st == St::Conned;
        let plain = |tags: &[&'static str]| SX { pk: p.clone(), rel: None, mode: Mode::Exact, tags: tags.to_vec() };
        match p {
            Pk::Connect(c) => {
                self.m.init_conn(true);
                self.m.st = St::Conning;
                self.conn_no += 1;
                self.m.ka = c.keep_alive as u64 * 1000;
                if c.clean {
                    self.m.wipe();
                }
                if !c.v5 {
                    self.m.persist = !c.clean;
                } else {
                    self.m.tam_recv = u16p(&c.props, 0x22).unwrap_or(0);
                    self.m.rm_recv = u16p(&c.props, 0x21);
                    self.m.mps_recv = u32p(&c.props, 0x27).map(|v| v as u64).unwrap_or(self.m.mps_recv);
                    self.m.persist = u32p(&c.props, 0x11).unwrap_or(0) != 0;
                }
                x.sends.push(plain(&["C11", "C10"]));
            }
            Pk::Connack { sp, code, props, v5 } => {
                x.sends.push(plain(&["C11"]));
                if *code != 0 {
                    self.m.st = St::Disc;
                    x.close = Some(true);
                    x.t_close = vec!["C19"];
                } else {
                    self.m.st = St::Conned;
                    if *v5 {
                        self.m.tam_recv = u16p(props, 0x22).unwrap_or(self.m.tam_recv);
                        self.m.rm_recv = u16p(props, 0x21).or(self.m.rm_recv);
                        self.m.mps_recv = u32p(props, 0x27).map(|v| v as u64).unwrap_or(self.m.mps_recv);
                        if let Some(s) = u32p(props, 0x11) {
                            self.m.persist = s != 0;
                        }
                        if let Some(k) = u16p(props, 0x13) {
                            self.m.recv_to = k as u64 * 1500;
                            let armed = evs.iter().rev().find_map(|e| match e {
                                Ev::Reset(Tk::PRecv, _) => Some(true),
                                Ev::Cancel(Tk::PRecv) => Some(false),
                                _ => None,
                            });
                            if k > 0 && armed != Some(true) {
                                viol!(self, ["C15"], "mon:ska-server", "{what}: the receive timer is not re-armed with the Server Keep Alive: {}", show_evs(evs));
                            }
                            if k == 0 && armed.unwrap_or(self.armed[1]) {
                                viol!(self, ["C15"], "mon:ska-server", "{what}: the receive timer stays armed although Server Keep Alive is 0: {}", show_evs(evs));
                            }
                        }
                    }
                    if *sp {
                        self.m.send_stored(&mut x);
                    } else {
                        self.m.wipe();
                    }
                    x.t_send = vec!["C06"];
                    x.t_rel = vec!["C06", "C14"];
                }
            }
            Pk::Publish(q) => {
                let a = alias_of(&q.props);
                let topic = if q.topic.is_empty() { a.and_then(|a| self.m.tx_alias.get(&a).cloned()).unwrap_or_default() } else { q.topic.clone() };
                let mut tags: Tags = vec!["C11"];
                if q.qos > 0 {
                    tags.push("C06");
                }
                if a.is_some() {
                    tags.push("C13");
                }
                x.t_err = tags.clone();
                let mut rel = None;
                if let (true, Some(id)) = (q.qos > 0, q.pid) {
                    self.m.held.remove(&id);
                    if self.m.persist {
                        let mut s = q.clone();
                        s.topic = topic.clone();
                        s.props = no_alias(&q.props);
                        s.dup = true;
                        self.m.store.push(Pk::Publish(s));
                    } else {
                        rel = Some(id);
                    }
                    self.m.exch.insert(id, if q.qos == 1 { Ex::WaitPuback } else { Ex::WaitPubrec });
                    if conned {
                        self.m.out_conn.insert(id);
                    }
                }
                if conned {
                    let auto = q.v5 && a.is_none() && (self.m.auto_map || self.m.auto_repl);
                    x.sends.push(SX { pk: p.clone(), rel, mode: if auto { Mode::Topic(topic) } else if q.topic.is_empty() { Mode::Exact } else { Mode::Exact }, tags });
                    if !auto && q.topic.is_empty() {
                        // sent as asked: the receiver has to resolve it to the bound topic
                        if let Some(sx) = x.sends.last_mut() {
                            sx.mode = Mode::Topic(a.and_then(|a| self.m.tx_alias.get(&a).cloned()).unwrap_or_default());
                        }
                    }
                }
            }
            Pk::Ack { kind, pid, code, v5, .. } => {
                let fail = code.unwrap_or(0) >= 0x80;
                match kind {
                    6 => {
                        x.t_err.push("C06");
                        if self.m.persist {
                            match self.m.store.iter_mut().find(|s| s.pid() == Some(*pid)) {
                                Some(s) => *s = p.clone(),
                                None => self.m.store.push(p.clone()),
                            }
                        }
                        self.m.held.remove(pid);
                        self.m.exch.insert(*pid, Ex::WaitPubcomp);
                        if conned {
                            x.sends.push(plain(&["C06", "C11", "C01"]));
                        }
                    }
                    4 | 7 => {
                        self.m.in_conn.remove(pid);
                        x.sends.push(plain(&["C11", "C01"]));
                    }
                    _ => {
                        if *v5 && fail {
                            self.m.in_conn.remove(pid);
                            self.m.handled.remove(pid);
                        }
                        x.sends.push(plain(&["C11", "C01"]));
                    }
                }
            }
            Pk::Subscribe { pid, .. } | Pk::Unsubscribe { pid, .. } => {
                self.m.held.remove(pid);
                if t == 8 {
                    self.m.subs.insert(*pid);
                } else {
                    self.m.unsubs.insert(*pid);
                }
                x.sends.push(SX { pk: p.clone(), rel: Some(*pid), mode: Mode::Exact, tags: vec!["C11"] });
            }
            Pk::Disconnect { .. } => {
                self.m.st = St::Disc;
                x.close = Some(true);
                x.t_close = vec!["C19"];
                x.sends.push(plain(&["C11", "C19"]));
            }
            _ => x.sends.push(plain(&["C11"])),
        }
        self.compare(&what, evs, x, true);
    }

    // ------------------------------------------------------------------ received frames
    /// Automatic response, if it fits.
    fn auto(&mut self, x: &mut X, pk: Pk) -> bool {
        if self.m.v5() && encode(&pk, self.m.wide).len() as u64 > self.m.mps_send {
            x.err = Er::Opt;
            return false;
        }
        x.sends.push(SX::auto(pk));
        true
    }

    fn frame(&mut self, h: u8, body: &[u8], total: usize, evs: &[Ev]) {
        let t = h >> 4;
        let what = format!("recv frame {} {}", kind_name(t, self.m.v5()), hex(body));
        let mut x = X { t_recv: vec!["C05"], t_err: vec!["C05"], t_send: vec!["C05"], t_close: vec![], ..X::default() };
        let m = &mut self.m;
        self.gated = m.ver != Ver::Und && (!role_may_recv(m.role, t, m.ver) || m.st != St::Disc && (t == 1 || t == 2 && (m.st == St::Conned || !m.is_client)));
        // nothing goes unreported
        let silent = !evs.iter().any(|e| matches!(e, Ev::Recv { .. } | Ev::Error(_)));
        if total as u64 > m.mps_recv {
            m.v5_error(&mut x, Some(0x95), &["PacketTooLarge"], &["C14"]);
        } else if !role_may_recv(m.role, t, m.ver) {
            let tags = &["C17"];
            x.err = Er::Any;
            x.t_err.extend(tags);
            x.t_recv.extend(tags);
            x.t_send.extend(tags);
            x.t_rel.extend(tags);
            // whether the connection is also given up is left to the library
            x.close = None;
            if evs.contains(&Ev::Close) {
                self.closing = true;
            }
        } else if m.ver == Ver::Und {
            x.t_err.push("C17");
            x.t_recv.push("C17");
            let lvl = if t == 1 { body.get(6).copied() } else { None };
            match lvl {
                Some(4) | Some(5) => {
                    m.ver = if lvl == Some(4) { Ver::V3 } else { Ver::V5 };
                    self.connect(body, &mut x);
                }
                _ => x.err = Er::Any,
            }
        } else {
            match t {
                1 => self.connect(body, &mut x),
                2 => self.connack(body, &mut x, evs),
                _ => self.other(h, body, &mut x, evs),
            }
        }
        if silent && !(x.dup && evs.iter().any(|e| matches!(e, Ev::Send { pk: Pk::Ack { kind: 5, .. }, .. }))) {
            viol!(self, ["C05", "C07"], "mon:silently-dropped", "{what}: neither delivered nor reported: {}", show_evs(evs));
        }
        let dropped = x.dropped;
        let is_stored = t == 2 && !x.sends.is_empty();
        self.compare(&what, evs, x, false);
        if is_stored || dropped {
            // retransmission comes before the application can react to the CONNACK
            let r = evs.iter().position(|e| matches!(e, Ev::Recv { .. }));
            let s = evs.iter().rposition(|e| matches!(e, Ev::Send { .. }));
            if let (Some(r), Some(s)) = (r, s) {
                if r < s {
                    viol!(self, ["C06"], "resend-after-notify", "{what}: the CONNACK is notified before the stored packets are requested: {}", show_evs(evs));
                }
            }
        }
    }

    fn connect(&mut self, body: &[u8], x: &mut X) {
        let m = &mut self.m;
        if m.st != St::Disc {
            m.proto_error(x, None, &[], &["C17"]);
            x.t_rel.push("C17");
            x.t_send.push("C17");
            return;
        }
        match parse_pk(0x10, body, m.v5(), m.wide) {
            Ok(Pk::Connect(c)) => {
                m.init_conn(false);
                m.st = St::Conning;
                self.conn_no += 1;
                m.recv_to = c.keep_alive as u64 * 1500;
                if c.clean {
                    m.wipe();
                }
                if !c.v5 {
                    m.persist = !c.clean;
                } else {
                    m.tam_send = u16p(&c.props, 0x22).unwrap_or(0);
                    m.rm_send = u16p(&c.props, 0x21);
                    m.mps_send = u32p(&c.props, 0x27).map(|v| v as u64).unwrap_or(m.mps_send);
                    m.persist = u32p(&c.props, 0x11).unwrap_or(0) != 0;
                }
                x.t_recv.extend(["C17", "C10"]);
                x.t_err.extend(["C17", "C10"]);
                x.accepted = true;
                x.close = Some(false);
                x.recv = Some(Pk::Connect(c));
            }
            _ => {
                m.st = St::Disc;
                x.err = Er::Any;
                x.close = None;
                x.t_close.push("C19");
                // the refusing CONNACK is optional, its form is not
                let v5 = m.v5();
                let fits = !v5 || m.mps_send >= 5;
                if fits {
                    x.close = Some(true);
                    x.sends.push(SX { pk: Pk::Connack { v5, sp: false, code: 1, props: vec![] }, rel: None, mode: Mode::Kind, tags: vec![] });
                }
            }
        }
    }

    fn connack(&mut self, body: &[u8], x: &mut X, evs: &[Ev]) {
        let m = &mut self.m;
        let v5 = m.v5();
        let conned = m.st == St::Conned;
        let p = parse_pk(0x20, body, v5, m.wide);
        let Ok(Pk::Connack { sp, code, props, .. }) = &p else {
            if conned || !v5 {
                m.proto_error(x, None, &[], &[]);
                if conned {
                    x.t_recv.push("C17");
                }
            } else {
                x.err = Er::Any;
            }
            return;
        };
        if conned || (m.st == St::Conning && !m.is_client) {
            if conned || !v5 {
                m.proto_error(x, None, &[], &["C17"]);
            } else {
                x.err = Er::Any;
                x.t_err.push("C17");
                x.t_recv.push("C17");
            }
            x.t_rel.push("C17");
            x.t_send.push("C17");
            return;
        }
        x.recv = p.clone().ok();
        x.close = Some(false);
        x.t_recv.extend(["C10", "C17"]);
        x.t_err.extend(["C10", "C17"]);
        if *code != 0 {
            return;
        }
        m.st = St::Conned;
        let mut sei0 = false;
        if v5 {
            m.tam_send = u16p(props, 0x22).unwrap_or(0);
            m.rm_send = u16p(props, 0x21);
            m.mps_send = u32p(props, 0x27).map(|v| v as u64).unwrap_or(m.mps_send);
            if let Some(k) = u16p(props, 0x13) {
                m.ska = Some(k as u64 * 1000);
            }
            if let Some(s) = u32p(props, 0x11) {
                m.persist = s != 0;
                sei0 = s == 0;
            }
        }
        if *sp {
            m.send_stored(x);
            if sei0 {
                m.store.clear();
            }
        } else {
            m.wipe();
        }
        x.t_send = vec!["C06", "C10"];
        x.t_rel = vec!["C06", "C14"];
        // the Server Keep Alive replaces the interval at once
        if m.is_client && !self.closing && u16p(props, 0x13).is_some() {
            let iv = m.interval();
            let armed = evs.iter().rev().find_map(|e| match e {
                Ev::Reset(Tk::PSend, _) => Some(true),
                Ev::Cancel(Tk::PSend) => Some(false),
                _ => None,
            });
            let was = self.armed[0];
            if m.user_int.is_none() && ((iv > 0 && armed != Some(true)) || (iv == 0 && armed.unwrap_or(was))) {
                viol!(self, ["C15"], "mon:ska", "Server Keep Alive {iv} ms is not applied on CONNACK: {}", show_evs(evs));
            }
        }
    }

    fn other(&mut self, h: u8, body: &[u8], x: &mut X, evs: &[Ev]) {
        let t = h >> 4;
        let v5 = self.m.v5();
        let conned = self.m.st == St::Conned;
        if t == 0 || (t == 15 && !v5) {
            x.err = Er::Any;
            x.t_err.push("C17");
            x.t_recv.push("C17");
            if evs.contains(&Ev::Close) {
                self.closing = true;
            }
            return;
        }
        let Ok(pk) = parse_pk(h, body, v5, self.m.wide) else {
            if t == 3 && v5 && !conned {
                x.err = Er::Any;
            } else {
                self.m.proto_error(x, None, &[], &[]);
            }
            return;
        };
        x.t_recv.push("C01");
        x.t_err.push("C01");
        x.close = Some(false);
        x.t_close = vec!["C05", "C01"];
        match &pk {
            Pk::Publish(q) => {
                let mut q = q.clone();
                let id = q.pid.unwrap_or(0);
                let m = &mut self.m;
                let dup = q.qos == 2 && m.handled.contains(&id);
                if q.qos == 2 {
                    x.t_recv.push("C07");
                    x.t_err.push("C07");
                }
                if v5 {
                    if q.qos > 0 && m.rm_recv.is_some_and(|r| !m.in_conn.contains(&id) && m.in_conn.len() >= r as usize) {
                        m.v5_error(x, Some(0x93), &["ReceiveMaximumExceeded"], &["C12"]);
                        return;
                    }
                    let a = alias_of(&q.props);
                    if let Some(a) = a {
                        x.t_recv.push("C13");
                        if a == 0 || a > m.tam_recv || (q.topic.is_empty() && !m.rx_alias.contains_key(&a)) {
                            m.v5_error(x, Some(0x94), &["TopicAliasInvalid"], &["C13"]);
                            return;
                        }
                        if q.topic.is_empty() {
                            q.topic = m.rx_alias.get(&a).cloned().unwrap_or_default();
                        } else {
                            m.rx_alias.insert(a, q.topic.clone());
                        }
                    } else if q.topic.is_empty() {
                        m.v5_error(x, Some(0x94), &["TopicAliasInvalid"], &["C13"]);
                        return;
                    }
                    if q.qos > 0 {
                        m.in_conn.insert(id);
                    }
                    x.t_recv.push("C12");
                }
                if q.qos == 2 {
                    m.handled.insert(id);
                }
                let auto = m.auto_pub && conned;
                x.accepted = true;
                x.dup = dup;
                if q.qos == 1 && auto {
                    if self.auto(x, Pk::Ack { v5, kind: 4, pid: id, code: None, props: None }) {
                        self.m.in_conn.remove(&id);
                    }
                } else if q.qos == 2 && (auto || dup) {
                    let rec = Pk::Ack { v5, kind: 5, pid: id, code: None, props: None };
                    if conned {
                        if self.auto(x, rec) {
                            if let Some(s) = x.sends.last_mut() {
                                if dup {
                                    s.tags.extend(["C07", "C05"]);
                                }
                            }
                        } else {
                            x.err = Er::Opt;
                        }
                    } else {
                        x.err = Er::Any;
                    }
                }
                if !dup {
                    x.recv = Some(Pk::Publish(q));
                }
            }
            Pk::Ack { kind, pid, code, .. } => {
                let id = *pid;
                let m = &mut self.m;
                if *kind == 6 {
                    let had = m.handled.remove(&id);
                    x.accepted = true;
                    x.t_recv.push("C07");
                    x.recv = Some(pk.clone());
                    if m.auto_pub && conned {
                        let code = if v5 && !had { Some(0x92) } else { None };
                        if self.auto(x, Pk::Ack { v5, kind: 7, pid: id, code, props: None }) {
                            if let Some(s) = x.sends.last_mut() {
                                s.mode = Mode::Ack;
                                if let (Pk::Ack { code, .. }, Some(Pk::Ack { code: c2, .. })) = (&mut s.pk, evs.iter().find_map(|e| if let Ev::Send { pk, .. } = e { Some(pk) } else { None })) {
                                    // the reason code of PUBCOMP is not constrained
                                    *code = *c2;
                                }
                            }
                            self.m.in_conn.remove(&id);
                        }
                    }
                    return;
                }
                x.t_recv.extend(["C06", "C12", "C08"]);
                x.t_err.extend(["C06", "C12"]);
                x.t_rel.extend(["C06", "C12"]);
                if self.restarts > 0 {
                    x.t_recv.push("C16");
                    x.t_err.push("C16");
                    x.t_rel.push("C16");
                }
                let want = match kind {
                    4 => Ex::WaitPuback,
                    5 => Ex::WaitPubrec,
                    _ => Ex::WaitPubcomp,
                };
                if m.exch.get(&id) != Some(&want) {
                    x.close = None;
                    m.proto_error(x, None, &[], &["C06"]);
                    return;
                }
                x.accepted = true;
                x.recv = Some(pk.clone());
                let fail = code.unwrap_or(0) >= 0x80 && v5;
                if *kind == 5 && !fail {
                    m.store.retain(|p| p.pid() != Some(id));
                    m.exch.insert(id, Ex::Limbo);
                    let rel = Pk::Ack { v5, kind: 6, pid: id, code: None, props: None };
                    if m.persist {
                        m.store.push(rel.clone());
                    }
                    if m.auto_pub && conned && self.auto(x, rel) {
                        self.m.exch.insert(id, Ex::WaitPubcomp);
                        if let Some(s) = x.sends.last_mut() {
                            s.tags.push("C06");
                        }
                    }
                } else {
                    m.store.retain(|p| p.pid() != Some(id));
                    m.exch.remove(&id);
                    m.out_conn.remove(&id);
                    m.free(id, x);
                }
            }
            Pk::Suback { pid, .. } | Pk::Unsuback { pid, .. } => {
                let m = &mut self.m;
                let set = if t == 9 { &mut m.subs } else { &mut m.unsubs };
                x.t_recv.push("C08");
                x.t_err.push("C08");
                if set.remove(pid) {
                    m.free(*pid, x);
                    x.accepted = true;
                    x.recv = Some(pk.clone());
                } else {
                    x.close = None;
                    m.proto_error(x, None, &[], &["C06", "C08"]);
                }
            }
            Pk::Pingreq { .. } => {
                x.accepted = true;
                x.recv = Some(pk.clone());
                if self.m.role != Role::Client && !self.m.is_client && self.m.auto_ping && conned {
                    self.auto(x, Pk::Pingresp { v5 });
                    if let Some(s) = x.sends.last_mut() {
                        s.tags.push("C15");
                    }
                }
            }
            Pk::Pingresp { .. } => {
                x.recv = Some(pk.clone());
                let armed = evs.iter().rev().find_map(|e| match e {
                    Ev::Reset(Tk::PResp, _) => Some(true),
                    Ev::Cancel(Tk::PResp) => Some(false),
                    _ => None,
                });
                if armed.unwrap_or(self.armed[2]) {
                    viol!(self, ["C15"], "mon:pingresp", "PINGRESP does not cancel the response timer: {}", show_evs(evs));
                }
            }
            Pk::Disconnect { .. } => {
                x.recv = Some(pk.clone());
                self.closing = true;
            }
            _ => {
                x.accepted = true;
                x.recv = Some(pk.clone());
            }
        }
    }

    /// The process dies and a new one restores the exported session.
    pub fn restart(&mut self, how: u32, ctx: &mut Ctx) -> WRes<()> {
        self.restart_keep(how, ctx).map(|_| ())
    }
    /// The same, giving the connection object of the dead process back.
    /// `how`: 0 one call, 1 in two calls, 2 given twice, 3 followed by packets
    /// that belong to no exchange (QoS 0, or another kind under a taken
    /// identifier), which leave no trace.
    pub fn restart_keep(&mut self, how: u32, ctx: &mut Ctx) -> WRes<Box<dyn Ep>> {
        let (stored, handled) = (self.ep.stored(), self.ep.handled());
        ctx.log(|| format!("process dies; new connection restores {} stored packets and handled ids {handled:?}", stored.len()));
        let m = &self.m;
        let mut ep = make(m.role, m.ver, m.wide);
        set_options(&mut *ep, m);
        match how {
            1 if stored.len() > 1 => {
                ctx.log(|| "  (restored in two calls)".into());
                let (a, b) = stored.split_at(stored.len() / 2);
                ep.restore_packets(a);
                ep.restore_handled(&handled);
                ep.restore_packets(b);
            }
            2 if !stored.is_empty() => {
                ctx.log(|| "  (restored twice)".into());
                ep.restore_packets(&stored);
                ep.restore_handled(&handled);
                ep.restore_packets(&stored);
                ep.restore_handled(&handled);
            }
            3 if !stored.is_empty() => {
                ctx.log(|| "  (followed by packets that belong to no exchange)".into());
                ep.restore_packets(&stored);
                ep.restore_packets(&strangers(&stored));
                ep.restore_handled(&handled);
            }
            _ => {
                ep.restore_packets(&stored);
                ep.restore_handled(&handled);
            }
        }
        let old = std::mem::replace(&mut self.ep, ep);
        self.m.restarted();
        self.framer = RefFramer::default();
        self.armed = [false; 3];
        self.closing = false;
        self.lenient = false;
        self.restarts += 1;
        self.getters();
        self.done()?;
        Ok(old)
    }
}

/// For every stored packet another one under the same identifier, and a QoS 0
/// PUBLISH, which has none.
fn strangers(stored: &[Pk]) -> Vec<Pk> {
    let mut out = vec![];
    for pk in stored {
        match pk {
            Pk::Publish(p) => {
                out.push(Pk::Publish(Box::new(PublishP { qos: 3 - p.qos, ..(**p).clone() })));
                out.push(Pk::Publish(Box::new(PublishP { qos: 0, dup: false, pid: None, ..(**p).clone() })));
                out.push(Pk::Ack { v5: p.v5, kind: PUBREL, pid: p.pid.unwrap_or(1), code: None, props: None });
            }
            Pk::Ack { v5, pid, .. } => {
                for qos in 1..=2 {
                    out.push(Pk::Publish(Box::new(PublishP { v5: *v5, dup: false, qos, retain: false, topic: "stranger".into(), pid: Some(*pid), props: vec![], payload: vec![] })));
                }
            }
            _ => {}
        }
    }
    out
}
pub fn set_options(ep: &mut dyn Ep, m: &Model) {
    if m.offline {
        ep.offline(true);
    }
    ep.auto_pub(m.auto_pub);
    ep.auto_ping(m.auto_ping);
    ep.auto_map(m.auto_map);
    ep.auto_repl(m.auto_repl);
    ep.resp_to(m.resp_to);
    if m.user_int.is_some() {
        let _ = ep.interval(m.user_int);
    }
}
#[allow(unused)]
pub fn frame_of(p: &Pk, wide: bool) -> Vec<u8> {
    spec::encode(p, wide)
}
