//! Adapter between the connection API and abstract operations/events, so that one driver, one
//! model and one trace comparison serve every role and packet-identifier width.

use crate::libx::{build, bytes_of, view, Pid};
use crate::spec::{self, Pk};
use mqtt_protocol_core::mqtt::common::{Cursor, HashSet};
use mqtt_protocol_core::mqtt::connection::event::{GenericEvent, TimerKind};
use mqtt_protocol_core::mqtt::connection::role::{Any, Client, RoleType, Server};
use mqtt_protocol_core::mqtt::connection::{GenericConnection, Sendable, Version};
use mqtt_protocol_core::mqtt::packet::{GenericPacket, GenericStorePacket};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Tk {
    PSend,
    PRecv,
    PResp,
}
pub const TKS: [Tk; 3] = [Tk::PSend, Tk::PRecv, Tk::PResp];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Role {
    Client,
    Server,
    Any,
}
pub const ROLES: [Role; 3] = [Role::Client, Role::Server, Role::Any];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ver {
    V3,
    V5,
    Und,
}
impl Ver {
    pub fn is(self, v5: bool) -> bool {
        self == if v5 { Ver::V5 } else { Ver::V3 }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Recv { pk: Pk, extracted: bool },
    /// `pk` is decoded from the bytes by the reference codec
    Send { pk: Pk, bytes: Vec<u8>, rel: Option<u32> },
    Released(u32),
    Reset(Tk, u64),
    Cancel(Tk),
    Error(String),
    Close,
    /// result of a call that returns a value instead of events
    Ret(String),
}

pub fn show_pk(p: &Pk) -> String {
    match p {
        Pk::Publish(q) => format!(
            "{}(q{}{}{} pid={:?} topic={:?} props={:02x?} len={})",
            p.kind_name(),
            q.qos,
            if q.dup { " dup" } else { "" },
            if q.retain { " ret" } else { "" },
            q.pid,
            clip(&q.topic),
            q.props.iter().map(|x| format!("{:02x}:{}", x.id, clip(&format!("{:?}", x.v)))).collect::<Vec<_>>(),
            q.payload.len()
        ),
        Pk::Ack { pid, code, .. } => format!("{}(pid={pid} code={code:02x?})", p.kind_name()),
        _ => format!("{}{}", p.kind_name(), {
            let s = format!("{p:?}");
            let i = s.find(['{', '(']).unwrap_or(s.len());
            s[i..].chars().take(300).collect::<String>()
        }),
    }
}
fn clip(s: &str) -> String {
    if s.chars().count() > 24 {
        format!("{}..({})", s.chars().take(20).collect::<String>(), s.len())
    } else {
        s.into()
    }
}
pub fn show_ev(e: &Ev) -> String {
    match e {
        Ev::Recv { pk, extracted } => format!("RECV {}{}", show_pk(pk), if *extracted { " (topic from alias)" } else { "" }),
        Ev::Send { pk, bytes, rel } => format!(
            "SEND {} [{} bytes]{}",
            show_pk(pk),
            bytes.len(),
            rel.map(|r| format!(" rel={r}")).unwrap_or_default()
        ),
        x => format!("{x:?}"),
    }
}
pub fn show_evs(v: &[Ev]) -> String {
    if v.is_empty() {
        return "(no events)".into();
    }
    v.iter().map(show_ev).collect::<Vec<_>>().join("; ")
}
/// Runs of release notifications have no defined order (they drain hash sets).
pub fn norm(v: &[Ev]) -> Vec<Ev> {
    let mut o = v.to_vec();
    let mut i = 0;
    while i < o.len() {
        let mut j = i;
        while j < o.len() && matches!(o[j], Ev::Released(_)) {
            j += 1;
        }
        if j > i + 1 {
            o[i..j].sort_by_key(|e| if let Ev::Released(x) = e { *x } else { 0 });
        }
        i = j.max(i + 1);
    }
    o
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Send(Pk),
    Checked(Pk),
    /// bytes offered to recv until consumed; the second field are cut positions
    Recv(Vec<u8>, Vec<usize>),
    Timer(Tk),
    Closed,
    Interval(Option<u64>),
    RespTo(u64),
    Offline(bool),
    AutoPub(bool),
    AutoPing(bool),
    AutoMap(bool),
    AutoRepl(bool),
    Acquire,
    Register(u32),
    Release(u32),
    Erase(u32),
    Regulate(Pk),
}
pub fn show_op(o: &Op) -> String {
    match o {
        Op::Send(p) => format!("send {}", show_pk(p)),
        Op::Checked(p) => format!("checked_send {}", show_pk(p)),
        Op::Recv(b, c) => format!("recv {}{}", crate::engine::hex(b), if c.is_empty() { String::new() } else { format!(" cut at {c:?}") }),
        Op::Regulate(p) => format!("regulate_for_store {}", show_pk(p)),
        x => format!("{x:?}"),
    }
}

pub trait Ep {
    /// None: the packet cannot be built with the library's builders.
    fn send(&mut self, p: &Pk) -> Option<Vec<Ev>>;
    /// Outer None: not buildable.  Inner None: the type is not accepted at compile time.
    fn checked(&mut self, p: &Pk) -> Option<Option<Vec<Ev>>>;
    /// checked_send of the GenericPacket enum itself
    fn checked_generic(&mut self, p: &Pk) -> Option<Vec<Ev>>;
    fn recv(&mut self, buf: &[u8], pos: usize) -> (Vec<Ev>, usize);
    fn timer(&mut self, t: Tk) -> Vec<Ev>;
    fn closed(&mut self) -> Vec<Ev>;
    fn interval(&mut self, ms: Option<u64>) -> Vec<Ev>;
    fn resp_to(&mut self, ms: u64);
    fn offline(&mut self, b: bool);
    fn auto_pub(&mut self, b: bool);
    fn auto_ping(&mut self, b: bool);
    fn auto_map(&mut self, b: bool);
    fn auto_repl(&mut self, b: bool);
    fn vacancy(&self) -> Option<u16>;
    fn acquire(&mut self) -> Result<u32, String>;
    fn register(&mut self, id: u32) -> bool;
    fn release(&mut self, id: u32) -> Vec<Ev>;
    fn handled(&self) -> BTreeSet<u32>;
    fn restore_handled(&mut self, s: &BTreeSet<u32>);
    fn stored(&self) -> Vec<Pk>;
    fn restore_packets(&mut self, v: &[Pk]);
    fn erase(&mut self, id: u32) -> Vec<Ev>;
    fn regulate(&self, p: &Pk) -> Option<Result<Pk, String>>;
    fn version(&self) -> Ver;

    fn apply(&mut self, op: &Op) -> Option<Vec<Ev>> {
        Some(match op {
            Op::Send(p) => return self.send(p),
            Op::Checked(p) => return self.checked(p).flatten(),
            Op::Recv(b, cuts) => {
                let mut out = vec![];
                for piece in pieces(b, cuts) {
                    let mut pos = 0;
                    while pos < piece.len() {
                        let (e, n) = self.recv(piece, pos);
                        out.extend(e);
                        if n <= pos {
                            break;
                        }
                        pos = n;
                    }
                }
                out
            }
            Op::Timer(t) => self.timer(*t),
            Op::Closed => self.closed(),
            Op::Interval(i) => self.interval(*i),
            Op::RespTo(i) => {
                self.resp_to(*i);
                vec![]
            }
            Op::Offline(b) => {
                self.offline(*b);
                vec![]
            }
            Op::AutoPub(b) => {
                self.auto_pub(*b);
                vec![]
            }
            Op::AutoPing(b) => {
                self.auto_ping(*b);
                vec![]
            }
            Op::AutoMap(b) => {
                self.auto_map(*b);
                vec![]
            }
            Op::AutoRepl(b) => {
                self.auto_repl(*b);
                vec![]
            }
            Op::Acquire => vec![Ev::Ret(format!("{:?}", self.acquire()))],
            Op::Register(i) => vec![Ev::Ret(format!("{:?}", self.register(*i)))],
            Op::Release(i) => self.release(*i),
            Op::Erase(i) => self.erase(*i),
            Op::Regulate(p) => vec![Ev::Ret(format!("{:?}", self.regulate(p)?))],
        })
    }
}

pub fn pieces<'a>(b: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut out = vec![];
    let mut at = 0;
    for c in cuts {
        let c = (*c).min(b.len());
        if c > at {
            out.push(&b[at..c]);
            at = c;
        }
    }
    if at < b.len() {
        out.push(&b[at..]);
    }
    out
}

pub struct EpImpl<R: RoleType, P: Pid> {
    c: GenericConnection<R, P>,
}

fn tk(k: TimerKind) -> Tk {
    match k {
        TimerKind::PingreqSend => Tk::PSend,
        TimerKind::PingreqRecv => Tk::PRecv,
        TimerKind::PingrespRecv => Tk::PResp,
    }
}
fn kt(k: Tk) -> TimerKind {
    match k {
        Tk::PSend => TimerKind::PingreqSend,
        Tk::PRecv => TimerKind::PingreqRecv,
        Tk::PResp => TimerKind::PingrespRecv,
    }
}

fn ev<P: Pid>(e: GenericEvent<P>) -> Ev {
    match e {
        GenericEvent::NotifyPacketReceived(p) => {
            let extracted = matches!(&p, GenericPacket::V5_0Publish(q) if q.topic_name_extracted());
            Ev::Recv { pk: view(&p), extracted }
        }
        GenericEvent::RequestSendPacket { packet, release_packet_id_if_send_error } => {
            let bytes = bytes_of(&packet);
            let v5 = packet.protocol_version() == Version::V5_0;
            let pk = match spec::decode(&bytes, v5, P::WIDE, true) {
                Ok(p) => p,
                Err(_) => view(&packet),
            };
            Ev::Send { pk, bytes, rel: release_packet_id_if_send_error.map(|i| i.get()) }
        }
        GenericEvent::NotifyPacketIdReleased(i) => Ev::Released(i.get()),
        GenericEvent::RequestTimerReset { kind, duration_ms } => Ev::Reset(tk(kind), duration_ms),
        GenericEvent::RequestTimerCancel(k) => Ev::Cancel(tk(k)),
        GenericEvent::NotifyError(e) => Ev::Error(format!("{e:?}")),
        GenericEvent::RequestClose => Ev::Close,
    }
}
fn evs<P: Pid>(v: Vec<GenericEvent<P>>) -> Vec<Ev> {
    v.into_iter().map(ev).collect()
}

pub fn to_store<P: Pid>(p: GenericPacket<P>) -> Option<GenericStorePacket<P>> {
    match p {
        GenericPacket::V3_1_1Publish(x) => x.try_into().ok(),
        GenericPacket::V5_0Publish(x) => x.try_into().ok(),
        GenericPacket::V3_1_1Pubrel(x) => x.try_into().ok(),
        GenericPacket::V5_0Pubrel(x) => x.try_into().ok(),
        _ => None,
    }
}
/// Store entries that the conversions refuse (QoS 0), made through the public enum.
fn store_packet_raw<P: Pid>(p: &Pk) -> Option<GenericStorePacket<P>> {
    match build::<P>(p).ok()? {
        GenericPacket::V3_1_1Publish(x) => Some(GenericStorePacket::V3_1_1Publish(x)),
        GenericPacket::V5_0Publish(x) => Some(GenericStorePacket::V5_0Publish(x)),
        GenericPacket::V3_1_1Pubrel(x) => Some(GenericStorePacket::V3_1_1Pubrel(x)),
        GenericPacket::V5_0Pubrel(x) => Some(GenericStorePacket::V5_0Pubrel(x)),
        _ => None,
    }
}

/// checked_send for the concrete packet type, if the type system accepts it for this role.
pub trait Checked<P: Pid> {
    fn checked(&mut self, p: GenericPacket<P>) -> Option<Vec<GenericEvent<P>>>;
}

struct Try<'a, R: RoleType, P: Pid, T>(&'a mut GenericConnection<R, P>, Option<T>);
trait ViaYes<P: Pid> {
    fn go(&mut self) -> Option<Vec<GenericEvent<P>>>;
}
impl<R: RoleType, P: Pid, T: Sendable<R, P>> ViaYes<P> for Try<'_, R, P, T> {
    fn go(&mut self) -> Option<Vec<GenericEvent<P>>> {
        self.1.take().map(|t| self.0.checked_send(t))
    }
}
trait ViaNo<P: Pid> {
    fn go(&mut self) -> Option<Vec<GenericEvent<P>>>;
}
impl<R: RoleType, P: Pid, T> ViaNo<P> for &mut Try<'_, R, P, T> {
    fn go(&mut self) -> Option<Vec<GenericEvent<P>>> {
        None
    }
}

macro_rules! checked_arms {
    ($s:ident, $p:ident; $($n:ident)*) => {
        match $p { $( GenericPacket::$n(x) => (&mut Try($s, Some(x))).go(), )* }
    };
}
macro_rules! checked_impl {
    ($($role:ty, $pid:ty);*) => { $(
        impl Checked<$pid> for GenericConnection<$role, $pid> {
            fn checked(&mut self, p: GenericPacket<$pid>) -> Option<Vec<GenericEvent<$pid>>> {
                checked_arms!(self, p; V3_1_1Connect V3_1_1Connack V3_1_1Publish V3_1_1Puback V3_1_1Pubrec
                   V3_1_1Pubrel V3_1_1Pubcomp V3_1_1Subscribe V3_1_1Suback V3_1_1Unsubscribe V3_1_1Unsuback
                   V3_1_1Pingreq V3_1_1Pingresp V3_1_1Disconnect
                   V5_0Connect V5_0Connack V5_0Publish V5_0Puback V5_0Pubrec V5_0Pubrel
                   V5_0Pubcomp V5_0Subscribe V5_0Suback V5_0Unsubscribe V5_0Unsuback
                   V5_0Pingreq V5_0Pingresp V5_0Disconnect V5_0Auth)
            }
        }
    )* };
}
checked_impl!(Client, u16; Client, u32; Server, u16; Server, u32; Any, u16; Any, u32);

impl<R: RoleType, P: Pid> Ep for EpImpl<R, P>
where
    GenericConnection<R, P>: Checked<P>,
    GenericPacket<P>: Sendable<R, P>,
{
    fn send(&mut self, p: &Pk) -> Option<Vec<Ev>> {
        let g = build::<P>(p).ok()?;
        Some(evs(self.c.send(g)))
    }
    fn checked(&mut self, p: &Pk) -> Option<Option<Vec<Ev>>> {
        let g = build::<P>(p).ok()?;
        Some(Checked::checked(&mut self.c, g).map(evs))
    }
    fn checked_generic(&mut self, p: &Pk) -> Option<Vec<Ev>> {
        let g = build::<P>(p).ok()?;
        Some(evs(self.c.checked_send(g)))
    }
    fn recv(&mut self, buf: &[u8], pos: usize) -> (Vec<Ev>, usize) {
        let mut c = Cursor::new(buf);
        c.set_position(pos as u64);
        let e = self.c.recv(&mut c);
        (evs(e), c.position() as usize)
    }
    fn timer(&mut self, t: Tk) -> Vec<Ev> {
        evs(self.c.notify_timer_fired(kt(t)))
    }
    fn closed(&mut self) -> Vec<Ev> {
        evs(self.c.notify_closed())
    }
    fn interval(&mut self, ms: Option<u64>) -> Vec<Ev> {
        evs(self.c.set_pingreq_send_interval(ms))
    }
    fn resp_to(&mut self, ms: u64) {
        self.c.set_pingresp_recv_timeout(ms)
    }
    fn offline(&mut self, b: bool) {
        self.c.set_offline_publish(b)
    }
    fn auto_pub(&mut self, b: bool) {
        self.c.set_auto_pub_response(b)
    }
    fn auto_ping(&mut self, b: bool) {
        self.c.set_auto_ping_response(b)
    }
    fn auto_map(&mut self, b: bool) {
        self.c.set_auto_map_topic_alias_send(b)
    }
    fn auto_repl(&mut self, b: bool) {
        self.c.set_auto_replace_topic_alias_send(b)
    }
    fn vacancy(&self) -> Option<u16> {
        self.c.get_receive_maximum_vacancy_for_send()
    }
    fn acquire(&mut self) -> Result<u32, String> {
        self.c.acquire_packet_id().map(|i| i.get()).map_err(|e| format!("{e:?}"))
    }
    fn register(&mut self, id: u32) -> bool {
        self.c.register_packet_id(P::mk(id)).is_ok()
    }
    fn release(&mut self, id: u32) -> Vec<Ev> {
        evs(self.c.release_packet_id(P::mk(id)))
    }
    fn handled(&self) -> BTreeSet<u32> {
        self.c.get_qos2_publish_handled().iter().map(|i| i.get()).collect()
    }
    fn restore_handled(&mut self, s: &BTreeSet<u32>) {
        let mut h: HashSet<P> = self.c.get_qos2_publish_handled();
        h.clear();
        for i in s {
            h.insert(P::mk(*i));
        }
        self.c.restore_qos2_publish_handled(h);
    }
    fn stored(&self) -> Vec<Pk> {
        self.c.get_stored_packets().into_iter().map(|s| view::<P>(&s.into())).collect()
    }
    fn restore_packets(&mut self, v: &[Pk]) {
        let v: Vec<GenericStorePacket<P>> = v.iter().filter_map(store_packet_raw::<P>).collect();
        self.c.restore_packets(v);
    }
    fn erase(&mut self, id: u32) -> Vec<Ev> {
        evs(self.c.erase_stored_publish(P::mk(id)))
    }
    fn regulate(&self, p: &Pk) -> Option<Result<Pk, String>> {
        match build::<P>(p).ok()? {
            GenericPacket::V5_0Publish(q) => Some(
                self.c
                    .regulate_for_store(q)
                    .map(|r| view::<P>(&r.into()))
                    .map_err(|e| format!("{e:?}")),
            ),
            _ => None,
        }
    }
    fn version(&self) -> Ver {
        match self.c.get_protocol_version() {
            Version::V3_1_1 => Ver::V3,
            Version::V5_0 => Ver::V5,
            Version::Undetermined => Ver::Und,
        }
    }
}

pub fn lib_ver(v: Ver) -> Version {
    match v {
        Ver::V3 => Version::V3_1_1,
        Ver::V5 => Version::V5_0,
        Ver::Und => Version::Undetermined,
    }
}
pub fn make(role: Role, v: Ver, wide: bool) -> Box<dyn Ep> {
    let v = lib_ver(v);
    match (role, wide) {
        (Role::Client, false) => Box::new(EpImpl::<Client, u16> { c: GenericConnection::new(v) }),
        (Role::Client, true) => Box::new(EpImpl::<Client, u32> { c: GenericConnection::new(v) }),
        (Role::Server, false) => Box::new(EpImpl::<Server, u16> { c: GenericConnection::new(v) }),
        (Role::Server, true) => Box::new(EpImpl::<Server, u32> { c: GenericConnection::new(v) }),
        (Role::Any, false) => Box::new(EpImpl::<Any, u16> { c: GenericConnection::new(v) }),
        (Role::Any, true) => Box::new(EpImpl::<Any, u32> { c: GenericConnection::new(v) }),
    }
}
