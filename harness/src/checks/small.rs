//! All short histories over small alphabets (two identifiers, two topics, every kind of event),
//! each call compared with the reference model.  The case number is the history: in every state
//! the next digit picks one of the calls that are possible there.  A history in which a digit
//! exceeds the number of possible calls ends there and is counted as trivial.
use super::conn::{fresh, wrap};
use crate::conn::*;
use crate::engine::*;
use crate::model::*;
use crate::sim::*;
use crate::spec::*;
use crate::{exhaustive2, StageDef};

#[derive(Clone, Debug)]
pub enum A {
    /// register the identifier and publish with it: QoS, identifier, topic, alias
    Pub(u8, u32, &'static str, u16),
    Out(Pk),
    In(Pk),
    Op(Op),
    /// a whole CONNECT / CONNACK exchange: persistent, clean, session present
    Conn(bool, bool, bool),
    /// the CONNECT alone
    Half(bool, bool),
    /// the CONNACK of a half-open connection
    Accept(bool),
    Restart(u32),
}

/// Limits announced by us and by the peer.
#[derive(Clone, Copy, Default)]
struct Lim {
    rm: u16,
    tam: u16,
    mps: u32,
}
struct S {
    w: World,
    client: bool,
    v5: bool,
    ours: Lim,
    theirs: Lim,
    ka: u16,
    ska: Option<u16>,
    /// varies what makes no difference to what is possible next: reason codes, properties, flags
    x: u64,
}

fn ack(v5: bool, kind: u8, pid: u32, code: Option<u8>) -> Pk {
    Pk::Ack { v5, kind, pid, code: if v5 { code } else { None }, props: None }
}
fn publish(v5: bool, qos: u8, pid: u32, topic: &str, alias: u16, dup: bool) -> Pk {
    let props = if alias > 0 { vec![Pr { id: 0x23, v: Pv::U16(alias) }] } else { vec![] };
    Pk::Publish(Box::new(PublishP { v5, dup, qos, retain: false, topic: topic.into(), pid: if qos > 0 { Some(pid) } else { None }, props, payload: vec![b'p'] }))
}

impl S {
    fn new(target: &'static str, side: u32, v5: bool, wide: bool) -> S {
        let (role, client) = [(Role::Client, true), (Role::Server, false), (Role::Any, true), (Role::Any, false)][side as usize % 4];
        S { w: World::new(target, role, if v5 { Ver::V5 } else { Ver::V3 }, wide), client, v5, ours: Lim::default(), theirs: Lim::default(), ka: 0, ska: None, x: 0 }
    }
    fn lims(&self, l: Lim) -> Props {
        let mut p = vec![];
        if !self.v5 {
            return p;
        }
        if l.rm > 0 {
            p.push(Pr { id: 0x21, v: Pv::U16(l.rm) });
        }
        if l.tam > 0 {
            p.push(Pr { id: 0x22, v: Pv::U16(l.tam) });
        }
        if l.mps > 0 {
            p.push(Pr { id: 0x27, v: Pv::U32(l.mps) });
        }
        p
    }
    fn peer(&mut self, ctx: &mut Ctx, p: &Pk) -> WRes<()> {
        let f = encode(p, self.w.m.wide);
        self.w.op(ctx, Op::Recv(f, vec![]))?;
        Ok(())
    }
    fn half(&mut self, ctx: &mut Ctx, persist: bool, clean: bool) -> WRes<()> {
        let mut props = self.lims(if self.client { self.ours } else { self.theirs });
        if self.v5 && persist {
            props.insert(0, Pr { id: 0x11, v: Pv::U32(60) });
        }
        let clean = if self.v5 { clean } else { !persist };
        let c = Pk::Connect(Box::new(ConnectP { v5: self.v5, clean, keep_alive: self.ka, client_id: "s".into(), will: None, user: None, pass: None, props }));
        if self.client {
            self.w.op(ctx, Op::Send(c))?;
            Ok(())
        } else {
            self.peer(ctx, &c)
        }
    }
    fn accept(&mut self, ctx: &mut Ctx, sp: bool) -> WRes<()> {
        let mut props = self.lims(if self.client { self.theirs } else { self.ours });
        if let (true, Some(k)) = (self.v5, self.ska) {
            props.push(Pr { id: 0x13, v: Pv::U16(k) });
        }
        let a = Pk::Connack { v5: self.v5, sp, code: 0, props };
        if self.client {
            self.peer(ctx, &a)
        } else {
            self.w.op(ctx, Op::Send(a))?;
            Ok(())
        }
    }
    fn vary(&mut self, p: &mut Pk) {
        if self.x == 0 {
            return;
        }
        self.x = mix(self.x, 3) | 1;
        let x = self.x >> 8;
        let user = Pr { id: 0x26, v: Pv::Pair("k".into(), "v".into()) };
        match p {
            Pk::Publish(q) => {
                q.retain = x % 4 == 0;
                if q.v5 && x / 4 % 4 == 0 {
                    q.props.insert(0, user);
                } else if q.v5 && x / 4 % 4 == 1 {
                    q.props.push(user);
                }
                if x / 16 % 4 == 0 {
                    q.payload.clear();
                }
            }
            Pk::Ack { kind: 4 | 5, code: Some(c), props, .. } => {
                if *c >= 0x80 {
                    *c = [0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99][(x % 7) as usize];
                }
                if x / 7 % 4 == 0 {
                    *props = Some(vec![user]);
                }
            }
            Pk::Ack { v5: true, code: code @ None, props, .. } if x % 3 > 0 => {
                *code = Some(0);
                if x % 3 == 1 {
                    *props = Some(vec![user]);
                }
            }
            Pk::Suback { codes, v5, .. } if x % 2 == 0 => *codes = vec![if *v5 { 0x87 } else { 0x80 }],
            Pk::Unsuback { codes, v5: true, .. } if x % 2 == 0 => *codes = vec![0x11],
            Pk::Disconnect { v5: true, code, props } if code.is_none() => {
                *code = [None, Some(0), Some(0x04), Some(0x81), Some(0x8e), Some(0x98)][(x % 6) as usize];
                if code.is_some() && x / 6 % 2 == 0 {
                    *props = Some(vec![user]);
                }
            }
            Pk::Auth { code, .. } => *code = Some([0x18, 0x19, 0][(x % 3) as usize]),
            _ => {}
        }
    }
    fn run(&mut self, ctx: &mut Ctx, a: A) -> WRes<()> {
        match a {
            A::Pub(q, id, t, al) => {
                if q > 0 && !self.w.m.held.contains(&id) {
                    self.w.op(ctx, Op::Register(id))?;
                }
                let v5 = self.w.m.v5();
                let mut p = publish(v5, q, id, t, al, false);
                self.vary(&mut p);
                self.w.op(ctx, Op::Send(p))?;
                Ok(())
            }
            A::Out(mut p) => {
                self.vary(&mut p);
                let checked = self.x >> 40 & 1 == 1;
                self.w.op(ctx, if checked { Op::Checked(p) } else { Op::Send(p) }).map(|_| ())
            }
            A::In(mut p) => {
                self.vary(&mut p);
                self.peer(ctx, &p)
            }
            A::Op(o) => self.w.op(ctx, o).map(|_| ()),
            A::Conn(persist, clean, sp) => {
                self.half(ctx, persist, clean)?;
                if self.w.m.st == St::Conning && !self.w.closing {
                    self.accept(ctx, sp)?;
                }
                Ok(())
            }
            A::Half(persist, clean) => self.half(ctx, persist, clean),
            A::Accept(sp) => self.accept(ctx, sp),
            A::Restart(how) => self.w.restart(how, ctx),
        }
    }

    // ------------------------------------------------------------ what is possible
    /// The outbound side of two exchanges.
    fn outbound(&self, q2_only: bool, v: &mut Vec<A>) {
        let (m, v5) = (&self.w.m, self.v5);
        let open = m.st == St::Conned || m.persist;
        for id in [1u32, 2] {
            if open && !m.in_use.contains(&id) {
                v.push(A::Pub(2, id, "a", 0));
                if !q2_only {
                    v.push(A::Pub(1, id, "a", 0));
                }
            }
            let Some(e) = m.exch.get(&id) else { continue };
            if *e == Ex::Limbo && (m.st == St::Conned || m.persist) {
                v.push(A::Out(ack(v5, 6, id, None)));
            }
            if m.st != St::Conned || !m.out_conn.contains(&id) {
                continue;
            }
            for k in [4u8, 5, 7] {
                v.push(A::In(ack(v5, k, id, None)));
            }
            match e {
                Ex::WaitPuback if v5 && id == 1 => v.push(A::In(ack(v5, 4, id, Some(0x80)))),
                Ex::WaitPubrec if v5 => v.push(A::In(ack(v5, 5, id, Some(if id == 1 { 0x80 } else { 0x10 })))),
                Ex::WaitPubcomp if v5 && id == 2 => v.push(A::In(ack(v5, 7, id, Some(0x92)))),
                _ => {}
            }
        }
        // answers to what is no exchange
        if m.st == St::Conned && !m.exch.contains_key(&1) {
            for k in [4u8, 5, 7] {
                v.push(A::In(ack(v5, k, 1, None)));
            }
        }
    }
    /// The inbound side.
    fn inbound(&self, v: &mut Vec<A>) {
        let (m, v5) = (&self.w.m, self.v5);
        if m.st != St::Conned {
            return;
        }
        v.push(A::In(publish(v5, 2, 1, "b", 0, m.handled.contains(&1))));
        v.push(A::In(publish(v5, 2, 2, "b", 0, false)));
        if !m.handled.contains(&1) {
            v.push(A::In(publish(v5, 1, 1, "b", 0, false)));
        }
        for id in [1u32, 2] {
            v.push(A::In(ack(v5, 6, id, if id == 2 { Some(0x92) } else { None })));
            if m.handled.contains(&id) {
                v.push(A::Out(ack(v5, 5, id, None)));
                if v5 {
                    v.push(A::Out(ack(v5, 5, id, Some(0x83))));
                }
            } else if m.in_conn.contains(&id) {
                if id == 1 {
                    v.push(A::Out(ack(v5, 4, id, Some(0x80))));
                }
                v.push(A::Out(ack(v5, 7, id, None)));
            }
        }
    }
    fn lifecycle(&self, halves: bool, v: &mut Vec<A>) {
        match self.w.m.st {
            St::Disc => {
                v.push(A::Conn(true, false, true));
                v.push(A::Conn(true, false, false));
                v.push(A::Conn(true, true, false));
                v.push(A::Conn(false, false, true));
                if halves {
                    v.push(A::Half(true, false));
                }
            }
            St::Conning => {
                v.push(A::Accept(true));
                v.push(A::Accept(false));
                v.push(A::Op(Op::Closed));
            }
            St::Conned => v.push(A::Op(Op::Closed)),
        }
    }
}

/// A case number, its digits taken from the most significant one on.
struct Digits {
    rest: u64,
    span: u64,
}
impl Digits {
    fn d(&mut self, n: u32) -> u32 {
        self.span /= n as u64;
        let r = self.rest / self.span;
        self.rest %= self.span;
        r as u32
    }
}

/// `depth` picks among what `menu` offers, at most `base` at a time; then both ends of the
/// session are inspected once more.
fn walk(st: &mut S, d: &mut Digits, base: u32, depth: u32, ctx: &mut Ctx, menu: fn(&S, &mut Vec<A>)) -> WRes<bool> {
    for _ in 0..depth {
        let mut v = vec![];
        if st.w.closing {
            v.push(A::Op(Op::Closed));
        } else {
            menu(st, &mut v);
        }
        assert!(v.len() <= base as usize, "{} calls possible, at most {base} foreseen: {v:?}", v.len());
        let k = d.d(base) as usize;
        if k >= v.len() {
            // neither do the numbers up to the next smaller digit mean anything
            ctx.skip = d.span * (base as u64 - k as u64) - d.rest - 1;
            return Ok(false);
        }
        st.run(ctx, v.swap_remove(k))?;
    }
    Ok(true)
}
fn end(st: &mut S, ctx: &mut Ctx) -> WRes<()> {
    st.w.probe(ctx, &[1, 2, 3])?;
    st.run(ctx, A::Op(Op::Closed))?;
    st.w.probe(ctx, &[1, 2, 3])?;
    if st.w.m.persist && st.w.m.ver != Ver::Und {
        st.run(ctx, A::Conn(true, false, true))?;
        st.w.probe(ctx, &[1, 2, 3])?;
        if st.w.m.st == St::Conned {
            let v5 = st.v5;
            for id in st.w.m.handled.clone() {
                st.peer(ctx, &publish(v5, 2, id, "b", 0, true))?;
                if st.w.closing {
                    break;
                }
            }
        }
    }
    Ok(())
}
const fn pow(b: u64, n: u32) -> u64 {
    let (mut r, mut i) = (1, 0);
    while i < n {
        r *= b;
        i += 1;
    }
    r
}

/// A bounded space of histories: every configuration times `base` to the power of the depth, at
/// two depths one after the other.
struct Plan {
    cfg: u32,
    base: u32,
    depth: (u32, u32),
}
impl Plan {
    const fn quick(&self) -> u64 {
        self.cfg as u64 * pow(self.base as u64, self.depth.0)
    }
    const fn thorough(&self) -> u64 {
        self.quick() + self.cfg as u64 * pow(self.base as u64, self.depth.1)
    }
    /// The digits, the depth, and a few bits that vary without multiplying the space.
    fn open(&self, s: &mut Src) -> (Digits, u32, u64) {
        let i = s.u32() as u64 | (s.u32() as u64) << 32;
        let extra = mix(77, i);
        let q = self.quick();
        if i < q {
            (Digits { rest: i, span: q }, self.depth.0, extra)
        } else {
            let span = self.thorough() - q;
            (Digits { rest: (i - q).min(span - 1), span }, self.depth.1, extra)
        }
    }
}
fn go(st: &mut S, d: &mut Digits, p: &Plan, depth: u32, ctx: &mut Ctx, menu: fn(&S, &mut Vec<A>)) -> WRes<()> {
    ctx.log(|| format!("{:?} as {}, v5={}, {} bit identifiers", st.w.m.role, if st.client { "client" } else { "server" }, st.v5, if st.w.m.wide { 32 } else { 16 }));
    if walk(st, d, p.base, depth, ctx, menu)? {
        end(st, ctx)?;
        ctx.nontrivial = true;
    }
    Ok(())
}
// ------------------------------------------------------------------ outbound exchanges
/// side(4) x version(2) x starts connected(2)
const OUT: Plan = Plan { cfg: 16, base: 16, depth: (6, 7) };
fn out_menu(s: &S, v: &mut Vec<A>) {
    s.outbound(false, v);
    s.lifecycle(true, v);
    if s.w.m.store.iter().any(|p| p.pid() == Some(1)) {
        v.push(A::Op(Op::Erase(1)));
    }
}
fn out(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = OUT.open(s);
        let (side, v5, on) = (d.d(4), d.d(2) == 1, d.d(2) == 1);
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.x = x / 8;
        if on {
            st.run(ctx, A::Conn(true, false, false))?;
        } else {
            st.w.op(ctx, Op::Offline(true))?;
        }
        go(&mut st, &mut d, &OUT, depth, ctx, out_menu)
    })
}

// ------------------------------------------------------------------ inbound QoS 2
/// side(4) x version(2) x automatic responses(2)
const INB: Plan = Plan { cfg: 16, base: 14, depth: (5, 7) };
fn in_menu(s: &S, v: &mut Vec<A>) {
    s.inbound(v);
    s.lifecycle(false, v);
    if s.w.m.persist {
        v.push(A::Restart(0));
    }
}
fn inb(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = INB.open(s);
        let (side, v5, auto) = (d.d(4), d.d(2) == 1, d.d(2) == 1);
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.x = x / 8;
        st.w.op(ctx, Op::AutoPub(auto))?;
        st.run(ctx, A::Conn(true, false, false))?;
        go(&mut st, &mut d, &INB, depth, ctx, in_menu)
    })
}

// ------------------------------------------------------------------ sessions and restarts
/// side(4) x version(2) x automatic responses(2)
const SES: Plan = Plan { cfg: 16, base: 11, depth: (6, 8) };
fn ses_menu(s: &S, v: &mut Vec<A>) {
    let (m, v5) = (&s.w.m, s.v5);
    if m.st == St::Conned || m.persist {
        for (q, id) in [(1u8, 1u32), (2, 2)] {
            if !m.in_use.contains(&id) {
                v.push(A::Pub(q, id, "a", 0));
            }
        }
        if m.exch.get(&2) == Some(&Ex::Limbo) {
            v.push(A::Out(ack(v5, 6, 2, None)));
        }
    }
    if m.st == St::Conned {
        for (id, e) in &m.exch {
            if m.out_conn.contains(id) {
                match e {
                    Ex::WaitPuback => v.push(A::In(ack(v5, 4, *id, None))),
                    Ex::WaitPubrec => v.push(A::In(ack(v5, 5, *id, None))),
                    Ex::WaitPubcomp => v.push(A::In(ack(v5, 7, *id, None))),
                    Ex::Limbo => {}
                }
            }
        }
        v.push(A::In(publish(v5, 2, 1, "b", 0, m.handled.contains(&1))));
        if m.handled.contains(&1) {
            v.push(A::In(ack(v5, 6, 1, None)));
            if !m.auto_pub {
                v.push(A::Out(ack(v5, 5, 1, None)));
            }
        } else if m.in_conn.contains(&1) {
            v.push(A::Out(ack(v5, 7, 1, None)));
        }
    }
    s.lifecycle(false, v);
    if m.persist {
        v.push(A::Restart(0));
        if m.store.len() > 1 {
            v.push(A::Restart(1));
        }
    }
}
fn ses(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = SES.open(s);
        let (side, v5, auto) = (d.d(4), d.d(2) == 1, d.d(2) == 1);
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.x = x / 8;
        st.w.op(ctx, Op::AutoPub(auto))?;
        st.run(ctx, A::Conn(true, false, false))?;
        go(&mut st, &mut d, &SES, depth, ctx, ses_menu)
    })
}

// ------------------------------------------------------------------ identifiers
/// side(4) x version(2) x persistent(2)
const IDS: Plan = Plan { cfg: 16, base: 15, depth: (5, 6) };
fn ids_menu(s: &S, v: &mut Vec<A>) {
    let (m, v5) = (&s.w.m, s.v5);
    v.push(A::Op(Op::Acquire));
    v.push(A::Op(Op::Register(2)));
    for id in [1u32, 2] {
        if m.held.contains(&id) || !m.in_use.contains(&id) {
            v.push(A::Op(Op::Release(id)));
        }
    }
    // what an identifier can be used for, and sends that are refused
    let id = m.held.iter().next().copied();
    if let Some(id) = id {
        v.push(A::Out(publish(v5, 1, id, "a", 0, false)));
        v.push(A::Out(publish(v5, 2, id, "a", if v5 { 9 } else { 0 }, false)));
        if m.role != Role::Server {
            let p: Props = vec![];
            v.push(A::Out(Pk::Subscribe { v5, pid: id, props: p.clone(), entries: vec![("a".into(), 0)] }));
            v.push(A::Out(Pk::Unsubscribe { v5, pid: id, props: p, filters: vec!["a".into()] }));
        }
    }
    if m.st == St::Conned {
        for id in m.subs.iter().take(1) {
            v.push(A::In(Pk::Suback { v5, pid: *id, props: vec![], codes: vec![0x80] }));
        }
        for id in m.unsubs.iter().take(1) {
            v.push(A::In(Pk::Unsuback { v5, pid: *id, props: vec![], codes: if v5 { vec![0] } else { vec![] } }));
        }
        for (id, e) in m.exch.iter().filter(|e| m.out_conn.contains(e.0)).take(1) {
            match e {
                Ex::WaitPuback => v.push(A::In(ack(v5, 4, *id, None))),
                Ex::WaitPubrec => {
                    v.push(A::In(ack(v5, 5, *id, None)));
                    v.push(A::In(ack(v5, 5, *id, Some(0x80))));
                }
                Ex::WaitPubcomp => v.push(A::In(ack(v5, 7, *id, None))),
                Ex::Limbo => v.push(A::Out(ack(v5, 6, *id, None))),
            }
        }
    }
    match m.st {
        St::Conned => v.push(A::Op(Op::Closed)),
        St::Conning => v.push(A::Accept(true)),
        St::Disc => {
            v.push(A::Conn(true, false, true));
            v.push(A::Conn(false, true, false));
            v.push(A::Conn(true, false, false));
            v.push(A::Half(false, false));
        }
    }
    if let Some(id) = m.store.first().and_then(|p| p.pid()) {
        v.push(A::Op(Op::Erase(id)));
    }
}
fn ids(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = IDS.open(s);
        let (side, v5, persist) = (d.d(4), d.d(2) == 1, d.d(2) == 1);
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.x = x / 8;
        if v5 {
            // PUBLISH with alias 9 is refused
            st.theirs.tam = 2;
            st.ours.tam = 2;
        }
        st.run(ctx, A::Conn(persist, false, false))?;
        go(&mut st, &mut d, &IDS, depth, ctx, ids_menu)
    })
}

// ------------------------------------------------------------------ Receive Maximum
/// side(4) x maximum 1, 2, 3(3) x persistent(2)
const RMO: Plan = Plan { cfg: 24, base: 11, depth: (7, 8) };
fn rmo_menu(s: &S, v: &mut Vec<A>) {
    let m = &s.w.m;
    if m.st == St::Conned || m.persist {
        for q in [1u8, 2] {
            if let Some(id) = (1..=3u32).find(|i| !m.in_use.contains(i) || m.held.contains(i)) {
                v.push(A::Pub(q, id, "a", 0));
            }
        }
    }
    if m.st == St::Conned {
        for (id, e) in m.exch.iter().filter(|e| m.out_conn.contains(e.0)) {
            match e {
                Ex::WaitPuback => v.push(A::In(ack(true, 4, *id, if *id == 1 { Some(0x80) } else { None }))),
                Ex::WaitPubrec => {
                    v.push(A::In(ack(true, 5, *id, None)));
                    if *id != 3 {
                        v.push(A::In(ack(true, 5, *id, Some(0x80))));
                    }
                }
                Ex::WaitPubcomp => v.push(A::In(ack(true, 7, *id, None))),
                Ex::Limbo => v.push(A::Out(ack(true, 6, *id, None))),
            }
        }
    }
    match m.st {
        St::Conned => v.push(A::Op(Op::Closed)),
        St::Conning => v.push(A::Accept(true)),
        St::Disc => {
            v.push(A::Conn(true, false, true));
            v.push(A::Conn(true, false, false));
            v.push(A::Conn(false, true, false));
        }
    }
    if let Some(id) = m.store.first().and_then(|p| p.pid()) {
        v.push(A::Op(Op::Erase(id)));
    }
}
fn rmo(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = RMO.open(s);
        let (side, rm, persist) = (d.d(4), d.d(3) as u16 + 1, d.d(2) == 1);
        let mut st = S::new(target, side, true, x % 5 == 4);
        st.x = x / 8;
        st.theirs.rm = rm;
        st.run(ctx, A::Conn(persist, false, false))?;
        go(&mut st, &mut d, &RMO, depth, ctx, rmo_menu)
    })
}
/// side(4) x maximum 1, 2(2) x automatic responses(2)
const RMI: Plan = Plan { cfg: 16, base: 13, depth: (6, 8) };
fn rmi_menu(s: &S, v: &mut Vec<A>) {
    let m = &s.w.m;
    if m.st == St::Conned {
        for id in 1..=3u32 {
            if !m.in_conn.contains(&id) {
                v.push(A::In(publish(true, 2, id, "b", 0, m.handled.contains(&id))));
                if id < 3 && !m.handled.contains(&id) {
                    v.push(A::In(publish(true, 1, id, "b", 0, false)));
                }
            } else if id == 1 {
                v.push(A::In(publish(true, 2, 1, "b", 0, true)));
            }
            if m.handled.contains(&id) && id < 3 {
                v.push(A::In(ack(true, 6, id, None)));
                v.push(A::Out(ack(true, 5, id, None)));
                v.push(A::Out(ack(true, 5, id, Some(0x80))));
            } else if m.in_conn.contains(&id) && id < 3 {
                v.push(A::Out(ack(true, 4, id, None)));
                v.push(A::Out(ack(true, 7, id, None)));
            }
        }
    }
    match m.st {
        St::Conned => v.push(A::Op(Op::Closed)),
        St::Conning => v.push(A::Accept(true)),
        St::Disc => {
            v.push(A::Conn(true, false, true));
            v.push(A::Conn(true, false, false));
        }
    }
}
fn rmi(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = RMI.open(s);
        let (side, rm, auto) = (d.d(4), d.d(2) as u16 + 1, d.d(2) == 1);
        let mut st = S::new(target, side, true, x % 5 == 4);
        st.x = x / 8;
        st.ours.rm = rm;
        st.w.op(ctx, Op::AutoPub(auto))?;
        st.run(ctx, A::Conn(true, false, false))?;
        go(&mut st, &mut d, &RMI, depth, ctx, rmi_menu)
    })
}

// ------------------------------------------------------------------ topic aliases
/// side(4) x maximum 0, 1, 2(3) x automatic mapping and replacing(4)
const ALO: Plan = Plan { cfg: 48, base: 14, depth: (4, 5) };
fn alo_menu(s: &S, v: &mut Vec<A>) {
    let m = &s.w.m;
    match m.st {
        St::Conned => {
            for (t, a) in [("a", 0u16), ("b", 0), ("c", 0), ("a", 1), ("b", 1), ("a", 2), ("b", 2), ("", 1), ("", 2), ("", 0)] {
                v.push(A::Pub(0, 0, t, a));
            }
            if let Some(id) = (1..=3u32).find(|i| !m.in_use.contains(i) || m.held.contains(i)) {
                v.push(A::Pub(1, id, "a", 0));
                v.push(A::Pub(2, id, "b", 1));
                v.push(A::Pub(1, id, "", 1));
            }
            v.push(A::Op(Op::Closed));
        }
        St::Conning => v.push(A::Accept(true)),
        St::Disc => {
            v.push(A::Conn(true, false, true));
            v.push(A::Conn(true, true, false));
            if let Some(id) = (1..=3u32).find(|i| !m.in_use.contains(i) || m.held.contains(i)) {
                v.push(A::Pub(1, id, "a", 0));
                v.push(A::Pub(2, id, "b", 1));
                v.push(A::Pub(1, id, "", 1));
            }
        }
    }
}
fn alo(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = ALO.open(s);
        let (side, tam, map, repl) = (d.d(4), d.d(3) as u16, d.d(2) == 1, d.d(2) == 1);
        let mut st = S::new(target, side, true, x % 5 == 4);
        st.x = x / 8;
        st.theirs.tam = tam;
        st.w.op(ctx, Op::AutoMap(map))?;
        st.w.op(ctx, Op::AutoRepl(repl))?;
        st.run(ctx, A::Conn(true, false, false))?;
        go(&mut st, &mut d, &ALO, depth, ctx, alo_menu)
    })
}
/// side(4) x maximum 0, 1, 2(3)
const ALI: Plan = Plan { cfg: 12, base: 13, depth: (5, 6) };
fn ali_menu(s: &S, v: &mut Vec<A>) {
    let m = &s.w.m;
    match m.st {
        St::Conned => {
            for (t, a) in [("a", 0u16), ("a", 1), ("b", 1), ("a", 2), ("b", 2), ("", 1), ("", 2), ("", 3), ("a", 3), ("", 0)] {
                v.push(A::In(publish(true, 0, 0, t, a, false)));
            }
            v.push(A::In(publish(true, 2, 1, "a", 1, m.handled.contains(&1))));
            v.push(A::In(publish(true, 2, 1, "", 1, m.handled.contains(&1))));
            v.push(A::Op(Op::Closed));
        }
        St::Conning => v.push(A::Accept(true)),
        St::Disc => {
            v.push(A::Conn(true, false, true));
            v.push(A::Conn(true, true, false));
        }
    }
}
fn ali(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = ALI.open(s);
        let (side, tam) = (d.d(4), d.d(3) as u16);
        let mut st = S::new(target, side, true, x % 5 == 4);
        st.x = x / 8;
        st.ours.tam = tam;
        st.run(ctx, A::Conn(true, false, false))?;
        go(&mut st, &mut d, &ALI, depth, ctx, ali_menu)
    })
}

// ------------------------------------------------------------------ timers
/// side(4) x version(2) x keep-alive(2) x Server Keep Alive(3)
const TIM: Plan = Plan { cfg: 48, base: 19, depth: (4, 5) };
fn tim_menu(s: &S, v: &mut Vec<A>) {
    let (m, v5) = (&s.w.m, s.v5);
    for i in [None, Some(0), Some(7)] {
        v.push(A::Op(Op::Interval(i)));
    }
    for i in [0u64, 5] {
        if m.resp_to != i {
            v.push(A::Op(Op::RespTo(i)));
        }
    }
    for (i, t) in TKS.iter().enumerate() {
        if s.w.armed[i] {
            v.push(A::Op(Op::Timer(*t)));
        }
    }
    match m.st {
        St::Conned => {
            if s.client {
                v.push(A::Out(Pk::Pingreq { v5 }));
                v.push(A::In(Pk::Pingresp { v5 }));
                if m.held.is_empty() {
                    v.push(A::Op(Op::Acquire));
                } else if let Some(id) = m.held.iter().next().copied() {
                    v.push(A::Out(Pk::Subscribe { v5, pid: id, props: vec![], entries: vec![("a".into(), 0)] }));
                }
                if let Some(id) = m.subs.iter().next().copied() {
                    v.push(A::In(Pk::Suback { v5, pid: id, props: vec![], codes: vec![0] }));
                }
            } else {
                v.push(A::In(Pk::Pingreq { v5 }));
                v.push(A::Out(Pk::Pingresp { v5 }));
                v.push(A::In(Pk::Subscribe { v5, pid: 1, props: vec![], entries: vec![("a".into(), 0)] }));
                v.push(A::Out(Pk::Suback { v5, pid: 1, props: vec![], codes: vec![0] }));
            }
            v.push(A::Pub(0, 0, "a", 0));
            v.push(A::In(publish(v5, 1, 1, "b", 0, false)));
            v.push(A::In(ack(v5, 4, 1, None)));
            if v5 || s.client {
                v.push(A::Out(Pk::Disconnect { v5, code: None, props: None }));
            }
            if v5 || !s.client {
                v.push(A::In(Pk::Disconnect { v5, code: None, props: None }));
            }
            v.push(A::Op(Op::Closed));
        }
        St::Conning => {
            v.push(A::Accept(false));
            v.push(A::Op(Op::Closed));
        }
        St::Disc => {
            v.push(A::Conn(false, true, false));
            v.push(A::Half(false, true));
            v.push(A::Op(Op::Closed));
        }
    }
}
fn tim(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = TIM.open(s);
        let (side, v5, ka, ska) = (d.d(4), d.d(2) == 1, d.d(2), d.d(3));
        if !v5 && ska > 0 {
            ctx.skip = d.span - d.rest - 1;
            return Ok(());
        }
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.x = x / 8;
        st.ka = ka as u16 * 10;
        st.ska = [None, Some(0), Some(20)][ska as usize];
        st.w.op(ctx, Op::AutoPing(x / 5 % 2 == 1))?;
        st.run(ctx, A::Conn(false, true, false))?;
        go(&mut st, &mut d, &TIM, depth, ctx, tim_menu)
    })
}

// ------------------------------------------------------------------ two endpoints
/// version(2) x application of each side answers by hand(4)
const TWO: Plan = Plan { cfg: 8, base: 10, depth: (6, 8) };
/// the same with process deaths
const TWR: Plan = Plan { cfg: 8, base: 12, depth: (6, 7) };
fn two(plan: &Plan, target: &'static str, restarts: bool, s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut d, depth, x) = plan.open(s);
    let (v5, a, b) = (d.d(2) == 1, d.d(2) == 1, d.d(2) == 1);
    let mut w = Sim::small(SimCfg { target, restarts, steps: 0 }, v5, [a, b], x, ctx)?;
    for n in 0..depth {
        let v = w.choices();
        assert!(v.len() <= plan.base as usize, "{} steps possible, at most {} foreseen: {v:?}", v.len(), plan.base);
        let k = d.d(plan.base) as usize;
        if k >= v.len() {
            ctx.skip = d.span * (plan.base as u64 - k as u64) - d.rest - 1;
            return Ok(());
        }
        w.act(v[k], mix(x, n as u64 + 9), ctx)?;
    }
    w.finish(ctx)
}

// ------------------------------------------------------------------ every kind of packet, everywhere
/// side(4) x version(2) x automatic responses(2) x persistent(2) x start(3)
const ANY: Plan = Plan { cfg: 96, base: 36, depth: (3, 4) };
fn any_menu(s: &S, v: &mut Vec<A>) {
    let (m, v5) = (&s.w.m, s.v5);
    let last = if v5 { 15 } else { 14 };
    // what the peer may send, allowed or not
    for t in 1..=last {
        if t == 1 && m.st == St::Disc && s.client && m.role == Role::Any {
            // the other side of the role Any is another configuration
            continue;
        }
        let mut p = super::conn::sample(t, v5, 1);
        if let Pk::Publish(q) = &mut p {
            q.qos = 2;
            q.dup = m.handled.contains(&1);
        }
        v.push(A::In(p));
    }
    // what the application may send, allowed or not
    for t in 1..=last {
        let mut p = super::conn::sample(t, v5, 1);
        let ok = match t {
            1 => !(m.st == St::Disc && !s.client && m.role == Role::Any),
            2 => !(m.is_client && m.st == St::Conning),
            3 if m.st == St::Conned || m.persist => {
                if !m.in_use.contains(&2) {
                    if let Pk::Publish(q) = &mut p {
                        q.qos = 2;
                        q.pid = Some(2);
                    }
                    v.push(A::Pub(2, 2, "t", 0));
                }
                false
            }
            4 | 7 => m.st != St::Conned || (m.in_conn.contains(&1) && !m.handled.contains(&1)),
            5 => m.st != St::Conned || m.handled.contains(&1),
            6 => {
                p = super::conn::sample(6, v5, 2);
                !m.in_use.contains(&2) || m.exch.get(&2) == Some(&Ex::Limbo)
            }
            _ => true,
        };
        if ok {
            v.push(A::Out(p));
        }
    }
    for (i, t) in TKS.iter().enumerate() {
        if s.w.armed[i] {
            v.push(A::Op(Op::Timer(*t)));
        }
    }
    v.push(A::Op(Op::Closed));
    match m.st {
        St::Disc => v.push(A::Conn(true, false, true)),
        St::Conning => v.push(A::Accept(true)),
        St::Conned => {}
    }
}
fn any(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = ANY.open(s);
        let (side, v5, auto, persist, start) = (d.d(4), d.d(2) == 1, d.d(2) == 1, d.d(2) == 1, d.d(3));
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.x = x / 8;
        st.ka = 10;
        st.w.op(ctx, Op::AutoPub(auto))?;
        st.w.op(ctx, Op::AutoPing(auto))?;
        if start == 1 {
            st.w.op(ctx, Op::RespTo(5))?;
        }
        if start > 0 {
            st.run(ctx, A::Conn(persist, false, false))?;
        }
        go(&mut st, &mut d, &ANY, depth, ctx, any_menu)
    })
}

/// The same with a second connection that is spared the refused sends.
fn any_twin(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = ANY.open(s);
        let (side, v5, auto, persist, start) = (d.d(4), d.d(2) == 1, d.d(2) == 1, d.d(2) == 1, d.d(3));
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.ka = 10;
        st.w.op(ctx, Op::AutoPub(auto))?;
        if start == 1 {
            st.w.op(ctx, Op::RespTo(5))?;
        }
        let mut t = Twin::new(fresh(&st.w), &["C11"], "the connection that was spared the refused sends");
        t.skip_refused = true;
        st.w.twin = Some(t);
        if start > 0 {
            st.run(ctx, A::Conn(persist, false, false))?;
        }
        go(&mut st, &mut d, &ANY, depth, ctx, any_menu)
    })
}

// ------------------------------------------------------------------ packet sizes
/// side(4) x whose limit(2) x limit 1..=36 x automatic responses(2)
const SIZ: Plan = Plan { cfg: 576, base: 36, depth: (2, 3) };
fn siz(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = SIZ.open(s);
        let (side, ours, mps, auto) = (d.d(4), d.d(2) == 1, d.d(36) + 1, d.d(2) == 1);
        let mut st = S::new(target, side, true, x % 5 == 4);
        st.ka = 10;
        if ours {
            st.ours.mps = mps;
        } else {
            st.theirs.mps = mps;
        }
        st.w.op(ctx, Op::AutoPub(auto))?;
        st.w.op(ctx, Op::AutoPing(auto))?;
        st.run(ctx, A::Conn(true, false, false))?;
        go(&mut st, &mut d, &SIZ, depth, ctx, any_menu)
    })
}
/// side(4) x limit of the second and later connections 1..=24
const SIS: Plan = Plan { cfg: 96, base: 11, depth: (5, 6) };
fn sis_menu(s: &S, v: &mut Vec<A>) {
    let m = &s.w.m;
    if m.st == St::Conned || m.persist {
        if !m.in_use.contains(&1) || m.held.contains(&1) {
            v.push(A::Pub(1, 1, "a", 0));
            v.push(A::Pub(2, 1, "a/0123456", 0));
        }
        if !m.in_use.contains(&2) || m.held.contains(&2) {
            v.push(A::Pub(2, 2, "a/0", 0));
            v.push(A::Pub(1, 2, "a/0123456", 0));
        }
        if m.st == St::Conned {
            v.push(A::Pub(0, 0, "a/012", 0));
        }
    }
    if m.st == St::Conned {
        for (id, e) in m.exch.iter().filter(|e| m.out_conn.contains(e.0)) {
            match e {
                Ex::WaitPuback => v.push(A::In(ack(true, 4, *id, None))),
                Ex::WaitPubrec => v.push(A::In(ack(true, 5, *id, None))),
                Ex::WaitPubcomp => v.push(A::In(ack(true, 7, *id, None))),
                Ex::Limbo => v.push(A::Out(ack(true, 6, *id, Some(0)))),
            }
        }
    }
    match m.st {
        St::Conned => v.push(A::Op(Op::Closed)),
        St::Conning => v.push(A::Accept(true)),
        St::Disc => {
            v.push(A::Conn(true, false, true));
            v.push(A::Conn(true, false, false));
        }
    }
}
fn sis(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = SIS.open(s);
        let (side, mps) = (d.d(4), d.d(24) + 1);
        let mut st = S::new(target, side, true, x % 5 == 4);
        st.run(ctx, A::Conn(true, false, false))?;
        st.theirs.mps = mps;
        go(&mut st, &mut d, &SIS, depth, ctx, sis_menu)
    })
}

// ------------------------------------------------------------------ one object used again
/// side(4) x version(2) x automatic responses and mapping(2) x limits afterwards(2) x new session(2)
const REU: Plan = Plan { cfg: 64, base: 16, depth: (4, 5) };
/// What leaves something behind.
fn leave_menu(s: &S, v: &mut Vec<A>) {
    let (m, v5) = (&s.w.m, s.v5);
    match m.st {
        St::Conned => {
            if !m.in_use.contains(&1) {
                v.push(A::Pub(1, 1, "a", if v5 { 1 } else { 0 }));
            }
            if !m.in_use.contains(&2) {
                v.push(A::Pub(2, 2, "b", 0));
            } else if m.exch.get(&2) == Some(&Ex::WaitPubrec) {
                v.push(A::In(ack(v5, 5, 2, None)));
            } else if m.exch.get(&2) == Some(&Ex::Limbo) {
                v.push(A::Out(ack(v5, 6, 2, None)));
            }
            v.push(A::In(publish(v5, 2, 1, "a", if v5 { 1 } else { 0 }, m.handled.contains(&1))));
            v.push(A::In(publish(v5, 1, 2, "b", 0, false)));
            v.push(A::Op(Op::Acquire));
            if let (true, Some(id)) = (m.role != Role::Server, m.held.iter().next()) {
                v.push(A::Out(Pk::Subscribe { v5, pid: *id, props: vec![], entries: vec![("a".into(), 0)] }));
                v.push(A::Out(Pk::Unsubscribe { v5, pid: *id, props: vec![], filters: vec!["a".into()] }));
            }
            if s.client {
                v.push(A::Out(Pk::Pingreq { v5 }));
            } else {
                v.push(A::In(Pk::Pingreq { v5 }));
            }
            v.push(A::Op(Op::Interval(Some(7))));
            // a frame of which only a part arrives
            let f = encode(&publish(v5, 0, 0, "half", 0, false), m.wide);
            v.push(A::Op(Op::Recv(f[..5].to_vec(), vec![])));
            v.push(A::Op(Op::Recv(vec![0x40, 0x82], vec![])));
            v.push(A::In(Pk::Disconnect { v5, code: None, props: None }));
            v.push(A::Op(Op::Closed));
        }
        St::Conning => {
            v.push(A::Accept(true));
            v.push(A::Op(Op::Closed));
        }
        St::Disc => {
            v.push(A::Conn(true, false, true));
            v.push(A::Half(true, false));
            if m.persist && !m.in_use.contains(&1) {
                v.push(A::Pub(1, 1, "c", 0));
            }
            v.push(A::Op(Op::Acquire));
        }
    }
}
/// What would show it.
fn show_menu(s: &S, v: &mut Vec<A>) {
    let (m, v5) = (&s.w.m, s.v5);
    if m.st != St::Conned {
        v.push(A::Conn(true, false, true));
        return;
    }
    v.push(A::Op(Op::Acquire));
    if !m.in_use.contains(&1) {
        v.push(A::Pub(1, 1, "a", 0));
    }
    if !m.in_use.contains(&2) {
        v.push(A::Pub(2, 2, "a", 0));
    }
    v.push(A::In(publish(v5, 2, 1, "b", 0, m.handled.contains(&1))));
    v.push(A::In(publish(v5, 1, 2, "b", 0, false)));
    if v5 {
        v.push(A::Pub(0, 0, "", 1));
        v.push(A::Pub(0, 0, "a", 2));
        v.push(A::In(publish(v5, 0, 0, "", 1, false)));
        v.push(A::In(publish(v5, 0, 0, "a", 1, false)));
    }
    for k in [4u8, 5, 7] {
        v.push(A::In(ack(v5, k, if k == 4 { 1 } else { 2 }, None)));
    }
    if s.client {
        v.push(A::Out(Pk::Pingreq { v5 }));
        v.push(A::In(Pk::Suback { v5, pid: 1, props: vec![], codes: vec![0] }));
    } else {
        v.push(A::In(Pk::Pingreq { v5 }));
        v.push(A::Pub(0, 0, "a", 0));
    }
    v.push(A::Op(Op::Closed));
}
fn reu(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = REU.open(s);
        let (side, v5, auto, lim, clean) = (d.d(4), d.d(2) == 1, d.d(2) == 1, d.d(2) == 1, d.d(2) == 0);
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.ka = 10;
        st.ska = Some(4);
        st.w.op(ctx, Op::AutoPub(auto))?;
        st.w.op(ctx, Op::AutoMap(auto))?;
        st.w.op(ctx, Op::RespTo(5))?;
        (st.ours, st.theirs) = (Lim { rm: 2, tam: 2, mps: 30 }, Lim { rm: 2, tam: 2, mps: 40 });
        st.run(ctx, A::Conn(true, false, false))?;
        if !walk(&mut st, &mut d, REU.base, depth / 2, ctx, leave_menu)? {
            return Ok(());
        }
        st.run(ctx, A::Op(Op::Closed))?;
        ctx.log(|| "--- a fresh object with the same options joins".into());
        let mut t = Twin::new(fresh(&st.w), &["C10"], "a fresh object");
        t.events_only = !clean;
        st.w.twin = Some(t);
        st.ka = 0;
        st.ska = None;
        (st.ours, st.theirs) = if lim { (Lim { rm: 1, tam: 1, mps: 0 }, Lim { rm: 1, tam: 1, mps: 0 }) } else { Default::default() };
        // v3.1.1: a CONNECT without Clean Session asks for the old session, clean for a new one
        st.half(ctx, !clean || v5, clean)?;
        st.accept(ctx, false)?;
        if st.w.m.st != St::Conned {
            return Ok(());
        }
        if let Some(t) = &mut st.w.twin {
            t.events_only = false;
        }
        if walk(&mut st, &mut d, REU.base, depth - depth / 2, ctx, show_menu)? {
            st.w.probe(ctx, &[1, 2, 3])?;
            st.run(ctx, A::Op(Op::Closed))?;
            st.w.probe(ctx, &[1, 2, 3])?;
            ctx.nontrivial = true;
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ the restored object and the original
/// side(4) x version(2) x automatic responses(2)
const RES: Plan = Plan { cfg: 16, base: 12, depth: (6, 7) };
fn res_menu(s: &S, v: &mut Vec<A>) {
    ses_menu(s, v);
    v.retain(|a| !matches!(a, A::Restart(_) | A::Conn(false, ..)));
}
fn res(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = RES.open(s);
        let (side, v5, auto) = (d.d(4), d.d(2) == 1, d.d(2) == 1);
        let mut st = S::new(target, side, v5, x % 5 == 4);
        st.x = x / 8;
        st.w.op(ctx, Op::AutoPub(auto))?;
        st.run(ctx, A::Conn(true, false, false))?;
        if !walk(&mut st, &mut d, RES.base, depth - 2, ctx, res_menu)? || !st.w.m.persist {
            return Ok(());
        }
        let held: Vec<u32> = st.w.m.held.iter().copied().collect();
        let mut orig = st.w.restart_keep((x / 5 % 4) as u32, ctx)?;
        orig.closed();
        for id in held {
            orig.release(id);
        }
        ctx.log(|| "--- the original object, its transport closed, runs along".into());
        st.w.twin = Some(Twin::new(orig, &["C16"], "the original object"));
        st.run(ctx, A::Conn(true, false, true))?;
        if walk(&mut st, &mut d, RES.base, 2, ctx, res_menu)? {
            end(&mut st, ctx)?;
            ctx.nontrivial = true;
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ the version detected and given
/// role(2) x version(2) x automatic responses(2) x persistent(2)
const DET: Plan = Plan { cfg: 16, base: 36, depth: (3, 4) };
fn det(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut d, depth, x) = DET.open(s);
        let (role, v5, auto, persist) = (d.d(2), d.d(2) == 1, d.d(2) == 1, d.d(2) == 1);
        let wide = x % 5 == 4;
        let role = if role == 0 { Role::Server } else { Role::Any };
        let ver = if v5 { Ver::V5 } else { Ver::V3 };
        let mut st = S { w: World::new(target, role, Ver::Und, wide), client: false, v5, ours: Lim::default(), theirs: Lim::default(), ka: 10, ska: None, x: x / 8 };
        st.w.op(ctx, Op::AutoPub(auto))?;
        st.w.op(ctx, Op::AutoPing(auto))?;
        let mut ep = make(role, ver, wide);
        set_options(&mut *ep, &st.w.m);
        st.w.twin = Some(Twin::new(ep, &["C17"], "a server created with the version"));
        st.run(ctx, A::Half(persist, false))?;
        go(&mut st, &mut d, &DET, depth, ctx, any_menu)
    })
}

macro_rules! targets {
    ($($f:ident $g:ident $t:expr),*) => { $(fn $f(s: &mut Src, c: &mut Ctx) -> Res { $g($t, s, c) })* };
}
targets!(
    out01 out "C01", rmo06 rmo "C06", ali07 ali "C07", ali01 ali "C01",
    out06 out "C06", out08 out "C08", out12 out "C12",
    in07 inb "C07", in01 inb "C01",
    ses16 ses "C16", ses06 ses "C06",
    ids08 ids "C08",
    rmo12 rmo "C12", rmi12 rmi "C12",
    alo13 alo "C13", ali13 ali "C13",
    tim15 tim "C15", tim19 tim "C19",
    twin11 any_twin "C11",
    siz14 siz "C14", sis14 sis "C14",
    reu10 reu "C10", res16 res "C16", det17 det "C17",
    any01 any "C01", any05 any "C05", any11 any "C11", any15 any "C15", any17 any "C17", any19 any "C19"
);

fn st(name: &'static str, p: &Plan, f: fn(&mut Src, &mut Ctx) -> Res) -> StageDef {
    exhaustive2(name, p.quick(), p.thorough(), f)
}
/// The stages of this file that belong to a property.
fn two01(s: &mut Src, c: &mut Ctx) -> Res {
    two(&TWO, "C01", false, s, c)
}
fn two16(s: &mut Src, c: &mut Ctx) -> Res {
    two(&TWR, "C16", true, s, c)
}
pub fn stages(id: &str) -> Vec<StageDef> {
    match id {
        "C01" => vec![
            st("small-inbound", &INB, in01),
            st("small-every-packet", &ANY, any01),
            st("small-outbound", &OUT, out01),
            st("small-inbound-aliases", &ALI, ali01),
            st("small-two-endpoints", &TWO, two01),
        ],
        "C05" => vec![st("small-every-packet", &ANY, any05)],
        "C06" => vec![st("small-outbound", &OUT, out06), st("small-sessions", &SES, ses06), st("small-three-exchanges", &RMO, rmo06)],
        "C07" => vec![st("small-inbound", &INB, in07), st("small-inbound-aliases", &ALI, ali07)],
        "C08" => vec![st("small-identifiers", &IDS, ids08), st("small-outbound", &OUT, out08)],
        "C10" => vec![st("small-reused-and-fresh", &REU, reu10)],
        "C14" => vec![st("small-sizes", &SIZ, siz14), st("small-stored-sizes", &SIS, sis14)],
        "C11" => vec![st("small-without-the-refused-sends", &ANY, twin11), st("small-every-packet", &ANY, any11)],
        "C12" => vec![st("small-send-quota", &RMO, rmo12), st("small-receive-quota", &RMI, rmi12), st("small-outbound", &OUT, out12)],
        "C13" => vec![st("small-outbound-aliases", &ALO, alo13), st("small-inbound-aliases", &ALI, ali13)],
        "C15" => vec![st("small-timers", &TIM, tim15), st("small-every-packet", &ANY, any15)],
        "C16" => vec![st("small-sessions", &SES, ses16), st("small-original-and-restored", &RES, res16), st("small-two-endpoints-with-restarts", &TWR, two16)],
        "C17" => vec![st("small-every-packet", &ANY, any17), st("small-detected-and-fixed", &DET, det17)],
        "C19" => vec![st("small-timers", &TIM, tim19), st("small-every-packet", &ANY, any19)],
        _ => vec![],
    }
}
