//! Hundreds to tens of thousands of exchanges at once: the reference model again, with few draws
//! per case (the bulk comes from a generator seeded by one of them) and full state comparison
//! only every few hundred calls.
use super::conn::{facts, label, wrap};
use crate::conn::*;
use crate::engine::*;
use crate::model::*;
use crate::spec::*;
use std::collections::BTreeSet;

struct Side {
    rm: Option<u16>,
    tam: u16,
}
struct Big {
    r: Rng,
    n: usize,
    next_in: u32,
    /// inbound exchanges the application has to answer next: (identifier, packet kind)
    todo: Vec<(u32, u8)>,
    topics: u32,
    ordered: bool,
}
impl Big {
    fn below(&mut self, n: u32) -> u32 {
        (self.r.next() % n.max(1) as u64) as u32
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        if self.ordered {
            return;
        }
        for i in (1..v.len()).rev() {
            let j = self.below(i as u32 + 1) as usize;
            v.swap(i, j);
        }
    }
    fn props(&mut self, w: &World, v5: bool) -> Props {
        if v5 && w.m.tam_send > 0 && self.below(3) == 0 {
            return vec![Pr { id: 0x23, v: Pv::U16(1 + self.below(w.m.tam_send as u32) as u16) }];
        }
        vec![]
    }
    fn topic(&mut self) -> String {
        let t = self.topics;
        format!("t/{}", self.below(t))
    }

    fn send_one(&mut self, w: &mut World, ctx: &mut Ctx, qos: u8) -> WRes<bool> {
        let v5 = w.m.v5();
        let id = if self.below(20) == 0 {
            let id = 1 + self.below(65535);
            w.op(ctx, Op::Register(id))?;
            id
        } else {
            w.op(ctx, Op::Acquire)?;
            w.m.held.iter().next_back().copied().unwrap_or(0)
        };
        if !w.m.held.contains(&id) {
            return Ok(false);
        }
        let (topic, props) = (self.topic(), self.props(w, v5));
        let n = self.below(6) as usize;
        let before = w.m.exch.len();
        w.op(ctx, Op::Send(Pk::Publish(Box::new(PublishP { v5, dup: false, qos, retain: false, topic, pid: Some(id), props, payload: vec![7; n] }))))?;
        Ok(w.m.exch.len() > before)
    }
    fn outbound(&mut self, w: &mut World, ctx: &mut Ctx, k: usize) -> WRes<()> {
        let mut refused = 0;
        for _ in 0..k {
            let qos = 1 + (self.below(5) > 1) as u8;
            if !self.send_one(w, ctx, qos)? {
                refused += 1;
                if refused > 2 {
                    break;
                }
            }
        }
        Ok(())
    }
    /// The peer answers `k` of the outbound exchanges, in any order.
    fn answers(&mut self, w: &mut World, ctx: &mut Ctx, k: usize) -> WRes<()> {
        let v5 = w.m.v5();
        let mut ids: Vec<(u32, Ex)> = w.m.exch.iter().map(|(i, e)| (*i, e.clone())).collect();
        if self.below(3) > 0 {
            self.shuffle(&mut ids);
        } else if self.below(2) == 0 {
            ids.reverse();
        }
        for (id, e) in ids.into_iter().take(k) {
            let kind = match e {
                Ex::WaitPuback => 4,
                Ex::WaitPubrec => 5,
                Ex::WaitPubcomp => 7,
                _ => {
                    w.op(ctx, Op::Send(Pk::Ack { v5, kind: 6, pid: id, code: None, props: None }))?;
                    continue;
                }
            };
            let code = if v5 && self.below(9) == 0 { Some([0x10u8, 0x80, 0x97, 0][self.below(4) as usize]) } else { None };
            let code = if kind == 7 { code.map(|_| 0x92) } else { code };
            w.op(ctx, Op::Recv(encode(&Pk::Ack { v5, kind, pid: id, code, props: None }, w.m.wide), vec![]))?;
        }
        Ok(())
    }
    fn inbound(&mut self, w: &mut World, ctx: &mut Ctx, k: usize, over: bool) -> WRes<()> {
        let v5 = w.m.v5();
        let mut limit = None;
        if let (true, Some(r)) = (v5, w.m.rm_recv) {
            limit = Some(r as usize);
        }
        for _ in 0..k {
            if limit.is_some_and(|l| w.m.in_conn.len() >= l) && !over {
                break;
            }
            let pid = match self.below(12) {
                0 => w.m.handled.iter().next_back().copied().unwrap_or(1),
                1 => 1 + self.below(65535),
                _ => {
                    self.next_in = self.next_in % 65535 + 1;
                    self.next_in
                }
            };
            let busy = self.todo.iter().rev().take(50).any(|t| t.0 == pid) || (v5 && w.m.in_conn.contains(&pid) && !w.m.handled.contains(&pid));
            if busy {
                continue;
            }
            let dup = w.m.handled.contains(&pid);
            let qos = if dup { 2 } else { 1 + self.below(2) as u8 };
            let props = if v5 && w.m.tam_recv > 0 && self.below(3) == 0 { vec![Pr { id: 0x23, v: Pv::U16(1 + self.below(w.m.tam_recv as u32) as u16) }] } else { vec![] };
            let topic = self.topic();
            let p = Pk::Publish(Box::new(PublishP { v5, dup, qos, retain: false, topic, pid: Some(pid), props, payload: vec![1] }));
            w.op(ctx, Op::Recv(encode(&p, w.m.wide), vec![]))?;
            if w.closing {
                break;
            }
            if !w.m.auto_pub && !dup {
                self.todo.push((pid, if qos == 1 { 4 } else { 5 }));
            }
        }
        Ok(())
    }
    /// The application answers inbound exchanges; the peer sends PUBREL for completed ones.
    fn replies(&mut self, w: &mut World, ctx: &mut Ctx, k: usize) -> WRes<()> {
        let v5 = w.m.v5();
        let mut t = std::mem::take(&mut self.todo);
        self.shuffle(&mut t);
        for (i, (pid, kind)) in t.into_iter().enumerate() {
            if i >= k {
                self.todo.push((pid, kind));
                continue;
            }
            let code = if v5 && kind < 6 && self.below(7) == 0 { Some(0x83) } else { None };
            w.op(ctx, Op::Send(Pk::Ack { v5, kind, pid, code, props: None }))?;
        }
        let mut h: Vec<u32> = w.m.handled.iter().copied().collect();
        self.shuffle(&mut h);
        let open: BTreeSet<u32> = self.todo.iter().map(|t| t.0).collect();
        for pid in h.into_iter().take(k) {
            if open.contains(&pid) {
                continue;
            }
            w.op(ctx, Op::Recv(encode(&Pk::Ack { v5, kind: 6, pid, code: None, props: None }, w.m.wide), vec![]))?;
            if !w.m.auto_pub {
                w.op(ctx, Op::Send(Pk::Ack { v5, kind: 7, pid, code: None, props: None }))?;
            }
        }
        Ok(())
    }
    fn connect(&mut self, w: &mut World, ctx: &mut Ctx, clean: bool, sp: bool, sei: bool, ours: &Side, theirs: &Side) -> WRes<()> {
        self.todo.clear();
        let v5 = w.m.v5();
        let client = match w.m.role {
            Role::Client => true,
            Role::Server => false,
            Role::Any => self.below(2) == 0,
        };
        let props = |x: &Side, sei: bool| {
            let mut p: Props = vec![];
            if !v5 {
                return p;
            }
            if sei {
                p.push(Pr { id: 0x11, v: Pv::U32(100) });
            }
            if let Some(r) = x.rm {
                p.push(Pr { id: 0x21, v: Pv::U16(r) });
            }
            if x.tam > 0 {
                p.push(Pr { id: 0x22, v: Pv::U16(x.tam) });
            }
            p
        };
        let (first, second) = if client { (ours, theirs) } else { (theirs, ours) };
        let c = Pk::Connect(Box::new(ConnectP { v5, clean, keep_alive: 60, client_id: "big".into(), will: None, user: None, pass: None, props: props(first, sei) }));
        let a = Pk::Connack { v5, sp, code: 0, props: props(second, false) };
        let wide = w.m.wide;
        let (c, a) = if client { (Op::Send(c), Op::Recv(encode(&a, wide), vec![])) } else { (Op::Recv(encode(&c, wide), vec![]), Op::Send(a)) };
        w.op(ctx, c)?;
        w.op(ctx, a)?;
        Ok(())
    }
}

fn many(target: &'static str, s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let role = *s.pick(&ROLES);
        let v5 = match target {
            "C12" | "C13" => true,
            _ => s.chance(2, 3),
        };
        let wide = s.chance(1, 4);
        let persist = match target {
            "C06" | "C16" | "C07" => s.chance(9, 10),
            "C12" => s.chance(1, 3),
            _ => s.bool(),
        };
        // every identifier at once is slow (identifiers are released one by one in no order)
        let all = matches!(target, "C08" | "C12") && !persist && s.chance(1, 40);
        let huge = all || s.chance(1, if persist { 20 } else { 10 });
        let n = if all {
            *s.pick(&[65535u32, 65534, 65600, 32768])
        } else if huge {
            if persist {
                *s.pick(&[4095u32, 4096, 4097, 5000])
            } else {
                *s.pick(&[8192u32, 10000, 9999, 10001, 16385])
            }
        } else if s.chance(2, 3) {
            s.range(20, 300)
        } else {
            s.range(200, 1500)
        } as usize;
        let seed = s.u32();
        let mut w = World::new(target, role, if v5 { Ver::V5 } else { Ver::V3 }, wide);
        w.sparse = 1 + (n as u32 / 8).max(61);
        let mut b = Big { r: Rng::new(seed as u64), n, next_in: 0, todo: vec![], topics: *s.pick(&[1u32, 10, 300, 100000]), ordered: all };
        w.op(ctx, Op::AutoPub(s.bool()))?;
        if v5 {
            w.op(ctx, Op::AutoMap(s.chance(1, 3)))?;
            w.op(ctx, Op::AutoRepl(s.chance(1, 4)))?;
        }
        let side = |s: &mut Src| Side {
            rm: if huge && s.chance(4, 5) { *s.pick(&[None, Some(65535), Some(65534), Some(n.min(65535) as u16)]) } else if s.chance(1, 6) { None } else { Some((*s.pick(&[n as u32, n as u32 + 1, n as u32 - 1, n as u32 / 2, 127, 128, 255, 256, 257, 65534, 65535])).clamp(1, 65535) as u16) },
            tam: if s.chance(1, 3) { 0 } else { (*s.pick(&[n as u32, 1, 10, 127, 128, 255, 256, 257, 65534, 65535])).min(65535) as u16 },
        };
        ctx.log(|| format!("{role:?} v5={v5} {} bit identifiers, about {n} exchanges, persistent {persist}, bulk seed {seed}", if wide { 32 } else { 16 }));
        let (ours, theirs) = (side(s), side(s));
        let clean = if v5 { s.bool() } else { !persist };
        b.connect(&mut w, ctx, clean, false, persist, &ours, &theirs)?;
        let mut most = 0;
        for i in 0..s.range(2, if all { 3 } else { 7 }) {
            let part = |s: &mut Src, b: &Big| if i == 0 { b.n } else { (*s.pick(&[b.n, b.n, b.n / 2, b.n / 7, 3])).max(1) };
            if w.m.st != St::Conned && !w.closing {
                let (ours, theirs) = (side(s), side(s));
                let sp = persist && s.chance(7, 8);
                b.connect(&mut w, ctx, !persist && (v5 || !persist), sp, persist, &ours, &theirs)?;
            }
            let start = [3u32, 0, 2, 0, 0, 0, 0, 0];
            let next = [2u32, 6, 2, 2, 0, 0, 0, 0];
            match s.weighted(if i == 0 { &start } else if all { &next } else { &[6, 6, 4, 4, 3, 3, 1, 1] }) {
                0 => {
                    let k = part(s, &b);
                    ctx.log(|| format!("--- {k} outbound messages"));
                    b.outbound(&mut w, ctx, k)?
                }
                1 => {
                    let k = part(s, &b);
                    ctx.log(|| format!("--- {k} answers"));
                    b.answers(&mut w, ctx, k)?
                }
                2 => {
                    let k = part(s, &b);
                    let over = s.chance(1, 4);
                    ctx.log(|| format!("--- {k} inbound messages"));
                    b.inbound(&mut w, ctx, k, over)?
                }
                3 => {
                    let k = part(s, &b);
                    ctx.log(|| format!("--- {k} replies"));
                    b.replies(&mut w, ctx, k)?
                }
                4 => {
                    w.op(ctx, Op::Closed)?;
                }
                5 if persist => {
                    let how = s.draw(6);
                    w.restart(how, ctx)?;
                }
                6 => {
                    let mut ids: Vec<u32> = w.m.store.iter().filter_map(|p| p.pid()).collect();
                    b.shuffle(&mut ids);
                    for id in ids.into_iter().take(b.n / 3) {
                        w.op(ctx, Op::Erase(id))?;
                    }
                }
                _ => {
                    let k = part(s, &b);
                    if role == Role::Server {
                        continue;
                    }
                    ctx.log(|| format!("--- {k} SUBSCRIBE and UNSUBSCRIBE"));
                    for i in 0..k {
                        w.op(ctx, Op::Acquire)?;
                        let Some(pid) = w.m.held.iter().next_back().copied() else { break };
                        let p = if i % 2 == 0 {
                            Pk::Subscribe { v5, pid, props: vec![], entries: vec![("a".into(), 0)] }
                        } else {
                            Pk::Unsubscribe { v5, pid, props: vec![], filters: vec!["a".into()] }
                        };
                        w.op(ctx, Op::Send(p))?;
                    }
                    let mut ids: Vec<(u32, bool)> = w.m.subs.iter().map(|i| (*i, true)).chain(w.m.unsubs.iter().map(|i| (*i, false))).collect();
                    b.shuffle(&mut ids);
                    for (pid, sub) in ids.into_iter().take(k * 2 / 3) {
                        let p = if sub { Pk::Suback { v5, pid, props: vec![], codes: vec![0] } } else { Pk::Unsuback { v5, pid, props: vec![], codes: if v5 { vec![0] } else { vec![] } } };
                        w.op(ctx, Op::Recv(encode(&p, wide), vec![]))?;
                    }
                }
            }
            most = most.max(w.m.exch.len()).max(w.m.handled.len());
            w.full()?;
            if w.closing {
                if all {
                    break;
                }
                w.op(ctx, Op::Closed)?;
            }
        }
        if persist {
            w.op(ctx, Op::Closed)?;
            let (ours, theirs) = (side(s), side(s));
            b.connect(&mut w, ctx, false, true, true, &ours, &theirs)?;
        }
        let mut ids: Vec<u32> = w.m.in_use.iter().copied().collect();
        b.shuffle(&mut ids);
        ids.truncate(40);
        for _ in 0..40 {
            ids.push(1 + b.below(65535));
        }
        ids.extend([1, 2, 255, 256, 257, 65534, 65535]);
        w.probe(ctx, &ids)?;
        if !all {
            w.op(ctx, Op::Closed)?;
            w.probe(ctx, &ids)?;
        }
        ctx.nontrivial = most >= 20;
        if most >= 256 {
            ctx.label("more than 255 exchanges at once");
        }
        if most >= 32768 {
            ctx.label("more than 32767 exchanges at once");
        }
        let f = facts(&w);
        label(ctx, &w, &f);
        Ok(())
    })
}
macro_rules! targets {
    ($($f:ident $t:expr),*) => { $(pub fn $f(s: &mut Src, c: &mut Ctx) -> Res { many($t, s, c) })* };
}
targets!(m01 "C01", m06 "C06", m07 "C07", m08 "C08", m12 "C12", m13 "C13", m16 "C16");
