//! Connection properties: generated histories against the reference model (`model.rs`).
use crate::conn::*;
use crate::drive::{self, finish, to_res, Gen, Prof, BASE};
use crate::engine::*;
use crate::model::*;
use super::scale::*;
use crate::sim::{Sim, SimCfg};
use crate::spec::*;
use crate::{exhaustive2, stage, CheckDef, StageDef};

/// What a history contained, for the non-triviality rules and the class counters.
#[derive(Default)]
pub struct Facts {
    pub conns: u32,
    pub resumes: u32,
    pub resent: u32,
    pub refused: u32,
    pub q2_in: u32,
    pub q2_dup: u32,
    pub alias_out: u32,
    pub alias_empty: u32,
    pub alias_in: u32,
    pub flow_err: u32,
    pub size_err: u32,
    pub alias_err: u32,
    pub proto_err: u32,
    pub malformed: u32,
    pub timers: u32,
    pub resets: u32,
    pub closes: u32,
    pub close_reqs: u32,
    pub send_then_close: u32,
    pub rel: u32,
    pub acquired: u32,
    pub errors: u32,
    pub delivered: u32,
    pub stored: u32,
    pub auto_resp: u32,
    pub erased: u32,
}
pub fn facts(w: &World) -> Facts {
    let mut f = Facts { conns: w.conn_no, ..Facts::default() };
    for st in &w.hist {
        f.refused += st.refused as u32;
        match &st.op {
            Op::Timer(_) => f.timers += 1,
            Op::Closed => f.closes += 1,
            Op::Acquire | Op::Register(_) => f.acquired += 1,
            Op::Erase(_) => f.erased += 1,
            _ => {}
        }
        let local_ack = matches!(&st.op, Op::Send(p) | Op::Checked(p) if matches!(p, Pk::Connack { .. }));
        let connack = local_ack || st.evs.iter().any(|e| matches!(e, Ev::Recv { pk: Pk::Connack { .. }, .. }));
        let sp = st.evs.iter().any(|e| matches!(e, Ev::Recv { pk: Pk::Connack { sp: true, code: 0, .. }, .. } | Ev::Send { pk: Pk::Connack { sp: true, code: 0, .. }, .. }));
        f.resumes += sp as u32;
        let recv = matches!(st.op, Op::Recv(..));
        let got = st.evs.iter().any(|e| matches!(e, Ev::Recv { .. }));
        let mut sent = false;
        for e in &st.evs {
            match e {
                Ev::Recv { pk, .. } => {
                    f.delivered += 1;
                    if let Pk::Publish(q) = pk {
                        f.q2_in += (q.qos == 2) as u32;
                        f.alias_in += alias_of(&q.props).is_some() as u32;
                    }
                }
                Ev::Send { pk, .. } => {
                    sent = true;
                    match pk {
                        Pk::Publish(q) => {
                            f.resent += connack as u32;
                            if alias_of(&q.props).is_some() {
                                f.alias_out += 1;
                                f.alias_empty += q.topic.is_empty() as u32;
                            }
                        }
                        Pk::Ack { kind: 6, .. } => f.resent += connack as u32,
                        Pk::Ack { kind: 5, .. } if recv && !got => f.q2_dup += 1,
                        _ => {}
                    }
                    if recv && matches!(pk, Pk::Ack { .. } | Pk::Pingresp { .. }) {
                        f.auto_resp += 1;
                    }
                }
                Ev::Released(_) => f.rel += 1,
                Ev::Reset(..) => f.resets += 1,
                Ev::Error(e) => {
                    f.errors += 1;
                    match e.as_str() {
                        "ReceiveMaximumExceeded" => f.flow_err += 1,
                        "PacketTooLarge" => f.size_err += 1,
                        "TopicAliasInvalid" => f.alias_err += 1,
                        "ProtocolError" => f.proto_err += 1,
                        "MalformedPacket" => f.malformed += 1,
                        _ => {}
                    }
                }
                Ev::Close => {
                    f.close_reqs += 1;
                    f.send_then_close += sent as u32;
                }
                _ => {}
            }
        }
    }
    f.stored = w.m.store.len() as u32;
    f
}

pub fn label(ctx: &mut Ctx, w: &World, f: &Facts) {
    ctx.label(match w.m.role {
        Role::Client => "client",
        Role::Server => "server",
        Role::Any => "any",
    });
    ctx.label(match w.init_ver {
        Ver::V3 => "v3.1.1",
        Ver::V5 => "v5.0",
        Ver::Und => "undetermined",
    });
    for (c, l) in [
        (f.conns > 1, "several connections"),
        (f.conns > 3, "more than three connections"),
        (f.resumes > 0, "session resumed"),
        (f.resent > 0, "retransmitted"),
        (f.refused > 0, "refused send"),
        (f.q2_dup > 0, "QoS 2 duplicate"),
        (f.alias_empty > 0, "alias used alone"),
        (f.alias_in > 0, "inbound alias"),
        (f.flow_err > 0, "receive maximum hit"),
        (f.size_err > 0, "packet size limit hit"),
        (f.alias_err > 0, "inbound alias rejected"),
        (f.proto_err > 0, "protocol error"),
        (f.malformed > 0, "malformed packet"),
        (f.timers > 0, "timer fired"),
        (f.close_reqs > 0, "close requested"),
        (f.auto_resp > 0, "automatic response"),
        (f.erased > 0, "erase"),
        (w.restarts > 0, "restart"),
        (w.hist.len() > 40, "over 40 calls"),
    ] {
        if c {
            ctx.label(l);
        }
    }
}

fn run(target: &'static str, p: &Prof, s: &mut Src, ctx: &mut Ctx, rule: fn(&World, &Facts) -> bool) -> Res {
    run_then(target, p, s, ctx, rule, |_, _, _, _| Ok(()))
}
fn run_then(
    target: &'static str,
    p: &Prof,
    s: &mut Src,
    ctx: &mut Ctx,
    rule: fn(&World, &Facts) -> bool,
    last: fn(&mut World, &mut Gen, &mut Src, &mut Ctx) -> WRes<()>,
) -> Res {
    let r = (|| -> WRes<()> {
        let (mut w, mut g) = drive::world(target, s, ctx, p)?;
        finish(&mut w, &mut g, s, ctx)?;
        last(&mut w, &mut g, s, ctx)?;
        let f = facts(&w);
        ctx.nontrivial = rule(&w, &f);
        label(ctx, &w, &f);
        Ok(())
    })();
    if matches!(r, Err(Stop::Quiet)) {
        ctx.label("stopped at a difference of another property");
    }
    to_res(r)
}

// ------------------------------------------------------------------ profiles
const P05: Prof = Prof { junk: 8, after_close: 5, forbidden: 4, bad_acks: 3, und: true, partial: 6, wrong: 3, timers: 3, steps: (3, 50), ..BASE };
const P06: Prof = Prof { persist: 85, closes: 8, offline: 40, bad_acks: 2, erase: 2, publish: 24, restart: 1, ..BASE };
const P07: Prof = Prof { persist: 75, inbound: 40, publish: 5, closes: 8, restart: 2, ..BASE };
const P08: Prof = Prof { ids: 18, subs: 12, send_error: 3, wrong: 6, closes: 8, bad_acks: 3, erase: 3, persist: 40, ..BASE };
const P11: Prof = Prof { wrong: 25, checked: 40, closes: 8, offline: 25, refuse_conn: 8, ..BASE };
const P12: Prof = Prof { ver: Some(Ver::V5), limits: 80, acks: 20, publish: 30, inbound: 30, closes: 7, bad_acks: 2, erase: 2, ..BASE };
const P13: Prof = Prof { regulate: 5, ver: Some(Ver::V5), aliases: 80, publish: 50, inbound: 20, limits: 15, closes: 6, ..BASE };
const P14: Prof = Prof { ver: Some(Ver::V5), limits: 90, publish: 30, inbound: 25, subs: 6, closes: 7, auth: 3, wrong: 6, ..BASE };
const P15: Prof = Prof { timers: 14, options: 14, closes: 8, wrong: 5, forbidden: 1, ..BASE };
const P16: Prof = Prof { restart: 10, persist: 95, closes: 8, publish: 22, inbound: 22, offline: 25, aliases: 40, ..BASE };
const P17: Prof = Prof { und: true, forbidden: 15, closes: 7, persist: 70, ..BASE };
const P19: Prof = Prof { timers: 8, forbidden: 5, junk: 5, refuse_conn: 20, closes: 10, limits: 50, bad_acks: 4, und: true, wrong: 4, ..BASE };
const P01: Prof = Prof { partial: 6, cuts: 20, subs: 6, ..BASE };

fn h05(s: &mut Src, c: &mut Ctx) -> Res {
    run_then("C05", &P05, s, c, |_, f| f.malformed + f.proto_err + f.errors > 1, reconnect)
}
fn h06(s: &mut Src, c: &mut Ctx) -> Res {
    run("C06", &P06, s, c, |_, f| f.resent > 0)
}
fn h07(s: &mut Src, c: &mut Ctx) -> Res {
    run("C07", &P07, s, c, |_, f| f.q2_in > 0 && f.q2_dup > 0)
}
fn h08(s: &mut Src, c: &mut Ctx) -> Res {
    run("C08", &P08, s, c, |_, f| f.rel >= 2 && f.acquired >= 2)
}
fn h11(s: &mut Src, c: &mut Ctx) -> Res {
    run("C11", &P11, s, c, |_, f| f.refused > 0 && f.conns > 0)
}
fn h12(s: &mut Src, c: &mut Ctx) -> Res {
    run("C12", &P12, s, c, |_, f| f.flow_err > 0)
}
fn h13(s: &mut Src, c: &mut Ctx) -> Res {
    run("C13", &P13, s, c, |_, f| f.alias_empty > 0 || f.alias_in > 1)
}
fn h14(s: &mut Src, c: &mut Ctx) -> Res {
    run("C14", &P14, s, c, |_, f| f.size_err > 0)
}
fn h15(s: &mut Src, c: &mut Ctx) -> Res {
    run("C15", &P15, s, c, |_, f| f.resets > 1 && (f.timers > 0 || f.conns > 1))
}
fn h16(s: &mut Src, c: &mut Ctx) -> Res {
    run("C16", &P16, s, c, |w, f| w.restarts > 0 && f.resumes > 0 && (f.resent > 0 || f.q2_dup > 0))
}
fn h17(s: &mut Src, c: &mut Ctx) -> Res {
    run("C17", &P17, s, c, |w, f| f.proto_err > 0 || w.init_ver == Ver::Und)
}
fn h19(s: &mut Src, c: &mut Ctx) -> Res {
    run("C19", &P19, s, c, |_, f| f.send_then_close > 0)
}
fn h01(s: &mut Src, c: &mut Ctx) -> Res {
    run("C01", &P01, s, c, |_, f| f.auto_resp > 0)
}

/// After everything the peer did: the closed object accepts a new connection.
fn reconnect(w: &mut World, g: &mut Gen, s: &mut Src, ctx: &mut Ctx) -> WRes<()> {
    let bad = |m: String| Err(Stop::Fail(Fail::new("C05/no-new-connection", m)));
    g.close(w, ctx)?;
    let v5 = match w.m.ver {
        Ver::V5 => true,
        Ver::V3 => false,
        Ver::Und => s.bool(),
    };
    let c = Pk::Connect(Box::new(ConnectP { v5, clean: true, keep_alive: 0, client_id: "new".into(), will: None, user: None, pass: None, props: vec![] }));
    let a = Pk::Connack { v5, sp: false, code: 0, props: vec![] };
    let p = Pk::Publish(Box::new(PublishP { v5, dup: false, qos: 0, retain: false, topic: "t".into(), pid: None, props: vec![], payload: b"x".to_vec() }));
    let client = match w.m.role {
        Role::Client => true,
        Role::Server => false,
        Role::Any => w.m.ver != Ver::Und && s.bool(),
    };
    let mut seq: Vec<(bool, &Pk)> = if client { vec![(true, &c), (false, &a)] } else { vec![(false, &c), (true, &a)] };
    seq.extend([(true, &p), (false, &p)]);
    for (out, p) in seq {
        let evs = if out { w.ep.send(p).unwrap_or_default() } else { w.ep.apply(&Op::Recv(encode(p, w.m.wide), vec![])).unwrap_or_default() };
        ctx.log(|| format!("{} {} -> {}", if out { "send" } else { "receive" }, show_pk(p), show_evs(&evs)));
        let ok = evs.iter().any(|e| match e {
            Ev::Send { pk, .. } if out => pk == p || matches!((pk, p), (Pk::Publish(_), Pk::Publish(_))),
            Ev::Recv { pk, .. } if !out => pk == p,
            _ => false,
        });
        if !ok || evs.iter().any(|e| matches!(e, Ev::Error(_) | Ev::Close)) {
            return bad(format!("after notify_closed a new connection fails at {}: {}", show_pk(p), show_evs(&evs)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ twins
const P10: Prof = Prof { persist: 60, limits: 60, aliases: 50, subs: 6, partial: 8, closes: 6, timers: 3, options: 3, junk: 1, bad_acks: 2, und: true, offline: 25, steps: (2, 40), ..BASE };
const P16T: Prof = Prof { restart: 0, persist: 95, publish: 26, inbound: 26, ids: 4, subs: 5, offline: 25, aliases: 40, closes: 5, steps: (4, 45), ..BASE };
const P17T: Prof = Prof { role: Some(Role::Server), und: true, forbidden: 4, closes: 6, steps: (4, 50), ..BASE };

pub fn wrap(ctx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> WRes<()>) -> Res {
    let r = f(ctx);
    if matches!(r, Err(Stop::Quiet)) {
        ctx.label("stopped at a difference of another property");
    }
    to_res(r)
}
pub fn fresh(w: &World) -> Box<dyn Ep> {
    let mut ep = make(w.m.role, w.m.ver, w.m.wide);
    set_options(&mut *ep, &w.m);
    ep
}
fn connect_now(w: &mut World, g: &mut Gen, s: &mut Src, ctx: &mut Ctx, c: Pk) -> WRes<()> {
    g.rest.clear();
    let as_server = match w.m.role {
        Role::Client => false,
        Role::Server => true,
        Role::Any => w.m.ver == Ver::Und || s.bool(),
    };
    w.op(ctx, if as_server { Op::Recv(encode(&c, w.m.wide), vec![]) } else { Op::Send(c) })?;
    Ok(())
}
/// A used and closed object against a fresh one, from the CONNECT of a new session on.
fn t10(s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut w, mut g) = drive::world("C10", s, ctx, &P10)?;
        let before = w.conn_no;
        if s.chance(1, 2) && g.rest.is_empty() && !w.closing {
            // something half-received when the transport goes away
            let t = *s.pick(&[3u8, 4, 2, 1, 12, 14]);
            let p = g.any_packet(s, t, w.m.v5());
            let f = encode(&p, w.m.wide);
            let k = s.range(1, f.len() as u32 - 1) as usize;
            w.op(ctx, Op::Recv(f[..k].to_vec(), vec![]))?;
        }
        g.close(&mut w, ctx)?;
        for _ in 0..s.draw(4) {
            match s.draw(3) {
                0 => g.common(&mut w, s, ctx, 0)?,
                1 if w.m.ver != Ver::Und => g.publish(&mut w, s, ctx)?,
                _ => g.common(&mut w, s, ctx, 1)?,
            }
        }
        let left = !w.m.store.is_empty() || !w.m.handled.is_empty() || !w.m.in_use.is_empty();
        ctx.log(|| "--- a fresh object with the same options joins".into());
        w.twin = Some(Twin::new(fresh(&w), &["C10"], "a fresh object"));
        let v5 = if w.m.ver == Ver::Und { s.bool() } else { w.m.v5() };
        let mut c = g.connect(s, v5);
        if let Pk::Connect(c) = &mut c {
            c.clean = s.chance(2, 3);
            if !c.clean {
                ctx.label("new session by session present 0");
            }
        }
        let clean = matches!(&c, Pk::Connect(c) if c.clean);
        if let Some(t) = &mut w.twin {
            t.events_only = !clean;
        }
        connect_now(&mut w, &mut g, s, ctx, c)?;
        if !clean {
            let mut a = g.connack_ok(s, &w.m, !w.m.is_client);
            if let Pk::Connack { sp, .. } = &mut a {
                *sp = false;
            }
            let op = if w.m.is_client { Op::Recv(encode(&a, w.m.wide), vec![]) } else { Op::Send(a) };
            w.op(ctx, op)?;
            if w.m.st != St::Conned {
                // not accepted: no new session
                return Ok(());
            }
            if let Some(t) = &mut w.twin {
                t.events_only = false;
            }
        }
        drive::steps(&mut w, &mut g, s, ctx, (3, 40))?;
        finish(&mut w, &mut g, s, ctx)?;
        let n = w.twin.as_ref().map_or(0, |t| t.compared);
        ctx.nontrivial = before > 0 && n >= 5;
        if left {
            ctx.label("session state left over");
        }
        let f = facts(&w);
        label(ctx, &w, &f);
        Ok(())
    })
}
/// The restored object against the original one that only lost its transport.
fn t16(s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut w, mut g) = drive::world("C16", s, ctx, &P16T)?;
        if !w.m.persist || w.m.ver == Ver::Und {
            return Ok(());
        }
        let held: Vec<u32> = w.m.held.iter().copied().collect();
        let stored = w.m.store.len() + w.m.handled.len();
        let mut orig = w.restart_keep(s.draw(6), ctx)?;
        orig.closed();
        for id in held {
            orig.release(id);
        }
        ctx.log(|| "--- the original object, its transport closed and its unused identifiers released, runs along".into());
        let mut twin = Twin::new(orig, &["C16"], "the original object");
        if s.bool() {
            // the roles may be exchanged
            std::mem::swap(&mut w.ep, &mut twin.ep);
            twin.what = "the restored object";
        }
        w.twin = Some(twin);
        let ids: Vec<u32> = w.m.in_use.iter().copied().chain(1..=4).collect();
        w.probe(ctx, &ids)?;
        if stored > 0 && s.bool() {
            // not connected yet: a message for later, a transport lost before the CONNECT
            for _ in 0..s.draw(4) {
                match s.draw(5) {
                    0 => g.close(&mut w, ctx)?,
                    1 => g.common(&mut w, s, ctx, 0)?,
                    2 => g.common(&mut w, s, ctx, 3)?,
                    3 => g.common(&mut w, s, ctx, 6)?,
                    _ => g.publish(&mut w, s, ctx)?,
                }
                if w.m.st != St::Disc || !w.m.persist {
                    return Ok(());
                }
            }
            g.close(&mut w, ctx)?;
        }
        let mut c = g.connect(s, w.m.v5());
        if let Pk::Connect(c) = &mut c {
            c.clean = false;
            if c.v5 && !c.props.iter().any(|p| p.id == 0x11) {
                c.props.push(Pr { id: 0x11, v: Pv::U32(77) });
            }
        }
        connect_now(&mut w, &mut g, s, ctx, c)?;
        if s.chance(5, 6) {
            let mut a = g.connack_ok(s, &w.m, !w.m.is_client);
            if let Pk::Connack { sp, .. } = &mut a {
                *sp = s.chance(9, 10);
            }
            let op = if w.m.is_client { Op::Recv(encode(&a, w.m.wide), vec![]) } else { Op::Send(a) };
            w.op(ctx, op)?;
        }
        drive::steps(&mut w, &mut g, s, ctx, (3, 40))?;
        finish(&mut w, &mut g, s, ctx)?;
        ctx.nontrivial = stored > 0;
        let f = facts(&w);
        label(ctx, &w, &f);
        Ok(())
    })
}
/// A server that detects the version against one created with it.
fn t17(s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let role = if s.chance(3, 4) { Role::Server } else { Role::Any };
        let wide = s.chance(1, 4);
        let v5 = s.chance(3, 5);
        let mut w = World::new("C17", role, Ver::Und, wide);
        let mut g = Gen::new(s, P17T, wide);
        ctx.log(|| format!("{role:?} undetermined, {} bit identifiers", if wide { 32 } else { 16 }));
        drive::options(&mut w, &mut g, s, ctx)?;
        for _ in 0..s.draw(3) {
            // anything but a CONNECT of a known level is rejected
            g.common(&mut w, s, ctx, 4)?;
        }
        g.rest.clear();
        if w.m.ver != Ver::Und {
            return Ok(());
        }
        g.close(&mut w, ctx)?;
        let mut ep = make(role, if v5 { Ver::V5 } else { Ver::V3 }, wide);
        set_options(&mut *ep, &w.m);
        w.twin = Some(Twin::new(ep, &["C17"], "a server created with the version"));
        let c = g.connect(s, v5);
        let mut f = encode(&c, wide);
        if s.chance(1, 8) {
            // a CONNECT of a known level that does not parse
            let st = f.iter().skip(1).position(|b| b & 0x80 == 0).unwrap_or(0) + 2;
            let mut b = f[st..].to_vec();
            match s.draw(3) {
                0 => b.truncate(b.len() - 1),
                1 => b.push(0),
                _ => {
                    if let Some(x) = b.get_mut(7) {
                        *x |= 1;
                    }
                }
            }
            f = frame(0x10, &b);
        }
        w.op(ctx, Op::Recv(f, vec![]))?;
        drive::steps(&mut w, &mut g, s, ctx, (4, 50))?;
        finish(&mut w, &mut g, s, ctx)?;
        ctx.nontrivial = w.twin.as_ref().map_or(0, |t| t.compared) >= 5;
        let f = facts(&w);
        label(ctx, &w, &f);
        Ok(())
    })
}
/// The same history without the refused sends.
fn t11(s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let (mut w, mut g) = drive::start("C11", s, ctx, &P11)?;
        let mut t = Twin::new(fresh(&w), &["C11"], "the connection that was spared the refused sends");
        t.skip_refused = true;
        w.twin = Some(t);
        drive::steps(&mut w, &mut g, s, ctx, (4, 60))?;
        finish(&mut w, &mut g, s, ctx)?;
        ctx.nontrivial = w.twin.as_ref().map_or(0, |t| t.skipped) > 0 && w.conn_no > 0;
        let f = facts(&w);
        label(ctx, &w, &f);
        Ok(())
    })
}

// ------------------------------------------------------------------ matrices
/// One packet of each kind, valid, with the given identifier.
pub fn sample(t: u8, v5: bool, pid: u32) -> Pk {
    let none: Props = vec![];
    match t {
        1 => Pk::Connect(Box::new(ConnectP { v5, clean: false, keep_alive: 10, client_id: "m".into(), will: None, user: None, pass: None, props: none })),
        2 => Pk::Connack { v5, sp: false, code: 0, props: none },
        3 => Pk::Publish(Box::new(PublishP { v5, dup: false, qos: 1, retain: false, topic: "t".into(), pid: Some(pid), props: none, payload: vec![1] })),
        4..=7 => Pk::Ack { v5, kind: t, pid, code: None, props: None },
        8 => Pk::Subscribe { v5, pid, props: none, entries: vec![("t".into(), 1)] },
        9 => Pk::Suback { v5, pid, props: none, codes: vec![0] },
        10 => Pk::Unsubscribe { v5, pid, props: none, filters: vec!["t".into()] },
        11 => Pk::Unsuback { v5, pid, props: none, codes: if v5 { vec![0] } else { vec![] } },
        12 => Pk::Pingreq { v5 },
        13 => Pk::Pingresp { v5 },
        14 => Pk::Disconnect { v5, code: None, props: None },
        _ => Pk::Auth { code: Some(0x18), props: Some(vec![Pr { id: 0x15, v: Pv::Str("m".into()) }]) },
    }
}
/// Brings a connection into one of eight states; false if this role or version has no such state.
fn into_state(w: &mut World, ctx: &mut Ctx, state: u32, persist: bool) -> WRes<bool> {
    let v5 = w.m.v5();
    let client = state % 2 == 0;
    if w.m.ver == Ver::Und || (client && w.m.role == Role::Server) || (!client && w.m.role == Role::Client) {
        return Ok(state / 2 == 0 && client == (w.m.role != Role::Server));
    }
    let mut props = vec![];
    if v5 && persist {
        props.push(Pr { id: 0x11, v: Pv::U32(50) });
    }
    let c = Pk::Connect(Box::new(ConnectP { v5, clean: if v5 { false } else { !persist }, keep_alive: 5, client_id: "x".into(), will: None, user: None, pass: None, props }));
    let a = Pk::Connack { v5, sp: false, code: 0, props: vec![] };
    let f = |p: &Pk, out: bool, wide: bool| if out { Op::Send(p.clone()) } else { Op::Recv(encode(p, wide), vec![]) };
    let wide = w.m.wide;
    let steps = state / 2; // 0 fresh, 1 connecting, 2 connected, 3 disconnected again
    if steps >= 1 {
        w.op(ctx, f(&c, client, wide))?;
    }
    if steps >= 2 {
        w.op(ctx, f(&a, !client, wide))?;
    }
    if steps >= 3 {
        w.op(ctx, Op::Closed)?;
    }
    Ok(true)
}
/// role(3) x version(3) x state(8) x kind(29) x persistent(2) x offline(2) x checked(2) x width(2) x identifier in use(2)
const M11: u64 = 3 * 3 * 8 * 29 * 2 * 2 * 2 * 2 * 2;
fn m11(s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let mut i = s.draw(M11 as u32);
        let mut d = |n: u32| {
            let r = i % n;
            i /= n;
            r
        };
        let role = ROLES[d(3) as usize];
        let ver = [Ver::V3, Ver::V5, Ver::Und][d(3) as usize];
        let state = d(8);
        let k = d(29) as u8;
        let (t, v5) = if k < 14 { (k + 1, false) } else { (k - 13, true) };
        let (persist, offline, checked, wide, used) = (d(2) == 1, d(2) == 1, d(2) == 1, d(2) == 1, d(2) == 1);
        if ver == Ver::Und && role == Role::Client {
            return Ok(());
        }
        ctx.log(|| format!("{role:?} {ver:?} state {state} persistent {persist} offline {offline}"));
        let mut w = World::new("C11", role, ver, wide);
        if offline {
            w.op(ctx, Op::Offline(true))?;
        }
        let mut t2 = Twin::new(fresh(&w), &["C11"], "the connection that was spared the refused send");
        t2.skip_refused = true;
        w.twin = Some(t2);
        if !into_state(&mut w, ctx, state, persist)? {
            return Ok(());
        }
        if t == 2 && w.m.is_client && w.m.st == St::Conning {
            return Ok(());
        }
        let id = if used {
            w.op(ctx, Op::Acquire)?;
            w.m.held.iter().next().copied().unwrap_or(1)
        } else {
            9
        };
        if t == 6 && used && w.m.st == St::Conned {
            // not correct use before PUBREC
            return Ok(());
        }
        let p = sample(t, v5, id);
        let op = if checked { Op::Checked(p.clone()) } else { Op::Send(p.clone()) };
        if checked {
            // what the type system accepts
            let mut probe = make(role, ver, wide);
            let accepted = matches!(probe.checked(&p), Some(Some(_)));
            let want = role_may_send(role, t, v5);
            if accepted != want {
                return Err(Stop::Fail(Fail::new("C11/checked-types", format!("checked_send of {} on a {role:?} connection is {} at compile time", p.kind_name(), if accepted { "accepted" } else { "rejected" }))));
            }
            // the enum of all packets is checked at run time
            let mut a = make(role, ver, wide);
            let mut b = make(role, ver, wide);
            let (ea, eb) = (a.send(&p).unwrap_or_default(), b.checked_generic(&p).unwrap_or_default());
            if norm(&ea) != norm(&eb) {
                return Err(Stop::Fail(Fail::new("C11/checked-generic", format!("send gives {}, checked_send {}", show_evs(&ea), show_evs(&eb)))));
            }
            if !want {
                return Ok(());
            }
        }
        w.op(ctx, op)?;
        w.probe(ctx, &[1, 2, 9])?;
        // what the refused send must not have changed
        let v = w.m.v5();
        if w.m.ver != Ver::Und && !w.closing {
            if w.m.st == St::Conning {
                let a = Pk::Connack { v5: v, sp: true, code: 0, props: vec![] };
                let o = if w.m.is_client { Op::Recv(encode(&a, wide), vec![]) } else { Op::Send(a) };
                w.op(ctx, o)?;
            }
            if w.m.st == St::Conned {
                for t in [12u8, 3, 4] {
                    if t == 12 && w.m.role == Role::Client {
                        continue;
                    }
                    let mut p = sample(t, v, id);
                    if let Pk::Publish(q) = &mut p {
                        q.qos = 2;
                    }
                    w.op(ctx, Op::Recv(encode(&p, wide), vec![]))?;
                    if w.closing {
                        break;
                    }
                }
            }
        }
        w.op(ctx, Op::Closed)?;
        if w.m.ver != Ver::Und {
            let client = w.m.role != Role::Server;
            into_state(&mut w, ctx, if client { 4 } else { 5 }, true)?;
            w.op(ctx, Op::Closed)?;
        }
        w.probe(ctx, &[1, 2, 9])?;
        ctx.nontrivial = true;
        Ok(())
    })
}
/// role(3) x version(3) x state(8) x first byte(256 high nibble, flags 0/2/3/15 -> 64) x body(6) x persistent(2) x width(2)
const M17: u64 = 3 * 3 * 8 * 64 * 6 * 2 * 2;
fn m17(s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let mut i = s.draw(M17 as u32);
        let mut d = |n: u32| {
            let r = i % n;
            i /= n;
            r
        };
        let role = ROLES[d(3) as usize];
        let ver = [Ver::V3, Ver::V5, Ver::Und][d(3) as usize];
        let state = d(8);
        let t = d(16) as u8;
        let flags = [0u8, 2, 3, 15][d(4) as usize];
        let body = d(6);
        let (persist, wide) = (d(2) == 1, d(2) == 1);
        if ver == Ver::Und && role == Role::Client {
            return Ok(());
        }
        ctx.log(|| format!("{role:?} {ver:?} state {state} persistent {persist}"));
        let mut w = World::new("C17", role, ver, wide);
        if !into_state(&mut w, ctx, state, persist)? {
            return Ok(());
        }
        // something in the session that must not be touched
        if w.m.st == St::Conned {
            w.op(ctx, Op::Acquire)?;
            let p = sample(3, w.m.v5(), 1);
            w.op(ctx, Op::Send(p))?;
            let mut p = sample(3, w.m.v5(), 7);
            if let Pk::Publish(q) = &mut p {
                q.qos = 2;
            }
            w.op(ctx, Op::Recv(encode(&p, wide), vec![]))?;
        }
        let b: Vec<u8> = match body {
            0 | 1 => {
                let v5 = body == 1;
                if t == 0 || (t == 15 && !v5) {
                    vec![]
                } else {
                    spec_body(&sample(t, v5, 1), wide)
                }
            }
            2 => vec![],
            3 => vec![0, 1],
            4 => vec![0, 4, b'M', b'Q', b'T', b'T', 6, 2, 0, 0, 0, 0],
            _ => vec![0, 4, b'M', b'Q', b'T', b'T', 4],
        };
        w.op(ctx, Op::Recv(frame(t << 4 | flags, &b), vec![]))?;
        if !w.closing {
            // still the same connection
            if w.m.st == St::Conned {
                let p = sample(4, w.m.v5(), 1);
                w.op(ctx, Op::Recv(encode(&p, wide), vec![]))?;
            }
        }
        w.op(ctx, Op::Closed)?;
        w.probe(ctx, &[1, 2, 7])?;
        ctx.nontrivial = t != 0;
        Ok(())
    })
}
/// role(2) x width(2) x protocol level(256) x shape(8) x version of the CONNECT that follows(2) x split(2)
const U17: u64 = 2 * 2 * 256 * 28 * 2 * 2;
/// Every protocol level in the first CONNECT of an undetermined server.
fn u17(s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let mut i = s.draw(U17 as u32);
        let mut d = |n: u32| {
            let r = i % n;
            i /= n;
            r
        };
        let role = if d(2) == 0 { Role::Server } else { Role::Any };
        let wide = d(2) == 1;
        let level = d(256) as u8;
        let shape = d(28);
        let v5 = d(2) == 1;
        let split = d(2) == 1;
        let mut w = World::new("C17", role, Ver::Und, wide);
        ctx.log(|| format!("{role:?} undetermined, level {level}"));
        let mut b = spec_body(&sample(1, shape % 2 == 1, 1), wide);
        b[6] = level;
        match shape / 2 {
            1 => {
                // another protocol name of the same length
                b[2] = b'm';
            }
            2 => b.truncate(7),
            3 => {
                // more behind it
                b.extend([0, 0, 5]);
            }
            n @ 4..=13 => {
                // a protocol name of another length, the level after it
                let name: &[u8] = [&b""[..], b"M", b"MQ", b"MQT", b"MQTTs", b"MQIsdp", b"MQTT\0\x04", b"\0\x04MQTT", b"MQTT\x05\x02\0", b"MQ\x04\x04\x04\x05\x05"][n as usize - 4];
                let rest = b.split_off(7);
                b = (name.len() as u16).to_be_bytes().to_vec();
                b.extend(name);
                b.push(level);
                b.extend(rest);
            }
            _ => {}
        }
        let f = frame(0x10, &b);
        let cuts = if split { vec![3, 8] } else { vec![] };
        w.op(ctx, Op::Recv(f, cuts))?;
        let adopted = w.m.ver != Ver::Und;
        if w.closing || adopted {
            w.op(ctx, Op::Closed)?;
        }
        let v = if adopted { w.m.v5() } else { v5 };
        w.op(ctx, Op::Recv(encode(&sample(1, v, 1), wide), vec![]))?;
        if w.m.st == St::Conning {
            w.op(ctx, Op::Send(sample(2, v, 1)))?;
            w.op(ctx, Op::Recv(encode(&sample(12, v, 1), wide), vec![]))?;
        }
        ctx.nontrivial = true;
        Ok(())
    })
}
fn spec_body(p: &Pk, wide: bool) -> Vec<u8> {
    body(p, wide)
}

/// Every 16-bit identifier in use at once, in any order of acquiring, registering, publishing.
fn exhaust(s: &mut Src, ctx: &mut Ctx) -> Res {
    wrap(ctx, |ctx| {
        let role = *s.pick(&ROLES);
        let v5 = s.bool();
        let mut w = World::new("C08", role, if v5 { Ver::V5 } else { Ver::V3 }, false);
        let client = role != Role::Server;
        into_state(&mut w, ctx, if client { 4 } else { 5 }, s.bool())?;
        let bad = |sig: &str, m: String| Err(Stop::Fail(Fail::new(format!("C08/{sig}"), m)));
        let mut used: std::collections::BTreeSet<u32> = Default::default();
        let holes = s.draw(50);
        for _ in 0..holes {
            let id = s.range(1, 65535);
            if w.ep.register(id) != used.insert(id) {
                return bad("register", format!("register({id}) wrong"));
            }
        }
        // some of them are given to exchanges
        let mut out = vec![];
        for id in used.iter().copied().collect::<Vec<_>>() {
            if s.chance(1, 3) {
                let mut p = sample(3, v5, id);
                if let Pk::Publish(q) = &mut p {
                    q.qos = s.range(1, 2) as u8;
                }
                let e = w.ep.send(&p).unwrap_or_default();
                if !e.iter().any(|e| matches!(e, Ev::Send { .. })) {
                    return bad("publish", format!("PUBLISH {id}: {}", show_evs(&e)));
                }
                out.push(p);
            }
        }
        loop {
            match w.ep.acquire() {
                Ok(id) => {
                    if id == 0 || id > 65535 || !used.insert(id) {
                        return bad("acquire", format!("acquire gave {id}, which is {}", if id == 0 { "invalid" } else { "in use" }));
                    }
                }
                Err(_) => break,
            }
            if used.len() > 65535 {
                break;
            }
        }
        if used.len() != 65535 {
            return bad("exhaustion", format!("acquire failed with {} identifiers in use", used.len()));
        }
        ctx.log(|| format!("{role:?} v5={v5}: all 65535 identifiers in use, {holes} registered, {} in exchanges", out.len()));
        for _ in 0..s.range(1, 40) {
            let id = s.draw(65536);
            if w.ep.register(id) {
                return bad("register", format!("register({id}) succeeded although all are in use"));
            }
        }
        // releasing any makes exactly these available again
        let mut freed = std::collections::BTreeSet::new();
        for _ in 0..s.range(1, 30) {
            let id = if s.bool() { s.range(1, 65535) } else { *s.pick(&[1u32, 2, 32768, 65534, 65535]) };
            if out.iter().any(|p| p.pid() == Some(id)) {
                continue;
            }
            let e = w.ep.release(id);
            let want = if freed.insert(id) { vec![Ev::Released(id)] } else { vec![] };
            if e != want {
                return bad("release", format!("release({id}) returned {}", show_evs(&e)));
            }
        }
        // completing an exchange frees its identifier
        for p in &out {
            let id = p.pid().unwrap_or(0);
            let q2 = matches!(p, Pk::Publish(q) if q.qos == 2);
            let mut last = vec![];
            if q2 {
                w.ep.apply(&Op::Recv(encode(&sample(5, v5, id), false), vec![]));
                w.ep.send(&sample(6, v5, id));
                last.extend(w.ep.apply(&Op::Recv(encode(&sample(7, v5, id), false), vec![])).unwrap_or_default());
            } else {
                last.extend(w.ep.apply(&Op::Recv(encode(&sample(4, v5, id), false), vec![])).unwrap_or_default());
            }
            if last.iter().filter(|e| **e == Ev::Released(id)).count() != 1 {
                return bad("complete", format!("completing the exchange {id} gives {}", show_evs(&last)));
            }
            freed.insert(id);
        }
        let mut got = std::collections::BTreeSet::new();
        while let Ok(id) = w.ep.acquire() {
            if !got.insert(id) || got.len() > 65535 {
                return bad("acquire", format!("acquire gave {id} twice"));
            }
        }
        if got != freed {
            return bad("reacquire", format!("after releasing {freed:?} acquire gives {got:?}"));
        }
        ctx.nontrivial = true;
        Ok(())
    })
}

fn sim01(s: &mut Src, c: &mut Ctx) -> Res {
    Sim::run(SimCfg { target: "C01", restarts: false, steps: 160 }, s, c)
}
fn sim16(s: &mut Src, c: &mut Ctx) -> Res {
    Sim::run(SimCfg { target: "C16", restarts: true, steps: 160 }, s, c)
}

fn def(id: &'static str, rule: &'static str, stages: Vec<StageDef>) -> CheckDef {
    CheckDef {
        id,
        rule,
        assumptions: &[
            "the application uses the API correctly: it sends a packet only with an identifier it acquired or registered for it, fires only armed timers, reports the transport closed after a close request, and answers only what it received",
            "a connection is observed through its public calls, events and getters; identifiers in use are observed by probing register_packet_id on a window of values",
        ],
        stages: stages.into_iter().chain(super::small::stages(id)).collect(),
    }
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        def("C01", "a case is a history of application calls, peer frames, losses and timers on one endpoint, each call compared with the reference model; non-trivial = at least one automatic response (acknowledgement or PINGRESP) was requested", vec![stage("two-endpoints", 400_000, 12_000_000, sim01), stage("model-history", 240_000, 6_000_000, h01), stage("many-at-once", 400, 12_000, m01)]),
        def("C05", "a case is a configuration and a history in which the peer sends mutated, truncated, out-of-place and random frames in any chunking; every call must return, every frame be delivered, answered as duplicate or reported, and the closed object accept a new connection; non-trivial = at least one malformed packet and protocol error, or two error events, were provoked", vec![stage("hostile-peer", 480_000, 12_000_000, h05)]),
        def("C06", "a case is a history with persistent sessions and offline publishes; store, events and identifiers are compared with the model after every call; non-trivial = at least one stored packet was retransmitted on a resume", vec![stage("model-history", 400_000, 10_000_000, h06), stage("many-at-once", 600, 18_000, m06)]),
        def("C07", "a case is a history of inbound QoS 2 exchanges with duplicates across closes, resumes and restores; non-trivial = at least one QoS 2 PUBLISH was delivered and one duplicate was answered without delivery", vec![stage("model-history", 400_000, 10_000_000, h07), stage("many-at-once", 600, 18_000, m07)]),
        def("C08", "a case is a history with identifier calls, refused sends, failed transport writes and closes; non-trivial = at least two acquisitions and two releases", vec![stage("model-history", 400_000, 10_000_000, h08), stage("many-at-once", 600, 18_000, m08), stage("all-identifiers", 400, 8_000, exhaust)]),
        def("C10", "a case is a history on one object, closed at an arbitrary point (possibly inside a received frame), then a new session on the same object and on a fresh object with the same options, every later call compared; non-trivial = the first part made a connection and at least five calls were compared", vec![stage("reused-and-fresh", 400_000, 16_000_000, t10)]),
        def("C11", "a case is a history in which packets of every kind are sent in every state; non-trivial = at least one send was refused and a connection was made", vec![stage("model-history", 250_000, 10_000_000, h11), stage("without-the-refused-sends", 250_000, 10_000_000, t11), exhaustive2("matrix", M11, M11, m11)]),
        def("C12", "a case is a v5.0 history with small receive maxima; non-trivial = the limit was hit in at least one direction", vec![stage("model-history", 400_000, 10_000_000, h12), stage("many-at-once", 600, 18_000, m12)]),
        def("C13", "a case is a v5.0 history with aliases in both directions; non-trivial = an alias was sent without topic, or two aliased PUBLISH were delivered", vec![stage("model-history", 400_000, 10_000_000, h13), stage("many-at-once", 600, 18_000, m13)]),
        def("C14", "a case is a v5.0 history with small Maximum Packet Sizes and packets sized around them; non-trivial = the limit was hit at least once", vec![stage("model-history", 400_000, 10_000_000, h14)]),
        def("C15", "a case is a history with keep-alive, overrides, timers fired and closes; non-trivial = at least two timer requests and a fired timer or a second connection", vec![stage("model-history", 400_000, 10_000_000, h15)]),
        def("C16", "a case is a history in which the process dies at arbitrary points and a fresh object restores the export; non-trivial = a restart, a resume, and a retransmission or suppressed duplicate", vec![stage("model-history", 250_000, 10_000_000, h16), stage("many-at-once", 600, 18_000, m16), stage("original-and-restored", 250_000, 10_000_000, t16), stage("two-endpoints-with-restarts", 240_000, 6_000_000, sim16)]),
        def("C17", "a case is a history with packets the remote role never sends, second CONNECT/CONNACK and undetermined servers; non-trivial = a protocol error was provoked or the version was auto-detected", vec![stage("model-history", 250_000, 10_000_000, h17), stage("detected-and-fixed-version", 250_000, 10_000_000, t17), exhaustive2("matrix", M17, M17, m17), exhaustive2("all-protocol-levels", U17, U17, u17)]),
        def("C19", "a case is a history rich in errors, refusals, disconnects and expiries; non-trivial = an event list with a close request and a packet was seen", vec![stage("model-history", 400_000, 10_000_000, h19)]),
    ]
}
