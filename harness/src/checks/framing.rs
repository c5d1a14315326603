//! C09: framing.  The packet builder against a reference framer on arbitrary byte streams, and
//! recorded connection histories replayed with the same bytes cut differently.
use crate::conn::*;
use crate::drive::{self, Prof, BASE};
use crate::engine::*;
use crate::model::*;
use crate::spec::*;
use crate::{exhaustive2, stage, CheckDef};
use mqtt_protocol_core::mqtt::common::Cursor;
use mqtt_protocol_core::mqtt::connection::{PacketBuildResult, PacketBuilder, PacketData};

pub fn defs() -> Vec<CheckDef> {
    vec![CheckDef {
        id: "C09",
        rule: "a case is a byte stream and a partition of it into chunks; the packets, the errors and the position of the cursor after every call are compared with a reference framer (packet builder), or the events with those of the same stream fed one whole packet per call (connection); non-trivial = some chunk boundary lies inside a packet or some chunk holds more than one packet, and at least two packets were completed",
        assumptions: &[
            "the relative order of identifier release events inside one run of releases is not compared (the library drains hash sets)",
            "'whole packet at a time' is defined by the reference framer: a fixed header byte, one to four length bytes, that many bytes; five length bytes end an erroneous packet at the fifth byte",
        ],
        stages: vec![
            exhaustive2("builder-all-short-streams", SHORT, SHORT, short),
            stage("builder-streams", 600_000, 12_000_000, streams),
            stage("builder-sizes", 12_000, 180_000, sizes),
            stage("connection-rechunked", 240_000, 4_500_000, rechunk),
            stage("connection-junk-rechunked", 160_000, 3_000_000, junk_rechunk),
        ],
    }]
}

fn drive_builder(b: &mut PacketBuilder, f: &mut RefFramer, chunk: &[u8], done: &mut u32, ctx: &mut Ctx) -> Res {
    let mut pos = 0usize;
    while pos < chunk.len() {
        let mut c = Cursor::new(chunk);
        c.set_position(pos as u64);
        let r = b.feed(&mut c);
        let n = c.position() as usize;
        ensure!(n > pos && n <= chunk.len(), "progress", "feed at {pos} of {} left the cursor at {n}", chunk.len());
        // what the reference says about the same bytes
        let mut want = Fr::Need;
        let mut at = pos;
        while at < chunk.len() {
            f.buf.push(chunk[at]);
            at += 1;
            want = f.take();
            if !matches!(want, Fr::Need) {
                break;
            }
        }
        ensure!(n == at, "consumed", "feed consumed {} bytes, expected {} ({})", n - pos, at - pos, hex(&chunk[pos..chunk.len().min(pos + 40)]));
        match (&r, &want) {
            (PacketBuildResult::Incomplete, Fr::Need) => {}
            (PacketBuildResult::Error(_), Fr::Bad) => *done += 1,
            (PacketBuildResult::Complete(p), Fr::Frame(h, body, _)) => {
                *done += 1;
                let same = p.packet_type() == h >> 4
                    && p.flags() == h & 15
                    && p.data_as_slice() == &body[..]
                    && p.remaining_length() as usize == body.len()
                    && p.is_publish() == (h >> 4 == 3)
                    && matches!(p.data, PacketData::Publish(_)) == (h >> 4 == 3)
                    && p.data.is_empty() == body.is_empty();
                ensure!(same, "packet", "completed packet differs: header {:x}{:x} body {} , expected {h:02x} {}", p.packet_type(), p.flags(), hex(&p.data_as_slice()[..p.data_as_slice().len().min(60)]), hex(&body[..body.len().min(60)]));
            }
            (got, _) => {
                let w = match &want {
                    Fr::Need => "incomplete".to_string(),
                    Fr::Bad => "error".into(),
                    Fr::Frame(h, b, _) => format!("packet {h:02x} with {} bytes", b.len()),
                };
                fail!("result", "feed returned {got:?}, expected {w}");
            }
        }
        pos = n;
    }
    let _ = ctx;
    Ok(())
}

const ALPHA: [u8; 6] = [0x30, 0x00, 0x01, 0x02, 0x80, 0xff];
/// all streams of length 6 over the alphabet, all partitions into chunks
const SHORT: u64 = 6 * 6 * 6 * 6 * 6 * 6 * 32;
fn short(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut i = s.draw(SHORT as u32);
    let mask = i & 31;
    i >>= 5;
    let bytes: Vec<u8> = (0..6)
        .map(|_| {
            let b = ALPHA[(i % 6) as usize];
            i /= 6;
            b
        })
        .collect();
    let cuts: Vec<usize> = (1..6).filter(|k| mask >> (k - 1) & 1 == 1).collect();
    ctx.log(|| format!("bytes {} cut at {cuts:?}", hex(&bytes)));
    let mut b = PacketBuilder::new();
    let mut f = RefFramer::default();
    let mut done = 0;
    for c in pieces(&bytes, &cuts) {
        drive_builder(&mut b, &mut f, c, &mut done, ctx)?;
    }
    ctx.nontrivial = done >= 2 && !cuts.is_empty();
    Ok(())
}

fn random_cuts(s: &mut Src, n: usize) -> Vec<usize> {
    match s.weighted(&[3, 1, 4]) {
        0 => (1..n).collect(),
        1 => vec![],
        _ => {
            let mut v = vec![];
            let mut at = 0usize;
            let big = *s.pick(&[2u32, 5, 20, 200]);
            while at < n {
                at += s.range(1, big) as usize;
                if at < n {
                    v.push(at);
                }
            }
            v
        }
    }
}
fn streams(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut bytes = vec![];
    for _ in 0..s.range(1, 8) {
        s.begin();
        bytes.push(s.draw(256) as u8);
        match s.weighted(&[6, 3, 2, 1, 1]) {
            0 => {
                let n = s.draw(8) as usize;
                bytes.push(n as u8);
                for _ in 0..n {
                    bytes.push(s.draw(256) as u8);
                }
            }
            1 => {
                let n = s.range(120, 140) as usize;
                bytes.extend(vbi(n as u32));
                let fill = s.draw(256) as u8;
                bytes.extend((0..n).map(|i| fill ^ i as u8));
            }
            2 => {
                // non-minimal lengths
                let n = s.draw(5);
                let k = s.range(2, 4);
                for j in 0..k {
                    let b = if j == 0 { n as u8 } else { 0 };
                    bytes.push(if j + 1 < k { b | 0x80 } else { b });
                }
                bytes.extend((0..n).map(|i| i as u8));
            }
            3 => {
                // too many length bytes
                for _ in 0..3 {
                    bytes.push(0x80 | s.draw(128) as u8);
                }
                bytes.push(0x80 | s.draw(128) as u8);
            }
            _ => {
                let n = s.range(300, 500) as usize;
                bytes.extend(vbi(n as u32));
                let fill = s.draw(256) as u8;
                bytes.extend((0..n).map(|i| fill ^ (i * 7) as u8));
            }
        }
        s.end();
    }
    let cut = s.chance(1, 4);
    if cut {
        let n = s.draw(bytes.len() as u32) as usize;
        bytes.truncate(bytes.len() - n);
    }
    let cuts = random_cuts(s, bytes.len());
    ctx.log(|| format!("bytes {} cut at {cuts:?}", hex(&bytes)));
    let mut b = PacketBuilder::new();
    let mut f = RefFramer::default();
    let mut done = 0;
    for c in pieces(&bytes, &cuts) {
        drive_builder(&mut b, &mut f, c, &mut done, ctx)?;
    }
    if cut {
        // reset forgets the partial packet
        b.reset();
        let mut f = RefFramer::default();
        let mut d = 0;
        drive_builder(&mut b, &mut f, &[0xd0, 0, 0x40, 2, 0, 1], &mut d, ctx)?;
        ensure!(d == 2, "reset", "after reset two packets give {d} results");
        ctx.label("reset inside a packet");
    }
    ctx.nontrivial = done >= 2;
    Ok(())
}
/// Packet sizes around the boundaries of the length encoding, up to several MiB.
fn sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let base = *s.pick(&[0u32, 127, 128, 16_383, 16_384, 65_535, 65_536]);
    let n = match s.weighted(&[200, 1]) {
        0 => (base + s.draw(3)).saturating_sub(1),
        _ => 2_097_151 + s.draw(3),
    } as usize;
    let h = *s.pick(&[0x30u8, 0x3d, 0x10, 0x82, 0xf0]);
    let mut bytes = vec![h];
    bytes.extend(vbi(n as u32));
    let seed = s.u32();
    bytes.extend((0..n).map(|i| (seed as usize ^ i.wrapping_mul(31)) as u8));
    bytes.extend([0xd0, 0]);
    let mut cuts = vec![];
    for _ in 0..s.draw(6) {
        cuts.push(match s.draw(3) {
            0 => s.draw(8) as usize,
            1 => bytes.len() - 1 - s.draw(6.min(bytes.len() as u32 - 1)) as usize,
            _ => s.draw(bytes.len() as u32) as usize,
        });
    }
    cuts.sort();
    ctx.log(|| format!("header {h:02x}, {n} bytes, then a PINGRESP, cut at {cuts:?}"));
    let mut b = PacketBuilder::new();
    let mut f = RefFramer::default();
    let mut done = 0;
    for c in pieces(&bytes, &cuts) {
        drive_builder(&mut b, &mut f, c, &mut done, ctx)?;
    }
    ensure!(done == 2, "count", "{done} packets instead of 2");
    ctx.nontrivial = !cuts.is_empty();
    Ok(())
}

const P09: Prof = Prof { partial: 0, cuts: 0, junk: 1, forbidden: 1, closes: 5, und: true, ..BASE };
const P09J: Prof = Prof { partial: 0, cuts: 0, junk: 30, forbidden: 4, closes: 5, und: true, after_close: 6, ..BASE };

fn rechunk(s: &mut Src, ctx: &mut Ctx) -> Res {
    history(s, ctx, &P09)
}
fn junk_rechunk(s: &mut Src, ctx: &mut Ctx) -> Res {
    history(s, ctx, &P09J)
}
/// Records a history in which every call gets one whole packet, then replays it with the bytes
/// cut anywhere: parts of a packet may arrive before earlier local calls, packets that arrived
/// one after another may arrive in one chunk.
fn history(s: &mut Src, ctx: &mut Ctx, p: &Prof) -> Res {
    let n0 = ctx.log_len();
    let (w, _) = match drive::world("C09", s, ctx, p) {
        Ok(x) => x,
        Err(e) => return drive::to_res(Err(e)),
    };
    ctx.log_cut(n0);
    let m = &w.m;
    let mut a = make(m.role, w.init_ver, m.wide);
    let mut b = make(m.role, w.init_ver, m.wide);
    // segments: local calls, or a run of received frames
    enum Seg<'a> {
        Local(&'a Op),
        Bytes(Vec<Vec<u8>>),
    }
    let mut segs: Vec<Seg> = vec![];
    // junk may end inside a packet: what follows completes it
    let mut f = RefFramer::default();
    for st in &w.hist {
        match &st.op {
            Op::Recv(bytes, _) => {
                let mut frames = vec![];
                let mut at = 0;
                for (i, x) in bytes.iter().enumerate() {
                    f.buf.push(*x);
                    if !matches!(f.take(), Fr::Need) {
                        frames.push(bytes[at..i + 1].to_vec());
                        at = i + 1;
                    }
                }
                if at < bytes.len() {
                    frames.push(bytes[at..].to_vec());
                }
                if let Some(Seg::Bytes(v)) = segs.last_mut() {
                    v.extend(frames);
                } else {
                    segs.push(Seg::Bytes(frames));
                }
            }
            o => {
                if matches!(o, Op::Closed) {
                    f = RefFramer::default();
                }
                segs.push(Seg::Local(o))
            }
        }
    }
    // how much of each run of bytes arrives before the local calls in front of it
    let mut early: Vec<usize> = vec![0; segs.len()];
    let mut straddle = 0;
    for i in 0..segs.len() {
        if let Seg::Bytes(v) = &segs[i] {
            if v[0].len() > 1 && s.chance(1, 4) {
                let mut j = i;
                let room = s.range(1, 3);
                while j > 0 && (i - j) < room as usize && matches!(&segs[j - 1], Seg::Local(o) if !matches!(o, Op::Closed)) {
                    j -= 1;
                }
                if j < i {
                    let k = s.range(1, v[0].len() as u32 - 1) as usize;
                    early[i] = k;
                    straddle += 1;
                }
            }
        }
    }
    let mut frames = 0;
    let mut i = 0;
    while i < segs.len() {
        // a block: local calls (possibly with early bytes in front), then bytes
        let mut j = i;
        while j < segs.len() && matches!(segs[j], Seg::Local(_)) {
            j += 1;
        }
        let k = if j < segs.len() { early[j] } else { 0 };
        let room = if k > 0 { s.range(1, 3).min((j - i) as u32) as usize } else { 0 };
        for (n, seg) in segs[i..j].iter().enumerate() {
            let Seg::Local(o) = seg else { continue };
            let blocked = segs[i..j].iter().skip(n).any(|x| matches!(x, Seg::Local(Op::Closed)));
            if k > 0 && n == (j - i) - room && !blocked {
                if let Seg::Bytes(v) = &segs[j] {
                    let part = &v[0][..k];
                    ctx.log(|| format!("B receives {} early", hex(part)));
                    let e = feed(&mut *b, &[part.to_vec()], &[])?;
                    ensure!(e.is_empty(), "events-from-partial", "part of a packet gives {}", show_evs(&e));
                    early[j] = usize::MAX - k;
                }
            }
            let ea = a.apply(o).unwrap_or_default();
            let eb = b.apply(o).unwrap_or_default();
            ctx.log(|| format!("{} -> {}", show_op(o), show_evs(&ea)));
            ensure!(norm(&ea) == norm(&eb), "local-differs", "{} returned {} on the connection that got whole packets, {} on the other", show_op(o), show_evs(&ea), show_evs(&eb));
        }
        if let Some(Seg::Bytes(v)) = segs.get(j) {
            frames += v.len();
            let mut ea = vec![];
            for f in v {
                let e = feed(&mut *a, &[f.clone()], &[])?;
                ctx.log(|| format!("A receives {} -> {}", hex(f), show_evs(&e)));
                ea.extend(e);
            }
            let mut all: Vec<u8> = v.concat();
            if early[j] > usize::MAX / 2 {
                all.drain(..usize::MAX - early[j]);
            }
            let cuts = random_cuts(s, all.len());
            let eb = feed(&mut *b, &[all.clone()], &cuts)?;
            ctx.log(|| format!("B receives {} cut at {cuts:?} -> {}", hex(&all), show_evs(&eb)));
            ensure!(
                norm(&ea) == norm(&eb),
                "events-differ",
                "{} whole packets give {}; the same bytes cut at {cuts:?} give {}",
                v.len(),
                show_evs(&ea),
                show_evs(&eb)
            );
            j += 1;
        }
        ensure!(
            a.stored() == b.stored() && a.handled() == b.handled() && a.vacancy() == b.vacancy() && a.version() == b.version(),
            "state-differs",
            "getters differ after the same bytes in different chunks"
        );
        i = j;
    }
    ctx.nontrivial = frames >= 2;
    if straddle > 0 {
        ctx.label("part of a packet before a local call");
    }
    label_world(ctx, &w);
    Ok(())
}
fn label_world(ctx: &mut Ctx, w: &World) {
    let f = super::conn::facts(w);
    super::conn::label(ctx, w, &f);
}
/// Feeds bytes and checks that every call takes at least one byte and at most one packet.
fn feed(ep: &mut dyn Ep, bufs: &[Vec<u8>], cuts: &[usize]) -> Result<Vec<Ev>, Fail> {
    let mut out = vec![];
    for b in bufs {
        for piece in pieces(b, cuts) {
            let mut pos = 0;
            while pos < piece.len() {
                let (e, n) = ep.recv(piece, pos);
                ensure!(n > pos && n <= piece.len(), "progress", "recv at {pos} of {} left the cursor at {n}", piece.len());
                ensure!(e.iter().filter(|e| matches!(e, Ev::Recv { .. })).count() <= 1, "two-packets", "one recv call delivered two packets: {}", show_evs(&e));
                out.extend(e);
                pos = n;
            }
        }
    }
    Ok(out)
}
