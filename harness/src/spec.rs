//! Reference codec for MQTT v3.1.1 and v5.0, written from the OASIS specifications and
//! sharing no code with the library.  `Pk` is the abstract packet all oracles work on.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pv {
    U8(u8),
    U16(u16),
    U32(u32),
    Vbi(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pr {
    pub id: u8,
    pub v: Pv,
}
pub type Props = Vec<Pr>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Will {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ConnectP {
    pub v5: bool,
    pub clean: bool,
    pub keep_alive: u16,
    pub client_id: String,
    pub will: Option<Will>,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
    pub props: Props,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PublishP {
    pub v5: bool,
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub pid: Option<u32>,
    pub props: Props,
    pub payload: Vec<u8>,
}

/// Acknowledgement kinds share a shape.  `kind` is the MQTT packet type 4..=7.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pk {
    Connect(Box<ConnectP>),
    Connack { v5: bool, sp: bool, code: u8, props: Props },
    Publish(Box<PublishP>),
    Ack { v5: bool, kind: u8, pid: u32, code: Option<u8>, props: Option<Props> },
    Subscribe { v5: bool, pid: u32, props: Props, entries: Vec<(String, u8)> },
    Suback { v5: bool, pid: u32, props: Props, codes: Vec<u8> },
    Unsubscribe { v5: bool, pid: u32, props: Props, filters: Vec<String> },
    Unsuback { v5: bool, pid: u32, props: Props, codes: Vec<u8> },
    Pingreq { v5: bool },
    Pingresp { v5: bool },
    Disconnect { v5: bool, code: Option<u8>, props: Option<Props> },
    Auth { code: Option<u8>, props: Option<Props> },
}

pub const PUBREL: u8 = 6;

impl Pk {
    pub fn ptype(&self) -> u8 {
        match self {
            Pk::Connect(_) => 1,
            Pk::Connack { .. } => 2,
            Pk::Publish(_) => 3,
            Pk::Ack { kind, .. } => *kind,
            Pk::Subscribe { .. } => 8,
            Pk::Suback { .. } => 9,
            Pk::Unsubscribe { .. } => 10,
            Pk::Unsuback { .. } => 11,
            Pk::Pingreq { .. } => 12,
            Pk::Pingresp { .. } => 13,
            Pk::Disconnect { .. } => 14,
            Pk::Auth { .. } => 15,
        }
    }
    pub fn v5(&self) -> bool {
        match self {
            Pk::Connect(c) => c.v5,
            Pk::Publish(p) => p.v5,
            Pk::Connack { v5, .. }
            | Pk::Ack { v5, .. }
            | Pk::Subscribe { v5, .. }
            | Pk::Suback { v5, .. }
            | Pk::Unsubscribe { v5, .. }
            | Pk::Unsuback { v5, .. }
            | Pk::Pingreq { v5 }
            | Pk::Pingresp { v5 }
            | Pk::Disconnect { v5, .. } => *v5,
            Pk::Auth { .. } => true,
        }
    }
    pub fn pid(&self) -> Option<u32> {
        match self {
            Pk::Publish(p) => p.pid,
            Pk::Ack { pid, .. }
            | Pk::Subscribe { pid, .. }
            | Pk::Suback { pid, .. }
            | Pk::Unsubscribe { pid, .. }
            | Pk::Unsuback { pid, .. } => Some(*pid),
            _ => None,
        }
    }
    pub fn props(&self) -> Option<&Props> {
        match self {
            Pk::Connect(c) => Some(&c.props),
            Pk::Publish(p) => Some(&p.props),
            Pk::Connack { props, .. }
            | Pk::Subscribe { props, .. }
            | Pk::Suback { props, .. }
            | Pk::Unsubscribe { props, .. }
            | Pk::Unsuback { props, .. } => Some(props),
            Pk::Ack { props, .. } | Pk::Disconnect { props, .. } | Pk::Auth { props, .. } => {
                props.as_ref()
            }
            _ => None,
        }
    }
    pub fn kind_name(&self) -> &'static str {
        let v5 = self.v5();
        kind_name(self.ptype(), v5)
    }
}

pub fn kind_name(t: u8, v5: bool) -> &'static str {
    match (t, v5) {
        (1, false) => "v3.connect",
        (2, false) => "v3.connack",
        (3, false) => "v3.publish",
        (4, false) => "v3.puback",
        (5, false) => "v3.pubrec",
        (6, false) => "v3.pubrel",
        (7, false) => "v3.pubcomp",
        (8, false) => "v3.subscribe",
        (9, false) => "v3.suback",
        (10, false) => "v3.unsubscribe",
        (11, false) => "v3.unsuback",
        (12, false) => "v3.pingreq",
        (13, false) => "v3.pingresp",
        (14, false) => "v3.disconnect",
        (1, true) => "v5.connect",
        (2, true) => "v5.connack",
        (3, true) => "v5.publish",
        (4, true) => "v5.puback",
        (5, true) => "v5.pubrec",
        (6, true) => "v5.pubrel",
        (7, true) => "v5.pubcomp",
        (8, true) => "v5.subscribe",
        (9, true) => "v5.suback",
        (10, true) => "v5.unsubscribe",
        (11, true) => "v5.unsuback",
        (12, true) => "v5.pingreq",
        (13, true) => "v5.pingresp",
        (14, true) => "v5.disconnect",
        (15, true) => "v5.auth",
        _ => "?",
    }
}

// ---------------------------------------------------------------- specification tables

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Byte,
    Two,
    Four,
    Vbi,
    Str,
    Bin,
    Pair,
}

/// (identifier, wire type, packets that may carry it).  MQTT v5.0 section 2.2.2.2, table 2-4.
/// Packet numbers are MQTT control packet types; 0 stands for the Will Properties.
pub const PROPS: &[(u8, Ty, &[u8])] = &[
    (0x01, Ty::Byte, &[3, 0]),
    (0x02, Ty::Four, &[3, 0]),
    (0x03, Ty::Str, &[3, 0]),
    (0x08, Ty::Str, &[3, 0]),
    (0x09, Ty::Bin, &[3, 0]),
    (0x0B, Ty::Vbi, &[3, 8]),
    (0x11, Ty::Four, &[1, 2, 14]),
    (0x12, Ty::Str, &[2]),
    (0x13, Ty::Two, &[2]),
    (0x15, Ty::Str, &[1, 2, 15]),
    (0x16, Ty::Bin, &[1, 2, 15]),
    (0x17, Ty::Byte, &[1]),
    (0x18, Ty::Four, &[0]),
    (0x19, Ty::Byte, &[1]),
    (0x1A, Ty::Str, &[2]),
    (0x1C, Ty::Str, &[2, 14]),
    (0x1F, Ty::Str, &[2, 4, 5, 6, 7, 9, 11, 14, 15]),
    (0x21, Ty::Two, &[1, 2]),
    (0x22, Ty::Two, &[1, 2]),
    (0x23, Ty::Two, &[3]),
    (0x24, Ty::Byte, &[2]),
    (0x25, Ty::Byte, &[2]),
    (0x26, Ty::Pair, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]),
    (0x27, Ty::Four, &[1, 2]),
    (0x28, Ty::Byte, &[2]),
    (0x29, Ty::Byte, &[2]),
    (0x2A, Ty::Byte, &[2]),
];

pub fn prop_ty(id: u8) -> Option<Ty> {
    PROPS.iter().find(|p| p.0 == id).map(|p| p.1)
}
pub fn prop_allowed(id: u8, pkt: u8) -> bool {
    PROPS.iter().any(|p| p.0 == id && p.2.contains(&pkt))
}
pub fn prop_repeatable(id: u8, pkt: u8) -> bool {
    id == 0x26 || (id == 0x0B && pkt == 3)
}
/// Value constraints of MQTT v5.0 on a single property value.
pub fn prop_value_ok(p: &Pr) -> bool {
    match (p.id, &p.v) {
        (0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A, Pv::U8(b)) => *b <= 1,
        (0x21 | 0x23, Pv::U16(v)) => *v != 0,
        (0x27, Pv::U32(v)) => *v != 0,
        (0x0B, Pv::Vbi(v)) => *v != 0 && *v <= 268_435_455,
        _ => true,
    }
}

/// Reason codes by packet type (MQTT v5.0) / return codes (v3.1.1).
pub fn codes(ptype: u8, v5: bool) -> &'static [u8] {
    match (ptype, v5) {
        (2, false) => &[0, 1, 2, 3, 4, 5],
        (9, false) => &[0, 1, 2, 0x80],
        (2, true) => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90,
            0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F,
        ],
        (4, true) | (5, true) => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        (6, true) | (7, true) => &[0x00, 0x92],
        (9, true) => &[
            0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2,
        ],
        (11, true) => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
        (14, true) => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93,
            0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1,
            0xA2,
        ],
        (15, true) => &[0x00, 0x18, 0x19],
        _ => &[],
    }
}

// ---------------------------------------------------------------- encoder

pub fn vbi(mut v: u32) -> Vec<u8> {
    let mut out = Vec::new();
    loop {
        let b = (v % 128) as u8;
        v /= 128;
        if v > 0 {
            out.push(b | 128);
        } else {
            out.push(b);
            return out;
        }
    }
}
fn e_str(o: &mut Vec<u8>, s: &str) {
    e_bin(o, s.as_bytes())
}
fn e_bin(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u16).to_be_bytes());
    o.extend_from_slice(b);
}
pub fn e_prop(o: &mut Vec<u8>, p: &Pr) {
    o.push(p.id);
    match &p.v {
        Pv::U8(x) => o.push(*x),
        Pv::U16(x) => o.extend_from_slice(&x.to_be_bytes()),
        Pv::U32(x) => o.extend_from_slice(&x.to_be_bytes()),
        Pv::Vbi(x) => o.extend_from_slice(&vbi(*x)),
        Pv::Str(s) => e_str(o, s),
        Pv::Bin(b) => e_bin(o, b),
        Pv::Pair(a, b) => {
            e_str(o, a);
            e_str(o, b)
        }
    }
}
pub fn e_props(o: &mut Vec<u8>, ps: &[Pr]) {
    let mut b = Vec::new();
    for p in ps {
        e_prop(&mut b, p);
    }
    o.extend_from_slice(&vbi(b.len() as u32));
    o.extend_from_slice(&b);
}
fn e_pid(o: &mut Vec<u8>, pid: u32, wide: bool) {
    if wide {
        o.extend_from_slice(&pid.to_be_bytes())
    } else {
        o.extend_from_slice(&(pid as u16).to_be_bytes())
    }
}

/// First byte of the fixed header.
pub fn header_byte(p: &Pk) -> u8 {
    match p {
        Pk::Publish(q) => 0x30 | (q.dup as u8) << 3 | q.qos << 1 | q.retain as u8,
        Pk::Ack { kind: PUBREL, .. } | Pk::Subscribe { .. } | Pk::Unsubscribe { .. } => {
            p.ptype() << 4 | 0b0010
        }
        _ => p.ptype() << 4,
    }
}

pub fn body(p: &Pk, wide: bool) -> Vec<u8> {
    let mut o = Vec::new();
    match p {
        Pk::Connect(c) => {
            e_str(&mut o, "MQTT");
            o.push(if c.v5 { 5 } else { 4 });
            let mut f = 0u8;
            if c.clean {
                f |= 1 << 1;
            }
            if let Some(w) = &c.will {
                f |= 1 << 2 | w.qos << 3 | (w.retain as u8) << 5;
            }
            if c.pass.is_some() {
                f |= 1 << 6;
            }
            if c.user.is_some() {
                f |= 1 << 7;
            }
            o.push(f);
            o.extend_from_slice(&c.keep_alive.to_be_bytes());
            if c.v5 {
                e_props(&mut o, &c.props);
            }
            e_str(&mut o, &c.client_id);
            if let Some(w) = &c.will {
                if c.v5 {
                    e_props(&mut o, &w.props);
                }
                e_str(&mut o, &w.topic);
                e_bin(&mut o, &w.payload);
            }
            if let Some(u) = &c.user {
                e_str(&mut o, u);
            }
            if let Some(u) = &c.pass {
                e_bin(&mut o, u);
            }
        }
        Pk::Connack { v5, sp, code, props } => {
            o.push(*sp as u8);
            o.push(*code);
            if *v5 {
                e_props(&mut o, props);
            }
        }
        Pk::Publish(q) => {
            e_str(&mut o, &q.topic);
            if let Some(i) = q.pid {
                e_pid(&mut o, i, wide);
            }
            if q.v5 {
                e_props(&mut o, &q.props);
            }
            o.extend_from_slice(&q.payload);
        }
        Pk::Ack { pid, code, props, .. } => {
            e_pid(&mut o, *pid, wide);
            if let Some(c) = code {
                o.push(*c);
            }
            if let Some(ps) = props {
                e_props(&mut o, ps);
            }
        }
        Pk::Subscribe { v5, pid, props, entries } => {
            e_pid(&mut o, *pid, wide);
            if *v5 {
                e_props(&mut o, props);
            }
            for (f, s) in entries {
                e_str(&mut o, f);
                o.push(*s);
            }
        }
        Pk::Suback { v5, pid, props, codes } => {
            e_pid(&mut o, *pid, wide);
            if *v5 {
                e_props(&mut o, props);
            }
            o.extend_from_slice(codes);
        }
        Pk::Unsubscribe { v5, pid, props, filters } => {
            e_pid(&mut o, *pid, wide);
            if *v5 {
                e_props(&mut o, props);
            }
            for f in filters {
                e_str(&mut o, f);
            }
        }
        Pk::Unsuback { v5, pid, props, codes } => {
            e_pid(&mut o, *pid, wide);
            if *v5 {
                e_props(&mut o, props);
                o.extend_from_slice(codes);
            }
        }
        Pk::Pingreq { .. } | Pk::Pingresp { .. } => {}
        Pk::Disconnect { code, props, .. } | Pk::Auth { code, props } => {
            if let Some(c) = code {
                o.push(*c);
            }
            if let Some(ps) = props {
                e_props(&mut o, ps);
            }
        }
    }
    o
}

pub fn frame(header: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![header];
    o.extend_from_slice(&vbi(body.len() as u32));
    o.extend_from_slice(body);
    o
}

pub fn encode(p: &Pk, wide: bool) -> Vec<u8> {
    frame(header_byte(p), &body(p, wide))
}

// ---------------------------------------------------------------- decoder (strict)

pub struct Rd<'a> {
    d: &'a [u8],
    i: usize,
}
type R<T> = Result<T, &'static str>;
impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Rd { d, i: 0 }
    }
    fn left(&self) -> usize {
        self.d.len() - self.i
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return Err("short");
        }
        let s = &self.d[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn vbi(&mut self) -> R<u32> {
        let mut v = 0u32;
        for k in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * k);
            if b & 0x80 == 0 {
                if k > 0 && b == 0 {
                    return Err("non-minimal vbi");
                }
                return Ok(v);
            }
        }
        Err("vbi too long")
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        String::from_utf8(self.bin()?).map_err(|_| "utf8")
    }
    fn pid(&mut self, wide: bool) -> R<u32> {
        let v = if wide { self.u32()? } else { self.u16()? as u32 };
        if v == 0 {
            return Err("packet id 0");
        }
        Ok(v)
    }
    fn props(&mut self, pkt: u8) -> R<Props> {
        let n = self.vbi()? as usize;
        let b = self.take(n)?;
        let mut r = Rd::new(b);
        let mut out: Props = vec![];
        while r.left() > 0 {
            let id = r.u8()?;
            let ty = prop_ty(id).ok_or("unknown property")?;
            if !prop_allowed(id, pkt) {
                return Err("property not allowed here");
            }
            if !prop_repeatable(id, pkt) && out.iter().any(|p| p.id == id) {
                return Err("property repeated");
            }
            let v = match ty {
                Ty::Byte => Pv::U8(r.u8()?),
                Ty::Two => Pv::U16(r.u16()?),
                Ty::Four => Pv::U32(r.u32()?),
                Ty::Vbi => Pv::Vbi(r.vbi()?),
                Ty::Str => Pv::Str(r.str()?),
                Ty::Bin => Pv::Bin(r.bin()?),
                Ty::Pair => {
                    let a = r.str()?;
                    Pv::Pair(a, r.str()?)
                }
            };
            let p = Pr { id, v };
            if !prop_value_ok(&p) {
                return Err("property value");
            }
            out.push(p);
        }
        Ok(out)
    }
}

/// Splits one frame: (first byte, body range end).  None when incomplete.
pub fn split_frame(d: &[u8]) -> R<Option<(u8, usize, usize)>> {
    if d.is_empty() {
        return Ok(None);
    }
    let mut v = 0usize;
    for k in 0..4 {
        if d.len() < 2 + k {
            return Ok(None);
        }
        let b = d[1 + k];
        v |= ((b & 0x7f) as usize) << (7 * k);
        if b & 0x80 == 0 {
            let start = 2 + k;
            if d.len() < start + v {
                return Ok(None);
            }
            return Ok(Some((d[0], start, start + v)));
        }
    }
    Err("remaining length")
}

/// Decodes exactly one packet occupying all of `d`.  `ext` admits the library's v3.1.1
/// extension of a reason code byte after the packet id of an acknowledgement.
pub fn decode(d: &[u8], v5: bool, wide: bool, ext: bool) -> R<Pk> {
    let (h, s, e) = split_frame(d)?.ok_or("incomplete")?;
    if e != d.len() {
        return Err("trailing bytes");
    }
    decode_body(h, &d[s..e], v5, wide, ext)
}

pub fn decode_body(h: u8, b: &[u8], v5: bool, wide: bool, ext: bool) -> R<Pk> {
    let t = h >> 4;
    let fl = h & 15;
    let want = match t {
        3 => fl,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if fl != want {
        return Err("flags");
    }
    let mut r = Rd::new(b);
    let p = match t {
        1 => {
            if r.str()? != "MQTT" {
                return Err("protocol name");
            }
            let lvl = r.u8()?;
            if lvl != if v5 { 5 } else { 4 } {
                return Err("level");
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err("reserved");
            }
            let keep_alive = r.u16()?;
            let props = if v5 { r.props(1)? } else { vec![] };
            let client_id = r.str()?;
            let will = if f & 4 != 0 {
                let wp = if v5 { r.props(0)? } else { vec![] };
                let topic = r.str()?;
                let payload = r.bin()?;
                let qos = f >> 3 & 3;
                if qos == 3 {
                    return Err("will qos");
                }
                Some(Will { topic, payload, qos, retain: f & 32 != 0, props: wp })
            } else {
                if f & 0b0011_1000 != 0 {
                    return Err("will bits");
                }
                None
            };
            let user = if f & 128 != 0 { Some(r.str()?) } else { None };
            let pass = if f & 64 != 0 { Some(r.bin()?) } else { None };
            Pk::Connect(Box::new(ConnectP {
                v5,
                clean: f & 2 != 0,
                keep_alive,
                client_id,
                will,
                user,
                pass,
                props,
            }))
        }
        2 => {
            let f = r.u8()?;
            if f > 1 {
                return Err("ack flags");
            }
            let code = r.u8()?;
            if !codes(2, v5).contains(&code) {
                return Err("code");
            }
            let props = if v5 { r.props(2)? } else { vec![] };
            Pk::Connack { v5, sp: f == 1, code, props }
        }
        3 => {
            let qos = fl >> 1 & 3;
            if qos == 3 {
                return Err("qos");
            }
            let topic = r.str()?;
            if topic.contains(['#', '+']) {
                return Err("topic wildcard");
            }
            let pid = if qos > 0 { Some(r.pid(wide)?) } else { None };
            let props = if v5 { r.props(3)? } else { vec![] };
            if topic.is_empty() && !props.iter().any(|p| p.id == 0x23) {
                return Err("empty topic");
            }
            let n = r.left();
            Pk::Publish(Box::new(PublishP {
                v5,
                dup: fl & 8 != 0,
                qos,
                retain: fl & 1 != 0,
                topic,
                pid,
                props,
                payload: r.take(n)?.to_vec(),
            }))
        }
        4..=7 => {
            let pid = r.pid(wide)?;
            let mut code = None;
            let mut props = None;
            if r.left() > 0 && (v5 || ext) {
                let c = r.u8()?;
                if !codes(t, true).contains(&c) {
                    return Err("code");
                }
                code = Some(c);
                if r.left() > 0 && v5 {
                    props = Some(r.props(t)?);
                }
            }
            Pk::Ack { v5, kind: t, pid, code, props }
        }
        8 => {
            let pid = r.pid(wide)?;
            let props = if v5 { r.props(8)? } else { vec![] };
            let mut entries = vec![];
            while r.left() > 0 {
                let f = r.str()?;
                let o = r.u8()?;
                if o & 3 == 3 || (v5 && (o & 0xC0 != 0 || o >> 4 & 3 == 3)) || (!v5 && o & 0xFC != 0 && !ext)
                {
                    return Err("subscription options");
                }
                entries.push((f, o));
            }
            if entries.is_empty() {
                return Err("no entries");
            }
            Pk::Subscribe { v5, pid, props, entries }
        }
        9 => {
            let pid = r.pid(wide)?;
            let props = if v5 { r.props(9)? } else { vec![] };
            let n = r.left();
            let cs = r.take(n)?.to_vec();
            if cs.is_empty() || cs.iter().any(|c| !codes(9, v5).contains(c)) {
                return Err("codes");
            }
            Pk::Suback { v5, pid, props, codes: cs }
        }
        10 => {
            let pid = r.pid(wide)?;
            let props = if v5 { r.props(10)? } else { vec![] };
            let mut filters = vec![];
            while r.left() > 0 {
                filters.push(r.str()?);
            }
            if filters.is_empty() {
                return Err("no filters");
            }
            Pk::Unsubscribe { v5, pid, props, filters }
        }
        11 => {
            let pid = r.pid(wide)?;
            let props = if v5 { r.props(11)? } else { vec![] };
            let mut cs = vec![];
            if v5 {
                let n = r.left();
                cs = r.take(n)?.to_vec();
                if cs.is_empty() || cs.iter().any(|c| !codes(11, true).contains(c)) {
                    return Err("codes");
                }
            }
            Pk::Unsuback { v5, pid, props, codes: cs }
        }
        12 => Pk::Pingreq { v5 },
        13 => Pk::Pingresp { v5 },
        14 | 15 => {
            if t == 15 && !v5 {
                return Err("auth in v3.1.1");
            }
            let mut code = None;
            let mut props = None;
            if v5 && r.left() > 0 {
                let c = r.u8()?;
                if !codes(t, true).contains(&c) {
                    return Err("code");
                }
                code = Some(c);
                if r.left() > 0 {
                    props = Some(r.props(t)?);
                }
            }
            if t == 14 {
                Pk::Disconnect { v5, code, props }
            } else {
                Pk::Auth { code, props }
            }
        }
        _ => return Err("packet type 0"),
    };
    if r.left() > 0 {
        return Err("trailing bytes in body");
    }
    Ok(p)
}
