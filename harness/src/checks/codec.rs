//! C02 round-trip, C03 reference codec, C04 decoder totality.
use crate::engine::*;
use crate::gen::{self, G};
use crate::libx::*;
use crate::spec::{self, *};
use crate::{exhaustive2, stage, CheckDef};
use mqtt_protocol_core::mqtt::common::{ArcPayload, IntoPayload};
use mqtt_protocol_core::mqtt::packet::{
    DecodeResult, MqttBinary, MqttString, PropertiesParse, PropertiesSize, PropertiesToBuffers,
    VariableByteInteger,
};

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C02",
            rule: "a case is one packet obtained from the public builders (all 29 kinds x u16/u32 identifiers; field and setter-sequence generators, lengths around storage and encoding boundaries); non-trivial = a builder accepted it and it was encoded, reparsed and compared",
            assumptions: &["std build (to_buffers exists only there)"],
            stages: vec![
                stage("roundtrip-u16", 1_200_000, 30_000_000, c02::<u16>),
                stage("roundtrip-u32", 1_200_000, 30_000_000, c02::<u32>),
                stage("setters-u16", 900_000, 16_000_000, c02_setters::<u16>),
                stage("setters-u32", 450_000, 8_000_000, c02_setters::<u32>),
                stage("conversions-u16", 300_000, 4_000_000, c02_conversions::<u16>),
                stage("conversions-u32", 100_000, 2_000_000, c02_conversions::<u32>),
                stage("modifiers", 900_000, 12_000_000, c02_modifiers),
            ],
        },
        CheckDef {
            id: "C03",
            rule: "a case is one spec-conformant packet value; its library encoding must equal the reference encoding byte for byte, and the library's view of the reference bytes must equal the value; non-trivial = the packet carries at least one variable-length or optional field",
            assumptions: &["the reference codec in spec.rs is a faithful transcription of the OASIS texts", "fields where the library extends v3.1.1 (reason code in PUBACK etc.) are not generated"],
            stages: vec![
                stage("wire-u16", 1_500_000, 40_000_000, c03::<u16>),
                stage("wire-u32", 1_500_000, 40_000_000, c03::<u32>),
                stage("properties", 900_000, 10_000_000, c03_prop),
                exhaustive2("names", NAMES, NAMES, c03_names),
            ],
        },
        CheckDef {
            id: "C04",
            rule: "a case is one byte string given to one parser (random, mutated valid, grammar-generated invalid, non-minimal lengths, foreign kind); non-trivial = the input was accepted, or is a mutation of a valid encoding",
            assumptions: &["memory safety of safe Rust; the crate's unsafe string accesses are checked through UTF-8 validity of every exposed string"],
            stages: vec![
                exhaustive2("all-bodies-up-to-2-bytes", KH * 65_793, KH * (65_793 + 524_288), c04_short),
                stage("bytes-u16", 4_500_000, 80_000_000, c04::<u16>),
                stage("bytes-u32", 3_000_000, 60_000_000, c04::<u32>),
                stage("sub-parsers", 2_400_000, 40_000_000, c04_sub),
            ],
        },
    ]
}

const NARROW: G = G { wide: false, strict: false, big: true };

fn g_for<P: Pid>(strict: bool) -> G {
    G { wide: P::WIDE, strict, big: true }
}

pub fn show(p: &Pk) -> String {
    let s = format!("{p:?}");
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    } else {
        s
    }
}

/// C02's relation on one packet.
pub fn roundtrip<P: Pid>(g: &GenericPacket<P>, v5: bool) -> Res {
    let cont = bytes_of(g);
    let what = || format!("{} {}", g.packet_type_name(), hex(&cont));
    let vec = vectored(g);
    ensure!(vec == cont, "c02-vectored", "vectored serialisation differs from contiguous one: {} vs {} ({})", hex(&vec), hex(&cont), what());
    ensure!(g.size() == cont.len(), "c02-size", "size() = {} but {} bytes were serialised ({})", g.size(), cont.len(), what());
    let (h, s, e) = match spec::split_frame(&cont) {
        Ok(Some(x)) => x,
        other => fail!("c02-remaining-length", "serialisation is not one frame ({other:?}): {}", what()),
    };
    ensure!(e == cont.len(), "c02-remaining-length", "Remaining Length says {} body bytes, {} are present ({})", e - s, cont.len() - s, what());
    let body = &cont[s..e];
    match parse::<P>(h, body, v5) {
        None => fail!("c02-type", "no parser for header {h:#x} ({})", what()),
        Some(Err(er)) => fail!("c02-parse-refused", "parser refuses the builder's own bytes with {er:?} ({})", what()),
        Some(Ok((g2, n))) => {
            ensure!(n == body.len(), "c02-consumed", "parser consumed {n} of {} body bytes ({})", body.len(), what());
            ensure!(&g2 == g, "c02-unequal", "reparsed packet differs:\n built  {}\n parsed {}", show(&view(g)), show(&view(&g2)));
            let c2 = bytes_of(&g2);
            ensure!(c2 == cont, "c02-reserialise", "reparsed packet serialises to {} instead of {}", hex(&c2), hex(&cont));
            ensure!(vectored(&g2) == cont && g2.size() == cont.len(), "c02-reserialise", "reparsed packet's vectored form or size differs ({})", what());
            let (v1, v2) = (view(g), view(&g2));
            if matches!(&v1, Pk::Publish(q) if q.qos > 0) || matches!(v1, Pk::Ack { kind: 6, .. }) {
                // the same packet as the session store exports it
                let Some(st) = crate::conn::to_store::<P>(g.clone()) else { fail!("c02-store", "not storable: {}", what()) };
                let v: Vec<u8> = GenericPacketTrait::to_buffers(&st).iter().flat_map(|b| b.to_vec()).collect();
                ensure!(GenericPacketTrait::size(&st) == cont.len() && st.to_continuous_buffer() == cont && v == cont, "c02-store", "the stored form serialises differently: {} / {} ({})", hex(&st.to_continuous_buffer()), hex(&v), what());
                ensure!(st.packet_type() as u8 == h >> 4 && Some(st.packet_id().get()) == v1.pid(), "c02-store", "the stored form has type {:?} and identifier {} ({})", st.packet_type(), st.packet_id().get(), what());
                let back: GenericPacket<P> = st.into();
                ensure!(&back == g, "c02-store", "the stored form converts to {}", show(&view(&back)));
            }
            ensure!(v1 == v2, "c02-accessors", "accessors differ after reparse:\n {}\n {}", show(&v1), show(&v2));
        }
    }
    Ok(())
}

pub trait TypeName {
    fn packet_type_name(&self) -> &'static str;
}
impl<P: Pid> TypeName for GenericPacket<P> {
    fn packet_type_name(&self) -> &'static str {
        spec::kind_name(
            self.packet_type() as u8,
            self.protocol_version() == mqtt_protocol_core::mqtt::Version::V5_0,
        )
    }
}

fn c02<P: Pid>(s: &mut Src, c: &mut Ctx) -> Res {
    let p = gen::any(s, g_for::<P>(false));
    c.log(|| format!("packet {}", show(&p)));
    c.label(p.kind_name());
    let g = match build::<P>(&p) {
        Ok(g) => g,
        Err(e) => {
            c.label("refused-by-builder");
            c.log(|| format!("builder refused: {e:?}"));
            return Ok(());
        }
    };
    c.nontrivial = true;
    if g.size() > 16383 {
        c.label("remaining-length>=3-bytes");
    }
    roundtrip(&g, p.v5())
}

/// Random setter sequences: repeated, reordered, omitted and mutually dependent setters.
fn c02_setters<P: Pid>(s: &mut Src, c: &mut Ctx) -> Res {
    let g = G { big: false, ..g_for::<P>(false) };
    let which = s.draw(14);
    let n = s.range(0, if which < 8 { 10 } else { 5 });
    macro_rules! done {
        ($b:expr, $v5:expr) => {{
            match $b.build() {
                Ok(x) => {
                    c.nontrivial = true;
                    let p: GenericPacket<P> = x.into();
                    c.label(p.packet_type_name());
                    c.log(|| format!("built {}", show(&view(&p))));
                    roundtrip(&p, $v5)
                }
                Err(e) => {
                    c.label("refused-by-builder");
                    c.log(|| format!("refused {e:?}"));
                    Ok(())
                }
            }
        }};
    }
    macro_rules! step {
        ($b:ident, $e:expr) => {
            match $e {
                Ok(x) => $b = x,
                Err(e) => {
                    c.label("refused-by-setter");
                    c.log(|| format!("setter refused {e:?}"));
                    return Ok(());
                }
            }
        };
    }
    fn lp(s: &mut Src, g: G, t: u8) -> Properties {
        let ps = gen::props(s, g, t);
        l_props(&ps).unwrap_or_default()
    }
    fn payload(s: &mut Src, g: G) -> ArcPayload {
        let b = gen::bin(s, g);
        if s.bool() {
            let a = s.draw(b.len() as u32 + 1) as usize;
            let l = s.draw((b.len() - a) as u32 + 1) as usize;
            ArcPayload::new(Arc::from(b), a, l)
        } else {
            IntoPayload::into_payload(b)
        }
    }
    match which {
        0 => {
            let mut b = v5_0::Connect::builder();
            for _ in 0..n {
                s.begin();
                match s.draw(8) {
                    0 => { let t = gen::string(s, g); c.log(|| format!("client_id({t:?})")); step!(b, b.client_id(t.as_str())) }
                    1 => { let v = s.bool(); c.log(|| format!("clean_start({v})")); b = b.clean_start(v) }
                    2 => { let v = gen::u16v(s); c.log(|| format!("keep_alive({v})")); b = b.keep_alive(v) }
                    3 => {
                        let (t, p, q, r) = (gen::string(s, g), gen::bin(s, g), s.draw(3) as u8, s.bool());
                        c.log(|| format!("will_message({t:?},{} bytes,qos {q},retain {r})", p.len()));
                        step!(b, b.will_message(t.as_str(), p, Qos::try_from(q).unwrap(), r))
                    }
                    4 => { let p = lp(s, g, 0); c.log(|| format!("will_props({p:?})")); b = b.will_props(p) }
                    5 => { let t = gen::string(s, g); c.log(|| format!("user_name({t:?})")); step!(b, b.user_name(t.as_str())) }
                    6 => { let p = gen::bin(s, g); c.log(|| format!("password({} bytes)", p.len())); step!(b, b.password(p)) }
                    _ => { let p = lp(s, g, 1); c.log(|| format!("props({p:?})")); b = b.props(p) }
                }
                s.end();
            }
            done!(b, true)
        }
        1 => {
            let mut b = v3_1_1::Connect::builder();
            for _ in 0..n {
                s.begin();
                match s.draw(7) {
                    0 => { let t = gen::string(s, g); c.log(|| format!("client_id({t:?})")); step!(b, b.client_id(t.as_str())) }
                    1 => { let v = s.bool(); c.log(|| format!("clean_session({v})")); b = b.clean_session(v) }
                    2 => { let v = gen::u16v(s); c.log(|| format!("keep_alive({v})")); b = b.keep_alive(v) }
                    3 => {
                        let (t, p, q, r) = (gen::string(s, g), gen::bin(s, g), s.draw(3) as u8, s.bool());
                        c.log(|| format!("will_message({t:?},{} bytes,qos {q},retain {r})", p.len()));
                        step!(b, b.will_message(t.as_str(), p, Qos::try_from(q).unwrap(), r))
                    }
                    4 => { let v = s.bool(); c.log(|| format!("clean_start({v})")); b = b.clean_start(v) }
                    5 => { let t = gen::string(s, g); c.log(|| format!("user_name({t:?})")); step!(b, b.user_name(t.as_str())) }
                    _ => { let p = gen::bin(s, g); c.log(|| format!("password({} bytes)", p.len())); step!(b, b.password(p)) }
                }
                s.end();
            }
            done!(b, false)
        }
        2 | 3 => {
            macro_rules! pubs {
                ($b:ident, $props:expr) => {
                    for _ in 0..n {
                        s.begin();
                        match s.draw(7) {
                            0 => { let t = if s.chance(1, 6) { String::new() } else { gen::topic(s, g) }; c.log(|| format!("topic_name({t:?})")); step!($b, $b.topic_name(t.as_str())) }
                            1 => { let q = s.draw(3) as u8; c.log(|| format!("qos({q})")); $b = $b.qos(Qos::try_from(q).unwrap()) }
                            2 => { let v = s.bool(); c.log(|| format!("dup({v})")); $b = $b.dup(v) }
                            3 => { let v = s.bool(); c.log(|| format!("retain({v})")); $b = $b.retain(v) }
                            4 => { let v = if s.chance(1, 5) { 0 } else { gen::pid(s, g) }; c.log(|| format!("packet_id({v})")); $b = $b.packet_id(P::mk(v)) }
                            5 => { let p = payload(s, g); c.log(|| format!("payload({} bytes)", p.len())); $b = $b.payload(p) }
                            _ => $props,
                        }
                        s.end();
                    }
                };
            }
            if which == 2 {
                let mut b = v5_0::GenericPublish::<P>::builder();
                pubs!(b, { let p = lp(s, g, 3); c.log(|| format!("props({p:?})")); b = b.props(p) });
                done!(b, true)
            } else {
                let mut b = v3_1_1::GenericPublish::<P>::builder();
                pubs!(b, { let p = gen::bin(s, g); c.log(|| format!("payload(Vec {})", p.len())); b = b.payload(p) });
                done!(b, false)
            }
        }
        4 => {
            let mut b = v5_0::Connack::builder();
            for _ in 0..n {
                s.begin();
                match s.draw(3) {
                    0 => { let v = s.bool(); c.log(|| format!("session_present({v})")); b = b.session_present(v) }
                    1 => { let k = *s.pick(codes(2, true)); c.log(|| format!("reason_code({k:#x})")); step!(b, ConnectReasonCode::try_from(k).map_err(|_| MqttError::MalformedPacket).map(|k| b.reason_code(k))) }
                    _ => { let p = lp(s, g, 2); c.log(|| format!("props({p:?})")); b = b.props(p) }
                }
                s.end();
            }
            done!(b, true)
        }
        5 => {
            macro_rules! ackb {
                ($m:ident :: $t:ident, $rc:ty, $k:expr) => {{
                    let mut b = $m::$t::<P>::builder();
                    for _ in 0..n {
                        s.begin();
                        match s.draw(3) {
                            0 => { let v = if s.chance(1, 8) { 0 } else { gen::pid(s, g) }; c.log(|| format!("packet_id({v})")); b = b.packet_id(P::mk(v)) }
                            1 => { let k = *s.pick(codes($k, true)); c.log(|| format!("reason_code({k:#x})")); step!(b, <$rc>::try_from(k).map_err(|_| MqttError::MalformedPacket).map(|k| b.reason_code(k))) }
                            _ => { let p = lp(s, g, $k); c.log(|| format!("props({p:?})")); b = b.props(p) }
                        }
                        s.end();
                    }
                    done!(b, true)
                }};
            }
            match s.draw(4) {
                0 => ackb!(v5_0::GenericPuback, PubackReasonCode, 4),
                1 => ackb!(v5_0::GenericPubrec, PubrecReasonCode, 5),
                2 => ackb!(v5_0::GenericPubrel, PubrelReasonCode, 6),
                _ => ackb!(v5_0::GenericPubcomp, PubcompReasonCode, 7),
            }
        }
        6 => {
            let mut b = v5_0::Disconnect::builder();
            for _ in 0..n {
                s.begin();
                match s.draw(2) {
                    0 => { let k = *s.pick(codes(14, true)); c.log(|| format!("reason_code({k:#x})")); step!(b, DisconnectReasonCode::try_from(k).map_err(|_| MqttError::MalformedPacket).map(|k| b.reason_code(k))) }
                    _ => { let p = lp(s, g, 14); c.log(|| format!("props({p:?})")); b = b.props(p) }
                }
                s.end();
            }
            done!(b, true)
        }
        8 => {
            let mut b = v3_1_1::Connack::builder();
            for _ in 0..n {
                s.begin();
                if s.bool() {
                    let v = s.bool();
                    c.log(|| format!("session_present({v})"));
                    b = b.session_present(v)
                } else {
                    let k = s.draw(6) as u8;
                    c.log(|| format!("return_code({k:#x})"));
                    step!(b, ConnectReturnCode::try_from(k).map_err(|_| MqttError::MalformedPacket).map(|k| b.return_code(k)))
                }
                s.end();
            }
            done!(b, false)
        }
        9 => {
            macro_rules! ackb {
                ($t:ident) => {{
                    let mut b = v3_1_1::$t::<P>::builder();
                    for _ in 0..n {
                        let v = if s.chance(1, 8) { 0 } else { gen::pid(s, g) };
                        c.log(|| format!("packet_id({v})"));
                        b = b.packet_id(P::mk(v));
                    }
                    done!(b, false)
                }};
            }
            match s.draw(5) {
                0 => ackb!(GenericPuback),
                1 => ackb!(GenericPubrec),
                2 => ackb!(GenericPubrel),
                3 => ackb!(GenericPubcomp),
                _ => ackb!(GenericUnsuback),
            }
        }
        10 | 11 => {
            // packet_id, entries, props in any order, any number of times
            macro_rules! lists {
                ($m:ident :: $t:ident, $v5:expr, $k:expr, $b:ident, $s:ident, $c:ident, $n:ident, $list:expr $(, $p:tt)?) => {{
                    let mut $b = $m::$t::<P>::builder();
                    for _ in 0..n {
                        $s.begin();
                        match $s.draw(4) {
                            0 => { let v = if $s.chance(1, 8) { 0 } else { gen::pid($s, g) }; $c.log(|| format!("packet_id({v})")); $b = $b.packet_id(P::mk(v)) }
                            $(1 => { let p = lp($s, g, $k); $c.log(|| format!("props({p:?})")); let _ = $p; $b = $b.props(p) })?
                            _ => { let $n = $s.weighted(&[1, 4, 3, 2, 1]); step!($b, $list) }
                        }
                        $s.end();
                    }
                    done!($b, $v5)
                }};
            }
            fn filters(s: &mut Src, c: &mut Ctx, g: G, k: usize, v5: bool) -> Vec<String> {
                let v: Vec<String> = (0..k).map(|_| gen::filter(s, g, v5).0).collect();
                c.log(|| format!("entries({v:?})"));
                v
            }
            fn entries(s: &mut Src, c: &mut Ctx, g: G, k: usize, v5: bool) -> LR<Vec<SubEntry>> {
                let mut es = vec![];
                for _ in 0..k {
                    let (f, _) = gen::filter(s, g, v5);
                    let o = if v5 { (s.draw(3) | s.draw(4) << 2 | s.draw(3) << 4) as u8 } else { s.draw(3) as u8 };
                    c.log(|| format!("entry({f:?},{o:#x})"));
                    es.push(SubEntry::new(f.as_str(), SubOpts::from_u8(o)?)?);
                }
                Ok(es)
            }
            match (which == 10, s.bool()) {
                (true, true) => lists!(v5_0::GenericUnsubscribe, true, 10, b, s, c, k, { let v = filters(s, c, g, k, true); b.entries(v.iter().map(|x| x.as_str()).collect::<Vec<_>>()) }, 1),
                (true, false) => lists!(v5_0::GenericSubscribe, true, 8, b, s, c, k, entries(s, c, g, k, true).map(|e| b.entries(e)), 1),
                (false, true) => lists!(v3_1_1::GenericUnsubscribe, false, 10, b, s, c, k, { let v = filters(s, c, g, k, false); b.entries(v.iter().map(|x| x.as_str()).collect::<Vec<_>>()) }),
                (false, false) => lists!(v3_1_1::GenericSubscribe, false, 8, b, s, c, k, entries(s, c, g, k, false).map(|e| b.entries(e))),
            }
        }
        12 | 13 => {
            macro_rules! coded {
                ($m:ident :: $t:ident, $v5:expr, $k:expr, $set:ident, $rc:ty $(, $p:tt)?) => {{
                    let mut b = $m::$t::<P>::builder();
                    for _ in 0..n {
                        s.begin();
                        match s.draw(4) {
                            0 => { let v = if s.chance(1, 8) { 0 } else { gen::pid(s, g) }; c.log(|| format!("packet_id({v})")); b = b.packet_id(P::mk(v)) }
                            $(1 => { let p = lp(s, g, $k); c.log(|| format!("props({p:?})")); let _ = $p; b = b.props(p) })?
                            _ => {
                                let k = s.weighted(&[1, 4, 3, 2, 1]);
                                let v: Vec<u8> = (0..k).map(|_| *s.pick(codes($k, $v5))).collect();
                                c.log(|| format!("codes({v:x?})"));
                                step!(b, v.iter().map(|x| <$rc>::try_from(*x).map_err(|_| MqttError::MalformedPacket)).collect::<LR<Vec<_>>>().map(|v| b.$set(v)))
                            }
                        }
                        s.end();
                    }
                    done!(b, $v5)
                }};
            }
            match s.draw(3) {
                0 => coded!(v5_0::GenericSuback, true, 9, reason_codes, SubackReasonCode, 1),
                1 => coded!(v5_0::GenericUnsuback, true, 11, reason_codes, UnsubackReasonCode, 1),
                _ => coded!(v3_1_1::GenericSuback, false, 9, return_codes, SubackReturnCode),
            }
        }
        _ => {
            let mut b = v5_0::Auth::builder();
            for _ in 0..n {
                s.begin();
                match s.draw(2) {
                    0 => { let k = *s.pick(codes(15, true)); c.log(|| format!("reason_code({k:#x})")); step!(b, AuthReasonCode::try_from(k).map_err(|_| MqttError::MalformedPacket).map(|k| b.reason_code(k))) }
                    _ => { let p = lp(s, g, 15); c.log(|| format!("props({p:?})")); b = b.props(p) }
                }
                s.end();
            }
            done!(b, true)
        }
    }
}

/// Every conversion a builder accepts for a field gives the same packet.
fn c02_conversions<P: Pid>(s: &mut Src, c: &mut Ctx) -> Res
where
    Option<P>: IntoPacketId<P>,
{
    let g = G { big: true, ..g_for::<P>(false) };
    let t = if s.chance(1, 40) { "x".repeat(65530 + s.draw(12) as usize) } else { gen::string(s, g) };
    let b = if s.chance(1, 3) { t.as_bytes().to_vec() } else { gen::bin(s, g) };
    c.log(|| format!("string of {} bytes {:?}, binary of {} bytes", t.len(), t.chars().take(20).collect::<String>(), b.len()));
    c.nontrivial = true;
    let fits = t.len() <= 65535;
    let st: [(&str, LR<MqttString>); 4] = [
        ("new", MqttString::new(&t)),
        ("from &str", t.as_str().try_into()),
        ("from String", t.clone().try_into()),
        ("from &String", (&t).try_into()),
    ];
    let mut want = (t.len() as u16).to_be_bytes().to_vec();
    want.extend_from_slice(t.as_bytes());
    for (how, x) in &st {
        match x {
            Ok(x) => {
                ensure!(fits, "c02-conversion", "a string of {} bytes is accepted by {how}", t.len());
                ensure!(x.as_str() == t && x.as_bytes() == want && x.len() == t.len() && x.is_empty() == t.is_empty() && x.to_continuous_buffer() == want && x.size() == want.len() && *x == t && *x == t.as_str() && &**x == t.as_str() && Ok(x) == st[0].1.as_ref(), "c02-conversion", "{how} of {t:?} gives {x:?}");
                let v: Vec<u8> = x.to_buffers().iter().flat_map(|z| z.to_vec()).collect();
                ensure!(v == want, "c02-conversion", "{how} of {t:?} has the buffers {}", hex(&v));
            }
            Err(e) => ensure!(!fits, "c02-conversion", "a string of {} bytes is refused by {how}: {e:?}", t.len()),
        }
    }
    let fits_b = b.len() <= 65535;
    let mut bs: Vec<(&str, LR<MqttBinary>)> = vec![("new", MqttBinary::new(&b)), ("from Vec", b.clone().try_into()), ("from &Vec", (&b).try_into())];
    if b == t.as_bytes() {
        bs.push(("from &str", t.as_str().try_into()));
    }
    if b.len() >= 3 {
        let a: [u8; 3] = [b[0], b[1], b[2]];
        let x: LR<MqttBinary> = (&a).try_into();
        ensure!(matches!(&x, Ok(x) if x.as_slice() == a && x.to_continuous_buffer() == [0, 3, a[0], a[1], a[2]]), "c02-conversion", "the array {a:x?} gives {x:?}");
    }
    let mut want_b = (b.len() as u16).to_be_bytes().to_vec();
    want_b.extend_from_slice(&b);
    for (how, x) in &bs {
        match x {
            Ok(x) => ensure!(fits_b && x.as_slice() == b && x.len() == b.len() && x.is_empty() == b.is_empty() && x.to_continuous_buffer() == want_b && x.size() == want_b.len() && Ok(x) == bs[0].1.as_ref(), "c02-conversion", "{how} of {} gives {x:?}", hex(&b)),
            Err(e) => ensure!(!fits_b, "c02-conversion", "{} bytes are refused by {how}: {e:?}", b.len()),
        }
    }
    let mut pl: Vec<(&str, ArcPayload)> = vec![
        ("&[u8]", b.as_slice().into_payload()),
        ("Vec", b.clone().into_payload()),
        ("&Vec", (&b).into_payload()),
        ("Arc", Arc::<[u8]>::from(b.clone()).into_payload()),
        ("ArcPayload", ArcPayload::new(Arc::from(b.clone()), 0, b.len()).into_payload()),
    ];
    if let Ok(t) = std::str::from_utf8(&b) {
        pl.push(("&str", t.into_payload()));
        pl.push(("String", t.to_string().into_payload()));
    }
    if b.is_empty() {
        pl.push(("()", ().into_payload()));
    }
    let (v5, qos) = (s.bool(), s.draw(3) as u8);
    let id = gen::pid(s, g);
    let topic = if t.is_empty() || t.contains(['#', '+']) || !fits { "t".to_string() } else { t.clone() };
    let mut first: Option<GenericPacket<P>> = None;
    for (i, (how, x)) in pl.into_iter().enumerate() {
        ensure!(x.as_slice() == b && x.len() == b.len() && x.is_empty() == b.is_empty(), "c02-conversion", "payload from {how} is {}", hex(x.as_slice()));
        macro_rules! pb {
            ($t:ty) => {{
                let p = <$t>::builder().qos(Qos::try_from(qos).unwrap()).payload(x);
                match i % 3 { 0 => p.topic_name(topic.as_str()), 1 => p.topic_name(topic.clone()), _ => p.topic_name(&topic) }
                    .and_then(|p| match (qos, i % 2) {
                        (0, 0) => p,
                        (0, _) => p.packet_id(None::<P>),
                        (_, 0) => p.packet_id(P::mk(id)),
                        _ => p.packet_id(Some(P::mk(id))),
                    }.build())
                    .map(|p| p.into())
            }};
        }
        let r: LR<GenericPacket<P>> = if v5 { pb!(v5_0::GenericPublish::<P>) } else { pb!(v3_1_1::GenericPublish::<P>) };
        let p = match r {
            Ok(p) => p,
            Err(e) => fail!("c02-conversion", "PUBLISH with a payload from {how} refused: {e:?}"),
        };
        match &first {
            None => {
                roundtrip(&p, v5)?;
                first = Some(p);
            }
            Some(q) => ensure!(&p == q && bytes_of(&p) == bytes_of(q), "c02-conversion", "PUBLISH with a payload from {how} differs: {} vs {}", hex(&bytes_of(&p)), hex(&bytes_of(q))),
        }
    }
    Ok(())
}

/// The public PUBLISH modifiers keep the packet serialisable and change exactly what they say.
fn c02_modifiers(s: &mut Src, c: &mut Ctx) -> Res {
    let g = G { big: false, ..NARROW };
    let v5 = s.chance(4, 5);
    let p = gen::publish(s, g, v5);
    let Pk::Publish(mut q) = p.clone() else { unreachable!() };
    c.log(|| format!("publish {}", show(&p)));
    let Ok(gp) = build::<u16>(&p) else { return Ok(()) };
    c.nontrivial = true;
    let mut lib = gp;
    let n = s.range(1, 3);
    for _ in 0..n {
        lib = match lib {
            GenericPacket::V3_1_1Publish(x) => {
                let d = s.bool();
                q.dup = d;
                c.log(|| format!("set_dup({d})"));
                x.set_dup(d).into()
            }
            GenericPacket::V5_0Publish(x) => match s.draw(5) {
                0 => {
                    let d = s.bool();
                    q.dup = d;
                    c.log(|| format!("set_dup({d})"));
                    x.set_dup(d).into()
                }
                1 if !q.topic.is_empty() => {
                    c.log(|| "remove_topic_alias".into());
                    q.props.retain(|p| p.id != 0x23);
                    x.remove_topic_alias().into()
                }
                2 if !q.topic.is_empty() && !q.props.iter().any(|p| p.id == 0x23) => {
                    let a = gen::u16v(s).max(1);
                    c.log(|| format!("add_topic_alias({a})"));
                    q.props.push(Pr { id: 0x23, v: Pv::U16(a) });
                    x.add_topic_alias(a).into()
                }
                3 if !q.topic.is_empty() && !q.props.iter().any(|p| p.id == 0x23) => {
                    let a = gen::u16v(s).max(1);
                    c.log(|| format!("remove_topic_add_topic_alias({a})"));
                    q.props.push(Pr { id: 0x23, v: Pv::U16(a) });
                    q.topic.clear();
                    x.remove_topic_add_topic_alias(a).into()
                }
                4 if q.topic.is_empty() => {
                    let t = gen::topic(s, g);
                    if s.bool() {
                        c.log(|| format!("remove_topic_alias_add_topic({t:?})"));
                        q.props.retain(|p| p.id != 0x23);
                        q.topic = t.clone();
                        match x.remove_topic_alias_add_topic(t) {
                            Ok(y) => y.into(),
                            Err(e) => fail!("c02-modifier", "remove_topic_alias_add_topic refused {e:?}"),
                        }
                    } else {
                        c.log(|| format!("add_extracted_topic_name({t:?})"));
                        match x.add_extracted_topic_name(&t) {
                            // carries the topic for the application only; not re-encodable as such
                            Ok(y) => {
                                ensure!(y.topic_name() == t, "c02-modifier", "add_extracted_topic_name lost the topic");
                                y.remove_topic_alias();
                                return Ok(());
                            }
                            Err(e) => fail!("c02-modifier", "add_extracted_topic_name refused {e:?}"),
                        }
                    }
                }
                _ => x.into(),
            },
            other => other,
        };
    }
    let want = Pk::Publish(q);
    let got = view(&lib);
    ensure!(got == want, "c02-modifier", "modified publish has fields\n {}\nexpected\n {}", show(&got), show(&want));
    roundtrip(&lib, v5)?;
    let b = bytes_of(&lib);
    let r = encode(&want, false);
    ensure!(b == r, "c02-modifier-wire", "modified publish serialises to {} expected {}", hex(&b), hex(&r));
    Ok(())
}

fn c03<P: Pid>(s: &mut Src, c: &mut Ctx) -> Res {
    let p = gen::any(s, g_for::<P>(true));
    c.log(|| format!("packet {}", show(&p)));
    c.label(p.kind_name());
    let want = encode(&p, P::WIDE);
    c.log(|| format!("reference bytes {}", hex(&want)));
    c.nontrivial = want.len() > 4;
    let g = match build::<P>(&p) {
        Ok(g) => g,
        Err(e) => fail!("c03-build", "builder refuses a spec-conformant {} with {e:?}: {}", p.kind_name(), show(&p)),
    };
    let got = bytes_of(&g);
    ensure!(got == want, "c03-bytes", "{} serialises to {} but the specification prescribes {} for {}", p.kind_name(), hex(&got), hex(&want), show(&p));
    let vw = view(&g);
    ensure!(vw == p, "c03-built-fields", "accessors of the built packet report {} for {}", show(&vw), show(&p));
    match spec::decode(&got, p.v5(), P::WIDE, false) {
        Ok(q) => ensure!(q == p, "c03-decode", "reference decoder reads {} from the bytes of {}", show(&q), show(&p)),
        Err(e) => fail!("c03-decode", "reference decoder refuses ({e}) the bytes {} of {}", hex(&got), show(&p)),
    }
    let (h, a, e) = spec::split_frame(&want).unwrap().unwrap();
    match parse::<P>(h, &want[a..e], p.v5()) {
        Some(Ok((g2, n))) => {
            ensure!(n == e - a, "c03-consumed", "parser consumed {n} of {}", e - a);
            let v = view(&g2);
            ensure!(v == p, "c03-parsed-fields", "spec-conformant bytes {} parse to {} instead of {}", hex(&want), show(&v), show(&p));
        }
        Some(Err(er)) => fail!("c03-parse", "parser refuses spec-conformant bytes {} ({er:?}) of {}", hex(&want), show(&p)),
        None => fail!("c03-parse", "no parser"),
    }
    Ok(())
}

/// Single properties, property lists and primitive types against the reference encoding.
fn c03_prop(s: &mut Src, c: &mut Ctx) -> Res {
    let g = NARROW;
    match s.draw(5) {
        0 | 1 => {
            let id = s.pick(spec::PROPS).0;
            let p = gen::prop(s, g, id);
            c.log(|| format!("property {p:?}"));
            c.nontrivial = true;
            let mut want = vec![];
            e_prop(&mut want, &p);
            let lp = match l_prop(&p) {
                Ok(x) => x,
                Err(e) => fail!("c03-prop", "constructor refuses valid {p:?}: {e:?}"),
            };
            let got = lp.to_continuous_buffer();
            ensure!(got == want, "c03-prop", "{p:?} encodes to {} expected {}", hex(&got), hex(&want));
            let v: Vec<u8> = lp.to_buffers().iter().flat_map(|b| b.to_vec()).collect();
            ensure!(v == want && lp.size() == want.len(), "c03-prop", "{p:?}: vectored form or size() disagrees with {}", hex(&want));
            ensure!(v_prop(&lp) == p, "c03-prop", "{p:?} is read back as {:?}", v_prop(&lp));
            let mut ext = want.clone();
            ext.extend_from_slice(&[0x26, 0]);
            match Property::parse(&ext) {
                Ok((q, n)) => ensure!(n == want.len() && q == lp && v_prop(&q) == p, "c03-prop", "parse of {} gave {:?}, consumed {n}", hex(&want), v_prop(&q)),
                Err(e) => fail!("c03-prop", "parse of {} refused: {e:?}", hex(&want)),
            }
        }
        2 => {
            let t = *s.pick(&[0u8, 1, 2, 3, 4, 8, 9, 10, 14, 15]);
            let ps = gen::props(s, g, t);
            c.nontrivial = !ps.is_empty();
            let mut want = vec![];
            e_props(&mut want, &ps);
            let mut payload = vec![];
            for p in &ps {
                e_prop(&mut payload, p);
            }
            let lp = match l_props(&ps) {
                Ok(x) => x,
                Err(e) => fail!("c03-props", "refused {ps:?}: {e:?}"),
            };
            c.log(|| format!("properties {ps:?}"));
            let v: Vec<u8> = lp.to_buffers().iter().flat_map(|b| b.to_vec()).collect();
            ensure!(v == payload && lp.size() == payload.len(), "c03-props", "list {ps:?} encodes to {} expected {}", hex(&v), hex(&payload));
            match Properties::parse(&want) {
                Ok((q, n)) => ensure!(n == want.len() && v_props(&q) == ps, "c03-props", "{} parsed to {q:?} consuming {n}", hex(&want)),
                Err(e) => fail!("c03-props", "{} refused: {e:?}", hex(&want)),
            }
        }
        3 => {
            let v = match s.draw(3) {
                0 => *s.pick(&[0u32, 1, 127, 128, 129, 16383, 16384, 2097151, 2097152, 268_435_454, 268_435_455, 268_435_456, u32::MAX]),
                1 => s.draw(300),
                _ => s.draw(300_000_000),
            };
            c.log(|| format!("vbi {v}"));
            c.nontrivial = v > 127;
            match VariableByteInteger::from_u32(v) {
                Some(x) => {
                    ensure!(v <= 268_435_455, "c03-vbi", "{v} accepted as a variable byte integer");
                    let want = vbi(v);
                    ensure!(x.as_bytes() == want && x.size() == want.len() && x.to_u32() == v, "c03-vbi", "{v} encodes to {}", hex(x.as_bytes()));
                    let mut e = want.clone();
                    e.push(0x77);
                    match VariableByteInteger::decode_stream(&e) {
                        DecodeResult::Ok(y, n) => ensure!(y.to_u32() == v && n == want.len(), "c03-vbi", "{} decodes to {} consuming {n}", hex(&want), y.to_u32()),
                        _ => fail!("c03-vbi", "{} refused", hex(&want)),
                    }
                    for k in 0..want.len() {
                        ensure!(matches!(VariableByteInteger::decode_stream(&want[..k]), DecodeResult::Incomplete), "c03-vbi", "{} not reported as incomplete", hex(&want[..k]));
                    }
                }
                None => ensure!(v > 268_435_455, "c03-vbi", "{v} refused"),
            }
        }
        _ => {
            let (f, _) = gen::filter(s, g, true);
            let o = s.draw(256) as u8;
            c.log(|| format!("subscription entry {f:?} {o:#x}"));
            c.nontrivial = true;
            let ok = o & 3 != 3 && o >> 4 & 3 != 3 && o & 0xC0 == 0;
            match SubOpts::from_u8(o) {
                Ok(x) => {
                    ensure!(ok, "c03-subopts", "{o:#x} accepted as subscription options");
                    ensure!(x.to_buffer() == &[o] && x.qos() as u8 == o & 3 && x.nl() == (o & 4 != 0) && x.rap() == (o & 8 != 0) && x.rh() as u8 == o >> 4 & 3, "c03-subopts", "{o:#x} read as {x:?}");
                    let e = SubEntry::new(f.as_str(), x).map_err(|e| Fail::new("c03-subentry", format!("{f:?} refused: {e:?}")))?;
                    let mut want = (f.len() as u16).to_be_bytes().to_vec();
                    want.extend_from_slice(f.as_bytes());
                    want.push(o);
                    let got = e.to_continuous_buffer();
                    let rh = [RetainHandling::SendRetained, RetainHandling::SendRetainedIfNotExists, RetainHandling::DoNotSendRetained][(o >> 4 & 3) as usize];
                    let mut y = SubOpts::from_u8(s.draw(3) as u8 | (s.draw(4) << 2) as u8 | (s.draw(3) << 4) as u8).map_err(|e| Fail::new("c03-subopts", format!("{e:?}")))?;
                    let k = s.draw(24) as usize;
                    for i in gen::permutation(4, k) {
                        y = match i {
                            0 => y.set_qos(x.qos()),
                            1 => y.set_nl(o & 4 != 0),
                            2 => y.set_rap(o & 8 != 0),
                            _ => y.set_rh(rh),
                        };
                    }
                    ensure!(y == e.sub_opts().clone() && y.to_buffer() == &[o], "c03-subopts", "{o:#x} put together with the setters gives {y:?}");
                    let mut d = SubEntry::new("other", SubOpts::new()).map_err(|e| Fail::new("c03-subentry", format!("{e:?}")))?;
                    d.set_sub_opts(y);
                    d.set_topic_filter(f.clone()).map_err(|e| Fail::new("c03-subentry", format!("{f:?} refused: {e:?}")))?;
                    ensure!(d == e && d.to_continuous_buffer() == want, "c03-subentry", "the setters give {d:?} instead of {e:?}");
                    let v: Vec<u8> = e.to_buffers().iter().flat_map(|b| b.to_vec()).collect();
                    ensure!(got == want && v == want && e.size() == want.len(), "c03-subentry", "entry encodes to {} expected {}", hex(&got), hex(&want));
                }
                Err(_) => ensure!(!ok, "c03-subopts", "{o:#x} refused"),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------ C04

pub fn mutate_bytes(s: &mut Src, b: &mut Vec<u8>) {
    let n = s.weighted(&[2, 5, 3, 2, 1]);
    for _ in 0..n {
        s.begin();
        let l = b.len() as u32;
        match s.draw(8) {
            0 if l > 0 => {
                let i = s.draw(l) as usize;
                b[i] = *s.pick(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0xff, 0x23, 0x2b, 0x26, 0x0b]);
            }
            1 if l > 0 => {
                let i = s.draw(l) as usize;
                b[i] ^= 1 << s.draw(8);
            }
            2 if l > 0 => {
                let a = s.draw(l) as usize;
                b.truncate(a);
            }
            3 if l > 0 => {
                let a = s.draw(l) as usize;
                let e = (a + 1 + s.draw(4) as usize).min(b.len());
                b.drain(a..e);
            }
            4 => {
                let a = s.draw(l + 1) as usize;
                let v = s.draw(256) as u8;
                b.insert(a, v);
            }
            5 => {
                let k = s.draw(6);
                for _ in 0..k {
                    b.push(s.draw(256) as u8);
                }
            }
            6 if l > 1 => {
                let a = s.draw(l) as usize;
                let e = (a + 1 + s.draw(12) as usize).min(b.len());
                let chunk = b[a..e].to_vec();
                let at = s.draw(b.len() as u32 + 1) as usize;
                for (k, x) in chunk.into_iter().enumerate() {
                    b.insert(at + k, x);
                }
            }
            7 if l > 0 => {
                let i = s.draw(l) as usize;
                b[i] = b[i].wrapping_add(if s.bool() { 1 } else { 255 });
            }
            _ => {}
        }
        s.end();
    }
}

/// Field-level damage: well-formed encodings of things MQTT forbids.
pub fn mutate_fields(s: &mut Src, p: &mut Pk, g: G) {
    fn bad_props(s: &mut Src, ps: &mut Props, g: G) {
        match s.draw(4) {
            0 => {
                let id = s.pick(PROPS).0;
                ps.push(gen::prop(s, g, id));
            }
            1 if !ps.is_empty() => {
                let i = s.draw(ps.len() as u32) as usize;
                let x = ps[i].clone();
                ps.push(x);
            }
            2 => {
                let x = s
                    .pick(&[
                        Pr { id: 0x21, v: Pv::U16(0) },
                        Pr { id: 0x23, v: Pv::U16(0) },
                        Pr { id: 0x27, v: Pv::U32(0) },
                        Pr { id: 0x0B, v: Pv::Vbi(0) },
                        Pr { id: 0x01, v: Pv::U8(2) },
                        Pr { id: 0x17, v: Pv::U8(2) },
                        Pr { id: 0x19, v: Pv::U8(255) },
                        Pr { id: 0x24, v: Pv::U8(2) },
                        Pr { id: 0x25, v: Pv::U8(2) },
                        Pr { id: 0x2A, v: Pv::U8(9) },
                    ])
                    .clone();
                ps.push(x);
            }
            _ => ps.reverse(),
        }
    }
    match p {
        Pk::Publish(q) => match s.draw(5) {
            0 => q.pid = Some(0),
            1 => q.topic = s.pick(&["a#", "+", "", "a/+/b"]).to_string(),
            2 if q.v5 => bad_props(s, &mut q.props, g),
            3 => {
                q.topic.clear();
                q.props.retain(|p| p.id != 0x23);
            }
            _ => q.qos = 3,
        },
        Pk::Connect(c) => match s.draw(4) {
            0 => bad_props(s, &mut c.props, g),
            1 => {
                if let Some(w) = &mut c.will {
                    bad_props(s, &mut w.props, g)
                }
            }
            2 => {
                if let Some(w) = &mut c.will {
                    w.qos = 3
                }
            }
            _ => {
                c.user = None;
                c.pass = Some(vec![1]);
            }
        },
        Pk::Connack { code, props, .. } => {
            if s.bool() {
                *code = s.draw(256) as u8
            } else {
                bad_props(s, props, g)
            }
        }
        Pk::Ack { pid, code, props, .. } => match s.draw(3) {
            0 => *pid = 0,
            1 => *code = Some(s.draw(256) as u8),
            _ => {
                code.get_or_insert(0);
                bad_props(s, props.get_or_insert_with(Vec::new), g)
            }
        },
        Pk::Subscribe { pid, props, entries, .. } => match s.draw(4) {
            0 => *pid = 0,
            1 => entries.clear(),
            2 => {
                let i = s.draw(entries.len() as u32) as usize;
                if let Some(e) = entries.get_mut(i) {
                    e.1 = s.draw(256) as u8;
                    if s.bool() {
                        e.0 = s.pick(&["$share/", "$share//a", "$share/g", "$share/+/t", "$share/g/", ""]).to_string();
                    }
                }
            }
            _ => bad_props(s, props, g),
        },
        Pk::Suback { pid, props, codes, .. } | Pk::Unsuback { pid, props, codes, .. } => match s.draw(4) {
            0 => *pid = 0,
            1 => codes.clear(),
            2 => codes.push(s.draw(256) as u8),
            _ => bad_props(s, props, g),
        },
        Pk::Unsubscribe { pid, props, filters, .. } => match s.draw(4) {
            0 => *pid = 0,
            1 => filters.clear(),
            2 => filters.push(s.pick(&["$share/", "$share//a", "$share/g", ""]).to_string()),
            _ => bad_props(s, props, g),
        },
        Pk::Disconnect { code, props, .. } | Pk::Auth { code, props } => {
            if s.bool() {
                *code = Some(s.draw(256) as u8)
            } else {
                code.get_or_insert(0);
                bad_props(s, props.get_or_insert_with(Vec::new), g)
            }
        }
        _ => {}
    }
}

/// Replaces a property-length (or one subscription identifier) by a longer encoding of the
/// same number.
pub fn unminimise(p: &Pk, b: &[u8], extra: usize, which_will: bool) -> Option<Vec<u8>> {
    let ps = match (p, which_will) {
        (Pk::Connect(c), true) => &c.will.as_ref()?.props,
        _ => p.props()?,
    };
    if !p.v5() {
        return None;
    }
    let mut e = vec![];
    e_props(&mut e, ps);
    let at = b.windows(e.len()).position(|w| w == e)?;
    let sz: usize = {
        let mut o = vec![];
        for x in ps {
            e_prop(&mut o, x);
        }
        o.len()
    };
    let minimal = vbi(sz as u32);
    let mut long = minimal.clone();
    if long.len() + extra > 4 {
        return None;
    }
    let n = long.len();
    long[n - 1] |= 0x80;
    for _ in 0..extra - 1 {
        long.push(0x80);
    }
    long.push(0);
    let mut out = b[..at].to_vec();
    out.extend_from_slice(&long);
    out.extend_from_slice(&b[at + minimal.len()..]);
    Some(out)
}

/// Everything C04 demands of an accepted packet.
pub fn accepted<P: Pid>(g: &GenericPacket<P>, v5: bool, input: &dyn Fn() -> String) -> Res {
    let cont = bytes_of(g);
    let k = g.packet_type_name();
    ensure!(g.size() == cont.len(), "c04-size", "{k}: size() = {} but it serialises to {} bytes {} [{}]", g.size(), cont.len(), hex(&cont), input());
    let vec = vectored(g);
    ensure!(vec == cont, "c04-vectored", "{k}: vectored serialisation {} differs from {} [{}]", hex(&vec), hex(&cont), input());
    let (h, s, e) = match spec::split_frame(&cont) {
        Ok(Some(x)) if x.2 == cont.len() => x,
        _ => fail!("c04-frame", "{k}: serialisation {} is not one frame [{}]", hex(&cont), input()),
    };
    match parse::<P>(h, &cont[s..e], v5) {
        Some(Ok((g2, n))) => {
            ensure!(n == e - s, "c04-reparse", "{k}: reparse consumed {n} of {} [{}]", e - s, input());
            ensure!(&g2 == g, "c04-reparse", "{k}: reparse of {} gives a different packet\n {}\n {} [{}]", hex(&cont), show(&view(g)), show(&view(&g2)), input());
        }
        r => fail!("c04-reparse", "{k}: serialisation {} is refused on reparse ({:?}) [{}]", hex(&cont), r.map(|x| x.err()), input()),
    }
    let v = view(g);
    for t in strings(&v) {
        ensure!(std::str::from_utf8(t.as_bytes()).is_ok(), "c04-utf8", "{k}: exposes an invalid UTF-8 string [{}]", input());
    }
    if let Pk::Subscribe { pid: 0, .. } | Pk::Unsubscribe { pid: 0, .. } | Pk::Suback { pid: 0, .. } | Pk::Unsuback { pid: 0, .. } | Pk::Ack { pid: 0, .. } = &v {
        fail!(format!("c04-pid0-{k}"), "{k}: accepted with packet identifier 0 [{}]", input());
    }
    match build::<P>(&v) {
        Err(er) => fail!(format!("c04-builder-{k}"), "{k}: parser accepts a packet the builder refuses ({er:?}): {} [{}]", show(&v), input()),
        Ok(b) => {
            let auth_short = matches!(&v, Pk::Auth { code: Some(_), props: None });
            ensure!(auth_short || &b == g, format!("c04-rebuild-{k}"), "{k}: the builder produces a different packet from the same fields: {} vs {} [{}]", hex(&bytes_of(&b)), hex(&cont), input());
        }
    }
    Ok(())
}

fn strings(p: &Pk) -> Vec<&str> {
    let mut v: Vec<&str> = vec![];
    match p {
        Pk::Connect(c) => {
            v.push(&c.client_id);
            if let Some(w) = &c.will {
                v.push(&w.topic);
            }
            if let Some(u) = &c.user {
                v.push(u);
            }
        }
        Pk::Publish(q) => v.push(&q.topic),
        Pk::Subscribe { entries, .. } => v.extend(entries.iter().map(|e| e.0.as_str())),
        Pk::Unsubscribe { filters, .. } => v.extend(filters.iter().map(|e| e.as_str())),
        _ => {}
    }
    if let Some(ps) = p.props() {
        for x in ps {
            match &x.v {
                Pv::Str(s) => v.push(s),
                Pv::Pair(a, b) => {
                    v.push(a);
                    v.push(b)
                }
                _ => {}
            }
        }
    }
    v
}

pub fn hostile_body(s: &mut Src, c: &mut Ctx, g: G) -> (u8, Vec<u8>, bool) {
    let kinds = gen::kinds();
    let mode = s.weighted(&[10, 40, 30, 10, 10]);
    if mode == 0 {
        c.label("random-bytes");
        let (t, v5) = *s.pick(&kinds);
        let n = s.range(0, 40);
        let b: Vec<u8> = (0..n).map(|_| if s.chance(1, 3) { *s.pick(&[0u8, 1, 2, 3, 5, 0x7f, 0x80, 0xff]) } else { s.draw(256) as u8 }).collect();
        let fl = s.draw(16) as u8;
        return (t << 4 | fl, b, v5);
    }
    let (t, v5) = *s.pick(&kinds);
    let mut p = gen::packet(s, g, t, v5);
    let mut header = header_byte(&p);
    let mut tv = (t, v5);
    if mode == 2 || mode == 4 {
        c.label("field-damage");
        let n = s.range(1, 2);
        for _ in 0..n {
            mutate_fields(s, &mut p, g);
        }
        if let Pk::Publish(q) = &p {
            header = 0x30 | (q.dup as u8) << 3 | (q.qos & 3) << 1 | q.retain as u8;
        }
    }
    let mut b = body(&p, g.wide);
    if mode == 3 {
        c.label("non-minimal-length");
        let extra = s.range(1, 3) as usize;
        let w = s.bool();
        if let Some(x) = unminimise(&p, &b, extra, w) {
            b = x;
        }
    }
    if mode == 1 || mode == 4 {
        c.label("byte-damage");
        mutate_bytes(s, &mut b);
    }
    if s.chance(1, 8) {
        c.label("foreign-kind");
        tv = *s.pick(&kinds);
        header = tv.0 << 4 | (header & 15);
    }
    if s.chance(1, 10) {
        header = header & 0xf0 | s.draw(16) as u8;
    }
    c.nontrivial = true;
    (header, b, tv.1)
}

fn c04<P: Pid>(s: &mut Src, c: &mut Ctx) -> Res {
    let g = G { wide: P::WIDE, strict: false, big: s.chance(1, 40) };
    let (header, b, v5) = hostile_body(s, c, g);
    c04_one::<P>(c, header, &b, v5)
}

fn c04_one<P: Pid>(c: &mut Ctx, header: u8, b: &[u8], v5: bool) -> Res {
    let input = || format!("{} header {header:#04x} body {}", if v5 { "v5.0" } else { "v3.1.1" }, hex(b));
    c.log(input);
    match guarded(|| parse::<P>(header, b, v5)) {
        Err(m) => fail!("c04-panic", "parser panics: {m} [{}]", input()),
        Ok(None) => {}
        Ok(Some(Err(e))) => {
            c.label("rejected");
            c.log(|| format!("rejected {e:?}"));
        }
        Ok(Some(Ok((pk, n)))) => {
            c.label("accepted");
            c.nontrivial = true;
            c.log(|| format!("accepted, consumed {n}: {}", show(&view(&pk))));
            ensure!(n <= b.len(), "c04-overread", "claims to have consumed {n} of {} bytes [{}]", b.len(), input());
            match guarded(|| accepted(&pk, v5, &input)) {
                Ok(r) => r?,
                Err(m) => {
                    if m.contains("HARNESS") {
                        panic!("{m}");
                    }
                    fail!("c04-accept-panic", "accepted packet panics when used: {m} [{}]", input())
                }
            }
        }
    }
    Ok(())
}

/// Every parser (16 flag nibbles for PUBLISH) on every body of at most two bytes; the longer
/// tier adds three-byte bodies whose last byte is one of eight.
const KH: u64 = 60;
fn c04_short(s: &mut Src, c: &mut Ctx) -> Res {
    let i = s.u32() as u64;
    let (kh, j) = (i % KH, i / KH);
    let (v5, h) = (kh >= 30, (kh % 30) as u8);
    let header = if h < 16 { 0x30 | h } else { let t = [1u8, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15][(h - 16) as usize]; (t << 4) | if matches!(t, 6 | 8 | 10) { 2 } else { 0 } };
    let b: Vec<u8> = if j == 0 {
        vec![]
    } else if j < 257 {
        vec![(j - 1) as u8]
    } else if j < 65_793 {
        let k = j - 257;
        vec![(k >> 8) as u8, k as u8]
    } else {
        let k = j - 65_793;
        vec![(k >> 11) as u8, (k >> 3) as u8, [0u8, 1, 2, 0x10, 0x7f, 0x80, 0x81, 0xff][(k & 7) as usize]]
    };
    c04_one::<u16>(c, header, &b, v5)
}

/// Strings, binaries, integers, single properties, property lists, subscription entries.
fn c04_sub(s: &mut Src, c: &mut Ctx) -> Res {
    let g = G { wide: false, strict: false, big: s.chance(1, 40) };
    let which = s.draw(6);
    let mut b: Vec<u8> = vec![];
    if s.chance(1, 5) {
        let n = s.range(0, 20);
        for _ in 0..n {
            b.push(s.draw(256) as u8);
        }
    } else {
        c.nontrivial = true;
        match which {
            0 => {
                let t = gen::string(s, g);
                b.extend_from_slice(&(t.len() as u16).to_be_bytes());
                b.extend_from_slice(t.as_bytes());
            }
            1 => {
                let t = gen::bin(s, g);
                b.extend_from_slice(&(t.len() as u16).to_be_bytes());
                b.extend_from_slice(&t);
            }
            2 => {
                let v = s.draw(268_435_456);
                b = vbi(v >> s.draw(28));
            }
            3 => {
                let id = s.pick(PROPS).0;
                let p = gen::prop(s, g, id);
                e_prop(&mut b, &p);
            }
            4 => {
                let t = *s.pick(&[0u8, 1, 2, 3, 8]);
                let ps = gen::props(s, g, t);
                e_props(&mut b, &ps);
            }
            _ => {
                let (f, _) = gen::filter(s, g, true);
                b.extend_from_slice(&(f.len() as u16).to_be_bytes());
                b.extend_from_slice(f.as_bytes());
                b.push(s.draw(64) as u8);
            }
        }
        mutate_bytes(s, &mut b);
    }
    c.log(|| format!("sub-parser {which} bytes {}", hex(&b)));
    let b = &b[..];
    let r = guarded(|| -> Res {
        match which {
            0 => {
                if let Ok((x, n)) = MqttString::decode(b) {
                    ensure!(n <= b.len() && n >= 2, "c04-sub-overread", "string claims {n} of {}", b.len());
                    ensure!(std::str::from_utf8(x.as_str().as_bytes()).is_ok(), "c04-utf8", "string {} is not UTF-8", hex(x.as_bytes()));
                    ensure!(x.to_continuous_buffer() == b[..n] && x.size() == n && x.len() == n - 2, "c04-sub", "string {} re-encodes to {}", hex(&b[..n]), hex(&x.to_continuous_buffer()));
                    let v: Vec<u8> = x.to_buffers().iter().flat_map(|z| z.to_vec()).collect();
                    ensure!(v == b[..n], "c04-sub", "string vectored {}", hex(&v));
                    ensure!(MqttString::new(x.as_str()).ok().as_ref() == Some(&x), "c04-sub", "string {} not equal to its rebuilt self", hex(b));
                }
            }
            1 => {
                if let Ok((x, n)) = MqttBinary::decode(b) {
                    ensure!(n <= b.len() && n >= 2, "c04-sub-overread", "binary claims {n} of {}", b.len());
                    ensure!(x.to_continuous_buffer() == b[..n] && x.size() == n && x.len() == n - 2 && x.as_slice() == &b[2..n], "c04-sub", "binary {} re-encodes to {}", hex(&b[..n]), hex(&x.to_continuous_buffer()));
                    let v: Vec<u8> = x.to_buffers().iter().flat_map(|z| z.to_vec()).collect();
                    ensure!(v == b[..n], "c04-sub", "binary vectored {}", hex(&v));
                    ensure!(MqttBinary::new(x.as_slice()).ok().as_ref() == Some(&x), "c04-sub", "binary {} not equal to its rebuilt self", hex(b));
                }
            }
            2 => match VariableByteInteger::decode_stream(b) {
                DecodeResult::Ok(x, n) => {
                    ensure!(n <= b.len() && (1..=4).contains(&n), "c04-sub-overread", "vbi claims {n} of {}", b.len());
                    let mut v = 0u32;
                    for (k, y) in b[..n].iter().enumerate() {
                        v |= ((y & 0x7f) as u32) << (7 * k);
                    }
                    ensure!(x.to_u32() == v && b[n - 1] & 0x80 == 0, "c04-sub", "vbi {} decodes to {}", hex(b), x.to_u32());
                }
                DecodeResult::Incomplete => {
                    ensure!(b.len() < 4 && b.iter().all(|y| y & 0x80 != 0), "c04-sub", "vbi {} called incomplete", hex(b))
                }
                DecodeResult::Err(_) => {
                    ensure!(b.len() >= 4 && b[..4].iter().all(|y| y & 0x80 != 0), "c04-sub", "vbi {} refused", hex(b))
                }
            },
            3 => {
                if let Ok((x, n)) = Property::parse(b) {
                    ensure!(n <= b.len(), "c04-sub-overread", "property claims {n} of {}", b.len());
                    let e = x.to_continuous_buffer();
                    ensure!(x.size() == e.len(), "c04-sub-size", "property {} size() {} vs {} bytes", hex(b), x.size(), e.len());
                    ensure!(matches!(Property::parse(&e), Ok((y, m)) if y == x && m == e.len()), "c04-sub", "property {} does not re-parse", hex(&e));
                    let p = v_prop(&x);
                    ensure!(prop_value_ok(&p), "c04-sub", "property with forbidden value {p:?} accepted");
                    ensure!(matches!(l_prop(&p), Ok(y) if y == x), "c04-sub", "constructor disagrees on {p:?}");
                }
            }
            4 => {
                if let Ok((x, n)) = Properties::parse(b) {
                    ensure!(n <= b.len(), "c04-sub-overread", "properties claim {n} of {}", b.len());
                    let mut e = vec![];
                    e_props(&mut e, &v_props(&x));
                    ensure!(x.size() == e.len() - vbi((e.len() - 1) as u32).len() || x.size() + vbi(x.size() as u32).len() == e.len(), "c04-sub-size", "properties {} size() {}", hex(b), x.size());
                    ensure!(matches!(Properties::parse(&e), Ok((y, m)) if y == x && m == e.len()), "c04-sub", "properties {} do not re-parse", hex(&e));
                }
            }
            _ => {
                if let Ok((x, n)) = SubEntry::parse(b) {
                    ensure!(n <= b.len(), "c04-sub-overread", "entry claims {n} of {}", b.len());
                    ensure!(x.to_continuous_buffer() == b[..n] && x.size() == n, "c04-sub", "entry {} re-encodes to {}", hex(&b[..n]), hex(&x.to_continuous_buffer()));
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(m) => fail!("c04-panic", "sub-parser {which} panics: {m} on {}", hex(b)),
    }
}

// ------------------------------------------------------------------ names
/// What a name of the API is on the wire: (name, value, the byte it becomes, whether the value
/// read back is that name again).
fn names() -> Vec<(&'static str, u8, u8, bool)> {
    use mqtt_protocol_core::mqtt::packet::{AuthenticationMethod, PayloadFormatIndicator, PropertyId};
    let mut out = vec![];
    macro_rules! codes {
        ($e:ident, $b:expr, $get:expr; $($v:ident $n:expr),*) => {
            $({
                let g: GenericPacket<u16> = ($b)($e::$v);
                let bytes = bytes_of(&g);
                let at: usize = $get;
                let got = if at == 0 { bytes[bytes.len() - 1] } else { bytes[at] };
                let v = view(&g);
                let again = match parse::<u16>(bytes[0], &bytes[2..], v.v5()) {
                    Some(Ok((h, _))) => h == g && view(&h) == v,
                    _ => false,
                };
                let back = matches!($e::try_from($n as u8), Ok($e::$v));
                out.push((concat!(stringify!($e), "::", stringify!($v)), $n as u8, got, again && back));
            })*
        };
    }
    macro_rules! acks {
        ($e:ident $t:ident; $($v:ident $n:expr),*) => {
            codes!($e, |c| v5_0::$t::builder().packet_id(1u16).reason_code(c).build().unwrap().into(), 4; $($v $n),*);
        };
    }
    codes!(ConnectReturnCode, |c| v3_1_1::Connack::builder().session_present(false).return_code(c).build().unwrap().into(), 3;
        Accepted 0, UnacceptableProtocolVersion 1, IdentifierRejected 2, ServerUnavailable 3, BadUserNameOrPassword 4, NotAuthorized 5);
    codes!(SubackReturnCode, |c| v3_1_1::Suback::builder().packet_id(1u16).return_codes(vec![c]).build().unwrap().into(), 0;
        SuccessMaximumQos0 0, SuccessMaximumQos1 1, SuccessMaximumQos2 2, Failure 0x80);
    codes!(ConnectReasonCode, |c| v5_0::Connack::builder().session_present(false).reason_code(c).build().unwrap().into(), 3;
        Success 0, UnspecifiedError 0x80, MalformedPacket 0x81, ProtocolError 0x82, ImplementationSpecificError 0x83,
        UnsupportedProtocolVersion 0x84, ClientIdentifierNotValid 0x85, BadUserNameOrPassword 0x86, NotAuthorized 0x87,
        ServerUnavailable 0x88, ServerBusy 0x89, Banned 0x8a, BadAuthenticationMethod 0x8c, TopicNameInvalid 0x90,
        PacketTooLarge 0x95, QuotaExceeded 0x97, PayloadFormatInvalid 0x99, RetainNotSupported 0x9a, QosNotSupported 0x9b,
        UseAnotherServer 0x9c, ServerMoved 0x9d, ConnectionRateExceeded 0x9f);
    codes!(DisconnectReasonCode, |c| v5_0::Disconnect::builder().reason_code(c).build().unwrap().into(), 2;
        NormalDisconnection 0, DisconnectWithWillMessage 4, UnspecifiedError 0x80, MalformedPacket 0x81, ProtocolError 0x82,
        ImplementationSpecificError 0x83, NotAuthorized 0x87, ServerBusy 0x89, ServerShuttingDown 0x8b, KeepAliveTimeout 0x8d,
        SessionTakenOver 0x8e, TopicFilterInvalid 0x8f, TopicNameInvalid 0x90, ReceiveMaximumExceeded 0x93,
        TopicAliasInvalid 0x94, PacketTooLarge 0x95, MessageRateTooHigh 0x96, QuotaExceeded 0x97, AdministrativeAction 0x98,
        PayloadFormatInvalid 0x99, RetainNotSupported 0x9a, QosNotSupported 0x9b, UseAnotherServer 0x9c, ServerMoved 0x9d,
        SharedSubscriptionsNotSupported 0x9e, ConnectionRateExceeded 0x9f, MaximumConnectTime 0xa0,
        SubscriptionIdentifiersNotSupported 0xa1, WildcardSubscriptionsNotSupported 0xa2);
    codes!(SubackReasonCode, |c| v5_0::Suback::builder().packet_id(1u16).reason_codes(vec![c]).build().unwrap().into(), 0;
        GrantedQos0 0, GrantedQos1 1, GrantedQos2 2, UnspecifiedError 0x80, ImplementationSpecificError 0x83, NotAuthorized 0x87,
        TopicFilterInvalid 0x8f, PacketIdentifierInUse 0x91, QuotaExceeded 0x97, SharedSubscriptionsNotSupported 0x9e,
        SubscriptionIdentifiersNotSupported 0xa1, WildcardSubscriptionsNotSupported 0xa2);
    codes!(UnsubackReasonCode, |c| v5_0::Unsuback::builder().packet_id(1u16).reason_codes(vec![c]).build().unwrap().into(), 0;
        Success 0, NoSubscriptionExisted 0x11, UnspecifiedError 0x80, ImplementationSpecificError 0x83, NotAuthorized 0x87,
        TopicFilterInvalid 0x8f, PacketIdentifierInUse 0x91);
    acks!(PubackReasonCode Puback; Success 0, NoMatchingSubscribers 0x10, UnspecifiedError 0x80, ImplementationSpecificError 0x83,
        NotAuthorized 0x87, TopicNameInvalid 0x90, PacketIdentifierInUse 0x91, QuotaExceeded 0x97, PayloadFormatInvalid 0x99);
    acks!(PubrecReasonCode Pubrec; Success 0, NoMatchingSubscribers 0x10, UnspecifiedError 0x80, ImplementationSpecificError 0x83,
        NotAuthorized 0x87, TopicNameInvalid 0x90, PacketIdentifierInUse 0x91, QuotaExceeded 0x97, PayloadFormatInvalid 0x99);
    acks!(PubrelReasonCode Pubrel; Success 0, PacketIdentifierNotFound 0x92);
    acks!(PubcompReasonCode Pubcomp; Success 0, PacketIdentifierNotFound 0x92);
    codes!(AuthReasonCode, |c| {
        let m: Properties = vec![AuthenticationMethod::new("m").unwrap().into()];
        v5_0::Auth::builder().reason_code(c).props(m).build().unwrap().into()
    }, 2; Success 0, ContinueAuthentication 0x18, ReAuthenticate 0x19);
    macro_rules! bits {
        ($($name:expr, $n:expr, $got:expr, $back:expr;)*) => { $(out.push(($name, $n, $got, $back));)* };
    }
    let q = |q: Qos| {
        let g: GenericPacket<u16> = if q == Qos::AtMostOnce {
            v5_0::Publish::builder().topic_name("t").unwrap().qos(q).build().unwrap().into()
        } else {
            v5_0::Publish::builder().topic_name("t").unwrap().qos(q).packet_id(1u16).build().unwrap().into()
        };
        bytes_of(&g)[0]
    };
    let opt = |o: SubOpts| {
        let g: GenericPacket<u16> = v5_0::Subscribe::builder().packet_id(1u16).entries(vec![SubEntry::new("t", o).unwrap()]).build().unwrap().into();
        *bytes_of(&g).last().unwrap()
    };
    let pf = |p: PayloadFormat| Property::from(PayloadFormatIndicator::new(p).unwrap()).to_continuous_buffer()[1];
    let o = SubOpts::new;
    bits! {
        "Qos::AtMostOnce", 0x30, q(Qos::AtMostOnce), matches!(Qos::try_from(0), Ok(Qos::AtMostOnce));
        "Qos::AtLeastOnce", 0x32, q(Qos::AtLeastOnce), matches!(Qos::try_from(1), Ok(Qos::AtLeastOnce));
        "Qos::ExactlyOnce", 0x34, q(Qos::ExactlyOnce), matches!(Qos::try_from(2), Ok(Qos::ExactlyOnce));
        "SubOpts::new", 0, opt(o()), true;
        "set_qos(AtLeastOnce)", 1, opt(o().set_qos(Qos::AtLeastOnce)), o().set_qos(Qos::AtLeastOnce).qos() == Qos::AtLeastOnce;
        "set_qos(ExactlyOnce)", 2, opt(o().set_qos(Qos::ExactlyOnce)), o().set_qos(Qos::ExactlyOnce).qos() == Qos::ExactlyOnce;
        "set_nl", 4, opt(o().set_nl(true)), o().set_nl(true).nl() && !o().nl();
        "set_rap", 8, opt(o().set_rap(true)), o().set_rap(true).rap() && !o().rap();
        "set_rh(SendRetained)", 0, opt(o().set_rh(RetainHandling::SendRetained)), o().rh() == RetainHandling::SendRetained;
        "set_rh(SendRetainedIfNotExists)", 0x10, opt(o().set_rh(RetainHandling::SendRetainedIfNotExists)), matches!(RetainHandling::try_from(1), Ok(RetainHandling::SendRetainedIfNotExists));
        "set_rh(DoNotSendRetained)", 0x20, opt(o().set_rh(RetainHandling::DoNotSendRetained)), matches!(RetainHandling::try_from(2), Ok(RetainHandling::DoNotSendRetained));
        "PayloadFormat::Binary", 0, pf(PayloadFormat::Binary), matches!(PayloadFormat::try_from(0), Ok(PayloadFormat::Binary));
        "PayloadFormat::String", 1, pf(PayloadFormat::String), matches!(PayloadFormat::try_from(1), Ok(PayloadFormat::String));
    }
    macro_rules! ids {
        ($($v:ident $n:expr),*) => { $(out.push((concat!("PropertyId::", stringify!($v)), $n as u8, PropertyId::$v.as_u8(), PropertyId::try_from($n as u8).is_ok_and(|x| x == PropertyId::$v)));)* };
    }
    ids!(PayloadFormatIndicator 1, MessageExpiryInterval 2, ContentType 3, ResponseTopic 8, CorrelationData 9, SubscriptionIdentifier 11,
        SessionExpiryInterval 17, AssignedClientIdentifier 18, ServerKeepAlive 19, AuthenticationMethod 21, AuthenticationData 22,
        RequestProblemInformation 23, WillDelayInterval 24, RequestResponseInformation 25, ResponseInformation 26, ServerReference 28,
        ReasonString 31, ReceiveMaximum 33, TopicAliasMaximum 34, TopicAlias 35, MaximumQos 36, RetainAvailable 37, UserProperty 38,
        MaximumPacketSize 39, WildcardSubscriptionAvailable 40, SubscriptionIdentifierAvailable 41, SharedSubscriptionAvailable 42);
    out
}
fn c03_names(s: &mut Src, c: &mut Ctx) -> Res {
    let all = names();
    let (name, want, got, back) = all[s.draw(NAMES as u32) as usize % all.len()];
    c.log(|| format!("{name} is {want:#04x} on the wire"));
    c.nontrivial = true;
    ensure!(got == want, "c03-name", "{name} is written as {got:#04x}, MQTT says {want:#04x}");
    ensure!(back, "c03-name", "{name} ({want:#04x}) is not read back as itself");
    Ok(())
}
const NAMES: u64 = 160;
