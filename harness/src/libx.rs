//! Adapter between the abstract packets (`Pk`) and the library's public packet API.
//! `build` goes through the builders, `view` through the accessors, `parse` through the parsers.

use crate::spec::{self, ConnectP, Pk, Pr, Props, PublishP, Pv, Will};
pub use mqtt_protocol_core::mqtt::common::Arc;
pub use mqtt_protocol_core::mqtt::packet::{
    v3_1_1, v5_0, GenericPacket, GenericPacketTrait, IntoPacketId, IsPacketId, PayloadFormat,
    Properties, Property, Qos, RetainHandling, SubEntry, SubOpts,
};
pub use mqtt_protocol_core::mqtt::packet::prelude::*;
use mqtt_protocol_core::mqtt::packet::*;
pub use mqtt_protocol_core::mqtt::result_code::*;

pub trait Pid: IsPacketId + IntoPacketId<Self> + Send + Sync {
    const WIDE: bool;
    const MAX: u32;
    fn mk(v: u32) -> Self;
    fn get(self) -> u32;
}
impl Pid for u16 {
    const WIDE: bool = false;
    const MAX: u32 = u16::MAX as u32;
    fn mk(v: u32) -> Self {
        v as u16
    }
    fn get(self) -> u32 {
        self as u32
    }
}
impl Pid for u32 {
    const WIDE: bool = true;
    const MAX: u32 = u32::MAX;
    fn mk(v: u32) -> Self {
        v
    }
    fn get(self) -> u32 {
        self
    }
}

pub type LR<T> = Result<T, MqttError>;

fn qos(q: u8) -> LR<Qos> {
    Qos::try_from(q).map_err(|_| MqttError::MalformedPacket)
}
fn rc<T: TryFrom<u8>>(v: u8) -> LR<T> {
    T::try_from(v).map_err(|_| MqttError::MalformedPacket)
}

pub fn l_prop(p: &Pr) -> LR<Property> {
    let u8v = || match &p.v {
        Pv::U8(x) => *x,
        _ => unreachable!("HARNESS: property type"),
    };
    let u16v = || match &p.v {
        Pv::U16(x) => *x,
        _ => unreachable!("HARNESS: property type"),
    };
    let u32v = || match &p.v {
        Pv::U32(x) | Pv::Vbi(x) => *x,
        _ => unreachable!("HARNESS: property type"),
    };
    let s = || match &p.v {
        Pv::Str(x) => x.as_str(),
        _ => unreachable!("HARNESS: property type"),
    };
    let b = || match &p.v {
        Pv::Bin(x) => x.clone(),
        _ => unreachable!("HARNESS: property type"),
    };
    Ok(match p.id {
        0x01 => PayloadFormatIndicator::new(match u8v() {
            0 => PayloadFormat::Binary,
            1 => PayloadFormat::String,
            _ => return Err(MqttError::ProtocolError),
        })?
        .into(),
        0x02 => MessageExpiryInterval::new(u32v())?.into(),
        0x03 => ContentType::new(s())?.into(),
        0x08 => ResponseTopic::new(s())?.into(),
        0x09 => CorrelationData::new(b())?.into(),
        0x0B => SubscriptionIdentifier::new(u32v())?.into(),
        0x11 => SessionExpiryInterval::new(u32v())?.into(),
        0x12 => AssignedClientIdentifier::new(s())?.into(),
        0x13 => ServerKeepAlive::new(u16v())?.into(),
        0x15 => AuthenticationMethod::new(s())?.into(),
        0x16 => AuthenticationData::new(b())?.into(),
        0x17 => RequestProblemInformation::new(u8v())?.into(),
        0x18 => WillDelayInterval::new(u32v())?.into(),
        0x19 => RequestResponseInformation::new(u8v())?.into(),
        0x1A => ResponseInformation::new(s())?.into(),
        0x1C => ServerReference::new(s())?.into(),
        0x1F => ReasonString::new(s())?.into(),
        0x21 => ReceiveMaximum::new(u16v())?.into(),
        0x22 => TopicAliasMaximum::new(u16v())?.into(),
        0x23 => TopicAlias::new(u16v())?.into(),
        0x24 => MaximumQos::new(u8v())?.into(),
        0x25 => RetainAvailable::new(u8v())?.into(),
        0x26 => match &p.v {
            Pv::Pair(a, c) => UserProperty::new(a.as_str(), c.as_str())?.into(),
            _ => unreachable!("HARNESS: property type"),
        },
        0x27 => MaximumPacketSize::new(u32v())?.into(),
        0x28 => WildcardSubscriptionAvailable::new(u8v())?.into(),
        0x29 => SubscriptionIdentifierAvailable::new(u8v())?.into(),
        0x2A => SharedSubscriptionAvailable::new(u8v())?.into(),
        _ => unreachable!("HARNESS: property id"),
    })
}
pub fn l_props(ps: &[Pr]) -> LR<Properties> {
    ps.iter().map(l_prop).collect()
}

pub fn v_prop(p: &Property) -> Pr {
    let id = p.id().as_u8();
    let v = match spec::prop_ty(id) {
        Some(spec::Ty::Byte) => Pv::U8(p.as_u8().unwrap_or(0xee)),
        Some(spec::Ty::Two) => Pv::U16(p.as_u16().unwrap_or(0xeeee)),
        Some(spec::Ty::Four) => Pv::U32(p.as_u32().unwrap_or(0xeeee_eeee)),
        Some(spec::Ty::Vbi) => Pv::Vbi(p.as_u32().unwrap_or(0xeeee_eeee)),
        Some(spec::Ty::Str) => Pv::Str(p.as_str().unwrap_or("<none>").to_string()),
        Some(spec::Ty::Bin) => Pv::Bin(p.as_bytes().unwrap_or(b"<none>").to_vec()),
        Some(spec::Ty::Pair) => {
            let (a, b) = p.as_key_value().unwrap_or(("<none>", "<none>"));
            Pv::Pair(a.to_string(), b.to_string())
        }
        None => Pv::Bin(vec![]),
    };
    Pr { id, v }
}
pub fn v_props(ps: &Properties) -> Props {
    ps.iter().map(v_prop).collect()
}

macro_rules! b_ack {
    ($m:ident :: $t:ident, $rc:ty, $P:ty, $pid:expr, $code:expr) => {{
        let mut b = $m::$t::<$P>::builder().packet_id(<$P>::mk($pid));
        if let Some(c) = $code {
            b = b.reason_code(rc::<$rc>(*c)?);
        }
        b
    }};
}

/// Builds through the public builders.  Err = refused by a setter or by `build`.
pub fn build<P: Pid>(p: &Pk) -> LR<GenericPacket<P>> {
    Ok(match p {
        Pk::Connect(c) if c.v5 => {
            let mut b = v5_0::Connect::builder()
                .clean_start(c.clean)
                .keep_alive(c.keep_alive)
                .client_id(c.client_id.as_str())?;
            if let Some(w) = &c.will {
                b = b.will_message(w.topic.as_str(), w.payload.clone(), qos(w.qos)?, w.retain)?;
                if !w.props.is_empty() {
                    b = b.will_props(l_props(&w.props)?);
                }
            }
            if let Some(u) = &c.user {
                b = b.user_name(u.as_str())?;
            }
            if let Some(u) = &c.pass {
                b = b.password(u.clone())?;
            }
            if !c.props.is_empty() {
                b = b.props(l_props(&c.props)?);
            }
            b.build()?.into()
        }
        Pk::Connect(c) => {
            let mut b = v3_1_1::Connect::builder()
                .clean_session(c.clean)
                .keep_alive(c.keep_alive)
                .client_id(c.client_id.as_str())?;
            if let Some(w) = &c.will {
                b = b.will_message(w.topic.as_str(), w.payload.clone(), qos(w.qos)?, w.retain)?;
            }
            if let Some(u) = &c.user {
                b = b.user_name(u.as_str())?;
            }
            if let Some(u) = &c.pass {
                b = b.password(u.clone())?;
            }
            b.build()?.into()
        }
        Pk::Connack { v5: true, sp, code, props } => {
            let mut b = v5_0::Connack::builder().session_present(*sp).reason_code(rc(*code)?);
            if !props.is_empty() {
                b = b.props(l_props(props)?);
            }
            b.build()?.into()
        }
        Pk::Connack { sp, code, .. } => v3_1_1::Connack::builder()
            .session_present(*sp)
            .return_code(rc(*code)?)
            .build()?
            .into(),
        Pk::Publish(q) if q.v5 => {
            let mut b = v5_0::GenericPublish::<P>::builder()
                .topic_name(q.topic.as_str())?
                .qos(qos(q.qos)?)
                .retain(q.retain)
                .dup(q.dup)
                .payload(q.payload.clone());
            if let Some(i) = q.pid {
                b = b.packet_id(P::mk(i));
            }
            if !q.props.is_empty() {
                b = b.props(l_props(&q.props)?);
            }
            b.build()?.into()
        }
        Pk::Publish(q) => {
            let mut b = v3_1_1::GenericPublish::<P>::builder()
                .topic_name(q.topic.as_str())?
                .qos(qos(q.qos)?)
                .retain(q.retain)
                .dup(q.dup)
                .payload(q.payload.clone());
            if let Some(i) = q.pid {
                b = b.packet_id(P::mk(i));
            }
            b.build()?.into()
        }
        Pk::Ack { v5: true, kind, pid, code, props } => match kind {
            4 => {
                let mut b = b_ack!(v5_0::GenericPuback, PubackReasonCode, P, *pid, code);
                if let Some(ps) = props {
                    b = b.props(l_props(ps)?);
                }
                b.build()?.into()
            }
            5 => {
                let mut b = b_ack!(v5_0::GenericPubrec, PubrecReasonCode, P, *pid, code);
                if let Some(ps) = props {
                    b = b.props(l_props(ps)?);
                }
                b.build()?.into()
            }
            6 => {
                let mut b = b_ack!(v5_0::GenericPubrel, PubrelReasonCode, P, *pid, code);
                if let Some(ps) = props {
                    b = b.props(l_props(ps)?);
                }
                b.build()?.into()
            }
            _ => {
                let mut b = b_ack!(v5_0::GenericPubcomp, PubcompReasonCode, P, *pid, code);
                if let Some(ps) = props {
                    b = b.props(l_props(ps)?);
                }
                b.build()?.into()
            }
        },
        Pk::Ack { kind, pid, code, .. } => match kind {
            4 => b_ack!(v3_1_1::GenericPuback, PubackReasonCode, P, *pid, code).build()?.into(),
            5 => b_ack!(v3_1_1::GenericPubrec, PubrecReasonCode, P, *pid, code).build()?.into(),
            6 => b_ack!(v3_1_1::GenericPubrel, PubrelReasonCode, P, *pid, code).build()?.into(),
            _ => b_ack!(v3_1_1::GenericPubcomp, PubcompReasonCode, P, *pid, code).build()?.into(),
        },
        Pk::Subscribe { v5, pid, props, entries } => {
            let mut es = Vec::new();
            for (f, o) in entries {
                es.push(SubEntry::new(f.as_str(), SubOpts::from_u8(*o)?)?);
            }
            if *v5 {
                let mut b = v5_0::GenericSubscribe::<P>::builder().packet_id(P::mk(*pid)).entries(es);
                if !props.is_empty() {
                    b = b.props(l_props(props)?);
                }
                b.build()?.into()
            } else {
                v3_1_1::GenericSubscribe::<P>::builder()
                    .packet_id(P::mk(*pid))
                    .entries(es)
                    .build()?
                    .into()
            }
        }
        Pk::Suback { v5: true, pid, props, codes } => {
            let cs = codes.iter().map(|c| rc(*c)).collect::<LR<Vec<SubackReasonCode>>>()?;
            let mut b = v5_0::GenericSuback::<P>::builder().packet_id(P::mk(*pid)).reason_codes(cs);
            if !props.is_empty() {
                b = b.props(l_props(props)?);
            }
            b.build()?.into()
        }
        Pk::Suback { pid, codes, .. } => {
            let cs = codes.iter().map(|c| rc(*c)).collect::<LR<Vec<SubackReturnCode>>>()?;
            v3_1_1::GenericSuback::<P>::builder()
                .packet_id(P::mk(*pid))
                .return_codes(cs)
                .build()?
                .into()
        }
        Pk::Unsubscribe { v5, pid, props, filters } => {
            let fs: Vec<&str> = filters.iter().map(|s| s.as_str()).collect();
            if *v5 {
                let mut b =
                    v5_0::GenericUnsubscribe::<P>::builder().packet_id(P::mk(*pid)).entries(fs)?;
                if !props.is_empty() {
                    b = b.props(l_props(props)?);
                }
                b.build()?.into()
            } else {
                v3_1_1::GenericUnsubscribe::<P>::builder()
                    .packet_id(P::mk(*pid))
                    .entries(fs)?
                    .build()?
                    .into()
            }
        }
        Pk::Unsuback { v5: true, pid, props, codes } => {
            let cs = codes.iter().map(|c| rc(*c)).collect::<LR<Vec<UnsubackReasonCode>>>()?;
            let mut b =
                v5_0::GenericUnsuback::<P>::builder().packet_id(P::mk(*pid)).reason_codes(cs);
            if !props.is_empty() {
                b = b.props(l_props(props)?);
            }
            b.build()?.into()
        }
        Pk::Unsuback { pid, .. } => {
            v3_1_1::GenericUnsuback::<P>::builder().packet_id(P::mk(*pid)).build()?.into()
        }
        Pk::Pingreq { v5: true } => v5_0::Pingreq::builder().build()?.into(),
        Pk::Pingreq { .. } => v3_1_1::Pingreq::builder().build()?.into(),
        Pk::Pingresp { v5: true } => v5_0::Pingresp::builder().build()?.into(),
        Pk::Pingresp { .. } => v3_1_1::Pingresp::builder().build()?.into(),
        Pk::Disconnect { v5: true, code, props } => {
            let mut b = v5_0::Disconnect::builder();
            if let Some(c) = code {
                b = b.reason_code(rc(*c)?);
            }
            if let Some(ps) = props {
                b = b.props(l_props(ps)?);
            }
            b.build()?.into()
        }
        Pk::Disconnect { .. } => v3_1_1::Disconnect::builder().build()?.into(),
        Pk::Auth { code, props } => {
            let mut b = v5_0::Auth::builder();
            if let Some(c) = code {
                b = b.reason_code(rc(*c)?);
            }
            if let Some(ps) = props {
                b = b.props(l_props(ps)?);
            }
            b.build()?.into()
        }
    })
}

macro_rules! v_ack {
    ($x:expr, $v5:expr, $k:expr, $props:expr) => {
        Pk::Ack {
            v5: $v5,
            kind: $k,
            pid: $x.packet_id().get(),
            code: $x.reason_code().map(|c| c as u8),
            props: $props,
        }
    };
}

/// What the accessors report.
pub fn view<P: Pid>(g: &GenericPacket<P>) -> Pk {
    use GenericPacket as G;
    match g {
        G::V3_1_1Connect(c) => Pk::Connect(Box::new(ConnectP {
            v5: false,
            clean: c.clean_start(),
            keep_alive: c.keep_alive(),
            client_id: c.client_id().to_string(),
            will: if c.will_flag() {
                Some(Will {
                    topic: c.will_topic().unwrap_or("<none>").to_string(),
                    payload: c.will_payload().unwrap_or(b"<none>").to_vec(),
                    qos: c.will_qos() as u8,
                    retain: c.will_retain(),
                    props: vec![],
                })
            } else {
                None
            },
            user: c.user_name().map(|s| s.to_string()),
            pass: c.password().map(|s| s.to_vec()),
            props: vec![],
        })),
        G::V5_0Connect(c) => Pk::Connect(Box::new(ConnectP {
            v5: true,
            clean: c.clean_start(),
            keep_alive: c.keep_alive(),
            client_id: c.client_id().to_string(),
            will: if c.will_flag() {
                Some(Will {
                    topic: c.will_topic().unwrap_or("<none>").to_string(),
                    payload: c.will_payload().unwrap_or(b"<none>").to_vec(),
                    qos: c.will_qos() as u8,
                    retain: c.will_retain(),
                    props: v_props(c.will_props()),
                })
            } else {
                None
            },
            user: c.user_name().map(|s| s.to_string()),
            pass: c.password().map(|s| s.to_vec()),
            props: v_props(c.props()),
        })),
        G::V3_1_1Connack(c) => Pk::Connack {
            v5: false,
            sp: c.session_present(),
            code: c.return_code() as u8,
            props: vec![],
        },
        G::V5_0Connack(c) => Pk::Connack {
            v5: true,
            sp: c.session_present(),
            code: c.reason_code() as u8,
            props: v_props(c.props()),
        },
        G::V3_1_1Publish(q) => Pk::Publish(Box::new(PublishP {
            v5: false,
            dup: q.dup(),
            qos: q.qos() as u8,
            retain: q.retain(),
            topic: q.topic_name().to_string(),
            pid: q.packet_id().map(|i| i.get()),
            props: vec![],
            payload: q.payload().as_slice().to_vec(),
        })),
        G::V5_0Publish(q) => Pk::Publish(Box::new(PublishP {
            v5: true,
            dup: q.dup(),
            qos: q.qos() as u8,
            retain: q.retain(),
            topic: q.topic_name().to_string(),
            pid: q.packet_id().map(|i| i.get()),
            props: v_props(q.props()),
            payload: q.payload().as_slice().to_vec(),
        })),
        G::V3_1_1Puback(x) => v_ack!(x, false, 4, None),
        G::V3_1_1Pubrec(x) => v_ack!(x, false, 5, None),
        G::V3_1_1Pubrel(x) => v_ack!(x, false, 6, None),
        G::V3_1_1Pubcomp(x) => v_ack!(x, false, 7, None),
        G::V5_0Puback(x) => v_ack!(x, true, 4, x.props().as_ref().map(v_props)),
        G::V5_0Pubrec(x) => v_ack!(x, true, 5, x.props().as_ref().map(v_props)),
        G::V5_0Pubrel(x) => v_ack!(x, true, 6, x.props().as_ref().map(v_props)),
        G::V5_0Pubcomp(x) => v_ack!(x, true, 7, x.props().as_ref().map(v_props)),
        G::V3_1_1Subscribe(x) => Pk::Subscribe {
            v5: false,
            pid: x.packet_id().get(),
            props: vec![],
            entries: x.entries().iter().map(v_entry).collect(),
        },
        G::V5_0Subscribe(x) => Pk::Subscribe {
            v5: true,
            pid: x.packet_id().get(),
            props: v_props(x.props()),
            entries: x.entries().iter().map(v_entry).collect(),
        },
        G::V3_1_1Suback(x) => Pk::Suback {
            v5: false,
            pid: x.packet_id().get(),
            props: vec![],
            codes: x.return_codes().into_iter().map(|c| c as u8).collect(),
        },
        G::V5_0Suback(x) => Pk::Suback {
            v5: true,
            pid: x.packet_id().get(),
            props: v_props(x.props()),
            codes: x.reason_codes().into_iter().map(|c| c as u8).collect(),
        },
        G::V3_1_1Unsubscribe(x) => Pk::Unsubscribe {
            v5: false,
            pid: x.packet_id().get(),
            props: vec![],
            filters: x.entries().iter().map(|s| s.as_str().to_string()).collect(),
        },
        G::V5_0Unsubscribe(x) => Pk::Unsubscribe {
            v5: true,
            pid: x.packet_id().get(),
            props: v_props(x.props()),
            filters: x.entries().iter().map(|s| s.as_str().to_string()).collect(),
        },
        G::V3_1_1Unsuback(x) => Pk::Unsuback {
            v5: false,
            pid: x.packet_id().get(),
            props: vec![],
            codes: vec![],
        },
        G::V5_0Unsuback(x) => Pk::Unsuback {
            v5: true,
            pid: x.packet_id().get(),
            props: v_props(x.props()),
            codes: x.reason_codes().into_iter().map(|c| c as u8).collect(),
        },
        G::V3_1_1Pingreq(_) => Pk::Pingreq { v5: false },
        G::V5_0Pingreq(_) => Pk::Pingreq { v5: true },
        G::V3_1_1Pingresp(_) => Pk::Pingresp { v5: false },
        G::V5_0Pingresp(_) => Pk::Pingresp { v5: true },
        G::V3_1_1Disconnect(_) => Pk::Disconnect { v5: false, code: None, props: None },
        G::V5_0Disconnect(x) => Pk::Disconnect {
            v5: true,
            code: x.reason_code().map(|c| c as u8),
            props: x.props().as_ref().map(v_props),
        },
        G::V5_0Auth(x) => Pk::Auth {
            code: x.reason_code().map(|c| c as u8),
            props: x.props().as_ref().map(v_props),
        },
    }
}
fn v_entry(e: &SubEntry) -> (String, u8) {
    let o = e.sub_opts();
    let b = o.qos() as u8 | (o.nl() as u8) << 2 | (o.rap() as u8) << 3 | (o.rh() as u8) << 4;
    (e.topic_filter().to_string(), b)
}

/// Calls the parser of packet type `header >> 4`.  None: no such parser.
pub fn parse<P: Pid>(header: u8, body: &[u8], v5: bool) -> Option<LR<(GenericPacket<P>, usize)>> {
    fn up<P: Pid, T: Into<GenericPacket<P>>>(r: LR<(T, usize)>) -> LR<(GenericPacket<P>, usize)> {
        r.map(|(t, n)| (t.into(), n))
    }
    Some(match (header >> 4, v5) {
        (1, false) => up(v3_1_1::Connect::parse(body)),
        (2, false) => up(v3_1_1::Connack::parse(body)),
        (3, false) => up(v3_1_1::GenericPublish::<P>::parse(header & 15, Arc::from(body))),
        (4, false) => up(v3_1_1::GenericPuback::<P>::parse(body)),
        (5, false) => up(v3_1_1::GenericPubrec::<P>::parse(body)),
        (6, false) => up(v3_1_1::GenericPubrel::<P>::parse(body)),
        (7, false) => up(v3_1_1::GenericPubcomp::<P>::parse(body)),
        (8, false) => up(v3_1_1::GenericSubscribe::<P>::parse(body)),
        (9, false) => up(v3_1_1::GenericSuback::<P>::parse(body)),
        (10, false) => up(v3_1_1::GenericUnsubscribe::<P>::parse(body)),
        (11, false) => up(v3_1_1::GenericUnsuback::<P>::parse(body)),
        (12, false) => up(v3_1_1::Pingreq::parse(body)),
        (13, false) => up(v3_1_1::Pingresp::parse(body)),
        (14, false) => up(v3_1_1::Disconnect::parse(body)),
        (1, true) => up(v5_0::Connect::parse(body)),
        (2, true) => up(v5_0::Connack::parse(body)),
        (3, true) => up(v5_0::GenericPublish::<P>::parse(header & 15, Arc::from(body))),
        (4, true) => up(v5_0::GenericPuback::<P>::parse(body)),
        (5, true) => up(v5_0::GenericPubrec::<P>::parse(body)),
        (6, true) => up(v5_0::GenericPubrel::<P>::parse(body)),
        (7, true) => up(v5_0::GenericPubcomp::<P>::parse(body)),
        (8, true) => up(v5_0::GenericSubscribe::<P>::parse(body)),
        (9, true) => up(v5_0::GenericSuback::<P>::parse(body)),
        (10, true) => up(v5_0::GenericUnsubscribe::<P>::parse(body)),
        (11, true) => up(v5_0::GenericUnsuback::<P>::parse(body)),
        (12, true) => up(v5_0::Pingreq::parse(body)),
        (13, true) => up(v5_0::Pingresp::parse(body)),
        (14, true) => up(v5_0::Disconnect::parse(body)),
        (15, true) => up(v5_0::Auth::parse(body)),
        _ => return None,
    })
}

/// `build` for a packet the harness needs and that the builders must accept; a refusal here
/// is itself a finding for the codec checks, so callers decide what to do with the Err.
pub fn bytes_of<P: Pid>(g: &GenericPacket<P>) -> Vec<u8> {
    g.to_continuous_buffer()
}
pub fn vectored<P: Pid>(g: &GenericPacket<P>) -> Vec<u8> {
    let mut o = Vec::new();
    for b in g.to_buffers() {
        o.extend_from_slice(&b);
    }
    o
}
