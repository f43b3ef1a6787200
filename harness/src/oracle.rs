//! An independent reading of MQTT 5: what bytes mean to this client, and which bytes its packets are.
use crate::tree::{bytes, leaf, rec, tup, T};

pub const MAX: usize = 268_435_455;

pub const CONNACK: &[(u8, &str)] = &[
    (0, "Success"), (128, "UnspecifiedError"), (129, "MalformedPacket"), (130, "ProtocolError"),
    (131, "ImplementationSpecificError"), (132, "UnsupportedProtocolVersion"), (133, "ClientIdentifierNotValid"),
    (134, "BadUserNameOrPassword"), (135, "NotAuthorized"), (136, "ServerUnavailable"), (137, "ServerBusy"),
    (138, "Banned"), (140, "BadAuthenticationMethod"), (144, "TopicNameInvalid"), (149, "PacketTooLarge"),
    (151, "QuotaExceeded"), (153, "PayloadFormatInvalid"), (154, "RetainNotSupported"), (155, "QoSNotSupported"),
    (156, "UseAnotherServer"), (157, "ServerMoved"), (159, "ConnectionRateExceeded"),
];
pub const DISCONNECT: &[(u8, &str)] = &[
    (0, "Normal"), (4, "DisconnectWithWill"), (128, "UnspecifiedError"), (129, "MalformedPacket"),
    (130, "ProtocolError"), (131, "ImplementationSpecificError"), (135, "NotAuthorized"), (137, "ServerBusy"),
    (139, "ServerShuttingDown"), (141, "KeepAliveTimeout"), (142, "SessionTakenOver"), (143, "TopicFilterInvalid"),
    (144, "TopicNameInvalid"), (147, "ReceiveMaximumExceeded"), (148, "TopicAliasInvalid"), (149, "PacketTooLarge"),
    (150, "MessageRateTooHigh"), (151, "QuotaExceeded"), (152, "AdministrativeAction"), (153, "PayloadFormatInvalid"),
    (154, "RetainNotSupported"), (155, "QoSNotSupported"), (156, "UseAnotherServer"), (157, "ServerMoved"),
    (158, "SharedSubsNotSupported"), (159, "ConnectionRateExceeded"), (160, "MaximumConnectTime"),
    (161, "SubscrpitionIdsNotSupported"), (162, "WildcardSubsNotSupported"),
];
pub const PUBACK: &[(u8, &str)] = &[
    (0, "Success"), (16, "NoMatchingSubscibers"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (144, "TopicNameInvalid"), (145, "PacketIdentifierInUse"), (151, "QuotaExceeded"),
    (153, "PayloadFormatInvalid"),
];
pub const SUBACK: &[(u8, &str)] = &[
    (0, "QoS0"), (1, "QoS1"), (2, "QoS2"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (143, "TopicFilterInvalid"), (145, "PacketIdentifierInUse"), (151, "QuotaExceeded"),
    (158, "SharedSubsNotSupported"), (161, "SubIdsNotSupported"), (162, "WildcardSubsNotSupported"),
];
pub const UNSUBACK: &[(u8, &str)] = &[
    (0, "Success"), (17, "NoSubscriptionExisted"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (143, "TopicFilterInvalid"), (145, "PacketIdentifierInUse"),
];
pub const QOS: &[(u8, &str)] = &[(0, "AtMostOnce"), (1, "AtLeastOnce"), (2, "ExactlyOnce")];

#[derive(Clone, Debug, PartialEq)]
pub enum Vbi {
    Need,
    Bad,
    Ok(usize, usize),
}

pub fn vbi_dec(b: &[u8]) -> Vbi {
    let mut v = 0usize;
    for i in 0..4 {
        match b.get(i) {
            None => return Vbi::Need,
            Some(x) => {
                v += ((x & 0x7f) as usize) << (7 * i);
                if x & 0x80 == 0 {
                    return Vbi::Ok(v, i + 1);
                }
            }
        }
    }
    Vbi::Bad
}

pub fn vbi_enc(mut n: usize) -> Vec<u8> {
    let mut o = vec![];
    while n >= 128 {
        o.push((n % 128) as u8 | 0x80);
        n /= 128;
    }
    o.push(n as u8);
    o
}

pub fn str_enc(s: &[u8]) -> Vec<u8> {
    let mut o = vec![(s.len() >> 8) as u8, s.len() as u8];
    o.extend_from_slice(s);
    o
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![first];
    o.extend(vbi_enc(body.len()));
    o.extend_from_slice(body);
    o
}

/// What must come of one packet.
#[derive(Clone, Debug)]
pub enum Expect {
    Must(T),
    MustErr,
    /// this packet or an error
    Either(T),
}

#[derive(Clone, Debug)]
pub enum Head {
    Need,
    /// an error now, or at the latest when the byte behind is there
    Bad,
    Whole(usize),
}

pub fn head(b: &[u8]) -> Head {
    if b.len() < 2 {
        return Head::Need;
    }
    match vbi_dec(&b[1..]) {
        Vbi::Need => Head::Need,
        Vbi::Bad => Head::Bad,
        Vbi::Ok(len, n) => {
            if b.len() < 1 + n + len {
                Head::Need
            } else {
                Head::Whole(1 + n + len)
            }
        }
    }
}

type R<X> = Result<X, ()>;

struct C<'a> {
    b: &'a [u8],
    i: usize,
    /// something a stricter client may refuse
    odd: bool,
}

impl<'a> C<'a> {
    fn u8(&mut self) -> R<u8> {
        let v = *self.b.get(self.i).ok_or(())?;
        self.i += 1;
        Ok(v)
    }
    fn u16(&mut self) -> R<u16> {
        Ok((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn u32(&mut self) -> R<u32> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    fn bin(&mut self) -> R<&'a [u8]> {
        let n = self.u16()? as usize;
        let s = self.b.get(self.i..self.i + n).ok_or(())?;
        self.i += n;
        Ok(s)
    }
    fn str(&mut self) -> R<String> {
        let s = self.bin()?;
        let s = std::str::from_utf8(s).map_err(|_| ())?;
        if s.chars().any(|c| c.is_control() || c == '\u{feff}' || (c as u32) & 0xfffe == 0xfffe) {
            self.odd = true;
        }
        Ok(s.to_string())
    }
    fn id(&mut self) -> R<u16> {
        let v = self.u16()?;
        if v == 0 {
            Err(())
        } else {
            Ok(v)
        }
    }
    fn code(&mut self, t: &'static [(u8, &'static str)]) -> R<T> {
        let c = self.u8()?;
        if t.iter().any(|x| x.0 == c) {
            Ok(T::Code(t, c))
        } else {
            Err(())
        }
    }
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    /// (property list, is the payload text)
    fn props(&mut self, publish: bool) -> R<(Vec<T>, bool)> {
        let (len, n) = match vbi_dec(&self.b[self.i..]) {
            Vbi::Ok(len, n) => (len, n),
            _ => return Err(()),
        };
        if n > vbi_enc(len).len() {
            self.odd = true; // not the shortest form
        }
        self.i += n;
        let end = self.i + len;
        if end > self.b.len() {
            return Err(());
        }
        let mut sub = C { b: &self.b[..end], i: self.i, odd: false };
        let mut out = vec![];
        let mut text = false;
        let mut seen = vec![];
        while sub.i < end {
            let id = sub.u8()?;
            if id != 0x26 && seen.contains(&id) {
                sub.odd = true; // the standard forbids it twice
            }
            seen.push(id);
            out.push(match (id, publish) {
                (0x01, true) => {
                    let v = sub.u8()?;
                    if v > 1 {
                        sub.odd = true;
                    }
                    text |= v == 1;
                    tup("PayloadFormatId", vec![leaf(v)])
                }
                (0x02, true) => tup("MessageExpiryInterval", vec![leaf(sub.u32()?)]),
                (0x08, true) => tup("ResponseTopic", vec![T::Str(sub.str()?)]),
                (0x09, true) => tup("CorrelationData", vec![bytes(sub.bin()?)]),
                (0x1f, false) => tup("ReasonString", vec![T::Str(sub.str()?)]),
                (0x26, _) => {
                    let k = sub.str()?;
                    let v = sub.str()?;
                    tup("UserProperty", vec![T::Str(k), T::Str(v)])
                }
                _ => return Err(()),
            });
        }
        self.i = end;
        self.odd |= sub.odd;
        Ok((out, text))
    }
}

/// One whole packet.
pub fn packet(b: &[u8]) -> Expect {
    let (kind, flags) = (b[0] >> 4, b[0] & 15);
    let (len, n) = match vbi_dec(&b[1..]) {
        Vbi::Ok(l, n) => (l, n),
        _ => return Expect::MustErr,
    };
    let mut c = C { b: &b[1 + n..1 + n + len], i: 0, odd: n > vbi_enc(len).len() };
    let r = (|| -> R<T> {
        Ok(match kind {
            3 => {
                let qos = flags >> 1 & 3;
                if qos == 3 {
                    return Err(());
                }
                if qos == 0 && flags & 8 != 0 {
                    c.odd = true;
                }
                let topic = c.str()?;
                if topic.is_empty() || topic.contains('#') || topic.contains('+') {
                    c.odd = true;
                }
                let id = if qos > 0 { Some(c.id()?) } else { None };
                let (props, text) = c.props(true)?;
                let rest = &c.b[c.i..];
                c.i = c.b.len();
                let payload = if text {
                    tup("String", vec![T::Str(std::str::from_utf8(rest).map_err(|_| ())?.to_string())])
                } else {
                    tup("Bytes", vec![bytes(rest)])
                };
                tup("Publish", vec![rec("", vec![
                    ("topic", T::Str(topic)),
                    ("payload", payload),
                    ("properties", T::List(props)),
                    ("flags", rec("", vec![("dup", leaf(flags & 8 != 0)), ("qos", T::Code(QOS, qos)), ("retain", leaf(flags & 1 != 0))])),
                    ("pktid", match id { Some(i) => tup("Some", vec![leaf(i)]), None => leaf("None") }),
                ])])
            }
            2 => {
                let f = c.u8()?;
                if f > 1 {
                    return Err(());
                }
                let reason = c.code(CONNACK)?;
                let (props, _) = c.props(false)?;
                tup("Connack", vec![rec("", vec![
                    ("flags", rec("", vec![("session_present", leaf(f == 1))])), ("reason", reason), ("properties", T::List(props)),
                ])])
            }
            4 => {
                let id = c.id()?;
                let reason = if c.left() == 0 { T::Code(PUBACK, 0) } else { c.code(PUBACK)? };
                let (props, _) = if c.left() == 0 { (vec![], false) } else { c.props(false)? };
                let mut rs = leaf("None");
                let mut up = vec![];
                for p in props {
                    match p {
                        T::Tup(n, v) if n == "ReasonString" => rs = tup("Some", v),
                        T::Tup(_, v) => up.push(tup("", v)),
                        _ => {}
                    }
                }
                tup("PubAck", vec![rec("", vec![
                    ("properties", rec("", vec![("reason_string", rs), ("user_properties", T::List(up))])),
                    ("pktid", leaf(id)), ("reason", reason),
                ])])
            }
            9 | 11 => {
                let id = c.id()?;
                let (props, _) = c.props(false)?;
                let reason = c.code(if kind == 9 { SUBACK } else { UNSUBACK })?;
                tup(if kind == 9 { "SubAck" } else { "UnsubAck" }, vec![rec("", vec![
                    ("properties", T::List(props)), ("pktid", leaf(id)), ("reason", reason),
                ])])
            }
            14 => {
                let reason = if c.left() == 0 { T::Code(DISCONNECT, 0) } else { c.code(DISCONNECT)? };
                let props = if c.left() == 0 { vec![] } else { c.props(false)?.0 };
                tup("Disconnect", vec![rec("", vec![("reason", reason), ("properties", T::List(props))])])
            }
            13 => tup("PingResp", vec![T::Any]),
            _ => return Err(()),
        })
    })();
    let odd = c.odd || c.left() > 0 || (kind != 3 && flags != 0);
    match (r, kind) {
        (Err(()), _) => Expect::MustErr,
        (Ok(t), _) if odd => Expect::Either(t),
        (Ok(t), _) => Expect::Must(t),
    }
}
