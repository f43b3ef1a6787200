
verus! {

// ---------------------------------------------------------------------------
// vxs: what the properties say, written down without looking at the code:
// MQTT 5 wire formats as functions on byte sequences, and predicates on what a
// session did.
// ---------------------------------------------------------------------------
pub mod vxs {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use crate::vxm::*;
    use crate::protocol::*;
    pub use self::lib::*;
    pub use vstd::utf8::{encode_utf8, valid_utf8, decode_utf8};
    pub use crate::vxm::{be16, be32, be16_val, be32_val};

    /// What encoding a value means (the specification half of the crate's encoding trait).
    pub trait VxToMqttBytes {
        /// what the caller has to make sure of
        spec fn enc_pre(&self) -> bool;
        /// the encoding is short enough for its length fields
        spec fn enc_ok(&self) -> bool;
        spec fn enc(&self) -> Seq<u8>;
    }

    /// What decoding a value means.
    pub trait VxFromMqttBytes: Sized {
        spec fn dec_pre(b: Seq<u8>) -> bool;
        spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), crate::protocol::ConvertError>) -> bool;
    }

    /// The largest packet body the protocol can frame.
    pub open spec fn max_remaining() -> nat { 268_435_455 }

    /// UTF-8 bytes of a string.
    pub open spec fn sb(s: String) -> Seq<u8> { encode_utf8(s@) }

    // ----- variable byte integer -----

    pub open spec fn vbi_enc(n: nat) -> Seq<u8>
        decreases n,
    {
        if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + vbi_enc(n / 128) }
    }

    pub enum Vd { Incomplete, TooLong, Done(nat, nat) }

    pub open spec fn low(b: u8) -> nat { (b % 128) as nat }

    pub open spec fn vbi_dec(b: Seq<u8>) -> Vd {
        if b.len() >= 1 && b[0] < 128 { Vd::Done(low(b[0]), 1) }
        else if b.len() >= 2 && b[1] < 128 { Vd::Done(low(b[0]) + 128 * low(b[1]), 2) }
        else if b.len() >= 3 && b[2] < 128 { Vd::Done(low(b[0]) + 128 * low(b[1]) + 16384 * low(b[2]), 3) }
        else if b.len() >= 4 && b[3] < 128 { Vd::Done(low(b[0]) + 128 * low(b[1]) + 16384 * low(b[2]) + 2097152 * low(b[3]), 4) }
        else if b.len() >= 4 { Vd::TooLong }
        else { Vd::Incomplete }
    }

    /// value of the first k digits, all of them continuation digits
    pub open spec fn vbi_part(b: Seq<u8>, k: nat) -> nat {
        (if k >= 1 { low(b[0]) } else { 0 }) + (if k >= 2 { 128 * low(b[1]) } else { 0 })
        + (if k >= 3 { 16384 * low(b[2]) } else { 0 }) + (if k >= 4 { 2097152 * low(b[3]) } else { 0 })
    }

    pub open spec fn pow128(k: nat) -> nat {
        if k == 0 { 1 } else if k == 1 { 128 } else if k == 2 { 16384 } else if k == 3 { 2097152 } else { 268435456 }
    }

    // ----- strings, binary data, packet ids -----

    pub open spec fn str_enc(b: Seq<u8>) -> Seq<u8> { be16(b.len()) + b }

    /// (bytes of the string, bytes consumed)
    pub open spec fn bin_dec(b: Seq<u8>) -> Option<(Seq<u8>, nat)> {
        if b.len() < 2 || b.len() < 2 + be16_val(b) { None }
        else { Some((b.subrange(2, 2 + be16_val(b) as int), 2 + be16_val(b))) }
    }

    pub open spec fn str_dec(b: Seq<u8>) -> Option<(Seq<u8>, nat)> {
        match bin_dec(b) {
            Some((s, n)) => if valid_utf8(s) { Some((s, n)) } else { None },
            None => None,
        }
    }

    pub open spec fn id_dec(b: Seq<u8>) -> Option<(nat, nat)> {
        if b.len() < 2 || be16_val(b) == 0 { None } else { Some((be16_val(b), 2)) }
    }

    pub open spec fn kv_dec(b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>, nat)> {
        match str_dec(b) {
            Some((k, n)) => match str_dec(b.skip(n as int)) {
                Some((v, m)) => Some((k, v, n + m)),
                None => None,
            },
            None => None,
        }
    }

    // ----- properties -----

    /// One property of any packet, by its meaning.
    pub enum Pv {
        Format(u8),
        Expiry(nat),
        RespTopic(Seq<u8>),
        Corr(Seq<u8>),
        SessionExpiry(nat),
        Reason(Seq<u8>),
        User(Seq<u8>, Seq<u8>),
    }

    /// The meaning of a value of one of the crate's property types.
    pub trait VxProp: Sized { spec fn pvw(&self) -> Pv; }

    pub open spec fn plist<T: VxProp>(ps: Seq<T>) -> Seq<Pv> { ps.map_values(|p: T| p.pvw()) }

    pub open spec fn pv_id(p: Pv) -> u8 {
        match p {
            Pv::Format(_) => 0x01, Pv::Expiry(_) => 0x02, Pv::RespTopic(_) => 0x08, Pv::Corr(_) => 0x09,
            Pv::SessionExpiry(_) => 0x11, Pv::Reason(_) => 0x1F, Pv::User(_, _) => 0x26,
        }
    }

    pub open spec fn prop_post<T: VxProp>(ack: bool, b: Seq<u8>, r: Result<(T, usize), ConvertError>) -> bool {
        match prop_dec(ack, b) {
            Some((p, n)) => r is Ok && r->Ok_0.0.pvw() == p && r->Ok_0.1 == n && 0 < n <= b.len(),
            None => r is Err,
        }
    }

    pub open spec fn opt_cat(a: Seq<Pv>, b: Option<Seq<Pv>>) -> Option<Seq<Pv>> {
        match b { Some(b) => Some(a + b), None => None }
    }

    pub open spec fn pv_enc(p: Pv) -> Seq<u8> {
        match p {
            Pv::Format(v) => seq![0x01u8, v],
            Pv::Expiry(v) => seq![0x02u8] + be32(v),
            Pv::RespTopic(s) => seq![0x08u8] + str_enc(s),
            Pv::Corr(b) => seq![0x09u8] + str_enc(b),
            Pv::SessionExpiry(v) => seq![0x11u8] + be32(v),
            Pv::Reason(s) => seq![0x1Fu8] + str_enc(s),
            Pv::User(k, v) => seq![0x26u8] + str_enc(k) + str_enc(v),
        }
    }

    pub open spec fn pv_fits(p: Pv) -> bool {
        match p {
            Pv::RespTopic(s) => s.len() <= 65535,
            Pv::Corr(s) => s.len() <= 65535,
            Pv::Reason(s) => s.len() <= 65535,
            Pv::User(k, v) => k.len() <= 65535 && v.len() <= 65535,
            _ => true,
        }
    }

    /// Properties a PUBLISH may carry that this client knows.
    pub open spec fn pub_prop_dec(b: Seq<u8>) -> Option<(Pv, nat)> {
        if b.len() == 0 { None }
        else if b[0] == 0x01 { if b.len() < 2 { None } else { Some((Pv::Format(b[1]), 2)) } }
        else if b[0] == 0x02 { if b.len() < 5 { None } else { Some((Pv::Expiry(be32_val(b.skip(1))), 5)) } }
        else if b[0] == 0x08 { match str_dec(b.skip(1)) { Some((s, n)) => Some((Pv::RespTopic(s), n + 1)), None => None } }
        else if b[0] == 0x09 { match bin_dec(b.skip(1)) { Some((s, n)) => Some((Pv::Corr(s), n + 1)), None => None } }
        else if b[0] == 0x26 { match kv_dec(b.skip(1)) { Some((k, v, n)) => Some((Pv::User(k, v), n + 1)), None => None } }
        else { None }
    }

    /// Properties of acknowledgements, CONNACK and DISCONNECT that this client knows.
    pub open spec fn ack_prop_dec(b: Seq<u8>) -> Option<(Pv, nat)> {
        if b.len() == 0 { None }
        else if b[0] == 0x1F { match str_dec(b.skip(1)) { Some((s, n)) => Some((Pv::Reason(s), n + 1)), None => None } }
        else if b[0] == 0x26 { match kv_dec(b.skip(1)) { Some((k, v, n)) => Some((Pv::User(k, v), n + 1)), None => None } }
        else { None }
    }

    pub open spec fn prop_dec(ack: bool, b: Seq<u8>) -> Option<(Pv, nat)> {
        if ack { ack_prop_dec(b) } else { pub_prop_dec(b) }
    }

    /// Every property in `b`, which must be used up exactly.
    pub open spec fn props_all(ack: bool, b: Seq<u8>) -> Option<Seq<Pv>>
        decreases b.len(),
    {
        if b.len() == 0 { Some(seq![]) }
        else {
            match prop_dec(ack, b) {
                Some((p, n)) => if 0 < n <= b.len() {
                    match props_all(ack, b.skip(n as int)) {
                        Some(rest) => Some(seq![p] + rest),
                        None => None,
                    }
                } else { None },
                None => None,
            }
        }
    }

    /// A property list: its length as a variable byte integer, then the properties.
    pub open spec fn props_dec(ack: bool, b: Seq<u8>) -> Option<(Seq<Pv>, nat)> {
        match vbi_dec(b) {
            Vd::Done(len, n) => if b.len() < n + len { None } else {
                match props_all(ack, b.subrange(n as int, (n + len) as int)) {
                    Some(ps) => Some((ps, n + len)),
                    None => None,
                }
            },
            _ => None,
        }
    }

    pub open spec fn pvs_enc(ps: Seq<Pv>) -> Seq<u8>
        decreases ps.len(),
    {
        if ps.len() == 0 { seq![] } else { pvs_enc(ps.drop_last()) + pv_enc(ps.last()) }
    }

    pub open spec fn props_enc(ps: Seq<Pv>) -> Seq<u8> { vbi_enc(pvs_enc(ps).len()) + pvs_enc(ps) }

    pub open spec fn all_fit(ps: Seq<Pv>) -> bool { forall|i: int| 0 <= i < ps.len() ==> pv_fits(#[trigger] ps[i]) }

    pub open spec fn list_fits<T: VxProp>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> pv_fits((#[trigger] s[i]).pvw()) }

    // ----- frames -----

    pub enum Frame { Incomplete, Bad, Complete(nat) }

    /// The packet at the start of a stream, judged by its length field.
    pub open spec fn frame(b: Seq<u8>) -> Frame {
        if b.len() < 2 { Frame::Incomplete }
        else {
            match vbi_dec(b.skip(1)) {
                Vd::Incomplete => Frame::Incomplete,
                Vd::TooLong => Frame::Bad,
                Vd::Done(len, n) => if b.len() < 1 + n + len { Frame::Incomplete } else { Frame::Complete(1 + n + len) },
            }
        }
    }

    /// `b` is one packet, whole and nothing more.
    pub open spec fn whole(b: Seq<u8>) -> bool { frame(b) == Frame::Complete(b.len()) }

    /// Where the body of the packet `b` starts.
    pub open spec fn body_at(b: Seq<u8>) -> nat {
        match vbi_dec(b.skip(1)) { Vd::Done(_, n) => 1 + n, _ => 0 }
    }

    pub open spec fn body(b: Seq<u8>) -> Seq<u8> { b.skip(body_at(b) as int) }

    pub open spec fn packet(first: u8, body: Seq<u8>) -> Seq<u8> { seq![first] + vbi_enc(body.len()) + body }

    // ----- PUBLISH -----

    pub struct Pub {
        pub dup: bool,
        pub qos: nat,
        pub retain: bool,
        pub topic: Seq<u8>,
        pub id: Option<nat>,
        pub props: Seq<Pv>,
        pub payload: Seq<u8>,
        /// the payload is text
        pub text: bool,
    }

    pub open spec fn pub_first(p: Pub) -> u8 {
        (0x30 + (if p.dup { 8int } else { 0 }) + 2 * p.qos + (if p.retain { 1int } else { 0 })) as u8
    }

    pub open spec fn pub_body(p: Pub) -> Seq<u8> {
        str_enc(p.topic) + (match p.id { Some(id) => be16(id), None => seq![] }) + props_enc(p.props) + p.payload
    }

    pub open spec fn pub_enc(p: Pub) -> Seq<u8> { packet(pub_first(p), pub_body(p)) }

    pub open spec fn is_text(ps: Seq<Pv>) -> bool { exists|i: int| 0 <= i < ps.len() && #[trigger] ps[i] == Pv::Format(1) }

    pub open spec fn pub_dec(b: Seq<u8>) -> Option<Pub> {
        let qos = (b[0] / 2 % 4) as nat;
        let d = body(b);
        if qos == 3 { None } else {
            match str_dec(d) {
                None => None,
                Some((topic, n)) => {
                    let (id, m): (Option<nat>, nat) = if qos == 0 { (None, 0) } else {
                        match id_dec(d.skip(n as int)) { Some((id, m)) => (Some(id), m), None => (None, 0) }
                    };
                    if qos > 0 && id is None { None } else {
                        match props_dec(false, d.skip((n + m) as int)) {
                            None => None,
                            Some((props, k)) => {
                                let payload = d.skip((n + m + k) as int);
                                if is_text(props) && !valid_utf8(payload) { None } else {
                                    Some(Pub {
                                        dup: b[0] / 8 % 2 == 1,
                                        qos,
                                        retain: b[0] % 2 == 1,
                                        topic, id, props, payload,
                                        text: is_text(props),
                                    })
                                }
                            },
                        }
                    }
                },
            }
        }
    }

    // ----- acknowledgements and the like -----

    pub struct Ack { pub id: nat, pub reason: nat, pub props: Seq<Pv> }

    pub open spec fn puback_code(n: nat) -> bool {
        n == 0 || n == 16 || n == 128 || n == 131 || n == 135 || n == 144 || n == 145 || n == 151 || n == 153
    }
    pub open spec fn suback_code(n: nat) -> bool {
        n == 0 || n == 1 || n == 2 || n == 128 || n == 131 || n == 135 || n == 143 || n == 145 || n == 151 || n == 158
        || n == 161 || n == 162
    }
    pub open spec fn unsuback_code(n: nat) -> bool {
        n == 0 || n == 17 || n == 128 || n == 131 || n == 135 || n == 143 || n == 145
    }
    pub open spec fn connack_code(n: nat) -> bool {
        n == 0 || 128 <= n <= 138 || n == 140 || n == 144 || n == 149 || n == 151 || 153 <= n <= 157 || n == 159
    }
    pub open spec fn disconnect_code(n: nat) -> bool {
        n == 0 || n == 4 || 128 <= n <= 131 || n == 135 || n == 137 || n == 139 || 141 <= n <= 144 || 147 <= n <= 162
    }

    /// PUBACK: id, then optionally a reason, then optionally properties.
    pub open spec fn puback_dec(b: Seq<u8>) -> Option<Ack> {
        let d = body(b);
        match id_dec(d) {
            None => None,
            Some((id, _)) => {
                let reason: nat = if d.len() == 2 { 0 } else { d[2] as nat };
                if !puback_code(reason) { None }
                else if d.len() < 4 { Some(Ack { id, reason, props: seq![] }) }
                else { match props_dec(true, d.skip(3)) { Some((props, _)) => Some(Ack { id, reason, props }), None => None } }
            },
        }
    }

    /// SUBACK / UNSUBACK for one topic: id, properties, reason.
    pub open spec fn sub_dec(b: Seq<u8>, code: spec_fn(nat) -> bool) -> Option<Ack> {
        let d = body(b);
        match id_dec(d) {
            None => None,
            Some((id, _)) => match props_dec(true, d.skip(2)) {
                None => None,
                Some((props, k)) => if d.len() < 2 + k + 1 || !code(d[(2 + k) as int] as nat) { None }
                    else { Some(Ack { id, reason: d[(2 + k) as int] as nat, props }) },
            },
        }
    }

    /// The last reason string of a property list.
    pub open spec fn reason_of(ps: Seq<Pv>) -> Option<Seq<u8>>
        decreases ps.len(),
    {
        if ps.len() == 0 { None } else {
            match ps.last() { Pv::Reason(s) => Some(s), _ => reason_of(ps.drop_last()) }
        }
    }

    /// Its user properties, in order.
    pub open spec fn users_of(ps: Seq<Pv>) -> Seq<Pv>
        decreases ps.len(),
    {
        if ps.len() == 0 { seq![] } else {
            match ps.last() { Pv::User(k, v) => users_of(ps.drop_last()).push(ps.last()), _ => users_of(ps.drop_last()) }
        }
    }

    pub open spec fn users(s: Seq<(String, String)>) -> Seq<Pv> { s.map_values(|p: (String, String)| Pv::User(sb(p.0), sb(p.1))) }

    /// What a PUBACK keeps of its property list.
    pub open spec fn puback_norm(ps: Seq<Pv>) -> Seq<Pv> {
        (match reason_of(ps) { Some(s) => seq![Pv::Reason(s)], None => seq![] }) + users_of(ps)
    }

    pub struct Conn { pub session_present: bool, pub reason: nat, pub props: Seq<Pv> }

    pub open spec fn connack_dec(b: Seq<u8>) -> Option<Conn> {
        let d = body(b);
        if d.len() < 2 || d[0] > 1 || !connack_code(d[1] as nat) { None } else {
            match props_dec(true, d.skip(2)) {
                None => None,
                Some((props, _)) => Some(Conn { session_present: d[0] == 1, reason: d[1] as nat, props }),
            }
        }
    }

    pub struct Disc { pub reason: nat, pub props: Seq<Pv> }

    /// DISCONNECT: everything optional.
    pub open spec fn disconnect_dec(b: Seq<u8>) -> Option<Disc> {
        let d = body(b);
        let reason: nat = if d.len() == 0 { 0 } else { d[0] as nat };
        if !disconnect_code(reason) { None }
        else if d.len() < 2 { Some(Disc { reason, props: seq![] }) }
        else { match props_dec(true, d.skip(1)) { Some((props, _)) => Some(Disc { reason, props }), None => None } }
    }

    // ----- other packets the client sends -----

    pub open spec fn connect_enc(client_id: Seq<u8>, keep_alive: nat) -> Seq<u8> {
        packet(0x10, seq![0u8, 4, 77, 81, 84, 84, 5, 2] + be16(keep_alive) + seq![0u8] + str_enc(client_id))
    }

    pub open spec fn subscribe_enc(id: nat, topic: Seq<u8>, options: u8) -> Seq<u8> {
        packet(0x82, be16(id) + seq![0u8] + str_enc(topic) + seq![options])
    }

    pub open spec fn topics_enc(ts: Seq<String>) -> Seq<u8>
        decreases ts.len(),
    {
        if ts.len() == 0 { seq![] } else { topics_enc(ts.drop_last()) + str_enc(sb(ts.last())) }
    }

    pub open spec fn unsubscribe_enc(id: nat, ts: Seq<String>) -> Seq<u8> {
        packet(0xA2, be16(id) + seq![0u8] + topics_enc(ts))
    }

    pub open spec fn puback_enc(a: Ack) -> Seq<u8> {
        packet(0x40, be16(a.id) + seq![a.reason as u8] + props_enc(a.props))
    }

    pub open spec fn disconnect_enc(d: Disc) -> Seq<u8> {
        packet(0xE0, seq![d.reason as u8] + props_enc(d.props))
    }

    // ----- what may cross the client's own boundaries -----

    pub open spec fn fits(s: String) -> bool { sb(s).len() <= 65535 }

    pub open spec fn valid_command(c: crate::Command) -> bool {
        match c {
            crate::Command::Publish { topic, payload, properties, qos, retain } => fits(topic) && list_fits(properties@),
            crate::Command::Subscribe(topic, _) => fits(topic),
            crate::Command::Unsubscribe(ts) => forall|i: int| 0 <= i < ts@.len() ==> fits(#[trigger] ts@[i]),
            crate::Command::Disconnect => true,
        }
    }

    pub open spec fn valid_incoming(p: Packet) -> bool {
        match p {
            Packet::Publish(m) => m.flags.qos.num() == 0 <==> m.pktid is None,
            Packet::Connack(_) | Packet::PubAck(_) | Packet::SubAck(_) | Packet::UnsubAck(_) | Packet::Disconnect(_) | Packet::PingResp(_) => true,
            _ => false,
        }
    }

    pub open spec fn valid_outgoing(p: Packet) -> bool { p.enc_pre() }

    pub mod lib {
        use crate::protocol::*;
        use vstd::prelude::*;
        use vstd::utf8::*;
        use crate::vxm::*;
        use super::*;

        pub broadcast proof fn bits(b: u8)
            ensures
                #![trigger (b & 127)]
                #![trigger (b & 128)]
                (b & 127) == b % 128,
                (b & 128) == 0 <==> b < 128,
        {
            assert((b & 127) == b % 128) by (bit_vector);
            assert((b & 128) == 0 <==> b < 128) by (bit_vector);
        }

        pub broadcast proof fn bit_or(b: u8)
            requires b < 128,
            ensures #[trigger] (b | 128) == b + 128,
        {
            assert(b < 128 ==> (b | 128) == b + 128) by (bit_vector);
        }

        /* bit operations as arithmetic */
        pub broadcast proof fn byte_and(b: u8, m: u8)
            ensures
                #![trigger (b & m)]
                m == 1 ==> (b & m) == b % 2,
                m == 2 ==> (b & m) == 2 * (b / 2 % 2),
                m == 4 ==> (b & m) == 4 * (b / 4 % 2),
                m == 8 ==> (b & m) == 8 * (b / 8 % 2),
                m == 16 ==> (b & m) == 16 * (b / 16 % 2),
                m == 32 ==> (b & m) == 32 * (b / 32 % 2),
                m == 64 ==> (b & m) == 64 * (b / 64 % 2),
                m == 128 ==> (b & m) == 128 * (b / 128 % 2),
                m == 3 ==> (b & m) == b % 4,
                m == 7 ==> (b & m) == b % 8,
                m == 15 ==> (b & m) == b % 16,
                m == 31 ==> (b & m) == b % 32,
                m == 63 ==> (b & m) == b % 64,
                m == 127 ==> (b & m) == b % 128,
                m == 254 ==> (b & m) == b - b % 2,
                m == 252 ==> (b & m) == b - b % 4,
                m == 248 ==> (b & m) == b - b % 8,
                m == 240 ==> (b & m) == b - b % 16,
                m == 224 ==> (b & m) == b - b % 32,
                m == 192 ==> (b & m) == b - b % 64,
                m == 6 ==> (b & m) == 2 * (b / 2 % 4),
        {
            assert(m == 1 ==> (b & m) == b % 2) by (bit_vector);
            assert(m == 2 ==> (b & m) == 2 * (b / 2 % 2)) by (bit_vector);
            assert(m == 4 ==> (b & m) == 4 * (b / 4 % 2)) by (bit_vector);
            assert(m == 8 ==> (b & m) == 8 * (b / 8 % 2)) by (bit_vector);
            assert(m == 16 ==> (b & m) == 16 * (b / 16 % 2)) by (bit_vector);
            assert(m == 32 ==> (b & m) == 32 * (b / 32 % 2)) by (bit_vector);
            assert(m == 64 ==> (b & m) == 64 * (b / 64 % 2)) by (bit_vector);
            assert(m == 128 ==> (b & m) == 128 * (b / 128 % 2)) by (bit_vector);
            assert(m == 3 ==> (b & m) == b % 4) by (bit_vector);
            assert(m == 7 ==> (b & m) == b % 8) by (bit_vector);
            assert(m == 15 ==> (b & m) == b % 16) by (bit_vector);
            assert(m == 31 ==> (b & m) == b % 32) by (bit_vector);
            assert(m == 63 ==> (b & m) == b % 64) by (bit_vector);
            assert(m == 127 ==> (b & m) == b % 128) by (bit_vector);
            assert(m == 254 ==> (b & m) == b - b % 2) by (bit_vector);
            assert(m == 252 ==> (b & m) == b - b % 4) by (bit_vector);
            assert(m == 248 ==> (b & m) == b - b % 8) by (bit_vector);
            assert(m == 240 ==> (b & m) == b - b % 16) by (bit_vector);
            assert(m == 224 ==> (b & m) == b - b % 32) by (bit_vector);
            assert(m == 192 ==> (b & m) == b - b % 64) by (bit_vector);
            assert(m == 6 ==> (b & m) == 2 * (b / 2 % 4)) by (bit_vector);
        }

        pub broadcast proof fn byte_shr(b: u8, n: u8)
            ensures
                #![trigger (b >> n)]
                n == 0 ==> (b >> n) == b / 1,
                n == 1 ==> (b >> n) == b / 2,
                n == 2 ==> (b >> n) == b / 4,
                n == 3 ==> (b >> n) == b / 8,
                n == 4 ==> (b >> n) == b / 16,
                n == 5 ==> (b >> n) == b / 32,
                n == 6 ==> (b >> n) == b / 64,
                n == 7 ==> (b >> n) == b / 128,
        {
            assert(n == 0 ==> (b >> n) == b / 1) by (bit_vector);
            assert(n == 1 ==> (b >> n) == b / 2) by (bit_vector);
            assert(n == 2 ==> (b >> n) == b / 4) by (bit_vector);
            assert(n == 3 ==> (b >> n) == b / 8) by (bit_vector);
            assert(n == 4 ==> (b >> n) == b / 16) by (bit_vector);
            assert(n == 5 ==> (b >> n) == b / 32) by (bit_vector);
            assert(n == 6 ==> (b >> n) == b / 64) by (bit_vector);
            assert(n == 7 ==> (b >> n) == b / 128) by (bit_vector);
        }

        pub broadcast proof fn byte_shl(b: u8, n: u8)
            ensures
                #![trigger (b << n)]
                n == 0 && b < 256 ==> (b << n) == b * 1,
                n == 1 && b < 128 ==> (b << n) == b * 2,
                n == 2 && b < 64 ==> (b << n) == b * 4,
                n == 3 && b < 32 ==> (b << n) == b * 8,
                n == 4 && b < 16 ==> (b << n) == b * 16,
                n == 5 && b < 8 ==> (b << n) == b * 32,
                n == 6 && b < 4 ==> (b << n) == b * 64,
                n == 7 && b < 2 ==> (b << n) == b * 128,
        {
            assert(n == 0 && b < 256 ==> (b << n) == b * 1) by (bit_vector);
            assert(n == 1 && b < 128 ==> (b << n) == b * 2) by (bit_vector);
            assert(n == 2 && b < 64 ==> (b << n) == b * 4) by (bit_vector);
            assert(n == 3 && b < 32 ==> (b << n) == b * 8) by (bit_vector);
            assert(n == 4 && b < 16 ==> (b << n) == b * 16) by (bit_vector);
            assert(n == 5 && b < 8 ==> (b << n) == b * 32) by (bit_vector);
            assert(n == 6 && b < 4 ==> (b << n) == b * 64) by (bit_vector);
            assert(n == 7 && b < 2 ==> (b << n) == b * 128) by (bit_vector);
        }

        pub broadcast proof fn byte_or(a: u8, b: u8)
            ensures
                #![trigger (a | b)]
                a == 0 ==> (a | b) == b,
                b == 0 ==> (a | b) == a,
                a < 2 && b % 2 == 0 ==> (a | b) == a + b,
                a < 4 && b % 4 == 0 ==> (a | b) == a + b,
                a < 8 && b % 8 == 0 ==> (a | b) == a + b,
                a < 16 && b % 16 == 0 ==> (a | b) == a + b,
                a < 32 && b % 32 == 0 ==> (a | b) == a + b,
                a < 64 && b % 64 == 0 ==> (a | b) == a + b,
                a < 128 && b % 128 == 0 ==> (a | b) == a + b,
                b < 2 && a % 2 == 0 ==> (a | b) == a + b,
                b < 4 && a % 4 == 0 ==> (a | b) == a + b,
                b < 8 && a % 8 == 0 ==> (a | b) == a + b,
                b < 16 && a % 16 == 0 ==> (a | b) == a + b,
                b < 32 && a % 32 == 0 ==> (a | b) == a + b,
                b < 64 && a % 64 == 0 ==> (a | b) == a + b,
                b < 128 && a % 128 == 0 ==> (a | b) == a + b,
        {
            assert(a == 0 ==> (a | b) == b) by (bit_vector);
            assert(b == 0 ==> (a | b) == a) by (bit_vector);
            assert(a < 2 && b % 2 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 4 && b % 4 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 8 && b % 8 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 16 && b % 16 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 32 && b % 32 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 64 && b % 64 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 128 && b % 128 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(b < 2 && a % 2 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(b < 4 && a % 4 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(b < 8 && a % 8 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(b < 16 && a % 16 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(b < 32 && a % 32 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(b < 64 && a % 64 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(b < 128 && a % 128 == 0 ==> (a | b) == a + b) by (bit_vector);
        }

        pub broadcast proof fn half_low(x: u16)
            ensures #[trigger] (x as u8) == x % 256,
        {
            assert((x as u8) == x % 256) by (bit_vector);
        }

        pub broadcast proof fn word_low(x: u32)
            ensures #[trigger] (x as u8) == x % 256,
        {
            assert((x as u8) == x % 256) by (bit_vector);
        }

        pub broadcast proof fn long_low(x: usize)
            ensures #[trigger] (x as u8) == x % 256,
        {
            assert((x as u8) == x % 256) by (bit_vector);
        }

        pub broadcast proof fn half_shr(b: u16, n: u16)
            ensures #![trigger (b >> n)] n == 8 ==> (b >> n) == b / 256,
        {
            assert(n == 8 ==> (b >> n) == b / 256) by (bit_vector);
        }

        pub broadcast proof fn half_and(b: u16, m: u16)
            ensures #![trigger (b & m)] m == 255 ==> (b & m) == b % 256,
        {
            assert(m == 255 ==> (b & m) == b % 256) by (bit_vector);
        }

        pub broadcast proof fn half_shl(b: u16, n: u16)
            ensures #![trigger (b << n)] n == 8 && b < 256 ==> (b << n) == b * 256,
        {
            assert(n == 8 && b < 256 ==> (b << n) == b * 256) by (bit_vector);
        }

        pub broadcast proof fn half_or(a: u16, b: u16)
            ensures #![trigger (a | b)] a % 256 == 0 && b < 256 ==> (a | b) == a + b,
        {
            assert(a % 256 == 0 && b < 256 ==> (a | b) == a + b) by (bit_vector);
        }

        pub broadcast proof fn long_shr(b: usize, n: usize)
            ensures #![trigger (b >> n)] n == 8 ==> (b >> n) == b / 256,
        {
            assert(n == 8 ==> (b >> n) == b / 256) by (bit_vector);
        }

        pub broadcast proof fn long_and(b: usize, m: usize)
            ensures #![trigger (b & m)] m == 255 ==> (b & m) == b % 256,
        {
            assert(m == 255 ==> (b & m) == b % 256) by (bit_vector);
        }

        pub broadcast proof fn word_and(b: u32, m: u32)
            ensures
                #![trigger (b & m)]
                m == 127 ==> (b & m) == b % 128,
                m == 255 ==> (b & m) == b % 256,
                m == 128 ==> ((b & m) == 0 <==> b / 128 % 2 == 0),
        {
            assert(m == 127 ==> (b & m) == b % 128) by (bit_vector);
            assert(m == 255 ==> (b & m) == b % 256) by (bit_vector);
            assert(m == 128 ==> ((b & m) == 0 <==> b / 128 % 2 == 0)) by (bit_vector);
        }

        pub broadcast proof fn word_shr(b: u32, n: u32)
            ensures
                #![trigger (b >> n)]
                n == 7 ==> (b >> n) == b / 128,
                n == 8 ==> (b >> n) == b / 256,
                n == 14 ==> (b >> n) == b / 16384,
                n == 16 ==> (b >> n) == b / 65536,
                n == 21 ==> (b >> n) == b / 2097152,
                n == 24 ==> (b >> n) == b / 16777216,
                n == 28 ==> (b >> n) == b / 268435456,
        {
            assert(n == 7 ==> (b >> n) == b / 128) by (bit_vector);
            assert(n == 8 ==> (b >> n) == b / 256) by (bit_vector);
            assert(n == 14 ==> (b >> n) == b / 16384) by (bit_vector);
            assert(n == 16 ==> (b >> n) == b / 65536) by (bit_vector);
            assert(n == 21 ==> (b >> n) == b / 2097152) by (bit_vector);
            assert(n == 24 ==> (b >> n) == b / 16777216) by (bit_vector);
            assert(n == 28 ==> (b >> n) == b / 268435456) by (bit_vector);
        }

        pub broadcast proof fn word_shl(b: u32, n: u32)
            ensures
                #![trigger (b << n)]
                n == 0 ==> (b << n) == b,
                n == 7 && b < 256 ==> (b << n) == b * 128,
                n == 8 && b < 256 ==> (b << n) == b * 256,
                n == 14 && b < 256 ==> (b << n) == b * 16384,
                n == 16 && b < 256 ==> (b << n) == b * 65536,
                n == 21 && b < 256 ==> (b << n) == b * 2097152,
        {
            assert(n == 0 ==> (b << n) == b) by (bit_vector);
            assert(n == 7 && b < 256 ==> (b << n) == b * 128) by (bit_vector);
            assert(n == 8 && b < 256 ==> (b << n) == b * 256) by (bit_vector);
            assert(n == 14 && b < 256 ==> (b << n) == b * 16384) by (bit_vector);
            assert(n == 16 && b < 256 ==> (b << n) == b * 65536) by (bit_vector);
            assert(n == 21 && b < 256 ==> (b << n) == b * 2097152) by (bit_vector);
        }

        pub broadcast proof fn word_or(a: u32, b: u32)
            ensures
                #![trigger (a | b)]
                a == 0 ==> (a | b) == b,
                b == 0 ==> (a | b) == a,
                a < 128 && b % 128 == 0 ==> (a | b) == a + b,
                a < 256 && b % 256 == 0 ==> (a | b) == a + b,
                a < 16384 && b % 16384 == 0 ==> (a | b) == a + b,
                a < 65536 && b % 65536 == 0 ==> (a | b) == a + b,
                a < 2097152 && b % 2097152 == 0 ==> (a | b) == a + b,
                a < 16777216 && b % 16777216 == 0 ==> (a | b) == a + b,
        {
            assert(a == 0 ==> (a | b) == b) by (bit_vector);
            assert(b == 0 ==> (a | b) == a) by (bit_vector);
            assert(a < 128 && b % 128 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 256 && b % 256 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 16384 && b % 16384 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 65536 && b % 65536 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 2097152 && b % 2097152 == 0 ==> (a | b) == a + b) by (bit_vector);
            assert(a < 16777216 && b % 16777216 == 0 ==> (a | b) == a + b) by (bit_vector);
        }

        pub broadcast proof fn hi_bits(b: u8)
            ensures #[trigger] (b >> 4) == b / 16,
        {
            assert((b >> 4) == b / 16) by (bit_vector);
        }

        pub broadcast proof fn plist_step<T: VxProp>(s: Seq<T>, i: int)
            requires 0 <= i < s.len(),
            ensures pvs_enc(#[trigger] plist(s.take(i + 1))) == pvs_enc(plist(s.take(i))) + pv_enc(plist(s)[i]),
        {
            assert(plist(s.take(i + 1)).drop_last() =~= plist(s.take(i)));
        }

        pub broadcast proof fn is_text_step<T: VxProp>(s: Seq<T>, i: int)
            requires 0 <= i < s.len(),
            ensures is_text(#[trigger] plist(s.take(i + 1))) <==> is_text(plist(s.take(i))) || s[i].pvw() == Pv::Format(1),
        {
            let a = plist(s.take(i));
            let b = plist(s.take(i + 1));
            assert(b =~= a.push(s[i].pvw()));
            if is_text(a) {
                let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == Pv::Format(1);
                assert(b[k] == Pv::Format(1));
            }
            if is_text(b) {
                let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == Pv::Format(1);
                if k < a.len() { assert(a[k] == Pv::Format(1)); }
            }
            if s[i].pvw() == Pv::Format(1) { assert(b[i] == Pv::Format(1)); }
        }

        pub broadcast proof fn take_all<T>(s: Seq<T>, n: int)
            requires n == s.len(),
            ensures #[trigger] s.take(n) == s,
        {
            assert(s.take(n) =~= s);
        }

        pub broadcast proof fn empty_text(c: Seq<char>, s: Seq<u8>)
            requires c.len() == 0, s.len() == 0,
            ensures #![trigger encode_utf8(c), valid_utf8(s)] encode_utf8(c) == s, valid_utf8(s),
        {
            assert(c =~= seq![]);
            assert(s =~= seq![]);
            is_ascii_chars_encode_utf8(c);
            assert(encode_utf8(c) =~= s);
            encode_utf8_valid_utf8(c);
        }

        pub broadcast proof fn empty_range(s: Seq<u8>, a: int, b: int)
            requires 0 <= a == b <= s.len(),
            ensures #[trigger] s.subrange(a, b) == Seq::<u8>::empty(),
        {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty());
        }

        pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
            requires 0 <= a, 0 <= b, a + b <= s.len(),
            ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
        {
            assert(s.skip(a).skip(b) =~= s.skip(a + b));
        }

        /// what the session's module needs of it
        pub broadcast group session_std {
            plist_empty, crate::vxm::ax_string_from_str, crate::vxm::ax_str_len, crate::vxm::ax_vec_len,
        }
        pub broadcast group wire {
            bits, bit_or, byte_and, byte_shr, byte_shl, byte_or, word_and, word_shr, word_shl, word_or, word_low, half_low, half_shr, half_and, half_shl, half_or, long_low, long_shr, long_and, hi_bits, flag_bits, plist_step, pvs_enc_push, topics_enc_step, opt_cat_ends, plist_empty, is_text_step, take_all, users_step, users_push, users_empty, empty_text, empty_range, skip_skip, crate::vxm::cloned_bytes, crate::vxm::ax_string_from_str, crate::vxm::ax_str_len, crate::vxm::ax_vec_len,
        }

        pub broadcast proof fn opt_cat_ends(a: Seq<Pv>, b: Option<Seq<Pv>>)
            ensures
                #![trigger opt_cat(a, b)]
                a.len() == 0 ==> opt_cat(a, b) == b,
                b is Some && b->0.len() == 0 ==> opt_cat(a, b) == Some(a),
        {
            if b is Some {
                if a.len() == 0 { assert(a + b->0 =~= b->0); }
                if b->0.len() == 0 { assert(a + b->0 =~= a); }
            }
        }

        pub broadcast proof fn plist_empty<T: VxProp>(s: Seq<T>)
            requires s.len() == 0,
            ensures #[trigger] plist(s) == Seq::<Pv>::empty(),
        {
            assert(plist(s) =~= Seq::<Pv>::empty());
        }

        /// One round of a loop over a property list.
        pub proof fn props_all_step<T: VxProp>(ack: bool, b: Seq<u8>, before: Seq<T>, p: T, n: nat)
            requires b.len() > 0, prop_dec(ack, b) == Some((p.pvw(), n)), 0 < n <= b.len(),
            ensures
                opt_cat(plist(before), props_all(ack, b)) == opt_cat(plist(before.push(p)), props_all(ack, b.skip(n as int))),
        {
            let rest = props_all(ack, b.skip(n as int));
            if rest is Some {
                assert(plist(before) + (seq![p.pvw()] + rest->0) =~= plist(before.push(p)) + rest->0);
            }
        }

        /// One round of a loop over a property list, on meanings.
        pub proof fn props_all_step_pv(ack: bool, b: Seq<u8>, before: Seq<Pv>, p: Pv, n: nat)
            requires b.len() > 0, prop_dec(ack, b) == Some((p, n)), 0 < n <= b.len(),
            ensures
                opt_cat(before, props_all(ack, b)) == opt_cat(before.push(p), props_all(ack, b.skip(n as int))),
                before.push(p).drop_last() == before,
        {
            assert(before.push(p).drop_last() =~= before);
            let rest = props_all(ack, b.skip(n as int));
            if rest is Some {
                assert(before + (seq![p] + rest->0) =~= before.push(p) + rest->0);
            }
        }

        pub broadcast proof fn pvs_enc_push(s: Seq<Pv>, p: Pv)
            ensures #[trigger] pvs_enc(s.push(p)) == pvs_enc(s) + pv_enc(p),
        {
            assert(s.push(p).drop_last() =~= s);
        }

        pub broadcast proof fn users_step(a: Seq<Pv>, s: Seq<(String, String)>, i: int)
            requires 0 <= i < s.len(),
            ensures #[trigger] pvs_enc(a + users(s.take(i + 1))) == pvs_enc(a + users(s.take(i))) + pv_enc(Pv::User(sb(s[i].0), sb(s[i].1))),
        {
            assert((a + users(s.take(i + 1))).drop_last() =~= a + users(s.take(i)));
        }

        pub broadcast proof fn users_push(s: Seq<(String, String)>, p: (String, String))
            ensures #[trigger] users(s.push(p)) == users(s).push(Pv::User(sb(p.0), sb(p.1))),
        {
            assert(users(s.push(p)) =~= users(s).push(Pv::User(sb(p.0), sb(p.1))));
        }

        pub broadcast proof fn users_empty(a: Seq<Pv>, s: Seq<(String, String)>)
            ensures
                #![trigger a + users(s)]
                s.len() == 0 ==> a + users(s) == a,
        {
            if s.len() == 0 { assert(a + users(s) =~= a); }
        }

        pub broadcast proof fn topics_enc_step(s: Seq<String>, i: int)
            requires 0 <= i < s.len(),
            ensures #[trigger] topics_enc(s.take(i + 1)) == topics_enc(s.take(i)) + str_enc(sb(s[i])),
        {
            assert(s.take(i + 1).drop_last() =~= s.take(i));
        }

        pub broadcast proof fn flag_bits(b: u8)
            ensures
                #![trigger (b & 8)]
                #![trigger (b >> 1)]
                #![trigger (b & 1)]
                #![trigger (b & 3)]
                (b & 8) == 8 <==> b / 8 % 2 == 1,
                (b >> 1) == b / 2,
                (b & 1) == b % 2,
                (b & 3) == b % 4,
        {
            assert((b & 8) == 8 <==> b / 8 % 2 == 1) by (bit_vector);
            assert((b >> 1) == b / 2) by (bit_vector);
            assert((b & 1) == b % 2) by (bit_vector);
            assert((b & 3) == b % 4) by (bit_vector);
        }

        pub broadcast proof fn plist_fits<T: VxProp>(s: Seq<T>)
            ensures #[trigger] list_fits(s) == all_fit(plist(s)),
        {
            assert forall|i: int| 0 <= i < s.len() implies plist(s)[i] == (#[trigger] s[i]).pvw() by { }
            if list_fits(s) {
                assert forall|i: int| 0 <= i < plist(s).len() implies pv_fits(#[trigger] plist(s)[i]) by { assert(pv_fits(s[i].pvw())); }
            }
            if all_fit(plist(s)) {
                assert forall|i: int| 0 <= i < s.len() implies pv_fits((#[trigger] s[i]).pvw()) by { assert(pv_fits(plist(s)[i])); }
            }
        }

        pub broadcast proof fn utf8_bound(c: Seq<char>)
            ensures (#[trigger] encode_utf8(c)).len() <= 4 * c.len(),
            decreases c.len(),
        {
            reveal(encode_utf8);
            if c.len() > 0 { utf8_bound(c.drop_first()); }
        }

        pub proof fn mqtt_name()
            ensures encode_utf8("MQTT"@) == seq![77u8, 81, 84, 84],
        {
            reveal_strlit("MQTT");
            is_ascii_chars_encode_utf8("MQTT"@);
            assert(encode_utf8("MQTT"@) =~= seq![77u8, 81, 84, 84]);
        }
    }
}

} // verus!
