## PUBLISH
#mod protocol::publish
impl vstd::std_specs::convert::FromSpecImpl<PublishFlags> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(f: PublishFlags) -> u8 {
        ((if f.dup { 8int } else { 0 }) + 2 * f.qos.num() + (if f.retain { 1int } else { 0 })) as u8
    }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Payload {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(s: &'a str) -> Self { arbitrary() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a [u8]> for Payload {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(s: &'a [u8]) -> Self { arbitrary() }
}
pub open spec fn flags_post(b: u8, r: Result<PublishFlags, ConvertError>) -> bool {
    &&& (r is Ok <==> b / 2 % 4 != 3)
    &&& (r is Ok ==> r->Ok_0.qos.num() == b / 2 % 4 && r->Ok_0.dup == (b / 8 % 2 == 1) && r->Ok_0.retain == (b % 2 == 1))
}
impl Payload {
    pub open spec fn data(&self) -> Seq<u8> { match self { Payload::String(s) => sb(*s), Payload::Bytes(b) => b@ } }
}
impl Publish {
    pub open spec fn pubw(&self) -> Pub {
        Pub {
            dup: self.flags.dup,
            qos: self.flags.qos.num(),
            retain: self.flags.retain,
            topic: sb(self.topic),
            id: match self.pktid { Some(id) => Some(id@ as nat), None => None },
            props: plist(self.properties@),
            payload: self.payload.data(),
            text: self.payload is String,
        }
    }
}
#impl protocol::publish::<PublishFlags as TryFrom<u8>>
    open spec fn tf_post(b: u8, r: Result<Self, ConvertError>) -> bool { flags_post(b, r) }
#fn protocol::publish::<PublishFlags as TryFrom<u8>>::try_from
#entry
#impl protocol::publish::<PublishFlags as TryFrom<&u8>>
    open spec fn tf_post(b: &u8, r: Result<Self, ConvertError>) -> bool { flags_post(*b, r) }
#fn protocol::publish::<PublishFlags as TryFrom<&u8>>::try_from
#fn protocol::publish::<u8 as From<PublishFlags>>::from
#fn protocol::publish::<Payload as From<&str>>::from
#ret r
#spec
    ensures r is String, r.data() == encode_utf8(s@),
#fn protocol::publish::<Payload as From<&[u8]>>::from
#ret r
#spec
    ensures r is Bytes, r.data() == s@,
#impl protocol::publish::<Payload as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self.data() }
#fn protocol::publish::<Payload as ToMqttBytes>::convert_to_mqtt
#fn protocol::publish::Publish::at_most_once
#ret r
#spec
    ensures r.pubw() == (Pub { dup: false, qos: 0, retain, topic: sb(topic), id: None, props: plist(properties@), payload: payload.data(), text: payload is String }),
#fn protocol::publish::Publish::at_least_once
#ret r
#spec
    ensures r.pubw() == (Pub { dup: false, qos: 1, retain, topic: sb(topic), id: Some(pktid@ as nat), props: plist(properties@), payload: payload.data(), text: payload is String }),
#fn protocol::publish::Publish::exactly_once
#ret r
#spec
    ensures r.pubw() == (Pub { dup: false, qos: 2, retain, topic: sb(topic), id: Some(pktid@ as nat), props: plist(properties@), payload: payload.data(), text: payload is String }),
#fn protocol::publish::Publish::new
#ret r
#spec
    ensures
        r.pubw() == (Pub { dup: false, qos: qos.num(), retain, topic: sb(topic), id: match pktid { Some(id) => Some(id@ as nat), None => None },
            props: plist(properties@), payload: payload.data(), text: payload is String }),
#fn protocol::publish::Publish::qos
#ret r
#spec
    ensures r == self.flags.qos,
#fn protocol::publish::Publish::pktid
#ret r
#spec
    ensures r == self.pktid,
#fn protocol::publish::Publish::topic
#ret r
#spec
    ensures r@ == self.topic@,
#fn protocol::publish::Publish::payload
#ret r
#spec
    ensures *r == self.payload,
#impl protocol::publish::<Publish as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool {
        &&& sb(self.topic).len() <= 65535
        &&& list_fits(self.properties@)
        &&& (self.flags.qos.num() > 0 <==> self.pktid is Some)
    }
    open spec fn enc_ok(&self) -> bool { pub_body(self.pubw()).len() <= 0xffff_ffff }
    open spec fn enc(&self) -> Seq<u8> { pub_enc(self.pubw()) }
#fn protocol::publish::<Publish as ToMqttBytes>::convert_to_mqtt
#impl protocol::publish::<Publish as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { whole(b) }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match pub_dec(b) {
            Some(p) => r is Ok && r->Ok_0.0.pubw() == p && r->Ok_0.1 == b.len(),
            None => r is Err,
        }
    }
#fn protocol::publish::<Publish as FromMqttBytes>::convert_from_mqtt
#entry
    hide(crate::vxs::props_all);
    hide(vstd::utf8::valid_utf8);
#loop 0
    invariant vx_any <==> is_text(plist(properties@.take($it.index@ as int))),

## PUBACK
#mod protocol::puback
impl Puback {
    pub open spec fn ackw(&self) -> Ack {
        Ack { id: self.pktid@ as nat, reason: self.reason.num(), props: self.properties.pvw() }
    }
}
#mod protocol::puback::properties
impl PubackProperties {
    pub open spec fn reasonw(&self) -> Seq<Pv> { match self.reason_string { Some(s) => seq![Pv::Reason(sb(s))], None => seq![] } }
    pub open spec fn texts_fit(&self) -> bool {
        &&& self.reason_string matches Some(s) ==> fits(s)
        &&& forall|i: int| 0 <= i < self.user_properties@.len() ==> fits((#[trigger] self.user_properties@[i]).0) && fits(self.user_properties@[i].1)
    }
    pub open spec fn pvw(&self) -> Seq<Pv> { self.reasonw() + users(self.user_properties@) }
}
#fn protocol::puback::properties::<PubackProperties as Default>::default
#spec
    ensures r.reason_string is None, r.user_properties@.len() == 0, r.pvw() == puback_norm(seq![]),
#impl protocol::puback::properties::<PubackProperties as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { self.texts_fit() }
    open spec fn enc_ok(&self) -> bool { pvs_enc(self.pvw()).len() <= 0xffff_ffff }
    open spec fn enc(&self) -> Seq<u8> { props_enc(self.pvw()) }
#fn protocol::puback::properties::<PubackProperties as ToMqttBytes>::convert_to_mqtt
#after-loop 0
    assert(self.user_properties@.take(self.user_properties@.len() as int) =~= self.user_properties@);
#loop 0
    invariant
        self.texts_fit(),
        buf@ == pvs_enc(self.reasonw() + users(self.user_properties@.take($it.index@ as int))),
#impl protocol::puback::properties::<PubackProperties as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { true }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match props_dec(true, b) {
            Some((ps, n)) => r is Ok && r->Ok_0.0.pvw() == puback_norm(ps) && r->Ok_0.1 == n,
            None => r is Err,
        }
    }
#fn protocol::puback::properties::<PubackProperties as FromMqttBytes>::convert_from_mqtt
#attr #[verifier::loop_isolation(false)]
#entry
    hide(vstd::utf8::valid_utf8);
#before-loop 0
    let ghost vx_all = bytes@;
    let ghost mut vx_seen: Seq<Pv> = seq![];
#loop 0
    invariant
        props_all(true, vx_all) == opt_cat(vx_seen, props_all(true, bytes@)),
        properties.reasonw() == (match reason_of(vx_seen) { Some(s) => seq![Pv::Reason(s)], None => seq![] }),
        users(properties.user_properties@) == users_of(vx_seen),
    decreases bytes@.len(),
#loop-start 0
    let ghost vx_bytes = bytes@;
#loop-end 0
    proof {
        let p = prop_dec(true, vx_bytes)->0;
        props_all_step_pv(true, vx_bytes, vx_seen, p.0, p.1);
        vx_seen = vx_seen.push(p.0);
    }
#fn protocol::puback::Puback::new
#ret r
#spec
    ensures r.ackw() == (Ack { id: pktid@ as nat, reason: 0, props: seq![] }), r.pktid == pktid, r.enc_pre(),
#fn protocol::puback::Puback::pktid
#ret r
#spec
    ensures r == self.pktid,
#impl protocol::puback::<Puback as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { self.properties.texts_fit() }
    open spec fn enc_ok(&self) -> bool { props_enc(self.properties.pvw()).len() + 3 <= 0xffff_ffff }
    open spec fn enc(&self) -> Seq<u8> { puback_enc(self.ackw()) }
#fn protocol::puback::<Puback as ToMqttBytes>::convert_to_mqtt
#impl protocol::puback::<Puback as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { whole(b) }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match puback_dec(b) {
            Some(a) => r is Ok && r->Ok_0.0.ackw() == (Ack { props: puback_norm(a.props), ..a }),
            None => r is Err,
        }
    }
#fn protocol::puback::<Puback as FromMqttBytes>::convert_from_mqtt
#entry
    hide(crate::vxs::props_all);
    hide(vstd::utf8::valid_utf8);

## SUBACK, UNSUBACK
#def sub_like
#mod protocol::$m
impl $T {
    pub open spec fn ackw(&self) -> Ack {
        Ack { id: self.pktid@ as nat, reason: self.reason.num(), props: plist(self.properties@) }
    }
}
#fn protocol::$m::$T::pktid
#ret r
#spec
    ensures r == self.pktid,
#impl protocol::$m::<$T as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { whole(b) }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match sub_dec(b, |n: nat| $pred(n)) {
            Some(a) => r is Ok && r->Ok_0.0.ackw() == a,
            None => r is Err,
        }
    }
#fn protocol::$m::<$T as FromMqttBytes>::convert_from_mqtt
#entry
    hide(crate::vxs::props_all);
    hide(vstd::utf8::valid_utf8);
#end
#use sub_like m=suback T=Suback pred=suback_code
#use sub_like m=unsuback T=Unsuback pred=unsuback_code

## CONNACK
#mod protocol::connack
impl Connack {
    pub open spec fn connw(&self) -> Conn {
        Conn { session_present: self.flags.session_present, reason: self.reason.num(), props: plist(self.properties@) }
    }
}
#impl protocol::connack::<ConnackFlags as TryFrom<u8>>
    open spec fn tf_post(b: u8, r: Result<Self, String>) -> bool {
        &&& (r is Ok <==> b <= 1)
        &&& (r is Ok ==> r->Ok_0.session_present == (b == 1))
    }
#fn protocol::connack::<ConnackFlags as TryFrom<u8>>::try_from
#fn protocol::connack::Connack::reason
#ret r
#spec
    ensures r == self.reason,
#impl protocol::connack::<Connack as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { whole(b) }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match connack_dec(b) {
            Some(a) => r is Ok && r->Ok_0.0.connw() == a,
            None => r is Err,
        }
    }
#fn protocol::connack::<Connack as FromMqttBytes>::convert_from_mqtt
#entry
    hide(crate::vxs::props_all);
    hide(vstd::utf8::valid_utf8);

## DISCONNECT
#mod protocol::disconnect
impl Disconnect {
    pub open spec fn discw(&self) -> Disc { Disc { reason: self.reason.num(), props: plist(self.properties@) } }
}
#fn protocol::disconnect::Disconnect::new
#ret r
#spec
    ensures r.discw() == (Disc { reason: 0, props: seq![] }),
#fn protocol::disconnect::Disconnect::set_reason
#spec
    ensures final(self).reason == reason, final(self).properties == old(self).properties,
#fn protocol::disconnect::Disconnect::set_property
#spec
    ensures final(self).reason == old(self).reason, final(self).properties@ == old(self).properties@.push(property),
#fn protocol::disconnect::Disconnect::reason
#ret r
#spec
    ensures r == self.reason,
#impl protocol::disconnect::<Disconnect as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { list_fits(self.properties@) }
    open spec fn enc_ok(&self) -> bool { props_enc(plist(self.properties@)).len() + 1 <= 0xffff_ffff }
    open spec fn enc(&self) -> Seq<u8> { disconnect_enc(self.discw()) }
#fn protocol::disconnect::<Disconnect as ToMqttBytes>::convert_to_mqtt
#impl protocol::disconnect::<Disconnect as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { whole(b) }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match disconnect_dec(b) {
            Some(a) => r is Ok && r->Ok_0.0.discw() == a,
            None => r is Err,
        }
    }
#fn protocol::disconnect::<Disconnect as FromMqttBytes>::convert_from_mqtt
#entry
    hide(crate::vxs::props_all);
    hide(vstd::utf8::valid_utf8);

## CONNECT
#fn protocol::connect::Connect::new
#ret r
#spec
    ensures r.client_id@ == client_id@, r.keep_alive == 0,
#fn protocol::connect::Connect::keep_alive
#spec
    ensures final(self).client_id == old(self).client_id, final(self).keep_alive == keep_alive,
#impl protocol::connect::<Connect as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { sb(self.client_id).len() <= 65535 }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { connect_enc(sb(self.client_id), self.keep_alive as nat) }
#fn protocol::connect::<Connect as ToMqttBytes>::convert_to_mqtt
#entry
    proof { mqtt_name(); }

## SUBSCRIBE, UNSUBSCRIBE, PINGREQ, PINGRESP
#mod protocol::subscribe
impl Subscribe {
    pub open spec fn optw(&self) -> u8 {
        (self.qos.num() + (if self.no_local { 4int } else { 0 }) + (if self.retain_as_published { 8int } else { 0 })) as u8
    }
}
#fn protocol::subscribe::Subscribe::new
#ret r
#spec
    ensures r.topic@ == topic@, r.pktid == pktid, r.qos == qos, !r.no_local, !r.retain_as_published,
#fn protocol::subscribe::Subscribe::options
#ret r
#spec
    ensures r == self.optw(),
#impl protocol::subscribe::<Subscribe as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { sb(self.topic).len() <= 65535 }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { subscribe_enc(self.pktid@ as nat, sb(self.topic), self.optw()) }
#fn protocol::subscribe::<Subscribe as ToMqttBytes>::convert_to_mqtt
#fn protocol::unsubscribe::Unsubscribe::new
#ret r
#spec
    ensures r.topics == topics, r.pktid == pktid,
#impl protocol::unsubscribe::<Unsubscribe as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { forall|i: int| 0 <= i < self.topics@.len() ==> fits(#[trigger] self.topics@[i]) }
    open spec fn enc_ok(&self) -> bool { topics_enc(self.topics@).len() + 3 <= 0xffff_ffff }
    open spec fn enc(&self) -> Seq<u8> { unsubscribe_enc(self.pktid@ as nat, self.topics@) }
#fn protocol::unsubscribe::<Unsubscribe as ToMqttBytes>::convert_to_mqtt
#loop 0
    invariant
        forall|i: int| 0 <= i < self.topics@.len() ==> fits(#[trigger] self.topics@[i]),
        buf@ == be16(self.pktid@ as nat) + seq![0u8] + topics_enc(self.topics@.take($it.index@ as int)),
        header@ == seq![0xA2u8],
#loop-start 0
#after-loop 0
    assert(self.topics@.take(self.topics@.len() as int) =~= self.topics@);
#impl protocol::pingreq::<PingReq as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![0xC0u8, 0] }
#fn protocol::pingreq::<PingReq as ToMqttBytes>::convert_to_mqtt
#fn protocol::pingreq::PingReq::new
#impl protocol::pingresp::<PingResp as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { whole(b) }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        b.len() == 2 ==> r is Ok
    }
#fn protocol::pingresp::<PingResp as FromMqttBytes>::convert_from_mqtt

## any packet
#mod protocol
impl Packet {
    /// the packets a client may write
    pub open spec fn outgoing(&self) -> bool {
        !(self is PingResp || self is Connack || self is SubAck || self is UnsubAck)
    }
}
pub open spec fn packet_post(b: Seq<u8>, r: Result<Option<Packet>, crate::vxm::std_io::Error>) -> bool {
    &&& (r is Err ==> r->Err_0.spec_kind() == crate::vxm::std_io::ErrorKind::InvalidData)
    &&& (r is Ok ==> r->Ok_0 is Some)
    &&& match b[0] / 16 {
        3 => match pub_dec(b) { Some(p) => r matches Ok(Some(Packet::Publish(m))) && m.pubw() == p, None => r is Err },
        2 => match connack_dec(b) { Some(p) => r matches Ok(Some(Packet::Connack(m))) && m.connw() == p, None => r is Err },
        13 => (b.len() == 2 ==> r is Ok) && (r is Ok ==> r matches Ok(Some(Packet::PingResp(_)))),
        9 => match sub_dec(b, |n: nat| suback_code(n)) { Some(p) => r matches Ok(Some(Packet::SubAck(m))) && m.ackw() == p, None => r is Err },
        11 => match sub_dec(b, |n: nat| unsuback_code(n)) { Some(p) => r matches Ok(Some(Packet::UnsubAck(m))) && m.ackw() == p, None => r is Err },
        4 => match puback_dec(b) {
            Some(p) => r matches Ok(Some(Packet::PubAck(m))) && m.ackw() == (Ack { props: puback_norm(p.props), ..p }),
            None => r is Err,
        },
        14 => match disconnect_dec(b) { Some(p) => r matches Ok(Some(Packet::Disconnect(m))) && m.discw() == p, None => r is Err },
        _ => r is Err,
    }
}
/// A packet of no known type may be refused (type 0 is, before its length is known).
pub proof fn packet_post_header(b: Seq<u8>)
    requires b.len() > 0, b[0] < 16,
    ensures
        forall|r: Result<Option<Packet>, crate::vxm::std_io::Error>| #[trigger] packet_post(b, r)
            <==> (r is Err && r->Err_0.spec_kind() == crate::vxm::std_io::ErrorKind::InvalidData),
{
}
#fn protocol::parse_pkt
#ret r
#spec
    requires whole(data@),
    ensures packet_post(data@, r),
#impl protocol::<Packet as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool {
        match self {
            Packet::Connect(p) => p.enc_pre(),
            Packet::Publish(p) => p.enc_pre(),
            Packet::PubAck(p) => p.enc_pre(),
            Packet::PingReq(p) => p.enc_pre(),
            Packet::Subscribe(p) => p.enc_pre(),
            Packet::Unsubscribe(p) => p.enc_pre(),
            Packet::Disconnect(p) => p.enc_pre(),
            _ => false,
        }
    }
    open spec fn enc_ok(&self) -> bool {
        match self {
            Packet::Connect(p) => p.enc_ok(),
            Packet::Publish(p) => p.enc_ok(),
            Packet::PubAck(p) => p.enc_ok(),
            Packet::PingReq(p) => p.enc_ok(),
            Packet::Subscribe(p) => p.enc_ok(),
            Packet::Unsubscribe(p) => p.enc_ok(),
            Packet::Disconnect(p) => p.enc_ok(),
            _ => false,
        }
    }
    open spec fn enc(&self) -> Seq<u8> {
        match self {
            Packet::Connect(p) => p.enc(),
            Packet::Publish(p) => p.enc(),
            Packet::PubAck(p) => p.enc(),
            Packet::PingReq(p) => p.enc(),
            Packet::Subscribe(p) => p.enc(),
            Packet::Unsubscribe(p) => p.enc(),
            Packet::Disconnect(p) => p.enc(),
            _ => seq![],
        }
    }
#fn protocol::<Packet as ToMqttBytes>::convert_to_mqtt
#fn protocol::<String as From<ConvertError>>::from
#fn protocol::<std::io::Error as From<ConvertError>>::from

## the codec
#impl mqtt_codec::<MqttCodec as Decoder>
    open spec fn decode_post(a: Seq<u8>, b: Seq<u8>, r: Result<Option<Packet>, crate::vxm::std_io::Error>) -> bool {
        match frame(a) {
            // nothing is consumed until a packet is complete
            Frame::Incomplete => b == a && (r matches Ok(None) || (r is Err && a.len() > 0 && a[0] < 16)),
            // a bad length is an error, at the latest when the byte after it is there
            Frame::Bad => r is Err || (a.len() <= 5 && b == a && r matches Ok(None)),
            // exactly the packet is consumed, and only its bytes decide
            Frame::Complete(n) => (r is Ok ==> b == a.skip(n as int)) && crate::protocol::packet_post(a.take(n as int), r),
        }
    }
#impl mqtt_codec::<MqttCodec as Encoder<Packet>>
    open spec fn encode_pre(item: Packet) -> bool { item.enc_pre() }
    open spec fn encode_post(item: Packet, a: Seq<u8>, b: Seq<u8>, r: Result<(), crate::vxm::std_io::Error>) -> bool {
        match r {
            Ok(_) => item.enc_ok() && b =~= a + item.enc() && item.enc().len() <= 5 + max_remaining(),
            Err(_) => b == a && (!item.enc_ok() || item.enc().len() > 5 + max_remaining()),
        }
    }
#fn mqtt_codec::<MqttCodec as Decoder>::decode
#entry
    hide(crate::protocol::packet_post);
    proof {
        if src@.len() > 1 && src@[0] < 16 {
            match frame(src@) {
                Frame::Complete(n) => {
                    assert(src@.take(n as int)[0] == src@[0]);
                    crate::protocol::packet_post_header(src@.take(n as int));
                }
                _ => {}
            }
        }
    }
#fn mqtt_codec::<MqttCodec as Encoder<Packet>>::encode
