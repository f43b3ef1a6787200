## strings, binary data, packet identifiers

#impl protocol::<&str as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { encode_utf8(self@).len() <= 65535 }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { str_enc(encode_utf8(self@)) }
#impl protocol::<String as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { sb(*self).len() <= 65535 }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { str_enc(sb(*self)) }
#impl protocol::<&[u8] as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { self@.len() <= 65535 }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { str_enc(self@) }
#fn protocol::<&str as ToMqttBytes>::convert_to_mqtt
#fn protocol::<String as ToMqttBytes>::convert_to_mqtt
#fn protocol::<&[u8] as ToMqttBytes>::convert_to_mqtt
#impl protocol::<PktId as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { be16(self@ as nat) }
#fn protocol::<PktId as ToMqttBytes>::convert_to_mqtt

#impl protocol::<String as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { true }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match str_dec(b) {
            Some((s, n)) => r is Ok && sb(r->Ok_0.0) == s && r->Ok_0.1 == n,
            None => r is Err,
        }
    }
#fn protocol::<String as FromMqttBytes>::convert_from_mqtt
#entry
    proof { reveal_strlit(""); }
#impl protocol::<Vec<u8> as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { true }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match bin_dec(b) {
            Some((s, n)) => r is Ok && r->Ok_0.0@ == s && r->Ok_0.1 == n,
            None => r is Err,
        }
    }
#fn protocol::<Vec<u8> as FromMqttBytes>::convert_from_mqtt
#impl protocol::<PktId as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { true }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match id_dec(b) {
            Some((id, n)) => r is Ok && r->Ok_0.0@ == id && r->Ok_0.1 == n,
            None => r is Err,
        }
    }
#fn protocol::<PktId as FromMqttBytes>::convert_from_mqtt

## enumerations on the wire
#mod protocol::qos
impl QoS {
    pub open spec fn num(&self) -> nat { match self { QoS::AtMostOnce => 0, QoS::AtLeastOnce => 1, QoS::ExactlyOnce => 2 } }
}
impl vstd::std_specs::convert::FromSpecImpl<QoS> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(q: QoS) -> u8 { q.num() as u8 }
}
#impl protocol::qos::<QoS as TryFrom<u8>>
    open spec fn tf_post(u: u8, r: Result<Self, ConvertError>) -> bool {
        &&& (r is Ok <==> u < 3)
        &&& (r is Ok ==> r->Ok_0.num() == u)
    }
#fn protocol::qos::<QoS as TryFrom<u8>>::try_from
#fn protocol::qos::<u8 as From<QoS>>::from

#def reason_code
#mod protocol::$m
impl $T {
    pub open spec fn num(&self) -> nat { match self { $table } }
}
#impl protocol::$m::<$T as TryFrom<u8>>
    open spec fn tf_post(b: u8, r: Result<Self, String>) -> bool {
        &&& (r is Ok <==> $pred(b as nat))
        &&& (r is Ok ==> r->Ok_0.num() == b)
    }
#fn protocol::$m::<$T as TryFrom<u8>>::try_from
#end
#def reason_from
#mod protocol::$m
impl vstd::std_specs::convert::FromSpecImpl<$T> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(q: $T) -> u8 { q.num() as u8 }
}
#fn protocol::$m::<u8 as From<$T>>::from
#end
#use reason_code m=puback T=PubackReason pred=puback_code table=PubackReason::Success=>0,PubackReason::NoMatchingSubscibers=>16,PubackReason::UnspecifiedError=>128,PubackReason::ImplementationSpecificError=>131,PubackReason::NotAuthorized=>135,PubackReason::TopicNameInvalid=>144,PubackReason::PacketIdentifierInUse=>145,PubackReason::QuotaExceeded=>151,PubackReason::PayloadFormatInvalid=>153
#use reason_from m=puback T=PubackReason
#use reason_code m=suback T=SubackReason pred=suback_code table=SubackReason::QoS0=>0,SubackReason::QoS1=>1,SubackReason::QoS2=>2,SubackReason::UnspecifiedError=>128,SubackReason::ImplementationSpecificError=>131,SubackReason::NotAuthorized=>135,SubackReason::TopicFilterInvalid=>143,SubackReason::PacketIdentifierInUse=>145,SubackReason::QuotaExceeded=>151,SubackReason::SharedSubsNotSupported=>158,SubackReason::SubIdsNotSupported=>161,SubackReason::WildcardSubsNotSupported=>162
#use reason_code m=unsuback T=UnsubackReason pred=unsuback_code table=UnsubackReason::Success=>0,UnsubackReason::NoSubscriptionExisted=>17,UnsubackReason::UnspecifiedError=>128,UnsubackReason::ImplementationSpecificError=>131,UnsubackReason::NotAuthorized=>135,UnsubackReason::TopicFilterInvalid=>143,UnsubackReason::PacketIdentifierInUse=>145
#use reason_code m=connack T=ConnackReason pred=connack_code table=ConnackReason::Success=>0,ConnackReason::UnspecifiedError=>128,ConnackReason::MalformedPacket=>129,ConnackReason::ProtocolError=>130,ConnackReason::ImplementationSpecificError=>131,ConnackReason::UnsupportedProtocolVersion=>132,ConnackReason::ClientIdentifierNotValid=>133,ConnackReason::BadUserNameOrPassword=>134,ConnackReason::NotAuthorized=>135,ConnackReason::ServerUnavailable=>136,ConnackReason::ServerBusy=>137,ConnackReason::Banned=>138,ConnackReason::BadAuthenticationMethod=>140,ConnackReason::TopicNameInvalid=>144,ConnackReason::PacketTooLarge=>149,ConnackReason::QuotaExceeded=>151,ConnackReason::PayloadFormatInvalid=>153,ConnackReason::RetainNotSupported=>154,ConnackReason::QoSNotSupported=>155,ConnackReason::UseAnotherServer=>156,ConnackReason::ServerMoved=>157,ConnackReason::ConnectionRateExceeded=>159
#use reason_code m=disconnect T=DisconnectReason pred=disconnect_code table=DisconnectReason::Normal=>0,DisconnectReason::DisconnectWithWill=>4,DisconnectReason::UnspecifiedError=>128,DisconnectReason::MalformedPacket=>129,DisconnectReason::ProtocolError=>130,DisconnectReason::ImplementationSpecificError=>131,DisconnectReason::NotAuthorized=>135,DisconnectReason::ServerBusy=>137,DisconnectReason::ServerShuttingDown=>139,DisconnectReason::KeepAliveTimeout=>141,DisconnectReason::SessionTakenOver=>142,DisconnectReason::TopicFilterInvalid=>143,DisconnectReason::TopicNameInvalid=>144,DisconnectReason::ReceiveMaximumExceeded=>147,DisconnectReason::TopicAliasInvalid=>148,DisconnectReason::PacketTooLarge=>149,DisconnectReason::MessageRateTooHigh=>150,DisconnectReason::QuotaExceeded=>151,DisconnectReason::AdministrativeAction=>152,DisconnectReason::PayloadFormatInvalid=>153,DisconnectReason::RetainNotSupported=>154,DisconnectReason::QoSNotSupported=>155,DisconnectReason::UseAnotherServer=>156,DisconnectReason::ServerMoved=>157,DisconnectReason::SharedSubsNotSupported=>158,DisconnectReason::ConnectionRateExceeded=>159,DisconnectReason::MaximumConnectTime=>160,DisconnectReason::SubscrpitionIdsNotSupported=>161,DisconnectReason::WildcardSubsNotSupported=>162
#use reason_from m=disconnect T=DisconnectReason

#mod protocol
impl PacketType {
    pub open spec fn num(&self) -> nat {
        match self {
            PacketType::Connect => 1, PacketType::Connack => 2, PacketType::Publish => 3, PacketType::PubAck => 4,
            PacketType::PubReceived => 5, PacketType::PubRelease => 6, PacketType::PubComplete => 7,
            PacketType::Subscribe => 8, PacketType::SubscribeAck => 9, PacketType::Unsubscribe => 10,
            PacketType::UnsubscribeAck => 11, PacketType::PingRequest => 12, PacketType::PingResponse => 13,
            PacketType::Disconnect => 14, PacketType::Auth => 15,
        }
    }
}
#impl protocol::<PacketType as TryFrom<u8>>
    open spec fn tf_post(b: u8, r: Result<Self, String>) -> bool {
        &&& (r is Ok <==> b >= 16)
        &&& (r is Ok ==> r->Ok_0.num() == b / 16)
    }
#fn protocol::<PacketType as TryFrom<u8>>::try_from
#entry
#fn protocol::parse_fixed_header
#ret r
#spec
    ensures
        r is Ok <==> byte >= 16,
        r is Ok ==> r->Ok_0.num() == byte / 16,

## property lists of every packet kind
#def props_list
#impl protocol::$m<&[$T] as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { list_fits::<$T>(self@) }
    open spec fn enc_ok(&self) -> bool { pvs_enc(plist::<$T>(self@)).len() <= 0xffff_ffff }
    open spec fn enc(&self) -> Seq<u8> { props_enc(plist::<$T>(self@)) }
#fn protocol::$m<&[$T] as ToMqttBytes>::convert_to_mqtt
#loop 0
    invariant
        list_fits::<$T>(self@),
        buf@ == pvs_enc(plist::<$T>(self@.take($it.index@ as int))),
        header@.len() == 0,
#loop-start 0
#after-loop 0
    assert(self@.take(self@.len() as int) =~= self@);
#impl protocol::$m<Vec<$T> as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { true }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match props_dec($ack, b) {
            Some((ps, n)) => r is Ok && plist::<$T>(r->Ok_0.0@) == ps && r->Ok_0.1 == n,
            None => r is Err,
        }
    }
#fn protocol::$m<Vec<$T> as FromMqttBytes>::convert_from_mqtt
#attr #[verifier::loop_isolation(false)]
#entry
    hide(prop_dec);
    hide(vstd::utf8::valid_utf8);
#before-loop 0
    let ghost vx_all = bytes@;
#loop 0
    invariant
        props_all($ack, vx_all) == opt_cat(plist::<$T>(properties@), props_all($ack, bytes@)),
    decreases bytes@.len(),
#loop-start 0
    let ghost vx_before = properties@;
    let ghost vx_bytes = bytes@;
#loop-end 0
    proof { props_all_step::<$T>($ack, vx_bytes, vx_before, properties@.last(), (vx_bytes.len() - bytes@.len()) as nat); }
#end

#def props_one
#mod protocol::$M
impl VxProp for $T {
    open spec fn pvw(&self) -> Pv { match *self { $view } }
}
#impl protocol::$m<$T as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { pv_fits(self.pvw()) }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { pv_enc(self.pvw()) }
#fn protocol::$m<$T as ToMqttBytes>::convert_to_mqtt
#fn protocol::$m$T::id
#ret r
#spec
    ensures r == pv_id(self.pvw()),
#impl protocol::$m<$T as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { true }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool { prop_post($ack, b, r) }
#fn protocol::$m<$T as FromMqttBytes>::convert_from_mqtt
#end
#use props_one m=properties:: M=properties T=Property ack=false view=Property::PayloadFormatId(v)=>Pv::Format(v),Property::MessageExpiryInterval(v)=>Pv::Expiry(v~as~nat),Property::ResponseTopic(s)=>Pv::RespTopic(sb(s)),Property::CorrelationData(b)=>Pv::Corr(b@),Property::UserProperty(k,v)=>Pv::User(sb(k),sb(v))
#use props_list m=properties:: T=Property ack=false
#use props_one m=connack::properties:: M=connack::properties T=ConnackProperty ack=true view=ConnackProperty::ReasonString(s)=>Pv::Reason(sb(s)),ConnackProperty::UserProperty(k,v)=>Pv::User(sb(k),sb(v))
#use props_list m=connack::properties:: T=ConnackProperty ack=true
#use props_one m=suback::properties:: M=suback::properties T=SubackProperty ack=true view=SubackProperty::ReasonString(s)=>Pv::Reason(sb(s)),SubackProperty::UserProperty(k,v)=>Pv::User(sb(k),sb(v))
#use props_list m=suback::properties:: T=SubackProperty ack=true
#use props_one m=unsuback::properties:: M=unsuback::properties T=UnsubackProperty ack=true view=UnsubackProperty::ReasonString(s)=>Pv::Reason(sb(s)),UnsubackProperty::UserProperty(k,v)=>Pv::User(sb(k),sb(v))
#use props_list m=unsuback::properties:: T=UnsubackProperty ack=true
#use props_one m=disconnect::properties:: M=disconnect::properties T=DisconnectProperty ack=true view=DisconnectProperty::SessionExpiryInterval(v)=>Pv::SessionExpiry(v~as~nat),DisconnectProperty::ReasonString(s)=>Pv::Reason(sb(s)),DisconnectProperty::UserProperty(k,v)=>Pv::User(sb(k),sb(v))
#use props_list m=disconnect::properties:: T=DisconnectProperty ack=true
