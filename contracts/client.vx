## the client's calls and the message builder

#mod client
impl Client {
    /// one call offered one command when `ok`, else nothing; the channel took it exactly when the call succeeded
    pub open spec fn offered(before: Client, after: Client, ok: bool, r: Result<(), Error>) -> bool {
        &&& (r is Ok ==> ok && after.tx.log() =~= before.tx.log().push(after.tx.log().last()) && after.tx.refusals() == before.tx.refusals())
        &&& (r is Err ==> after.tx.log() == before.tx.log() && after.tx.refusals() == before.tx.refusals() + (if ok { 1nat } else { 0 }))
    }
}
impl PublishBuilder {
    pub open spec fn ok(&self) -> bool { fits(self.topic) && list_fits(self.properties@) }
    pub open spec fn command(&self) -> crate::Command {
        crate::Command::Publish {
            topic: self.topic,
            payload: self.payload,
            properties: self.properties,
            qos: match self.qos { Some(q) => q, None => QoS::AtMostOnce },
            retain: match self.retain { Some(b) => b, None => false },
        }
    }
}
#fn client::check_len
#ret r
#spec
    ensures r is Ok <==> encode_utf8(topic@).len() <= 65535,
#fn protocol::properties::Property::fits_len_prefix
#ret r
#spec
    ensures r == pv_fits(self.pvw()),
#fn client::Client::connect
#ret r
#spec
    ensures r is Ok, *final(self) == *old(self),
#fn client::Client::subscribe
#ret r
#spec
    ensures
        Client::offered(*old(self), *final(self), encode_utf8(topic@).len() <= 65535, r),
        r is Ok ==> (final(self).tx.log().last() matches crate::Command::Subscribe(s, q) && s@ == topic@ && q == qos),
#fn client::Client::unsubscribe
#ret r
#spec
    ensures
        Client::offered(*old(self), *final(self), encode_utf8(topic@).len() <= 65535, r),
        r is Ok ==> (final(self).tx.log().last() matches crate::Command::Unsubscribe(v) && v@.len() == 1 && v@[0]@ == topic@),
#fn client::Client::disconnect
#ret r
#spec
    ensures
        Client::offered(*old(self), *final(self), true, r),
        r is Ok ==> final(self).tx.log().last() == crate::Command::Disconnect,
#fn client::Client::publish
#ret r
#spec
    ensures
        Client::offered(*old(self), *final(self), publish_builder.ok(), r),
        r is Ok ==> final(self).tx.log().last() == publish_builder.command(),
#fn client::PublishBuilder::from_bytes
#ret r
#spec
    ensures
        r.topic@ == topic@, r.payload is Bytes, r.payload->Bytes_0@ == payload@, r.qos is None, r.retain is None,
        r.properties@ == seq![Property::PayloadFormatId(0)],
        r.ok() == (encode_utf8(topic@).len() <= 65535),
#fn client::PublishBuilder::from_str
#ret r
#spec
    ensures
        r.topic@ == topic@, r.payload is String, r.payload->String_0@ == payload@, r.qos is None, r.retain is None,
        r.properties@ == seq![Property::PayloadFormatId(1)],
        r.ok() == (encode_utf8(topic@).len() <= 65535),
#fn client::PublishBuilder::qos
#ret r
#spec
    ensures r == (PublishBuilder { qos: Some(qos), ..self }),
        r.ok() == self.ok(),
#fn client::PublishBuilder::with_property
#ret r
#spec
    ensures
        r.topic == self.topic, r.payload == self.payload, r.qos == self.qos, r.retain == self.retain,
        r.properties@ == self.properties@.push(prop),
        r.ok() == (self.ok() && pv_fits(prop.pvw())),
#entry
    proof { crate::vxl::fits_push(self.properties@, prop); }
#fn client::PublishBuilder::build
#ret r
#spec
    ensures
        r is Ok <==> self.ok(),
        r is Ok ==> r->Ok_0 == self.command(),
#loop 0
    invariant forall|i: int| 0 <= i < $it.index@ ==> pv_fits((#[trigger] self.properties@[i]).pvw()),
