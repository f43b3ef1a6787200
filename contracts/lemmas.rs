
verus! {

// ---------------------------------------------------------------------------
// vxl: what follows from the contracts, for properties that no single contract states.
// ---------------------------------------------------------------------------
pub mod vxl {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use crate::vxm::*;
    use crate::vxs::*;
    use crate::protocol::*;
    use crate::mqtt_codec::MqttCodec;
    use crate::vxm::tokio_util::codec::{Decoder, Encoder};

    // ----- P03: framing -----

    /// What is already there decides, whatever comes later.
    pub proof fn framing_prefix(a: Seq<u8>, c: Seq<u8>)
        ensures !(frame(a) is Incomplete) ==> frame(a + c) == frame(a),
    {
        if a.len() >= 2 {
            assert((a + c).skip(1) =~= a.skip(1) + c);
            let x = a.skip(1);
            let y = x + c;
            assert(forall|i: int| 0 <= i < x.len() ==> y[i] == x[i]);
        }
    }

    /// A complete frame lies within the bytes that are there.
    pub proof fn framing_within(a: Seq<u8>)
        ensures frame(a) matches Frame::Complete(n) ==> 2 <= n <= a.len() && whole(a.take(n as int)),
    {
        if frame(a) is Complete {
            let n = frame(a)->Complete_0;
            let x = a.skip(1);
            let y = a.take(n as int).skip(1);
            assert(y =~= x.take(n - 1));
            assert(forall|i: int| 0 <= i < y.len() ==> y[i] == x[i]);
        }
    }

    /// The packets of a stream in order, and what is left over.
    pub open spec fn split(a: Seq<u8>) -> (Seq<Seq<u8>>, Seq<u8>)
        decreases a.len(),
    {
        match frame(a) {
            Frame::Complete(n) => if 0 < n <= a.len() {
                let r = split(a.skip(n as int));
                (seq![a.take(n as int)] + r.0, r.1)
            } else { (seq![], a) },
            _ => (seq![], a),
        }
    }

    /// Cutting a stream in two, and keeping what is left over for the second part, gives the same packets.
    pub proof fn framing_cut(a: Seq<u8>, c: Seq<u8>)
        ensures split(a + c) == (split(a).0 + split(split(a).1 + c).0, split(split(a).1 + c).1),
        decreases a.len(),
    {
        framing_prefix(a, c);
        framing_within(a);
        match frame(a) {
            Frame::Complete(n) => {
                let n = n as int;
                assert((a + c).skip(n) =~= a.skip(n) + c);
                assert((a + c).take(n) =~= a.take(n));
                framing_cut(a.skip(n), c);
                let s = split(a.skip(n));
                let r = split(s.1 + c);
                assert(split(a + c).0 =~= seq![a.take(n)] + (s.0 + r.0));
                assert(seq![a.take(n)] + (s.0 + r.0) =~= (seq![a.take(n)] + s.0) + r.0);
            },
            _ => {
                assert(seq![] + split(a + c).0 =~= split(a + c).0);
            },
        }
    }

    pub open spec fn flat(cs: Seq<Seq<u8>>) -> Seq<u8>
        decreases cs.len(),
    {
        if cs.len() == 0 { seq![] } else { flat(cs.drop_last()) + cs.last() }
    }

    /// What comes out when the pieces of a stream arrive one after the other.
    pub open spec fn feed(cs: Seq<Seq<u8>>) -> (Seq<Seq<u8>>, Seq<u8>)
        decreases cs.len(),
    {
        if cs.len() == 0 { (seq![], seq![]) } else {
            let before = feed(cs.drop_last());
            let now = split(before.1 + cs.last());
            (before.0 + now.0, now.1)
        }
    }

    /// Any cutting of a stream into pieces gives the packets of the whole stream.
    pub proof fn framing_any_cut(cs: Seq<Seq<u8>>)
        ensures feed(cs) == split(flat(cs)),
        decreases cs.len(),
    {
        if cs.len() > 0 {
            framing_any_cut(cs.drop_last());
            framing_cut(flat(cs.drop_last()), cs.last());
        }
    }

    /// One call of the decoder is one step of `split`: it gives the first packet and leaves the rest, or gives
    /// nothing and leaves the buffer alone until there is more.
    pub proof fn framing_step(a: Seq<u8>, b: Seq<u8>, r: Result<Option<Packet>, std_io::Error>)
        requires <MqttCodec as Decoder>::decode_post(a, b, r),
        ensures
            r matches Ok(Some(_)) ==> split(a).0.len() > 0 && packet_post(split(a).0[0], r) && whole(split(a).0[0]) && b == a.skip(split(a).0[0].len() as int)
                && split(b) == (split(a).0.skip(1), split(a).1),
            r matches Ok(None) ==> b == a && split(a) == (Seq::<Seq<u8>>::empty(), a),
    {
        framing_within(a);
        if r is Ok && frame(a) is Complete {
            let n = frame(a)->Complete_0 as int;
            assert(split(a).0.skip(1) =~= split(a.skip(n)).0);
        }
    }

    /// What a packet decodes to is decided by its own bytes.
    pub proof fn framing_same(b: Seq<u8>, r: Result<Option<Packet>, std_io::Error>, s: Result<Option<Packet>, std_io::Error>)
        requires packet_post(b, r), packet_post(b, s), r is Ok, s is Ok,
        ensures same_packet(r->Ok_0->Some_0, s->Ok_0->Some_0),
    {
    }

    pub open spec fn same_packet(p: Packet, q: Packet) -> bool {
        match p {
            Packet::Publish(p) => q matches Packet::Publish(q) && q.pubw() == p.pubw(),
            Packet::Connack(p) => q matches Packet::Connack(q) && q.connw() == p.connw(),
            Packet::PubAck(p) => q matches Packet::PubAck(q) && q.ackw() == p.ackw(),
            Packet::SubAck(p) => q matches Packet::SubAck(q) && q.ackw() == p.ackw(),
            Packet::UnsubAck(p) => q matches Packet::UnsubAck(q) && q.ackw() == p.ackw(),
            Packet::Disconnect(p) => q matches Packet::Disconnect(q) && q.discw() == p.discw(),
            Packet::PingResp(_) => q is PingResp,
            _ => false,
        }
    }

    /// What the session assumes about the packets it gets (the contract assumed for `FramedRead::next`).
    pub proof fn incoming_valid(a: Seq<u8>, b: Seq<u8>, r: Result<Option<Packet>, std_io::Error>)
        requires <MqttCodec as Decoder>::decode_post(a, b, r),
        ensures r matches Ok(Some(p)) ==> valid_incoming(p),
    {
        framing_within(a);
        if r is Ok && frame(a) is Complete {
            let p = a.take(frame(a)->Complete_0 as int);
            if p[0] / 16 == 3 && pub_dec(p) is Some {
                let m = r->Ok_0->Some_0->Publish_0;
                assert(m.pubw().qos == 0 <==> m.pubw().id is None);
            }
        }
    }

    // ----- P10: what is sent can be read back -----

    pub proof fn fits_push<T: VxProp>(s: Seq<T>, p: T)
        ensures list_fits(s.push(p)) == (list_fits(s) && pv_fits(p.pvw())),
    {
        if list_fits(s.push(p)) {
            assert(s.push(p)[s.len() as int] == p);
            assert forall|i: int| 0 <= i < s.len() implies pv_fits((#[trigger] s[i]).pvw()) by { assert(s.push(p)[i] == s[i]); }
        }
    }

    proof fn be16_inv(n: nat, t: Seq<u8>)
        requires n <= 65535,
        ensures be16(n).len() == 2, be16_val(be16(n) + t) == n,
    {
    }

    proof fn be32_inv(n: nat, t: Seq<u8>)
        requires n <= 0xffff_ffff,
        ensures be32(n).len() == 4, be32_val(be32(n) + t) == n,
    {
        let b = be32(n) + t;
        assert(b[0] == n / 16777216 && b[1] == n / 65536 % 256 && b[2] == n / 256 % 256 && b[3] == n % 256);
    }

    /// A variable byte integer decodes to what was encoded, whatever follows, and takes at most four bytes.
    pub proof fn roundtrip_vbi(n: nat, t: Seq<u8>)
        requires n <= max_remaining(),
        ensures vbi_dec(vbi_enc(n) + t) == Vd::Done(n, vbi_enc(n).len()), 1 <= vbi_enc(n).len() <= 4,
    {
        reveal_with_fuel(vbi_enc, 5);
        let b = vbi_enc(n) + t;
        if n < 128 {
            assert(b[0] == n);
        } else if n < 16384 {
            assert(vbi_enc(n) =~= seq![(n % 128 + 128) as u8, (n / 128) as u8]);
            assert(b[0] == n % 128 + 128 && b[1] == n / 128);
        } else if n < 2097152 {
            assert(vbi_enc(n) =~= seq![(n % 128 + 128) as u8, (n / 128 % 128 + 128) as u8, (n / 128 / 128) as u8]);
            assert(b[0] == n % 128 + 128 && b[1] == n / 128 % 128 + 128 && b[2] == n / 128 / 128);
        } else {
            assert(n / 128 / 128 / 128 < 128);
            assert(vbi_enc(n) =~= seq![(n % 128 + 128) as u8, (n / 128 % 128 + 128) as u8, (n / 128 / 128 % 128 + 128) as u8, (n / 128 / 128 / 128) as u8]);
            assert(b[0] == n % 128 + 128 && b[1] == n / 128 % 128 + 128 && b[2] == n / 128 / 128 % 128 + 128 && b[3] == n / 128 / 128 / 128);
        }
    }

    proof fn bin_inv(s: Seq<u8>, t: Seq<u8>)
        requires s.len() <= 65535,
        ensures
            bin_dec(str_enc(s) + t) == Some((s, 2 + s.len())),
            str_enc(s).len() == 2 + s.len(),
            valid_utf8(s) ==> str_dec(str_enc(s) + t) == Some((s, 2 + s.len())),
    {
        let b = str_enc(s) + t;
        be16_inv(s.len(), s + t);
        assert(b =~= be16(s.len()) + (s + t));
        assert(b.subrange(2, 2 + s.len() as int) =~= s);
    }

    /// A property the client's own types can hold in a PUBLISH.
    pub open spec fn pub_pv(p: Pv) -> bool {
        pv_fits(p) && match p {
            Pv::Format(_) => true,
            Pv::Expiry(v) => v <= 0xffff_ffff,
            Pv::RespTopic(s) => valid_utf8(s),
            Pv::Corr(_) => true,
            Pv::User(k, v) => valid_utf8(k) && valid_utf8(v),
            _ => false,
        }
    }

    pub open spec fn pub_pvs(ps: Seq<Pv>) -> bool { forall|i: int| 0 <= i < ps.len() ==> pub_pv(#[trigger] ps[i]) }

    pub proof fn roundtrip_property(p: Pv, t: Seq<u8>)
        requires pub_pv(p),
        ensures prop_dec(false, pv_enc(p) + t) == Some((p, pv_enc(p).len())), pv_enc(p).len() > 0,
    {
        hide(str_enc);
        hide(str_dec);
        hide(bin_dec);
        let b = pv_enc(p) + t;
        match p {
            Pv::Format(v) => { },
            Pv::Expiry(v) => {
                be32_inv(v, t);
                assert(b.skip(1) =~= be32(v) + t);
            },
            Pv::RespTopic(s) => {
                bin_inv(s, t);
                assert(b.skip(1) =~= str_enc(s) + t);
            },
            Pv::Corr(s) => {
                bin_inv(s, t);
                assert(b.skip(1) =~= str_enc(s) + t);
            },
            Pv::User(k, v) => {
                bin_inv(k, str_enc(v) + t);
                bin_inv(v, t);
                assert(b.skip(1) =~= str_enc(k) + (str_enc(v) + t));
                assert(b.skip(1).skip(2 + k.len() as int) =~= str_enc(v) + t);
            },
            _ => { },
        }
    }

    /// The encoding of a property list, taken apart at its front.
    proof fn pvs_front(ps: Seq<Pv>)
        requires ps.len() > 0,
        ensures pvs_enc(ps) == pv_enc(ps[0]) + pvs_enc(ps.skip(1)),
        decreases ps.len(),
    {
        if ps.len() == 1 {
            assert(ps.drop_last() =~= seq![]);
            assert(ps.skip(1) =~= seq![]);
            assert(pvs_enc(ps) =~= pv_enc(ps[0]) + pvs_enc(ps.skip(1)));
        } else {
            pvs_front(ps.drop_last());
            assert(ps.drop_last().skip(1) =~= ps.skip(1).drop_last());
            assert(pvs_enc(ps) =~= pv_enc(ps[0]) + pvs_enc(ps.skip(1)));
        }
    }

    proof fn props_all_inv(ps: Seq<Pv>)
        requires pub_pvs(ps),
        ensures props_all(false, pvs_enc(ps)) == Some(ps),
        decreases ps.len(),
    {
        if ps.len() == 0 {
            assert(ps =~= seq![]);
        } else {
            let rest = ps.skip(1);
            pvs_front(ps);
            roundtrip_property(ps[0], pvs_enc(rest));
            assert forall|i: int| 0 <= i < rest.len() implies pub_pv(#[trigger] rest[i]) by { assert(rest[i] == ps[i + 1]); }
            props_all_inv(rest);
            assert(pvs_enc(ps).skip(pv_enc(ps[0]).len() as int) =~= pvs_enc(rest));
            assert(seq![ps[0]] + rest =~= ps);
        }
    }

    pub proof fn roundtrip_properties(ps: Seq<Pv>, t: Seq<u8>)
        requires pub_pvs(ps), pvs_enc(ps).len() <= max_remaining(),
        ensures props_dec(false, props_enc(ps) + t) == Some((ps, props_enc(ps).len())),
    {
        let l = pvs_enc(ps).len();
        let b = props_enc(ps) + t;
        roundtrip_vbi(l, pvs_enc(ps) + t);
        assert(b =~= vbi_enc(l) + (pvs_enc(ps) + t));
        props_all_inv(ps);
        assert(b.subrange(vbi_enc(l).len() as int, (vbi_enc(l).len() + l) as int) =~= pvs_enc(ps));
    }

    /// Where the body of an encoded packet lies.
    pub proof fn roundtrip_frame(first: u8, d: Seq<u8>, t: Seq<u8>)
        requires d.len() <= max_remaining(),
        ensures
            frame(packet(first, d) + t) == Frame::Complete(packet(first, d).len()),
            whole(packet(first, d)),
            body(packet(first, d)) == d,
            packet(first, d)[0] == first,
            packet(first, d).len() > 0,
    {
        let p = packet(first, d);
        roundtrip_vbi(d.len(), d + t);
        roundtrip_vbi(d.len(), d);
        assert((p + t).skip(1) =~= vbi_enc(d.len()) + (d + t));
        assert(p.skip(1) =~= vbi_enc(d.len()) + d);
        assert(p.skip(1 + vbi_enc(d.len()).len() as int) =~= d);
    }

    /// A message the client's own types can hold and the protocol can carry.
    pub open spec fn pub_ok(p: Pub) -> bool {
        &&& p.qos <= 2
        &&& p.topic.len() <= 65535 && valid_utf8(p.topic)
        &&& (p.qos > 0 <==> p.id is Some)
        &&& (p.id matches Some(id) ==> 1 <= id <= 65535)
        &&& pub_pvs(p.props)
        &&& pub_body(p).len() <= max_remaining()
        // a message that says its payload is text has text for its payload
        &&& (is_text(p.props) ==> valid_utf8(p.payload))
    }

    proof fn first_inv(p: Pub)
        requires p.qos <= 2,
        ensures ({ let f = pub_first(p); f / 2 % 4 == p.qos && (f / 8 % 2 == 1) == p.dup && (f % 2 == 1) == p.retain && f / 16 == 3 }),
    {
        let f = pub_first(p);
        assert(f as int == 0x30 + (if p.dup { 8int } else { 0 }) + 2 * p.qos + (if p.retain { 1int } else { 0 }));
    }

    /// The parts of the body of a message, one after the other.
    proof fn body_inv(p: Pub)
        requires pub_ok(p),
        ensures ({
            let d = pub_body(p);
            let n = 2 + p.topic.len();
            let m: nat = if p.id is Some { 2 } else { 0 };
            let k = props_enc(p.props).len();
            &&& str_dec(d) == Some((p.topic, n))
            &&& p.id is Some ==> id_dec(d.skip(n as int)) == Some((p.id->0, m))
            &&& props_dec(false, d.skip((n + m) as int)) == Some((p.props, k))
            &&& d.skip((n + m + k) as int) == p.payload
        }),
    {
        let d = pub_body(p);
        let e = props_enc(p.props);
        let ids = match p.id { Some(id) => be16(id), None => Seq::<u8>::empty() };
        assert(d =~= str_enc(p.topic) + (ids + (e + p.payload)));
        bin_inv(p.topic, ids + (e + p.payload));
        let n = 2 + p.topic.len() as int;
        assert(d.skip(n) =~= ids + (e + p.payload));
        if p.id is Some {
            be16_inv(p.id->0, e + p.payload);
        }
        let m = ids.len() as int;
        assert(d.skip(n + m) =~= e + p.payload);
        assert(pvs_enc(p.props).len() <= e.len());
        assert(e.len() <= d.len());
        roundtrip_properties(p.props, p.payload);
        let k = e.len() as int;
        assert(d.skip(n + m + k) =~= p.payload);
    }

    pub proof fn roundtrip_publish(p: Pub)
        requires pub_ok(p),
        ensures
            whole(pub_enc(p)),
            pub_enc(p)[0] / 16 == 3,
            pub_dec(pub_enc(p)) == Some(Pub { text: is_text(p.props), ..p }),
    {
        hide(pub_body);
        hide(props_dec);
        hide(str_dec);
        hide(id_dec);
        hide(frame);
        hide(packet);
        hide(pub_first);
        hide(props_enc);
        hide(is_text);
        let d = pub_body(p);
        let b = pub_enc(p);
        roundtrip_frame(pub_first(p), d, seq![]);
        assert(b == packet(pub_first(p), d));
        first_inv(p);
        body_inv(p);
    }

    /// What the crate's own types guarantee about a message.
    proof fn message_ok(m: crate::protocol::publish::Publish)
        requires
            m.enc_pre(),
            m.enc().len() <= 5 + max_remaining(),
            is_text(plist(m.properties@)) ==> valid_utf8(m.payload.data()),
        ensures pub_ok(m.pubw()),
    {
        let p = m.pubw();
        encode_utf8_valid_utf8(m.topic@);
        let d = pub_body(p);
        // more than max_remaining bytes take five length bytes and more than that many in all
        reveal_with_fuel(vbi_enc, 5);
        assert(d.len() > max_remaining() ==> vbi_enc(d.len()).len() >= 5);
        assert forall|i: int| 0 <= i < p.props.len() implies pub_pv(#[trigger] p.props[i]) by {
            let q = m.properties@[i];
            assert(pv_fits(q.pvw()));
            match q {
                crate::protocol::properties::Property::ResponseTopic(s) => { encode_utf8_valid_utf8(s@); },
                crate::protocol::properties::Property::UserProperty(k, v) => { encode_utf8_valid_utf8(k@); encode_utf8_valid_utf8(v@); },
                _ => { },
            }
        }
    }

    /// What the decoder makes of a whole PUBLISH with anything behind it.
    proof fn received(e: Seq<u8>, p: Pub, behind: Seq<u8>, rest: Seq<u8>, got: Result<Option<Packet>, std_io::Error>)
        requires
            frame(e + behind) == Frame::Complete(e.len()),
            whole(e),
            e.len() > 0,
            e[0] / 16 == 3,
            pub_dec(e) == Some(p),
            <MqttCodec as Decoder>::decode_post(e + behind, rest, got),
        ensures
            rest == behind,
            got matches Ok(Some(Packet::Publish(n))) && n.pubw() == p,
    {
        hide(frame);
        hide(pub_dec);
        assert((e + behind).take(e.len() as int) =~= e);
        assert((e + behind).skip(e.len() as int) =~= behind);
    }

    proof fn body_fits(p: Pub)
        requires pub_ok(p),
        ensures pub_body(p).len() <= max_remaining(),
    { }

    /// P10: what the encoder wrote for a message, with anything behind it, the decoder reads as that message, and
    /// it leaves exactly what was behind it.
    pub proof fn roundtrip_message(
        m: crate::protocol::publish::Publish, before: Seq<u8>, wire: Seq<u8>, sent: Result<(), std_io::Error>,
        behind: Seq<u8>, rest: Seq<u8>, got: Result<Option<Packet>, std_io::Error>,
    )
        requires
            <MqttCodec as Encoder<Packet>>::encode_pre(Packet::Publish(m)),
            <MqttCodec as Encoder<Packet>>::encode_post(Packet::Publish(m), before, wire, sent),
            sent is Ok,
            is_text(plist(m.properties@)) ==> valid_utf8(m.payload.data()),
            <MqttCodec as Decoder>::decode_post(wire.skip(before.len() as int) + behind, rest, got),
        ensures
            rest == behind,
            got matches Ok(Some(Packet::Publish(n))) && n.pubw() == (Pub { text: is_text(m.pubw().props), ..m.pubw() }),
    {
        hide(frame);
        hide(pub_dec);
        hide(pub_ok);
        hide(pub_body);
        hide(pub_first);
        hide(is_text);
        hide(packet);
        let e = m.enc();
        let p = m.pubw();
        message_ok(m);
        roundtrip_publish(p);
        assert(wire.skip(before.len() as int) =~= e);
        assert(e == packet(pub_first(p), pub_body(p)));
        body_fits(p);
        roundtrip_frame(pub_first(p), pub_body(p), behind);
        received(e, Pub { text: is_text(p.props), ..p }, behind, rest, got);
    }
}

} // verus!
