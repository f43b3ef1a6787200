#fn protocol::<VBI as From<u32>>::from
#ret r
#impl protocol::<VBI as ToMqttBytes>
    open spec fn enc_pre(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { vbi_enc(self.0 as nat) }
#fn protocol::<VBI as ToMqttBytes>::convert_to_mqtt
#attr #[verifier::loop_isolation(false)]
#loop 0
    invariant vec@ + vbi_enc(n as nat) =~= vbi_enc(self.0 as nat),
    decreases n,
#loop-start 0
    assert(vbi_enc(n as nat) =~= if n < 128 { seq![n as u8] } else { seq![((n % 128) + 128) as u8] + vbi_enc((n / 128) as nat) });

#impl protocol::<VBI as FromMqttBytes>
    open spec fn dec_pre(b: Seq<u8>) -> bool { true }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), ConvertError>) -> bool {
        match vbi_dec(b) {
            Vd::Done(v, n) => r is Ok && r->Ok_0.0.0 == v && r->Ok_0.1 == n,
            Vd::Incomplete => r is Err && r->Err_0 is NotEnoughBytes,
            Vd::TooLong => r is Err && (b.len() > 4 ==> !(r->Err_0 is NotEnoughBytes)),
        }
    }
#fn protocol::<VBI as FromMqttBytes>::convert_from_mqtt
#attr #[verifier::loop_isolation(false)]
#loop 0
    invariant
        idx <= 4, idx <= bytes@.len(),
        multiplier == pow128(idx as nat),
        value == vbi_part(bytes@, idx as nat),
        forall|j: int| 0 <= j < idx ==> bytes@[j] >= 128,
    decreases 5 - idx,
#loop-start 0

#super ToMqttBytes VxToMqttBytes
    open spec fn enc_pre(&self) -> bool { false }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { Seq::empty() }
#fn protocol::ToMqttBytes::convert_to_mqtt
#ret r
#spec
    requires self.enc_pre(),
    ensures
        self.enc_ok() ==> r@ == self.enc(),
        !self.enc_ok() ==> r@.len() > 0xffff_ffff,
#super FromMqttBytes VxFromMqttBytes
    open spec fn dec_pre(b: Seq<u8>) -> bool { false }
    open spec fn dec_post(b: Seq<u8>, r: Result<(Self, usize), crate::protocol::ConvertError>) -> bool { true }
#fn protocol::FromMqttBytes::convert_from_mqtt
#ret r
#spec
    requires Self::dec_pre(bytes@),
    ensures Self::dec_post(bytes@, r),
#mod protocol
impl vstd::std_specs::convert::FromSpecImpl<u32> for VBI {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u32) -> Self { VBI(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<VBI> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: VBI) -> Self { v.0 }
}
impl vstd::std_specs::convert::FromSpecImpl<String> for ConvertError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: String) -> Self { ConvertError::Other(s) }
}
impl vstd::std_specs::ops::AddSpecImpl<usize> for VBI {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: usize) -> bool { self.0 + o <= usize::MAX }
    open spec fn add_spec(self, o: usize) -> usize { (self.0 + o) as usize }
}
impl vstd::std_specs::ops::AddSpecImpl<VBI> for usize {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: VBI) -> bool { self + o.0 <= usize::MAX }
    open spec fn add_spec(self, o: VBI) -> usize { (self + o.0) as usize }
}
impl vstd::std_specs::ops::SubSpecImpl<usize> for VBI {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: usize) -> bool { self.0 >= o }
    open spec fn sub_spec(self, o: usize) -> usize { (self.0 - o) as usize }
}
impl vstd::std_specs::ops::SubSpecImpl<VBI> for usize {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: VBI) -> bool { self >= o.0 }
    open spec fn sub_spec(self, o: VBI) -> usize { (self - o.0) as usize }
}
pub open spec fn cmp_u32(a: u32, b: u32) -> Option<std::cmp::Ordering> {
    Some(if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<u32> for VBI {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &u32) -> bool { self.0 == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<u32> for VBI {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &u32) -> Option<std::cmp::Ordering> { cmp_u32(self.0, *o) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<VBI> for u32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VBI) -> bool { *self == o.0 }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<VBI> for u32 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &VBI) -> Option<std::cmp::Ordering> { cmp_u32(*self, o.0) }
}
