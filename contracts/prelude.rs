#![allow(unused_imports, unused_variables, unused_mut, unused_must_use, dead_code, unused_assignments, non_snake_case)]
#![feature(never_type)]
use vstd::prelude::*;

verus! {

global size_of usize == 8;

// ---------------------------------------------------------------------------
// vxm: models of what the crate calls and this verification does not look into.
// Every `external_body` / `assume_specification` here is an assumption and is
// listed in the evidence.
// ---------------------------------------------------------------------------
pub mod vxm {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use vstd::string::StringSliceAdditionalSpecFns;

    // ----- formatting and panics -----

    /// The text `format!("{:?}", x)` gives.
    pub uninterp spec fn debug_text<T>(x: T) -> Seq<char>;

    #[verifier::external_body]
    pub fn vx_debug<T>(x: &T) -> (r: String)
        ensures r@ == debug_text(*x),
    { unimplemented!() }

    /// `Debug` of a reference is `Debug` of what it refers to.
    #[verifier::external_body]
    pub broadcast proof fn ax_debug_ref<T>(x: &T)
        ensures #[trigger] debug_text::<&T>(x) == debug_text::<T>(*x),
    { }

    #[verifier::external_body]
    pub fn vx_string() -> (r: String)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_use<T: ?Sized>(x: &T)
    { }

    #[verifier::external_body]
    pub fn vx_panic() -> !
        requires false,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_assert(b: bool)
        requires b,
    { unimplemented!() }

    // ----- std pieces without a vstd specification -----

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExTryFromSliceError(std::array::TryFromSliceError);

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExUtf8Error(std::str::Utf8Error);

    pub assume_specification [std::str::from_utf8] (b: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
        ensures
            r is Ok <==> valid_utf8(b@),
            r is Ok ==> encode_utf8(r->Ok_0@) == b@;

    pub assume_specification [std::string::String::len] (s: &String) -> (r: usize)
        ensures r == encode_utf8(s@).len(), r <= isize::MAX;

    pub assume_specification [std::string::String::as_bytes] (s: &String) -> (r: &[u8])
        ensures r@ == encode_utf8(s@);

    pub open spec fn seq_cloned<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned::<T>(#[trigger] a[i], b[i])
    }
    pub broadcast proof fn cloned_bytes(a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] seq_cloned(a, b),
        ensures a == b,
    {
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(cloned::<u8>(a[i], b[i])); }
        assert(a =~= b);
    }
    #[verifier::external_body]
    pub broadcast proof fn ax_string_from_str()
        ensures
            #[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec(),
            forall|s: &str| (#[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(s))@ == s@,
    { }

    /// No object is larger than isize::MAX bytes.
    #[verifier::external_body]
    pub broadcast proof fn ax_str_len(s: &str)
        ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX,
    { }

    pub assume_specification<T: Clone> [<[T] as std::borrow::ToOwned>::to_owned] (s: &[T]) -> (r: Vec<T>)
        ensures seq_cloned(s@, r@);

    pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
        ensures seq_cloned(s@, r@);

    pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
        ensures r == *old(a), *final(a) == b;

    pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
        ensures r == (match o { Some(x) => Some(*x), None => None });

    pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
        ensures r == (if o is Some { o } else { p });

    pub assume_specification<T, U> [Option::<T>::and::<U>] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
        ensures r == (if o is Some { p } else { None });

    pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
        ensures r == *old(o), *final(o) == Some(v);

    pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, v: T) -> (r: T)
        ensures r == (if o is Ok { o->Ok_0 } else { v });

    pub assume_specification [std::string::String::into_bytes] (s: String) -> (r: Vec<u8>)
        ensures r@ == encode_utf8(s@);

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExFromUtf8Error(std::string::FromUtf8Error);

    pub assume_specification [std::string::String::from_utf8] (b: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
        ensures
            r is Ok <==> valid_utf8(b@),
            r is Ok ==> encode_utf8(r->Ok_0@) == b@;

    /// No object is larger than isize::MAX bytes.
    #[verifier::external_body]
    pub broadcast proof fn ax_vec_len(v: &Vec<u8>)
        ensures #[trigger] vstd::std_specs::vec::spec_vec_len(v) <= isize::MAX,
    { }

    // `extend` with bytes
    pub trait VxBytes: Sized {
        spec fn bytes(self) -> Seq<u8>;
    }
    impl VxBytes for Vec<u8> { open spec fn bytes(self) -> Seq<u8> { self@ } }
    impl<'a> VxBytes for &'a Vec<u8> { open spec fn bytes(self) -> Seq<u8> { self@ } }
    impl<'a> VxBytes for &'a [u8] { open spec fn bytes(self) -> Seq<u8> { self@ } }
    impl<'a, 'b> VxBytes for &'b &'a [u8] { open spec fn bytes(self) -> Seq<u8> { self@ } }
    impl<const N: usize> VxBytes for [u8; N] { open spec fn bytes(self) -> Seq<u8> { self@ } }
    impl<'a, const N: usize> VxBytes for &'a [u8; N] { open spec fn bytes(self) -> Seq<u8> { self@ } }
    pub trait VxExtend {
        spec fn grown(&self) -> Seq<u8>;
        fn vx_extend<B: VxBytes>(&mut self, b: B)
            ensures final(self).grown() == old(self).grown() + b.bytes();
    }
    impl VxExtend for Vec<u8> {
        open spec fn grown(&self) -> Seq<u8> { self@ }
        #[verifier::external_body] fn vx_extend<B: VxBytes>(&mut self, b: B) { unimplemented!() }
    }

    // what `BytesMut` has besides what `Vec<u8>` has
    pub trait VxBuf: Sized {
        spec fn held(&self) -> Seq<u8>;
        fn split_to(&mut self, n: usize) -> (r: Self)
            requires n <= old(self).held().len(),
            ensures r.held() == old(self).held().take(n as int), final(self).held() == old(self).held().skip(n as int);
        fn split(&mut self) -> (r: Self)
            ensures r.held() == old(self).held(), final(self).held().len() == 0;
        fn freeze(self) -> (r: Self)
            ensures r.held() == self.held();
        fn remaining(&self) -> (r: usize)
            ensures r == self.held().len();
        fn has_remaining(&self) -> (r: bool)
            ensures r == (self.held().len() > 0);
    }
    impl VxBuf for Vec<u8> {
        open spec fn held(&self) -> Seq<u8> { self@ }
        #[verifier::external_body] fn split_to(&mut self, n: usize) -> Self { unimplemented!() }
        #[verifier::external_body] fn split(&mut self) -> Self { unimplemented!() }
        #[verifier::external_body] fn freeze(self) -> Self { unimplemented!() }
        #[verifier::external_body] fn remaining(&self) -> usize { unimplemented!() }
        #[verifier::external_body] fn has_remaining(&self) -> bool { unimplemented!() }
    }

    // big-endian conversions
    pub open spec fn be16(n: nat) -> Seq<u8> { seq![(n / 256) as u8, (n % 256) as u8] }
    pub open spec fn be32(n: nat) -> Seq<u8> { seq![(n / 16777216) as u8, (n / 65536 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8] }
    pub open spec fn be16_val(b: Seq<u8>) -> nat { (b[0] as nat) * 256 + b[1] as nat }
    pub open spec fn be32_val(b: Seq<u8>) -> nat { (b[0] as nat) * 16777216 + (b[1] as nat) * 65536 + (b[2] as nat) * 256 + b[3] as nat }

    pub trait VxBe<const N: usize>: Sized {
        spec fn be(&self) -> Seq<u8>;
        fn vx_to_be_bytes(self) -> (r: [u8; N])
            ensures r@ == self.be();
    }
    impl VxBe<1> for u8 {
        open spec fn be(&self) -> Seq<u8> { seq![*self] }
        #[verifier::external_body] fn vx_to_be_bytes(self) -> [u8; 1] { self.to_be_bytes() }
    }
    impl VxBe<2> for u16 {
        open spec fn be(&self) -> Seq<u8> { be16(*self as nat) }
        #[verifier::external_body] fn vx_to_be_bytes(self) -> [u8; 2] { self.to_be_bytes() }
    }
    impl VxBe<4> for u32 {
        open spec fn be(&self) -> Seq<u8> { be32(*self as nat) }
        #[verifier::external_body] fn vx_to_be_bytes(self) -> [u8; 4] { self.to_be_bytes() }
    }
    #[verifier::external_body]
    pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16)
        ensures r == be16_val(b@),
    { u16::from_be_bytes(b) }
    #[verifier::external_body]
    pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32)
        ensures r == be32_val(b@),
    { u32::from_be_bytes(b) }

    // operands of bit operations
    pub trait VxVal: Sized {
        type VxOut;
        spec fn val(self) -> Self::VxOut;
        fn vx_val(self) -> (r: Self::VxOut)
            ensures r == self.val();
    }
    impl VxVal for u8 {
        type VxOut = u8;
        open spec fn val(self) -> u8 { self }
        fn vx_val(self) -> u8 { self }
    }
    impl<'a> VxVal for &'a u8 {
        type VxOut = u8;
        open spec fn val(self) -> u8 { *self }
        fn vx_val(self) -> u8 { *self }
    }
    impl VxVal for u16 {
        type VxOut = u16;
        open spec fn val(self) -> u16 { self }
        fn vx_val(self) -> u16 { self }
    }
    impl<'a> VxVal for &'a u16 {
        type VxOut = u16;
        open spec fn val(self) -> u16 { *self }
        fn vx_val(self) -> u16 { *self }
    }
    impl VxVal for u32 {
        type VxOut = u32;
        open spec fn val(self) -> u32 { self }
        fn vx_val(self) -> u32 { self }
    }
    impl<'a> VxVal for &'a u32 {
        type VxOut = u32;
        open spec fn val(self) -> u32 { *self }
        fn vx_val(self) -> u32 { *self }
    }
    impl VxVal for u64 {
        type VxOut = u64;
        open spec fn val(self) -> u64 { self }
        fn vx_val(self) -> u64 { self }
    }
    impl<'a> VxVal for &'a u64 {
        type VxOut = u64;
        open spec fn val(self) -> u64 { *self }
        fn vx_val(self) -> u64 { *self }
    }
    impl VxVal for usize {
        type VxOut = usize;
        open spec fn val(self) -> usize { self }
        fn vx_val(self) -> usize { self }
    }
    impl<'a> VxVal for &'a usize {
        type VxOut = usize;
        open spec fn val(self) -> usize { *self }
        fn vx_val(self) -> usize { *self }
    }
    impl VxVal for bool {
        type VxOut = bool;
        open spec fn val(self) -> bool { self }
        fn vx_val(self) -> bool { self }
    }
    impl<'a> VxVal for &'a bool {
        type VxOut = bool;
        open spec fn val(self) -> bool { *self }
        fn vx_val(self) -> bool { *self }
    }

    // std::convert::{TryFrom, TryInto}
    pub mod convert {
        use vstd::prelude::*;
        pub use std::convert::{From, Into, AsRef, Infallible};
        pub trait TryFrom<V>: Sized {
            type Error;
            spec fn tf_post(v: V, r: Result<Self, Self::Error>) -> bool;
            fn try_from(v: V) -> (r: Result<Self, Self::Error>)
                ensures Self::tf_post(v, r);
        }
        pub trait TryInto<T>: Sized {
            type VxError;
            spec fn ti_post(self, r: Result<T, Self::VxError>) -> bool;
            fn try_into(self) -> (r: Result<T, Self::VxError>)
                ensures self.ti_post(r);
        }
        impl<V, T: TryFrom<V>> TryInto<T> for V {
            type VxError = T::Error;
            open spec fn ti_post(self, r: Result<T, T::Error>) -> bool { T::tf_post(self, r) }
            fn try_into(self) -> (r: Result<T, T::Error>) { T::try_from(self) }
        }
        impl<'a, const N: usize> TryFrom<&'a [u8]> for [u8; N] {
            type Error = std::array::TryFromSliceError;
            open spec fn tf_post(v: &'a [u8], r: Result<[u8; N], std::array::TryFromSliceError>) -> bool {
                &&& (r is Ok <==> v@.len() == N)
                &&& (r is Ok ==> r->Ok_0@ == v@)
            }
            #[verifier::external_body]
            fn try_from(v: &'a [u8]) -> (r: Result<[u8; N], std::array::TryFromSliceError>) { unimplemented!() }
        }
        impl TryFrom<u16> for std::num::NonZeroU16 {
            type Error = ();
            open spec fn tf_post(v: u16, r: Result<std::num::NonZeroU16, ()>) -> bool {
                &&& (r is Ok <==> v != 0)
                &&& (r is Ok ==> r->Ok_0@ == v)
            }
            #[verifier::external_body]
            fn try_from(v: u16) -> (r: Result<std::num::NonZeroU16, ()>) { unimplemented!() }
        }
        impl TryFrom<u16> for u8 {
            type Error = ();
            open spec fn tf_post(v: u16, r: Result<u8, ()>) -> bool {
                &&& (r is Ok <==> v <= u8::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u16) -> (r: Result<u8, ()>) { unimplemented!() }
        }
        impl TryFrom<u16> for u32 {
            type Error = ();
            open spec fn tf_post(v: u16, r: Result<u32, ()>) -> bool {
                &&& (r is Ok <==> v <= u32::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u16) -> (r: Result<u32, ()>) { unimplemented!() }
        }
        impl TryFrom<u16> for usize {
            type Error = ();
            open spec fn tf_post(v: u16, r: Result<usize, ()>) -> bool {
                &&& (r is Ok <==> v <= usize::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u16) -> (r: Result<usize, ()>) { unimplemented!() }
        }
        impl TryFrom<u32> for u8 {
            type Error = ();
            open spec fn tf_post(v: u32, r: Result<u8, ()>) -> bool {
                &&& (r is Ok <==> v <= u8::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u32) -> (r: Result<u8, ()>) { unimplemented!() }
        }
        impl TryFrom<u32> for u16 {
            type Error = ();
            open spec fn tf_post(v: u32, r: Result<u16, ()>) -> bool {
                &&& (r is Ok <==> v <= u16::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u32) -> (r: Result<u16, ()>) { unimplemented!() }
        }
        impl TryFrom<u32> for usize {
            type Error = ();
            open spec fn tf_post(v: u32, r: Result<usize, ()>) -> bool {
                &&& (r is Ok <==> v <= usize::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u32) -> (r: Result<usize, ()>) { unimplemented!() }
        }
        impl TryFrom<u64> for u8 {
            type Error = ();
            open spec fn tf_post(v: u64, r: Result<u8, ()>) -> bool {
                &&& (r is Ok <==> v <= u8::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u64) -> (r: Result<u8, ()>) { unimplemented!() }
        }
        impl TryFrom<u64> for u16 {
            type Error = ();
            open spec fn tf_post(v: u64, r: Result<u16, ()>) -> bool {
                &&& (r is Ok <==> v <= u16::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u64) -> (r: Result<u16, ()>) { unimplemented!() }
        }
        impl TryFrom<u64> for u32 {
            type Error = ();
            open spec fn tf_post(v: u64, r: Result<u32, ()>) -> bool {
                &&& (r is Ok <==> v <= u32::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u64) -> (r: Result<u32, ()>) { unimplemented!() }
        }
        impl TryFrom<u64> for usize {
            type Error = ();
            open spec fn tf_post(v: u64, r: Result<usize, ()>) -> bool {
                &&& (r is Ok <==> v <= usize::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: u64) -> (r: Result<usize, ()>) { unimplemented!() }
        }
        impl TryFrom<usize> for u8 {
            type Error = ();
            open spec fn tf_post(v: usize, r: Result<u8, ()>) -> bool {
                &&& (r is Ok <==> v <= u8::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: usize) -> (r: Result<u8, ()>) { unimplemented!() }
        }
        impl TryFrom<usize> for u16 {
            type Error = ();
            open spec fn tf_post(v: usize, r: Result<u16, ()>) -> bool {
                &&& (r is Ok <==> v <= u16::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: usize) -> (r: Result<u16, ()>) { unimplemented!() }
        }
        impl TryFrom<usize> for u32 {
            type Error = ();
            open spec fn tf_post(v: usize, r: Result<u32, ()>) -> bool {
                &&& (r is Ok <==> v <= u32::MAX)
                &&& (r is Ok ==> r->Ok_0 == v)
            }
            #[verifier::external_body]
            fn try_from(v: usize) -> (r: Result<u32, ()>) { unimplemented!() }
        }
    }

    // ranges
    pub assume_specification<Idx> [std::ops::RangeInclusive::<Idx>::start] (r: &std::ops::RangeInclusive<Idx>) -> (o: &Idx)
        ensures *o == r@.start;
    pub assume_specification<Idx> [std::ops::RangeInclusive::<Idx>::end] (r: &std::ops::RangeInclusive<Idx>) -> (o: &Idx)
        ensures *o == r@.end;

    // ----- std::io -----
    pub mod std_io {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Error { k: u8 }
        pub type Result<T> = std::result::Result<T, Error>;
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub enum ErrorKind {
            NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected,
            AddrInUse, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero,
            Interrupted, Other, UnexpectedEof, Unsupported, OutOfMemory,
        }
        impl Error {
            pub uninterp spec fn spec_kind(&self) -> ErrorKind;
            #[verifier::external_body]
            pub fn new<E>(kind: ErrorKind, e: E) -> (r: Error)
                ensures r.spec_kind() == kind,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn other<E>(e: E) -> (r: Error)
                ensures r.spec_kind() == ErrorKind::Other,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn kind(&self) -> (r: ErrorKind)
                ensures r == self.spec_kind(),
            { unimplemented!() }
        }
    }

    // ----- bytes: a buffer is the sequence of its unread bytes -----
    pub mod bytes {
        use vstd::prelude::*;
        pub type BytesMut = Vec<u8>;
        pub trait Buf {
            spec fn buf(&self) -> Seq<u8>;
            fn advance(&mut self, n: usize)
                requires n <= old(self).buf().len(),
                ensures final(self).buf() == old(self).buf().skip(n as int);
        }
        impl Buf for Vec<u8> {
            open spec fn buf(&self) -> Seq<u8> { self@ }
            #[verifier::external_body]
            fn advance(&mut self, n: usize) { unimplemented!() }
        }
        pub trait BufMut {
            spec fn bufm(&self) -> Seq<u8>;
            fn put_u8(&mut self, n: u8) ensures final(self).bufm() == old(self).bufm().push(n);
            fn put_u16(&mut self, n: u16) ensures final(self).bufm() == old(self).bufm() + crate::vxm::be16(n as nat);
            fn put_u32(&mut self, n: u32) ensures final(self).bufm() == old(self).bufm() + crate::vxm::be32(n as nat);
            fn put_slice(&mut self, n: &[u8]) ensures final(self).bufm() == old(self).bufm() + n@;
        }
        impl BufMut for Vec<u8> {
            open spec fn bufm(&self) -> Seq<u8> { self@ }
            #[verifier::external_body] fn put_u8(&mut self, n: u8) { unimplemented!() }
            #[verifier::external_body] fn put_u16(&mut self, n: u16) { unimplemented!() }
            #[verifier::external_body] fn put_u32(&mut self, n: u32) { unimplemented!() }
            #[verifier::external_body] fn put_slice(&mut self, n: &[u8]) { unimplemented!() }
        }
    }

    // ----- anyhow -----
    pub mod anyhow {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Error { k: u8 }
        pub type Result<T, E = Error> = std::result::Result<T, E>;
        impl Error {
            #[verifier::external_body]
            pub fn msg<M>(m: M) -> Error { unimplemented!() }
        }
        impl From<crate::vxm::std_io::Error> for Error {
            #[verifier::external_body]
            fn from(e: crate::vxm::std_io::Error) -> Error { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn vx_anyhow() -> Error { unimplemented!() }
        pub fn anyhow() { }
        pub trait Context<T>: Sized {
            spec fn ctx_post(self, r: std::result::Result<T, Error>) -> bool;
            fn with_context<C, F: FnOnce() -> C>(self, f: F) -> (r: std::result::Result<T, Error>)
                ensures self.ctx_post(r);
            fn context<C>(self, c: C) -> (r: std::result::Result<T, Error>)
                ensures self.ctx_post(r);
        }
        impl<T, E> Context<T> for std::result::Result<T, E> {
            open spec fn ctx_post(self, r: std::result::Result<T, Error>) -> bool {
                &&& (r is Ok <==> self is Ok)
                &&& (r is Ok ==> r->Ok_0 == self->Ok_0)
            }
            #[verifier::external_body]
            fn with_context<C, F: FnOnce() -> C>(self, f: F) -> std::result::Result<T, Error> { unimplemented!() }
            #[verifier::external_body]
            fn context<C>(self, c: C) -> std::result::Result<T, Error> { unimplemented!() }
        }
    }

    // ----- select! -----
    /// What a branch of a `select!` can wait for.
    pub trait VxSource { spec fn src() -> u8; }
    impl VxSource for tokio::time::Interval { open spec fn src() -> u8 { 1 } }
    impl<R, C> VxSource for tokio_util::codec::FramedRead<R, C> { open spec fn src() -> u8 { 2 } }
    impl<T> VxSource for futures::channel::mpsc::Receiver<T> { open spec fn src() -> u8 { 3 } }
    #[verifier::external_body]
    pub fn vx_src<S: VxSource>(s: &S) -> (r: u8)
        ensures r == S::src(),
    { unimplemented!() }
    pub open spec fn waits_for(enabled: Seq<bool>, src: Seq<u8>, k: u8) -> bool {
        exists|i: int| 0 <= i < enabled.len() && #[trigger] enabled[i] && src[i] == k
    }
    /// One enabled branch of a `select!`; a `select!` whose branches are all disabled panics.
    #[verifier::external_body]
    pub fn vx_select<const N: usize>(enabled: [bool; N], src: [u8; N], fair: bool, Tracked(w): Tracked<&mut World>) -> (r: usize)
        requires exists|i: int| 0 <= i < N && #[trigger] enabled@[i],
        ensures
            r < N, enabled@[r as int],
            final(w).t == old(w).t.push(Ev::Wait { tick: waits_for(enabled@, src@, 1), read: waits_for(enabled@, src@, 2), cmd: waits_for(enabled@, src@, 3), fair }),
    { unimplemented!() }

    // ----- the outside world of a session: what happened, in order -----
    pub enum Ev {
        /// a packet handed to the socket writer, accepted
        Sent(crate::protocol::Packet),
        /// a packet handed to the socket writer, which failed
        SendFailed(crate::protocol::Packet),
        /// a packet that waits in the socket writer's buffer
        Held(crate::protocol::Packet),
        /// what the socket reader gave
        Recv(Option<Result<crate::protocol::Packet, std_io::Error>>),
        /// a notification handed to the application's channel (accepted, or dropped as the receiver is gone)
        Notified(crate::client::Notification),
        /// what the command channel gave
        Cmd(Option<crate::Command>),
        /// the ping timer fired; its period, seconds from its creation to the first firing, and whether it leaves
        /// the period between any two firings however late the first of them was
        Tick { first: nat, period: nat, spaced: bool },
        /// a `select!`: what its enabled branches wait for, and whether it picks any ready one with the same probability
        Wait { tick: bool, read: bool, cmd: bool, fair: bool },
    }

    pub struct World {
        pub ghost t: Seq<Ev>,
    }

    pub open spec fn flushed(t: Seq<Ev>, ok: bool) -> Seq<Ev> {
        if t.len() > 0 && t.last() is Held {
            t.drop_last().push(if ok { Ev::Sent(t.last()->Held_0) } else { Ev::SendFailed(t.last()->Held_0) })
        } else { t }
    }
    pub broadcast proof fn flush_last(t: Seq<Ev>, p: crate::protocol::Packet, ok: bool)
        ensures #[trigger] flushed(t.push(Ev::Held(p)), ok) == t.push(if ok { Ev::Sent(p) } else { Ev::SendFailed(p) }),
    {
        assert(t.push(Ev::Held(p)).drop_last() =~= t);
    }

    pub mod task {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Context<'a> { k: &'a u8 }
        pub enum Poll<T> { Ready(T), Pending }
        impl<T> Poll<T> {
            pub fn is_ready(&self) -> (r: bool)
                ensures r == (self is Ready),
            { match self { Poll::Ready(_) => true, Poll::Pending => false } }
            pub fn is_pending(&self) -> (r: bool)
                ensures r == (self is Pending),
            { match self { Poll::Ready(_) => false, Poll::Pending => true } }
        }
    }

    /// What a session works on.
    pub struct Session {
        pub read: tokio::net::tcp::OwnedReadHalf,
        pub write: tokio::net::tcp::OwnedWriteHalf,
        pub commands: int,
        pub notifications: int,
    }
    /// The future of an async function of the crate, boxed or not; only its session, and how it was polled, matters.
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Async<T> { t: Option<T> }
    impl<T> Async<T> {
        pub uninterp spec fn session(self) -> Option<Session>;
        /// what its polls gave, in order
        pub uninterp spec fn polls(self) -> Seq<task::Poll<T>>;
    }
    impl<T> futures::Future for Async<T> {
        type Output = T;
        open spec fn poll_pre(self) -> bool { self.polls().len() == 0 || self.polls().last() is Pending }
        open spec fn poll_post(old: Self, new: Self, r: task::Poll<T>) -> bool { new.polls() == old.polls().push(r) && new.session() == old.session() }
        #[verifier::external_body]
        fn poll(&mut self, cx: &mut task::Context<'_>) -> (r: task::Poll<T>) { unimplemented!() }
    }
    pub uninterp spec fn owned_of<T: ToOwned>(t: T) -> T::Owned;
    #[verifier::external_body]
    pub fn vx_to_owned<T: ToOwned>(t: &T) -> (r: T::Owned)
        ensures r == owned_of(*t),
    { unimplemented!() }

    pub mod futures {
        use vstd::prelude::*;
        use crate::vxm::task::{Context, Poll};
        /// A future, as its polls are seen: what holds before one, and what one does.
        pub trait Future: Sized {
            type Output;
            /// it may be polled (a future that gave its result may not)
            spec fn poll_pre(self) -> bool;
            spec fn poll_post(old: Self, new: Self, r: Poll<Self::Output>) -> bool;
            fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<Self::Output>)
                requires old(self).poll_pre(),
                ensures
                    Self::poll_post(*old(self), *final(self), r),
                    r is Pending ==> final(self).poll_pre();
        }
        pub trait SinkExt { }
        pub trait StreamExt { }
        pub mod channel { pub mod mpsc {
            use vstd::prelude::*;
            use crate::vxm::{Ev, World};
            #[verifier::external_body]
            pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>))
                ensures r.0.chan() == r.1.chan(),
            { unimplemented!() }
            pub struct SendError { pub k: u8 }
            #[verifier::external_body]
            #[verifier::reject_recursive_types(T)]
            pub struct TrySendError<T> { t: T }
            impl<T> TrySendError<T> {
                #[verifier::external_body]
                pub fn is_full(&self) -> bool { unimplemented!() }
                #[verifier::external_body]
                pub fn is_disconnected(&self) -> bool { unimplemented!() }
            }
            #[verifier::external_body]
            pub struct TryRecvError { k: u8 }
            /// What may travel on a channel: the sender shows `valid`, the receiver may rely on it.
            pub trait Item: Sized {
                spec fn valid(self) -> bool;
                spec fn sent_ev(self) -> Ev;
                spec fn recv_ev(x: Option<Self>) -> Ev;
            }
            impl Item for crate::Command {
                open spec fn valid(self) -> bool { crate::vxs::valid_command(self) }
                open spec fn sent_ev(self) -> Ev { Ev::Cmd(Some(self)) }
                open spec fn recv_ev(x: Option<Self>) -> Ev { Ev::Cmd(x) }
            }
            impl Item for crate::client::Notification {
                open spec fn valid(self) -> bool { true }
                open spec fn sent_ev(self) -> Ev { Ev::Notified(self) }
                open spec fn recv_ev(x: Option<Self>) -> Ev { Ev::Notified(x->0) }
            }
            #[verifier::external_body]
            #[verifier::reject_recursive_types(T)]
            pub struct Sender<T> { t: Option<T> }
            impl<T> Clone for Sender<T> {
                #[verifier::external_body]
                fn clone(&self) -> (r: Self)
                    ensures r.chan() == self.chan(),
                { unimplemented!() }
            }
            impl<T> Sender<T> {
                /// which channel it belongs to
                pub uninterp spec fn chan(&self) -> int;
            }
            impl<T> Receiver<T> {
                pub uninterp spec fn chan(&self) -> int;
            }
            impl<T: Item> Sender<T> {
                /// everything this sender put on the channel
                pub uninterp spec fn log(&self) -> Seq<T>;
                /// how often the channel refused what this sender offered (it was full, or its receiver gone)
                pub uninterp spec fn refusals(&self) -> nat;
                #[verifier::external_body]
                pub fn try_send(&mut self, x: T) -> (r: Result<(), TrySendError<T>>)
                    requires x.valid(),
                    ensures
                        r is Ok ==> final(self).log() == old(self).log().push(x) && final(self).refusals() == old(self).refusals(),
                        r is Err ==> final(self).log() == old(self).log() && final(self).refusals() == old(self).refusals() + 1,
                { unimplemented!() }
                #[verifier::external_body]
                pub fn is_closed(&self) -> bool { unimplemented!() }
                #[verifier::external_body]
                pub fn send(&mut self, x: T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendError>)
                    requires x.valid(),
                    ensures final(w).t == old(w).t.push(x.sent_ev()),
                { unimplemented!() }
            }
            #[verifier::external_body]
            #[verifier::reject_recursive_types(T)]
            pub struct Receiver<T> { t: Option<T> }
            impl<T: Item> Receiver<T> {
                #[verifier::external_body]
                pub fn next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<T>)
                    requires
                        // a futures channel panics when polled after its end
                        !old(w).t.contains(T::recv_ev(None)),
                    ensures
                        final(w).t == old(w).t.push(T::recv_ev(r)),
                        r is Some ==> r->0.valid(),
                { unimplemented!() }
                #[verifier::external_body]
                pub fn try_next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<T>, TryRecvError>)
                    requires !old(w).t.contains(T::recv_ev(None)),
                    ensures
                        r matches Ok(x) ==> final(w).t == old(w).t.push(T::recv_ev(x)),
                        r is Err ==> final(w).t == old(w).t,
                        r matches Ok(Some(x)) ==> x.valid(),
                { unimplemented!() }
            }
        } }
    }

    pub mod tokio {
        pub mod net {
            use vstd::prelude::*;
            use crate::vxm::{std_io, task};
            #[verifier::external_body]
            pub struct TcpStream { k: u8 }
            impl TcpStream {
                #[verifier::external_body]
                pub fn into_split(self) -> (r: (tcp::OwnedReadHalf, tcp::OwnedWriteHalf))
                    ensures r.0.stream() == self, r.1.stream() == self,
                { unimplemented!() }
                /// Connects when it is polled, and not before.
                #[verifier::external_body]
                pub fn connect<A>(a: A) -> (r: Connect<A>)
                    ensures r.address() == a, r.fresh(),
                { unimplemented!() }
            }
            #[verifier::external_body]
            #[verifier::accept_recursive_types(A)]
            pub struct Connect<A> { a: Option<A> }
            impl<A> Connect<A> {
                pub uninterp spec fn address(self) -> A;
                pub uninterp spec fn fresh(self) -> bool;
                pub uninterp spec fn over(self) -> bool;
            }
            impl<A> crate::vxm::futures::Future for Connect<A> {
                type Output = std::result::Result<TcpStream, std_io::Error>;
                open spec fn poll_pre(self) -> bool { self.fresh() || !self.over() }
                uninterp spec fn poll_post(old: Self, new: Self, r: task::Poll<std::result::Result<TcpStream, std_io::Error>>) -> bool;
                #[verifier::external_body]
                fn poll(&mut self, cx: &mut task::Context<'_>) -> (r: task::Poll<std::result::Result<TcpStream, std_io::Error>>) { unimplemented!() }
            }
            pub trait ToSocketAddrs { }
            pub mod tcp {
                use vstd::prelude::*;
                use super::TcpStream;
                #[verifier::external_body]
                pub struct OwnedReadHalf { k: u8 }
                #[verifier::external_body]
                pub struct OwnedWriteHalf { k: u8 }
                impl OwnedReadHalf { pub uninterp spec fn stream(&self) -> TcpStream; }
                impl OwnedWriteHalf { pub uninterp spec fn stream(&self) -> TcpStream; }
            }
        }
        pub mod time {
            use vstd::prelude::*;
            use crate::vxm::{Ev, World};
            #[verifier::external_body]
            #[derive(Clone, Copy)]
            pub struct Duration { k: u64 }
            impl Duration {
                /// whole seconds
                pub uninterp spec fn secs(&self) -> nat;
                #[verifier::external_body]
                pub fn from_secs(s: u64) -> (r: Duration)
                    ensures r.secs() == s,
                { unimplemented!() }
                #[verifier::external_body]
                pub fn from_millis(s: u64) -> (r: Duration)
                    ensures s % 1000 == 0 ==> r.secs() == s / 1000,
                { unimplemented!() }
            }
            #[verifier::external_body]
            #[derive(Clone, Copy)]
            pub struct Instant { k: u64 }
            impl Instant {
                /// seconds from the moment this line of code runs
                pub uninterp spec fn from_now(&self) -> nat;
                #[verifier::external_body]
                pub fn now() -> (r: Instant)
                    ensures r.from_now() == 0,
                { unimplemented!() }
            }
            impl std::ops::Add<Duration> for Instant {
                type Output = Instant;
                #[verifier::external_body]
                fn add(self, d: Duration) -> Instant { unimplemented!() }
            }
            pub uninterp spec fn instant_plus(i: Instant, d: Duration) -> Instant;
            impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
                open spec fn obeys_add_spec() -> bool { true }
                open spec fn add_req(self, d: Duration) -> bool { true }
                open spec fn add_spec(self, d: Duration) -> Instant { instant_plus(self, d) }
            }
            #[verifier::external_body]
            pub broadcast proof fn ax_instant_plus(i: Instant, d: Duration)
                ensures (#[trigger] instant_plus(i, d)).from_now() == i.from_now() + d.secs(),
            { }
            /// Time passes and nothing else is looked at.
            #[verifier::external_body]
            pub fn sleep(d: Duration, Tracked(w): Tracked<&mut World>)
                ensures final(w).t == old(w).t.push(Ev::Wait { tick: false, read: false, cmd: false, fair: false }),
            { unimplemented!() }
            pub mod error {
                pub struct Elapsed { }
            }
            /// whether a time limit runs out
            #[verifier::external_body]
            pub fn vx_elapsed(d: Duration) -> bool { unimplemented!() }
            #[verifier::external_body]
            pub struct Interval { k: u8 }
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum MissedTickBehavior { Burst, Delay, Skip }
            impl Interval {
                pub uninterp spec fn first(&self) -> nat;
                pub uninterp spec fn period(&self) -> nat;
                /// it has not fired yet
                pub uninterp spec fn fresh(&self) -> bool;
                pub uninterp spec fn missed(&self) -> MissedTickBehavior;
                /// the next firing is not sooner than a period after the last one
                pub open spec fn spaced(&self) -> bool { self.fresh() || self.missed() == MissedTickBehavior::Delay }
                #[verifier::external_body]
                pub fn tick(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Instant)
                    ensures
                        final(w).t == old(w).t.push(Ev::Tick { first: old(self).first(), period: old(self).period(), spaced: old(self).spaced() }),
                        final(self).first() == old(self).first(),
                        final(self).period() == old(self).period(),
                        !final(self).fresh(), final(self).missed() == old(self).missed(),
                { unimplemented!() }
                #[verifier::external_body]
                pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior)
                    ensures
                        final(self).first() == old(self).first(),
                        final(self).period() == old(self).period(),
                        final(self).fresh() == old(self).fresh(), final(self).missed() == b,
                { unimplemented!() }
            }
            #[verifier::external_body]
            pub fn interval_at(start: Instant, period: Duration) -> (r: Interval)
                requires period.secs() > 0,
                ensures r.first() == start.from_now(), r.period() == period.secs(), r.fresh(), r.missed() == MissedTickBehavior::Burst,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn interval(period: Duration) -> (r: Interval)
                requires period.secs() > 0,
                ensures r.first() == 0, r.period() == period.secs(), r.fresh(), r.missed() == MissedTickBehavior::Burst,
            { unimplemented!() }
        }
    }

    pub mod tokio_util { pub mod codec {
        use vstd::prelude::*;
        use crate::vxm::{Ev, World, std_io};
        use crate::protocol::Packet;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(R)]
        #[verifier::reject_recursive_types(C)]
        pub struct FramedRead<R, C> { r: R, c: C }
        impl<R, C> FramedRead<R, C> {
            pub uninterp spec fn half(&self) -> R;
            #[verifier::external_body]
            pub fn new(r: R, c: C) -> (f: FramedRead<R, C>)
                ensures f.half() == r,
            { unimplemented!() }
            /// The frames are what the codec's decoder returns, see `crate::vxs::valid_incoming`.
            #[verifier::external_body]
            pub fn next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<Result<Packet, std_io::Error>>)
                requires !old(w).t.contains(Ev::Recv(None)),
                ensures
                    final(w).t == old(w).t.push(Ev::Recv(r)),
                    r matches Some(Ok(p)) ==> crate::vxs::valid_incoming(p),
            { unimplemented!() }
        }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(R)]
        #[verifier::reject_recursive_types(C)]
        pub struct FramedWrite<R, C> { r: R, c: C }
        impl<R, C> FramedWrite<R, C> {
            pub uninterp spec fn half(&self) -> R;
            #[verifier::external_body]
            pub fn new(r: R, c: C) -> (f: FramedWrite<R, C>)
                ensures f.half() == r,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn send(&mut self, p: Packet, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std_io::Error>)
                requires crate::vxs::valid_outgoing(p),
                ensures
                    r is Ok ==> final(w).t == old(w).t.push(Ev::Sent(p)),
                    r is Err ==> final(w).t == old(w).t.push(Ev::SendFailed(p)),
            { unimplemented!() }
            /// Only the packet put in last is known to leave the buffer with the next flush: what was held before stays so here.
            #[verifier::external_body]
            pub fn feed(&mut self, p: Packet, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std_io::Error>)
                requires crate::vxs::valid_outgoing(p),
                ensures
                    r is Ok ==> final(w).t == old(w).t.push(Ev::Held(p)),
                    r is Err ==> final(w).t == old(w).t.push(Ev::SendFailed(p)),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std_io::Error>)
                ensures
                    final(w).t == crate::vxm::flushed(old(w).t, r is Ok),
            { unimplemented!() }
        }
        pub trait Decoder {
            type Item;
            type Error;
            spec fn decode_post(old_src: Seq<u8>, new_src: Seq<u8>, r: Result<Option<Self::Item>, Self::Error>) -> bool;
            fn decode(&mut self, src: &mut Vec<u8>) -> (r: Result<Option<Self::Item>, Self::Error>)
                ensures Self::decode_post(old(src)@, final(src)@, r);
        }
        pub trait Encoder<Item> {
            type Error;
            spec fn encode_pre(item: Item) -> bool;
            spec fn encode_post(item: Item, old_dst: Seq<u8>, new_dst: Seq<u8>, r: Result<(), Self::Error>) -> bool;
            fn encode(&mut self, item: Item, dst: &mut Vec<u8>) -> (r: Result<(), Self::Error>)
                requires Self::encode_pre(item),
                ensures Self::encode_post(item, old(dst)@, final(dst)@, r);
        }
    } }
}

} // verus!
