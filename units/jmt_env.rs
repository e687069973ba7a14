// what the jellyfish Merkle tree relies on: SHA-256, hashers, error values
//@common $id_it.next().ok_or_else(|| rt_err())? ==> (match $id_it.next() { Some(rt_x) => rt_x, None => return Err(rt_err()) })
verus! {
#[allow(unused_imports)]
pub use vstd::std_specs::iter::IteratorSpec;
pub struct Error { }
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub fn rt_err() -> Error { Error { } }
// ---- SHA-256
pub uninterp spec fn sha(b: Seq<u8>) -> Seq<u8>;
// the byte strings hashed so far, by this program or by those whose hashes it is given
pub uninterp spec fn hashed(b: Seq<u8>) -> bool;
pub open spec fn ph() -> Seq<u8> { SPARSE_MERKLE_PLACEHOLDER_HASH_v() }
// the cryptographic assumptions: no two strings that were ever hashed collide, and none hashes to the placeholder
#[verifier::external_body]
pub proof fn axiom_sha_no_collision(a: Seq<u8>, b: Seq<u8>)
    requires hashed(a), hashed(b), sha(a) == sha(b),
    ensures a == b,
{ }
#[verifier::external_body]
pub proof fn axiom_sha_no_placeholder(a: Seq<u8>)
    requires hashed(a),
    ensures sha(a) != ph(),
{ }
#[verifier::external_body]
pub proof fn axiom_sha_len(b: Seq<u8>)
    ensures sha(b).len() == 32,
{ }
pub trait RtBytes { spec fn rb(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.rb(); }
impl RtBytes for Vec<u8> { open spec fn rb(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self } }
impl<'a> RtBytes for &'a [u8] { open spec fn rb(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { *self } }
impl RtBytes for [u8; 32] { open spec fn rb(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self } }
#[verifier::external_body]
pub struct Sha256Rt { x: u8 }
impl Sha256Rt {
    pub uninterp spec fn st(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.st() == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn update<A: RtBytes>(&mut self, a: A) ensures final(self).st() == old(self).st() + a.rb(), { unimplemented!() }
    #[verifier::external_body]
    pub fn rt_finalize(self) -> (r: [u8; 32]) ensures r@ == sha(self.st()), hashed(self.st()), { unimplemented!() }
}
// a hash function: any that turns the bytes it was fed into 32 bytes
pub trait SimpleHasher: Sized {
    spec fn st(&self) -> Seq<u8>;
    spec fn dig(b: Seq<u8>) -> Seq<u8>;
    spec fn seen(b: Seq<u8>) -> bool;
    // the assumption on the hash function
    proof fn no_collision(a: Seq<u8>, b: Seq<u8>)
        requires Self::seen(a), Self::seen(b), Self::dig(a) == Self::dig(b),
        ensures a == b;
    fn new() -> (r: Self)
        ensures r.st() == Seq::<u8>::empty();
    fn update(&mut self, data: &[u8])
        ensures final(self).st() == old(self).st() + data@;
    fn finalize(self) -> (r: [u8; 32])
        ensures r@ == Self::dig(self.st()), Self::seen(self.st());
//@fn jmt/src/lib.rs trait SimpleHasher::hash props C12 C05 C11
//@nopub
//@sig impl AsRef<[u8]> ==> impl RtBytes
//@spec
    ensures r@ == Self::dig(data.rb()), Self::seen(data.rb()),
//@start
    proof { assert(Seq::<u8>::empty() + data.rb() =~= data.rb()); }
//@end
}
//@bytes jmt/src/lib.rs SPARSE_MERKLE_PLACEHOLDER_HASH
//@bytes jmt/src/types/proof.rs LEAF_DOMAIN_SEPARATOR
//@bytes jmt/src/types/proof.rs INTERNAL_DOMAIN_SEPARATOR
// ---- keys and hashes
#[derive(Clone, Copy)]
//@type jmt/src/lib.rs KeyHash
#[derive(Clone, Copy)]
//@type jmt/src/lib.rs ValueHash
#[derive(Clone, Copy)]
//@type jmt/src/lib.rs RootHash
// derived PartialEq
impl PartialEq for KeyHash { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for KeyHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for ValueHash { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ValueHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for RootHash { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for RootHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl KeyHash {
//@fn jmt/src/lib.rs KeyHash::with props C14
//@sig impl AsRef<[u8]> ==> impl RtBytes
//@rewrite? tracing::debug!($a); ==> 
//@spec
    ensures r.0@ == H::dig(key.rb()), H::seen(key.rb()),
//@end
}
impl ValueHash {
//@fn jmt/src/lib.rs ValueHash::with props C12 C11
//@sig impl AsRef<[u8]> ==> impl RtBytes
//@spec
    ensures r.0@ == H::dig(value.rb()), H::seen(value.rb()),
//@end
}
} // verus!
verus! {
// Result::expect
pub fn rt_expect<T>(x: Result<T>) -> (r: T)
    requires x is Ok,
    ensures x == Ok::<T, Error>(r),
{ match x { Ok(v) => v, Err(_) => rt_unreachable() } }
} // verus!
