verus! {
// ================================================================ what the trie relies on
// ---- keccak-256
pub uninterp spec fn kec(b: Seq<u8>) -> Seq<u8>;
// the byte strings hashed so far, by this trie or by those that wrote its database
pub uninterp spec fn hashed(b: Seq<u8>) -> bool;
// the only cryptographic assumption: no two strings that were ever hashed collide
#[verifier::external_body]
pub proof fn axiom_no_collision(a: Seq<u8>, b: Seq<u8>)
    requires hashed(a), hashed(b), kec(a) == kec(b),
    ensures a == b,
{ }
#[verifier::external_body]
pub proof fn axiom_kec_len(b: Seq<u8>)
    ensures kec(b).len() == 32,
{ }
#[derive(Clone, Copy)]
pub struct H256(pub [u8; 32]);
impl H256 {
    pub open spec fn v(&self) -> Seq<u8> { self.0@ }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8])
        ensures r@ == self.v(),
    { &self.0 }
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: H256)
        requires b@.len() == 32,
        ensures r.v() == b@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(&self, o: &H256) -> (r: bool)
        ensures r == (self.v() == o.v()),
    { self.0 == o.0 }
}
#[verifier::external_body]
pub fn keccak(b: &Vec<u8>) -> (r: H256)
    ensures r.v() == kec(b@), hashed(b@), r.v().len() == 32,
{ unimplemented!() }

// ---- the rlp crate: rs is the encoding of a byte string, rl of a list of encoded items
pub uninterp spec fn rs(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn rl(items: Seq<Seq<u8>>) -> Seq<u8>;
pub uninterp spec fn item(b: Seq<u8>) -> bool;
pub enum Prototype { Null, Data(usize), List(usize) }
pub enum GP { Null, Data(int), List(int) }
pub open spec fn gp(p: Prototype) -> GP { match p { Prototype::Null => GP::Null, Prototype::Data(n) => GP::Data(n as int), Prototype::List(n) => GP::List(n as int) } }
pub uninterp spec fn r_proto(b: Seq<u8>) -> Option<GP>;
pub uninterp spec fn r_at(b: Seq<u8>, i: int) -> Option<Seq<u8>>;
pub uninterp spec fn r_data(b: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn r_is_list(b: Seq<u8>) -> bool;
pub uninterp spec fn r_is_data(b: Seq<u8>) -> bool;
pub uninterp spec fn r_is_empty(b: Seq<u8>) -> bool;
pub uninterp spec fn r_size(b: Seq<u8>) -> int;
// a byte string reads back as itself
#[verifier::external_body]
pub proof fn axiom_rlp_string(b: Seq<u8>)
    ensures item(rs(b)), r_proto(rs(b)) == Some(GP::Data(b.len() as int)), r_data(rs(b)) == Some(b), !r_is_list(rs(b)), r_is_data(rs(b)),
        r_size(rs(b)) == b.len(), r_is_empty(rs(b)) == (b.len() == 0), b.len() == 32 ==> rs(b).len() == 33, rs(Seq::empty()).len() == 1,
{ }
// a list reads back as its items
#[verifier::external_body]
pub proof fn axiom_rlp_list(items: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < items.len() ==> item(#[trigger] items[i]),
    ensures item(rl(items)), r_proto(rl(items)) == Some(GP::List(items.len() as int)), r_is_list(rl(items)), !r_is_data(rl(items)),
        forall|i: int| 0 <= i < items.len() ==> #[trigger] r_at(rl(items), i) == Some(items[i]),
{ }
pub struct Rlp<'a> { b: &'a [u8] }
impl<'a> Rlp<'a> {
    pub closed spec fn v(&self) -> Seq<u8> { self.b@ }
    pub fn new(b: &'a [u8]) -> (r: Rlp<'a>)
        ensures r.v() == b@,
    { Rlp { b } }
    #[verifier::external_body]
    pub fn prototype(&self) -> (r: Result<Prototype>)
        ensures (match r { Ok(p) => Some(gp(p)), Err(_) => None }) == r_proto(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: Result<Rlp<'a>>)
        ensures (match r { Ok(x) => Some(x.v()), Err(_) => None }) == r_at(self.v(), i as int),
            r matches Ok(x) ==> x.v().len() < self.v().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn data(&self) -> (r: Result<&'a [u8]>)
        ensures (match r { Ok(x) => Some(x@), Err(_) => None }) == r_data(self.v()),
            r matches Ok(x) ==> r_is_data(self.v()) ==> x@.len() == r_size(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_list(&self) -> (r: bool) ensures r == r_is_list(self.v()), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_data(&self) -> (r: bool) ensures r == r_is_data(self.v()), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == r_is_empty(self.v()), { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == r_size(self.v()), { unimplemented!() }
    pub fn as_raw(&self) -> (r: &'a [u8])
        ensures r@ == self.v(),
    { self.b }
}
pub trait RtBytes { spec fn rb(&self) -> Seq<u8>; }
impl RtBytes for Vec<u8> { open spec fn rb(&self) -> Seq<u8> { self@ } }
impl<'a> RtBytes for &'a [u8] { open spec fn rb(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct RlpStream { x: u8 }
impl RlpStream {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn its(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn new_list(n: usize) -> (r: RlpStream) ensures r.n() == n, r.its() == Seq::<Seq<u8>>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn append<A: RtBytes>(&mut self, a: &A)
        requires old(self).its().len() < old(self).n(),
        ensures final(self).n() == old(self).n(), final(self).its() == old(self).its().push(rs(a.rb())), { unimplemented!() }
    #[verifier::external_body]
    pub fn append_raw(&mut self, a: &Vec<u8>, k: usize)
        requires k == 1, old(self).its().len() < old(self).n(),
        ensures final(self).n() == old(self).n(), final(self).its() == old(self).its().push(a@), { unimplemented!() }
    #[verifier::external_body]
    pub fn append_empty_data(&mut self)
        requires old(self).its().len() < old(self).n(),
        ensures final(self).n() == old(self).n(), final(self).its() == old(self).its().push(rs(Seq::empty())), { unimplemented!() }
    #[verifier::external_body]
    pub fn out(self) -> (r: Vec<u8>)
        requires self.its().len() == self.n(),
        ensures r@ == rl(self.its()), { unimplemented!() }
}
#[verifier::external_body]
pub fn rt_null_rlp() -> (r: Vec<u8>) ensures r@ == rs(Seq::empty()), { unimplemented!() }

// ---- hashbrown's map and set of byte strings
#[verifier::external_body]
pub struct ByteMap { m: std::collections::HashMap<Vec<u8>, Vec<u8>> }
impl ByteMap {
    pub uninterp spec fn m(&self) -> Map<Seq<u8>, Seq<u8>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<u8>, Seq<u8>>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) ensures final(self).m() == old(self).m().insert(k@, v@), { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn rt_drain(&mut self) -> (r: Vec<(Vec<u8>, Vec<u8>)>)
        ensures final(self).m() == Map::<Seq<u8>, Seq<u8>>::empty(),
            forall|i: int| 0 <= i < r@.len() ==> old(self).m().contains_key((#[trigger] r@[i]).0@) && old(self).m()[r@[i].0@] == r@[i].1@,
            forall|k: Seq<u8>| #[trigger] old(self).m().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ByteSet { m: std::collections::HashSet<Vec<u8>> }
impl ByteSet {
    pub uninterp spec fn s(&self) -> Set<Seq<u8>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<Seq<u8>>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>) -> (r: bool) ensures final(self).s() == old(self).s().insert(k@), { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).s() == Set::<Seq<u8>>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: ByteSet) ensures final(self).s() == old(self).s().union(o.s()), { unimplemented!() }
}
// std::mem::take / replace on a set
#[verifier::external_body]
pub fn rt_take(s: &mut ByteSet) -> (r: ByteSet)
    ensures r.s() == old(s).s(), final(s).s() == Set::<Seq<u8>>::empty(), { unimplemented!() }
#[verifier::external_body]
pub fn rt_replace(s: &mut ByteSet, o: ByteSet) -> (r: ByteSet)
    ensures r.s() == old(s).s(), final(s).s() == o.s(), { unimplemented!() }
// a.iter().filter(|h| !b.contains(&h.to_vec())).map(|h| h.to_vec()).collect()
#[verifier::external_body]
pub fn rt_diff(a: &ByteSet, b: &ByteSet) -> (r: Vec<Vec<u8>>)
    ensures forall|k: Seq<u8>| (exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k) <==> #[trigger] a.s().contains(k) && !b.s().contains(k), { unimplemented!() }

// ---- the database behind the trie (Arc<D>): a map of byte strings, used by this trie alone
#[verifier::external_body]
pub struct Db { x: u8 }
impl Db {
    pub uninterp spec fn m(&self) -> Map<Seq<u8>, Seq<u8>>;
    pub uninterp spec fn light(&self) -> bool;      // physically removes stale entries
    pub uninterp spec fn reliable(&self) -> bool;   // never fails
    #[verifier::external_body]
    pub fn rt_new(light: bool) -> (r: Db)
        ensures r.m() == Map::<Seq<u8>, Seq<u8>>::empty(), r.light() == light, r.reliable(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &[u8]) -> (r: Result<Option<Vec<u8>>>)
        ensures r matches Ok(o) ==> ov(o) == (if self.m().contains_key(k@) { Some(self.m()[k@]) } else { None }),
            self.reliable() ==> r is Ok, { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &[u8], v: Vec<u8>) -> (r: Result<()>)
        ensures final(self).light() == old(self).light(), final(self).reliable() == old(self).reliable(),
            r is Ok ==> final(self).m() == old(self).m().insert(k@, v@), old(self).reliable() ==> r is Ok, { unimplemented!() }
    // some prefix of the batch is written if it fails
    #[verifier::external_body]
    pub fn insert_batch(&mut self, k: Vec<Vec<u8>>, v: Vec<Vec<u8>>) -> (r: Result<()>)
        requires k@.len() == v@.len(), forall|i: int, j: int| 0 <= i < j < k@.len() ==> (#[trigger] k@[i])@ != (#[trigger] k@[j])@,
        ensures final(self).light() == old(self).light(), final(self).reliable() == old(self).reliable(), old(self).reliable() ==> r is Ok,
            forall|x: Seq<u8>| #[trigger] final(self).m().contains_key(x) ==>
                (old(self).m().contains_key(x) && final(self).m()[x] == old(self).m()[x]) || exists|i: int| 0 <= i < k@.len() && (#[trigger] k@[i])@ == x && final(self).m()[x] == v@[i]@,
            forall|x: Seq<u8>| #[trigger] old(self).m().contains_key(x) ==> final(self).m().contains_key(x),
            r is Ok ==> forall|i: int| 0 <= i < k@.len() ==> final(self).m().contains_key((#[trigger] k@[i])@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_batch(&mut self, k: &Vec<Vec<u8>>) -> (r: Result<()>)
        ensures final(self).light() == old(self).light(), final(self).reliable() == old(self).reliable(), old(self).reliable() ==> r is Ok,
            !old(self).light() ==> final(self).m() == old(self).m(),
            forall|x: Seq<u8>| #[trigger] final(self).m().contains_key(x) ==> old(self).m().contains_key(x) && final(self).m()[x] == old(self).m()[x],
            forall|x: Seq<u8>| #[trigger] old(self).m().contains_key(x) && !final(self).m().contains_key(x) ==> exists|i: int| 0 <= i < k@.len() && (#[trigger] k@[i])@ == x,
    { unimplemented!() }
}
impl Clone for Db {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
pub open spec fn ov(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub struct DecoderError {}
#[verifier::external_body]
pub fn rt_string() -> String { unimplemented!() }
pub fn rt_invalid() -> (r: TrieError) ensures r is InvalidData, { TrieError::InvalidData(rt_string()) }
} // verus!
