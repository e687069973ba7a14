// std's maps and sets as finite mathematical maps and sets of their keys
verus! {
// what a key says (two keys are the same key when these are equal)
pub trait RtKey: Sized { type V; spec fn kv(&self) -> Self::V; spec fn kok(&self) -> bool;
    // what is known of the order of keys: a comes before b when this holds
    spec fn before(a: Self::V, b: Self::V) -> bool; }
impl RtKey for NodeKey { open spec fn before(a: NK, b: NK) -> bool { a.0 < b.0 } type V = NK; open spec fn kv(&self) -> NK { self.nk() } open spec fn kok(&self) -> bool { self.wf() } }
impl RtKey for (Version, KeyHash) { open spec fn before(a: (u64, Seq<u8>), b: (u64, Seq<u8>)) -> bool { a.0 < b.0 } type V = (u64, Seq<u8>); open spec fn kv(&self) -> (u64, Seq<u8>) { (self.0, self.1.0@) } open spec fn kok(&self) -> bool { true } }
impl RtKey for KeyHash { open spec fn before(a: Seq<u8>, b: Seq<u8>) -> bool { false } type V = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self.0@ } open spec fn kok(&self) -> bool { true } }
impl RtKey for NibblePath { open spec fn before(a: Seq<u8>, b: Seq<u8>) -> bool { false } type V = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self.v() } open spec fn kok(&self) -> bool { self.wf() } }
// in no known order; in the order of the keys
pub struct Any { }
pub struct Asc { }
// HashMap and BTreeMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
#[verifier::accept_recursive_types(O)]
pub struct RtMap<K: RtKey, V, O> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V>, o: core::marker::PhantomData<O> }
pub type HashMap<K, V> = RtMap<K, V, Any>;
pub type BTreeMap<K, V> = RtMap<K, V, Asc>;
// what draining a map gives, in no known order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct RtItems<K: RtKey, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K: RtKey, V> RtItems<K, V> { pub uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: RtKey, V, O> RtMap<K, V, O> {
    pub uninterp spec fn view(&self) -> Map<K::V, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K::V, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) requires k.kok(), ensures r matches Some(x) ==> self@.contains_key(k.kv()) && *x == self@[k.kv()], r is None ==> !self@.contains_key(k.kv()), { unimplemented!() }
    // (a map is never as large as the address space)
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) requires k.kok(), ensures r == self@.contains_key(k.kv()), self@.len() < usize::MAX, { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) requires k.kok(), ensures final(self)@ == old(self)@.insert(k.kv(), v), r == if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None::<V> }, { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) requires k.kok(), ensures final(self)@ == old(self)@.remove(k.kv()), r == if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None::<V> }, { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: RtItems<K, V>) ensures r@ == old(self)@, final(self)@ == Map::<K::V, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, i: RtItems<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(i@), { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::V, V>::empty(), { unimplemented!() }
}
// HashSet and BTreeSet
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(O)]
pub struct RtSet<K: RtKey, O> { k: core::marker::PhantomData<K>, o: core::marker::PhantomData<O> }
pub type HashSet<K> = RtSet<K, Any>;
pub type BTreeSet<K> = RtSet<K, Asc>;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct RtElems<K: RtKey> { k: core::marker::PhantomData<K> }
impl<K: RtKey> RtElems<K> {
    pub uninterp spec fn view(&self) -> Set<K::V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<K>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(k) => k.kok() && old(self)@.contains(k.kv()) && final(self)@ == old(self)@.remove(k.kv()) },
    { unimplemented!() }
}
impl<K: RtKey, O> RtSet<K, O> {
    pub uninterp spec fn view(&self) -> Set<K::V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) requires k.kok(), ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()), old(self)@.len() < usize::MAX, { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) requires k.kok(), ensures r == self@.contains(k.kv()), { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) requires k.kok(), ensures final(self)@ == old(self)@.remove(k.kv()), r == old(self)@.contains(k.kv()), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: RtElems<K>) ensures r@ == old(self)@, final(self)@ == Set::<K::V>::empty(), { unimplemented!() }
}
} // verus!
