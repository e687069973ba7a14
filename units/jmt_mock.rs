// jmt/src/mock.rs and jmt/src/db.rs: the in-memory versioned store
//@common crate::db::Version ==> DbVersion
//@common Self::Version ==> DbVersion
//@common crate::KeyHash ==> KeyHash
//@common crate::OwnedValue ==> OwnedValue
//@common let mut $id_l = self.data.write(); ==> let $id_l = &mut self.data;
//@common let $id_l = self.data.read(); ==> let $id_l = &self.data;
//@common self.data.write(). ==> self.data.
//@common self.data.read(). ==> self.data.
verus! {
// ---- versions
#[derive(Clone, Copy)]
//@type jmt/src/db.rs Version Version ==> DbVersion
// derived PartialEq, PartialOrd, Ord
impl PartialEq for DbVersion { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for DbVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0 == o.0 } }
impl PartialOrd for DbVersion { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { self.0.partial_cmp(&o.0) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for DbVersion { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(vcmp(self.0, o.0)) } }
pub open spec fn vcmp(a: u64, b: u64) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal } }
impl DbVersion { #[verifier::external_body] pub fn cmp(&self, o: &DbVersion) -> (r: core::cmp::Ordering) ensures r == vcmp(self.0, o.0), { self.0.cmp(&o.0) } }
// the big-endian bytes of an integer
pub uninterp spec fn be8(v: u64) -> Seq<u8>;
pub uninterp spec fn of8(b: Seq<u8>) -> u64;
#[verifier::external_body]
pub proof fn be8_inverse(v: u64) ensures be8(v).len() == 8, of8(be8(v)) == v { }
#[verifier::external_body]
pub fn rt_to_be(v: u64) -> (r: [u8; 8]) ensures r@ == be8(v), { v.to_be_bytes() }
#[verifier::external_body]
pub fn rt_from_be(b: [u8; 8]) -> (r: u64) ensures r == of8(b@), { u64::from_be_bytes(b) }
// Vec::try_into().unwrap_or_default()
#[verifier::external_body]
pub fn rt_eight(v: Vec<u8>) -> (r: [u8; 8]) ensures v@.len() == 8 ==> r@ == v@, { v.try_into().unwrap_or_default() }
#[verifier::external_body]
pub fn rt_vec8(b: [u8; 8]) -> (r: Vec<u8>) ensures r@ == b@, { b.to_vec() }
impl DbVersion {
//@fn jmt/src/db.rs <From<u64> for Version>::from props C20
//@rename from_u64
//@rewrite? Version($a) ==> DbVersion($a)
//@spec
    ensures r.0 == v,
//@end
//@fn jmt/src/db.rs <From<&u64> for Version>::from props C20
//@rename from_ref
//@sig -> Version ==> -> DbVersion
//@rewrite? Version($a) ==> DbVersion($a)
//@spec
    ensures r.0 == *v,
//@end
//@fn jmt/src/db.rs <From<Version> for u64>::from props C20
//@rename to_u64
//@sig Version ==> DbVersion
//@spec
    ensures r == v.0,
//@end
//@fn jmt/src/db.rs <From<Vec<u8>> for Version>::from props C20
//@rename from_bytes
//@rewrite? u64::from_be_bytes($id_v.try_into().unwrap_or_default()) ==> rt_from_be(rt_eight($id_v))
//@rewrite? Version($a) ==> DbVersion($a)
//@spec
    ensures v@.len() == 8 ==> r.0 == of8(v@),
//@end
//@fn jmt/src/db.rs <From<Version> for Vec>::from props C20
//@rename to_bytes
//@sig Version ==> DbVersion
//@sig -> Self ==> -> Vec<u8>
//@rewrite? v.0.to_be_bytes().to_vec() ==> rt_vec8(rt_to_be(v.0))
//@spec
    ensures r@ == be8(v.0),
//@end
//@fn jmt/src/db.rs <Default for Version>::default props C20
//@sig -> Version ==> -> DbVersion
//@rewrite? u64::default() ==> 0
//@rewrite? Version($a) ==> DbVersion($a)
//@spec
    ensures r.0 == 0,
//@end
}
// a version survives its integer and byte forms
pub fn version_int_roundtrip(v: u64) { let r = DbVersion::to_u64(DbVersion::from_u64(v)); assert(r == v); let s = DbVersion::to_u64(DbVersion::from_ref(&v)); assert(s == v); }
pub fn version_bytes_roundtrip(v: DbVersion) { let b = DbVersion::to_bytes(v); proof { be8_inverse(v.0); } let r = DbVersion::from_bytes(b); assert(r.0 == v.0); }
} // verus!

verus! {
// ---- going through maps and sets (std), entries of a map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
#[verifier::accept_recursive_types(O)]
pub struct RtPairs<'a, K: RtKey, V, O> { k: &'a K, v: &'a V, o: core::marker::PhantomData<O> }
impl<'a, K: RtKey, V> RtPairs<'a, K, V, Any> {
    // what is still to come
    pub uninterp spec fn view(&self) -> Map<K::V, V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some((k, v)) => k.kok() && old(self)@.contains_key(k.kv()) && old(self)@[k.kv()] == *v && final(self)@ == old(self)@.remove(k.kv()) },
    { unimplemented!() }
}
impl<'a, K: RtKey, V> RtPairs<'a, K, V, Asc> {
    pub uninterp spec fn view(&self) -> Map<K::V, V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some((k, v)) => k.kok() && old(self)@.contains_key(k.kv()) && old(self)@[k.kv()] == *v && final(self)@ == old(self)@.remove(k.kv())
            && forall|x: K::V| #[trigger] old(self)@.contains_key(x) ==> !K::before(x, k.kv()) },
    { unimplemented!() }
}
impl<K: RtKey, V> RtMap<K, V, Any> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: RtPairs<'_, K, V, Any>) ensures r@ == self@, self@.len() < usize::MAX, { unimplemented!() }
}
impl<K: RtKey, V> RtMap<K, V, Asc> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: RtPairs<'_, K, V, Asc>) ensures r@ == self@, { unimplemented!() }
}
impl<K: RtKey, V: Clone, O> RtMap<K, V, O> {
    // (the values' clones are the values: all value types here are plain data)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct RtAsc<'a, K: RtKey> { k: &'a K }
impl<'a, K: RtKey> RtAsc<'a, K> {
    pub uninterp spec fn view(&self) -> Set<K::V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a K>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(k) => k.kok() && old(self)@.contains(k.kv()) && final(self)@ == old(self)@.remove(k.kv())
            && forall|x: K::V| #[trigger] old(self)@.contains(x) ==> !K::before(x, k.kv()) },
    { unimplemented!() }
}
impl<K: RtKey> RtSet<K, Asc> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: RtAsc<'_, K>) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: RtElems<K>) ensures r@ == self@, { unimplemented!() }
}
impl Clone for StaleNodeIndex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct OccupiedEntry<'a, V> { pub v: &'a mut V }
pub struct VacantEntry<'a, V> { pub slot: &'a mut Option<V> }
pub enum Entry<'a, V> { Occupied(OccupiedEntry<'a, V>), Vacant(VacantEntry<'a, V>) }
impl<'a, V> OccupiedEntry<'a, V> {
    pub fn get_mut(&mut self) -> (r: &mut V)
        ensures *r == *old(self).v, *final(r) == *final(self).v, *final(final(self).v) == *final(old(self).v),
    { &mut *self.v }
}
impl<'a, V> VacantEntry<'a, V> {
    pub fn insert(self, x: V) ensures *final(self.slot) == Some(x), { *self.slot = Some(x); }
}
impl<K: RtKey, V, O> RtMap<K, V, O> {
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, V>)
        requires k.kok(),
        ensures match r {
            Entry::Occupied(o) => old(self)@.contains_key(k.kv()) && *o.v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(o.v)),
            Entry::Vacant(o) => !old(self)@.contains_key(k.kv()) && *o.slot == None::<V> && final(self)@ == match *final(o.slot) { Some(x) => old(self)@.insert(k.kv(), x), None => old(self)@ },
        },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn rt_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ },
{ v.last_mut() }
#[verifier::external_body]
pub fn rt_ov(o: &Option<OwnedValue>) -> (r: Option<OwnedValue>) ensures r == *o, { o.clone() }
// ---------------------------------------------------------------- histories
pub type Hist = Vec<(DbVersion, Option<OwnedValue>)>;
pub type HSeq = Seq<(DbVersion, Option<OwnedValue>)>;
pub type HMap = Map<Seq<u8>, Hist>;
pub open spec fn onward(h: HSeq) -> bool { h.len() > 0 && forall|i: int, j: int| 0 <= i < j < h.len() ==> (#[trigger] h[i]).0.0 < (#[trigger] h[j]).0.0 }
pub open spec fn hist_at(h: HSeq, v: u64) -> Option<Seq<u8>>
    decreases h.len(),
{ if h.len() == 0 { None } else if h.last().0.0 <= v { ov(h.last().1) } else { hist_at(h.drop_last(), v) } }
pub open spec fn hists_ok(m: HMap) -> bool { forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> onward(m[k]@) }
// the value of k written last at or before v
pub open spec fn hval(m: HMap, v: u64, k: Seq<u8>) -> Option<Seq<u8>> { if m.contains_key(k) { hist_at(m[k]@, v) } else { None } }
pub open spec fn last_of(m: HMap, k: Seq<u8>) -> Option<u64> { if m.contains_key(k) { Some(m[k]@.last().0.0) } else { None } }
pub open spec fn may_put(m: HMap, v: u64, k: Seq<u8>) -> bool { match last_of(m, k) { Some(l) => l <= v, None => true } }
// k was written at version v
pub open spec fn has_ver(h: HSeq, v: u64) -> bool { exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0.0 == v }
pub open spec fn held(m: HMap, v: u64, k: Seq<u8>) -> bool { m.contains_key(k) && has_ver(m[k]@, v) }
#[verifier::opaque]
pub open spec fn was_put(m0: HMap, m1: HMap, v: u64, k: Seq<u8>, x: Option<Seq<u8>>) -> bool {
    &&& hists_ok(m1) && last_of(m1, k) == Some(v)
    &&& forall|j: Seq<u8>| j != k ==> #[trigger] last_of(m1, j) == last_of(m0, j)
    &&& forall|u: u64, j: Seq<u8>| #[trigger] hval(m1, u, j) == if j == k && v <= u { x } else { hval(m0, u, j) }
    &&& forall|u: u64, j: Seq<u8>| #[trigger] held(m1, u, j) <==> held(m0, u, j) || (j == k && u == v)
}
pub broadcast proof fn put_new(m0: HMap, h1: Hist, v: u64, k: Seq<u8>, x: Option<OwnedValue>)
    requires hists_ok(m0), may_put(m0, v, k),
        !m0.contains_key(k) ==> h1@ =~= seq![(DbVersion(v), x)],
        m0.contains_key(k) && last_of(m0, k) != Some(v) ==> h1@ =~= m0[k]@.push((DbVersion(v), x)),
        m0.contains_key(k) && last_of(m0, k) == Some(v) ==> h1@ =~= m0[k]@.drop_last().push((DbVersion(v), x)),
    ensures #[trigger] was_put(m0, m0.insert(k, h1), v, k, ov(x)),
{
    let m1 = m0.insert(k, h1);
    let b = if !m0.contains_key(k) { Seq::empty() } else if last_of(m0, k) != Some(v) { m0[k]@ } else { m0[k]@.drop_last() };
    let h = b.push((DbVersion(v), x));
    assert(h1@ =~= h);
    assert(h.drop_last() =~= b);
    if m0.contains_key(k) { assert(onward(m0[k]@)); assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0.0 < v by { assert(m0[k]@[i] == b[i]); assert(m0[k]@.last() == m0[k]@[m0[k]@.len() - 1]); } }
    assert(onward(h)) by {
        assert forall|i: int, j: int| 0 <= i < j < h.len() implies (#[trigger] h[i]).0.0 < (#[trigger] h[j]).0.0 by { assert(h[i] == b[i]); if j < b.len() { assert(h[j] == b[j]); assert(m0[k]@[i] == b[i] && m0[k]@[j] == b[j]); } }
    }
    assert(hists_ok(m1));
    assert forall|u: u64, j: Seq<u8>| #[trigger] hval(m1, u, j) == if j == k && v <= u { ov(x) } else { hval(m0, u, j) } by {
        if j == k {
            assert(m1[k] == h1);
            if v <= u { } else { assert(hval(m1, u, j) == hist_at(b, u)); if m0.contains_key(k) { if last_of(m0, k) == Some(v) { assert(hist_at(m0[k]@, u) == hist_at(b, u)); } } else { assert(hist_at(b, u) is None); } }
        } else { assert(m0.contains_key(j) == m1.contains_key(j)); }
    }
    assert forall|u: u64, j: Seq<u8>| #[trigger] held(m1, u, j) <==> held(m0, u, j) || (j == k && u == v) by {
        if j == k {
            assert(h[b.len() as int].0.0 == v);
            if has_ver(h, u) && u != v { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0.0 == u; assert(h[i] == b[i] && m0[k]@[i] == b[i]); }
            if held(m0, u, k) { let i = choose|i: int| 0 <= i < m0[k]@.len() && (#[trigger] m0[k]@[i]).0.0 == u; if i < b.len() { assert(h[i] == m0[k]@[i]); } }
        }
    }
    assert forall|j: Seq<u8>| j != k implies #[trigger] last_of(m1, j) == last_of(m0, j) by { assert(m0.contains_key(j) == m1.contains_key(j)); }
    reveal(was_put);
}
pub open spec fn same_hists(m0: HMap, m1: HMap) -> bool { m1.dom() == m0.dom() && forall|k: Seq<u8>| m0.contains_key(k) ==> (#[trigger] m1[k])@ == m0[k]@ }
pub broadcast proof fn put_same(m0: HMap, h1: Hist, k: Seq<u8>)
    requires m0.contains_key(k), h1@ =~= m0[k]@,
    ensures #[trigger] same_hists(m0, m0.insert(k, h1)),
{ assert(m0.insert(k, h1).dom() =~= m0.dom()); }
//@fn jmt/src/mock.rs put_value props C20
//@sig crate::db::Version ==> DbVersion
//@rewrite? $id_o.get_mut().last_mut() ==> rt_last_mut($id_o.get_mut())
//@spec
    requires hists_ok(old(value_history)@),
    ensures r is Ok <==> may_put(old(value_history)@, version.0, key.0@), r is Err ==> same_hists(old(value_history)@, final(value_history)@),
        r is Ok ==> was_put(old(value_history)@, final(value_history)@, version.0, key.0@, ov(value)),
//@start
    broadcast use {put_new, put_same};
    proof { let k = key.0@; let m0 = value_history@; if m0.contains_key(k) { assert(onward(m0[k]@)); } }
//@end
} // verus!

//@common self.value_history().collect() ==> self.value_history()
//@common $id_l.value_history.get($a).and_then(|h| h.last()) ==> (match $id_l.value_history.get($a) { Some(h) => h.last(), None => None })
//@common rt_assert(($id_a) == (None)) ==> rt_assert($id_a.is_none())
verus! {
pub proof fn newest_add(d: VMap, v: u64, k: Seq<u8>, x: Option<OwnedValue>, u: u64, j: Seq<u8>)
    requires forall|y: (u64, Seq<u8>)| #[trigger] d.contains_key(y) && y.1 == k ==> y.0 <= v,
    ensures newest(d.insert((v, k), x), 0, u, j) == if j == k && v <= u { Some(ov(x)) } else { newest(d, 0, u, j) },
    decreases u,
{
    let e = d.insert((v, k), x);
    if (u, j) == (v, k) { }
    else {
        assert(e.contains_key((u, j)) == d.contains_key((u, j)));
        if j == k && v < u { assert(!d.contains_key((u, j))); }
        if e.contains_key((u, j)) { } else if u > 0 { newest_add(d, v, k, x, (u - 1) as u64, j); }
    }
}
pub proof fn newest_from(b: VMap, first: u64, u: u64, j: Seq<u8>)
    requires forall|y: (u64, Seq<u8>)| #[trigger] b.contains_key(y) ==> first <= y.0,
    ensures newest(b, 0, u, j) == newest(b, first, u, j),
    decreases u,
{ if u > 0 { newest_from(b, first, (u - 1) as u64, j); } if u < first { assert(!b.contains_key((u, j))); } }
pub proof fn newest_empty(u: u64, j: Seq<u8>) ensures newest(VMap::empty(), 0, u, j) is None, decreases u, { if u > 0 { newest_empty((u - 1) as u64, j); } }
// values of a batch, all written
pub open spec fn can_write(m: HMap, b: VMap) -> bool { forall|y: (u64, Seq<u8>)| #[trigger] b.contains_key(y) ==> may_put(m, y.0, y.1) }
#[verifier::opaque]
pub open spec fn were_put(m0: HMap, m1: HMap, d: VMap) -> bool {
    &&& hists_ok(m1)
    &&& forall|u: u64, j: Seq<u8>| #[trigger] hval(m1, u, j) == wval(newest(d, 0, u, j), hval(m0, u, j))
    &&& forall|u: u64, j: Seq<u8>| #[trigger] held(m1, u, j) <==> held(m0, u, j) || d.contains_key((u, j))
    &&& forall|j: Seq<u8>| match #[trigger] last_of(m1, j) { Some(l) => last_of(m0, j) == Some(l) || d.contains_key((l, j)), None => last_of(m0, j) is None }
}
// what is left of the batch is not before what has been written
pub open spec fn left_of(b: VMap, d: VMap, rem: VMap) -> bool {
    &&& forall|y: (u64, Seq<u8>)| #[trigger] b.contains_key(y) <==> d.contains_key(y) || rem.contains_key(y)
    &&& forall|y: (u64, Seq<u8>)| #[trigger] d.contains_key(y) ==> b[y] == d[y] && !rem.contains_key(y)
    &&& forall|y: (u64, Seq<u8>)| #[trigger] rem.contains_key(y) ==> b[y] == rem[y]
    &&& forall|y: (u64, Seq<u8>), z: (u64, Seq<u8>)| #[trigger] d.contains_key(y) && #[trigger] rem.contains_key(z) ==> y.0 <= z.0
}
pub proof fn put_none(m: HMap)
    requires hists_ok(m),
    ensures were_put(m, m, VMap::empty()),
{ reveal(were_put); assert forall|u: u64, j: Seq<u8>| #[trigger] hval(m, u, j) == wval(newest(VMap::empty(), 0, u, j), hval(m, u, j)) by { newest_empty(u, j); } }
pub proof fn put_more(m0: HMap, m1: HMap, m2: HMap, b: VMap, d: VMap, rem: VMap, v: u64, k: Seq<u8>, x: Option<OwnedValue>)
    requires hists_ok(m0), can_write(m0, b), were_put(m0, m1, d), left_of(b, d, rem), rem.contains_key((v, k)), rem[(v, k)] == x,
        forall|z: (u64, Seq<u8>)| #[trigger] rem.contains_key(z) ==> v <= z.0,
    ensures may_put(m1, v, k),
        was_put(m1, m2, v, k, ov(x)) ==> were_put(m0, m2, d.insert((v, k), x)) && left_of(b, d.insert((v, k), x), rem.remove((v, k))),
{
    reveal(were_put);
    let e = d.insert((v, k), x);
    assert(b.contains_key((v, k)));
    assert(may_put(m0, v, k));
    assert(may_put(m1, v, k)) by { let l = last_of(m1, k); if l is Some { assert(last_of(m0, k) == l || d.contains_key((l->0, k))); } }
    if was_put(m1, m2, v, k, ov(x)) {
        reveal(was_put);
        assert forall|u: u64, j: Seq<u8>| #[trigger] hval(m2, u, j) == wval(newest(e, 0, u, j), hval(m0, u, j)) by { newest_add(d, v, k, x, u, j); assert(hval(m1, u, j) == wval(newest(d, 0, u, j), hval(m0, u, j))); }
        assert forall|u: u64, j: Seq<u8>| #[trigger] held(m2, u, j) <==> held(m0, u, j) || e.contains_key((u, j)) by { assert(held(m1, u, j) <==> held(m0, u, j) || d.contains_key((u, j))); }
        assert forall|j: Seq<u8>| match #[trigger] last_of(m2, j) { Some(l) => last_of(m0, j) == Some(l) || e.contains_key((l, j)), None => last_of(m0, j) is None } by { let l = last_of(m1, j); if j != k { assert(last_of(m2, j) == l); } }
        let r2 = rem.remove((v, k));
        assert(left_of(b, e, r2)) by {
            assert forall|y: (u64, Seq<u8>)| #[trigger] b.contains_key(y) <==> e.contains_key(y) || r2.contains_key(y) by { if y != (v, k) { assert(e.contains_key(y) == d.contains_key(y)); assert(r2.contains_key(y) == rem.contains_key(y)); } }
            assert forall|y: (u64, Seq<u8>), z: (u64, Seq<u8>)| #[trigger] e.contains_key(y) && #[trigger] r2.contains_key(z) implies y.0 <= z.0 by { assert(rem.contains_key(z)); if y != (v, k) { assert(d.contains_key(y)); } }
        }
    }
}
pub proof fn no_keys_left<K, V>(m: Map<K, V>) requires m.len() == 0, ensures m =~= Map::<K, V>::empty(), { assert(m.dom() =~= Set::empty()); }
pub proof fn all_left(b: VMap, d: VMap, rem: VMap)
    requires left_of(b, d, rem), rem.len() == 0,
    ensures d == b,
{ no_keys_left(rem); assert forall|y: (u64, Seq<u8>)| b.contains_key(y) <==> d.contains_key(y) by { } assert(d =~= b); }
// nodes of a batch, some written
pub open spec fn nodes_left(w0: W, w1: W, b: W, rem: W) -> bool {
    &&& forall|k: NK| #[trigger] rem.contains_key(k) ==> b.contains_key(k) && b[k] == rem[k]
    &&& forall|k: NK| #[trigger] at(w1, k) == if b.contains_key(k) && !rem.contains_key(k) { Some(b[k]) } else { at(w0, k) }
}
pub proof fn at_ext(a: W, b: W) requires forall|k: NK| #[trigger] at(a, k) == at(b, k), ensures a == b, {
    assert forall|k: NK| #[trigger] a.contains_key(k) <==> b.contains_key(k) by { assert(at(a, k) == at(b, k)); }
    assert forall|k: NK| #[trigger] a.contains_key(k) implies a[k] == b[k] by { assert(at(a, k) == at(b, k)); }
    assert(a =~= b);
}
pub proof fn nodes_step(w0: W, w1: W, b: W, rem: W, k: NK)
    requires nodes_left(w0, w1, b, rem), rem.contains_key(k),
    ensures nodes_left(w0, w1.insert(k, rem[k]), b, rem.remove(k)), apart(w0, b) ==> !w1.contains_key(k),
{
    assert(at(w1, k) == at(w0, k));
    let w2 = w1.insert(k, rem[k]);
    let r2 = rem.remove(k);
    assert forall|j: NK| #[trigger] at(w2, j) == if b.contains_key(j) && !r2.contains_key(j) { Some(b[j]) } else { at(w0, j) } by { if j != k { assert(at(w2, j) == at(w1, j)); assert(r2.contains_key(j) == rem.contains_key(j)); } }
}
// what is stale, in part purged: the rest is still to be
pub open spec fn stale_good(w: W, s: Stales, least: u64) -> bool {
    &&& forall|x: (u64, NK)| #[trigger] s.contains(x) && x.0 <= least ==> w.contains_key(x.1)
    &&& forall|x: (u64, NK), y: (u64, NK)| #[trigger] s.contains(x) && #[trigger] s.contains(y) && x.0 <= least && y.0 <= least && x.1 == y.1 ==> x == y
}
pub open spec fn listed(v: Seq<StaleNodeIndex>, x: (u64, NK)) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).kv() == x }
pub open spec fn gone_but(s: Stales, least: u64, v: Seq<StaleNodeIndex>, k: NK) -> bool { exists|t: u64| t <= least && #[trigger] s.contains((t, k)) && !listed(v, (t, k)) }
#[verifier::opaque]
pub open spec fn unlike(v: Seq<StaleNodeIndex>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).kv() != (#[trigger] v[j]).kv() }
pub open spec fn due(s0: Stales, least: u64, v: Seq<StaleNodeIndex>) -> bool {
    &&& unlike(v)
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).kok() && s0.contains(v[i].kv()) && v[i].kv().0 <= least
}
#[verifier::opaque]
pub open spec fn purging(w0: W, s0: Stales, least: u64, v: Seq<StaleNodeIndex>, w: W, s: Stales) -> bool {
    &&& due(s0, least, v)
    &&& forall|x: (u64, NK)| #[trigger] s.contains(x) <==> s0.contains(x) && (x.0 > least || listed(v, x))
    &&& forall|k: NK| #[trigger] at(w, k) == if gone_but(s0, least, v, k) { None } else { at(w0, k) }
}
pub proof fn purge_first(w0: W, s0: Stales, least: u64, v: Seq<StaleNodeIndex>)
    requires due(s0, least, v), forall|x: (u64, NK)| #[trigger] s0.contains(x) && x.0 <= least ==> listed(v, x),
    ensures purging(w0, s0, least, v, w0, s0),
{ reveal(purging); }
pub proof fn purge_last(w0: W, s0: Stales, least: u64, v: Seq<StaleNodeIndex>, w: W, s: Stales)
    requires purging(w0, s0, least, v, w, s), v.len() == 0,
    ensures purged(w0, s0, least, w, s),
{
    reveal(purging);
    assert forall|k: NK| gone_but(s0, least, v, k) <==> #[trigger] gone(s0, least, k) by {
        if gone(s0, least, k) { let t = choose|t: u64| t <= least && #[trigger] s0.contains((t, k)); assert(s0.contains((t, k)) && !listed(v, (t, k))); }
    }
    assert forall|k: NK| #[trigger] at(w, k) == if gone(s0, least, k) { None } else { at(w0, k) } by { assert(gone_but(s0, least, v, k) <==> gone(s0, least, k)); }
}
pub proof fn purge_one(w0: W, s0: Stales, least: u64, v: Seq<StaleNodeIndex>, w: W, s: Stales)
    requires purging(w0, s0, least, v, w, s), v.len() > 0,
    ensures v[0].kok(), stale_good(w0, s0, least) ==> w.contains_key(v[0].kv().1),
        purging(w0, s0, least, v.remove(0), w.remove(v[0].kv().1), s.remove(v[0].kv())),
{
    let u = v.remove(0);
    let y = v[0].kv();
    reveal(purging);
    reveal(unlike);
    assert(s0.contains(y) && y.0 <= least);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == v[i + 1] by { }
    assert(!listed(u, y)) by { if listed(u, y) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).kv() == y; assert(v[i + 1].kv() == v[0].kv()); } }
    assert forall|x: (u64, NK)| #[trigger] listed(v, x) <==> x == y || listed(u, x) by {
        if listed(v, x) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).kv() == x; if i > 0 { assert(u[i - 1].kv() == x); } }
        if listed(u, x) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).kv() == x; assert(v[i + 1].kv() == x); }
    }
    if stale_good(w0, s0, least) {
        if gone_but(s0, least, v, y.1) { let t = choose|t: u64| t <= least && #[trigger] s0.contains((t, y.1)) && !listed(v, (t, y.1)); assert((t, y.1) == y); }
        assert(at(w, y.1) == at(w0, y.1));
    }
    let w2 = w.remove(y.1);
    assert forall|k: NK| #[trigger] at(w2, k) == if gone_but(s0, least, u, k) { None } else { at(w0, k) } by {
        if k == y.1 { assert(s0.contains((y.0, k)) && !listed(u, (y.0, k))); }
        else {
            assert(at(w2, k) == at(w, k));
            if gone_but(s0, least, u, k) { let t = choose|t: u64| t <= least && #[trigger] s0.contains((t, k)) && !listed(u, (t, k)); assert(s0.contains((t, k)) && !listed(v, (t, k))); }
            if gone_but(s0, least, v, k) { let t = choose|t: u64| t <= least && #[trigger] s0.contains((t, k)) && !listed(v, (t, k)); assert(s0.contains((t, k)) && !listed(u, (t, k))); }
        }
    }
    assert(due(s0, least, u)) by { assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).kv() != (#[trigger] u[j]).kv() by { assert(v[i + 1].kv() != v[j + 1].kv()); } assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).kok() && s0.contains(u[i].kv()) && u[i].kv().0 <= least by { assert(v[i + 1].kok()); } }
    let s2 = s.remove(y);
    assert forall|x: (u64, NK)| #[trigger] s2.contains(x) <==> s0.contains(x) && (x.0 > least || listed(u, x)) by { assert(listed(v, x) <==> x == y || listed(u, x)); assert(s.contains(x) <==> s0.contains(x) && (x.0 > least || listed(v, x))); }
}
// collecting what is due
#[verifier::opaque]
pub open spec fn taken(s0: Stales, least: u64, rem: Stales, v: Seq<StaleNodeIndex>) -> bool {
    &&& due(s0, least, v)
    &&& forall|x: (u64, NK)| #[trigger] s0.contains(x) <==> rem.contains(x) || listed(v, x)
    &&& forall|x: (u64, NK)| #[trigger] rem.contains(x) ==> !listed(v, x)
}
pub proof fn take_none(s0: Stales, least: u64) ensures taken(s0, least, s0, Seq::empty()), { reveal(taken); reveal(unlike); }
pub proof fn take_one(s0: Stales, least: u64, rem: Stales, v: Seq<StaleNodeIndex>, x: StaleNodeIndex)
    requires taken(s0, least, rem, v), rem.contains(x.kv()), x.kok(), x.kv().0 <= least,
    ensures taken(s0, least, rem.remove(x.kv()), v.push(x)),
{
    reveal(taken);
    reveal(unlike);
    let u = v.push(x);
    assert forall|y: (u64, NK)| #[trigger] listed(u, y) <==> y == x.kv() || listed(v, y) by {
        if listed(v, y) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).kv() == y; assert(u[i].kv() == y); }
        assert(u[v.len() as int].kv() == x.kv());
        if listed(u, y) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).kv() == y; if i < v.len() { assert(v[i].kv() == y); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).kv() != (#[trigger] u[j]).kv() by { assert(u[i] == v[i]); if j < v.len() { assert(u[j] == v[j]); } else { assert(listed(v, v[i].kv())); } }
    assert forall|y: (u64, NK)| #[trigger] s0.contains(y) <==> rem.remove(x.kv()).contains(y) || listed(u, y) by { assert(listed(u, y) <==> y == x.kv() || listed(v, y)); }
    assert forall|y: (u64, NK)| #[trigger] rem.remove(x.kv()).contains(y) implies !listed(u, y) by { assert(listed(u, y) <==> y == x.kv() || listed(v, y)); }
}
pub proof fn take_end(w0: W, s0: Stales, least: u64, rem: Stales, v: Seq<StaleNodeIndex>)
    requires taken(s0, least, rem, v), forall|x: (u64, NK)| #[trigger] rem.contains(x) ==> x.0 > least,
    ensures purging(w0, s0, least, v, w0, s0),
{ reveal(taken); purge_first(w0, s0, least, v); }
// the keys whose newest value is there; the newest version written
pub open spec fn live(m: HMap) -> Set<Seq<u8>> { m.dom().filter(|k: Seq<u8>| m[k]@.last().1 is Some) }
pub proof fn live_step(m: HMap, k: Seq<u8>)
    requires m.contains_key(k),
    ensures live(m).len() == live(m.remove(k)).len() + if m[k]@.last().1 is Some { 1int } else { 0int }, live(m).len() <= m.len(),
{
    let n = m.remove(k);
    if m[k]@.last().1 is Some { assert(live(n) =~= live(m).remove(k)); } else { assert(live(n) =~= live(m)); }
    vstd::set_lib::lemma_len_subset(live(m), m.dom());
}
pub open spec fn some_held(m: HMap, u: u64) -> bool { exists|k: Seq<u8>| #[trigger] held(m, u, k) }
pub open spec fn newest_ver(m: HMap, r: u64) -> bool { (forall|u: u64| #[trigger] some_held(m, u) ==> u <= r) && (r == 0 || some_held(m, r)) }
pub open spec fn newest_but(m: HMap, rem: HMap, r: u64) -> bool { (forall|u: u64, k: Seq<u8>| #[trigger] held(m, u, k) ==> u <= r || rem.contains_key(k)) && (r == 0 || some_held(m, r)) }
pub open spec fn newest_part(m: HMap, rem: HMap, k: Seq<u8>, n: int, r: u64) -> bool {
    &&& forall|u: u64, j: Seq<u8>| #[trigger] held(m, u, j) ==> u <= r || rem.contains_key(j) || j == k
    &&& r == 0 || some_held(m, r)
    &&& m.contains_key(k) && forall|i: int| 0 <= i < n ==> (#[trigger] m[k]@[i]).0.0 <= r
}
pub proof fn newest_done(m: HMap, rem: HMap, k: Seq<u8>, n: int, r: u64)
    requires newest_part(m, rem, k, n, r), n == m[k]@.len(),
    ensures newest_but(m, rem, r),
{ assert forall|u: u64, j: Seq<u8>| #[trigger] held(m, u, j) implies u <= r || rem.contains_key(j) by { if j == k { let i = choose|i: int| 0 <= i < m[k]@.len() && (#[trigger] m[k]@[i]).0.0 == u; assert(m[k]@[i].0.0 <= r); } } }
// jmt/src/mock.rs: the lock around the data is dropped (one thread at a time), what it guards is a field
//@type jmt/src/reader.rs Preimage
// derived Clone
impl Clone for Preimage { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@, { Preimage(self.0.clone()) } }
impl Preimage {
    pub open spec fn view(&self) -> Seq<u8> { self.0@ }
//@fn jmt/src/reader.rs Preimage::key props C14
//@spec
    ensures r@ == self@,
//@end
}
// the originals stored are those of their keys
pub open spec fn originals_ok<H: SimpleHasher>(p: Map<Seq<u8>, Preimage>) -> bool { forall|k: Seq<u8>| #[trigger] p.contains_key(k) ==> H::dig(p[k]@) == k }
//@type jmt/src/mock.rs MockTreeStoreInner crate::db::Version ==> DbVersion
//@type jmt/src/mock.rs MockTreeStore Arc<RwLock<MockTreeStoreInner>> ==> MockTreeStoreInner
pub open spec fn apart(a: W, b: W) -> bool { forall|k: NK| #[trigger] b.contains_key(k) ==> !a.contains_key(k) }
impl MockTreeStore {
    pub open spec fn ns(&self) -> W { self.data.nodes@ }
    pub open spec fn hs(&self) -> HMap { self.data.value_history@ }
    pub open spec fn ss(&self) -> Stales { self.data.stale_nodes@ }
    pub open spec fn ok(&self) -> bool { hists_ok(self.hs()) }
    // all but the values
    pub open spec fn like(&self, o: &Self) -> bool { self.data.preimages == o.data.preimages && self.allow_overwrite == o.allow_overwrite }
//@fn jmt/src/mock.rs <TreeReader for MockTreeStore>::get_node_option props C20 C16
//@spec
    requires node_key.wf(),
    ensures r == Ok::<Option<Node>, Error>(at(self.ns(), node_key.nk())),
//@end
//@fn jmt/src/mock.rs <TreeReader for MockTreeStore>::get_value_option props C20
//@sig crate::db::Version ==> DbVersion
//@sig crate::KeyHash ==> KeyHash
//@sig crate::OwnedValue ==> OwnedValue
//@rewrite? for ($id_v, $id_x) in $id_h.iter().rev() { $st_b } ==> let mut rt_i = $id_h.len(); while rt_i > 0 { rt_i -= 1; let $id_v = &$id_h[rt_i].0; let $id_x = &$id_h[rt_i].1; $st_b }
//@rewrite? Ok($id_x.clone()) ==> Ok(rt_ov($id_x))
//@spec
    ensures r matches Ok(o) && ov(o) == hval(self.hs(), max_version.0, key_hash.0@),
//@loop 0
    invariant rt_i <= version_history@.len(), self.hs().contains_key(key_hash.0@), self.hs()[key_hash.0@] == *version_history, hval(self.hs(), max_version.0, key_hash.0@) == hist_at(version_history@.take(rt_i as int), max_version.0),
    decreases rt_i,
//@loopstart 0
    proof { assert(version_history@.take(rt_i as int).drop_last() =~= version_history@.take(rt_i - 1)); }
//@before let mut rt_i = $a;
    proof { assert(version_history@.take(version_history@.len() as int) =~= version_history@); }
//@end
//@fn jmt/src/mock.rs <HasPreimage for MockTreeStore>::preimage props C14
//@rewrite? $a.get($b).cloned() ==> (match $a.get($b) { Some(rt_x) => Some(rt_x.clone()), None => None })
//@spec
    ensures r matches Ok(o) && match o { Some(x) => self.data.preimages@.contains_key(key_hash.0@) && x@ == self.data.preimages@[key_hash.0@]@, None => !self.data.preimages@.contains_key(key_hash.0@) },
//@end
//@fn jmt/src/mock.rs MockTreeStore::put_key_preimage props C14
//@sig &self ==> &mut self
//@spec
    ensures final(self).ns() == old(self).ns(), final(self).hs() == old(self).hs(), final(self).ss() == old(self).ss(), final(self).allow_overwrite == old(self).allow_overwrite,
        final(self).data.preimages@.contains_key(H::dig(preimage@)) && final(self).data.preimages@[H::dig(preimage@)]@ == preimage@,
        originals_ok::<H>(old(self).data.preimages@) ==> originals_ok::<H>(final(self).data.preimages@),
        forall|k: Seq<u8>| k != H::dig(preimage@) ==> (#[trigger] final(self).data.preimages@.contains_key(k) <==> old(self).data.preimages@.contains_key(k)) && final(self).data.preimages@[k] == old(self).data.preimages@[k],
//@end
//@fn jmt/src/mock.rs <VersionedDatabase for MockTreeStore>::get props C20
//@sig crate::db::Version ==> DbVersion
//@spec
    ensures r matches Ok(o) && ov(o) == hval(self.hs(), max_version.0, key_hash.0@),
//@end
//@fn jmt/src/mock.rs <VersionedDatabase for MockTreeStore>::value_history props C20
//@sig Self::HistoryIter ==> HashMap<KeyHash, Hist>
//@rewrite? .clone().into_iter() ==> .clone()
//@spec
    ensures r@ == self.hs(),
//@end
//@fn jmt/src/mock.rs <VersionedDatabase for MockTreeStore>::nodes props C20
//@sig Self::NodeIter ==> HashMap<NodeKey, Node>
//@rewrite? .clone().into_iter() ==> .clone()
//@spec
    ensures r@ == self.ns(),
//@end
//@fn jmt/src/mock.rs <TreeWriter for MockTreeStore>::write_node_batch props C20 C16 C09
//@sig &self ==> &mut self
//@rewrite? for ($id_v, $id_k) in $id_b.values().keys() { $st_b } ==> let mut rt_k = $id_b.values().iter(); loop { match rt_k.next() { None => { break; } Some((rt_a, _)) => { let $id_v = &rt_a.0; let $id_k = &rt_a.1; $st_b } } }
//@rewrite? for ($id_k, $id_n) in $id_b.nodes() { $st_b } ==> let mut rt_n = $id_b.nodes().iter(); loop { match rt_n.next() { None => { break; } Some(($id_k, $id_n)) => { $st_b } } }
//@rewrite? for (($id_v, $id_k), $id_x) in $id_b.values() { $st_b } ==> let mut rt_v = $id_b.values().iter(); loop { match rt_v.next() { None => { break; } Some((rt_a, $id_x)) => { let $id_v = &rt_a.0; let $id_k = &rt_a.1; $st_b } } }
//@rewrite? crate::db::Version::from($id_v) ==> DbVersion::from_ref($id_v)
//@rewrite? version.into() ==> DbVersion::from_ref(version)
//@rewrite? value.clone() ==> rt_ov(value)
//@spec
    requires old(self).ok(), old(self).allow_overwrite || apart(old(self).ns(), node_batch.ns()),
    ensures r is Ok <==> can_write(old(self).hs(), node_batch.values@), r is Err ==> *final(self) == *old(self),
        final(self).like(old(self)) && final(self).ss() == old(self).ss(),
        r is Ok ==> final(self).ns() == over(old(self).ns(), node_batch.ns()) && were_put(old(self).hs(), final(self).hs(), node_batch.values@),
//@attr verifier::loop_isolation(false)
//@loop 0
    invariant forall|y: (u64, Seq<u8>)| #[trigger] node_batch.values@.contains_key(y) ==> rt_k@.contains_key(y) || may_put(h0, y.0, y.1),
        forall|y: (u64, Seq<u8>)| #[trigger] rt_k@.contains_key(y) ==> node_batch.values@.contains_key(y),
        *locked == c0.data,
    decreases rt_k@.len(),
//@loopstart 0
    proof { if rt_k@.len() == 0 { no_keys_left(rt_k@); } }
//@loop 1
    invariant nodes_left(w0, locked.nodes@, node_batch.ns(), rt_n@), locked.value_history == c0.data.value_history, locked.stale_nodes == c0.data.stale_nodes, locked.preimages == c0.data.preimages,
        allow || apart(w0, node_batch.ns()),
    decreases rt_n@.len(),
//@loopstart 1
    let ghost n0 = rt_n@;
    let ghost w1 = locked.nodes@;
    proof { if n0.len() == 0 { no_keys_left(n0); at_ext(w1, over(w0, node_batch.ns())); }
        assert forall|k: NK| #[trigger] n0.contains_key(k) implies (allow || !w1.contains_key(k)) by { nodes_step(w0, w1, node_batch.ns(), n0, k); } }
//@loopend 1
    proof { let k = choose|k: NK| n0.contains_key(k) && !rt_n@.contains_key(k); assert(rt_n@ == n0.remove(k)); nodes_step(w0, w1, node_batch.ns(), n0, k); }
//@loop 2
    invariant locked.nodes@ == over(w0, node_batch.ns()), locked.stale_nodes == c0.data.stale_nodes, locked.preimages == c0.data.preimages,
        were_put(h0, locked.value_history@, d), left_of(node_batch.values@, d, rt_v@), hists_ok(locked.value_history@),
    decreases rt_v@.len(),
//@loopstart 2
    let ghost v0 = rt_v@;
    let ghost h1 = locked.value_history@;
    proof { if v0.len() == 0 { all_left(node_batch.values@, d, v0); } }
//@before put_value($a)
    proof { put_more(h0, h1, h1, node_batch.values@, d, v0, rt_a.0, rt_a.1.0@, *value); }
//@loopend 2
    proof { let y = choose|y: (u64, Seq<u8>)| v0.contains_key(y) && !rt_v@.contains_key(y); assert(rt_v@ == v0.remove(y)); put_more(h0, h1, locked.value_history@, node_batch.values@, d, v0, y.0, y.1, v0[y]); d = d.insert(y, v0[y]); }
//@before let mut rt_v = $a;
    proof { put_none(h0); reveal(were_put); }
//@start
    let ghost c0 = *self;
    let ghost w0 = self.ns();
    let ghost h0 = self.hs();
    let ghost allow = self.allow_overwrite;
    let ghost mut d = VMap::empty();
//@end
//@fn jmt/src/mock.rs MockTreeStore::put_stale_node_index props C16 C20
//@sig &self ==> &mut self
//@spec
    requires index.kok(),
    ensures r is Ok <==> !old(self).ss().contains(index.kv()), final(self).ss() == old(self).ss().insert(index.kv()),
        final(self).hs() == old(self).hs() && final(self).ns() == old(self).ns() && final(self).like(old(self)),
//@end
//@fn jmt/src/mock.rs MockTreeStore::write_tree_update_batch props C16 C20 C09
//@sig &self ==> &mut self
//@rewrite? $id_b.stale_node_index_batch.into_iter().map(|$id_i| $e).collect::<Result<Vec<_>>>()?; ==> let mut rt_s = $id_b.stale_node_index_batch.into_iter(); loop { match rt_s.next() { None => { break; } Some($id_i) => { $e?; } } }
//@attr verifier::loop_isolation(false)
//@spec
    requires old(self).ok(), old(self).allow_overwrite || apart(old(self).ns(), batch.node_batch.ns()),
    ensures r is Ok <==> can_write(old(self).hs(), batch.node_batch.values@) && old(self).ss().disjoint(batch.stale_node_index_batch@),
        !can_write(old(self).hs(), batch.node_batch.values@) ==> *final(self) == *old(self),
        final(self).like(old(self)), final(self).ok(),
        r is Ok ==> final(self).ns() == over(old(self).ns(), batch.node_batch.ns()) && were_put(old(self).hs(), final(self).hs(), batch.node_batch.values@)
            && final(self).ss() == old(self).ss().union(batch.stale_node_index_batch@),
//@start
    let ghost s0 = self.ss();
    let ghost b = batch.stale_node_index_batch@;
    let ghost c0 = *self;
//@before let mut rt_s = $a;
    let ghost c1 = *self;
    proof { reveal(were_put); }
//@loop 0
    invariant self.ns() == c1.ns(), self.hs() == c1.hs(), self.like(&c1), rt_s@.subset_of(b), self.ss() == s0.union(b.difference(rt_s@)), s0.disjoint(b.difference(rt_s@)),
    decreases rt_s@.len(),
//@loopstart 0
    let ghost n0 = rt_s@;
    let ghost s1 = self.ss();
    proof { if n0.len() == 0 { assert(n0 =~= Set::empty()); assert(b.difference(n0) =~= b); }
        assert forall|x: (u64, NK)| #[trigger] n0.contains(x) implies b.difference(n0.remove(x)) =~= b.difference(n0).insert(x) && s0.union(b.difference(n0.remove(x))) =~= s1.insert(x) && (!s1.contains(x) ==> s0.disjoint(b.difference(n0.remove(x)))) && (s1.contains(x) ==> !s0.disjoint(b)) by {
            if s1.contains(x) { assert(s0.contains(x)); assert(b.contains(x)); }
        } }
//@end
//@fn jmt/src/mock.rs <VersionedDatabase for MockTreeStore>::update_batch props C16 C20
//@sig &self ==> &mut self
//@spec
    requires old(self).ok(), old(self).allow_overwrite || apart(old(self).ns(), tree_update_batch.node_batch.ns()),
    ensures r is Ok <==> can_write(old(self).hs(), tree_update_batch.node_batch.values@) && old(self).ss().disjoint(tree_update_batch.stale_node_index_batch@),
        !can_write(old(self).hs(), tree_update_batch.node_batch.values@) ==> *final(self) == *old(self),
        final(self).like(old(self)), final(self).ok(),
        r is Ok ==> final(self).ns() == over(old(self).ns(), tree_update_batch.node_batch.ns()) && were_put(old(self).hs(), final(self).hs(), tree_update_batch.node_batch.values@)
            && final(self).ss() == old(self).ss().union(tree_update_batch.stale_node_index_batch@),
//@end
//@fn jmt/src/db.rs trait VersionedDatabase::update props C16 C20
//@sig &self ==> &mut self
//@spec
    requires old(self).ok(), old(self).allow_overwrite || apart(old(self).ns(), tree_update_batch.node_batch.ns()),
    ensures r is Ok <==> can_write(old(self).hs(), tree_update_batch.node_batch.values@) && old(self).ss().disjoint(tree_update_batch.stale_node_index_batch@),
        !can_write(old(self).hs(), tree_update_batch.node_batch.values@) ==> *final(self) == *old(self),
        final(self).like(old(self)), final(self).ok(),
        r is Ok ==> final(self).ns() == over(old(self).ns(), tree_update_batch.node_batch.ns()) && were_put(old(self).hs(), final(self).hs(), tree_update_batch.node_batch.values@)
            && final(self).ss() == old(self).ss().union(tree_update_batch.stale_node_index_batch@),
//@end
//@fn jmt/src/mock.rs MockTreeStore::put_leaf props C20
//@sig &self ==> &mut self
//@rewrite? version.into() ==> DbVersion::from_u64(version)
//@rewrite? put_value($a, version, $c, $d) ==> put_value($a, DbVersion::from_u64(version), $c, $d)
//@rewrite? leaf.into() ==> Node::Leaf(leaf)
//@spec
    requires node_key.wf(), old(self).ok(),
    ensures r is Ok <==> !old(self).ns().contains_key(node_key.nk()) && may_put(old(self).hs(), node_key.nk().0, leaf.k()),
        final(self).ss() == old(self).ss(), final(self).like(old(self)),
        r is Err ==> final(self).ns() == old(self).ns() && same_hists(old(self).hs(), final(self).hs()),
        r is Ok ==> final(self).ns() == old(self).ns().insert(node_key.nk(), Node::Leaf(leaf)) && was_put(old(self).hs(), final(self).hs(), node_key.nk().0, leaf.k(), Some(value@)),
//@end
//@fn jmt/src/mock.rs MockTreeStore::num_nodes props C20
//@spec
    ensures r == self.ns().len(),
//@end
//@fn jmt/src/mock.rs MockTreeStore::purge_stale_nodes props C16
//@sig &self ==> &mut self
//@attr verifier::loop_isolation(false)
//@rewrite? let $id_p = $id_w.stale_nodes.iter().take_while(|$id_l| $e).cloned().collect::<Vec<_>>(); ==> let mut rt_t: Vec<StaleNodeIndex> = Vec::new(); let mut rt_s = $id_w.stale_nodes.iter(); loop { match rt_s.next() { None => { break; } Some($id_l) => { if !($e) { break; } rt_t.push($id_l.clone()); } } } let $id_p = rt_t;
//@rewrite? for $id_l in to_prune { $st_b } ==> let mut rt_i = rt_iter(to_prune); loop { match rt_i.next() { None => { break; } Some($id_l) => { $st_b } } }
//@spec
    ensures final(self).hs() == old(self).hs(), final(self).like(old(self)),
        r is Ok ==> purged(old(self).ns(), old(self).ss(), least_readable_version, final(self).ns(), final(self).ss()),
        stale_good(old(self).ns(), old(self).ss(), least_readable_version) ==> r is Ok,
//@start
    let ghost c0 = *self;
    let ghost w0 = self.ns();
    let ghost s0 = self.ss();
    let ghost least = least_readable_version;
    proof { take_none(s0, least); }
//@loop 0
    invariant taken(s0, least, rt_s@, rt_t@), *wlocked == c0.data, forall|x: (u64, NK)| #[trigger] rt_s@.contains(x) ==> true,
    decreases rt_s@.len(),
//@loopstart 0
    let ghost n0 = rt_s@;
    let ghost t0 = rt_t@;
    proof { if n0.len() == 0 { assert(n0 =~= Set::empty()); take_end(w0, s0, least, n0, t0); } if forall|x: (u64, NK)| #[trigger] n0.contains(x) ==> x.0 > least { take_end(w0, s0, least, n0, t0); } }
//@loopend 0
    proof { let x = rt_t@.last(); assert(rt_t@ =~= t0.push(x)); assert(x.kok()); take_one(s0, least, n0, t0, x); }
//@loop 1
    invariant purging(w0, s0, least, rt_i.v@, wlocked.nodes@, wlocked.stale_nodes@), wlocked.value_history == c0.data.value_history, wlocked.preimages == c0.data.preimages,
    decreases rt_i.v@.len(),
//@loopstart 1
    proof { if rt_i.v@.len() == 0 { purge_last(w0, s0, least, rt_i.v@, wlocked.nodes@, wlocked.stale_nodes@); } else { purge_one(w0, s0, least, rt_i.v@, wlocked.nodes@, wlocked.stale_nodes@); } }
//@end
//@fn jmt/src/db.rs trait VersionedDatabase::len props C20
//@attr verifier::loop_isolation(false)
//@rewrite? Vec<(Self::Version, Option<OwnedValue>)> ==> Hist
//@rewrite? $id_m.values().filter(|$id_v| $e).count() ==> { let mut rt_it = $id_m.iter(); let mut rt_n = 0usize; loop { match rt_it.next() { None => { break; } Some((rt_k, $id_v)) => { if $e { rt_n += 1; } } } } rt_n }
//@rewrite? $id_v.$id_f().and_then(|(_, $id_x)| $f).is_some() ==> (match $id_v.$id_f() { Some(rt_l) => { let $id_x = &rt_l.1; ($f).is_some() } None => false })
//@spec
    requires self.ok(),
    ensures r == live(self.hs()).len(),
//@loop 0
    invariant rt_n + live(rt_it@).len() == live(self.hs()).len(), rt_n + rt_it@.len() < usize::MAX,
        forall|k: Seq<u8>| #[trigger] rt_it@.contains_key(k) ==> self.hs().contains_key(k) && rt_it@[k] == self.hs()[k],
    decreases rt_it@.len(),
//@loopstart 0
    let ghost n0 = rt_it@;
    proof {
        if n0.len() == 0 { no_keys_left(n0); assert(live(n0) =~= Set::empty()); }
        assert forall|k: Seq<u8>| #[trigger] n0.contains_key(k) implies live(n0).len() == live(n0.remove(k)).len() + if n0[k]@.last().1 is Some { 1int } else { 0int } && n0[k]@.len() > 0 by { live_step(n0, k); assert(onward(self.hs()[k]@)); }
    }
//@end
//@fn jmt/src/db.rs trait VersionedDatabase::is_empty props C20
//@spec
    requires self.ok(),
    ensures r == (live(self.hs()).len() == 0),
//@end
//@fn jmt/src/db.rs trait VersionedDatabase::version props C20
//@sig Self::Version ==> DbVersion
//@attr verifier::loop_isolation(false)
//@rewrite? Vec<(Self::Version, Option<OwnedValue>)> ==> Hist
//@rewrite? for $id_v in $id_m.values() { $st_b } ==> let mut rt_it = $id_m.iter(); loop { match rt_it.next() { None => { break; } Some((rt_k, $id_v)) => { $st_b } } }
//@rewrite? for ($id_a, _) in $id_h.iter() { $st_b } ==> let mut rt_i = 0usize; while rt_i < $id_h.len() { let $id_a = &$id_h[rt_i].0; $st_b rt_i += 1; }
//@rewrite? $id_a > &$id_b ==> *$id_a > $id_b
//@spec
    requires self.ok(),
    ensures newest_ver(self.hs(), r.0),
//@loop 0
    invariant newest_but(self.hs(), rt_it@, latest.0), forall|k: Seq<u8>| #[trigger] rt_it@.contains_key(k) ==> self.hs().contains_key(k) && rt_it@[k] == self.hs()[k],
    decreases rt_it@.len(),
//@loopstart 0
    let ghost n0 = rt_it@;
    proof { if n0.len() == 0 { no_keys_left(n0); assert(newest_ver(self.hs(), latest.0)) by { assert forall|u: u64| #[trigger] some_held(self.hs(), u) implies u <= latest.0 by { let k = choose|k: Seq<u8>| #[trigger] held(self.hs(), u, k); assert(!n0.contains_key(k)); } } } }
//@loop 1
    invariant rt_i <= values@.len(), self.hs().contains_key(rt_k.kv()), self.hs()[rt_k.kv()] == *values, newest_part(self.hs(), rt_it@, rt_k.kv(), rt_i as int, latest.0),
    decreases values@.len() - rt_i,
//@loopstart 1
    proof { assert(held(self.hs(), values@[rt_i as int].0.0, rt_k.kv())); assert(some_held(self.hs(), values@[rt_i as int].0.0)); }
//@afterloop 1
    proof { newest_done(self.hs(), rt_it@, rt_k.kv(), rt_i as int, latest.0); }
//@end
//@fn jmt/src/mock.rs <Default for MockTreeStore>::default props C20
//@rewrite? Arc::new(RwLock::new(Default::default())) ==> rt_inner()
//@spec
    ensures r.ns() == W::empty(), r.hs() == HMap::empty(), r.ss() == Stales::empty(), !r.allow_overwrite,
//@end
//@fn jmt/src/mock.rs MockTreeStore::new props C20
//@rewrite? ..Default::default() ==> ..MockTreeStore::default()
//@spec
    ensures r.ns() == W::empty(), r.hs() == HMap::empty(), r.ss() == Stales::empty(), r.allow_overwrite == allow_overwrite,
//@end
}
// <MockTreeStoreInner as Default>::default (derived)
pub fn rt_inner() -> (r: MockTreeStoreInner)
    ensures r.nodes@ == W::empty(), r.value_history@ == HMap::empty(), r.stale_nodes@ == Stales::empty(), r.preimages@ == Map::<Seq<u8>, Preimage>::empty(),
{ MockTreeStoreInner { nodes: HashMap::new(), stale_nodes: BTreeSet::new(), value_history: HashMap::new(), preimages: HashMap::new() } }
// ---------------------------------------------------------------- as the reader of a tree
impl TreeReader for MockTreeStore {
    open spec fn nodes(&self) -> W { self.ns() }
    open spec fn val(&self, v: u64, k: Seq<u8>) -> Option<Seq<u8>> { hval(self.hs(), v, k) }
    open spec fn reliable(&self) -> bool { true }
    fn get_node_option(&self, node_key: &NodeKey) -> (r: Result<Option<Node>>) { MockTreeStore::get_node_option(self, node_key) }
    fn get_value_option(&self, max_version: Version, key_hash: KeyHash) -> (r: Result<Option<OwnedValue>>) { MockTreeStore::get_value_option(self, DbVersion::from_u64(max_version), key_hash) }
}
// a store that holds the versions low..n, all complete, the list of its stale nodes and nothing else
pub open spec fn good_db<H: SimpleHasher>(db: MockTreeStore, low: u64, n: u64) -> bool {
    &&& db.ok() && kept_store::<MockTreeStore, H>(db, db.ss(), low, n)
    &&& forall|u: u64, k: Seq<u8>| #[trigger] held(db.hs(), u, k) ==> u < n
}
pub fn db_new<H: SimpleHasher>(allow_overwrite: bool) -> (r: MockTreeStore)
    ensures good_db::<H>(r, 0, 0),
{ let r = MockTreeStore::new(allow_overwrite); proof { new_store::<MockTreeStore, H>(r); } r }
// storing an update succeeds and leaves a store with the versions it had and the new ones
pub fn db_update<H: SimpleHasher>(db: &mut MockTreeStore, b: TreeUpdateBatch, Ghost(low): Ghost<u64>, Ghost(n): Ghost<u64>, Ghost(h): Ghost<Seq<Ver>>, Ghost(roots): Ghost<Seq<RootHash>>) -> (r: Result<()>)
    requires good_db::<H>(*old(db), low, n), reported(h, n, old(db).ns(), roots, b), sets_vals::<H>(h, n, b.node_batch.values@), n + h.len() < u64::MAX - 1,
    ensures r is Ok, good_db::<H>(*final(db), low, (n + h.len()) as u64), wrote(*old(db), *final(db), n, b.node_batch),
{
    let ghost d0 = *db;
    let ghost vals = b.node_batch.values@;
    let ghost e = (n + h.len()) as u64;
    let ghost b0 = b;
    proof {
        assert(apart(d0.ns(), b.node_batch.ns())) by { reveal(store_ok); }
        assert forall|y: (u64, Seq<u8>)| #[trigger] vals.contains_key(y) implies may_put(d0.hs(), y.0, y.1) by { if let Some(l) = last_of(d0.hs(), y.1) { assert(d0.hs()[y.1]@[d0.hs()[y.1]@.len() - 1].0.0 == l); assert(onward(d0.hs()[y.1]@)); assert(held(d0.hs(), l, y.1)); } }
        assert(d0.ss().disjoint(b.stale_node_index_batch@)) by {
            assert forall|x: (u64, NK)| d0.ss().contains(x) implies !b.stale_node_index_batch@.contains(x) by { reveal(tidy); reveal(tid); assert(tid(d0.ns(), x, low, n)); }
        }
    }
    let r = db.update(b);
    proof {
        reveal(were_put);
        let d1 = *db;
        assert forall|v: u64, k: Seq<u8>| #[trigger] d1.val(v, k) == wval(newest(vals, n, v, k), d0.val(v, k)) by { newest_from(vals, n, v, k); assert(hval(d1.hs(), v, k) == wval(newest(vals, 0, v, k), hval(d0.hs(), v, k))); }
        update_kept::<MockTreeStore, H>(d0, d0.ss(), d1, d1.ss(), low, n, h, roots, b0);
        assert forall|u: u64, k: Seq<u8>| #[trigger] held(d1.hs(), u, k) implies u < e by { assert(held(d0.hs(), u, k) || vals.contains_key((u, k))); }
    }
    r
}
// purging succeeds, and every version from the least readable one on reads as before
pub fn db_purge<H: SimpleHasher>(db: &mut MockTreeStore, least: u64, Ghost(low): Ghost<u64>, Ghost(n): Ghost<u64>) -> (r: Result<()>)
    requires good_db::<H>(*old(db), low, n),
    ensures r is Ok, good_db::<H>(*final(db), low_after(low, least, n), n), final(db).hs() == old(db).hs(),
        forall|v: u64| low_after(low, least, n) <= v < n ==> #[trigger] tmap(final(db).ns(), v) == tmap(old(db).ns(), v),
        purged(old(db).ns(), old(db).ss(), least, final(db).ns(), final(db).ss()),
{
    let ghost d0 = *db;
    proof {
        reveal(tidy);
        reveal(tid);
        assert(stale_good(d0.ns(), d0.ss(), least)) by { assert forall|x: (u64, NK)| #[trigger] d0.ss().contains(x) && x.0 <= least implies d0.ns().contains_key(x.1) by { assert(tid(d0.ns(), x, low, n)); } }
    }
    let r = db.purge_stale_nodes(least);
    proof { purge_kept::<MockTreeStore, H>(d0, d0.ss(), *db, db.ss(), low, n, least); }
    r
}
} // verus!
