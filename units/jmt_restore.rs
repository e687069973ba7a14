// jmt/src/restore.rs (C17, C18)
//@common hash.expect($m) ==> rt_unwrap(hash)
//@common u8::from($x) ==> rt_u8($x)
//@common [Option<ChildInfo>; 16] ==> [Option<ChildInfo>; 16]
verus! {
pub open spec fn kcmp(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering { if key_lt(a, b) { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
// derived PartialOrd on keys and nibbles: lexicographic, numeric
impl PartialOrd for KeyHash { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { self.0.partial_cmp(&o.0) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for KeyHash { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(kcmp(self.0@, o.0@)) } }
impl PartialOrd for Nibble { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { self.0.partial_cmp(&o.0) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Nibble { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(if self.v() < o.v() { core::cmp::Ordering::Less } else if self.v() == o.v() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) } }
//@type jmt/src/restore.rs ChildInfo
impl Clone for ChildInfo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@type jmt/src/restore.rs InternalInfo
impl Clone for InternalInfo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Ki = Seq<Option<ChildInfo>>;
// an internal child whose hash is not known yet
pub open spec fn opened(o: Option<ChildInfo>) -> bool { o matches Some(ChildInfo::Internal { hash, leaf_count }) && hash is None && leaf_count is None }
pub open spec fn known(o: Option<ChildInfo>) -> bool { o matches Some(ChildInfo::Internal { hash, leaf_count }) ==> hash is Some && leaf_count is Some }
// the entry made of it
pub open spec fn entry(o: Option<ChildInfo>, c: Option<Child>, v: u64) -> bool {
    match (o, c) {
        (None, None) => true,
        (Some(ChildInfo::Leaf { node }), Some(c)) => c.hash@ == lh(node.k(), node.v()) && hashed(leaf_pre(node.k(), node.v())) && c.version == v && c.node_type is Leaf,
        (Some(ChildInfo::Internal { hash: Some(h), leaf_count: Some(n) }), Some(c)) => c.hash == h && c.version == v && c.node_type == (NodeType::Internal { leaf_count: n }),
        _ => false,
    }
}
pub trait RtToVec { spec fn rtv(&self) -> Seq<u8>; fn rt_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.rtv(); }
impl RtToVec for [u8; 32] { open spec fn rtv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn rt_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
pub fn rt_unwrap<T>(x: Option<T>) -> (r: T)
    requires x is Some,
    ensures x == Some(r),
{ match x { Some(v) => v, None => rt_unreachable() } }
// <[Option<ChildInfo>; 16] as Default>::default
#[verifier::external_body]
pub fn rt_no_children() -> (r: [Option<ChildInfo>; 16])
    ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> (#[trigger] r@[i]) is None,
{ Default::default() }
// Option::take on an element
#[verifier::external_body]
pub fn rt_take(a: &mut [Option<ChildInfo>; 16], i: usize) -> (r: Option<ChildInfo>)
    requires i < 16,
    ensures r == old(a)@[i as int], final(a)@ == old(a)@.update(i as int, None),
{ a[i].take() }
// iter().rposition(|x| x.is_some())
pub fn rt_vec1<T>(x: T) -> (r: Vec<T>) ensures r@.len() == 1, r@[0] == x, { let mut v = Vec::new(); v.push(x); v }
pub fn rt_rightmost(a: &[Option<ChildInfo>; 16]) -> (r: Option<usize>)
    ensures match r { Some(j) => j < 16 && a@[j as int] is Some && forall|i: int| j < i < 16 ==> (#[trigger] a@[i]) is None, None => forall|i: int| 0 <= i < 16 ==> (#[trigger] a@[i]) is None },
{
    let mut i: usize = 16;
    while i > 0
        invariant i <= 16, forall|j: int| i <= j < 16 ==> (#[trigger] a@[j]) is None,
        decreases i,
    {
        i = i - 1;
        match &a[i] { Some(_) => { return Some(i); } None => { } }
    }
    None
}
// Option::replace, <[T]>::last_mut
#[verifier::external_body]
pub fn rt_replace<T>(o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x),
{ o.replace(x) }
pub fn rt_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> (r matches Some(x) && *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x))),
{ let n = v.len(); if n == 0 { None } else { Some(&mut v[n - 1]) } }
// visited_nibbles().collect()
pub fn rt_visited(n: &NibbleIterator) -> (r: NibblePath)
    requires n.wf(),
    ensures r.wf(), r.v() =~= n.seen(),
{
    let mut a = n.visited_nibbles();
    let mut p = NibblePath::new(Vec::new());
    loop
        invariant p.wf(), a.wf(), n.wf(), p.num_nibbles + a.rest().len() == n.seen().len(), p.v() + a.rest() =~= n.seen(),
        ensures a.rest().len() == 0,
        decreases a.rest().len(),
    { match a.next() { Some(x) => { p.push(x); } None => { break; } } }
    p
}
impl ChildInfo {
//@fn jmt/src/restore.rs ChildInfo::into_child props C17 C18
//@rewrite? leaf_count.map(|$id_n| $e).unwrap_or($d) ==> (match leaf_count { Some($id_n) => $e, None => $d })
//@spec
    requires known(Some(self)),
    ensures entry(Some(self), Some(r), version),
//@end
}
impl InternalInfo {
    pub open spec fn p(&self) -> Seq<u8> { self.node_key.p() }
    pub open spec fn ks(&self) -> Ki { self.children@ }
//@fn jmt/src/restore.rs InternalInfo::new_empty props C17 C18
//@rewrite? children: Default::default() ==> children: rt_no_children()
//@spec
    ensures r.node_key == node_key, r.ks().len() == 16, forall|i: int| 0 <= i < 16 ==> (#[trigger] r.ks()[i]) is None,
//@end
//@fn jmt/src/restore.rs InternalInfo::set_child props C17 C18
//@spec
    requires index < 16,
    ensures final(self).node_key == old(self).node_key, final(self).ks() == old(self).ks().update(index as int, Some(child_info)),
//@end
//@fn jmt/src/restore.rs InternalInfo::into_internal_node props C17 C18
//@rewrite? for ($id_i, $id_o) in $id_q.children.iter_mut().enumerate() { if let Some($id_c) = $id_o.take() { $st_s } } ==> let mut rt_i: usize = 0; while rt_i < 16 { let $id_i = rt_i; if let Some($id_c) = rt_take(&mut $id_q.children, $id_i) { $st_s } rt_i = rt_i + 1; }
//@rewrite? (index as u8).into() ==> Nibble::from(index as u8)
//@spec
    requires forall|i: int| 0 <= i < 16 ==> known(#[trigger] self.ks()[i]),
        forall|cs: Cs| #[trigger] entries(self.ks(), cs, version) ==> lknown(cs, 16) <= usize::MAX,
    ensures match r { Ok(x) => x.0 == self.node_key && x.1.wf() && entries(self.ks(), x.1.cs(), version), Err(_) => exists|cs: Cs| #[trigger] entries(self.ks(), cs, version) && !node_ok(cs) },
//@start
    let ghost k0 = self.ks();
    let ghost nk = self.node_key;
//@loop 0
    invariant rt_i <= 16, rt_self.node_key == nk, rt_self.ks().len() == 16, children.wf(), children.cs().len() == 16,
        forall|i: int| rt_i <= i < 16 ==> #[trigger] rt_self.ks()[i] == k0[i],
        forall|i: int| 0 <= i < 16 ==> known(#[trigger] k0[i]),
        forall|i: int| 0 <= i < rt_i ==> entry(#[trigger] k0[i], children.cs()[i], version),
        forall|i: int| rt_i <= i < 16 ==> (#[trigger] children.cs()[i]) is None,
    decreases 16 - rt_i,
//@afterloop 0
    assert(entries(k0, children.cs(), version));
//@end
}
pub open spec fn entries(ks: Ki, cs: Cs, v: u64) -> bool { ks.len() == 16 && cs.len() == 16 && forall|i: int| 0 <= i < 16 ==> entry(#[trigger] ks[i], cs[i], v) }
// ---------------------------------------------------------------- what the partial nodes say of the pairs received
pub open spec fn kid_ok(m: KV, q: Seq<u8>, o: Option<ChildInfo>) -> bool {
    match o {
        None => nnone(m, q),
        Some(ChildInfo::Leaf { node }) => nonly(m, q, node.k()) && m[node.k()] == node.v(),
        Some(ChildInfo::Internal { hash: Some(h), leaf_count: Some(n) }) => many(m, q) && h@ == smt(m, pb(q)) && smt_hashed(m, pb(q)) && n == nset(m, q).len(),
        _ => false,
    }
}
pub open spec fn pp(k: Seq<u8>, i: int) -> Seq<u8> { nibs_of(k).take(i) }
pub open spec fn newest(m: KV, pr: Seq<u8>) -> bool { m.contains_key(pr) && forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> k == pr || nless(k, pr) }
pub open spec fn top(m: KV) -> Seq<u8> { choose|k: Seq<u8>| newest(m, k) }
pub proof fn top_is(m: KV, k: Seq<u8>)
    requires newest(m, k), kv_ok(m),
    ensures top(m) == k,
{ let y = top(m); assert(newest(m, y)); if y != k { assert(m.contains_key(y) && m.contains_key(k)); nless_not_both(y, k); } }
pub open spec fn lev(x: InternalInfo, ver: u64, p: Seq<u8>) -> bool { x.node_key.wf() && x.node_key.version == ver && x.p() == p && x.ks().len() == 16 }
// the entry j of level i, where the last key received goes through the entries nibn(pr, i)
pub open spec fn kid_at(pn: Seq<InternalInfo>, m: KV, pr: Seq<u8>, i: int, j: int) -> bool {
    let o = pn[i].ks()[j];
    &&& (j > nibn(pr, i) ==> o is None)
    &&& (if j == nibn(pr, i) && i + 1 < pn.len() { opened(o) } else { kid_ok(m, pp(pr, i).push(j as u8), o) })
}
pub open spec fn shape(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>) -> bool {
    &&& 1 <= pn.len() <= 64 && pr.len() == 32 && kv_ok(m) && newest(m, pr)
    &&& forall|i: int| 0 <= i < pn.len() ==> lev(#[trigger] pn[i], ver, pp(pr, i))
    &&& forall|i: int, j: int| 0 <= i < pn.len() && 0 <= j < 16 ==> #[trigger] kid_at(pn, m, pr, i, j)
}
pub open spec fn last_kid(pn: Seq<InternalInfo>, pr: Seq<u8>) -> Option<ChildInfo> { pn.last().ks()[nibn(pr, pn.len() - 1) as int] }
pub open spec fn leaf_last(pn: Seq<InternalInfo>, m: KV, pr: Seq<u8>) -> bool { last_kid(pn, pr) matches Some(ChildInfo::Leaf { node }) && node.k() == pr && node.v() == m[pr] }
// the children that are complete are in the store; `all`: the last one of the lowest level too
pub open spec fn kid_in(w: W, pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, all: bool, i: int, j: int) -> bool {
    pn[i].ks()[j] is Some && (j != nibn(pr, i) || (all && i + 1 == pn.len())) ==> rep(w, ver, pp(pr, i).push(j as u8), m)
}
pub open spec fn kids_in(w: W, pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, all: bool) -> bool { forall|i: int, j: int| 0 <= i < pn.len() && 0 <= j < 16 ==> #[trigger] kid_in(w, pn, ver, m, pr, all, i, j) }
pub open spec fn vals_in<H: SimpleHasher>(vv: Map<(u64, Seq<u8>), Option<OwnedValue>>, ver: u64, m: KV) -> bool {
    forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> vv.contains_key((ver, k)) && (vv[(ver, k)] matches Some(x) && m[k] == H::dig(x@))
}
pub proof fn pp_facts(k: Seq<u8>, i: int)
    requires k.len() == 32, 0 <= i <= 64,
    ensures pp(k, i).len() == i, nibs16(pp(k, i)), npre(pp(k, i), k), i < 64 ==> pp(k, i + 1) =~= pp(k, i).push(nibn(k, i)) && nibn(k, i) < 16, i > 0 ==> pp(k, i).drop_last() =~= pp(k, i - 1) && pp(k, i).last() == nibn(k, i - 1), pp(k, 0) =~= Seq::empty(),
{
    assert forall|j: int| 0 <= j < 64 implies #[trigger] nibn(k, j) < 16 by { nib16(k, j); }
}
pub proof fn many_up(m: KV, p: Seq<u8>, x: u8)
    requires many(m, p.push(x)),
    ensures many(m, p),
{
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p.push(x), a, b);
    npre_push(p, x, a);
    npre_push(p, x, b);
    assert(two(m, p, a, b));
}
// the last entry of the lowest level is the one of the last key
pub open spec fn right_end(pn: Seq<InternalInfo>, ver: u64, pr: Seq<u8>) -> bool {
    let x = nibn(pr, pn.len() - 1);
    let l = pn.last();
    &&& lev(l, ver, pp(pr, pn.len() - 1)) && x < 16 && l.ks()[x as int] is Some && pn.len() <= 64
    &&& forall|j: int| x < j < 16 ==> (#[trigger] l.ks()[j]) is None
    &&& pp(pr, pn.len() as int) == pp(pr, pn.len() - 1).push(x) && pp(pr, pn.len() - 1).len() == pn.len() - 1
}
pub proof fn last_is(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>)
    requires shape(pn, ver, m, pr),
    ensures right_end(pn, ver, pr),
{
    let n = pn.len() - 1;
    pp_facts(pr, n);
    let x = nibn(pr, n);
    assert(kid_at(pn, m, pr, n, x as int));
    npre_push(pp(pr, n), x, pr);
    assert(nund(m, pp(pr, n).push(x), pr));
    assert(lev(pn[n], ver, pp(pr, n)));
    assert forall|j: int| x < j < 16 implies (#[trigger] pn.last().ks()[j]) is None by { assert(kid_at(pn, m, pr, n, j)); }
}
// a node put elsewhere leaves a subtree as it is
pub proof fn rep_put(w: W, v: u64, p: Seq<u8>, m: KV, k: NK, n: Node)
    requires rep(w, v, p, m), !isp(p, k.1),
    ensures rep(w.insert(k, n), v, p, m), w.insert(k, n).contains_key((v, p)), w.insert(k, n)[(v, p)] == w[(v, p)],
{
    let b = w.insert(k, n);
    assert(same_below(w, b, p)) by { assert forall|x: NK| isp(p, x.1) implies #[trigger] at(w, x) == at(b, x) by { assert(x != k); } }
    assert(agree_below(m, m, p));
    rep_frame(w, b, v, p, m, m);
}
// entries made of complete children
pub proof fn entries_kids(m: KV, p: Seq<u8>, ks: Ki, cs: Cs, v: u64)
    requires kv_ok(m), nibs16(p), p.len() < 64, entries(ks, cs, v), forall|j: int| 0 <= j < 16 ==> kid_ok(m, p.push(j as u8), #[trigger] ks[j]),
    ensures kidsc(m, p, cs),
{
    assert forall|i: int| 0 <= i < 16 implies kidc(m, p.push(i as u8), #[trigger] cs[i]) by {
        let q = p.push(i as u8);
        assert(kid_ok(m, q, ks[i]));
        assert(entry(ks[i], cs[i], v));
        match ks[i] {
            None => { }
            Some(ChildInfo::Leaf { node }) => {
                let k = node.k();
                assert(nibs16(q));
                assert forall|x: Seq<u8>| #[trigger] under(m, pb(q), x) implies x == k by { pb_pre(q, x); assert(nund(m, q, x)); }
                pb_pre(q, k);
                assert(under(m, pb(q), k));
                assert(only(m, pb(q), k));
                only_is(m, pb(q), k);
                assert(nund(m, q, k));
                assert(one(m, q));
                assert(nset(m, q) =~= set![k]) by { assert forall|x: Seq<u8>| nset(m, q).contains(x) implies x == k by { assert(nund(m, q, x)); } }
            }
            Some(ChildInfo::Internal { hash, leaf_count }) => { many_not_one(m, q); }
        }
    }
}
// a node with two pairs below it can be made of its children
pub proof fn kids_many(m: KV, p: Seq<u8>, cs: Cs)
    requires kv_ok(m), p.len() < 64, kidsc(m, p, cs), many(m, p),
    ensures node_ok(cs),
{
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p, a, b);
    let d = p.len() as int;
    nib16(a, d);
    nib16(b, d);
    let x = nibn(a, d);
    let y = nibn(b, d);
    npre_push(p, x, a);
    npre_push(p, y, b);
    assert(kidc(m, p.push(x), cs[x as int]));
    assert(kidc(m, p.push(y), cs[y as int]));
    assert(nund(m, p.push(x), a));
    assert(nund(m, p.push(y), b));
    assert(cs[x as int] is Some);
    assert forall|j: int| !sole_leaf(cs, 0, 16, j) by {
        if sole_leaf(cs, 0, 16, j) {
            assert(j == x && j == y);
            let k = choose|k: Seq<u8>| #[trigger] nonly(m, p.push(x), k);
            assert(a == k && b == k);
        }
    }
}
// what was put in the store for a node
pub proof fn rep_made(w: W, v: u64, p: Seq<u8>, m: KV, ks: Ki, n: InternalNode)
    requires kv_ok(m), nibs16(p), p.len() < 64, n.wf(), entries(ks, n.cs(), v), w.contains_key((v, p)), w[(v, p)] == Node::Internal(n),
        forall|j: int| 0 <= j < 16 ==> kid_ok(m, p.push(j as u8), #[trigger] ks[j]),
        forall|j: int| 0 <= j < 16 && (#[trigger] ks[j]) is Some ==> rep(w, v, p.push(j as u8), m),
    ensures rep(w, v, p, m),
{
    entries_kids(m, p, ks, n.cs(), v);
    assert forall|i: int| 0 <= i < 16 implies crep(w, v, p, m, #[trigger] n.cs()[i], i) by {
        let q = p.push(i as u8);
        assert(kid_ok(m, q, ks[i]));
        assert(entry(ks[i], n.cs()[i], v));
        assert(kidc(m, q, n.cs()[i]));
        if ks[i] is Some {
            assert(rep(w, v, q, m));
            assert(nibs16(q));
            rep_smt(w, v, q, m);
            rep_count(w, v, q, m);
            let nn = w[(v, q)];
            if !(nn is Null) { rep_some(w, v, q, m); }
            let c = n.cs()[i]->0;
            assert(c.version == v);
            if nn is Leaf {
                let k = nn->Leaf_0.k();
                assert(nonly(m, q, k));
                if !(c.node_type is Leaf) { many_not_one(m, q); }
            } else if nn is Internal {
                if c.node_type is Leaf { many_not_one(m, q); let k = choose|k: Seq<u8>| #[trigger] nonly(m, q, k); }
            }
            assert(!(nn is Null));
        }
    }
    rep_from(w, v, p, m, n);
}
// the entry of the lowest level in its parent
pub proof fn parent_end(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>)
    requires shape(pn, ver, m, pr), pn.len() > 1,
    ensures ({ let e = pn.len() - 2; let x = nibn(pr, e); lev(pn[e], ver, pp(pr, e)) && x < 16 && opened(pn[e].ks()[x as int]) && forall|j: int| x < j < 16 ==> (#[trigger] pn[e].ks()[j]) is None }),
{
    let e = pn.len() - 2;
    pp_facts(pr, e);
    let x = nibn(pr, e);
    assert(kid_at(pn, m, pr, e, x as int));
    assert(lev(pn[e], ver, pp(pr, e)));
    assert forall|j: int| x < j < 16 implies (#[trigger] pn[e].ks()[j]) is None by { assert(kid_at(pn, m, pr, e, j)); }
}
pub open spec fn complete(m: KV, p: Seq<u8>, ks: Ki) -> bool { kv_ok(m) && nibs16(p) && p.len() < 64 && forall|j: int| 0 <= j < 16 ==> kid_ok(m, p.push(j as u8), #[trigger] ks[j]) }
// a complete level can be made into a node
pub proof fn fits(m: KV, p: Seq<u8>, ks: Ki, v: u64)
    requires complete(m, p, ks), m.len() <= usize::MAX,
    ensures forall|cs: Cs| #[trigger] entries(ks, cs, v) ==> kidsc(m, p, cs) && lknown(cs, 16) <= usize::MAX && (many(m, p) ==> node_ok(cs)),
        forall|i: int| 0 <= i < 16 ==> known(#[trigger] ks[i]),
{
    assert forall|cs: Cs| #[trigger] entries(ks, cs, v) implies kidsc(m, p, cs) && lknown(cs, 16) <= usize::MAX && (many(m, p) ==> node_ok(cs)) by {
        entries_kids(m, p, ks, cs, v);
        kids_node(m, p, cs);
        vstd::set_lib::lemma_len_subset(nset(m, p), m.dom());
        if many(m, p) { kids_many(m, p, cs); }
    }
    assert forall|i: int| 0 <= i < 16 implies known(#[trigger] ks[i]) by { assert(kid_ok(m, p.push(i as u8), ks[i])); }
}
pub proof fn last_complete(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>)
    requires shape(pn, ver, m, pr),
    ensures complete(m, pp(pr, pn.len() - 1), pn.last().ks()), lev(pn.last(), ver, pp(pr, pn.len() - 1)),
{
    let d = pn.len() - 1;
    pp_facts(pr, d);
    assert(lev(pn[d], ver, pp(pr, d)));
    assert forall|j: int| 0 <= j < 16 implies kid_ok(m, pp(pr, d).push(j as u8), #[trigger] pn.last().ks()[j]) by { assert(kid_at(pn, m, pr, d, j)); }
}
pub open spec fn node_child(n: InternalNode, h: [u8; 32]) -> Option<ChildInfo> { Some(ChildInfo::Internal { hash: Some(h), leaf_count: n.leaf_count }) }
// the lowest level made into a node
pub proof fn popped(w: W, pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, n: InternalNode, h: [u8; 32], pn2: Seq<InternalInfo>)
    requires shape(pn, ver, m, pr), kids_in(w, pn, ver, m, pr, true), m.len() <= usize::MAX, many(m, pp(pr, pn.len() - 1)),
        n.wf(), entries(pn.last().ks(), n.cs(), ver), h@ == ntree(n.cs(), 0, 16), ntree_hashed(n.cs(), 0, 16),
        pn2.len() == pn.len() - 1, forall|i: int| 0 <= i < pn2.len() - 1 ==> pn2[i] == pn[i],
        pn2.len() > 0 ==> pn2.last().node_key == pn[pn2.len() - 1].node_key && pn2.last().ks() == pn[pn2.len() - 1].ks().update(nibn(pr, pn2.len() - 1) as int, node_child(n, h)),
    ensures ({ let w2 = w.insert((ver, pp(pr, pn.len() - 1)), Node::Internal(n));
        &&& pn2.len() == 0 ==> rep(w2, ver, Seq::empty(), m) && pp(pr, pn.len() - 1) == Seq::<u8>::empty() && smt_hashed(m, Seq::empty())
        &&& pn2.len() > 0 ==> shape(pn2, ver, m, pr) && kids_in(w2, pn2, ver, m, pr, true) && many(m, pp(pr, pn2.len() - 1))
    }),
{
    let d = pn.len() - 1;
    let p = pp(pr, d);
    let w2 = w.insert((ver, p), Node::Internal(n));
    let ks = pn.last().ks();
    pp_facts(pr, d);
    last_complete(pn, ver, m, pr);
    entries_kids(m, p, ks, n.cs(), ver);
    kids_node(m, p, n.cs());
    assert forall|j: int| 0 <= j < 16 && (#[trigger] ks[j]) is Some implies rep(w2, ver, p.push(j as u8), m) by {
        assert(kid_in(w, pn, ver, m, pr, true, d, j));
        rep_put(w, ver, p.push(j as u8), m, (ver, p), Node::Internal(n));
    }
    rep_made(w2, ver, p, m, ks, n);
    if d == 0 { assert(pb(p) =~= Seq::<bool>::empty()); }
    if d > 0 {
        let e = d - 1;
        pp_facts(pr, e);
        let x = nibn(pr, e);
        many_up(m, pp(pr, e), x);
        assert(lev(pn[e], ver, pp(pr, e)));
        assert forall|i: int| 0 <= i < pn2.len() implies lev(#[trigger] pn2[i], ver, pp(pr, i)) by { assert(lev(pn[i], ver, pp(pr, i))); }
        assert forall|i: int, j: int| 0 <= i < pn2.len() && 0 <= j < 16 implies #[trigger] kid_at(pn2, m, pr, i, j) by { assert(kid_at(pn, m, pr, i, j)); pp_facts(pr, i); }
        assert forall|i: int, j: int| 0 <= i < pn2.len() && 0 <= j < 16 implies #[trigger] kid_in(w2, pn2, ver, m, pr, true, i, j) by {
            assert(kid_in(w, pn, ver, m, pr, true, i, j));
            pp_facts(pr, i);
            let q = pp(pr, i).push(j as u8);
            if j != nibn(pr, i) {
                if pn2[i].ks()[j] is Some {
                    assert(!isp(q, p)) by { assert(q[i] == j as u8); assert(p[i] == nibn(pr, i)); }
                    rep_put(w, ver, q, m, (ver, p), Node::Internal(n));
                }
            } else if i == e { assert(q == p); }
        }
    }
}
// the last leaf put in the store
pub proof fn leafed(w: W, pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>)
    requires shape(pn, ver, m, pr), leaf_last(pn, m, pr), kids_in(w, pn, ver, m, pr, false),
    ensures kids_in(w.insert((ver, pp(pr, pn.len() as int)), Node::Leaf(last_kid(pn, pr)->0->node)), pn, ver, m, pr, true),
{
    let n = Node::Leaf(last_kid(pn, pr)->0->node);
    let d = pn.len() - 1;
    let t = pp(pr, pn.len() as int);
    let w2 = w.insert((ver, t), n);
    pp_facts(pr, d);
    pp_facts(pr, d + 1);
    assert forall|i: int, j: int| 0 <= i < pn.len() && 0 <= j < 16 implies #[trigger] kid_in(w2, pn, ver, m, pr, true, i, j) by {
        assert(kid_in(w, pn, ver, m, pr, false, i, j));
        pp_facts(pr, i);
        let q = pp(pr, i).push(j as u8);
        if j != nibn(pr, i) {
            if pn[i].ks()[j] is Some {
                assert(!isp(q, t)) by { assert(q[i] == j as u8); assert(t[i] == nibn(pr, i)); }
                rep_put(w, ver, q, m, (ver, t), n);
            }
        } else if i == d {
            assert(q == t);
            assert(kid_at(pn, m, pr, d, j));
            assert(w2[(ver, t)] == n);
        }
    }
}
// a pair added to the right of all, at a level where its place is free
pub proof fn kid_frame(m: KV, q: Seq<u8>, o: Option<ChildInfo>, k: Seq<u8>, v: Seq<u8>)
    requires kid_ok(m, q, o), !npre(q, k), nibs16(q), q.len() <= 64, kv_ok(m), k.len() == 32, v.len() == 32,
    ensures kid_ok(m.insert(k, v), q, o),
{
    let n = m.insert(k, v);
    assert forall|x: Seq<u8>| #[trigger] nund(n, q, x) <==> nund(m, q, x) by { }
    match o {
        None => { assert forall|x: Seq<u8>| !#[trigger] nund(n, q, x) by { assert(!nund(m, q, x)); } }
        Some(ChildInfo::Leaf { node }) => {
            assert(nund(m, q, node.k()));
            assert forall|x: Seq<u8>| #[trigger] nund(n, q, x) implies x == node.k() by { assert(nund(m, q, x)); }
        }
        Some(ChildInfo::Internal { hash, leaf_count }) => {
            let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, q, a, b);
            assert(two(n, q, a, b));
            assert(nset(n, q) =~= nset(m, q));
            assert(same_under(m, n, pb(q))) by { assert forall|x: Seq<u8>| pre(pb(q), x) implies (#[trigger] m.contains_key(x) <==> n.contains_key(x)) && (m.contains_key(x) ==> m[x] == n[x]) by { if x == k { pb_pre(q, k); } } }
            smt_same(m, n, pb(q));
        }
    }
}
pub proof fn smt_same(a: KV, b: KV, q: Seq<bool>)
    requires same_under(a, b, q),
    ensures smt(a, q) == smt(b, q), smt_hashed(a, q) == smt_hashed(b, q),
    decreases 256 - q.len(),
{
    assert forall|k: Seq<u8>| (#[trigger] under(a, q, k)) == under(b, q, k) by { if pre(q, k) { assert(a.contains_key(k) == b.contains_key(k)); } }
    assert forall|k: Seq<u8>| (#[trigger] under(b, q, k)) == under(a, q, k) by { if pre(q, k) { assert(a.contains_key(k) == b.contains_key(k)); } }
    assert(none(a, q) == none(b, q)) by {
        if none(a, q) { assert forall|k: Seq<u8>| !#[trigger] under(b, q, k) by { assert(!under(a, q, k)); } }
        if none(b, q) { assert forall|k: Seq<u8>| !#[trigger] under(a, q, k) by { assert(!under(b, q, k)); } }
    }
    if !none(a, q) {
        if exists|k: Seq<u8>| only(a, q, k) {
            let k = choose|k: Seq<u8>| only(a, q, k);
            assert(only(b, q, k)) by { assert(under(a, q, k)); assert forall|x: Seq<u8>| #[trigger] under(b, q, x) implies x == k by { assert(under(a, q, x)); } }
            only_is(a, q, k);
            only_is(b, q, k);
            assert(a.contains_key(k));
        } else {
            if exists|k: Seq<u8>| only(b, q, k) {
                let k = choose|k: Seq<u8>| only(b, q, k);
                assert(only(a, q, k)) by { assert(under(b, q, k)); assert forall|x: Seq<u8>| #[trigger] under(a, q, x) implies x == k by { assert(under(b, q, x)); } }
            }
            if q.len() < 256 {
                assert forall|c: bool| same_under(a, b, #[trigger] q.push(c)) by {
                    assert forall|k: Seq<u8>| pre(q.push(c), k) implies (#[trigger] a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k]) by {
                        assert(pre(q, k)) by { assert forall|i: int| 0 <= i < q.len() implies #[trigger] bitn(k, i) == q[i] by { assert(q.push(c)[i] == q[i]); } }
                    }
                }
                smt_same(a, b, q.push(false));
                smt_same(a, b, q.push(true));
            }
        }
    }
}
pub proof fn joined(w: W, pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, k: Seq<u8>, v: Seq<u8>, node: LeafNode, pn2: Seq<InternalInfo>)
    requires shape(pn, ver, m, pr), kids_in(w, pn, ver, m, pr, true), nlt_at(pr, k, pn.len() - 1), k.len() == 32, v.len() == 32, node.k() == k, node.v() == v,
        pn2.len() == pn.len(), forall|i: int| 0 <= i < pn.len() - 1 ==> pn2[i] == pn[i],
        pn2.last().node_key == pn.last().node_key, pn2.last().ks() == pn.last().ks().update(nibn(k, pn.len() - 1) as int, Some(ChildInfo::Leaf { node })),
    ensures ({ let n = m.insert(k, v); shape(pn2, ver, n, k) && leaf_last(pn2, n, k) && kids_in(w, pn2, ver, n, k, false) && many(n, pp(k, pn.len() - 1)) && top(n) == k }),
{
    let n = m.insert(k, v);
    let d = pn.len() - 1;
    assert forall|x: Seq<u8>| #[trigger] n.contains_key(x) implies x == k || nless(x, k) by {
        if x != k { assert(m.contains_key(x)); if x != pr { nless_trans(x, pr, k); } }
    }
    assert(n.contains_key(k));
    assert(newest(n, k));
    assert(kv_ok(n));
    top_is(n, k);
    assert forall|i: int| 0 <= i <= d implies pp(k, i) == pp(pr, i) by { pp_facts(k, i); pp_facts(pr, i); assert(pp(k, i) =~= pp(pr, i)); }
    assert forall|i: int| 0 <= i < pn2.len() implies lev(#[trigger] pn2[i], ver, pp(k, i)) by { assert(lev(pn[i], ver, pp(pr, i))); }
    assert forall|i: int, j: int| 0 <= i < pn2.len() && 0 <= j < 16 implies #[trigger] kid_at(pn2, n, k, i, j) && kid_in(w, pn2, ver, n, k, false, i, j) by {
        assert(kid_at(pn, m, pr, i, j));
        assert(kid_in(w, pn, ver, m, pr, true, i, j));
        pp_facts(k, i);
        let p = pp(k, i);
        let q = p.push(j as u8);
        npre_push(p, j as u8, k);
        if j != nibn(k, i) {
            assert(!npre(q, k));
            assert(nibs16(q));
            kid_frame(m, q, pn[i].ks()[j], k, v);
            if pn2[i].ks()[j] is Some {
                assert(agree_below(m, n, q)) by { assert forall|x: Seq<u8>| npre(q, x) implies (#[trigger] m.contains_key(x) <==> n.contains_key(x)) && (m.contains_key(x) ==> m[x] == n[x]) by { } }
                assert(same_below(w, w, q));
                rep_frame(w, w, ver, q, m, n);
            }
        } else if i == d {
            assert(nund(n, q, k));
            assert(pn[i].ks()[j] is None);
            assert forall|x: Seq<u8>| #[trigger] nund(n, q, x) implies x == k by { if x != k { assert(nund(m, q, x)); } }
        }
    }
    assert forall|i: int, j: int| 0 <= i < pn2.len() && 0 <= j < 16 implies #[trigger] kid_in(w, pn2, ver, n, k, false, i, j) by { assert(kid_at(pn2, n, k, i, j)); }
    pp_facts(pr, d);
    assert(two(n, pp(k, d), pr, k)) by { pp_facts(k, d); assert(pr != k); }
}
pub proof fn nless_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires nless(a, b), nless(b, c),
    ensures nless(a, c),
{
    let i = choose|i: int| #[trigger] nlt_at(a, b, i);
    let j = choose|j: int| #[trigger] nlt_at(b, c, j);
    if i <= j { assert(nlt_at(a, c, i)); } else { assert(nlt_at(a, c, j)); }
}
pub proof fn shape_bound(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>)
    requires shape(pn, ver, m, pr),
    ensures 1 <= pn.len() <= 64, pr.len() == 32, kv_ok(m), newest(m, pr),
{ }
// the last leaf moved down to where it meets the next key
pub open spec fn link(x: InternalInfo, ver: u64, pr: Seq<u8>, i: int, o: Option<ChildInfo>) -> bool { lev(x, ver, pp(pr, i)) && forall|j: int| 0 <= j < 16 ==> #[trigger] x.ks()[j] == (if j == nibn(pr, i) { o } else { None }) }
pub open spec fn open_kid() -> Option<ChildInfo> { Some(ChildInfo::Internal { hash: None, leaf_count: None }) }
pub proof fn deepened(w: W, pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, c: int, pn2: Seq<InternalInfo>)
    requires shape(pn, ver, m, pr), leaf_last(pn, m, pr), kids_in(w, pn, ver, m, pr, false), pn.len() <= c < 64, pn2.len() == c + 1,
        forall|i: int| 0 <= i < pn.len() - 1 ==> pn2[i] == pn[i],
        pn2[pn.len() - 1].node_key == pn.last().node_key, pn2[pn.len() - 1].ks() == pn.last().ks().update(nibn(pr, pn.len() - 1) as int, open_kid()),
        forall|i: int| pn.len() <= i < c ==> link(#[trigger] pn2[i], ver, pr, i, open_kid()), link(pn2[c], ver, pr, c, last_kid(pn, pr)),
    ensures shape(pn2, ver, m, pr), leaf_last(pn2, m, pr), kids_in(w, pn2, ver, m, pr, false),
{
    let d = pn.len() - 1;
    assert(kid_at(pn, m, pr, d, nibn(pr, d) as int)) by { pp_facts(pr, d); }
    assert forall|i: int| 0 <= i < pn2.len() implies lev(#[trigger] pn2[i], ver, pp(pr, i)) by { if i < pn.len() { assert(lev(pn[i], ver, pp(pr, i))); } else if i < c { assert(link(pn2[i], ver, pr, i, open_kid())); } }
    assert forall|i: int, j: int| 0 <= i < pn2.len() && 0 <= j < 16 implies #[trigger] kid_at(pn2, m, pr, i, j) && kid_in(w, pn2, ver, m, pr, false, i, j) by {
        pp_facts(pr, i);
        if i < pn.len() {
            assert(kid_at(pn, m, pr, i, j));
            assert(kid_in(w, pn, ver, m, pr, false, i, j));
        } else {
            if i < c { assert(link(pn2[i], ver, pr, i, open_kid())); }
            let o = pn2[i].ks()[j];
            let q = pp(pr, i).push(j as u8);
            let t = pp(pr, d).push(nibn(pr, d));
            assert forall|x: Seq<u8>| #[trigger] nund(m, q, x) implies x == pr by {
                assert(npre(t, x)) by { assert forall|e: int| 0 <= e < t.len() implies nibn(x, e) == #[trigger] t[e] by { pp_facts(pr, d); assert(q[e] == pp(pr, i)[e]); } }
                assert(nund(m, t, x));
            }
            npre_push(pp(pr, i), j as u8, pr);
            if j == nibn(pr, i) {
                if i == c { assert(nund(m, q, pr)); }
            } else {
                assert forall|x: Seq<u8>| !#[trigger] nund(m, q, x) by { if nund(m, q, x) { assert(x == pr); } }
            }
        }
    }
    assert forall|i: int, j: int| 0 <= i < pn2.len() && 0 <= j < 16 implies #[trigger] kid_in(w, pn2, ver, m, pr, false, i, j) by { assert(kid_at(pn2, m, pr, i, j)); }
}
pub open spec fn common(a: Seq<u8>, b: Seq<u8>, r: int) -> bool { 0 <= r <= 64 && (forall|i: int| 0 <= i < r ==> #[trigger] nibn(a, i) == nibn(b, i)) && (r < 64 ==> nibn(a, r) != nibn(b, r)) }
pub proof fn cpl_is(a: Seq<u8>, b: Seq<u8>, c: int, r: int)
    requires nlt_at(a, b, c), common(a, b, r),
    ensures r == c,
{ if r < c { assert(nibn(a, r) == nibn(b, r)); } else if r > c { assert(nibn(a, c) == nibn(b, c)); } }
// before the first pair
pub open spec fn blank_level(x: InternalInfo, ver: u64) -> bool { lev(x, ver, Seq::empty()) && forall|j: int| 0 <= j < 16 ==> (#[trigger] x.ks()[j]) is None }
pub proof fn first_pair(w: W, x: InternalInfo, ver: u64, k: Seq<u8>, v: Seq<u8>, node: LeafNode, pn2: Seq<InternalInfo>)
    requires blank_level(x, ver), k.len() == 32, v.len() == 32, node.k() == k, node.v() == v,
        pn2.len() == 1, pn2[0].node_key == x.node_key, pn2[0].ks() == x.ks().update(nibn(k, 0) as int, Some(ChildInfo::Leaf { node })),
    ensures ({ let n = Map::<Seq<u8>, Seq<u8>>::empty().insert(k, v); shape(pn2, ver, n, k) && leaf_last(pn2, n, k) && kids_in(w, pn2, ver, n, k, false) && top(n) == k }),
{
    let n = Map::<Seq<u8>, Seq<u8>>::empty().insert(k, v);
    assert(newest(n, k));
    assert(kv_ok(n));
    top_is(n, k);
    pp_facts(k, 0);
    assert forall|i: int, j: int| 0 <= i < pn2.len() && 0 <= j < 16 implies #[trigger] kid_at(pn2, n, k, i, j) && kid_in(w, pn2, ver, n, k, false, i, j) by {
        let q = pp(k, 0).push(j as u8);
        npre_push(pp(k, 0), j as u8, k);
        if j == nibn(k, 0) { assert(nund(n, q, k)); } else { assert forall|x: Seq<u8>| !#[trigger] nund(n, q, x) by { } }
    }
    assert forall|i: int, j: int| 0 <= i < pn2.len() && 0 <= j < 16 implies #[trigger] kid_in(w, pn2, ver, n, k, false, i, j) by { assert(kid_at(pn2, n, k, i, j)); }
}
// the entry the next key goes through at level i, the levels above being shared
pub proof fn next_entry(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, k: Seq<u8>, i: int)
    requires shape(pn, ver, m, pr), leaf_last(pn, m, pr), nless(pr, k), k.len() == 32, 0 <= i < pn.len(), pp(pr, i) == pp(k, i),
    ensures lev(pn[i], ver, pp(k, i)), nibn(k, i) < 16, nibn(pr, i) < 16, ({ let o = pn[i].ks()[nibn(k, i) as int];
        &&& o is None ==> nlt_at(pr, k, i)
        &&& o is Some ==> nibn(k, i) == nibn(pr, i) && pp(pr, i + 1) == pp(k, i + 1)
        &&& o is Some && i + 1 == pn.len() ==> o == last_kid(pn, pr) && o->0 is Leaf
        &&& o is Some && i + 1 < pn.len() ==> opened(o)
    }),
{
    pp_facts(pr, i);
    pp_facts(k, i);
    let x = nibn(k, i);
    assert(kid_at(pn, m, pr, i, x as int));
    assert(lev(pn[i], ver, pp(pr, i)));
    let c = choose|c: int| #[trigger] nlt_at(pr, k, c);
    if c < i { assert(pp(pr, i)[c] == nibn(pr, c) && pp(k, i)[c] == nibn(k, c)); }
    assert forall|j: int| 0 <= j < i implies #[trigger] nibn(pr, j) == nibn(k, j) by { assert(pp(pr, i)[j] == nibn(pr, j) && pp(k, i)[j] == nibn(k, j)); }
    let y = nibn(pr, i);
    if x == y {
        assert(pp(pr, i + 1) =~= pp(k, i + 1));
        assert(kid_at(pn, m, pr, i, y as int));
        if i + 1 < pn.len() { } else { }
    } else {
        assert(c == i);
        assert(nlt_at(pr, k, i));
    }
}
// ---------------------------------------------------------------- the siblings to the left of the last key
pub open spec fn pow2(n: int) -> bool { n == 1 || n == 2 || n == 4 || n == 8 || n == 16 }
#[verifier::external_body]
pub fn rt_pow2(n: usize) -> (r: bool) ensures pow2(n as int) ==> r, { n.is_power_of_two() }
#[verifier::external_body]
pub fn rt_slice<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= s@.len(), ensures r@ == s@.subrange(a as int, b as int), { &s[a..b] }
#[verifier::external_body]
pub fn rt_slice16<T>(s: &[T; 16], a: usize, b: usize) -> (r: &[T]) requires a <= b <= 16, ensures r@ == s@.subrange(a as int, b as int), { &s[a..b] }
#[verifier::external_body]
pub fn rt_hash_of(h: &Option<[u8; 32]>) -> (r: &[u8; 32]) requires *h is Some, ensures *h == Some(*r), { h.as_ref().unwrap() }
// a run of entries of a level: what its subtree is
pub open spec fn run(cs: Ki, m: KV, p: Seq<u8>, s: int, h: int) -> bool {
    &&& kv_ok(m) && nibs16(p) && p.len() < 64 && 0 <= h <= 4 && 0 <= s < 16 && s % w_of(h) == 0 && cs.len() == w_of(h)
    &&& forall|j: int| 0 <= j < cs.len() ==> kid_ok(m, p.push((s + j) as u8), #[trigger] cs[j])
}
pub open spec fn run_is(m: KV, p: Seq<u8>, s: int, h: int, x: Seq<u8>, f: bool) -> bool { let q = pbits(p, s, h); x == smt(m, q) && smt_hashed(m, q) && (f <==> few(m, q)) }
pub proof fn run_one(cs: Ki, m: KV, p: Seq<u8>, s: int)
    requires run(cs, m, p, s, 0), cs.len() == 1,
    ensures match cs[0] {
        None => run_is(m, p, s, 0, ph(), true),
        Some(ChildInfo::Leaf { node }) => hashed(leaf_pre(node.k(), node.v())) ==> run_is(m, p, s, 0, lh(node.k(), node.v()), true),
        Some(ChildInfo::Internal { hash, leaf_count }) => hash matches Some(x) && run_is(m, p, s, 0, x@, false),
    },
{
    let q = p.push(s as u8);
    pbits_ends(p, s, 0);
    assert(kid_ok(m, q, cs[0]));
    assert(nibs16(q));
    match cs[0] {
        None => { assert forall|x: Seq<u8>| !#[trigger] under(m, pb(q), x) by { if under(m, pb(q), x) { pb_pre(q, x); assert(nund(m, q, x)); } } assert(none(m, pb(q))); }
        Some(ChildInfo::Leaf { node }) => {
            let k = node.k();
            assert(nund(m, q, k));
            assert forall|x: Seq<u8>| #[trigger] under(m, pb(q), x) implies x == k by { pb_pre(q, x); assert(nund(m, q, x)); }
            pb_pre(q, k);
            assert(only(m, pb(q), k));
            only_is(m, pb(q), k);
        }
        Some(ChildInfo::Internal { hash, leaf_count }) => {
            let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, q, a, b);
            pb_pre(q, a);
            pb_pre(q, b);
            assert(under(m, pb(q), a) && under(m, pb(q), b));
        }
    }
}
pub proof fn run_split(cs: Ki, m: KV, p: Seq<u8>, s: int, h: int)
    requires run(cs, m, p, s, h), h > 0,
    ensures run(cs.subrange(0, w_of(h - 1)), m, p, s, h - 1), run(cs.subrange(w_of(h - 1), w_of(h)), m, p, s + w_of(h - 1), h - 1), w_of(h) == 2 * w_of(h - 1),
{
    pbits_ends(p, s, h);
    let a = cs.subrange(0, w_of(h - 1));
    let b = cs.subrange(w_of(h - 1), w_of(h));
    assert forall|j: int| 0 <= j < a.len() implies kid_ok(m, p.push((s + j) as u8), #[trigger] a[j]) by { assert(a[j] == cs[j]); }
    assert forall|j: int| 0 <= j < b.len() implies kid_ok(m, p.push((s + w_of(h - 1) + j) as u8), #[trigger] b[j]) by { assert(b[j] == cs[w_of(h - 1) + j]); assert(s + w_of(h - 1) + j == s + (w_of(h - 1) + j)); }
}
pub open spec fn run_first(o: Option<ChildInfo>, m: KV, p: Seq<u8>, s: int, h: int) -> bool {
    match o {
        None => run_is(m, p, s, h, ph(), true),
        Some(ChildInfo::Leaf { node }) => hashed(leaf_pre(node.k(), node.v())) ==> run_is(m, p, s, h, lh(node.k(), node.v()), true),
        Some(ChildInfo::Internal { hash, leaf_count }) => hash matches Some(x) && run_is(m, p, s, h, x@, false),
    }
}
pub open spec fn run_joined(m: KV, p: Seq<u8>, s: int, h: int, x: Seq<u8>, f: bool, y: Seq<u8>, g: bool) -> bool {
    &&& x =~= ph() && g ==> run_is(m, p, s, h, y, true)
    &&& !(x =~= ph() && g) && f && y =~= ph() ==> run_is(m, p, s, h, x, true)
    &&& !(x =~= ph() && g) && !(f && y =~= ph()) && hashed(int_pre(x, y)) ==> run_is(m, p, s, h, ih(x, y), false)
}
pub proof fn run_join(cs: Ki, m: KV, p: Seq<u8>, s: int, h: int, x: Seq<u8>, f: bool, y: Seq<u8>, g: bool)
    requires run(cs, m, p, s, h), h > 0, run_is(m, p, s, h - 1, x, f), run_is(m, p, s + w_of(h - 1), h - 1, y, g),
    ensures x == ph() && g ==> run_is(m, p, s, h, y, true),
        !(x == ph() && g) && f && y == ph() ==> run_is(m, p, s, h, x, true),
        !(x == ph() && g) && !(f && y == ph()) && hashed(int_pre(x, y)) ==> run_is(m, p, s, h, ih(x, y), false),
{
    pbits_ends(p, s, h);
    let q = pbits(p, s, h);
    assert(q.len() < 256);
    smt_step(m, q);
    smt_ph(m, q.push(false));
    smt_ph(m, q.push(true));
}
pub open spec fn sib(m: KV, k: Seq<u8>, i: int) -> Seq<bool> { kbits(k, i).push(false) }
// at a level, where the key's bit is 1
pub proof fn left_run(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, i: int)
    requires shape(pn, ver, m, pr), 0 <= i < 4 * pn.len(), bitn(pr, i),
    ensures ({ let d = i / 4; let h = 3 - i % 4; let x = nibn(pr, d); let s = sib_half(x, h);
        &&& 0 <= s && s + w_of(h) <= 16 && x < 16 && lev(pn[d], ver, pp(pr, d))
        &&& run(pn[d].ks().subrange(s, s + w_of(h)), m, pp(pr, d), s, h)
        &&& pbits(pp(pr, d), s, h) == sib(m, pr, i)
        &&& forall|j: int| s <= j < s + w_of(h) ==> known(#[trigger] pn[d].ks()[j])
    }),
{
    let d = i / 4;
    let h = 3 - i % 4;
    pp_facts(pr, d);
    let p = pp(pr, d);
    let x = nibn(pr, d);
    let s = sib_half(x, h);
    half_facts(x, h);
    half_facts(x, h + 1);
    nib_bits(pr, d);
    assert(nb(x, 3 - h) == bitn(pr, 4 * d + (3 - h)));
    assert(4 * d + (3 - h) == i);
    assert(lev(pn[d], ver, p));
    let cs = pn[d].ks().subrange(s, s + w_of(h));
    assert forall|j: int| 0 <= j < cs.len() implies kid_ok(m, p.push((s + j) as u8), #[trigger] cs[j]) by { assert(kid_at(pn, m, pr, d, s + j)); assert(cs[j] == pn[d].ks()[s + j]); assert(s + j < x); }
    assert forall|j: int| s <= j < s + w_of(h) implies known(#[trigger] pn[d].ks()[j]) by { assert(kid_ok(m, p.push((s + (j - s)) as u8), cs[j - s])); }
    kbits_pbits(p, pr, h + 1);
    pbits_ends(p, s, h + 1);
    assert(pbits(p, s, h) =~= sib(m, pr, i));
}
// below the lowest level
pub proof fn left_none(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, i: int)
    requires shape(pn, ver, m, pr), leaf_last(pn, m, pr), 4 * pn.len() <= i < 256, bitn(pr, i),
    ensures none(m, sib(m, pr, i)), smt(m, sib(m, pr, i)) == ph(), smt_hashed(m, sib(m, pr, i)),
{
    let d = pn.len() - 1;
    pp_facts(pr, d);
    pp_facts(pr, d + 1);
    let x = nibn(pr, d);
    assert(kid_at(pn, m, pr, d, x as int));
    let q = pp(pr, d).push(x);
    let b = sib(m, pr, i);
    assert forall|k: Seq<u8>| !#[trigger] under(m, b, k) by {
        if under(m, b, k) {
            under_push(m, kbits(pr, i), false, k);
            assert(pre(kbits(pr, i), k));
            assert(npre(q, k)) by {
                pb_pre(q, pr);
                assert(npre(q, pr));
                assert(nibs16(q));
                pb_pre(q, k);
                assert(pre(pb(q), k)) by { assert forall|e: int| 0 <= e < pb(q).len() implies #[trigger] bitn(k, e) == pb(q)[e] by { assert(bitn(pr, e) == pb(q)[e]); assert(kbits(pr, i)[e] == bitn(pr, e)); } }
            }
            assert(nund(m, q, k));
            assert(k == pr);
            assert(bitn(k, i) == b[i]);
        }
    }
}
pub open spec fn subt(m: KV, p: Seq<u8>, s: int, h: int, x: Seq<u8>) -> bool { let q = pbits(p, s, h); x == smt(m, q) && smt_hashed(m, q) }
#[verifier::external_body]
pub fn rt_leaf_of(o: &Option<LeafNode>) -> (r: &LeafNode) requires *o is Some, ensures *o == Some(*r), { o.as_ref().unwrap() }
pub fn rt_last_of<T>(v: &Vec<T>) -> (r: &T) requires v@.len() > 0, ensures *r == v@.last(), { &v[v.len() - 1] }
// what is known of the siblings of the path of a key
pub open spec fn tsib(m: KV, k: Seq<u8>, b: int, x: [u8; 32]) -> bool { x@ == smt(m, sib(m, k, b)) && smt_hashed(m, sib(m, k, b)) }
pub open spec fn tsibs(m: KV, k: Seq<u8>, t: Seq<[u8; 32]>) -> bool { forall|b: int| 0 <= b < t.len() && bitn(k, b) ==> tsib(m, k, b, #[trigger] t[b]) }
pub open spec fn src(m: KV, root: Seq<u8>) -> bool { kv_ok(m) && smt_hashed(m, Seq::empty()) && smt(m, Seq::empty()) == root }
// the same pairs up to a key
pub open spec fn agree(a: KV, b: KV, k: Seq<u8>) -> bool { forall|x: Seq<u8>| x.len() == 32 && (x == k || nless(x, k)) ==> (#[trigger] a.contains_key(x) <==> b.contains_key(x)) && (a.contains_key(x) ==> a[x] == b[x]) }
pub proof fn picked_same(a: Seq<[u8; 32]>, b: Seq<[u8; 32]>, k: Seq<u8>, j: int)
    requires 0 <= j <= a.len(), j <= b.len(), forall|i: int| 0 <= i < j && bitn(k, i) ==> #[trigger] a[i] == b[i],
    ensures picked(a, k, false, j) == picked(b, k, false, j),
    decreases j,
{ if j > 0 { picked_same(a, b, k, j - 1); } }
pub proof fn zeros_next(k: Seq<u8>, n: int)
    requires 0 <= n,
    ensures zeros(k, 0, n + 1) == zeros(k, 0, n) + (if bitn(k, n) { 0int } else { 1int }), 0 <= zeros(k, 0, n) <= n,
{ zeros_split(k, 0, n, n + 1); assert(zeros(k, n + 1, n + 1) == 0); assert(zeros(k, n, n + 1) == if bitn(k, n) { 0int } else { 1int }); zeros_bound1(k, 0, n); }
pub proof fn hashed_push(m: KV, q: Seq<bool>, b: bool)
    requires kv_ok(m), q.len() < 256, smt_hashed(m, q),
    ensures smt_hashed(m, q.push(b)),
{
    let c = q.push(b);
    assert forall|k: Seq<u8>| #[trigger] under(m, c, k) implies under(m, q, k) by { under_push(m, q, b, k); }
    if none(m, q) { assert(none(m, c)) by { assert forall|k: Seq<u8>| !#[trigger] under(m, c, k) by { if under(m, c, k) { assert(under(m, q, k)); } } } }
    else if exists|k: Seq<u8>| only(m, q, k) {
        let k = choose|k: Seq<u8>| only(m, q, k);
        only_is(m, q, k);
        if !none(m, c) {
            let x = choose|x: Seq<u8>| #[trigger] under(m, c, x);
            assert(under(m, q, x));
            assert(only(m, c, k)) by { assert forall|y: Seq<u8>| #[trigger] under(m, c, y) implies y == k by { assert(under(m, q, y)); } }
            only_is(m, c, k);
        }
    } else { if b { } else { } }
}
pub proof fn hashed_at(m: KV, k: Seq<u8>, n: int)
    requires kv_ok(m), smt_hashed(m, Seq::empty()), 0 <= n <= 256,
    ensures smt_hashed(m, kbits(k, n)),
    decreases n,
{
    if n > 0 { hashed_at(m, k, n - 1); kbits_push(k, n - 1); hashed_push(m, kbits(k, n - 1), bitn(k, n - 1)); } else { assert(kbits(k, 0) =~= Seq::<bool>::empty()); }
}
// a smaller key leaves the path to the left
pub proof fn turn(x: Seq<u8>, k: Seq<u8>) -> (b: int)
    requires x.len() == 32, k.len() == 32, nless(x, k),
    ensures 0 <= b < 256, bitn(k, b), !bitn(x, b), pre(kbits(k, b), x), pre(kbits(k, b).push(false), x),
{
    let d = choose|d: int| #[trigger] nlt_at(x, k, d);
    nib_bits(x, d);
    nib_bits(k, d);
    let u = nibn(x, d);
    let v = nibn(k, d);
    nib16(x, d);
    nib16(k, d);
    assert(exists|j: int| 0 <= j < 4 && #[trigger] nb(v, j) && !nb(u, j) && forall|e: int| 0 <= e < j ==> #[trigger] nb(u, e) == nb(v, e)) by { nb_less(u, v); }
    let j = choose|j: int| 0 <= j < 4 && #[trigger] nb(v, j) && !nb(u, j) && forall|e: int| 0 <= e < j ==> #[trigger] nb(u, e) == nb(v, e);
    let b = 4 * d + j;
    assert(bitn(k, b) == nb(v, j) && bitn(x, b) == nb(u, j));
    assert forall|i: int| 0 <= i < b implies #[trigger] bitn(x, i) == bitn(k, i) by {
        let e = i / 4;
        nib_bits(x, e);
        nib_bits(k, e);
        assert(bitn(x, 4 * e + i % 4) == nb(nibn(x, e), i % 4));
        assert(bitn(k, 4 * e + i % 4) == nb(nibn(k, e), i % 4));
        if e < d { assert(nibn(x, e) == nibn(k, e)); } else { assert(nb(u, i % 4) == nb(v, i % 4)); }
    }
    b
}
pub proof fn nb_less(u: u8, v: u8)
    requires u < v < 16,
    ensures exists|j: int| 0 <= j < 4 && #[trigger] nb(v, j) && !nb(u, j) && forall|e: int| 0 <= e < j ==> #[trigger] nb(u, e) == nb(v, e),
{
    reveal_with_fuel(p2, 4);
    assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(3) == 8);
    let (a0, a1, a2, a3) = (bn(nb(u, 0)), bn(nb(u, 1)), bn(nb(u, 2)), bn(nb(u, 3)));
    let (b0, b1, b2, b3) = (bn(nb(v, 0)), bn(nb(v, 1)), bn(nb(v, 2)), bn(nb(v, 3)));
    assert(u == 8 * a0 + 4 * a1 + 2 * a2 + a3);
    assert(v == 8 * b0 + 4 * b1 + 2 * b2 + b3);
    if nb(u, 0) != nb(v, 0) { assert(nb(v, 0) && !nb(u, 0)); }
    else if nb(u, 1) != nb(v, 1) { assert(nb(v, 1) && !nb(u, 1)); }
    else if nb(u, 2) != nb(v, 2) { assert(nb(v, 2) && !nb(u, 2)); }
    else { assert(nb(v, 3) && !nb(u, 3)); }
}
pub open spec fn trim_at(k: Seq<u8>, t: Seq<[u8; 32]>, rn: int, b: int) -> bool { if bitn(k, b) { t[b]@ =~= ph() } else { zeros(k, 0, b + 1) > rn } }
pub open spec fn trimmed(k: Seq<u8>, t: Seq<[u8; 32]>, rn: int, p: int) -> bool { forall|b: int| p <= b < 256 ==> #[trigger] trim_at(k, t, rn, b) }
pub open spec fn stopped(k: Seq<u8>, t: Seq<[u8; 32]>, rn: int, p: int) -> bool { p == 0 || (if bitn(k, p - 1) { !(t[p - 1]@ =~= ph()) } else { zeros(k, 0, p) <= rn }) }
pub open spec fn trim_done(k: Seq<u8>, t: Seq<[u8; 32]>, rn: int, p: int) -> bool { t.len() == 256 && 0 <= p <= 256 && 0 <= rn <= zeros(k, 0, p) && trimmed(k, t, rn, p) && stopped(k, t, rn, p) }
pub proof fn trim_more(k: Seq<u8>, t: Seq<[u8; 32]>, rn: int, p: int)
    requires trimmed(k, t, rn, p), 0 < p <= 256, trim_at(k, t, rn, p - 1),
    ensures trimmed(k, t, rn, p - 1),
{ }
// a chunk that is accepted has the pairs of the tree with the expected root
pub proof fn chunk_sound(g: KV, m: KV, k: Seq<u8>, t: Seq<[u8; 32]>, p: int, pf: SparseMerkleRangeProof, leaf: SparseMerkleLeafNode, left: Seq<[u8; 32]>, root: Seq<u8>)
    requires kv_ok(g), k.len() == 32, g.contains_key(k), leaf.k() == k, leaf.v() == g[k], tsibs(g, k, t), trim_done(k, t, pf.right_siblings@.len() as int, p),
        left == picked(t, k, false, p).reverse(), pf.accepts(root, leaf, left), src(m, root), hashed(leaf_pre(leaf.k(), leaf.v())),
        fold_hashed(mixed(leaf.k(), left, pf.right_siblings@, (left.len() + pf.right_siblings@.len()) as int), leaf.k(), lh(leaf.k(), leaf.v()), 0),
    ensures agree(g, m, k),
{
    let rn = pf.right_siblings@.len() as int;
    let n = left.len() + rn;
    if p > 0 { picked_at(t, k, p, 0); } else { assert(picked(t, k, false, 0).len() == 0); assert(zeros(k, 0, 0) == 0); }
    assert(left.len() == p - zeros(k, 0, p));
    zeros_bound1(k, 0, n);
    assert(n == p) by {
        if n < p {
            // then no bit from n on is a one, nor is the last a zero
            zeros_split(k, 0, n, p);
            zeros_split(k, n, p - 1, p);
            zeros_bound1(k, n, p - 1);
            assert(zeros(k, p, p) == 0);
            assert(zeros(k, p - 1, p) == if bitn(k, p - 1) { 0int } else { 1int });
        }
    }
    assert(pf.accepts(smt(m, Seq::empty()), leaf, left));
    c12_range(pf, m, leaf, left);
    let sibs = mixed(k, left, pf.right_siblings@, n);
    axiom_sha_len(leaf_pre(leaf.k(), leaf.v()));
    fold_sound(m, sibs, k, lh(k, g[k]), n);
    assert forall|b: int| 0 <= b < n && bitn(k, b) implies (#[trigger] t[b])@ == smt(m, sib(m, k, b)) by {
        picked_at(t, k, p, b);
        zeros_split(k, 0, b, n);
        zeros_split(k, b, b + 1, n);
        assert(zeros(k, b + 1, b + 1) == 0);
        assert(zeros(k, b, b + 1) == 0);
        assert(sibs[n - 1 - b] == t[b]);
    }
    c12_leaf(m, sibs, k, k, g[k]);
    let q = kbits(k, n);
    assert forall|x: Seq<u8>| x.len() == 32 && (x == k || nless(x, k)) implies (#[trigger] g.contains_key(x) <==> m.contains_key(x)) && (g.contains_key(x) ==> g[x] == m[x]) by {
        if x != k {
            let b = turn(x, k);
            assert(tsib(g, k, b, t[b]));
            if b < n {
                hashed_at(m, k, b);
                hashed_push(m, kbits(k, b), false);
                smt_inj(g, m, sib(g, k, b));
                assert(same_under(g, m, sib(g, k, b)));
            } else {
                assert(trim_at(k, t, rn, b));
                smt_ph(g, sib(g, k, b));
                if g.contains_key(x) { assert(under(g, sib(g, k, b), x)); }
                if m.contains_key(x) {
                    assert(pre(q, x)) by { assert forall|i: int| 0 <= i < q.len() implies #[trigger] bitn(x, i) == q[i] by { assert(kbits(k, b)[i] == bitn(k, i)); } }
                    assert(under(m, q, x));
                }
            }
        }
    }
}
// the pairs of a tree with its range proof are accepted
pub proof fn chunk_complete<H: SimpleHasher>(g: KV, m: KV, k: Seq<u8>, t: Seq<[u8; 32]>, p: int, pf: SparseMerkleRangeProof, leaf: SparseMerkleLeafNode, left: Seq<[u8; 32]>, root: Seq<u8>)
    requires kv_ok(g), k.len() == 32, g.contains_key(k), leaf.k() == k, leaf.v() == g[k], tsibs(g, k, t), trim_done(k, t, pf.right_siblings@.len() as int, p),
        left == picked(t, k, false, p).reverse(), src(m, root), agree(g, m, k), range_of::<H>(m, k, pf),
    ensures pf.accepts(root, leaf, left),
{
    let w = choose|w: SparseMerkleProof<H>| #[trigger] range_by(w, m, k, pf);
    let u = w.siblings@.reverse();
    let n = u.len() as int;
    let rn = pf.right_siblings@.len() as int;
    let q = kbits(k, n);
    kbits_push(k, n);
    assert(agree(g, m, k) && m.contains_key(k));
    assert(under(m, q, k));
    if n > 0 { picked_at(u, k, n, 0); } else { assert(picked(u, k, true, 0).len() == 0 && zeros(k, 0, 0) == 0); }
    assert(rn == zeros(k, 0, n));
    assert forall|b: int| 0 <= b < 256 && bitn(k, b) implies same_under(g, m, #[trigger] sib(g, k, b)) by {
        let s = sib(g, k, b);
        assert forall|x: Seq<u8>| pre(s, x) implies (#[trigger] g.contains_key(x) <==> m.contains_key(x)) && (g.contains_key(x) ==> g[x] == m[x]) by {
            if g.contains_key(x) || m.contains_key(x) { left_of(x, k, b); }
        }
    }
    assert forall|b: int| 0 <= b < n && bitn(k, b) implies #[trigger] t[b] == u[b] by {
        assert(tstep(m, k, b, u[b]@));
        assert(tsib(g, k, b, t[b]));
        smt_same(g, m, sib(g, k, b));
        assert(sib(g, k, b) =~= kbits(k, b).push(!bitn(k, b)));
        assert(t[b] =~= u[b]);
    }
    assert(p == n) by {
        if p > n {
            zeros_split(k, 0, n, p - 1);
            zeros_bound1(k, n, p - 1);
            zeros_next(k, p - 1);
            if bitn(k, p - 1) {
                let b = p - 1;
                let s = sib(g, k, b);
                assert(tsib(g, k, b, t[b]));
                smt_same(g, m, s);
                assert forall|x: Seq<u8>| !#[trigger] under(m, s, x) by {
                    if under(m, s, x) {
                        under_push(m, kbits(k, b), false, x);
                        assert(pre(q, x)) by { assert forall|i: int| 0 <= i < q.len() implies #[trigger] bitn(x, i) == q[i] by { assert(kbits(k, b)[i] == bitn(k, i)); } }
                        assert(under(m, q, x));
                        let y = choose|y: Seq<u8>| only(m, q, y);
                        assert(x == k);
                    }
                }
                assert(none(m, s));
            }
        }
        if p < n {
            let b = n - 1;
            if bitn(k, b) {
                assert(trim_at(k, t, rn, b));
                assert(tsib(g, k, b, t[b]));
                let s = sib(g, k, b);
                smt_ph(g, s);
                smt_same(g, m, s);
                assert(tstep(m, k, b, u[b]@));
                let f = kbits(k, b);
                kbits_push(k, b);
                assert(none(m, s)) by { assert forall|x: Seq<u8>| !#[trigger] under(m, s, x) by { if under(m, s, x) { assert(g.contains_key(x)); assert(under(g, s, x)); } } }
                assert(only(m, f, k)) by {
                    assert(under(m, f, k));
                    assert forall|x: Seq<u8>| #[trigger] under(m, f, x) implies x == k by {
                        under_push(m, f, true, x);
                        under_push(m, f, false, x);
                        if bitn(x, b) { assert(f.push(true) =~= q); assert(under(m, q, x)); } else { assert(under(m, s, x)); }
                    }
                }
            } else { assert(trim_at(k, t, rn, b)); }
        }
    }
    picked_same(t, u, k, n);
    assert(left == picked(u, k, false, n).reverse());
    range_complete(w, m, w.leaf->0, pf);
}
pub proof fn rights_bound<H: SimpleHasher>(m: KV, k: Seq<u8>, pf: SparseMerkleRangeProof)
    requires range_of::<H>(m, k, pf),
    ensures pf.right_siblings@.len() <= zeros(k, 0, 256),
{
    let w = choose|w: SparseMerkleProof<H>| #[trigger] range_by(w, m, k, pf);
    let u = w.siblings@.reverse();
    let n = u.len() as int;
    if n > 0 { picked_at(u, k, n, 0); } else { assert(picked(u, k, true, 0).len() == 0 && zeros(k, 0, 0) == 0); }
    zeros_split(k, 0, n, 256);
    zeros_bound1(k, n, 256);
}
pub proof fn left_of(x: Seq<u8>, k: Seq<u8>, b: int)
    requires x.len() == 32, k.len() == 32, 0 <= b < 256, bitn(k, b), pre(kbits(k, b).push(false), x),
    ensures nless(x, k),
{
    nless_total(x, k);
    let f = kbits(k, b).push(false);
    assert(bitn(x, b) == f[b]);
    assert forall|i: int| 0 <= i < b implies #[trigger] bitn(x, i) == bitn(k, i) by { assert(bitn(x, i) == f[i]); }
    if nless(k, x) {
        let c = turn(k, x);
        assert(bitn(x, c) && !bitn(k, c));
        let h = kbits(x, c);
        if c > b { assert(bitn(k, b) == h[b]); }
    }
}
// ---------------------------------------------------------------- the store restored into
#[verifier::external_body]
pub struct RtWriter { x: u8 }
impl RtWriter {
    pub uninterp spec fn nodes(&self) -> W;
    pub uninterp spec fn values(&self) -> Map<(u64, Seq<u8>), Option<OwnedValue>>;
    pub uninterp spec fn reliable(&self) -> bool;
    pub uninterp spec fn last_leaf(&self) -> Option<(NodeKey, LeafNode)>;
    // TreeReader::get_rightmost_leaf
    #[verifier::external_body]
    pub fn get_rightmost_leaf(&self) -> (r: Result<Option<(NodeKey, LeafNode)>>) ensures r matches Ok(x) ==> x == self.last_leaf(), self.reliable() ==> r is Ok, { unimplemented!() }
    // TreeWriter::write_node_batch: all of the batch, or an error
    #[verifier::external_body]
    pub fn write_node_batch(&mut self, b: &NodeBatch) -> (r: Result<()>)
        ensures r is Ok ==> final(self).nodes() == over(old(self).nodes(), b.ns()) && final(self).values() == old(self).values().union_prefer_right(b.values@),
            old(self).reliable() ==> r is Ok, final(self).reliable() == old(self).reliable(),
    { unimplemented!() }
}
// the entries up to i, counted
pub open spec fn only_some(ks: Ki, i: int, n: int, x: int, y: int, leaf: Option<LeafNode>) -> bool {
    &&& 0 <= n <= i
    &&& n == 0 ==> leaf is None && forall|j: int| 0 <= j < i ==> (#[trigger] ks[j]) is None
    &&& n >= 1 ==> 0 <= x < i && ks[x] is Some
    &&& n == 1 ==> (forall|j: int| 0 <= j < i && j != x ==> (#[trigger] ks[j]) is None) && (leaf matches Some(l) ==> ks[x] == Some(ChildInfo::Leaf { node: l })) && (leaf is None ==> !(ks[x]->0 is Leaf))
    &&& n >= 2 ==> 0 <= y < i && y != x && ks[y] is Some
}
pub proof fn kid_has(m: KV, q: Seq<u8>, o: Option<ChildInfo>) -> (k: Seq<u8>)
    requires kid_ok(m, q, o), o is Some,
    ensures nund(m, q, k),
{
    match o {
        Some(ChildInfo::Leaf { node }) => { assert(nund(m, q, node.k())); node.k() }
        _ => { let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, q, a, b); a }
    }
}
pub proof fn two_kids(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, x: int, y: int)
    requires shape(pn, ver, m, pr), pn.len() == 1, 0 <= x < 16, 0 <= y < 16, x != y, pn[0].ks()[x] is Some, pn[0].ks()[y] is Some,
    ensures many(m, pp(pr, 0)),
{
    pp_facts(pr, 0);
    assert(kid_at(pn, m, pr, 0, x) && kid_at(pn, m, pr, 0, y));
    let a = kid_has(m, pp(pr, 0).push(x as u8), pn[0].ks()[x]);
    let b = kid_has(m, pp(pr, 0).push(y as u8), pn[0].ks()[y]);
    npre_push(pp(pr, 0), x as u8, a);
    npre_push(pp(pr, 0), y as u8, b);
    assert(two(m, pp(pr, 0), a, b));
}
pub open spec fn single(m: KV, l: LeafNode) -> bool { nonly(m, Seq::empty(), l.k()) && m[l.k()] == l.v() }
pub proof fn sole_kid(pn: Seq<InternalInfo>, ver: u64, m: KV, pr: Seq<u8>, x: int)
    requires shape(pn, ver, m, pr), leaf_last(pn, m, pr), pn.len() == 1, 0 <= x < 16, pn[0].ks()[x] is Some, forall|j: int| 0 <= j < 16 && j != x ==> (#[trigger] pn[0].ks()[j]) is None,
    ensures pn[0].ks()[x] matches Some(ChildInfo::Leaf { node }) && single(m, node),
{
    let e = Seq::<u8>::empty();
    pp_facts(pr, 0);
    assert(last_kid(pn, pr) is Some);
    assert(x == nibn(pr, 0));
    let l = pn[0].ks()[x]->0->node;
    assert(nund(m, e, l.k()));
    assert forall|k: Seq<u8>| #[trigger] nund(m, e, k) implies k == l.k() by {
        let j = nibn(k, 0);
        nib16(k, 0);
        assert(pp(pr, 0) =~= e);
        npre_push(e, j, k);
        assert(kid_at(pn, m, pr, 0, j as int));
        assert(nund(m, e.push(j), k));
        assert(kid_ok(m, e.push(j), pn[0].ks()[j as int]));
    }
}
pub proof fn rep_leaf(w: W, v: u64, m: KV, l: LeafNode)
    requires w.contains_key(root_key(v)), w[root_key(v)] == Node::Leaf(l), single(m, l),
    ensures rep(w, v, Seq::empty(), m),
{ }
pub proof fn sole_src(m: KV, k: Seq<u8>)
    requires nonly(m, Seq::empty(), k), hashed(leaf_pre(k, m[k])),
    ensures smt_hashed(m, Seq::empty()),
{
    let e = Seq::<bool>::empty();
    assert(nund(m, Seq::empty(), k));
    assert(under(m, e, k));
    assert(only(m, e, k)) by { assert forall|x: Seq<u8>| #[trigger] under(m, e, x) implies x == k by { assert(nund(m, Seq::empty(), x)); } }
    only_is(m, e, k);
}
// a root is the root of one tree
pub proof fn src_unique(g: KV, root: Seq<u8>)
    requires src(g, root),
    ensures forall|m: KV| #[trigger] src(m, root) ==> m == g,
{
    assert forall|m: KV| #[trigger] src(m, root) implies m == g by {
        let e = Seq::<bool>::empty();
        smt_inj(m, g, e);
        assert forall|k: Seq<u8>| (#[trigger] m.contains_key(k) <==> g.contains_key(k)) && (m.contains_key(k) ==> m[k] == g[k]) by { assert(pre(e, k)); }
        assert(m =~= g);
    }
}
// an iterator over what a Vec holds
pub struct RtPairs<T> { pub v: Vec<T> }
pub fn rt_pairs<T>(v: Vec<T>) -> (r: RtPairs<T>) ensures r.v == v, { RtPairs { v } }
impl<T> RtPairs<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).v@.len() == 0 ==> r is None && final(self).v@ == old(self).v@, old(self).v@.len() > 0 ==> r == Some(old(self).v@[0]) && final(self).v@ == old(self).v@.remove(0),
    { if self.v.len() == 0 { None } else { Some(self.v.remove(0)) } }
}
// a chunk
pub type Ck = Seq<(KeyHash, OwnedValue)>;
pub open spec fn cins<H: SimpleHasher>(g: KV, c: Ck, n: int) -> KV decreases n { if n <= 0 { g } else { cins::<H>(g, c, n - 1).insert(c[n - 1].0.0@, H::dig(c[n - 1].1@)) } }
pub open spec fn after(o: Option<Seq<u8>>, k: Seq<u8>) -> bool { o matches Some(p) ==> nless(p, k) }
pub open spec fn cafter(o: Option<Seq<u8>>, c: Ck, i: int) -> bool { after(if i == 0 { o } else { Some(c[i - 1].0.0@) }, c[i].0.0@) }
pub open spec fn corder(o: Option<Seq<u8>>, c: Ck, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] cafter(o, c, i) }
pub proof fn corder_cut(o: Option<Seq<u8>>, c: Ck, n: int)
    requires 0 <= n < c.len(), corder(o, c, n),
    ensures corder(o, c, c.len() as int) ==> cafter(o, c, n), cafter(o, c, n) ==> corder(o, c, n + 1),
{ }
pub proof fn key_turn(o: Option<Seq<u8>>, k: Seq<u8>)
    requires k.len() == 32, o matches Some(p) ==> p.len() == 32,
    ensures o matches Some(p) ==> (kcmp(k, p) is Greater <==> nless(p, k)),
{
    if let Some(p) = o { key_lt_nibs(k, p); if k != p { nless_total(k, p); } if nless(p, k) { nless_not_both(p, k); } }
}
pub proof fn vals_more<H: SimpleHasher>(a: Map<(u64, Seq<u8>), Option<OwnedValue>>, b: Map<(u64, Seq<u8>), Option<OwnedValue>>, ver: u64, m: KV, k: Seq<u8>, x: OwnedValue)
    requires vals_in::<H>(a.union_prefer_right(b), ver, m),
    ensures vals_in::<H>(a.union_prefer_right(b.insert((ver, k), Some(x))), ver, m.insert(k, H::dig(x@))),
{
    let o = a.union_prefer_right(b);
    let w = a.union_prefer_right(b.insert((ver, k), Some(x)));
    let n = m.insert(k, H::dig(x@));
    assert forall|y: Seq<u8>| #[trigger] n.contains_key(y) implies w.contains_key((ver, y)) && (w[(ver, y)] matches Some(z) && n[y] == H::dig(z@)) by {
        if y != k { assert(m.contains_key(y)); assert(o.contains_key((ver, y))); assert(w[(ver, y)] == o[(ver, y)]); }
    }
}
//@type jmt/src/restore.rs JellyfishMerkleRestore Arc<dyn TreeWriter> ==> RtWriter ;; _phantom_hasher: PhantomHasher<H>, ==> _phantom_hasher: PhantomHasher<H>, pub gm: Ghost<KV>,
impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
    pub open spec fn pn(&self) -> Seq<InternalInfo> { self.partial_nodes@ }
    // what the store holds once the frozen nodes are written
    pub open spec fn vw(&self) -> W { over(self.store.nodes(), self.frozen_nodes.ns()) }
    pub open spec fn vv(&self) -> Map<(u64, Seq<u8>), Option<OwnedValue>> { self.store.values().union_prefer_right(self.frozen_nodes.values@) }
    pub open spec fn kept(&self, o: Self) -> bool { self.store == o.store && self.version == o.version && self.expected_root_hash == o.expected_root_hash && self.leaf_count_migration == o.leaf_count_migration }
    pub open spec fn rest(&self, o: Self) -> bool { self.kept(o) && self.frozen_nodes.values == o.frozen_nodes.values && self.previous_leaf == o.previous_leaf && self.num_keys_received == o.num_keys_received && self.gm == o.gm }
    pub open spec fn last_key(&self) -> Option<Seq<u8>> { match self.previous_leaf { Some(l) => Some(l.k()), None => None } }
    // nothing waits to be written
    pub open spec fn saved(&self) -> bool { self.vw() == self.store.nodes() && self.vv() == self.store.values() }
    // the newest key
    pub open spec fn pr(&self) -> Seq<u8> { top(self.gm@) }
    pub open spec fn shaped(&self) -> bool { shape(self.pn(), self.version, self.gm@, self.pr()) }
    pub open spec fn tail_leaf(&self) -> bool { leaf_last(self.pn(), self.gm@, self.pr()) }
    pub open spec fn kids_all(&self, all: bool) -> bool { kids_in(self.vw(), self.pn(), self.version, self.gm@, self.pr(), all) }
    // n levels are left
    pub open spec fn cut(&self, n: int) -> bool {
        &&& self.pn().len() == n
        &&& n > 0 ==> self.shaped() && self.kids_all(true)
        &&& n == 0 ==> self.frozen_nodes.ns().contains_key(root_key(self.version)) && rep(self.vw(), self.version, Seq::empty(), self.gm@) && smt_hashed(self.gm@, Seq::empty())
    }
//@fn jmt/src/restore.rs JellyfishMerkleRestore::freeze_previous_leaf props C17 C18
//@rewrite? $id_a.children.iter().rposition(|x| x.is_some()).expect($m) ==> rt_unwrap(rt_rightmost(&$id_a.children))
//@rewrite? (rightmost_child_index as u8).into() ==> Nibble::from(rightmost_child_index as u8)
//@rewrite? node.clone().into() ==> Node::Leaf(node.clone())
//@spec
    requires old(self).num_keys_received > 0 ==> old(self).shaped() && old(self).tail_leaf(),
    ensures final(self).rest(*old(self)), final(self).partial_nodes == old(self).partial_nodes,
        old(self).num_keys_received == 0 ==> final(self).frozen_nodes == old(self).frozen_nodes,
        old(self).num_keys_received > 0 ==> final(self).frozen_nodes.ns() == old(self).frozen_nodes.ns().insert((old(self).version, pp(old(self).pr(), old(self).pn().len() as int)), Node::Leaf(last_kid(old(self).pn(), old(self).pr())->0->node)),
//@before let rightmost_child_index
    proof { last_is(self.pn(), self.version, self.gm@, self.pr()); }
//@end
//@fn jmt/src/restore.rs JellyfishMerkleRestore::freeze_internal_nodes props C17 C18
//@rewrite? $id_a.children.iter().rposition(|x| x.is_some()).expect($m) ==> rt_unwrap(rt_rightmost(&$id_a.children))
//@rewrite? self.partial_nodes.last_mut() ==> rt_last_mut(&mut self.partial_nodes)
//@rewrite? rt_assert((hash.replace($x)) == (None)) ==> rt_assert(rt_replace(hash, $x).is_none())
//@rewrite? node_leaf_count.map(|n| leaf_count.replace(n)); ==> match node_leaf_count { Some(n) => { rt_replace(leaf_count, n); } None => { } }
//@rewrite? .insert_node(node_key, internal_node.into()) ==> .insert_node(node_key, Node::Internal(internal_node))
//@spec
    requires old(self).gm@.len() <= usize::MAX, old(self).pn().len() > num_remaining_nodes ==> old(self).shaped() && old(self).kids_all(true) && many(old(self).gm@, pp(old(self).pr(), old(self).pn().len() - 1)),
    ensures r is Ok, final(self).rest(*old(self)), final(self).frozen_nodes.values == old(self).frozen_nodes.values,
        old(self).pn().len() <= num_remaining_nodes ==> *final(self) == *old(self),
        old(self).pn().len() > num_remaining_nodes ==> final(self).cut(num_remaining_nodes as int),
//@attr verifier::loop_isolation(false)
//@start
    hide(shape); hide(kids_in); hide(many); hide(rep); hide(complete); hide(kidsc); hide(kid_ok); hide(node_ok); hide(lknown); hide(ntree); hide(ntree_hashed);
    let ghost s0 = *self;
    let ghost pr = self.pr();
    let ghost m = self.gm@;
    let ghost ver = self.version;
//@loop 0
    invariant self.rest(s0), self.frozen_nodes.values == s0.frozen_nodes.values, self.pr() == pr, self.gm@ == m, self.version == ver,
        s0.pn().len() <= num_remaining_nodes ==> *self == s0,
        s0.pn().len() > num_remaining_nodes ==> self.pn().len() >= num_remaining_nodes && (self.pn().len() <= num_remaining_nodes ==> self.cut(num_remaining_nodes as int)),
        self.pn().len() > num_remaining_nodes ==> s0.pn().len() > num_remaining_nodes && shape(self.pn(), ver, m, pr) && self.kids_all(true) && many(m, pp(pr, self.pn().len() - 1)),
    decreases self.pn().len(),
//@loopstart 0
    let ghost a = self.pn();
    let ghost w = self.vw();
    proof { last_complete(a, ver, m, pr); fits(m, pp(pr, a.len() - 1), a.last().ks(), ver); if a.len() > 1 { parent_end(a, ver, m, pr); } }
    let ghost mut gn: Option<InternalNode> = None;
//@before self.frozen_nodes.insert_node($x, $y)
    proof { gn = Some(internal_node); }
//@loopend 0
    proof {
        let n = gn->0;
        if a.len() > 1 { assert(self.pn().last().ks() =~= a[a.len() - 2].ks().update(nibn(pr, a.len() - 2) as int, node_child(n, node_hash))); }
        popped(w, a, ver, m, pr, n, node_hash, self.pn());
        assert(self.vw() =~= w.insert((ver, pp(pr, a.len() - 1)), Node::Internal(n)));
    }
//@end
//@fn jmt/src/restore.rs JellyfishMerkleRestore::freeze props C17 C18
//@spec
    requires old(self).gm@.len() <= usize::MAX,
        old(self).num_keys_received > 0 ==> old(self).shaped() && old(self).tail_leaf() && old(self).kids_all(false) && (old(self).pn().len() > num_remaining_partial_nodes ==> many(old(self).gm@, pp(old(self).pr(), old(self).pn().len() - 1))),
        old(self).num_keys_received == 0 ==> old(self).pn().len() <= num_remaining_partial_nodes,
    ensures r is Ok, final(self).rest(*old(self)), final(self).frozen_nodes.values == old(self).frozen_nodes.values,
        old(self).num_keys_received == 0 ==> *final(self) == *old(self),
        old(self).num_keys_received > 0 && old(self).pn().len() <= num_remaining_partial_nodes ==> final(self).partial_nodes == old(self).partial_nodes && final(self).kids_all(true),
        old(self).num_keys_received > 0 && old(self).pn().len() > num_remaining_partial_nodes ==> final(self).cut(num_remaining_partial_nodes as int),
//@before self.freeze_internal_nodes($x)
    proof {
        if old(self).num_keys_received > 0 {
            leafed(old(self).vw(), old(self).pn(), old(self).version, old(self).gm@, old(self).pr());
            assert(self.vw() =~= old(self).vw().insert((old(self).version, pp(old(self).pr(), old(self).pn().len() as int)), Node::Leaf(last_kid(old(self).pn(), old(self).pr())->0->node)));
        }
    }
//@end
    // a pair put at the lowest level
    pub open spec fn added(&self, k: Seq<u8>, v: Seq<u8>) -> bool {
        let n = self.gm@.insert(k, v);
        shape(self.pn(), self.version, n, k) && leaf_last(self.pn(), n, k) && kids_in(self.vw(), self.pn(), self.version, n, k, false) && top(n) == k && (self.pn().len() > 1 ==> many(n, pp(k, self.pn().len() - 1)))
    }
//@fn jmt/src/restore.rs JellyfishMerkleRestore::insert_at_leaf props C17 C18
//@rewrite? $id_n.visited_nibbles().collect() ==> rt_visited(&$id_n)
//@rewrite? self.freeze(self.partial_nodes.len()) ==> { let rt_n = self.partial_nodes.len(); self.freeze(rt_n) }
//@rewrite? self.partial_nodes.last_mut().expect($m) ==> rt_unwrap(rt_last_mut(&mut self.partial_nodes))
//@rewrite? u8::from($x) ==> rt_u8($x)
//@spec
    requires old(self).gm@.len() <= usize::MAX, old(self).num_keys_received > 0, old(self).shaped(), old(self).tail_leaf(), old(self).kids_all(false),
        child_index == nibn(old(self).pr(), old(self).pn().len() - 1), child_index < 16, Some(ChildInfo::Leaf { node: existing_leaf }) == last_kid(old(self).pn(), old(self).pr()),
        nless(old(self).pr(), new_key.0@), pp(old(self).pr(), old(self).pn().len() as int) == pp(new_key.0@, old(self).pn().len() as int),
        remaining_nibbles.wf(), remaining_nibbles.seen() == pp(new_key.0@, old(self).pn().len() as int), remaining_nibbles.rest() == nibs_of(new_key.0@).skip(old(self).pn().len() as int),
    ensures r is Ok, final(self).rest(*old(self)), final(self).frozen_nodes.values == old(self).frozen_nodes.values, final(self).added(new_key.0@, value_hash.0@),
//@start
    hide(shape); hide(kids_in); hide(many); hide(rep); hide(kid_ok); hide(newest);
    let ghost s0 = *self;
    let ghost a = self.pn();
    let ghost ll = a.len() as int;
    let ghost k = new_key.0@;
    let ghost pr = self.pr();
    let ghost x = child_index as int;
    let ghost c = choose|i: int| #[trigger] nlt_at(pr, k, i);
    let ghost mut e = a;
    proof {
        last_is(a, self.version, self.gm@, pr);
        pp_facts(pr, ll - 1);
        assert(nlt_at(pr, k, c));
        if c < ll { assert(pp(pr, ll)[c] == nibn(pr, c) && pp(k, ll)[c] == nibn(k, c)); }
        assert forall|i: int| 0 <= i <= c implies pp(k, i) == pp(pr, i) by { pp_facts(k, i); pp_facts(pr, i); assert(pp(k, i) =~= pp(pr, i)); }
        shape_bound(a, self.version, self.gm@, pr);
    }
//@before for _ in num_existing_partial_nodes..common_prefix_len
    proof {
        let rl = common_prefix_len as int;
        assert(existing_leaf.key_hash.0@ == pr);
        assert(existing_leaf.key_hash.0.b() == pr);
        assert(rl <= 64 && (rl < 64 ==> nibn(existing_leaf.key_hash.0.b(), rl) != nibn(new_key.0@, rl)));
        assert forall|i: int| 0 <= i < rl implies #[trigger] nibn(pr, i) == nibn(k, i) by { assert(nibn(existing_leaf.key_hash.0.b(), i) == nibn(new_key.0@, i)); }
        assert(common(pr, k, common_prefix_len as int));
        cpl_is(pr, k, c, common_prefix_len as int);
        assert(self.pn()[ll - 1].ks() =~= a.last().ks().update(x, open_kid()));
    }
//@loop 0 it
    invariant k == new_key.0@, k.len() == 32, pr.len() == 32, 1 <= ll <= c < 64 || it.index@ == 0, 1 <= ll, c < 64, a.len() == ll, forall|i: int| 0 <= i <= c ==> #[trigger] pp(k, i) == pp(pr, i),
        self.rest(s0), self.frozen_nodes == s0.frozen_nodes, self.pn().len() == ll + it.index@, it.index@ <= c - ll, common_prefix_len == c, num_existing_partial_nodes == ll,
        remaining_nibbles.wf(), remaining_nibbles.seen() == pp(k, self.pn().len() as int), remaining_nibbles.rest() == nibs_of(k).skip(self.pn().len() as int),
        forall|i: int| 0 <= i < ll - 1 ==> self.pn()[i] == a[i],
        self.pn()[ll - 1].node_key == a.last().node_key, self.pn()[ll - 1].ks() == a.last().ks().update(x, open_kid()),
        forall|i: int| ll <= i < self.pn().len() ==> link(#[trigger] self.pn()[i], self.version, pr, i, open_kid()),
//@loopstart 0
    let ghost b = self.pn();
    let ghost rn = remaining_nibbles;
    proof { pp_facts(k, b.len() as int); pp_facts(pr, b.len() as int); assert(pp(k, b.len() as int) == pp(pr, b.len() as int)); }
//@loopend 0
    proof {
        let n = b.len() as int;
        pp_facts(k, n + 1);
        assert(remaining_nibbles.seen() =~= pp(k, n + 1));
        assert(remaining_nibbles.rest() =~= nibs_of(k).skip(n + 1));
        assert(link(self.pn()[n], self.version, pr, n, open_kid()));
        assert forall|i: int| ll <= i < self.pn().len() implies link(#[trigger] self.pn()[i], self.version, pr, i, open_kid()) by { if i < n { assert(self.pn()[i] == b[i]); } }
    }
//@before self.freeze($x)
    proof {
        pp_facts(pr, c); pp_facts(k, c);
        assert(pp(k, c) == pp(pr, c));
        assert(link(self.pn()[c], self.version, pr, c, last_kid(a, pr)));
        deepened(s0.vw(), a, self.version, self.gm@, pr, c, self.pn());
    }
//@before let new_child_index
    proof { e = self.pn(); }
//@tail
    proof {
        let node = LeafNode { key_hash: new_key, value_hash };
        assert(self.pn().last().ks() =~= e.last().ks().update(nibn(k, c) as int, Some(ChildInfo::Leaf { node })));
        joined(self.vw(), e, self.version, self.gm@, pr, k, value_hash.0@, node, self.pn());
    }
//@end
    // the last pair is known
    pub open spec fn proven(&self) -> bool { self.ready() && (self.previous_leaf matches Some(l) && l.k() == self.pr() && l.v() == self.gm@[self.pr()]) }
    pub open spec fn blank(&self) -> bool { self.pn().len() == 1 && blank_level(self.pn()[0], self.version) && self.gm@ == Map::<Seq<u8>, Seq<u8>>::empty() }
    pub open spec fn ready(&self) -> bool { self.shaped() && self.tail_leaf() && self.kids_all(false) && (self.pn().len() > 1 ==> many(self.gm@, pp(self.pr(), self.pn().len() - 1))) }
//@fn jmt/src/restore.rs JellyfishMerkleRestore::add_one props C17 C18
//@rewrite? .to_vec() ==> .rt_to_vec()
//@rewrite? for $id_i in 0..ROOT_NIBBLE_HEIGHT { $st_s } ==> let mut rt_n: usize = 0; while rt_n < ROOT_NIBBLE_HEIGHT { let $id_i = rt_n; rt_n = rt_n + 1; $st_s }
//@spec
    requires old(self).gm@.len() < usize::MAX, new_key.0@.len() == 32,
        old(self).num_keys_received == 0 ==> old(self).blank(),
        old(self).num_keys_received > 0 ==> old(self).ready() && nless(old(self).pr(), new_key.0@),
    ensures r is Ok, final(self).kept(*old(self)), final(self).frozen_nodes.values == old(self).frozen_nodes.values, final(self).previous_leaf == old(self).previous_leaf,
        final(self).num_keys_received == old(self).num_keys_received, final(self).gm@ == old(self).gm@.insert(new_key.0@, value_hash.0@), final(self).ready(), final(self).pr() == new_key.0@,
//@start
    hide(shape); hide(kids_in); hide(many); hide(rep); hide(kid_ok); hide(leaf_last);
    let ghost s0 = *self;
    let ghost k = new_key.0@;
    let ghost pr = self.pr();
    proof { if s0.num_keys_received > 0 { shape_bound(s0.pn(), s0.version, s0.gm@, pr); } pp_facts(k, 0); if s0.num_keys_received > 0 { pp_facts(pr, 0); } }
//@loop 0
    invariant_except_break *self == s0, nibbles.wf(), rt_n <= 64, nibbles.wf(), nibbles.seen() =~= pp(k, rt_n as int), nibbles.rest() =~= nibs_of(k).skip(rt_n as int),
        rt_n > 0 ==> s0.num_keys_received > 0,
        s0.num_keys_received > 0 ==> rt_n < s0.pn().len() && pp(pr, rt_n as int) == pp(k, rt_n as int),
    invariant k == new_key.0@, k.len() == 32, value_hash.0@.len() == 32, pr == s0.pr(), s0.gm@.len() < usize::MAX, s0.num_keys_received == 0 ==> s0.blank(),
        s0.num_keys_received > 0 ==> s0.ready() && nless(pr, k) && 1 <= s0.pn().len() <= 64,
    ensures self.rest(s0), self.frozen_nodes.values == s0.frozen_nodes.values, self.added(k, value_hash.0@),
    decreases 64 - rt_n,
//@loopstart 0
    let ghost n0 = rt_n as int;
    let ghost mut e = s0.pn();
    proof { if s0.num_keys_received > 0 { next_entry(s0.pn(), s0.version, s0.gm@, pr, k, n0); } pp_facts(k, n0); pp_facts(k, n0 + 1); }
//@before let existing_leaf
    proof { assert(nibbles.seen() =~= pp(k, n0 + 1)); assert(nibbles.rest() =~= nibs_of(k).skip(n0 + 1)); assert(leaf_last(s0.pn(), s0.gm@, pr)); }
//@before self.partial_nodes[i].set_child($x, $y)
    proof { e = self.pn(); }
//@after self.partial_nodes[i].set_child($x, $y)
    proof {
        let node = LeafNode { key_hash: new_key, value_hash };
        let ks = e.last().ks();
        assert(self.pn().last().ks() =~= ks.update(nibn(k, n0) as int, Some(ChildInfo::Leaf { node })));
        if s0.num_keys_received > 0 { joined(self.vw(), e, self.version, self.gm@, pr, k, value_hash.0@, node, self.pn()); }
        else { first_pair(self.vw(), e[0], self.version, k, value_hash.0@, node, self.pn()); }
    }
//@tail
    self.gm = Ghost(self.gm@.insert(k, value_hash.0@));
//@end
//@fn jmt/src/restore.rs JellyfishMerkleRestore::compute_left_sibling_impl props C17 C18
//@rewrite? $x.is_power_of_two() ==> rt_pow2($x)
//@rewrite? &children[..$x] ==> rt_slice(children, 0, $x)
//@rewrite? &children[$x..] ==> rt_slice(children, $x, children.len())
//@rewrite? hash.as_ref().expect($m) ==> rt_hash_of(hash)
//@spec
    requires pow2(children@.len() as int), forall|i: int| 0 <= i < children@.len() ==> known(#[trigger] children@[i]),
    ensures forall|m: KV, p: Seq<u8>, s: int, h: int| #[trigger] run(children@, m, p, s, h) ==> run_is(m, p, s, h, r.0@, r.1),
    decreases children@.len(),
//@start
    proof {
        if children@.len() == 1 {
            assert forall|m: KV, p: Seq<u8>, s: int, h: int| #[trigger] run(children@, m, p, s, h) implies run_first(children@[0], m, p, s, h) by { assert(h == 0); run_one(children@, m, p, s); }
        }
    }
//@before if left_hash == SPARSE_MERKLE_PLACEHOLDER_HASH
    proof {
        let c = children@;
        let x = left_hash@;
        let y = right_hash@;
        assert forall|m: KV, p: Seq<u8>, s: int, h: int| #[trigger] run(c, m, p, s, h) implies run_joined(m, p, s, h, x, left_is_leaf, y, right_is_leaf) by {
            assert(h > 0);
            run_split(c, m, p, s, h);
            let a = c.subrange(0, c.len() as int / 2);
            let b = c.subrange(c.len() as int / 2, c.len() as int);
            assert(run(a, m, p, s, h - 1) && run(b, m, p, s + w_of(h - 1), h - 1));
            run_join(c, m, p, s, h, x, left_is_leaf, y, right_is_leaf);
        }
    }
//@end
//@fn jmt/src/restore.rs JellyfishMerkleRestore::compute_left_sibling props C17 C18
//@rewrite? &partial_node.children[start..start + width] ==> rt_slice16(&partial_node.children, start, start + width)
//@spec
    requires n.v() < 16, height < 4, forall|j: int| sib_half(n.v(), height as int) <= j < sib_half(n.v(), height as int) + w_of(height as int) ==> known(#[trigger] partial_node.ks()[j]),
    ensures forall|m: KV, p: Seq<u8>| #[trigger] run(partial_node.ks().subrange(sib_half(n.v(), height as int), sib_half(n.v(), height as int) + w_of(height as int)), m, p, sib_half(n.v(), height as int), height as int) ==> subt(m, p, sib_half(n.v(), height as int), height as int, r@),
//@start
    proof {
        half_facts(n.v(), height as int);
        assert(1usize << 0u8 == 1 && 1usize << 1u8 == 2 && 1usize << 2u8 == 4 && 1usize << 3u8 == 8) by (bit_vector);
        assert(height == 0 || height == 1 || height == 2 || height == 3);
        let (a, w) = (sib_half(n.v(), height as int), w_of(height as int));
        let c = partial_node.ks().subrange(a, a + w);
        assert forall|i: int| 0 <= i < w implies known(#[trigger] c[i]) by { assert(c[i] == partial_node.ks()[a + i]); }
    }
//@end
//@fn jmt/src/restore.rs JellyfishMerkleRestore::verify props C17 C18
//@rewrite? self.previous_leaf.as_ref().expect($m) ==> rt_leaf_of(&self.previous_leaf)
//@rewrite? for ($id_i, $id_b) in $x.iter_bits().enumerate() { ==> let rt_key = $x; let mut rt_b = rt_key.iter_bits(); let mut rt_n: usize = 0; loop { let $id_i = rt_n; let $id_b = match rt_b.next() { None => { break; } Some(rt_x) => rt_x }; rt_n = rt_n + 1;
//@rewrite? for $id_b in $x.iter_bits().rev() { ==> let rt_key2 = $x; let mut rt_b2 = rt_key2.iter_bits(); loop { let $id_b = match rt_b2.next_back() { None => { break; } Some(rt_x) => rt_x };
//@rewrite? left_siblings.last().expect($m) ==> rt_last_of(&left_siblings)
//@rewrite? left_siblings.reverse() ==> rt_reverse(&mut left_siblings)
//@spec
    requires self.proven(),
    ensures r is Ok ==> forall|m: KV| #[trigger] src(m, self.expected_root_hash.0@) ==> agree(self.gm@, m, self.pr()),
        forall|m: KV| #[trigger] src(m, self.expected_root_hash.0@) && agree(self.gm@, m, self.pr()) && range_of::<H>(m, self.pr(), proof) ==> r is Ok,
//@start
    hide(shape); hide(kids_in); hide(many); hide(rep); hide(kid_ok); hide(run); hide(range_of); hide(smt); hide(smt_hashed); hide(agree);
    let ghost k = self.pr();
    let ghost g = self.gm@;
    let ghost rn = proof.right_siblings@.len() as int;
    let ghost mut tt: Seq<[u8; 32]> = Seq::empty();
    let ghost mut gp: int = 256;
    let ghost mut gl: Seq<[u8; 32]> = Seq::empty();
    proof { shape_bound(self.pn(), self.version, g, k); assert(zeros(k, 0, 0) == 0); }
//@loop 0
    invariant self.proven(), k == self.pr(), g == self.gm@, 1 <= self.pn().len() <= 64, k.len() == 32, rt_b.wf(), rt_b.hash_bytes@ == k, rt_b.pos.start == rt_n, rt_b.pos.end == 256, rt_n <= 256, previous_key.0@ == k,
        tt.len() == rt_n, left_siblings@ == picked(tt, k, false, rt_n as int), num_visited_right_siblings == zeros(k, 0, rt_n as int), 0 <= zeros(k, 0, rt_n as int) <= rt_n, tsibs(g, k, tt),
    ensures rt_n == 256,
    decreases 256 - rt_n,
//@loopstart 0
    let ghost i0 = rt_n as int;
    let ghost t0 = tt;
    proof { if i0 < 256 { zeros_next(k, i0); if bitn(k, i0) { if i0 < 4 * self.pn().len() { left_run(self.pn(), self.version, g, k, i0); } else { left_none(self.pn(), self.version, g, k, i0); } } } }
//@loopend 0
    proof {
        tt = t0.push(if bit { left_siblings@.last() } else { arbitrary() });
        picked_same(t0, tt, k, i0);
    }
//@loop 1
    invariant_except_break rt_b2.pos.end == gp, left_siblings@ == picked(tt, k, false, gp), num_visited_right_siblings == zeros(k, 0, gp), 0 <= gp <= 256, rn <= zeros(k, 0, gp), trimmed(k, tt, rn, gp), rt_b2.wf(), rt_b2.hash_bytes@ == k, rt_b2.pos.start == 0,
    invariant k.len() == 32, tt.len() == 256, rn == proof.right_siblings@.len(),
    ensures trim_done(k, tt, rn, gp), left_siblings@ == picked(tt, k, false, gp),
    decreases rt_b2.pos.end,
//@loopstart 1
    let ghost l0 = left_siblings@;
    proof { if gp > 0 { zeros_next(k, gp - 1); if bitn(k, gp - 1) { assert(l0.last() == tt[gp - 1]); } } }
//@loopend 1
    proof { if bit { assert(l0.last()@ =~= ph()); } trim_more(k, tt, rn, gp); gp = gp - 1; }
//@afterloop 0
    proof { assert forall|m: KV| #[trigger] range_of::<H>(m, k, proof) implies rn <= zeros(k, 0, 256) by { rights_bound::<H>(m, k, proof); } }
//@afterloop 1
    proof { gl = left_siblings@; if gp > 0 { picked_at(tt, k, gp, 0); } else { assert(picked(tt, k, false, 0).len() == 0); } zeros_bound1(k, 0, gp); }
//@tail
    proof {
        let leaf = SparseMerkleLeafNode { key_hash: self.previous_leaf->0.key_hash, value_hash: self.previous_leaf->0.value_hash };
        let left = gl.reverse();
        if r is Ok {
            assert forall|m: KV| #[trigger] src(m, self.expected_root_hash.0@) implies agree(g, m, k) by { chunk_sound(g, m, k, tt, gp, proof, leaf, left, self.expected_root_hash.0@); }
        }
        assert forall|m: KV| #[trigger] src(m, self.expected_root_hash.0@) && agree(g, m, k) && range_of::<H>(m, k, proof) implies r is Ok by { chunk_complete::<H>(g, m, k, tt, gp, proof, leaf, left, self.expected_root_hash.0@); }
    }
//@end
    // between two chunks
    pub open spec fn inv(&self) -> bool {
        &&& self.num_keys_received == 0 ==> self.blank() && self.previous_leaf is None
        &&& self.num_keys_received > 0 ==> self.proven()
        &&& vals_in::<H>(self.vv(), self.version, self.gm@)
    }
    // the size of what is received
    pub open spec fn takes(&self, c: Ck) -> bool { self.inv() && self.gm@.len() + c.len() <= usize::MAX && self.num_keys_received + c.len() <= u64::MAX }
    pub open spec fn chunk_done(&self, o: Self, c: Ck, proof: SparseMerkleRangeProof, ok: bool) -> bool {
        let n = c.len() as int;
        let root = o.expected_root_hash.0@;
        &&& self.version == o.version && self.expected_root_hash == o.expected_root_hash
        &&& ok || o.store.reliable() ==> self.inv()
        // accepted: all of the chunk, in order, and what is held agrees with every tree of the expected root
        &&& ok ==> n > 0 && corder(o.last_key(), c, n) && self.gm@ == cins::<H>(o.gm@, c, n) && self.last_key() == Some(c.last().0.0@) && self.saved() && self.num_keys_received == o.num_keys_received + n
        &&& ok ==> forall|m: KV| #[trigger] src(m, root) ==> agree(self.gm@, m, c.last().0.0@)
        // refused: nothing is written
        &&& !ok && o.store.reliable() ==> self.store == o.store
        // the pairs of a tree of the expected root with the proof of its last key are accepted
        &&& o.store.reliable() && n > 0 && corder(o.last_key(), c, n) && (exists|m: KV| #[trigger] src(m, root) && agree(cins::<H>(o.gm@, c, n), m, c.last().0.0@) && range_of::<H>(m, c.last().0.0@, proof)) ==> ok
        &&& o.store.reliable() ==> self.store.reliable()
    }
    pub open spec fn finish_done(&self, o: Self, ok: bool) -> bool {
        let root = o.expected_root_hash.0@;
        &&& self.gm == o.gm && self.version == o.version
        // finished: the store holds the tree, which is the one with the expected root
        &&& ok ==> o.num_keys_received > 0 && holds(self.store.nodes(), o.version, o.gm@) && src(o.gm@, root) && vals_in::<H>(self.store.values(), o.version, o.gm@)
        &&& ok ==> forall|m: KV| #[trigger] src(m, root) ==> m == o.gm@
        &&& !ok && o.store.reliable() ==> self.store == o.store
        &&& o.store.reliable() && o.num_keys_received > 0 && smt(o.gm@, Seq::empty()) == root ==> ok
    }
//@fn jmt/src/restore.rs JellyfishMerkleRestore::add_chunk_impl props C17 C18
//@rewrite? for ($id_k, $id_v) in chunk { $st_s } ==> let mut rt_it = rt_pairs(chunk); loop { let ($id_k, $id_v) = match rt_it.next() { None => { break; } Some(rt_x) => rt_x }; $st_s }
//@rewrite? self.previous_leaf.replace($x) ==> rt_replace(&mut self.previous_leaf, $x)
//@spec
    requires old(self).takes(chunk@),
    ensures final(self).chunk_done(*old(self), chunk@, proof, r is Ok),
//@start
    hide(shape); hide(kids_in); hide(many); hide(rep); hide(kid_ok); hide(leaf_last); hide(range_of); hide(smt); hide(smt_hashed); hide(agree); hide(vals_in);
    let ghost s0 = *self;
    let ghost g0 = self.gm@;
    let ghost c = chunk@;
    let ghost mut n: int = 0;
    proof { c.len(); if c.len() > 0 { assert(c.subrange(0, c.len() as int) =~= c); } }
//@loop 0
    invariant_except_break 0 <= n <= c.len(), rt_it.v@ == c.subrange(n, c.len() as int),
        corder(s0.last_key(), c, n), self.gm@ == cins::<H>(g0, c, n), self.last_key() == (if n == 0 { s0.last_key() } else { Some(c[n - 1].0.0@) }),
        self.num_keys_received == s0.num_keys_received + n, self.gm@.len() <= g0.len() + n,
    invariant self.kept(s0), self.inv(), c.len() > 0, s0.inv(), g0.len() + c.len() <= usize::MAX, s0.num_keys_received + c.len() <= u64::MAX, c == chunk@, g0 == s0.gm@, s0 == *old(self),
    ensures corder(s0.last_key(), c, c.len() as int), self.gm@ == cins::<H>(g0, c, c.len() as int), self.last_key() == Some(c.last().0.0@), self.num_keys_received == s0.num_keys_received + c.len(),
    decreases c.len() - n,
//@loopstart 0
    let ghost a = *self;
    proof {
        if n < c.len() {
            assert(rt_it.v@.len() == c.len() - n);
            key_turn(a.last_key(), c[n].0.0@);
            corder_cut(s0.last_key(), c, n);
        }
    }
//@loopend 0
    proof {
        vals_more::<H>(a.store.values(), a.frozen_nodes.values@, self.version, a.gm@, key.0@, c[n].1);
        n = n + 1;
        assert(rt_it.v@ =~= c.subrange(n, c.len() as int));
    }
//@tail
    proof { assert(self.vv() =~= self.store.values()); assert(self.vw() =~= self.store.nodes()); }
//@end
    // the whole tree is frozen
    pub open spec fn whole(&self) -> bool { self.frozen_nodes.ns().contains_key(root_key(self.version)) && rep(self.vw(), self.version, Seq::empty(), self.gm@) }
//@fn jmt/src/restore.rs JellyfishMerkleRestore::ensure_expected_root props C17 C18
//@rewrite? self.frozen_nodes.get_node($x).ok_or_else(|| rt_err())? ==> (match self.frozen_nodes.get_node($x) { Some(rt_x) => rt_x, None => return Err(rt_err()) })
//@spec
    requires kv_ok(self.gm@), self.whole(),
    ensures r is Ok <==> smt(self.gm@, Seq::empty()) == self.expected_root_hash.0@,
        self.vw()[root_key(self.version)] matches Node::Leaf(l) ==> hashed(leaf_pre(l.k(), l.v())),
//@start
    hide(smt); hide(smt_hashed);
    proof {
        let e = Seq::<u8>::empty();
        rep_smt(self.vw(), self.version, e, self.gm@);
        assert(pb(e) =~= Seq::<bool>::empty());
        assert(self.vw()[root_key(self.version)] == self.frozen_nodes.ns()[root_key(self.version)]);
    }
//@tail
    proof { assert(smt(self.gm@, Seq::empty()) =~= self.expected_root_hash.0@); }
//@end
//@fn jmt/src/restore.rs JellyfishMerkleRestore::finish_impl props C17 C18
//@sig mut self ==> &mut self
//@rewrite? node.into() ==> Node::Leaf(node)
//@spec
    requires old(self).inv(), old(self).gm@.len() <= usize::MAX,
    ensures final(self).finish_done(*old(self), r is Ok),
//@start
    hide(shape); hide(kids_in); hide(many); hide(rep); hide(kid_ok); hide(leaf_last); hide(smt); hide(smt_hashed); hide(vals_in);
    let ghost s0 = *self;
    let ghost g = self.gm@;
    let ghost mut gx: int = 0;
    let ghost mut gy: int = 0;
    proof { if s0.num_keys_received > 0 { shape_bound(s0.pn(), s0.version, g, s0.pr()); } }
//@loop 0
    invariant *self == s0, s0.pn().len() == 1, s0.pn()[0].ks().len() == 16,
        only_some(s0.pn()[0].ks(), i as int, num_children as int, gx, gy, leaf),
//@loopend 0
    proof { if s0.pn()[0].ks()[i as int] is Some { gy = gx; gx = i as int; } }
//@afterloop 0
    proof {
        if s0.num_keys_received > 0 {
            last_is(s0.pn(), s0.version, g, s0.pr());
            if num_children == 1 { sole_kid(s0.pn(), s0.version, g, s0.pr(), gx); }
            if num_children > 1 { two_kids(s0.pn(), s0.version, g, s0.pr(), gx, gy); }
        }
    }
//@after self.frozen_nodes.insert_node($x, $y)
    proof {
        let l = s0.pn()[0].ks()[gx]->0->node;
        assert(self.vw() =~= s0.vw().insert(root_key(s0.version), Node::Leaf(l)));
        rep_leaf(self.vw(), s0.version, g, l);
    }
//@before return Ok(())
    proof {
        let l = s0.pn()[0].ks()[gx]->0->node;
        sole_src(g, l.k());
        src_unique(g, s0.expected_root_hash.0@);
    }
//@tail
    proof { if r is Ok { src_unique(g, s0.expected_root_hash.0@); } }
//@end
//@fn jmt/src/restore.rs JellyfishMerkleRestore::new_overwrite props C17 C18
//@sig <D: 'static + TreeWriter> ==>
//@sig Arc<D> ==> RtWriter
//@rewrite? frozen_nodes: Default::default() ==> frozen_nodes: rt_node_batch()
//@rewrite? _phantom_hasher: Default::default() ==> _phantom_hasher: PhantomHasher(std::marker::PhantomData), gm: Ghost(Map::empty())
//@rewrite? vec![$x] ==> rt_vec1($x)
//@spec
    ensures r matches Ok(x) && x.fresh(store, version, expected_root_hash) && x.inv(),
//@start
    hide(vals_in);
    let ghost w = store;
    proof { assert(vals_in::<H>(store.values(), version, Map::empty())) by { reveal(vals_in); } }
//@tail
    proof { let x = r->Ok_0; assert(x.vw() =~= w.nodes()); assert(x.vv() =~= w.values()); }
//@end
//@fn jmt/src/restore.rs JellyfishMerkleRestore::new props C17 C18
//@sig <D: 'static + TreeReader + TreeWriter> ==>
//@sig Arc<D> ==> RtWriter
//@rewrite? let tree_reader = Arc::clone(&store); ==> let tree_reader = &store;
//@rewrite? let raw_tree_reader = Arc::as_ptr(&tree_reader); ==>
//@rewrite? let recovery_tree = unsafe { &*raw_tree_reader }; ==> let recovery_tree = tree_reader;
//@rewrite? recovery_tree.clone() ==> recovery_tree
//@rewrite? frozen_nodes: Default::default() ==> frozen_nodes: rt_node_batch()
//@rewrite? _phantom_hasher: Default::default() ==> _phantom_hasher: PhantomHasher(std::marker::PhantomData), gm: Ghost(Map::empty())
//@rewrite? vec![$x] ==> rt_vec1($x)
//@spec
    ensures r is Ok && store.last_leaf() is None ==> r->Ok_0.fresh(store, version, expected_root_hash) && r->Ok_0.inv(),
        store.reliable() && store.last_leaf() is None ==> r is Ok,
//@start
    hide(vals_in);
    let ghost w = store;
    proof { assert(vals_in::<H>(store.values(), version, Map::empty())) by { reveal(vals_in); } }
//@tail
    proof { let x = r->Ok_0; assert(x.vw() =~= w.nodes()); assert(x.vv() =~= w.values()); }
//@end
    // recovery from a store with leaves: not under contract
    #[verifier::external_body]
    fn recover_partial_nodes(store: &RtWriter, version: Version, rightmost_leaf_node_key: NodeKey) -> (r: Result<Vec<InternalInfo>>) { unimplemented!() }
    pub open spec fn fresh(&self, store: RtWriter, version: u64, root: RootHash) -> bool {
        self.store == store && self.version == version && self.expected_root_hash == root && self.num_keys_received == 0 && self.gm@ == Map::<Seq<u8>, Seq<u8>>::empty() && self.last_key() is None && self.saved()
    }
//@fn jmt/src/restore.rs <StateSnapshotReceiver for JellyfishMerkleRestore>::add_chunk props C17 C18
//@spec
    requires old(self).takes(chunk@),
    ensures final(self).chunk_done(*old(self), chunk@, proof, r is Ok),
//@end
//@fn jmt/src/restore.rs <StateSnapshotReceiver for JellyfishMerkleRestore>::finish props C17 C18
//@sig (self) ==> (&mut self)
//@spec
    requires old(self).inv(), old(self).gm@.len() <= usize::MAX,
    ensures final(self).finish_done(*old(self), r is Ok),
//@end
//@fn jmt/src/restore.rs <StateSnapshotReceiver for JellyfishMerkleRestore>::finish_box props C17 C18
//@sig (self: Box<Self>) ==> (&mut self)
//@spec
    requires old(self).inv(), old(self).gm@.len() <= usize::MAX,
    ensures final(self).finish_done(*old(self), r is Ok),
//@end
}
// ---------------------------------------------------------------- every way of cutting the pairs of a tree into chunks restores it
pub type Parts = Seq<(Vec<(KeyHash, OwnedValue)>, SparseMerkleRangeProof)>;
pub open spec fn flat(cs: Parts, n: int) -> Ck decreases n { if n <= 0 { Seq::empty() } else { flat(cs, n - 1) + cs[n - 1].0@ } }
pub open spec fn sorted(f: Ck) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> nless(#[trigger] f[i].0.0@, #[trigger] f[j].0.0@) }
pub open spec fn gathered<H: SimpleHasher>(f: Ck) -> KV { cins::<H>(Map::empty(), f, f.len() as int) }
pub open spec fn part<H: SimpleHasher>(m: KV, c: (Vec<(KeyHash, OwnedValue)>, SparseMerkleRangeProof)) -> bool { c.0@.len() > 0 && range_of::<H>(m, c.0@.last().0.0@, c.1) }
// the pairs of m in order, cut into chunks, each with the range proof of its last key
pub open spec fn parts<H: SimpleHasher>(m: KV, cs: Parts) -> bool { cs.len() > 0 && m == gathered::<H>(flat(cs, cs.len() as int)) && sorted(flat(cs, cs.len() as int)) && forall|i: int| 0 <= i < cs.len() ==> part::<H>(m, #[trigger] cs[i]) }
pub proof fn cins_cat<H: SimpleHasher>(g: KV, a: Ck, b: Ck, n: int)
    requires 0 <= n <= b.len(),
    ensures cins::<H>(cins::<H>(g, a, a.len() as int), b, n) == cins::<H>(g, a + b, a.len() + n),
    decreases n,
{
    if n > 0 { cins_cat::<H>(g, a, b, n - 1); assert((a + b)[a.len() + n - 1] == b[n - 1]); } else { cins_first::<H>(g, a, b, a.len() as int); }
}
pub proof fn cins_first<H: SimpleHasher>(g: KV, a: Ck, b: Ck, n: int)
    requires 0 <= n <= a.len(),
    ensures cins::<H>(g, a + b, n) == cins::<H>(g, a, n),
    decreases n,
{ if n > 0 { cins_first::<H>(g, a, b, n - 1); assert((a + b)[n - 1] == a[n - 1]); } }
pub proof fn cins_size<H: SimpleHasher>(g: KV, c: Ck, n: int)
    requires 0 <= n <= c.len(),
    ensures cins::<H>(g, c, n).len() <= g.len() + n,
    decreases n,
{ if n > 0 { cins_size::<H>(g, c, n - 1); } }
pub proof fn flat_cut(cs: Parts, i: int, n: int)
    requires 0 <= i <= n <= cs.len(),
    ensures flat(cs, i).len() <= flat(cs, n).len(), flat(cs, n).take(flat(cs, i).len() as int) == flat(cs, i),
    decreases n - i,
{
    if i < n {
        flat_cut(cs, i, n - 1);
        assert(flat(cs, n).take(flat(cs, i).len() as int) =~= flat(cs, n - 1).take(flat(cs, i).len() as int));
    } else { assert(flat(cs, n).take(flat(cs, i).len() as int) =~= flat(cs, i)); }
}
// what comes after a key changes nothing up to it
pub proof fn sorted_agree<H: SimpleHasher>(f: Ck, n: int, e: int)
    requires sorted(f), 0 < n <= e <= f.len(),
    ensures agree(cins::<H>(Map::empty(), f, n), cins::<H>(Map::empty(), f, e), f[n - 1].0.0@),
    decreases e,
{
    if n < e {
        sorted_agree::<H>(f, n, e - 1);
        let k = f[n - 1].0.0@;
        let y = f[e - 1].0.0@;
        let a = cins::<H>(Map::empty(), f, e - 1);
        assert(nless(k, y));
        assert(agree(a, a.insert(y, H::dig(f[e - 1].1@)), k)) by {
            assert forall|x: Seq<u8>| x.len() == 32 && (x == k || nless(x, k)) implies x != y by { nless_not_both(k, y); if x == y { } }
        }
    }
}
pub fn rt_restore<H: SimpleHasher>(store: RtWriter, version: Version, root: RootHash, migration: bool, chunks: Vec<(Vec<(KeyHash, OwnedValue)>, SparseMerkleRangeProof)>, Ghost(m): Ghost<KV>) -> (r: Result<JellyfishMerkleRestore<H>>)
    requires store.reliable(), src(m, root.0@), parts::<H>(m, chunks@), flat(chunks@, chunks@.len() as int).len() <= usize::MAX, flat(chunks@, chunks@.len() as int).len() <= u64::MAX,
    ensures r matches Ok(x) && holds(x.store.nodes(), version, m) && vals_in::<H>(x.store.values(), version, m),
{
    hide(range_of); hide(smt); hide(smt_hashed); hide(agree); hide(vals_in); hide(holds); hide(JellyfishMerkleRestore::inv);
    let ghost cs = chunks@;
    let ghost e = cs.len() as int;
    let ghost f = flat(cs, e);
    let mut rest = match JellyfishMerkleRestore::<H>::new_overwrite(store, version, root, migration) { Ok(x) => x, Err(x) => { return Err(x); } };
    let mut it = rt_pairs(chunks);
    let ghost mut n: int = 0;
    proof { assert(cs.subrange(0, e) =~= cs); }
    loop
        invariant_except_break 0 <= n <= e, it.v@ == cs.subrange(n, e), rest.gm@ == gathered::<H>(flat(cs, n)), rest.num_keys_received == flat(cs, n).len(),
            rest.last_key() == (if n == 0 { None } else { Some(flat(cs, n).last().0.0@) }),
        invariant rest.inv(), rest.store.reliable(), rest.version == version, rest.expected_root_hash == root, e == cs.len(), f == flat(cs, e), f.len() <= usize::MAX, f.len() <= u64::MAX, parts::<H>(m, cs), src(m, root.0@),
        ensures rest.gm@ == m, rest.num_keys_received == f.len(),
        decreases e - n,
    {
        let ghost a = rest;
        match it.next() {
            None => { break; }
            Some(x) => {
                let (chunk, proof) = x;
                let ghost c = chunk@;
                proof {
                    assert(x == cs[n]);
                    assert(part::<H>(m, cs[n]));
                    flat_cut(cs, n, n + 1);
                    flat_cut(cs, n + 1, e);
                    let b = flat(cs, n);
                    let d = flat(cs, n + 1);
                    assert(d == b + c);
                    cins_size::<H>(Map::empty(), b, b.len() as int);
                    cins_cat::<H>(Map::empty(), b, c, c.len() as int);
                    assert(cins::<H>(a.gm@, c, c.len() as int) == gathered::<H>(d));
                    let l = d.len() as int;
                    sorted_agree::<H>(f, l, f.len() as int);
                    assert(f =~= d + f.skip(l)) by { assert(f.take(l) == d); }
                    cins_first::<H>(Map::empty(), d, f.skip(l), l);
                    assert(f[l - 1] == d[l - 1]) by { assert(f.take(l)[l - 1] == d[l - 1]); }
                    assert(d.last() == c.last());
                    assert forall|i: int| 0 <= i < c.len() implies #[trigger] cafter(a.last_key(), c, i) by {
                        let j = b.len() + i;
                        assert(d[j] == c[i] && f.take(l)[j] == d[j]);
                        if i > 0 { assert(d[j - 1] == c[i - 1] && f.take(l)[j - 1] == d[j - 1]); }
                        else if n > 0 { assert(part::<H>(m, cs[n - 1])); assert(b.len() > 0); assert(d[j - 1] == b[j - 1] && f.take(l)[j - 1] == d[j - 1]); }
                    }
                }
                match rest.add_chunk(chunk, proof) { Ok(_) => { } Err(x) => { return Err(x); } }
                proof { n = n + 1; assert(it.v@ =~= cs.subrange(n, e)); }
            }
        }
    }
    proof { assert(part::<H>(m, cs[e - 1])); assert(f.len() > 0); cins_size::<H>(Map::empty(), f, f.len() as int); }
    match rest.finish() { Ok(_) => Ok(rest), Err(x) => Err(x) }
}
} // verus!
