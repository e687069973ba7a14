// jmt/src/tree.rs: put, put_value_sets, put_value_set
//@common self.put($a) ==> self.put($a, Ghost(rt_v), Ghost(rt_m))
verus! {
// <[u8]>::to_vec
pub trait RtToVec { fn rt_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.rtv(); spec fn rtv(&self) -> Seq<u8>; }
impl RtToVec for [u8; 32] { open spec fn rtv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn rt_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
impl<'a> RtToVec for &'a [u8] { open spec fn rtv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn rt_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
// the version a batch was opened for: root at version v0 before, contents m by now
pub open spec fn opened<R: TreeReader>(c: TreeCache<R>, v0: u64, m: KV) -> bool {
    let rv = c.root_node_key.version;
    &&& c.wf() && kv_ok(m) && orep(c.ver(), c.w(), rv, Seq::empty(), m)
    &&& clean(c.ver(), c.w(), c.st(), Some(rv), Seq::empty())
    &&& local(c.ver(), c.past(), Set::empty(), Some(v0), c.w(), c.st(), Some(rv), Seq::empty())
    &&& rv != c.ver() ==> c.nc() == W::empty() && c.st() == Set::<NK>::empty() && rv == v0
}
pub proof fn cache_past<R: TreeReader>(c: TreeCache<R>)
    requires c.wf(),
    ensures olds(c.ver(), c.past(), c.w()), olds(c.ver(), c.w(), c.past()),
{
    assert forall|k: NK| k.0 != c.ver() implies #[trigger] at(c.w(), k) == at(c.past(), k) by { if c.nc().contains_key(k) { } }
    assert forall|k: NK| k.0 != c.ver() implies #[trigger] at(c.past(), k) == at(c.w(), k) by { if c.nc().contains_key(k) { } }
}
// no root, or a root that is not there
pub proof fn none_alike(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, p: Seq<u8>)
    requires local(ver, w0, s0, ov, w1, s1, None, p), !w1.contains_key((ver, p)),
    ensures local(ver, w0, s0, ov, w1, s1, Some(ver), p),
{
    reveal(local);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] lq(ver, w0, s0, ov, w1, s1, Some(ver), p, q) by { assert(lq(ver, w0, s0, ov, w1, s1, None, p, q)); assert(owalk(w1, Some(ver), p, q) == None::<u64>); }
}
pub proof fn local_none(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, p: Seq<u8>)
    requires local(ver, w0, s0, ov, w1, s1, None, p),
    ensures !w1.contains_key((ver, p)),
{
    reveal(local);
    isp_self(p);
    assert(lq(ver, w0, s0, ov, w1, s1, None, p, p));
}
// an empty root where nothing is left
pub proof fn null_root(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, p: Seq<u8>, w2: W, m: KV)
    requires clean(ver, w0, s0, ov, p), local(ver, w0, s0, ov, w1, s1, None, p), olds(ver, w0, w1), w2 == w1.insert((ver, p), Node::Null), p.len() == 0, nnone(m, p),
    ensures rep(w2, ver, p, m), local(ver, w0, s0, ov, w2, s1, Some(ver), p),
{
    local_clean(ver, w0, s0, ov, w1, s1, None, p);
    insert_only(w1, s1, (ver, p), Node::Null);
    assert(tip(ver, w1, s1, None, s1, p)) by { assert forall|a: u64| #[trigger] tipq(ver, w1, s1, None, s1, p, a) by { } }
    local_tip(ver, w1, s1, None, w2, s1, Some(ver), p);
    local_trans(ver, w0, s0, ov, w1, s1, None, w2, s1, Some(ver), p);
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::put props C09 C10 C16 C21
//@sig tree_cache: &mut TreeCache<R> ==> tree_cache: &mut TreeCache<R>, Ghost(rt_v): Ghost<u64>, Ghost(rt_m): Ghost<KV>
//@rewrite? .to_vec() ==> .rt_to_vec()
//@spec
    requires opened(*old(tree_cache), rt_v, rt_m), version == old(tree_cache).ver(), rt_m.len() < usize::MAX,
    ensures old(tree_cache).reader.reliable() ==> r is Ok,
        r is Ok ==> opened(*final(tree_cache), rt_v, upd(rt_m, key.0@, hv(value)))
            && final(tree_cache).frozen_cache == old(tree_cache).frozen_cache && final(tree_cache).value_cache == old(tree_cache).value_cache && final(tree_cache).reader == old(tree_cache).reader && final(tree_cache).ver() == old(tree_cache).ver()
            && (old(tree_cache).root_node_key.version == version ==> final(tree_cache).root_node_key.version == version)
            && (final(tree_cache).root_node_key.version != version ==> upd(rt_m, key.0@, hv(value)) == rt_m),
//@start
    let ghost c0 = *tree_cache;
    let ghost w0 = c0.w();
    let ghost s0 = c0.st();
    let ghost rv = c0.root_node_key.version;
    let ghost e = Seq::<u8>::empty();
    let ghost k = key.0@;
    let ghost val = hv(value);
    proof { upd_facts(rt_m, k, val); cache_past(c0); isp_self(nibs_of(k)); }
//@before match self.insert_at($a)
    proof { assert(root_node_key.p() =~= e); assert(nibble_path.v() =~= nibs_of(nibble_path.bytes@)); nibs_eq(nibble_path.bytes@, k); }
//@before let genesis_root_key
    let ghost w1 = tree_cache.w();
    let ghost s1 = tree_cache.st();
    proof {
        local_none(version, w0, s0, Some(rv), w1, s1, e);
        cache_old(*tree_cache, (version, e));
        cache_olds(c0, *tree_cache);
        null_root(version, w0, s0, Some(rv), w1, s1, e, w1.insert((version, e), Node::Null), upd(rt_m, k, val));
    }
//@tail
    proof { if r is Ok {
        let w2 = tree_cache.w();
        let s2 = tree_cache.st();
        let m1 = upd(rt_m, k, val);
        if val is None && !rt_m.contains_key(k) { assert(m1 =~= rt_m); }
        if w2 == w0 && c0.nc() == W::empty() {
            assert forall|x: NK| !tree_cache.nc().contains_key(x) by { if tree_cache.nc().contains_key(x) { assert(w0.contains_key(x)); assert(c0.past().contains_key(x)); } }
            assert(tree_cache.nc() =~= W::empty());
        }
        assert(tree_cache.past() == c0.past());
        assert(tree_cache.root_node_key.p() =~= e);
        if !(m1 == rt_m && tree_cache.root_node_key == c0.root_node_key && w2 == w0 && s2 == s0) {
            if w2 == w0.remove((version, e)) && s2 == s0 && !rt_m.contains_key(k) && val is None && rv == version && tree_cache.root_node_key == c0.root_node_key && w0.contains_key((version, e)) && w0[(version, e)] is Null {
                tip_gone(version, w0, s0, rv, e, w2, s2);
                none_alike(version, w0, s0, Some(rv), w2, s2, e);
                assert(m1 =~= rt_m);
            }
            local_clean(version, w0, s0, Some(rv), w2, s2, Some(version), e);
            local_trans(version, c0.past(), Set::empty(), Some(rt_v), w0, s0, Some(rv), w2, s2, Some(version), e);
        }
    } }
//@end
}
} // verus!
// ---------------------------------------------------------------- several versions
verus! {
impl<'a> RtBytes for &'a Vec<u8> { open spec fn rb(&self) -> Seq<u8> { (**self)@ } fn as_ref(&self) -> (r: &[u8]) { *self } }
pub type VMap = Map<(u64, Seq<u8>), Option<OwnedValue>>;
pub type USeq = Seq<(KeyHash, Option<OwnedValue>)>;
pub open spec fn hvo<H: SimpleHasher>(o: Option<OwnedValue>) -> Option<Seq<u8>> { match o { Some(x) => Some(H::dig(x@)), None => None } }
pub open spec fn views<T>(s: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(s.len(), |i: int| s[i]@) }
// the contents after the first n updates of a set
pub open spec fn fold1<H: SimpleHasher>(m: KV, s: USeq, n: int) -> KV
    decreases n,
{ if n <= 0 { m } else { upd(fold1::<H>(m, s, n - 1), s[n - 1].0.0@, hvo::<H>(s[n - 1].1)) } }
pub open spec fn vals1(v: u64, s: USeq, n: int) -> VMap
    decreases n,
{ if n <= 0 { VMap::empty() } else { vals1(v, s, n - 1).insert((v, s[n - 1].0.0@), s[n - 1].1) } }
pub open spec fn valsn(first: u64, ss: Seq<USeq>, n: int) -> VMap
    decreases n,
{ if n <= 0 { VMap::empty() } else { valsn(first, ss, n - 1).union_prefer_right(vals1((first + n - 1) as u64, ss[n - 1], ss[n - 1].len() as int)) } }
pub open spec fn total(ss: Seq<USeq>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { total(ss, n - 1) + ss[n - 1].len() } }
// ---- what one version does to the store: contents m0 with root at version rv become contents m1
pub struct Ver { pub w0: W, pub rv: u64, pub m0: KV, pub made: W, pub w1: W, pub st: Set<NK>, pub m1: KV, pub nv: u64 }
pub open spec fn based(ver: u64, w: W, rv: u64, m: KV) -> bool { rep(w, rv, Seq::empty(), m) || (ver == 0 && rv == 0 && m == KV::empty() && !w.contains_key(root_key(0))) }
#[verifier::opaque]
pub open spec fn stepped(x: Ver, ver: u64) -> bool {
    &&& kv_ok(x.m0) && kv_ok(x.m1) && based(ver, x.w0, x.rv, x.m0) && rep(x.w1, ver, Seq::empty(), x.m1)
    &&& forall|k: NK| #[trigger] x.w0.contains_key(k) ==> vo(k.0) < ver
    &&& forall|k: NK| #[trigger] x.made.contains_key(k) ==> k.0 == ver
    &&& x.w1 == over(x.w0, x.made)
    &&& forall|k: NK| #[trigger] x.st.contains(k) ==> x.w0.contains_key(k)
    &&& (x.nv == ver && local(ver, x.w0, Set::empty(), Some(x.rv), x.w1, x.st, Some(ver), Seq::empty()))
        || (x.nv == x.rv && x.nv != ver && x.m1 == x.m0 && x.st == Set::<NK>::empty() && x.w0.contains_key(root_key(x.rv)) && x.made == W::empty().insert(root_key(ver), x.w0[root_key(x.rv)]))
}
pub open spec fn hw(h: Seq<Ver>, w: W) -> W { if h.len() == 0 { w } else { h.last().w1 } }
pub open spec fn hm(h: Seq<Ver>, m: KV) -> KV { if h.len() == 0 { m } else { h.last().m1 } }
pub open spec fn hv_(h: Seq<Ver>, v: u64) -> u64 { if h.len() == 0 { v } else { h.last().nv } }
// a history of versions from first on, on top of w where the root is at version v and the contents are m
pub open spec fn chained(h: Seq<Ver>, first: u64, w: W, v: u64, m: KV) -> bool
    decreases h.len(),
{
    h.len() > 0 ==> chained(h.drop_last(), first, w, v, m) && stepped(h.last(), (first + h.len() - 1) as u64)
        && h.last().w0 == hw(h.drop_last(), w) && h.last().rv == hv_(h.drop_last(), v) && h.last().m0 == hm(h.drop_last(), m)
}
// the root hash and the statistics reported for a version
pub open spec fn told(x: Ver, ver: u64, r: RootHash, s: NodeStats) -> bool {
    r.0@ == smt(x.m1, Seq::empty()) && s.says(x.made, x.st, x.st.filter(|k: NK| x.w0[k] is Leaf))
}
// a cache between two versions
pub open spec fn ready<R: TreeReader>(c: TreeCache<R>, m: KV) -> bool {
    let rv = c.root_node_key.version;
    &&& c.wf() && kv_ok(m) && c.st() == Set::<NK>::empty() && c.value_cache@ == VMap::empty()
    &&& (c.nc() == W::empty() && rep(c.past(), rv, Seq::empty(), m)) || (c.ver() == 0 && rv == 0 && m == KV::empty() && c.nc() == W::empty().insert(root_key(0), Node::Null))
}
pub proof fn past_clean(ver: u64, w: W, v0: u64, p: Seq<u8>)
    requires forall|k: NK| #[trigger] w.contains_key(k) ==> vo(k.0) < ver, ver < u64::MAX,
    ensures clean(ver, w, Set::empty(), Some(v0), p),
{
    reveal(clean);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] cq(ver, w, Set::empty(), Some(v0), p, q) by { assert(vo(ver) == ver); }
}
pub proof fn ready_opened<R: TreeReader>(c: TreeCache<R>, m: KV)
    requires ready(c, m),
    ensures opened(c, c.root_node_key.version, m), based(c.ver(), c.past(), c.root_node_key.version, m),
{
    let ver = c.ver();
    let rv = c.root_node_key.version;
    let e = Seq::<u8>::empty();
    past_clean(ver, c.past(), rv, e);
    if c.nc() == W::empty() && rep(c.past(), rv, e, m) {
        assert(c.w() =~= c.past());
        local_same(ver, c.past(), Set::empty(), Some(rv), e);
        assert(c.past().contains_key((rv, e)));
        assert(rv != ver);
    } else {
        assert(c.w() =~= c.past().insert(root_key(0), Node::Null));
        assert forall|k: Seq<u8>| !#[trigger] nund(m, e, k) by { }
        assert(!c.past().contains_key((0u64, e)));
        tip_gone(ver, c.past(), Set::empty(), rv, e, c.past(), Set::empty());
        null_root(ver, c.past(), Set::empty(), Some(rv), c.past(), Set::empty(), e, c.w(), m);
        local_clean(ver, c.past(), Set::empty(), Some(rv), c.w(), Set::empty(), Some(ver), e);
    }
}
// what freezing needs, and what it leaves
pub proof fn opened_root<R: TreeReader>(c: TreeCache<R>, v0: u64, m: KV)
    requires opened(c, v0, m),
    ensures c.root_node().wf(), !c.w().contains_key(root_key(c.root_node_key.version)) ==> c.root_node_key.version == c.ver(), c.root_node_key.nk() == root_key(c.root_node_key.version),
{ }
pub open spec fn ver_of<R: TreeReader>(c: TreeCache<R>, d: TreeCache<R>, v0: u64, m0: KV, m1: KV) -> Ver {
    Ver { w0: c.past(), rv: v0, m0, made: c.made(), w1: d.past(), st: c.st(), m1, nv: c.root_node_key.version }
}
pub proof fn late_null(ver: u64, w0: W, v0: u64, w1: W, s1: Set<NK>, p: Seq<u8>)
    requires local(ver, w0, Set::empty(), Some(v0), w1, s1, Some(ver), p), !w1.contains_key((ver, p)),
    ensures local(ver, w0, Set::empty(), Some(v0), w1, s1, None, p),
{
    reveal(local);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] lq(ver, w0, Set::empty(), Some(v0), w1, s1, None, p, q) by { assert(lq(ver, w0, Set::empty(), Some(v0), w1, s1, Some(ver), p, q)); assert(owalk(w1, Some(ver), p, q) == None::<u64>); }
}
pub proof fn frozen_step<R: TreeReader>(c: TreeCache<R>, d: TreeCache<R>, v0: u64, m0: KV, m1: KV)
    requires opened(c, v0, m1), kv_ok(m0), based(c.ver(), c.past(), v0, m0), d.wf(), d.base() == c.base(), d.fz() == over(c.fz(), c.made()), d.root_node_key == c.root_node_key, d.ver() == c.ver() + 1,
        d.nc() == W::empty(), d.st() == Set::<NK>::empty(), d.value_cache@ == VMap::empty(), c.root_node_key.version != c.ver() ==> m1 == m0,
    ensures stepped(ver_of(c, d, v0, m0, m1), c.ver()), ready(d, m1), c.root_node().hsh() == smt(m1, Seq::empty()),
{
    reveal(stepped);
    let ver = c.ver();
    let rv = c.root_node_key.version;
    let e = Seq::<u8>::empty();
    let w0 = c.past();
    let w1 = d.past();
    assert(w1 =~= over(w0, c.made()));
    past_clean(ver, w0, v0, e);
    cache_past(c);
    assert(pb(e) =~= Seq::<bool>::empty());
    if rv == ver {
        if c.w().contains_key(root_key(ver)) {
            cache_old(c, root_key(ver));
            assert(c.nc().contains_key(root_key(ver))) by { if c.past().contains_key(root_key(ver)) { } }
            assert(w1 =~= c.w());
            assert(rep(w1, ver, e, m1));
        } else {
            assert(w1 =~= c.w().insert(root_key(ver), Node::Null));
            late_null(ver, w0, v0, c.w(), c.st(), e);
            null_root(ver, w0, Set::empty(), Some(v0), c.w(), c.st(), e, w1, m1);
        }
        rep_smt(w1, ver, e, m1);
        assert(w1[(ver, e)] == c.root_node());
    } else {
        assert(c.w() =~= w0);
        assert(rep(w0, rv, e, m1));
        assert(c.made() =~= W::empty().insert(root_key(ver), w0[root_key(rv)]));
        copy_rep(w0, w1, rv, ver, m1);
        rep_smt(w1, ver, e, m1);
    }
}
// a copy of the root for a newer version
pub proof fn copy_rep(w0: W, w1: W, rv: u64, ver: u64, m: KV)
    requires rep(w0, rv, Seq::empty(), m), w1 == over(w0, W::empty().insert(root_key(ver), w0[root_key(rv)])), vo(rv) <= vo(ver), !w0.contains_key(root_key(ver)),
    ensures rep(w1, ver, Seq::empty(), m), rep(w1, rv, Seq::empty(), m),
{
    let e = Seq::<u8>::empty();
    assert(within(w0, w1));
    rep_more(w0, w1, rv, e, m);
    match w0[(rv, e)] {
        Node::Internal(n) => {
            rep_internal(w1, rv, e, m);
            assert forall|i: int| 0 <= i < 16 implies crep(w1, ver, e, m, #[trigger] n.cs()[i], i) by { assert(crep(w1, rv, e, m, n.cs()[i], i)); }
            rep_from(w1, ver, e, m, n);
        }
        _ => { }
    }
}
} // verus!
verus! {
impl<'a, R: TreeReader> TreeCache<'a, R> {
//@fn jmt/src/tree_cache.rs <From<TreeCache<'a,R>> for Vec>::from props C09 C10 C16 C21
//@rename rt_done
//@sig Self ==> (Vec<RootHash>, TreeUpdateBatch)
//@spec
    ensures r == tree_cache.done(),
//@end
}
impl<'a, R: TreeReader> TreeCache<'a, R> {
    pub open spec fn done(self) -> (Vec<RootHash>, TreeUpdateBatch) {
        (self.frozen_cache.root_hashes, TreeUpdateBatch { node_batch: self.frozen_cache.node_cache, stale_node_index_batch: self.frozen_cache.stale_node_index_cache, node_stats: self.frozen_cache.node_stats })
    }
}
impl<'a, R: TreeReader> RtInto<(Vec<RootHash>, TreeUpdateBatch)> for TreeCache<'a, R> { open spec fn to(self) -> (Vec<RootHash>, TreeUpdateBatch) { self.done() } fn rt_into(self) -> (r: (Vec<RootHash>, TreeUpdateBatch)) { Self::rt_done(self) } }
} // verus!
verus! {
// what the tree at the version before `first` holds
pub open spec fn genesis(w: W, first: u64) -> bool { first == 0 && !w.contains_key(root_key(PRE_GENESIS_VERSION)) }
pub open spec fn prev_ver(w: W, first: u64) -> u64 { if first == 0 { if genesis(w, first) { 0 } else { PRE_GENESIS_VERSION } } else { (first - 1) as u64 } }
pub open spec fn prev_map(w: W, first: u64) -> KV { if genesis(w, first) { KV::empty() } else { tmap(w, prev_ver(w, first)) } }
// the version before is there, and there is room for n more
pub open spec fn can_put(w: W, first: u64, n: int) -> bool {
    &&& first + n < u64::MAX - 1
    &&& forall|k: NK| #[trigger] w.contains_key(k) ==> vo(k.0) < first
    &&& genesis(w, first) || has_tree(w, prev_ver(w, first))
}
// the history h is what the update reports
pub open spec fn reported(h: Seq<Ver>, first: u64, w: W, roots: Seq<RootHash>, b: TreeUpdateBatch) -> bool {
    &&& chained(h, first, w, prev_ver(w, first), prev_map(w, first))
    &&& roots.len() == h.len() && b.node_stats@.len() == h.len() && over(w, b.node_batch.ns()) == hw(h, w)
    &&& forall|k: NK| #[trigger] b.node_batch.ns().contains_key(k) ==> first <= k.0 < first + h.len()
    &&& forall|i: int| 0 <= i < h.len() ==> told(#[trigger] h[i], (first + i) as u64, roots[i], b.node_stats@[i])
    &&& forall|x: (u64, NK)| #[trigger] b.stale_node_index_batch@.contains(x) <==> stale_in(h, first, x)
}
pub open spec fn stale_in(h: Seq<Ver>, first: u64, x: (u64, NK)) -> bool { first <= x.0 < first + h.len() && h[x.0 - first].st.contains(x.1) }
pub open spec fn folded<H: SimpleHasher>(h: Seq<Ver>, ss: Seq<USeq>) -> bool {
    h.len() <= ss.len() && forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).m1 == fold1::<H>(h[i].m0, ss[i], ss[i].len() as int)
}
pub open spec fn sets_put<H: SimpleHasher>(h: Seq<Ver>, ss: Seq<USeq>, first: u64, w: W, roots: Seq<RootHash>, b: TreeUpdateBatch) -> bool {
    &&& h.len() == ss.len() && reported(h, first, w, roots, b) && folded::<H>(h, ss)
    &&& b.node_batch.values@ == valsn(first, ss, ss.len() as int)
}
pub open spec fn put_sets<H: SimpleHasher>(ss: Seq<USeq>, first: u64, w: W, x: (Vec<RootHash>, TreeUpdateBatch)) -> bool { exists|h: Seq<Ver>| #[trigger] sets_put::<H>(h, ss, first, w, x.0@, x.1) }
pub open spec fn put_set<H: SimpleHasher>(s: USeq, ver: u64, w: W, x: (RootHash, TreeUpdateBatch)) -> bool {
    exists|h: Seq<Ver>, ss: Seq<USeq>, roots: Seq<RootHash>| #[trigger] sets_put::<H>(h, ss, ver, w, roots, x.1) && ss.len() == 1 && ss[0] == s && roots[0] == x.0
}
// the history so far is what the cache will report
pub open spec fn so_far<R: TreeReader>(h: Seq<Ver>, first: u64, w: W, c: TreeCache<R>) -> bool {
    &&& reported(h, first, w, c.frozen_cache.root_hashes@, c.done().1)
    &&& ready(c, hm(h, prev_map(w, first))) && c.root_node_key.version == hv_(h, prev_ver(w, first)) && c.ver() == first + h.len() && c.base() == w
}
pub proof fn start_ready<R: TreeReader>(c: TreeCache<R>, first: u64, n: int)
    requires c.wf(), can_put(c.base(), first, n), c.fz() == W::empty(), c.frozen_cache.root_hashes@.len() == 0, c.frozen_cache.node_stats@.len() == 0, c.frozen_cache.stale_node_index_cache@ == Set::<(u64, NK)>::empty(),
        c.st() == Set::<NK>::empty(), c.value_cache@ == VMap::empty(), c.ver() == first, c.root_node_key.version == TreeCache::<R>::start_of(c.base(), first), c.nc() == TreeCache::<R>::start_nc(c.base(), first),
    ensures so_far(Seq::<Ver>::empty(), first, c.base(), c),
{
    let w = c.base();
    assert(over(w, W::empty()) =~= w);
    if !genesis(w, first) { assert(holds(w, prev_ver(w, first), tmap(w, prev_ver(w, first)))); }
}
// one more version
pub proof fn one_more<R: TreeReader>(h: Seq<Ver>, first: u64, w: W, c0: TreeCache<R>, c: TreeCache<R>, d: TreeCache<R>, m1: KV)
    requires so_far(h, first, w, c0), opened(c, c0.root_node_key.version, m1), c.reader == c0.reader, c.frozen_cache == c0.frozen_cache, c.ver() == c0.ver(),
        c.root_node_key.version != c.ver() ==> m1 == hm(h, prev_map(w, first)), first + h.len() < u64::MAX - 1,
        d.wf(), d.reader == c.reader, d.root_node_key == c.root_node_key, d.ver() == c.ver() + 1, d.nc() == W::empty(), d.st() == Set::<NK>::empty(), d.value_cache@ == VMap::empty(),
        d.fz() == over(c.fz(), c.made()),
        stale_adds(d.frozen_cache.stale_node_index_cache@, c.frozen_cache.stale_node_index_cache@, c.ver(), c.st()),
        d.frozen_cache.root_hashes@.len() == c.frozen_cache.root_hashes@.len() + 1, d.frozen_cache.root_hashes@.drop_last() == c.frozen_cache.root_hashes@, d.frozen_cache.root_hashes@.last().0@ == c.root_node().hsh(),
        d.frozen_cache.node_stats@.len() == c.frozen_cache.node_stats@.len() + 1, d.frozen_cache.node_stats@.drop_last() == c.frozen_cache.node_stats@, d.frozen_cache.node_stats@.last().says(c.made(), c.st(), c.stl()),
    ensures so_far(h.push(ver_of(c, d, c0.root_node_key.version, hm(h, prev_map(w, first)), m1)), first, w, d),
{
    let m0 = hm(h, prev_map(w, first));
    let v0 = c0.root_node_key.version;
    let x = ver_of(c, d, v0, m0, m1);
    let g = h.push(x);
    ready_opened(c0, m0);
    assert(c.past() == c0.past());
    frozen_step(c, d, v0, m0, m1);
    assert(g.drop_last() =~= h);
    assert(g.last() == x);
    assert(c.past() == hw(h, w));
    assert(d.past() == x.w1);
    assert(chained(g, first, w, prev_ver(w, first), prev_map(w, first)));
    let b = d.done().1;
    let b0 = c.done().1;
    assert(told(x, c.ver(), d.frozen_cache.root_hashes@.last(), b.node_stats@.last())) by { assert(c.stl() =~= c.st().filter(|k: NK| c.past()[k] is Leaf)); }
    assert forall|i: int| 0 <= i < g.len() implies told(#[trigger] g[i], (first + i) as u64, d.frozen_cache.root_hashes@[i], b.node_stats@[i]) by {
        if i < h.len() {
            assert(told(h[i], (first + i) as u64, c.frozen_cache.root_hashes@[i], b0.node_stats@[i]));
            assert(d.frozen_cache.root_hashes@.drop_last()[i] == c.frozen_cache.root_hashes@[i]);
            assert(b.node_stats@.drop_last()[i] == b0.node_stats@[i]);
        }
    }
    assert forall|k: NK| #[trigger] b.node_batch.ns().contains_key(k) implies first <= k.0 < first + g.len() by { if c.made().contains_key(k) { reveal(stepped); assert(x.made.contains_key(k)); } else { assert(b0.node_batch.ns().contains_key(k)); } }
    assert forall|y: (u64, NK)| #[trigger] b.stale_node_index_batch@.contains(y) <==> stale_in(g, first, y) by { assert(b0.stale_node_index_batch@.contains(y) <==> stale_in(h, first, y)); }
}
// vec![x]
pub fn rt_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x], { let mut v = Vec::new(); v.push(x); v }
pub proof fn upd_len(m: KV, k: Seq<u8>, v: Option<Seq<u8>>)
    ensures upd(m, k, v).len() <= m.len() + 1,
{ match v { Some(h) => { assert(m.insert(k, h).dom() =~= m.dom().insert(k)); }, None => { assert(m.remove(k).dom() =~= m.dom().remove(k)); } } }
pub proof fn total_mono(ss: Seq<USeq>, i: int, n: int)
    requires 0 <= i <= n,
    ensures total(ss, i) <= total(ss, n),
    decreases n - i,
{ if i < n { total_mono(ss, i, n - 1); } }
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::put_value_sets props C09 C10 C16 C21
//@sig impl IntoIterator<Item = impl IntoIterator<Item = (KeyHash, Option<OwnedValue>)>> ==> Vec<Vec<(KeyHash, Option<OwnedValue>)>>
//@rewrite? for ($id_x, $id_y) in $id_z.into_iter().enumerate() { $st_b } ==> let mut rt_i = rt_iter($id_z); let mut rt_n = 0usize; loop { match rt_i.next() { None => { break; } Some($id_y) => { let $id_x = rt_n; $st_b rt_n += 1; } } }
//@rewrite? $id_s.into_iter().enumerate().try_for_each(|($id_i, ($id_k, $id_v))| { $st_b })?; ==> let mut rt_j = rt_iter($id_s); let mut rt_c = 0usize; loop { match rt_j.next() { None => { break; } Some(($id_k, $id_v)) => { let $id_i = rt_c; let rt_r: Result<()> = { $st_b }; match rt_r { Ok(_) => { } Err(_) => { return Err(rt_err()); } } rt_c += 1; } } }
//@rewrite? $id_s.as_ref().map(|$id_v| $e) ==> (match &$id_s { Some($id_v) => Some($e), None => None })
//@rewrite? Ok($id_c.into()) ==> let rt_x = $id_c.rt_into(); Ok(rt_x)
//@spec
    requires can_put(self.nodes(), first_version, value_sets@.len() as int), prev_map(self.nodes(), first_version).len() + total(views(value_sets@), value_sets@.len() as int) < usize::MAX,
    ensures self.reader.reliable() ==> r is Ok,
        r matches Ok(x) ==> put_sets::<H>(views(value_sets@), first_version, self.nodes(), x),
//@start
    let ghost vs = value_sets@;
    let ghost ss = views(vs);
    let ghost w = self.nodes();
    let ghost first = first_version;
    let ghost mut h = Seq::<Ver>::empty();
//@before let mut rt_i =
    proof { assert(value_sets.len() == vs.len()); assert(vs.subrange(0, ss.len() as int) =~= vs); start_ready(tree_cache, first, ss.len() as int); }
//@loop 0
    invariant ss.len() <= usize::MAX, rt_n <= ss.len(), rt_i.v@ == vs.subrange(rt_n as int, ss.len() as int), ss == views(vs), h.len() == rt_n, so_far(h, first, w, tree_cache), folded::<H>(h, ss), tree_cache.frozen_cache.node_cache.values@ == valsn(first, ss, rt_n as int),
        can_put(w, first, ss.len() as int), first == first_version, *tree_cache.reader == *self.reader, hm(h, prev_map(w, first)).len() <= prev_map(w, first).len() + total(ss, rt_n as int), prev_map(w, first).len() + total(ss, ss.len() as int) < usize::MAX,
    ensures rt_n == ss.len(),
    decreases rt_i.v@.len(),
//@before let version =
    let ghost c0 = tree_cache;
    let ghost s = value_set@;
    let ghost m0 = hm(h, prev_map(w, first));
    let ghost mut rt_m = m0;
    let ghost rt_v = tree_cache.root_node_key.version;
    proof { ready_opened(tree_cache, rt_m); total_mono(ss, rt_n + 1, ss.len() as int); assert(s == ss[rt_n as int]); }
//@loop 1
    invariant rt_c <= s.len(), rt_j.v@ == s.subrange(rt_c as int, s.len() as int), opened(tree_cache, rt_v, rt_m), rt_m == fold1::<H>(m0, s, rt_c as int), tree_cache.value_cache@ == vals1(version, s, rt_c as int),
        tree_cache.frozen_cache == c0.frozen_cache, tree_cache.reader == c0.reader, *c0.reader == *self.reader, tree_cache.ver() == version, version == c0.ver(), rt_m.len() <= m0.len() + rt_c, m0.len() + s.len() < usize::MAX,
        tree_cache.root_node_key.version != version ==> rt_m == m0,
    ensures rt_c == s.len(),
    decreases rt_j.v@.len(),
//@before rt_c += 1
    proof { rt_m = fold1::<H>(m0, s, rt_c + 1); }
//@before tree_cache.freeze()
    let ghost c1 = tree_cache;
    proof { opened_root(c1, rt_v, rt_m); }
//@before rt_n += 1
    proof {
        one_more(h, first, w, c0, c1, tree_cache, rt_m);
        h = h.push(ver_of(c1, tree_cache, rt_v, m0, rt_m));
    }
//@before Ok(rt_x)
    proof { assert(sets_put::<H>(h, ss, first, w, rt_x.0@, rt_x.1)); assert(put_sets::<H>(ss, first, w, rt_x)); }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::put_value_set props C09 C10 C16 C21
//@sig impl IntoIterator<Item = (KeyHash, Option<OwnedValue>)> ==> Vec<(KeyHash, Option<OwnedValue>)>
//@rewrite? vec![$e] ==> rt_vec1($e)
//@spec
    requires can_put(self.nodes(), version, 1), prev_map(self.nodes(), version).len() + value_set@.len() < usize::MAX,
    ensures self.reader.reliable() ==> r is Ok,
        r matches Ok(x) ==> put_set::<H>(value_set@, version, self.nodes(), x),
//@start
    let ghost s = value_set@;
    proof { reveal_with_fuel(total, 2); }
//@before Ok((root_hashes
    proof {
        let x = (root_hashes, tree_update_batch);
        let ss = choose|ss: Seq<USeq>| #[trigger] put_sets::<H>(ss, version, self.nodes(), x) && ss.len() == 1 && ss[0] == s;
        let h = choose|h: Seq<Ver>| #[trigger] sets_put::<H>(h, ss, version, self.nodes(), x.0@, x.1);
        assert(sets_put::<H>(h, ss, version, self.nodes(), x.0@, x.1));
        assert(ss.len() == 1 && ss[0] == s && x.0@[0] == root_hashes[0]);
        assert(sets_put::<H>(h, ss, version, self.nodes(), root_hashes@, tree_update_batch));
        let y = (root_hashes[0], tree_update_batch);
        assert(sets_put::<H>(h, ss, version, self.nodes(), root_hashes@, y.1) && ss.len() == 1 && ss[0] == s && root_hashes@[0] == y.0);
        assert(exists|h2: Seq<Ver>, s2: Seq<USeq>, roots: Seq<RootHash>| #[trigger] sets_put::<H>(h2, s2, version, self.nodes(), roots, y.1) && s2.len() == 1 && s2[0] == s && roots[0] == y.0);
        assert(put_set::<H>(s, version, self.nodes(), (root_hashes[0], tree_update_batch)));
    }
//@end
}
} // verus!
