// iteration over a store with a history (C15): every leaf that is there has its value
verus! {
pub open spec fn leaf_at<R: TreeReader, H: SimpleHasher>(r: R, nk: NK) -> bool { r.nodes()[nk] matches Node::Leaf(l) ==> (r.val(nk.0, l.k()) matches Some(x) && l.v() == H::dig(x)) }
#[verifier::opaque]
pub open spec fn leaf_true<R: TreeReader, H: SimpleHasher>(r: R) -> bool { forall|nk: NK| #[trigger] r.nodes().contains_key(nk) ==> leaf_at::<R, H>(r, nk) }
// what an iterator asks of its store
pub proof fn c15_can_iterate<R: TreeReader, H: SimpleHasher>(r: R, low: u64, n: u64, v: u64)
    requires store_ok::<R, H>(r, low, n), leaf_true::<R, H>(r), low <= v < n,
    ensures version_there(r, v), leaf_vals(r),
{ reveal(store_ok); reveal(leaf_true); assert(has_tree(r.nodes(), v)); assert forall|nk: NK| #[trigger] r.nodes().contains_key(nk) implies (r.nodes()[nk] matches Node::Leaf(l) ==> r.val(nk.0, l.k()) is Some) by { assert(leaf_at::<R, H>(r, nk)); } }
// the value a pair is shown with is the value of its key at that version
pub proof fn c15_pair<R: TreeReader, H: SimpleHasher>(r: R, low: u64, n: u64, v: u64, k: Seq<u8>, x: Seq<u8>)
    requires store_ok::<R, H>(r, low, n), leaf_true::<R, H>(r), low <= v < n, shown(r, tmap(r.nodes(), v), k, x), k.len() == 32,
    ensures tmap(r.nodes(), v)[k] == H::dig(x), r.val(v, k) matches Some(y) && H::dig(y) == H::dig(x) && (H::seen(x) && H::seen(y) ==> x == y),
{
    reveal(store_ok); reveal(leaf_true);
    let m = tmap(r.nodes(), v);
    assert(vals_ok::<R, H>(r, v, m));
    let nk = choose|nk: NK| #[trigger] shown_at(r, m, k, x, nk);
    assert(leaf_at::<R, H>(r, nk));
    let o = r.val(v, k);
    assert(o is Some);
    let y = o->0;
    if H::seen(x) && H::seen(y) { H::no_collision(x, y); }
}
pub proof fn walk_rep(w: W, v: u64, p: Seq<u8>, m: KV, q: Seq<u8>)
    requires rep(w, v, p, m), walk(w, v, p, q) is Some,
    ensures rep(w, walk(w, v, p, q)->0, q, m),
    decreases q.len() - p.len(),
{
    if p.len() >= q.len() { isp_eq(p, q); }
    else { match w[(v, p)] {
        Node::Internal(n) => { let x = q[p.len() as int]; if x < 16 { rep_internal(w, v, p, m); assert(crep(w, v, p, m, n.cs()[x as int], x as int)); match n.cs()[x as int] { Some(c) => { walk_rep(w, c.version, p.push(x), m, q); }, None => { } } } },
        _ => { },
    } }
}
// a leaf made by a version holds what the version holds
pub proof fn made_leaf(x: Ver, ver: u64, nk: NK)
    requires stepped(x, ver), ver < u64::MAX, x.w1.contains_key(nk), nk.0 == ver,
    ensures x.w1[nk] matches Node::Leaf(l) ==> x.m1.contains_key(l.k()) && x.m1[l.k()] == l.v(),
{
    reveal(stepped);
    let e = Seq::<u8>::empty();
    if let Node::Leaf(l) = x.w1[nk] {
        if x.nv == ver && local(ver, x.w0, Set::empty(), Some(x.rv), x.w1, x.st, Some(ver), e) {
            reveal(local);
            isp_self(nk.1);
            assert(lq(ver, x.w0, Set::empty(), Some(x.rv), x.w1, x.st, Some(ver), e, nk.1));
            walk_rep(x.w1, ver, e, x.m1, nk.1);
            assert(nund(x.m1, nk.1, l.k()));
        } else {
            if !x.made.contains_key(nk) { assert(x.w0.contains_key(nk)); }
            assert(nk == root_key(ver));
            assert(nund(x.m1, e, l.k()));
        }
    }
}
// where a node of a history comes from
pub proof fn chain_made(h: Seq<Ver>, first: u64, w: W, v: u64, m: KV, nk: NK)
    requires chained(h, first, w, v, m), first + h.len() < u64::MAX, hw(h, w).contains_key(nk),
    ensures w.contains_key(nk) || (first <= nk.0 < first + h.len() && h[nk.0 - first].w1.contains_key(nk)),
    decreases h.len(),
{
    if h.len() > 0 {
        let g = h.drop_last();
        let x = h.last();
        reveal(stepped);
        assert(stepped(x, (first + h.len() - 1) as u64));
        if x.made.contains_key(nk) { } else {
            assert(hw(g, w).contains_key(nk));
            chain_made(g, first, w, v, m, nk);
            if !w.contains_key(nk) { assert(g[nk.0 - first] == h[nk.0 - first]); }
        }
    }
}
pub proof fn c15_update<R: TreeReader, H: SimpleHasher>(r0: R, r1: R, low: u64, n: u64, h: Seq<Ver>, roots: Seq<RootHash>, b: TreeUpdateBatch)
    requires leaf_true::<R, H>(r0), store_ok::<R, H>(r0, low, n), reported(h, n, r0.nodes(), roots, b), sets_vals::<H>(h, n, b.node_batch.values@), wrote(r0, r1, n, b.node_batch), n + h.len() < u64::MAX - 1,
    ensures leaf_true::<R, H>(r1),
{
    reveal(leaf_true);
    let w0 = r0.nodes();
    let w1 = r1.nodes();
    let v0 = prev_ver(w0, n);
    let m0 = prev_map(w0, n);
    chain_within(h, n, w0, v0, m0);
    update_ok::<R, H>(r0, r1, low, n, h, roots, b);
    assert forall|nk: NK| #[trigger] w1.contains_key(nk) implies leaf_at::<R, H>(r1, nk) by {
        chain_made(h, n, w0, v0, m0, nk);
        if w0.contains_key(nk) {
            reveal(store_ok);
            assert(leaf_at::<R, H>(r0, nk));
            assert(w1[nk] == w0[nk]);
            if let Node::Leaf(l) = w0[nk] { assert(r1.val(nk.0, l.k()) == r0.val(nk.0, l.k())); }
        } else {
            let i = nk.0 - n;
            assert(stepped(h[i], (n + i) as u64));
            assert(w1[nk] == h[i].w1[nk]);
            made_leaf(h[i], nk.0, nk);
            if let Node::Leaf(l) = w1[nk] { vals_hold::<R, H>(r0, r1, low, n, h, b.node_batch, i, l.k()); }
        }
    }
}
pub proof fn c15_purge<R: TreeReader, H: SimpleHasher>(r0: R, s0: Stales, r1: R, s1: Stales, least: u64)
    requires leaf_true::<R, H>(r0), purged(r0.nodes(), s0, least, r1.nodes(), s1), forall|v: u64, k: Seq<u8>| #[trigger] r1.val(v, k) == r0.val(v, k),
    ensures leaf_true::<R, H>(r1),
{
    reveal(leaf_true);
    assert forall|nk: NK| #[trigger] r1.nodes().contains_key(nk) implies leaf_at::<R, H>(r1, nk) by {
        assert(at(r1.nodes(), nk) == if gone(s0, least, nk) { None } else { at(r0.nodes(), nk) });
        assert(leaf_at::<R, H>(r0, nk));
        if let Node::Leaf(l) = r1.nodes()[nk] { assert(r1.val(nk.0, l.k()) == r0.val(nk.0, l.k())); }
    }
}
pub proof fn c15_new<R: TreeReader, H: SimpleHasher>(r: R)
    requires r.nodes() == W::empty(),
    ensures leaf_true::<R, H>(r),
{ reveal(leaf_true); }
// ---------------------------------------------------------------- a whole iteration: every pair from the start on, once, in order
pub struct Pass<R: TreeReader> { pub its: Seq<JellyfishMerkleIterator<R>>, pub out: Seq<(KeyHash, OwnedValue)> }
impl<R: TreeReader> Pass<R> {
    // the iterator gave these pairs one after the other
    pub open spec fn ok(&self, m: KV) -> bool {
        &&& self.its.len() == self.out.len() + 1
        &&& forall|i: int| 0 <= i < self.out.len() ==> gives(#[trigger] self.its[i], self.its[i + 1], m, Some(Ok(self.out[i])))
    }
}
pub proof fn c15_pass<R: TreeReader>(p: Pass<R>, m: KV, j: int)
    requires p.ok(m), 0 <= j <= p.out.len(),
    ensures
        forall|i: int, l: int| 0 <= i < l < j ==> key_lt((#[trigger] p.out[i]).0.0@, (#[trigger] p.out[l]).0.0@),
        forall|i: int| 0 <= i < j ==> p.its[0].left(m, (#[trigger] p.out[i]).0.0@) && shown(*p.its[0].reader, m, p.out[i].0.0@, p.out[i].1@),
        forall|k: Seq<u8>| #[trigger] p.its[j].left(m, k) ==> p.its[0].left(m, k) && (forall|i: int| 0 <= i < j ==> key_lt((#[trigger] p.out[i]).0.0@, k)),
        forall|k: Seq<u8>| #[trigger] p.its[0].left(m, k) ==> p.its[j].left(m, k) || (exists|i: int| 0 <= i < j && (#[trigger] p.out[i]).0.0@ == k),
        p.its[j].same_tree(&p.its[0]),
    decreases j,
{
    if j > 0 {
        let h = j - 1;
        c15_pass(p, m, h);
        assert(gives(p.its[h], p.its[h + 1], m, Some(Ok(p.out[h]))));
        let k0 = p.out[h].0.0@;
        assert(p.its[h].left(m, k0));
        assert forall|k: Seq<u8>| #[trigger] p.its[j].left(m, k) implies p.its[0].left(m, k) && (forall|i: int| 0 <= i < j ==> key_lt((#[trigger] p.out[i]).0.0@, k)) by { assert(p.its[h].left(m, k)); }
        assert forall|k: Seq<u8>| #[trigger] p.its[0].left(m, k) implies p.its[j].left(m, k) || (exists|i: int| 0 <= i < j && (#[trigger] p.out[i]).0.0@ == k) by {
            if !p.its[h].left(m, k) { let i = choose|i: int| 0 <= i < h && (#[trigger] p.out[i]).0.0@ == k; assert(p.out[i].0.0@ == k); } else if k == k0 { assert(p.out[h].0.0@ == k); }
        }
    }
}
// once it says that it is through, nothing is missing
pub proof fn c15_all<R: TreeReader>(p: Pass<R>, m: KV, e: JellyfishMerkleIterator<R>)
    requires p.ok(m), gives(p.its.last(), e, m, None),
    ensures forall|k: Seq<u8>| #[trigger] p.its[0].left(m, k) <==> exists|i: int| 0 <= i < p.out.len() && (#[trigger] p.out[i]).0.0@ == k,
{
    c15_pass(p, m, p.out.len() as int);
    assert forall|k: Seq<u8>| #[trigger] p.its[0].left(m, k) <==> exists|i: int| 0 <= i < p.out.len() && (#[trigger] p.out[i]).0.0@ == k by { assert(!p.its.last().left(m, k)); }
}
} // verus!
