// what one update does to the nodes at and below a path: which are new, which are kept, which become stale
verus! {
// s1, w1 come from s0, w0 by an update at version ver that leaves the part of the tree at q (below p, where the old root of that
// part has version ov and the new one nv) as follows: nodes of this version are reached, older ones that are reached were reached
// before, and those no longer reached are the ones that became stale
pub open spec fn lq(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, nv: Option<u64>, p: Seq<u8>, q: Seq<u8>) -> bool {
    &&& w1.contains_key((ver, q)) ==> owalk(w1, nv, p, q) == Some(ver)
    &&& (owalk(w1, nv, p, q) matches Some(a) ==> (a != ver ==> owalk(w0, ov, p, q) == Some(a)))
    &&& forall|a: u64| #[trigger] s1.contains((a, q)) <==> s0.contains((a, q)) || (a != ver && owalk(w0, ov, p, q) == Some(a) && owalk(w1, nv, p, q) != Some(a) && !(w0[(a, q)] is Null))
}
#[verifier::opaque]
pub open spec fn local(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, nv: Option<u64>, p: Seq<u8>) -> bool {
    forall|q: Seq<u8>| isp(p, q) ==> #[trigger] lq(ver, w0, s0, ov, w1, s1, nv, p, q)
}
// before: nodes of this version are reached, and stale ones are not
pub open spec fn cq(ver: u64, w: W, s: Set<NK>, ov: Option<u64>, p: Seq<u8>, q: Seq<u8>) -> bool {
    &&& w.contains_key((ver, q)) ==> owalk(w, ov, p, q) == Some(ver)
    &&& (owalk(w, ov, p, q) matches Some(a) ==> !s.contains((a, q)))
    &&& !s.contains((ver, q))
}
#[verifier::opaque]
pub open spec fn clean(ver: u64, w: W, s: Set<NK>, ov: Option<u64>, p: Seq<u8>) -> bool { forall|q: Seq<u8>| isp(p, q) ==> #[trigger] cq(ver, w, s, ov, p, q) }
pub open spec fn same_at(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, k: NK) -> bool { at(w1, k) == at(w0, k) && (s1.contains(k) <==> s0.contains(k)) }
// nothing but the nodes at and below p changed
pub open spec fn outside(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, p: Seq<u8>) -> bool { forall|k: NK| !isp(p, k.1) ==> #[trigger] same_at(w0, s0, w1, s1, k) }
pub open spec fn inside(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, p: Seq<u8>) -> bool { forall|k: NK| isp(p, k.1) ==> #[trigger] same_at(w0, s0, w1, s1, k) }
// one node changed
pub open spec fn only_at(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, p: Seq<u8>) -> bool { forall|k: NK| k.1 != p ==> #[trigger] same_at(w0, s0, w1, s1, k) }
pub proof fn inside_same(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, p: Seq<u8>)
    requires inside(w0, s0, w1, s1, p),
    ensures same_below(w0, w1, p), same_below(w1, w0, p),
{
    assert forall|k: NK| isp(p, k.1) implies #[trigger] at(w0, k) == at(w1, k) by { assert(same_at(w0, s0, w1, s1, k)); }
    assert forall|k: NK| isp(p, k.1) implies #[trigger] at(w1, k) == at(w0, k) by { assert(same_at(w0, s0, w1, s1, k)); }
}
// changes at or below one child leave the others
pub proof fn outside_inside(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, p: Seq<u8>, x: u8, y: u8)
    requires outside(w0, s0, w1, s1, p.push(x)), x != y,
    ensures inside(w0, s0, w1, s1, p.push(y)),
{
    assert forall|k: NK| isp(p.push(y), k.1) implies #[trigger] same_at(w0, s0, w1, s1, k) by { isp_push(p, y, k.1); isp_push(p, x, k.1); }
}
pub proof fn only_inside(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, p: Seq<u8>, x: u8)
    requires only_at(w0, s0, w1, s1, p),
    ensures inside(w0, s0, w1, s1, p.push(x)),
{
    assert forall|k: NK| isp(p.push(x), k.1) implies #[trigger] same_at(w0, s0, w1, s1, k) by { isp_push(p, x, k.1); }
}
pub proof fn local_clean(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, nv: Option<u64>, p: Seq<u8>)
    requires clean(ver, w0, s0, ov, p), local(ver, w0, s0, ov, w1, s1, nv, p),
    ensures clean(ver, w1, s1, nv, p),
{
    reveal(local);
    reveal(clean);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] cq(ver, w1, s1, nv, p, q) by { assert(lq(ver, w0, s0, ov, w1, s1, nv, p, q)); assert(cq(ver, w0, s0, ov, p, q)); }
}
// more changes that do not touch p
pub proof fn local_then(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, nv: Option<u64>, p: Seq<u8>, w2: W, s2: Set<NK>)
    requires local(ver, w0, s0, ov, w1, s1, nv, p), inside(w1, s1, w2, s2, p),
    ensures local(ver, w0, s0, ov, w2, s2, nv, p),
{
    reveal(local);
    inside_same(w1, s1, w2, s2, p);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] lq(ver, w0, s0, ov, w2, s2, nv, p, q) by {
        assert(lq(ver, w0, s0, ov, w1, s1, nv, p, q));
        if nv is Some { walk_frame(w1, w2, nv->0, p, q); }
        assert(same_at(w1, s1, w2, s2, (ver, q)));
        assert forall|a: u64| #[trigger] s2.contains((a, q)) == s1.contains((a, q)) by { assert(same_at(w1, s1, w2, s2, (a, q))); }
    }
}
pub proof fn local_same(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, p: Seq<u8>)
    requires clean(ver, w0, s0, ov, p),
    ensures local(ver, w0, s0, ov, w0, s0, ov, p),
{
    reveal(local);
    reveal(clean);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] lq(ver, w0, s0, ov, w0, s0, ov, p, q) by { assert(cq(ver, w0, s0, ov, p, q)); }
}
// the version of the i-th child below a node
pub open spec fn kid(w: W, v: Option<u64>, p: Seq<u8>, i: u8) -> Option<u64> {
    match v { Some(x) => if w.contains_key((x, p)) { match w[(x, p)] { Node::Internal(n) => match n.cs()[i as int] { Some(c) => Some(c.version), None => None }, _ => None } } else { None }, None => None }
}
pub proof fn owalk_kid(w: W, v: Option<u64>, p: Seq<u8>, q: Seq<u8>)
    requires isp(p, q), p.len() < q.len(),
    ensures q[p.len() as int] < 16 ==> owalk(w, v, p, q) == owalk(w, kid(w, v, p, q[p.len() as int]), p.push(q[p.len() as int]), q), q[p.len() as int] >= 16 ==> owalk(w, v, p, q) is None,
{
    isp_push(p, q[p.len() as int], q);
    if v is Some && w.contains_key((v->0, p)) { walk_kid(w, v->0, p, q); }
}
pub proof fn owalk_here(w: W, v: Option<u64>, p: Seq<u8>)
    ensures owalk(w, v, p, p) == match v { Some(x) => if w.contains_key((x, p)) { Some(x) } else { None }, None => None },
{ isp_self(p); }
pub proof fn clean_kid(ver: u64, w: W, s: Set<NK>, ov: Option<u64>, p: Seq<u8>, x: u8)
    requires clean(ver, w, s, ov, p), x < 16,
    ensures clean(ver, w, s, kid(w, ov, p, x), p.push(x)),
{
    reveal(clean);
    assert forall|q: Seq<u8>| isp(p.push(x), q) implies #[trigger] cq(ver, w, s, kid(w, ov, p, x), p.push(x), q) by { isp_push(p, x, q); assert(cq(ver, w, s, ov, p, q)); owalk_kid(w, ov, p, q); }
}
// a node is right when its children are
pub proof fn local_node(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, nv: Option<u64>, p: Seq<u8>)
    requires clean(ver, w0, s0, ov, p), nv == None::<u64> || nv == Some(ver),
        w1.contains_key((ver, p)) <==> nv is Some,
        forall|a: u64| #[trigger] s1.contains((a, p)) <==> s0.contains((a, p)) || (a != ver && ov == Some(a) && w0.contains_key((a, p)) && !(w0[(a, p)] is Null)),
        forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 ==> #[trigger] same_at(w0, s0, w1, s1, k),
        forall|i: u8| i < 16 ==> local(ver, w0, s0, kid(w0, ov, p, i), w1, s1, kid(w1, nv, p, i), #[trigger] p.push(i)),
    ensures local(ver, w0, s0, ov, w1, s1, nv, p),
{
    reveal(local);
    reveal(clean);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] lq(ver, w0, s0, ov, w1, s1, nv, p, q) by {
        assert(cq(ver, w0, s0, ov, p, q));
        if q.len() == p.len() {
            isp_eq(p, q);
            owalk_here(w0, ov, p);
            owalk_here(w1, nv, p);
        } else {
            let x = q[p.len() as int];
            owalk_kid(w0, ov, p, q);
            owalk_kid(w1, nv, p, q);
            if x < 16 {
                isp_push(p, x, q);
                assert(local(ver, w0, s0, kid(w0, ov, p, x), w1, s1, kid(w1, nv, p, x), p.push(x)));
                assert(lq(ver, w0, s0, kid(w0, ov, p, x), w1, s1, kid(w1, nv, p, x), p.push(x), q));
            } else {
                assert(same_at(w0, s0, w1, s1, (ver, q)));
                assert forall|a: u64| #[trigger] s1.contains((a, q)) == s0.contains((a, q)) by { assert(same_at(w0, s0, w1, s1, (a, q))); }
            }
        }
    }
}
// what delete_node does
pub open spec fn deleted(ver: u64, w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, k: NK) -> bool {
    if k.0 == ver { w1 == w0.remove(k) && s1 == s0 } else { w1 == w0 && s1 == s0.insert(k) }
}
pub proof fn deleted_only(ver: u64, w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, k: NK)
    requires deleted(ver, w0, s0, w1, s1, k),
    ensures only_at(w0, s0, w1, s1, k.1), outside(w0, s0, w1, s1, k.1),
{
    assert forall|x: NK| x.1 != k.1 implies #[trigger] same_at(w0, s0, w1, s1, x) by { }
    assert forall|x: NK| !isp(k.1, x.1) implies #[trigger] same_at(w0, s0, w1, s1, x) by { isp_self(k.1); }
}
pub proof fn insert_only(w0: W, s: Set<NK>, k: NK, n: Node)
    ensures only_at(w0, s, w0.insert(k, n), s, k.1), outside(w0, s, w0.insert(k, n), s, k.1),
{
    assert forall|x: NK| x.1 != k.1 implies #[trigger] same_at(w0, s, w0.insert(k, n), s, x) by { }
    assert forall|x: NK| !isp(k.1, x.1) implies #[trigger] same_at(w0, s, w0.insert(k, n), s, x) by { isp_self(k.1); }
}
// taking a leaf away again
pub proof fn local_drop(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, v1: u64, p: Seq<u8>, w2: W, s2: Set<NK>)
    requires clean(ver, w0, s0, ov, p), local(ver, w0, s0, ov, w1, s1, Some(v1), p), w1.contains_key((v1, p)), w1[(v1, p)] is Leaf, deleted(ver, w1, s1, w2, s2, (v1, p)), v1 == ver || w0.contains_key((v1, p)) && w0[(v1, p)] is Leaf,
    ensures local(ver, w0, s0, ov, w2, s2, None, p),
{
    reveal(local);
    reveal(clean);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] lq(ver, w0, s0, ov, w2, s2, None, p, q) by {
        assert(cq(ver, w0, s0, ov, p, q));
        assert(lq(ver, w0, s0, ov, w1, s1, Some(v1), p, q));
        if q.len() == p.len() { isp_eq(p, q); owalk_here(w1, Some(v1), p); }
        else { owalk_kid(w1, Some(v1), p, q); assert(owalk(w1, Some(v1), p, q) is None); }
    }
}
pub proof fn outside_trans(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, w2: W, s2: Set<NK>, p: Seq<u8>, q: Seq<u8>, r: Seq<u8>)
    requires outside(w0, s0, w1, s1, p), outside(w1, s1, w2, s2, q), isp(r, p), isp(r, q),
    ensures outside(w0, s0, w2, s2, r),
{
    assert forall|k: NK| !isp(r, k.1) implies #[trigger] same_at(w0, s0, w2, s2, k) by {
        if isp(p, k.1) { isp_trans(r, p, k.1); }
        if isp(q, k.1) { isp_trans(r, q, k.1); }
        assert(same_at(w0, s0, w1, s1, k) && same_at(w1, s1, w2, s2, k));
    }
}
pub proof fn outside_refl(w: W, s: Set<NK>, p: Seq<u8>) ensures outside(w, s, w, s, p) { }
// ---------------------------------------------------------------- the map after an update
pub open spec fn upd(m: KV, k: Seq<u8>, v: Option<Seq<u8>>) -> KV { match v { Some(h) => m.insert(k, h), None => m.remove(k) } }
pub proof fn upd_elsewhere(m: KV, k: Seq<u8>, v: Option<Seq<u8>>, p: Seq<u8>)
    requires !npre(p, k),
    ensures agree_below(m, upd(m, k, v), p),
{ }
pub open spec fn kids(w: W, v: u64, p: Seq<u8>, m: KV, cs: Cs) -> bool { cs.len() == 16 && forall|i: int| 0 <= i < 16 ==> crep(w, v, p, m, #[trigger] cs[i], i) }
// the same children in another world, below a newer node
pub proof fn crep_frame(a: W, b: W, v: u64, v2: u64, p: Seq<u8>, m: KV, n: KV, o: Option<Child>, i: int)
    requires crep(a, v, p, m, o, i), same_below(a, b, p.push(i as u8)), agree_below(m, n, p.push(i as u8)), vo(v) <= vo(v2),
    ensures crep(b, v2, p, n, o, i),
{
    match o {
        None => { nnone_agree(m, n, p.push(i as u8)); }
        Some(c) => { rep_frame(a, b, c.version, p.push(i as u8), m, n); }
    }
}
pub proof fn kids_frame(a: W, b: W, v: u64, p: Seq<u8>, m: KV, cs: Cs)
    requires kids(a, v, p, m, cs), forall|i: u8| i < 16 ==> same_below(a, b, #[trigger] p.push(i)),
    ensures kids(b, v, p, m, cs),
{
    assert forall|i: int| 0 <= i < 16 implies crep(b, v, p, m, #[trigger] cs[i], i) by {
        assert(crep(a, v, p, m, cs[i], i));
        assert(same_below(a, b, p.push(i as u8)));
        crep_frame(a, b, v, v, p, m, m, cs[i], i);
    }
}
pub proof fn kids_none(w: W, v: u64, p: Seq<u8>, m: KV, cs: Cs)
    requires kids(w, v, p, m, cs), vacant(cs, 0, 16), kv_ok(m), p.len() < 64,
    ensures nnone(m, p),
{
    assert forall|k: Seq<u8>| !#[trigger] nund(m, p, k) by {
        if nund(m, p, k) {
            let x = nibn(k, p.len() as int);
            nib16(k, p.len() as int);
            npre_push(p, x, k);
            assert(crep(w, v, p, m, cs[x as int], x as int));
            assert(nund(m, p.push(x), k));
        }
    }
}
pub proof fn kids_lone(w: W, v: u64, p: Seq<u8>, m: KV, cs: Cs, j: int)
    requires kids(w, v, p, m, cs), sole(cs, 0, 16, j), cs[j]->0.node_type is Leaf, kv_ok(m), p.len() < 64,
    ensures ({ let c = cs[j]->0; let k = (c.version, p.push(j as u8)); w.contains_key(k) && (w[k] matches Node::Leaf(l) && nonly(m, p, l.k()) && m[l.k()] == l.v()) }),
{
    let c = cs[j]->0;
    let k = (c.version, p.push(j as u8));
    assert(crep(w, v, p, m, cs[j], j));
    let l = w[k]->Leaf_0;
    assert(nund(m, p.push(j as u8), l.k()));
    npre_push(p, j as u8, l.k());
    assert forall|x: Seq<u8>| #[trigger] nund(m, p, x) implies x == l.k() by {
        let y = nibn(x, p.len() as int);
        nib16(x, p.len() as int);
        npre_push(p, y, x);
        assert(crep(w, v, p, m, cs[y as int], y as int));
        assert(nund(m, p.push(y), x));
        assert(y == j);
    }
}
pub proof fn rep_leaf(w: W, v: u64, p: Seq<u8>, m: KV, l: LeafNode)
    requires w.contains_key((v, p)), w[(v, p)] == Node::Leaf(l), nonly(m, p, l.k()), m[l.k()] == l.v(),
    ensures rep(w, v, p, m),
{ }
pub proof fn rep_kids(w: W, v: u64, p: Seq<u8>, m: KV, n: InternalNode)
    requires w.contains_key((v, p)), w[(v, p)] == Node::Internal(n), p.len() < 64, n.wf(), kids(w, v, p, m, n.cs()),
    ensures rep(w, v, p, m),
{ rep_from(w, v, p, m, n); }
// the entry a new parent keeps about a node
pub proof fn child_of(w: W, v: u64, p: Seq<u8>, m: KV, i: u8, c: Child, n: Node)
    requires rep(w, v, p.push(i), m), kv_ok(m), p.len() < 64, w[(v, p.push(i))] == n, !(n is Null), c.version == v, c.hash@ == n.hsh(), c.node_type is Leaf <==> n is Leaf,
        match c.node_type { NodeType::Leaf => n is Leaf, NodeType::InternalLegacy => n.lc() is None, NodeType::Internal { leaf_count } => n.lc() == Some(leaf_count as int) },
    ensures crep(w, v, p, m, Some(c), i as int),
{ rep_count(w, v, p.push(i), m); }
pub proof fn nibs_npre(k: Seq<u8>, p: Seq<u8>)
    requires k.len() == 32, p.len() <= 64, isp(p, nibs_of(k)),
    ensures npre(p, k), nibs16(p),
{ assert forall|i: int| 0 <= i < p.len() implies nibn(k, i) == #[trigger] p[i] && p[i] < 16 by { assert(p[i] == nibs_of(k)[i]); nib16(k, i); } }
} // verus!
