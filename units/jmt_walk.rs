// the paths of a versioned tree: which nodes a root reaches
verus! {
pub open spec fn isp(p: Seq<u8>, q: Seq<u8>) -> bool { p.len() <= q.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == q[i] }
pub proof fn isp_push(p: Seq<u8>, x: u8, q: Seq<u8>)
    ensures isp(p.push(x), q) <==> (isp(p, q) && p.len() < q.len() && q[p.len() as int] == x),
{
    if isp(p.push(x), q) {
        assert(p.push(x)[p.len() as int] == x);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == q[i] by { assert(p.push(x)[i] == p[i]); }
    }
}
pub proof fn isp_eq(p: Seq<u8>, q: Seq<u8>)
    requires isp(p, q), p.len() == q.len(),
    ensures p == q,
{ assert(p =~= q); }
pub proof fn isp_self(p: Seq<u8>) ensures isp(p, p), isp(Seq::empty(), p) { }
pub proof fn isp_trans(p: Seq<u8>, q: Seq<u8>, r: Seq<u8>)
    requires isp(p, q), isp(q, r),
    ensures isp(p, r),
{ assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == r[i] by { assert(p[i] == q[i]); assert(q[i] == r[i]); } }
pub proof fn isp_two(p: Seq<u8>, q: Seq<u8>, r: Seq<u8>)
    requires isp(p, r), isp(q, r), p.len() <= q.len(),
    ensures isp(p, q),
{ assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == q[i] by { assert(p[i] == r[i]); assert(q[i] == r[i]); } }
// the version of the node that the tree below (v, p) has at path q
pub open spec fn walk(w: W, v: u64, p: Seq<u8>, q: Seq<u8>) -> Option<u64>
    decreases q.len() - p.len(),
{
    if !isp(p, q) || !w.contains_key((v, p)) { None }
    else if p.len() >= q.len() { Some(v) }
    else { match w[(v, p)] {
        Node::Internal(n) => if q[p.len() as int] < 16 { match n.cs()[q[p.len() as int] as int] { Some(c) => walk(w, c.version, p.push(q[p.len() as int]), q), None => None } } else { None },
        _ => None,
    } }
}
pub open spec fn owalk(w: W, v: Option<u64>, p: Seq<u8>, q: Seq<u8>) -> Option<u64> { match v { Some(x) => walk(w, x, p, q), None => None } }
pub proof fn walk_here(w: W, v: u64, p: Seq<u8>)
    requires w.contains_key((v, p)),
    ensures walk(w, v, p, p) == Some(v),
{ isp_self(p); }
pub proof fn walk_kid(w: W, v: u64, p: Seq<u8>, q: Seq<u8>)
    requires w.contains_key((v, p)), isp(p, q), p.len() < q.len(),
    ensures walk(w, v, p, q) == match w[(v, p)] { Node::Internal(n) => if q[p.len() as int] < 16 { match n.cs()[q[p.len() as int] as int] { Some(c) => walk(w, c.version, p.push(q[p.len() as int]), q), None => None } } else { None }, _ => None },
{ }
pub proof fn walk_in(w: W, v: u64, p: Seq<u8>, q: Seq<u8>)
    ensures walk(w, v, p, q) matches Some(a) ==> w.contains_key((a, q)) && isp(p, q),
    decreases q.len() - p.len(),
{
    if !isp(p, q) || !w.contains_key((v, p)) { }
    else if p.len() >= q.len() { isp_eq(p, q); }
    else { match w[(v, p)] {
        Node::Internal(n) => { let x = q[p.len() as int]; if x < 16 { match n.cs()[x as int] { Some(c) => { walk_in(w, c.version, p.push(x), q); }, None => { } } } },
        _ => { },
    } }
}
// two worlds with the same nodes at and below p
pub open spec fn same_below(a: W, b: W, p: Seq<u8>) -> bool { forall|k: NK| isp(p, k.1) ==> #[trigger] at(a, k) == at(b, k) }
pub open spec fn agree_below(m: KV, n: KV, p: Seq<u8>) -> bool { forall|k: Seq<u8>| npre(p, k) ==> (#[trigger] m.contains_key(k) <==> n.contains_key(k)) && (m.contains_key(k) ==> m[k] == n[k]) }
pub proof fn same_push(a: W, b: W, p: Seq<u8>, x: u8)
    requires same_below(a, b, p),
    ensures same_below(a, b, p.push(x)),
{ assert forall|k: NK| isp(p.push(x), k.1) implies #[trigger] at(a, k) == at(b, k) by { isp_push(p, x, k.1); } }
pub proof fn agree_push(m: KV, n: KV, p: Seq<u8>, x: u8)
    requires agree_below(m, n, p),
    ensures agree_below(m, n, p.push(x)),
{ assert forall|k: Seq<u8>| npre(p.push(x), k) implies (#[trigger] m.contains_key(k) <==> n.contains_key(k)) && (m.contains_key(k) ==> m[k] == n[k]) by { npre_push(p, x, k); } }
pub proof fn nnone_agree(m: KV, n: KV, p: Seq<u8>)
    requires agree_below(m, n, p), nnone(m, p),
    ensures nnone(n, p),
{ assert forall|k: Seq<u8>| !#[trigger] nund(n, p, k) by { assert(!nund(m, p, k)); } }
pub proof fn at_same(a: W, b: W, p: Seq<u8>, v: u64)
    requires same_below(a, b, p),
    ensures a.contains_key((v, p)) == b.contains_key((v, p)), a.contains_key((v, p)) ==> a[(v, p)] == b[(v, p)],
{ isp_self(p); assert(at(a, (v, p)) == at(b, (v, p))); }
pub proof fn rep_frame(a: W, b: W, v: u64, p: Seq<u8>, m: KV, n: KV)
    requires rep(a, v, p, m), same_below(a, b, p), agree_below(m, n, p),
    ensures rep(b, v, p, n), b.contains_key((v, p)), b[(v, p)] == a[(v, p)],
    decreases 64 - p.len(),
{
    at_same(a, b, p, v);
    match a[(v, p)] {
        Node::Null => { nnone_agree(m, n, p); }
        Node::Leaf(l) => {
            assert(nund(m, p, l.k()));
            assert forall|x: Seq<u8>| #[trigger] nund(n, p, x) implies x == l.k() by { assert(nund(m, p, x)); }
        }
        Node::Internal(nd) => {
            rep_internal(a, v, p, m);
            assert forall|i: int| 0 <= i < 16 implies crep(b, v, p, n, #[trigger] nd.cs()[i], i) by {
                assert(crep(a, v, p, m, nd.cs()[i], i));
                same_push(a, b, p, i as u8);
                agree_push(m, n, p, i as u8);
                if nd.cs()[i] is Some { rep_frame(a, b, nd.cs()[i]->0.version, p.push(i as u8), m, n); } else { nnone_agree(m, n, p.push(i as u8)); }
            }
            rep_from(b, v, p, n, nd);
        }
    }
}
pub proof fn walk_frame(a: W, b: W, v: u64, p: Seq<u8>, q: Seq<u8>)
    requires same_below(a, b, p),
    ensures walk(a, v, p, q) == walk(b, v, p, q),
    decreases q.len() - p.len(),
{
    at_same(a, b, p, v);
    if !isp(p, q) || !a.contains_key((v, p)) || p.len() >= q.len() { }
    else { match a[(v, p)] {
        Node::Internal(n) => { let x = q[p.len() as int]; same_push(a, b, p, x); if x < 16 { match n.cs()[x as int] { Some(c) => { walk_frame(a, b, c.version, p.push(x), q); }, None => { } } } },
        _ => { },
    } }
}
// adding nodes changes no tree that is there
pub open spec fn within(a: W, b: W) -> bool { forall|k: NK| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
pub proof fn rep_more(a: W, b: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(a, v, p, m), within(a, b),
    ensures rep(b, v, p, m), b.contains_key((v, p)), b[(v, p)] == a[(v, p)],
    decreases 64 - p.len(),
{
    match a[(v, p)] {
        Node::Internal(nd) => {
            rep_internal(a, v, p, m);
            assert forall|i: int| 0 <= i < 16 implies crep(b, v, p, m, #[trigger] nd.cs()[i], i) by {
                assert(crep(a, v, p, m, nd.cs()[i], i));
                if nd.cs()[i] is Some { rep_more(a, b, nd.cs()[i]->0.version, p.push(i as u8), m); }
            }
            rep_from(b, v, p, m, nd);
        }
        _ => { }
    }
}
pub proof fn walk_more(a: W, b: W, v: u64, p: Seq<u8>, m: KV, q: Seq<u8>)
    requires rep(a, v, p, m), within(a, b),
    ensures walk(a, v, p, q) == walk(b, v, p, q),
    decreases q.len() - p.len(),
{
    if !isp(p, q) || p.len() >= q.len() { }
    else { match a[(v, p)] {
        Node::Internal(n) => { let x = q[p.len() as int]; if x < 16 { rep_internal(a, v, p, m); assert(crep(a, v, p, m, n.cs()[x as int], x as int)); match n.cs()[x as int] { Some(c) => { walk_more(a, b, c.version, p.push(x), m, q); }, None => { } } } },
        _ => { },
    } }
}
pub open spec fn kept(a: W, b: W, o: Option<u64>, q: Seq<u8>) -> bool { match o { Some(x) => at(b, (x, q)) == at(a, (x, q)), None => true } }
// taking away nodes that a tree does not reach leaves it as it is
pub proof fn rep_less(a: W, b: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(a, v, p, m), forall|q: Seq<u8>| kept(a, b, #[trigger] walk(a, v, p, q), q),
    ensures rep(b, v, p, m), b.contains_key((v, p)), b[(v, p)] == a[(v, p)],
    decreases 64 - p.len(),
{
    walk_here(a, v, p);
    assert(kept(a, b, walk(a, v, p, p), p));
    match a[(v, p)] {
        Node::Internal(nd) => {
            rep_internal(a, v, p, m);
            assert forall|i: int| 0 <= i < 16 implies crep(b, v, p, m, #[trigger] nd.cs()[i], i) by {
                assert(crep(a, v, p, m, nd.cs()[i], i));
                if nd.cs()[i] is Some {
                    let c = nd.cs()[i]->0;
                    let pi = p.push(i as u8);
                    assert forall|q: Seq<u8>| kept(a, b, #[trigger] walk(a, c.version, pi, q), q) by {
                        walk_in(a, c.version, pi, q);
                        if walk(a, c.version, pi, q) is Some {
                            isp_push(p, i as u8, q);
                            walk_kid(a, v, p, q);
                            assert(walk(a, v, p, q) == walk(a, c.version, pi, q));
                            assert(kept(a, b, walk(a, v, p, q), q));
                        }
                    }
                    rep_less(a, b, c.version, pi, m);
                }
            }
            rep_from(b, v, p, m, nd);
        }
        _ => { }
    }
}
// the parent of a node that is reached is reached
pub proof fn walk_vo(w: W, v: u64, p: Seq<u8>, m: KV, q: Seq<u8>)
    requires rep(w, v, p, m),
    ensures walk(w, v, p, q) matches Some(a) ==> vo(a) <= vo(v),
    decreases q.len() - p.len(),
{
    if !isp(p, q) || p.len() >= q.len() { }
    else { match w[(v, p)] {
        Node::Internal(n) => { let x = q[p.len() as int]; if x < 16 { rep_internal(w, v, p, m); assert(crep(w, v, p, m, n.cs()[x as int], x as int)); match n.cs()[x as int] { Some(c) => { walk_vo(w, c.version, p.push(x), m, q); }, None => { } } } },
        _ => { },
    } }
}
pub proof fn kids_fit(w: W, v: u64, p: Seq<u8>, m: KV, cs: Cs)
    requires kv_ok(m), cs.len() == 16, p.len() < 64, forall|j: int| 0 <= j < 16 ==> crep(w, v, p, m, #[trigger] cs[j], j),
    ensures lknown(cs, 16) <= m.len(), lsum(cs, 16) is Some,
{
    kids_count(w, v, p, m, cs, 16);
    vstd::set_lib::lemma_len_subset(below(m, p, 16), m.dom());
}
} // verus!
