// building the nodes of a version bottom-up: a node whose children are done, and then the node itself
verus! {
pub open spec fn vopt(o: Option<Child>) -> Option<u64> { match o { Some(c) => Some(c.version), None => None } }
// nodes of older versions are as they were
pub open spec fn olds(ver: u64, w0: W, w1: W) -> bool { forall|k: NK| k.0 != ver ==> #[trigger] at(w1, k) == at(w0, k) }
pub open spec fn lkid(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, cs: Cs, p: Seq<u8>, i: u8) -> bool { local(ver, w0, s0, kid(w0, ov, p, i), w, s, vopt(cs[i as int]), p.push(i)) }
pub open spec fn tipq(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, s: Set<NK>, p: Seq<u8>, a: u64) -> bool {
    s.contains((a, p)) <==> (s0.contains((a, p)) || (a != ver && ov == Some(a) && w0.contains_key((a, p)) && !(w0[(a, p)] is Null)))
}
pub open spec fn tip(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, s: Set<NK>, p: Seq<u8>) -> bool { forall|a: u64| #[trigger] tipq(ver, w0, s0, ov, s, p, a) }
pub open spec fn rim(w0: W, s0: Set<NK>, w: W, s: Set<NK>, p: Seq<u8>) -> bool { forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 ==> #[trigger] same_at(w0, s0, w, s, k) }
// the children cs are done, and there is no node at p of this version
#[verifier::opaque]
pub open spec fn mid(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs) -> bool {
    &&& kids(w, ver, p, m, cs)
    &&& forall|i: u8| i < 16 ==> #[trigger] lkid(ver, w0, s0, ov, w, s, cs, p, i)
    &&& tip(ver, w0, s0, ov, s, p)
    &&& rim(w0, s0, w, s, p)
    &&& outside(w0, s0, w, s, p)
    &&& !w.contains_key((ver, p))
}
pub proof fn mid_kids(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs),
    ensures kids(w, ver, p, m, cs), !w.contains_key((ver, p)),
{ reveal(mid); }
pub proof fn rim_only(w0: W, s0: Set<NK>, w: W, s: Set<NK>, w1: W, s1: Set<NK>, p: Seq<u8>)
    requires rim(w0, s0, w, s, p), only_at(w, s, w1, s1, p),
    ensures rim(w0, s0, w1, s1, p),
{
    assert forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 implies #[trigger] same_at(w0, s0, w1, s1, k) by { assert(same_at(w0, s0, w, s, k)); assert(same_at(w, s, w1, s1, k)); }
}
pub proof fn outside_only(w0: W, s0: Set<NK>, w: W, s: Set<NK>, w1: W, s1: Set<NK>, p: Seq<u8>)
    requires outside(w0, s0, w, s, p), only_at(w, s, w1, s1, p),
    ensures outside(w0, s0, w1, s1, p),
{
    assert forall|k: NK| !isp(p, k.1) implies #[trigger] same_at(w0, s0, w1, s1, k) by { isp_self(p); assert(same_at(w0, s0, w, s, k)); assert(same_at(w, s, w1, s1, k)); }
}
// put the node
pub proof fn mid_fin(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs, w1: W, n: InternalNode)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), clean(ver, w0, s0, ov, p), w1 == w.insert((ver, p), Node::Internal(n)), n.cs() == cs, n.wf(), p.len() < 64,
    ensures rep(w1, ver, p, m), local(ver, w0, s0, ov, w1, s, Some(ver), p), outside(w0, s0, w1, s, p),
{
    reveal(mid);
    insert_only(w, s, (ver, p), Node::Internal(n));
    rim_only(w0, s0, w, s, w1, s, p);
    outside_only(w0, s0, w, s, w1, s, p);
    assert forall|i: u8| i < 16 implies same_below(w, w1, #[trigger] p.push(i)) by { only_inside(w, s, w1, s, p, i); inside_same(w, s, w1, s, p.push(i)); }
    kids_frame(w, w1, ver, p, m, cs);
    rep_kids(w1, ver, p, m, n);
    assert forall|i: u8| i < 16 implies local(ver, w0, s0, kid(w0, ov, p, i), w1, s, kid(w1, Some(ver), p, i), #[trigger] p.push(i)) by {
        assert(lkid(ver, w0, s0, ov, w, s, cs, p, i));
        only_inside(w, s, w1, s, p, i);
        local_then(ver, w0, s0, kid(w0, ov, p, i), w, s, vopt(cs[i as int]), p.push(i), w1, s);
        assert(kid(w1, Some(ver), p, i) == vopt(cs[i as int]));
    }
    tip_node(ver, w0, s0, ov, w1, s, Some(ver), p);
}
pub proof fn tip_node(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, nv: Option<u64>, p: Seq<u8>)
    requires clean(ver, w0, s0, ov, p), nv == None::<u64> || nv == Some(ver), w1.contains_key((ver, p)) <==> nv is Some, tip(ver, w0, s0, ov, s1, p), rim(w0, s0, w1, s1, p),
        forall|i: u8| i < 16 ==> local(ver, w0, s0, kid(w0, ov, p, i), w1, s1, kid(w1, nv, p, i), #[trigger] p.push(i)),
    ensures local(ver, w0, s0, ov, w1, s1, nv, p),
{
    assert forall|a: u64| #[trigger] s1.contains((a, p)) <==> s0.contains((a, p)) || (a != ver && ov == Some(a) && w0.contains_key((a, p)) && !(w0[(a, p)] is Null)) by { assert(tipq(ver, w0, s0, ov, s1, p, a)); }
    local_node(ver, w0, s0, ov, w1, s1, nv, p);
}
// nothing is left
pub proof fn mid_empty(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), clean(ver, w0, s0, ov, p), vacant(cs, 0, 16), kv_ok(m), p.len() < 64,
    ensures nnone(m, p), local(ver, w0, s0, ov, w, s, None, p), outside(w0, s0, w, s, p),
{
    reveal(mid);
    kids_none(w, ver, p, m, cs);
    assert forall|i: u8| i < 16 implies local(ver, w0, s0, kid(w0, ov, p, i), w, s, kid(w, None, p, i), #[trigger] p.push(i)) by { assert(lkid(ver, w0, s0, ov, w, s, cs, p, i)); }
    tip_node(ver, w0, s0, ov, w, s, None, p);
}
// one leaf is left, which moves up
pub proof fn mid_lone_old(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs, j: int)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), clean(ver, w0, s0, ov, p), sole(cs, 0, 16, j), cs[j]->0.node_type is Leaf, kv_ok(m), p.len() < 64, olds(ver, w0, w),
    ensures ({ let v = cs[j]->0.version; let k = (v, p.push(j as u8)); w.contains_key(k) && !s.contains(k) && (v == ver || at(w0, k) == at(w, k)) && (w[k] matches Node::Leaf(l) && nonly(m, p, l.k()) && m[l.k()] == l.v()) }),
{
    reveal(mid);
    kids_lone(w, ver, p, m, cs, j);
    let v = cs[j]->0.version;
    let x = j as u8;
    let q = p.push(x);
    clean_kid(ver, w0, s0, ov, p, x);
    assert(lkid(ver, w0, s0, ov, w, s, cs, p, x));
    local_clean(ver, w0, s0, kid(w0, ov, p, x), w, s, Some(v), q);
    reveal(clean);
    isp_self(q);
    assert(cq(ver, w, s, Some(v), q, q));
    owalk_here(w, Some(v), q);
    if v != ver { assert(at(w, (v, q)) == at(w0, (v, q))); }
}
pub proof fn mid_lone(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w: W, s: Set<NK>, p: Seq<u8>, m: KV, cs: Cs, j: int, w1: W, s1: Set<NK>, w2: W, l: LeafNode)
    requires mid(ver, w0, s0, ov, w, s, p, m, cs), clean(ver, w0, s0, ov, p), sole(cs, 0, 16, j), cs[j]->0.node_type is Leaf, kv_ok(m), p.len() < 64, olds(ver, w0, w),
        deleted(ver, w, s, w1, s1, (cs[j]->0.version, p.push(j as u8))), w2 == w1.insert((ver, p), Node::Leaf(l)), w[(cs[j]->0.version, p.push(j as u8))] == Node::Leaf(l),
    ensures rep(w2, ver, p, m), local(ver, w0, s0, ov, w2, s1, Some(ver), p), outside(w0, s0, w2, s1, p), !w1.contains_key((ver, p)),
{
    mid_lone_old(ver, w0, s0, ov, w, s, p, m, cs, j);
    reveal(mid);
    let v = cs[j]->0.version;
    let x = j as u8;
    let q = p.push(x);
    assert(rep(w2, ver, p, m)) by { rep_leaf(w2, ver, p, m, l); }
    deleted_only(ver, w, s, w1, s1, (v, q));
    insert_only(w1, s1, (ver, p), Node::Leaf(l));
    assert(q != p) by { assert(q.len() == p.len() + 1); }
    assert(rim(w0, s0, w1, s1, p)) by {
        assert forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 implies #[trigger] same_at(w0, s0, w1, s1, k) by { assert(same_at(w0, s0, w, s, k)); assert(k.1 != q) by { assert(q[p.len() as int] == x); } assert(same_at(w, s, w1, s1, k)); }
    }
    rim_only(w0, s0, w1, s1, w2, s1, p);
    isp_self(p);
    isp_push(p, x, q);
    isp_self(q);
    outside_trans(w0, s0, w, s, w1, s1, p, q, p);
    outside_only(w0, s0, w1, s1, w2, s1, p);
    assert(tip(ver, w0, s0, ov, s1, p)) by {
        assert forall|a: u64| #[trigger] tipq(ver, w0, s0, ov, s1, p, a) by { assert(tipq(ver, w0, s0, ov, s, p, a)); assert(same_at(w, s, w1, s1, (a, p))); }
    }
    assert(same_at(w, s, w1, s1, (ver, p)));
    assert forall|i: u8| i < 16 implies local(ver, w0, s0, kid(w0, ov, p, i), w2, s1, kid(w2, Some(ver), p, i), #[trigger] p.push(i)) by {
        assert(lkid(ver, w0, s0, ov, w, s, cs, p, i));
        assert(kid(w2, Some(ver), p, i) is None);
        if i == x {
            clean_kid(ver, w0, s0, ov, p, x);
            local_drop(ver, w0, s0, kid(w0, ov, p, x), w, s, v, q, w1, s1);
        } else {
            assert(cs[i as int] is None);
            outside_inside(w, s, w1, s1, p, x, i);
            local_then(ver, w0, s0, kid(w0, ov, p, i), w, s, None, p.push(i), w1, s1);
        }
        only_inside(w1, s1, w2, s1, p, i);
        local_then(ver, w0, s0, kid(w0, ov, p, i), w1, s1, None, p.push(i), w2, s1);
    }
    tip_node(ver, w0, s0, ov, w2, s1, Some(ver), p);
}
// changes at p alone, where there are and were no children
pub proof fn local_tip(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, nv: Option<u64>, p: Seq<u8>)
    requires clean(ver, w0, s0, ov, p), only_at(w0, s0, w1, s1, p), nv == None::<u64> || nv == Some(ver), w1.contains_key((ver, p)) <==> nv is Some, tip(ver, w0, s0, ov, s1, p),
        ov is Some && w0.contains_key((ov->0, p)) ==> !(w0[(ov->0, p)] is Internal), nv is Some ==> !(w1[(ver, p)] is Internal),
    ensures local(ver, w0, s0, ov, w1, s1, nv, p), outside(w0, s0, w1, s1, p),
{
    assert forall|i: u8| i < 16 implies local(ver, w0, s0, kid(w0, ov, p, i), w1, s1, kid(w1, nv, p, i), #[trigger] p.push(i)) by {
        clean_kid(ver, w0, s0, ov, p, i);
        local_same(ver, w0, s0, kid(w0, ov, p, i), p.push(i));
        only_inside(w0, s0, w1, s1, p, i);
        assert(kid(w0, ov, p, i) is None && kid(w1, nv, p, i) is None);
        local_then(ver, w0, s0, None, w0, s0, None, p.push(i), w1, s1);
    }
    assert(rim(w0, s0, w1, s1, p)) by {
        assert forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 implies #[trigger] same_at(w0, s0, w1, s1, k) by { assert(k.1 != p); }
    }
    tip_node(ver, w0, s0, ov, w1, s1, nv, p);
    assert forall|x: NK| !isp(p, x.1) implies #[trigger] same_at(w0, s0, w1, s1, x) by { isp_self(p); }
}
// where nothing is reached there is no node of this version, and nothing becomes stale by putting one
pub proof fn clean_here(ver: u64, w: W, s: Set<NK>, ov: Option<u64>, p: Seq<u8>)
    requires clean(ver, w, s, ov, p),
    ensures ov != Some(ver) ==> !w.contains_key((ver, p)), !s.contains((ver, p)), ov matches Some(a) ==> (w.contains_key((a, p)) ==> !s.contains((a, p))),
{
    reveal(clean);
    isp_self(p);
    assert(cq(ver, w, s, ov, p, p));
    owalk_here(w, ov, p);
}
// a new leaf where nothing was
pub proof fn leaf_new(ver: u64, w0: W, s0: Set<NK>, p: Seq<u8>, m: KV, w1: W, l: LeafNode)
    requires clean(ver, w0, s0, None, p), w1 == w0.insert((ver, p), Node::Leaf(l)), nnone(m, p) || nonly(m, p, l.k()), npre(p, l.k()),
    ensures rep(w1, ver, p, upd(m, l.k(), Some(l.v()))), local(ver, w0, s0, None, w1, s0, Some(ver), p), outside(w0, s0, w1, s0, p),
{
    insert_only(w0, s0, (ver, p), Node::Leaf(l));
    assert(tip(ver, w0, s0, None, s0, p)) by { assert forall|a: u64| #[trigger] tipq(ver, w0, s0, None, s0, p, a) by { } }
    local_tip(ver, w0, s0, None, w1, s0, Some(ver), p);
    only_new(m, p, l.k(), l.v());
    rep_leaf(w1, ver, p, upd(m, l.k(), Some(l.v())), l);
}
pub proof fn only_new(m: KV, p: Seq<u8>, k: Seq<u8>, v: Seq<u8>)
    requires nnone(m, p) || nonly(m, p, k), npre(p, k),
    ensures nonly(upd(m, k, Some(v)), p, k), nnone(upd(m, k, None), p),
{
    let n = upd(m, k, Some(v));
    assert(nund(n, p, k));
    assert forall|x: Seq<u8>| #[trigger] nund(n, p, x) implies x == k by { if x != k { assert(nund(m, p, x)); } }
    assert forall|x: Seq<u8>| !#[trigger] nund(upd(m, k, None), p, x) by { if nund(upd(m, k, None), p, x) { assert(nund(m, p, x)); } }
}
// the old node at (v, p), a leaf or the empty root, goes away
pub proof fn tip_gone(ver: u64, w0: W, s0: Set<NK>, v: u64, p: Seq<u8>, w1: W, s1: Set<NK>)
    requires clean(ver, w0, s0, Some(v), p),
        (w0.contains_key((v, p)) && !(w0[(v, p)] is Internal) && deleted(ver, w0, s0, w1, s1, (v, p)) && (v == ver || !(w0[(v, p)] is Null)))
            || ((!w0.contains_key((v, p)) || (v != ver && w0[(v, p)] is Null)) && w1 == w0 && s1 == s0),
    ensures local(ver, w0, s0, Some(v), w1, s1, None, p), outside(w0, s0, w1, s1, p), only_at(w0, s0, w1, s1, p), !w1.contains_key((ver, p)),
{
    clean_here(ver, w0, s0, Some(v), p);
    if w1 != w0 || s1 != s0 { deleted_only(ver, w0, s0, w1, s1, (v, p)); }
    assert(tip(ver, w0, s0, Some(v), s1, p)) by { assert forall|a: u64| #[trigger] tipq(ver, w0, s0, Some(v), s1, p, a) by { } }
    assert(only_at(w0, s0, w1, s1, p));
    local_tip(ver, w0, s0, Some(v), w1, s1, None, p);
}
// one update after another
pub proof fn local_trans(ver: u64, w0: W, s0: Set<NK>, ov: Option<u64>, w1: W, s1: Set<NK>, mv: Option<u64>, w2: W, s2: Set<NK>, nv: Option<u64>, p: Seq<u8>)
    requires local(ver, w0, s0, ov, w1, s1, mv, p), local(ver, w1, s1, mv, w2, s2, nv, p), olds(ver, w0, w1),
    ensures local(ver, w0, s0, ov, w2, s2, nv, p),
{
    reveal(local);
    assert forall|q: Seq<u8>| isp(p, q) implies #[trigger] lq(ver, w0, s0, ov, w2, s2, nv, p, q) by {
        assert(lq(ver, w0, s0, ov, w1, s1, mv, p, q));
        assert(lq(ver, w1, s1, mv, w2, s2, nv, p, q));
        assert forall|a: u64| #[trigger] s2.contains((a, q)) <==> s0.contains((a, q)) || (a != ver && owalk(w0, ov, p, q) == Some(a) && owalk(w2, nv, p, q) != Some(a) && !(w0[(a, q)] is Null)) by {
            assert(s1.contains((a, q)) <==> s0.contains((a, q)) || (a != ver && owalk(w0, ov, p, q) == Some(a) && owalk(w1, mv, p, q) != Some(a) && !(w0[(a, q)] is Null)));
            if a != ver && owalk(w1, mv, p, q) == Some(a) { if mv is Some { walk_in(w1, mv->0, p, q); } assert(at(w1, (a, q)) == at(w0, (a, q))); }
        }
    }
}
// the children after one of them was updated
pub proof fn mid_start(ver: u64, w0: W, s0: Set<NK>, v: u64, w1: W, s1: Set<NK>, w2: W, s2: Set<NK>, p: Seq<u8>, m: KV, k: Seq<u8>, val: Option<Seq<u8>>, n: InternalNode, x: u8, o: Option<Child>)
    requires rep(w0, v, p, m), w0[(v, p)] == Node::Internal(n), clean(ver, w0, s0, Some(v), p), vo(v) <= vo(ver), kv_ok(m), x < 16, p.len() < 64, npre(p, k), nibn(k, p.len() as int) == x,
        outside(w0, s0, w1, s1, p.push(x)), local(ver, w0, s0, kid(w0, Some(v), p, x), w1, s1, vopt(o), p.push(x)), crep(w1, ver, p, upd(m, k, val), o, x as int),
        deleted(ver, w1, s1, w2, s2, (v, p)),
    ensures mid(ver, w0, s0, Some(v), w2, s2, p, upd(m, k, val), n.cs().update(x as int, o)), 
{
    reveal(mid);
    let cs = n.cs().update(x as int, o);
    let m1 = upd(m, k, val);
    rep_internal(w0, v, p, m);
    deleted_only(ver, w1, s1, w2, s2, (v, p));
    assert(kids(w1, ver, p, m1, cs)) by {
        assert forall|i: int| 0 <= i < 16 implies crep(w1, ver, p, m1, #[trigger] cs[i], i) by {
            if i != x {
                assert(crep(w0, v, p, m, n.cs()[i], i));
                outside_inside(w0, s0, w1, s1, p, x, i as u8);
                inside_same(w0, s0, w1, s1, p.push(i as u8));
                npre_push(p, i as u8, k);
                upd_elsewhere(m, k, val, p.push(i as u8));
                crep_frame(w0, w1, v, ver, p, m, m1, cs[i], i);
            }
        }
    }
    assert forall|i: u8| i < 16 implies same_below(w1, w2, #[trigger] p.push(i)) by { only_inside(w1, s1, w2, s2, p, i); inside_same(w1, s1, w2, s2, p.push(i)); }
    kids_frame(w1, w2, ver, p, m1, cs);
    assert forall|i: u8| i < 16 implies #[trigger] lkid(ver, w0, s0, Some(v), w2, s2, cs, p, i) by {
        if i != x {
            clean_kid(ver, w0, s0, Some(v), p, i);
            local_same(ver, w0, s0, kid(w0, Some(v), p, i), p.push(i));
            assert(kid(w0, Some(v), p, i) == vopt(cs[i as int]));
            outside_inside(w0, s0, w1, s1, p, x, i);
            local_then(ver, w0, s0, kid(w0, Some(v), p, i), w0, s0, vopt(cs[i as int]), p.push(i), w1, s1);
        }
        only_inside(w1, s1, w2, s2, p, i);
        local_then(ver, w0, s0, kid(w0, Some(v), p, i), w1, s1, vopt(cs[i as int]), p.push(i), w2, s2);
    }
    mid_rim(w0, s0, w1, s1, w2, s2, p, x);
    clean_here(ver, w0, s0, Some(v), p);
    isp_push(p, x, p);
    assert(tip(ver, w0, s0, Some(v), s2, p)) by { assert forall|a: u64| #[trigger] tipq(ver, w0, s0, Some(v), s2, p, a) by { assert(same_at(w0, s0, w1, s1, (a, p))); } }
    assert(same_at(w0, s0, w1, s1, (ver, p)));
}
pub proof fn mid_rim(w0: W, s0: Set<NK>, w1: W, s1: Set<NK>, w2: W, s2: Set<NK>, p: Seq<u8>, x: u8)
    requires outside(w0, s0, w1, s1, p.push(x)), only_at(w1, s1, w2, s2, p), x < 16,
    ensures rim(w0, s0, w2, s2, p), outside(w0, s0, w2, s2, p),
{
    assert forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 implies #[trigger] same_at(w0, s0, w2, s2, k) by { isp_push(p, x, k.1); assert(same_at(w0, s0, w1, s1, k)); assert(k.1 != p); assert(same_at(w1, s1, w2, s2, k)); }
    assert forall|k: NK| !isp(p, k.1) implies #[trigger] same_at(w0, s0, w2, s2, k) by { isp_self(p); isp_push(p, x, k.1); assert(same_at(w0, s0, w1, s1, k)); assert(same_at(w1, s1, w2, s2, k)); }
}
} // verus!
