// splitting a leaf: two leaves, the node that tells them apart, and the nodes above it
verus! {
// the subtree at cur is done, and only it
pub open spec fn built(ver: u64, w0: W, s: Set<NK>, w: W, cur: Seq<u8>, m: KV, n: Node) -> bool {
    &&& rep(w, ver, cur, m)
    &&& w[(ver, cur)] == n
    &&& !(n is Null)
    &&& n.wf()
    &&& local(ver, w0, s, None, w, s, Some(ver), cur)
    &&& outside(w0, s, w, s, cur)
}
pub open spec fn only_two(m: KV, p: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool { forall|y: Seq<u8>| #[trigger] nund(m, p, y) ==> y == a || y == b }
pub proof fn built_leaf(ver: u64, w0: W, s: Set<NK>, cur: Seq<u8>, m: KV, l: LeafNode)
    requires clean(ver, w0, s, None, cur), nonly(m, cur, l.k()), m[l.k()] == l.v(),
    ensures built(ver, w0, s, w0.insert((ver, cur), Node::Leaf(l)), cur, m, Node::Leaf(l)), !w0.contains_key((ver, cur)),
{
    let w1 = w0.insert((ver, cur), Node::Leaf(l));
    clean_here(ver, w0, s, None, cur);
    insert_only(w0, s, (ver, cur), Node::Leaf(l));
    assert(tip(ver, w0, s, None, s, cur)) by { assert forall|a: u64| #[trigger] tipq(ver, w0, s, None, s, cur, a) by { } }
    local_tip(ver, w0, s, None, w1, s, Some(ver), cur);
    rep_leaf(w1, ver, cur, m, l);
}
// two children built one after the other
pub proof fn built_two(ver: u64, w0: W, s: Set<NK>, w1: W, w2: W, p: Seq<u8>, m: KV, x: u8, y: u8, lx: LeafNode, ly: LeafNode, cs: Cs)
    requires clean(ver, w0, s, None, p), olds(ver, w0, w1), x < 16, y < 16, x != y, p.len() < 64, kv_ok(m),
        built(ver, w0, s, w1, p.push(x), m, Node::Leaf(lx)), w2 == w1.insert((ver, p.push(y)), Node::Leaf(ly)), nonly(m, p.push(y), ly.k()), m[ly.k()] == ly.v(),
        only_two(m, p, lx.k(), ly.k()), npre(p.push(x), lx.k()),
        cs.len() == 16, cs[x as int] is Some, cs[y as int] is Some, forall|i: int| 0 <= i < 16 && i != x && i != y ==> (#[trigger] cs[i]) is None,
        leaf_child(cs[x as int]->0, ver, lx), leaf_child(cs[y as int]->0, ver, ly),
    ensures mid(ver, w0, s, None, w2, s, p, m, cs), node_ok(cs), !w1.contains_key((ver, p.push(y))), !w2.contains_key((ver, p)), lknown(cs, 16) <= m.len(),
{
    reveal(mid);
    let px = p.push(x);
    let py = p.push(y);
    insert_only(w1, s, (ver, py), Node::Leaf(ly));
    // y's part is as it was until now
    outside_inside(w0, s, w1, s, p, x, y);
    clean_kid(ver, w0, s, None, p, y);
    local_same(ver, w0, s, None, py);
    local_then(ver, w0, s, None, w0, s, None, py, w1, s);
    local_clean(ver, w0, s, None, w1, s, None, py);
    built_leaf(ver, w1, s, py, m, ly);
    outside_inside(w1, s, w2, s, p, y, x);
    inside_same(w1, s, w2, s, px);
    rep_frame(w1, w2, ver, px, m, m);
    local_then(ver, w0, s, None, w1, s, Some(ver), px, w2, s);
    local_trans(ver, w0, s, None, w1, s, None, w2, s, Some(ver), py);
    assert forall|i: u8| i < 16 implies #[trigger] lkid(ver, w0, s, None, w2, s, cs, p, i) by {
        if i == x { } else if i == y { } else {
            assert(cs[i as int] is None);
            clean_kid(ver, w0, s, None, p, i);
            local_same(ver, w0, s, None, p.push(i));
            outside_inside(w0, s, w1, s, p, x, i);
            local_then(ver, w0, s, None, w0, s, None, p.push(i), w1, s);
            outside_inside(w1, s, w2, s, p, y, i);
            local_then(ver, w0, s, None, w1, s, None, p.push(i), w2, s);
        }
    }
    child_of(w2, ver, p, m, x, cs[x as int]->0, Node::Leaf(lx));
    child_of(w2, ver, p, m, y, cs[y as int]->0, Node::Leaf(ly));
    assert(kids(w2, ver, p, m, cs)) by {
        assert forall|i: int| 0 <= i < 16 implies crep(w2, ver, p, m, #[trigger] cs[i], i) by {
            if i != x && i != y {
                let q = p.push(i as u8);
                assert forall|z: Seq<u8>| !#[trigger] nund(m, q, z) by { if nund(m, q, z) { npre_push(p, i as u8, z); assert(nund(m, p, z)); npre_push(p, x, lx.k()); npre_push(p, y, ly.k()); assert(nund(m, py, ly.k())); } }
            }
        }
    }
    isp_push(p, x, p);
    isp_push(p, y, p);
    assert(same_at(w0, s, w1, s, (ver, p)));
    assert(same_at(w1, s, w2, s, (ver, p)));
    clean_here(ver, w0, s, None, p);
    assert(tip(ver, w0, s, None, s, p)) by { assert forall|a: u64| #[trigger] tipq(ver, w0, s, None, s, p, a) by { } }
    assert(rim(w0, s, w2, s, p)) by { assert forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 implies #[trigger] same_at(w0, s, w2, s, k) by { isp_push(p, x, k.1); isp_push(p, y, k.1); assert(same_at(w0, s, w1, s, k)); assert(same_at(w1, s, w2, s, k)); } }
    isp_self(p);
    isp_push(p, x, px);
    isp_push(p, y, py);
    outside_trans(w0, s, w1, s, w2, s, px, py, p);
    kids_fit(w2, ver, p, m, cs);
    assert(!vacant(cs, 0, 16)) by { assert(cs[x as int] is Some); }
    assert(!lone(cs, 0, 16)) by { assert(cs[x as int] is Some && cs[y as int] is Some); }
}
pub open spec fn leaf_child(c: Child, ver: u64, l: LeafNode) -> bool { c.version == ver && c.hash@ == lh(l.k(), l.v()) && c.node_type is Leaf }
pub open spec fn inner_child(c: Child, ver: u64, n: InternalNode) -> bool { c.version == ver && c.hash@ == Node::Internal(n).hsh() && match c.node_type { NodeType::Leaf => false, NodeType::InternalLegacy => Node::Internal(n).lc() is None, NodeType::Internal { leaf_count } => Node::Internal(n).lc() == Some(leaf_count as int) } }
// one more node on top
pub proof fn built_up(ver: u64, w0: W, s: Set<NK>, w: W, p: Seq<u8>, m: KV, x: u8, n: InternalNode, cs: Cs, a: Seq<u8>, b: Seq<u8>)
    requires clean(ver, w0, s, None, p), x < 16, p.len() < 64, kv_ok(m), built(ver, w0, s, w, p.push(x), m, Node::Internal(n)), only_two(m, p, a, b), npre(p.push(x), a), npre(p.push(x), b),
        cs.len() == 16, cs[x as int] is Some, forall|i: int| 0 <= i < 16 && i != x ==> (#[trigger] cs[i]) is None, inner_child(cs[x as int]->0, ver, n),
    ensures mid(ver, w0, s, None, w, s, p, m, cs), node_ok(cs), !w.contains_key((ver, p)), lknown(cs, 16) <= m.len(),
{
    reveal(mid);
    let px = p.push(x);
    assert forall|i: u8| i < 16 implies #[trigger] lkid(ver, w0, s, None, w, s, cs, p, i) by {
        if i == x { } else {
            assert(cs[i as int] is None);
            clean_kid(ver, w0, s, None, p, i);
            local_same(ver, w0, s, None, p.push(i));
            outside_inside(w0, s, w, s, p, x, i);
            local_then(ver, w0, s, None, w0, s, None, p.push(i), w, s);
        }
    }
    child_of(w, ver, p, m, x, cs[x as int]->0, Node::Internal(n));
    assert(kids(w, ver, p, m, cs)) by {
        assert forall|i: int| 0 <= i < 16 implies crep(w, ver, p, m, #[trigger] cs[i], i) by {
            if i != x {
                let q = p.push(i as u8);
                assert forall|z: Seq<u8>| !#[trigger] nund(m, q, z) by { if nund(m, q, z) { npre_push(p, i as u8, z); assert(nund(m, p, z)); npre_push(p, x, a); npre_push(p, x, b); } }
            }
        }
    }
    isp_push(p, x, p);
    assert(same_at(w0, s, w, s, (ver, p)));
    clean_here(ver, w0, s, None, p);
    assert(tip(ver, w0, s, None, s, p)) by { assert forall|a: u64| #[trigger] tipq(ver, w0, s, None, s, p, a) by { } }
    assert(rim(w0, s, w, s, p)) by { assert forall|k: NK| isp(p, k.1) && p.len() < k.1.len() && k.1[p.len() as int] >= 16 implies #[trigger] same_at(w0, s, w, s, k) by { isp_push(p, x, k.1); } }
    assert(outside(w0, s, w, s, p)) by { assert forall|k: NK| !isp(p, k.1) implies #[trigger] same_at(w0, s, w, s, k) by { isp_push(p, x, k.1); } }
    kids_fit(w, ver, p, m, cs);
    assert(!vacant(cs, 0, 16)) by { assert(cs[x as int] is Some); }
    assert(!lone(cs, 0, 16)) by { assert forall|j: int| !sole_leaf(cs, 0, 16, j) by { if sole_leaf(cs, 0, 16, j) { assert(cs[x as int] is Some); assert(j == x); } } }
}
// below a path where nothing is reached, nothing is
pub proof fn clean_down(ver: u64, w: W, s: Set<NK>, p: Seq<u8>, q: Seq<u8>)
    requires clean(ver, w, s, None, p), isp(p, q), nibs16(q),
    ensures clean(ver, w, s, None, q),
    decreases q.len(),
{
    if p.len() == q.len() { isp_eq(p, q); }
    else {
        let u = q.drop_last();
        assert(isp(p, u)) by { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == u[i] by { assert(p[i] == q[i]); } }
        assert(nibs16(u)) by { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < 16 by { assert(q[i] < 16); } }
        clean_down(ver, w, s, p, u);
        assert(q.last() < 16);
        clean_kid(ver, w, s, None, u, q.last());
        assert(u.push(q.last()) =~= q);
    }
}
} // verus!
