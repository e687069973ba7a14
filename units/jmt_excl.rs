// jmt/src/tree.rs: the neighbours of a key that is not in the tree (C14)
//@common $id_a.cmp(&search_key) ==> rt_key_cmp(&$id_a, &search_key)
verus! {
use std::cmp::Ordering;
// ---------------------------------------------------------------- keys in order, nibble by nibble
pub open spec fn nlt_at(a: Seq<u8>, b: Seq<u8>, i: int) -> bool { 0 <= i < 64 && (forall|j: int| 0 <= j < i ==> #[trigger] nibn(a, j) == nibn(b, j)) && nibn(a, i) < nibn(b, i) }
pub open spec fn nless(a: Seq<u8>, b: Seq<u8>) -> bool { exists|i: int| #[trigger] nlt_at(a, b, i) }
pub proof fn key_lt_nibs(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 32, b.len() == 32,
    ensures key_lt(a, b) <==> nless(a, b),
{
    if key_lt(a, b) {
        let k = choose|k: int| #[trigger] lt_at(a, b, k);
        assert(forall|j: int| 0 <= j < 2 * k ==> #[trigger] nibn(a, j) == nibn(b, j));
        assert((2 * k) / 2 == k && (2 * k + 1) / 2 == k);
        if a[k] / 16 < b[k] / 16 { assert(nlt_at(a, b, 2 * k)); }
        else { assert(a[k] / 16 == b[k] / 16 && a[k] % 16 < b[k] % 16); assert(nlt_at(a, b, 2 * k + 1)); }
    }
    if nless(a, b) {
        let i = choose|i: int| #[trigger] nlt_at(a, b, i);
        let k = i / 2;
        assert forall|j: int| 0 <= j < k implies a[j] == b[j] by {
            assert(nibn(a, 2 * j) == nibn(b, 2 * j) && nibn(a, 2 * j + 1) == nibn(b, 2 * j + 1));
            assert((2 * j) / 2 == j && (2 * j + 1) / 2 == j);
            assert(a[j] / 16 == b[j] / 16 && a[j] % 16 == b[j] % 16);
        }
        if i % 2 == 1 { assert(nibn(a, 2 * k) == nibn(b, 2 * k)); assert((2 * k) / 2 == k); assert(a[k] / 16 == b[k] / 16); }
        assert(lt_at(a, b, k));
    }
}
pub proof fn same_nibs(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 32, b.len() == 32, forall|j: int| 0 <= j < 64 ==> #[trigger] nibn(a, j) == nibn(b, j),
    ensures a == b,
{
    assert forall|j: int| 0 <= j < 32 implies a[j] == b[j] by {
        assert(nibn(a, 2 * j) == nibn(b, 2 * j) && nibn(a, 2 * j + 1) == nibn(b, 2 * j + 1));
        assert((2 * j) / 2 == j && (2 * j + 1) / 2 == j);
    }
    assert(a =~= b);
}
// the first nibble where two keys differ
pub proof fn first_diff(a: Seq<u8>, b: Seq<u8>, n: int) -> (i: int)
    requires 0 <= n <= 64,
    ensures 0 <= i <= n, forall|j: int| 0 <= j < i ==> #[trigger] nibn(a, j) == nibn(b, j), i < n ==> nibn(a, i) != nibn(b, i),
    decreases n,
{
    if n == 0 { 0 } else { let i = first_diff(a, b, n - 1); if i < n - 1 { i } else if nibn(a, n - 1) == nibn(b, n - 1) { n } else { n - 1 } }
}
pub proof fn nless_total(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 32, b.len() == 32, a != b,
    ensures nless(a, b) || nless(b, a),
{
    let i = first_diff(a, b, 64);
    if i == 64 { same_nibs(a, b); } else if nibn(a, i) < nibn(b, i) { assert(nlt_at(a, b, i)); } else { assert(nlt_at(b, a, i)); }
}
pub proof fn nless_not_both(a: Seq<u8>, b: Seq<u8>)
    requires nless(a, b),
    ensures !nless(b, a), a != b,
{
    let i = choose|i: int| #[trigger] nlt_at(a, b, i);
    if nless(b, a) { let j = choose|j: int| #[trigger] nlt_at(b, a, j); if i < j { assert(nibn(b, i) == nibn(a, i)); } else if j < i { assert(nibn(a, j) == nibn(b, j)); } }
}
// ---------------------------------------------------------------- keys to one side of a path
pub open spec fn beyond_at(right: bool, p: Seq<u8>, y: Seq<u8>, i: int) -> bool { 0 <= i < p.len() && (forall|j: int| 0 <= j < i ==> nibn(y, j) == #[trigger] p[j]) && (if right { nibn(y, i) > p[i] } else { nibn(y, i) < p[i] }) }
pub open spec fn beyond(right: bool, p: Seq<u8>, y: Seq<u8>) -> bool { exists|i: int| #[trigger] beyond_at(right, p, y, i) }
// a before b, in the direction given
pub open spec fn nearer(right: bool, a: Seq<u8>, b: Seq<u8>) -> bool { if right { nless(a, b) } else { nless(b, a) } }
pub proof fn some_side(p: Seq<u8>, y: Seq<u8>)
    requires !npre(p, y),
    ensures beyond(true, p, y) || beyond(false, p, y),
    decreases p.len(),
{
    assert(p.len() > 0);
    let d = p.drop_last();
    if npre(d, y) {
        let i = p.len() - 1;
        assert(forall|j: int| 0 <= j < i ==> nibn(y, j) == d[j] && d[j] == #[trigger] p[j]);
        assert(p =~= d.push(p.last()));
        if nibn(y, i) > p[i] { assert(beyond_at(true, p, y, i)); } else if nibn(y, i) < p[i] { assert(beyond_at(false, p, y, i)); } else { npre_push(d, p.last(), y); }
    } else {
        some_side(d, y);
        if beyond(true, d, y) { let i = choose|i: int| #[trigger] beyond_at(true, d, y, i); assert(forall|j: int| 0 <= j < i ==> d[j] == #[trigger] p[j]); assert(beyond_at(true, p, y, i)); }
        else { let i = choose|i: int| #[trigger] beyond_at(false, d, y, i); assert(forall|j: int| 0 <= j < i ==> d[j] == #[trigger] p[j]); assert(beyond_at(false, p, y, i)); }
    }
}
pub proof fn beyond_nearer(right: bool, p: Seq<u8>, a: Seq<u8>, y: Seq<u8>)
    requires npre(p, a), beyond(right, p, y), p.len() <= 64,
    ensures nearer(right, a, y),
{
    let i = choose|i: int| #[trigger] beyond_at(right, p, y, i);
    assert forall|j: int| 0 <= j < i implies #[trigger] nibn(a, j) == nibn(y, j) by { assert(nibn(y, j) == p[j]); }
    assert(nibn(a, i) == p[i]);
    if right { assert(nlt_at(a, y, i)); } else {
        assert forall|j: int| 0 <= j < i implies #[trigger] nibn(y, j) == nibn(a, j) by { assert(nibn(a, j) == nibn(y, j)); }
        assert(nlt_at(y, a, i));
    }
}
// two keys below a prefix have everything between them below it
pub proof fn between_pre(p: Seq<u8>, a: Seq<u8>, y: Seq<u8>, b: Seq<u8>)
    requires npre(p, a), npre(p, b), nless(a, y), nless(y, b), p.len() <= 64,
    ensures npre(p, y),
{
    if !npre(p, y) {
        some_side(p, y);
        if beyond(true, p, y) { beyond_nearer(true, p, b, y); nless_not_both(b, y); }
        if beyond(false, p, y) { beyond_nearer(false, p, a, y); nless_not_both(y, a); }
    }
}
pub proof fn between_nib(p: Seq<u8>, a: Seq<u8>, y: Seq<u8>, b: Seq<u8>)
    requires npre(p, a), npre(p, b), nless(a, y), nless(y, b), p.len() < 64,
    ensures npre(p, y), nibn(a, p.len() as int) <= nibn(y, p.len() as int) <= nibn(b, p.len() as int),
{
    between_pre(p, a, y, b);
    let d = p.len() as int;
    let i = choose|i: int| #[trigger] nlt_at(a, y, i);
    assert(i < d ==> nibn(a, i) == p[i] && nibn(y, i) == p[i]);
    assert(i > d ==> nibn(a, d) == nibn(y, d));
    let j = choose|j: int| #[trigger] nlt_at(y, b, j);
    assert(j < d ==> nibn(y, j) == p[j] && nibn(b, j) == p[j]);
    assert(j > d ==> nibn(y, d) == nibn(b, d));
}
// derived Ord on keys: lexicographic
#[verifier::external_body]
pub fn rt_key_cmp(a: &KeyHash, b: &KeyHash) -> (r: Ordering)
    ensures r is Less <==> key_lt(a.0@, b.0@), r is Greater <==> key_lt(b.0@, a.0@), r is Equal <==> a.0@ == b.0@,
{ a.0.cmp(&b.0) }
#[verifier::external_body]
pub fn rt_nib_lt(a: &Nibble, b: &Nibble) -> (r: bool)
    ensures r == (a.v() < b.v()),
{ a.0 < b.0 }
// ---------------------------------------------------------------- what a search knows
// no key of m lies strictly between the two
pub open spec fn closest(m: KV, l: Seq<u8>, key: Seq<u8>) -> bool { forall|y: Seq<u8>| #[trigger] m.contains_key(y) ==> !(nless(l, y) && nless(y, key)) && !(nless(key, y) && nless(y, l)) }
pub open spec fn leaf_near(m: KV, p: Seq<u8>, l: Seq<u8>, key: Seq<u8>) -> bool { m.contains_key(l) && closest(m, l, key) && forall|y: Seq<u8>| #[trigger] nund(m, p, y) ==> y == l }
pub open spec fn node_on(w: W, m: KV, p: Seq<u8>, n: InternalNode) -> bool { exists|v: u64| #[trigger] node_at(w, m, v, p, n) }
pub open spec fn node_at(w: W, m: KV, v: u64, p: Seq<u8>, n: InternalNode) -> bool { rep(w, v, p, m) && w[(v, p)] == Node::Internal(n) }
pub open spec fn chain(w: W, m: KV, ps: Seq<InternalNode>, p: Seq<u8>) -> bool {
    &&& kv_ok(m) && nibs16(p) && ps.len() == p.len() <= 64
    &&& forall|i: int| 0 <= i < ps.len() ==> node_on(w, m, p.subrange(0, i), #[trigger] ps[i])
}
#[verifier::opaque]
pub open spec fn seek(w: W, m: KV, key: Seq<u8>, nk: NK, p: Seq<u8>) -> bool {
    &&& kv_ok(m) && key.len() == 32 && rep(w, nk.0, nk.1, m) && nibs16(nk.1) && nibs16(p) && npre(p, key) && nk.1.len() == p.len()
    &&& (nk.1 == p || w[nk] is Leaf)
    &&& w[nk] matches Node::Leaf(l) ==> leaf_near(m, p, l.k(), key)
}
pub proof fn seek_root(w: W, v: u64, m: KV, key: Seq<u8>)
    requires holds(w, v, m), key.len() == 32,
    ensures seek(w, m, key, root_key(v), Seq::empty()),
{
    reveal(seek);
    let e = Seq::<u8>::empty();
    assert(npre(e, key));
    if let Node::Leaf(l) = w[root_key(v)] {
        assert(nund(m, e, l.k()));
        assert forall|y: Seq<u8>| #[trigger] m.contains_key(y) implies !(nless(l.k(), y) && nless(y, key)) && !(nless(key, y) && nless(y, l.k())) by { assert(nund(m, e, y)); if nless(l.k(), y) { nless_not_both(l.k(), y); } if nless(y, l.k()) { nless_not_both(y, l.k()); } }
    }
}
pub open spec fn seek_next(w: W, m: KV, key: Seq<u8>, nk: NK, n: InternalNode, p: Seq<u8>, x: u8) -> bool {
    match reach(n.cs(), x, 3) {
        None => forall|y: Seq<u8>| !#[trigger] nund(m, p.push(x), y),
        Some(k) => 0 <= k < 16 && n.cs()[k] is Some && ({ let nk2 = (n.cs()[k]->0.version, nk.1.push(k as u8)); seek(w, m, key, nk2, p.push(x)) && w.contains_key(nk2) && !(w[nk2] is Null) }),
    }
}
pub proof fn seek_step(w: W, m: KV, key: Seq<u8>, nk: NK, p: Seq<u8>, n: InternalNode)
    requires seek(w, m, key, nk, p), at(w, nk) == Some(Node::Internal(n)),
    ensures nk.1 == p, p.len() < 64, nibn(key, p.len() as int) < 16, n.wf(), node_at(w, m, nk.0, p, n), npre(p, key), nibs16(p),
        seek_next(w, m, key, nk, n, p, nibn(key, p.len() as int)),
{
    reveal(seek);
    let d = p.len() as int;
    let x = nibn(key, d);
    let cs = n.cs();
    rep_internal(w, nk.0, p, m);
    nib16(key, d);
    depth_end(cs, x, 3);
    c13_reach(cs, x, 3);
    let e = 4 - depth(cs, x, 3);
    let s = half(x, e);
    half_facts(x, e);
    npre_push(p, x, key);
    assert(crep(w, nk.0, p, m, cs[x as int], x as int));
    assert(nibs16(p.push(x))) by { assert forall|i: int| 0 <= i < p.push(x).len() implies #[trigger] p.push(x)[i] < 16 by { if i < d { assert(p.push(x)[i] == p[i]); } } }
    match reach(cs, x, 3) {
        None => { }
        Some(k) => {
            assert(0 <= k < 16 && cs[k] is Some);
            assert(crep(w, nk.0, p, m, cs[k], k));
            let c = cs[k]->0;
            let q = p.push(k as u8);
            let nd = w[(c.version, q)];
            assert(child_ok(c, nd, nk.0));
            assert(nibs16(q)) by { assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < 16 by { if i < d { assert(q[i] == p[i]); } } }
            assert(e == 0 ==> w_of(e) == 1 && k == x);
            if let Node::Leaf(l) = nd {
                assert(nund(m, q, l.k()));
                npre_push(p, k as u8, l.k());
                assert forall|y: Seq<u8>| #[trigger] nund(m, p.push(x), y) implies y == l.k() by { if k != x { assert(cs[x as int] is None); } }
                assert forall|y: Seq<u8>| #[trigger] m.contains_key(y) implies !(nless(l.k(), y) && nless(y, key)) && !(nless(key, y) && nless(y, l.k())) by {
                    if (nless(l.k(), y) && nless(y, key)) || (nless(key, y) && nless(y, l.k())) {
                        if nless(l.k(), y) { nless_not_both(l.k(), y); between_nib(p, l.k(), y, key); } else { nless_not_both(y, l.k()); between_nib(p, key, y, l.k()); }
                        let z = nibn(y, d);
                        nib16(y, d);
                        npre_push(p, z, y);
                        assert(s <= z < s + w_of(e));
                        assert(crep(w, nk.0, p, m, cs[z as int], z as int));
                        assert(nund(m, p.push(z), y));
                        assert(cs[z as int] is Some);
                        assert(z == k);
                    }
                }
            }
        }
    }
}
// ================================================================ the code
//@type jmt/src/tree.rs Extreme
impl Clone for Extreme { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Extreme { }
impl Extreme {
//@fn jmt/src/tree.rs Extreme::opposite props C14
//@spec
    ensures r is Left <==> self is Right,
//@end
}
//@type jmt/src/tree.rs SearchResult
//@type jmt/src/tree.rs ExclusionProof
pub open spec fn best(right: bool, cs: Cs, lim: u8, o: Option<(Nibble, Version)>) -> bool {
    match o {
        Some(x) => x.0.v() < 16 && cs[x.0.v() as int] is Some && cs[x.0.v() as int]->0.version == x.1 && (if right { x.0.v() > lim } else { x.0.v() < lim })
            && forall|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some && (if right { i > lim } else { i < lim }) ==> (if right { x.0.v() <= i } else { i <= x.0.v() }),
        None => forall|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some ==> !(if right { i > lim } else { i < lim }),
    }
}
pub open spec fn best_of(right: bool, v: Seq<(Nibble, &Child)>, lim: u8, n: int, o: Option<(Nibble, &Child)>) -> bool {
    match o {
        Some(x) => exists|i: int| 0 <= i < n && #[trigger] v[i] == x && (if right { x.0.v() > lim } else { x.0.v() < lim })
            && forall|j: int| 0 <= j < n && (if right { (#[trigger] v[j]).0.v() > lim } else { v[j].0.v() < lim }) ==> (if right { x.0.v() <= v[j].0.v() } else { v[j].0.v() <= x.0.v() }),
        None => forall|j: int| 0 <= j < n ==> !(if right { (#[trigger] v[j]).0.v() > lim } else { v[j].0.v() < lim }),
    }
}
//@fn jmt/src/tree.rs JellyfishMerkleTree::search_closest_extreme_node#neighbor_nibble props C14
//@rewrite? $id_a < &child_index ==> rt_nib_lt($id_a, &child_index)
//@rewrite? $id_a > &child_index ==> rt_nib_lt(&child_index, $id_a)
//@rewrite? $id_n.children_unsorted().filter(|($id_b, _)| $c).max_by_key(|($id_k, _)| *$id_k).map(|($id_d, $id_e)| ($g)) ==> { let rt_v = $id_n.children_unsorted(); let mut rt_best: Option<(Nibble, &Child)> = None; let mut rt_i: usize = 0; while rt_i < rt_v.len() { let rt_it = rt_v[rt_i]; let $id_b = &rt_it.0; if $c { rt_best = match rt_best { Some(rt_y) => if rt_nib_lt(&rt_it.0, &rt_y.0) { Some(rt_y) } else { Some(rt_it) }, None => Some(rt_it) }; } rt_i = rt_i + 1; } match rt_best { Some(($id_d, $id_e)) => Some(($g)), None => None } }
//@rewrite? $id_n.children_unsorted().filter(|($id_b, _)| $c).min_by_key(|($id_k, _)| *$id_k).map(|($id_d, $id_e)| ($g)) ==> { let rt_v = $id_n.children_unsorted(); let mut rt_best: Option<(Nibble, &Child)> = None; let mut rt_i: usize = 0; while rt_i < rt_v.len() { let rt_it = rt_v[rt_i]; let $id_b = &rt_it.0; if $c { rt_best = match rt_best { Some(rt_y) => if rt_nib_lt(&rt_it.0, &rt_y.0) { Some(rt_it) } else { Some(rt_y) }, None => Some(rt_it) }; } rt_i = rt_i + 1; } match rt_best { Some(($id_d, $id_e)) => Some(($g)), None => None } }
//@spec
    ensures best(extreme is Right, node.cs(), child_index.v(), r),
//@loop 0
    invariant rt_i <= rt_v.len(), is_items(node.cs(), rt_v@, 16), best_of(extreme is Right, rt_v@, child_index.v(), rt_i as int, rt_best), extreme is Left,
    decreases rt_v.len() - rt_i,
//@loop 1
    invariant rt_i <= rt_v.len(), is_items(node.cs(), rt_v@, 16), best_of(extreme is Right, rt_v@, child_index.v(), rt_i as int, rt_best), extreme is Right,
    decreases rt_v.len() - rt_i,
//@loopstart 0
    let ghost b0 = rt_best;
//@loopstart 1
    let ghost b0 = rt_best;
//@afterloop 0
    proof { best_done(node.cs(), rt_v@, child_index.v(), extreme is Right, rt_best); }
//@loopend 0
    assert(rt_v@[rt_i - 1] == rt_it);
    assert(best_of(extreme is Right, rt_v@, child_index.v(), rt_i as int, rt_best));
//@afterloop 1
    proof { best_done(node.cs(), rt_v@, child_index.v(), extreme is Right, rt_best); }
//@loopend 1
    assert(rt_v@[rt_i - 1] == rt_it);
    assert(best_of(extreme is Right, rt_v@, child_index.v(), rt_i as int, rt_best));
//@end
pub open spec fn is_end_at(cs: Cs, right: bool, x: u8) -> bool { x < 16 && cs[x as int] is Some && forall|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some ==> if right { x <= i } else { i <= x } }
pub open spec fn is_end(cs: Cs, right: bool, o: Option<Nibble>) -> bool { match o { Some(x) => is_end_at(cs, right, x.v()), None => forall|i: int| 0 <= i < 16 ==> (#[trigger] cs[i]) is None } }
// the first (last) of the entries by nibble
pub proof fn best_done(cs: Cs, v: Seq<(Nibble, &Child)>, lim: u8, right: bool, o: Option<(Nibble, &Child)>)
    requires is_items(cs, v, 16), best_of(right, v, lim, v.len() as int, o),
    ensures best(right, cs, lim, match o { Some(x) => Some((x.0, x.1.version)), None => None }),
{
    reveal(is_items);
    assert forall|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some && (if right { i > lim } else { i < lim }) implies (o matches Some(x) && if right { x.0.v() <= i } else { i <= x.0.v() }) by { let k = cnt(cs, i); assert(v[k].0.v() == i); }
}
pub fn rt_least<'a>(v: Vec<(Nibble, &'a Child)>, right: bool) -> (r: Option<(Nibble, &'a Child)>)
    ensures match r { Some(x) => exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == x && forall|j: int| 0 <= j < v@.len() ==> (if right { x.0.v() <= (#[trigger] v@[j]).0.v() } else { v@[j].0.v() <= x.0.v() }), None => v@.len() == 0 },
        forall|cs: Cs| #[trigger] is_items(cs, v@, 16) ==> is_end(cs, right, match r { Some(x) => Some(x.0), None => None }),
{
    let mut b: Option<(Nibble, &Child)> = None;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), match b { Some(x) => exists|k: int| 0 <= k < i && #[trigger] v@[k] == x && forall|j: int| 0 <= j < i ==> (if right { x.0.v() <= (#[trigger] v@[j]).0.v() } else { v@[j].0.v() <= x.0.v() }), None => i == 0 },
        decreases v.len() - i,
    {
        let c = v[i];
        b = match b { Some(y) => if right == rt_nib_lt(&c.0, &y.0) { Some(c) } else { Some(y) }, None => Some(c) };
        i = i + 1;
        assert(v@[i - 1] == c);
    }
    proof {
        reveal(is_items);
        assert forall|cs: Cs| #[trigger] is_items(cs, v@, 16) implies is_end(cs, right, match b { Some(x) => Some(x.0), None => None }) by {
            assert forall|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some implies (b matches Some(x) && if right { x.0.v() <= i } else { i <= x.0.v() }) by { let k = cnt(cs, i); assert(v@[k].0.v() == i); }
        }
    }
    b
}
// kh is the first (right) or last key of m below p
pub open spec fn end_key(m: KV, p: Seq<u8>, right: bool, kh: Seq<u8>) -> bool { nund(m, p, kh) && forall|y: Seq<u8>| #[trigger] nund(m, p, y) ==> y == kh || nearer(right, kh, y) }
// every key below p is below q, or beyond it
pub open spec fn narrowed(m: KV, p: Seq<u8>, q: Seq<u8>, right: bool) -> bool { forall|y: Seq<u8>| #[trigger] nund(m, p, y) ==> npre(q, y) || beyond(right, q, y) }
pub proof fn narrow(w: W, v: u64, m: KV, p: Seq<u8>, q: Seq<u8>, right: bool, n: InternalNode, x: u8)
    requires kv_ok(m), rep(w, v, q, m), w[(v, q)] == Node::Internal(n), narrowed(m, p, q, right), q.len() < 64, x < 16,
        forall|i: int| 0 <= i < 16 && (#[trigger] n.cs()[i]) is Some ==> if right { x <= i } else { i <= x },
    ensures narrowed(m, p, q.push(x), right),
{
    rep_internal(w, v, q, m);
    let d = q.len() as int;
    let q2 = q.push(x);
    assert forall|y: Seq<u8>| #[trigger] nund(m, p, y) implies npre(q2, y) || beyond(right, q2, y) by {
        if npre(q, y) {
            let z = nibn(y, d);
            nib16(y, d);
            npre_push(q, z, y);
            npre_push(q, x, y);
            assert(crep(w, v, q, m, n.cs()[z as int], z as int));
            assert(nund(m, q.push(z), y));
            assert(n.cs()[z as int] is Some);
            if z != x { assert(forall|j: int| 0 <= j < d ==> q2[j] == q[j]); assert(beyond_at(right, q2, y, d)); }
        } else {
            let i = choose|i: int| #[trigger] beyond_at(right, q, y, i);
            assert(forall|j: int| 0 <= j < d ==> q2[j] == q[j]);
            assert(beyond_at(right, q2, y, i));
        }
    }
}
pub proof fn has_child(n: InternalNode)
    requires n.wf(),
    ensures exists|i: int| 0 <= i < 16 && (#[trigger] n.cs()[i]) is Some,
{ }
pub proof fn reach_present(cs: Cs, x: u8)
    requires cs.len() == 16, x < 16, cs[x as int] is Some,
    ensures reach(cs, x, 3) == Some(x as int),
{
    depth_end(cs, x, 3);
    half_facts(x, 0); half_facts(x, 1); half_facts(x, 2); half_facts(x, 3); half_facts(x, 4);
}
pub open spec fn npre_of(p: Seq<u8>, q: Seq<u8>) -> bool { p.len() <= q.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] q[i] == p[i] }
pub proof fn end_leaf_key(m: KV, p: Seq<u8>, q: Seq<u8>, right: bool, k: Seq<u8>)
    requires nonly(m, q, k), narrowed(m, p, q, right), npre_of(p, q), q.len() <= 64,
    ensures end_key(m, p, right, k),
{
    assert(nund(m, q, k));
    assert forall|i: int| 0 <= i < p.len() implies nibn(k, i) == #[trigger] p[i] by { assert(q[i] == p[i]); }
    assert forall|y: Seq<u8>| #[trigger] nund(m, p, y) implies y == k || nearer(right, k, y) by {
        if npre(q, y) { assert(nund(m, q, y)); } else { beyond_nearer(right, q, k, y); }
    }
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_extreme_key_hash props C14
//@attr verifier::loop_isolation(false)
//@rewrite? let min_or_max = |$id_n: &InternalNode| { $b }; ==> let min_or_max = |$id_n: &InternalNode| -> (o: Option<Nibble>) ensures is_end($id_n.cs(), extreme is Left, o) { $b };
//@rewrite? match extreme { $b }.map(|($id_n, _)| $id_n) ==> match (match extreme { $b }) { Some(rt_x) => Some(rt_x.0), None => None }
//@rewrite? $id_n.children_unsorted().min_by_key(|$id_c| $id_c.0) ==> rt_least($id_n.children_unsorted(), true)
//@rewrite? $id_n.children_unsorted().max_by_key(|$id_c| $id_c.0) ==> rt_least($id_n.children_unsorted(), false)
//@rewrite? min_or_max($a).expect($m) ==> (match min_or_max($a) { Some(rt_x) => rt_x, None => rt_unreachable() })
//@rewrite? in nibble_depth..=ROOT_NIBBLE_HEIGHT { ==> in nibble_depth..ROOT_NIBBLE_HEIGHT + 1 {
//@spec
    requires node_key.wf(), nibble_depth == node_key.p().len(), has_tree(self.nodes(), version),
        rep(self.nodes(), node_key.version, node_key.p(), tmap(self.nodes(), version)), !(self.nodes()[node_key.nk()] is Null), nibs16(node_key.p()),
    ensures r matches Ok(k) ==> end_key(tmap(self.nodes(), version), node_key.p(), extreme is Left, k.0@),
        self.reader.reliable() ==> r is Ok,
//@start
    let ghost w = self.nodes();
    let ghost m = tmap(w, version);
    let ghost p0 = node_key.p();
    let ghost d0 = nibble_depth as int;
    let ghost right = extreme is Left;
    proof { assert(holds(w, version, m)); assert(narrowed(m, p0, p0, right)); }
//@loop 0 it
    invariant w == self.nodes(), m == tmap(w, version), kv_ok(m), right == (extreme is Left), d0 == p0.len() <= 64,
        node_key.wf(), node_key.p().len() == d0 + it.index@, node_key.p().len() <= 64, rep(w, node_key.version, node_key.p(), m), !(w[node_key.nk()] is Null),
        npre_of(p0, node_key.p()), narrowed(m, p0, node_key.p(), right),
        forall|n: &InternalNode| n.wf() ==> #[trigger] call_requires(min_or_max, (n,)),
        forall|n: &InternalNode, o: Option<Nibble>| #[trigger] call_ensures(min_or_max, (n,), o) ==> is_end(n.cs(), right, o),
//@loopstart 0
    let ghost nk0 = node_key.nk();
    proof {
        match at(w, nk0) {
            Some(Node::Internal(n)) => {
                rep_internal(w, nk0.0, nk0.1, m);
                has_child(n);
                assert forall|x: u8| #[trigger] is_end_at(n.cs(), right, x) implies reach(n.cs(), x, 3) == Some(x as int) && narrowed(m, p0, nk0.1.push(x), right) && crep(w, nk0.0, nk0.1, m, n.cs()[x as int], x as int) && npre_of(p0, nk0.1.push(x)) by { reach_present(n.cs(), x); narrow(w, nk0.0, m, p0, nk0.1, right, n, x); }
            }
            Some(Node::Leaf(l)) => { end_leaf_key(m, p0, nk0.1, right, l.k()); }
            _ => { }
        }
    }
//@end
}
// the neighbour of a path on one side
pub open spec fn side_end(m: KV, p: Seq<u8>, right: bool, o: Option<KeyHash>) -> bool {
    match o {
        None => forall|y: Seq<u8>| #[trigger] m.contains_key(y) ==> !beyond(right, p, y),
        Some(k) => m.contains_key(k.0@) && beyond(right, p, k.0@) && forall|y: Seq<u8>| #[trigger] m.contains_key(y) && beyond(right, p, y) ==> y == k.0@ || nearer(right, k.0@, y),
    }
}
pub open spec fn beyond_lt(right: bool, p: Seq<u8>, y: Seq<u8>, t: int) -> bool { exists|i: int| i < t && #[trigger] beyond_at(right, p, y, i) }
pub open spec fn all_beyond(m: KV, right: bool, p: Seq<u8>, t: int) -> bool { forall|y: Seq<u8>| #[trigger] m.contains_key(y) && beyond(right, p, y) ==> beyond_lt(right, p, y, t) }
pub proof fn beyond_start(m: KV, right: bool, p: Seq<u8>)
    ensures all_beyond(m, right, p, p.len() as int),
{ assert forall|y: Seq<u8>| #[trigger] m.contains_key(y) && beyond(right, p, y) implies beyond_lt(right, p, y, p.len() as int) by { let i = choose|i: int| #[trigger] beyond_at(right, p, y, i); assert(beyond_at(right, p, y, i)); } }
// a key that leaves the path at depth t is below a child of the node there
pub proof fn leaves_at(w: W, m: KV, v: u64, p: Seq<u8>, t: int, right: bool, n: InternalNode, y: Seq<u8>)
    requires kv_ok(m), node_at(w, m, v, p.subrange(0, t), n), 0 <= t < p.len() <= 64, m.contains_key(y), beyond_at(right, p, y, t),
    ensures ({ let z = nibn(y, t); z < 16 && n.cs()[z as int] is Some && (if right { z > p[t] } else { z < p[t] }) && nund(m, p.subrange(0, t).push(z), y) }),
{
    let d = p.subrange(0, t);
    let z = nibn(y, t);
    nib16(y, t);
    rep_internal(w, v, d, m);
    assert(npre(d, y));
    npre_push(d, z, y);
    assert(crep(w, v, d, m, n.cs()[z as int], z as int));
    assert(nund(m, d.push(z), y));
}
pub proof fn beyond_up(w: W, m: KV, p: Seq<u8>, t: int, right: bool, n: InternalNode)
    requires kv_ok(m), node_on(w, m, p.subrange(0, t), n), 0 <= t < p.len() <= 64, all_beyond(m, right, p, t + 1), best(right, n.cs(), p[t], None),
    ensures all_beyond(m, right, p, t),
{
    let v = choose|v: u64| #[trigger] node_at(w, m, v, p.subrange(0, t), n);
    assert forall|y: Seq<u8>| #[trigger] m.contains_key(y) && beyond(right, p, y) implies beyond_lt(right, p, y, t) by {
        let i = choose|i: int| i < t + 1 && #[trigger] beyond_at(right, p, y, i);
        if i == t { leaves_at(w, m, v, p, t, right, n, y); assert(n.cs()[nibn(y, t) as int] is Some); }
    }
}
pub open spec fn nearest(w: W, m: KV, p: Seq<u8>, right: bool, nv: u64, q: Seq<u8>) -> bool {
    rep(w, nv, q, m) && !(w[(nv, q)] is Null) && nibs16(q) && forall|k: KeyHash| #[trigger] end_key(m, q, right, k.0@) ==> side_end(m, p, right, Some(k))
}
pub proof fn beyond_found(w: W, m: KV, p: Seq<u8>, t: int, right: bool, n: InternalNode, nb: Nibble, nv: u64)
    requires kv_ok(m), nibs16(p), node_on(w, m, p.subrange(0, t), n), 0 <= t < p.len() <= 64, all_beyond(m, right, p, t + 1), best(right, n.cs(), p[t], Some((nb, nv))),
    ensures nearest(w, m, p, right, nv, p.subrange(0, t).push(nb.v())),
{
    let v = choose|v: u64| #[trigger] node_at(w, m, v, p.subrange(0, t), n);
    let d = p.subrange(0, t);
    let x = nb.v();
    let q = d.push(x);
    rep_internal(w, v, d, m);
    assert(crep(w, v, d, m, n.cs()[x as int], x as int));
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < 16 by { if i < t { assert(q[i] == p[i]); } }
    assert forall|k: KeyHash| #[trigger] end_key(m, q, right, k.0@) implies side_end(m, p, right, Some(k)) by {
        let a = k.0@;
        assert(nund(m, q, a));
        npre_push(d, x, a);
        assert forall|j: int| 0 <= j < t implies nibn(a, j) == #[trigger] p[j] by { assert(d[j] == p[j]); }
        assert(beyond_at(right, p, a, t));
        assert forall|y: Seq<u8>| #[trigger] m.contains_key(y) && beyond(right, p, y) implies y == a || nearer(right, a, y) by {
            let i = choose|i: int| i < t + 1 && #[trigger] beyond_at(right, p, y, i);
            if i == t {
                leaves_at(w, m, v, p, t, right, n, y);
                let z = nibn(y, t);
                assert(n.cs()[z as int] is Some);
                if z == x { assert(nund(m, q, y)); }
                else {
                    assert forall|j: int| 0 <= j < t implies #[trigger] nibn(a, j) == nibn(y, j) by { assert(nibn(y, j) == p[j]); }
                    if right { assert(nlt_at(a, y, t)); } else { assert forall|j: int| 0 <= j < t implies #[trigger] nibn(y, j) == nibn(a, j) by { assert(nibn(a, j) == nibn(y, j)); } assert(nlt_at(y, a, t)); }
                }
            } else {
                assert(nibn(a, i) == p[i]);
                assert forall|j: int| 0 <= j < i implies #[trigger] nibn(a, j) == nibn(y, j) by { assert(nibn(y, j) == p[j]); }
                if right { assert(nlt_at(a, y, i)); } else { assert forall|j: int| 0 <= j < i implies #[trigger] nibn(y, j) == nibn(a, j) by { assert(nibn(a, j) == nibn(y, j)); } assert(nlt_at(y, a, i)); }
            }
        }
    }
}
// where a search for key ends: below p there is at most one key, and no other is nearer
pub open spec fn found(w: W, m: KV, key: Seq<u8>, s: SearchResult) -> bool {
    match s {
        SearchResult::FoundLeaf { ordering, leaf_hash, path_to_leaf, parents } => path_to_leaf.wf() && chain(w, m, parents@, path_to_leaf.v()) && npre(path_to_leaf.v(), key) && leaf_near(m, path_to_leaf.v(), leaf_hash.0@, key)
            && (ordering is Less <==> nless(leaf_hash.0@, key)) && (ordering is Greater <==> nless(key, leaf_hash.0@)) && (ordering is Equal <==> key == leaf_hash.0@),
        SearchResult::FoundInternal { path_to_internal, parents } => path_to_internal.wf() && chain(w, m, parents@, path_to_internal.v()) && npre(path_to_internal.v(), key) && nnone(m, path_to_internal.v()),
    }
}
// the neighbours of a key that is not there
pub open spec fn bound(m: KV, key: Seq<u8>, right: bool, o: Option<KeyHash>) -> bool {
    match o {
        None => forall|y: Seq<u8>| #[trigger] m.contains_key(y) ==> !nearer(right, key, y),
        Some(k) => m.contains_key(k.0@) && nearer(right, key, k.0@) && forall|y: Seq<u8>| #[trigger] m.contains_key(y) && nearer(right, key, y) ==> y == k.0@ || nearer(right, k.0@, y),
    }
}
pub proof fn bound_path(m: KV, key: Seq<u8>, p: Seq<u8>, right: bool, o: Option<KeyHash>)
    requires kv_ok(m), npre(p, key), side_end(m, p, right, o), p.len() <= 64, key.len() == 32,
        forall|y: Seq<u8>| #[trigger] nund(m, p, y) ==> !nearer(right, key, y),
    ensures bound(m, key, right, o),
{
    assert forall|y: Seq<u8>| #[trigger] m.contains_key(y) && nearer(right, key, y) implies beyond(right, p, y) by {
        if npre(p, y) { assert(nund(m, p, y)); }
        some_side(p, y);
        if beyond(!right, p, y) { beyond_nearer(!right, p, key, y); if right { nless_not_both(y, key); } else { nless_not_both(key, y); } }
    }
    if let Some(k) = o { beyond_nearer(right, p, key, k.0@); }
}
pub proof fn bound_leaf(m: KV, key: Seq<u8>, p: Seq<u8>, right: bool, k: KeyHash)
    requires kv_ok(m), key.len() == 32, leaf_near(m, p, k.0@, key), nearer(right, key, k.0@),
    ensures bound(m, key, right, Some(k)),
{
    assert forall|y: Seq<u8>| #[trigger] m.contains_key(y) && nearer(right, key, y) implies y == k.0@ || nearer(right, k.0@, y) by { if y != k.0@ { nless_total(y, k.0@); } }
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::search_closest_extreme_node props C14
//@attr verifier::loop_isolation(false)
//@rewrite? fn neighbor_nibble($a) -> Option<(Nibble, Version)> { $b } ==> 
//@spec
    requires to.wf(), has_tree(self.nodes(), version), chain(self.nodes(), tmap(self.nodes(), version), parents@, to.v()),
    ensures r matches Ok(o) ==> side_end(tmap(self.nodes(), version), to.v(), extreme is Right, o),
        self.reader.reliable() ==> r is Ok,
//@start
    let ghost w = self.nodes();
    let ghost m = tmap(w, version);
    let ghost p = to.v();
    let ghost ps = parents@;
    let ghost right = extreme is Right;
    proof { assert(holds(w, version, m)); beyond_start(m, right, p); }
//@loop 0
    invariant path.wf(), parents@.len() <= p.len(), path.v() =~= p.subrange(0, parents@.len() as int), parents@ =~= ps.subrange(0, parents@.len() as int),
        match neighbor { None => all_beyond(m, right, p, parents@.len() as int), Some(nb) => parents@.len() < p.len() && nearest(w, m, p, right, nb.1, p.subrange(0, parents@.len() as int).push(nb.0.v())) && nb.0.v() < 16 },
    decreases parents@.len(),
//@loopstart 0
    let ghost t0 = parents@.len() as int;
    proof { if t0 == 0 { assert forall|y: Seq<u8>| #[trigger] m.contains_key(y) implies !beyond(right, p, y) by { if beyond(right, p, y) { assert(beyond_lt(right, p, y, 0)); } } }
        else {
            let n = ps[t0 - 1];
            assert(node_on(w, m, p.subrange(0, t0 - 1), n));
            if best(right, n.cs(), p[t0 - 1], None) { beyond_up(w, m, p, t0 - 1, right, n); }
            assert forall|nb: Nibble, nv: u64| #[trigger] best(right, n.cs(), p[t0 - 1], Some((nb, nv))) implies nearest(w, m, p, right, nv, p.subrange(0, t0 - 1).push(nb.v())) by { beyond_found(w, m, p, t0 - 1, right, n, nb, nv); }
        } }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::search_for_closest_node props C14
//@attr verifier::loop_isolation(false)
//@rewrite? for $id_d in 0..=ROOT_NIBBLE_HEIGHT { ==> for $id_d in 0..ROOT_NIBBLE_HEIGHT + 1 {
//@rewrite? let mut internal_nodes = vec![]; ==> let mut internal_nodes: Vec<InternalNode> = Vec::new();
//@rewrite? search_nibbles.visited_nibbles().get_nibble_path() ==> rt_visited(&search_nibbles)
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(s) ==> self.nodes().contains_key(root_key(version)) && found(self.nodes(), tmap(self.nodes(), version), search_key.0@, s),
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) && !(self.nodes()[root_key(version)] is Null) ==> r is Ok,
//@start
    let ghost w = self.nodes();
    let ghost m = tmap(w, version);
    let ghost k = search_key.0@;
    proof { if w.contains_key(root_key(version)) { seek_root(w, version, m, k); assert(nibs_of(k).subrange(0, 0) =~= Seq::<u8>::empty()); assert(holds(w, version, m)); } }
//@loop 0 it
    invariant search_nibbles.wf(), search_nibbles.nibble_path == search_path, search_path.v() =~= nibs_of(k), search_path.num_nibbles == 64, search_nibbles.start == 0, search_nibbles.pos.start == it.index@, search_nibbles.pos.end == 64,
        next_node_key.wf(), next_node_key.p().len() == it.index@, it.index@ <= 64,
        it.index@ == 0 ==> next_node_key.nk() == root_key(version),
        it.index@ > 0 ==> w.contains_key(root_key(version)) && w.contains_key(next_node_key.nk()) && !(w[next_node_key.nk()] is Null),
        w.contains_key(root_key(version)) ==> seek(w, m, k, next_node_key.nk(), nibs_of(k).subrange(0, it.index@ as int)) && chain(w, m, internal_nodes@, nibs_of(k).subrange(0, it.index@ as int)),
//@loopstart 0
    let ghost nk0 = next_node_key.nk();
    let ghost p = nibs_of(k).subrange(0, it.index@ as int);
    let ghost ps0 = internal_nodes@;
    proof {
        if w.contains_key(root_key(version)) {
            if let Some(Node::Internal(n)) = at(w, nk0) {
                seek_step(w, m, k, nk0, p, n);
                assert(node_on(w, m, p, n));
                chain_push(w, m, ps0, p, n, nibn(k, it.index@ as int));
                assert(nibs_of(k).subrange(0, it.index@ + 1) =~= p.push(nibn(k, it.index@ as int)));
            }
            if let Some(Node::Leaf(l)) = at(w, nk0) { reveal(seek); key_lt_nibs(l.k(), k); key_lt_nibs(k, l.k()); }
            if it.index@ == 64 { seek_full(w, m, k, nk0, p); }
        }
    }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_bounding_path props C14
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(x) ==> self.nodes().contains_key(root_key(version)) && bound(tmap(self.nodes(), version), search_key.0@, false, x.0) && bound(tmap(self.nodes(), version), search_key.0@, true, x.1)
            && !tmap(self.nodes(), version).contains_key(search_key.0@),
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) && !(self.nodes()[root_key(version)] is Null) && !tmap(self.nodes(), version).contains_key(search_key.0@) ==> r is Ok,
//@start
    let ghost w = self.nodes();
    let ghost m = tmap(w, version);
    let ghost k = search_key.0@;
//@after let search_result = $x
    proof { bounds_from(w, m, k, search_result); }
//@end
}
pub proof fn bounds_from(w: W, m: KV, key: Seq<u8>, s: SearchResult)
    requires kv_ok(m), key.len() == 32, found(w, m, key, s),
    ensures match s {
            SearchResult::FoundLeaf { ordering, leaf_hash, path_to_leaf, parents } =>
                (ordering is Less ==> bound(m, key, false, Some(leaf_hash)) && !m.contains_key(key) && forall|o: Option<KeyHash>| #[trigger] side_end(m, path_to_leaf.v(), true, o) ==> bound(m, key, true, o))
                && (ordering is Greater ==> bound(m, key, true, Some(leaf_hash)) && !m.contains_key(key) && forall|o: Option<KeyHash>| #[trigger] side_end(m, path_to_leaf.v(), false, o) ==> bound(m, key, false, o))
                && (ordering is Equal ==> m.contains_key(key)),
            SearchResult::FoundInternal { path_to_internal, parents } => !m.contains_key(key) && forall|o: Option<KeyHash>, right: bool| #[trigger] side_end(m, path_to_internal.v(), right, o) ==> bound(m, key, right, o),
        },
{
    match s {
        SearchResult::FoundLeaf { ordering, leaf_hash, path_to_leaf, parents } => {
            let p = path_to_leaf.v();
            let l = leaf_hash.0@;
            if m.contains_key(key) { assert(nund(m, p, key)); }
            if ordering is Less { nless_not_both(l, key); bound_leaf(m, key, p, false, leaf_hash);
                assert forall|o: Option<KeyHash>| #[trigger] side_end(m, p, true, o) implies bound(m, key, true, o) by { bound_path(m, key, p, true, o); } }
            if ordering is Greater { nless_not_both(key, l); bound_leaf(m, key, p, true, leaf_hash);
                assert forall|o: Option<KeyHash>| #[trigger] side_end(m, p, false, o) implies bound(m, key, false, o) by { bound_path(m, key, p, false, o); } }
        }
        SearchResult::FoundInternal { path_to_internal, parents } => {
            let p = path_to_internal.v();
            if m.contains_key(key) { assert(nund(m, p, key)); }
            assert forall|o: Option<KeyHash>, right: bool| #[trigger] side_end(m, p, right, o) implies bound(m, key, right, o) by { bound_path(m, key, p, right, o); }
        }
    }
}
pub proof fn chain_push(w: W, m: KV, ps: Seq<InternalNode>, p: Seq<u8>, n: InternalNode, x: u8)
    requires chain(w, m, ps, p), node_on(w, m, p, n), x < 16, p.len() < 64,
    ensures chain(w, m, ps.push(n), p.push(x)),
{
    let q = p.push(x);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < 16 by { if i < p.len() { assert(q[i] == p[i]); } }
    assert forall|i: int| 0 <= i < ps.push(n).len() implies node_on(w, m, q.subrange(0, i), #[trigger] ps.push(n)[i]) by {
        if i < ps.len() { assert(q.subrange(0, i) =~= p.subrange(0, i)); assert(ps.push(n)[i] == ps[i]); } else { assert(q.subrange(0, i) =~= p); }
    }
}
pub proof fn seek_full(w: W, m: KV, key: Seq<u8>, nk: NK, p: Seq<u8>)
    requires seek(w, m, key, nk, p), p.len() == 64,
    ensures !(w[nk] is Internal),
{ reveal(seek); if w[nk] is Internal { rep_internal(w, nk.0, nk.1, m); } }
pub fn rt_visited(it: &NibbleIterator) -> (r: NibblePath)
    requires it.wf(),
    ensures r.wf(), r.v() == it.seen(),
{ it.visited_nibbles().get_nibble_path() }
// a proof of the key's presence
pub open spec fn shows<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, k: Seq<u8>) -> bool {
    true_proof(pf, m, k) && m.contains_key(k) && (pf.leaf matches Some(l) && l.k() == k && l.v() == m[k])
}
pub open spec fn shows_bound<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, key: Seq<u8>, right: bool) -> bool { exists|k: KeyHash| #[trigger] bound(m, key, right, Some(k)) && shows(pf, m, k.0@) }
pub open spec fn excludes<H: SimpleHasher>(e: ExclusionProof<H>, m: KV, key: Seq<u8>) -> bool {
    !m.contains_key(key) && match e {
        ExclusionProof::Leftmost { leftmost_right_proof } => bound(m, key, false, None) && shows_bound(leftmost_right_proof, m, key, true),
        ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => shows_bound(leftmost_right_proof, m, key, true) && shows_bound(rightmost_left_proof, m, key, false),
        ExclusionProof::Rightmost { rightmost_left_proof } => shows_bound(rightmost_left_proof, m, key, false) && bound(m, key, true, None),
    }
}
pub proof fn no_bounds(w: W, v: u64, m: KV, key: Seq<u8>)
    requires holds(w, v, m), !(w[root_key(v)] is Null), key.len() == 32, !m.contains_key(key),
    ensures !(bound(m, key, false, None) && bound(m, key, true, None)),
{
    rep_some(w, v, Seq::empty(), m);
    let y = choose|y: Seq<u8>| #[trigger] nund(m, Seq::empty(), y);
    assert(m.contains_key(y));
    nless_total(y, key);
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_with_exclusion_proof props C14
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(x) ==> self.nodes().contains_key(root_key(version)) && match x {
                Ok(y) => Some(y.0@) == self.reader.val(version, key.0@) && y.1.accepts(self.nodes()[root_key(version)].hsh(), key.0@, Some(y.0@)) && shows(y.1, tmap(self.nodes(), version), key.0@),
                Err(e) => excludes(e, tmap(self.nodes(), version), key.0@),
            },
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) && !(self.nodes()[root_key(version)] is Null) ==> r is Ok,
//@start
    let ghost w = self.nodes();
    let ghost m = tmap(w, version);
    let ghost k = key.0@;
    proof { if w.contains_key(root_key(version)) { assert(holds(w, version, m));
        if !(w[root_key(version)] is Null) && !m.contains_key(k) { no_bounds(w, version, m, k); }
        assert forall|pf: SparseMerkleProof<H>, x: Seq<u8>| #[trigger] true_proof(pf, m, x) && m.contains_key(x) implies shows(pf, m, x) by { true_leaf(&pf, m, x); } } }
//@end
}
} // verus!
