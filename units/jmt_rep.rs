// what the nodes of a versioned tree say: the map they hold, its root and its size
verus! {
pub type NK = (u64, Seq<u8>);
pub type W = Map<NK, Node>;
// keys below a nibble prefix
pub open spec fn npre(p: Seq<u8>, k: Seq<u8>) -> bool { forall|i: int| 0 <= i < p.len() ==> nibn(k, i) == #[trigger] p[i] }
pub open spec fn nund(m: KV, p: Seq<u8>, k: Seq<u8>) -> bool { m.contains_key(k) && npre(p, k) }
pub open spec fn nnone(m: KV, p: Seq<u8>) -> bool { forall|k: Seq<u8>| !#[trigger] nund(m, p, k) }
pub open spec fn nonly(m: KV, p: Seq<u8>, k: Seq<u8>) -> bool { nund(m, p, k) && forall|x: Seq<u8>| #[trigger] nund(m, p, x) ==> x == k }
pub open spec fn nset(m: KV, p: Seq<u8>) -> Set<Seq<u8>> { m.dom().filter(|k: Seq<u8>| npre(p, k)) }
// versions in the order of the transactions (the pre-genesis version comes first)
pub open spec fn vo(v: u64) -> int { if v == u64::MAX { -1 } else { v as int } }
// the entry a parent keeps about a child
pub open spec fn child_ok(c: Child, n: Node, v: u64) -> bool {
    &&& !(n is Null)
    &&& c.hash@ == n.hsh()
    &&& (c.node_type is Leaf <==> n is Leaf)
    &&& lcount(c) is Some && lcount(c) == n.lc()
    &&& vo(c.version) <= vo(v)
}
// the node stored at version v and path p holds exactly the pairs of m whose keys begin with p
pub open spec fn rep(w: W, v: u64, p: Seq<u8>, m: KV) -> bool
    decreases 64 - p.len(),
{
    w.contains_key((v, p)) && match w[(v, p)] {
        Node::Null => p.len() == 0 && nnone(m, p),
        Node::Leaf(l) => nonly(m, p, l.k()) && m[l.k()] == l.v(),
        Node::Internal(n) => p.len() < 64 && n.wf() && forall|i: int| 0 <= i < 16 ==> match #[trigger] n.cs()[i] {
            None => nnone(m, p.push(i as u8)),
            Some(c) => rep(w, c.version, p.push(i as u8), m) && child_ok(c, w[(c.version, p.push(i as u8))], v),
        },
    }
}
pub open spec fn crep(w: W, v: u64, p: Seq<u8>, m: KV, o: Option<Child>, i: int) -> bool {
    match o {
        None => nnone(m, p.push(i as u8)),
        Some(c) => rep(w, c.version, p.push(i as u8), m) && child_ok(c, w[(c.version, p.push(i as u8))], v),
    }
}
pub proof fn rep_internal(w: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(w, v, p, m), w[(v, p)] is Internal,
    ensures forall|i: int| 0 <= i < 16 ==> crep(w, v, p, m, #[trigger] w[(v, p)]->Internal_0.cs()[i], i),
        w[(v, p)]->Internal_0.cs().len() == 16, w[(v, p)]->Internal_0.wf(), p.len() < 64,
{ }
pub proof fn rep_from(w: W, v: u64, p: Seq<u8>, m: KV, n: InternalNode)
    requires w.contains_key((v, p)), w[(v, p)] == Node::Internal(n), p.len() < 64, n.wf(),
        forall|i: int| 0 <= i < 16 ==> crep(w, v, p, m, #[trigger] n.cs()[i], i),
    ensures rep(w, v, p, m),
{
    assert forall|i: int| 0 <= i < 16 implies match #[trigger] n.cs()[i] {
            None => nnone(m, p.push(i as u8)),
            Some(c) => rep(w, c.version, p.push(i as u8), m) && child_ok(c, w[(c.version, p.push(i as u8))], v),
        } by { assert(crep(w, v, p, m, n.cs()[i], i)); }
}
pub proof fn npre_push(p: Seq<u8>, x: u8, k: Seq<u8>)
    ensures npre(p.push(x), k) <==> (npre(p, k) && nibn(k, p.len() as int) == x),
{
    if npre(p.push(x), k) {
        assert forall|i: int| 0 <= i < p.len() implies nibn(k, i) == #[trigger] p[i] by { assert(p.push(x)[i] == p[i]); }
        assert(p.push(x)[p.len() as int] == x);
    }
}
// two different keys below p
pub open spec fn two(m: KV, p: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool { a != b && nund(m, p, a) && nund(m, p, b) }
pub open spec fn many(m: KV, p: Seq<u8>) -> bool { exists|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p, a, b) }
pub proof fn many_not_one(m: KV, p: Seq<u8>)
    requires many(m, p),
    ensures !nnone(m, p), forall|k: Seq<u8>| !#[trigger] nonly(m, p, k),
{
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p, a, b);
    assert(nund(m, p, a) && nund(m, p, b));
}
pub proof fn rep_some(w: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(w, v, p, m), !(w[(v, p)] is Null),
    ensures !nnone(m, p), w[(v, p)] is Internal ==> many(m, p),
    decreases 64 - p.len(),
{
    match w[(v, p)] {
        Node::Null => { }
        Node::Leaf(l) => { assert(nund(m, p, l.k())); }
        Node::Internal(n) => {
            rep_internal(w, v, p, m);
            let cs = n.cs();
            let i = choose|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some;
            assert(crep(w, v, p, m, cs[i], i));
            let c = cs[i]->0;
            let pi = p.push(i as u8);
            rep_some(w, c.version, pi, m);
            let a = choose|k: Seq<u8>| #[trigger] nund(m, pi, k);
            npre_push(p, i as u8, a);
            if c.node_type is Leaf {
                assert(!sole_leaf(cs, 0, 16, i));
                let j = choose|j: int| 0 <= j < 16 && j != i && (#[trigger] cs[j]) is Some;
                assert(crep(w, v, p, m, cs[j], j));
                let pj = p.push(j as u8);
                rep_some(w, cs[j]->0.version, pj, m);
                let b = choose|k: Seq<u8>| #[trigger] nund(m, pj, k);
                npre_push(p, j as u8, b);
                assert(two(m, p, a, b));
            } else {
                let (x, y) = choose|x: Seq<u8>, y: Seq<u8>| #[trigger] two(m, pi, x, y);
                npre_push(p, i as u8, x);
                npre_push(p, i as u8, y);
                assert(two(m, p, x, y));
            }
        }
    }
}
// ---------------------------------------------------------------- paths as bits
pub open spec fn nibs16(p: Seq<u8>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < 16 }
// the bits of p, then the first 4 - h bits of the nibble s
pub open spec fn pbits(p: Seq<u8>, s: int, h: int) -> Seq<bool> { Seq::new((4 * p.len() + (4 - h)) as nat, |i: int| if i < 4 * p.len() { nb(p[i / 4], i % 4) } else { nb(s as u8, i - 4 * p.len()) }) }
pub open spec fn pb(p: Seq<u8>) -> Seq<bool> { Seq::new((4 * p.len()) as nat, |i: int| nb(p[i / 4], i % 4)) }
pub proof fn nb_range(x: u8, s: u8, h: int)
    requires x < 16, s < 16, 0 <= h <= 4, s as int % w_of(h) == 0,
    ensures (forall|j: int| 0 <= j < 4 - h ==> #[trigger] nb(x, j) == nb(s, j)) <==> s <= x < s + w_of(h),
{
    reveal_with_fuel(p2, 5);
    assert(p2(3) == 8 && p2(2) == 4 && p2(1) == 2 && p2(0) == 1);
    assert forall|y: u8| y < 16 implies #[trigger] nb(y, 0) == ((y / 8) % 2 == 1) && nb(y, 1) == ((y / 4) % 2 == 1) && nb(y, 2) == ((y / 2) % 2 == 1) && nb(y, 3) == (y % 2 == 1) by { }
    assert(nb(x, 0) == ((x / 8) % 2 == 1) && nb(x, 1) == ((x / 4) % 2 == 1) && nb(x, 2) == ((x / 2) % 2 == 1) && nb(x, 3) == (x % 2 == 1));
    assert(nb(s, 0) == ((s / 8) % 2 == 1) && nb(s, 1) == ((s / 4) % 2 == 1) && nb(s, 2) == ((s / 2) % 2 == 1) && nb(s, 3) == (s % 2 == 1));
    let all = forall|j: int| 0 <= j < 4 - h ==> #[trigger] nb(x, j) == nb(s, j);
    if h == 0 {
        assert(((x / 8) % 2 == (s / 8) % 2 && (x / 4) % 2 == (s / 4) % 2 && (x / 2) % 2 == (s / 2) % 2 && x % 2 == s % 2) <==> x == s) by (bit_vector) requires x < 16, s < 16;
        assert(all <==> nb(x, 0) == nb(s, 0) && nb(x, 1) == nb(s, 1) && nb(x, 2) == nb(s, 2) && nb(x, 3) == nb(s, 3));
    } else if h == 1 {
        assert(((x / 8) % 2 == (s / 8) % 2 && (x / 4) % 2 == (s / 4) % 2 && (x / 2) % 2 == (s / 2) % 2) <==> (s <= x && x < s + 2)) by (bit_vector) requires x < 16, s < 16, s % 2 == 0;
        assert(all <==> nb(x, 0) == nb(s, 0) && nb(x, 1) == nb(s, 1) && nb(x, 2) == nb(s, 2));
    } else if h == 2 {
        assert(((x / 8) % 2 == (s / 8) % 2 && (x / 4) % 2 == (s / 4) % 2) <==> (s <= x && x < s + 4)) by (bit_vector) requires x < 16, s < 16, s % 4 == 0;
        assert(all <==> nb(x, 0) == nb(s, 0) && nb(x, 1) == nb(s, 1));
    } else if h == 3 {
        assert(((x / 8) % 2 == (s / 8) % 2) <==> (s <= x && x < s + 8)) by (bit_vector) requires x < 16, s < 16, s % 8 == 0;
        assert(all <==> nb(x, 0) == nb(s, 0));
    } else {
        assert(s == 0);
    }
}
// a key's nibble and its bits
pub proof fn nib_eq_bits(k: Seq<u8>, i: int, x: u8)
    requires 0 <= i < 2 * k.len(), x < 16,
    ensures nibn(k, i) == x <==> (bitn(k, 4 * i) == nb(x, 0) && bitn(k, 4 * i + 1) == nb(x, 1) && bitn(k, 4 * i + 2) == nb(x, 2) && bitn(k, 4 * i + 3) == nb(x, 3)),
{
    nib_bits(k, i);
    nib16(k, i);
    nb_range(nibn(k, i), x, 0);
    assert(nb(nibn(k, i), 0) == bitn(k, 4 * i + 0) && nb(nibn(k, i), 1) == bitn(k, 4 * i + 1) && nb(nibn(k, i), 2) == bitn(k, 4 * i + 2) && nb(nibn(k, i), 3) == bitn(k, 4 * i + 3));
}
pub proof fn pb_pre(p: Seq<u8>, k: Seq<u8>)
    requires nibs16(p), p.len() <= 64, k.len() == 32,
    ensures pre(pb(p), k) <==> npre(p, k),
{
    if npre(p, k) {
        assert forall|i: int| 0 <= i < pb(p).len() implies #[trigger] bitn(k, i) == pb(p)[i] by {
            let d = i / 4;
            assert(nibn(k, d) == p[d]);
            nib_bits(k, d);
            assert(nb(nibn(k, d), i % 4) == bitn(k, 4 * d + i % 4));
        }
    }
    if pre(pb(p), k) {
        assert forall|i: int| 0 <= i < p.len() implies nibn(k, i) == #[trigger] p[i] by {
            assert(bitn(k, 4 * i) == pb(p)[4 * i] && bitn(k, 4 * i + 1) == pb(p)[4 * i + 1] && bitn(k, 4 * i + 2) == pb(p)[4 * i + 2] && bitn(k, 4 * i + 3) == pb(p)[4 * i + 3]);
            nib_eq_bits(k, i, p[i]);
        }
    }
}
pub proof fn pbits_pre(p: Seq<u8>, s: int, h: int, k: Seq<u8>)
    requires nibs16(p), p.len() < 64, k.len() == 32, 0 <= h <= 4, 0 <= s < 16, s % w_of(h) == 0,
    ensures pre(pbits(p, s, h), k) <==> (npre(p, k) && s <= nibn(k, p.len() as int) < s + w_of(h)),
{
    let d = p.len() as int;
    let q = pbits(p, s, h);
    let x = nibn(k, d);
    pb_pre(p, k);
    nib16(k, d);
    nib_bits(k, d);
    nb_range(x, s as u8, h);
    assert(forall|j: int| 0 <= j < 4 ==> #[trigger] nb(x, j) == bitn(k, 4 * d + j));
    if pre(q, k) {
        assert forall|i: int| 0 <= i < pb(p).len() implies #[trigger] bitn(k, i) == pb(p)[i] by { assert(q[i] == pb(p)[i]); }
        assert forall|j: int| 0 <= j < 4 - h implies #[trigger] nb(x, j) == nb(s as u8, j) by { assert(bitn(k, 4 * d + j) == q[4 * d + j]); }
    }
    if npre(p, k) && s <= x < s + w_of(h) {
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] bitn(k, i) == q[i] by {
            if i < 4 * d { assert(bitn(k, i) == pb(p)[i]); } else { assert(nb(x, i - 4 * d) == bitn(k, 4 * d + (i - 4 * d))); }
        }
    }
}
pub proof fn pbits_ends(p: Seq<u8>, s: int, h: int)
    requires 0 <= s < 16, 0 <= h <= 4, s % w_of(h) == 0,
    ensures h == 4 ==> pbits(p, s, h) =~= pb(p),
        h == 0 ==> pbits(p, s, h) =~= pb(p.push(s as u8)),
        h > 0 ==> s % w_of(h - 1) == 0 && (s + w_of(h - 1)) % w_of(h - 1) == 0 && s + w_of(h - 1) < 16
            && pbits(p, s, h - 1) =~= pbits(p, s, h).push(false) && pbits(p, s + w_of(h - 1), h - 1) =~= pbits(p, s, h).push(true),
{
    reveal_with_fuel(p2, 5);
    assert(p2(3) == 8 && p2(2) == 4 && p2(1) == 2 && p2(0) == 1);
    if h == 0 {
        assert(pbits(p, s, h).len() == pb(p.push(s as u8)).len());
        assert forall|i: int| 0 <= i < pbits(p, s, h).len() implies pbits(p, s, h)[i] == pb(p.push(s as u8))[i] by { if i < 4 * p.len() { assert(p.push(s as u8)[i / 4] == p[i / 4]); } else { assert(i / 4 == p.len()); } }
    } else {
        let w = w_of(h - 1);
        let t = 4 - h;
        let d = 4 * p.len();
        assert(s % w == 0 && (s + w) % w == 0 && s + w < 16);
        assert(w == p2(3 - t));
        if h == 1 { assert(w == 1 && s % 2 == 0); assert((s / 1) % 2 == 0 && ((s + 1) / 1) % 2 == 1); }
        else if h == 2 { assert(w == 2 && s % 4 == 0); assert((s / 2) % 2 == 0 && ((s + 2) / 2) % 2 == 1); }
        else if h == 3 { assert(w == 4 && s % 8 == 0); assert((s / 4) % 2 == 0 && ((s + 4) / 4) % 2 == 1); }
        else { assert(w == 8 && s == 0); }
        assert((s / w) % 2 == 0 && ((s + w) / w) % 2 == 1);
        assert(!nb(s as u8, t) && nb((s + w) as u8, t));
        nb_range((s + w) as u8, s as u8, h);
        assert forall|i: int| 0 <= i < d + t implies pbits(p, s + w, h - 1)[i] == pbits(p, s, h)[i] by { if i >= d { assert(nb((s + w) as u8, i - d) == nb(s as u8, i - d)); } }
    }
}
// C10/C11: the hash of a node that holds the pairs below p is the sparse Merkle root of those pairs
// more than one key below a bit prefix
pub open spec fn forked(m: KV, q: Seq<bool>) -> bool { !none(m, q) && forall|k: Seq<u8>| !only(m, q, k) }
pub proof fn ntree_smt(w: W, v: u64, p: Seq<u8>, m: KV, n: InternalNode, s: int, h: int)
    requires kv_ok(m), nibs16(p), rep(w, v, p, m), w[(v, p)] == Node::Internal(n), 0 <= h <= 4, 0 <= s < 16, s % w_of(h) == 0,
        forall|i: int| 0 <= i < 16 && (#[trigger] n.cs()[i]) is Some ==> n.cs()[i]->0.hash@ == smt(m, pb(p.push(i as u8))),
    ensures ntree(n.cs(), s, w_of(h)) == smt(m, pbits(p, s, h)), h > 0 && !vacant(n.cs(), s, w_of(h)) && !lone(n.cs(), s, w_of(h)) ==> forked(m, pbits(p, s, h)),
    decreases h,
{
    let cs = n.cs();
    let q = pbits(p, s, h);
    let d = p.len() as int;
    rep_internal(w, v, p, m);
    assert(s + w_of(h) <= 16) by { if h == 0 { } else if h == 1 { assert(s % 2 == 0); } else if h == 2 { assert(s % 4 == 0); } else if h == 3 { assert(s % 8 == 0); } else { assert(s % 16 == 0); } }
    assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] under(m, q, k) <==> (npre(p, k) && s <= nibn(k, d) < s + w_of(h))) by { pbits_pre(p, s, h, k); }
    // a child that is there has a key below it
    assert forall|i: int| s <= i < s + w_of(h) && (#[trigger] cs[i]) is Some implies (exists|k: Seq<u8>| #[trigger] under(m, q, k) && nibn(k, d) == i) by {
        assert(crep(w, v, p, m, cs[i], i));
        rep_some(w, cs[i]->0.version, p.push(i as u8), m);
        let k = choose|k: Seq<u8>| #[trigger] nund(m, p.push(i as u8), k);
        npre_push(p, i as u8, k);
        assert(under(m, q, k));
    }
    // and a key has its child
    assert forall|k: Seq<u8>| #[trigger] under(m, q, k) implies cs[nibn(k, d) as int] is Some by {
        let i = nibn(k, d) as int;
        assert(crep(w, v, p, m, cs[i], i));
        npre_push(p, i as u8, k);
        if cs[i] is None { assert(nund(m, p.push(i as u8), k)); }
    }
    pbits_ends(p, s, h);
    if vacant(cs, s, w_of(h)) {
        assert(none(m, q));
    } else if h == 0 {
        assert(cs[s] is Some);
    } else {
        let i0 = choose|i: int| s <= i < s + w_of(h) && (#[trigger] cs[i]) is Some;
        let k0 = choose|k: Seq<u8>| #[trigger] under(m, q, k) && nibn(k, d) == i0;
        assert(under(m, q, k0));
        if lone(cs, s, w_of(h)) {
            let j = choose|k: int| sole_leaf(cs, s, w_of(h), k);
            assert(sole(cs, s, w_of(h), j));
            assert(crep(w, v, p, m, cs[j], j));
            let c = cs[j]->0;
            let lf = w[(c.version, p.push(j as u8))]->Leaf_0;
            assert(nonly(m, p.push(j as u8), lf.k()));
            assert forall|x: Seq<u8>| #[trigger] under(m, q, x) implies x == lf.k() by { assert(nibn(x, d) == j); npre_push(p, j as u8, x); assert(nund(m, p.push(j as u8), x)); }
            assert(only(m, q, lf.k()));
            let y = choose|k: Seq<u8>| only(m, q, k);
            assert(under(m, q, y));
            assert(nund(m, p.push(j as u8), lf.k()));
            assert(c.hash@ == lh(lf.k(), lf.v()));
        } else {
            // at least two keys
            assert forall|x: Seq<u8>| !only(m, q, x) by {
                if only(m, q, x) {
                    assert(x == k0);
                    assert(!sole_leaf(cs, s, w_of(h), i0));
                    if sole(cs, s, w_of(h), i0) {
                        assert(crep(w, v, p, m, cs[i0], i0));
                        let c = cs[i0]->0;
                        rep_some(w, c.version, p.push(i0 as u8), m);
                        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p.push(i0 as u8), a, b);
                        npre_push(p, i0 as u8, a);
                        npre_push(p, i0 as u8, b);
                        assert(under(m, q, a) && under(m, q, b));
                    } else {
                        let j = choose|j: int| s <= j < s + w_of(h) && j != i0 && (#[trigger] cs[j]) is Some;
                        let y = choose|k: Seq<u8>| #[trigger] under(m, q, k) && nibn(k, d) == j;
                        assert(under(m, q, y));
                    }
                }
            }
            ntree_smt(w, v, p, m, n, s, h - 1);
            ntree_smt(w, v, p, m, n, s + w_of(h - 1), h - 1);
            assert(w_of(h) / 2 == w_of(h - 1) && w_of(h) > 1);
            assert(q.len() < 256);
        }
    }
}
pub proof fn rep_smt(w: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(w, v, p, m), kv_ok(m), nibs16(p), p.len() <= 64,
    ensures w[(v, p)].hsh() == smt(m, pb(p)),
    decreases 64 - p.len(),
{
    let q = pb(p);
    assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] under(m, q, k) <==> nund(m, p, k)) by { pb_pre(p, k); }
    match w[(v, p)] {
        Node::Null => { assert forall|k: Seq<u8>| !#[trigger] under(m, q, k) by { assert(!nund(m, p, k)); } }
        Node::Leaf(l) => {
            assert(nund(m, p, l.k()));
            assert forall|x: Seq<u8>| #[trigger] under(m, q, x) implies x == l.k() by { assert(nund(m, p, x)); }
            assert(only(m, q, l.k()));
            let y = choose|k: Seq<u8>| only(m, q, k);
            assert(under(m, q, y));
        }
        Node::Internal(n) => {
            rep_internal(w, v, p, m);
            assert forall|i: int| 0 <= i < 16 && (#[trigger] n.cs()[i]) is Some implies n.cs()[i]->0.hash@ == smt(m, pb(p.push(i as u8))) by {
                assert(crep(w, v, p, m, n.cs()[i], i));
                rep_smt(w, n.cs()[i]->0.version, p.push(i as u8), m);
            }
            ntree_smt(w, v, p, m, n, 0, 4);
            pbits_ends(p, 0, 4);
        }
    }
}
// C21: the leaf count of a node is the number of its keys
pub open spec fn below(m: KV, p: Seq<u8>, n: int) -> Set<Seq<u8>> { m.dom().filter(|k: Seq<u8>| npre(p, k) && nibn(k, p.len() as int) < n) }
pub proof fn lsum_count(w: W, v: u64, p: Seq<u8>, m: KV, n: InternalNode, i: int)
    requires rep(w, v, p, m), kv_ok(m), w[(v, p)] == Node::Internal(n), 0 <= i <= 16,
        forall|j: int| 0 <= j < 16 && (#[trigger] n.cs()[j]) is Some ==> lcount(n.cs()[j]->0) == Some(nset(m, p.push(j as u8)).len() as int),
    ensures lsum(n.cs(), i) == Some(below(m, p, i).len() as int),
    decreases i,
{
    rep_internal(w, v, p, m);
    if i == 0 {
        assert(below(m, p, 0) =~= Set::empty());
    } else {
        lsum_count(w, v, p, m, n, i - 1);
        assert(crep(w, v, p, m, n.cs()[i - 1], i - 1));
        let a = below(m, p, i - 1);
        let b = nset(m, p.push((i - 1) as u8));
        assert forall|k: Seq<u8>| #[trigger] below(m, p, i).contains(k) <==> a.union(b).contains(k) by { npre_push(p, (i - 1) as u8, k); }
        assert(below(m, p, i) =~= a.union(b));
        assert(a.disjoint(b)) by { assert forall|k: Seq<u8>| !(a.contains(k) && b.contains(k)) by { npre_push(p, (i - 1) as u8, k); } }
        vstd::set_lib::lemma_set_disjoint_lens(a, b);
        if n.cs()[i - 1] is None { assert(b =~= Set::empty()) by { assert forall|k: Seq<u8>| !b.contains(k) by { assert(!nund(m, p.push((i - 1) as u8), k)); } } }
    }
}
// the children of a node to be: their leaf counts add up to the number of keys below
pub proof fn kids_count(w: W, v: u64, p: Seq<u8>, m: KV, cs: Cs, i: int)
    requires kv_ok(m), cs.len() == 16, p.len() < 64, 0 <= i <= 16, forall|j: int| 0 <= j < 16 ==> crep(w, v, p, m, #[trigger] cs[j], j),
    ensures lsum(cs, i) == Some(below(m, p, i).len() as int), lknown(cs, i) == below(m, p, i).len(),
    decreases i,
{
    if i == 0 {
        assert(below(m, p, 0) =~= Set::empty());
    } else {
        kids_count(w, v, p, m, cs, i - 1);
        assert(crep(w, v, p, m, cs[i - 1], i - 1));
        let a = below(m, p, i - 1);
        let b = nset(m, p.push((i - 1) as u8));
        assert forall|k: Seq<u8>| #[trigger] below(m, p, i).contains(k) <==> a.union(b).contains(k) by { npre_push(p, (i - 1) as u8, k); }
        assert(below(m, p, i) =~= a.union(b));
        assert(a.disjoint(b)) by { assert forall|k: Seq<u8>| !(a.contains(k) && b.contains(k)) by { npre_push(p, (i - 1) as u8, k); } }
        vstd::set_lib::lemma_set_disjoint_lens(a, b);
        if cs[i - 1] is None { assert(b =~= Set::empty()) by { assert forall|k: Seq<u8>| !b.contains(k) by { assert(!nund(m, p.push((i - 1) as u8), k)); } } }
        else { rep_count(w, cs[i - 1]->0.version, p.push((i - 1) as u8), m); }
    }
}
pub proof fn rep_count(w: W, v: u64, p: Seq<u8>, m: KV)
    requires rep(w, v, p, m), kv_ok(m), p.len() <= 64,
    ensures w[(v, p)].lc() == Some(nset(m, p).len() as int),
    decreases 64 - p.len(),
{
    match w[(v, p)] {
        Node::Null => { assert(nset(m, p) =~= Set::empty()) by { assert forall|k: Seq<u8>| !nset(m, p).contains(k) by { assert(!nund(m, p, k)); } } }
        Node::Leaf(l) => {
            assert(nund(m, p, l.k()));
            assert(nset(m, p) =~= set![l.k()]) by { assert forall|k: Seq<u8>| nset(m, p).contains(k) implies k == l.k() by { assert(nund(m, p, k)); } }
        }
        Node::Internal(n) => {
            rep_internal(w, v, p, m);
            assert forall|j: int| 0 <= j < 16 && (#[trigger] n.cs()[j]) is Some implies lcount(n.cs()[j]->0) == Some(nset(m, p.push(j as u8)).len() as int) by {
                assert(crep(w, v, p, m, n.cs()[j], j));
                rep_count(w, n.cs()[j]->0.version, p.push(j as u8), m);
            }
            lsum_count(w, v, p, m, n, 16);
            assert(below(m, p, 16) =~= nset(m, p)) by { assert forall|k: Seq<u8>| m.dom().contains(k) implies nibn(k, p.len() as int) < 16 by { nib16(k, p.len() as int); } }
        }
    }
}
pub proof fn nset_root(m: KV) ensures nset(m, Seq::empty()) =~= m.dom() { }
} // verus!
