// jmt/src/tree.rs: reading and proving (C09, C11, C21, C17)
//@common siblings.reverse() ==> rt_reverse(&mut siblings)
verus! {
#[verifier::external_body]
pub fn rt_reverse<T>(v: &mut Vec<T>)
    ensures final(v)@ =~= old(v)@.reverse(),
{ v.reverse() }
// ---------------------------------------------------------------- the siblings along a key
// s is the sibling of the key's path at bit depth j, and folding it gives the root one level up
pub open spec fn tstep(m: KV, key: Seq<u8>, j: int, s: Seq<u8>) -> bool {
    &&& s == smt(m, kbits(key, j).push(!bitn(key, j))) && forked(m, kbits(key, j))
    &&& smt(m, kbits(key, j)) == (if bitn(key, j) { ih(s, smt(m, kbits(key, j + 1))) } else { ih(smt(m, kbits(key, j + 1)), s) })
}
pub open spec fn tsteps(m: KV, key: Seq<u8>, t: Seq<[u8; 32]>) -> bool { forall|j: int| 0 <= j < t.len() ==> tstep(m, key, j, (#[trigger] t[j])@) }
pub proof fn tsteps_fold(m: KV, key: Seq<u8>, t: Seq<[u8; 32]>, j: int)
    requires tsteps(m, key, t), 0 <= j <= t.len(),
    ensures fold_at(t.reverse(), key, smt(m, kbits(key, t.len() as int)), j) == smt(m, kbits(key, j)),
    decreases t.len() - j,
{
    if j < t.len() {
        tsteps_fold(m, key, t, j + 1);
        assert(t.reverse()[t.len() - 1 - j] == t[j]);
        assert(tstep(m, key, j, t[j]@));
    }
}
pub proof fn depth_steps(cs: Cs, x: u8, h: int, i: int)
    requires cs.len() == 16, x < 16, 0 <= h <= 3, 0 <= i < depth(cs, x, h) - 1,
    ensures !vacant(cs, half(x, h - i), w_of(h - i)), !lone(cs, half(x, h - i), w_of(h - i)), h - i > 0,
    decreases h,
{ if i > 0 { depth_steps(cs, x, h - 1, i - 1); } }
pub proof fn depth_end(cs: Cs, x: u8, h: int)
    requires cs.len() == 16, x < 16, 0 <= h <= 3,
    ensures 1 <= depth(cs, x, h) <= h + 1, ({ let e = h + 1 - depth(cs, x, h); let s = half(x, e);
        match reach(cs, x, h) { None => vacant(cs, s, w_of(e)), Some(k) => (e == 0 && k == s && cs[k] is Some) || sole_leaf(cs, s, w_of(e), k) } }),
    decreases h,
{
    let s = half(x, h);
    if vacant(cs, s, w_of(h)) { } else if h <= 0 { } else if lone(cs, s, w_of(h)) { let k = choose|k: int| sole_leaf(cs, s, w_of(h), k); assert(sole_leaf(cs, s, w_of(h), k)); } else { depth_end(cs, x, h - 1); }
}
pub proof fn kbits_pbits(p: Seq<u8>, key: Seq<u8>, h: int)
    requires npre(p, key), key.len() == 32, p.len() < 64, 0 <= h <= 4,
    ensures kbits(key, 4 * p.len() + 4 - h) =~= pbits(p, half(nibn(key, p.len() as int), h), h), nibn(key, p.len() as int) < 16,
{
    let d = p.len() as int;
    let x = nibn(key, d);
    nib16(key, d);
    half_facts(x, h);
    nb_range(x, half(x, h) as u8, h);
    nib_bits(key, d);
    assert(forall|j: int| 0 <= j < 4 ==> #[trigger] nb(x, j) == bitn(key, 4 * d + j));
    let a = kbits(key, 4 * d + 4 - h);
    let b = pbits(p, half(x, h), h);
    assert forall|i: int| 0 <= i < 4 * d + 4 - h implies a[i] == b[i] by {
        if i < 4 * d {
            assert(nibn(key, i / 4) == p[i / 4]);
            nib_bits(key, i / 4);
            assert(nb(nibn(key, i / 4), i % 4) == bitn(key, 4 * (i / 4) + i % 4));
        } else {
            assert(nb(x, i - 4 * d) == bitn(key, 4 * d + (i - 4 * d)));
            assert(nb(x, i - 4 * d) == nb(half(x, h) as u8, i - 4 * d));
        }
    }
}
// what one internal node contributes
pub open spec fn kid_hashes(m: KV, p: Seq<u8>, cs: Cs) -> bool { forall|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some ==> cs[i]->0.hash@ == smt(m, pb(p.push(i as u8))) }
pub proof fn rep_kid_hashes(w: W, v: u64, p: Seq<u8>, m: KV)
    requires kv_ok(m), nibs16(p), rep(w, v, p, m), w[(v, p)] is Internal,
    ensures kid_hashes(m, p, w[(v, p)]->Internal_0.cs()),
{
    let n = w[(v, p)]->Internal_0;
    rep_internal(w, v, p, m);
    assert forall|i: int| 0 <= i < 16 && (#[trigger] n.cs()[i]) is Some implies n.cs()[i]->0.hash@ == smt(m, pb(p.push(i as u8))) by {
        assert(crep(w, v, p, m, n.cs()[i], i));
        rep_smt(w, n.cs()[i]->0.version, p.push(i as u8), m);
    }
}
pub proof fn node_step1(w: W, v: u64, p: Seq<u8>, m: KV, n: InternalNode, key: Seq<u8>, j: int)
    requires kv_ok(m), nibs16(p), rep(w, v, p, m), w[(v, p)] == Node::Internal(n), npre(p, key), key.len() == 32, p.len() < 64, n.wf(), nibn(key, p.len() as int) < 16,
        kid_hashes(m, p, n.cs()), 0 <= j < depth(n.cs(), nibn(key, p.len() as int), 3) <= 4,
    ensures tstep(m, key, 4 * p.len() + j, ntree(n.cs(), sib_half(nibn(key, p.len() as int), 3 - j), w_of(3 - j))),
{
    let d = p.len() as int;
    let x = nibn(key, d);
    let cs = n.cs();
    let h = 3 - j;
    half_facts(x, h);
    half_facts(x, h + 1);
    let s1 = half(x, h + 1);
    if j > 0 { depth_steps(cs, x, 3, j - 1); } else { assert(half(x, 4) == 0); }
    assert(!vacant(cs, s1, w_of(h + 1)) && !lone(cs, s1, w_of(h + 1)));
    kbits_pbits(p, key, h + 1);
    kbits_pbits(p, key, h);
    pbits_ends(p, s1, h + 1);
    ntree_smt(w, v, p, m, n, s1, h + 1);
    ntree_smt(w, v, p, m, n, half(x, h), h);
    ntree_smt(w, v, p, m, n, sib_half(x, h), h);
    nib_bits(key, d);
    assert(nb(x, j) == bitn(key, 4 * d + j));
    assert(w_of(h + 1) / 2 == w_of(h) && w_of(h + 1) > 1);
    let kb = kbits(key, 4 * d + j);
    kbits_push(key, 4 * d + j);
    assert(kbits(key, 4 * d + j + 1) =~= kb.push(bitn(key, 4 * d + j)));
    assert(pbits(p, s1, h + 1) =~= kb);
    assert(pbits(p, sib_half(x, h), h) =~= kb.push(!bitn(key, 4 * d + j)));
}
pub open spec fn step_end(w: W, p: Seq<u8>, m: KV, cs: Cs, key: Seq<u8>, o: Option<int>, kq: Seq<bool>) -> bool {
    match o {
        None => none(m, kq) && !m.contains_key(key),
        Some(k) => 0 <= k < 16 && cs[k] is Some && ({ let c = cs[k]->0; let q = p.push(k as u8); let nd = w[(c.version, q)];
            rep(w, c.version, q, m) && nibs16(q) && q.len() <= 64 && !(nd is Null)
            && ((k == nibn(key, p.len() as int) && npre(q, key)) || (nd is Leaf && !m.contains_key(key)))
            && (nd is Internal ==> kq.len() == 4 * q.len())
            && (nd matches Node::Leaf(l) ==> only(m, kq, l.k()) && m[l.k()] == l.v()) }),
    }
}
pub proof fn node_end(w: W, v: u64, p: Seq<u8>, m: KV, n: InternalNode, key: Seq<u8>)
    requires kv_ok(m), nibs16(p), rep(w, v, p, m), w[(v, p)] == Node::Internal(n), npre(p, key), key.len() == 32, p.len() < 64, n.wf(), nibn(key, p.len() as int) < 16,
        1 <= depth(n.cs(), nibn(key, p.len() as int), 3) <= 4,
    ensures step_end(w, p, m, n.cs(), key, reach(n.cs(), nibn(key, p.len() as int), 3), kbits(key, 4 * p.len() + depth(n.cs(), nibn(key, p.len() as int), 3))),
{
    let d = p.len() as int;
    let x = nibn(key, d);
    let cs = n.cs();
    let t = depth(cs, x, 3);
    rep_internal(w, v, p, m);
    depth_end(cs, x, 3);
    let kq = kbits(key, 4 * d + t);
    let e = 4 - t;
    let s = half(x, e);
    half_facts(x, e);
    kbits_pbits(p, key, e);
    npre_push(p, x, key);
    assert(crep(w, v, p, m, cs[x as int], x as int));
    c13_reach(cs, x, 3);
    if cs[x as int] is None && m.contains_key(key) { assert(nund(m, p.push(x), key)); }
    assert forall|y: Seq<u8>| #[trigger] under(m, kq, y) implies y.len() == 32 && s <= nibn(y, d) < s + w_of(e) && nibn(y, d) < 16 && nund(m, p.push(nibn(y, d)), y) && crep(w, v, p, m, cs[nibn(y, d) as int], nibn(y, d) as int) by {
        pbits_pre(p, s, e, y);
        npre_push(p, nibn(y, d), y);
        nib16(y, d);
        assert(crep(w, v, p, m, cs[nibn(y, d) as int], nibn(y, d) as int));
    }
    match reach(cs, x, 3) {
        None => {
            assert forall|k: Seq<u8>| !#[trigger] under(m, kq, k) by { if under(m, kq, k) { assert(cs[nibn(k, d) as int] is None); } }
        }
        Some(k) => {
            assert(crep(w, v, p, m, cs[k], k));
            let c = cs[k]->0;
            let q = p.push(k as u8);
            let nd = w[(c.version, q)];
            assert(e == 0 ==> w_of(e) == 1 && k == x);
            assert(child_ok(c, nd, v));
            assert(0 <= k < 16 && cs[k] is Some);
            assert(nibs16(q)) by { assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < 16 by { if i < d { assert(q[i] == p[i]); } } }
            if !(nd is Leaf) {
                assert(e == 0);
                assert(k == x);
                assert(npre(q, key));
                assert(kq.len() == 4 * q.len());
            }
            if nd is Leaf {
                let l = nd->Leaf_0;
                assert(nund(m, q, l.k()));
                npre_push(p, k as u8, l.k());
                pbits_pre(p, s, e, l.k());
                assert(under(m, kq, l.k()));
                assert(sole(cs, s, w_of(e), k));
                assert forall|y: Seq<u8>| #[trigger] under(m, kq, y) implies y == l.k() by {
                    if nibn(y, d) != k { assert(cs[nibn(y, d) as int] is None); }
                }
                assert(only(m, kq, l.k()) && m[l.k()] == l.v());
                if k == x { } else if m.contains_key(key) { assert(nund(m, p.push(x), key)); }
            }
        }
    }
}
pub proof fn steps_append(m: KV, key: Seq<u8>, a: Seq<[u8; 32]>, b: Seq<[u8; 32]>, sb: Seq<Seq<u8>>)
    requires tsteps(m, key, a), seqs(b) == sb, forall|j: int| 0 <= j < sb.len() ==> tstep(m, key, a.len() + j, #[trigger] sb[j]),
    ensures tsteps(m, key, a + b),
{
    assert(b.len() == sb.len()) by { assert(seqs(b).len() == b.len()); }
    assert forall|j: int| 0 <= j < (a + b).len() implies tstep(m, key, j, (#[trigger] (a + b)[j])@) by {
        if j < a.len() { assert((a + b)[j] == a[j]); } else { assert(seqs(b)[j - a.len()] == sb[j - a.len()]); assert(tstep(m, key, a.len() + (j - a.len()), sb[j - a.len()])); }
    }
}
// the proof a lookup returns: where it ends, and its siblings
pub open spec fn true_proof<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, key: Seq<u8>) -> bool {
    let n = pf.siblings@.len() as int;
    &&& n <= 256
    &&& tsteps(m, key, pf.siblings@.reverse())
    &&& match pf.leaf { None => none(m, kbits(key, n)), Some(l) => only(m, kbits(key, n), l.k()) && m[l.k()] == l.v() }
}
// C11: such a proof is accepted for the value of the key
pub proof fn c11_accepted<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, key: Seq<u8>, value: Option<Seq<u8>>)
    requires true_proof(pf, m, key), kv_ok(m), key.len() == 32, match value { Some(x) => m.contains_key(key) && m[key] == H::dig(x), None => !m.contains_key(key) },
    ensures pf.accepts(smt(m, Seq::empty()), key, value),
{
    let n = pf.siblings@.len() as int;
    let t = pf.siblings@.reverse();
    tsteps_fold(m, key, t, 0);
    assert(t.reverse() =~= pf.siblings@);
    assert(kbits(key, 0) =~= Seq::<bool>::empty());
    let q = kbits(key, n);
    kbits_push(key, n);
    assert(m.contains_key(key) ==> under(m, q, key));
    match pf.leaf {
        None => { assert(smt(m, q) == ph()); }
        Some(l) => {
            let y = choose|y: Seq<u8>| only(m, q, y);
            assert(only(m, q, l.k()));
            assert(under(m, q, y));
            assert(under(m, q, l.k()));
            assert(smt(m, q) == lh(l.k(), l.v()));
            assert forall|i: int| 0 <= i < n implies bits_of(key)[i] == bits_of(l.k())[i] by { assert(bitn(l.k(), i) == q[i]); }
        }
    }
}
pub open spec fn at_step_on(nk: NK, k: Seq<u8>, sb: Seq<[u8; 32]>) -> bool { npre(nk.1, k) }
#[verifier::opaque]
pub open spec fn at_step(w: W, m: KV, k: Seq<u8>, nk: NK, sb: Seq<[u8; 32]>) -> bool {
    &&& kv_ok(m) && k.len() == 32 && rep(w, nk.0, nk.1, m) && nibs16(nk.1) && sb.len() <= 256
    &&& tsteps(m, k, sb)
    &&& (at_step_on(nk, k, sb) || (w[nk] is Leaf && !m.contains_key(k)))
    &&& (w[nk] is Internal ==> sb.len() == 4 * nk.1.len())
    &&& w[nk] matches Node::Leaf(l) ==> only(m, kbits(k, sb.len() as int), l.k()) && m[l.k()] == l.v()
    &&& w[nk] is Null ==> none(m, kbits(k, sb.len() as int))
}
pub proof fn at_step_internal(w: W, m: KV, k: Seq<u8>, nk: NK, sb: Seq<[u8; 32]>, n: InternalNode)
    requires at_step(w, m, k, nk, sb), at(w, nk) == Some(Node::Internal(n)),
    ensures at_step_on(nk, k, sb), nk.1.len() < 64, nibn(k, nk.1.len() as int) < 16, n.wf(), ({ let x = nibn(k, nk.1.len() as int); let t = depth(n.cs(), x, 3);
        &&& forall|b: Seq<[u8; 32]>| seqs(b) == sibs_at(n.cs(), x, t) ==> step_next(w, m, k, nk, n.cs(), x, #[trigger] (sb + b)) }),
{
    reveal(at_step);
    let p = nk.1;
    let d = p.len() as int;
    let x = nibn(k, d);
    let t = depth(n.cs(), x, 3);
    rep_internal(w, nk.0, p, m);
    rep_kid_hashes(w, nk.0, p, m);
    nib16(k, d);
    depth_end(n.cs(), x, 3);
    node_end(w, nk.0, p, m, n, k);
    assert forall|j: int| 0 <= j < t implies tstep(m, k, sb.len() + j, #[trigger] sibs_at(n.cs(), x, t)[j]) by { node_step1(w, nk.0, p, m, n, k, j); }
    assert forall|b: Seq<[u8; 32]>| seqs(b) == sibs_at(n.cs(), x, t) implies step_next(w, m, k, nk, n.cs(), x, #[trigger] (sb + b)) by {
        steps_append(m, k, sb, b, sibs_at(n.cs(), x, t));
        assert(seqs(b).len() == b.len());
        assert(b.len() == t);
        assert((sb + b).len() == 4 * d + t);
        assert(tsteps(m, k, sb + b));
        if let Some(j) = reach(n.cs(), x, 3) {
            let c = n.cs()[j]->0;
            let q = p.push(j as u8);
            assert(rep(w, c.version, q, m));
            assert(w.contains_key((c.version, q)));
            assert(at_step(w, m, k, (c.version, q), sb + b));
            npre_push(p, j as u8, k);
        }
    }
}
pub open spec fn step_next(w: W, m: KV, k: Seq<u8>, nk: NK, cs: Cs, x: u8, sb: Seq<[u8; 32]>) -> bool {
    match reach(cs, x, 3) {
        None => none(m, kbits(k, sb.len() as int)) && !m.contains_key(k) && tsteps(m, k, sb) && sb.len() <= 256,
        Some(j) => 0 <= j < 16 && cs[j] is Some && ({ let c = cs[j]->0; let q = nk.1.push(j as u8); at_step(w, m, k, (c.version, q), sb) && w.contains_key((c.version, q)) && !(w[(c.version, q)] is Null) && (at_step_on((c.version, q), k, sb) ==> j == x) }),
    }
}
pub proof fn at_step_end<H: SimpleHasher>(w: W, m: KV, k: Seq<u8>, nk: NK, sb: Seq<[u8; 32]>, pf: SparseMerkleProof<H>)
    requires at_step(w, m, k, nk, sb), pf.siblings@ == sb.reverse(), match (w[nk], pf.leaf) { (Node::Leaf(l), Some(x)) => l.k() == x.k() && l.v() == x.v(), (Node::Null, None) => true, _ => false },
    ensures true_proof(pf, m, k), w[nk] matches Node::Leaf(l) ==> (l.k() == k <==> m.contains_key(k)), w[nk] is Null ==> !m.contains_key(k),
{
    reveal(at_step);
    assert(sb.reverse().reverse() =~= sb);
    kbits_push(k, sb.len() as int);
    if m.contains_key(k) { assert(under(m, kbits(k, sb.len() as int), k)); }
    if let Node::Leaf(l) = w[nk] { assert(under(m, kbits(k, sb.len() as int), l.k())); }
}
// the two ways a lookup ends
pub open spec fn good_end<H: SimpleHasher>(m: KV, k: Seq<u8>, leaf: Option<(Seq<u8>, Seq<u8>)>, sb: Seq<[u8; 32]>, val: Option<Seq<u8>>) -> bool {
    forall|pf: SparseMerkleProof<H>| (#[trigger] pf.siblings@) == sb.reverse() && (match (leaf, pf.leaf) { (None, None) => true, (Some(l), Some(x)) => l.0 == x.k() && l.1 == x.v(), _ => false })
        ==> true_proof(pf, m, k) && pf.accepts(smt(m, Seq::empty()), k, val)
}
pub open spec fn val_is<H: SimpleHasher>(m: KV, k: Seq<u8>, val: Option<Seq<u8>>) -> bool { match val { Some(x) => m.contains_key(k) && m[k] == H::dig(x), None => !m.contains_key(k) } }
pub proof fn end_none<H: SimpleHasher>(m: KV, k: Seq<u8>, sb: Seq<[u8; 32]>, val: Option<Seq<u8>>)
    requires kv_ok(m), k.len() == 32, none(m, kbits(k, sb.len() as int)), !m.contains_key(k), tsteps(m, k, sb), sb.len() <= 256, val_is::<H>(m, k, val),
    ensures good_end::<H>(m, k, None, sb, val), val is None,
{
    assert(sb.reverse().reverse() =~= sb);
    assert forall|pf: SparseMerkleProof<H>| (#[trigger] pf.siblings@) == sb.reverse() && pf.leaf is None implies true_proof(pf, m, k) && pf.accepts(smt(m, Seq::empty()), k, val) by { c11_accepted(pf, m, k, val); }
}
pub proof fn end_null<H: SimpleHasher>(w: W, m: KV, k: Seq<u8>, nk: NK, sb: Seq<[u8; 32]>, val: Option<Seq<u8>>)
    requires at_step(w, m, k, nk, sb), at(w, nk) == Some(Node::Null), val_is::<H>(m, k, val),
    ensures good_end::<H>(m, k, None, sb, val), val is None,
{
    reveal(at_step);
    kbits_push(k, sb.len() as int);
    if m.contains_key(k) { assert(under(m, kbits(k, sb.len() as int), k)); }
    end_none::<H>(m, k, sb, val);
}
pub proof fn end_leaf<H: SimpleHasher>(w: W, m: KV, k: Seq<u8>, nk: NK, sb: Seq<[u8; 32]>, l: LeafNode, val: Option<Seq<u8>>)
    requires at_step(w, m, k, nk, sb), at(w, nk) == Some(Node::Leaf(l)), val_is::<H>(m, k, val),
    ensures good_end::<H>(m, k, Some((l.k(), l.v())), sb, val), val is Some <==> l.k() == k,
{
    reveal(at_step);
    assert(sb.reverse().reverse() =~= sb);
    kbits_push(k, sb.len() as int);
    if m.contains_key(k) { assert(under(m, kbits(k, sb.len() as int), k)); }
    assert(under(m, kbits(k, sb.len() as int), l.k()));
    assert forall|pf: SparseMerkleProof<H>| (#[trigger] pf.siblings@) == sb.reverse() && (pf.leaf matches Some(x) && l.k() == x.k() && l.v() == x.v()) implies true_proof(pf, m, k) && pf.accepts(smt(m, Seq::empty()), k, val) by { c11_accepted(pf, m, k, val); }
}
pub proof fn root_step(w: W, v: u64, m: KV, k: Seq<u8>)
    requires holds(w, v, m), k.len() == 32,
    ensures at_step(w, m, k, root_key(v), Seq::empty()), at_step_on(root_key(v), k, Seq::empty()), w[root_key(v)].hsh() == smt(m, Seq::empty()),
{
    reveal(at_step);
    let e = Seq::<u8>::empty();
    rep_smt(w, v, e, m);
    assert(pb(e) =~= Seq::<bool>::empty());
    assert(kbits(k, 0) =~= Seq::<bool>::empty());
    assert(npre(e, k));
    if let Node::Leaf(l) = w[root_key(v)] { assert forall|y: Seq<u8>| #[trigger] under(m, kbits(k, 0), y) implies y == l.k() by { assert(nund(m, e, y)); } assert(nund(m, e, l.k())); assert(under(m, kbits(k, 0), l.k())); }
    if w[root_key(v)] is Null { assert forall|y: Seq<u8>| !#[trigger] under(m, kbits(k, 0), y) by { assert(!nund(m, e, y)); } }
}
// ================================================================ the code
//@type jmt/src/tree.rs JellyfishMerkleTree R: TreeReader + VersionedDatabase ==> R: TreeReader
pub use std::sync::Arc;
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
    pub open spec fn nodes(&self) -> W { self.reader.nodes() }
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_with_proof props C09 C11
//@rewrite? for $id_d in 0..=ROOT_NIBBLE_HEIGHT { ==> for $id_d in 0..ROOT_NIBBLE_HEIGHT + 1 {
//@rewrite? Some(leaf_node.into()) ==> Some(rt_smleaf(leaf_node))
//@rewrite? let mut siblings = vec![]; ==> let mut siblings: Vec<[u8; 32]> = Vec::new();
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(x) ==> self.nodes().contains_key(root_key(version)) && ov(x.0) == self.reader.val(version, key.0@)
            && true_proof(x.1, tmap(self.nodes(), version), key.0@)
            && x.1.accepts(self.nodes()[root_key(version)].hsh(), key.0@, ov(x.0)),
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) ==> r is Ok,
//@start
    let ghost w = self.nodes();
    let ghost m = tmap(w, version);
    let ghost k = key.0@;
    let ghost val = self.reader.val(version, k);
    proof { if w.contains_key(root_key(version)) { root_step(w, version, m, k); assert(val_is::<H>(m, k, val)); } }
//@loop 0 it
    invariant w == self.nodes(), m == tmap(w, version), k == key.0@, nibble_path.wf(), nibble_path.v() =~= nibs_of(k),
        nibble_iter.wf(), nibble_iter.nibble_path == nibble_path,
        version_ok::<R, H>(*self.reader, version), w.contains_key(root_key(version)) ==> w[root_key(version)].hsh() == smt(m, Seq::empty()),
        next_node_key.wf(), next_node_key.p().len() == it.index@, next_node_key.p().len() <= 64,
        it.index@ == 0 ==> next_node_key.nk() == root_key(version) && siblings@ =~= Seq::empty(),
        it.index@ > 0 ==> w.contains_key(root_key(version)) && w.contains_key(next_node_key.nk()) && !(w[next_node_key.nk()] is Null),
        w.contains_key(root_key(version)) ==> at_step(w, m, k, next_node_key.nk(), siblings@) && (at_step_on(next_node_key.nk(), k, siblings@) ==> nibble_iter.rest() =~= nibs_of(k).subrange(it.index@ as int, 64)),
        val == self.reader.val(version, k), w.contains_key(root_key(version)) ==> val_is::<H>(m, k, val),
//@loopstart 0
    let ghost sb0 = siblings@;
    let ghost nk0 = next_node_key.nk();
    proof {
        if w.contains_key(root_key(version)) {
            match at(w, nk0) {
                Some(Node::Internal(n)) => { at_step_internal(w, m, k, nk0, sb0, n); }
                Some(Node::Leaf(l)) => { end_leaf::<H>(w, m, k, nk0, sb0, l, val); }
                Some(Node::Null) => { if it.index@ == 0 { end_null::<H>(w, m, k, nk0, sb0, val); assert(sb0.reverse() =~= Seq::empty()); } }
                None => { }
            }
        }
    }
//@after siblings.append(&mut siblings_in_internal)
    proof {
        if w.contains_key(root_key(version)) {
            let x = nibn(k, nk0.1.len() as int);
            assert(step_next(w, m, k, nk0, internal_node.cs(), x, siblings@));
            if reach(internal_node.cs(), x, 3) is None { end_none::<H>(m, k, siblings@, val); }
        }
    }
//@end
}
} // verus!
