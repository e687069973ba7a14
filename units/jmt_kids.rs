// the sparse Merkle root, one bit at a time; and of a node from what is known of each child
verus! {
pub open spec fn one(m: KV, q: Seq<u8>) -> bool { exists|k: Seq<u8>| #[trigger] nonly(m, q, k) }
// at most one key below a bit prefix
pub open spec fn few(m: KV, q: Seq<bool>) -> bool { none(m, q) || exists|k: Seq<u8>| only(m, q, k) }
pub proof fn under_push(m: KV, q: Seq<bool>, b: bool, k: Seq<u8>)
    ensures under(m, q.push(b), k) <==> (under(m, q, k) && bitn(k, q.len() as int) == b),
{
    if under(m, q.push(b), k) {
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] bitn(k, i) == q[i] by { assert(q.push(b)[i] == q[i]); }
        assert(q.push(b)[q.len() as int] == b);
    }
}
pub proof fn only_is(m: KV, q: Seq<bool>, k: Seq<u8>)
    requires only(m, q, k),
    ensures smt(m, q) == lh(k, m[k]), smt_hashed(m, q) <==> hashed(leaf_pre(k, m[k])), !none(m, q),
{
    assert(under(m, q, k));
    let y = choose|y: Seq<u8>| only(m, q, y);
    assert(under(m, q, y));
}
pub proof fn smt_step(m: KV, q: Seq<bool>)
    requires kv_ok(m), q.len() < 256,
    ensures ({ let l = q.push(false); let r = q.push(true);
        &&& none(m, l) && few(m, r) ==> smt(m, q) == smt(m, r) && (smt_hashed(m, q) <==> smt_hashed(m, r)) && few(m, q)
        &&& none(m, r) && few(m, l) ==> smt(m, q) == smt(m, l) && (smt_hashed(m, q) <==> smt_hashed(m, l)) && few(m, q)
        &&& none(m, q) <==> none(m, l) && none(m, r)
        &&& !(none(m, l) && few(m, r)) && !(none(m, r) && few(m, l)) ==> !few(m, q) && smt(m, q) == ih(smt(m, l), smt(m, r))
            && (smt_hashed(m, q) <==> hashed(int_pre(smt(m, l), smt(m, r))) && smt_hashed(m, l) && smt_hashed(m, r))
    }),
{
    let l = q.push(false);
    let r = q.push(true);
    assert forall|k: Seq<u8>| #[trigger] under(m, q, k) implies under(m, l, k) || under(m, r, k) by { under_push(m, q, false, k); under_push(m, q, true, k); }
    assert forall|k: Seq<u8>| #[trigger] under(m, l, k) implies under(m, q, k) && !under(m, r, k) by { under_push(m, q, false, k); under_push(m, q, true, k); }
    assert forall|k: Seq<u8>| #[trigger] under(m, r, k) implies under(m, q, k) && !under(m, l, k) by { under_push(m, q, false, k); under_push(m, q, true, k); }
    if none(m, l) && exists|k: Seq<u8>| only(m, r, k) {
        let k = choose|k: Seq<u8>| only(m, r, k);
        assert(only(m, q, k));
        only_is(m, q, k);
        only_is(m, r, k);
    }
    if none(m, r) && exists|k: Seq<u8>| only(m, l, k) {
        let k = choose|k: Seq<u8>| only(m, l, k);
        assert(only(m, q, k));
        only_is(m, q, k);
        only_is(m, l, k);
    }
    if none(m, q) {
        assert forall|k: Seq<u8>| !#[trigger] under(m, l, k) by { assert(!under(m, q, k)); }
        assert forall|k: Seq<u8>| !#[trigger] under(m, r, k) by { assert(!under(m, q, k)); }
    }
    if none(m, l) && none(m, r) { assert(none(m, q)); }
    if !(none(m, l) && few(m, r)) && !(none(m, r) && few(m, l)) {
        assert(!none(m, q));
        assert forall|k: Seq<u8>| !only(m, q, k) by {
            if only(m, q, k) {
                if under(m, l, k) {
                    if none(m, r) { assert(only(m, l, k)); } else { let x = choose|x: Seq<u8>| #[trigger] under(m, r, x); assert(under(m, q, x)); }
                } else {
                    assert(under(m, r, k));
                    if none(m, l) { assert(only(m, r, k)); } else { let x = choose|x: Seq<u8>| #[trigger] under(m, l, x); assert(under(m, q, x)); }
                }
            }
        }
    }
}
// nothing that was hashed is the placeholder
pub proof fn smt_ph(m: KV, q: Seq<bool>)
    requires kv_ok(m), q.len() <= 256, smt_hashed(m, q),
    ensures smt(m, q) == ph() <==> none(m, q),
{
    if q.len() == 256 { full_prefix(m, q); }
    if !none(m, q) {
        if exists|k: Seq<u8>| only(m, q, k) { let k = choose|k: Seq<u8>| only(m, q, k); axiom_sha_no_placeholder(leaf_pre(k, m[k])); }
        else { axiom_sha_no_placeholder(int_pre(smt(m, q.push(false)), smt(m, q.push(true)))); }
    }
}
// two maps with the same root below q have the same pairs there
pub open spec fn same_under(a: KV, b: KV, q: Seq<bool>) -> bool { forall|k: Seq<u8>| pre(q, k) ==> (#[trigger] a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k]) }
pub proof fn smt_inj(a: KV, b: KV, q: Seq<bool>)
    requires kv_ok(a), kv_ok(b), q.len() <= 256, smt_hashed(a, q), smt_hashed(b, q), smt(a, q) == smt(b, q),
    ensures same_under(a, b, q),
    decreases 256 - q.len(),
{
    smt_ph(a, q);
    smt_ph(b, q);
    if q.len() == 256 { full_prefix(a, q); full_prefix(b, q); }
    assert forall|k: Seq<u8>| pre(q, k) implies (#[trigger] a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k]) by {
        assert(under(a, q, k) == a.contains_key(k) && under(b, q, k) == b.contains_key(k));
        if none(a, q) { }
        else if exists|x: Seq<u8>| only(a, q, x) {
            let x = choose|x: Seq<u8>| only(a, q, x);
            assert(under(a, q, x));
            if exists|y: Seq<u8>| only(b, q, y) {
                let y = choose|y: Seq<u8>| only(b, q, y);
                assert(under(b, q, y));
                axiom_sha_no_collision(leaf_pre(x, a[x]), leaf_pre(y, b[y]));
                leaf_pre_inj(x, a[x], y, b[y]);
            } else {
                let l = smt(b, q.push(false)); let r = smt(b, q.push(true));
                smt_len(b, q.push(false)); smt_len(b, q.push(true));
                axiom_sha_no_collision(leaf_pre(x, a[x]), int_pre(l, r));
                leaf_not_int(x, a[x], l, r);
            }
        } else {
            let l = smt(a, q.push(false)); let r = smt(a, q.push(true));
            smt_len(a, q.push(false)); smt_len(a, q.push(true));
            if exists|y: Seq<u8>| only(b, q, y) {
                let y = choose|y: Seq<u8>| only(b, q, y);
                assert(under(b, q, y));
                axiom_sha_no_collision(leaf_pre(y, b[y]), int_pre(l, r));
                leaf_not_int(y, b[y], l, r);
            } else {
                let l2 = smt(b, q.push(false)); let r2 = smt(b, q.push(true));
                smt_len(b, q.push(false)); smt_len(b, q.push(true));
                axiom_sha_no_collision(int_pre(l, r), int_pre(l2, r2));
                int_pre_inj(l, r, l2, r2);
                let c = bitn(k, q.len() as int);
                smt_inj(a, b, q.push(c));
                assert(pre(q.push(c), k));
            }
        }
    }
}
// ---------------------------------------------------------------- what a child entry says about the keys below it
pub open spec fn kidc(m: KV, q: Seq<u8>, o: Option<Child>) -> bool {
    match o {
        None => nnone(m, q),
        Some(c) => c.hash@ == smt(m, pb(q)) && smt_hashed(m, pb(q)) && lcount(c) == Some(nset(m, q).len() as int) && !nnone(m, q) && (c.node_type is Leaf ==> one(m, q)) && (!(c.node_type is Leaf) ==> many(m, q)),
    }
}
pub open spec fn kidsc(m: KV, p: Seq<u8>, cs: Cs) -> bool { cs.len() == 16 && forall|i: int| 0 <= i < 16 ==> kidc(m, p.push(i as u8), #[trigger] cs[i]) }
pub proof fn kids_tree(m: KV, p: Seq<u8>, cs: Cs, s: int, h: int)
    requires kv_ok(m), nibs16(p), p.len() < 64, kidsc(m, p, cs), 0 <= h <= 4, 0 <= s < 16, s % w_of(h) == 0,
    ensures ntree(cs, s, w_of(h)) == smt(m, pbits(p, s, h)), ntree_hashed(cs, s, w_of(h)) ==> smt_hashed(m, pbits(p, s, h)),
    decreases h,
{
    let q = pbits(p, s, h);
    let d = p.len() as int;
    assert(s + w_of(h) <= 16) by { if h == 0 { } else if h == 1 { assert(s % 2 == 0); } else if h == 2 { assert(s % 4 == 0); } else if h == 3 { assert(s % 8 == 0); } else { assert(s % 16 == 0); } }
    assert forall|k: Seq<u8>| m.contains_key(k) implies (#[trigger] under(m, q, k) <==> (npre(p, k) && s <= nibn(k, d) < s + w_of(h))) by { pbits_pre(p, s, h, k); }
    assert forall|i: int| s <= i < s + w_of(h) && (#[trigger] cs[i]) is Some implies (exists|k: Seq<u8>| #[trigger] under(m, q, k) && nibn(k, d) == i) by {
        let k = choose|k: Seq<u8>| #[trigger] nund(m, p.push(i as u8), k);
        npre_push(p, i as u8, k);
        assert(under(m, q, k));
    }
    assert forall|k: Seq<u8>| #[trigger] under(m, q, k) implies cs[nibn(k, d) as int] is Some by {
        let i = nibn(k, d) as int;
        assert(kidc(m, p.push(i as u8), cs[i]));
        npre_push(p, i as u8, k);
        if cs[i] is None { assert(nund(m, p.push(i as u8), k)); }
    }
    pbits_ends(p, s, h);
    if vacant(cs, s, w_of(h)) {
        assert(none(m, q));
    } else if h == 0 {
        assert(cs[s] is Some);
        assert(kidc(m, p.push(s as u8), cs[s]));
    } else {
        let i0 = choose|i: int| s <= i < s + w_of(h) && (#[trigger] cs[i]) is Some;
        let k0 = choose|k: Seq<u8>| #[trigger] under(m, q, k) && nibn(k, d) == i0;
        assert(under(m, q, k0));
        if lone(cs, s, w_of(h)) {
            let j = choose|k: int| sole_leaf(cs, s, w_of(h), k);
            let pj = p.push(j as u8);
            assert(sole(cs, s, w_of(h), j));
            assert(kidc(m, pj, cs[j]));
            let x0 = choose|k: Seq<u8>| #[trigger] nonly(m, pj, k);
            assert(nund(m, pj, x0));
            assert forall|x: Seq<u8>| #[trigger] under(m, q, x) implies x == x0 by { assert(nibn(x, d) == j); npre_push(p, j as u8, x); assert(nund(m, pj, x)); }
            npre_push(p, j as u8, x0);
            assert(only(m, q, x0)) by { assert(under(m, q, x0)); }
            only_is(m, q, x0);
            assert(nibs16(pj));
            assert forall|x: Seq<u8>| #[trigger] under(m, pb(pj), x) implies x == x0 by { pb_pre(pj, x); assert(nund(m, pj, x)); }
            pb_pre(pj, x0);
            assert(under(m, pb(pj), x0));
            only_is(m, pb(pj), x0);
        } else {
            assert forall|x: Seq<u8>| !only(m, q, x) by {
                if only(m, q, x) {
                    assert(x == k0);
                    assert(!sole_leaf(cs, s, w_of(h), i0));
                    if sole(cs, s, w_of(h), i0) {
                        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] two(m, p.push(i0 as u8), a, b);
                        npre_push(p, i0 as u8, a);
                        npre_push(p, i0 as u8, b);
                        assert(under(m, q, a) && under(m, q, b));
                    } else {
                        let j = choose|j: int| s <= j < s + w_of(h) && j != i0 && (#[trigger] cs[j]) is Some;
                        let y = choose|k: Seq<u8>| #[trigger] under(m, q, k) && nibn(k, d) == j;
                        assert(under(m, q, y));
                    }
                }
            }
            kids_tree(m, p, cs, s, h - 1);
            kids_tree(m, p, cs, s + w_of(h - 1), h - 1);
            assert(w_of(h) / 2 == w_of(h - 1) && w_of(h) > 1);
            assert(q.len() < 256);
        }
    }
}
pub proof fn kids_sum(m: KV, p: Seq<u8>, cs: Cs, i: int)
    requires kv_ok(m), kidsc(m, p, cs), p.len() < 64, 0 <= i <= 16,
    ensures lsum(cs, i) == Some(below(m, p, i).len() as int), lknown(cs, i) == below(m, p, i).len(),
    decreases i,
{
    if i == 0 {
        assert(below(m, p, 0) =~= Set::empty());
    } else {
        kids_sum(m, p, cs, i - 1);
        let q = p.push((i - 1) as u8);
        assert(kidc(m, q, cs[i - 1]));
        let a = below(m, p, i - 1);
        let b = nset(m, q);
        assert forall|k: Seq<u8>| #[trigger] below(m, p, i).contains(k) <==> a.union(b).contains(k) by { npre_push(p, (i - 1) as u8, k); }
        assert(below(m, p, i) =~= a.union(b));
        assert(a.disjoint(b)) by { assert forall|k: Seq<u8>| !(a.contains(k) && b.contains(k)) by { npre_push(p, (i - 1) as u8, k); } }
        vstd::set_lib::lemma_set_disjoint_lens(a, b);
        if cs[i - 1] is None { assert(b =~= Set::empty()) by { assert forall|k: Seq<u8>| !b.contains(k) by { assert(!nund(m, q, k)); } } }
    }
}
// the node as a whole
pub proof fn kids_node(m: KV, p: Seq<u8>, cs: Cs)
    requires kv_ok(m), nibs16(p), p.len() < 64, kidsc(m, p, cs),
    ensures ntree(cs, 0, 16) == smt(m, pb(p)), ntree_hashed(cs, 0, 16) ==> smt_hashed(m, pb(p)), lsum(cs, 16) == Some(nset(m, p).len() as int), lknown(cs, 16) == nset(m, p).len(),
        node_ok(cs) ==> many(m, p),
{
    kids_tree(m, p, cs, 0, 4);
    pbits_ends(p, 0, 4);
    kids_sum(m, p, cs, 16);
    assert(below(m, p, 16) =~= nset(m, p)) by { assert forall|k: Seq<u8>| m.dom().contains(k) implies nibn(k, p.len() as int) < 16 by { nib16(k, p.len() as int); } }
    if node_ok(cs) {
        let i = choose|i: int| 0 <= i < 16 && (#[trigger] cs[i]) is Some;
        let pi = p.push(i as u8);
        assert(kidc(m, pi, cs[i]));
        let a = choose|k: Seq<u8>| #[trigger] nund(m, pi, k);
        npre_push(p, i as u8, a);
        if cs[i]->0.node_type is Leaf {
            assert(!sole_leaf(cs, 0, 16, i));
            let j = choose|j: int| 0 <= j < 16 && j != i && (#[trigger] cs[j]) is Some;
            let pj = p.push(j as u8);
            assert(kidc(m, pj, cs[j]));
            let b = choose|k: Seq<u8>| #[trigger] nund(m, pj, k);
            npre_push(p, j as u8, b);
            assert(two(m, p, a, b));
        } else {
            let (x, y) = choose|x: Seq<u8>, y: Seq<u8>| #[trigger] two(m, pi, x, y);
            npre_push(p, i as u8, x);
            npre_push(p, i as u8, y);
            assert(two(m, p, x, y));
        }
    }
}
} // verus!
