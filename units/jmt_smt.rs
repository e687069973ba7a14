// the sparse Merkle root of a map of 32-byte keys to 32-byte value hashes, and what a path of siblings proves about it
verus! {
pub open spec fn leaf_pre(k: Seq<u8>, v: Seq<u8>) -> Seq<u8> { LEAF_DOMAIN_SEPARATOR_v() + k + v }
pub open spec fn int_pre(l: Seq<u8>, r: Seq<u8>) -> Seq<u8> { INTERNAL_DOMAIN_SEPARATOR_v() + l + r }
pub open spec fn lh(k: Seq<u8>, v: Seq<u8>) -> Seq<u8> { sha(leaf_pre(k, v)) }
pub open spec fn ih(l: Seq<u8>, r: Seq<u8>) -> Seq<u8> { sha(int_pre(l, r)) }
pub type KV = Map<Seq<u8>, Seq<u8>>;
// keys below a bit prefix
pub open spec fn pre(p: Seq<bool>, k: Seq<u8>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] bitn(k, i) == p[i] }
pub open spec fn under(m: KV, p: Seq<bool>, k: Seq<u8>) -> bool { m.contains_key(k) && pre(p, k) }
pub open spec fn none(m: KV, p: Seq<bool>) -> bool { forall|k: Seq<u8>| !#[trigger] under(m, p, k) }
pub open spec fn only(m: KV, p: Seq<bool>, k: Seq<u8>) -> bool { under(m, p, k) && forall|x: Seq<u8>| #[trigger] under(m, p, x) ==> x == k }
pub open spec fn smt(m: KV, p: Seq<bool>) -> Seq<u8>
    decreases 256 - p.len(),
{
    if none(m, p) { ph() }
    else if exists|k: Seq<u8>| only(m, p, k) { let k = choose|k: Seq<u8>| only(m, p, k); lh(k, m[k]) }
    else if p.len() >= 256 { ph() }
    else { ih(smt(m, p.push(false)), smt(m, p.push(true))) }
}
// everything that went into the root was hashed
pub open spec fn smt_hashed(m: KV, p: Seq<bool>) -> bool
    decreases 256 - p.len(),
{
    if none(m, p) { true }
    else if exists|k: Seq<u8>| only(m, p, k) { let k = choose|k: Seq<u8>| only(m, p, k); hashed(leaf_pre(k, m[k])) }
    else if p.len() >= 256 { true }
    else { hashed(int_pre(smt(m, p.push(false)), smt(m, p.push(true)))) && smt_hashed(m, p.push(false)) && smt_hashed(m, p.push(true)) }
}
pub open spec fn kv_ok(m: KV) -> bool { forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> k.len() == 32 && m[k].len() == 32 }
pub open spec fn kbits(k: Seq<u8>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bitn(k, i)) }
// folding siblings (bottom first) along the bits of a key: the hash reached at depth j
pub open spec fn fold_at(sib: Seq<[u8; 32]>, key: Seq<u8>, h: Seq<u8>, j: int) -> Seq<u8>
    decreases sib.len() - j,
{
    if j >= sib.len() { h } else {
        let c = fold_at(sib, key, h, j + 1);
        let s = sib[sib.len() - 1 - j]@;
        if bitn(key, j) { ih(s, c) } else { ih(c, s) }
    }
}
pub open spec fn fold_pre(sib: Seq<[u8; 32]>, key: Seq<u8>, h: Seq<u8>, j: int) -> Seq<u8> {
    let c = fold_at(sib, key, h, j + 1);
    let s = sib[sib.len() - 1 - j]@;
    if bitn(key, j) { int_pre(s, c) } else { int_pre(c, s) }
}
pub open spec fn fold_hashed(sib: Seq<[u8; 32]>, key: Seq<u8>, h: Seq<u8>, from: int) -> bool {
    forall|j: int| from <= j < sib.len() ==> hashed(#[trigger] fold_pre(sib, key, h, j))
}
// ---------------------------------------------------------------- facts about hashing
pub proof fn leaf_pre_inj(k: Seq<u8>, v: Seq<u8>, k2: Seq<u8>, v2: Seq<u8>)
    requires k.len() == 32, v.len() == 32, k2.len() == 32, v2.len() == 32, leaf_pre(k, v) == leaf_pre(k2, v2),
    ensures k == k2, v == v2,
{
    let n = LEAF_DOMAIN_SEPARATOR_v().len() as int;
    assert(leaf_pre(k, v).subrange(n, n + 32) =~= k);
    assert(leaf_pre(k2, v2).subrange(n, n + 32) =~= k2);
    assert(leaf_pre(k, v).subrange(n + 32, n + 64) =~= v);
    assert(leaf_pre(k2, v2).subrange(n + 32, n + 64) =~= v2);
}
pub proof fn int_pre_inj(l: Seq<u8>, r: Seq<u8>, l2: Seq<u8>, r2: Seq<u8>)
    requires l.len() == 32, r.len() == 32, l2.len() == 32, r2.len() == 32, int_pre(l, r) == int_pre(l2, r2),
    ensures l == l2, r == r2,
{
    let n = INTERNAL_DOMAIN_SEPARATOR_v().len() as int;
    assert(int_pre(l, r).subrange(n, n + 32) =~= l);
    assert(int_pre(l2, r2).subrange(n, n + 32) =~= l2);
    assert(int_pre(l, r).subrange(n + 32, n + 64) =~= r);
    assert(int_pre(l2, r2).subrange(n + 32, n + 64) =~= r2);
}
pub proof fn leaf_not_int(k: Seq<u8>, v: Seq<u8>, l: Seq<u8>, r: Seq<u8>)
    requires k.len() == 32, v.len() == 32, l.len() == 32, r.len() == 32,
    ensures leaf_pre(k, v) != int_pre(l, r),
{
    assert(leaf_pre(k, v).len() == LEAF_DOMAIN_SEPARATOR_v().len() + 64);
    assert(int_pre(l, r).len() == INTERNAL_DOMAIN_SEPARATOR_v().len() + 64);
}
pub proof fn smt_len(m: KV, p: Seq<bool>)
    ensures smt(m, p).len() == 32,
{
    if none(m, p) {} else if exists|k: Seq<u8>| only(m, p, k) { let k = choose|k: Seq<u8>| only(m, p, k); axiom_sha_len(leaf_pre(k, m[k])); }
    else if p.len() >= 256 {} else { axiom_sha_len(int_pre(smt(m, p.push(false)), smt(m, p.push(true)))); }
}
pub proof fn fold_len(sib: Seq<[u8; 32]>, key: Seq<u8>, h: Seq<u8>, j: int)
    requires h.len() == 32, 0 <= j,
    ensures fold_at(sib, key, h, j).len() == 32,
{
    if j < sib.len() { axiom_sha_len(fold_pre(sib, key, h, j)); }
}
// 32 bytes are their 256 bits
pub proof fn same_bits(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 32, b.len() == 32, forall|i: int| 0 <= i < 256 ==> #[trigger] bitn(a, i) == bitn(b, i),
    ensures a == b,
{
    assert forall|i: int| 0 <= i < 32 implies a[i] == b[i] by {
        nib_bits(a, 2 * i); nib_bits(b, 2 * i); nib_bits(a, 2 * i + 1); nib_bits(b, 2 * i + 1);
        assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1);
        assert(nibn(a, 2 * i) == nibn(b, 2 * i) && nibn(a, 2 * i + 1) == nibn(b, 2 * i + 1)) by {
            assert(bitn(a, 8 * i) == bitn(b, 8 * i) && bitn(a, 8 * i + 1) == bitn(b, 8 * i + 1) && bitn(a, 8 * i + 2) == bitn(b, 8 * i + 2) && bitn(a, 8 * i + 3) == bitn(b, 8 * i + 3)
                && bitn(a, 8 * i + 4) == bitn(b, 8 * i + 4) && bitn(a, 8 * i + 5) == bitn(b, 8 * i + 5) && bitn(a, 8 * i + 6) == bitn(b, 8 * i + 6) && bitn(a, 8 * i + 7) == bitn(b, 8 * i + 7));
        }
    }
    assert(a =~= b);
}
pub proof fn full_prefix(m: KV, p: Seq<bool>)
    requires kv_ok(m), p.len() == 256,
    ensures none(m, p) || exists|k: Seq<u8>| only(m, p, k),
{
    if !none(m, p) {
        let k = choose|k: Seq<u8>| #[trigger] under(m, p, k);
        assert forall|x: Seq<u8>| #[trigger] under(m, p, x) implies x == k by { same_bits(x, k); }
        assert(only(m, p, k));
    }
}
pub proof fn kbits_push(k: Seq<u8>, n: int)
    requires 0 <= n,
    ensures kbits(k, n + 1) =~= kbits(k, n).push(bitn(k, n)), pre(kbits(k, n), k),
{ }
// C12: a path of siblings that folds to the root of the map ends at the map's subtree
pub proof fn fold_sound(m: KV, sib: Seq<[u8; 32]>, key: Seq<u8>, h: Seq<u8>, j: int)
    requires kv_ok(m), smt_hashed(m, Seq::empty()), sib.len() <= 256, h.len() == 32, fold_hashed(sib, key, h, 0), 0 <= j <= sib.len(),
        fold_at(sib, key, h, 0) == smt(m, Seq::empty()),
    ensures fold_at(sib, key, h, j) == smt(m, kbits(key, j)), smt_hashed(m, kbits(key, j)),
        forall|i: int| 0 <= i < j ==> (#[trigger] sib[sib.len() - 1 - i])@ == smt(m, kbits(key, i).push(!bitn(key, i))),
    decreases j,
{
    assert(kbits(key, 0) =~= Seq::<bool>::empty());
    if j > 0 {
        let i = j - 1;
        fold_sound(m, sib, key, h, i);
        let p = kbits(key, i);
        kbits_push(key, i);
        let c = fold_at(sib, key, h, j);
        let s = sib[sib.len() - 1 - i]@;
        fold_len(sib, key, h, j);
        assert(hashed(fold_pre(sib, key, h, i)));
        let x = fold_pre(sib, key, h, i);
        assert(smt(m, p) == sha(x));
        let l = smt(m, p.push(false));
        let r = smt(m, p.push(true));
        smt_len(m, p.push(false));
        smt_len(m, p.push(true));
        axiom_sha_no_placeholder(x);
        if none(m, p) {
        } else if exists|k: Seq<u8>| only(m, p, k) {
            let k = choose|k: Seq<u8>| only(m, p, k);
            axiom_sha_no_collision(x, leaf_pre(k, m[k]));
            assert(under(m, p, k));
            if bitn(key, i) { leaf_not_int(k, m[k], s, c); } else { leaf_not_int(k, m[k], c, s); }
        } else {
            axiom_sha_no_collision(x, int_pre(l, r));
            if bitn(key, i) { int_pre_inj(s, c, l, r); } else { int_pre_inj(c, s, l, r); }
        }
    }
}
// C12, existence: the leaf the path starts from is in the map
pub proof fn c12_leaf(m: KV, sib: Seq<[u8; 32]>, key: Seq<u8>, k: Seq<u8>, v: Seq<u8>)
    requires kv_ok(m), smt_hashed(m, Seq::empty()), sib.len() <= 256, k.len() == 32, v.len() == 32, fold_hashed(sib, key, lh(k, v), 0), hashed(leaf_pre(k, v)),
        fold_at(sib, key, lh(k, v), 0) == smt(m, Seq::empty()),
    ensures only(m, kbits(key, sib.len() as int), k), m[k] == v,
{
    let n = sib.len() as int;
    let p = kbits(key, n);
    axiom_sha_len(leaf_pre(k, v));
    fold_sound(m, sib, key, lh(k, v), n);
    axiom_sha_no_placeholder(leaf_pre(k, v));
    if n == 256 { full_prefix(m, p); }
    if none(m, p) {
    } else if exists|x: Seq<u8>| only(m, p, x) {
        let x = choose|x: Seq<u8>| only(m, p, x);
        assert(under(m, p, x));
        axiom_sha_no_collision(leaf_pre(k, v), leaf_pre(x, m[x]));
        leaf_pre_inj(k, v, x, m[x]);
    } else {
        let l = smt(m, p.push(false));
        let r = smt(m, p.push(true));
        smt_len(m, p.push(false));
        smt_len(m, p.push(true));
        axiom_sha_no_collision(leaf_pre(k, v), int_pre(l, r));
        leaf_not_int(k, v, l, r);
    }
}
// C12, absence: a path that starts from the placeholder
pub proof fn c12_empty(m: KV, sib: Seq<[u8; 32]>, key: Seq<u8>)
    requires kv_ok(m), smt_hashed(m, Seq::empty()), sib.len() <= 256, fold_hashed(sib, key, ph(), 0),
        fold_at(sib, key, ph(), 0) == smt(m, Seq::empty()),
    ensures none(m, kbits(key, sib.len() as int)),
{
    let n = sib.len() as int;
    let p = kbits(key, n);
    fold_sound(m, sib, key, ph(), n);
    if n == 256 { full_prefix(m, p); }
    if none(m, p) {
    } else if exists|x: Seq<u8>| only(m, p, x) {
        let x = choose|x: Seq<u8>| only(m, p, x);
        axiom_sha_no_placeholder(leaf_pre(x, m[x]));
    } else {
        axiom_sha_no_placeholder(int_pre(smt(m, p.push(false)), smt(m, p.push(true))));
    }
}
} // verus!
