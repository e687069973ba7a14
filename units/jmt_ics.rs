// jmt/src/tree/ics23_impl.rs: proofs in the ICS23 format, for the verifier of the ics23 crate (C14)
verus! {
// ---------------------------------------------------------------- the message types of the ics23 crate (the fields used)
pub mod ics23 {
    #[allow(unused_imports)]
    use super::*;
    #[derive(Clone, Copy)]
    pub enum HashOp { NoHash, Sha256 }
    impl HashOp {
        pub open spec fn n(self) -> i32 { match self { HashOp::NoHash => 0, HashOp::Sha256 => 1 } }
        pub fn into(self) -> (r: i32) ensures r == self.n(), { match self { HashOp::NoHash => 0, HashOp::Sha256 => 1 } }
    }
    #[derive(Clone, Copy)]
    pub enum LengthOp { NoPrefix, VarProto }
    impl LengthOp {
        pub open spec fn n(self) -> i32 { match self { LengthOp::NoPrefix => 0, LengthOp::VarProto => 1 } }
        pub fn into(self) -> (r: i32) ensures r == self.n(), { match self { LengthOp::NoPrefix => 0, LengthOp::VarProto => 1 } }
    }
    pub struct LeafOp { pub hash: i32, pub prehash_key: i32, pub prehash_value: i32, pub length: i32, pub prefix: Vec<u8> }
    pub struct InnerOp { pub hash: i32, pub prefix: Vec<u8>, pub suffix: Vec<u8> }
    pub struct ExistenceProof { pub key: Vec<u8>, pub value: Vec<u8>, pub leaf: Option<LeafOp>, pub path: Vec<InnerOp> }
    pub struct NonExistenceProof { pub key: Vec<u8>, pub left: Option<ExistenceProof>, pub right: Option<ExistenceProof> }
    pub mod commitment_proof { pub enum Proof { Exist(super::ExistenceProof), Nonexist(super::NonExistenceProof) } }
    pub struct CommitmentProof { pub proof: Option<commitment_proof::Proof> }
    pub struct InnerSpec { pub hash: i32, pub child_order: Vec<i32>, pub min_prefix_length: i32, pub max_prefix_length: i32, pub child_size: i32, pub empty_child: Vec<u8> }
    pub struct ProofSpec { pub leaf_spec: Option<LeafOp>, pub inner_spec: Option<InnerSpec>, pub min_depth: i32, pub max_depth: i32, pub prehash_key_before_comparison: bool }
}
pub use ics23::*;
pub use ics23::commitment_proof::Proof as CProof;
// ---------------------------------------------------------------- what the verifier of the ics23 crate accepts (src/verify.rs, src/ops.rs; two children in order, SHA-256 throughout)
pub open spec fn starts(p: Seq<u8>, b: Seq<u8>) -> bool { p.len() <= b.len() && b.subrange(0, p.len() as int) == p }
pub open spec fn op_hash(o: InnerOp, c: Seq<u8>) -> Seq<u8> { sha(o.prefix@ + c + o.suffix@) }
pub open spec fn path_hash(path: Seq<InnerOp>, h: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { h } else { op_hash(path[n - 1], path_hash(path, h, n - 1)) } }
pub open spec fn op_ok(o: InnerOp, ls: LeafOp, is: InnerSpec) -> bool {
    o.hash == is.hash == 1 && !starts(ls.prefix@, o.prefix@) && is.min_prefix_length <= o.prefix@.len() <= is.max_prefix_length + is.child_size && o.suffix@.len() as int % (is.child_size as int) == 0
}
pub open spec fn exist_ok(p: ExistenceProof, sp: ProofSpec, root: Seq<u8>, key: Seq<u8>, value: Seq<u8>) -> bool {
    match (p.leaf, sp.leaf_spec, sp.inner_spec) {
        (Some(l), Some(ls), Some(is)) => {
            &&& l.hash == ls.hash == 1 && l.prehash_key == ls.prehash_key == 1 && l.prehash_value == ls.prehash_value == 1 && l.length == ls.length == 0 && starts(ls.prefix@, l.prefix@)
            &&& sp.min_depth != 0 ==> sp.min_depth <= p.path@.len() <= sp.max_depth
            &&& forall|i: int| 0 <= i < p.path@.len() ==> op_ok(#[trigger] p.path@[i], ls, is)
            &&& p.key@ == key && p.value@ == value && key.len() > 0 && value.len() > 0
            &&& is.child_size == 32
            &&& path_hash(p.path@, sha(l.prefix@ + sha(key) + sha(value)), p.path@.len() as int) == root
        },
        _ => false,
    }
}
pub open spec fn padded(o: InnerOp, is: InnerSpec, b: int) -> bool { b * is.child_size + is.min_prefix_length <= o.prefix@.len() <= b * is.child_size + is.max_prefix_length && o.suffix@.len() == is.child_size * (1 - b) }
pub open spec fn order(o: InnerOp, is: InnerSpec) -> Option<int> { if padded(o, is, 0) { Some(0int) } else if padded(o, is, 1) { Some(1int) } else { None } }
pub open spec fn left_empty(o: InnerOp, is: InnerSpec) -> bool { order(o, is) == Some(1int) && o.prefix@.len() >= is.child_size && o.prefix@.subrange(o.prefix@.len() - is.child_size, o.prefix@.len() as int) == is.empty_child@ }
pub open spec fn right_empty(o: InnerOp, is: InnerSpec) -> bool { order(o, is) == Some(0int) && o.suffix@.len() == is.child_size && o.suffix@ == is.empty_child@ }
pub open spec fn leftmost(path: Seq<InnerOp>, is: InnerSpec) -> bool { forall|i: int| 0 <= i < path.len() ==> padded(#[trigger] path[i], is, 0) || left_empty(path[i], is) }
pub open spec fn rightmost(path: Seq<InnerOp>, is: InnerSpec) -> bool { forall|i: int| 0 <= i < path.len() ==> padded(#[trigger] path[i], is, 1) || right_empty(path[i], is) }
pub open spec fn same_op(a: InnerOp, b: InnerOp) -> bool { a.prefix@ == b.prefix@ && a.suffix@ == b.suffix@ }
pub open spec fn left_step(a: InnerOp, b: InnerOp, is: InnerSpec) -> bool { order(a, is) matches Some(i) && (order(b, is) matches Some(j) && i + 1 == j) }
pub open spec fn neighbours(l: Seq<InnerOp>, r: Seq<InnerOp>, is: InnerSpec) -> bool
    decreases l.len(),
{
    &&& l.len() > 0 && r.len() > 0
    &&& if same_op(l.last(), r.last()) { neighbours(l.drop_last(), r.drop_last(), is) }
        else { left_step(l.last(), r.last(), is) && rightmost(l.drop_last(), is) && leftmost(r.drop_last(), is) }
}
pub open spec fn compared(sp: ProofSpec, key: Seq<u8>) -> Seq<u8> { if sp.prehash_key_before_comparison { sha(key) } else { key } }
pub open spec fn nonexist_ok(p: NonExistenceProof, sp: ProofSpec, root: Seq<u8>, key: Seq<u8>) -> bool {
    &&& p.left matches Some(l) ==> exist_ok(l, sp, root, l.key@, l.value@) && key_lt(compared(sp, l.key@), compared(sp, key))
    &&& p.right matches Some(r) ==> exist_ok(r, sp, root, r.key@, r.value@) && key_lt(compared(sp, key), compared(sp, r.key@))
    &&& match (sp.inner_spec, p.left, p.right) {
        (Some(is), Some(l), None) => is.child_order@ == seq![0i32, 1i32] && rightmost(l.path@, is),
        (Some(is), None, Some(r)) => is.child_order@ == seq![0i32, 1i32] && leftmost(r.path@, is),
        (Some(is), Some(l), Some(r)) => is.child_order@ == seq![0i32, 1i32] && neighbours(l.path@, r.path@, is),
        _ => false,
    }
}
// the specification this crate publishes
pub open spec fn sp_ok(sp: ProofSpec) -> bool {
    &&& sp.leaf_spec matches Some(l) && l.hash == 1 && l.prehash_key == 1 && l.prehash_value == 1 && l.length == 0 && l.prefix@ == LEAF_DOMAIN_SEPARATOR_v()
    &&& sp.inner_spec matches Some(i) && i.hash == 1 && i.child_order@ == seq![0i32, 1i32] && i.min_prefix_length == INTERNAL_DOMAIN_SEPARATOR_v().len() && i.max_prefix_length == INTERNAL_DOMAIN_SEPARATOR_v().len() && i.child_size == 32 && i.empty_child@ == ph()
    &&& sp.min_depth == 0 && sp.prehash_key_before_comparison
}
// ---------------------------------------------------------------- bits and the order of keys
pub proof fn bit_less(a: Seq<u8>, b: Seq<u8>, j: int)
    requires a.len() == 32, b.len() == 32, 0 <= j < 256, forall|i: int| 0 <= i < j ==> #[trigger] bitn(a, i) == bitn(b, i), !bitn(a, j), bitn(b, j),
    ensures nless(a, b), key_lt(a, b),
{
    let i = j / 4;
    assert forall|t: int| 0 <= t < i implies #[trigger] nibn(a, t) == nibn(b, t) by {
        nib_bits(a, t); nib_bits(b, t);
        assert(bitn(a, 4 * t) == bitn(b, 4 * t) && bitn(a, 4 * t + 1) == bitn(b, 4 * t + 1) && bitn(a, 4 * t + 2) == bitn(b, 4 * t + 2) && bitn(a, 4 * t + 3) == bitn(b, 4 * t + 3));
    }
    nib_bits(a, i); nib_bits(b, i);
    let k = j % 4;
    assert(j == 4 * i + k);
    assert(k > 0 ==> bitn(a, 4 * i) == bitn(b, 4 * i));
    assert(k > 1 ==> bitn(a, 4 * i + 1) == bitn(b, 4 * i + 1));
    assert(k > 2 ==> bitn(a, 4 * i + 2) == bitn(b, 4 * i + 2));
    assert(nlt_at(a, b, i));
    key_lt_nibs(a, b);
}
pub proof fn first_bit(a: Seq<u8>, b: Seq<u8>, n: int) -> (i: int)
    requires 0 <= n <= 256,
    ensures 0 <= i <= n, forall|j: int| 0 <= j < i ==> #[trigger] bitn(a, j) == bitn(b, j), i < n ==> bitn(a, i) != bitn(b, i),
    decreases n,
{
    if n == 0 { 0 } else { let i = first_bit(a, b, n - 1); if i < n - 1 { i } else if bitn(a, n - 1) == bitn(b, n - 1) { n } else { n - 1 } }
}
// where two ordered keys part
pub proof fn parts_at(a: Seq<u8>, b: Seq<u8>) -> (d: int)
    requires a.len() == 32, b.len() == 32, nless(a, b),
    ensures 0 <= d < 256, forall|j: int| 0 <= j < d ==> #[trigger] bitn(a, j) == bitn(b, j), !bitn(a, d), bitn(b, d),
{
    let d = first_bit(a, b, 256);
    nless_not_both(a, b);
    if d == 256 {
        assert forall|t: int| 0 <= t < 64 implies #[trigger] nibn(a, t) == nibn(b, t) by {
            nib_bits(a, t); nib_bits(b, t);
            assert(bitn(a, 4 * t) == bitn(b, 4 * t) && bitn(a, 4 * t + 1) == bitn(b, 4 * t + 1) && bitn(a, 4 * t + 2) == bitn(b, 4 * t + 2) && bitn(a, 4 * t + 3) == bitn(b, 4 * t + 3));
        }
        same_nibs(a, b);
    } else if bitn(a, d) {
        assert forall|j: int| 0 <= j < d implies #[trigger] bitn(b, j) == bitn(a, j) by { assert(bitn(a, j) == bitn(b, j)); }
        bit_less(b, a, d);
    }
    d
}
// ---------------------------------------------------------------- one path
pub open spec fn op_is(o: InnerOp, bit: bool, s: Seq<u8>) -> bool {
    o.hash == 1 && if bit { o.prefix@ == INTERNAL_DOMAIN_SEPARATOR_v() + s && o.suffix@ == Seq::<u8>::empty() } else { o.prefix@ == INTERNAL_DOMAIN_SEPARATOR_v() && o.suffix@ == s }
}
pub open spec fn path_is(path: Seq<InnerOp>, k: Seq<u8>, sib: Seq<[u8; 32]>) -> bool {
    path.len() == sib.len() && forall|i: int| 0 <= i < path.len() ==> op_is(#[trigger] path[i], bitn(k, path.len() - 1 - i), sib[i]@)
}
pub open spec fn proof_is(p: ExistenceProof, key: Seq<u8>, value: Seq<u8>, k: Seq<u8>, sib: Seq<[u8; 32]>) -> bool {
    &&& p.key@ == key && p.value@ == value && path_is(p.path@, k, sib)
    &&& p.leaf matches Some(l) && l.hash == 1 && l.prehash_key == 1 && l.prehash_value == 1 && l.length == 0 && l.prefix@ == LEAF_DOMAIN_SEPARATOR_v()
}
pub proof fn op_fold(o: InnerOp, bit: bool, s: Seq<u8>, c: Seq<u8>)
    requires op_is(o, bit, s),
    ensures op_hash(o, c) == if bit { ih(s, c) } else { ih(c, s) },
{
    if bit { assert(o.prefix@ + c + o.suffix@ =~= int_pre(s, c)); } else { assert(o.prefix@ + c + o.suffix@ =~= int_pre(c, s)); }
}
pub proof fn path_fold(path: Seq<InnerOp>, k: Seq<u8>, sib: Seq<[u8; 32]>, h: Seq<u8>, n: int)
    requires path_is(path, k, sib), 0 <= n <= path.len(),
    ensures path_hash(path, h, n) == fold_at(sib, k, h, path.len() - n),
    decreases n,
{
    if n > 0 {
        path_fold(path, k, sib, h, n - 1);
        let j = path.len() - n;
        assert(sib[sib.len() - 1 - j] == sib[n - 1]);
        assert(op_is(path[n - 1], bitn(k, path.len() - 1 - (n - 1)), sib[n - 1]@));
        op_fold(path[n - 1], bitn(k, j), sib[n - 1]@, path_hash(path, h, n - 1));
    }
}
pub proof fn op_fine(o: InnerOp, bit: bool, s: Seq<u8>, sp: ProofSpec)
    requires op_is(o, bit, s), s.len() == 32, sp_ok(sp),
    ensures op_ok(o, sp.leaf_spec->0, sp.inner_spec->0), padded(o, sp.inner_spec->0, if bit { 1 } else { 0 }), !padded(o, sp.inner_spec->0, if bit { 0 } else { 1 }),
        s == ph() ==> if bit { left_empty(o, sp.inner_spec->0) } else { right_empty(o, sp.inner_spec->0) },
{
    let is = sp.inner_spec->0;
    let ls = sp.leaf_spec->0;
    if starts(ls.prefix@, o.prefix@) {
        assert(o.prefix@.subrange(0, ls.prefix@.len() as int)[5] == o.prefix@[5]);
        assert(o.prefix@[5] == INTERNAL_DOMAIN_SEPARATOR_v()[5]);
    }
    if bit { assert(o.prefix@.subrange(o.prefix@.len() - 32, o.prefix@.len() as int) =~= s); }
    assert(0int % 32 == 0 && 32int % 32 == 0);
}
// the tree keeps, for every key, its original and a value
pub open spec fn sha_hasher<H: SimpleHasher>() -> bool { forall|b: Seq<u8>| #[trigger] H::dig(b) == sha(b) }
pub open spec fn true_exist<H: SimpleHasher>(p: ExistenceProof, pf: SparseMerkleProof<H>, m: KV, k: Seq<u8>) -> bool {
    shows(pf, m, k) && p.key@.len() > 0 && p.value@.len() > 0 && k == sha(p.key@) && m[k] == sha(p.value@) && proof_is(p, p.key@, p.value@, k, pf.siblings@)
}
pub proof fn exist_accepted<H: SimpleHasher>(p: ExistenceProof, pf: SparseMerkleProof<H>, m: KV, k: Seq<u8>, sp: ProofSpec)
    requires true_exist(p, pf, m, k), kv_ok(m), sp_ok(sp),
    ensures exist_ok(p, sp, smt(m, Seq::empty()), p.key@, p.value@),
{
    let l = pf.leaf->0;
    let n = pf.siblings@.len() as int;
    tsteps_fold(m, k, pf.siblings@.reverse(), 0);
    assert(pf.siblings@.reverse().reverse() =~= pf.siblings@);
    assert(kbits(k, 0) =~= Seq::<bool>::empty());
    let h = lh(k, m[k]);
    only_smt(m, kbits(k, n), k);
    path_fold(p.path@, k, pf.siblings@, h, n);
    let lp = p.leaf->0;
    assert(lp.prefix@.subrange(0, lp.prefix@.len() as int) =~= lp.prefix@);
    assert forall|i: int| 0 <= i < p.path@.len() implies op_ok(#[trigger] p.path@[i], sp.leaf_spec->0, sp.inner_spec->0) by { op_fine(p.path@[i], bitn(k, n - 1 - i), pf.siblings@[i]@, sp); }
}
pub proof fn only_smt(m: KV, q: Seq<bool>, k: Seq<u8>)
    requires only(m, q, k),
    ensures smt(m, q) == lh(k, m[k]),
{
    assert(under(m, q, k));
    let y = choose|y: Seq<u8>| only(m, q, y);
    assert(under(m, q, y));
}
// ---------------------------------------------------------------- the siblings on one side of a path
pub open spec fn sib_of(k: Seq<u8>, j: int) -> Seq<bool> { kbits(k, j).push(!bitn(k, j)) }
pub proof fn sib_at<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, k: Seq<u8>, i: int)
    requires true_proof(pf, m, k), 0 <= i < pf.siblings@.len(),
    ensures pf.siblings@[i]@ == smt(m, sib_of(k, pf.siblings@.len() - 1 - i)),
{
    let t = pf.siblings@.reverse();
    let j = pf.siblings@.len() - 1 - i;
    assert(t[j] == pf.siblings@[i]);
    assert(tstep(m, k, j, t[j]@));
}
// a key below a sibling leaves the path there
pub proof fn sib_key(m: KV, k: Seq<u8>, j: int, y: Seq<u8>)
    requires kv_ok(m), k.len() == 32, 0 <= j < 256, under(m, sib_of(k, j), y),
    ensures y.len() == 32, forall|i: int| 0 <= i < j ==> #[trigger] bitn(y, i) == bitn(k, i), bitn(y, j) == !bitn(k, j), bitn(k, j) ==> nless(y, k), !bitn(k, j) ==> nless(k, y),
{
    let q = sib_of(k, j);
    assert forall|i: int| 0 <= i < j implies #[trigger] bitn(y, i) == bitn(k, i) by { assert(q[i] == kbits(k, j)[i]); assert(bitn(y, i) == q[i]); }
    assert(q[j] == !bitn(k, j));
    if bitn(k, j) { bit_less(y, k, j); } else {
        assert forall|i: int| 0 <= i < j implies #[trigger] bitn(k, i) == bitn(y, i) by { assert(bitn(y, i) == bitn(k, i)); }
        bit_less(k, y, j);
    }
}
// nothing on the given side of k below depth d
pub open spec fn edge(m: KV, k: Seq<u8>, d: int, right: bool) -> bool { forall|y: Seq<u8>, j: int| d <= j < 256 && #[trigger] under(m, sib_of(k, j), y) ==> bitn(k, j) == right }
pub proof fn edge_most<H: SimpleHasher>(p: ExistenceProof, pf: SparseMerkleProof<H>, m: KV, k: Seq<u8>, sp: ProofSpec, d: int, right: bool)
    requires true_exist(p, pf, m, k), kv_ok(m), sp_ok(sp), edge(m, k, d, right), 0 <= d <= p.path@.len(),
    ensures right ==> rightmost(p.path@.subrange(0, p.path@.len() - d), sp.inner_spec->0), !right ==> leftmost(p.path@.subrange(0, p.path@.len() - d), sp.inner_spec->0),
{
    let n = p.path@.len() as int;
    let q = p.path@.subrange(0, n - d);
    let is = sp.inner_spec->0;
    assert forall|i: int| 0 <= i < q.len() implies (right ==> padded(#[trigger] q[i], is, 1) || right_empty(q[i], is)) && (!right ==> padded(q[i], is, 0) || left_empty(q[i], is)) by {
        let j = n - 1 - i;
        assert(q[i] == p.path@[i]);
        op_fine(p.path@[i], bitn(k, j), pf.siblings@[i]@, sp);
        sib_at(pf, m, k, i);
        if bitn(k, j) != right {
            assert forall|y: Seq<u8>| !#[trigger] under(m, sib_of(k, j), y) by { }
            assert(none(m, sib_of(k, j)));
        }
    }
}
// the paths of two neighbouring keys part once, and then keep to the inside
pub proof fn paths_part<H: SimpleHasher>(p: ExistenceProof, pf: SparseMerkleProof<H>, k: Seq<u8>, r: ExistenceProof, rf: SparseMerkleProof<H>, x: Seq<u8>, m: KV, sp: ProofSpec, d: int, t: int)
    requires true_exist(p, pf, m, k), true_exist(r, rf, m, x), kv_ok(m), sp_ok(sp), 0 <= t <= d < 256, d < p.path@.len(), d < r.path@.len(),
        forall|j: int| 0 <= j < d ==> #[trigger] bitn(k, j) == bitn(x, j), !bitn(k, d), bitn(x, d), edge(m, k, d + 1, true), edge(m, x, d + 1, false),
    ensures neighbours(p.path@.subrange(0, p.path@.len() - t), r.path@.subrange(0, r.path@.len() - t), sp.inner_spec->0),
    decreases d - t,
{
    let n = p.path@.len() as int;
    let o = r.path@.len() as int;
    let a = p.path@.subrange(0, n - t);
    let b = r.path@.subrange(0, o - t);
    assert(a.last() == p.path@[n - 1 - t] && b.last() == r.path@[o - 1 - t]);
    op_fine(p.path@[n - 1 - t], bitn(k, t), pf.siblings@[n - 1 - t]@, sp);
    op_fine(r.path@[o - 1 - t], bitn(x, t), rf.siblings@[o - 1 - t]@, sp);
    assert(a.drop_last() =~= p.path@.subrange(0, n - (t + 1)));
    assert(b.drop_last() =~= r.path@.subrange(0, o - (t + 1)));
    if t < d {
        sib_at(pf, m, k, n - 1 - t);
        sib_at(rf, m, x, o - 1 - t);
        assert(bitn(k, t) == bitn(x, t));
        assert(kbits(k, t) =~= kbits(x, t));
        assert(same_op(a.last(), b.last()));
        paths_part(p, pf, k, r, rf, x, m, sp, d, t + 1);
    } else {
        assert(a.last().prefix@.len() != b.last().prefix@.len());
        edge_most(p, pf, m, k, sp, d + 1, true);
        edge_most(r, rf, m, x, sp, d + 1, false);
    }
}
// the last key on a side of a missing key
pub proof fn edge_of(m: KV, key: Seq<u8>, k: KeyHash, right: bool)
    requires kv_ok(m), key.len() == 32, !m.contains_key(key), bound(m, key, !right, Some(k)), bound(m, key, right, None),
    ensures edge(m, k.0@, 0, right),
{
    assert forall|y: Seq<u8>, j: int| 0 <= j < 256 && #[trigger] under(m, sib_of(k.0@, j), y) implies bitn(k.0@, j) == right by {
        sib_key(m, k.0@, j, y);
        if y != key { nless_total(y, key); }
        nless_not_both(if bitn(k.0@, j) { y } else { k.0@ }, if bitn(k.0@, j) { k.0@ } else { y });
    }
}
pub proof fn edge_in(m: KV, key: Seq<u8>, k: KeyHash, x: KeyHash) -> (d: int)
    requires kv_ok(m), key.len() == 32, !m.contains_key(key), bound(m, key, false, Some(k)), bound(m, key, true, Some(x)),
    ensures 0 <= d < 256, forall|j: int| 0 <= j < d ==> #[trigger] bitn(k.0@, j) == bitn(x.0@, j), !bitn(k.0@, d), bitn(x.0@, d), edge(m, k.0@, d + 1, true), edge(m, x.0@, d + 1, false),
{
    nless_trans(k.0@, key, x.0@);
    let d = parts_at(k.0@, x.0@);
    assert forall|y: Seq<u8>, j: int| d + 1 <= j < 256 && #[trigger] under(m, sib_of(k.0@, j), y) implies bitn(k.0@, j) == true by {
        sib_key(m, k.0@, j, y);
        if !bitn(k.0@, j) {
            assert(bitn(y, d) == bitn(k.0@, d));
            assert forall|i: int| 0 <= i < d implies #[trigger] bitn(y, i) == bitn(x.0@, i) by { assert(bitn(y, i) == bitn(k.0@, i)); assert(bitn(k.0@, i) == bitn(x.0@, i)); }
            bit_less(y, x.0@, d);
            between(m, key, k, x, y);
        }
    }
    assert forall|y: Seq<u8>, j: int| d + 1 <= j < 256 && #[trigger] under(m, sib_of(x.0@, j), y) implies bitn(x.0@, j) == false by {
        sib_key(m, x.0@, j, y);
        if bitn(x.0@, j) {
            assert(bitn(y, d) == bitn(x.0@, d));
            assert forall|i: int| 0 <= i < d implies #[trigger] bitn(k.0@, i) == bitn(y, i) by { assert(bitn(y, i) == bitn(x.0@, i)); assert(bitn(k.0@, i) == bitn(x.0@, i)); }
            bit_less(k.0@, y, d);
            between(m, key, k, x, y);
        }
    }
    d
}
pub proof fn between(m: KV, key: Seq<u8>, k: KeyHash, x: KeyHash, y: Seq<u8>)
    requires kv_ok(m), key.len() == 32, !m.contains_key(key), bound(m, key, false, Some(k)), bound(m, key, true, Some(x)), m.contains_key(y), nless(k.0@, y), nless(y, x.0@),
    ensures false,
{
    nless_total(y, key);
    nless_not_both(k.0@, y);
    nless_not_both(y, x.0@);
}
pub proof fn nless_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires nless(a, b), nless(b, c),
    ensures nless(a, c),
{
    let i = choose|i: int| #[trigger] nlt_at(a, b, i);
    let j = choose|j: int| #[trigger] nlt_at(b, c, j);
    let k = if i < j { i } else { j };
    assert forall|t: int| 0 <= t < k implies #[trigger] nibn(a, t) == nibn(c, t) by { assert(nibn(a, t) == nibn(b, t)); assert(nibn(b, t) == nibn(c, t)); }
    if i < j { assert(nibn(b, i) == nibn(c, i)); } else if j < i { assert(nibn(a, j) == nibn(b, j)); }
    assert(nlt_at(a, c, k));
}
// a path of a key is longer than what it shares with another key of the tree
pub proof fn path_long<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, k: Seq<u8>, x: Seq<u8>, d: int)
    requires shows(pf, m, k), m.contains_key(x), x != k, 0 <= d < 256, forall|j: int| 0 <= j < d ==> #[trigger] bitn(k, j) == bitn(x, j),
    ensures d < pf.siblings@.len(),
{
    let n = pf.siblings@.len() as int;
    if n <= d { assert forall|i: int| 0 <= i < kbits(k, n).len() implies #[trigger] bitn(x, i) == kbits(k, n)[i] by { assert(bitn(k, i) == bitn(x, i)); } assert(under(m, kbits(k, n), x)); }
}
// ---------------------------------------------------------------- a non-existence proof
pub open spec fn true_side<H: SimpleHasher>(o: Option<ExistenceProof>, m: KV, key: Seq<u8>, right: bool) -> bool {
    match o { None => bound(m, key, right, None), Some(p) => exists|k: KeyHash, pf: SparseMerkleProof<H>| #[trigger] side_by(p, pf, m, key, right, k) }
}
pub open spec fn side_by<H: SimpleHasher>(p: ExistenceProof, pf: SparseMerkleProof<H>, m: KV, key: Seq<u8>, right: bool, k: KeyHash) -> bool { bound(m, key, right, Some(k)) && true_exist(p, pf, m, k.0@) }
pub proof fn nonexist_accepted<H: SimpleHasher>(p: NonExistenceProof, m: KV, key: Seq<u8>, sp: ProofSpec)
    requires kv_ok(m), sp_ok(sp), !m.contains_key(sha(key)), p.left is Some || p.right is Some, true_side::<H>(p.left, m, sha(key), false), true_side::<H>(p.right, m, sha(key), true),
    ensures nonexist_ok(p, sp, smt(m, Seq::empty()), key),
{
    let h = sha(key);
    let is = sp.inner_spec->0;
    axiom_sha_len(key);
    if let Some(l) = p.left {
        let (k, pf) = choose|k: KeyHash, pf: SparseMerkleProof<H>| #[trigger] side_by(l, pf, m, h, false, k);
        exist_accepted(l, pf, m, k.0@, sp);
        key_lt_nibs(k.0@, h);
        if p.right is None { edge_of(m, h, k, true); edge_most(l, pf, m, k.0@, sp, 0, true); assert(l.path@.subrange(0, l.path@.len() as int) =~= l.path@); }
        if let Some(r) = p.right {
            let (x, rf) = choose|x: KeyHash, rf: SparseMerkleProof<H>| #[trigger] side_by(r, rf, m, h, true, x);
            let d = edge_in(m, h, k, x);
            assert(k.0@ != x.0@);
            assert forall|j: int| 0 <= j < d implies #[trigger] bitn(x.0@, j) == bitn(k.0@, j) by { assert(bitn(k.0@, j) == bitn(x.0@, j)); }
            path_long(pf, m, k.0@, x.0@, d);
            path_long(rf, m, x.0@, k.0@, d);
            paths_part(l, pf, k.0@, r, rf, x.0@, m, sp, d, 0);
            assert(l.path@.subrange(0, l.path@.len() as int) =~= l.path@);
            assert(r.path@.subrange(0, r.path@.len() as int) =~= r.path@);
        }
    }
    if let Some(r) = p.right {
        let (x, rf) = choose|x: KeyHash, rf: SparseMerkleProof<H>| #[trigger] side_by(r, rf, m, h, true, x);
        exist_accepted(r, rf, m, x.0@, sp);
        key_lt_nibs(h, x.0@);
        if p.left is None { edge_of(m, h, x, false); edge_most(r, rf, m, x.0@, sp, 0, false); assert(r.path@.subrange(0, r.path@.len() as int) =~= r.path@); }
    }
}
// ================================================================ the code
//@type jmt/src/reader.rs Preimage
impl Preimage {
//@fn jmt/src/reader.rs Preimage::key props C14
//@spec
    ensures r@ == self.0@,
//@end
}
// what a store says the originals of its keys are
pub trait HasPreimage: TreeReader {
    spec fn original(&self, k: Seq<u8>) -> Option<Seq<u8>>;
    fn preimage(&self, key_hash: KeyHash) -> (r: Result<Option<Preimage>>)
        ensures r matches Ok(o) ==> self.original(key_hash.0@) == (match o { Some(x) => Some(x.0@), None => None }), self.reliable() ==> r is Ok;
}
pub open spec fn fed(sib: Seq<[u8; 32]>, c: int) -> int { if c <= 256 - sib.len() { 0 } else { c - (256 - sib.len()) } }
pub open spec fn path_to(path: Seq<InnerOp>, k: Seq<u8>, sib: Seq<[u8; 32]>) -> bool {
    path.len() <= sib.len() && forall|i: int| 0 <= i < path.len() ==> op_is(#[trigger] path[i], bitn(k, sib.len() - 1 - i), sib[i]@)
}
pub proof fn low_bit(x: u8, e: u8)
    requires e < 8,
    ensures ((x >> e) & 1 == 1) <==> (x as int / p2(e as int)) % 2 == 1,
{ bit_facts(x); assert((x >> e) & 1 == 0 || (x >> e) & 1 == 1) by (bit_vector); }
//@fn jmt/src/tree/ics23_impl.rs sparse_merkle_proof_to_ics23_existence_proof props C14
//@attr verifier::loop_isolation(false)
//@rewrite? for $id_x in (0..32).rev() { $st_b } ==> for rt_i in 0..32usize { let $id_x = 31 - rt_i; $st_b }
//@rewrite? if $c { $st_a continue; } else { $st_b } ==> if $c { $st_a } else { $st_b }
//@spec
    requires proof.siblings@.len() <= 256,
    ensures proof_is(r, key@, value@, H::dig(key@), proof.siblings@),
//@start
    let ghost sib = proof.siblings@;
    let ghost k = H::dig(key@);
    let ghost n = proof.siblings@.len() as int;
//@loop 0
    invariant sibling_idx == fed(sib, 8 * rt_i), skip == (if 8 * rt_i <= 256 - n { 256 - n - 8 * rt_i } else { 0 }), path@.len() == sibling_idx, path_to(path@, k, sib),
//@loop 1
    invariant sibling_idx == fed(sib, 8 * rt_i + bit_idx), skip == (if 8 * rt_i + bit_idx <= 256 - n { 256 - n - 8 * rt_i - bit_idx } else { 0 }), path@.len() == sibling_idx, path_to(path@, k, sib),
//@loopstart 1
    proof { let j = 255 - (8 * rt_i + bit_idx); assert(j / 8 == 31 - rt_i && j % 8 == 7 - bit_idx); low_bit(key_hash.0[byte_idx as int], bit_idx as u8); }
//@before path.push($x)
    proof {
        let s = sib[sibling_idx as int]@;
        assert(suffix@ =~= if bit == 1 { Seq::<u8>::empty() } else { s });
        assert(prefix@ =~= if bit == 1 { INTERNAL_DOMAIN_SEPARATOR_v() + s } else { INTERNAL_DOMAIN_SEPARATOR_v() });
        assert((bit == 1) == bitn(k, 255 - (8 * rt_i + bit_idx)));
    }
//@tail
    proof { assert(r.leaf->0.prefix@ =~= LEAF_DOMAIN_SEPARATOR_v()); }
//@end

// every key of the tree has an original that is not empty, and so has every value
pub open spec fn sourced<R: HasPreimage, H: SimpleHasher>(r: R, v: u64, m: KV) -> bool {
    forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> (r.original(k) matches Some(p) && p.len() > 0 && H::dig(p) == k) && (r.val(v, k) matches Some(x) && x.len() > 0)
}
pub proof fn side_true<R: HasPreimage, H: SimpleHasher>(r: R, v: u64, m: KV, key: Seq<u8>, right: bool, pf: SparseMerkleProof<H>, p: ExistenceProof)
    requires sourced::<R, H>(r, v, m), vals_ok::<R, H>(r, v, m), kv_ok(m), sha_hasher::<H>(), shows_bound(pf, m, key, right), pf.leaf is Some,
        r.original(pf.leaf->0.k()) is Some, r.val(v, pf.leaf->0.k()) is Some, proof_is(p, r.original(pf.leaf->0.k())->0, r.val(v, pf.leaf->0.k())->0, H::dig(r.original(pf.leaf->0.k())->0), pf.siblings@),
    ensures true_side::<H>(Some(p), m, key, right),
{
    let k = choose|k: KeyHash| #[trigger] bound(m, key, right, Some(k)) && shows(pf, m, k.0@);
    assert(true_exist(p, pf, m, k.0@));
    assert(side_by(p, pf, m, key, right, k));
}
pub open spec fn key_proof<H: SimpleHasher>(p: ExistenceProof, pf: SparseMerkleProof<H>, m: KV, key: Seq<u8>, x: Seq<u8>) -> bool { shows(pf, m, H::dig(key)) && proof_is(p, key, x, H::dig(key), pf.siblings@) }
pub proof fn accepted_exist<R: HasPreimage, H: SimpleHasher>(r: &R, v: u64, p: ExistenceProof, key: Seq<u8>)
    requires sourced::<R, H>(*r, v, tmap(r.nodes(), v)), vals_ok::<R, H>(*r, v, tmap(r.nodes(), v)), kv_ok(tmap(r.nodes(), v)), sha_hasher::<H>(), key.len() > 0, r.val(v, H::dig(key)) == Some(p.value@),
        exists|pf: SparseMerkleProof<H>| #[trigger] key_proof(p, pf, tmap(r.nodes(), v), key, p.value@),
    ensures forall|sp: ProofSpec| #[trigger] sp_ok(sp) ==> exist_ok(p, sp, smt(tmap(r.nodes(), v), Seq::empty()), key, p.value@),
{
    let m = tmap(r.nodes(), v);
    let pf = choose|pf: SparseMerkleProof<H>| #[trigger] key_proof(p, pf, m, key, p.value@);
    assert(true_exist(p, pf, m, H::dig(key)));
    assert forall|sp: ProofSpec| #[trigger] sp_ok(sp) implies exist_ok(p, sp, smt(m, Seq::empty()), key, p.value@) by { exist_accepted(p, pf, m, H::dig(key), sp); }
}
// what a side is made of
pub open spec fn side_made<R: HasPreimage, H: SimpleHasher>(rd: R, v: u64, pf: SparseMerkleProof<H>, p: ExistenceProof) -> bool {
    rd.original(pf.leaf->0.k()) is Some && rd.val(v, pf.leaf->0.k()) is Some && proof_is(p, rd.original(pf.leaf->0.k())->0, rd.val(v, pf.leaf->0.k())->0, H::dig(rd.original(pf.leaf->0.k())->0), pf.siblings@)
}
pub proof fn sides_true<R: HasPreimage, H: SimpleHasher>(rd: &R, v: u64, m: KV, h: Seq<u8>)
    requires vals_ok::<R, H>(*rd, v, m), kv_ok(m),
    ensures sourced::<R, H>(*rd, v, m) && sha_hasher::<H>() ==> forall|pf: SparseMerkleProof<H>, right: bool, p: ExistenceProof| #[trigger] shows_bound(pf, m, h, right) && #[trigger] side_made::<R, H>(*rd, v, pf, p) ==> true_side::<H>(Some(p), m, h, right),
{
    if sourced::<R, H>(*rd, v, m) && sha_hasher::<H>() {
        assert forall|pf: SparseMerkleProof<H>, right: bool, p: ExistenceProof| #[trigger] shows_bound(pf, m, h, right) && #[trigger] side_made::<R, H>(*rd, v, pf, p) implies true_side::<H>(Some(p), m, h, right) by { side_true::<R, H>(*rd, v, m, h, right, pf, p); }
    }
}
pub open spec fn sided<R: HasPreimage, H: SimpleHasher>(rd: R, v: u64, e: ExclusionProof<H>, x: NonExistenceProof) -> bool {
    match e {
        ExclusionProof::Leftmost { leftmost_right_proof } => x.left is None && x.right is Some && side_made::<R, H>(rd, v, leftmost_right_proof, x.right->0),
        ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => x.left is Some && x.right is Some && side_made::<R, H>(rd, v, leftmost_right_proof, x.right->0) && side_made::<R, H>(rd, v, rightmost_left_proof, x.left->0),
        ExclusionProof::Rightmost { rightmost_left_proof } => x.left is Some && x.right is None && side_made::<R, H>(rd, v, rightmost_left_proof, x.left->0),
    }
}
pub proof fn sides_done<R: HasPreimage, H: SimpleHasher>(rd: &R, v: u64, e: ExclusionProof<H>, x: NonExistenceProof, m: KV, h: Seq<u8>)
    requires vals_ok::<R, H>(*rd, v, m), kv_ok(m), excludes(e, m, h), sided::<R, H>(*rd, v, e, x),
    ensures sourced::<R, H>(*rd, v, m) && sha_hasher::<H>() ==> (x.left is Some || x.right is Some) && true_side::<H>(x.left, m, h, false) && true_side::<H>(x.right, m, h, true),
{ sides_true::<R, H>(rd, v, m, h); }
pub open spec fn exist_for<R: HasPreimage, H: SimpleHasher>(r: R, v: u64, p: ExistenceProof, key: Seq<u8>) -> bool { r.val(v, H::dig(key)) == Some(p.value@) && exists|pf: SparseMerkleProof<H>| #[trigger] key_proof(p, pf, tmap(r.nodes(), v), key, p.value@) }
pub open spec fn nonexist_for<R: HasPreimage, H: SimpleHasher>(r: R, v: u64, p: NonExistenceProof, key: Seq<u8>) -> bool {
    !tmap(r.nodes(), v).contains_key(H::dig(key)) && (sourced::<R, H>(r, v, tmap(r.nodes(), v)) && sha_hasher::<H>() ==> (p.left is Some || p.right is Some) && true_side::<H>(p.left, tmap(r.nodes(), v), H::dig(key), false) && true_side::<H>(p.right, tmap(r.nodes(), v), H::dig(key), true))
}
pub proof fn all_accepted<R: HasPreimage, H: SimpleHasher>(r: &R, v: u64, c: CommitmentProof, key: Seq<u8>)
    requires vals_ok::<R, H>(*r, v, tmap(r.nodes(), v)), kv_ok(tmap(r.nodes(), v)),
        match c.proof { Some(CProof::Exist(p)) => exist_for::<R, H>(*r, v, p, key), Some(CProof::Nonexist(p)) => nonexist_for::<R, H>(*r, v, p, key), None => true },
    ensures sourced::<R, H>(*r, v, tmap(r.nodes(), v)) && sha_hasher::<H>() ==> match c.proof {
            Some(CProof::Exist(p)) => key.len() > 0 ==> forall|sp: ProofSpec| #[trigger] sp_ok(sp) ==> exist_ok(p, sp, smt(tmap(r.nodes(), v), Seq::empty()), key, p.value@),
            Some(CProof::Nonexist(p)) => forall|sp: ProofSpec| #[trigger] sp_ok(sp) ==> nonexist_ok(p, sp, smt(tmap(r.nodes(), v), Seq::empty()), key),
            None => true,
        },
{
    let m = tmap(r.nodes(), v);
    if sourced::<R, H>(*r, v, m) && sha_hasher::<H>() {
        match c.proof {
            Some(CProof::Exist(p)) => { if key.len() > 0 { accepted_exist::<R, H>(r, v, p, key); } }
            Some(CProof::Nonexist(p)) => { assert forall|sp: ProofSpec| #[trigger] sp_ok(sp) implies nonexist_ok(p, sp, smt(m, Seq::empty()), key) by { nonexist_accepted::<H>(p, m, key, sp); } }
            None => { }
        }
    }
}
impl<R: HasPreimage, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree/ics23_impl.rs JellyfishMerkleTree::exclusion_proof_to_ics23_nonexistence_proof props C14
//@rewrite? match proof { $b } ==> match (proof) { $b }
//@rewrite? anyhow::rt_err() ==> rt_err()
//@spec
    requires version_ok::<R, H>(*self.reader, version), self.nodes().contains_key(root_key(version)), excludes(*proof, tmap(self.nodes(), version), H::dig(key@)),
    ensures r matches Ok(x) ==> x.key@ == key@ && (sha_hasher::<H>() && sourced::<R, H>(*self.reader, version, tmap(self.nodes(), version)) ==> (x.left is Some || x.right is Some) && true_side::<H>(x.left, tmap(self.nodes(), version), H::dig(key@), false) && true_side::<H>(x.right, tmap(self.nodes(), version), H::dig(key@), true)),
        self.reader.reliable() && sourced::<R, H>(*self.reader, version, tmap(self.nodes(), version)) ==> r is Ok,
//@start
    let ghost w = self.nodes();
    let ghost m = tmap(w, version);
    let ghost h = H::dig(key@);
    proof {
        root_facts::<R, H>(&*self.reader, version);
        sides_true::<R, H>(&*self.reader, version, m, h);
    }
//@tail
    proof { if r is Ok { sides_done::<R, H>(&*self.reader, version, *proof, r->Ok_0, m, h); } }
//@end
//@fn jmt/src/tree/ics23_impl.rs JellyfishMerkleTree::get_with_ics23_proof props C14
//@before Ok((Some(value), ics23::CommitmentProof { $x }))
    assert(key_proof(ics23_exist, proof, m, key0, value@));
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(x) ==> self.nodes().contains_key(root_key(version)) && ov(x.0) == self.reader.val(version, H::dig(key@)),
        r matches Ok(x) ==> sha_hasher::<H>() && sourced::<R, H>(*self.reader, version, tmap(self.nodes(), version)) ==> match (x.0, x.1.proof) {
                (Some(value), Some(CProof::Exist(p))) => key@.len() > 0 ==> forall|sp: ProofSpec| #[trigger] sp_ok(sp) ==> exist_ok(p, sp, self.nodes()[root_key(version)].hsh(), key@, value@),
                (None, Some(CProof::Nonexist(p))) => forall|sp: ProofSpec| #[trigger] sp_ok(sp) ==> nonexist_ok(p, sp, self.nodes()[root_key(version)].hsh(), key@),
                _ => false,
            },
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) && !(self.nodes()[root_key(version)] is Null) && sourced::<R, H>(*self.reader, version, tmap(self.nodes(), version)) ==> r is Ok,
//@start
    let ghost m = tmap(self.nodes(), version);
    let ghost h = H::dig(key@);
    let ghost key0 = key@;
    proof { root_facts::<R, H>(&*self.reader, version); }
//@tail
    proof { if r is Ok { all_accepted::<R, H>(&*self.reader, version, r->Ok_0.1, key0); } }
//@end
}
//@fn jmt/src/tree/ics23_impl.rs ics23_spec props C14
//@spec
    ensures sp_ok(r),
//@tail
    proof {
        assert(r.leaf_spec->0.prefix@ =~= LEAF_DOMAIN_SEPARATOR_v());
        assert(r.inner_spec->0.empty_child@ =~= ph());
        assert(r.inner_spec->0.child_order@ =~= seq![0i32, 1i32]);
    }
//@end
} // verus!
