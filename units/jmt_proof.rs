// U3: jmt/src/types/proof.rs and jmt/src/types/proof/definition.rs (C12)
//@common self.leaf.map_or($d, |leaf| leaf.hash()) ==> (match self.leaf { Some(leaf) => leaf.hash(), None => $d })
verus! {
//@type jmt/src/lib.rs PhantomHasher core::marker::PhantomData ==> std::marker::PhantomData
//@type jmt/src/types/proof/definition.rs SparseMerkleProof
pub open spec fn start_hash(leaf: Option<SparseMerkleLeafNode>) -> Seq<u8> { match leaf { Some(l) => lh(l.k(), l.v()), None => ph() } }
pub open spec fn start_hashed(leaf: Option<SparseMerkleLeafNode>) -> bool { leaf matches Some(l) ==> hashed(leaf_pre(l.k(), l.v())) }
pub open spec fn ob<V: RtBytes>(v: Option<V>) -> Option<Seq<u8>> { match v { Some(x) => Some(x.rb()), None => None } }
impl<H: SimpleHasher> SparseMerkleProof<H> {
    // exactly the statements verification accepts
    pub open spec fn accepts(&self, root: Seq<u8>, key: Seq<u8>, value: Option<Seq<u8>>) -> bool {
        &&& self.siblings@.len() <= 256
        &&& match (value, self.leaf) {
            (Some(v), Some(l)) => l.k() == key && l.v() == H::dig(v),
            (Some(_), None) => false,
            (None, Some(l)) => l.k() != key && same_upto(bits_of(key), bits_of(l.k()), self.siblings@.len() as int),
            (None, None) => true,
        }
        &&& fold_at(self.siblings@, key, start_hash(self.leaf), 0) =~= root
    }
    pub open spec fn ran(&self, key: Seq<u8>, value: Option<Seq<u8>>) -> bool {
        &&& fold_hashed(self.siblings@, key, start_hash(self.leaf), 0) && start_hashed(self.leaf)
        &&& (value matches Some(v) ==> H::seen(v))
    }
//@fn jmt/src/types/proof/definition.rs SparseMerkleProof::new props C12 C11
//@rewrite? phantom_hasher: Default::default() ==> phantom_hasher: PhantomHasher(std::marker::PhantomData)
//@spec
    ensures r.leaf == leaf, r.siblings == siblings,
//@end
//@fn jmt/src/types/proof/definition.rs SparseMerkleProof::leaf props C12 C11
//@spec
    ensures r == self.leaf,
//@end
//@fn jmt/src/types/proof/definition.rs SparseMerkleProof::siblings props C12 C11
//@spec
    ensures r@ == self.siblings@,
//@end
//@fn jmt/src/types/proof/definition.rs SparseMerkleProof::verify_existence props C12 C11
//@sig V: AsRef<[u8]>> ==> V: RtBytes>
//@spec
    ensures r is Ok <==> self.accepts(expected_root_hash.0@, element_key.0@, Some(element_value.rb())), r is Ok ==> self.ran(element_key.0@, Some(element_value.rb())),
//@end
//@fn jmt/src/types/proof/definition.rs SparseMerkleProof::verify_nonexistence props C12 C11
//@spec
    ensures r is Ok <==> self.accepts(expected_root_hash.0@, element_key.0@, None), r is Ok ==> self.ran(element_key.0@, None),
//@end
//@fn jmt/src/types/proof/definition.rs SparseMerkleProof::verify props C12 C11
//@sig V: AsRef<[u8]>> ==> V: RtBytes>
//@rewrite? self.siblings.iter().zip($b.iter_bits().rev().skip($k),).fold($init, |$id_h, ($id_s, $id_b)| { $s }) ==> { let rt_a = &self.siblings; let rt_key = $b; let mut rt_b = rt_key.iter_bits(); let rt_k = $k; let mut rt_i: usize = 0; while rt_i < rt_k { rt_b.next_back(); rt_i = rt_i + 1; } let mut $id_h = $init; let mut rt_j: usize = 0; while rt_j < rt_a.len() { let $id_s = &rt_a[rt_j]; match rt_b.next_back() { None => { break; } Some($id_b) => { $id_h = { $s }; } } rt_j = rt_j + 1; } $id_h }
//@spec
    ensures r is Ok <==> self.accepts(expected_root_hash.0@, element_key.0@, ob(element_value)), r is Ok ==> self.ran(element_key.0@, ob(element_value)),
//@start
    proof {
        assert forall|k: Seq<u8>, n: int, c: int| #[trigger] lcpb(bits_of(element_key.0@), bits_of(k), n) && k.len() == 32 && 0 <= c <= 256 implies (n >= c <==> #[trigger] same_upto(bits_of(element_key.0@), bits_of(k), c)) by {
            if n < c && same_upto(bits_of(element_key.0@), bits_of(k), c) { assert(bits_of(element_key.0@)[n] == bits_of(k)[n]); }
        }
    }
//@loop 0
    invariant rt_b.wf(), rt_b.hash_bytes@ == element_key.0@, rt_b.pos.start == 0, rt_b.pos.end == 256 - rt_i, rt_i <= rt_k <= 256,
    decreases rt_k - rt_i,
//@loop 1
    invariant rt_b.wf(), rt_b.hash_bytes@ == element_key.0@, rt_b.pos.start == 0, rt_b.pos.end == rt_a@.len() - rt_j, rt_j <= rt_a@.len() <= 256, rt_a == self.siblings,
        hash@ == fold_at(self.siblings@, element_key.0@, start_hash(self.leaf), rt_a@.len() - rt_j),
        fold_hashed(self.siblings@, element_key.0@, start_hash(self.leaf), rt_a@.len() - rt_j),
    ensures rt_j == rt_a@.len(),
    decreases rt_a@.len() - rt_j,
//@loopstart 1
    let ghost h0 = hash@;
//@loopend 1
    assert(hashed(fold_pre(self.siblings@, element_key.0@, start_hash(self.leaf), rt_a@.len() - rt_j)));
//@end
//@fn jmt/src/types/proof/definition.rs SparseMerkleProof::root_hash props C12 C11
//@rewrite? self.siblings.iter().zip($b.iter_bits().rev().skip($k),).fold($init, |$id_h, ($id_s, $id_b)| { $s }) ==> { let rt_a = &self.siblings; let rt_key = $b; let mut rt_b = rt_key.iter_bits(); let rt_k = $k; let mut rt_i: usize = 0; while rt_i < rt_k { rt_b.next_back(); rt_i = rt_i + 1; } let mut $id_h = $init; let mut rt_j: usize = 0; while rt_j < rt_a.len() { let $id_s = &rt_a[rt_j]; match rt_b.next_back() { None => { break; } Some($id_b) => { $id_h = { $s }; } } rt_j = rt_j + 1; } $id_h }
//@spec
    requires self.leaf is Some, self.siblings@.len() <= 256,
    ensures r.0@ == fold_at(self.siblings@, self.leaf->0.k(), start_hash(self.leaf), 0),
//@start
    let ghost kk = self.leaf->0.k();
//@loop 0
    invariant rt_b.wf(), rt_b.hash_bytes@ == kk, rt_b.pos.start == 0, rt_b.pos.end == 256 - rt_i, rt_i <= rt_k <= 256,
    decreases rt_k - rt_i,
//@loop 1
    invariant rt_b.wf(), rt_b.hash_bytes@ == kk, rt_b.pos.start == 0, rt_b.pos.end == rt_a@.len() - rt_j, rt_j <= rt_a@.len() <= 256, rt_a == self.siblings,
        hash@ == fold_at(self.siblings@, kk, start_hash(self.leaf), rt_a@.len() - rt_j),
    ensures rt_j == rt_a@.len(),
    decreases rt_a@.len() - rt_j,
//@end
}
// C12: what verification accepts holds of every map whose root it was given
pub proof fn c12_sound<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, key: Seq<u8>, value: Option<Seq<u8>>)
    requires kv_ok(m), smt_hashed(m, Seq::empty()), key.len() == 32, pf.accepts(smt(m, Seq::empty()), key, value), pf.ran(key, value),
    ensures value matches Some(v) ==> m.contains_key(key) && m[key] == H::dig(v),
        value is None ==> !m.contains_key(key),
        // and no other value with that hash was ever hashed
        forall|v: Seq<u8>, w: Seq<u8>| value == Some(v) && #[trigger] H::seen(w) && m.contains_key(key) && m[key] == H::dig(w) ==> #[trigger] H::seen(v) && v == w,
{
    let n = pf.siblings@.len() as int;
    assert(pre(kbits(key, n), key));
    match pf.leaf {
        Some(l) => {
            c12_leaf(m, pf.siblings@, key, l.k(), l.v());
            if m.contains_key(key) { assert(under(m, kbits(key, n), key)); }
        }
        None => {
            c12_empty(m, pf.siblings@, key);
            if m.contains_key(key) { assert(under(m, kbits(key, n), key)); }
        }
    }
    assert forall|v: Seq<u8>, w: Seq<u8>| value == Some(v) && #[trigger] H::seen(w) && m.contains_key(key) && m[key] == H::dig(w) implies #[trigger] H::seen(v) && v == w by { H::no_collision(v, w); }
}
// ================================================================ range proofs
//@type jmt/src/types/proof/definition.rs SparseMerkleRangeProof
// the siblings of a path: where the key's bit is 1 the next left one, where it is 0 the next right one (bottom first)
pub open spec fn zeros(key: Seq<u8>, lo: int, hi: int) -> int decreases hi - lo { if lo >= hi { 0 } else { zeros(key, lo + 1, hi) + (if bitn(key, lo) { 0int } else { 1int }) } }
pub open spec fn mixed(key: Seq<u8>, left: Seq<[u8; 32]>, right: Seq<[u8; 32]>, n: int) -> Seq<[u8; 32]> {
    Seq::new(n as nat, |i: int| if bitn(key, n - 1 - i) { left[i - zeros(key, n - i, n)] } else { right[zeros(key, n - i, n)] })
}
pub proof fn zeros_bound(key: Seq<u8>, n: int)
    ensures forall|lo: int| 0 <= lo <= n ==> 0 <= #[trigger] zeros(key, lo, n) <= n - lo && zeros(key, lo, n) <= zeros(key, 0, n) <= lo + zeros(key, lo, n),
{
    assert forall|lo: int| 0 <= lo <= n implies 0 <= #[trigger] zeros(key, lo, n) <= n - lo && zeros(key, lo, n) <= zeros(key, 0, n) <= lo + zeros(key, lo, n) by { zeros_bound1(key, lo, n); zeros_bound0(key, lo, n); }
}
pub proof fn zeros_bound0(key: Seq<u8>, lo: int, n: int)
    requires 0 <= lo <= n,
    ensures zeros(key, lo, n) <= zeros(key, 0, n) <= lo + zeros(key, lo, n),
    decreases lo,
{ if lo > 0 { zeros_bound0(key, lo - 1, n); } }
pub proof fn zeros_bound1(key: Seq<u8>, lo: int, n: int)
    requires 0 <= lo <= n,
    ensures 0 <= zeros(key, lo, n) <= n - lo,
    decreases n - lo,
{ if lo < n { zeros_bound1(key, lo + 1, n); } }
impl SparseMerkleRangeProof {
    pub open spec fn accepts(&self, root: Seq<u8>, leaf: SparseMerkleLeafNode, left: Seq<[u8; 32]>) -> bool {
        let n = left.len() + self.right_siblings@.len();
        &&& n <= 256
        &&& zeros(leaf.k(), 0, n as int) == self.right_siblings@.len()
        &&& fold_at(mixed(leaf.k(), left, self.right_siblings@, n as int), leaf.k(), lh(leaf.k(), leaf.v()), 0) =~= root
    }
//@fn jmt/src/types/proof/definition.rs SparseMerkleRangeProof::new props C12 C17
//@spec
    ensures r.right_siblings == right_siblings,
//@end
//@fn jmt/src/types/proof/definition.rs SparseMerkleRangeProof::right_siblings props C12 C17
//@spec
    ensures r@ == self.right_siblings@,
//@end
//@fn jmt/src/types/proof/definition.rs SparseMerkleRangeProof::verify props C12 C17
//@rewrite? for $id_b in $x.iter_bits().rev().skip($k) { ==> let rt_key = $x; let mut rt_b = rt_key.iter_bits(); let rt_k = $k; let mut rt_i: usize = 0; while rt_i < rt_k { rt_b.next_back(); rt_i = rt_i + 1; } loop { let $id_b = match rt_b.next_back() { None => { break; } Some(rt_x) => rt_x };
//@spec
    requires left_siblings@.len() + self.right_siblings@.len() <= usize::MAX,
    ensures r is Ok <==> self.accepts(expected_root_hash.0@, rightmost_known_leaf, left_siblings@),
        r is Ok ==> hashed(leaf_pre(rightmost_known_leaf.k(), rightmost_known_leaf.v())) && fold_hashed(mixed(rightmost_known_leaf.k(), left_siblings@, self.right_siblings@, (left_siblings@.len() + self.right_siblings@.len()) as int), rightmost_known_leaf.k(), lh(rightmost_known_leaf.k(), rightmost_known_leaf.v()), 0),
//@start
    let ghost kk = rightmost_known_leaf.k();
    let ghost h0 = lh(rightmost_known_leaf.k(), rightmost_known_leaf.v());
    let ghost ll = left_siblings@;
    let ghost rr = self.right_siblings@;
    let ghost n = (left_siblings@.len() + self.right_siblings@.len()) as int;
    proof { zeros_bound(kk, n); }
//@loop 0
    invariant rt_b.wf(), rt_b.hash_bytes@ == kk, rt_b.pos.start == 0, rt_b.pos.end == 256 - rt_i, rt_i <= rt_k <= 256, rt_key@ == kk,
    decreases rt_k - rt_i,
//@loop 1
    invariant_except_break n == ll.len() + rr.len(), ll == left_siblings@, rr == self.right_siblings@, n == num_siblings, n <= 256,
        kk == rightmost_known_leaf.k(), h0 == lh(rightmost_known_leaf.k(), rightmost_known_leaf.v()),
        forall|lo: int| 0 <= lo <= n ==> 0 <= #[trigger] zeros(kk, lo, n) <= n - lo && zeros(kk, lo, n) <= zeros(kk, 0, n) <= lo + zeros(kk, lo, n),
        rt_b.wf(), rt_b.hash_bytes@ == kk, rt_b.pos.start == 0, rt_b.pos.end <= n,
        zeros(kk, rt_b.pos.end as int, n) + right_sibling_iter.remaining().len() == rr.len(),
        n - rt_b.pos.end - zeros(kk, rt_b.pos.end as int, n) + left_sibling_iter.remaining().len() == ll.len(),
        forall|i: int| 0 <= i < right_sibling_iter.remaining().len() ==> *#[trigger] right_sibling_iter.remaining()[i] == rr[zeros(kk, rt_b.pos.end as int, n) + i],
        forall|i: int| 0 <= i < left_sibling_iter.remaining().len() ==> *#[trigger] left_sibling_iter.remaining()[i] == ll[n - rt_b.pos.end - zeros(kk, rt_b.pos.end as int, n) + i],
        current_hash@ == fold_at(mixed(kk, ll, rr, n), kk, h0, rt_b.pos.end as int),
        fold_hashed(mixed(kk, ll, rr, n), kk, h0, rt_b.pos.end as int),
    ensures zeros(kk, 0, n) == rr.len(), current_hash@ == fold_at(mixed(kk, ll, rr, n), kk, h0, 0), fold_hashed(mixed(kk, ll, rr, n), kk, h0, 0),
    decreases rt_b.pos.end,
//@loopend 1
    assert(hashed(fold_pre(mixed(kk, ll, rr, n), kk, h0, rt_b.pos.end as int)));
//@end
}
// C12: a range proof that is accepted shows the leaf to be in the map, and the siblings to be the map's subtrees beside its path
pub proof fn c12_range(pf: SparseMerkleRangeProof, m: KV, leaf: SparseMerkleLeafNode, left: Seq<[u8; 32]>)
    requires kv_ok(m), smt_hashed(m, Seq::empty()), pf.accepts(smt(m, Seq::empty()), leaf, left), hashed(leaf_pre(leaf.k(), leaf.v())),
        fold_hashed(mixed(leaf.k(), left, pf.right_siblings@, (left.len() + pf.right_siblings@.len()) as int), leaf.k(), lh(leaf.k(), leaf.v()), 0),
    ensures m.contains_key(leaf.k()) && m[leaf.k()] == leaf.v(),
        ({ let n = left.len() + pf.right_siblings@.len(); let sib = mixed(leaf.k(), left, pf.right_siblings@, n as int);
           forall|i: int| 0 <= i < n ==> (#[trigger] sib[n - 1 - i])@ == smt(m, kbits(leaf.k(), i).push(!bitn(leaf.k(), i))) }),
{
    let n = left.len() + pf.right_siblings@.len();
    let sib = mixed(leaf.k(), left, pf.right_siblings@, n as int);
    axiom_sha_len(leaf_pre(leaf.k(), leaf.v()));
    c12_leaf(m, sib, leaf.k(), leaf.k(), leaf.v());
    assert(under(m, kbits(leaf.k(), n as int), leaf.k()));
    fold_sound(m, sib, leaf.k(), lh(leaf.k(), leaf.v()), n as int);
}
} // verus!
