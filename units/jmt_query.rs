// jmt/src/tree.rs: root, size, and range proofs (C09, C17, C21)
//@common self.get_root_node($a).map(|$id_n| $e) ==> (match self.get_root_node($a) { Ok($id_n) => Ok($e), Err(rt_e) => Err(rt_e) })
//@common self.get_root_node_option($a)?.map(|$id_n| $e) ==> (match self.get_root_node_option($a)? { Some($id_n) => Some($e), None => None })
verus! {
// ---------------------------------------------------------------- the siblings on either side of a path
// among the first j siblings from the top, those to the right (key bit 0) or left (key bit 1)
pub open spec fn picked(t: Seq<[u8; 32]>, key: Seq<u8>, right: bool, j: int) -> Seq<[u8; 32]>
    decreases j,
{ if j <= 0 { Seq::empty() } else if bitn(key, j - 1) != right { picked(t, key, right, j - 1).push(t[j - 1]) } else { picked(t, key, right, j - 1) } }
pub proof fn zeros_split(key: Seq<u8>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c,
    ensures zeros(key, a, c) == zeros(key, a, b) + zeros(key, b, c),
    decreases b - a,
{ if a < b { zeros_split(key, a + 1, b, c); } }
pub proof fn picked_at(t: Seq<[u8; 32]>, key: Seq<u8>, j: int, b: int)
    requires 0 <= b < j <= t.len(),
    ensures picked(t, key, true, j).len() == zeros(key, 0, j), picked(t, key, false, j).len() == j - zeros(key, 0, j),
        0 <= zeros(key, 0, b) <= b, zeros(key, 0, b) <= zeros(key, 0, j), b - zeros(key, 0, b) <= j - zeros(key, 0, j),
        !bitn(key, b) ==> zeros(key, 0, b) < zeros(key, 0, j) && picked(t, key, true, j)[zeros(key, 0, b)] == t[b],
        bitn(key, b) ==> b - zeros(key, 0, b) < j - zeros(key, 0, j) && picked(t, key, false, j)[b - zeros(key, 0, b)] == t[b],
    decreases j,
{
    zeros_split(key, 0, j - 1, j);
    zeros_split(key, 0, b, j);
    zeros_bound1(key, 0, b);
    zeros_bound1(key, b, j);
    zeros_split(key, b, b + 1, j);
    zeros_bound1(key, b + 1, j);
    assert(zeros(key, j, j) == 0);
    assert(zeros(key, j - 1, j) == if bitn(key, j - 1) { 0int } else { 1int });
    assert(zeros(key, b + 1, b + 1) == 0);
    assert(zeros(key, b, b + 1) == if bitn(key, b) { 0int } else { 1int });
    if j - 1 > b { picked_at(t, key, j - 1, b); }
    else if b > 0 { picked_at(t, key, j - 1, b - 1); }
    else { assert(picked(t, key, true, 0).len() == 0 && zeros(key, 0, 0) == 0 && picked(t, key, false, 0).len() == 0); }
}
// C17: the right siblings of an inclusion proof, with the left ones known, are accepted as a range proof ending at the key
pub proof fn range_complete<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, l: SparseMerkleLeafNode, rp: SparseMerkleRangeProof)
    requires true_proof(pf, m, l.k()), kv_ok(m), l.k().len() == 32, pf.leaf == Some(l), m.contains_key(l.k()), m[l.k()] == l.v(),
        rp.right_siblings@ == picked(pf.siblings@.reverse(), l.k(), true, pf.siblings@.len() as int).reverse(),
    ensures rp.accepts(smt(m, Seq::empty()), l, picked(pf.siblings@.reverse(), l.k(), false, pf.siblings@.len() as int).reverse()),
{
    let t = pf.siblings@.reverse();
    let n = t.len() as int;
    let key = l.k();
    let right = picked(t, key, true, n);
    let left = picked(t, key, false, n);
    assert(zeros(key, 0, 0) == 0);
    if n > 0 { picked_at(t, key, n, 0); } else { assert(left.len() == 0 && right.len() == 0); }
    let mx = mixed(key, left.reverse(), right.reverse(), n);
    assert forall|i: int| 0 <= i < n implies mx[i] == pf.siblings@[i] by {
        let b = n - 1 - i;
        picked_at(t, key, n, b);
        zeros_split(key, 0, b, n);
        zeros_split(key, b, b + 1, n);
        assert(zeros(key, b + 1, b + 1) == 0);
        assert(zeros(key, b, b + 1) == if bitn(key, b) { 0int } else { 1int });
        assert(t[b] == pf.siblings@[i]);
        assert(n - i == b + 1);
        zeros_bound1(key, b + 1, n);
    }
    assert(mx =~= pf.siblings@);
    tsteps_fold(m, key, t, 0);
    assert(t.reverse() =~= pf.siblings@);
    assert(kbits(key, 0) =~= Seq::<bool>::empty());
    let q = kbits(key, n);
    kbits_push(key, n);
    assert(under(m, q, key));
    let y = choose|y: Seq<u8>| only(m, q, y);
    assert(under(m, q, y));
    assert(smt(m, q) == lh(key, l.v()));
}
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs JellyfishMerkleTree::new props C09
//@rewrite? _phantom_hasher: Default::default() ==> _phantom_hasher: PhantomHasher(std::marker::PhantomData)
//@spec
    ensures r.reader == reader, r.leaf_count_migration,
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::new_migration props C09
//@rewrite? _phantom_hasher: Default::default() ==> _phantom_hasher: PhantomHasher(std::marker::PhantomData)
//@spec
    ensures r.reader == reader, r.leaf_count_migration == leaf_count_migration,
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_root_node_option props C09 C16
//@spec
    ensures r matches Ok(o) ==> o == at(self.nodes(), root_key(version)), self.reader.reliable() ==> r is Ok,
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_root_node props C09 C16
//@spec
    ensures r matches Ok(n) ==> at(self.nodes(), root_key(version)) == Some(n), self.reader.reliable() && self.nodes().contains_key(root_key(version)) ==> r is Ok,
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_root_hash props C09 C10
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(h) ==> self.nodes().contains_key(root_key(version)) && h.0@ == smt(tmap(self.nodes(), version), Seq::empty()),
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) ==> r is Ok,
//@start
    proof { root_facts::<R, H>(&*self.reader, version); }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_root_hash_option props C09 C10
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(o) ==> match o { Some(h) => self.nodes().contains_key(root_key(version)) && h.0@ == smt(tmap(self.nodes(), version), Seq::empty()), None => !self.nodes().contains_key(root_key(version)) },
        self.reader.reliable() ==> r is Ok,
//@start
    proof { root_facts::<R, H>(&*self.reader, version); }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_leaf_count props C21
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(o) ==> if self.leaf_count_migration { self.nodes().contains_key(root_key(version)) && (o matches Some(n) && n == tmap(self.nodes(), version).dom().len()) } else { o is None },
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) ==> r is Ok,
//@start
    proof { root_facts::<R, H>(&*self.reader, version); }
//@end
//@fn jmt/src/tree.rs JellyfishMerkleTree::get_range_proof props C17 C11
//@rewrite? let $id_x = $p.siblings().iter().rev().zip($k.iter_bits()).filter_map(|($id_s, $id_b)| { $e }).rev().collect(); ==> let $id_x = { let rt_s = $p.siblings(); let rt_key = $k; let mut rt_b = rt_key.iter_bits(); let mut rt_i = rt_s.len(); let mut rt_out: Vec<[u8; 32]> = Vec::new(); while rt_i > 0 { rt_i = rt_i - 1; let $id_s = &rt_s[rt_i]; match rt_b.next() { None => { break; } Some($id_b) => { let rt_o: Option<[u8; 32]> = { $e }; match rt_o { Some(rt_x) => { rt_out.push(rt_x); } None => { } } } } } rt_reverse(&mut rt_out); rt_out };
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(rp) ==> range_of::<H>(tmap(self.nodes(), version), rightmost_key_to_prove.0@, rp),
        r is Ok ==> self.nodes().contains_key(root_key(version)) && tmap(self.nodes(), version).contains_key(rightmost_key_to_prove.0@),
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) && tmap(self.nodes(), version).contains_key(rightmost_key_to_prove.0@) ==> r is Ok,
//@loop 0
    invariant rt_i <= rt_s.len() <= 256, rt_s@ == proof.siblings@, rt_b.wf(), rt_b.hash_bytes@ == rightmost_key_to_prove.0@, rt_b.pos.start == rt_s.len() - rt_i, rt_b.pos.end == 256,
        rt_out@ =~= picked(rt_s@.reverse(), rightmost_key_to_prove.0@, true, rt_s.len() - rt_i),
    ensures rt_out@ =~= picked(rt_s@.reverse(), rightmost_key_to_prove.0@, true, rt_s.len() as int),
    decreases rt_i,
//@loopstart 0
    assert(rt_s@.reverse()[rt_s.len() - rt_i] == rt_s@[rt_i - 1]);
//@before Ok(SparseMerkleRangeProof::new($x))
    proof { true_leaf(&proof, tmap(self.nodes(), version), rightmost_key_to_prove.0@); root_facts::<R, H>(&*self.reader, version);
        assert forall|rp: SparseMerkleRangeProof| rp.right_siblings@ == siblings@ implies #[trigger] range_of::<H>(tmap(self.nodes(), version), rightmost_key_to_prove.0@, rp) by { assert(range_by(proof, tmap(self.nodes(), version), rightmost_key_to_prove.0@, rp)); } }
//@end
}
pub proof fn true_leaf<H: SimpleHasher>(pf: &SparseMerkleProof<H>, m: KV, k: Seq<u8>)
    requires true_proof(*pf, m, k), kv_ok(m), k.len() == 32, m.contains_key(k),
    ensures pf.leaf matches Some(l) && l.k() == k && l.v() == m[k],
{
    let q = kbits(k, pf.siblings@.len() as int);
    kbits_push(k, pf.siblings@.len() as int);
    assert(under(m, q, k));
    if let Some(l) = pf.leaf { assert(under(m, q, l.k())); }
}
pub open spec fn range_by<H: SimpleHasher>(pf: SparseMerkleProof<H>, m: KV, k: Seq<u8>, rp: SparseMerkleRangeProof) -> bool {
    true_proof(pf, m, k) && (pf.leaf matches Some(l) && l.k() == k && m[k] == l.v()) && rp.right_siblings@ == picked(pf.siblings@.reverse(), k, true, pf.siblings@.len() as int).reverse()
}
pub open spec fn range_of<H: SimpleHasher>(m: KV, k: Seq<u8>, rp: SparseMerkleRangeProof) -> bool { exists|pf: SparseMerkleProof<H>| #[trigger] range_by(pf, m, k, rp) }
pub proof fn root_facts<R: TreeReader, H: SimpleHasher>(r: &R, v: u64)
    requires version_ok::<R, H>(*r, v),
    ensures r.nodes().contains_key(root_key(v)) ==> ({ let m = tmap(r.nodes(), v); let n = r.nodes()[root_key(v)];
        holds(r.nodes(), v, m) && n.wf() && n.hsh() == smt(m, Seq::empty()) && n.lc() == Some(m.dom().len() as int) }),
{
    let w = r.nodes();
    if w.contains_key(root_key(v)) {
        let m = tmap(w, v);
        rep_smt(w, v, Seq::empty(), m);
        assert(pb(Seq::empty()) =~= Seq::<bool>::empty());
        rep_count(w, v, Seq::empty(), m);
        nset_root(m);
        if w[root_key(v)] is Internal { rep_internal(w, v, Seq::empty(), m); }
    }
}
// the versioned view of the tree
pub trait VersionedTrie<R: TreeReader, H: SimpleHasher> { }
impl<R: TreeReader, H: SimpleHasher> JellyfishMerkleTree<R, H> {
//@fn jmt/src/tree.rs <VersionedTrie<R,H> for JellyfishMerkleTree>::get props C09
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(o) ==> ov(o) == self.reader.val(version, key.0@) && (self.nodes().contains_key(root_key(version)) ==> val_is::<H>(tmap(self.nodes(), version), key.0@, ov(o))),
        self.reader.reliable() ==> r is Ok,
//@end
//@fn jmt/src/tree.rs <VersionedTrie<R,H> for JellyfishMerkleTree>::get_proof props C09 C11
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r matches Ok(pf) ==> self.nodes().contains_key(root_key(version)) && true_proof(pf, tmap(self.nodes(), version), key.0@)
            && pf.accepts(self.nodes()[root_key(version)].hsh(), key.0@, self.reader.val(version, key.0@)),
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) ==> r is Ok,
//@end
//@fn jmt/src/tree.rs <VersionedTrie<R,H> for JellyfishMerkleTree>::verify_proof props C09 C11 C12
//@spec
    requires version_ok::<R, H>(*self.reader, version),
    ensures r is Ok ==> proof.accepts(expected_root_hash.0@, element_key.0@, self.reader.val(version, element_key.0@)),
        self.reader.reliable() && self.nodes().contains_key(root_key(version)) && proof.accepts(expected_root_hash.0@, element_key.0@, self.reader.val(version, element_key.0@)) ==> r is Ok,
//@end
}
} // verus!
