// jmt/src/types/proof.rs: the two kinds of binary nodes
verus! {
//@type jmt/src/types/proof.rs SparseMerkleInternalNode
impl SparseMerkleInternalNode {
//@fn jmt/src/types/proof.rs SparseMerkleInternalNode::new props C12 C13 C11 C10
//@spec
    ensures r.left_child == left_child, r.right_child == right_child,
//@end
//@fn jmt/src/types/proof.rs SparseMerkleInternalNode::hash props C12 C13 C11 C10
//@rewrite? use sha2::Digest; ==> 
//@rewrite? sha2::Sha256::new() ==> Sha256Rt::new()
//@rewrite? *hasher.finalize().as_ref() ==> hasher.rt_finalize()
//@spec
    ensures r@ == ih(self.left_child@, self.right_child@), hashed(int_pre(self.left_child@, self.right_child@)),
//@start
    assert(Seq::<u8>::empty() + INTERNAL_DOMAIN_SEPARATOR_v() =~= INTERNAL_DOMAIN_SEPARATOR_v());
//@end
}
#[derive(Clone, Copy)]
//@type jmt/src/types/proof.rs SparseMerkleLeafNode
impl SparseMerkleLeafNode {
    pub open spec fn k(&self) -> Seq<u8> { self.key_hash.0@ }
    pub open spec fn v(&self) -> Seq<u8> { self.value_hash.0@ }
//@fn jmt/src/types/proof.rs SparseMerkleLeafNode::new props C12 C11 C10
//@spec
    ensures r.key_hash == key_hash, r.value_hash == value_hash,
//@end
//@fn jmt/src/types/proof.rs SparseMerkleLeafNode::key_hash props C12
//@spec
    ensures r == self.key_hash,
//@end
//@fn jmt/src/types/proof.rs SparseMerkleLeafNode::hash props C12 C11 C10
//@rewrite? use sha2::Digest; ==> 
//@rewrite? sha2::Sha256::new() ==> Sha256Rt::new()
//@rewrite? *hasher.finalize().as_ref() ==> hasher.rt_finalize()
//@spec
    ensures r@ == lh(self.k(), self.v()), hashed(leaf_pre(self.k(), self.v())),
//@start
    assert(Seq::<u8>::empty() + LEAF_DOMAIN_SEPARATOR_v() =~= LEAF_DOMAIN_SEPARATOR_v());
//@end
}
} // verus!
