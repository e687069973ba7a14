verus! {
impl Clone for Nibbles { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
//@const pmt/src/common.rs BRANCHING_FACTOR
pub type Link = Box<Node>;
//@type pmt/src/node.rs Node
//@type pmt/src/node.rs LeafNode
//@type pmt/src/node.rs BranchNode
//@type pmt/src/node.rs ExtensionNode
//@type pmt/src/node.rs HashNode
//@type pmt/src/node.rs NodeError
//@type pmt/src/error.rs TrieError
//@const pmt/src/result.rs Result StdResult ==> std::result::Result
//@type pmt/src/inner.rs EncodedNode
#[verifier::external]
impl std::fmt::Debug for TrieError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
// derived Clone
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for LeafNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for BranchNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for ExtensionNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
// derived PartialEq of Nibbles
#[verifier::external_body]
pub fn rt_nib_eq(a: &Nibbles, b: &Nibbles) -> (r: bool) ensures r == (a.v() == b.v()), { unimplemented!() }
// Default for [Box<Node>; 16]
#[verifier::external_body]
pub fn rt_children() -> (r: [Box<Node>; 16]) ensures forall|i: int| 0 <= i < 16 ==> *#[trigger] r[i] == Node::Empty, { unimplemented!() }
impl Node {
//@fn pmt/src/node.rs Node::from_leaf props C01 C02
//@spec
    ensures r == Node::Leaf(LeafNode { key, value }),
//@end
//@fn pmt/src/node.rs Node::from_branch props C01 C03
//@spec
    ensures r == Node::Branch(BranchNode { children, value }),
//@end
//@fn pmt/src/node.rs Node::from_extension props C01 C02
//@spec
    ensures r matches Node::Extension(e) && e.prefix == prefix && *e.node == node,
        prefix.v().len() > 0 && nibbly(prefix.v()) && wf(node) ==> wf(r),
//@end
//@fn pmt/src/node.rs Node::from_hash props C03
//@spec
    ensures r == Node::Hash(HashNode { hash }),
//@end
}
impl BranchNode {
//@fn pmt/src/node.rs BranchNode::insert props C01 C02
//@rewrite? NodeError::InvalidNodeInsert($x) ==> TrieError::NodeError(NodeError::InvalidNodeInsert(rt_string()))
//@spec
    requires i <= 16,
    ensures
        i < 16 ==> r is Ok && final(self).value == old(self).value && *final(self).children[i as int] == node
            && forall|j: int| 0 <= j < 16 && j != i ==> #[trigger] final(self).children[j] == old(self).children[j],
        i == 16 ==> (node matches Node::Leaf(l) ==> r is Ok && ov(final(self).value) == Some(l.value@)) && final(self).children == old(self).children,
//@end
}
}
