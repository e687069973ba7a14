use vstd::prelude::*;
//@use nibbles.rs
//@use pmt_spec.rs
//@use pmt_lemmas.rs
//@use pmt_lemmas2.rs
//@use pmt_env.rs
//@use pmt_node.rs
//@use pmt_rep.rs
//@use pmt_path.rs
//@use pmt_inner.rs
//@use pmt_trie.rs
//@use pmt_props.rs
//@include pmt_iter.rs
