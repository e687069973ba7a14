//@include nibbles.rs
//@include pmt_spec.rs
//@include pmt_lemmas.rs
//@include pmt_lemmas2.rs
//@include pmt_env.rs
//@include pmt_node.rs
//@include pmt_rep.rs
//@include pmt_path.rs
//@include pmt_inner.rs
//@include pmt_trie.rs
//@include pmt_props.rs
