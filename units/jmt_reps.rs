use vstd::prelude::*;
//@use prelude.rs
//@use jmt_env.rs
//@use jmt_bits.rs
//@use jmt_path.rs
//@use jmt_smt.rs
//@use jmt_leaf.rs
//@use jmt_node.rs
//@include jmt_rep.rs
