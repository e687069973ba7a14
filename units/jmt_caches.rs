use vstd::prelude::*;
//@use prelude.rs
//@use std_shims.rs
//@use jmt_env.rs
//@use jmt_bits.rs
//@use jmt_path.rs
//@use jmt_smt.rs
//@use jmt_leaf.rs
//@use jmt_proof.rs
//@use jmt_node.rs
//@use jmt_rep.rs
//@use jmt_store.rs
//@use jmt_read.rs
//@include jmt_walk.rs
//@include jmt_map.rs
//@include jmt_cache.rs
//@include jmt_step.rs
//@include jmt_mid.rs
//@include jmt_chain.rs
