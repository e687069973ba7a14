use vstd::prelude::*;
//@use prelude.rs
//@use std_shims.rs
//@use jmt_env.rs
//@use jmt_bits.rs
//@use jmt_path.rs
//@use jmt_smt.rs
//@use jmt_leaf.rs
//@use jmt_proof.rs
//@use jmt_node.rs
//@use jmt_rep.rs
//@use jmt_store.rs
//@use jmt_read.rs
//@use jmt_walk.rs
//@use jmt_map.rs
//@use jmt_cache.rs
//@use jmt_step.rs
//@use jmt_mid.rs
//@use jmt_chain.rs
//@use jmt_insert.rs
//@use jmt_put.rs
//@include jmt_hist.rs
//@include jmt_tidy.rs
