//@include prelude.rs
//@include jmt_env.rs
//@include jmt_bits.rs
//@include jmt_smt.rs
//@include jmt_leaf.rs
//@include jmt_proof.rs
