//@include prelude.rs
//@include jmt_env.rs
//@include jmt_bits.rs
//@include jmt_path.rs
