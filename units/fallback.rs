// not a unit: appended by tools/check.py to a unit whose obligation failed, for one more attempt
verus! {
mod rt_fb {
use vstd::prelude::*;
// std facts that vstd leaves open; only used when an obligation failed without them
pub broadcast axiom fn usize_of_bool_ok()
    ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec();
pub broadcast axiom fn usize_of_bool(b: bool)
    ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1usize } else { 0usize });
pub broadcast axiom fn vec_eq_ok()
    ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn vec_eq(a: &Vec<u8>, b: &Vec<u8>)
    ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn slice_eq_ok()
    ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn slice_eq(a: &[u8], b: &[u8])
    ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn array_eq_ok()
    ensures #[trigger] <[u8; 32] as vstd::std_specs::cmp::PartialEqSpec<[u8; 32]>>::obeys_eq_spec();
pub broadcast axiom fn array_eq(a: &[u8; 32], b: &[u8; 32])
    ensures #[trigger] <[u8; 32] as vstd::std_specs::cmp::PartialEqSpec<[u8; 32]>>::eq_spec(a, b) == (*a == *b);
// proved
macro_rules! bits { ($m:ident, $t:ty, $a:ident, $b:ident, $c:ident, $d:ident, $e:ident, $f:ident) => { verus! {
pub broadcast proof fn $a(x: $t) ensures #[trigger] (x & 1) == x % 2 { assert(x & 1 == x % 2) by (bit_vector); }
pub broadcast proof fn $b(x: $t) ensures #[trigger] (x & 7) == x % 8 { assert(x & 7 == x % 8) by (bit_vector); }
pub broadcast proof fn $c(x: $t) ensures #[trigger] (x & 15) == x % 16 { assert(x & 15 == x % 16) by (bit_vector); }
pub broadcast proof fn $d(x: $t) ensures #[trigger] (x >> 1) == x / 2 { assert(x >> 1 == x / 2) by (bit_vector); }
pub broadcast proof fn $e(x: $t) ensures #[trigger] (x >> 3) == x / 8 { assert(x >> 3 == x / 8) by (bit_vector); }
pub broadcast proof fn $f(x: $t) ensures #[trigger] (x >> 4) == x / 16 { assert(x >> 4 == x / 16) by (bit_vector); }
} } }
pub broadcast proof fn u8_join(x: u8, y: u8) requires x < 16, y < 16 ensures #[trigger] ((x << 4) | y) == x * 16 + y { assert(x < 16 && y < 16 ==> ((x << 4) | y) == x * 16 + y) by (bit_vector); }
pub broadcast proof fn u8_up(x: u8) requires x < 16 ensures #[trigger] (x << 4) == x * 16 { assert(x < 16 ==> (x << 4) == x * 16) by (bit_vector); }
bits!(mu8, u8, u8_1, u8_7, u8_15, u8_h, u8_o, u8_n);
bits!(mus, usize, us_1, us_7, us_15, us_h, us_o, us_n);
pub broadcast group rt_fb_all { usize_of_bool_ok, usize_of_bool, vec_eq_ok, vec_eq, slice_eq_ok, slice_eq, array_eq_ok, array_eq,
    u8_join, u8_up, u8_1, u8_7, u8_15, u8_h, u8_o, u8_n, us_1, us_7, us_15, us_h, us_o, us_n }
}
broadcast use rt_fb::rt_fb_all;
} // verus!
