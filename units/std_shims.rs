verus! {
// ---- assumed contracts on std (each restates the documented behaviour)
pub assume_specification<T: std::clone::Clone> [<[T]>::to_vec] (_0: &[T]) -> (r: std::vec::Vec<T>)
  ensures r@.len() == _0@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(T::clone, (&_0@[i],), #[trigger] r@[i]);
// <[&[u8]; 2]>::concat
#[verifier::external_body]
pub fn rt_concat2(x: [&[u8];2]) -> (r: Vec<u8>)
    ensures r@ == x[0]@ + x[1]@,
{ x.concat() }
pub open spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }
// std::cmp::min on usize
#[verifier::external_body]
pub fn rt_min(a: usize, b: usize) -> (r: usize)
    ensures r == min_int(a as int, b as int),
{ std::cmp::min(a, b) }
} // verus!
