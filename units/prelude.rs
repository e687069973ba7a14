#[allow(unused_imports)]
use vstd::prelude::*;
verus! {
// ---- stand-ins for the panicking and error macros (bodies never reached or opaque)
// assert!(c): the obligation is that c holds, i.e. that the macro does not panic
pub fn rt_assert(c: bool)
    requires c,
{ }
// unreachable!() / panic!(): the obligation is that control never gets here
#[verifier::external_body]
pub fn rt_unreachable<A>() -> (r: A)
    requires false,
{ panic!() }
} // verus!
