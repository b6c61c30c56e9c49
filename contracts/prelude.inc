use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::arithmetic::mul::*;
#[allow(unused_imports)]
use vstd::arithmetic::div_mod::*;
verus! {
// ---- run-time support of the extraction (see DESIGN.md, trusted base) ----
// `panic!`, `assert!`, `unreachable!` .. of the source become a call that must be proved unreachable.
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
// In a "rejection" instance of a contract (`maypanic`) the same call simply does not return: what is proved there
// is that the function returns only on valid input.
#[verifier::external_body]
pub fn vx_may_panic() -> ! { panic!() }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub fn vx_monus(a: usize, b: usize) -> (r: usize) ensures r == if a < b { 0int } else { a - b } { if a < b { 0 } else { a - b } }
// vec![Vec::new(); n]
pub fn vx_vecs<T>(n: usize) -> (r: Vec<Vec<T>>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r[i])@.len() == 0
{ let mut r: Vec<Vec<T>> = Vec::new(); let mut i = 0; while i < n invariant i <= n, r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r[j])@.len() == 0 decreases n - i { r.push(Vec::new()); i += 1; } r }
// lockstep iteration over two nested sources: their lengths must agree
pub fn vx_same(a: usize, b: usize) requires a == b { let _ = (a, b); }
} // verus!
