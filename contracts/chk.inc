verus! {
// ------------------------------------------------------------------ machine arithmetic that either is exact or panics
// (builds with overflow checks, as the test profile): verified, not trusted.
pub trait Ex: Sized {
    spec fn sv(self) -> int;
    fn xadd(self, o: Self) -> (r: Self) ensures r.sv() == self.sv() + o.sv();
    fn xsub(self, o: Self) -> (r: Self) ensures r.sv() == self.sv() - o.sv();
    fn xmul(self, o: Self) -> (r: Self) ensures r.sv() == self.sv() * o.sv();
}
impl Ex for i64 {
    open spec fn sv(self) -> int { self as int }
    fn xadd(self, o: Self) -> (r: Self) { match self.checked_add(o) { Some(x) => x, None => vx_may_panic() } }
    fn xsub(self, o: Self) -> (r: Self) { match self.checked_sub(o) { Some(x) => x, None => vx_may_panic() } }
    fn xmul(self, o: Self) -> (r: Self) { match self.checked_mul(o) { Some(x) => x, None => vx_may_panic() } }
}
impl Ex for usize {
    open spec fn sv(self) -> int { self as int }
    fn xadd(self, o: Self) -> (r: Self) { match self.checked_add(o) { Some(x) => x, None => vx_may_panic() } }
    fn xsub(self, o: Self) -> (r: Self) { match self.checked_sub(o) { Some(x) => x, None => vx_may_panic() } }
    fn xmul(self, o: Self) -> (r: Self) { match self.checked_mul(o) { Some(x) => x, None => vx_may_panic() } }
}
impl Ex for i32 {
    open spec fn sv(self) -> int { self as int }
    fn xadd(self, o: Self) -> (r: Self) { match self.checked_add(o) { Some(x) => x, None => vx_may_panic() } }
    fn xsub(self, o: Self) -> (r: Self) { match self.checked_sub(o) { Some(x) => x, None => vx_may_panic() } }
    fn xmul(self, o: Self) -> (r: Self) { match self.checked_mul(o) { Some(x) => x, None => vx_may_panic() } }
}
pub fn e_add<T: Ex>(a: T, b: T) -> (r: T) ensures r.sv() == a.sv() + b.sv() { a.xadd(b) }
pub fn e_sub<T: Ex>(a: T, b: T) -> (r: T) ensures r.sv() == a.sv() - b.sv() { a.xsub(b) }
pub fn e_mul<T: Ex>(a: T, b: T) -> (r: T) ensures r.sv() == a.sv() * b.sv() { a.xmul(b) }
pub fn e_neg(a: i64) -> (r: i64) ensures r == -a { if a == i64::MIN { vx_may_panic() } else { -a } }
pub fn u_inc(a: usize, b: usize) -> (r: usize) ensures r == a + b { match a.checked_add(b) { Some(x) => x, None => vx_may_panic() } }
pub fn m_add(a: u64, b: u64) -> (r: u64) ensures r == a + b { match a.checked_add(b) { Some(x) => x, None => vx_may_panic() } }
pub fn m_mul(a: u64, b: u64) -> (r: u64) ensures r == a * b { match a.checked_mul(b) { Some(x) => x, None => vx_may_panic() } }
} // verus!
