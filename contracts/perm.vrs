//@include prelude.inc
//@include chk.inc
//@include perm.inc
fn main() {}
