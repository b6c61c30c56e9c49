#[path = "../../rt/rt.rs"]
mod rt;
mod p_util;
mod p_comm;
mod p_perm;
mod p_lin;

fn main() {
    rt::run(&[
        ("P01", p_util::p01), ("P02", p_util::p02), ("P03", p_util::p03),
        ("P04", p_comm::p04), ("P05", p_comm::p05), ("P06", p_comm::p06), ("P07", p_comm::p07), ("P08", p_comm::p08),
        ("P09", p_perm::p09), ("P10", p_perm::p10), ("P11", p_perm::p11),
        ("P12", p_lin::p12), ("P13", p_lin::p13), ("P14", p_lin::p14), ("P15", p_lin::p15), ("P16", p_lin::p16), ("P17", p_lin::p17), ("P18", p_lin::p18),
    ]);
}
