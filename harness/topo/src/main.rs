#[path = "../../rt/rt.rs"]
mod rt;
mod p_simp;
mod p_graph;
mod p_cube;

fn main() {
    rt::run(&[("P19", p_simp::p19), ("P20", p_simp::p20), ("P21", p_simp::p21), ("P22", p_graph::p22), ("P23", p_graph::p23), ("P24", p_graph::p24), ("P25", p_cube::p25), ("P26", p_cube::p26), ("P27", p_cube::p27), ("P28", p_cube::p28), ("P29", p_graph::p29)]);
}
