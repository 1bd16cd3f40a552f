//! Native replay: runs one harness with the values of a solver model (VX_VALUES).
fn main() {
    let n = std::env::args().nth(1).expect("harness name");
    let t = harness::table();
    let f = t.iter().find(|x| x.0 == n).expect("no such harness").1;
    f();
}
