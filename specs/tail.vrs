} // verus!
fn main() {}
