mod c40;
mod c42;

fn main() {
    let _ = gens::make::pool();
    pbt::main(&[c40::P, c42::P])
}
