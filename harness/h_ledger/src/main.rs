mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c36;

fn main() {
    let _ = gens::make::pool();
    pbt::main(&[c28::P, c29::P, c30::P, c31::P, c32::P, c36::P])
}
