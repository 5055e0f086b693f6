mod c23;
mod c24;
mod c25;
mod c26;
mod c27;

fn main() {
    let _ = gens::make::pool();
    pbt::main(&[c23::P, c24::P, c25::P, c26::P, c27::P])
}
