mod c13;
mod model;

fn main() {
    pbt::main(&[c13::P])
}
