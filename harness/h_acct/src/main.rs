mod c07;

fn main() {
    pbt::main(&[c07::P])
}
