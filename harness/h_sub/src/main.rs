mod c16;

fn main() {
    pbt::main(&[c16::P])
}
