mod c43;

fn main() {
    pbt::main(&[c43::P])
}
