mod c15;
mod simdisk;

fn main() {
    pbt::main(&[c15::P])
}
