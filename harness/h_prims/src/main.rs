mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c21;

fn main() {
    c21::at_start();
    pbt::main(&[c01::P, c02::P, c03::P, c04::P, c05::P, c06::P, c21::P])
}
