#[allow(dead_code)]
#[path = "../../h_ledger/src/c29.rs"]
mod c29;
#[allow(dead_code)]
#[path = "../../h_ledger/src/c30.rs"]
mod c30;
#[allow(dead_code)]
#[path = "../../h_ledger/src/c31.rs"]
mod c31;
#[allow(dead_code)]
#[path = "../../h_ledger/src/c32.rs"]
mod c32;
mod c33;
mod c34;
mod c35;
mod c37;
mod c38;
mod c37_chain;
mod c39;
mod c41;
mod c47;
mod disk;
mod ledger;
mod world;

fn main() {
    let _ = gens::make::pool();
    pbt::main(&[c33::P, c34::P, c35::P, c37::P, c38::P, c39::P, c47::P, c41::P])
}
