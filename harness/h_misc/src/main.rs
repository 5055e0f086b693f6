mod c44;
mod c45;
mod c46;

fn main() {
    let mut args = std::env::args().skip(1);
    if args.next().as_deref() == Some("--child-log") {
        return c44::child(&args.next().expect("a specification"));
    }
    pbt::main(&[c44::P, c45::P, c46::P])
}
