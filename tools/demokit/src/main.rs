#![allow(dead_code, unused_imports)]
mod kit;
mod svm;
mod wire;
use kit::*;

fn main() {
    let mut k = Kit::new(1, 2);
    k.fill(0, 1000, T0 + 10 * wire::DAY).unwrap();
    k.deposit(0, 0, 100, M3, 0).unwrap();
    k.deposit(0, 1, 200, FLEX, 0).unwrap();
    k.distribute(0).unwrap();
    check!(k.owed(0, 0).unwrap() == 66 && k.owed(0, 1).unwrap() == 33, "{:?} {:?} {}", k.owed(0, 0), k.owed(0, 1), k.total(0));
    println!("ok");
}
