//! Conversions between machine integers and symbolic ones.
use ddverif::*;

pub trait ToSym { fn to_sym(self) -> Sym; }
macro_rules! ints { ($($t:ty),*) => { $(
    impl ToSym for $t { fn to_sym(self) -> Sym { c(self as i64) } }
    impl Word for $t { fn word(self) -> u64 { self as u64 } }
)* } }
ints!(i64, u64, usize, u32, i32, bool, u8);
impl ToSym for Sym { fn to_sym(self) -> Sym { self } }
pub fn to_sym(x: impl ToSym) -> Sym { x.to_sym() }

/// A machine word; a symbolic integer takes each of its values.
pub trait Word { fn word(self) -> u64; }
impl Word for Sym { fn word(self) -> u64 { concrete(self) as u64 } }
pub fn concrete(x: Sym) -> i64 {
    if let Some(n) = x.as_const() { return n }
    for n in (0..=64).chain((1..=64).map(|n: i64| -n)) { if x.is(c(n)).decide() { return n } }
    panic!("an integer out of reach")
}

/// Runs a computation to its end on this thread, if it has one.
pub fn execute_directly<R>(f: impl FnOnce(&mut timely::worker::Worker) -> R) -> R {
    let mut w = ddverif::flow::worker();
    let r = f(&mut w);
    let mut n = 0;
    while w.has_dataflows() { w.step(); n += 1; if n > 5000 { fail("a program does not come to an end") } }
    r
}
