//! machine list PROP TIER | machine replay NAME BYTES...: runs a harness natively on the solver's values, each given as hexadecimal bytes.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" { for (p, t, n, _) in machine::TABLE { if *p == a[2] && (*t == "quick" || *t == a[3]) { println!("{n}"); } } return; }
    let vals = a[3..].iter().map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    #[cfg(not(kani))] machine::source::VALUES.with(|v| *v.borrow_mut() = vals);
    #[cfg(kani)] let _: Vec<Vec<u8>> = vals;
    let f = machine::TABLE.iter().find(|t| t.2 == a[2]).expect("no such harness").3;
    if std::panic::catch_unwind(f).is_err() { println!("FAILED: panic"); std::process::exit(1); }
    println!("passed");
}
