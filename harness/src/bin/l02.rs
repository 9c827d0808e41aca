use ddverif::model::*;
use ddverif::*;
use differential_dataflow::dynamic::pointstamp::PointStamp;
use differential_dataflow::lattice::Lattice;
use differential_dogs3::altneu::AltNeu;
use timely::order::Product;
use timely::progress::frontier::{Antichain, AntichainRef};
use timely::progress::Timestamp;
use std::fmt::Debug;

const HI: i64 = 1000;

fn advance<T: STime + Lattice + Timestamp + Debug>(n: usize) {
    let k = 1 + choose("size", n);
    let mut front: Antichain<T> = Antichain::new();
    for i in 0..k { front.insert(T::fresh(&format!("f{i}"), HI)); }
    let f: Vec<T> = front.elements().to_vec();
    let a = T::fresh("a", HI);
    let mut r = a.clone();
    r.advance_by(AntichainRef::new(&f));
    note(|| format!("{:?} advanced by {:?} is {:?}", a, f, r));
    let q = T::fresh("q", HI);
    check(beyond(&f, &q).implies(a.s_le(&q).iff(r.s_le(&q))), "advancing changed a comparison with a time beyond the frontier");
    check(a.s_le(&r), "advancing moved a time backward");
    let mut rr = r.clone();
    rr.advance_by(AntichainRef::new(&f));
    check(rr.s_eq(&r), "advancing is not idempotent");
    let mut g = f.clone();
    g.reverse();
    let mut s = a.clone();
    s.advance_by(AntichainRef::new(&g));
    check(s.s_eq(&r), "advancing depends on the order of frontier elements");
    if f.len() > 2 {
        g.swap(0, 1);
        let mut s = a.clone();
        s.advance_by(AntichainRef::new(&g));
        check(s.s_eq(&r), "advancing depends on the order of frontier elements");
    }
    let mut e = a.clone();
    e.advance_by(AntichainRef::new(&[]));
    check(e.s_eq(&a), "advancing to the empty frontier changed the time");
    witness("moved", !r.s_eq(&a));
    witness("unmoved", r.s_eq(&a));
    witness("full frontier", B::of(f.len() == n));
}

fn canonical<T: STime + Lattice + Timestamp + Debug>(n: usize) {
    let k = 1 + choose("size", n);
    let mut front: Antichain<T> = Antichain::new();
    for i in 0..k { front.insert(T::fresh(&format!("f{i}"), HI)); }
    let f: Vec<T> = front.elements().to_vec();
    let (a, b) = (T::fresh("a", HI), T::fresh("b", HI));
    let (mut ra, mut rb) = (a.clone(), b.clone());
    ra.advance_by(AntichainRef::new(&f));
    rb.advance_by(AntichainRef::new(&f));
    // `a` and `b` are indistinguishable beyond the frontier when each is below the other's join with every element.
    let same = B::all(f.iter().map(|x| a.s_le(&b.join(x)) & b.s_le(&a.join(x))));
    check(same.implies(ra.s_eq(&rb)), "indistinguishable times have different representatives");
    check(a.s_le(&b).implies(ra.s_le(&rb)), "advancing is not monotone");
    witness("merged", same & !a.s_eq(&b));
    witness("distinguished", !ra.s_eq(&rb));
}

fn main() {
    const E: &[&str] = &["lattice::Lattice::advance_by"];
    const W: &[&str] = &["moved", "unmoved", "full frontier"];
    const C: &[&str] = &["merged", "distinguished"];
    let b = |n: usize| format!("any time, any frontier of up to {n} elements, any later time; coordinates in 0..=1000");
    let cases = vec![
        Case::new("total", b(1), E, W, || advance::<Sym>(1)),
        Case::new("product", b(2), E, W, || advance::<P2>(2)),
        Case::new("product3", b(3), E, W, || advance::<P2>(3)),
        Case::new("nested product", b(2), E, W, || advance::<Product<P2, Sym>>(2)),
        Case::new("pair", b(1), E, W, || advance::<(Sym, Sym)>(1)),
        Case::new("pair over product", b(2), E, W, || advance::<(P2, Sym)>(2)),
        Case::new("pointstamp", b(2), E, W, || advance::<PointStamp<Sym>>(2)),
        Case::new("altneu product", b(2), E, W, || advance::<AltNeu<P2>>(2)),
        Case::new("canonical total", b(1), E, C, || canonical::<Sym>(1)),
        Case::new("canonical product", b(2), E, C, || canonical::<P2>(2)),
        Case::new("canonical pointstamp", b(2), E, C, || canonical::<PointStamp<Sym>>(2)),
        Case::new("canonical altneu", b(2), E, C, || canonical::<AltNeu<P2>>(2)),
        Case::new("canonical product3", b(3), E, C, || canonical::<P2>(3)).thorough(),
        Case::new("nested product3", b(3), E, W, || advance::<Product<P2, Sym>>(3)).thorough(),
        Case::new("pointstamp3", b(3), E, W, || advance::<PointStamp<Sym>>(3)).thorough(),
        Case::new("altneu3", b(3), E, W, || advance::<AltNeu<P2>>(3)).thorough(),
    ];
    runner::run(Prop { id: "L02", title: "advance_by", outside: "frontiers of more than three elements", assumptions: &["scalar coordinates are mathematical integers"], cases });
}
