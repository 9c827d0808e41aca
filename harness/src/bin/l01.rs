use ddverif::model::*;
use ddverif::*;
use differential_dataflow::dynamic::pointstamp::PointStamp;
use differential_dataflow::lattice::{antichain_join, antichain_join_into, antichain_meet, Lattice};
use differential_dogs3::altneu::AltNeu;
use timely::order::Product;
use timely::progress::frontier::Antichain;
use timely::progress::Timestamp;
use std::fmt::Debug;

const HI: i64 = 1000;

fn laws<T: STime + Lattice + Timestamp + Debug>() {
    let a = T::fresh("a", HI);
    let b = T::fresh("b", HI);
    // The library's order is the documented order, and its total order extends it.
    let ab = a.less_equal(&b);
    check(a.s_le(&b).iff(B::of(ab)), "less_equal disagrees with the documented order");
    check(s_lt(&a, &b).iff(B::of(a.less_than(&b))), "less_than disagrees with less_equal and inequality");
    check(a.s_eq(&b).iff(B::of(a == b)), "equality disagrees with coordinates");
    if ab { check(B::of(a.cmp(&b) != std::cmp::Ordering::Greater), "total order does not extend the partial order"); }
    let min = T::minimum();
    check(min.s_le(&a), "minimum is not minimal");
    check(B::of(min.less_equal(&a)), "minimum is not less_equal");
    let (j, m) = (a.join(&b), a.meet(&b));
    note(|| format!("a={:?} b={:?} join={:?} meet={:?}", a, b, j, m));
    let t = T::fresh("c", HI);
    check(a.s_le(&j) & b.s_le(&j), "join is not an upper bound");
    check((a.s_le(&t) & b.s_le(&t)).implies(j.s_le(&t)), "join is not the least upper bound");
    check(m.s_le(&a) & m.s_le(&b), "meet is not a lower bound");
    check((t.s_le(&a) & t.s_le(&b)).implies(t.s_le(&m)), "meet is not the greatest lower bound");
    let (mut ja, mut ma) = (a.clone(), a.clone());
    ja.join_assign(&b);
    ma.meet_assign(&b);
    check(B::of(ja == j), "join_assign differs from join");
    check(B::of(ma == m), "meet_assign differs from meet");
    check(B::of(b.join(&a) == j), "join is not commutative");
    check(B::of(b.meet(&a) == m), "meet is not commutative");
    witness("ordered", s_lt(&a, &b));
    witness("equal", a.s_eq(&b));
    witness("bounded above", a.s_le(&t) & b.s_le(&t));
    witness("bounded below", t.s_le(&a) & t.s_le(&b));
    witness("incomparable", !a.s_le(&b) & !b.s_le(&a));
}

fn pairwise_incomparable<T: STime>(x: &[T]) -> B {
    let mut v = vec![];
    for i in 0..x.len() { for j in 0..x.len() { if i != j { v.push(!x[i].s_le(&x[j])) } } }
    B::all(v)
}

fn antichains<T: STime + Lattice + Timestamp + Debug>(n: usize, k: usize) {
    let (na, nb) = (choose("na", n + 1), choose("nb", k + 1));
    let xs: Vec<T> = (0..na).map(|i| T::fresh(&format!("x{i}"), HI)).collect();
    let ys: Vec<T> = (0..nb).map(|i| T::fresh(&format!("y{i}"), HI)).collect();
    let (a, b) = (Antichain::from(xs.clone()), Antichain::from(ys.clone()));
    let q = T::fresh("q", HI);
    let (j, m) = (a.join(&b), a.meet(&b));
    check(pairwise_incomparable(j.elements()), "join is not an antichain");
    check(pairwise_incomparable(m.elements()), "meet is not an antichain");
    // A frontier denotes the times at or beyond it: joins intersect and meets unite those.
    check(beyond(j.elements(), &q).iff(beyond(&xs, &q) & beyond(&ys, &q)), "join of frontiers is not the intersection of futures");
    check(beyond(m.elements(), &q).iff(beyond(&xs, &q) | beyond(&ys, &q)), "meet of frontiers is not the union of futures");
    let j2 = antichain_join(a.elements(), b.elements());
    let mut j3 = Antichain::from_elem(T::minimum());
    antichain_join_into(a.elements(), b.elements(), &mut j3);
    let m2 = antichain_meet(a.elements(), b.elements());
    check(beyond(j2.elements(), &q).iff(beyond(j.elements(), &q)) & pairwise_incomparable(j2.elements()), "antichain_join");
    check(beyond(j3.elements(), &q).iff(beyond(j.elements(), &q)) & pairwise_incomparable(j3.elements()), "antichain_join_into");
    check(beyond(m2.elements(), &q).iff(beyond(m.elements(), &q)) & pairwise_incomparable(m2.elements()), "antichain_meet");
    witness("two each", B::of(a.elements().len() == n.min(2) && b.elements().len() == k.min(2)));
    witness("empty", B::of(na == 0));
}

fn main() {
    const E: &[&str] = &["lattice::Lattice::{join,meet,join_assign,meet_assign}"];
    const W: &[&str] = &["ordered", "equal", "bounded above", "bounded below", "incomparable"];
    const WT: &[&str] = &["ordered", "equal", "bounded above", "bounded below"];
    let b = "three times, each coordinate any integer in 0..=1000";
    let cases = vec![
        Case::new("product", b, E, W, laws::<P2>),
        Case::new("product of product", b, E, W, laws::<Product<Sym, P2>>),
        Case::new("pair", b, E, WT, laws::<(Sym, Sym)>),
        Case::new("pair over product", b, E, W, laws::<(P2, Sym)>),
        Case::new("pointstamp", "three coordinate vectors of up to two coordinates, each any integer in 0..=1000", &["dynamic::pointstamp::PointStamp::{less_equal,join,meet,join_assign,meet_assign,new}"], W, laws::<PointStamp<Sym>>),
        Case::new("product with pointstamp", "as above, beside an outer coordinate", E, W, laws::<Product<Sym, PointStamp<Sym>>>),
        Case::new("altneu total", b, &["dogsdogsdogs::altneu::AltNeu::{less_equal,join,meet}"], WT, laws::<AltNeu<Sym>>),
        Case::new("altneu product", b, &["dogsdogsdogs::altneu::AltNeu::{less_equal,join,meet}"], W, laws::<AltNeu<P2>>),
        Case::new("antichain of products", "two frontiers of up to two times each, coordinates in 0..=1000", &["lattice::{antichain_join,antichain_join_into,antichain_meet}", "Lattice for Antichain"], &["two each", "empty"], || antichains::<P2>(2, 2)),
        Case::new("antichain of total times", "two frontiers of up to one time each", &["Lattice for Antichain"], &["empty"], || antichains::<Sym>(1, 1)),
        Case::new("antichain of products, larger", "frontiers of up to three and two times", &["lattice::{antichain_join,antichain_join_into,antichain_meet}"], &["empty"], || antichains::<P2>(3, 2)).thorough(),
        Case::new("antichain of pointstamps", "two frontiers of up to two vectors each", &["lattice::{antichain_join,antichain_join_into,antichain_meet}"], &["empty"], || antichains::<PointStamp<Sym>>(2, 1)).thorough(),
    ];
    runner::run(Prop { id: "L01", title: "lattice laws", outside: "longer coordinate vectors", assumptions: &["scalar coordinates are mathematical integers with join as maximum and meet as minimum"], cases });
}
