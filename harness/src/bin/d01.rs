use ddverif::model::*;
use ddverif::*;
use differential_dataflow::difference::{Abelian, IsZero, Multiply, Present, Semigroup};
use std::fmt::Debug;

const R: i64 = 1000;

/// Differences compare semantically: vectors as if extended by zeros.
trait Diff: Abelian + Debug + Multiply<Sym, Output = Self> { fn gen(n: &str) -> Self; fn coords(&self) -> Vec<Sym>; }
impl Diff for Sym { fn gen(n: &str) -> Self { var(n, -R, R) } fn coords(&self) -> Vec<Sym> { vec![*self] } }
impl<A: Diff, C: Diff> Diff for (A, C) { fn gen(n: &str) -> Self { (A::gen(&format!("{n}.0")), C::gen(&format!("{n}.1"))) } fn coords(&self) -> Vec<Sym> { let mut v = self.0.coords(); v.extend(self.1.coords()); v } }
impl<A: Diff> Diff for (A,) { fn gen(n: &str) -> Self { (A::gen(n),) } fn coords(&self) -> Vec<Sym> { self.0.coords() } }
impl<A: Diff, C: Diff, D: Diff> Diff for (A, C, D) { fn gen(n: &str) -> Self { (A::gen(&format!("{n}.0")), C::gen(&format!("{n}.1")), D::gen(&format!("{n}.2"))) } fn coords(&self) -> Vec<Sym> { let mut v = self.0.coords(); v.extend(self.1.coords()); v.extend(self.2.coords()); v } }
impl<A: Diff, C: Diff, D: Diff, E: Diff> Diff for (A, C, D, E) { fn gen(n: &str) -> Self { (A::gen(&format!("{n}.0")), C::gen(&format!("{n}.1")), D::gen(&format!("{n}.2")), E::gen(&format!("{n}.3"))) } fn coords(&self) -> Vec<Sym> { let mut v = self.0.coords(); v.extend(self.1.coords()); v.extend(self.2.coords()); v.extend(self.3.coords()); v } }
impl Diff for Vec<Sym> { fn gen(n: &str) -> Self { let l = choose(&format!("{n}.len"), 4); (0..l).map(|i| var(&format!("{n}.{i}"), -R, R)).collect() } fn coords(&self) -> Vec<Sym> { self.clone() } }
impl Diff for Vec<(Sym, Sym)> {
    fn gen(n: &str) -> Self { let l = choose(&format!("{n}.len"), 3); (0..l).map(|i| (var(&format!("{n}.{i}"), -R, R), var(&format!("{n}.{i}'"), -R, R))).collect() }
    fn coords(&self) -> Vec<Sym> { self.iter().flat_map(|x| vec![x.0, x.1]).collect() }
}
fn same(a: &impl Diff, b: &impl Diff) -> B { pad_eq(&a.coords(), &b.coords()) }
fn plus<D: Diff>(a: &D, b: &D) -> D { let mut s = a.clone(); s.plus_equals(b); s }

fn laws<D: Diff>() {
    let (a, b) = (D::gen("a"), D::gen("b"));
    let ab = plus(&a, &b);
    let n = a.coords().len().max(b.coords().len());
    let (ca, cb) = (a.coords(), b.coords());
    note(|| format!("{:?} + {:?} = {:?}", a, b, ab));
    check(pad_eq(&ab.coords(), &(0..n).map(|i| padded(&ca, i) + padded(&cb, i)).collect::<Vec<_>>()), "addition is not coordinate-wise");
    check(same(&ab, &plus(&b, &a)), "addition is not commutative");
    let mut by_ref = a.clone();
    Semigroup::<&D>::plus_equals(&mut by_ref, &&b);
    check(same(&by_ref, &ab), "addition by reference differs");
    check(same(&plus(&a, &D::zero()), &a) & same(&plus(&D::zero(), &a), &a), "zero is not an identity");
    check(B::of(D::zero().is_zero()), "zero is not zero");
    let mut neg = a.clone();
    neg.negate();
    check(B::of(plus(&a, &neg).is_zero()) , "negation is not an inverse");
    check(same(&plus(&plus(&ab, &neg), &D::zero()), &b), "negation does not cancel");
    let z = a.is_zero();
    check(B::all(ca.iter().map(|x| x.is(c(0)))).iff(B::of(z)), "is_zero is not the absence of any change");
    witness("zero", B::of(z));
    witness("nonzero", B::of(!z));
    witness("cancel", B::all((0..n).map(|i| (padded(&ca, i) + padded(&cb, i)).is(c(0)))));
}

fn assoc<D: Diff>() {
    let (a, b, d) = (D::gen("a"), D::gen("b"), D::gen("c"));
    check(same(&plus(&plus(&a, &b), &d), &plus(&a, &plus(&b, &d))), "addition is not associative");
    reached("end");
}

fn product<D: Diff>() {
    let (a, b) = (D::gen("a"), D::gen("b"));
    let (x, y) = (var("x", -3, 3), var("y", -3, 3));
    check(same(&plus(&a, &b).multiply(&x), &plus(&a.clone().multiply(&x), &b.clone().multiply(&x))), "multiplication does not distribute on the left");
    check(same(&a.clone().multiply(&(x + y)), &plus(&a.clone().multiply(&x), &a.clone().multiply(&y))), "multiplication does not distribute on the right");
    check(same(&D::zero().multiply(&x), &D::zero()), "zero times anything is not zero");
    check(same(&a.clone().multiply(&c(1)), &a), "one is not an identity");
    let mut n = a.clone(); n.negate();
    let mut m = a.clone().multiply(&x); m.negate();
    check(same(&n.multiply(&x), &m), "negation does not commute with multiplication");
    reached("end");
}

fn present() {
    let a = var("a", -R, R);
    check(Present.multiply(&a).is(a), "presence does not multiply as one");
    check(B::of(!Present.is_zero()), "presence is zero");
    let mut p = Present; p.plus_equals(&Present);
    check(B::of(!p.is_zero()), "presence vanishes");
    let v = (a, var("b", -R, R));
    check(Present.multiply(&v).s_is(&v), "presence does not multiply as one");
    reached("end");
}

/// Vectors accept slices of any length.
fn slices() {
    let a = <Vec<Sym> as Diff>::gen("a");
    let b = <Vec<Sym> as Diff>::gen("b");
    let mut x = a.clone();
    Semigroup::<[Sym]>::plus_equals(&mut x, &b[..]);
    check(same(&x, &plus(&a, &b)), "adding a slice differs from adding a vector");
    reached("longer left"); 
    witness("longer right", B::of(b.len() > a.len() + 1));
}

fn main() {
    const W: &[&str] = &["zero", "nonzero", "cancel"];
    let b = "two or three differences, every coordinate any integer in -1000..=1000, vectors of length up to three; multipliers in -3..=3";
    const E: &[&str] = &["difference::{IsZero,Semigroup,Monoid,Abelian,Multiply} for tuples, Vec, Present"];
    let cases = vec![
        Case::new("pair", b, E, W, laws::<(Sym, Sym)>),
        Case::new("single", b, E, W, laws::<(Sym,)>),
        Case::new("triple", b, E, W, laws::<(Sym, Sym, Sym)>),
        Case::new("quad", b, E, W, laws::<(Sym, Sym, Sym, Sym)>),
        Case::new("nested", b, E, W, laws::<((Sym, Sym), Vec<Sym>)>),
        Case::new("vector", b, E, W, laws::<Vec<Sym>>),
        Case::new("vector of pairs", b, E, W, laws::<Vec<(Sym, Sym)>>),
        Case::new("assoc pair", b, E, &["end"], assoc::<(Sym, Sym)>),
        Case::new("assoc quad", b, E, &["end"], assoc::<(Sym, Sym, Sym, Sym)>),
        Case::new("assoc vector", b, E, &["end"], assoc::<Vec<Sym>>),
        Case::new("assoc vector of pairs", b, E, &["end"], assoc::<Vec<(Sym, Sym)>>),
        Case::new("product pair", b, E, &["end"], product::<(Sym, Sym)>),
        Case::new("product triple", b, E, &["end"], product::<(Sym, Sym, Sym)>),
        Case::new("product quad", b, E, &["end"], product::<(Sym, Sym, Sym, Sym)>),
        Case::new("product vector", b, E, &["end"], product::<Vec<Sym>>),
        Case::new("product nested", b, E, &["end"], product::<(Vec<Sym>, Sym)>),
        Case::new("present", b, E, &["end"], present),
        Case::new("slices", b, E, &["longer left", "longer right"], slices),
    ];
    runner::run(Prop { id: "D01", title: "difference algebra", outside: "vectors longer than three; products of machine integers beyond 16 bits by operands outside -8..=8; results that overflow, other than of wrapping integers", assumptions: &["scalar differences are mathematical integers: overflow is out of scope here"], cases });
}
