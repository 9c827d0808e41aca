//! Reference models shared by the harnesses: accumulations as solver terms.
use crate::*;
use timely::order::Product;

/// Times whose order can be read as a solver term, without forking.
pub trait STime: Clone {
    fn s_le(&self, o: &Self) -> B;
    fn s_eq(&self, o: &Self) -> B;
    fn fresh(name: &str, hi: i64) -> Self;
}
impl STime for Sym {
    fn s_le(&self, o: &Self) -> B { Sym::le(*self, *o) }
    fn s_eq(&self, o: &Self) -> B { self.is(*o) }
    fn fresh(name: &str, hi: i64) -> Self { var(name, 0, hi) }
}
impl STime for () {
    fn s_le(&self, _: &Self) -> B { TRUE }
    fn s_eq(&self, _: &Self) -> B { TRUE }
    fn fresh(_: &str, _: i64) -> Self { }
}
pub type P2 = Product<Sym, Sym>;
impl<A: STime, C: STime> STime for Product<A, C> {
    fn s_le(&self, o: &Self) -> B { self.outer.s_le(&o.outer) & self.inner.s_le(&o.inner) }
    fn s_eq(&self, o: &Self) -> B { self.outer.s_eq(&o.outer) & self.inner.s_eq(&o.inner) }
    fn fresh(name: &str, hi: i64) -> Self { Product::new(A::fresh(&format!("{}.o", name), hi), C::fresh(&format!("{}.i", name), hi)) }
}

/// Data whose equality can be read as a solver term.
pub trait SData { fn s_is(&self, o: &Self) -> B; }
impl SData for Sym { fn s_is(&self, o: &Self) -> B { self.is(*o) } }
impl SData for () { fn s_is(&self, _: &Self) -> B { TRUE } }
impl SData for u64 { fn s_is(&self, o: &Self) -> B { B::of(self == o) } }
impl SData for i64 { fn s_is(&self, o: &Self) -> B { B::of(self == o) } }
impl SData for usize { fn s_is(&self, o: &Self) -> B { B::of(self == o) } }
impl SData for isize { fn s_is(&self, o: &Self) -> B { B::of(self == o) } }
impl SData for u32 { fn s_is(&self, o: &Self) -> B { B::of(self == o) } }
impl SData for bool { fn s_is(&self, o: &Self) -> B { B::of(self == o) } }
impl<A: SData, C: SData> SData for (A, C) { fn s_is(&self, o: &Self) -> B { self.0.s_is(&o.0) & self.1.s_is(&o.1) } }
impl<A: SData, C: SData, D: SData> SData for (A, C, D) { fn s_is(&self, o: &Self) -> B { self.0.s_is(&o.0) & self.1.s_is(&o.1) & self.2.s_is(&o.2) } }
impl<A: SData> SData for Option<A> { fn s_is(&self, o: &Self) -> B { match (self, o) { (None, None) => TRUE, (Some(a), Some(b)) => a.s_is(b), _ => FALSE } } }
impl<A: SData> SData for Vec<A> { fn s_is(&self, o: &Self) -> B { if self.len() != o.len() { FALSE } else { B::all(self.iter().zip(o.iter()).map(|(a, b)| a.s_is(b))) } } }
impl<A: SData, C: SData> SData for Result<A, C> { fn s_is(&self, o: &Self) -> B { match (self, o) { (Ok(a), Ok(b)) => a.s_is(b), (Err(a), Err(b)) => a.s_is(b), _ => FALSE } } }

/// The accumulation of `updates` at datum `d` and time `q`: the sum of diffs at times less or equal to `q`.
pub fn accum<'a, D: SData + 'a, T: STime + 'a>(updates: impl IntoIterator<Item = &'a (D, T, Sym)>, d: &D, q: &T) -> Sym {
    let mut acc = c(0);
    for (x, t, r) in updates { acc = acc + (x.s_is(d) & t.s_le(q)).ite(*r, c(0)); }
    acc
}
/// The sum of diffs exactly at datum `d` and time `q`.
pub fn exact<'a, D: SData + 'a, T: STime + 'a>(updates: impl IntoIterator<Item = &'a (D, T, Sym)>, d: &D, q: &T) -> Sym {
    let mut acc = c(0);
    for (x, t, r) in updates { acc = acc + (x.s_is(d) & t.s_eq(q)).ite(*r, c(0)); }
    acc
}
/// `q` is greater or equal to some element of the frontier.
pub fn beyond<T: STime>(frontier: &[T], q: &T) -> B { B::any(frontier.iter().map(|f| f.s_le(q))) }

/// Strictly less, as a term.
pub fn s_lt<T: STime>(a: &T, b: &T) -> B { a.s_le(b) & !a.s_eq(b) }

/// Pairs are ordered lexicographically.
impl<A: STime, C: STime> STime for (A, C) {
    fn s_le(&self, o: &Self) -> B { s_lt(&self.0, &o.0) | (self.0.s_eq(&o.0) & self.1.s_le(&o.1)) }
    fn s_eq(&self, o: &Self) -> B { self.0.s_eq(&o.0) & self.1.s_eq(&o.1) }
    fn fresh(name: &str, hi: i64) -> Self { (A::fresh(&format!("{}.0", name), hi), C::fresh(&format!("{}.1", name), hi)) }
}

use differential_dataflow::dynamic::pointstamp::PointStamp;
pub fn padded(p: &[Sym], i: usize) -> Sym { p.get(i).cloned().unwrap_or(c(0)) }
/// Coordinate sequences compare as if extended by minima.
pub fn pad_le(a: &[Sym], b: &[Sym]) -> B { B::all((0..a.len().max(b.len())).map(|i| Sym::le(padded(a, i), padded(b, i)))) }
pub fn pad_eq(a: &[Sym], b: &[Sym]) -> B { B::all((0..a.len().max(b.len())).map(|i| padded(a, i).is(padded(b, i)))) }
pub const POINT_LEN: usize = 2;
impl STime for PointStamp<Sym> {
    fn s_le(&self, o: &Self) -> B { pad_le(self, o) }
    fn s_eq(&self, o: &Self) -> B { pad_eq(self, o) }
    fn fresh(name: &str, hi: i64) -> Self {
        // Vectors of `POINT_LEN` coordinates with arbitrary values, including trailing minima, which `new` removes.
        let v: Vec<Sym> = (0..POINT_LEN).map(|i| var(&format!("{}.{}", name, i), 0, hi)).collect();
        PointStamp::new(v.into_iter().collect())
    }
}

impl SData for PointStamp<Sym> { fn s_is(&self, o: &Self) -> B { pad_eq(self, o) } }
impl SOrd for PointStamp<Sym> { fn s_less(&self, o: &Self) -> B {
    // Coordinates in order; sequences carry no trailing minima.
    let n = self.len().max(o.len());
    let mut less = FALSE;
    for i in (0..n).rev() { less = Sym::lt(padded(self, i), padded(o, i)) | (padded(self, i).is(padded(o, i)) & less); }
    less
} }

use differential_dogs3::altneu::AltNeu;
impl<T: STime> STime for AltNeu<T> {
    fn s_le(&self, o: &Self) -> B { s_lt(&self.time, &o.time) | (self.time.s_eq(&o.time) & B::of(self.neu <= o.neu)) }
    fn s_eq(&self, o: &Self) -> B { self.time.s_eq(&o.time) & B::of(self.neu == o.neu) }
    fn fresh(name: &str, hi: i64) -> Self { AltNeu { time: T::fresh(name, hi), neu: flag(&format!("{}.neu", name)).decide() } }
}

impl STime for u64 {
    fn s_le(&self, o: &Self) -> B { B::of(self <= o) }
    fn s_eq(&self, o: &Self) -> B { B::of(self == o) }
    fn fresh(name: &str, hi: i64) -> Self { choose(name, hi as usize + 1) as u64 }
}

/// Data whose total order can be read as a term.
pub trait SOrd: SData { fn s_less(&self, o: &Self) -> B; }
impl SOrd for Sym { fn s_less(&self, o: &Self) -> B { Sym::lt(*self, *o) } }
impl SOrd for () { fn s_less(&self, _: &Self) -> B { FALSE } }
impl SOrd for u64 { fn s_less(&self, o: &Self) -> B { B::of(self < o) } }
impl<const N: usize> SOrd for Pad<N> { fn s_less(&self, o: &Self) -> B { Sym::lt(self.0, o.0) } }
impl<A: SOrd, C: SOrd> SOrd for (A, C) { fn s_less(&self, o: &Self) -> B { self.0.s_less(&o.0) | (self.0.s_is(&o.0) & self.1.s_less(&o.1)) } }
impl<A: SOrd, C: SOrd, D: SOrd> SOrd for (A, C, D) { fn s_less(&self, o: &Self) -> B { self.0.s_less(&o.0) | (self.0.s_is(&o.0) & (self.1.s_less(&o.1) | (self.1.s_is(&o.1) & self.2.s_less(&o.2)))) } }
impl<A: SData, C: SData> SData for Product<A, C> { fn s_is(&self, o: &Self) -> B { self.outer.s_is(&o.outer) & self.inner.s_is(&o.inner) } }
impl<A: SOrd, C: SOrd> SOrd for Product<A, C> { fn s_less(&self, o: &Self) -> B { self.outer.s_less(&o.outer) | (self.outer.s_is(&o.outer) & self.inner.s_less(&o.inner)) } }

/// Strictly increasing.
pub fn increasing<D: SOrd>(xs: &[D]) -> B { B::all(xs.windows(2).map(|w| w[0].s_less(&w[1]))) }
/// Updates strictly increase by datum and time, and have non-zero differences.
pub fn canonical<D: SOrd + Clone, T: SOrd + Clone>(xs: &[(D, T, Sym)]) -> B {
    let keys: Vec<(D, T)> = xs.iter().map(|(d, t, _)| (d.clone(), t.clone())).collect();
    increasing(&keys) & B::all(xs.iter().map(|x| !x.2.is(c(0))))
}
/// `n` fresh updates.
pub fn updates<D, T: STime>(n: usize, d: impl Fn(&str) -> D, hi: i64, r: i64) -> Vec<(D, T, Sym)> {
    (0..n).map(|i| (d(&format!("d{i}")), T::fresh(&format!("t{i}"), hi), var(&format!("r{i}"), -r, r))).collect()
}

use timely::progress::Antichain;
/// An arbitrary antichain of between `min` and `max` elements.
pub fn anti<T: STime + Ord + timely::PartialOrder>(name: &str, min: usize, max: usize, hi: i64) -> Antichain<T> {
    let k = min + choose(&format!("{name}.len"), max - min + 1);
    let v: Vec<T> = (0..k).map(|i| T::fresh(&format!("{name}{i}"), hi)).collect();
    for i in 0..k { for j in 0..k { if i != j { assume(!v[i].s_le(&v[j])); } } }
    Antichain::from_iter(v)
}
/// Every element of `upper` is at or beyond `lower`.
pub fn after<T: STime>(lower: &[T], upper: &[T]) -> B { B::all(upper.iter().map(|u| beyond(lower, u))) }
/// Two antichains have the same elements.
pub fn same<T: STime>(a: &[T], b: &[T]) -> B { after(a, b) & after(b, a) }
pub fn show<T: std::fmt::Debug>(a: &T) -> String { format!("{:?}", a) }
