//! The symbolic scalar as a differential-dataflow datum, timestamp and difference.
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

use differential_dataflow::difference::{Abelian, IsZero, Monoid, Multiply, Semigroup};
use differential_dataflow::lattice::{Lattice, Maximum};
use timely::order::{PartialOrder, TotalOrder};
use timely::progress::timestamp::{PathSummary, Refines, Timestamp};

use crate::engine::{with, Sym, B};

thread_local! {
    /// What every symbolic scalar hashes to: equal scalars must hash equally, whichever values they have.
    static HASH_BUCKETS: Cell<u64> = const { Cell::new(0) };
}
/// Sets what symbolic scalars hash to, which determines the order of hash maps.
pub fn hash_to(x: u64) { HASH_BUCKETS.with(|h| h.set(x)) }
thread_local! {
    static PLACES: std::cell::RefCell<Vec<Sym>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Makes symbolic scalars hash to an arbitrary function of their value: `table[i]` for `i`, the last for all else.
/// The range of the entries is `0..n`.
pub fn hash_by(table: Vec<Sym>, n: u64) { hash_to(n); PLACES.with(|p| *p.borrow_mut() = table) }
fn hash_of(s: Sym) -> u64 {
    let most = HASH_BUCKETS.with(|b| b.get());
    let place = PLACES.with(|p| {
        let p = p.borrow();
        let mut out = *p.last()?;
        for (i, x) in p.iter().enumerate().rev().skip(1) { out = s.is(Sym::c(i as i64)).ite(*x, out); }
        Some(out)
    });
    let Some(place) = place else { return most };
    for i in 0..most - 1 { if place.is(Sym::c(i as i64)).decide() { return i } }
    most - 1
}

impl Default for Sym { fn default() -> Self { Sym::c(0) } }
impl PartialEq for Sym { fn eq(&self, o: &Sym) -> bool { self.is(*o).decide() } }
impl Eq for Sym { }
impl PartialOrd for Sym { fn partial_cmp(&self, o: &Sym) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &Sym) -> bool { Sym::lt(*self, *o).decide() }
    fn le(&self, o: &Sym) -> bool { Sym::le(*self, *o).decide() }
    fn gt(&self, o: &Sym) -> bool { Sym::lt(*o, *self).decide() }
    fn ge(&self, o: &Sym) -> bool { Sym::le(*o, *self).decide() }
}
impl Ord for Sym {
    fn cmp(&self, o: &Sym) -> Ordering {
        if self.0 == o.0 { return Ordering::Equal; }
        if Sym::lt(*self, *o).decide() { Ordering::Less }
        else if self.is(*o).decide() { Ordering::Equal }
        else { Ordering::Greater }
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // Never forks: prints constants, and symbolic terms by their value in the current model.
        let s = crate::engine::ENG.with(|e| match e.try_borrow_mut() { Ok(mut e) => e.describe(*self), Err(_) => "?".to_string() });
        write!(f, "{}", s)
    }
}
impl fmt::Display for Sym { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }
impl Hash for Sym {
    fn hash<H: Hasher>(&self, h: &mut H) {
        // The standard hasher is keyed at random; a fixed key makes the order of hash maps reproducible.
        use std::collections::hash_map::DefaultHasher;
        if std::any::type_name::<H>() == std::any::type_name::<DefaultHasher>() {
            // SAFETY: the types are the same.
            unsafe { *(h as *mut H as *mut DefaultHasher) = DefaultHasher::new(); }
        }
        h.write_u64(hash_of(*self))
    }
}

impl serde::Serialize for Sym { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) } }
impl<'de> serde::Deserialize<'de> for Sym { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Sym(u64::deserialize(d)?)) } }

// ---- time ----
impl PartialOrder for Sym {
    fn less_equal(&self, o: &Sym) -> bool { Sym::le(*self, *o).decide() }
    fn less_than(&self, o: &Sym) -> bool { Sym::lt(*self, *o).decide() }
}
impl TotalOrder for Sym { }
impl Lattice for Sym {
    fn join(&self, o: &Sym) -> Sym { self.max_of(*o) }
    fn meet(&self, o: &Sym) -> Sym { self.min_of(*o) }
}
impl Timestamp for Sym { type Summary = Sym; fn minimum() -> Sym { Sym::c(0) } }
impl PathSummary<Sym> for Sym {
    fn results_in(&self, src: &Sym) -> Option<Sym> { Some(Sym::add(*self, *src)) }
    fn followed_by(&self, o: &Sym) -> Option<Sym> { Some(Sym::add(*self, *o)) }
}
impl Refines<()> for Sym {
    fn to_inner(_: ()) -> Sym { Sym::c(0) }
    fn to_outer(self) -> () { }
    fn summarize(_: Sym) -> () { }
}
pub const SYM_MAX: i64 = 1 << 40;
impl Maximum for Sym { fn maximum() -> Sym { Sym::c(SYM_MAX) } }

// ---- difference ----
impl IsZero for Sym { fn is_zero(&self) -> bool { self.is(Sym::c(0)).decide() } }
impl Semigroup for Sym { fn plus_equals(&mut self, o: &Sym) { *self = Sym::add(*self, *o) } }
impl Monoid for Sym { fn zero() -> Sym { Sym::c(0) } }
impl Abelian for Sym { fn negate(&mut self) { *self = Sym::c(0).sub(*self) } }
impl Multiply<Sym> for Sym { type Output = Sym; fn multiply(self, o: &Sym) -> Sym { self.times(*o) } }
impl Multiply<isize> for Sym { type Output = Sym; fn multiply(self, o: &isize) -> Sym { self.times(Sym::c(*o as i64)) } }
impl std::ops::Add for Sym { type Output = Sym; fn add(self, o: Sym) -> Sym { Sym::add(self, o) } }
impl std::ops::Sub for Sym { type Output = Sym; fn sub(self, o: Sym) -> Sym { Sym::sub(self, o) } }
impl std::ops::Neg for Sym { type Output = Sym; fn neg(self) -> Sym { Sym::c(0).sub(self) } }
impl std::ops::Mul for Sym { type Output = Sym; fn mul(self, o: Sym) -> Sym { self.times(o) } }
impl<'a> std::ops::AddAssign<&'a Sym> for Sym { fn add_assign(&mut self, o: &Sym) { *self = Sym::add(*self, *o) } }
impl std::ops::AddAssign for Sym { fn add_assign(&mut self, o: Sym) { *self = Sym::add(*self, o) } }
impl From<i64> for Sym { fn from(v: i64) -> Sym { Sym::c(v) } }
impl PartialEq<i64> for Sym { fn eq(&self, o: &i64) -> bool { *self == Sym::c(*o) } }
impl PartialOrd<i64> for Sym { fn partial_cmp(&self, o: &i64) -> Option<Ordering> { Some(self.cmp(&Sym::c(*o))) } }
/// Forks over the values of both.
impl std::ops::Rem for Sym { type Output = Sym; fn rem(self, o: Sym) -> Sym {
    let value = |x: Sym| x.as_const().unwrap_or_else(|| (0..=64).chain((1..=64).map(|n: i64| -n)).find(|n| x.is(Sym::c(*n)).decide()).expect("an integer within reach"));
    Sym::c(value(self) % value(o))
} }
impl From<i8> for Sym { fn from(v: i8) -> Sym { Sym::c(v as i64) } }
impl std::ops::BitAnd for B { type Output = B; fn bitand(self, o: B) -> B { self.and(o) } }
impl std::ops::BitOr for B { type Output = B; fn bitor(self, o: B) -> B { self.or(o) } }
impl std::ops::Not for B { type Output = B; fn not(self) -> B { B::not(self) } }

// ---- columnation ----
impl columnation::Columnation for Sym { type InnerRegion = columnation::CopyRegion<Sym>; }

// ---- columnar: stored as 64-bit handles, so that byte round trips are exact ----
#[derive(Copy, Clone, Default)]
pub struct Syms<CV = Vec<u64>> { pub values: CV }
mod cols {
    use super::*;
    use columnar::common::{BorrowIndexAs, PushIndexAs};
    use columnar::{AsBytes, Borrow, Clear, Columnar, Container, FromBytes, Index, IndexAs, Len, Push};
    impl Columnar for Sym { fn into_owned<'a>(other: columnar::Ref<'a, Self>) -> Self { other } type Container = Syms; }
    impl<CV: BorrowIndexAs<u64> + Len> Borrow for Syms<CV> {
        type Ref<'a> = Sym;
        type Borrowed<'a> = Syms<CV::Borrowed<'a>> where CV: 'a;
        fn borrow<'a>(&'a self) -> Self::Borrowed<'a> { Syms { values: self.values.borrow() } }
        fn reborrow<'b, 'a: 'b>(t: Self::Borrowed<'a>) -> Self::Borrowed<'b> where CV: 'a { Syms { values: CV::reborrow(t.values) } }
        fn reborrow_ref<'b, 'a: 'b>(t: Self::Ref<'a>) -> Self::Ref<'b> where Self: 'a { t }
    }
    impl<CV: PushIndexAs<u64>> Container for Syms<CV> {
        fn extend_from_self(&mut self, other: Self::Borrowed<'_>, range: std::ops::Range<usize>) { self.values.extend_from_self(other.values, range) }
        fn reserve_for<'a, I>(&mut self, selves: I) where Self: 'a, I: Iterator<Item = Self::Borrowed<'a>> + Clone { self.values.reserve_for(selves.map(|x| x.values)) }
    }
    impl<CV: Len> Len for Syms<CV> { fn len(&self) -> usize { self.values.len() } }
    impl<CV: IndexAs<u64>> Index for Syms<CV> { type Ref = Sym; fn get(&self, i: usize) -> Sym { Sym(self.values.index_as(i)) } }
    impl<CV: IndexAs<u64>> Index for &Syms<CV> { type Ref = Sym; fn get(&self, i: usize) -> Sym { Sym(self.values.index_as(i)) } }
    impl<CV: for<'a> Push<&'a u64>> Push<Sym> for Syms<CV> { fn push(&mut self, s: Sym) { self.values.push(&s.0) } }
    impl Push<&Sym> for Syms { fn push(&mut self, s: &Sym) { self.values.push(s.0) } }
    impl<CV: Clear> Clear for Syms<CV> { fn clear(&mut self) { self.values.clear() } }
    impl<'a, CV: AsBytes<'a>> AsBytes<'a> for Syms<CV> {
        const SLICE_COUNT: usize = CV::SLICE_COUNT;
        fn get_byte_slice(&self, index: usize) -> (u64, &'a [u8]) { self.values.get_byte_slice(index) }
    }
    impl<'a, CV: FromBytes<'a>> FromBytes<'a> for Syms<CV> {
        const SLICE_COUNT: usize = CV::SLICE_COUNT;
        fn from_bytes(bytes: &mut impl Iterator<Item=&'a [u8]>) -> Self { Self { values: CV::from_bytes(bytes) } }
        fn from_store(store: &columnar::bytes::indexed::DecodedStore<'a>, offset: &mut usize) -> Self { Self { values: CV::from_store(store, offset) } }
        fn element_sizes(sizes: &mut Vec<usize>) -> Result<(), String> { CV::element_sizes(sizes) }
    }
}

// ---- harness vocabulary ----
/// A fresh symbolic integer in `lo ..= hi`.
pub fn var(name: &str, lo: i64, hi: i64) -> Sym { with(|e| e.fresh(name, lo, hi)) }
/// A fresh symbolic Boolean.
pub fn flag(name: &str) -> B { let v = var(name, 0, 1); v.is(Sym::c(1)) }
/// A fresh symbolic choice in `0 .. n`, made concrete by forking.
pub fn choose(name: &str, n: usize) -> usize {
    if n <= 1 { return 0; }
    let v = var(name, 0, n as i64 - 1);
    for i in 0 .. n - 1 { if v.is(Sym::c(i as i64)).decide() { return i; } }
    n - 1
}
pub fn assume(b: B) { if !with(|e| e.assume(b)) { std::panic::panic_any(crate::engine::Abort) } }
/// Asserts `b` for all values satisfying the path condition, ending the path when it can fail.
pub fn check(b: B, message: &str) { if !with(|e| e.check(b, message)) { std::panic::panic_any(crate::engine::Abort) } }
pub fn fail(message: &str) -> ! { with(|e| e.record_violation(message.to_string())); std::panic::panic_any(crate::engine::Abort) }
pub fn witness(name: &'static str, b: B) { with(|e| e.witness(name, b)) }
pub fn reached(name: &'static str) { with(|e| e.witness(name, crate::engine::TRUE)) }
pub fn c(v: i64) -> Sym { Sym::c(v) }

/// A datum whose size makes the library's byte-sized buffers hold only a few elements, so that buffer
/// boundaries fall within reach of a few symbolic updates. The padding is inert.
#[derive(Clone)]
pub struct Pad<const N: usize>(pub Sym, pub [u64; N]);
impl<const N: usize> Pad<N> { pub fn new(s: Sym) -> Self { Pad(s, [0; N]) } }
impl<const N: usize> PartialEq for Pad<N> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<const N: usize> Eq for Pad<N> { }
impl<const N: usize> PartialOrd for Pad<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.0.cmp(&o.0)) } }
impl<const N: usize> Ord for Pad<N> { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
impl<const N: usize> Default for Pad<N> { fn default() -> Self { Pad(Sym::c(0), [0; N]) } }
impl<const N: usize> fmt::Debug for Pad<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<const N: usize> Hash for Pad<N> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<const N: usize> serde::Serialize for Pad<N> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
impl<'de, const N: usize> serde::Deserialize<'de> for Pad<N> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Pad(Sym::deserialize(d)?, [0; N])) } }
impl<const N: usize> crate::model::SData for Pad<N> { fn s_is(&self, o: &Self) -> B { self.0.is(o.0) } }
