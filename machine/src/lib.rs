//! Properties of machine integers, decided by Kani over every bit pattern, and replayed natively.
#![allow(unused_comparisons)]
use std::time::Duration;
use differential_dataflow::difference::{Abelian, IsZero, Monoid, Multiply, Present, Semigroup};
use differential_dataflow::lattice::{Lattice, Maximum};
use differential_dataflow::trace::implementations::{BatchContainer, OffsetList};
use timely::order::Product;
use timely::progress::Timestamp;
use std::num::Wrapping;

#[cfg(not(kani))]
pub mod source {
    //! Values handed out in the order in which the solver's counterexample lists them.
    use std::cell::RefCell;
    thread_local! { pub static VALUES: RefCell<std::collections::VecDeque<Vec<u8>>> = RefCell::new(Default::default()); }
    pub fn next() -> Vec<u8> { VALUES.with(|v| v.borrow_mut().pop_front()).expect("counterexample too short") }
}

/// Requires something of the values, or abandons the path.
pub fn assume(b: bool) {
    #[cfg(kani)] kani::assume(b);
    #[cfg(not(kani))] if !b { println!("the values are not admissible"); std::process::exit(0); }
}
#[cfg(kani)]
macro_rules! check { ($b:expr, $m:expr) => { kani::assert($b, $m) } }
#[cfg(not(kani))]
macro_rules! check { ($b:expr, $m:expr) => { if !$b { println!("FAILED: {}", $m); std::process::exit(1); } } }
#[cfg(kani)]
macro_rules! reach { ($b:expr, $m:expr) => { kani::cover($b, $m) } }
#[cfg(not(kani))]
macro_rules! reach { ($b:expr, $m:expr) => { let _ = $b; } }

pub trait Any: Sized { fn any() -> Self; }
macro_rules! any { ($($t:ty)*) => { $(
    impl Any for $t {
        #[cfg(kani)] fn any() -> Self { kani::any() }
        #[cfg(not(kani))] fn any() -> Self { let v = Self::from_ne_bytes(source::next()[..].try_into().unwrap()); println!("{v:?}"); v }
    }
    impl Any for Wrapping<$t> { fn any() -> Self { Wrapping(<$t>::any()) } }
)* } }
any!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
impl Any for () { fn any() -> Self { } }
impl Any for Present { fn any() -> Self { Present } }
impl Any for Duration { fn any() -> Self { let (s, n) = (u64::any(), u32::any()); assume(n < 1_000_000_000); Duration::new(s, n) } }
impl<A: Any, B: Any> Any for (A, B) { fn any() -> Self { let a = A::any(); (a, B::any()) } }
impl<A: Any, B: Any> Any for Product<A, B> { fn any() -> Self { let a = A::any(); Product::new(a, B::any()) } }

/// Join and meet are least upper and greatest lower bounds, at the ends of the type's range as elsewhere.
fn lattice<T: Any + Lattice + Timestamp>() {
    let (a, b, c) = (T::any(), T::any(), T::any());
    let (j, m) = (a.join(&b), a.meet(&b));
    check!(a.less_equal(&j) && b.less_equal(&j), "join is not an upper bound");
    check!(!(a.less_equal(&c) && b.less_equal(&c)) || j.less_equal(&c), "join is not the least upper bound");
    check!(m.less_equal(&a) && m.less_equal(&b), "meet is not a lower bound");
    check!(!(c.less_equal(&a) && c.less_equal(&b)) || c.less_equal(&m), "meet is not the greatest lower bound");
    check!(T::minimum().less_equal(&a), "minimum is not minimal");
    check!(!a.less_equal(&b) || a <= b, "total order does not extend the partial order");
    let (mut x, mut y) = (a.clone(), a.clone());
    x.join_assign(&b);
    y.meet_assign(&b);
    check!(x == j, "join_assign differs from join");
    check!(y == m, "meet_assign differs from meet");
    reach!(a.less_equal(&b) && a != b, "ordered");
    reach!(b.less_equal(&c) && a.less_equal(&c) && a != b, "bounded above");
}
/// As above where the partial order is the type's order.
fn total<T: Any + Lattice + Timestamp + Maximum>() {
    let (a, b) = (T::any(), T::any());
    check!(a.less_equal(&b) == (a <= b), "the partial order is not the type's order");
    check!(a.less_equal(&T::maximum()), "maximum is not maximal");
    check!(a.join(&T::maximum()) == T::maximum() && a.meet(&T::maximum()) == a, "maximum does not absorb");
    check!(a.join(&T::minimum()) == a && a.meet(&T::minimum()) == T::minimum(), "minimum does not absorb");
    lattice::<T>();
}

/// Integers add, negate and multiply as the machine's integers do, where those do not overflow.
macro_rules! difference { ($name:ident, $abelian:ident, $t:ty) => { pub fn $name() {
    let (a, b, c) = (<$t>::any(), <$t>::any(), <$t>::any());
    if let Some(s) = a.checked_add(b) {
        let mut x = a; x.plus_equals(&b);
        check!(x == s, "addition differs from integer addition");
        let mut y = b; y.plus_equals(&a);
        check!(y == s, "addition is not commutative");
        let mut r = a; Semigroup::<&$t>::plus_equals(&mut r, &&b);
        check!(r == s, "addition by reference differs");
        check!(x.is_zero() == (s == 0), "a sum is zero where it should not be, or not where it should");
        if let (Some(t), Some(u)) = (s.checked_add(c), b.checked_add(c)) {
            if a.checked_add(u).is_some() {
                let mut l = x; l.plus_equals(&c);
                let mut m = b; m.plus_equals(&c);
                let mut r = a; r.plus_equals(&m);
                check!(l == r && l == t, "addition is not associative");
            }
        }
        reach!(s == 0 && a != 0 || <$t>::MIN == 0, "cancel");
    }
    check!(a.is_zero() == (a == 0), "is_zero is not the absence of change");
    check!(<$t as Monoid>::zero() == 0, "zero is not zero");
    if <$t>::BITS <= 16 || b.checked_add(8).is_some_and(|s| s >= 0 && s <= 16) { if let Some(p) = a.checked_mul(b) { check!(Multiply::multiply(a, &b) == p, "multiplication differs from integer multiplication"); } }
    check!(Multiply::multiply(a, &1) == a && Multiply::multiply(a, &0) == 0, "multiplication by one or zero");
    difference!(@$abelian a);
} };
    (@signed $a:ident) => {
        if let Some(n) = $a.checked_neg() {
            let mut x = $a; x.negate();
            check!(x == n, "negation differs from integer negation");
            x.plus_equals(&$a);
            check!(x.is_zero(), "negation is not an inverse");
        }
    };
    (@unsigned $a:ident) => { };
}

/// Wrapping integers form a group over every value.
macro_rules! wrapping { ($name:ident, $i:ty) => { pub fn $name() {
    type W = Wrapping<$i>;
    let (a, b, c) = (W::any(), W::any(), W::any());
    let mut x = a; x.plus_equals(&b);
    check!(x.0 == a.0.wrapping_add(b.0), "addition differs from wrapping addition");
    let mut y = b; y.plus_equals(&a);
    check!(x == y, "addition is not commutative");
    let mut l = x; l.plus_equals(&c);
    let mut m = b; m.plus_equals(&c);
    let mut r = a; r.plus_equals(&m);
    check!(l == r, "addition is not associative");
    let mut n = a; n.negate();
    n.plus_equals(&a);
    check!(n.is_zero() && n == <W as Monoid>::zero(), "negation is not an inverse");
    check!(a.is_zero() == (a.0 == 0), "is_zero is not the absence of change");
    if <$i>::BITS <= 16 || b.0 <= 8 && b.0 >= -8 { check!(Multiply::multiply(a, &b).0 == a.0.wrapping_mul(b.0), "multiplication differs from wrapping multiplication"); }
    reach!(x.is_zero() && a.0 > 0, "cancel");
} } }

fn present() {
    let a = i64::any();
    let mut p = Present;
    p.plus_equals(&Present);
    check!(!p.is_zero() && !Present.is_zero(), "presence vanishes");
    check!(Present.multiply(&a) == a, "presence does not multiply as one");
    reach!(a != 0, "nonzero");
}

/// What an offset list holds is what was pushed, however large, in whatever order.
fn offsets<const N: usize>() {
    let mut v = [0usize; N];
    let mut list = OffsetList::with_capacity(N);
    for i in 0..N { v[i] = usize::any(); list.push(v[i]); }
    check!(list.len() == N, "length");
    for i in 0..N { check!(list.index(i) == v[i], "an offset differs from the one pushed"); }
    reach!(v[0] == 0 && v[N - 2] > u32::MAX as usize && v[N - 1] < 7, "mixed widths");
}
fn offsets_clear() {
    let (v, w) = (usize::any(), usize::any());
    let mut list = OffsetList::with_capacity(1);
    list.push_own(&v);
    check!(list.len() == 1 && list.index(0) == v, "an offset differs from the one pushed");
    list.clear();
    check!(list.len() == 0, "not empty when cleared");
    list.push_ref(w);
    check!(list.len() == 1 && list.index(0) == w, "an offset pushed after clearing differs");
    reach!(v > u32::MAX as usize && w == 0, "mixed widths");
}
fn offsets_iterate<const N: usize>() {
    let mut v = [0usize; N];
    for i in 0..N { v[i] = usize::any(); }
    let mut list = OffsetList::with_capacity(0);
    for i in 0..N { list.push(v[i]); }
    let mut k = 0;
    for o in &list { check!(k < N && o == v[k], "iteration differs from what was pushed"); k += 1; }
    check!(k == N, "iteration ends early");
    reach!(v[0] == 0 && v[N - 1] > u32::MAX as usize, "mixed widths");
}
/// Copying a range of one offset list into another copies those offsets.
fn offsets_merge() {
    let v = [usize::any(), usize::any()];
    let mut a = OffsetList::with_capacity(0);
    for i in 0..2 { a.push(v[i]); }
    let mut b = OffsetList::merge_capacity(&a, &a);
    for i in 0..2 { b.push_ref(BatchContainer::index(&a, i)); }
    for i in 0..2 { check!(b.index(i) == v[i], "a copied offset differs"); }
    reach!(v[0] < v[1] && v[1] > u32::MAX as usize, "ascending");
}

macro_rules! table { ($($prop:ident $tier:ident $name:ident $unwind:literal $f:expr;)*) => {
    #[cfg(kani)] mod proofs { use super::*; $( #[kani::proof] #[kani::unwind($unwind)] fn $name() { $f(); } )* }
    pub const TABLE: &[(&str, &str, &str, fn())] = &[$((stringify!($prop), stringify!($tier), stringify!($name), || { $f(); })),*];
} }
difference!(d_i8, signed, i8); difference!(d_i16, signed, i16); difference!(d_i32, signed, i32); difference!(d_i64, signed, i64); difference!(d_i128, signed, i128); difference!(d_isize, signed, isize);
difference!(d_u8, unsigned, u8); difference!(d_u16, unsigned, u16); difference!(d_u32, unsigned, u32); difference!(d_u64, unsigned, u64); difference!(d_u128, unsigned, u128); difference!(d_usize, unsigned, usize);
wrapping!(w_i8, i8); wrapping!(w_i16, i16); wrapping!(w_i32, i32); wrapping!(w_i64, i64); wrapping!(w_i128, i128); wrapping!(w_isize, isize);
table! {
    L01 quick lattice_u8 2 total::<u8>; L01 quick lattice_u16 2 total::<u16>; L01 quick lattice_u32 2 total::<u32>; L01 quick lattice_u64 2 total::<u64>; L01 quick lattice_u128 2 total::<u128>; L01 quick lattice_usize 2 total::<usize>;
    L01 quick lattice_i8 2 total::<i8>; L01 quick lattice_i16 2 total::<i16>; L01 quick lattice_i32 2 total::<i32>; L01 quick lattice_i64 2 total::<i64>; L01 quick lattice_i128 2 total::<i128>; L01 quick lattice_isize 2 total::<isize>;
    L01 quick lattice_duration 2 total::<Duration>; L01 quick lattice_unit 2 total::<()>;
    L01 quick lattice_pair 2 lattice::<(u8, u64)>; L01 quick lattice_pair_signed 2 lattice::<(i32, i32)>; L01 quick lattice_pair_product 2 lattice::<(Product<u8, u8>, u32)>; L01 quick lattice_product 2 lattice::<Product<u64, u32>>; L01 quick lattice_product_duration 2 lattice::<Product<Duration, u64>>;
    D01 quick difference_i8 2 d_i8; D01 quick difference_i16 2 d_i16; D01 quick difference_i32 2 d_i32; D01 quick difference_i64 2 d_i64; D01 thorough difference_i128 2 d_i128; D01 thorough difference_isize 2 d_isize;
    D01 quick difference_u8 2 d_u8; D01 quick difference_u16 2 d_u16; D01 quick difference_u32 2 d_u32; D01 quick difference_u64 2 d_u64; D01 thorough difference_u128 2 d_u128; D01 thorough difference_usize 2 d_usize;
    D01 quick wrapping_i8 2 w_i8; D01 quick wrapping_i16 2 w_i16; D01 quick wrapping_i32 2 w_i32; D01 quick wrapping_i64 2 w_i64; D01 thorough wrapping_i128 2 w_i128; D01 thorough wrapping_isize 2 w_isize;
    D01 quick presence 2 present;
    F01 quick offset_list 4 offsets::<2>; F01 thorough offset_list_large 5 offsets::<3>; F01 quick offset_list_cleared 3 offsets_clear; F01 quick offset_list_iterated 4 offsets_iterate::<2>; F01 quick offset_list_copied 4 offsets_merge; F01 thorough offset_list_larger 6 offsets::<4>; F01 thorough offset_list_iterated_larger 5 offsets_iterate::<3>;
}
