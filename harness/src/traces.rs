//! Batches and traces of each layout, built from and read back as plain update lists.
use crate::model::*;
use crate::*;
use differential_dataflow::trace::cursor::{Cursor, CursorList};
use differential_dataflow::trace::implementations::ord_neu::*;
use differential_dataflow::trace::implementations::{BatchContainer, SliceContainer, OffsetList};
use differential_dataflow::trace::rc_blanket_impls::RcBuilder;
use differential_dataflow::trace::{Batch, BatchReader, Builder, Description, Navigable};
use differential_dataflow::lattice::Lattice;
use std::fmt::Debug;
use std::rc::Rc;
use timely::progress::Timestamp;

pub trait DTime: STime + SOrd + Timestamp + Lattice + Ord + Debug { const WIDTH: usize; }
impl DTime for Sym { const WIDTH: usize = 1; }
impl DTime for P2 { const WIDTH: usize = 2; }
impl DTime for timely::order::Product<P2, Sym> { const WIDTH: usize = 3; }
/// Times in dynamic scopes.
pub type PD = timely::order::Product<Sym, differential_dataflow::dynamic::pointstamp::PointStamp<Sym>>;
impl DTime for PD { const WIDTH: usize = 3; }
impl DTime for timely::order::Product<Sym, u64> { const WIDTH: usize = 2; }

/// A key or value type, with arbitrary instances.
pub trait Datum: SOrd + Ord + Clone + Debug + Default + 'static { fn fresh(name: &str, hi: i64) -> Self; }
impl Datum for Sym { fn fresh(name: &str, hi: i64) -> Self { var(name, 0, hi) } }
impl Datum for () { fn fresh(_: &str, _: i64) -> Self { } }
impl<const N: usize> Datum for Pad<N> { fn fresh(name: &str, hi: i64) -> Self { Pad::new(var(name, 0, hi)) } }
/// Vectors of zero to two elements.
impl Datum for Vec<Sym> { fn fresh(name: &str, hi: i64) -> Self { let n = choose(&format!("{name}.len"), 3); (0..n).map(|i| var(&format!("{name}.{i}"), 0, hi)).collect() } }
impl SOrd for Vec<Sym> {
    fn s_less(&self, o: &Self) -> B {
        let mut less = B::of(self.len() < o.len());
        for i in (0..self.len().min(o.len())).rev() { less = Sym::lt(self[i], o[i]) | (self[i].is(o[i]) & less); }
        less
    }
}

pub type Up<K, V, T> = ((K, V), T, Sym);

/// A layout of batches.
pub trait Kind: 'static {
    /// Key seeks are only defined for targets at or after the current key.
    const FORWARD: bool = false;
    type K: Datum;
    type V: Datum;
    type T: DTime;
    type C: Cursor<Time = Self::T, Diff = Sym, Storage = Self::B>;
    type B: Batch<Time = Self::T> + Navigable<Cursor = Self::C> + Clone + 'static;
    fn build(chunks: Vec<Vec<Up<Self::K, Self::V, Self::T>>>, desc: Description<Self::T>) -> Self::B;
    fn key(k: <Self::C as Cursor>::Key<'_>) -> Self::K;
    fn val(v: <Self::C as Cursor>::Val<'_>) -> Self::V;
    /// Seeks a cursor to an owned key or value.
    fn seek_key<C2: for<'a> Cursor<Key<'a> = <Self::C as Cursor>::Key<'a>>>(c: &mut C2, s: &C2::Storage, k: &Self::K);
    fn seek_val<C2: for<'a> Cursor<Val<'a> = <Self::C as Cursor>::Val<'a>>>(c: &mut C2, s: &C2::Storage, v: &Self::V);
}

macro_rules! by_ref { () => {
    fn key(k: &Self::K) -> Self::K { k.clone() }
    fn val(v: &Self::V) -> Self::V { v.clone() }
    fn seek_key<C2: for<'a> Cursor<Key<'a> = &'a Self::K>>(c: &mut C2, s: &C2::Storage, k: &Self::K) { c.seek_key(s, k) }
    fn seek_val<C2: for<'a> Cursor<Val<'a> = &'a Self::V>>(c: &mut C2, s: &C2::Storage, v: &Self::V) { c.seek_val(s, v) }
} }

use differential_dataflow::trace::implementations::Vector;
pub struct OrdVal<K, V, T>(std::marker::PhantomData<(K, V, T)>);
impl<K: Datum, V: Datum, T: DTime> Kind for OrdVal<K, V, T> {
    type K = K; type V = V; type T = T;
    type B = Rc<OrdValBatch<Vector<((K, V), T, Sym)>>>;
    type C = <Self::B as Navigable>::Cursor;
    fn build(mut chunks: Vec<Vec<Up<K, V, T>>>, desc: Description<T>) -> Self::B { <RcOrdValBuilder<K, V, T, Sym> as Builder>::seal(&mut chunks, desc) }
    by_ref!();
}
pub struct OrdKey<K, T>(std::marker::PhantomData<(K, T)>);
impl<K: Datum, T: DTime> Kind for OrdKey<K, T> {
    type K = K; type V = (); type T = T;
    type B = Rc<OrdKeyBatch<Vector<((K, ()), T, Sym)>>>;
    type C = <Self::B as Navigable>::Cursor;
    fn build(mut chunks: Vec<Vec<Up<K, (), T>>>, desc: Description<T>) -> Self::B { <RcOrdKeyBuilder<K, T, Sym> as Builder>::seal(&mut chunks, desc) }
    by_ref!();
}

/// Reads a whole cursor, checking its structure as it goes.
pub fn dump<KD: Kind, C: for<'a> Cursor<Key<'a> = <KD::C as Cursor>::Key<'a>, Val<'a> = <KD::C as Cursor>::Val<'a>, Time = KD::T, Diff = Sym>>(c: &mut C, s: &C::Storage) -> Vec<Up<KD::K, KD::V, KD::T>> {
    let mut out = vec![];
    while c.key_valid(s) {
        let k = KD::key(c.key(s));
        check(B::of(c.val_valid(s)), "a key with no values");
        while c.val_valid(s) {
            let v = KD::val(c.val(s));
            let before = out.len();
            c.map_times(s, |t, r| out.push(((k.clone(), v.clone()), C::owned_time(t), C::owned_diff(r))));
            let _ = before;
            c.step_val(s);
        }
        c.step_key(s);
    }
    out
}
pub fn dump_batch<KD: Kind>(b: &KD::B) -> Vec<Up<KD::K, KD::V, KD::T>> { dump::<KD, KD::C>(&mut b.cursor(), b) }

/// `n` updates in canonical order within an interval.
pub fn canon<KD: Kind>(name: &str, n: usize, lower: &[KD::T], upper: &[KD::T], hi: i64, r: i64) -> Vec<Up<KD::K, KD::V, KD::T>> {
    let v: Vec<Up<KD::K, KD::V, KD::T>> = (0..n).map(|i| ((KD::K::fresh(&format!("{name}k{i}"), hi), KD::V::fresh(&format!("{name}v{i}"), hi)), KD::T::fresh(&format!("{name}t{i}"), hi), var(&format!("{name}r{i}"), -r, r))).collect();
    assume(canonical(&v));
    for u in &v { assume(beyond(lower, &u.1) & !beyond(upper, &u.1)); }
    v
}
