//! Building and merging batches, for each batch layout.
use ddverif::merging::*;
use ddverif::model::*;
use ddverif::traces::*;
use ddverif::*;

type OV<T> = OrdVal<Sym, Sym, T>;
type OK<T> = OrdKey<Sym, T>;

fn main() {
    const BV: &[&str] = &["OrdValBuilder::{push,seal,done}", "UpdsBuilder::{push,seal}", "Upds::bounds", "OrdValCursor", "OffsetList"];
    const BK: &[&str] = &["OrdKeyBuilder::{push,seal,done}", "UpdsBuilder::{push,seal}", "OrdKeyCursor"];
    const MV: &[&str] = &["OrdValMerger::{new,work,done,copy_key,merge_key,merge_vals,stash_updates_for_val}", "UpdsBuilder::{push,seal}", "Lattice::advance_by", "consolidation::consolidate", "OrdValBuilder", "OrdValCursor"];
    const MK: &[&str] = &["OrdKeyMerger::{new,work,done,copy_key,merge_key,stash_updates_for_key}", "UpdsBuilder::{push,seal}", "Lattice::advance_by", "OrdKeyBuilder", "OrdKeyCursor"];
    const W: &[&str] = &["built", "repeated update"];
    const I: &[&str] = &["interrupted", "nothing cancelled", "all cancelled"];
    const N: &[&str] = &["nothing cancelled", "all cancelled"];
    const L: &[&str] = &["nothing cancelled"];
    let b = |n: usize| format!("{n} canonical updates; keys, values and times in 0..=30, differences in -30..=30; every division into chunks");
    let m = |a: usize, c: usize, f: &str, t: &str| format!("batches of {a} and {c} updates over {t} times; arbitrary interval boundary and compaction frontier; fuel {f}; keys, values, times in 0..=30, differences in -30..=30");
    let cases = vec![
        Case::new("build val 4", b(4), BV, W, || build::<OV<Sym>>(4)),
        Case::new("build key 4", b(4), BK, W, || build::<OK<Sym>>(4)),
        Case::new("build val product 3", b(3), BV, W, || build::<OV<P2>>(3)),
        Case::new("build key product 3", b(3), BK, W, || build::<OK<P2>>(3)),
        Case::new("merge val 1 1", m(1, 1, "1, 2 or ample, twice", "integer"), MV, I, || merge::<OV<Sym>>(1, 1, 2, false)),
        Case::new("merge val 2 2", m(2, 2, "1, 2 or ample, once", "integer"), MV, I, || merge::<OV<Sym>>(2, 2, 1, false)),
        Case::new("merge val 3 0", m(3, 0, "ample", "integer"), MV, L, || merge::<OV<Sym>>(3, 0, 0, false)),
        Case::new("merge val 3 1", m(3, 1, "ample", "integer"), MV, N, || merge::<OV<Sym>>(3, 1, 0, false)),
        Case::new("merge val 1 3", m(1, 3, "ample", "integer"), MV, N, || merge::<OV<Sym>>(1, 3, 0, false)),
        Case::new("merge val since 2 1", m(2, 1, "ample, first batch already compacted", "integer"), MV, N, || merge::<OV<Sym>>(2, 1, 0, true)),
        Case::new("merge val product 1 1", m(1, 1, "ample", "product"), MV, N, || merge::<OV<P2>>(1, 1, 0, false)),
        Case::new("merge key 2 2", m(2, 2, "1, 2 or ample, twice", "integer"), MK, I, || merge::<OK<Sym>>(2, 2, 2, false)),
        Case::new("merge key 3 1", m(3, 1, "ample", "integer"), MK, N, || merge::<OK<Sym>>(3, 1, 0, false)),
        Case::new("merge key since 2 1", m(2, 1, "ample, first batch already compacted", "integer"), MK, N, || merge::<OK<Sym>>(2, 1, 0, true)),
        Case::new("merge key product 1 1", m(1, 1, "ample", "product"), MK, N, || merge::<OK<P2>>(1, 1, 0, false)),
        Case::new("merge val 3 2", m(3, 2, "1, 2 or ample, thrice", "integer"), MV, I, || merge::<OV<Sym>>(3, 2, 3, false)).thorough(),
        Case::new("merge key 3 3", m(3, 3, "1, 2 or ample, thrice", "integer"), MK, I, || merge::<OK<Sym>>(3, 3, 3, false)).thorough(),
        Case::new("merge val product 2 1", m(2, 1, "ample", "product"), MV, N, || merge::<OV<P2>>(2, 1, 0, false)).thorough(),
        Case::new("merge key product 2 1", m(2, 1, "ample", "product"), MK, N, || merge::<OK<P2>>(2, 1, 0, false)).thorough(),
    ];
    runner::run(Prop { id: "B02", title: "batch building and merging", outside: "larger batches; offsets beyond 32 bits (see F01)",
        assumptions: &["builder inputs are sorted and consolidated; merged batches are adjacent, as the library's traces ensure"], cases });
}
