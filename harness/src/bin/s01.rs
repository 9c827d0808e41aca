//! Histories of insertion, compaction, effort and reads on a spine of batches.
use ddverif::spines::*;
use ddverif::model::*;
use ddverif::traces::*;
use ddverif::*;

fn ct(t: i64) -> Sym { c(t) }
fn key(j: i64) -> (Sym, ()) { (c(j), ()) }
fn kv(j: i64) -> (Sym, Sym) { (c(j / 2), c(j % 2)) }

type OV<T> = OrdVal<Sym, Sym, T>;
type OK<T> = OrdKey<Sym, T>;

fn main() {
    const E: &[&str] = &["Spine::{insert,set_logical_compaction,set_physical_compaction,exert,batches_through,map_batches,consider_merges,introduce_batch,roll_up,apply_fuel,insert_at,complete_at,tidy_layers}", "MergeState, MergeVariant", "TraceReader::{cursor_through,read_upper}", "CursorList", "OrdKeyMerger", "OrdValMerger", "Lattice::advance_by"];
    const W: &[&str] = &["merged", "compacted"];
    let sym = |s: &str, o: &str, t: &str| format!("batches of {s} arbitrary updates (data, {t} times in 0..=30, differences in -30..=30) with arbitrary interval boundaries and compaction frontiers; maintenance after each: any of {o}; every permitted read after each step");
    let con = |s: &str, o: &str| format!("batches of sizes {s} with fixed keys and times, some differences symbolic; maintenance after each: any of {o}; every permitted read after each step");
    const ALL: &str = "nothing, logical compaction, physical compaction, partial physical compaction, effort";
    let cases = vec![
        Case::new("key 1 1", sym("1,1,0", ALL, "integer"), E, W, || history::<OK<Sym>>(&Plan { sizes: &[&[1], &[1], &[0]], concrete: None, ops: &[0, 1, 2, 3, 4, 5], effort: 1, widths: (1, 1) }, ct, key)),
        Case::new("key 1 1 1", sym("1,1,1", "logical, physical or both compactions", "integer"), E, W, || history::<OK<Sym>>(&Plan { sizes: &[&[1], &[1], &[1]], concrete: None, ops: &[2, 5], effort: 1, widths: (1, 1) }, ct, key)),
        Case::new("val 1 1", sym("1,1,0", ALL, "integer"), E, W, || history::<OV<Sym>>(&Plan { sizes: &[&[1], &[1], &[0]], concrete: None, ops: &[0, 1, 2, 3, 4, 5], effort: 1, widths: (1, 1) }, ct, kv)),
        Case::new("key product 1 1", sym("1,1,0", "physical or both compactions", "product"), E, W, || history::<OK<P2>>(&Plan { sizes: &[&[1], &[1], &[0]], concrete: None, ops: &[2, 5], effort: 1, widths: (1, 1) }, |t| P2::new(c(t), c(0)), key)),
        Case::new("mixed sizes", con("0 or 1, 1 or 4, 0 or 1, 4", "physical compaction, both compactions, effort"), E, W, || history::<OK<Sym>>(&Plan { sizes: &[&[0, 1], &[1, 4], &[0, 1], &[4]], concrete: Some(1), ops: &[2, 4, 5], effort: 1, widths: (1, 1) }, ct, key)),
        Case::new("merge in progress", con("16,16,1,1,0 or 1", "physical compaction, both compactions"), E, W, || history::<OK<Sym>>(&Plan { sizes: &[&[16], &[16], &[1], &[1], &[0, 1]], concrete: Some(2), ops: &[2, 5], effort: 1, widths: (1, 1) }, ct, key)),
        Case::new("merge in progress, val", con("16,9,1,3", "nothing, physical compaction, both compactions, effort"), E, W, || history::<OV<Sym>>(&Plan { sizes: &[&[16], &[9], &[1], &[3]], concrete: Some(2), ops: &[0, 2, 4, 5], effort: 1, widths: (1, 1) }, ct, kv)),
        Case::new("key 2 1 1", sym("2,1,1", ALL, "integer"), E, &[], || history::<OK<Sym>>(&Plan { sizes: &[&[2], &[1], &[1]], concrete: None, ops: &[1, 2, 3, 5], effort: 1, widths: (1, 1) }, ct, key)).thorough(),
        Case::new("mixed sizes deep", con("0, 1, 3 or 8, five times", "physical compaction, effort"), E, W, || history::<OK<Sym>>(&Plan { sizes: &[&[0, 1, 3, 8], &[0, 1, 3, 8], &[0, 1, 3, 8], &[0, 1, 3, 8], &[1]], concrete: Some(2), ops: &[0, 2, 4], effort: 1, widths: (1, 1) }, ct, key)).thorough(),
        Case::new("key product wide logical", sym("1,1,0", "physical or both compactions", "product"), E, W, || history::<OK<P2>>(&Plan { sizes: &[&[1], &[1], &[0]], concrete: None, ops: &[2, 5], effort: 1, widths: (1, 2) }, |t| P2::new(c(t), c(0)), key)).thorough(),
        Case::new("key product wide bounds", sym("1,1,0", "physical or both compactions", "product"), E, W, || history::<OK<P2>>(&Plan { sizes: &[&[1], &[1], &[0]], concrete: None, ops: &[2, 5], effort: 1, widths: (2, 1) }, |t| P2::new(c(t), c(0)), key)).thorough(),
        Case::new("val product 1 1", sym("1,1,0", "physical or both compactions", "product"), E, W, || history::<OV<P2>>(&Plan { sizes: &[&[1], &[1], &[0]], concrete: None, ops: &[0, 2, 5], effort: 1, widths: (1, 1) }, |t| P2::new(c(t), c(0)), kv)).thorough(),
        Case::new("mixed sizes, larger effort", con("0, 1 or 5, four times", "nothing, physical compaction, effort"), E, W, || history::<OK<Sym>>(&Plan { sizes: &[&[0, 1, 5], &[0, 1, 5], &[0, 1, 5], &[0, 1, 5]], concrete: Some(3), ops: &[0, 2, 4], effort: 4, widths: (1, 1) }, ct, key)).thorough(),
    ];
    runner::run(Prop { id: "S01", title: "trace", outside: "longer histories and larger batches; logging", assumptions: &["batches are inserted in order, and frontiers only advance, as the trace requires"], cases });
}
