//! Batcher sealing: histories of chunks and seals against the multiset of updates pushed.
use ddverif::model::*;
use ddverif::*;
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use differential_dataflow::trace::implementations::merge_batcher::{vec::VecMerger, MergeBatcher};
use differential_dataflow::trace::Batcher;
use timely::container::{ContainerBuilder, PushInto};
use timely::progress::{Antichain, Timestamp};

const HI: i64 = 30;
const R: i64 = 30;

trait BTime: STime + SOrd + Timestamp + std::fmt::Debug { const WIDTH: usize; fn min_() -> Self { Self::minimum() } }
impl BTime for Sym { const WIDTH: usize = 1; }
impl BTime for P2 { const WIDTH: usize = 2; }

/// `sizes` are chunk sizes; a zero is a seal at an arbitrary later frontier. Ends with a seal, perhaps at the empty frontier.
fn history<T: BTime, const N: usize>(sizes: &[usize], chunked: bool) {
    type U<T, const N: usize> = (Pad<N>, T, Sym);
    let mut b = MergeBatcher::<VecMerger<Pad<N>, T, Sym>>::new(None, 0);
    let mut chunker = ContainerChunker::<Vec<U<T, N>>>::default();
    let mut all: Vec<U<T, N>> = vec![];
    let mut lower = Antichain::from_elem(T::min_());
    let (d, q) = (Pad::new(var("d", 0, HI)), T::fresh("q", HI));
    let mut steps: Vec<usize> = sizes.to_vec();
    steps.push(0);
    let last = steps.len() - 1;
    let mut closed = false;
    for (s, &size) in steps.iter().enumerate() {
        if size > 0 {
            let chunk: Vec<U<T, N>> = (0..size).map(|i| (Pad::new(var(&format!("d{s}.{i}"), 0, HI)), T::fresh(&format!("t{s}.{i}"), HI), var(&format!("r{s}.{i}"), -R, R))).collect();
            for u in &chunk { assume(beyond(&lower, &u.1)); }
            all.extend(chunk.iter().cloned());
            if chunked {
                let mut chunk = chunk;
                chunker.push_into(&mut chunk);
                while let Some(x) = chunker.extract() { b.push_into(std::mem::take(x)); }
            } else {
                assume(canonical(&chunk));
                b.push_into(chunk);
            }
        } else {
            if chunked { while let Some(x) = chunker.finish() { b.push_into(std::mem::take(x)); } }
            let upper: Antichain<T> = anti(&format!("u{s}"), if s == last { 0 } else { 1 }, T::WIDTH, HI);
            assume(after(&lower, &upper));
            let (out, desc) = b.seal(upper.clone());
            let frontier = b.frontier().to_owned();
            let flat: Vec<U<T, N>> = out.into_iter().flatten().collect();
            note(|| format!("of {:?} sealed {:?} at {:?}, leaving frontier {:?}", all, flat, upper, frontier));
            check(same(desc.lower(), &lower) & same(desc.upper(), &upper), "description does not abut the previous seal");
            check(same(desc.since(), &[T::min_()]), "a sealed batch claims compaction");
            check(canonical(&flat), "sealed chain is not canonical");
            let released = beyond(&lower, &q) & !beyond(&upper, &q);
            check(exact(&flat, &d, &q).is(released.ite(exact(&all, &d, &q), c(0))), "sealed batch differs from the updates in its interval");
            // The frontier is a lower bound of what is retained, and each element is the time of a retained update.
            let retained = beyond(&upper, &q) & !exact(&all, &d, &q).is(c(0));
            check(retained.implies(beyond(&frontier, &q)), "a retained update is not beyond the reported frontier");
            for f in frontier.iter() {
                check(beyond(&upper, f) & B::any(all.iter().map(|u| u.1.s_eq(f) & !exact(&all, &u.0, f).is(c(0)))), "reported frontier holds a time with no retained update");
            }
            if upper.is_empty() { check(B::of(frontier.is_empty()), "frontier after a final seal"); reached("closed"); closed = true; }
            if !flat.is_empty() { reached("released"); }
            if !frontier.is_empty() { reached("retained"); }
            if flat.is_empty() && frontier.is_empty() { reached("cancelled"); }
            lower = upper;
        }
        if closed { break; }
    }
}

fn main() {
    const M: &[&str] = &["MergeBatcher::{push_into,insert_chain,seal,frontier}", "VecMerger::{merge,extract,refill}", "trace::Description::new"];
    const C: &[&str] = &["MergeBatcher::{push_into,insert_chain,seal,frontier}", "VecMerger::{merge,extract,refill}", "ContainerChunker::{push_into,extract,finish}"];
    const W: &[&str] = &["released", "retained", "cancelled", "closed"];
    const W1: &[&str] = &["released", "retained", "closed"];
    let b = |s: &str, cap: usize, t: &str| format!("chunks and seals (0) of sizes {s}; buffers of {cap}; {t} times in 0..=30; data in 0..=30; differences in -30..=30");
    let cases = vec![
        Case::new("one and one", b("1,1", 1, "integer"), M, W, || history::<Sym, 600>(&[1, 1], false)),
        Case::new("two and two", b("2,2", 1, "integer"), M, W, || history::<Sym, 600>(&[2, 2], false)),
        Case::new("two and two, wide", b("2,2", 2, "integer"), M, W, || history::<Sym, 384>(&[2, 2], false)),
        Case::new("seal between", b("2,0,1", 1, "integer"), M, W, || history::<Sym, 600>(&[2, 0, 1], false)),
        Case::new("seal between, wide", b("2,0,2", 2, "integer"), M, W, || history::<Sym, 384>(&[2, 0, 2], false)),
        Case::new("three chunks", b("1,1,1", 2, "integer"), M, W, || history::<Sym, 384>(&[1, 1, 1], false)),
        Case::new("three seals", b("1,0,1,0,1", 1, "integer"), M, W, || history::<Sym, 600>(&[1, 0, 1, 0, 1], false)),
        Case::new("product times", b("1,1,1", 1, "product"), M, W, || history::<P2, 600>(&[1, 1, 1], false)),
        Case::new("product times, seal between", b("1,0,1", 2, "product"), M, W, || history::<P2, 384>(&[1, 0, 1], false)),
        Case::new("chunker", b("2,1 unsorted", 1, "integer"), C, W, || history::<Sym, 600>(&[2, 1], true)),
        Case::new("chunker, seal between", b("2,0,1 unsorted", 2, "integer"), C, W, || history::<Sym, 384>(&[2, 0, 1], true)),
        Case::new("three and two", b("3,2", 2, "integer"), M, W1, || history::<Sym, 384>(&[3, 2], false)),
        Case::new("two two two", b("2,2,1", 2, "integer"), M, W, || history::<Sym, 384>(&[2, 2, 1], false)).thorough(),
        Case::new("product seal between 2", b("2,0,1", 1, "product"), M, W, || history::<P2, 600>(&[2, 0, 1], false)).thorough(),
        Case::new("product two two", b("2,1", 2, "product"), M, W1, || history::<P2, 384>(&[2, 1], false)).thorough(),
        Case::new("chunker, 2,0,2", b("2,0,2 unsorted", 2, "integer"), C, W, || history::<Sym, 384>(&[2, 0, 2], true)).thorough(),
    ];
    runner::run(Prop { id: "B01", title: "batcher seal", outside: "longer histories and larger chunks; allocation accounting",
        assumptions: &["updates arrive at times beyond the last seal frontier, and pushed chunks are sorted and consolidated, as the batcher requires"], cases });
}
