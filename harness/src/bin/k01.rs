//! Chunked batches: the operations on chunks, and the batches, cursors and traces made of them.
use ddverif::chunks::*;
use ddverif::model::*;
use ddverif::nav::*;
use ddverif::spines::*;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::trace::chunk::*;
use differential_dataflow::trace::implementations::merge_batcher::Merger;
use differential_dataflow::trace::{Builder, Description};
use std::collections::VecDeque;
use timely::progress::{Antichain, Timestamp};

const R: i64 = 30;

fn mint<T: Timestamp>() -> Antichain<T> { Antichain::from_elem(T::minimum()) }
fn desc<T: Timestamp>() -> Description<T> { Description::new(mint(), Antichain::new(), mint()) }

/// Every division of a list into chunks of at most `most` updates.
fn cut<KD: Chunked>(name: &str, ups: &[Up<KD::K, KD::V, KD::T>], most: usize) -> Vec<KD::Chunk> {
    let mut out = vec![];
    let mut rest = ups;
    while !rest.is_empty() {
        let k = 1 + choose(&format!("{name} size"), most.min(rest.len()));
        out.push(KD::chunk(&rest[..k]));
        rest = &rest[k..];
    }
    out
}
fn all_canon<KD: Chunked>(name: &str, n: usize) -> Vec<Up<KD::K, KD::V, KD::T>> { canon::<KD>(name, n, &[KD::T::minimum()], &[], HI, R) }
fn full<C: Chunk>(cs: &[C]) { check(B::of(cs.iter().all(|c| c.len() > 0)), "an empty chunk"); }

/// Bounds are the first and last entries.
fn bounds<KD: Chunked>(cs: &[KD::Chunk]) {
    for ch in cs {
        let l = KD::read(ch);
        let [a, b] = KD::bounds(ch);
        check(a.0.s_is(&l[0].0) & a.1.s_eq(&l[0].1), "wrong lower bound");
        check(b.0.s_is(&l[l.len() - 1].0) & b.1.s_eq(&l[l.len() - 1].1), "wrong upper bound");
    }
}

/// Merging: by hand, by chain, or by the merge batcher.
fn merge<KD: Chunked>(n1: usize, n2: usize, most: usize, via: usize) {
    let (u1, u2) = (all_canon::<KD>("a", n1), all_canon::<KD>("b", n2));
    let (c1, c2) = (cut::<KD>("a", &u1, most), cut::<KD>("b", &u2, most));
    let out: Vec<KD::Chunk> = match via {
        0 => { let mut out = VecDeque::new(); merge_chains(c1, c2, &mut out); out.into() },
        _ => {
            let mut out = vec![];
            ChunkMerger::<KD::Chunk>::default().merge(c1, c2, &mut out, &mut vec![]);
            check(B::of(is_graded(&out)), "merged chunks are not graded");
            out
        },
    };
    full(&out);
    bounds::<KD>(&out);
    let got = KD::read_all(&out);
    note(|| format!("{:?} and {:?} merged as {:?}", u1, u2, got));
    check(canonical(&got), "merged chunks are not sorted and consolidated");
    let (d, q) = ((KD::K::fresh("k", HI), KD::V::fresh("v", HI)), KD::T::fresh("q", HI));
    let inputs: Vec<_> = u1.iter().chain(u2.iter()).cloned().collect();
    check(exact(&inputs, &d, &q).is(exact(&got, &d, &q)), "the merge changed a difference");
    if got.len() < n1 + n2 { reached("cancelled or combined"); } else { reached("disjoint"); }
}

/// Partitioning by a frontier.
fn extract<KD: Chunked>(n: usize, most: usize, via: usize) {
    let ups = all_canon::<KD>("a", n);
    let mut cs = cut::<KD>("a", &ups, most);
    let f: Antichain<KD::T> = anti("f", 0, KD::T::WIDTH, HI);
    let mut residual = Antichain::new();
    let (keep, ship): (Vec<KD::Chunk>, Vec<KD::Chunk>) = if via == 0 {
        let mut input: VecDeque<_> = std::mem::take(&mut cs).into();
        let (mut keep, mut ship) = (VecDeque::new(), VecDeque::new());
        let mut rounds = 0;
        while !input.is_empty() { KD::Chunk::extract(&mut input, f.borrow(), &mut residual, &mut keep, &mut ship); rounds += 1; if rounds > n + 2 { fail("extraction makes no progress") } }
        (keep.into(), ship.into())
    } else {
        let (mut keep, mut ship) = (vec![], vec![]);
        ChunkMerger::<KD::Chunk>::default().extract(cs, f.borrow(), &mut residual, &mut ship, &mut keep, &mut vec![]);
        check(B::of(is_graded(&keep) && is_graded(&ship)), "extracted chunks are not graded");
        (keep, ship)
    };
    full(&keep); full(&ship);
    let (kept, shipped) = (KD::read_all(&keep), KD::read_all(&ship));
    note(|| format!("{:?} by {:?}: kept {:?}, shipped {:?}, residual {:?}", ups, f, kept, shipped, residual));
    let (k, s): (Vec<_>, Vec<_>) = ups.into_iter().partition(|u| beyond(&f, &u.1).decide());
    check(kept.s_is_list(&k) & shipped.s_is_list(&s), "updates are on the wrong side");
    let times: Vec<KD::T> = k.iter().map(|u| u.1.clone()).collect();
    check(same(&residual, &times) , "the frontier of kept times is wrong");
    if !k.is_empty() && !s.is_empty() { reached("both sides"); }
}

trait ListIs { fn s_is_list(&self, o: &Self) -> B; }
impl<K: Datum, V: Datum, T: DTime> ListIs for Vec<Up<K, V, T>> {
    fn s_is_list(&self, o: &Self) -> B { if self.len() != o.len() { return FALSE; } B::all(self.iter().zip(o).map(|(a, b)| a.0.s_is(&b.0) & a.1.s_eq(&b.1) & a.2.is(b.2))) }
}

/// Advancing times, with the input supplied a chunk or several at a time.
fn advance<KD: Chunked>(n: usize, most: usize) {
    let ups = all_canon::<KD>("a", n);
    let cs = cut::<KD>("a", &ups, most);
    let f: Antichain<KD::T> = anti("f", 1, KD::T::WIDTH, HI);
    let (mut input, mut out) = (VecDeque::new(), VecDeque::new());
    for ch in cs {
        input.push_back(ch);
        if choose("advance now", 2) == 1 {
            KD::Chunk::advance(&mut input, f.borrow(), false, &mut out);
            if !input.is_empty() && !out.is_empty() { reached("withheld"); }
        }
    }
    KD::Chunk::advance(&mut input, f.borrow(), true, &mut out);
    check(B::of(input.is_empty()), "input remains after the last call");
    let out: Vec<_> = out.into();
    full(&out);
    bounds::<KD>(&out);
    let got = KD::read_all(&out);
    note(|| format!("{:?} advanced to {:?} as {:?}", ups, f, got));
    check(canonical(&got), "advanced chunks are not sorted and consolidated");
    for u in &got { let mut t = u.1.clone(); t.advance_by(f.borrow()); check(t.s_eq(&u.1), "a time was not advanced"); }
    let (d, q) = ((KD::K::fresh("k", HI), KD::V::fresh("v", HI)), KD::T::fresh("q", HI));
    check(beyond(&f, &q).implies(accum(&ups, &d, &q).is(accum(&got, &d, &q))), "an accumulation changed in advancing");
    if got.len() < n { reached("consolidated"); }
}

/// Reshaping chunks of any size, a few at a time.
fn settle<KD: Chunked>(n: usize, most: usize) {
    // Only lengths matter to reshaping, but contents must survive it.
    let ups = all_canon::<KD>("a", n);
    let cs = cut::<KD>("a", &ups, most);
    let (mut input, mut out) = (VecDeque::new(), VecDeque::new());
    for ch in cs.iter().cloned() {
        input.push_back(ch);
        if choose("settle now", 2) == 1 { KD::Chunk::settle(&mut input, false, &mut out); }
    }
    KD::Chunk::settle(&mut input, true, &mut out);
    check(B::of(input.is_empty()), "input remains after the last call");
    let out: Vec<_> = out.into();
    full(&out);
    bounds::<KD>(&out);
    check(B::of(is_graded(&out)), "settled chunks are not graded");
    let got = KD::read_all(&out);
    note(|| format!("{:?} settled as {:?}", ups, got));
    check(got.s_is_list(&ups), "settling changed the updates");
    check(KD::read_all(&settle_all(cs)).s_is_list(&ups), "settling all at once changed the updates");
    if out.len() > 1 { reached("several chunks"); }
}

/// A builder fed arbitrary chunks, some empty.
fn builder<KD: Chunked>(n: usize, most: usize) {
    let ups = all_canon::<KD>("a", n);
    let cs = cut::<KD>("a", &ups, most);
    let mut b = ChunkBatchBuilder::<KD::Chunk>::with_capacity(0, 0, 0);
    b.push(&mut KD::Chunk::default());
    for mut ch in cs { b.push(&mut ch); }
    let batch = std::rc::Rc::new(b.done(desc()));
    check(B::of(is_graded(&batch.chunks)), "built chunks are not graded");
    check(dump_batch::<KD>(&batch).s_is_list(&ups), "the batch differs from its input");
    reached("built");
}

/// Containers of arbitrary updates, in any order and with repeats, formed into sorted chunks.
fn chunker<KD: Chunked>(n: usize, hi: i64)
where KD::Chunk: timely::Container + timely::container::SizableContainer + differential_dataflow::consolidation::Consolidate + timely::container::PushInto<Up<KD::K, KD::V, KD::T>>
{
    use timely::container::{ContainerBuilder, PushInto};
    let ups: Vec<Up<KD::K, KD::V, KD::T>> = (0..n).map(|i| ((KD::K::fresh(&format!("k{i}"), hi), KD::V::fresh(&format!("v{i}"), hi)), KD::T::fresh(&format!("t{i}"), hi), var(&format!("r{i}"), -2, 2))).collect();
    let mut b = differential_dataflow::trace::implementations::chunker::ContainerChunker::<KD::Chunk>::default();
    let mut out = vec![];
    let take = |x: Option<&mut KD::Chunk>, out: &mut Vec<Up<KD::K, KD::V, KD::T>>| match x {
        Some(ch) => {
            let l = KD::read(ch);
            check(B::of(l.len() == Chunk::len(ch) && !l.is_empty()), "a chunk reports a wrong length, or is empty");
            check(canonical(&l), "a chunk is not sorted and consolidated");
            out.extend(l);
            if choose("take", 2) == 1 { std::mem::take(ch); }
            true
        },
        None => false,
    };
    let mut rest = ups.clone();
    while !rest.is_empty() {
        let k = 1 + choose("size", rest.len().min(3));
        let mut cont: Vec<_> = rest.drain(..k).collect();
        b.push_into(&mut cont);
        if choose("extract", 2) == 1 { while take(b.extract(), &mut out) { reached("early chunk"); } }
    }
    while take(b.finish(), &mut out) { }
    check(B::of(b.extract().is_none()), "a chunk remained after finishing");
    let (d, q) = ((KD::K::fresh("k", hi), KD::V::fresh("v", hi)), KD::T::fresh("q", hi));
    let sum = |l: &[Up<KD::K, KD::V, KD::T>]| { let mut s = c(0); for u in l { s = s + (u.0.s_is(&d) & u.1.s_eq(&q)).ite(u.2, c(0)); } s };
    check(sum(&ups).is(sum(&out)), "updates were lost, duplicated or altered");
    if out.len() < n { reached("cancelled"); }
}

/// Cursors over every division into chunks: of one chunk, one batch, or several batches.
fn cursor<KD: Chunked>(n: usize, most: usize, steps: usize) {
    let ups = canon::<KD>("a", n, &[KD::T::minimum()], &[], HI, 5);
    let b = std::rc::Rc::new(ChunkBatch::new(cut::<KD>("a", &ups, most), desc()));
    if b.chunks.len() > 1 { reached("several chunks"); }
    navigate_batch::<KD>(&b, ups, steps);
}
fn cursors<KD: Chunked>(sizes: &[usize], steps: usize) {
    let ups: Vec<Vec<_>> = sizes.iter().enumerate().map(|(i, n)| canon::<KD>(&format!("{i}"), *n, &[KD::T::minimum()], &[], HI, 5)).collect();
    let bs: Vec<KD::B> = ups.iter().enumerate().map(|(i, u)| std::rc::Rc::new(ChunkBatch::new(cut::<KD>(&format!("{i}"), u, 2), desc()))).collect();
    navigate_list::<KD>(bs, &ups, steps);
}
/// Many fixed updates, one chunk each, so that seeks take long hops.
fn long<KD: Chunked<K = Sym, T = Sym>>(val: impl Fn(i64) -> KD::V, most: usize, steps: usize) {
    let mut ups: Vec<Up<Sym, KD::V, Sym>> = vec![];
    for i in 0..15 { ups.push(((c(2 * (i / 2)), val(i % 2)), c(i), c(1))); }
    for v in 0..6 { ups.push(((c(100), val(3 * v)), c(v), c(1))); }
    ups.sort();
    let chunks = ups.chunks(most).map(|u| KD::chunk(u)).collect();
    let b = std::rc::Rc::new(ChunkBatch::new(chunks, desc()));
    navigate_batch::<KD>(&b, ups, steps);
}

type VV<T> = VecKind<Sym, Sym, T>;
type VK<T> = VecKind<Sym, (), T>;
type CV<T> = ColKind<Sym, Sym, T>;
type CK<T> = ColKind<Sym, (), T>;

fn main() {
    const MV: &[&str] = &["VecChunk::merge", "merge_chains", "ChunkMerger::merge", "pack", "VecChunkCursor"];
    const MC: &[&str] = &["ColChunk::merge", "trie_merger::{merge_pair,survey,write_from_surveys,suffix_chunk}", "UpdatesTyped::filter_zero", "merge_chains", "ChunkMerger::merge", "pack", "ColChunkCursor"];
    const EV: &[&str] = &["VecChunk::extract", "ChunkMerger::extract", "pack"];
    const EC: &[&str] = &["ColChunk::extract", "trie_merger::extract", "ChunkMerger::extract", "pack"];
    const AV: &[&str] = &["VecChunk::advance", "Lattice::advance_by", "consolidation::consolidate"];
    const AC: &[&str] = &["ColChunk::advance", "advance_trie", "UpdatesBuilder::{new_from,meld,done}", "trie_merger::split_at", "Lattice::advance_by"];
    const SV: &[&str] = &["VecChunk::settle", "pack", "pack_absorb", "settle_all", "is_graded"];
    const SC: &[&str] = &["ColChunk::settle", "pack", "pack_absorb", "settle_all", "is_graded", "UpdatesBuilder::meld", "trie_merger::split_at"];
    const BB: &[&str] = &["ChunkBatchBuilder::{push,done,seal}", "ChunkBatchCursor"];
    const NV: &[&str] = &["ChunkBatchCursor", "locate_key", "VecChunkCursor", "VecChunk::bounds", "vec::gallop"];
    const NC: &[&str] = &["ChunkBatchCursor", "locate_key", "ColChunkCursor", "ColChunk::bounds", "trie_merger::gallop"];
    const BM: &[&str] = &["ChunkBatchMerger::{new,work,done}", "Chunk::{merge,advance,settle}", "ChunkBatchCursor", "ChunkBatchBuilder::seal"];
    const SP: &[&str] = &["ChunkSpine", "Spine", "ChunkBatchMerger", "ChunkBatchCursor", "CursorList"];
    let m = |a: usize, b: usize, t: &str| format!("canonical lists of {a} and {b} updates, {t} times, in every division into chunks of up to 2; values in 0..=30, differences in -30..=30");
    let o = |a: usize, k: usize, t: &str| format!("a canonical list of {a} updates, {t} times, in every division into chunks of up to {k}; every way of supplying them; values in 0..=30, differences in -30..=30");
    let nv = |a: usize, k: usize, s: usize| format!("a canonical list of {a} updates in every division into chunks of up to {k}; {s} arbitrary commands with arbitrary targets at or after the current key");
    const W: &[&str] = &["cancelled or combined", "disjoint"];
    const CH: &[&str] = &["ContainerChunker", "Consolidate, SizableContainer and PushInto for VecChunk and ColChunk"];
    let ch = |n: usize| format!("{n} arbitrary updates in any order, in every division into containers and with every pattern of extraction");
    const WN: &[&str] = &["updates read", "key seek", "value seek"];
    const WK: &[&str] = &["updates read", "key seek"];
    const N: &[&str] = &["nothing cancelled", "all cancelled"];
    const I: &[&str] = &["interrupted", "nothing cancelled", "all cancelled"];
    fn pl(ops: &'static [usize]) -> Plan { Plan { sizes: &[&[1], &[1], &[0]], concrete: None, ops, effort: 1, widths: (1, 1) } }
    let ct = |t: i64| c(t);
    use ddverif::merging::merge as bmerge;
    let cases = vec![
        Case::new("merge vec 2 2", m(2, 2, "integer"), MV, W, || merge::<VV<Sym>>(2, 2, 2, choose("via", 2))),
        Case::new("merge vec 3 2", m(3, 2, "integer"), MV, W, || merge::<VK<Sym>>(3, 2, 2, choose("via", 2))),
        Case::new("merge col 2 2", m(2, 2, "integer"), MC, W, || merge::<CV<Sym>>(2, 2, 2, choose("via", 2))),
        Case::new("merge col 3 1", m(3, 1, "integer"), MC, W, || merge::<CV<Sym>>(3, 1, 2, 1)),
        Case::new("merge col 1 3", m(1, 3, "integer"), MC, W, || merge::<CV<Sym>>(1, 3, 3, 0)),
        Case::new("merge col key 3 2", m(3, 2, "integer"), MC, W, || merge::<CK<Sym>>(3, 2, 2, choose("via", 2))),
        Case::new("merge col product 2 2", m(2, 2, "product"), MC, W, || merge::<CK<P2>>(2, 2, 2, 1)),
        Case::new("extract vec 3", o(3, 2, "integer"), EV, &["both sides"], || extract::<VV<Sym>>(3, 2, choose("via", 2))),
        Case::new("extract col 3", o(3, 3, "integer"), EC, &["both sides"], || extract::<CV<Sym>>(3, 3, choose("via", 2))),
        Case::new("extract vec product 2", o(2, 2, "product"), EV, &["both sides"], || extract::<VK<P2>>(2, 2, choose("via", 2))),
        Case::new("extract col product 2", o(2, 2, "product"), EC, &["both sides"], || extract::<CK<P2>>(2, 2, choose("via", 2))),
        Case::new("advance vec 3", o(3, 2, "integer"), AV, &["withheld", "consolidated"], || advance::<VV<Sym>>(3, 2)),
        Case::new("advance col 3", o(3, 2, "integer"), AC, &["withheld", "consolidated"], || advance::<CV<Sym>>(3, 2)),
        Case::new("advance col key 4", o(4, 2, "integer"), AC, &["withheld", "consolidated"], || advance::<CK<Sym>>(4, 2)),
        Case::new("advance vec product 2", o(2, 2, "product"), AV, &["consolidated"], || advance::<VK<P2>>(2, 2)),
        Case::new("advance col product 2", o(2, 2, "product"), AC, &["consolidated"], || advance::<CK<P2>>(2, 2)),
        Case::new("settle vec 5", o(5, 5, "integer"), SV, &["several chunks"], || settle::<VK<Sym>>(5, 5)),
        Case::new("settle col 4", o(4, 4, "integer"), SC, &["several chunks"], || settle::<CV<Sym>>(4, 4)),
        Case::new("settle col key 5", o(5, 5, "integer"), SC, &["several chunks"], || settle::<CK<Sym>>(5, 5)),
        Case::new("builder vec 4", o(4, 3, "integer"), BB, &["built"], || builder::<VV<Sym>>(4, 3)),
        Case::new("builder col 4", o(4, 3, "integer"), BB, &["built"], || builder::<CV<Sym>>(4, 3)),
        Case::new("chunker vec", ch(3), CH, &["early chunk", "cancelled"], || chunker::<VK<Sym>>(3, 4)),
        Case::new("chunker col", ch(3), CH, &["early chunk", "cancelled"], || chunker::<CK<Sym>>(3, 4)),
        Case::new("chunker vec val", ch(4), CH, &["early chunk", "cancelled"], || chunker::<VV<Sym>>(4, 2)),
        Case::new("chunker col val", ch(4), CH, &["early chunk", "cancelled"], || chunker::<CV<Sym>>(4, 2)),
        Case::new("cursor vec 3", nv(3, 2, 3), NV, WN, || cursor::<VV<Sym>>(3, 2, 3)),
        Case::new("cursor col 3", nv(3, 2, 3), NC, WN, || cursor::<CV<Sym>>(3, 2, 3)),
        Case::new("cursor vec key 3", nv(3, 2, 3), NV, WK, || cursor::<VK<Sym>>(3, 2, 3)),
        Case::new("cursor col key 3", nv(3, 2, 3), NC, WK, || cursor::<CK<Sym>>(3, 2, 3)),
        Case::new("cursors col 2 1", nv(3, 2, 2), NC, WN, || cursors::<CV<Sym>>(&[2, 1], 2)),
        Case::new("long vec", "21 fixed updates over 9 keys, one or four to a chunk; 2 arbitrary commands", NV, WN, || long::<VV<Sym>>(|v| c(v), [1, 4][choose("most", 2)], 2)),
        Case::new("long col", "21 fixed updates over 9 keys, one or four to a chunk; 2 arbitrary commands", NC, WN, || long::<CV<Sym>>(|v| c(v), [1, 4][choose("most", 2)], 2)),
        Case::new("batches vec 2 2", m(2, 2, "integer"), BM, I, || bmerge::<VV<Sym>>(2, 2, 1, false)),
        Case::new("batches vec key 3 1", m(3, 1, "integer"), BM, I, || bmerge::<VK<Sym>>(3, 1, 2, false)),
        Case::new("batches col 2 1", m(2, 1, "integer"), BM, I, || bmerge::<CV<Sym>>(2, 1, 1, false)),
        Case::new("batches col key 3 1", m(3, 1, "integer"), BM, I, || bmerge::<CK<Sym>>(3, 1, 2, false)),
        Case::new("batches col product 1 1", m(1, 1, "product"), BM, N, || bmerge::<CV<P2>>(1, 1, 0, false)),
        Case::new("batches vec product 1 1", m(1, 1, "product"), BM, N, || bmerge::<VV<P2>>(1, 1, 0, false)),
        Case::new("trace vec", "batches of 1, 1 and 0 arbitrary updates as in S01", SP, &["merged", "compacted"], move || history::<VK<Sym>>(&pl(&[0, 2, 5]), ct, |j| (c(j), ()))),
        Case::new("trace col", "batches of 1, 1 and 0 arbitrary updates as in S01", SP, &["merged", "compacted"], move || history::<CK<Sym>>(&pl(&[0, 2, 5]), ct, |j| (c(j), ()))),
        Case::new("trace col, merge in progress", "fixed batches of 16,9,1,3 updates with some arbitrary differences", SP, &["merged", "compacted"], move || history::<CV<Sym>>(&Plan { sizes: &[&[16], &[9], &[1], &[3]], concrete: Some(2), ops: &[0, 2, 4, 5], effort: 1, widths: (1, 1) }, ct, |j| (c(j / 2), c(j % 2)))),
        Case::new("trace vec, merge in progress", "fixed batches of 16,9,1,3 updates with some arbitrary differences", SP, &["merged", "compacted"], move || history::<VV<Sym>>(&Plan { sizes: &[&[16], &[9], &[1], &[3]], concrete: Some(2), ops: &[0, 2, 4, 5], effort: 1, widths: (1, 1) }, ct, |j| (c(j / 2), c(j % 2)))),
        Case::new("merge vec 3 3", m(3, 3, "integer"), MV, W, || merge::<VV<Sym>>(3, 3, 2, 1)).thorough(),
        Case::new("merge col 3 2", m(3, 2, "integer"), MC, W, || merge::<CV<Sym>>(3, 2, 2, 1)).thorough(),
        Case::new("merge col 3 3", m(3, 3, "integer"), MC, W, || merge::<CK<Sym>>(3, 3, 3, 0)).thorough(),
        Case::new("merge vec product 2 2", m(2, 2, "product"), MV, W, || merge::<VK<P2>>(2, 2, 2, 0)).thorough(),
        Case::new("merge col product 2 2", m(2, 2, "product"), MC, W, || merge::<CK<P2>>(2, 2, 2, 0)).thorough(),
        Case::new("extract col 4", o(4, 4, "integer"), EC, &["both sides"], || extract::<CV<Sym>>(4, 4, choose("via", 2))).thorough(),
        Case::new("extract col product 3", o(3, 3, "product"), EC, &["both sides"], || extract::<CK<P2>>(3, 3, choose("via", 2))).thorough(),
        Case::new("advance vec 4", o(4, 3, "integer"), AV, &["withheld", "consolidated"], || advance::<VV<Sym>>(4, 3)).thorough(),
        Case::new("advance col 4", o(4, 3, "integer"), AC, &["withheld", "consolidated"], || advance::<CV<Sym>>(4, 3)).thorough(),
        Case::new("advance vec product 3", o(3, 2, "product"), AV, &["consolidated"], || advance::<VK<P2>>(3, 2)).thorough(),
        Case::new("advance col product 3", o(3, 2, "product"), AC, &["consolidated"], || advance::<CK<P2>>(3, 2)).thorough(),
        Case::new("settle col 6", o(6, 6, "integer"), SC, &["several chunks"], || settle::<CK<Sym>>(6, 6)).thorough(),
        Case::new("cursor vec 4", nv(4, 2, 3), NV, WN, || cursor::<VV<Sym>>(4, 2, 3)).thorough(),
        Case::new("cursor col 4", nv(4, 2, 3), NC, WN, || cursor::<CV<Sym>>(4, 2, 3)).thorough(),
        Case::new("cursors vec 2 2", nv(4, 2, 2), NV, WN, || cursors::<VV<Sym>>(&[2, 2], 2)).thorough(),
        Case::new("batches vec 3 2", m(3, 2, "integer"), BM, I, || bmerge::<VV<Sym>>(3, 2, 2, false)).thorough(),
        Case::new("batches col 2 2", m(2, 2, "integer"), BM, I, || bmerge::<CV<Sym>>(2, 2, 2, false)).thorough(),
        Case::new("batches col 3 2", m(3, 2, "integer"), BM, I, || bmerge::<CK<Sym>>(3, 2, 2, false)).thorough(),
        Case::new("batches col product 2 1", m(2, 1, "product"), BM, N, || bmerge::<CK<P2>>(2, 1, 0, false)).thorough(),
        Case::new("trace col val", "batches of 1, 1 and 0 arbitrary updates as in S01, more maintenance", SP, &["merged", "compacted"], move || history::<CV<Sym>>(&pl(&[0, 1, 2, 3, 4, 5]), ct, |j| (c(j / 2), c(j % 2)))).thorough(),
        Case::new("trace col product", "batches of 1, 1 and 0 arbitrary updates over product times", SP, &["merged", "compacted"], move || history::<CK<P2>>(&pl(&[0, 2, 5]), |t| P2::new(c(t), c(0)), |j| (c(j), ()))).thorough(),
    ];
    runner::run(Prop { id: "K01", title: "chunked batches", outside: "chunks larger than the reduced target of 2 (the hook's TARGET); longer lists; spilled chunks (see V01)",
        assumptions: &["chunk chains are sorted and consolidated end to end", "key seeks are forward", "TARGET and BURST reduced to 2 under cfg(ddverif)"], cases });
}
