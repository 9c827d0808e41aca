//! Building and merging batches, for each batch layout.
use crate::model::*;
use crate::traces::*;
use crate::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::trace::{Batch, BatchReader, Description, Merger};
use timely::progress::{Antichain, Timestamp};

const HI: i64 = 30;
const R: i64 = 30;

/// A batch built from any division of canonical updates into chunks holds exactly those updates.
pub fn build<KD: Kind>(n: usize) {
    let ups = canon::<KD>("", n, &[KD::T::minimum()], &[], HI, R);
    let mut chunks = vec![];
    let mut rest = ups.clone();
    while !rest.is_empty() { let k = 1 + choose("size", rest.len()); chunks.push(rest.drain(..k).collect()); }
    let (lo, up, si) = (Antichain::from_elem(KD::T::minimum()), Antichain::new(), Antichain::from_elem(KD::T::minimum()));
    let b = KD::build(chunks, Description::new(lo.clone(), up.clone(), si.clone()));
    let out = dump_batch::<KD>(&b);
    note(|| format!("{:?} built as {:?}", ups, out));
    check(out.s_is(&ups), "the batch differs from its input");
    check(B::of(b.len() == n && b.is_empty() == (n == 0)), "the batch reports a wrong length");
    check(same(b.lower(), &lo) & same(b.upper(), &up) & same(b.description().since(), &si), "description was altered");
    for w in ups.windows(2) { if (w[0].1.s_eq(&w[1].1) & w[0].2.is(w[1].2)).decide() { reached("repeated update"); } }
    reached("built");
}

/// Merges two adjacent batches of `n1` and `n2` updates, each perhaps already compacted.
pub fn merge<KD: Kind>(n1: usize, n2: usize, fuel: usize, sinces: bool) {
    let lower = Antichain::from_elem(KD::T::minimum());
    let mid: Antichain<KD::T> = anti("mid", 1, KD::T::WIDTH, HI);
    let upper = Antichain::new();
    let min = Antichain::from_elem(KD::T::minimum());
    let s1: Antichain<KD::T> = if sinces { anti("s1_", 1, 1, HI) } else { min.clone() };
    let u1 = canon::<KD>("a", n1, &lower, if sinces { &[] } else { &mid }, HI, R);
    let u2 = canon::<KD>("b", n2, &mid, &upper, HI, R);
    let b1 = KD::build(vec![u1.clone()], Description::new(lower.clone(), mid.clone(), s1.clone()));
    let b2 = KD::build(vec![u2.clone()], Description::new(mid.clone(), upper.clone(), min.clone()));
    let f: Antichain<KD::T> = anti("f", 1, KD::T::WIDTH, HI);
    if sinces { assume(after(&s1, &f)); }
    let mut m = b1.begin_merge(&b2, f.borrow());
    let mut rounds = 0;
    loop {
        let mut fu = if fuel > 0 && rounds < fuel { [1isize, 2, 1000][choose("fuel", 3)] } else { 1000 };
        let given = fu;
        m.work(&b1, &b2, &mut fu);
        rounds += 1;
        check(B::of(fu <= given), "work increased the fuel");
        if fu > 0 { break; }
        reached("interrupted");
        if rounds > n1 + n2 + 4 { fail("the merge makes no progress"); }
    }
    let b = m.done();
    let out = dump_batch::<KD>(&b);
    note(|| format!("{:?} and {:?} merged at {:?} as {:?}", u1, u2, f, out));
    check(same(b.lower(), &lower) & same(b.upper(), &upper), "the merged batch does not span its inputs");
    check(canonical(&out), "the merged batch is not consolidated");
    check(B::of(b.len() == out.len() && b.is_empty() == out.is_empty()), "the merged batch reports a wrong length");
    let d = (KD::K::fresh("k", HI), KD::V::fresh("v", HI));
    let q = KD::T::fresh("q", HI);
    let readable = beyond(&f, &q);
    check(after(&f, b.description().since()), "the merged batch is not compacted as far as asked");
    for u in &out { let mut t = u.1.clone(); t.advance_by(b.description().since().borrow()); check(t.s_eq(&u.1), "the merged batch holds a time that is not advanced"); }
    check(readable.implies(beyond(b.description().since(), &q)), "the merged batch is compacted further than allowed");
    let all: Vec<_> = u1.iter().chain(u2.iter()).cloned().collect();
    check(beyond(b.description().since(), &q).implies(accum(&all, &d, &q).is(accum(&out, &d, &q))), "an accumulation changed in merging");
    if out.is_empty() { reached("all cancelled"); }
    if out.len() == n1 + n2 { reached("nothing cancelled"); }
}

