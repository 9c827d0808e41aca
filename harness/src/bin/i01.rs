//! Iterative computations, against the unrolled fixed point of the loop body.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::iterate::Variable;
use differential_dataflow::operators::Iterate;
use differential_dataflow::VecCollection;
use timely::order::Product;
use timely::progress::Timestamp;

/// A variable delays what it is set to by its step, and starts from its source.
fn delay(from: bool, h: &Hist) {
    let (so, si) = (var("step.o", 0, 5), var("step.i", 0, 5));
    assume(Sym::lt(c(0), so + si));
    let mut w = worker();
    let (mut source, mut input, sink) = P2::build(&mut w, |scope| {
        let (source, first) = Feed::<Sym, P2>::new(scope);
        let (input, coll) = Feed::<Sym, P2>::new(scope);
        let out = if from {
            let (variable, out) = Variable::new_from(first, Product::new(so, si));
            variable.set(coll);
            out
        } else {
            let (variable, out) = Variable::new(scope, Product::new(so, si));
            variable.set(coll.concat(first));
            out
        };
        (source, input, Sink::new(out))
    });
    let (d, q) = (var("d", 0, h.hi), P2::fresh("q", h.hi + 5));
    let judge = |source: &Feed<Sym, P2>, input: &Feed<Sym, P2>, when: B| {
        let later = |l: &[(Sym, P2, Sym)]| -> Vec<(Sym, P2, Sym)> { l.iter().map(|(d, t, r)| (*d, Product::new(t.outer + so, t.inner + si), *r)).collect() };
        let (ls, li) = (accum(&later(&source.log), &d, &q), accum(&later(&input.log), &d, &q));
        let want = if from { li + accum(&source.log, &d, &q) - ls } else { li + ls };
        check(when.implies(sink.accum(&d, &q).is(want)), "a variable is not what it was set to, one step later");
    };
    for i in 0..h.rounds.len() {
        round(&mut source, "s", h, i);
        round(&mut input, "i", h, i);
        if i + 1 < h.rounds.len() && choose("flush", 2) == 1 {
            source.flush();
            input.flush();
            steps(&mut w, 6);
            judge(&source, &input, sink.done(&q));
        }
    }
    source.close();
    input.close();
    finish(&mut w);
    judge(&source, &input, TRUE);
    witness("delayed", !sink.accum(&d, &q).is(accum(&input.log, &d, &q)));
}

#[derive(Clone, Copy, PartialEq)]
enum Program { /** Adds successors. */ Close, /** As above, from an empty start in a scope. */ Empty, /** An element stays unless its predecessor did. */ Alternate, /** Two sets, each defined from the other. */ Mutual, /** A loop in a loop. */ Nested, /** An intermediate result has cancelling records. */ Moving }

fn successors<'s, T: Timestamp + Lattice>(x: VecCollection<'s, T, Sym, Sym>, limit: i64) -> VecCollection<'s, T, Sym, Sym> {
    x.map(|x| x + c(1)).filter(move |x| *x <= c(limit))
}

fn dataflow<'s, T: Fed>(p: Program, input: VecCollection<'s, T, Sym, Sym>, limit: i64) -> VecCollection<'s, T, Sym, Sym> {
    match p {
        Program::Close => input.iterate(|_, x| successors(x.clone(), limit).concat(x).distinct_core::<Sym>()),
        Program::Empty => input.inner.scope().iterate(|scope, x| successors(x, limit).concat(input.enter(scope)).distinct_core::<Sym>()),
        Program::Alternate => input.clone().iterate(|scope, x| {
            let input = input.enter(scope);
            let gone = input.clone().map(|x| (x, ())).semijoin(successors(x, limit).distinct_core::<Sym>()).map(|(x, ())| x);
            input.concat(gone.negate()).consolidate()
        }),
        Program::Mutual => {
            let outer = input.inner.scope();
            outer.clone().scoped::<Product<T, u64>, _, _>("mutual", |scope| {
                let input = input.enter(scope);
                // The first holds inputs and successors of the second; the second holds successors of the first.
                let (v1, one) = Variable::new_from(input.clone(), Product::new(Default::default(), 1));
                let (v2, two) = Variable::new(scope, Product::new(Default::default(), 1));
                let first = input.concat(successors(two.clone(), limit)).distinct_core::<Sym>();
                let second = successors(one, limit).distinct_core::<Sym>();
                v1.set(first.clone());
                v2.set(second.clone());
                first.concat(second.map(|x| x + c(10))).leave(outer)
            })
        },
        Program::Nested => input.iterate(|_, x| {
            // The inner loop adds successors up to the middle, the outer goes from there on.
            let low = x.clone().iterate(|_, y| successors(y.clone(), limit / 2).concat(y).distinct_core::<Sym>());
            successors(low.clone(), limit).concat(low).distinct_core::<Sym>()
        }),
        Program::Moving => input.iterate(|_, x| x.map(move |x| if x < c(limit) { x + c(1) } else { x }).consolidate()),
    }
}

/// The accumulation of the output at each datum, from that of the input at each of `0..=limit`.
fn meaning(p: Program, input: &[Sym], limit: i64) -> Vec<(i64, Sym)> {
    let n = limit as usize + 1;
    let one = |x: Sym| Sym::lt(c(0), x).ite(c(1), c(0));
    match p {
        Program::Close | Program::Empty | Program::Nested => {
            let mut now: Vec<Sym> = input.iter().map(|x| one(*x)).collect();
            for x in 1..n { now[x] = one(now[x] + now[x - 1]); }
            (0..n).map(|x| (x as i64, now[x])).collect()
        },
        Program::Alternate => {
            let mut now = vec![];
            for x in 0..n { let y = if x == 0 { input[0] } else { (Sym::lt(c(0), now[x - 1])).ite(c(0), input[x]) }; now.push(y); }
            now.iter().enumerate().map(|(x, y)| (x as i64, *y)).collect()
        },
        Program::Mutual => {
            let (mut a, mut b): (Vec<Sym>, Vec<Sym>) = (vec![], vec![]);
            for x in 0..n {
                let (pa, pb) = if x == 0 { (c(0), c(0)) } else { (a[x - 1], b[x - 1]) };
                a.push(one(input[x] + pb));
                b.push(one(pa));
            }
            (0..n).map(|x| (x as i64, a[x])).chain((0..n).map(|x| (x as i64 + 10, b[x]))).collect()
        },
        Program::Moving => { let mut s = c(0); for x in input { s = s + *x } (0..n).map(|x| (x as i64, if x + 1 == n { s } else { c(0) })).collect() },
    }
}

fn looped<T: Fed>(p: Program, limit: i64, h: &Hist) {
    let mut w = worker();
    let (mut feed, sink) = T::build(&mut w, |scope| {
        let (feed, coll) = Feed::<Sym, T>::new(scope);
        (feed, Sink::new(dataflow(p, coll, limit)))
    });
    let q = T::fresh("q", 3);
    let judge = |log: &[(Sym, T, Sym)], when: B| {
        let input: Vec<Sym> = (0..=limit).map(|x| accum(log.iter(), &c(x), &q)).collect();
        for (x, want) in meaning(p, &input, limit) { check(when.implies(sink.accum(&c(x), &q).is(want)), "iteration does not give the fixed point of its body"); }
    };
    for i in 0..h.rounds.len() {
        for j in 0..h.rounds[i] {
            let t = match h.times { Times::Now => feed.time(), Times::Later | Times::Apart => T::fresh(&format!("t{i}.{j}"), h.hi) };
            // Earlier records may be withdrawn.
            let back = if i > 0 { choose(&format!("withdraw{i}.{j}"), i + 1) } else { 0 };
            if back > 0 {
                let (d, t0, r) = feed.log[back - 1].clone();
                // No record is withdrawn twice.
                if feed.log.iter().skip(1).any(|u| u.2.same(&(c(0) - r))) { return }
                assume(t0.s_le(&t));
                feed.push(d, t, c(0) - r);
            }
            else { let d = var(&format!("d{i}.{j}"), 0, limit); feed.push(d, t, var(&format!("r{i}.{j}"), 0, h.r)); }
        }
        if i + 1 < h.rounds.len() {
            feed.advance(T::tick(i as i64 + 1));
            if choose("flush", 2) == 1 { feed.flush(); steps(&mut w, 60); let when = sink.done(&q); judge(&feed.log, when); }
        }
    }
    feed.close();
    finish(&mut w);
    judge(&feed.log, TRUE);
    witness("withdrawn", accum(feed.log.iter(), &feed.log[0].0, &q).is(c(0)) & !feed.log[0].2.is(c(0)) & feed.log[0].1.s_le(&q));
}

fn main() {
    const V: &[&str] = &["Variable::{new,new_from,set}", "Collection::results_in", "timely feedback"];
    const L: &[&str] = &["Iterate::iterate", "Variable::{new,new_from,set}", "Collection::{enter,leave,results_in,concat,negate}", "distinct, reduce, consolidate, join, arrange at nested times"];
    const D: Hist = Hist { rounds: &[1, 1], hi: 20, r: 2, times: Times::Later, free: true };
    const H: Hist = Hist { rounds: &[2, 1, 1], hi: 3, r: 1, times: Times::Now, free: false };
    const HL: Hist = Hist { rounds: &[1, 1], hi: 3, r: 1, times: Times::Later, free: false };
    const H3: Hist = Hist { rounds: &[1, 2], hi: 3, r: 1, times: Times::Later, free: false };
    const HT: Hist = Hist { rounds: &[2, 1, 1], hi: 3, r: 1, times: Times::Later, free: false };
    const HS: Hist = Hist { rounds: &[2, 2, 1, 1], hi: 3, r: 1, times: Times::Now, free: false };
    let dl = "[1, 1] updates of records in 0..=20 at arbitrary pairs of times in 0..=20, in each of two inputs; steps are any non-zero pair in 0..=5; any flushing between rounds";
    let b = |h: &Hist, limit: i64, t: &str| format!("{:?} updates {t}, each an arbitrary integer in 0..={limit} with multiplicity 0 to {} or a withdrawal of an earlier record; any flushing between rounds", h.rounds, h.r);
    let now = "at session times 0, 1, 2";
    let later = "at any pair of integers in 0..=3 at or after the session's";
    let w: &[&str] = &["withdrawn"];
    let cases = vec![
        Case::new("variable", dl, V, &["delayed"], || delay(false, &D)),
        Case::new("variable from source", dl, V, &["delayed"], || delay(true, &D)),
        Case::new("closure", b(&H, 3, now), L, w, || looped::<Sym>(Program::Close, 3, &H)),
        Case::new("closure from nothing", b(&H, 2, now), L, w, || looped::<Sym>(Program::Empty, 2, &H)),
        Case::new("alternating", b(&H, 3, now), L, w, || looped::<Sym>(Program::Alternate, 3, &H)),
        Case::new("mutual", b(&H, 2, now), L, w, || looped::<Sym>(Program::Mutual, 2, &H)),
        Case::new("nested", b(&H, 2, now), L, w, || looped::<Sym>(Program::Nested, 2, &H)),
        Case::new("moving", b(&H, 3, now), L, w, || looped::<Sym>(Program::Moving, 3, &H)),
        Case::new("closure at pairs", b(&HL, 2, later), L, &[], || looped::<P2>(Program::Close, 2, &HL)),
        Case::new("alternating at pairs", b(&HL, 2, later), L, &[], || looped::<P2>(Program::Alternate, 2, &HL)),
        Case::new("moving at pairs", b(&HL, 2, later), L, &[], || looped::<P2>(Program::Moving, 2, &HL)),
        Case::new("mutual at pairs", b(&HL, 3, later), L, &[], || looped::<P2>(Program::Mutual, 3, &HL)),
        Case::new("nested at pairs", b(&HL, 3, later), L, &[], || looped::<P2>(Program::Nested, 3, &HL)),
        Case::new("closure more", b(&H3, 2, later), L, &[], || looped::<P2>(Program::Close, 2, &H3)).thorough(),
        Case::new("closure deeper", b(&H3, 3, later), L, &[], || looped::<P2>(Program::Close, 3, &H3)).thorough(),
        Case::new("alternating more", b(&H3, 2, later), L, &[], || looped::<P2>(Program::Alternate, 2, &H3)),
        Case::new("closure most", b(&HT, 3, later), L, &[], || looped::<P2>(Program::Close, 3, &HT)).thorough(),
        Case::new("alternating most", b(&HT, 2, later), L, &[], || looped::<P2>(Program::Alternate, 2, &HT)).thorough(),
        Case::new("nested most", b(&H3, 2, later), L, &[], || looped::<P2>(Program::Nested, 2, &H3)).thorough(),
        Case::new("closure long", b(&HS, 3, "at session times 0, 1, 2, 3"), L, w, || looped::<Sym>(Program::Close, 3, &HS)).thorough(),
        Case::new("alternating long", b(&HS, 3, "at session times 0, 1, 2, 3"), L, w, || looped::<Sym>(Program::Alternate, 3, &HS)).thorough(),
    ];
    runner::run(Prop { id: "I01", title: "iteration", outside: "records beyond the stated domain; loops that do not reach a fixed point; several workers", assumptions: &["inputs to loops accumulate to non-negative counts"], cases });
}
