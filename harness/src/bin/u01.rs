//! Counting, thresholding and distinct, in general and totally ordered forms.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::*;
use differential_dataflow::operators::{CountTotal, ThresholdTotal};

const HI: i64 = 20;
const R: i64 = 3;

/// Any function of non-zero counts, tabulated.
fn table(f: &[Sym], n: Sym) -> Sym { let mut out = c(0); for (i, v) in f.iter().enumerate() { out = n.is(c(i as i64 - (f.len() as i64) / 2)).ite(*v, out); } out }

#[derive(Clone, Copy, PartialEq)]
enum Op { Count, Threshold, Distinct }

fn check_out<T: ddverif::traces::DTime>(op: Op, f: &[Sym], input: &[(Sym, T, Sym)], k: Sym, q: &T, m: Sym, counts: Option<&Sink<(Sym, Sym), T>>, keys: Option<&Sink<Sym, T>>, done: bool) {
    let n = accum(input, &k, q);
    let nonzero = !n.is(c(0));
    match op {
        Op::Count => {
            let s = counts.unwrap();
            let when = if done { TRUE } else { s.done(q) };
            check(when.implies(s.accum(&(k, m), q).is((n.is(m) & nonzero).ite(c(1), c(0)))), "the accumulated output is not the key paired with its count");
        },
        Op::Threshold => { let s = keys.unwrap(); let when = if done { TRUE } else { s.done(q) }; check(when.implies(s.accum(&k, q).is(nonzero.ite(table(f, n), c(0)))), "the accumulated output is not the function of the count"); },
        Op::Distinct => { let s = keys.unwrap(); let when = if done { TRUE } else { s.done(q) }; check((when & Sym::le(c(0), n)).implies(s.accum(&k, q).is(nonzero.ite(c(1), c(0)))), "distinct does not present each record of positive count once"); },
    }
    witness("nothing left", n.is(c(0)) & B::any(input.iter().map(|u| u.0.is(k) & u.1.s_le(q))));
    witness("count above one", Sym::lt(c(1), n));
}

/// Which implementation of an operator.
trait Impl: Fed { fn apply<'s>(op: Op, total: bool, f: Vec<Sym>, coll: differential_dataflow::VecCollection<'s, Self, Sym, Sym>) -> (Option<Sink<(Sym, Sym), Self>>, Option<Sink<Sym, Self>>) {
    let _ = total;
    match op {
        Op::Count => (Some(Sink::new(coll.count_core::<Sym>())), None),
        Op::Threshold => (None, Some(Sink::new(coll.threshold(move |_, n| table(&f, *n))))),
        Op::Distinct => (None, Some(Sink::new(coll.distinct()))),
    }
} }
impl Impl for P2 { }
impl Impl for Sym { fn apply<'s>(op: Op, total: bool, f: Vec<Sym>, coll: differential_dataflow::VecCollection<'s, Self, Sym, Sym>) -> (Option<Sink<(Sym, Sym), Self>>, Option<Sink<Sym, Self>>) {
    match (op, total) {
        (Op::Count, false) => (Some(Sink::new(coll.count_core::<Sym>())), None),
        (Op::Threshold, false) => (None, Some(Sink::new(coll.threshold(move |_, n| table(&f, *n))))),
        (Op::Distinct, false) => (None, Some(Sink::new(coll.distinct()))),
        (Op::Count, true) => (Some(Sink::new(coll.count_total_core::<Sym>())), None),
        (Op::Threshold, true) => (None, Some(Sink::new(coll.threshold_total(move |_, n| table(&f, *n))))),
        (Op::Distinct, true) => (None, Some(Sink::new(coll.distinct_total()))),
    }
} }
fn history<T: Impl>(op: Op, total: bool, h: Hist) {
    let mut w = worker();
    let most = R * h.rounds.iter().sum::<usize>() as i64;
    let f: Vec<Sym> = if op == Op::Threshold { (-most..=most).map(|i| var(&format!("f{i}"), -3, 3)).collect() } else { vec![] };
    let f2 = f.clone();
    let (mut feed, counts, keys) = T::build(&mut w, |scope| {
        let (feed, coll) = Feed::<Sym, T>::new(scope);
        let (a, b) = T::apply(op, total, f2, coll);
        (feed, a, b)
    });
    let (k, q, m) = (var("k", 0, HI), T::fresh("q", HI), var("m", -most, most));
    for i in 0..h.rounds.len() {
        round(&mut feed, "", &h, i);
        if i + 1 < h.rounds.len() && choose("flush", 2) == 1 {
            feed.flush();
            steps(&mut w, 8);
            check_out(op, &f, &feed.log, k, &q, m, counts.as_ref(), keys.as_ref(), false);
        }
    }
    feed.close();
    finish(&mut w);
    check_out(op, &f, &feed.log, k, &q, m, counts.as_ref(), keys.as_ref(), true);
    note(|| format!("{:?} gives {:?} {:?}", feed.log, counts.as_ref().map(|c| c.out.borrow().clone()), keys.as_ref().map(|c| c.out.borrow().clone())));
}

fn main() {
    const G: &[&str] = &["VecCollection::{count_core,threshold,distinct}", "reduce_trace", "cursor-replay reduce tactic", "arrange", "OrdKeyBatcher", "OrdKeySpine", "OrdValSpine", "InputSession"];
    const T: &[&str] = &["CountTotal::count_total_core", "ThresholdTotal::{threshold_total,threshold_semigroup,distinct_total}", "arrange", "OrdKeyBatcher", "OrdKeySpine", "InputSession"];
    const W: &[&str] = &["nothing left", "count above one"];
    let b = |s: &str, t: &str| format!("{s} arbitrary updates (keys 0..=20, {t}, differences -3..=3 (or -2..=2 for the larger threshold cases)) to one input; any flushing between rounds; threshold functions are arbitrary tables over all reachable counts");
    const NOW: Hist = Hist { rounds: &[1, 1, 1], hi: HI, r: R, times: Times::Now, free: false };
    const LATER: Hist = Hist { rounds: &[2, 1], hi: HI, r: R, times: Times::Later, free: false };
    let n = "at session times 0, 1, 2";
    let l = "at any time at or after session times 0, 1";
    let mut cases = vec![];
    for (op, names) in [(Op::Count, ["count", "count total", "count later", "count total later", "count pairs", "count total 4", "count 4", "count pairs 2 1"]), (Op::Threshold, ["threshold", "threshold total", "threshold later", "threshold total later", "threshold pairs", "threshold total 4", "threshold 4", "threshold pairs 2 1"]), (Op::Distinct, ["distinct", "distinct total", "distinct later", "distinct total later", "distinct pairs", "distinct total 4", "distinct 4", "distinct pairs 2 1 1"])] {
        let later = if op == Op::Threshold { Hist { r: 1, ..LATER } } else { LATER };
        let pairs = if op == Op::Distinct { LATER } else { Hist { rounds: &[1, 1], ..LATER } };
        let (three, total) = if op == Op::Threshold { (NOW, NOW) } else { (Hist { rounds: &[1, 2, 1], ..NOW }, Hist { rounds: &[1, 2, 1], ..NOW }) };
        let sizes = |h: &Hist| format!("{:?}", h.rounds);
        let t2 = "at any pair of integers at or after (0,0), (1,0)";
        cases.push(Case::new(names[0], b(&sizes(&three), n), G, W, move || history::<Sym>(op, false, three.clone())));
        cases.push(Case::new(names[1], b(&sizes(&total), n), T, W, move || history::<Sym>(op, true, total.clone())));
        let l1 = later.clone();
        cases.push(Case::new(names[2], b(&sizes(&l1), l), G, W, move || history::<Sym>(op, false, l1.clone())));
        cases.push(Case::new(names[3], b(&sizes(&later), l), T, W, { let later = later.clone(); move || history::<Sym>(op, true, later.clone()) }));
        cases.push(Case::new(names[4], b(&sizes(&pairs), t2), G, W, move || history::<P2>(op, false, pairs.clone())));
        cases.push(Case::new(names[5], b("2,2,1", n), T, W, move || history::<Sym>(op, true, Hist { rounds: &[2, 2, 1], ..NOW })).thorough());
        cases.push(Case::new(names[6], b("2,2", l), G, W, move || history::<Sym>(op, false, Hist { rounds: &[2, 2], ..LATER })).thorough());
        const MORE: Hist = Hist { rounds: &[2, 1, 1], r: 1, ..LATER };
        let more = match op { Op::Count => LATER, Op::Threshold => later, Op::Distinct => MORE };
        cases.push(Case::new(names[7], b(&sizes(&more), t2), G, W, move || history::<P2>(op, false, more.clone())).thorough());
    }
    runner::run(Prop { id: "U01", title: "count", outside: "longer histories; one worker", assumptions: &["distinct is required to present a record once only for non-negative counts"], cases });
}
