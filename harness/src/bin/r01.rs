//! Reductions of symbolic histories, against their definition.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::reduces::*;
use ddverif::*;

const HI: i64 = 20;
const NOW: Hist = Hist { rounds: &[1, 1, 1], hi: HI, r: 3, times: Times::Now, free: false };
const LATER: Hist = Hist { rounds: &[2, 1], hi: HI, r: 3, times: Times::Later, free: false };

fn history<T: Fed>(engine: Engine, logic: Logic, h: Hist, fixed: usize) {
    let mut w = worker();
    let trail: Trail<T> = Default::default();
    let (mut feed, sink) = T::build(&mut w, |scope| {
        let (feed, coll) = Feed::<(Sym, Sym), T>::new(scope);
        let arr = coll.clone().arrange_by_key();
        let out = Sink::new(apply(engine, logic, &coll, &arr, trail.clone()));
        (feed, out)
    });
    let (k, y, q) = (var("k", 0, HI), var("y", -4, HI), T::fresh("q", HI));
    if fixed > 0 { assume(k.is(c(0))); }
    let judge = |log: &Vec<((Sym, Sym), T, Sym)>, sink: &Sink<(Sym, Sym), T>, done: bool| {
        let when = if done { TRUE } else { sink.done(&q) };
        check(when.implies(sink.accum(&(k, y), &q).is(logic.expect(log, k, y, &q))), "the accumulated output is not the logic applied to the accumulated input");
    };
    for i in 0..h.rounds.len() {
        let before = feed.log.len();
        round(&mut feed, "", &h, i);
        pin(&feed.log[before..], fixed);
        if fixed > 3 && i == 0 { for (j, u) in feed.log.iter().enumerate() { assume(u.1.s_eq(&T::corner(j))) } }
        if i + 1 < h.rounds.len() && choose("flush", 2) == 1 {
            feed.flush();
            steps(&mut w, 8);
            judge(&feed.log, &sink, false);
        }
    }
    feed.close();
    finish(&mut w);
    judge(&feed.log, &sink, true);
    // Output changes only at joins of input times of the key.
    for (d, t, _) in sink.out.borrow().iter() {
        let at = |u: &((Sym, Sym), T, Sym)| u.0.0.is(d.0) & u.1.s_le(t);
        // The join of the key's input times at or before t is t.
        let mut reached = T::minimum();
        let mut any = FALSE;
        for u in &feed.log { if at(u).decide() { reached = differential_dataflow::lattice::Lattice::join(&reached, &u.1); any = TRUE; } }
        check(any & reached.s_eq(t), "an output change at a time that no input times join to");
    }
    witness("withdrawn", logic.expect(&feed.log, k, y, &q).is(c(0)) & B::any(feed.log.iter().map(|u| u.0.0.is(k) & u.1.s_le(&q))));
    if sink.out.borrow().len() > 1 { reached("revised"); }
    note(|| format!("{:?} gives {:?}", feed.log, sink.out.borrow()));
}

fn main() {
    const G: &[&str] = &["VecCollection::reduce", "Arranged::{reduce_abelian,reduce_core}", "reduce_with_tactic", "CursorTactic::retire", "HistoryReplayer::compute", "ValueHistory", "arrange", "OrdValBatcher, OrdValSpine, OrdValBuilder", "TraceAgent"];
    const W: &[&str] = &["withdrawn", "revised"];
    let b = |h: &Hist, t: &str| format!("{:?} arbitrary updates per round (keys and values 0..=20, differences -3..=3) {t}; any flushing between rounds", h.rounds);
    let n = "at session times 0, 1, 2";
    let l = "at any time at or after session times 0, 1";
    let p = "at any pair of integers at or after (0,0), (1,0)";
    let mut cases = vec![];
    use Logic::*;
    let mut add = |name: &'static str, bounds: String, thorough: bool, f: Box<dyn Fn() + Send + Sync>| { let c = Case::new(name, bounds, G, W, move || f()); cases.push(if thorough { c.thorough() } else { c }); };
    add("first", b(&NOW, n), false, Box::new(|| history::<Sym>(Engine::Public, First, NOW, 0)));
    add("double", b(&NOW, n), false, Box::new(|| history::<Sym>(Engine::Public, Double, NOW, 0)));
    add("both later", b(&LATER, l), false, Box::new(|| history::<Sym>(Engine::Public, Both, LATER, 0)));
    add("last later", b(&LATER, l), false, Box::new(|| history::<Sym>(Engine::Public, LastPositive, LATER, 0)));
    add("present pairs", b(&LATER, p), false, Box::new(|| history::<P2>(Engine::Public, Present, Hist { rounds: &[2], ..LATER }, 0)));
    add("first pairs", b(&LATER, p), false, Box::new(|| history::<P2>(Engine::Public, First, Hist { rounds: &[1, 1], ..LATER }, 0)));
    add("present pairs one key", b(&LATER, p), false, Box::new(|| history::<P2>(Engine::Public, Present, Hist { rounds: &[2, 1], ..LATER }, 1)));
    const FREE: Hist = Hist { rounds: &[1, 1], hi: HI, r: 3, times: Times::Now, free: true };
    let f = "at arbitrary successive session times";
    add("double 2 1 1", b(&Hist { rounds: &[2, 1, 1], ..NOW }, n), false, Box::new(|| history::<Sym>(Engine::Public, Double, Hist { rounds: &[2, 1, 1], ..NOW }, 0)));
    add("first free", b(&FREE, f), false, Box::new(|| history::<Sym>(Engine::Public, First, FREE, 0)));
    add("double pairs 1 1 1 one key", b(&Hist { rounds: &[1, 1, 1], ..LATER }, p), false, Box::new(|| history::<P2>(Engine::Public, Double, Hist { rounds: &[1, 1, 1], ..LATER }, 1)));
    add("both pairs free one key", b(&FREE, f), false, Box::new(|| history::<P2>(Engine::Public, Both, Hist { rounds: &[1, 1, 1], ..FREE }, 1)));
    const APART: Hist = Hist { rounds: &[2, 1], hi: 3, r: 1, times: Times::Apart, free: false };
    let ap = "at any pairs of integers 0..=3, the input's frontier moving through arbitrary antichains of one or two pairs; all of one key and value, differences -1 and 1";
    let ap2 = "at any pairs of integers 0..=2, the input's frontier moving through arbitrary antichains of one or two pairs; all of one key and value, differences -1 and 1";
    let ap1 = "at any pairs of integers 0..=2 (0..=3 for three rounds), the input's frontier moving through arbitrary antichains of one or two pairs; insertions of one key and value";
    macro_rules! apart { ($name:expr, $logic:expr, $rounds:expr, $hi:expr, $fixed:expr, $text:expr, $th:expr) => { { let h = Hist { rounds: $rounds, hi: $hi, ..APART }; add($name, b(&h, $text), $th, Box::new(move || history::<P2>(Engine::Replay, $logic, h.clone(), $fixed))) } } }
    apart!("square apart", Square, &[2, 1], 2, 2, ap2, false);
    apart!("square apart 2 0 0", Square, &[2, 0, 0], 3, 3, ap1, false);
    apart!("square apart 1 1 0", Square, &[1, 1, 0], 3, 3, ap1, false);
    apart!("twice apart", Twice, &[1, 2], 2, 2, ap2, false);
    apart!("square warned", Square, &[2, 1, 0], 3, 4, "the first two at (0,1) and (1,0), the others at any pairs of integers 0..=3, the input's frontier moving through arbitrary antichains of one or two pairs; insertions of one key and value", false);
    apart!("square apart 1 3", Square, &[1, 3], 2, 3, ap1, false);
    apart!("square apart 1 1 1", Square, &[1, 1, 1], 3, 2, ap, true);
    apart!("square apart 2 2", Square, &[2, 2], 3, 2, ap, true);
    add("first 2 2", b(&Hist { rounds: &[2, 2], ..LATER }, l), true, Box::new(|| history::<Sym>(Engine::Public, First, Hist { rounds: &[2, 2], ..LATER }, 1)));
    add("last 1 1 1 1", b(&Hist { rounds: &[1, 1, 1, 1], ..NOW }, n), true, Box::new(|| history::<Sym>(Engine::Public, LastPositive, Hist { rounds: &[1, 1, 1, 1], ..NOW }, 0)));
    add("first pairs 2 1", b(&LATER, p), true, Box::new(|| history::<P2>(Engine::Public, First, LATER, 0)));
    add("present pairs 2 1 1 one key", b(&Hist { rounds: &[2, 1, 1], ..LATER }, p), true, Box::new(|| history::<P2>(Engine::Public, Present, Hist { rounds: &[2, 1, 1], ..LATER }, 1)));
    runner::run(Prop { id: "R01", title: "reduce", outside: "longer histories; one worker", assumptions: &[], cases });
}
