//! Joins of symbolic histories under symbolic schedules, against the product of their accumulations.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::*;

use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::trace::implementations::ValSpine;
use differential_dataflow::trace::TraceReader;
use differential_dataflow::operators::join::{join_with_tactic, Fresh, JoinTactic};
use differential_dataflow::VecCollection;
use std::cell::Cell;
use std::rc::Rc;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::generic::Operator;

const HI: i64 = 15;
type KV = (Sym, Sym);
type Log<T> = Vec<(KV, T, Sym)>;
type Out = (Sym, (Sym, Sym));

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Join, Map, Core, Semi, Anti, Own, Held }

/// Withholds an arrangement's batches until released.
fn withhold<'s, T: Fed>(a: Arranged<'s, TraceAgent<ValSpine<Sym, Sym, T, Sym>>>, gate: Rc<Cell<bool>>) -> Arranged<'s, TraceAgent<ValSpine<Sym, Sym, T, Sym>>> {
    let mut queue = std::collections::VecDeque::new();
    let scope = a.stream.scope();
    let stream = a.stream.unary_frontier(Pipeline, "Withhold", move |_cap, info| {
        let act = timely::scheduling::Activator::new(info.address, scope.activations());
        move |(input, _), output| {
            input.for_each(|cap, data| queue.push_back((cap.retain(0), std::mem::take(data))));
            if gate.get() { while let Some((cap, mut data)) = queue.pop_front() { output.session(&cap).give_container(&mut data); } }
            if !queue.is_empty() { act.activate(); }
        }
    });
    Arranged { stream, trace: a.trace }
}

fn build<'s, T: Fed>(op: Op, a: VecCollection<'s, T, KV, Sym>, b: VecCollection<'s, T, KV, Sym>, gate: Rc<Cell<bool>>) -> Sink<Out, T> {
    match op {
        Op::Join => Sink::new(a.join(b)),
        Op::Map => Sink::new(a.join_map(b, |k, v, w| (*k, (*v, *w)))),
        Op::Core => { let (a, b) = (a.arrange_by_key(), b.arrange_by_key()); Sink::new(a.join_core(b, |k, v, w| vec![(*k, (*v, *w)), (*k, (*w, *v + c(100)))])) },
        Op::Semi => Sink::new(a.semijoin(b.map(|(k, _)| k)).map(|(k, v)| (k, (v, v)))),
        Op::Anti => Sink::new(a.antijoin(b.map(|(k, _)| k)).map(|(k, v)| (k, (v, v)))),
        Op::Own => { let a = a.arrange_by_key(); Sink::new(a.clone().join_core(a, |k, v, w| Some((*k, (*v, *w))))) },
        Op::Held => { let (a, b) = (withhold(a.arrange_by_key(), gate.clone()), b.arrange_by_key()); Sink::new(a.join_core(b, |k, v, w| Some((*k, (*v, *w))))) },
    }
}
/// The product of the accumulations of two records.
fn product<T: Fed>(a: &Log<T>, b: &Log<T>, q: &T, m: impl Fn(&KV, &KV) -> B) -> Sym {
    let mut out = c(0);
    for (x, t, r) in a { for (y, u, s) in b { let on = m(x, y) & t.s_le(q) & u.s_le(q); if on != FALSE { out = out + on.ite(*r * *s, c(0)); } } }
    out
}
fn expect<T: Fed>(op: Op, a: &Log<T>, b: &Log<T>, k: Sym, v: Sym, w: Sym, q: &T) -> Sym {
    let base = |v: Sym, w: Sym| product(a, b, q, |x, y| x.0.is(k) & y.0.is(k) & x.1.is(v) & y.1.is(w));
    match op {
        Op::Join | Op::Map | Op::Held => base(v, w),
        Op::Core => base(v, w) + base(w - c(100), v),
        Op::Semi | Op::Anti => {
            let semi = product(a, b, q, |x, y| x.0.is(k) & y.0.is(k) & x.1.is(v) & v.is(w));
            if op == Op::Semi { semi } else { v.is(w).ite(accum(a, &(k, v), q), c(0)) - semi }
        },
        Op::Own => product(a, a, q, |x, y| x.0.is(k) & y.0.is(k) & x.1.is(v) & y.1.is(w)),
    }
}

struct Plan { a: Hist, b: Hist, /** Every record has one key; and one value per input. */ fixed: usize, /** Scheduling after each round: any input may be flushed, then steps taken. */ steps: usize }

fn pin<T: Fed>(f: &Feed<KV, T>, from: usize, fixed: usize) { for u in &f.log[from..] { if fixed > 0 { assume(u.0.0.is(c(0))) } if fixed > 1 { assume(u.0.1.is(c(1))) } } }

fn history<T: Fed>(op: Op, p: &Plan) {
    let mut w = worker();
    let gate = Rc::new(Cell::new(op != Op::Held));
    let g2 = gate.clone();
    let (mut fa, mut fb, sink) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope);
        let s = build(op, a, b, g2);
        (fa, fb, s)
    });
    let (k, v, x, q) = (if p.fixed > 0 { c(0) } else { var("k", 0, HI) }, if p.fixed > 1 { c(1) } else { var("v", 0, HI) }, if p.fixed > 1 { c(1) } else { var("w", 0, HI) }, T::fresh("q", HI));
    let judge = |a: &Log<T>, b: &Log<T>, done: bool| {
        let when = if done { TRUE } else { sink.done(&q) };
        check(when.implies(sink.accum(&(k, (v, x)), &q).is(expect(op, a, b, k, v, x, &q))), "the accumulated output is not the product of the accumulated inputs");
    };
    let n = p.a.rounds.len().max(p.b.rounds.len());
    for i in 0..n {
        if i < p.a.rounds.len() { let l = fa.log.len(); round(&mut fa, "a", &p.a, i); pin(&fa, l, p.fixed); }
        if i < p.b.rounds.len() { let l = fb.log.len(); round(&mut fb, "b", &p.b, i); pin(&fb, l, p.fixed); }
        match choose("flush", if i + 1 < n { 4 } else { 3 }) {
            0 => continue,
            1 => fa.flush(),
            2 => fb.flush(),
            _ => { fa.flush(); fb.flush(); },
        }
        steps(&mut w, p.steps);
        judge(&fa.log, &fb.log, false);
        if op == Op::Held && !gate.get() && choose("release", 2) == 1 { gate.set(true); steps(&mut w, p.steps); judge(&fa.log, &fb.log, false); }
    }
    // Either input may close first, and steps be taken before the other does.
    match choose("close", 3) { 1 => { fa.close(); steps(&mut w, p.steps) }, 2 => { fb.close(); steps(&mut w, p.steps) }, _ => { } }
    judge(&fa.log, &fb.log, false);
    fa.close(); fb.close(); gate.set(true);
    finish(&mut w);
    judge(&fa.log, &fb.log, true);
    witness("matched", !expect(op, &fa.log, &fb.log, k, v, x, &q).is(c(0)));
    note(|| format!("{:?} with {:?} gives {:?}", fa.log, fb.log, sink.out.borrow()));
}

/// A join built on arrangements that already hold updates, imported after some of their life.
fn late<T: Late>(p: &Plan) {
    let mut w = worker();
    let (mut fa, mut fb, ta, tb) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope);
        (fa, fb, a.arrange_by_key().trace, b.arrange_by_key().trace)
    });
    let mut own = Some((ta, tb));
    let (k, v, x, q) = (if p.fixed > 0 { c(0) } else { var("k", 0, HI) }, if p.fixed > 1 { c(1) } else { var("v", 0, HI) }, if p.fixed > 1 { c(1) } else { var("w", 0, HI) }, T::fresh("q", HI));
    let mut sink: Option<Sink<Out, T>> = None;
    let mut since = T::minimum();
    let n = p.a.rounds.len().max(p.b.rounds.len());
    for i in 0..n {
        if i < p.a.rounds.len() { let l = fa.log.len(); round(&mut fa, "a", &p.a, i); pin(&fa, l, p.fixed); }
        if i < p.b.rounds.len() { let l = fb.log.len(); round(&mut fb, "b", &p.b, i); pin(&fb, l, p.fixed); }
        match choose("flush", 4) { 0 => { }, 1 => fa.flush(), 2 => fb.flush(), _ => { fa.flush(); fb.flush(); } }
        steps(&mut w, p.steps);
        if sink.is_none() && (i + 1 == n || choose("import", 2) == 1) {
            let (mut ta, mut tb) = own.take().unwrap();
            // The readers' frontier, which both may have moved to.
            if choose("compact", 2) == 1 {
                since = fa.time().meet(&fb.time());
                let f = timely::progress::frontier::AntichainRef::new(std::slice::from_ref(&since));
                for t in [&mut ta, &mut tb] { t.set_logical_compaction(f); }
            }
            // Physical compaction up to what each trace holds.
            if choose("physical", 2) == 1 {
                for t in [&mut ta, &mut tb] { let mut u = timely::progress::Antichain::new(); t.read_upper(&mut u); t.set_physical_compaction(u.borrow()); }
            }
            sink = Some(T::joined(&mut w, &mut ta, &mut tb));
            if !fa.log.is_empty() && !fb.log.is_empty() { reached("loaded") }
        } else if sink.is_none() && choose("merge", 2) == 1 {
            let (ta, tb) = own.as_mut().unwrap();
            for t in [ta, tb] { let mut u = timely::progress::Antichain::new(); t.read_upper(&mut u); t.set_physical_compaction(u.borrow()); }
        }
        steps(&mut w, p.steps);
    }
    fa.close(); fb.close();
    finish(&mut w);
    let sink = sink.unwrap();
    let want = product(&fa.log, &fb.log, &q, |a, b| a.0.is(k) & b.0.is(k) & a.1.is(v) & b.1.is(x));
    check(since.s_le(&q).implies(sink.accum(&(k, (v, x)), &q).is(want)), "the accumulated output of a join of imported arrangements is not the product of the accumulated inputs");
    witness("matched", !want.is(c(0)));
    note(|| format!("{:?} with {:?} gives {:?}", fa.log, fb.log, sink.out.borrow()));
}
trait Late: Fed { fn joined(w: &mut timely::worker::Worker, ta: &mut TraceAgent<ValSpine<Sym, Sym, Self, Sym>>, tb: &mut TraceAgent<ValSpine<Sym, Sym, Self, Sym>>) -> Sink<Out, Self>; }
impl Late for Sym { fn joined(w: &mut timely::worker::Worker, ta: &mut TraceAgent<ValSpine<Sym, Sym, Self, Sym>>, tb: &mut TraceAgent<ValSpine<Sym, Sym, Self, Sym>>) -> Sink<Out, Self> {
    w.dataflow::<Sym, _, _>(|scope| { let (a, b) = (ta.import(scope.clone()), tb.import(scope)); Sink::new(a.join_core(b, |k, v, w| Some((*k, (*v, *w))))) })
} }

/// Histories of one key long enough for the replaying join: fixed updates, and a few symbolic ones, in one round.
fn long<T: Fed>(fixed: usize, symbolic: (usize, usize), vals: i64, times: fn(bool, i64) -> T, hi: i64, rounds: usize) {
    let mut w = worker();
    let (mut fa, mut fb, sink) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope);
        let s = Sink::new(a.join(b));
        (fa, fb, s)
    });
    let (v, x, q) = (var("v", 0, vals - 1), var("w", 0, vals - 1), T::fresh("q", hi));
    for i in 0..fixed as i64 {
        fa.push((c(0), c(i % vals)), times(false, i), c(if i % 3 == 1 { -1 } else { 1 }));
        fb.push((c(0), c((i / 2) % vals)), times(true, (i * 7 + 3) % fixed as i64), c(if i % 4 == 2 { -2 } else { 1 }));
    }
    for j in 0..symbolic.0 { fa.push((c(0), c(j as i64 % vals)), T::fresh(&format!("at{j}"), hi), var(&format!("ar{j}"), 1, 2)); }
    for j in 0..symbolic.1 { fb.push((c(0), c(j as i64 % vals)), T::fresh(&format!("bt{j}"), hi), var(&format!("br{j}"), 1, 2)); }
    if rounds > 1 { match choose("flush", 3) { 1 => { fa.flush(); steps(&mut w, 6) }, 2 => { fb.flush(); steps(&mut w, 6) }, _ => { } } }
    fa.close(); fb.close();
    finish(&mut w);
    let want = product(&fa.log, &fb.log, &q, |a, b| a.1.is(v) & b.1.is(x));
    check(sink.accum(&(c(0), (v, x)), &q).is(want), "the accumulated output of long histories is not the product of the accumulated inputs");
    witness("matched", !want.is(c(0)));
    note(|| format!("{} outputs from {} and {}", sink.out.borrow().len(), fa.log.len(), fb.log.len()));
}

/// More matches than an activation may produce, so that the join yields and resumes.
fn yields() {
    const MANY: i64 = 30_000;
    let mut w = worker();
    // Consecutive records that are the same are added up as they arrive.
    let out: Rc<std::cell::RefCell<Vec<(Out, Sym, Sym)>>> = Default::default();
    let o2 = out.clone();
    let (mut fa, mut fb) = Sym::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, Sym>::new(scope.clone());
        let (fb, b) = Feed::<KV, Sym>::new(scope);
        // Each match produces many records, so that the output budget runs out within a unit of work.
        let joined = a.arrange_by_key().join_core(b.arrange_by_key(), |k, v, w| { let r = (*k, (*v, *w)); std::iter::repeat_n(r, MANY as usize) });
        let mut least = c(0);
        joined.inspect_container(move |e| match e {
            Ok((_, data)) => {
                let mut out = o2.borrow_mut();
                let mut i = 0;
                while i < data.len() {
                    let (d, t, r) = &data[i];
                    let mut n = 1;
                    while i + n < data.len() && data[i + n].2.same(r) && data[i + n].1.same(t) && data[i + n].0 == *d { n += 1; }
                    check(Sym::le(least, *t), "an output earlier than the frontier already passed");
                    match out.last_mut() { Some(l) if l.0 == *d && l.1.same(t) => l.2 = l.2 + *r * c(n as i64), _ => out.push((*d, *t, *r * c(n as i64))) }
                    i += n;
                }
            },
            Err(f) => if let Some(f) = f.iter().next() { least = *f },
        });
        (fa, fb)
    });
    let q = var("q", 0, HI);
    let (ra, rb) = (var("ra", -1, 1), var("rb", -1, 1));
    for i in 0..9 { fa.push((c(i % 2), c(i)), c(0), if i == 4 { ra } else { c(1) }); }
    for i in 0..9 { fb.push((c(i % 2), c(i)), c(0), if i == 6 { rb } else { c(1) }); }
    let t = var("t", 0, HI);
    match choose("first", 3) { 1 => { fa.flush(); steps(&mut w, 3) }, 2 => { fb.flush(); steps(&mut w, 3) }, _ => { } }
    fa.advance(t); fb.advance(t);
    fa.push((c(0), c(4)), t, c(1));
    fa.flush(); fb.flush();
    steps(&mut w, 2);
    fb.push((c(0), c(6)), t, c(1));
    fa.close(); fb.close();
    finish(&mut w);
    for (i, j) in [(4i64, 6i64), (4, 4), (1, 7), (8, 8), (4, 5), (2, 6)] {
        let want = product(&fa.log, &fb.log, &q, |a, b| a.0.is(b.0) & a.1.is(c(i)) & b.1.is(c(j)));
        check(accum(out.borrow().iter(), &(c(i % 2), (c(i), c(j))), &q).is(want * c(MANY)), "output was lost or repeated where the join yields");
    }
    reached("yielded");
}

/// An output container that counts for many records, naming the unit of work it belongs to.
#[derive(Clone, Default)]
struct Blob { unit: usize, index: usize, meet: Option<Sym>, count: i64 }
impl timely::container::Accountable for Blob { fn record_count(&self) -> i64 { self.count } }
impl timely::container::DrainContainer for Blob { type Item<'a> = (); type DrainIter<'a> = std::iter::Empty<()>; fn drain(&mut self) -> Self::DrainIter<'_> { std::iter::empty() } }
/// Prepares units of work of any number of such containers.
struct Units { left: usize, most: usize, prepared: Rc<std::cell::RefCell<Vec<usize>>> }
impl<B: differential_dataflow::trace::BatchReader<Time = Sym>> JoinTactic<B, B, Blob> for Units {
    fn prep(&mut self, _: Vec<B>, _: Vec<B>, _: Fresh, meet: Sym) -> Box<dyn Iterator<Item = Blob>> {
        let n = if self.left > 0 { self.left -= 1; choose("containers", self.most + 1) } else { 1 };
        let unit = self.prepared.borrow().len();
        self.prepared.borrow_mut().push(n);
        Box::new((0..n).map(move |index| Blob { unit, index, meet: Some(meet), count: 600_000 }))
    }
}
/// Deferred work is done without any further input, in order, at the times it was prepared for.
fn deferred(rounds: usize, most: usize) {
    let mut w = worker();
    let prepared: Rc<std::cell::RefCell<Vec<usize>>> = Default::default();
    let got: Rc<std::cell::RefCell<Vec<(usize, usize)>>> = Default::default();
    let (p2, g2) = (prepared.clone(), got.clone());
    let (mut fa, mut fb, probe) = Sym::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, Sym>::new(scope.clone());
        let (fb, b) = Feed::<KV, Sym>::new(scope);
        let blobs = join_with_tactic(a.arrange_by_key(), b.arrange_by_key(), Units { left: 4, most, prepared: p2 });
        let probe = timely::dataflow::ProbeHandle::new();
        let seen = probe.clone();
        use timely::dataflow::operators::probe::Probe;
        let done = blobs.unary_frontier(Pipeline, "Count", move |_, _| move |(input, f), output: &mut timely::dataflow::operators::generic::OutputBuilderSession<'_, Sym, timely::container::CapacityContainerBuilder<Vec<()>>>| {
            let _ = &output;
            input.for_each(|cap, blob| {
                let _ = f;
                check(cap.time().is(blob.meet.unwrap()), "work is shipped at another time than it was prepared for");
                check(B::of(seen.with_frontier(|f| f.less_equal(cap.time()))), "an output earlier than the frontier already passed");
                g2.borrow_mut().push((blob.unit, blob.index));
            });
        });
        done.probe_with(&probe);
        (fa, fb, probe)
    });
    let whole = || {
        let (got, prepared) = (got.borrow(), prepared.borrow());
        check(B::of(got.len() == prepared.iter().sum::<usize>()), "deferred work is not done, or is repeated");
        for (u, n) in prepared.iter().enumerate() { check(B::of(got.iter().filter(|g| g.0 == u).map(|g| g.1).eq(0..*n)), "the parts of a unit are out of order"); }
        if prepared.iter().any(|n| *n > 3) { reached("deferred") }
    };
    for i in 0..rounds {
        fa.push((c(0), c(1)), fa.time(), c(1));
        fb.push((c(0), c(1)), fb.time(), c(1));
        let t = var(&format!("t{i}"), 0, HI);
        assume(Sym::lt(fa.time(), t) & Sym::lt(fb.time(), t));
        fa.advance(t); fb.advance(t);
        match choose("flush", 4) { 0 => { fa.flush(); fb.flush() }, 1 => { fa.flush(); steps(&mut w, 1); fb.flush() }, 2 => { fb.flush(); steps(&mut w, 1); fa.flush() }, _ => { fa.flush(); steps(&mut w, 30); whole(); fb.flush() } }
        steps(&mut w, 30);
        whole();
        check(B::of(!probe.less_than(&t)), "the output does not complete although its inputs have");
    }
    fa.close(); fb.close();
    finish(&mut w);
    whole();
}

fn main() {
    const G: &[&str] = &["join_with_tactic", "CursorTactic::prep, DeferredIter::next", "JoinThinker::think", "VecCollection::{join,join_map,semijoin,antijoin}", "Arranged::join_core", "arrange", "OrdValSpine", "TraceAgent", "CursorList"];
    const I: &[&str] = &["join_with_tactic (initial loading)", "TraceAgent::import", "DeferredIter::next", "TraceReader::advance_upper", "Spine"];
    const L: &[&str] = &["JoinThinker::think (replaying)", "ValueHistory::{build,replay,step,advance_buffer_by}", "EditList::load"];
    let sched = "any flushing of either input between rounds, and either closing first";
    let b = |h: &Hist, g: &Hist, t: &str| format!("{:?} and {:?} arbitrary updates per round of the two inputs (keys and values 0..=15, differences -{}..={}) {t}; {sched}", h.rounds, g.rounds, h.r, h.r);
    const NOW: Hist = Hist { rounds: &[1, 1], hi: HI, r: 2, times: Times::Now, free: false };
    const LATER: Hist = Hist { rounds: &[1, 1], hi: HI, r: 2, times: Times::Later, free: false };
    const ONE: Hist = Hist { rounds: &[1], hi: HI, r: 2, times: Times::Later, free: false };
    const TWO: Hist = Hist { rounds: &[2], hi: HI, r: 2, times: Times::Later, free: false };
    let n = "at session times 0, 1";
    let l = "at any time at or after session times 0, 1";
    let pr = "at any pair of integers at or after (0,0), (1,0)";
    let mut cases = vec![];
    macro_rules! add { ($name:expr, $t:ty, $op:expr, $a:expr, $b:expr, $fixed:expr, $text:expr, $th:expr) => { {
        let (x, y): (Hist, Hist) = ($a, $b);
        let case = Case::new($name, b(&x, &y, $text) + ["", ", all of one key", ", all of one key and value"][$fixed], G, &["matched"], move || history::<$t>($op, &Plan { a: x.clone(), b: y.clone(), fixed: $fixed, steps: 6 }));
        cases.push(if $th { case.thorough() } else { case });
    } } }
    add!("join", Sym, Op::Join, NOW, NOW, 0, n, false);
    add!("join map later", Sym, Op::Map, LATER, LATER, 2, l, false);
    add!("join map later one key", Sym, Op::Map, Hist { r: 1, ..LATER }, Hist { r: 1, ..LATER }, 1, l, true);
    add!("join two and one", Sym, Op::Join, TWO, NOW, 0, l, false);
    add!("join core", Sym, Op::Core, NOW, ONE, 0, n, false);
    add!("semijoin", Sym, Op::Semi, NOW, NOW, 0, n, false);
    add!("antijoin", Sym, Op::Anti, NOW, NOW, 0, n, false);
    add!("self join", Sym, Op::Own, LATER, ONE, 0, l, false);
    add!("held", Sym, Op::Held, NOW, NOW, 0, n, false);
    add!("join pairs", P2, Op::Join, LATER, ONE, 0, pr, false);
    add!("join pairs one datum", P2, Op::Join, Hist { r: 1, ..LATER }, Hist { r: 1, rounds: &[1], ..LATER }, 2, pr, false);
    add!("join pairs one datum 1 1", P2, Op::Join, Hist { r: 1, ..LATER }, Hist { r: 1, ..LATER }, 2, pr, true);
    const APART: Hist = Hist { rounds: &[1, 1], hi: 4, r: 1, times: Times::Apart, free: false };
    let ap = "at any pairs of integers 0..=4, the inputs' frontiers moving through arbitrary antichains of one or two pairs";
    add!("join pairs apart", P2, Op::Join, APART, Hist { rounds: &[1], ..APART }, 2, ap, false);
    add!("join pairs apart 1 1", P2, Op::Join, APART, APART, 2, ap, true);
    add!("held pairs apart", P2, Op::Held, Hist { rounds: &[1], ..APART }, APART, 2, ap, false);
    add!("join free", Sym, Op::Join, Hist { free: true, ..NOW }, Hist { free: true, ..NOW }, 1, "at arbitrary successive session times", false);
    add!("join lagging", Sym, Op::Join, Hist { rounds: &[1, 1, 1], ..NOW }, Hist { rounds: &[1], ..NOW }, 2, "at session times 0, 1, 2", false);
    add!("join lagging right", Sym, Op::Map, Hist { rounds: &[1], ..NOW }, Hist { rounds: &[1, 1, 1, 0], ..NOW }, 2, "at session times 0, 1, 2, 3", false);
    add!("join lagging 4", Sym, Op::Join, Hist { rounds: &[1, 1, 1, 1, 1], ..NOW }, Hist { rounds: &[1, 1], ..NOW }, 2, "at session times 0 to 4", true);
    add!("join 3", Sym, Op::Join, Hist { rounds: &[1, 1, 1], ..NOW }, Hist { rounds: &[1, 1, 1], ..NOW }, 1, n, true);
    add!("held pairs", P2, Op::Held, LATER, LATER, 2, pr, true);
    add!("self join pairs", P2, Op::Own, Hist { rounds: &[2, 1], ..LATER }, ONE, 2, pr, true);
    cases.push(Case::new("imported", b(&NOW, &NOW, n) + "; the join imports both arrangements after either round, with or without compaction", I, &["matched", "loaded"], || late::<Sym>(&Plan { a: NOW, b: NOW, fixed: 1, steps: 4 })));
    cases.push(Case::new("long", "10 fixed updates and 1 arbitrary one (times 0..=12) on each side, for one key and 2 values", L, &["matched"], || long::<Sym>(10, (1, 1), 2, |_, i| c(i), 12, 1)));
    cases.push(Case::new("long pairs", "10 fixed updates and 1 arbitrary one (pairs of times 0..=3) on each side, for one key and 2 values", L, &["matched"], || long::<P2>(10, (1, 1), 2, |_, i| P2::new(c(i % 4), c((i / 4 + i) % 4)), 3, 1)));
    cases.push(Case::new("long pairs outlasting", "10 fixed updates (pairs of times 0..=4) on each side and an arbitrary one on one; the fixed times of one side end before the other's begin to descend", L, &["matched"], || {
        if choose("first lasts", 2) == 1 { long::<P2>(10, (0, 1), 2, |b, i| if b { P2::new(c(i % 2), c(i / 2)) } else { P2::new(c(i % 5), c((4 - i % 5 + i / 5) % 5)) }, 4, 1) }
        else { long::<P2>(10, (0, 1), 2, |b, i| if b { P2::new(c(i % 5), c((4 - i % 5 + i / 5) % 5)) } else { P2::new(c(i % 2), c(i / 2)) }, 4, 1) }
    }));
    cases.push(Case::new("long in parts", "10 fixed updates and 1 arbitrary one on each side; either side may arrive first", L, &["matched"], || long::<Sym>(10, (1, 1), 3, |_, i| c(i), 12, 2)));
    cases.push(Case::new("yielding", "nine fixed records on each side, two differences and one time symbolic, in any order of arrival; each match produces 30000 records, which are added up as they are built", G, &["yielded"], yields));
    cases.push(Case::new("deferred", "two rounds of an update on each side, at arbitrary successive times; any flushing; up to four units of work of up to five containers each, of 600000 records", G, &["deferred"], || deferred(2, 5)));
    cases.push(Case::new("deferred 3", "three rounds, as deferred", G, &["deferred"], || deferred(3, 5)).thorough());
    cases.push(Case::new("long pairs 2 2", "10 fixed updates and 2 arbitrary ones (pairs of times 0..=3) on each side", L, &["matched"], || long::<P2>(10, (2, 2), 2, |_, i| P2::new(c(i % 4), c((i / 4 + i) % 4)), 3, 1)).thorough());
    cases.push(Case::new("imported 3", "as imported, with three rounds", I, &["matched", "loaded"], || late::<Sym>(&Plan { a: Hist { rounds: &[1, 1, 1], ..NOW }, b: NOW, fixed: 1, steps: 4 })).thorough());
    runner::run(Prop { id: "J01", title: "join", outside: "longer histories; one worker", assumptions: &[], cases });
}
