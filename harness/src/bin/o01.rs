//! Linear operators: the output is the image of the input, update by update.
use ddverif::colflow::*;
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::collection::containers::{Negate, ResultsIn};
use differential_dataflow::collection::concatenate;
use differential_dataflow::columnar::collection::{as_recorded_updates, join_function, leave_dynamic};
use differential_dataflow::columnar::{collection as col, trace as coltrace};
use differential_dataflow::dynamic::pointstamp::PointStamp;
use differential_dataflow::operators::arrange::arrangement::arrange_core;
use differential_dataflow::VecCollection;
use std::cell::RefCell;
use std::rc::Rc;
use timely::order::Product;
use timely::progress::Timestamp;
use differential_dataflow::lattice::Lattice;

const HI: i64 = 3;
const R: i64 = 3;

/// An arbitrary function on `0 ..= HI`, tabulated.
fn tab(name: &str, lo: i64, hi: i64) -> Vec<Sym> { (0..=HI).map(|i| var(&format!("{name}{i}"), lo, hi)).collect() }
fn look(f: &[Sym], x: Sym) -> Sym { let mut out = f[0]; for (i, v) in f.iter().enumerate().skip(1) { out = x.is(c(i as i64)).ite(*v, out); } out }

/// Times with arbitrary increasing maps between them.
trait Mapped: Fed + std::hash::Hash + columnar::Columnar<Container: differential_dataflow::columnar::layout::OrdContainer + Default> { type F: Clone; fn map(name: &str) -> Self::F; fn apply(f: &Self::F, t: &Self) -> Self; fn step(f: &Sym) -> Self::Summary; fn stepped(f: &Sym, t: &Self) -> Self; fn limit() -> Self; }
fn grows(name: &str) -> Vec<Sym> {
    let f = tab(name, 0, HI + 1);
    for i in 0..f.len() { assume(Sym::le(c(i as i64), f[i])); if i > 0 { assume(Sym::le(f[i - 1], f[i])); } }
    f
}
impl Mapped for Sym {
    type F = Vec<Sym>;
    fn map(name: &str) -> Vec<Sym> { grows(name) }
    fn apply(f: &Vec<Sym>, t: &Sym) -> Sym { look(f, *t) }
    fn step(f: &Sym) -> Sym { *f }
    fn stepped(f: &Sym, t: &Sym) -> Sym { *t + *f }
    fn limit() -> Sym { c(1 << 20) }
}
impl Mapped for P2 {
    type F = [Vec<Sym>; 2];
    fn map(name: &str) -> Self::F { [grows(&format!("{name}o")), grows(&format!("{name}i"))] }
    fn apply(f: &Self::F, t: &P2) -> P2 { P2::new(look(&f[0], t.outer), look(&f[1], t.inner)) }
    fn step(f: &Sym) -> Product<Sym, Sym> { Product::new(c(0), *f) }
    fn stepped(f: &Sym, t: &P2) -> P2 { P2::new(t.outer, t.inner + *f) }
    fn limit() -> P2 { P2::new(c(1 << 20), c(1 << 20)) }
}

type Want<T> = Box<dyn Fn(&[(Sym, T, Sym)], &[(Sym, T, Sym)]) -> Vec<(Sym, T, Sym)>>;
/// Outputs, each with what it ought to be.
struct Tests<T: Fed> { list: Vec<(&'static str, Sink<Sym, T>, Want<T>)> }
impl<T: Mapped> Tests<T> {
    fn new() -> Self { Tests { list: vec![] } }
    fn add<'s>(&mut self, name: &'static str, coll: VecCollection<'s, T, Sym, Sym>, want: impl Fn(&[(Sym, T, Sym)], &[(Sym, T, Sym)]) -> Vec<(Sym, T, Sym)> + 'static) { self.list.push((name, Sink::new(coll), Box::new(want))) }
    fn judge(&self, a: &[(Sym, T, Sym)], b: &[(Sym, T, Sym)], d: &Sym, q: &T, all: bool) {
        for (name, sink, want) in &self.list {
            let want = want(a, b);
            let when = if all { TRUE } else { sink.done(q) };
            check(when.implies(exact(sink.out.borrow().iter(), d, q).is(exact(&want, d, q))), &format!("{name}: the output is not the image of the input"));
        }
    }
}
fn each<T: Fed>(f: impl Fn(Sym, &T, Sym) -> Vec<(Sym, T, Sym)> + 'static) -> impl Fn(&[(Sym, T, Sym)], &[(Sym, T, Sym)]) -> Vec<(Sym, T, Sym)> + 'static { move |a, _| a.iter().flat_map(|(d, t, r)| f(*d, t, *r)).collect() }

/// Runs a dataflow on two inputs under arbitrary flushing, comparing each output with its image.
fn drive<T: Mapped>(h: Hist, outputs: impl for<'s> FnOnce(VecCollection<'s, T, Sym, Sym>, VecCollection<'s, T, Sym, Sym>, &mut Tests<T>) -> Box<dyn Fn(&[(Sym, T, Sym)], &[(Sym, T, Sym)], &Sym, &T)>) {
    let mut w = worker();
    let (mut a, mut b, tests, end) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<Sym, T>::new(scope);
        let (fb, b) = Feed::<Sym, T>::new(scope);
        let mut tests = Tests::new();
        let end = outputs(a, b, &mut tests);
        (fa, fb, tests, end)
    });
    let (d, q) = (var("d", 0, HI + 1), T::fresh("q", HI + 2));
    let last = h.rounds.len() - 1;
    for i in 0..=last {
        round(&mut a, "a", &h, i);
        round(&mut b, "b", &h, i);
        if i < last {
            match choose("flush", 3) { 0 => continue, 1 => a.flush(), _ => { a.flush(); b.flush() } }
            steps(&mut w, 6);
            tests.judge(&a.log, &b.log, &d, &q, false);
        }
    }
    witness("cancelled", exact(&a.log, &d, &q).is(c(0)) & B::any(a.log.iter().map(|u| u.0.is(d) & u.1.s_eq(&q))));
    a.close();
    b.close();
    finish(&mut w);
    tests.judge(&a.log, &b.log, &d, &q, true);
    end(&a.log, &b.log, &d, &q);
    note(|| format!("{:?} {:?} gives {:?}", a.log, b.log, tests.list.iter().map(|(n, s, _)| format!("{n} {:?}", s.out.borrow())).collect::<Vec<_>>()));
}

fn pointwise<T: Mapped>(h: Hist) {
    let (f, g, m) = (tab("f", 0, HI), tab("g", 0, HI), tab("m", -2, 2));
    let (jt, step) = (T::fresh("jt", HI), var("step", 0, 2));
    drive::<T>(h, move |a, b, tests| {
        let f2 = f.clone(); let f3 = f.clone();
        tests.add("map", a.clone().map(move |x| look(&f2, x)), each(move |d, t: &T, r| vec![(look(&f3, d), t.clone(), r)]));
        let f2 = f.clone(); let f3 = f.clone();
        tests.add("map_in_place", a.clone().map_in_place(move |x| *x = look(&f2, *x)), each(move |d, t: &T, r| vec![(look(&f3, d), t.clone(), r)]));
        let (f2, g2) = (f.clone(), g.clone()); let (f3, g3) = (f.clone(), g.clone());
        tests.add("flat_map", a.clone().flat_map(move |x| vec![look(&f2, x), look(&g2, x)]), each(move |d, t: &T, r| vec![(look(&f3, d), t.clone(), r), (look(&g3, d), t.clone(), r)]));
        let (f2, m2) = (f.clone(), m.clone()); let (f3, m3) = (f.clone(), m.clone());
        tests.add("explode", a.clone().explode(move |x| vec![(x, c(2)), (look(&f2, x), look(&m2, x))]), each(move |d, t: &T, r| vec![(d, t.clone(), r * c(2)), (look(&f3, d), t.clone(), r * look(&m3, d))]));
        let (f2, m2, j2) = (f.clone(), m.clone(), jt.clone()); let (f3, m3, j3) = (f.clone(), m.clone(), jt.clone());
        tests.add("join_function", a.clone().join_function(move |x| vec![(x, T::minimum(), c(1)), (look(&f2, x), j2.clone(), look(&m2, x))]), each(move |d, t: &T, r| vec![(d, t.clone(), r), (look(&f3, d), t.join(&j3), r * look(&m3, d))]));
        tests.add("negate", a.clone().negate(), each(|d, t: &T, r| vec![(d, t.clone(), c(0) - r)]));
        tests.add("concat", a.clone().concat(b.clone()), |a, b| a.iter().chain(b).cloned().collect());
        tests.add("concatenate", a.clone().concatenate([b.clone(), a.clone(), b.clone().negate()]), |a, _| a.iter().chain(a).cloned().collect());
        tests.add("concatenate (function)", concatenate(a.scope(), [a.clone(), b.clone()]), |a, b| a.iter().chain(b).cloned().collect());
        tests.add("results_in", a.clone().results_in(T::step(&step)), each(move |d, t: &T, r| vec![(d, T::stepped(&step, t), r)]));
        tests.add("leave_region", a.scope().region(|inner| a.clone().enter_region(inner).negate().leave_region(a.scope())), each(|d, t: &T, r| vec![(d, t.clone(), c(0) - r)]));
        let seen = Rc::new(RefCell::new(vec![]));
        let s2 = seen.clone();
        tests.add("inspect", a.clone().inspect(move |x| s2.borrow_mut().push(x.clone())), each(|d, t: &_, r| vec![(d, Clone::clone(t), r)]));
        let batches = Rc::new(RefCell::new(vec![]));
        let b2 = batches.clone();
        tests.add("inspect_batch", a.inspect_batch(move |cap, xs| for x in xs { check(cap.s_le(&x.1), "inspected at a later time"); b2.borrow_mut().push(x.clone()) }), each(|d, t: &_, r| vec![(d, Clone::clone(t), r)]));
        Box::new(move |a, _, d, q| {
            check(exact(seen.borrow().iter(), d, q).is(exact(a, d, q)) & B::of(seen.borrow().len() == a.len()), "inspect does not present each update once");
            check(exact(batches.borrow().iter(), d, q).is(exact(a, d, q)) & B::of(batches.borrow().len() == a.len()), "inspect_batch does not present each update once");
        })
    });
}

fn delaying<T: Mapped>(h: Hist) {
    let f = T::map("delay");
    drive::<T>(h, move |a, b, tests| {
        let f2 = f.clone(); let f3 = f.clone();
        tests.add("delay", a.delay(move |t| T::apply(&f2, t)).concat(b), move |a, b| a.iter().map(|(d, t, r)| (*d, T::apply(&f3, t), *r)).chain(b.iter().cloned()).collect());
        Box::new(|a, _, d, q| witness("delayed", !exact(a, d, q).is(c(0))))
    });
}

/// Operators that decide something about each record.
fn choosing<T: Mapped>(h: Hist) {
    let (p, f, n) = (tab("p", 0, 1), tab("f", 0, HI), tab("n", 0, 2));
    drive::<T>(h, move |a, b, tests| {
        let p2 = p.clone(); let p3 = p.clone();
        tests.add("filter", a.clone().filter(move |x| look(&p2, *x).is(c(1)).decide()), each(move |d, t: &T, r| vec![(d, t.clone(), look(&p3, d).is(c(1)).ite(r, c(0)))]));
        let (n2, f2) = (n.clone(), f.clone()); let (n3, f3) = (n.clone(), f.clone());
        tests.add("flat_map", a.concat(b).flat_map(move |x| { let n = look(&n2, x); if n.is(c(0)).decide() { vec![] } else if n.is(c(1)).decide() { vec![x] } else { vec![x, look(&f2, x)] } }),
            move |a, b| a.iter().chain(b).flat_map(|(d, t, r)| { let n = look(&n3, *d); [(*d, t.clone(), n.is(c(0)).ite(c(0), *r)), (look(&f3, *d), t.clone(), n.is(c(2)).ite(*r, c(0)))] }).collect());
        Box::new(|_, _, _, _| ())
    });
}

/// Each pair of datum and time at most once, and no empty changes.
fn once<T: Fed>(out: &[(Sym, T, Sym)]) -> B {
    B::all((0..out.len()).map(|i| !out[i].2.is(c(0)))) & B::all((0..out.len()).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| !(out[i].0.is(out[j].0) & out[i].1.s_eq(&out[j].1))))
}
fn consolidating<T: Mapped>(stream: bool, h: Hist) {
    drive::<T>(h, move |a, b, tests| {
        let all = a.concat(b);
        tests.add("consolidate", if stream { all.consolidate_stream() } else { all.consolidate() }, |a, b| a.iter().chain(b).cloned().collect());
        let out = tests.list[0].1.out.clone();
        Box::new(move |_, _, _, _| if !stream { check(once(&out.borrow()), "consolidated output repeats a record and time, or has an empty change") })
    });
}
/// Equal collections compare equal and their difference is empty, without complaint.
fn equal(h: Hist) {
    let f = tab("f", 0, HI);
    drive::<Sym>(h, move |a, b, tests| {
        let (f2, f3) = (f.clone(), f.clone());
        let one = a.clone().concat(b.clone()).map(move |x| look(&f2, x));
        let two = b.clone().map(move |x| look(&f3, x)).concat({ let f = f.clone(); a.clone().map_in_place(move |x| *x = look(&f, *x)) });
        two.assert_eq(one);
        a.clone().concat(a.clone().negate()).assert_empty();
        tests.add("input", a, each(|d, t: &_, r| vec![(d, Clone::clone(t), r)]));
        Box::new(|_, _, _, _| ())
    });
}

// ---- columnar ----
type U<T> = (Sym, Sym, T, Sym);
fn pairs<T: Fed>(l: &[((Sym, Sym), T, Sym)], d: &(Sym, Sym), q: &T) -> Sym { exact(l, d, q) }

/// Runs a columnar operator under arbitrary flushing.
fn col_drive<T: Mapped>(h: Hist, op: impl for<'s> FnOnce(differential_dataflow::Collection<'s, T, col::RecordedUpdates<U<T>>>) -> differential_dataflow::Collection<'s, T, col::RecordedUpdates<U<T>>>, image: impl Fn(&(Sym, Sym), &T, Sym) -> Vec<((Sym, Sym), T, Sym)>, what: &str, cells: bool)
where U<T>: Cols<Key = Sym, Val = Sym, Time = T> {
    let mut w = worker();
    let (mut feed, sink) = T::build(&mut w, |scope| { let (feed, coll) = ColFeed::<U<T>>::new(scope); (feed, ColSink::new(op(coll))) });
    let (d, q) = (<(Sym, Sym) as Datum>::fresh("d", HI), T::fresh("q", HI));
    let judge = |log: &Log<U<T>>, all: bool| {
        let want: Vec<_> = log.iter().flat_map(|(d, t, r)| image(d, t, *r)).collect();
        let when = if all { TRUE } else { sink.done(&q) };
        check(when.implies(pairs(&sink.out.borrow(), &d, &q).is(pairs(&want, &d, &q))), what);
    };
    let last = h.rounds.len() - 1;
    for i in 0..=last {
        feed.round("", &h, i);
        if cells { for (d, _, _) in &feed.log { assume(d.1.is(c(0))); } }
        if i < last && choose("flush", 2) == 1 { feed.flush(); steps(&mut w, 8); judge(&feed.log, false); }
    }
    witness("cancelled", pairs(&feed.log, &d, &q).is(c(0)) & B::any(feed.log.iter().map(|u| u.0.s_is(&d) & u.1.s_eq(&q) & !u.2.is(c(0)))));
    feed.close();
    finish(&mut w);
    judge(&feed.log, true);
    note(|| format!("{:?} gives {:?}", feed.log, sink.out.borrow()));
}
fn col_function<T: Mapped>(h: Hist) where U<T>: Cols<Key = Sym, Val = Sym, Time = T> {
    let (f, m, jt) = (tab("f", 0, HI), tab("m", -2, 2), T::fresh("jt", HI));
    let (f2, m2, j2) = (f.clone(), m.clone(), jt.clone());
    col_drive::<T>(h, move |coll| join_function(coll, move |k: Sym, v: Sym, _, _| vec![(look(&f, k), v, jt.clone(), look(&m, v))]), move |d, t: &T, r| vec![((look(&f2, d.0), d.1), t.join(&j2), r * look(&m2, d.1))], "join_function: the output is not the image of the input", true);
}
fn col_negate<T: Mapped>(h: Hist) where U<T>: Cols<Key = Sym, Val = Sym, Time = T> {
    col_drive::<T>(h, |coll| coll.clone().negate().concat(coll.negate()).negate(), |d, t, r| vec![(*d, t.clone(), r * c(2))], "negate: the output is not the image of the input", false);
}
/// Steps of loops, for containers of any time.
fn col_results_in<T: Mapped>(h: Hist) where U<T>: Cols<Key = Sym, Val = Sym, Time = T> {
    let step = var("step", 0, 2);
    col_drive::<T>(h, move |coll| coll.results_in(T::step(&step)), move |d, t, r| vec![(*d, T::stepped(&step, t), r)], "results_in: the output is not the image of the input", true);
}
/// An arrangement read back as updates.
fn col_arranged<T: Mapped>(h: Hist) where U<T>: Cols<Key = Sym, Val = Sym, Time = T> {
    col_drive::<T>(h, move |coll| {
        let arranged = arrange_core::<_, _, coltrace::Chunker<U<T>>, coltrace::Batcher<Sym, Sym, T, Sym>, coltrace::Builder<Sym, Sym, T, Sym>, coltrace::Spine<Sym, Sym, T, Sym>>(coll.inner, col::Pact { hashfunc: |_| 0 }, "Arrange");
        as_recorded_updates::<U<T>>(arranged)
    }, |d, t, r| vec![(*d, t.clone(), r)], "as_recorded_updates: the output is not the input", true);
}
/// Leaving a dynamic scope keeps the outer coordinates.
fn col_leave(level: usize, h: Hist) {
    let left = move |t: &PD| -> PD { Product::new(t.outer, PointStamp::new(t.inner.iter().take(level - 1).cloned().collect())) };
    let mut w = worker();
    let (mut feed, sink) = PD::build(&mut w, |scope| { let (feed, coll) = ColFeed::<U<PD>>::new(scope); (feed, ColSink::new(leave_dynamic(coll, level))) });
    let (d, q) = ((c(0), c(0)), PD::fresh("q", HI));
    let judge = |log: &Log<U<PD>>, all: bool| {
        let want: Vec<_> = log.iter().map(|(d, t, r)| (*d, left(t), *r)).collect();
        let when = if all { TRUE } else { sink.done(&q) };
        check(when.implies(pairs(&sink.out.borrow(), &d, &q).is(pairs(&want, &d, &q))), "leave_dynamic: the output is not the image of the input");
        check(B::of(sink.out.borrow().iter().all(|u| u.1.inner.len() < level)), "a time that keeps coordinates of a scope it left");
    };
    let last = h.rounds.len() - 1;
    for i in 0..=last {
        feed.round("", &h, i);
        for (d, _, _) in &feed.log { assume(d.0.is(c(0)) & d.1.is(c(0))); }
        if i < last && choose("flush", 2) == 1 { feed.flush(); steps(&mut w, 4); judge(&feed.log, false); }
    }
    if feed.log.iter().any(|u| u.1.inner.len() >= level) { reached("truncated"); }
    feed.close();
    finish(&mut w);
    judge(&feed.log, true);
}
/// Steps that lead nowhere drop their updates.
fn nowhere() {
    let max = u64::MAX;
    let ups: Vec<(Sym, u64, Sym)> = (0..3).map(|i| (var(&format!("d{i}"), 0, HI), max - choose(&format!("t{i}"), 3) as u64, var(&format!("r{i}"), -R, R))).collect();
    let step = choose("step", 3) as u64;
    let want: Vec<_> = ups.iter().filter_map(|(d, t, r)| t.checked_add(step).map(|t| (*d, t, *r))).collect();
    let (d, q) = (var("d", 0, HI), max - choose("q", 3) as u64);
    let out = ResultsIn::<u64>::results_in(ups.clone(), &step);
    check(exact(&out, &d, &q).is(exact(&want, &d, &q)) & B::of(out.len() == want.len()), "results_in: the output is not the image of the input");
    let rc = ResultsIn::<u64>::results_in(Rc::new(ups.clone()), &step);
    check(exact(&*rc, &d, &q).is(exact(&want, &d, &q)), "results_in (shared): the output is not the image of the input");
    let neg = Negate::negate(Rc::new(ups.clone()));
    check(exact(&*neg, &d, &q).is(c(0) - exact(&ups, &d, &q)), "negate (shared): the output is not the image of the input");
    let mut trie = differential_dataflow::columnar::UpdatesTyped::<(Sym, (), u64, Sym)>::default();
    for (d, t, r) in &ups { columnar::Push::push(&mut trie, (d, &(), t, r)); }
    let recorded = col::RecordedUpdates::<(Sym, (), u64, Sym)> { updates: trie.into(), records: 3, consolidated: false };
    let out = ResultsIn::<u64>::results_in(recorded, &step);
    let list: Vec<(Sym, u64, Sym)> = out.updates.view().iter().map(|(d, _, t, r)| (d, *t, r)).collect();
    check(exact(&list, &d, &q).is(exact(&want, &d, &q)), "results_in (columnar): the output is not the image of the input");
    check(B::of(timely::Accountable::record_count(&out) == 3), "progress is told of fewer records than were sent");
    if want.len() < 3 { reached("dropped"); }
}

fn main() {
    const P: &[&str] = &["Collection::{map,map_in_place,flat_map,explode,join_function,negate,concat,concatenate,results_in,enter_region,leave_region,inspect,inspect_batch}", "collection::containers::vec"];
    const W: &[&str] = &["cancelled"];
    const COL: &[&str] = &["columnar::collection::operators", "RecordedUpdates::{negate,results_in}", "columnar::collection::Builder", "UpdatesTyped::form"];
    let b = |s: &[usize], t: &str| format!("{s:?} arbitrary updates to each of two inputs (data 0..=3, {t}, differences -3..=3), any flushing between rounds; functions are arbitrary tables, time maps arbitrary increasing tables; an arbitrary query");
    let (n1, n2) = ("times at or after the round", "pairs of times at or after the round");
    const H: Hist = Hist { rounds: &[2, 1], hi: HI, r: R, times: Times::Later, free: false };
    const H1: Hist = Hist { rounds: &[1, 1], ..H };
    const H2: Hist = Hist { rounds: &[2, 2, 1], ..H };
    let cb = |s: &[usize], t: &str| format!("{s:?} arbitrary updates (keys and values 0..=3, {t}, differences -3..=3), any flushing between rounds; functions are arbitrary tables; columnar batches hold two updates (hook)");
    let cases = vec![
        Case::new("pointwise", b(H.rounds, n1), P, W, || pointwise::<Sym>(H)),
        Case::new("pointwise pairs", b(H.rounds, n2), P, W, || pointwise::<P2>(H)),
        Case::new("delay", b(H.rounds, n1), &["Collection::delay"], &["delayed"], || delaying::<Sym>(H)),
        Case::new("delay pairs", b(H1.rounds, n2), &["Collection::delay"], &["delayed"], || delaying::<P2>(H1)),
        Case::new("choosing", b(H1.rounds, n1), &["Collection::{filter,flat_map}"], W, || choosing::<Sym>(H1)),
        Case::new("consolidate", b(H1.rounds, n1), &["Collection::consolidate", "arrange", "OrdKeyBatcher", "OrdKeyBuilder"], W, || consolidating::<Sym>(false, H1)),
        Case::new("consolidate pairs", b(&[1, 1], n2), &["Collection::consolidate", "arrange", "OrdKeyBatcher", "OrdKeyBuilder"], W, || consolidating::<P2>(false, Hist { rounds: &[1, 1], ..H })),
        Case::new("consolidate_stream", b(H.rounds, n1), &["Collection::consolidate_stream", "ConsolidatingContainerBuilder"], W, || consolidating::<Sym>(true, H)),
        Case::new("equal", b(&[1, 1], n1), &["Collection::{assert_eq,assert_empty}"], W, || equal(H1)),
        Case::new("nowhere", "3 updates at times up to 3 below the greatest, stepped by up to 2", &["ResultsIn, Negate for Vec, Rc, RecordedUpdates"], &["dropped"], nowhere),
        Case::new("columnar join_function", cb(&[2, 1], n1), COL, W, || col_function::<Sym>(H)),
        Case::new("columnar join_function pairs", cb(&[1, 1], n2), COL, W, || col_function::<P2>(H1)),
        Case::new("columnar negate", cb(&[2, 1], n1), COL, W, || col_negate::<Sym>(H)),
        Case::new("columnar results_in", cb(&[2, 1], n1), COL, W, || col_results_in::<Sym>(H)),
        Case::new("columnar results_in pairs", cb(&[1, 1], n2), COL, W, || col_results_in::<P2>(H1)),
        Case::new("columnar arranged", cb(&[1, 1], n1), COL, W, || col_arranged::<Sym>(H1)),
        Case::new("columnar leave_dynamic 1", cb(&[1, 1], "one datum; times of up to 2 coordinates"), COL, &["truncated"], || col_leave(1, H1)),
        Case::new("columnar leave_dynamic 2", cb(&[1, 1], "one datum; times of up to 2 coordinates"), COL, &["truncated"], || col_leave(2, H1)),
        Case::new("pointwise, more", b(H2.rounds, n2), P, W, || pointwise::<P2>(H2)),
        Case::new("delay, more", b(H2.rounds, n1), &["Collection::delay"], &["delayed"], || delaying::<Sym>(H2)),
        Case::new("choosing, more", b(H.rounds, n1), &["Collection::{filter,flat_map}"], W, || choosing::<Sym>(H)).thorough(),
        Case::new("consolidate, more", b(H.rounds, n1), &["Collection::consolidate", "arrange", "OrdKeyBatcher", "OrdKeyBuilder"], W, || consolidating::<Sym>(false, H)).thorough(),
        Case::new("consolidate_stream, more", b(H2.rounds, n1), &["Collection::consolidate_stream", "ConsolidatingContainerBuilder"], W, || consolidating::<Sym>(true, H2)).thorough(),
        Case::new("equal, more", b(H.rounds, n1), &["Collection::{assert_eq,assert_empty}"], W, || equal(H)).thorough(),
        Case::new("columnar join_function, more", cb(H.rounds, n2), COL, W, || col_function::<P2>(H)).thorough(),
        Case::new("columnar arranged, more", cb(H.rounds, n1), COL, W, || col_arranged::<Sym>(H)),
        Case::new("columnar leave_dynamic 2, more", cb(H.rounds, "one datum; times of up to 2 coordinates"), COL, &["truncated"], || col_leave(2, H)).thorough(),
    ];
    runner::run(Prop { id: "O01", title: "linear operators", outside: "longer histories; larger data domains for tabulated functions; one worker", assumptions: &["time maps given to delay are increasing, as it requires"], cases });
}
