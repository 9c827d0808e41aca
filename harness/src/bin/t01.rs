//! Outputs complete when inputs do: nothing holds up, or is held up, beyond what it is owed.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::reduces::{apply, Engine, Logic};
use ddverif::*;
use differential_dataflow::operators::arrange::upsert::arrange_from_upsert;
use differential_dataflow::operators::{CountTotal, Iterate, ThresholdTotal};
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::trace::TraceReader;
use differential_dataflow::{AsCollection, VecCollection};
use differential_dogs3::operators::{half_join, half_join2, propose, validate};
use std::cell::Cell;
use timely::container::CapacityContainerBuilder;
use timely::dataflow::operators::vec::{Input, Map};
use timely::progress::Antichain;

type KV = (Sym, Sym);
type Coll<'s, T> = VecCollection<'s, T, KV, Sym>;
const HI: i64 = 2;

/// What can be told of an output: the times that may still appear.
type Told<T> = Box<dyn Fn() -> Vec<T>>;
fn told<'s, T: Fed, D: differential_dataflow::Data, R: Diff>(c: VecCollection<'s, T, D, R>) -> Told<T> { let s = Sink::new(c); Box::new(move || s.frontier()) }

#[derive(Clone, Copy)]
struct Plan { rounds: &'static [usize], /** Differences of either sign, after the first. */ signs: bool, /** Largest time of an update. */ hi: i64, k: i64, v: i64, times: Times, /** Steps after which nothing more is expected to happen. */ idle: usize }

fn feed<T: Fed>(f: &mut Feed<KV, T>, name: &str, p: &Plan, i: usize) {
    for j in 0..p.rounds[i] {
        let d = (var(&format!("{name}k{i}.{j}"), 0, p.k), var(&format!("{name}v{i}.{j}"), 0, p.v));
        let t = match p.times { Times::Now => f.time(), _ => T::fresh(&format!("{name}t{i}.{j}"), p.hi) };
        // Something may cancel.
        f.push(d, t, if i + j == 0 || !p.signs { c(1) } else { c([1, -1][choose(&format!("{name}r{i}.{j}"), 2)]) });
    }
    match p.times {
        Times::Apart if i == 0 => f.advance_apart(&format!("{name}a{i}"), p.hi),
        Times::Apart => { let t = T::fresh(&format!("{name}a{i}"), p.hi); assume(beyond(&f.frontier(), &t)); f.advance_all(&[t]) },
        _ => { let t = T::fresh(&format!("{name}a{i}"), p.hi + 1); assume(f.time().s_le(&t)); f.advance(t) },
    }
}
/// The times complete on every input are complete on the output.
fn prompt<T: Fed>(inputs: &[&Vec<T>], owed: B, out: &Told<T>, q: &T) {
    let out = out();
    let due = B::all(inputs.iter().map(|f| !beyond(f, q))) & !owed;
    note(|| format!("the output may still change at {out:?}, and the inputs at {inputs:?}"));
    check(due.implies(!beyond(&out, q)), "a time is complete on the inputs but not on the output");
    witness("due", due);
}

fn one<T: Fed>(p: Plan, build: impl for<'s> FnOnce(Coll<'s, T>) -> Told<T>) {
    let mut w = worker();
    let (mut f, out) = T::build(&mut w, |scope| { let (f, a) = Feed::<KV, T>::new(scope); (f, build(a)) });
    let q = T::fresh("q", HI + 1);
    let mut sent = vec![T::minimum()];
    for i in 0..p.rounds.len() {
        feed(&mut f, "a", &p, i);
        if i + 1 == p.rounds.len() || choose("flush", 2) == 1 { f.flush(); sent = f.frontier(); }
        steps(&mut w, p.idle);
        prompt(&[&sent], FALSE, &out, &q);
    }
    f.close();
    finish(&mut w);
    check(B::of(out().is_empty()), "the output is not complete at the end");
}
/// A half join may match requests, at their times, with what may yet arrive before them in the total order.
fn two<T: Fed>(p: Plan, half: bool, build: impl for<'s> FnOnce(Coll<'s, T>, Coll<'s, T>) -> Told<T>) {
    let mut w = worker();
    let (mut f, mut g, out) = T::build(&mut w, |scope| {
        let (f, a) = Feed::<KV, T>::new(scope.clone());
        let (g, b) = Feed::<KV, T>::new(scope);
        (f, g, build(a, b))
    });
    let q = T::fresh("q", HI + 1);
    let (mut sf, mut sg) = (vec![T::minimum()], vec![T::minimum()]);
    let owed = |log: &[(KV, T, Sym)], sg: &[T]| if half { B::any(log.iter().map(|(_, t, _)| t.s_le(&q) & B::any(sg.iter().map(|g| g.s_less(t) | g.s_eq(t))))) } else { FALSE };
    for i in 0..p.rounds.len() {
        feed(&mut f, "a", &p, i);
        feed(&mut g, "b", &p, i);
        let which = if i + 1 < p.rounds.len() { choose("flush", 4) } else if i == 0 { 1 + choose("flush", 3) } else { 3 };
        if which & 1 > 0 { f.flush(); sf = f.frontier() }
        if which & 2 > 0 { g.flush(); sg = g.frontier() }
        steps(&mut w, p.idle);
        prompt(&[&sf, &sg], owed(&f.log, &sg), &out, &q);
    }
    // Either may be closed while the other continues.
    if choose("close", 2) == 0 { f.close(); sf = vec![] } else { g.close(); sg = vec![] }
    steps(&mut w, p.idle);
    prompt(&[&sf, &sg], owed(&f.log, &sg), &out, &q);
    f.close();
    g.close();
    finish(&mut w);
    check(B::of(out().is_empty()), "the output is not complete at the end");
}

#[derive(Clone, Copy, PartialEq)]
enum One { Consolidate, Stream, Arrange, Trace, Reduce, Count, Distinct, Threshold, Region, Reference, Proxy, Loop, Late, Import }
fn single<T: Fed>(which: One, a: Coll<'_, T>) -> Told<T> {
    match which {
        One::Consolidate => told(a.consolidate()),
        One::Stream => told(a.consolidate_stream()),
        One::Arrange => told(a.arrange_by_key().as_collection(|k, v| (*k, *v))),
        One::Trace => {
            let mut trace = a.arrange_by_key().trace;
            // The times that its batches do not cover.
            let upper = std::cell::RefCell::new(Antichain::new());
            let trace = std::cell::RefCell::new({ trace.set_logical_compaction(Antichain::new().borrow()); trace.set_physical_compaction(Antichain::from_elem(T::minimum()).borrow()); trace });
            Box::new(move || { let mut u = upper.borrow_mut(); u.clear(); trace.borrow_mut().read_upper(&mut u); u.elements().to_vec() })
        },
        One::Reduce => told(a.reduce(|_, i, o: &mut Vec<(Sym, Sym)>| o.push((*i[0].0, c(1))))),
        One::Count => told(a.map(|x| x.0).count_core::<Sym>()),
        One::Distinct => told(a.distinct_core::<Sym>()),
        One::Threshold => told(a.threshold(|_, n| *n + c(1))),
        One::Region => { let scope = a.inner.scope(); told(scope.clone().region(|inner| a.enter_region(inner).consolidate().leave_region(scope))) },
        One::Reference => { let arr = a.clone().arrange_by_key(); told(apply(Engine::Reference, Logic::First, &a, &arr, Default::default())) },
        One::Proxy => { let arr = a.clone().arrange_by_key(); told(apply(Engine::Proxy(0, false, 0), Logic::First, &a, &arr, Default::default())) },
        One::Loop => told(a.iterate(|_, x| x.clone().map(|(k, v)| (v, k)).concat(x).distinct_core::<Sym>())),
        One::Late => told(a.iterate(|_, x| x.clone().filter(|x| x.0 < c(1)).map(|(k, v)| (k + c(1), v)).concat(x).reduce(|_, i, o: &mut Vec<(Sym, Sym)>| o.push((*i[0].0, c(1)))))),
        One::Import => unreachable!(),
    }
}
/// An arrangement imported into another dataflow.
fn imported<T: Fed>(p: Plan, cut: bool) {
    let mut w = worker();
    let (mut f, mut trace) = T::build(&mut w, |scope| { let (f, a) = Feed::<KV, T>::new(scope); (f, a.arrange_by_key().trace) });
    let q = T::fresh("q", HI + 1);
    let mut sent = vec![T::minimum()];
    let at = choose("import", p.rounds.len() + 1);
    let (mut out, mut until): (Option<Told<T>>, Vec<T>) = (None, vec![]);
    // The last round only imports what there is by then.
    for i in 0..p.rounds.len() + 1 {
        if i == at {
            if cut { until = vec![T::fresh("until", HI)]; }
            let last = until.first().cloned();
            out = Some(T::build(&mut w, |scope| match last {
                None => told(trace.import(scope).as_collection(|k, v| (*k, *v))),
                Some(u) => { let (arr, b) = trace.import_frontier_core(scope, "import", Antichain::from_elem(T::minimum()), Antichain::from_elem(u)); std::mem::forget(b); told(arr.as_collection(|k, v| (*k, *v))) },
            }));
        }
        if i < p.rounds.len() {
            feed(&mut f, "a", &p, i);
            if i + 1 == p.rounds.len() || choose("flush", 2) == 1 { f.flush(); sent = f.frontier(); }
        }
        steps(&mut w, p.idle);
        // An import takes part in progress once its source next moves.
        if let (Some(o), true) = (&out, i < p.rounds.len()) { prompt(&[&sent], FALSE, o, &q); }
    }
    drop(trace);
    f.close();
    finish(&mut w);
}

#[derive(Clone, Copy, PartialEq)]
enum Two { Concat, Join, Semi, Anti, Half, Second, HalfYields, SecondYields, Propose, Validate }
fn pair<T: Fed + std::hash::Hash>(which: Two, yields: usize, a: Coll<'_, T>, b: Coll<'_, T>) -> Told<T> {
    let release = |_: &T, a: &mut Antichain<T>| { a.insert(T::minimum()); };
    let strict = if matches!(which, Two::Half | Two::Second | Two::HalfYields | Two::SecondYields) { choose("strict", 2) == 1 } else { false };
    let compare = move |a: &T, b: &T| if strict { a < b } else { a <= b };
    let make = |k: &Sym, v: &Sym, w: &Sym| (*k, *v, *w);
    let left = Cell::new(yields);
    let pause = move |_: std::time::Instant, _: usize| { if left.get() == 0 { return false; } let p = choose("yield", 2) == 1; if p { left.set(left.get() - 1) } p };
    fn requests<'s, T: Fed>(c: Coll<'s, T>) -> VecCollection<'s, T, (Sym, Sym, T), Sym> { c.inner.map(|((k, v), t, r)| ((k, v, t.clone()), t, r)).as_collection() }
    let key = |x: &KV| x.0;
    match which {
        Two::Concat => told(a.concat(b)),
        Two::Join => told(a.join(b)),
        Two::Semi => told(a.semijoin(b.map(|x| x.0))),
        Two::Anti => told(a.antijoin(b.map(|x| x.0))),
        Two::Half => { let r = requests(a); told(half_join::half_join(r, b.arrange_by_key(), release, compare, make)) },
        Two::Second => { let r = requests(a); told(half_join2::half_join(r, b.arrange_by_key(), release, compare, make)) },
        Two::HalfYields => { let r = requests(a); told(half_join::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, CapacityContainerBuilder<Vec<_>>>(r, b.arrange_by_key(), release, compare, pause,
            |session: &mut _, k: &Sym, v: &Sym, w: &Sym, initial: &T, r: &Sym, found: &mut Vec<(T, Sym)>| { for (t, s) in found.drain(..) { timely::dataflow::operators::generic::Session::give(session, (((*k, *v, *w), t), initial.clone(), *r * s)) } }).as_collection()) },
        Two::SecondYields => { let r = requests(a); told(half_join2::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, CapacityContainerBuilder<Vec<_>>>(r, b.arrange_by_key(), release, compare, pause,
            |builder: &mut CapacityContainerBuilder<Vec<_>>, k: &Sym, v: &Sym, w: &Sym, initial: &T, r: &Sym, found: &mut Vec<(T, Sym)>| { use timely::container::PushInto; for (t, s) in found.drain(..) { builder.push_into((((*k, *v, *w), t), initial.clone(), *r * s)) } }).as_collection()) },
        Two::Propose => told(propose(a, b.arrange_by_key(), key)),
        Two::Validate => told(validate(a.map(|(k, v)| ((k, v), v)), b.arrange_by_self(), key)),
    }
}
/// Totally ordered forms.
fn total(which: usize, a: Coll<'_, Sym>) -> Told<Sym> {
    let a = a.map(|x| x.0);
    match which {
        0 => told(a.count_total_core::<Sym>()),
        1 => told(a.threshold_total(|_, n| *n + c(1))),
        _ => told(a.distinct_total()),
    }
}
fn upsert(p: Plan) {
    let mut w = worker();
    let (mut input, out, mut trace) = w.dataflow::<Sym, _, _>(|scope| {
        let (input, stream) = scope.new_input::<(Sym, Option<Sym>, Sym)>();
        let arranged = arrange_from_upsert::<ValBuilder<Sym, Sym, _, _>, ValSpine<Sym, Sym, _, _>, Sym, Sym>(stream, "upsert");
        let trace = arranged.trace.clone();
        (input, told(arranged.as_collection(|k, v| (*k, *v))), trace)
    });
    let q = var("q", 0, HI + 1);
    for i in 0..p.rounds.len() {
        for j in 0..p.rounds[i] {
            let t = var(&format!("t{i}.{j}"), 0, HI);
            assume(Sym::le(*input.time(), t));
            let v = if choose(&format!("some{i}.{j}"), 2) == 1 { Some(var(&format!("v{i}.{j}"), 0, p.v)) } else { None };
            input.send((var(&format!("k{i}.{j}"), 0, p.k), v, t));
        }
        let next = var(&format!("a{i}"), 0, HI + 1);
        assume(Sym::le(*input.time(), next));
        if Sym::lt(*input.time(), next).decide() { input.advance_to(next) } else { input.flush() }
        steps(&mut w, p.idle);
        prompt(&[&vec![next]], FALSE, &out, &q);
        let mut u = Antichain::new();
        trace.read_upper(&mut u);
        let u = u.elements().to_vec();
        check((!beyond(&[next], &q)).implies(!beyond(&u, &q)), "a time is complete on the inputs but not covered by the trace");
    }
    drop(trace);
    input.close();
    finish(&mut w);
}

const NOW: Plan = Plan { rounds: &[1, 1, 1], signs: true, hi: HI, k: 0, v: 1, times: Times::Now, idle: 24 };
const LATER: Plan = Plan { rounds: &[2, 1], times: Times::Later, ..NOW };
const APART: Plan = Plan { rounds: &[1, 1], times: Times::Apart, ..NOW };
const BOTH: Plan = Plan { rounds: &[1, 1], signs: true, hi: HI, k: 0, v: 0, times: Times::Later, idle: 30 };
const BOTHP: Plan = Plan { rounds: &[1], signs: true, hi: HI, k: 0, v: 0, times: Times::Apart, idle: 30 };
const LOOP: Plan = Plan { rounds: &[1, 1], signs: true, hi: HI, k: 1, v: 1, times: Times::Later, idle: 120 };
const MANY: Plan = Plan { rounds: &[2, 1, 1], k: 1, ..LATER };
const BOTHMANY: Plan = Plan { rounds: &[2, 1], ..BOTH };
const BOTHPMANY: Plan = Plan { rounds: &[1, 1], ..BOTHP };

fn main() {
    let mut cases = vec![];
    const N: &str = "three rounds of an update at the time of its input, which then moves to any time 0..=3; all may be flushed or wait; values 0..=1";
    const L: &str = "rounds of two updates and one at any later times 0..=2, the input then moving to any time 0..=3; the first may be flushed or wait";
    const A: &str = "two rounds of an update at any later pair of times 0..=2, the input then moving to any antichain of up to two, and at last to any time";
    use One::*;
    let names: [(One, &'static str, &'static str, &'static str, &'static str); 11] = [
        (Consolidate, "consolidate", "consolidate later", "consolidate apart", "consolidate many"), (Stream, "stream", "stream later", "stream apart", "stream many"), (Arrange, "arrange", "arrange later", "arrange apart", "arrange many"),
        (Trace, "trace", "trace later", "trace apart", "trace many"), (Reduce, "reduce", "reduce later", "reduce apart", "reduce many"), (Count, "count", "count later", "count apart", "count many"),
        (Distinct, "distinct", "distinct later", "distinct apart", "distinct many"), (Threshold, "threshold", "threshold later", "threshold apart", "threshold many"), (Region, "region", "region later", "region apart", "region many"),
        (Reference, "reference", "reference later", "reference apart", "reference many"), (Proxy, "proxy", "proxy later", "proxy apart", "proxy many"),
    ];
    const G: &[&str] = &["arrange_core", "TraceWriter", "TraceAgent", "Batcher", "reduce_with_tactic", "CursorTactic", "ReferenceTactic", "ProxyReduceTactic", "VecCollection::{consolidate,reduce,count_core,distinct_core,threshold,enter_region,leave_region}"];
    for (o, n1, n2, n3, n4) in names {
        cases.push(Case::new(n1, N, G, &["due"], move || one::<Sym>(NOW, |a| single(o, a))));
        cases.push(Case::new(n2, L, G, &["due"], move || one::<Sym>(LATER, |a| single(o, a))));
        cases.push(Case::new(n3, A, G, &["due"], move || one::<P2>(APART, |a| single(o, a))));
        cases.push(Case::new(n4, "rounds of two, one and one updates at any later pairs of times", G, &["due"], move || one::<P2>(MANY, |a| single(o, a))).thorough());
    }
    const I: &[&str] = &["Iterate", "Variable", "arrange_core", "reduce_with_tactic"];
    for (o, n1, n2) in [(Loop, "loop", "loop apart"), (Late, "second loop", "second loop apart")] {
        cases.push(Case::new(n1, "two rounds of an update at any later times; keys and values 0..=1", I, &["due"], move || one::<Sym>(LOOP, |a| single(o, a))));
        cases.push(Case::new(n2, A, I, &["due"], move || one::<P2>(Plan { times: Times::Apart, rounds: &[1, 0], v: 0, ..LOOP }, |a| single(o, a))));
    }
    for (n, i) in [("count in total", 0), ("threshold in total", 1), ("distinct in total", 2)] {
        cases.push(Case::new(n, L, &["CountTotal", "ThresholdTotal", "arrange_core"], &["due"], move || one::<Sym>(LATER, |a| total(i, a))));
    }
    cases.push(Case::new("upsert", L, &["arrange_from_upsert", "TraceWriter"], &["due"], || upsert(Plan { rounds: &[2, 1], k: 1, ..NOW })));
    cases.push(Case::new("import", L, &["TraceAgent::import", "TraceWriter"], &["due"], || imported::<Sym>(LATER, false)));
    cases.push(Case::new("import apart", A, &["TraceAgent::import", "TraceWriter"], &["due"], || imported::<P2>(APART, false)));
    cases.push(Case::new("import until", L, &["TraceAgent::import_frontier_core", "TraceFrontier"], &["due"], || imported::<Sym>(LATER, true)));
    const H: &[&str] = &["join_with_tactic", "JoinTactic", "half_join_internal_unsafe", "half_join2::half_join_internal_unsafe", "propose", "validate", "lookup_map", "VecCollection::{concat,join,semijoin,antijoin}"];
    use Two::*;
    let names: [(Two, &'static str, &'static str, &'static str, &'static str); 10] = [
        (Concat, "concat", "concat pairs", "concat many", "concat pairs many"), (Join, "join", "join pairs", "join many", "join pairs many"), (Semi, "semijoin", "semijoin pairs", "semijoin many", "semijoin pairs many"), (Anti, "antijoin", "antijoin pairs", "antijoin many", "antijoin pairs many"),
        (Half, "half join", "half join pairs", "half join many", "half join pairs many"), (Second, "second half join", "second half join pairs", "second half join many", "second half join pairs many"),
        (HalfYields, "yielding half join", "yielding half join pairs", "yielding half join many", "yielding half join pairs many"), (SecondYields, "second yielding half join", "second yielding half join pairs", "second yielding half join many", "second yielding half join pairs many"),
        (Propose, "propose", "propose pairs", "propose many", "propose pairs many"), (Validate, "validate", "validate pairs", "validate many", "validate pairs many"),
    ];
    for (o, n1, n2, n3, n4) in names {
        let yields = matches!(o, HalfYields | SecondYields);
        let half = matches!(o, Half | Second | HalfYields | SecondYields);
        cases.push(Case::new(n1, "two rounds of an update to each input at any later times 0..=2, the inputs then moving to any times 0..=3; either may be flushed or wait, and either may close first", H, &["due"], move || two::<Sym>(if yields { Plan { signs: false, ..BOTH } } else { BOTH }, false, |a, b| pair(o, 1, a, b))));
        cases.push(Case::new(n2, "an update to each input at any pair of times 0..=2 (0..=1 if yielding), the inputs then moving to any antichains of up to two; either or both may be flushed, and either may close first", H, &["due"], move || two::<P2>(if yields { Plan { hi: 1, ..BOTHP } } else { BOTHP }, half, |a, b| pair(o, 1, a, b))));
        cases.push(Case::new(n3, "rounds of two updates and one to each input; as above", H, &["due"], move || two::<Sym>(BOTHMANY, false, |a, b| pair(o, 2, a, b))).thorough());
        cases.push(Case::new(n4, "two rounds of an update to each input at pairs of times; as above", H, &["due"], move || two::<P2>(BOTHPMANY, half, |a, b| pair(o, 2, a, b))).thorough());
    }
    runner::run(Prop { id: "T01", title: "outputs complete as inputs do", outside: "more updates and rounds; several workers (in part W01); how many steps completion takes, beyond that the stated number suffice", assumptions: &[
        "a computation has nothing left to do after 24 steps of its worker (30 with two inputs, 120 with a loop)", "iterations settle",
    ], cases });
}
