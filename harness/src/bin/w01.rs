//! Several workers, under any placement of records and any interleaving, against the meaning of the program.
use ddverif::colflow::*;
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::sym::hash_by;
use ddverif::*;
use differential_dataflow::columnar::collection as col;
use differential_dataflow::columnar::trace as coltrace;
use differential_dataflow::hashable::Hashable;
use differential_dataflow::operators::arrange::arrangement::arrange_core;
use differential_dataflow::operators::arrange::upsert::arrange_from_upsert;
use differential_dataflow::operators::{CountTotal, Iterate, ThresholdTotal};
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::{AsCollection, VecCollection};
use differential_dogs3::operators::{half_join, half_join2, propose, validate};
use differential_dogs3::{CollectionIndex, ProposeExtensionMethod};
use timely::dataflow::operators::vec::Map;
use timely::progress::{Antichain, Timestamp};
use timely::worker::Worker;

type KV = (Sym, Sym);
type Log<T> = Vec<(KV, T, Sym)>;
type Out = (Sym, (Sym, Sym));

#[derive(Clone, Copy, PartialEq, Debug)]
enum Program { Arrange, ArrangeSelf, Consolidate, Join, Semi, Anti, Distinct, Count, Least, Closure, Iterated, Imported,
    /** A delta query of two half joins. */ Halves, /** With the second version. */ Seconds, Propose, Validate, Indexed, Upsert, TotalCount, TotalDistinct }

/// A small domain of keys and values.
const KEYS: i64 = 2;

/// Times, some of which have operators of their own.
trait Timed: Fed + std::hash::Hash { fn total<'s>(_: Program, _: VecCollection<'s, Self, KV, Sym>) -> Sink<Out, Self> { unreachable!() } }
impl Timed for P2 { }
impl Timed for Sym {
    fn total<'s>(p: Program, a: VecCollection<'s, Sym, KV, Sym>) -> Sink<Out, Sym> {
        match p {
            Program::TotalCount => Sink::new(a.map(|(k, _)| k).count_total_core::<Sym>().map(|(k, n)| (k, (n, c(0))))),
            Program::TotalDistinct => Sink::new(a.distinct_total_core::<Sym>().map(|(k, v)| (k, (v, c(0))))),
            // The greatest value stands for none.
            _ => {
                let asks = a.inner.map(|((k, v), t, _)| (k, if v == c(KEYS) { None } else { Some(v) }, t));
                Sink::new(arrange_from_upsert::<ValBuilder<Sym, Sym, _, _>, ValSpine<Sym, Sym, _, _>, Sym, Sym>(asks, "upsert").as_collection(|k, v| (*k, (*v, c(0)))).inner.map(|(d, t, r): (Out, Sym, isize)| (d, t, c(r as i64))).as_collection())
            },
        }
    }
}
fn build<'s, T: Timed>(p: Program, scope: timely::dataflow::Scope<'s, T>, a: VecCollection<'s, T, KV, Sym>, b: VecCollection<'s, T, KV, Sym>) -> Sink<Out, T> {
    let up = |x: VecCollection<'s, T, KV, Sym>| x.map(|(k, v)| (k, (v, c(0))));
    match p {
        Program::Arrange => Sink::new(up(a.arrange_by_key().as_collection(|k, v| (*k, *v)))),
        Program::ArrangeSelf => Sink::new(up(a.arrange_by_self().as_collection(|d, _| *d))),
        Program::Consolidate => Sink::new(up(a.consolidate())),
        Program::Join => Sink::new(a.join(b)),
        Program::Semi => Sink::new(up(a.semijoin(b.map(|(k, _)| k)))),
        Program::Anti => Sink::new(up(a.antijoin(b.map(|(k, _)| k)))),
        Program::Distinct => Sink::new(up(a.distinct_core::<Sym>())),
        Program::Count => Sink::new(a.map(|(k, _)| k).count_core::<Sym>().map(|(k, n)| (k, (n, c(0))))),
        Program::Least => Sink::new(up(a.reduce(|_, input, output| output.push((*input[0].0, c(1)))))),
        // Values move to be keys of what they meet.
        Program::Closure => Sink::new(up(a.clone().map(|(k, v)| (v, k)).join_map(a, |_, x, y| (*x, *y)).distinct_core::<Sym>())),
        Program::Iterated => {
            let roots = b.map(|(k, _)| k);
            let reach = roots.iterate(|inner, x| {
                let edges = a.enter(inner);
                edges.join_map(x.clone().map(|x| (x, ())), |_, y, _| *y).concat(x).distinct_core::<Sym>()
            });
            Sink::new(reach.map(|k| (k, (c(0), c(0)))))
        },
        Program::Halves | Program::Seconds => {
            type Arr<'s, T> = differential_dataflow::operators::arrange::Arranged<'s, differential_dataflow::operators::arrange::TraceAgent<ValSpine<Sym, Sym, T, Sym>>>;
            let half = |strict: bool, x: VecCollection<'s, T, KV, Sym>, arr: Arr<'s, T>| -> VecCollection<'s, T, Out, Sym> {
                let asks = x.inner.map(|((k, v), t, r)| ((k, v, t.clone()), t, r)).as_collection();
                let release = |_: &T, a: &mut Antichain<T>| { a.insert(T::minimum()); };
                let compare = move |a: &T, b: &T| if strict { a < b } else { a <= b };
                let make = |k: &Sym, v: &Sym, w: &Sym| (*k, (*v, *w));
                let out = if p == Program::Halves { half_join::half_join(asks, arr, release, compare, make) } else { half_join2::half_join(asks, arr, release, compare, make) };
                out.inner.map(|((d, t), _, r)| (d, t, r)).as_collection()
            };
            let one = half(false, a.clone(), b.clone().arrange_by_key());
            Sink::new(half(true, b, a.arrange_by_key()).map(|(k, (w, v))| (k, (v, w))).concat(one))
        },
        Program::Propose => Sink::new(propose(a, b.arrange_by_key(), |x: &KV| x.0).map(|((k, v), x)| (k, (v, x)))),
        Program::Validate => Sink::new(up(validate(a.map(|(k, v)| ((k, v), v)), b.arrange_by_self(), |x: &KV| x.0).map(|(d, _)| d))),
        Program::Indexed => { let mut ex = CollectionIndex::index(b).extend_using(|x: &KV| x.0); Sink::new(a.propose_using(&mut ex).map(|((k, v), x)| (k, (v, x)))) },
        Program::Upsert | Program::TotalCount | Program::TotalDistinct => T::total(p, a),
        Program::Imported => {
            let mut trace = a.arrange_by_key().trace;
            let other = trace.import(scope);
            Sink::new(up(other.as_collection(|k, v| (*k, *v))))
        },
    }
}
fn expect<T: Timed>(p: Program, a: &Log<T>, b: &Log<T>, (k, (v, x)): Out, q: &T) -> Sym {
    let one = |s: Sym| Sym::lt(c(0), s).ite(c(1), c(0));
    let keyed = |l: &Log<T>, k: Sym| { let mut s = c(0); for u in l { s = s + (u.0.0.is(k) & u.1.s_le(q)).ite(u.2, c(0)) } s };
    let zero = x.is(c(0));
    match p {
        Program::Arrange | Program::ArrangeSelf | Program::Consolidate | Program::Imported => zero.ite(accum(a, &(k, v), q), c(0)),
        Program::Join | Program::Halves | Program::Seconds => accum(a, &(k, v), q) * accum(b, &(k, x), q),
        Program::Propose | Program::Validate | Program::Indexed => {
            let mut out = c(0);
            for u in a { let on = u.0.0.is(k) & u.0.1.is(v) & u.1.s_le(q); let n = accum(b, &(k, if p == Program::Validate { v } else { x }), &u.1); out = out + on.ite(if p == Program::Validate { n.is(c(0)).ite(c(0), u.2) } else { u.2 * n }, c(0)) }
            if p == Program::Validate { zero.ite(out, c(0)) } else { out }
        },
        Program::Upsert => {
            let rank = |v: Sym| v.is(c(KEYS)).ite(c(-1), v);
            let (mut best, mut at): (Sym, Option<T>) = (c(-1), None);
            let mut some = FALSE;
            for u in a { let on = u.0.0.is(k) & u.1.s_le(q); if on.decide() {
                let wins = match &at { None => TRUE, Some(t) => t.s_less(&u.1) | (t.s_eq(&u.1) & Sym::lt(best, rank(u.0.1))) };
                if wins.decide() { best = rank(u.0.1); at = Some(u.1.clone()); some = TRUE; }
            } }
            (some & zero & Sym::le(c(0), v) & best.is(v)).ite(c(1), c(0))
        },
        Program::TotalCount => { let n = keyed(a, k); (zero & !n.is(c(0)) & n.is(v)).ite(c(1), c(0)) },
        Program::TotalDistinct => { let n = accum(a, &(k, v), q); (zero & !n.is(c(0))).ite(c(1), c(0)) },
        Program::Semi => zero.ite(accum(a, &(k, v), q) * keyed(b, k), c(0)),
        Program::Anti => zero.ite(accum(a, &(k, v), q) * (c(1) - keyed(b, k)), c(0)),
        Program::Distinct => { let n = accum(a, &(k, v), q); (zero & !n.is(c(0))).ite(c(1), c(0)) },
        Program::Count => { let n = keyed(a, k); (zero & !n.is(c(0)) & n.is(v)).ite(c(1), c(0)) },
        Program::Least => {
            let mut on = zero & !accum(a, &(k, v), q).is(c(0));
            for w in 0..KEYS { on = on & (!Sym::lt(c(w), v) | accum(a, &(k, c(w)), q).is(c(0))); }
            on.ite(c(1), c(0))
        },
        Program::Closure => { let mut s = c(0); for m in 0..=KEYS { s = s + accum(a, &(k, c(m)), q) * accum(a, &(c(m), v), q) } zero.ite(one(s), c(0)) },
        Program::Iterated => {
            let mut now: Vec<Sym> = (0..=KEYS).map(|k| one(keyed(b, c(k)))).collect();
            for _ in 0..KEYS { now = (0..=KEYS).map(|to| { let mut s = now[to as usize]; for from in 0..=KEYS { s = s + now[from as usize] * one(accum(a, &(c(from), c(to)), q)) } one(s) }).collect(); }
            let mut out = c(0);
            for i in 0..=KEYS { out = k.is(c(i)).ite(now[i as usize], out) }
            (zero & v.is(c(0))).ite(out, c(0))
        },
    }
}

struct Plan { workers: usize, binary: bool, a: &'static [usize], b: &'static [usize], hi: i64, /** Bounds of differences. */ lo: i64, up: i64, /** Steps taken in any order: after each round, and after all. */ turns: usize, end: usize, /** One worker may close its inputs before others do. */ first: bool, /** Workers build the dataflow at different moments. */ late: bool }

/// Keys are at one worker each. (For outputs that follow an exchange.)
fn located<T: Timed>(p: Program, sinks: &[Sink<Out, T>]) {
    if matches!(p, Program::Closure | Program::Iterated | Program::Anti | Program::Indexed | Program::Halves | Program::Seconds) { return }
    let whole = matches!(p, Program::Consolidate | Program::ArrangeSelf | Program::Distinct | Program::TotalDistinct | Program::Validate);
    for (i, s) in sinks.iter().enumerate() { for (j, o) in sinks.iter().enumerate() { if i < j {
        for x in s.out.borrow().iter() { for y in o.out.borrow().iter() {
            let same = x.0.0.is(y.0.0) & if whole { x.0.1.0.is(y.0.1.0) } else { TRUE };
            check(!same, "one key is at two workers");
        } }
    } } }
}

fn several<T: Timed>(p: Program, plan: &Plan) {
    let n = plan.workers;
    hash_by((0..=KEYS).map(|i| var(&format!("place{i}"), 0, n as i64 - 1)).collect(), n as u64);
    let mut ws = workers(n, plan.binary);
    let (mut fa, mut fb, mut sinks) = (vec![], vec![], vec![]);
    for (i, w) in ws.iter_mut().enumerate() {
        if plan.late && i > 0 && choose("late", 2) == 1 { steps(w, 1); }
        let (a, b, s) = T::build(w, |scope| {
            let (fa, a) = Feed::<KV, T>::new(scope.clone());
            let (fb, b) = Feed::<KV, T>::new(scope.clone());
            (fa, fb, build(p, scope, a, b))
        });
        fa.push(a); fb.push(b); sinks.push(s);
    }
    let counts = matches!(p, Program::Count | Program::TotalCount);
    let (d, q) = ((var("k", 0, KEYS), (var("v", if counts { -6 } else { 0 }, if counts { 6 } else { KEYS }), var("x", 0, KEYS))), T::fresh("q", plan.hi));
    let all = |fs: &[Feed<KV, T>]| -> Log<T> { fs.iter().flat_map(|f| f.log.iter().cloned()).collect() };
    let judge = |ws: &[Feed<KV, T>], bs: &[Feed<KV, T>], sinks: &[Sink<Out, T>], done: bool| {
        let when = if done { TRUE } else { B::any(sinks.iter().map(|s| s.done(&q))) };
        if when == FALSE { return }
        let mut got = c(0);
        for s in sinks { got = got + s.accum(&d, &q) }
        check(when.implies(got.is(expect(p, &all(ws), &all(bs), d, &q))), "the outputs over all workers are not what the program means");
    };
    let rounds = plan.a.len();
    for i in 0..rounds {
        for (name, fs, h) in [("a", &mut fa, plan.a), ("b", &mut fb, plan.b)] {
            for j in 0..h[i] {
                let at = choose(&format!("{name}at{i}.{j}"), n);
                let d = (var(&format!("{name}k{i}.{j}"), 0, KEYS), var(&format!("{name}v{i}.{j}"), 0, KEYS));
                let r = var(&format!("{name}r{i}.{j}"), plan.lo, plan.up);
                let t = if plan.hi > 3 { T::fresh(&format!("{name}t{i}.{j}"), plan.hi) } else { fs[at].time() };
                fs[at].push(d, t, r);
            }
            if i + 1 < rounds { for f in fs.iter_mut() { f.advance(T::tick(i as i64 + 1)) } }
        }
        if i + 1 < rounds {
            // Any one worker, or all, or none, may have its inputs flushed.
            match choose("flush", n + 2) { 0 => continue, 1 => for f in fa.iter_mut().chain(fb.iter_mut()) { f.flush() }, w => { fa[w - 2].flush(); fb[w - 2].flush() } }
            turns(&mut ws, plan.turns);
            judge(&fa, &fb, &sinks, false);
            // Some more, to bring this about.
            for w in ws.iter_mut() { steps(w, 3) }
            judge(&fa, &fb, &sinks, false);
        }
    }
    // One worker's inputs may close first.
    let first = if plan.first { choose("close", n + 1) } else { n };
    if first < n { fa[first].close(); fb[first].close(); turns(&mut ws, plan.turns); judge(&fa, &fb, &sinks, false); }
    for f in fa.iter_mut().chain(fb.iter_mut()) { f.close() }
    turns(&mut ws, plan.end);
    judge(&fa, &fb, &sinks, false);
    let mut pace = vec![1; n];
    pace[choose("pace", n)] = 3;
    finish_all(&mut ws, &pace);
    judge(&fa, &fb, &sinks, true);
    located(p, &sinks);
    if sinks.iter().filter(|s| !s.out.borrow().is_empty()).count() > 1 { reached("spread"); }
    if fa.iter().any(|f| !f.log.is_empty()) { witness("present", !expect(p, &all(&fa), &all(&fb), d, &q).is(c(0))); }
    note(|| format!("{:?} with {:?} gives {:?}", all(&fa), all(&fb), sinks.iter().map(|s| s.out.borrow().clone()).collect::<Vec<_>>()));
}

/// Columnar updates, arranged over several workers.
fn columnar<T: Fed + columnar::Columnar<Container: differential_dataflow::columnar::layout::OrdContainer + Default>>(plan: &Plan) where (Sym, Sym, T, Sym): Cols<Key = Sym, Val = Sym, Time = T> {
    let n = plan.workers;
    hash_by((0..=KEYS).map(|i| var(&format!("place{i}"), 0, n as i64 - 1)).collect(), n as u64);
    let mut ws: Vec<Worker> = workers(n, plan.binary);
    let (mut fs, mut sinks) = (vec![], vec![]);
    for w in ws.iter_mut() {
        let (f, s) = T::build(w, |scope| {
            let (f, coll) = ColFeed::<(Sym, Sym, T, Sym)>::new(scope);
            let arranged = arrange_core::<_, _, coltrace::Chunker<(Sym, Sym, T, Sym)>, coltrace::Batcher<Sym, Sym, T, Sym>, coltrace::Builder<Sym, Sym, T, Sym>, coltrace::Spine<Sym, Sym, T, Sym>>(coll.inner, col::Pact { hashfunc: |k: columnar::Ref<'_, Sym>| <Sym as columnar::Columnar>::into_owned(k).hashed() }, "Arrange");
            let out = differential_dataflow::columnar::collection::as_recorded_updates::<(Sym, Sym, T, Sym)>(arranged);
            (f, ColSink::new(out))
        });
        fs.push(f); sinks.push(s);
    }
    let (d, q) = ((var("k", 0, KEYS), var("v", 0, KEYS)), T::fresh("q", plan.hi));
    let judge = |fs: &[ColFeed<(Sym, Sym, T, Sym)>], sinks: &[ColSink<(Sym, Sym, T, Sym)>], done: bool| {
        let when = if done { TRUE } else { B::any(sinks.iter().map(|s| s.done(&q))) };
        let (mut got, mut want) = (c(0), c(0));
        for s in sinks { got = got + accum(s.out.borrow().iter(), &d, &q) }
        for f in fs { want = want + accum(f.log.iter(), &d, &q) }
        check(when.implies(got.is(want)), "the outputs over all workers are not the updates sent");
    };
    let rounds = plan.a.len();
    for i in 0..rounds {
        for j in 0..plan.a[i] {
            let at = choose(&format!("at{i}.{j}"), n);
            let d = (var(&format!("k{i}.{j}"), 0, KEYS), var(&format!("v{i}.{j}"), 0, KEYS));
            let t = if plan.hi > 3 { T::fresh(&format!("t{i}.{j}"), plan.hi) } else { fs[at].time() };
            fs[at].push(d, t, var(&format!("r{i}.{j}"), -2, 2));
        }
        if i + 1 < rounds {
            for f in fs.iter_mut() { f.advance(T::tick(i as i64 + 1)) }
            match choose("flush", n + 2) { 0 => continue, 1 => for f in fs.iter_mut() { f.flush() }, w => fs[w - 2].flush() }
            turns(&mut ws, plan.turns);
            judge(&fs, &sinks, false);
        }
    }
    for f in fs.iter_mut() { f.close() }
    turns(&mut ws, plan.end);
    judge(&fs, &sinks, false);
    let mut pace = vec![1; n];
    pace[choose("pace", n)] = 3;
    finish_all(&mut ws, &pace);
    judge(&fs, &sinks, true);
    for (i, s) in sinks.iter().enumerate() { for (j, o) in sinks.iter().enumerate() { if i < j {
        for x in s.out.borrow().iter() { for y in o.out.borrow().iter() { check(!x.0.0.is(y.0.0), "one key is at two workers"); } }
    } } }
    if sinks.iter().filter(|s| !s.out.borrow().is_empty()).count() > 1 { reached("spread"); }
}

fn main() {
    const G: &[&str] = &["arrange_core, Exchange contracts", "join, reduce, consolidate, distinct, count", "Iterate::iterate, Variable", "OrdBatchers, Spines", "TraceAgent::import", "dogsdogsdogs::operators::{half_join, half_join2, propose, validate, lookup_map}, CollectionIndex", "arrange_from_upsert", "CountTotal, ThresholdTotal"];
    const C: &[&str] = &["columnar: ValPact, ValDistributor::partition", "arrange_core", "columnar Chunker, Batcher, Builder, Spine", "as_recorded_updates"];
    const W: &[&str] = &["spread", "present"];
    let shape = |plan: &Plan| format!("{} workers{}; {:?} and {:?} updates per round in two inputs, each at any worker, of keys and values 0..={KEYS} with differences {}..={}{}; any placement of keys; any worker flushed, and any interleaving of {} steps after each round, {} after all{}{}, then either worker three times as fast",
            plan.workers, if plan.binary { " (serialising)" } else { "" }, plan.a, plan.b, plan.lo, plan.up, if plan.hi > 3 { " at any time" } else { " at session times" }, plan.turns, plan.end, if plan.first { ", any worker closing first" } else { "" }, if plan.late { ", any worker starting late" } else { "" });
    let mut cases = vec![];
    let mut add = |name: &'static str, p: Program, plan: Plan, pairs: bool, thorough: bool| {
        let bounds = shape(&plan);
        let run = move || if pairs { several::<P2>(p, &plan) } else { several::<Sym>(p, &plan) };
        let w: &[&str] = if matches!(p, Program::Join | Program::Semi | Program::Closure | Program::Halves | Program::Seconds | Program::Propose | Program::Validate | Program::Indexed) { &W[1..] } else { W };
        let case = Case::new(name, bounds, G, w, run);
        cases.push(if thorough { case.thorough() } else { case });
    };
    let base = |a: &'static [usize], b: &'static [usize]| Plan { workers: 2, binary: false, a, b, hi: 2, lo: -2, up: 2, turns: 2, end: 1, first: false, late: false };
    let deep = |a: &'static [usize], b: &'static [usize]| Plan { turns: 4, end: 2, first: true, late: true, ..base(a, b) };
    let graph = |p: Plan| Plan { lo: 1, up: 1, ..p };
    add("arrange", Program::Arrange, base(&[1, 1], &[0, 0]), false, false);
    add("arrange whole", Program::ArrangeSelf, Plan { turns: 1, end: 0, ..base(&[1, 1], &[0, 0]) }, false, false);
    add("consolidate", Program::Consolidate, Plan { turns: 1, end: 0, ..base(&[1, 1], &[0, 0]) }, false, false);
    add("join", Program::Join, base(&[1, 0], &[0, 1]), false, false);
    add("semijoin", Program::Semi, base(&[1, 0], &[0, 1]), false, false);
    add("antijoin", Program::Anti, base(&[1, 0], &[0, 1]), false, false);
    add("distinct", Program::Distinct, Plan { turns: 1, end: 0, ..base(&[1, 1], &[0, 0]) }, false, false);
    add("count", Program::Count, base(&[1, 1], &[0, 0]), false, false);
    add("least", Program::Least, base(&[1, 1], &[0, 0]), false, false);
    add("imported", Program::Imported, base(&[1, 1], &[0, 0]), false, false);
    add("half joins", Program::Halves, Plan { turns: 1, end: 0, ..base(&[1, 0], &[0, 1]) }, false, false);
    add("second half joins", Program::Seconds, Plan { turns: 1, end: 0, ..base(&[1, 0], &[0, 1]) }, false, false);
    add("propose", Program::Propose, Plan { turns: 1, end: 0, ..base(&[0, 1], &[1, 0]) }, false, false);
    add("validate", Program::Validate, Plan { turns: 1, end: 0, ..base(&[0, 1], &[1, 0]) }, false, false);
    add("indexed", Program::Indexed, Plan { turns: 1, end: 0, ..base(&[0, 1], &[1, 0]) }, false, false);
    add("upsert", Program::Upsert, Plan { lo: 1, up: 1, ..base(&[1, 1], &[0, 0]) }, false, false);
    add("count in total", Program::TotalCount, Plan { turns: 1, end: 0, ..base(&[1, 1], &[0, 0]) }, false, false);
    add("distinct in total", Program::TotalDistinct, Plan { turns: 1, end: 0, ..base(&[1, 1], &[0, 0]) }, false, false);
    add("closure", Program::Closure, graph(Plan { turns: 0, end: 0, ..base(&[1, 1], &[0, 0]) }), false, false);
    add("iterated", Program::Iterated, graph(Plan { turns: 2, end: 0, ..base(&[1, 0], &[0, 1]) }), false, false);
    add("three workers", Program::Arrange, Plan { workers: 3, turns: 1, end: 0, ..base(&[2], &[0]) }, false, false);
    add("serialising", Program::Count, Plan { binary: true, turns: 1, end: 0, ..base(&[1, 1], &[0, 0]) }, false, false);
    cases.push({ let p = Plan { turns: 2, end: 2, ..base(&[2], &[]) }; Case::new("columnar", shape(&p), C, &[], move || columnar::<Sym>(&p)) });
    cases.push({ let p = Plan { turns: 2, end: 1, ..base(&[1, 1], &[]) }; Case::new("columnar rounds", shape(&p), C, &W[..1], move || columnar::<Sym>(&p)) });
    cases.push({ let p = Plan { workers: 3, turns: 1, end: 0, ..base(&[2], &[]) }; Case::new("columnar, three workers", shape(&p), C, &W[..1], move || columnar::<Sym>(&p)).thorough() });
    let mut add = |name: &'static str, p: Program, plan: Plan, pairs: bool| {
        let bounds = shape(&plan);
        cases.push(Case::new(name, bounds, G, &[], move || if pairs { several::<P2>(p, &plan) } else { several::<Sym>(p, &plan) }).thorough());
    };
    let wide = |p: Plan| Plan { hi: 5, ..p };
    add("arrange, longer", Program::Arrange, deep(&[1, 1, 1], &[0, 0, 0]), false);
    add("arrange, together", Program::Arrange, Plan { turns: 3, ..deep(&[2, 1], &[0, 0]) }, false);
    add("arrange pairs", Program::Arrange, wide(Plan { first: false, ..deep(&[1, 1], &[0, 0]) }), true);
    add("join, longer", Program::Join, deep(&[1, 1], &[1, 1]), false);
    add("join pairs", Program::Join, wide(Plan { turns: 3, first: false, ..deep(&[1, 1], &[1, 0]) }), true);
    add("antijoin, longer", Program::Anti, Plan { turns: 3, ..deep(&[1, 1], &[1, 1]) }, false);
    add("distinct, longer", Program::Distinct, Plan { turns: 3, ..deep(&[2, 1], &[0, 0]) }, false);
    add("count, longer", Program::Count, Plan { turns: 3, ..deep(&[1, 1, 1], &[0, 0, 0]) }, false);
    add("count pairs", Program::Count, wide(Plan { turns: 3, first: false, ..deep(&[1, 1], &[0, 0]) }), true);
    add("least, longer", Program::Least, Plan { turns: 3, ..deep(&[1, 1, 1], &[0, 0, 0]) }, false);
    add("half joins, longer", Program::Halves, Plan { turns: 3, ..deep(&[1, 1], &[1, 0]) }, false);
    add("half joins, pairs", Program::Halves, wide(Plan { turns: 1, end: 0, ..base(&[1, 0], &[0, 1]) }), true);
    add("second half joins, longer", Program::Seconds, Plan { turns: 3, ..deep(&[1, 1], &[1, 0]) }, false);
    add("second half joins, pairs", Program::Seconds, wide(Plan { turns: 1, end: 0, ..base(&[1, 0], &[0, 1]) }), true);
    add("propose, longer", Program::Propose, Plan { turns: 3, ..deep(&[1, 1], &[1, 0]) }, false);
    add("validate, longer", Program::Validate, Plan { turns: 3, ..deep(&[1, 1], &[1, 0]) }, false);
    add("indexed, longer", Program::Indexed, Plan { turns: 2, ..deep(&[1, 1], &[1, 0]) }, false);
    add("upsert, longer", Program::Upsert, Plan { lo: 1, up: 1, turns: 3, ..deep(&[2, 1, 1], &[0, 0, 0]) }, false);
    add("closure, longer", Program::Closure, graph(Plan { turns: 3, ..deep(&[1, 1], &[0, 0]) }), false);
    add("iterated, longer", Program::Iterated, graph(Plan { turns: 2, ..deep(&[1, 1], &[1, 0]) }), false);
    add("iterated, edges", Program::Iterated, graph(Plan { turns: 1, late: false, ..deep(&[2, 1], &[1, 0]) }), false);
    add("three workers, join", Program::Join, Plan { workers: 3, turns: 2, ..deep(&[1, 0], &[0, 1]) }, false);
    add("three workers, iterated", Program::Iterated, graph(Plan { workers: 3, turns: 1, ..deep(&[1, 1], &[1, 0]) }), false);
    add("serialising, join", Program::Join, Plan { binary: true, turns: 2, ..deep(&[1, 1], &[1, 0]) }, false);
    runner::run(Prop {
        id: "W01", title: "several workers",
        outside: "more than three workers; workers that run at the same time within a step (each step is one worker's alone: workers share nothing but message queues); several processes; larger histories and longer schedules",
        assumptions: &["equal keys hash equally (the placement of keys is otherwise arbitrary)", "timely's communication and progress tracking run as they are, over its in-process allocators"], cases,
    });
}
