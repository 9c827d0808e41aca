//! Entering and leaving scopes: traces, collections and arrangements seen at the times of a nested scope, and restricted traces.
use ddverif::colflow::*;
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::operators::arrange::TraceAgent;
use differential_dataflow::trace::implementations::spine_fueled::Spine;
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::trace::cursor::Cursor;
use differential_dataflow::trace::wrappers::{enter, enter_at, frontier};
use differential_dataflow::trace::{BatchReader, Description, Navigable, Trace, TraceReader};
use timely::dataflow::operators::generic::OperatorInfo;
use timely::order::Product;
use timely::progress::timestamp::Refines;
use timely::progress::{Antichain, Timestamp};

const HI: i64 = 3;

fn tab(name: &str, hi: i64) -> Vec<Sym> { (0..=HI).map(|i| var(&format!("{name}{i}"), 0, hi)).collect() }
fn look(f: &[Sym], x: Sym) -> Sym { let mut out = f[0]; for (i, v) in f.iter().enumerate().skip(1) { out = x.is(c(i as i64)).ite(*v, out); } out }

type OV<T> = OrdVal<Sym, Sym, T>;
type VB<T> = <OV<T> as Kind>::B;
type Agent<T> = TraceAgent<Spine<VB<T>>>;
type Ups<T> = Vec<((Sym, Sym), T, Sym)>;
fn mint<T: Timestamp>() -> Antichain<T> { Antichain::from_elem(T::minimum()) }

#[derive(Clone)]
struct Plan { sizes: &'static [usize], ops: &'static [usize], widths: (usize, usize), hi: i64, /** Updates of concrete keys, values and times, in order. */ fixed: bool }

fn read<C: Cursor<Diff = Sym>>(mut c: C, s: &C::Storage) -> Ups<C::Time> where for<'a> C: Cursor<Key<'a> = &'a Sym, Val<'a> = &'a Sym> {
    let mut out = vec![];
    while c.key_valid(s) {
        while c.val_valid(s) {
            let d = (*c.key(s), *c.val(s));
            c.map_times(s, |t, r| out.push((d, C::owned_time(t), C::owned_diff(r))));
            c.step_val(s);
        }
        c.step_key(s);
    }
    out
}

/// A trace seen through a wrapper, during a history of insertions and of compactions through the wrapper.
///
/// `image` is the updates that the wrapped trace should hold, `times` restricts where it should be read and `shown` the times it may show.
fn wrapped<T: DTime, TI: DTime, W>(p: &Plan, wrap: impl FnOnce(Agent<T>) -> W, outer: impl Fn(&TI) -> T, inner: impl Fn(&T) -> TI, image: impl Fn(&Ups<T>) -> Ups<TI>, times: impl Fn(&TI) -> B, shown: impl Fn(&TI) -> B, raw: bool)
where
    W: TraceReader<Time = TI>, W::Batch: Navigable,
    <W::Batch as Navigable>::Cursor: Cursor<Time = TI, Diff = Sym, Storage = W::Batch>, for<'a> <W::Batch as Navigable>::Cursor: Cursor<Key<'a> = &'a Sym, Val<'a> = &'a Sym>,
{
    let info = OperatorInfo::new(0, 0, [].into());
    let spine: Spine<VB<T>> = Trace::new(info.clone(), None, None);
    let (agent, mut writer) = TraceAgent::new(spine, info, None);
    let mut tr = wrap(agent);
    let d = (var("k", 0, p.hi), var("v", 0, p.hi));
    let q = TI::fresh("q", p.hi);
    let ins = |a: &Antichain<T>| -> Antichain<TI> { a.iter().map(&inner).collect() };
    let mut bounds: Vec<Antichain<T>> = vec![mint()];
    let mut log: Vec<Ups<T>> = vec![];
    let (mut logical, mut physical): (Antichain<TI>, usize) = (mint(), 0);
    for (i, n) in p.sizes.iter().enumerate() {
        let lower = bounds[i].clone();
        let upper: Antichain<T> = if p.fixed { Antichain::from_elem(T::fresh(&format!("b{i}"), p.hi)) } else { anti(&format!("b{i}"), if i + 1 == p.sizes.len() { 0 } else { 1 }, p.widths.0, p.hi) };
        assume(after(&lower, &upper) & !same(&lower, &upper));
        let mut ups = canon::<OV<T>>(&format!("{i}"), *n, &lower, &upper, p.hi, 2);
        if p.fixed { for (j, u) in ups.iter_mut().enumerate() { let k = (c(j as i64 / 2), c(j as i64 % 2)); assume(u.0.0.is(k.0) & u.0.1.is(k.1)); u.0 = k; } }
        writer.insert(OV::<T>::build(vec![ups.clone()], Description::new(lower.clone(), upper.clone(), mint())), Some(T::minimum()));
        log.push(ups);
        bounds.push(upper.clone());
        let op = p.ops[choose(&format!("op{i}"), p.ops.len())];
        if op & 1 == 1 {
            let f: Antichain<TI> = anti(&format!("f{i}"), 1, p.widths.1, p.hi);
            assume(after(&logical, &f));
            tr.set_logical_compaction(f.borrow());
            logical = f;
        }
        if op & 2 == 2 { physical = i + 1; tr.set_physical_compaction(ins(&bounds[physical]).borrow()); }
        if op & 4 == 4 { writer.exert(); }
        let reported = tr.get_logical_compaction().to_owned();
        check(after(&reported, &logical), "the trace reports compaction beyond that requested");
        check(after(&tr.get_physical_compaction().to_owned(), &ins(&bounds[physical])), "the trace reports physical compaction beyond that requested");
        let mut links = vec![];
        tr.map_batches(|b| links.push((b.lower().clone(), b.upper().clone(), b.description().since().clone(), read(b.cursor(), b))));
        let mut at = ins(&mint());
        for (l, u, s, seen) in links.iter() {
            check(same(l, &at), "batches are not contiguous");
            at = u.clone();
            check(beyond(&reported, &q).implies(beyond(s, &q)), "a batch reports compaction beyond the trace's");
            for u in seen { check(shown(&u.1), "a batch shows an update at a time outside those it may"); if raw { check(beyond(l, &u.1), "a batch holds an update before its interval") } }
        }
        check(same(&at, &ins(&upper)), "batches do not reach the trace's upper frontier");
        for j in physical..=i + 1 {
            let (cursor, storage) = match tr.cursor_through(ins(&bounds[j]).borrow()) { Some(x) => x, None => fail("a permitted read was refused") };
            let seen = read(cursor, &storage);
            let expect = image(&log[..j].iter().flatten().cloned().collect());
            if j == i + 1 { note(|| format!("{:?} with op {op} and logical {:?} reads {:?}", log, logical, seen)); }
            check((beyond(&logical, &q) & times(&q)).implies(accum(&expect, &d, &q).is(accum(&seen, &d, &q))), "an accumulation read from the trace is wrong");
            for u in seen.iter() { check(shown(&u.1), "the trace shows an update at a time outside those it may"); }
            if j > 0 { witness("seen", beyond(&logical, &q) & times(&q) & !accum(&expect, &d, &q).is(c(0))); }
            if seen.len() < expect.len() { reached("fewer"); }
        }
        let _ = &outer;
        if upper.is_empty() { break; }
    }
    if tr.get_logical_compaction().is_empty() { reached("closed"); }
}

fn entered<T: DTime, TI: DTime + Refines<T>>(p: Plan) {
    wrapped::<T, TI, _>(&p, |a| enter::TraceEnter::<_, TI>::make_from(a), |t| t.clone().to_outer(), |t| TI::to_inner(t.clone()), |u| u.iter().map(|(d, t, r)| (*d, TI::to_inner(t.clone()), *r)).collect(), |_| TRUE, |_| TRUE, true)
}
/// Keys, values and times determine when each update enters.
fn entered_at<T: DTime>(p: Plan, from: &'static str) where Product<T, Sym>: DTime {
    let f = tab("f", 2);
    let at = move |k: Sym, v: Sym| match from { "keys" => look(&f, k), _ => look(&f, v) };
    let (a1, a2) = (at.clone(), at);
    wrapped::<T, Product<T, Sym>, _>(&p, move |a| enter_at::TraceEnter::make_from(a, move |k: &Sym, v: &Sym, t: &T| Product::new(t.clone(), a1(*k, *v)), |t: &Product<T, Sym>| t.outer.clone()),
        |t| t.outer.clone(), |t| Product::to_inner(t.clone()), move |u| u.iter().map(|(d, t, r)| (*d, Product::new(t.clone(), a2(d.0, d.1)), *r)).collect(), |_| TRUE, |_| TRUE, true)
}
/// Times between two frontiers.
fn limited<T: DTime>(p: Plan, widths: (usize, usize)) {
    let (since, until): (Antichain<T>, Antichain<T>) = (anti("since", 1, widths.0, p.hi), anti("until", 0, widths.1, p.hi));
    let (s, u) = (since.clone(), until.clone());
    wrapped::<T, T, _>(&p, |a| frontier::TraceFrontier::make_from(a, s.borrow(), u.borrow()), |t| t.clone(), |t| t.clone(), |u| u.clone(), |q| beyond(&since, q) & !beyond(&until, q), |t| (beyond(&since, t) | B::of(since.len() > 1)) & !beyond(&until, t), false)
}

/// Navigation commands on a cursor over a wrapped trace.
fn roamed<T: DTime, TI: DTime, W>(sizes: &[usize], steps: usize, hi: i64, wrap: impl FnOnce(Agent<T>) -> W, image: impl Fn(&((Sym, Sym), T, Sym)) -> ((Sym, Sym), TI, Sym))
where
    W: TraceReader<Time = TI>, W::Batch: Navigable,
    <W::Batch as Navigable>::Cursor: Cursor<Time = TI, Diff = Sym, Storage = W::Batch>, for<'a> <W::Batch as Navigable>::Cursor: Cursor<Key<'a> = &'a Sym, Val<'a> = &'a Sym>,
{
    let info = OperatorInfo::new(0, 0, [].into());
    let spine: Spine<VB<T>> = Trace::new(info.clone(), None, None);
    let (agent, mut writer) = TraceAgent::new(spine, info, None);
    let mut tr = wrap(agent);
    let mut lower: Antichain<T> = mint();
    let mut log: Vec<Ups<TI>> = vec![];
    for (i, n) in sizes.iter().enumerate() {
        let upper: Antichain<T> = if i + 1 == sizes.len() { Antichain::new() } else { anti(&format!("b{i}"), 1, 1, hi) };
        assume(after(&lower, &upper) & !same(&lower, &upper));
        let ups = canon::<OV<T>>(&format!("{i}"), *n, &lower, &upper, hi, 2);
        writer.insert(OV::<T>::build(vec![ups.clone()], Description::new(lower.clone(), upper.clone(), mint())), Some(T::minimum()));
        log.push(ups.iter().map(&image).collect());
        lower = upper;
    }
    let (mut cursor, storage) = tr.cursor();
    ddverif::nav::navigate::<OrdVal<Sym, Sym, TI>, _>(&mut cursor, &storage, &log, steps);
}
fn roamed_enter(sizes: &'static [usize], steps: usize) { roamed::<Sym, P2, _>(sizes, steps, 2, |a| enter::TraceEnter::<_, P2>::make_from(a), |(d, t, r)| (*d, P2::to_inner(*t), *r)) }
fn roamed_at(sizes: &'static [usize], steps: usize) {
    let f = tab("f", 2);
    let (f1, f2) = (f.clone(), f);
    roamed::<Sym, P2, _>(sizes, steps, 2, move |a| enter_at::TraceEnter::make_from(a, move |_: &Sym, v: &Sym, t: &Sym| P2::new(*t, look(&f1, *v)), |t: &P2| t.outer), move |(d, t, r)| (*d, P2::new(*t, look(&f2, d.1)), *r))
}
fn roamed_limit(sizes: &'static [usize], steps: usize) {
    let since: Antichain<Sym> = anti("since", 1, 1, 2);
    let s = since.clone();
    roamed::<Sym, Sym, _>(sizes, steps, 2, move |a| frontier::TraceFrontier::make_from(a, s.borrow(), Antichain::new().borrow()), move |(d, t, r)| { let s = since.iter().next().unwrap(); (*d, Sym::le(*s, *t).ite(*t, *s), *r) })
}

/// Outputs of a nested scope, each against the accumulation it should have at every time.
type Want<T> = Box<dyn Fn(&Logs, &(Sym, Sym), &T) -> Sym>;
struct Logs { a: Ups<Sym>, b: Ups<Sym> }
struct Tests { inner: Vec<(&'static str, Sink<(Sym, Sym), P2>, Want<P2>)>, outer: Vec<(&'static str, Sink<(Sym, Sym), Sym>, Want<Sym>)> }
fn judge<T: DTime>(list: &[(&'static str, Sink<(Sym, Sym), T>, Want<T>)], logs: &Logs, d: &(Sym, Sym), q: &T, all: bool) {
    for (name, sink, want) in list {
        let when = if all { TRUE } else { sink.done(q) };
        check(when.implies(sink.accum(d, q).is(want(logs, d, q))), &format!("{name}: an accumulation of the output is wrong"));
    }
}
type Pairs<'s, T> = differential_dataflow::VecCollection<'s, T, (Sym, Sym), Sym>;

fn scopes(h: Hist, hb: Hist, build: impl for<'s> FnOnce(timely::dataflow::Scope<'s, Sym>, Pairs<'s, Sym>, Pairs<'s, Sym>, &mut Tests)) {
    let mut w = worker();
    let mut tests = Tests { inner: vec![], outer: vec![] };
    let (mut a, mut b) = Sym::build(&mut w, |scope| {
        let (fa, a) = Feed::<(Sym, Sym), Sym>::new(scope);
        let (fb, b) = Feed::<(Sym, Sym), Sym>::new(scope);
        build(scope, a, b, &mut tests);
        (fa, fb)
    });
    let d = (var("k", 0, h.hi), var("v", 0, h.hi));
    let q = P2::fresh("q", h.hi + 1);
    let last = h.rounds.len() - 1;
    for i in 0..=last {
        round(&mut a, "a", &h, i);
        round(&mut b, "b", &hb, i);
        if i < last {
            match choose("flush", 3) { 0 => { }, 1 => { a.flush() }, _ => { a.flush(); b.flush() } }
            for _ in 0..choose("steps", 2) * 8 { w.step(); }
            let logs = Logs { a: a.log.clone(), b: b.log.clone() };
            judge(&tests.inner, &logs, &d, &q, false);
            judge(&tests.outer, &logs, &d, &q.outer, false);
        }
    }
    a.close();
    b.close();
    finish(&mut w);
    let logs = Logs { a: a.log.clone(), b: b.log.clone() };
    judge(&tests.inner, &logs, &d, &q, true);
    judge(&tests.outer, &logs, &d, &q.outer, true);
    for (name, sink, want) in &tests.inner { witness(name, !want(&logs, &d, &q).is(c(0)) & !sink.accum(&d, &q).is(c(0))); }
    note(|| format!("{:?} {:?} gives {:?}", logs.a, logs.b, tests.inner.iter().map(|x| format!("{} {:?}", x.0, x.1.out.borrow())).collect::<Vec<_>>()));
}

/// The accumulation at `q` of updates that enter at the inner time given by a table.
fn late(log: &Ups<Sym>, f: &[Sym], by: usize, d: &(Sym, Sym), q: &P2) -> Sym { let x = if by == 0 { d.0 } else { d.1 }; Sym::le(look(f, x), q.inner).ite(accum(log, d, &q.outer), c(0)) }

fn collections(h: Hist) {
    let (f, g) = (tab("f", 2), tab("g", 2));
    scopes(h.clone(), h, move |scope, a, b, tests| {
        let (f2, f3) = (f.clone(), f.clone());
        let g2 = g.clone();
        scope.iterative::<Sym, _, _>(|child| {
            let e = a.clone().enter(child);
            let l = a.clone().enter_at(child, move |x: &(Sym, Sym)| look(&f2, x.1));
            tests.inner.push(("enter", Sink::new(e.clone()), Box::new(|l, d, q| accum(&l.a, d, &q.outer))));
            tests.inner.push(("enter_at", Sink::new(l.clone()), Box::new(move |l, d, q| late(&l.a, &f3, 1, d, q))));
            tests.outer.push(("enter, leave", Sink::new(e.clone().leave(scope)), Box::new(|l, d, q| accum(&l.a, d, q))));
            tests.outer.push(("enter_at, leave", Sink::new(l.clone().leave(scope)), Box::new(|l, d, q| accum(&l.a, d, q))));
            let e = b.clone().enter_at(child, move |x| look(&g2, x.1));
            tests.inner.push(("concat", Sink::new(l.concat(e.negate())), { let (f, g) = (f.clone(), g.clone()); Box::new(move |l, d, q| late(&l.a, &f, 1, d, q) - late(&l.b, &g, 1, d, q)) }));
        });
        let twice = scope.iterative::<Sym, _, _>(|child| {
            let e = a.clone().enter(child);
            child.iterative::<Sym, _, _>(|grandchild| e.enter(grandchild).negate().leave(child)).leave(scope)
        });
        tests.outer.push(("enter twice, leave twice", Sink::new(twice), Box::new(|l, d, q| c(0) - accum(&l.a, d, q))));
        let region = scope.region(|child| a.clone().enter_region(child).concat(b.clone().enter_region(child)).leave_region(scope));
        tests.outer.push(("region", Sink::new(region), Box::new(|l, d, q| accum(&l.a, d, q) + accum(&l.b, d, q))));
    })
}

fn arrangements(h: Hist, hb: Hist, what: &'static str) {
    let (f, g) = (tab("f", 2), tab("g", 2));
    scopes(h, hb, move |scope, a, b, tests| {
        let a = a.arrange_by_key();
        scope.iterative::<Sym, _, _>(|child| {
            let (f2, f3) = (f.clone(), f.clone());
            let e = a.clone().enter(child);
            let l = a.clone().enter_at(child, move |_: &Sym, v: &Sym, t: &Sym| Product::new(*t, look(&f2, *v)), |t: &P2| t.outer);
            match what {
                "read" => {
                    tests.inner.push(("arranged enter", Sink::new(e.clone().as_collection(|k, v| (*k, *v))), Box::new(|l, d, q| accum(&l.a, d, &q.outer))));
                    tests.inner.push(("arranged enter_at", Sink::new(l.clone().as_collection(|k, v| (*k, *v))), Box::new(move |l, d, q| late(&l.a, &f3, 1, d, q))));
                    tests.outer.push(("arranged enter, leave", Sink::new(e.as_collection(|k, v| (*k, *v)).leave(scope)), Box::new(|l, d, q| accum(&l.a, d, q))));
                    let r = scope.region(|r| a.clone().enter_region(r).leave_region(scope));
                    tests.outer.push(("arranged region", Sink::new(r.as_collection(|k, v| (*k, *v))), Box::new(|l, d, q| accum(&l.a, d, q))));
                },
                "join" | "join at" => {
                    // Values of `b` enter late.
                    let g2 = g.clone();
                    let b = b.enter_at(child, move |x| look(&g2, x.1)).map(|(k, v)| (k, v)).arrange_by_key();
                    let at = what == "join at";
                    let out = if at { l.join_core(b, |_, v, w| Some((*v, *w))) } else { e.join_core(b, |_, v, w| Some((*v, *w))) };
                    let (f, g) = (f.clone(), g.clone());
                    // Outputs are (value, value), summed over keys.
                    tests.inner.push((what, Sink::new(out), Box::new(move |l, d, q| {
                        let mut sum = c(0);
                        for ((k1, v1), t1, r1) in &l.a { for ((k2, v2), t2, r2) in &l.b {
                            let on = k1.is(*k2) & v1.is(d.0) & v2.is(d.1) & Sym::le(*t1, q.outer) & Sym::le(*t2, q.outer) & Sym::le(look(&g, *v2), q.inner) & if at { Sym::le(look(&f, *v1), q.inner) } else { TRUE };
                            sum = sum + on.ite(*r1 * *r2, c(0));
                        } }
                        sum
                    })));
                },
                _ => {
                    let at = what == "reduce at";
                    let logic = |_: &Sym, input: &[(&Sym, Sym)], out: &mut Vec<(Sym, Sym)>| out.push((*input[0].0, input[0].1));
                    let push = |vec: &mut Vec<((Sym, Sym), P2, Sym)>, key: &Sym, upds: &mut Vec<(Sym, P2, Sym)>| { vec.clear(); for (v, t, r) in upds.drain(..) { vec.push(((*key, v), t, r)) } };
                    let out = if at { l.reduce_abelian::<_, ValBuilder<Sym, Sym, _, _>, ValSpine<Sym, Sym, _, _>, _, _>("R", logic, push).as_collection(|k, v| (*k, *v)) } else { e.reduce_abelian::<_, ValBuilder<Sym, Sym, _, _>, ValSpine<Sym, Sym, _, _>, _, _>("R", logic, push).as_collection(|k, v| (*k, *v)) };
                    let f = f.clone();
                    tests.inner.push((what, Sink::new(out), Box::new(move |l, d, q| {
                        // The least value present at the time, with its count.
                        let here = |v: Sym| { let q = q.clone(); let acc = accum(&l.a, &(d.0, v), &q.outer); if at { Sym::le(look(&f, v), q.inner).ite(acc, c(0)) } else { acc } };
                        let least = B::all(l.a.iter().map(|u| !(u.0.0.is(d.0) & Sym::lt(u.0.1, d.1) & !here(u.0.1).is(c(0)))));
                        least.ite(here(d.1), c(0))
                    })));
                },
            }
        });
    })
}

fn columns(h: Hist) {
    type U = (Sym, Sym, Sym, Sym);
    type UI = (Sym, Sym, P2, Sym);
    let mut w = worker();
    let (mut a, inner, outer) = Sym::build(&mut w, |scope| {
        let (fa, a) = ColFeed::<U>::new(scope);
        let (i, o) = scope.iterative::<Sym, _, _>(|child| { let e = a.clone().enter(child); (ColSink::<UI>::new(e.clone()), e.leave(scope)) });
        (fa, i, ColSink::<U>::new(o))
    });
    let d = (var("k", 0, h.hi), var("v", 0, h.hi));
    let q = P2::fresh("q", h.hi + 1);
    let last = h.rounds.len() - 1;
    for i in 0..=last {
        a.round("a", &h, i);
        if choose("flush", 2) == 1 { a.flush(); steps(&mut w, 4); }
        check(inner.done(&q).implies(accum(inner.out.borrow().iter(), &d, &q).is(accum(&a.log, &d, &q.outer))), "an accumulation of the entered collection is wrong");
        check(outer.done(&q.outer).implies(accum(outer.out.borrow().iter(), &d, &q.outer).is(accum(&a.log, &d, &q.outer))), "an accumulation of the restored collection is wrong");
    }
    a.close();
    finish(&mut w);
    check(accum(inner.out.borrow().iter(), &d, &q).is(accum(&a.log, &d, &q.outer)), "an accumulation of the entered collection is wrong");
    check(accum(outer.out.borrow().iter(), &d, &q.outer).is(accum(&a.log, &d, &q.outer)), "an accumulation of the restored collection is wrong");
    witness("seen", !accum(inner.out.borrow().iter(), &d, &q).is(c(0)));
}

fn main() {
    const EN: &[&str] = &["trace::wrappers::enter::{TraceEnter, BatchEnter, BatchCursorEnter}", "TraceAgent", "TraceBox", "TraceWriter::insert", "Spine"];
    const EA: &[&str] = &["trace::wrappers::enter_at::{TraceEnter, BatchEnter, BatchCursorEnter}", "TraceAgent", "TraceBox", "TraceWriter::insert", "Spine"];
    const EF: &[&str] = &["trace::wrappers::frontier::{TraceFrontier, BatchFrontier, BatchCursorFrontier}", "TraceAgent", "TraceBox", "TraceWriter::insert", "Spine"];
    const EC: &[&str] = &["Collection::{enter,leave,enter_at,enter_region,leave_region}", "containers::{Enter,Leave}"];
    const ER: &[&str] = &["Arranged::{enter,enter_at,enter_region,leave_region,as_collection,join_core,reduce_abelian}", "trace::wrappers::{enter, enter_at}", "join_traces", "reduce_trace"];
    const W: &[&str] = &["seen"];
    let hist = |s: &str, w: &str| format!("{w}; batches of {s} arbitrary updates with arbitrary interval boundaries; after each, any of no compaction, logical compaction to an arbitrary frontier of the wrapper's times, physical compaction, or both; every permitted read after each step; data and times in 0..=3");
    let flow = |s: &str| format!("rounds of {s} arbitrary updates on each input, data in 0..=2, arbitrary entering times in 0..=2; every choice of flushing and stepping between rounds");
    let nv = |s: &str, n: usize| format!("batches of {s} arbitrary updates, then {n} arbitrary commands with arbitrary seek targets; data and times in 0..=2");
    let pl = |sizes, ops| Plan { sizes, ops, widths: (1, 1), hi: HI, fixed: false };
    let fx = |sizes, ops| Plan { sizes, ops, widths: (1, 1), hi: HI, fixed: true };
    let hi = |rounds| Hist { rounds, hi: 2, r: 2, times: Times::Later, free: false };
    let cases = vec![
        Case::new("trace enter", hist("1,1", "integer to product times"), EN, W, move || entered::<Sym, P2>(pl(&[1, 1], &[0, 1, 3]))),
        Case::new("trace enter, two", hist("2,1,0", "integer to product times, keys fixed"), EN, W, move || entered::<Sym, P2>(fx(&[2, 1, 0], &[2, 3]))),
        Case::new("trace enter, wide", hist("1,1", "integer to product times, logical frontiers of up to two elements"), EN, W, move || entered::<Sym, P2>(Plan { widths: (1, 2), ..fx(&[1, 1], &[0, 3]) })),
        Case::new("trace enter, product", hist("1,1", "product to nested product times, boundaries of up to two elements"), EN, W, move || entered::<P2, Product<P2, Sym>>(Plan { widths: (2, 1), ..fx(&[1, 1], &[0, 3]) })),
        Case::new("trace enter_at, by key", hist("1,1", "integer to product times, arbitrary function of keys"), EA, W, move || entered_at::<Sym>(pl(&[1, 1], &[0, 3]), "keys")),
        Case::new("trace enter_at, by value", hist("2,1", "integer to product times, arbitrary function of values"), EA, W, move || entered_at::<Sym>(fx(&[2, 1], &[1, 3]), "values")),
        Case::new("trace frontier", hist("1,1", "arbitrary limits"), EF, W, move || limited::<Sym>(pl(&[1, 1], &[0, 3]), (1, 1))),
        Case::new("trace frontier, two", hist("2,1", "arbitrary limits, keys fixed"), EF, W, move || limited::<Sym>(fx(&[2, 1], &[0, 3]), (1, 1))),
        Case::new("trace frontier, product", hist("1,1", "product times, limits of up to two elements"), EF, W, move || limited::<P2>(fx(&[1, 1], &[0, 3]), (2, 2))),
        Case::new("navigate enter", nv("2,1", 2), EN, &["updates read"], move || roamed_enter(&[2, 1], 2)),
        Case::new("navigate enter, one", nv("3", 3), EN, &["updates read", "value seek", "key seek"], move || roamed_enter(&[3], 3)),
        Case::new("navigate enter_at", nv("3", 3) + "; arbitrary function of values", EA, &["updates read", "value seek", "key seek"], move || roamed_at(&[3], 3)),
        Case::new("navigate frontier", nv("3", 3) + "; an arbitrary lower frontier", EF, &["updates read", "value seek", "key seek"], move || roamed_limit(&[3], 3)),
        Case::new("navigate enter_at, two", nv("2,1", 3) + "; arbitrary function of values", EA, &["updates read"], move || roamed_at(&[2, 1], 3)).thorough(),
        Case::new("navigate frontier, two", nv("2,1", 3) + "; an arbitrary lower frontier", EF, &["updates read"], move || roamed_limit(&[2, 1], 3)).thorough(),
        Case::new("collections", flow("1,1"), EC, &["enter", "enter_at", "concat"], move || collections(hi(&[1, 1]))),
        Case::new("columnar collections", flow("1,1"), EC, W, move || columns(hi(&[1, 1]))),
        Case::new("arrangements", flow("1,1"), ER, &["arranged enter", "arranged enter_at"], move || arrangements(hi(&[1, 1]), hi(&[0, 0]), "read")),
        Case::new("joins", flow("1,1"), ER, &["join"], move || arrangements(hi(&[1, 1]), hi(&[1, 0]), "join")),
        Case::new("joins, at", flow("1,0 and 1,1"), ER, &["join at"], move || arrangements(hi(&[1, 0]), hi(&[0, 1]), "join at")),
        Case::new("reductions", flow("1,1 and none"), ER, &["reduce"], move || arrangements(hi(&[1, 1]), hi(&[0, 0]), "reduce")),
        Case::new("reductions, at", flow("1,1 and none"), ER, &["reduce at"], move || arrangements(hi(&[1, 1]), hi(&[0, 0]), "reduce at")),
        Case::new("trace enter, deep", hist("2,2,1", "integer to product times"), EN, W, move || entered::<Sym, P2>(pl(&[2, 2, 1], &[0, 1, 2, 3]))).thorough(),
        Case::new("trace enter_at, deep", hist("2,2", "integer to product times"), EA, W, move || entered_at::<Sym>(pl(&[2, 2], &[0, 1, 2, 3]), "values")).thorough(),
        Case::new("trace enter_at, product", hist("1,1", "product to nested product times"), EA, W, move || entered_at::<P2>(pl(&[1, 1], &[0, 3]), "keys")),
        Case::new("trace frontier, deep", hist("1,1,1", "product times, limits of up to two elements"), EF, W, move || limited::<P2>(pl(&[1, 1, 1], &[0, 3]), (2, 2))).thorough(),
        Case::new("collections, more", flow("2,1"), EC, &["enter", "enter_at", "concat"], move || collections(hi(&[2, 1]))),
        Case::new("joins, more", flow("1,1,1"), ER, &["join"], move || arrangements(hi(&[1, 1]), hi(&[1, 1]), "join")).thorough(),
        Case::new("joins, at, more", flow("1,1"), ER, &["join at"], move || arrangements(hi(&[1, 1]), hi(&[1, 1]), "join at")).thorough(),
        Case::new("reductions, more", flow("2,1 and none"), ER, &["reduce"], move || arrangements(hi(&[2, 1]), hi(&[0, 0]), "reduce")),
        Case::new("reductions, at, more", flow("2,1 and none"), ER, &["reduce at"], move || arrangements(hi(&[2, 1]), hi(&[0, 0]), "reduce at")).thorough(),
    ];
    runner::run(Prop { id: "E01", title: "scopes", outside: "larger histories; scopes under multiple workers; entering times that depend on the outer time", assumptions: &["the functions that assign entering times refine the outer time"], cases });
}
