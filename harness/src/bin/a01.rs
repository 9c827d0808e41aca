//! Shared arrangements: formation, several readers of one trace, and imports into other dataflows.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::operators::arrange::{Arranged, ShutdownButton, TraceAgent};
use differential_dataflow::operators::{CountTotal, ThresholdTotal};
use differential_dataflow::trace::cursor::Cursor;
use differential_dataflow::trace::implementations::spine_fueled::Spine;
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::trace::{BatchReader, Description, Navigable, Trace, TraceReader};
use std::cell::RefCell;
use std::rc::Rc;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::generic::{Operator, OperatorInfo};
use timely::dataflow::operators::probe::{Handle, Probe};
use timely::dataflow::operators::CapabilitySet;
use timely::progress::frontier::AntichainRef;
use timely::progress::{Antichain, Timestamp};

const HI: i64 = 3;

type OV<T> = OrdVal<Sym, Sym, T>;
type VB<T> = <OV<T> as Kind>::B;
type Sp<T> = ValSpine<Sym, Sym, T, Sym>;
type KV = (Sym, Sym);
type Ups<T> = Vec<(KV, T, Sym)>;
fn iff(a: B, b: B) -> B { a.implies(b) & b.implies(a) }
fn mint<T: Timestamp>() -> Antichain<T> { Antichain::from_elem(T::minimum()) }

fn read<C: Cursor<Diff = Sym>>(mut c: C, s: &C::Storage) -> Ups<C::Time> where for<'a> C: Cursor<Key<'a> = &'a Sym, Val<'a> = &'a Sym> {
    let mut out = vec![];
    while c.key_valid(s) {
        while c.val_valid(s) {
            let d = (*c.key(s), *c.val(s));
            c.map_times(s, |t, r| out.push((d, C::owned_time(t), C::owned_diff(r))));
            c.step_val(s);
        }
        c.step_key(s);
    }
    out
}

/// A trace that records the compaction asked of it.
struct Recorder<T: DTime> { spine: Spine<VB<T>>, asked: Rc<RefCell<(Antichain<T>, Antichain<T>)>> }
impl<T: DTime> TraceReader for Recorder<T> {
    type Batch = VB<T>;
    type Time = T;
    fn set_logical_compaction(&mut self, f: AntichainRef<'_, T>) { self.asked.borrow_mut().0 = f.to_owned(); self.spine.set_logical_compaction(f) }
    fn get_logical_compaction(&mut self) -> AntichainRef<'_, T> { self.spine.get_logical_compaction() }
    fn set_physical_compaction(&mut self, f: AntichainRef<'_, T>) { self.asked.borrow_mut().1 = f.to_owned(); self.spine.set_physical_compaction(f) }
    fn get_physical_compaction(&mut self) -> AntichainRef<'_, T> { self.spine.get_physical_compaction() }
    fn map_batches<F: FnMut(&VB<T>)>(&self, f: F) { self.spine.map_batches(f) }
    fn batches_through(&mut self, u: AntichainRef<'_, T>) -> Option<Vec<VB<T>>> { self.spine.batches_through(u) }
}
impl<T: DTime> Trace for Recorder<T> {
    fn new(info: OperatorInfo, logging: Option<differential_dataflow::logging::Logger>, activator: Option<timely::scheduling::activate::Activator>) -> Self { Recorder { spine: Trace::new(info, logging, activator), asked: Rc::new(RefCell::new((mint(), mint()))) } }
    fn exert(&mut self) { self.spine.exert() }
    fn set_exert_logic(&mut self, l: differential_dataflow::trace::ExertionLogic) { self.spine.set_exert_logic(l) }
    fn insert(&mut self, b: VB<T>) { self.spine.insert(b) }
    fn close(&mut self) { self.spine.close() }
}

struct Held<T: DTime> { agent: TraceAgent<Recorder<T>>, logical: Vec<Antichain<T>>, physical: usize }
#[derive(Clone)]
struct Plan { sizes: &'static [usize], /** Actions after each insertion. */ acts: &'static [usize], ops: &'static [&'static str], width: usize, max: usize, fixed: bool }

/// Several readers of one trace.
fn readers<T: DTime>(p: Plan) {
    let info = OperatorInfo::new(0, 0, [].into());
    let trace: Recorder<T> = Trace::new(info.clone(), None, None);
    let asked = trace.asked.clone();
    let (agent, writer) = TraceAgent::new(trace, info, None);
    let mut writer = Some(writer);
    let mut held = vec![Held { agent, logical: vec![mint()], physical: 0 }];
    let d = if p.fixed { (c(0), c(0)) } else { (var("k", 0, HI), var("v", 0, HI)) };
    let q = T::fresh("q", HI);
    let may = |h: &Held<T>| B::all(h.logical.iter().map(|f| beyond(f, &q)));
    let mut bounds: Vec<Antichain<T>> = vec![mint()];
    let mut log: Vec<Ups<T>> = vec![];
    for (i, n) in p.sizes.iter().enumerate() {
        let lower = bounds[i].clone();
        let upper: Antichain<T> = anti(&format!("b{i}"), 1, 1, HI + 1);
        assume(after(&lower, &upper) & !same(&lower, &upper));
        let mut ups = canon::<OV<T>>(&format!("{i}"), *n, &lower, &upper, HI, 2);
        if p.fixed { for (j, u) in ups.iter_mut().enumerate() { let k = (c(j as i64 / 2), c(j as i64 % 2)); assume(u.0.0.is(k.0) & u.0.1.is(k.1)); u.0 = k; } }
        writer.as_mut().unwrap().insert(OV::<T>::build(vec![ups.clone()], Description::new(lower, upper.clone(), mint())), Some(T::minimum()));
        log.push(ups);
        bounds.push(upper);
        for a in 0..p.acts[i] {
            let at = choose(&format!("who{i}.{a}"), held.len());
            match p.ops[choose(&format!("op{i}.{a}"), p.ops.len())] {
                "clone" if held.len() < p.max => { let h = Held { agent: held[at].agent.clone(), logical: held[at].logical.clone(), physical: held[at].physical }; held.push(h); reached("cloned") }
                "drop" if held.len() > 1 => { held.remove(at); reached("dropped") }
                "logical" => { let f: Antichain<T> = anti(&format!("f{i}.{a}"), 1, p.width, HI); held[at].agent.set_logical_compaction(f.borrow()); held[at].logical.push(f); }
                "physical" => { let j = choose(&format!("to{i}.{a}"), i + 2); held[at].agent.set_physical_compaction(bounds[j].borrow()); held[at].physical = held[at].physical.max(j); }
                "both" => { held[at].agent.set_physical_compaction(bounds[i + 1].borrow()); held[at].physical = i + 1; let f: Antichain<T> = anti(&format!("f{i}.{a}"), 1, p.width, HI); held[at].agent.set_logical_compaction(f.borrow()); held[at].logical.push(f); }
                "exert" => writer.as_mut().unwrap().exert(),
                "release" if held.len() > 1 => { held[at].agent.set_logical_compaction(Antichain::new().borrow()); held[at].logical.push(Antichain::new()); reached("released") }
                _ => { }
            }
            // The trace is asked for exactly what its readers permit.
            let (l, ph) = asked.borrow().clone();
            check(iff(beyond(&l, &q), B::any(held.iter().map(|h| may(h)))), "the trace's logical compaction is not the combination of its readers'");
            check(same(&ph, &bounds[held.iter().map(|h| h.physical).min().unwrap()]), "the trace's physical compaction is not the least of its readers'");
        }
        for (x, h) in held.iter_mut().enumerate() {
            let reported = h.agent.get_logical_compaction().to_owned();
            check(iff(beyond(&reported, &q), B::all(h.logical.iter().map(|f| beyond(f, &q)))), "a reader's reported compaction is not what it asked for");
            check(same(&h.agent.get_physical_compaction().to_owned(), &bounds[h.physical]), "a reader's reported physical compaction is not what it asked for");
            if h.logical.iter().any(|f| f.is_empty()) { continue }
            for j in h.physical..=i + 1 {
                let (cursor, storage) = match h.agent.cursor_through(bounds[j].borrow()) { Some(x) => x, None => fail("a permitted read was refused") };
                let seen = read(cursor, &storage);
                let expect: Ups<T> = log[..j].iter().flatten().cloned().collect();
                let may = B::all(h.logical.iter().map(|f| beyond(f, &q)));
                note(|| format!("reader {x} through {:?}: {:?} of {:?}", bounds[j], seen, expect));
                check(may.implies(accum(&expect, &d, &q).is(accum(&seen, &d, &q))), "an accumulation read by a reader is wrong");
                if seen.len() < expect.len() { reached("fewer"); }
            }
        }
    }
    // The writer's departure seals the trace.
    drop(writer.take());
    for h in held.iter_mut() {
        if h.logical.iter().any(|f| f.is_empty()) { continue }
        let mut u = Antichain::new();
        h.agent.read_upper(&mut u);
        check(B::of(u.is_empty()), "the trace is not sealed when its writer departs");
        let (cursor, storage) = match h.agent.cursor_through(Antichain::new().borrow()) { Some(x) => x, None => fail("a permitted read was refused") };
        let seen = read(cursor, &storage);
        let may = B::all(h.logical.iter().map(|f| beyond(f, &q)));
        check(may.implies(accum(log.iter().flatten(), &d, &q).is(accum(&seen, &d, &q))), "an accumulation read after the writer departs is wrong");
    }
}

/// Batches formed from a stream, their trace, and the stream they go out on.
fn formed<T: Fed>(h: Hist, two: bool, merge: bool) {
    let mut w = worker();
    let (mut a, mut b, mut trace, sink, input, sent) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope);
        let coll = if two { a.concat(b) } else { a };
        let input: Handle<T> = coll.clone().probe().0;
        let arranged = coll.arrange_by_key();
        let sent: Rc<RefCell<Vec<(Antichain<T>, Antichain<T>)>>> = Rc::default();
        let s2 = sent.clone();
        arranged.clone().stream.sink(Pipeline, "batches", move |(input, _)| input.for_each(|cap, data| for b in data.iter() {
            for u in read(b.cursor(), b) {
                check(cap.time().s_le(&u.1), "a batch is sent at a time not before its updates");
                check(beyond(b.lower(), &u.1) & !beyond(b.upper(), &u.1), "a batch holds an update outside its interval");
            }
            if let Some((_, u)) = s2.borrow().last() { check(after(u, b.lower()), "batches are sent out of order"); reached("several batches") }
            s2.borrow_mut().push((b.lower().clone(), b.upper().clone()));
        }));
        let sink = Sink::new(arranged.clone().as_collection(|k, v| (*k, *v)));
        (fa, fb, arranged.trace, sink, input, sent)
    });
    if !two { b.close(); }
    let (d, q) = (<KV as Datum>::fresh("", h.hi), T::fresh("q", h.hi));
    let last = h.rounds.len() - 1;
    let judge = |log: &Ups<T>, trace: &mut TraceAgent<Sp<T>>| {
        let mut upper = Antichain::new();
        trace.read_upper(&mut upper);
        let frontier = input.with_frontier(|f: AntichainRef<T>| f.to_vec());
        check(after(&upper, &frontier), "the trace is ahead of its input");
        let (cursor, storage) = trace.cursor();
        let seen = read(cursor, &storage);
        note(|| format!("{:?} as {:?} with the trace through {:?} and the input at {:?}", log, seen, upper, frontier));
        check((!beyond(&upper, &q)).implies(accum(log, &d, &q).is(accum(&seen, &d, &q))), "the trace's contents are not those of its input");
        check(sink.done(&q).implies(accum(log, &d, &q).is(sink.accum(&d, &q))), "the batches sent are not the changes of the input");
        for u in seen.iter() { check(!beyond(&upper, &u.1), "the trace holds an update at a time beyond its upper frontier") }
        if upper.len() > 1 { reached("wide") }
        (upper, frontier)
    };
    for i in 0..=last {
        round(&mut a, "a", &h, i);
        if two { round(&mut b, "b", &h, i); }
        if i < last {
            if choose("flush", 2) == 1 { a.flush() }
            if two && choose("flush b", 2) == 1 { b.flush() }
            steps(&mut w, 6);
            let log = a.log.iter().chain(b.log.iter()).cloned().collect();
            let (upper, frontier) = judge(&log, &mut trace);
            check(same(&upper, &frontier), "the trace lags its input");
            if merge && choose("compact", 2) == 1 { trace.set_physical_compaction(upper.borrow()) }
        }
    }
    a.close();
    b.close();
    finish(&mut w);
    let log = a.log.iter().chain(b.log.iter()).cloned().collect();
    judge(&log, &mut trace);
    check(sink.accum(&d, &q).is(accum(&log, &d, &q)), "the batches sent are not the changes of the input");
    let at: Vec<_> = sent.borrow().clone();
    if at.len() > 1 { reached("several batches") }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How { Plain, Button, Frontier, Between, Joined }

/// An arrangement imported into another dataflow during its life.
fn imported<T: Fed>(h: Hist, how: How, widths: (usize, usize), both: bool, fixed: usize) {
    let mut w = worker();
    let (mut a, trace, source) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope);
        let arranged = a.arrange_by_key();
        let (probe, _) = arranged.stream.clone().probe();
        (fa, arranged.trace, probe)
    });
    let mut own: Option<TraceAgent<Sp<T>>> = Some(trace);
    let (d, q) = (if fixed > 0 { (c(0), c(0)) } else { <KV as Datum>::fresh("", h.hi) }, T::fresh("q", h.hi + 1));
    let mut since: Vec<Antichain<T>> = vec![mint()];
    let mut until: Antichain<T> = Antichain::new();
    let mut sinks: Vec<(Sink<KV, T>, Option<ShutdownButton<CapabilitySet<T>>>, usize)> = vec![];
    let mut other: Option<Feed<KV, T>> = None;
    let n = h.rounds.len();
    let seen_wrong = "the imported stream does not accumulate to the original";
    for i in 0..n {
        let l = a.log.len();
        round(&mut a, "a", &h, i);
        for u in &a.log[l..] { if fixed > 0 { assume(u.0.0.is(c(0)) & u.0.1.is(c(0))) } }
        if choose("flush", 2) == 1 { a.flush(); }
        steps(&mut w, 5);
        if let Some(t) = own.as_mut() {
            if sinks.is_empty() && choose("compact", 2) == 1 { let f: Antichain<T> = anti(&format!("f{i}"), 1, widths.0, h.hi); t.set_logical_compaction(f.borrow()); since.push(f); }
            if choose("physical", 2) == 1 { let mut u = Antichain::new(); t.read_upper(&mut u); t.set_physical_compaction(u.borrow()); }
            if (sinks.is_empty() || both && sinks.len() < 2) && (i + 1 == n && sinks.is_empty() || choose("import", 2) == 1) {
                if !a.log.is_empty() { reached("history") }
                match how {
                    How::Plain => sinks.push((T::build(&mut w, |s| Sink::new(t.import(s).as_collection(|k, v| (*k, *v)))), None, 0)),
                    How::Button => { let (s, b) = T::build(&mut w, |s| { let (x, b) = t.import_core(s, "import"); (Sink::new(x.as_collection(|k, v| (*k, *v))), b) }); sinks.push((s, Some(b), 0)); },
                    How::Frontier => { let (s, b) = T::build(&mut w, |s| { let (x, b) = t.import_frontier(s, "import"); (Sink::new(x.as_collection(|k, v| (*k, *v))), b) }); std::mem::forget(b); sinks.push((s, None, 0)); },
                    How::Between => {
                        let lo: Antichain<T> = anti("since", 1, widths.0, h.hi);
                        until = anti("until", 0, widths.1, h.hi);
                        let (u2, lo2) = (until.clone(), lo.clone());
                        let (s, _) = T::build(&mut w, |s| { let (x, b) = t.import_frontier_core(s, "import", lo2, u2); (Sink::new(x.as_collection(|k, v| (*k, *v))), b) });
                        since.push(lo);
                        sinks.push((s, None, 0));
                    },
                    How::Joined => {
                        let lo: Antichain<T> = anti("since", 1, widths.0, h.hi);
                        until = anti("until", 0, widths.1, h.hi);
                        let (u2, lo2) = (until.clone(), lo.clone());
                        let (s, f) = T::build(&mut w, |s| {
                            let (f, b) = Feed::<KV, T>::new(s.clone());
                            let (x, _) = t.import_frontier_core(s, "import", lo2, u2);
                            (Sink::new(x.join_core(b.arrange_by_key(), |_, v, w| Some((*v, *w)))), f)
                        });
                        since.push(lo);
                        other = Some(f);
                        sinks.push((s, None, 0));
                    },
                }
            }
            if choose("drop", 2) == 1 && !sinks.is_empty() { own = None; }
        }
        if let Some(f) = other.as_mut() { let t = if fixed > 1 { T::tick(i as i64) } else { T::fresh(&format!("o{i}"), h.hi) }; f.push((c(0), c(1)), t, var(&format!("or{i}"), 1, 2)); if i + 1 == n { f.flush() } }
        steps(&mut w, 5);
        let source = source.with_frontier(|f: AntichainRef<T>| f.to_vec());
        for (s, button, len) in sinks.iter_mut() {
            if how != How::Joined {
                let on = s.done(&q) & B::all(since.iter().map(|f| beyond(f, &q))) & !beyond(&until, &q);
                if button.is_some() || *len == 0 { check(on.implies(accum(&a.log, &d, &q).is(s.accum(&d, &q))), seen_wrong); witness("read", on & !s.accum(&d, &q).is(c(0))); }
                if *len == 0 {
                    if until.is_empty() { check(same(&s.frontier(), &source), "the imported stream's frontier is not the original's"); }
                    else { let f = s.frontier(); if f.is_empty() { check(after(&until, &source), "the imported stream is complete before the original has passed its end") } else { check(same(&f, &source), "the imported stream's frontier is not the original's") } check((after(&until, &source) & !same(&source, &mint())).implies(B::of(f.is_empty())), "the imported stream is not complete once the original has passed its end"); }
                }
            }
            if how != How::Joined { for (_, t, _) in s.out.borrow().iter() { check(!beyond(&until, t), "the imported stream holds an update at a time excluded"); } }
            if *len == 0 && button.is_some() && choose("press", 2) == 1 {
                button.as_mut().unwrap().press();
                *len = s.out.borrow().len() + 1;
                *button = None;
                reached("pressed");
            }
        }
        steps(&mut w, 3);
        for (s, _, len) in sinks.iter() { if *len > 0 {
            check(B::of(s.out.borrow().len() + 1 == *len), "an import produced updates after its shutdown");
            check(B::of(s.frontier().is_empty()), "an import is not complete after its shutdown");
        } }
    }
    drop(own);
    a.close();
    if let Some(f) = other.as_mut() { f.close() }
    finish(&mut w);
    let on = B::all(since.iter().map(|f| beyond(f, &q))) & !beyond(&until, &q);
    for (s, _, len) in sinks.iter() {
        note(|| format!("{:?} imported since {:?} until {:?} as {:?}", a.log, since, until, s.out.borrow()));
        if *len > 0 { continue }
        if how == How::Joined {
            let b = &other.as_ref().unwrap().log;
            let v = var("joined", 0, h.hi);
            let mut want = c(0);
            for (x, t, r) in &a.log { for (y, u, s) in b { want = want + (x.0.is(y.0) & x.1.is(v) & t.s_le(&q) & u.s_le(&q)).ite(*r * *s, c(0)); } }
            check(on.implies(s.accum(&(v, c(1)), &q).is(want)), "the join of the imported arrangement is not the product of the accumulated inputs");
            witness("read", on & !want.is(c(0)));
        } else {
            check(on.implies(s.accum(&d, &q).is(accum(&a.log, &d, &q))), seen_wrong);
            witness("read", on & !s.accum(&d, &q).is(c(0)));
        }
    }
}

/// What is computed from an imported arrangement.
#[derive(Clone, Copy, PartialEq)]
enum Op { Reduce, Join, Count, Distinct, Reduced }
fn totals<T: Timestamp + differential_dataflow::lattice::Lattice>(push: &mut Vec<((Sym, Sym), T, Sym)>, key: &Sym, upds: &mut Vec<(Sym, T, Sym)>) { push.clear(); push.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))) }
fn total(_: &Sym, input: &[(&Sym, Sym)], out: &mut Vec<(Sym, Sym)>) { out.push((input[0].1, c(1))) }
type Keyed<'s, T> = Arranged<'s, TraceAgent<Sp<T>>>;
fn summed<'s, T: Fed>(a: Keyed<'s, T>) -> Keyed<'s, T> { a.reduce_abelian::<_, ValBuilder<Sym, Sym, _, _>, ValSpine<Sym, Sym, _, _>, _, _>("Sum", total, totals::<T>) }

/// An operator on an arrangement that is imported during its life, and may have been compacted.
fn operated<T: Fed, Tr, M, U>(h: Hist, op: Op, make: M, using: U)
where
    Tr: TraceReader<Time = T> + 'static,
    M: for<'s> Fn(differential_dataflow::VecCollection<'s, T, KV, Sym>) -> Arranged<'s, TraceAgent<Tr>>,
    U: for<'s> Fn(Arranged<'s, TraceAgent<Tr>>) -> Sink<KV, T>,
{
    let mut w = worker();
    let (mut a, trace) = T::build(&mut w, |scope| { let (fa, a) = Feed::<KV, T>::new(scope); (fa, make(a).trace) });
    let mut own = Some(trace);
    let most = h.r * h.rounds.iter().sum::<usize>() as i64;
    let (k, m, q) = (var("k", 0, h.hi), var("m", -most, most), T::fresh("q", h.hi + 1));
    let mut since: Vec<Antichain<T>> = vec![mint()];
    let mut sink: Option<Sink<KV, T>> = None;
    let n = h.rounds.len();
    let judge = |log: &Ups<T>, sink: &Sink<KV, T>, since: &[Antichain<T>], all: bool| {
        let on = B::all(since.iter().map(|f| beyond(f, &q))) & if all { TRUE } else { sink.done(&q) };
        let n = accum(log, &(k, c(0)), &q);
        let (when, d, want) = match op {
            Op::Join => (TRUE, (k, c(0)), n * n),
            Op::Distinct => (Sym::le(c(0), n), (k, c(0)), n.is(c(0)).ite(c(0), c(1))),
            _ => (TRUE, (k, m), (n.is(m) & !n.is(c(0))).ite(c(1), c(0))),
        };
        check((on & when).implies(sink.accum(&d, &q).is(want)), "the operator on the imported arrangement is not that on the accumulated original");
        witness("read", on & when & !want.is(c(0)));
    };
    for i in 0..n {
        let l = a.log.len();
        round(&mut a, "a", &h, i);
        for u in &a.log[l..] { assume(u.0.1.is(c(0))) }
        if choose("flush", 2) == 1 { a.flush(); }
        steps(&mut w, 6);
        if let Some(t) = own.as_mut() {
            match choose("compact", 3) {
                0 => (),
                1 => { let mut u = Antichain::new(); t.read_upper(&mut u); t.set_physical_compaction(u.borrow()); },
                _ => { let mut u = Antichain::new(); t.read_upper(&mut u); t.set_physical_compaction(u.borrow()); let f: Antichain<T> = anti(&format!("f{i}"), 1, 1, h.hi); t.set_logical_compaction(f.borrow()); if sink.is_none() { since.push(f) } },
            }
            if sink.is_none() && (i + 1 == n || choose("import", 2) == 1) {
                if !a.log.is_empty() { reached("history") }
                sink = Some(T::build(&mut w, |s| using(t.import(s))));
            }
            if sink.is_some() && choose("drop", 2) == 1 { own = None; }
        }
        steps(&mut w, 6);
        if let Some(s) = &sink { judge(&a.log, s, &since, false) }
    }
    drop(own);
    a.close();
    finish(&mut w);
    let s = sink.as_ref().unwrap();
    judge(&a.log, s, &since, true);
    check(B::of(s.frontier().is_empty()), "the output is not complete at the end");
    note(|| format!("{:?} since {:?} as {:?}", a.log, since, s.out.borrow()));
}
fn join_sink<T: Fed>(x: Keyed<'_, T>) -> Sink<KV, T> { Sink::new(x.clone().join_core(x, |k, _, _| Some((*k, c(0))))) }
fn sum_sink<T: Fed>(x: Keyed<'_, T>) -> Sink<KV, T> { Sink::new(x.as_vecs::<Sym, Sym>()) }
fn by_op<T: Fed>(h: Hist, op: Op) {
    match op {
        Op::Reduce => operated::<T, _, _, _>(h, op, |a| a.arrange_by_key(), |x| sum_sink(summed(x))),
        Op::Join => operated::<T, _, _, _>(h, op, |a| a.arrange_by_key(), |x| join_sink(x)),
        Op::Reduced => operated::<T, _, _, _>(h, op, |a| summed(a.arrange_by_key()), |x| sum_sink(x)),
        _ => unreachable!(),
    }
}
fn in_total(h: Hist, op: Op) {
    match op {
        Op::Count => operated::<Sym, _, _, _>(h, op, |a| a.map(|(k, _)| k).arrange_by_self(), |x| Sink::new(x.count_total_core::<Sym>().map(|(k, n)| (k, n)))),
        _ => operated::<Sym, _, _, _>(h, op, |a| a.map(|(k, _)| k).arrange_by_self(), |x| Sink::new(x.threshold_total(|_, _| c(1)).map(|k| (k, c(0))))),
    }
}

fn main() {
    const ER: &[&str] = &["TraceAgent::{new,clone,drop,set_logical_compaction,set_physical_compaction,get_logical_compaction,get_physical_compaction,batches_through}", "TraceBox::{adjust_logical_compaction,adjust_physical_compaction}", "TraceWriter::{insert,seal,exert,drop}", "antichain_join_into", "Spine"];
    const EF: &[&str] = &["arrange_core", "MergeBatcher", "TraceWriter::{insert,seal,drop}", "TraceReader::read_upper", "Arranged::as_collection"];
    const EI: &[&str] = &["TraceAgent::{import,import_core,import_frontier,import_frontier_core,new_listener}", "ShutdownButton::press", "TraceFrontier, BatchFrontier", "TraceWriter::{insert,drop}", "arrange_core"];
    const EO: &[&str] = &["TraceAgent::{import,import_core,new_listener}", "join_traces", "reduce_trace", "CountTotal, ThresholdTotal for Arranged", "TraceWriter, Spine"];
    let rd = |s: &str, o: &str| format!("insertions of {s} arbitrary updates with arbitrary interval boundaries; after each, any of {o} on any reader; every permitted read of every reader after each; data and times in 0..=3");
    let fm = |s: &str| format!("rounds of {s} arbitrary updates at arbitrary times on each input, every choice of flushing");
    let im = |s: &str| format!("rounds of {s} arbitrary updates; imported after any round, with or without logical compaction to arbitrary frontiers before, physical compaction, and dropping the reader after");
    let pl = |sizes, acts, ops| Plan { sizes, acts, ops, width: 1, max: 3, fixed: true };
    let hi = |rounds| Hist { rounds, hi: 3, r: 2, times: Times::Later, free: true };
    let lo = |rounds| Hist { rounds, hi: 2, r: 1, times: Times::Later, free: true };
    const O: &[&str] = &["clone", "drop", "logical", "physical"];
    const O2: &[&str] = &["clone", "drop", "logical", "both", "exert", "release"];
    let cases = vec![
        Case::new("readers", rd("1,1,0", "cloning, dropping, or compaction of both kinds; two actions after the first and the second"), ER, &["cloned", "dropped", "fewer"], move || readers::<Sym>(pl(&[1, 1, 0], &[2, 1, 1], &["clone", "drop", "both"]))),
        Case::new("readers, each kind", rd("1,1", "cloning, dropping, logical or physical compaction; two actions"), ER, &["cloned", "dropped"], move || readers::<Sym>(pl(&[1, 1], &[2, 2], O))),
        Case::new("readers, both", rd("1,1", "cloning, dropping, compaction of both kinds, releasing, effort; two actions"), ER, &["cloned", "dropped", "released"], move || readers::<Sym>(pl(&[1, 1], &[2, 2], O2))),
        Case::new("readers, product", rd("1,1", "cloning and logical compaction, to frontiers of product times; two actions"), ER, &["cloned"], move || readers::<P2>(pl(&[1, 1], &[2, 1], &["clone", "logical", "both"]))),
        Case::new("formed", fm("1,1"), EF, &["several batches"], move || formed::<Sym>(hi(&[1, 1]), false, true)),
        Case::new("formed, two inputs", fm("1,0"), EF, &[], move || formed::<Sym>(lo(&[1, 0]), true, false)),
        Case::new("formed, product", fm("1,0"), EF, &["wide"], move || formed::<P2>(lo(&[1, 0]), true, false)),
        Case::new("formed, product, one input", fm("1,1"), EF, &[], move || formed::<P2>(lo(&[1, 1]), false, false)),
        Case::new("imported", im("1,1"), EI, &["history", "read"], move || imported::<Sym>(hi(&[1, 1]), How::Plain, (1, 1), false, 0)),
        Case::new("imported twice", im("1,1"), EI, &["history", "read"], move || imported::<Sym>(hi(&[1, 1]), How::Plain, (1, 1), true, 1)),
        Case::new("imported, shut down", im("1,1") + "; shut down after any step", EI, &["history", "read", "pressed"], move || imported::<Sym>(hi(&[1, 1]), How::Button, (1, 1), false, 1)),
        Case::new("imported at its frontier", im("1,1"), EI, &["history", "read"], move || imported::<Sym>(hi(&[1, 1]), How::Frontier, (1, 1), false, 1)),
        Case::new("imported in an interval", im("1,1") + "; an arbitrary interval of times", EI, &["history", "read"], move || imported::<Sym>(hi(&[1, 1]), How::Between, (1, 1), false, 1)),
        Case::new("imported in an interval, joined", im("1,1") + "; an arbitrary interval of times", EI, &["history", "read"], move || imported::<Sym>(Hist { free: false, ..lo(&[1, 1]) }, How::Joined, (1, 1), false, 2)),
        Case::new("imported, product", im("1,1"), EI, &["history", "read"], move || imported::<P2>(Hist { free: false, ..lo(&[1, 1]) }, How::Plain, (1, 1), false, 1)),
        Case::new("reduce imported", im("1,1"), EO, &["history", "read"], move || by_op::<Sym>(lo(&[1, 1]), Op::Reduce)),
        Case::new("join imported", im("1,1"), EO, &["history", "read"], move || by_op::<Sym>(lo(&[1, 1]), Op::Join)),
        Case::new("import reduced", im("1,1"), EO, &["history", "read"], move || by_op::<Sym>(lo(&[1, 1]), Op::Reduced)),
        Case::new("count imported", im("1,1"), EO, &["history", "read"], move || in_total(lo(&[1, 1]), Op::Count)),
        Case::new("distinct imported", im("1,1"), EO, &["history", "read"], move || in_total(lo(&[1, 1]), Op::Distinct)),
        Case::new("reduce imported, product", im("1,0"), EO, &["history", "read"], move || by_op::<P2>(lo(&[1, 0]), Op::Reduce)),
        Case::new("import reduced, product", im("1,0"), EO, &["history", "read"], move || by_op::<P2>(lo(&[1, 0]), Op::Reduced)),
        Case::new("join imported, product", im("1,0"), EO, &["history", "read"], move || by_op::<P2>(lo(&[1, 0]), Op::Join)),
        Case::new("reduce imported, more", im("1,1,1"), EO, &["history", "read"], move || by_op::<Sym>(Hist { free: false, ..lo(&[1, 1, 1]) }, Op::Reduce)).thorough(),
        Case::new("join imported, more", im("1,1,1"), EO, &["history", "read"], move || by_op::<Sym>(Hist { free: false, ..lo(&[1, 1, 1]) }, Op::Join)).thorough(),
        Case::new("import reduced, more", im("1,1,1"), EO, &["history", "read"], move || by_op::<Sym>(Hist { free: false, ..lo(&[1, 1, 1]) }, Op::Reduced)).thorough(),
        Case::new("count imported, more", im("1,1,1"), EO, &["history", "read"], move || in_total(Hist { free: false, ..lo(&[1, 1, 1]) }, Op::Count)).thorough(),
        Case::new("reduce imported, product, more", im("1,1"), EO, &["history", "read"], move || by_op::<P2>(lo(&[1, 1]), Op::Reduce)).thorough(),
        Case::new("join imported, product, more", im("1,1"), EO, &["history", "read"], move || by_op::<P2>(lo(&[1, 1]), Op::Join)).thorough(),
        Case::new("imported, product, more", im("1,1"), EI, &["history", "read"], move || imported::<P2>(lo(&[1, 1]), How::Plain, (1, 1), false, 1)).thorough(),
        Case::new("imported in an interval, joined, more", im("1,1") + "; an arbitrary interval of times", EI, &["history", "read"], move || imported::<Sym>(lo(&[1, 1]), How::Joined, (1, 1), false, 1)).thorough(),
        Case::new("imported in an interval, product", im("1,1"), EI, &["history", "read"], move || imported::<P2>(lo(&[1, 1]), How::Between, (1, 2), false, 1)).thorough(),
        Case::new("readers, three", rd("1,1,1", "cloning, dropping, logical or physical compaction; two actions"), ER, &["cloned", "dropped", "fewer"], move || readers::<Sym>(pl(&[1, 1, 1], &[2, 2, 1], O))).thorough(),
        Case::new("readers, arbitrary data", rd("1,1", "cloning, dropping, compaction of both kinds; three actions"), ER, &["cloned", "dropped", "fewer"], move || readers::<Sym>(Plan { fixed: false, ..pl(&[1, 1, 0], &[3, 3, 1], O) })).thorough(),
        Case::new("readers, product, wide", rd("1,1", "cloning and logical compaction, to frontiers of up to two product times"), ER, &["cloned"], move || readers::<P2>(Plan { width: 2, ..pl(&[1, 1], &[2, 2], O2) })).thorough(),
        Case::new("formed, product, more", fm("1,1"), EF, &["wide"], move || formed::<P2>(lo(&[1, 1]), true, true)).thorough(),
        Case::new("formed, two inputs, more", fm("1,1"), EF, &[], move || formed::<Sym>(lo(&[1, 1]), true, false)).thorough(),
        Case::new("formed, more", fm("2,1,1"), EF, &[], move || formed::<Sym>(hi(&[2, 1, 1]), false, true)).thorough(),
        Case::new("imported, more", im("1,1,1"), EI, &["history", "read"], move || imported::<Sym>(hi(&[1, 1, 1]), How::Plain, (1, 1), true, 1)).thorough(),
        Case::new("imported, shut down, more", im("1,1,1"), EI, &["history", "read", "pressed"], move || imported::<Sym>(hi(&[1, 1, 1]), How::Button, (1, 1), true, 1)).thorough(),
        Case::new("imported in an interval, more", im("1,1,1"), EI, &["history", "read"], move || imported::<Sym>(hi(&[1, 1, 1]), How::Between, (1, 1), false, 1)).thorough(),
    ];
    runner::run(Prop { id: "A01", title: "shared arrangements", outside: "longer histories and more readers; imports under multiple workers", assumptions: &["readers ask only for what their own compaction frontiers permit"], cases });
}
