//! Arrangements formed from upserts, against the latest request for each key.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::*;
use differential_dataflow::operators::arrange::upsert::arrange_from_upsert;
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::trace::cursor::Cursor;
use differential_dataflow::trace::{BatchReader, Navigable, TraceReader};
use std::cell::RefCell;
use std::rc::Rc;
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::operators::vec::Input;
use timely::dataflow::channels::pact::Pipeline;
use timely::progress::Antichain;

type Req = (Sym, Option<Sym>, Sym);

/// The value of a request, with "no value" least.
fn rank(v: &Option<Sym>) -> Sym { match v { None => c(-1), Some(v) => *v } }
/// The value of `k` at `q`: that of the latest request, the greatest among those of one time; -1 for none.
fn latest(log: &[Req], k: Sym, q: Sym) -> Sym {
    let (mut t, mut v) = (c(-1), c(-1));
    for (k2, v2, t2) in log {
        let applies = k2.is(k) & Sym::le(*t2, q);
        let wins = applies & (Sym::lt(t, *t2) | (t.is(*t2) & Sym::lt(v, rank(v2))));
        v = wins.ite(rank(v2), v);
        t = wins.ite(*t2, t);
    }
    v
}

#[derive(Clone)]
struct Shape { rounds: &'static [usize], keys: i64, hi: i64, /** Requests carry any time from the session's. */ later: bool, cut: bool, /** Values are at most this. */ vals: i64, /** Requests arrive in order of time. */ ordered: bool }
const FREE: Shape = Shape { rounds: &[], keys: 2, hi: 20, later: false, cut: false, vals: 20, ordered: false };

fn run(h: Shape) {
    let mut w = worker();
    let batches: Rc<RefCell<Vec<Vec<((Sym, Sym), Sym, Sym)>>>> = Rc::default();
    let bounds: Rc<RefCell<Vec<(Antichain<Sym>, Antichain<Sym>)>>> = Rc::default();
    let (mut input, sink, mut trace) = w.dataflow::<Sym, _, _>(|scope| {
        let (input, stream) = scope.new_input::<Req>();
        let arranged = arrange_from_upsert::<ValBuilder<Sym, Sym, _, _>, ValSpine<Sym, Sym, _, _>, Sym, Sym>(stream, "upsert");
        let sink = Sink::new(arranged.clone().as_collection(|k, v| (*k, *v)));
        let (b2, d2) = (batches.clone(), bounds.clone());
        arranged.stream.sink(Pipeline, "batches", move |(input, _)| input.for_each(|_, data| for b in data.iter() {
            let mut c = b.cursor();
            let mut ups = vec![];
            while c.key_valid(b) {
                while c.val_valid(b) { let (k, v) = (*c.key(b), *c.val(b)); c.map_times(b, |t, r| ups.push(((k, v), *t, Sym::c(*r as i64)))); c.step_val(b); }
                c.step_key(b);
            }
            for u in &ups { check(beyond(b.description().lower(), &u.1) & !beyond(b.description().upper(), &u.1), "a batch holds an update outside its interval"); }
            b2.borrow_mut().push(ups);
            d2.borrow_mut().push((b.description().lower().to_owned(), b.description().upper().to_owned()));
        }));
        (input, sink, arranged.trace)
    });
    let mut log: Vec<Req> = vec![];
    let (k, q, v) = (var("k", 0, h.keys), var("q", 0, h.hi), var("v", 0, h.hi));
    let judge = |log: &[Req], all: bool| {
        let when = if all { TRUE } else { sink.done(&q) };
        check(when.implies(sink.accum(&(k, v), &q).is(latest(log, k, q).is(v).ite(c(1), c(0)))), "the arranged collection does not hold exactly the latest value");
        witness("a value replaces another", Sym::le(c(0), latest(log, k, q)) & B::any(log.iter().map(|(k2, v2, t2)| k2.is(k) & !rank(v2).is(latest(log, k, q)) & Sym::lt(*t2, q))));
        witness("a key is cleared", latest(log, k, q).is(c(-1)) & B::any(log.iter().map(|(k2, v2, _)| k2.is(k) & B::of(v2.is_some()))));
    };
    for i in 0..h.rounds.len() {
        for j in 0..h.rounds[i] {
            let key = var(&format!("k{i}.{j}"), 0, h.keys);
            let val = if choose(&format!("set{i}.{j}"), 2) == 1 { Some(var(&format!("v{i}.{j}"), 0, h.vals)) } else { None };
            let time = if h.later { let t = var(&format!("t{i}.{j}"), 0, h.hi); assume(Sym::le(*input.time(), t)); if h.ordered && j > 0 { assume(Sym::le(log[log.len() - 1].2, t)); } t } else { *input.time() };
            log.push((key, val, time));
            input.send((key, val, time));
            // Requests may travel in messages of their own.
            if h.cut && j + 1 < h.rounds[i] && choose("cut", 2) == 1 { input.flush(); w.step(); }
        }
        if i + 1 < h.rounds.len() {
            let next = var(&format!("a{i}"), 0, h.hi);
            assume(Sym::lt(*input.time(), next));
            input.advance_to(next);
            if choose("step", 2) == 1 { steps(&mut w, 6); judge(&log, false); }
        }
    }
    input.close();
    steps(&mut w, 8);
    judge(&log, true);
    // The trace reads the same at the times it has not compacted away, here all.
    trace.set_physical_compaction(Antichain::new().borrow());
    {
        let (mut cur, st) = trace.cursor();
        let mut ups = vec![];
        while cur.key_valid(&st) {
            while cur.val_valid(&st) { let (k, v) = (*cur.key(&st), *cur.val(&st)); cur.map_times(&st, |t, r| ups.push(((k, v), *t, c(*r as i64)))); cur.step_val(&st); }
            cur.step_key(&st);
        }
        check(accum(ups.iter(), &(k, v), &q).is(latest(&log, k, q).is(v).ite(c(1), c(0))), "the trace does not hold exactly the latest value");
    }
    // Every update is a change: none repeat, cancel, or undo one another at their time.
    for b in batches.borrow().iter() { check(canonical(b), "a batch is not sorted and consolidated"); }
    for u in batches.borrow().iter().flatten() {
        let at = |q: Sym| latest(&log, u.0.0, q).is(u.0.1);
        let (a, b) = (at(u.1), at(u.1 - c(1)));
        check((a & !b) | (b & !a), "an update where the value does not change");
    }
    let bounds = bounds.borrow();
    for x in bounds.windows(2) { check(same(&x[0].1, &x[1].0) | after(&x[0].1, &x[1].0), "batches go backward") }
    drop(trace);
    finish(&mut w);
    note(|| format!("{:?} gives {:?}", log, batches.borrow()));
}

fn main() {
    const E: &[&str] = &["arrange_from_upsert", "TraceWriter", "TraceAgent", "ValBuilder", "ValSpine", "CursorList", "Arranged::as_collection"];
    const W: &[&str] = &["a value replaces another", "a key is cleared"];
    let b = |n: &str, t: &str| format!("{n} requests, each setting or clearing any key to any value (0..=20), {t}; the input advances to any later time between rounds, with or without steps; requests of a round in one or several messages");
    let cases = vec![
        Case::new("now", b("rounds of 1, 2, 1", "keys 0..=2, at the session's time"), E, W, || run(Shape { rounds: &[1, 2, 1], keys: 2, hi: 20, later: false, cut: true, ..FREE })),
        Case::new("later", b("rounds of 2, 1", "keys 0..=2, at any time from the session's"), E, W, || run(Shape { rounds: &[2, 1], keys: 2, hi: 20, later: true, cut: true, ..FREE })),
        Case::new("later, quiet", b("rounds of 1, 0, 1", "keys 0..=1, at any time from the session's"), E, W, || run(Shape { rounds: &[1, 0, 1], keys: 1, hi: 6, later: true, ..FREE })),
        Case::new("one key, many", b("four", "one key, at any times from the session's, in order, values 0..=1"), E, W, || run(Shape { rounds: &[4], keys: 0, hi: 8, later: true, vals: 1, ordered: true, ..FREE })),
        Case::new("one key, many in two", b("rounds of 3, 1", "one key, at any times from the session's, in order, values 0..=1"), E, W, || run(Shape { rounds: &[3, 1], keys: 0, hi: 8, later: true, vals: 1, ordered: true, ..FREE })),
        Case::new("one key, five", b("five", "one key, at any times from the session's, in order, values 0..=1"), E, W, || run(Shape { rounds: &[5], keys: 0, hi: 8, later: true, vals: 1, ordered: true, ..FREE })),
        Case::new("one key", b("rounds of 2, 2", "one key, at any time from the session's"), E, W, || run(Shape { rounds: &[2, 2], keys: 0, hi: 20, later: true, cut: true, ..FREE })).thorough(),
        Case::new("one key, more rounds", b("rounds of 1, 1, 1, 1", "one key, at any time from the session's"), E, W, || run(Shape { rounds: &[1, 1, 1, 1], keys: 0, hi: 20, later: true, cut: false, ..FREE })).thorough(),
        Case::new("now, more", b("rounds of 2, 2, 1", "keys 0..=2, at the session's time"), E, W, || run(Shape { rounds: &[2, 2, 1], keys: 2, hi: 20, later: false, cut: false, ..FREE })).thorough(),
        Case::new("later, more", b("rounds of 2, 1, 1", "keys 0..=1, at any time from the session's"), E, W, || run(Shape { rounds: &[2, 1, 1], keys: 1, hi: 20, later: true, cut: false, ..FREE })).thorough(),
    ];
    runner::run(Prop { id: "P01", title: "upsert", outside: "longer sequences of requests; one worker; partially ordered times, for which the operator is not offered", assumptions: &["requests of one key and time resolve to the greatest, as documented"], cases });
}
