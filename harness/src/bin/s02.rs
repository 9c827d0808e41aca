//! Input sessions: every recorded change is delivered once, at its time.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::*;
use differential_dataflow::input::{Input, InputSession};
use timely::dataflow::operators::vec::Input as _;

type Log<R> = Vec<(Sym, Sym, R)>;

#[derive(Clone, Copy, PartialEq)]
enum How { /** `new_collection`. */ Fresh, /** From an existing timely handle. */ FromHandle, /** `InputSession::new` then `to_collection`. */ ToCollection, /** `new_collection_from_raw` with arbitrary initial updates. */ Initial }

#[derive(Clone)]
struct Shape { how: How, ops: usize, hi: i64, r: i64, /** Constant updates recorded first, to approach the session's buffer capacity. */ fill: usize, steps: bool }

fn run(h: Shape) {
    let mut w = worker();
    let initial: Log<Sym> = if h.how == How::Initial { (0..2).map(|i| (var(&format!("id{i}"), 0, h.hi), var(&format!("it{i}"), 0, h.hi), var(&format!("ir{i}"), -h.r, h.r))).collect() } else { vec![] };
    let (how, init2) = (h.how, initial.clone());
    let (mut session, sink): (InputSession<Sym, Sym, Sym>, _) = w.dataflow::<Sym, _, _>(|scope| {
        let (s, coll) = match how {
            How::Fresh => scope.new_collection::<Sym, Sym>(),
            How::FromHandle => { let (h, s) = scope.new_input(); (InputSession::from(h), differential_dataflow::AsCollection::as_collection(s)) }
            How::ToCollection => { let mut s = InputSession::new(); let c = s.to_collection(scope); (s, c) }
            How::Initial => scope.new_collection_from_raw(init2),
        };
        (s, Sink::new(coll))
    });
    let mut log = initial;
    let (d, q) = (var("d", 0, h.hi), var("q", 0, h.hi + 1));
    let mut flushed = c(0);
    for i in 0..h.fill { session.update(c(i as i64 % 3), c(1)); log.push((c(i as i64 % 3), c(0), c(1))); }
    for i in 0..h.ops {
        match choose(&format!("op{i}"), 4) {
            0 => { let (x, r) = (var(&format!("d{i}"), 0, h.hi), var(&format!("r{i}"), -h.r, h.r)); log.push((x, *session.time(), r)); session.update(x, r); }
            1 => { let (x, t, r) = (var(&format!("d{i}"), 0, h.hi), var(&format!("t{i}"), 0, h.hi), var(&format!("r{i}"), -h.r, h.r)); assume(Sym::le(*session.time(), t)); log.push((x, t, r)); session.update_at(x, t, r); }
            2 => { let t = var(&format!("a{i}"), 0, h.hi); assume(Sym::le(*session.time(), t)); session.advance_to(t); check(session.time().is(t) & session.epoch().is(t), "the session does not report the time it was advanced to"); }
            _ => {
                session.flush();
                flushed = *session.time();
                if h.steps {
                    steps(&mut w, 6);
                    // Once flushed and run, everything before the session's time is complete, and nothing at or after it is.
                    check(sink.done(&q).implies(Sym::lt(q, flushed)) & Sym::lt(q, flushed).implies(sink.done(&q)), "the frontier is not the time of the flushed session");
                    check(Sym::lt(q, flushed).implies(sink.accum(&d, &q).is(accum(&log, &d, &q))), "flushed changes are not those recorded");
                    check(sink.accum(&d, &c(1 << 20)).is(accum(&log, &d, &c(1 << 20))), "flushed changes are not all delivered");
                }
            }
        }
    }
    witness("flushed and advanced", Sym::lt(c(0), flushed));
    witness("recorded before, delivered after an advance", Sym::lt(flushed, *session.time()) & B::any(log.iter().map(|u| Sym::lt(u.1, *session.time()))));
    if choose("close", 2) == 1 { session.close() } else { drop(session) }
    steps(&mut w, 6);
    check(exact(sink.out.borrow().iter(), &d, &q).is(exact(&log, &d, &q)), "the delivered changes are not those recorded");
    check(B::of(sink.frontier().is_empty()), "the closed session still promises changes");
    finish(&mut w);
    note(|| format!("{:?} gives {:?}", log.iter().rev().take(8).collect::<Vec<_>>(), sink.out.borrow().iter().rev().take(8).collect::<Vec<_>>()));
}

/// Insertion and removal of single elements, and initial collections of elements.
fn single(n: usize) {
    let mut w = worker();
    let start: Vec<Sym> = (0..choose("start", 3)).map(|i| var(&format!("s{i}"), 0, 20)).collect();
    let s2 = start.clone();
    let (mut session, sink) = w.dataflow::<Sym, _, _>(|scope| { let (s, coll) = scope.new_collection_from(s2); (s, Sink::new(coll)) });
    let mut log: Log<Sym> = start.into_iter().map(|s| (s, c(0), c(1))).collect();
    let (d, q) = (var("d", 0, 20), var("q", 0, 20));
    for i in 0..n {
        let x = var(&format!("d{i}"), 0, 20);
        match choose(&format!("op{i}"), 3) {
            0 => { session.insert(x); log.push((x, *session.time(), c(1))) }
            1 => { session.remove(x); log.push((x, *session.time(), c(-1))) }
            _ => { let t = var(&format!("a{i}"), 0, 20); assume(Sym::le(*session.time(), t)); session.advance_to(t) }
        }
    }
    witness("an initial element", B::any(log.iter().map(|u| u.1.is(c(0)))));
    witness("a removal", B::any(log.iter().map(|u| u.2.is(c(-1)))));
    drop(session);
    finish(&mut w);
    check(exact(sink.out.borrow().iter(), &d, &q).is(exact(&log, &d, &q)), "the delivered changes are not those recorded");
}

fn main() {
    const E: &[&str] = &["Input::{new_collection,new_collection_from,new_collection_from_raw}", "InputSession::{new,from,to_collection,update,update_at,advance_to,flush,close,drop}"];
    const W: &[&str] = &["flushed and advanced", "recorded before, delivered after an advance"];
    let b = |n: usize| format!("any {n} operations among updates at the session's or any later time, advances to any time and flushes, then close or drop; data 0..=20, times 0..=20, differences -3..=3; an arbitrary query");
    let mut cases = vec![];
    for (how, name) in [(How::Fresh, "new"), (How::FromHandle, "from a handle"), (How::ToCollection, "to a collection"), (How::Initial, "initial updates")] {
        cases.push(Case::new(name, b(6), E, W, move || run(Shape { how, ops: 6, hi: 20, r: 3, fill: 0, steps: true })));
    }
    cases.push(Case::new("buffer", format!("1022 constant updates first, so that the session's buffer of 1024 fills; then {}", b(6)), E, W, move || run(Shape { how: How::Fresh, ops: 6, hi: 20, r: 3, fill: 1022, steps: true })));
    cases.push(Case::new("elements", "any 6 insertions, removals and advances, after 0 to 2 initial elements", E, &["an initial element", "a removal"], || single(6)));
    cases.push(Case::new("new, more", b(8), E, W, move || run(Shape { how: How::Fresh, ops: 8, hi: 20, r: 3, fill: 0, steps: true })).thorough());
    cases.push(Case::new("from a handle, more", b(8), E, W, move || run(Shape { how: How::FromHandle, ops: 8, hi: 20, r: 3, fill: 0, steps: true })).thorough());
    cases.push(Case::new("buffer, more", format!("1023 constant updates first; then {}", b(7)), E, W, move || run(Shape { how: How::Fresh, ops: 7, hi: 20, r: 3, fill: 1023, steps: true })).thorough());
    runner::run(Prop { id: "S02", title: "input sessions", outside: "longer sequences of operations", assumptions: &["the session is advanced, and updated explicitly, only at times it permits (both are asserted by the library)"], cases });
}
