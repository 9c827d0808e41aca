//! Captured streams, and what is recovered from their messages in any order and with any repetition.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::sym::hash_by;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::capture::iterator::Iter;
use differential_dataflow::capture::{sink, source, Message, Progress, Writer};
use differential_dataflow::{AsCollection, VecCollection};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;
use timely::dataflow::Scope;
use timely::progress::Antichain;
use timely::worker::Worker;

type Up<T> = (Sym, T, Sym);
type Msg<T> = Message<Sym, T, Sym>;

/// Times that can be captured, and dataflows over them.
trait Told: Fed + std::hash::Hash { fn flow<R>(w: &mut Worker, f: impl for<'s> FnOnce(Scope<'s, Self>) -> R) -> R { Self::build(w, f) } }
impl Told for Sym { }
impl Told for P2 { }

/// What has been learned: the statements known, and which updates.
struct Known<T: Told> { all: Vec<Up<T>>, got: Vec<bool>, told: Vec<Progress<T>> }
impl<T: Told> Known<T> {
    fn new(all: &[Up<T>]) -> Self { Known { all: all.to_vec(), got: vec![false; all.len()], told: vec![] } }
    fn learn(&mut self, m: &Msg<T>) {
        match m {
            Message::Updates(us) => for u in us { for (i, v) in self.all.iter().enumerate() { if v.0.same(&u.0) { self.got[i] = true } } },
            Message::Progress(p) => self.told.push(p.clone()),
        }
    }
    /// Times not at or beyond the result are covered by statements known, starting from the least time.
    fn covered(&self) -> Vec<T> {
        let mut at = vec![T::minimum()];
        for _ in 0..self.told.len() { for p in &self.told { if after(&p.lower, &at).decide() {
            at = p.upper.iter().flat_map(|x| at.iter().map(|y| x.join(y)).collect::<Vec<_>>()).collect();
        } } }
        at
    }
    /// Whether `q` is at or beyond a time that may yet see updates.
    fn open(&self, covered: &[T], q: &T) -> B {
        beyond(covered, q) | B::any(self.all.iter().zip(&self.got).filter(|(_, g)| !**g).map(|(u, _)| u.1.s_le(q)))
    }
}

/// Delivers messages in order, comparing what has been reported with what is known.
struct Source<T: Told> { plan: std::collections::VecDeque<Msg<T>>, known: Rc<RefCell<Known<T>>>, reported: Rc<RefCell<Vec<T>>>, q: T }
impl<T: Told> Source<T> {
    fn judge(&self) {
        let k = self.known.borrow();
        let cov = k.covered();
        check(beyond(&self.reported.borrow(), &self.q).iff(k.open(&cov, &self.q)), "the frontier reported is not the one the messages justify");
    }
}
impl<T: Told> Iterator for Source<T> {
    type Item = Msg<T>;
    fn next(&mut self) -> Option<Msg<T>> {
        self.judge();
        let m = self.plan.pop_front()?;
        self.known.borrow_mut().learn(&m);
        Some(m)
    }
}

/// A stream of updates with distinct data, and the statements about it.
#[derive(Clone, Copy)]
struct Shape { updates: usize, /** Boundaries between intervals. */ cuts: usize, /** Widest antichain at a boundary. */ wide: usize, /** Messages picked before all are delivered in order. */ picks: usize, hi: i64, /** Statements that overlap others. */ overlap: bool, pairs: bool }
fn stream<T: Told>(s: &Shape) -> (Vec<Up<T>>, Vec<Msg<T>>) {
    let all: Vec<Up<T>> = (0..s.updates).map(|i| (c(i as i64), T::fresh(&format!("t{i}"), s.hi), c(1 + i as i64))).collect();
    let mut cuts = vec![Antichain::from_elem(T::minimum())];
    for i in 0..s.cuts {
        let next = anti::<T>(&format!("cut{i}"), 1, s.wide, s.hi);
        assume(after(&cuts[i][..], &next[..]));
        cuts.push(next);
    }
    cuts.push(Antichain::new());
    let mut msgs = vec![];
    if s.pairs && choose("grouped", 2) == 1 { msgs.push(Message::Updates(all.clone())) } else { for u in &all { msgs.push(Message::Updates(vec![u.clone()])) } }
    let state = |i: usize, j: usize| {
        let mut counts: Vec<(T, usize)> = vec![];
        for u in &all { if (beyond(&cuts[i][..], &u.1) & !beyond(&cuts[j][..], &u.1)).decide() {
            match counts.iter_mut().find(|(t, _)| *t == u.1) { Some((_, n)) => *n += 1, None => counts.push((u.1.clone(), 1)) }
        } }
        Message::Progress(Progress { lower: cuts[i].elements().to_vec(), upper: cuts[j].elements().to_vec(), counts })
    };
    for i in 0..=s.cuts { msgs.push(state(i, i + 1)) }
    if s.overlap { msgs.push(state(0, 2)); }
    (all, msgs)
}
/// Any sequence of messages, and then all of them.
fn order<T: Told>(msgs: &[Msg<T>], picks: usize, then: bool) -> Vec<Msg<T>> {
    let mut plan: Vec<Msg<T>> = (0..picks).map(|i| msgs[choose(&format!("pick{i}"), msgs.len())].clone()).collect();
    if then { plan.extend(msgs.iter().cloned()) }
    plan
}

fn iter<T: Told>(s: &Shape) {
    let (all, msgs) = stream::<T>(s);
    let q = T::fresh("q", s.hi);
    let plan = order(&msgs, s.picks, true);
    recover(&all, plan, q, s.hi);
}
/// Recovers the updates from messages that are all delivered in the end.
fn recover<T: Told>(all: &[Up<T>], plan: Vec<Msg<T>>, q: T, hi: i64) {
    let known = Rc::new(RefCell::new(Known::new(all)));
    let reported = Rc::new(RefCell::new(vec![T::minimum()]));
    let src = Source { plan: plan.into(), known: known.clone(), reported: reported.clone(), q: q.clone() };
    let mut it = Iter::new(src);
    let mut out: Vec<Up<T>> = vec![];
    let mut rounds = 0;
    loop {
        let Some((batch, frontier)) = it.next() else { break };
        rounds += 1;
        let prior = reported.borrow().clone();
        check(after(&prior, &frontier[..]), "a frontier reported goes back");
        for u in &batch { check(beyond(&prior, &u.1) & !beyond(&frontier[..], &u.1), "an update is released outside its interval"); }
        out.extend(batch);
        *reported.borrow_mut() = frontier.elements().to_vec();
        // Everything before the frontier has been released, once.
        let closed = !beyond(&frontier[..], &q);
        for u in all {
            let n = out.iter().filter(|v| v.0.same(&u.0)).count();
            check(B::of(n <= 1), "an update is released twice");
            check((closed & u.1.s_eq(&q)).implies(B::of(n == 1)), "an update before the frontier has not been released");
        }
        for v in &out { check(B::any(all.iter().map(|u| if u.0.same(&v.0) { u.1.s_eq(&v.1) & u.2.is(v.2) } else { FALSE })), "an update is released that was never captured"); }
    }
    check(B::of(out.len() == all.len()), "not every update was released in the end");
    check(B::of(reported.borrow().is_empty()), "the stream is not complete in the end");
    if rounds > 1 { reached("in parts"); }
    let _ = hi;
    note(|| format!("{} updates in {} parts", out.len(), rounds));
}

/// Messages arriving a few at a time.
struct Slow<T> { plan: Rc<RefCell<std::collections::VecDeque<Msg<T>>>> }
impl<T> Iterator for Slow<T> { type Item = Msg<T>; fn next(&mut self) -> Option<Msg<T>> { self.plan.borrow_mut().pop_front() } }

/// The dataflow source.
fn dataflow<T: Told>(s: &Shape, drops: bool) {
    let (all, msgs) = stream::<T>(s);
    let mut w = worker();
    let plan: Rc<RefCell<std::collections::VecDeque<Msg<T>>>> = Default::default();
    let p2 = plan.clone();
    let act = Rc::new(RefCell::new(None));
    let a2 = act.clone();
    let (token, sink) = T::flow(&mut w, |scope| {
        let (token, stream) = source::build(scope, |a| { *a2.borrow_mut() = Some(a); Slow { plan: p2 } });
        (token, Sink::<Sym, T>::new(stream.as_collection()))
    });
    let mut token = Some(token);
    let q = T::fresh("q", s.hi);
    let mut known = Known::new(&all);
    let judge = |known: &Known<T>, w: &mut Worker| {
        act.borrow().as_ref().unwrap().activate().unwrap();
        steps(w, 12);
        let cov = known.covered();
        let open = known.open(&cov, &q);
        check(sink.done(&q).iff(!open), "the source's frontier is not the one the messages justify");
        for u in &all {
            let n = sink.out.borrow().iter().filter(|v| v.0.same(&u.0)).count();
            check(B::of(n <= 1), "an update is produced twice");
            check((sink.done(&q) & u.1.s_eq(&q)).implies(B::of(n == 1)), "an update before the frontier has not been produced");
        }
        for v in sink.out.borrow().iter() { check(B::any(all.iter().map(|u| if u.0.same(&v.0) { u.1.s_eq(&v.1) & u.2.is(v.2) } else { FALSE })), "an update is produced that was never captured"); }
    };
    for m in order(&msgs, s.picks, false) {
        known.learn(&m);
        plan.borrow_mut().push_back(m);
        judge(&known, &mut w);
    }
    if drops && choose("dropped", 2) == 1 {
        // Without its token, the source gives up.
        token.take();
        let mut n = 0;
        while w.has_dataflows() { w.step(); n += 1; if n > 200 { fail("a dropped source does not end") } }
        reached("dropped");
        return;
    }
    for m in &msgs { known.learn(m); plan.borrow_mut().push_back(m.clone()); }
    judge(&known, &mut w);
    for _ in 0..20 { w.step(); }
    check(B::of(!w.has_dataflows()), "the source does not end once all is known");
    reached("ended");
}

/// A writer that may ask to be tried again later.
struct Log<T> { msgs: Vec<Msg<T>>, retries: usize, name: &'static str, late: usize }
impl<T: Told> Writer<Msg<T>> for Log<T> {
    fn poll(&mut self, m: &Msg<T>) -> Option<Duration> {
        if self.retries > 0 && choose(self.name, 2) == 1 { self.retries -= 1; return Some(Duration::from_secs(0)); }
        self.msgs.push(m.clone());
        None
    }
    fn done(&self) -> bool { self.late == 0 }
}

/// Captures a stream, and recovers it from what was captured.
fn capture<T: Told>(rounds: &'static [usize], later: bool, hi: i64, retries: usize, reorder: usize) {
    let mut w = worker();
    let (us, ps) = (Rc::new(RefCell::new(Log { msgs: vec![], retries, name: "retry update", late: 0 })), Rc::new(RefCell::new(Log { msgs: vec![], retries, name: "retry progress", late: 0 })));
    let (u2, p2) = (Rc::downgrade(&us), Rc::downgrade(&ps));
    let probe: Rc<Cell<bool>> = Default::default();
    let _ = probe;
    let mut f = T::flow(&mut w, |scope| {
        let (f, coll): (Feed<Sym, T>, VecCollection<'_, T, Sym, Sym>) = Feed::new(scope);
        sink::build(coll.inner, 0, u2, p2);
        f
    });
    let q = T::fresh("q", hi);
    let mut n = 0;
    for (i, k) in rounds.iter().enumerate() {
        for j in 0..*k {
            let t = if later { T::fresh(&format!("t{i}.{j}"), hi) } else { f.time() };
            f.push(c(n), t, c(1 + n));
            n += 1;
        }
        if i + 1 < rounds.len() { let t = T::fresh(&format!("a{i}"), hi); assume(f.time().s_le(&t)); f.advance(t); f.flush(); }
        steps(&mut w, 1 + choose(&format!("steps{i}"), 2) * 3);
    }
    f.close();
    for _ in 0..30 { w.step(); }
    check(B::of(!w.has_dataflows()), "the capture does not complete");
    let mut msgs = us.borrow().msgs.clone();
    msgs.extend(ps.borrow().msgs.iter().cloned());
    // Statements are about intervals, one after the other, and count what was written in them.
    let all = f.log.clone();
    for m in &msgs { if let Message::Progress(p) = m {
        let here = beyond(&p.lower, &q) & !beyond(&p.upper, &q);
        let mut told = c(0);
        for (t, k) in &p.counts { check(beyond(&p.lower, t) & !beyond(&p.upper, t), "a count outside the interval stated"); told = told + t.s_eq(&q).ite(c(*k as i64), c(0)); }
        let mut real = c(0);
        for u in &all { real = real + u.1.s_eq(&q).ite(c(1), c(0)); }
        check(here.implies(told.is(real)), "a statement's counts are not those of its interval");
    } }
    let mut plan = order(&msgs, reorder, false);
    plan.extend(msgs);
    recover(&all, plan, q, hi);
}

/// Sources at several workers, each message arriving at any of them.
fn spread<T: Told>(s: &Shape, n: usize, again: usize) {
    hash_by((0..3).map(|i| var(&format!("place{i}"), 0, n as i64 - 1)).collect(), n as u64);
    let (all, msgs) = stream::<T>(s);
    let mut ws = workers(n, false);
    let plans: Vec<Rc<RefCell<std::collections::VecDeque<Msg<T>>>>> = (0..n).map(|_| Default::default()).collect();
    let acts: Vec<_> = (0..n).map(|_| Rc::new(RefCell::new(None))).collect();
    let (mut tokens, mut sinks) = (vec![], vec![]);
    for (i, w) in ws.iter_mut().enumerate() {
        let (plan, act) = (plans[i].clone(), acts[i].clone());
        let (token, sink) = T::flow(w, |scope| {
            let (token, stream) = source::build(scope, |a| { *act.borrow_mut() = Some(a); Slow { plan } });
            (token, Sink::<Sym, T>::new(stream.as_collection()))
        });
        tokens.push(token); sinks.push(sink);
    }
    let q = T::fresh("q", s.hi);
    let mut known = Known::new(&all);
    let judge = |known: &Known<T>| {
        let open = known.open(&known.covered(), &q);
        for sink in &sinks { check(sink.done(&q).implies(!open.clone()), "a worker's frontier is beyond what the messages justify"); }
        let any = B::any(sinks.iter().map(|s| s.done(&q)));
        for u in &all {
            let n: usize = sinks.iter().map(|s| s.out.borrow().iter().filter(|v| v.0.same(&u.0)).count()).sum();
            check(B::of(n <= 1), "an update is produced twice");
            check((any.clone() & u.1.s_eq(&q)).implies(B::of(n == 1)), "an update before the frontier has not been produced");
        }
        for s in &sinks { for v in s.out.borrow().iter() { check(B::any(all.iter().map(|u| if u.0.same(&v.0) { u.1.s_eq(&v.1) & u.2.is(v.2) } else { FALSE })), "an update is produced that was never captured"); } }
    };
    let wake = |i: usize| acts[i].borrow().as_ref().unwrap().activate().unwrap();
    let again = order(&msgs, again, false);
    for m in again.into_iter().chain(msgs.iter().cloned()) {
        known.learn(&m);
        let at = choose("at", n);
        plans[at].borrow_mut().push_back(m);
        wake(at);
        ws[choose("turn", n)].step();
        judge(&known);
    }
    for i in 0..60 { for w in ws.iter_mut() { w.step(); } if i % 6 == 0 { judge(&known) } }
    judge(&known);
    check(B::of(ws.iter().all(|w| !w.has_dataflows())), "the sources do not end once all is known");
    if sinks.iter().filter(|s| !s.out.borrow().is_empty()).count() > 1 { reached("spread"); }
    drop(tokens);
}
/// Captures at several workers, recovered from what all of them wrote.
fn captures<T: Told>(n: usize, rounds: &'static [usize], hi: i64, turns_: usize) {
    let mut ws = workers(n, false);
    let home = choose("home", n);
    let make = || -> Vec<_> { (0..n).map(|_| Rc::new(RefCell::new(Log { msgs: vec![], retries: 0, name: "retry", late: 0 }))).collect() };
    let (us, ps) = (make(), make());
    let mut fs: Vec<Feed<Sym, T>> = ws.iter_mut().enumerate().map(|(i, w)| { let (u, p) = (Rc::downgrade(&us[i]), Rc::downgrade(&ps[i])); T::flow(w, |scope| {
        let (f, coll): (Feed<Sym, T>, VecCollection<'_, T, Sym, Sym>) = Feed::new(scope);
        sink::build(coll.inner, home as u64, u, p);
        f
    }) }).collect();
    let q = T::fresh("q", hi);
    let mut k = 0;
    for (i, r) in rounds.iter().enumerate() {
        for j in 0..*r {
            let f = &mut fs[choose(&format!("at{i}.{j}"), n)];
            f.push(c(k), T::fresh(&format!("t{i}.{j}"), hi), c(1 + k));
            k += 1;
        }
        if i + 1 < rounds.len() {
            let t = T::fresh(&format!("a{i}"), hi);
            for f in fs.iter_mut() { assume(f.time().s_le(&t)); f.advance(t.clone()); }
            match choose("flush", n + 1) { w if w < n => fs[w].flush(), _ => for f in fs.iter_mut() { f.flush() } }
            turns(&mut ws, turns_);
        }
    }
    for f in fs.iter_mut() { f.close(); }
    turns(&mut ws, turns_);
    finish_all(&mut ws, &vec![1; n]);
    let all: Vec<Up<T>> = fs.iter().flat_map(|f| f.log.iter().cloned()).collect();
    let mut msgs: Vec<Msg<T>> = us.iter().flat_map(|u| u.borrow().msgs.clone()).collect();
    for (i, p) in ps.iter().enumerate() { if i != home { check(B::of(p.borrow().msgs.is_empty()), "progress is stated where it should not be") } msgs.extend(p.borrow().msgs.iter().cloned()); }
    recover(&all, msgs, q, hi);
}

const IT: &[&str] = &["differential_dataflow::capture::iterator::Iter"];
const SRC: &[&str] = &["differential_dataflow::capture::source::build"];
const SNK: &[&str] = &["differential_dataflow::capture::sink::build", "differential_dataflow::capture::iterator::Iter"];
const S1: Shape = Shape { updates: 2, cuts: 1, wide: 1, picks: 4, hi: 2, overlap: false, pairs: true };
const S2: Shape = Shape { updates: 2, cuts: 2, wide: 1, picks: 3, hi: 2, overlap: true, pairs: false };
const S3: Shape = Shape { updates: 2, cuts: 1, wide: 2, picks: 3, hi: 1, overlap: false, pairs: false };

fn main() {
    let mut cases = vec![];
    cases.push(Case::new("any order", "two updates, together or apart, and two statements; any four messages and then all; times 0..=2", IT, &["in parts"], || iter::<Sym>(&S1)));
    cases.push(Case::new("overlapping", "two updates and three statements with one overlapping; any three messages and then all; times 0..=2", IT, &["in parts"], || iter::<Sym>(&S2)));
    cases.push(Case::new("pairs of times", "two updates and two statements at an antichain of up to two pairs of times 0..=1; any three messages and then all", IT, &["in parts"], || iter::<P2>(&S3)));
    cases.push(Case::new("source", "two updates and two statements; any two messages, one at a time, and then all, or the source is dropped", SRC, &["ended", "dropped"], || dataflow::<Sym>(&Shape { picks: 2, pairs: false, ..S1 }, true)));
    cases.push(Case::new("source overlapping", "one update and three statements with one overlapping; any three messages, and then all", SRC, &["ended", "dropped"], || dataflow::<Sym>(&Shape { updates: 1, ..S2 }, true)));
    cases.push(Case::new("captured", "three updates in two rounds, writers that ask to be tried again up to once, and recovery after any two messages", SNK, &["in parts"], || capture::<Sym>(&[2, 1], true, 2, 1, 2)));
    cases.push(Case::new("captured pairs", "two updates in two rounds at arbitrary pairs of times 0..=1", SNK, &["in parts"], || capture::<P2>(&[1, 1], true, 1, 1, 1)));
    cases.push(Case::new("source at two workers", "two updates and two statements, each at any worker, with any one worker stepped after each message; any placement of updates and counts", SRC, &["spread"], || spread::<Sym>(&Shape { picks: 0, pairs: false, ..S1 }, 2, 0)));
    cases.push(Case::new("source again at two workers", "any one message, and then an update and two statements, each at any worker; as above", SRC, &[], || spread::<Sym>(&Shape { picks: 0, pairs: false, updates: 1, ..S1 }, 2, 1)));
    cases.push(Case::new("source repeating at two workers", "any one message, and then two updates and two statements, each at any worker; as above", SRC, &["spread"], || spread::<Sym>(&Shape { picks: 0, pairs: false, ..S1 }, 2, 1)).thorough());
    cases.push(Case::new("captured at two workers", "two updates in two rounds at either worker at any times, with any statement writer; any worker flushed, any interleaving of two steps", SNK, &["in parts"], || captures::<Sym>(2, &[1, 1], 2, 2)));
    cases.push(Case::new("captured pairs at two workers", "two updates in two rounds at either worker at any pairs of times 0..=1; as above", SNK, &["in parts"], || captures::<P2>(2, &[1, 1], 1, 2)));
    cases.push(Case::new("source at three workers", "two updates and two statements at any of three workers", SRC, &["spread"], || spread::<Sym>(&Shape { picks: 0, pairs: false, hi: 1, ..S1 }, 3, 0)).thorough());
    cases.push(Case::new("source overlapping at two workers", "two updates and three statements, one overlapping, and any one again", SRC, &["spread"], || spread::<Sym>(&Shape { picks: 0, hi: 1, ..S2 }, 2, 1)).thorough());
    cases.push(Case::new("captured at two workers, longer", "three updates in three rounds, and any interleaving of three steps", SNK, &["in parts"], || captures::<Sym>(2, &[1, 1, 1], 2, 3)).thorough());
    cases.push(Case::new("captured at three workers", "three updates in two rounds at any of three workers", SNK, &["in parts"], || captures::<Sym>(3, &[2, 1], 2, 2)).thorough());
    cases.push(Case::new("any order 3", "three updates and three statements with one overlapping; any four messages and then all; times 0..=2", IT, &["in parts"], || iter::<Sym>(&Shape { updates: 3, picks: 4, ..S2 })).thorough());
    cases.push(Case::new("pairs of times 2", "two updates and three statements, one overlapping, at antichains of up to two pairs of times 0..=2; any three messages and then all", IT, &["in parts"], || iter::<P2>(&Shape { cuts: 2, hi: 2, overlap: true, ..S3 })).thorough());
    cases.push(Case::new("source 3", "two updates and three statements, one overlapping; any three messages, and then all", SRC, &["ended", "dropped"], || dataflow::<Sym>(&S2, true)).thorough());
    cases.push(Case::new("captured 3", "four updates in three rounds, two retries, and recovery after any two messages", SNK, &["in parts"], || capture::<Sym>(&[2, 1, 1], true, 2, 2, 2)).thorough());
    runner::run(Prop { id: "X01", title: "capture and replay", outside: "more updates, statements and messages; more workers; the source with partially ordered times", assumptions: &[
        "updates have distinct data, as the capture requires of its input", "updates within a message are distinct", "statements are true",
    ], cases });
}
