//! Single-threaded dataflows with symbolic inputs and schedules, and recorded outputs.
use crate::model::*;
use crate::traces::{DTime, Datum};
use crate::*;
use differential_dataflow::difference::Semigroup;
use differential_dataflow::input::InputSession;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::{AsCollection, VecCollection};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;
use timely::communication::allocator::thread::Thread;
use timely::communication::Allocator;
use timely::dataflow::operators::probe::Handle;
use timely::dataflow::operators::vec::Input as _;
use timely::dataflow::Scope;
use timely::progress::frontier::AntichainRef;
use timely::progress::{Antichain, Timestamp};
use timely::worker::Worker;
use timely::WorkerConfig;

/// Output differences, as terms.
pub trait Diff: Semigroup + Clone + Debug + 'static { fn term(&self) -> Sym; }
impl Diff for Sym { fn term(&self) -> Sym { *self } }
impl Diff for isize { fn term(&self) -> Sym { c(*self as i64) } }
impl Diff for i64 { fn term(&self) -> Sym { c(*self) } }
impl Diff for i32 { fn term(&self) -> Sym { c(*self as i64) } }

pub fn worker() -> Worker { Worker::new(WorkerConfig::default(), Allocator::Thread(Thread::default()), None) }

/// How updates of each kind of time are fed: through an input session where times are totally ordered, else
/// through an unordered input whose capability is downgraded.
pub trait Session<D, T> {
    fn time(&self) -> T;
    fn update_at(&mut self, d: D, t: T, r: Sym);
    fn advance_to(&mut self, t: T);
    fn flush(&mut self);
    /// The times at which updates may still be put in.
    fn frontier(&self) -> Vec<T> { vec![self.time()] }
    fn advance_all(&mut self, _: &[T]) { unimplemented!() }
}
impl<D: differential_dataflow::Data, T: DTime> Session<D, T> for InputSession<T, D, Sym> {
    fn time(&self) -> T { InputSession::time(self).clone() }
    fn update_at(&mut self, d: D, t: T, r: Sym) { InputSession::update_at(self, d, t, r) }
    fn advance_to(&mut self, t: T) { InputSession::advance_to(self, t) }
    fn flush(&mut self) { InputSession::flush(self) }
}
use timely::container::CapacityContainerBuilder;
use timely::dataflow::operators::core::{UnorderedHandle, UnorderedInput};
use timely::dataflow::operators::ActivateCapability;
pub struct Loose<D: 'static, T: Timestamp> { handle: UnorderedHandle<T, CapacityContainerBuilder<Vec<(D, T, Sym)>>>, caps: Vec<ActivateCapability<T>>, times: Vec<T>, buffer: Vec<(D, T, Sym)> }
impl<D: 'static + Clone, T: DTime> Loose<D, T> {
    fn send(&mut self) {
        for x in self.buffer.drain(..) {
            let i = self.caps.iter().position(|c| c.time().less_equal(&x.1)).expect("a capability");
            self.handle.activate().session(&self.caps[i]).give(x);
        }
    }
}
impl<D: differential_dataflow::Data, T: DTime> Session<D, T> for Loose<D, T> {
    fn time(&self) -> T { assert!(self.times.len() == 1); self.times[0].clone() }
    fn update_at(&mut self, d: D, t: T, r: Sym) { self.buffer.push((d, t, r)) }
    fn advance_to(&mut self, t: T) { self.times = vec![t] }
    fn frontier(&self) -> Vec<T> { self.times.clone() }
    fn advance_all(&mut self, ts: &[T]) { self.times = ts.to_vec() }
    fn flush(&mut self) {
        if self.caps.len() == 1 {
            if !self.buffer.is_empty() {
                let mut h = self.handle.activate();
                let mut s = h.session(&self.caps[0]);
                for x in self.buffer.drain(..) { s.give(x) }
            }
        } else { self.send() }
        if self.caps.len() == 1 && self.times.len() == 1 {
            if *self.caps[0].time() != self.times[0] { let t = self.times[0].clone(); self.caps[0].downgrade(&t) }
        } else {
            let next = self.times.iter().map(|t| self.caps.iter().find(|c| c.time().less_equal(t)).expect("a capability").delayed(t)).collect();
            self.caps = next;
        }
    }
}
impl<D: 'static, T: Timestamp> Drop for Loose<D, T> { fn drop(&mut self) {
    for x in self.buffer.drain(..) {
        if let Some(i) = self.caps.iter().position(|c| c.time().less_equal(&x.1)) { self.handle.activate().session(&self.caps[i]).give(x); }
    }
} }
pub trait Fed: DTime {
    fn input<'s, D: differential_dataflow::Data>(scope: Scope<'s, Self>) -> (Box<dyn Session<D, Self>>, VecCollection<'s, Self, D, Sym>);
    fn tick(i: i64) -> Self;
    /// Two incomparable times, if there are.
    fn corner(j: usize) -> Self { Self::tick(j as i64) }
    /// Builds a dataflow over times of this type.
    fn build<R>(w: &mut Worker, f: impl for<'s> FnOnce(Scope<'s, Self>) -> R) -> R;
}
impl Fed for Sym {
    fn input<'s, D: differential_dataflow::Data>(scope: Scope<'s, Self>) -> (Box<dyn Session<D, Self>>, VecCollection<'s, Self, D, Sym>) {
        let (handle, stream) = scope.new_input();
        (Box::new(InputSession::from(handle)), stream.as_collection())
    }
    fn tick(i: i64) -> Sym { c(i) }
    fn build<R>(w: &mut Worker, f: impl for<'s> FnOnce(Scope<'s, Sym>) -> R) -> R { w.dataflow::<Sym, _, _>(f) }
}
impl Fed for P2 {
    fn input<'s, D: differential_dataflow::Data>(scope: Scope<'s, Self>) -> (Box<dyn Session<D, Self>>, VecCollection<'s, Self, D, Sym>) {
        let ((handle, cap), stream) = scope.new_unordered_input();
        (Box::new(Loose { handle, caps: vec![cap], times: vec![P2::minimum()], buffer: vec![] }), stream.as_collection())
    }
    fn tick(i: i64) -> P2 { P2::new(c(i), c(0)) }
    fn corner(j: usize) -> P2 { P2::new(c(j as i64), c(1 - j as i64)) }
    fn build<R>(w: &mut Worker, f: impl for<'s> FnOnce(Scope<'s, P2>) -> R) -> R { w.dataflow::<Sym, _, _>(|outer| outer.scoped::<P2, _, _>("pairs", f)) }
}
impl Fed for crate::traces::PD {
    fn input<'s, D: differential_dataflow::Data>(scope: Scope<'s, Self>) -> (Box<dyn Session<D, Self>>, VecCollection<'s, Self, D, Sym>) {
        let ((handle, cap), stream) = scope.new_unordered_input();
        (Box::new(Loose { handle, caps: vec![cap], times: vec![Self::minimum()], buffer: vec![] }), stream.as_collection())
    }
    fn tick(i: i64) -> Self { timely::order::Product::new(c(i), Timestamp::minimum()) }
    fn build<R>(w: &mut Worker, f: impl for<'s> FnOnce(Scope<'s, Self>) -> R) -> R { w.dataflow::<Sym, _, _>(|outer| outer.scoped::<Self, _, _>("dynamic", f)) }
}

/// An input, with a record of everything put into it.
pub struct Feed<D: differential_dataflow::Data, T: Timestamp> { session: Option<Box<dyn Session<D, T>>>, pub log: Vec<(D, T, Sym)> }
impl<D: differential_dataflow::Data, T: Fed> Feed<D, T> {
    pub fn new<'s>(scope: Scope<'s, T>) -> (Self, VecCollection<'s, T, D, Sym>) {
        let (session, coll) = T::input(scope);
        (Feed { session: Some(session), log: vec![] }, coll)
    }
    pub fn push(&mut self, d: D, t: T, r: Sym) {
        let s = self.session.as_mut().expect("closed");
        assume(beyond(&s.frontier(), &t));
        s.update_at(d.clone(), t.clone(), r);
        self.log.push((d, t, r));
    }
    pub fn advance(&mut self, t: T) { self.session.as_mut().expect("closed").advance_to(t); }
    pub fn flush(&mut self) { if let Some(s) = self.session.as_mut() { s.flush() } }
    pub fn close(&mut self) { self.session = None; }
    pub fn frontier(&self) -> Vec<T> { self.session.as_ref().map(|s| s.frontier()).unwrap_or_default() }
    pub fn advance_all(&mut self, ts: &[T]) { self.session.as_mut().expect("closed").advance_all(ts); }
    /// Advances to an arbitrary antichain of at most two times.
    pub fn advance_apart(&mut self, name: &str, hi: i64) {
        let (a, b) = (T::fresh(&format!("{name}a"), hi), T::fresh(&format!("{name}b"), hi));
        let f = self.frontier();
        assume(beyond(&f, &a) & beyond(&f, &b));
        assume(a.s_eq(&b) | (!a.s_le(&b) & !b.s_le(&a)));
        if b < a { assume(FALSE) }
        if a == b { self.advance_all(&[a]) } else { self.advance_all(&[a, b]) }
    }
    pub fn time(&self) -> T { self.session.as_ref().expect("closed").time() }
    pub fn is_open(&self) -> bool { self.session.is_some() }
}

/// A recorded output, which checks that nothing arrives before a frontier already announced.
pub struct Sink<D, T: Timestamp> { pub out: Rc<RefCell<Vec<(D, T, Sym)>>>, pub probe: Handle<T> }
impl<D: differential_dataflow::Data, T: DTime> Sink<D, T> {
    pub fn new<'s, R: Diff>(coll: VecCollection<'s, T, D, R>) -> Self {
        let out = Rc::new(RefCell::new(vec![]));
        let o2 = out.clone();
        let mut frontier = vec![T::minimum()];
        let (probe, _) = coll.inspect_container(move |e| match e {
            Ok((cap, data)) => for (d, t, r) in data.iter() {
                check(beyond(&frontier, t), "an output earlier than the frontier already passed");
                check(cap.s_le(t), "an output earlier than its capability");
                o2.borrow_mut().push((d.clone(), t.clone(), r.term()));
            },
            Err(f) => frontier = f.to_vec(),
        }).probe();
        Sink { out, probe }
    }
    pub fn accum(&self, d: &D, q: &T) -> Sym where D: SData { accum(self.out.borrow().iter(), d, q) }
    pub fn frontier(&self) -> Vec<T> { self.probe.with_frontier(|f: AntichainRef<T>| f.to_vec()) }
    /// The time is one at which the output has been completed.
    pub fn done(&self, q: &T) -> B { !beyond(&self.frontier(), q) }
}

pub fn steps(w: &mut Worker, n: usize) { for _ in 0..n { w.step(); } }
/// Several workers of one process, all driven from this thread.
pub fn workers(n: usize, binary: bool) -> Vec<Worker> {
    use timely::communication::allocator::{AllocatorBuilder, Process};
    use timely::communication::Config;
    /// Holds state that only one thread uses at a time.
    struct Moved(Process);
    // SAFETY: the allocators' unshared state moves with them as a whole, from a thread that ends.
    unsafe impl Send for Moved { }
    let config = if binary { Config::ProcessBinary(n) } else { Config::Process(n) };
    let (builders, _guard) = config.try_build().expect("allocators");
    // Building one waits on the others.
    let threads: Vec<_> = builders.into_iter().map(|b| std::thread::spawn(move || match b { AllocatorBuilder::Process(p) => Moved(p.build()), _ => unreachable!() })).collect();
    threads.into_iter().map(|t| Worker::new(WorkerConfig::default(), Allocator::Process(t.join().expect("allocator").0), None)).collect()
}
/// Any interleaving of `n` steps of the workers.
pub fn turns(ws: &mut [Worker], n: usize) { for _ in 0..n { let i = choose("turn", ws.len()); ws[i].step(); } }
/// Runs all to completion, once all inputs are closed; `pace` is how often each steps while the others step once.
pub fn finish_all(ws: &mut [Worker], pace: &[usize]) {
    let mut n = 0;
    while ws.iter().any(|w| w.has_dataflows()) {
        for (w, p) in ws.iter_mut().zip(pace) { steps(w, *p) }
        n += 1;
        if n > 3000 { fail("the computation does not come to an end") }
    }
}
/// Runs to completion, once all inputs are closed.
pub fn finish(w: &mut Worker) {
    let mut n = 0;
    while w.has_dataflows() {
        w.step();
        n += 1;
        if n > 5000 { fail("the computation does not come to an end") }
    }
}

/// Something the schedule can drive.
pub trait Driven { fn flush(&mut self); fn close(&mut self); }
impl<D: differential_dataflow::Data, T: Fed> Driven for Feed<D, T> {
    fn flush(&mut self) { Feed::flush(self) }
    fn close(&mut self) { Feed::close(self) }
}

/// How update times are chosen.
#[derive(Clone, Copy)]
pub enum Times { /** At the session's time. */ Now, /** Any time at or after the session's. */ Later, /** Any time at or after the session's, which moves to arbitrary antichains of two. */ Apart }

/// The shape of a symbolic history on one input.
#[derive(Clone)]
pub struct Hist { /** Updates in each round. */ pub rounds: &'static [usize], pub hi: i64, pub r: i64, pub times: Times, /** Session times are arbitrary, instead of 0, 1, 2, … */ pub free: bool }

/// Drives one round of one input: arbitrary updates, then advances to a later time.
pub fn round<D: Datum, T: Fed>(f: &mut Feed<D, T>, name: &str, h: &Hist, i: usize) {
    for j in 0..h.rounds[i] {
        let d = D::fresh(&format!("{name}{i}.{j}"), h.hi);
        let r = var(&format!("{name}r{i}.{j}"), -h.r, h.r);
        assume(!r.is(c(0)));
        let t = match h.times { Times::Now => f.time(), Times::Later | Times::Apart => T::fresh(&format!("{name}t{i}.{j}"), h.hi) };
        f.push(d, t, r);
    }
    if let Times::Apart = h.times { if i + 1 < h.rounds.len() { f.advance_apart(&format!("{name}a{i}"), h.hi) } return; }
    if i + 1 < h.rounds.len() {
        let next = if h.free { let t = T::fresh(&format!("{name}a{i}"), h.hi); assume(f.time().s_le(&t)); t } else { T::tick(i as i64 + 1) };
        f.advance(next);
    }
}
impl<A: Datum, C2: Datum> Datum for (A, C2) { fn fresh(name: &str, hi: i64) -> Self { (A::fresh(&format!("{name}k"), hi), C2::fresh(&format!("{name}v"), hi)) } }

