//! Columnar streams: fed from recorded updates, and recorded in turn.
use crate::flow::*;
use crate::model::*;
use crate::traces::*;
use crate::*;
use columnar::Columnar;
use differential_dataflow::columnar::collection::{Builder, RecordedUpdates};
use differential_dataflow::columnar::layout::ColumnarUpdate;
use differential_dataflow::{AsCollection, Collection};
use std::cell::RefCell;
use std::rc::Rc;
use timely::dataflow::operators::core::{UnorderedHandle, UnorderedInput};
use timely::dataflow::operators::ActivateCapability;
use timely::dataflow::Scope;
use timely::progress::frontier::AntichainRef;
use timely::progress::Timestamp;

/// Columnar updates over symbolic data.
pub trait Cols: ColumnarUpdate<Key: Datum, Val: Datum, Time: Fed, Diff = Sym> { }
impl<U: ColumnarUpdate<Key: Datum, Val: Datum, Time: Fed, Diff = Sym>> Cols for U { }
pub type Log<U> = Vec<((<U as ColumnarUpdate>::Key, <U as ColumnarUpdate>::Val), <U as ColumnarUpdate>::Time, Sym)>;

pub fn unpack<U: Cols>(data: &RecordedUpdates<U>) -> Log<U> {
    data.updates.view().iter().map(|(k, v, t, r)| ((<U::Key as Columnar>::into_owned(k), <U::Val as Columnar>::into_owned(v)), <U::Time as Columnar>::into_owned(t), <U::Diff as Columnar>::into_owned(r))).collect()
}

/// An input of columnar updates.
pub struct ColFeed<U: Cols> { handle: UnorderedHandle<U::Time, Builder<U>>, cap: Option<ActivateCapability<U::Time>>, time: U::Time, buffer: Log<U>, pub log: Log<U> }
impl<U: Cols> ColFeed<U> {
    pub fn new<'s>(scope: Scope<'s, U::Time>) -> (Self, Collection<'s, U::Time, RecordedUpdates<U>>) {
        let ((handle, cap), stream) = scope.new_unordered_input::<Builder<U>>();
        (ColFeed { handle, cap: Some(cap), time: U::Time::minimum(), buffer: vec![], log: vec![] }, stream.as_collection())
    }
    pub fn push(&mut self, d: (U::Key, U::Val), t: U::Time, r: Sym) {
        assume(self.time.s_le(&t));
        self.buffer.push((d.clone(), t.clone(), r));
        self.log.push((d, t, r));
    }
    pub fn time(&self) -> U::Time { self.time.clone() }
    pub fn advance(&mut self, t: U::Time) { self.time = t }
    pub fn flush(&mut self) {
        let Some(cap) = &mut self.cap else { return };
        if !self.buffer.is_empty() {
            let mut h = self.handle.activate();
            let mut s = h.session_with_builder(&*cap);
            for ((k, v), t, r) in self.buffer.drain(..) { s.give((&k, &v, &t, &r)) }
        }
        if *cap.time() != self.time { cap.downgrade(&self.time) }
    }
    pub fn close(&mut self) { self.flush(); self.cap = None }
    /// Arbitrary updates, then an advance.
    pub fn round(&mut self, name: &str, h: &Hist, i: usize) {
        for j in 0..h.rounds[i] {
            let d = <(U::Key, U::Val)>::fresh(&format!("{name}{i}.{j}"), h.hi);
            let r = var(&format!("{name}r{i}.{j}"), -h.r, h.r);
            let t = match h.times { Times::Now => self.time(), Times::Later | Times::Apart => U::Time::fresh(&format!("{name}t{i}.{j}"), h.hi) };
            self.push(d, t, r);
        }
        if i + 1 < h.rounds.len() {
            let next = if h.free { let t = U::Time::fresh(&format!("{name}a{i}"), h.hi); assume(self.time.s_le(&t)); t } else { U::Time::tick(i as i64 + 1) };
            self.advance(next);
        }
    }
}

/// Recorded columnar output. A container that says it is consolidated has to be.
pub struct ColSink<U: Cols> { pub out: Rc<RefCell<Log<U>>>, pub probe: timely::dataflow::ProbeHandle<U::Time> }
impl<U: Cols> ColSink<U> {
    pub fn new<'s>(coll: Collection<'s, U::Time, RecordedUpdates<U>>) -> Self {
        let out = Rc::new(RefCell::new(vec![]));
        let o2 = out.clone();
        let mut frontier = vec![U::Time::minimum()];
        let (probe, _) = coll.inspect_container(move |e| match e {
            Ok((cap, data)) => {
                let list = unpack::<U>(data);
                for (_, t, _) in list.iter() {
                    check(beyond(&frontier, t), "an output earlier than the frontier already passed");
                    check(cap.s_le(t), "an output earlier than its capability");
                }
                if data.consolidated { check(canonical(&list), "updates marked as consolidated are not"); }
                o2.borrow_mut().extend(list);
            },
            Err(f) => frontier = f.to_vec(),
        }).probe();
        ColSink { out, probe }
    }
    pub fn done(&self, q: &U::Time) -> B { !beyond(&self.probe.with_frontier(|f: AntichainRef<U::Time>| f.to_vec()), q) }
}
