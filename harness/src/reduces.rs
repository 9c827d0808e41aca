//! Reductions by each engine, with their definitions as terms.
use crate::flow::*;
use crate::model::*;
use crate::traces::*;
use crate::*;
use differential_dataflow::consolidation::{consolidate, consolidate_updates};
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::operators::int_proxy::{ProxyReduceBackend, ProxyReduceTactic, ReduceInstance, ReduceWindow};
use differential_dataflow::operators::reduce::{reduce_trace_reference, reduce_with_tactic, ReduceTactic};
use differential_dataflow::trace::cursor::Cursor;
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::trace::{BatchReader, Description, Navigable};
use differential_dataflow::difference::IsZero;
use differential_dataflow::VecCollection;
use std::cell::RefCell;
use std::rc::Rc;
use timely::progress::Antichain;

pub type VB<T> = <OrdVal<Sym, Sym, T> as Kind>::B;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Logic { /** The first value with its count. */ First, /** Every value with twice its count. */ Double, /** The number of values present, once. */ Present, /** The last value, if its count is positive, once. */ LastPositive, /** Every value with its squared count. */ Square, /** Every value with a count of at least two. */ Twice, /** The number of values, negated, and the first value: two outputs. */ Both }

impl Logic {
    pub fn apply(self, input: &[(&Sym, Sym)], out: &mut Vec<(Sym, Sym)>) {
        check(B::of(!input.is_empty()), "the logic was applied to no values");
        check(B::all(input.iter().map(|(_, r)| !r.is(c(0)))), "the logic was shown a value with no count");
        check(B::all(input.windows(2).map(|w| Sym::lt(*w[0].0, *w[1].0))), "the logic was shown unsorted or repeated values");
        match self {
            Logic::First => out.push((*input[0].0, input[0].1)),
            Logic::Double => for (v, r) in input { out.push((**v, *r + *r)) },
            Logic::Square => for (v, r) in input { out.push((**v, square(*r))) },
            Logic::Twice => for (v, r) in input { let n = Sym::lt(c(1), *r).ite(c(1), c(0)); if !n.is_zero() { out.push((**v, n)) } },
            Logic::Present => out.push((c(input.len() as i64), c(1))),
            Logic::LastPositive => { let (v, r) = input[input.len() - 1]; if r > c(0) { out.push((*v, c(1))) } },
            Logic::Both => { out.push((c(-(input.len() as i64)), c(1))); out.push((*input[0].0, c(1))); },
        }
    }
    /// The multiplicity that output `(k, y)` should have at `q`.
    pub fn expect<T: STime>(self, log: &[((Sym, Sym), T, Sym)], k: Sym, y: Sym, q: &T) -> Sym {
        let count = |v: Sym| accum(log, &(k, v), q);
        // Values in the history, each tagged by whether it is the first appearance and present.
        let present: Vec<(Sym, B)> = log.iter().enumerate().map(|(i, u)| {
            let first = B::all(log[..i].iter().map(|w| !(w.0.0.is(k) & w.0.1.is(u.0.1))));
            (u.0.1, u.0.0.is(k) & first & !count(u.0.1).is(c(0)))
        }).collect();
        let n = count(y);
        let here = !n.is(c(0));
        let least = B::all(present.iter().map(|(v, p)| !(*p & Sym::lt(*v, y))));
        let most = B::all(present.iter().map(|(v, p)| !(*p & Sym::lt(y, *v))));
        let len = present.iter().fold(c(0), |a, (_, p)| a + p.ite(c(1), c(0)));
        match self {
            Logic::First => (here & least).ite(n, c(0)),
            Logic::Double => n + n,
            Logic::Square => square(n),
            Logic::Twice => Sym::lt(c(1), n).ite(c(1), c(0)),
            Logic::Present => (y.is(len) & !len.is(c(0))).ite(c(1), c(0)),
            Logic::LastPositive => (Sym::lt(c(0), n) & most).ite(c(1), c(0)),
            Logic::Both => (here & least).ite(c(1), c(0)) + (y.is(c(0) - len) & !len.is(c(0))).ite(c(1), c(0)),
        }
    }
}

/// A count's square, for counts of at most six.
fn square(n: Sym) -> Sym {
    if let Some(n) = n.as_const() { return c(n * n) }
    let size = Sym::lt(n, c(0)).ite(c(0) - n, n);
    (1..=6).fold(c(0), |s, k| s + Sym::le(c(k), size).ite(c(2 * k - 1), c(0)))
}

/// Checks the batches an arrangement sends: in order, each before and holding its updates.
pub fn tiled<'s, T: Fed>(arr: Arr<'s, T>) -> Arr<'s, T> {
    use timely::dataflow::operators::generic::Operator;
    let mut edge = Antichain::from_elem(T::minimum());
    arr.stream.clone().sink(timely::dataflow::channels::pact::Pipeline, "Tiled", move |(input, _)| input.for_each(|cap, data| for b in data.iter() {
        check(after(&edge, b.lower()), "output batches are sent out of order");
        edge = b.upper().clone();
        for u in dump_batch::<OrdVal<Sym, Sym, T>>(b) {
            check(beyond(b.lower(), &u.1) & !beyond(b.upper(), &u.1), "an output update outside its batch's interval");
            check(cap.time().s_le(&u.1), "an output update earlier than the time it ships at");
        }
    }));
    arr
}

/// Retirements observed: lower, upper, held, and what was deferred.
pub type Trail<T> = Rc<RefCell<Vec<(Antichain<T>, Antichain<T>, Antichain<T>, Antichain<T>)>>>;
/// Forwards to a tactic, checking its contract and recording its retirements.
pub struct Watched<T, X> { pub inner: X, pub trail: Trail<T> }
impl<T: DTime, X: ReduceTactic<VB<T>, VB<T>>> ReduceTactic<VB<T>, VB<T>> for Watched<T, X> {
    fn retire(&mut self, s: Vec<VB<T>>, o: Vec<VB<T>>, i: Vec<VB<T>>, lower: &Antichain<T>, upper: &Antichain<T>, held: &Antichain<T>) -> (Vec<(T, VB<T>)>, Antichain<T>) {
        let (produced, deferred) = self.inner.retire(s, o, i, lower, upper, held);
        let mut edge = lower.clone();
        for (t, b) in &produced {
            check(B::any(held.iter().map(|h| h.s_eq(t))), "a batch shipped at a time not held");
            check(same(b.lower(), &edge), "output batches do not tile the interval");
            edge = b.upper().clone();
            for u in dump_batch::<OrdVal<Sym, Sym, T>>(b) {
                check(beyond(b.lower(), &u.1) & !beyond(b.upper(), &u.1), "an output update outside its batch's interval");
                check(t.s_le(&u.1), "an output update earlier than the time it ships at");
            }
        }
        if !produced.is_empty() { check(same(&edge, upper), "output batches do not reach the interval's end"); }
        check(after(upper, &deferred), "work deferred to a time already retired");
        for d in deferred.iter() { check(beyond(held, d), "work deferred to a time the operator may no longer produce at"); }
        self.trail.borrow_mut().push((lower.clone(), upper.clone(), held.clone(), deferred.clone()));
        (produced, deferred)
    }
}

/// Identifiers for symbolic keys and values, by first appearance.
#[derive(Default)]
pub struct Names { pub keys: Vec<Sym>, pub pairs: Vec<(Sym, Sym)> }
impl Names {
    pub fn key(&mut self, k: Sym) -> u64 { match self.keys.iter().position(|x| *x == k) { Some(i) => i as u64, None => { self.keys.push(k); self.keys.len() as u64 - 1 } } }
    pub fn pair(&mut self, k: Sym, v: Sym) -> u64 { match self.pairs.iter().position(|x| x.0 == k && x.1 == v) { Some(i) => i as u64, None => { self.pairs.push((k, v)); self.pairs.len() as u64 - 1 } } }
}
/// A plain backend for the opaque-identifier engine.
pub struct Backend<T> {
    pub logic: Logic,
    pub names: Names,
    /** Keys presented in each window. */ pub window: usize,
    /** Presented times are advanced to the instance's lower frontier. */ pub advance: bool,
    /** Keys share this many hashes, all distinct if zero. */ pub hashes: u64,
    pub tiles: Vec<Description<T>>,
    pub open: Vec<Vec<((Sym, Sym), T, Sym)>>,
}
impl<T: DTime> Backend<T> {
    pub fn new(logic: Logic, window: usize, advance: bool, hashes: u64) -> Self { Backend { logic, names: Names::default(), window, advance, hashes, tiles: vec![], open: vec![] } }
    fn hash(&mut self, k: Sym) -> u64 { let id = self.names.key(k); if self.hashes > 0 { id % self.hashes } else { id } }
    fn load(&mut self, batches: &[VB<T>], keys: &[u64], lower: Option<&[T]>) -> Vec<((u64, u64), T, Sym)> {
        let mut out = vec![];
        for b in batches {
            for ((k, v), mut t, r) in dump_batch::<OrdVal<Sym, Sym, T>>(b) {
                let h = self.hash(k);
                if keys.contains(&h) {
                    if let Some(l) = lower { t.advance_by(timely::progress::frontier::AntichainRef::new(l)); }
                    let v = self.names.pair(k, v);
                    out.push(((h, v), t, r));
                }
            }
        }
        consolidate_updates(&mut out);
        out
    }
}
impl<T: DTime> ProxyReduceBackend<VB<T>, VB<T>> for Backend<T> {
    type RIn = Sym;
    type ROut = Sym;
    fn seed_times(&self, instance: &ReduceInstance<'_, VB<T>, VB<T>>) -> Vec<(u64, T)> {
        // The registry may grow: keys are named in order of appearance among the novel batches.
        let mut out = vec![];
        for b in instance.input_batches {
            let mut c = b.cursor();
            while c.key_valid(b) {
                let k = *c.key(b);
                let me = self as *const Self as *mut Self;
                // Naming is idempotent, and nothing else borrows the registry here.
                let h = unsafe { (*me).hash(k) };
                while c.val_valid(b) { c.map_times(b, |t, _| out.push((h, t.clone()))); c.step_val(b); }
                c.step_key(b);
            }
        }
        out.sort(); out.dedup();
        out
    }
    fn begin(&mut self, tiles: &[Description<T>]) { self.tiles = tiles.to_vec(); self.open = tiles.iter().map(|_| vec![]).collect(); }
    fn next_window(&mut self, instance: &ReduceInstance<'_, VB<T>, VB<T>>, changed: &[u64], cursor: &mut usize) -> Option<ReduceWindow<T, Sym, Sym>> {
        if *cursor >= changed.len() { return None; }
        let end = if self.window == 0 { changed.len() } else { changed.len().min(*cursor + self.window) };
        let keys = changed[*cursor..end].to_vec();
        *cursor = end;
        let ins: Vec<VB<T>> = instance.source_batches.iter().chain(instance.input_batches.iter()).cloned().collect();
        let lower = instance.lower.to_vec();
        let lower = if self.advance && !lower.is_empty() { Some(&lower[..]) } else { None };
        let input = self.load(&ins, &keys, lower);
        let output = self.load(instance.output_batches, &keys, lower);
        Some(ReduceWindow { keys, input, output })
    }
    fn reduce_corrections(&mut self, keys: &[u64], in_ends: &[usize], input: &[(u64, Sym)], out_ends: &[usize], output: &[(u64, Sym)]) -> (Vec<(u64, Sym)>, Vec<usize>) {
        let (mut res, mut ends) = (vec![], vec![]);
        for i in 0..keys.len() {
            let ins = &input[if i > 0 { in_ends[i - 1] } else { 0 }..in_ends[i]];
            let outs = &output[if i > 0 { out_ends[i - 1] } else { 0 }..out_ends[i]];
            // Group by actual key: hashes may collide.
            let mut change: Vec<(u64, Sym)> = outs.iter().map(|(v, r)| (*v, c(0) - *r)).collect();
            let mut ks: Vec<Sym> = ins.iter().map(|(v, _)| self.names.pairs[*v as usize].0).collect();
            ks.sort(); ks.dedup();
            for k in ks {
                let mut vs: Vec<(Sym, Sym)> = ins.iter().filter(|(v, _)| self.names.pairs[*v as usize].0 == k).map(|(v, r)| (self.names.pairs[*v as usize].1, *r)).collect();
                vs.sort();
                let refs: Vec<(&Sym, Sym)> = vs.iter().map(|(v, r)| (v, *r)).collect();
                let mut out = vec![];
                self.logic.apply(&refs, &mut out);
                for (y, r) in out { change.push((self.names.pair(k, y), r)); }
            }
            consolidate(&mut change);
            res.extend(change);
            ends.push(res.len());
        }
        (res, ends)
    }
    fn emit(&mut self, tile: usize, records: &[((u64, u64), T, Sym)]) {
        for ((h, v), t, r) in records {
            let (k, y) = self.names.pairs[*v as usize];
            let h2 = self.hash(k);
            check(B::of(*h == h2), "an update emitted under another key's hash");
            self.open[tile].push(((k, y), t.clone(), *r));
        }
    }
    fn finish(&mut self) -> Vec<VB<T>> {
        let tiles = std::mem::take(&mut self.tiles);
        tiles.into_iter().zip(std::mem::take(&mut self.open)).map(|(d, mut o)| { consolidate_updates(&mut o); OrdVal::<Sym, Sym, T>::build(vec![o], d) }).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Engine { /** The public operator on collections. */ Public, Replay, Reference, /** Window size, advancing, hashes. */ Proxy(usize, bool, u64) }

type Arr<'s, T> = Arranged<'s, TraceAgent<ValSpine<Sym, Sym, T, Sym>>>;
fn abelian(logic: Logic) -> impl FnMut(&Sym, &[(&Sym, Sym)], &mut Vec<(Sym, Sym)>, &mut Vec<(Sym, Sym)>) + 'static {
    move |_k, input, output, change| {
        if !input.is_empty() { logic.apply(input, change); }
        change.extend(output.drain(..).map(|(v, r)| (v, c(0) - r)));
        consolidate(change);
    }
}
fn pushes<T: DTime>(vec: &mut Vec<((Sym, Sym), T, Sym)>, key: &Sym, upds: &mut Vec<(Sym, T, Sym)>) { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); }
type Bu<T> = ValBuilder<Sym, Sym, T, Sym>;

/// Applies a logic by an engine to an arrangement.
pub fn apply<'s, T: Fed>(engine: Engine, logic: Logic, coll: &VecCollection<'s, T, (Sym, Sym), Sym>, arr: &Arr<'s, T>, trail: Trail<T>) -> VecCollection<'s, T, (Sym, Sym), Sym> {
    match engine {
        Engine::Public => coll.clone().reduce(move |_, i, o| logic.apply(i, o)),
        Engine::Replay => tiled(arr.clone().reduce_core::<_, Bu<T>, ValSpine<Sym, Sym, T, Sym>, _, _>("Replay", abelian(logic), pushes::<T>)).as_collection(|k, v| (*k, *v)),
        Engine::Reference => tiled(reduce_trace_reference::<TraceAgent<ValSpine<Sym, Sym, T, Sym>>, Bu<T>, ValSpine<Sym, Sym, T, Sym>, _, _>(arr.clone(), "Reference", abelian(logic), pushes::<T>)).as_collection(|k, v| (*k, *v)),
        Engine::Proxy(w, a, h) => {
            let tactic = ProxyReduceTactic::new(Backend::<T>::new(logic, w, a, h));
            reduce_with_tactic::<_, ValSpine<Sym, Sym, T, Sym>, _>(arr.clone(), "Proxy", Watched { inner: tactic, trail }).as_collection(|k, v| (*k, *v))
        },
    }
}

/// Restricts updates to one key; to one value; and to insertions, in order of time.
pub fn pin<T: Fed>(log: &[((Sym, Sym), T, Sym)], fixed: usize) {
    for (i, u) in log.iter().enumerate() {
        if fixed > 0 { assume(u.0.0.is(c(0))) }
        if fixed > 1 { assume(u.0.1.is(c(1))) }
        if fixed > 2 { assume(u.2.is(c(1))); if i > 0 && u.1 < log[i - 1].1 { assume(FALSE) } }
    }
}
