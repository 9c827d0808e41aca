//! The opaque-identifier join engine and the batched wave, against the definition of join.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::reduces::{Names, VB};
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::consolidation::consolidate_updates;
use differential_dataflow::operators::common::{bilinear_wave, TimeHistory, ValueHistory};
use differential_dataflow::operators::int_proxy::{JoinInstance, ProxyJoinBackend, ProxyJoinTactic};
use differential_dataflow::operators::join::{join_with_tactic, Fresh, JoinTactic};
use differential_dataflow::AsCollection;
use std::cell::RefCell;
use std::rc::Rc;

const HI: i64 = 15;
type KV = (Sym, Sym);
type Out = (Sym, (Sym, Sym));
type Log<T> = Vec<(KV, T, Sym)>;

/// How a backend presents its collections.
#[derive(Clone, Copy)]
struct Present { /** Times are advanced to the unit's lower frontier. */ advance: bool, /** The filter is used. */ filter: bool, /** Number of hashes, all distinct if zero. */ hashes: u64 }

struct Backend<T> { names: Rc<RefCell<Names>>, how: Present, time: std::marker::PhantomData<T> }
impl<T: DTime> Backend<T> {
    fn load(&self, batches: &[VB<T>], lower: &[T], filter: Option<&[u64]>) -> Vec<((u64, u64), T, Sym)> {
        if let Some(f) = filter { check(B::of(f.windows(2).all(|w| w[0] < w[1])), "the keys to restrict to are unsorted or repeated"); }
        let mut out = vec![];
        for b in batches {
            for ((k, v), mut t, r) in dump_batch::<OrdVal<Sym, Sym, T>>(b) {
                let mut n = self.names.borrow_mut();
                let id = n.key(k);
                let h = if self.how.hashes > 0 { id % self.how.hashes } else { id };
                if self.how.filter && filter.is_some_and(|f| f.binary_search(&h).is_err()) { continue }
                if self.how.advance { t.advance_by(timely::progress::frontier::AntichainRef::new(lower)); }
                out.push(((h, n.pair(k, v)), t, r));
            }
        }
        consolidate_updates(&mut out);
        out
    }
}
impl<T: DTime> ProxyJoinBackend<VB<T>, VB<T>> for Backend<T> {
    type R0 = Sym;
    type R1 = Sym;
    type ROut = Sym;
    type Output = Vec<(Out, T, Sym)>;
    fn present0(&mut self, i: &JoinInstance<'_, VB<T>, VB<T>>, filter: Option<&[u64]>) -> Vec<((u64, u64), T, Sym)> { self.load(i.batches0, &i.lower, filter) }
    fn present1(&mut self, i: &JoinInstance<'_, VB<T>, VB<T>>, filter: Option<&[u64]>) -> Vec<((u64, u64), T, Sym)> { self.load(i.batches1, &i.lower, filter) }
    fn cross(&mut self, i: &JoinInstance<'_, VB<T>, VB<T>>, left: &[(u64, u64)], right: &[(u64, u64)], times: Vec<T>, diffs: Vec<Sym>) -> Self::Output {
        check(B::of(left.len() == right.len() && left.len() == times.len() && left.len() == diffs.len()), "columns of different lengths");
        let names = self.names.borrow();
        let mut out = vec![];
        for (((l, r), t), d) in left.iter().zip(right).zip(times).zip(diffs) {
            check(B::of(l.0 == r.0), "records of different key hashes are matched");
            check(beyond(&i.lower, &t), "a match at a time before the unit's lower frontier");
            let ((k, v), (k2, w)) = (names.pairs[l.1 as usize], names.pairs[r.1 as usize]);
            if k == k2 { out.push(((k, (v, w)), t, d)); }
        }
        out
    }
}

fn product<T: STime>(a: &Log<T>, b: &Log<T>, q: &T, m: impl Fn(&KV, &KV) -> B) -> Sym {
    let mut out = c(0);
    for (x, t, r) in a { for (y, u, s) in b { let on = m(x, y) & t.s_le(q) & u.s_le(q); if on != FALSE { out = out + on.ite(*r * *s, c(0)); } } }
    out
}
fn joined<T: Fed>(w: &mut timely::worker::Worker, how: Present) -> (Feed<KV, T>, Feed<KV, T>, Sink<Out, T>) {
    T::build(w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope);
        let (a, b) = (a.arrange_by_key(), b.arrange_by_key());
        let s = join_with_tactic(a, b, ProxyJoinTactic::new(Backend::<T> { names: Default::default(), how, time: Default::default() }));
        (fa, fb, Sink::new(s.as_collection()))
    })
}
fn pin<T: Fed>(f: &Feed<KV, T>, from: usize, fixed: usize) { for u in &f.log[from..] { if fixed > 0 { assume(u.0.0.is(c(0))) } if fixed > 1 { assume(u.0.1.is(c(1))) } } }

fn history<T: Fed>(how: Present, ha: &Hist, hb: &Hist, fixed: usize) {
    let mut w = worker();
    let (mut fa, mut fb, sink) = joined::<T>(&mut w, how);
    let (k, v, x, q) = (if fixed > 0 { c(0) } else { var("k", 0, HI) }, if fixed > 1 { c(1) } else { var("v", 0, HI) }, if fixed > 1 { c(1) } else { var("w", 0, HI) }, T::fresh("q", HI));
    let want = |a: &Log<T>, b: &Log<T>| product(a, b, &q, |m, n| m.0.is(k) & n.0.is(k) & m.1.is(v) & n.1.is(x));
    let n = ha.rounds.len().max(hb.rounds.len());
    for i in 0..n {
        if i < ha.rounds.len() { let l = fa.log.len(); round(&mut fa, "a", ha, i); pin(&fa, l, fixed); }
        if i < hb.rounds.len() { let l = fb.log.len(); round(&mut fb, "b", hb, i); pin(&fb, l, fixed); }
        match choose("flush", if i + 1 < n { 4 } else { 3 }) { 0 => continue, 1 => fa.flush(), 2 => fb.flush(), _ => { fa.flush(); fb.flush(); } }
        steps(&mut w, 6);
        check(sink.done(&q).implies(sink.accum(&(k, (v, x)), &q).is(want(&fa.log, &fb.log))), "the accumulated output is not the product of the accumulated inputs");
    }
    fa.close(); fb.close();
    finish(&mut w);
    let want = want(&fa.log, &fb.log);
    check(sink.accum(&(k, (v, x)), &q).is(want), "the accumulated output is not the product of the accumulated inputs");
    witness("matched", !want.is(c(0)));
    note(|| format!("{:?} with {:?} gives {:?}", fa.log, fb.log, sink.out.borrow()));
}

/// One key with histories around the size at which the engine replays them in waves.
fn long<T: Fed>(how: Present, fixed: (i64, i64), symbolic: (usize, usize), vals: i64, times: fn(i64) -> T, hi: i64) {
    let mut w = worker();
    let (mut fa, mut fb, sink) = joined::<T>(&mut w, how);
    let (v, x, q) = (var("v", 0, vals - 1), var("w", 0, vals - 1), T::fresh("q", hi));
    for i in 0..fixed.0 { fa.push((c(0), c(i % vals)), times(i / vals), c(if i % 3 == 1 { -1 } else { 1 })); }
    for i in 0..fixed.1 { fb.push((c(0), c(i % vals)), times((i / vals) * 7 + 3), c(if i % 4 == 2 { -2 } else { 1 })); }
    for j in 0..symbolic.0 { fa.push((c(0), c(j as i64 % vals)), T::fresh(&format!("at{j}"), hi), var(&format!("ar{j}"), 1, 2)); }
    for j in 0..symbolic.1 { fb.push((c(0), c(j as i64 % vals)), T::fresh(&format!("bt{j}"), hi), var(&format!("br{j}"), 1, 2)); }
    match choose("flush", 3) { 1 => { fa.flush(); steps(&mut w, 6) }, 2 => { fb.flush(); steps(&mut w, 6) }, _ => { } }
    fa.close(); fb.close();
    finish(&mut w);
    let want = product(&fa.log, &fb.log, &q, |a, b| a.1.is(v) & b.1.is(x));
    check(sink.accum(&(c(0), (v, x)), &q).is(want), "the accumulated output of long histories is not the product of the accumulated inputs");
    witness("matched", !want.is(c(0)));
    note(|| format!("{} outputs from {} and {}", sink.out.borrow().len(), fa.log.len(), fb.log.len()));
}

/// The wave over arbitrary histories.
fn wave<T: DTime>(na: usize, nb: usize, vals: i64, advance: bool) {
    let side = |name: &str, n: usize| -> Vec<(Sym, T, Sym)> { (0..n).map(|i| (if vals > 1 { var(&format!("{name}v{i}"), 0, vals - 1) } else { c(0) }, T::fresh(&format!("{name}t{i}"), HI), var(&format!("{name}r{i}"), -2, 2))).collect() };
    let (a, b) = (side("a", na), side("b", nb));
    let (v, x, q) = (if vals > 1 { var("v", 0, vals - 1) } else { c(0) }, if vals > 1 { var("w", 0, vals - 1) } else { c(0) }, T::fresh("q", HI));
    let m = if advance { Some(T::fresh("m", HI)) } else { None };
    let (mut h0, mut h1) = (ValueHistory::new(), ValueHistory::new());
    h0.load_iter(a.iter().cloned(), m.as_ref());
    h1.load_iter(b.iter().cloned(), None);
    if let Some(m) = &m { assume(m.s_le(&q)); }
    let mut out = vec![];
    bilinear_wave(&mut h0, &mut h1, |v0, v1, t, d| out.push(((v0, v1), t, d)));
    check(B::of(h0.is_done() && h1.is_done()), "the histories were not drained");
    let mut want = c(0);
    for (y, t, r) in &a { for (z, u, s) in &b { want = want + (y.is(v) & z.is(x) & t.s_le(&q) & u.s_le(&q)).ite(*r * *s, c(0)); } }
    check(accum(out.iter(), &(v, x), &q).is(want), "the wave's output is not the product of the accumulated histories");
    witness("matched", !want.is(c(0)));
}

/// Replays present their edits in order, with a meet below everything to come, and a buffer that accumulates what was replayed.
fn replay<T: DTime>(n: usize, vals: i64) {
    let edits: Vec<(Sym, T, Sym)> = (0..n).map(|i| (if vals > 1 { var(&format!("v{i}"), 0, vals - 1) } else { c(0) }, T::fresh(&format!("t{i}"), HI), var(&format!("r{i}"), -2, 2))).collect();
    let by = if choose("advance", 2) == 1 { Some(T::fresh("by", HI)) } else { None };
    let moved = |t: &T| match &by { Some(b) => t.join(b), None => t.clone() };
    // Distinct edits, which loading leaves as they are.
    for i in 0..n { assume(!edits[i].2.is(c(0))); for j in 0..i { assume(!(edits[i].0.is(edits[j].0) & edits[i].1.s_eq(&edits[j].1))); if by.is_some() && edits[i].0 == edits[j].0 && moved(&edits[i].1) == moved(&edits[j].1) { assume(FALSE) } } }
    let (v, q) = (if vals > 1 { var("v", 0, vals - 1) } else { c(0) }, T::fresh("q", HI));
    let mut h = ValueHistory::new();
    h.load_iter(edits.iter().cloned(), by.as_ref());
    let mut th = TimeHistory::new();
    th.load(edits.iter().map(|e| e.1.clone()), by.as_ref());
    let mut left: Vec<(Sym, T, Sym)> = edits.iter().map(|(v, t, r)| (*v, moved(t), *r)).collect();
    let mut seen: Vec<(Sym, T, Sym)> = vec![];
    let mut past: Option<T> = None;
    while let Some(t) = h.time().cloned() {
        if let Some(p) = &past { if *p > t { fail("edits replayed out of order") } }
        let meet = h.meet().unwrap().clone();
        check(B::all(left.iter().map(|e| meet.s_le(&e.1))), "the meet is not below a time still to come");
        check(B::of(th.time() == Some(&t)), "the replays of times and of edits differ");
        check(th.meet().unwrap().s_eq(&meet), "the meets of the replays differ");
        if choose("buffer", 2) == 1 {
            h.advance_buffer_by(&meet); th.advance_buffer_by(&meet);
            check(meet.s_le(&q).implies(accum(h.buffer().iter().map(|((v, t), r)| (*v, t.clone(), *r)).collect::<Vec<_>>().iter(), &v, &q).is(accum(seen.iter(), &v, &q))), "the buffer does not accumulate what was replayed");
            check(B::all(h.buffer().iter().map(|(_, r)| !r.is(c(0)))), "a zero in the buffer");
            check(B::all(th.buffer().windows(2).map(|w| !w[0].s_eq(&w[1]))), "a repeated time in the buffer");
        }
        let mode = choose("mode", 3);
        let before: Vec<(Sym, T, Sym)> = left.clone();
        let take = |left: &mut Vec<(Sym, T, Sym)>, seen: &mut Vec<(Sym, T, Sym)>, f: &dyn Fn(&T) -> bool| { let mut i = 0; while i < left.len() { if f(&left[i].1) { seen.push(left.remove(i)) } else { i += 1 } } };
        match mode {
            0 => {
                let (ev, et, er) = h.edit().map(|(v, t, r)| (v, t.clone(), *r)).unwrap();
                let i = before.iter().position(|e| e.0 == ev && e.1 == et && e.2 == er);
                match i { None => fail("an edit that was not loaded, or was already replayed"), Some(i) => seen.push(left.remove(i)) }
                h.step();
                if h.time() != Some(&t) { th.step_while_time_is(&t); } else { while h.time() == Some(&t) { h.step(); } take(&mut left, &mut seen, &|x| *x == t); th.step_while_time_is(&t); }
            },
            1 => { check(B::of(h.step_while_time_is(&t) && th.step_while_time_is(&t)), "stepping found nothing at the next time"); take(&mut left, &mut seen, &|x| *x == t); },
            _ => { let to = left.iter().map(|e| e.1.clone()).max().unwrap(); h.step_through(&to); take(&mut left, &mut seen, &|x| *x <= to); while th.time().is_some() { let n = th.time().unwrap().clone(); th.step_while_time_is(&n); } },
        }
        past = Some(t);
        let rest = h.time().cloned();
        check(B::of(rest.is_none() == left.is_empty()), "the number of edits replayed is wrong");
        if h.is_done() { break }
    }
    // After everything, the buffers hold the whole history.
    let total: Vec<(Sym, T, Sym)> = h.buffer().iter().map(|((v, t), r)| (*v, t.clone(), *r)).collect();
    let whole = accum(seen.iter(), &v, &q);
    check(B::all(seen.iter().map(|e| e.1.s_le(&q))).implies(accum(total.iter(), &v, &q).is(whole)), "the final buffer does not accumulate the history");
    check(B::of(left.is_empty()), "edits were left behind");
    witness("cancelled", whole.is(c(0)));
}

/// A backend presenting given collections, counting the matches it is handed.
struct Given { left: Vec<((u64, u64), Sym, Sym)>, right: Vec<((u64, u64), Sym, Sym)>, seen: Rc<RefCell<Vec<(u64, u64, Sym, Sym)>>>, total: Rc<RefCell<(usize, usize)>>, watch: (u64, u64) }
impl ProxyJoinBackend<VB<Sym>, VB<Sym>> for Given {
    type R0 = Sym;
    type R1 = Sym;
    type ROut = Sym;
    type Output = Vec<()>;
    fn present0(&mut self, _: &JoinInstance<'_, VB<Sym>, VB<Sym>>, _: Option<&[u64]>) -> Vec<((u64, u64), Sym, Sym)> { self.left.clone() }
    fn present1(&mut self, _: &JoinInstance<'_, VB<Sym>, VB<Sym>>, _: Option<&[u64]>) -> Vec<((u64, u64), Sym, Sym)> { self.right.clone() }
    fn cross(&mut self, _: &JoinInstance<'_, VB<Sym>, VB<Sym>>, left: &[(u64, u64)], right: &[(u64, u64)], times: Vec<Sym>, diffs: Vec<Sym>) -> Vec<()> {
        check(B::of(left.len() == right.len() && left.len() == times.len() && left.len() == diffs.len()), "columns of different lengths");
        let mut total = self.total.borrow_mut();
        total.0 += left.len(); total.1 += 1;
        for i in 0..left.len() { if left[i].1 % self.watch.0 == 3 && right[i].1 % self.watch.1 == 3 { self.seen.borrow_mut().push((left[i].1, right[i].1, times[i], diffs[i])); } }
        vec![()]
    }
}
/// More matches than the engine hands over at once.
fn chunks(na: u64, nb: u64) {
    let (ra, rb, t) = (var("ra", 1, 3), var("rb", 1, 3), var("t", 0, HI));
    let left: Vec<_> = (0..na).map(|i| ((7, i), c(0), if i == na - 1 { ra } else { c(1) })).collect();
    let right: Vec<_> = (0..nb).map(|i| ((7, i), if i == 3 { t } else { c(0) }, if i == 3 { rb } else { c(1) })).collect();
    let (seen, total): (Rc<RefCell<Vec<_>>>, Rc<RefCell<(usize, usize)>>) = Default::default();
    let watch = ((na - 4).max(1), (nb / 8).max(5));
    let mut tactic = ProxyJoinTactic::<VB<Sym>, VB<Sym>, _>::new(Given { left: left.clone(), right: right.clone(), seen: seen.clone(), total: total.clone(), watch });
    let fresh = if choose("fresh", 2) == 0 { Fresh::Input0 } else { Fresh::Input1 };
    let outs = tactic.prep(vec![], vec![], fresh, c(0)).count();
    let (n, calls) = *total.borrow();
    check(B::of(outs == calls && n as u64 == na * nb), "matches were lost or repeated across the containers handed over");
    let seen = seen.borrow();
    let q = var("q", 0, HI);
    for a in (0..na).filter(|a| a % watch.0 == 3) { for b in (0..nb).filter(|b| b % watch.1 == 3) {
        let got = seen.iter().filter(|s| s.0 == a && s.1 == b).fold(c(0), |x, s| x + Sym::le(s.2, q).ite(s.3, c(0)));
        let (l, r) = (&left[a as usize], &right[b as usize]);
        check(got.is((Sym::le(l.1, q) & Sym::le(r.1, q)).ite(l.2 * r.2, c(0))), "a match has the wrong multiplicity or time");
    } }
    reached("chunked");
}

fn main() {
    const G: &[&str] = &["ProxyJoinTactic::prep", "join_prep", "join_key", "join_with_tactic", "arrange", "OrdValSpine"];
    const L: &[&str] = &["join_key (waves)", "bilinear_wave", "ValueHistory::{load_iter,build,step,advance_buffer_by}"];
    const H: &[&str] = &["ValueHistory::{load_iter,build,time,meet,edit,buffer,step,step_while_time_is,step_through,advance_buffer_by}", "TimeHistory::{load,time,meet,step_while_time_is,advance_buffer_by,buffer}"];
    let b = |h: &Hist, g: &Hist, t: &str| format!("{:?} and {:?} arbitrary updates per round of the two inputs (keys and values 0..=15, differences -2..=2) {t}; any flushing of either input between rounds", h.rounds, g.rounds);
    const NOW: Hist = Hist { rounds: &[1, 1], hi: HI, r: 2, times: Times::Now, free: false };
    const ONE: Hist = Hist { rounds: &[1], hi: HI, r: 1, times: Times::Later, free: false };
    const TWO: Hist = Hist { rounds: &[1, 1], hi: HI, r: 1, times: Times::Later, free: false };
    const P: Present = Present { advance: false, filter: true, hashes: 0 };
    const A: Present = Present { advance: true, filter: true, hashes: 0 };
    const C1: Present = Present { advance: true, filter: false, hashes: 1 };
    let n = "at session times 0, 1";
    let pr = "at any pair of integers at or after (0,0), (1,0)";
    let m: &[&str] = &["matched"];
    let cases = vec![
        Case::new("plain", b(&NOW, &NOW, n), G, m, || history::<Sym>(P, &NOW, &NOW, 0)),
        Case::new("advanced", b(&NOW, &NOW, n) + "; presented times advanced to the unit's frontier", G, m, || history::<Sym>(A, &NOW, &NOW, 0)),
        Case::new("collisions", b(&NOW, &NOW, n) + "; all keys share a hash, and the filter is ignored", G, m, || history::<Sym>(C1, &NOW, &NOW, 0)),
        Case::new("pairs", b(&TWO, &ONE, pr), G, m, || history::<P2>(P, &TWO, &ONE, 1)),
        Case::new("pairs advanced one datum", b(&TWO, &ONE, pr) + ", of one key and value", G, m, || history::<P2>(A, &TWO, &ONE, 2)),
        Case::new("long 16", "16 fixed updates and 1 arbitrary one (times 0..=12) on each side, for one key and 2 values; either side may arrive first", L, m, || long::<Sym>(P, (16, 16), (1, 1), 2, c, 12)),
        Case::new("long 15 16", "15 and 16 fixed updates and 1 arbitrary one on the first side", L, m, || long::<Sym>(A, (15, 16), (1, 0), 2, c, 12)),
        Case::new("long pairs", "16 fixed updates and 1 arbitrary one (pairs of times 0..=3) on each side, for one key and 2 values", L, m, || long::<P2>(P, (16, 16), (1, 1), 2, |i| P2::new(c(i % 4), c((i * 3) % 4)), 3)),
        Case::new("wave", "3 and 2 arbitrary edits with integer times 0..=15, values 0..=1, differences -2..=2", L, m, || wave::<Sym>(3, 2, 2, false)),
        Case::new("wave pairs", "2 and 2 arbitrary edits of one value with pairs of times 0..=15", L, m, || wave::<P2>(2, 2, 1, false)),
        Case::new("wave pairs advanced", "2 and 1 arbitrary edits of 2 values with pairs of times 0..=15; one side advanced", L, m, || wave::<P2>(2, 1, 2, true)),
        Case::new("replay", "3 arbitrary edits with integer times, 2 values; any replaying steps", H, &["cancelled"], || replay::<Sym>(3, 2)),
        Case::new("replay pairs", "2 arbitrary edits with pairs of times, 2 values; any replaying steps", H, &["cancelled"], || replay::<P2>(2, 2)),
        Case::new("chunk of a wave", "1100 and 1000 updates of one key, two differences and one time symbolic", L, &["chunked"], || chunks(1100, 1000)),
        Case::new("chunk of a product", "12 and 90000 updates of one key, two differences and one time symbolic", G, &["chunked"], || chunks(12, 90_000)),
        Case::new("pairs 1 1", b(&TWO, &TWO, pr) + ", of one key and value", G, m, || history::<P2>(A, &TWO, &TWO, 2)).thorough(),
        Case::new("wave pairs 3 2", "3 and 2 arbitrary edits of one value with pairs of times 0..=15", L, m, || wave::<P2>(3, 2, 1, false)).thorough(),
        Case::new("wave 3 3", "3 and 3 arbitrary edits with integer times", L, m, || wave::<Sym>(3, 3, 2, false)).thorough(),
        Case::new("replay pairs 3", "3 arbitrary edits with pairs of times", H, &["cancelled"], || replay::<P2>(3, 1)).thorough(),
        Case::new("long pairs 2 2", "16 fixed updates and 2 arbitrary ones on each side", L, m, || long::<P2>(A, (16, 16), (2, 2), 2, |i| P2::new(c(i % 4), c((i * 3) % 4)), 3)).thorough(),
    ];
    runner::run(Prop { id: "J02", title: "join engines", outside: "longer histories; backends other than the plain ones of the harness; one worker", assumptions: &["the backend is the harness's own, following its documented protocol"], cases });
}
