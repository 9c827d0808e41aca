//! Half joins, delta queries and prefix extension.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::arrange::Arranged;
use differential_dataflow::{AsCollection, VecCollection};
use differential_dogs3::altneu::AltNeu;
use differential_dogs3::calculus::{Differentiate, Integrate};
use differential_dogs3::operators::{half_join, half_join2, lookup_map, propose, validate};
use differential_dogs3::operators::propose::propose_distinct;
use differential_dogs3::{CollectionIndex, PrefixExtender, ProposeExtensionMethod, ValidateExtensionMethod};
use std::cell::RefCell;
use std::rc::Rc;
use timely::container::CapacityContainerBuilder;
use timely::dataflow::operators::vec::Map;
use timely::order::Product;
use timely::progress::Antichain;
use timely::worker::Worker;

const HI: i64 = 2;
type KV = (Sym, Sym);
type KVV = (Sym, Sym, Sym);

/// Times that can be taken one step back, so that compaction does not mislead comparisons in the total order.
trait Back: Fed + std::hash::Hash { fn back(&self) -> Self; }
fn before(t: &Sym) -> Sym { Sym::lt(c(0), *t).ite(*t - c(1), c(0)) }
impl Back for Sym { fn back(&self) -> Sym { before(self) } }
impl Back for P2 { fn back(&self) -> P2 { Product::new(before(&self.outer), before(&self.inner)) } }

#[derive(Clone, Copy, PartialEq)]
enum Which { /** The first version. */ One, /** The second. */ Two, /** The first, with yielding. */ OneYields, /** The second, with yielding. */ TwoYields }

type Spine<T> = differential_dataflow::operators::arrange::TraceAgent<differential_dataflow::trace::implementations::ValSpine<Sym, Sym, T, Sym>>;
/// One half join between `(key, value, time)` requests and an arrangement.
fn half<'s, T: Back>(yields: usize, which: Which, strict: bool, stream: VecCollection<'s, T, (Sym, Sym, T), Sym>, arr: Arranged<'s, Spine<T>>) -> VecCollection<'s, T, (KVV, T), Sym> {
        let release = |t: &T, a: &mut Antichain<T>| { a.insert(t.back()); };
        let compare = move |a: &T, b: &T| if strict { a < b } else { a <= b };
        let make = |k: &Sym, v: &Sym, w: &Sym| (*k, *v, *w);
        let left = std::cell::Cell::new(yields);
        let pause = move |_: std::time::Instant, _: usize| { if left.get() == 0 { return false; } let p = choose("yield", 2) == 1; if p { left.set(left.get() - 1) } p };
        match which {
            Which::One => half_join::half_join(stream, arr, release, compare, make),
            Which::Two => half_join2::half_join(stream, arr, release, compare, make),
            Which::OneYields => half_join::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, CapacityContainerBuilder<Vec<_>>>(stream, arr, release, compare, pause,
                |session: &mut _, k: &Sym, v: &Sym, w: &Sym, initial: &T, r: &Sym, found: &mut Vec<(T, Sym)>| { for (t, s) in found.drain(..) { timely::dataflow::operators::generic::Session::give(session, (((*k, *v, *w), t), initial.clone(), *r * s)) } }).as_collection(),
            Which::TwoYields => half_join2::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, CapacityContainerBuilder<Vec<_>>>(stream, arr, release, compare, pause,
                |builder: &mut CapacityContainerBuilder<Vec<_>>, k: &Sym, v: &Sym, w: &Sym, initial: &T, r: &Sym, found: &mut Vec<(T, Sym)>| { use timely::container::PushInto; for (t, s) in found.drain(..) { builder.push_into((((*k, *v, *w), t), initial.clone(), *r * s)) } }).as_collection(),
        }
}

fn total_less<T: Back>(a: &T, b: &T, strict: bool) -> B { let l = a.s_less(b); if strict { l } else { l | a.s_eq(b) } }

#[derive(Clone)]
struct Plan { a: &'static [usize], b: &'static [usize], /** Largest key. */ k: i64, /** Largest value. */ v: i64, r: i64, hi: i64, times: Times, steps: usize, /** How often the operator may yield. */ yields: usize }

/// Drives inputs in rounds; in each, any of the inputs may go first, and any may be flushed, with the computation stepped between.
fn drive<T: Fed>(w: &mut Worker, p: &Plan, feeds: &mut [&mut Feed<KV, T>], mut after: impl FnMut()) {
    let hists: Vec<&[usize]> = (0..feeds.len()).map(|i| if i == 0 { p.a } else { p.b }).collect();
    let n = hists.iter().map(|h| h.len()).max().unwrap();
    for i in 0..n {
        for (j, f) in feeds.iter_mut().enumerate() { if i < hists[j].len() {
            let name = ["a", "b", "e"][j];
            for u in 0..hists[j][i] {
                let d = (var(&format!("{name}k{i}.{u}"), 0, p.k), var(&format!("{name}v{i}.{u}"), 0, p.v));
                let r = var(&format!("{name}r{i}.{u}"), -p.r, p.r);
                assume(!r.is(c(0)));
                let t = match p.times { Times::Now => f.time(), Times::Later | Times::Apart => T::fresh(&format!("{name}t{i}.{u}"), p.hi) };
                f.push(d, t, r);
            }
            if i + 1 < hists[j].len() { match p.times { Times::Apart if j > 0 => f.advance_apart(&format!("{name}f{i}"), p.hi), _ => f.advance(T::tick(i as i64 + 1)) } }
        } }
        if i + 1 < n {
            match choose(&format!("ready{i}"), feeds.len() + 2) { 0 => { }, k if k <= feeds.len() => feeds[k - 1].flush(), _ => for f in feeds.iter_mut() { f.flush() } }
            steps(w, p.steps);
            after();
        }
    }
    let first = choose("first", feeds.len() + 1);
    if first < feeds.len() { feeds[first].close(); steps(w, p.steps); after(); }
    for f in feeds.iter_mut() { f.close() }
    finish(w);
}

/// A half join alone, against exactly what it admits.
fn alone<T: Back>(which: Which, p: &Plan) {
    let strict = choose("strict", 2) == 1;
    let mut w = worker();
    let extra = T::fresh("extra", p.hi);
    let ex = extra.clone();
    let (mut fa, mut fb, sink) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope);
        // Requests carry a time at or after their own.
        let reqs = a.inner.map(move |((k, v), t, r)| ((k, v, t.join(&ex)), t, r)).as_collection();
        let s = Sink::new(half(p.yields, which, strict, reqs, b.arrange_by_key()));
        (fa, fb, s)
    });
    let d: KVV = (var("k", 0, p.k), var("v", 0, p.v), var("w", 0, p.v));
    let (pay, q) = (T::fresh("pay", p.hi), T::fresh("q", p.hi));
    drive(&mut w, p, &mut [&mut fa, &mut fb], || { });
    let mut want = c(0);
    for (a, t, r) in fa.log.iter() { for (b, u, s) in fb.log.iter() {
        let m = a.0.is(d.0) & a.1.is(d.1) & b.0.is(d.0) & b.1.is(d.2) & total_less(u, t, strict) & t.s_eq(&q) & t.join(&extra).join(u).s_eq(&pay);
        want = want + m.ite(*r * *s, c(0));
    } }
    check(exact(sink.out.borrow().iter(), &(d, SDT(pay.clone())), &q).is(want), "a half join does not match exactly what its comparison admits");
    witness("matched", !want.is(c(0)));
    note(|| format!("{} outputs of {} requests", sink.out.borrow().len(), fa.log.len()));
}
/// Times in data, compared for equality.
#[derive(Clone)]
struct SDT<T>(T);
/// The sum of differences of outputs with exactly this datum, payload time and time.
fn exact<'a, T: Back>(out: impl Iterator<Item = &'a ((KVV, T), T, Sym)>, d: &(KVV, SDT<T>), q: &T) -> Sym {
    let mut acc = c(0);
    for ((x, u), t, r) in out { acc = acc + (x.s_is(&d.0) & u.s_eq(&d.1.0) & t.s_eq(q)).ite(*r, c(0)) }
    acc
}

/// What a delta query should accumulate to: the product of the inputs' accumulations.
fn product<T: Back>(logs: &[&[(KV, T, Sym)]], k: Sym, vs: &[Sym], q: &T) -> Sym {
    let mut out = c(1);
    for (log, v) in logs.iter().zip(vs) { out = out * accum(log.iter(), &(k, *v), q) }
    out
}
/// Brings each match to the time it carries.
fn settle<'s, T: Back, D: differential_dataflow::Data>(c: VecCollection<'s, T, (D, T), Sym>) -> VecCollection<'s, T, D, Sym> { c.inner.map(|((d, t), _, r)| (d, t, r)).as_collection() }
fn requests<'s, T: Back>(c: VecCollection<'s, T, KV, Sym>) -> VecCollection<'s, T, (Sym, Sym, T), Sym> { c.inner.map(|((k, v), t, r)| ((k, v, t.clone()), t, r)).as_collection() }

/// Two relations: each change to either matches the other, with ties broken one way.
fn delta2<T: Back>(which: Which, p: &Plan) {
    let mut w = worker();
    let (mut fa, mut fb, sink) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope);
        let (ia, ib) = (a.clone().arrange_by_key(), b.clone().arrange_by_key());
        let one = settle(half(p.yields, which, true, requests(a), ib));
        let two = settle(half(p.yields, which, false, requests(b), ia)).map(|(k, v, w)| (k, w, v));
        (fa, fb, Sink::new(one.concat(two)))
    });
    let (k, v, x, q) = (var("k", 0, p.k), var("v", 0, p.v), var("w", 0, p.v), T::fresh("q", p.hi));
    let mut seen = vec![];
    drive(&mut w, p, &mut [&mut fa, &mut fb], || seen.push((sink.done(&q), sink.accum(&(k, v, x), &q))));
    let want = product(&[&fa.log, &fb.log], k, &[v, x], &q);
    for (done, got) in seen { check(done.implies(got.is(want)), "a delta query of two relations is not their join at a time it has completed"); }
    check(sink.accum(&(k, v, x), &q).is(want), "a delta query of two relations does not accumulate to their join");
    witness("matched", !want.is(c(0)));
}

/// Three relations on one key, each change passing through two half joins.
fn delta3<T: Back>(which: Which, p: &Plan) {
    let mut w = worker();
    let (mut fa, mut fb, mut fe, sink) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope.clone());
        let (fe, e) = Feed::<KV, T>::new(scope);
        let (ia, ib, ie) = (a.clone().arrange_by_key(), b.clone().arrange_by_key(), e.clone().arrange_by_key());
        // Pairs found are packed into the value of the next request.
                let one = settle(half(p.yields, which, true, pack(half(p.yields, which, true, requests(a), ib.clone())), ie.clone())).map(|(k, vw, x)| (k, vw * c10() + x));
        let two = settle(half(p.yields, which, true, pack(half(p.yields, which, false, requests(b), ia.clone())), ie)).map(|(k, wv, x)| (k, swap(wv) * c10() + x));
        let three = settle(half(p.yields, which, false, pack(half(p.yields, which, false, requests(e), ia)), ib)).map(|(k, xv, w)| { let (x, v) = split(xv); (k, (v * c10() + w) * c10() + x) });
        (fa, fb, fe, Sink::new(one.concat(two).concat(three)))
    });
    let (k, v, x, y, q) = (var("k", 0, p.k), var("v", 0, 0), var("w", 0, 0), var("x", 0, 0), T::fresh("q", p.hi));
    drive(&mut w, p, &mut [&mut fa, &mut fb, &mut fe], || { });
    let want = product(&[&fa.log, &fb.log, &fe.log], k, &[v, x, y], &q);
    check(sink.accum(&(k, (v * c10() + x) * c10() + y), &q).is(want), "a delta query of three relations does not accumulate to their join");
    witness("matched", !want.is(c(0)));
}
fn pack<'s, T: Back>(c: VecCollection<'s, T, (KVV, T), Sym>) -> VecCollection<'s, T, (Sym, Sym, T), Sym> { c.inner.map(|(((k, v, w), t), i, r)| ((k, v * c10() + w, t), i, r)).as_collection() }
fn flip<'s>(c: VecCollection<'s, Sym, KV, Sym>) -> VecCollection<'s, Sym, KV, Sym> { c.map(|(x, y)| (y, x)) }
fn c10() -> Sym { c(10) }
// Values are all zero in the three-way query, so that packing is trivial.
fn swap(x: Sym) -> Sym { x }
fn split(x: Sym) -> (Sym, Sym) { (x, x) }

/// Old and new versions of each relation, by prefix extension and by joins of instantaneous changes.
fn altneu<const CALCULUS: bool>(p: &Plan) {
    let mut w = worker();
    let (mut fa, mut fb, sink) = Sym::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, Sym>::new(scope.clone());
        let (fb, b) = Feed::<KV, Sym>::new(scope.clone());
        let (ia, ib) = (a.clone().arrange_by_key(), b.clone().arrange_by_key());
        let out = scope.clone().scoped::<AltNeu<Sym>, _, _>("delta", |inner| {
            let b_neu = ib.enter_at(inner, |_, _, t| AltNeu::neu(*t), |t| before(&t.time));
            let a_alt = ia.enter_at(inner, |_, _, t| AltNeu::alt(*t), |t| before(&t.time));
            if CALCULUS {
                let one = a.differentiate(inner).join_core(b_neu, |k, v, w| Some((*k, *v, *w)));
                let two = b.differentiate(inner).join_core(a_alt, |k, w, v| Some((*k, *v, *w)));
                one.concat(two).integrate(scope)
            } else {
                let one = propose(a.enter(inner), b_neu, |x: &KV| x.0).map(|((k, v), w)| (k, v, w));
                let two = propose(b.enter(inner), a_alt, |x: &KV| x.0).map(|((k, w), v)| (k, v, w));
                one.concat(two).leave(scope)
            }
        });
        (fa, fb, Sink::new(out))
    });
    let (k, v, x, q) = (var("k", 0, p.k), var("v", 0, p.v), var("w", 0, p.v), var("q", 0, p.hi));
    let mut seen = vec![];
    drive(&mut w, p, &mut [&mut fa, &mut fb], || seen.push((sink.done(&q), sink.accum(&(k, v, x), &q))));
    let want = product(&[&fa.log, &fb.log], k, &[v, x], &q);
    for (done, got) in seen { check(done.implies(got.is(want)), "a query over old and new versions is not the join at a time it has completed"); }
    check(sink.accum(&(k, v, x), &q).is(want), "a query over old and new versions does not accumulate to the join");
    witness("matched", !want.is(c(0)));
}

/// Triangles: each edge relation's changes extended by one and validated by the other.
fn triangles(p: &Plan) {
    let mut w = worker();
    let (mut fa, mut fb, mut fe, sink) = Sym::build(&mut w, |scope| {
        // Q(a, b, c) := A(a, b), B(b, c), E(a, c)
        let (fa, a) = Feed::<KV, Sym>::new(scope.clone());
        let (fb, b) = Feed::<KV, Sym>::new(scope.clone());
        let (fe, e) = Feed::<KV, Sym>::new(scope.clone());
                let b_key = b.clone().arrange_by_key();
        let e_self = e.clone().arrange_by_self();
        let a_rev = flip(a.clone()).arrange_by_key();
        let a_key = a.clone().arrange_by_key();
        let b_self = b.clone().arrange_by_self();
        let out = scope.clone().scoped::<AltNeu<Sym>, _, _>("delta", |inner| {
            let one = propose(a.enter(inner), b_key.enter_at(inner, |_, _, t| AltNeu::neu(*t), |t| before(&t.time)), |x: &KV| x.1);
            let one = validate(one, e_self.clone().enter_at(inner, |_, _, t| AltNeu::neu(*t), |t| before(&t.time)), |x: &KV| x.0).map(|((a, b), c)| (a, b, c));
            let two = propose(b.enter(inner), a_rev.enter_at(inner, |_, _, t| AltNeu::alt(*t), |t| before(&t.time)), |x: &KV| x.0).map(|((b, c), a)| ((a, b), c));
            let two = validate(two, e_self.enter_at(inner, |_, _, t| AltNeu::neu(*t), |t| before(&t.time)), |x: &KV| x.0).map(|((a, b), c)| (a, b, c));
            let three = propose(e.enter(inner), a_key.enter_at(inner, |_, _, t| AltNeu::alt(*t), |t| before(&t.time)), |x: &KV| x.0).map(|((a, c), b)| ((a, b), c));
            let three = validate(three, b_self.enter_at(inner, |_, _, t| AltNeu::alt(*t), |t| before(&t.time)), |x: &KV| x.1).map(|((a, b), c)| (a, b, c));
            one.concat(two).concat(three).leave(scope)
        });
        (fa, fb, fe, Sink::new(out))
    });
    let (x, y, z, q) = (var("x", 0, p.k), var("y", 0, p.k), var("z", 0, p.k), var("q", 0, p.hi));
    drive(&mut w, p, &mut [&mut fa, &mut fb, &mut fe], || { });
    // Validation asks only whether a record is present: relations are sets.
    for log in [&fa.log, &fb.log, &fe.log] { for (d, t, _) in log.iter() { let n = accum(log.iter(), d, t); assume(Sym::le(c(0), n) & Sym::le(n, c(1))); } }
    let want = accum(fa.log.iter(), &(x, y), &q) * accum(fb.log.iter(), &(y, z), &q) * accum(fe.log.iter(), &(x, z), &q);
    check(sink.accum(&(x, y, z), &q).is(want), "triangles by extension are not the three-way join");
    witness("matched", !want.is(c(0)));
}

/// Looks up what is present at the time of each prefix, in each of the ways provided.
fn lookups<T: Back>(kind: usize, p: &Plan) {
    let mut w = worker();
    let (mut fa, mut fb, sink) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope);
        let key = |x: &KV| x.0;
        let out: VecCollection<'_, T, (KV, Sym), Sym> = match kind {
            0 => propose(a, b.arrange_by_key(), key),
            1 => propose_distinct(a, b.arrange_by_key(), key),
            2 => validate(a.map(|(k, v)| ((k, v), v)), b.arrange_by_self(), key),
            3 => lookup_map(a, b.arrange_by_key(), |x: &KV, k: &mut Sym| *k = x.0, |x, r, v, n| ((*x, *v), *r - *n), c(0), c(0), c(0)),
            4 => { let ix = CollectionIndex::index(b); let mut ex = ix.extend_using(|x: &KV| x.0); a.propose_using(&mut ex) },
            _ => { let ix = CollectionIndex::index(b); let mut ex = ix.extend_using(|x: &KV| x.0); a.map(|(k, v)| ((k, v), v)).validate_using(&mut ex) },
        };
        (fa, fb, Sink::new(out))
    });
    let (k, v, x, q) = (var("k", 0, p.k), var("v", 0, p.v), var("w", 0, p.v), T::fresh("q", p.hi));
    let mut seen = vec![];
    drive(&mut w, p, &mut [&mut fa, &mut fb], || seen.push((sink.done(&q), sink.accum(&((k, v), x), &q))));
    let mut want = c(0);
    for (d, t, r) in fa.log.iter() {
        // The query's own value is what is proposed or validated.
        let n = accum(fb.log.iter(), &(d.0, x), t);
        let here = d.0.is(k) & d.1.is(v) & t.s_le(&q) & !n.is(c(0));
        let e = match kind { 0 | 4 => *r * n, 1 => *r, 2 | 5 => { assume_or(x.is(v)).ite(*r, c(0)) }, _ => *r - n };
        want = want + here.ite(e, c(0));
    }
    for (done, got) in seen { check(done.implies(got.is(want)), "a lookup is not what was present, at a time it has completed"); }
    check(sink.accum(&((k, v), x), &q).is(want), "a lookup does not find exactly what was present at its time");
    witness("found", !want.is(c(0)));
}
fn assume_or(b: B) -> B { b }

/// Prefixes extended by two relations, whichever proposes fewer.
fn extend<T: Back>(p: &Plan) where CollectionIndex<Sym, Sym, T, Sym>: Clone {
    let mut w = worker();
    let (mut fa, mut fb, mut fe, sink) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<KV, T>::new(scope.clone());
        let (fb, b) = Feed::<KV, T>::new(scope.clone());
        let (fe, e) = Feed::<KV, T>::new(scope);
        let mut one = CollectionIndex::index(b).extend_using(|x: &KV| x.0);
        let mut two = CollectionIndex::index(e).extend_using(|x: &KV| x.1);
        let out = a.extend(&mut [&mut one as &mut dyn PrefixExtender<T, Sym, Prefix = KV, Extension = Sym>, &mut two]);
        (fa, fb, fe, Sink::new(out))
    });
    let (k, v, x, q) = (var("k", 0, p.k), var("v", 0, p.v), var("x", 0, p.v), T::fresh("q", p.hi));
    drive(&mut w, p, &mut [&mut fa, &mut fb, &mut fe], || { });
    for log in [&fb.log, &fe.log] { for (d, t, _) in log.iter() { let n = accum(log.iter(), d, t); assume(Sym::le(c(0), n) & Sym::le(n, c(1))); } }
    let mut want = c(0);
    for (d, t, r) in fa.log.iter() {
        let n = accum(fb.log.iter(), &(d.0, x), t) * accum(fe.log.iter(), &(d.1, x), t);
        want = want + (d.0.is(k) & d.1.is(v) & t.s_le(&q) & !n.is(c(0))).ite(*r, c(0));
    }
    check(sink.accum(&((k, v), x), &q).is(want), "extensions are not what every relation has");
    witness("extended", !want.is(c(0)));
}

/// Instantaneous changes, and what they integrate to.
fn calculus<T: Back>(n: usize, hi: i64) {
    let mut w = worker();
    let (mut fa, sink, inner) = T::build(&mut w, |scope| {
        let (fa, a) = Feed::<Sym, T>::new(scope.clone());
        let seen: Rc<RefCell<Vec<(Sym, AltNeu<T>, Sym)>>> = Default::default();
        let s2 = seen.clone();
        let out = scope.clone().scoped::<AltNeu<T>, _, _>("delta", |child| {
            a.differentiate(child).inspect(move |(d, t, r)| s2.borrow_mut().push((*d, t.clone(), *r))).integrate(scope)
        });
        (fa, Sink::new(out), seen)
    });
    let (d, q) = (var("d", 0, hi), T::fresh("q", hi));
    for i in 0..n { fa.push(var(&format!("d{i}"), 0, hi), T::fresh(&format!("t{i}"), hi), var(&format!("r{i}"), -2, 2)); }
    fa.close();
    finish(&mut w);
    let at = ddverif::model::exact(fa.log.iter(), &d, &q);
    check(sink.accum(&d, &q).is(accum(fa.log.iter(), &d, &q)), "integration does not undo differentiation");
    check(accum_an(&inner.borrow(), d, &AltNeu::alt(q.clone())).is(at), "just after a time begins, the change is not what happened then");
    check(accum_an(&inner.borrow(), d, &AltNeu::neu(q.clone())).is(c(0)), "an instantaneous change lasts");
    witness("changed", !at.is(c(0)));
}
/// Accumulations in the order of old and new times, stated independently.
fn accum_an<T: Back>(xs: &[(Sym, AltNeu<T>, Sym)], d: Sym, q: &AltNeu<T>) -> Sym {
    let mut acc = c(0);
    for (x, t, r) in xs { acc = acc + (x.is(d) & t.s_le(q)).ite(*r, c(0)) }
    acc
}

const HJ: &[&str] = &["dogsdogsdogs::operators::half_join::{half_join, half_join_internal_unsafe, process_proposals}", "dogsdogsdogs::operators::half_join2::{half_join, half_join_internal_unsafe, Blob}"];
const LM: &[&str] = &["dogsdogsdogs::operators::{lookup_map, propose, propose_distinct, validate, count}", "dogsdogsdogs::{CollectionIndex, CollectionExtender, ProposeExtensionMethod, ValidateExtensionMethod}", "dogsdogsdogs::altneu::AltNeu", "dogsdogsdogs::calculus::{Differentiate, Integrate}"];
/// Two rounds at the times of the inputs.
const BASE: Plan = Plan { a: &[1, 1], b: &[1, 1], k: 1, v: 1, r: 1, hi: 2, times: Times::Now, steps: 4, yields: 2 };
/// Two rounds at any later times.
const LATE: Plan = Plan { k: 1, v: 0, times: Times::Later, ..BASE };
const YBASE: Plan = Plan { v: 0, ..BASE };
const YLATE: Plan = Plan { k: 0, yields: 1, ..LATE };
const YMANY: Plan = Plan { yields: 1, ..MANY };
/// One round at any times, with more requests, or more to match.
const MANY: Plan = Plan { a: &[2], b: &[1], k: 0, v: 0, times: Times::Later, ..BASE };
const WIDE: Plan = Plan { a: &[1], b: &[2], k: 0, v: 1, times: Times::Later, ..BASE };
const ONE3: Plan = Plan { a: &[1], b: &[1], k: 1, v: 1, r: 2, times: Times::Later, ..BASE };
/// Requests that wait for successive rounds of what they match.
const STAGED: Plan = Plan { a: &[2], b: &[0, 0, 1], k: 0, v: 0, times: Times::Later, ..BASE };
const YSTAGED: Plan = Plan { yields: 1, ..STAGED };
/// What is matched moves to antichains.
const SPLIT: Plan = Plan { a: &[1], b: &[0, 1], k: 0, v: 0, times: Times::Apart, ..BASE };
const YSPLIT: Plan = Plan { yields: 1, ..SPLIT };
const DEEP: Plan = Plan { a: &[1, 1], b: &[1, 1], k: 1, v: 1, r: 2, hi: 2, times: Times::Later, steps: 4, yields: 3 };
const MORE: Plan = Plan { a: &[2], b: &[2], k: 1, v: 1, ..DEEP };

fn main() {
    let mut cases = vec![];
    let t = "two rounds of one update to each input, at the time of the input; keys and values 0..=1, differences -1 or 1";
    let l = "two rounds of one update to each input, at arbitrary later times 0..=2; keys 0..=1";
    let m = "two requests and one arranged update, of one key, at arbitrary pairs of times 0..=2";
    let wd = "one request and two arranged updates, of one key, at arbitrary pairs of times 0..=2";
    let dp = "two rounds of one update to each input, at arbitrary later times 0..=2; keys and values 0..=1, differences up to 2";
    let mo = "two updates to each input at arbitrary pairs of times 0..=2; keys and values 0..=1";
    for ([n1, n2, n3, n4, n5, n6, n7, n8], which) in [
        (["alone", "alone later", "alone pairs many", "alone pairs wide", "alone deep", "alone pairs more", "alone staged", "alone split"], Which::One),
        (["second alone", "second alone later", "second alone pairs many", "second alone pairs wide", "second alone deep", "second alone pairs more", "second alone staged", "second alone split"], Which::Two),
        (["yields alone", "yields alone later", "yields alone pairs many", "yields alone pairs wide", "yields alone deep", "yields alone pairs more", "yields alone staged", "yields alone split"], Which::OneYields),
        (["second yields alone", "second yields alone later", "second yields alone pairs many", "second yields alone pairs wide", "second yields alone deep", "second yields alone pairs more", "second yields alone staged", "second yields alone split"], Which::TwoYields)] {
        let y = matches!(which, Which::OneYields | Which::TwoYields);
        cases.push(Case::new(n1, if y { "as alone, with one value and up to two yields" } else { t }, HJ, &["matched"], move || alone::<Sym>(which, if y { &YBASE } else { &BASE })));
        cases.push(Case::new(n2, if y { "as alone later, with one key and up to one yield" } else { l }, HJ, &["matched"], move || alone::<Sym>(which, if y { &YLATE } else { &LATE })));
        cases.push(Case::new(n3, if y { "as alone pairs many, with up to one yield" } else { m }, HJ, &["matched"], move || alone::<P2>(which, if y { &YMANY } else { &MANY })));
        let wide = Case::new(n4, wd, HJ, &["matched"], move || alone::<P2>(which, &WIDE));
        cases.push(if y { wide.thorough() } else { wide });
        cases.push(Case::new(n7, "two requests at any times 0..=2, and an arranged update in the third of its rounds; one key and value (and up to one yield)", HJ, &["matched"], move || alone::<Sym>(which, if y { &YSTAGED } else { &STAGED })));
        cases.push(Case::new(n8, "a request at any pair of times 0..=2, and an arranged update after any antichain of up to two", HJ, &["matched"], move || alone::<P2>(which, if y { &YSPLIT } else { &SPLIT })));
        cases.push(Case::new(n5, dp, HJ, &["matched"], move || alone::<Sym>(which, &DEEP)).thorough());
        cases.push(Case::new(n6, mo, HJ, &["matched"], move || alone::<P2>(which, &MORE)).thorough());
    }
    for ([n1, n2, n3, n4, n5], which) in [(["delta 2", "delta 2 pairs", "delta 3", "delta 2 deep", "delta 2 pairs more"], Which::One), (["second delta 2", "second delta 2 pairs", "second delta 3", "second delta 2 deep", "second delta 2 pairs more"], Which::Two)] {
        cases.push(Case::new(n1, l, HJ, &["matched"], move || delta2::<Sym>(which, &LATE)));
        cases.push(Case::new(n2, m, HJ, &["matched"], move || delta2::<P2>(which, &MANY)));
        cases.push(Case::new(n3, "one update to each input, at arbitrary times", HJ, &["matched"], move || delta3::<Sym>(which, &ONE3)));
        cases.push(Case::new(n4, dp, HJ, &["matched"], move || delta2::<Sym>(which, &DEEP)).thorough());
        cases.push(Case::new(n5, mo, HJ, &["matched"], move || delta2::<P2>(which, &MORE)).thorough());
    }
    cases.push(Case::new("old and new", t, LM, &["matched"], || altneu::<false>(&BASE)));
    cases.push(Case::new("old and new later", l, LM, &["matched"], || altneu::<false>(&LATE)));
    cases.push(Case::new("old and new joins", l, LM, &["matched"], || altneu::<true>(&LATE)));
    cases.push(Case::new("triangles", "one update to each input, at arbitrary times", LM, &["matched"], || triangles(&ONE3)));
    for (i, (n1, n2, n3)) in [("propose", "propose pairs", "propose deep"), ("propose distinct", "propose distinct pairs", "propose distinct deep"), ("validate", "validate pairs", "validate deep"), ("lookup", "lookup pairs", "lookup deep"), ("index propose", "index propose pairs", "index propose deep"), ("index validate", "index validate pairs", "index validate deep")].into_iter().enumerate() {
        cases.push(Case::new(n1, l, LM, &["found"], move || lookups::<Sym>(i, &LATE)));
        cases.push(Case::new(n2, wd, LM, &["found"], move || lookups::<P2>(i, &WIDE)));
        cases.push(Case::new(n3, dp, LM, &["found"], move || lookups::<Sym>(i, &DEEP)).thorough());
    }
    cases.push(Case::new("extend", "one update to each input, at arbitrary times", LM, &["extended"], || extend::<Sym>(&ONE3)));
    cases.push(Case::new("extend more", "one prefix and two updates to each relation, at arbitrary times", LM, &["extended"], || extend::<Sym>(&Plan { k: 0, ..WIDE })).thorough());
    cases.push(Case::new("calculus", "three updates at arbitrary times 0..=2", LM, &["changed"], || calculus::<Sym>(3, HI)));
    cases.push(Case::new("calculus pairs", "two updates at arbitrary pairs of times 0..=2", LM, &["changed"], || calculus::<P2>(2, HI)));
    runner::run(Prop { id: "H01", title: "delta joins", outside: "more updates, relations and rounds; more than three yields; one worker", assumptions: &[
        "the comparison is strict or not in the total order of times, and compaction is held back by one step, as in the packaged examples",
        "where presence is asked (validation, extension by several relations) the relations are sets",
    ], cases });
}
