//! Times of dynamic scopes, their path summaries, and the operators that use them.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::dynamic::feedback_summary;
use differential_dataflow::dynamic::pointstamp::{PointStamp, PointStampSummary};
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::iterate::Variable;
use timely::order::Product;
use timely::progress::timestamp::{PathSummary, Refines};
use timely::progress::Timestamp;
use timely::PartialOrder;

const HI: i64 = 100;

/// An arbitrary coordinate sequence of at most `n` coordinates, with what it was made from.
fn seq(name: &str, n: usize) -> (Vec<Sym>, PointStamp<Sym>) {
    let k = choose(&format!("{name}.len"), n + 1);
    let v: Vec<Sym> = (0..k).map(|i| var(&format!("{name}.{i}"), 0, HI)).collect();
    (v.clone(), PointStamp::new(v.into_iter().collect()))
}
fn trimmed(p: &[Sym]) -> B { match p.last() { Some(x) => !x.is(c(0)), None => TRUE } }

fn padded_laws(n: usize) {
    let ((va, a), (vb, b)) = (seq("a", n), seq("b", n));
    check(pad_eq(&a, &va), "a time differs from the coordinates it was made from");
    check(trimmed(&a), "a time ends with a minimal coordinate");
    check(pad_eq(&a.clone().into_inner(), &va), "the coordinates of a time are not those it was made from");
    check(pad_le(&va, &vb).iff(B::of(a.less_equal(&b))), "less_equal disagrees with the padded coordinates");
    check((pad_le(&va, &vb) & !pad_eq(&va, &vb)).iff(B::of(a.less_than(&b))), "less_than disagrees with the padded coordinates");
    check(pad_eq(&va, &vb).iff(B::of(a == b)), "equality disagrees with the padded coordinates");
    let order = a.cmp(&b);
    check(pad_eq(&va, &vb).iff(B::of(order == std::cmp::Ordering::Equal)), "the total order disagrees with equality");
    if a.less_equal(&b) { check(B::of(order != std::cmp::Ordering::Greater), "the total order does not extend the partial order"); }
    let m = va.len().max(vb.len());
    let at = |f: &dyn Fn(Sym, Sym) -> Sym| -> Vec<Sym> { (0..m).map(|i| f(padded(&va, i), padded(&vb, i))).collect() };
    let (jw, mw) = (at(&|x, y| x.max_of(y)), at(&|x, y| x.min_of(y)));
    let (j, k) = (a.join(&b), a.meet(&b));
    check(pad_eq(&j, &jw) & trimmed(&j), "join is not the padded maximum");
    check(pad_eq(&k, &mw) & trimmed(&k), "meet is not the padded minimum");
    let (mut ja, mut ka) = (a.clone(), a.clone());
    ja.join_assign(&b);
    ka.meet_assign(&b);
    check(pad_eq(&ja, &jw) & trimmed(&ja), "join_assign is not the padded maximum");
    check(pad_eq(&ka, &mw) & trimmed(&ka), "meet_assign is not the padded minimum");
    let min = PointStamp::<Sym>::minimum();
    check(pad_eq(&min, &[]), "the minimum is not the padded minimum");
    check(pad_eq(&<PointStamp<Sym> as Refines<()>>::to_inner(()), &[]), "entering does not give the minimum");
    witness("longer", B::of(va.len() > vb.len()));
    witness("ordered", pad_le(&va, &vb) & !pad_eq(&va, &vb));
    witness("incomparable", !pad_le(&va, &vb) & !pad_le(&vb, &va));
}

/// Comparisons with borrowed coordinates, which may end with minima.
fn borrowed(n: usize) {
    let ((va, a), (vb, _)) = (seq("a", n), seq("b", n));
    let slice: &[Sym] = &vb;
    check(pad_le(&va, &vb).iff(B::of(PartialOrder::<[Sym]>::less_equal(&a, slice))), "less_equal with borrowed coordinates disagrees with the padded coordinates");
    check(pad_le(&vb, &va).iff(B::of(PartialOrder::<PointStamp<Sym>>::less_equal(slice, &a))), "less_equal of borrowed coordinates disagrees with the padded coordinates");
    check(pad_eq(&va, &vb).iff(B::of(PartialEq::<[Sym]>::eq(&a, slice))), "equality with borrowed coordinates disagrees with the padded coordinates");
    check(pad_eq(&vb, &va).iff(B::of(PartialEq::<PointStamp<Sym>>::eq(slice, &a))), "equality of borrowed coordinates disagrees with the padded coordinates");
    check((pad_le(&va, &vb) & !pad_eq(&va, &vb)).iff(B::of(PartialOrder::<[Sym]>::less_than(&a, slice))), "less_than with borrowed coordinates disagrees with the padded coordinates");
    check((pad_le(&vb, &va) & !pad_eq(&va, &vb)).iff(B::of(PartialOrder::<PointStamp<Sym>>::less_than(slice, &a))), "less_than of borrowed coordinates disagrees with the padded coordinates");
    witness("longer", B::of(vb.len() > va.len()));
    witness("equal", pad_eq(&va, &vb));
}

fn summary(name: &str, n: usize) -> PointStampSummary<Sym> {
    let retain = match choose(&format!("{name}.retain"), n + 2) { 0 => None, k => Some(k - 1) };
    let k = choose(&format!("{name}.actions"), n + 1);
    PointStampSummary { retain, actions: (0..k).map(|i| var(&format!("{name}.{i}"), 0, HI)).collect() }
}
/// Truncated to the retained coordinates, then incremented.
fn applied(s: &PointStampSummary<Sym>, v: &[Sym]) -> Vec<Sym> {
    let mut v = v.to_vec();
    if let Some(r) = s.retain { v.truncate(r); }
    (0..v.len().max(s.actions.len())).map(|i| padded(&v, i) + padded(&s.actions, i)).collect()
}
fn summaries(n: usize) {
    let (va, a) = seq("a", n);
    let (s, t) = (summary("s", n), summary("t", n));
    let ra = match s.results_in(&a) { Some(r) => r, None => fail("a path that leads nowhere") };
    check(pad_eq(&ra, &applied(&s, &va)) & trimmed(&ra), "a summary does not truncate and increment");
    let st: PointStampSummary<Sym> = match PathSummary::<PointStamp<Sym>>::followed_by(&s, &t) { Some(r) => r, None => fail("paths that do not compose") };
    let (one, two) = (st.results_in(&a), t.results_in(&ra));
    match (one, two) {
        (Some(x), Some(y)) => check(pad_eq(&x, &y), "composed summaries disagree with applying them in turn"),
        _ => fail("a path that leads nowhere"),
    }
    let id = PointStampSummary::<Sym>::default();
    check(B::of(id.results_in(&a) == Some(a.clone())), "the default summary changes a time");
    // A later path from the same time.
    if s.less_equal(&t) { let rt = t.results_in(&a).unwrap(); check(pad_le(&ra, &rt), "ordered summaries lead to unordered times"); witness("ordered", B::of(s != t)); }
    witness("truncated", B::of(s.retain.is_some_and(|r| r < va.len())));
}
fn monotone(n: usize) {
    let ((va, a), (vb, b)) = (seq("a", n), seq("b", n));
    let s = summary("s", n);
    assume(pad_le(&va, &vb));
    let (x, y) = (s.results_in(&a).unwrap(), s.results_in(&b).unwrap());
    check(pad_le(&x, &y), "a summary is not monotone");
    witness("moved", !pad_eq(&x, &y));
}
/// The summary of a loop's feedback moves exactly its own coordinate.
fn feedback(n: usize) {
    let (va, a) = seq("a", n);
    let level = 1 + choose("level", n);
    let by = var("by", 0, HI);
    let r = feedback_summary::<Sym>(level, by).results_in(&a).unwrap();
    let want: Vec<Sym> = (0..level.max(va.len())).map(|i| if i + 1 == level { padded(&va, i) + by } else { padded(&va, i) }).collect();
    check(pad_eq(&r, &want), "feedback does not move just its own coordinate");
    witness("short", B::of(va.len() < level));
}

/// Leaving keeps the outer coordinates.
fn leaving(level: usize, h: &Hist) {
    let mut w = worker();
    let (mut feed, sink) = PD::build(&mut w, |scope| {
        let (feed, coll) = Feed::<Sym, PD>::new(scope);
        (feed, Sink::new(coll.enter_dynamic(level).leave_dynamic(level)))
    });
    let (k, q) = (var("k", 0, HI), PD::fresh("q", HI));
    let left = |t: &PD| -> PD { Product::new(t.outer, PointStamp::new(t.inner.iter().take(level - 1).cloned().collect())) };
    let want = |log: &[(Sym, PD, Sym)]| { let moved: Vec<_> = log.iter().map(|(d, t, r)| (*d, left(t), *r)).collect(); accum(moved.iter(), &k, &q) };
    for i in 0..h.rounds.len() {
        round(&mut feed, "", h, i);
        if i + 1 < h.rounds.len() && choose("flush", 2) == 1 {
            feed.flush();
            steps(&mut w, 4);
            check(sink.done(&q).implies(sink.accum(&k, &q).is(want(&feed.log))), "leaving a dynamic scope does not preserve accumulations");
        }
    }
    feed.close();
    finish(&mut w);
    check(sink.accum(&k, &q).is(want(&feed.log)), "leaving a dynamic scope does not preserve accumulations");
    for (_, t, _) in sink.out.borrow().iter() { check(B::of(t.inner.len() < level), "a time that keeps coordinates of a scope it left"); }
    if feed.log.iter().any(|u| u.1.inner.len() >= level) { reached("truncated"); }
}

/// A loop in a dynamic scope, `depth` deep, that adds successors up to a limit.
fn iterating(level: usize, limit: i64, h: &Hist) {
    let mut w = worker();
    let (mut feed, sink) = PD::build(&mut w, |scope| {
        let (feed, coll) = Feed::<Sym, PD>::new(scope);
        let (variable, inner) = Variable::new_from(coll.enter_dynamic(level), Product::new(c(0), feedback_summary::<Sym>(level, c(1))));
        let next = inner.clone().map(|x| x + c(1)).filter(move |x| *x <= c(limit)).concat(inner).distinct_core::<Sym>();
        variable.set(next.clone());
        (feed, Sink::new(next.leave_dynamic(level)))
    });
    let q = Product::new(var("q", 0, 3), PointStamp::new(if level > 1 { vec![var("qi", 0, 3)] } else { vec![] }.into_iter().collect()));
    let expect = |log: &[(Sym, PD, Sym)]| -> Vec<Sym> {
        let mut now: Vec<Sym> = (0..=limit).map(|x| accum(log.iter(), &c(x), &q)).collect();
        for _ in 0..=limit { now = (0..=limit as usize).map(|x| { let n = if x > 0 { now[x - 1] + now[x] } else { now[x] }; n.is(c(0)).ite(c(0), c(1)) }).collect(); }
        now
    };
    let judge = |log: &[(Sym, PD, Sym)], done: bool| {
        let want = expect(log);
        let when = if done { TRUE } else { sink.done(&q) };
        for x in 0..=limit { check(when.implies(sink.accum(&c(x), &q).is(want[x as usize])), "iterating in a dynamic scope does not reach the fixed point"); }
    };
    for i in 0..h.rounds.len() {
        for j in 0..h.rounds[i] {
            let r = var(&format!("r{i}.{j}"), 0, 1);
            let d = var(&format!("d{i}.{j}"), 0, limit);
            // Earlier records may be withdrawn.
            if i > 0 && choose(&format!("withdraw{i}.{j}"), 2) == 1 { let (d, _, r) = feed.log[0].clone(); let t = feed.time(); feed.push(d, t, c(0) - r); }
            else { let t = feed.time(); feed.push(d, t, r); }
        }
        if i + 1 < h.rounds.len() {
            let t: PD = if level > 1 { Product::new(c(0), PointStamp::new([c(i as i64 + 1)].into_iter().collect())) } else { PD::tick(i as i64 + 1) };
            feed.advance(t);
            if choose("flush", 2) == 1 { feed.flush(); steps(&mut w, 60); judge(&feed.log, false); }
        }
    }
    feed.close();
    finish(&mut w);
    judge(&feed.log, true);
    witness("withdrawn", accum(feed.log.iter(), &feed.log[0].0, &q).is(c(0)) & !feed.log[0].2.is(c(0)) & feed.log[0].1.s_le(&q));
}

fn main() {
    const P: &[&str] = &["PointStamp::{new,into_inner,less_equal,eq,cmp,join,meet,join_assign,meet_assign,minimum,to_inner}"];
    const S: &[&str] = &["PointStampSummary::{results_in,followed_by,less_equal}"];
    const L: &[&str] = &["VecCollection::{enter_dynamic,leave_dynamic}", "PointStampSummary::{results_in,followed_by}", "timely progress tracking over PointStampSummary"];
    const T: &[&str] = &["VecCollection::{enter_dynamic,leave_dynamic}", "feedback_summary", "Variable::{new_from,set}", "distinct, reduce, arrange at PointStamp times"];
    let b = |n: usize| format!("sequences of up to {n} coordinates, each any integer in 0..=100");
    const H: Hist = Hist { rounds: &[1, 1], hi: HI, r: 2, times: Times::Later, free: true };
    let hb = |n: usize| format!("[1, 1] arbitrary updates (times of an outer integer and up to 2 coordinates in 0..=100) at arbitrary successive session times, leaving {n} levels; any flushing between");
    let cases = vec![
        Case::new("coordinates", b(3), P, &["longer", "ordered", "incomparable"], || padded_laws(3)),
        Case::new("borrowed", b(3), &["PartialOrder<[T]> and PartialEq<[T]> for PointStamp, and the reverse"], &["longer", "equal"], || borrowed(3)),
        Case::new("summaries", b(2) + "; two summaries retaining any or up to 2 coordinates with up to 2 increments in 0..=100", S, &["ordered", "truncated"], || summaries(2)),
        Case::new("monotone", b(2) + "; one summary as above", S, &["moved"], || monotone(2)),
        Case::new("feedback", b(3), &["feedback_summary", "PointStampSummary::results_in"], &["short"], || feedback(3)),
        Case::new("leave 1", hb(1), L, &["truncated"], || leaving(1, &H)),
        Case::new("leave 2", hb(2), L, &["truncated"], || leaving(2, &H)),
        Case::new("iterate", "[1, 1, 1] updates of integers in 0..=3, each arbitrary or withdrawing the first, any flushing between; the loop adds successors up to 3", T, &["withdrawn"], || iterating(1, 3, &Hist { rounds: &[1, 1, 1], ..H })),
        Case::new("iterate deeper", "as above at level 2, limit 2, [1, 1]", T, &["withdrawn"], || iterating(2, 2, &Hist { rounds: &[1, 1], ..H })),
        Case::new("coordinates 4", b(4), P, &["longer", "ordered", "incomparable"], || padded_laws(4)).thorough(),
        Case::new("borrowed 4", b(4), P, &["longer", "equal"], || borrowed(4)).thorough(),
        Case::new("summaries 3", b(3) + "; two summaries of up to 3", S, &["ordered", "truncated"], || summaries(3)).thorough(),
        Case::new("monotone 3", b(3) + "; one summary as above", S, &["moved"], || monotone(3)).thorough(),
        Case::new("iterate more", "[2, 1, 1] updates of integers in 0..=3", T, &["withdrawn"], || iterating(1, 3, &Hist { rounds: &[2, 1, 1], ..H })).thorough(),
    ];
    runner::run(Prop { id: "I02", title: "dynamic iteration", outside: "longer sequences; coordinate types other than integers", assumptions: &["increments are not negative"], cases });
}
