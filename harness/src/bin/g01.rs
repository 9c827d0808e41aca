//! Packaged algorithms on symbolic small inputs that change, against their definitions.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::sym::hash_by;
use ddverif::*;
use differential_dataflow::algorithms::graphs::{bfs::bfs, bijkstra::bidijkstra, propagate, scc, sequential::sequence};
use differential_dataflow::algorithms::identifiers::Identifiers;
use differential_dataflow::algorithms::prefix_sum::PrefixSum;
use differential_dataflow::{AsCollection, VecCollection};
use std::hash::Hash;
use timely::dataflow::operators::vec::Map;

type Edge = (Sym, Sym);

/// Differences as machine integers, where they are known.
fn units<'s, T: Fed, D: differential_dataflow::Data>(coll: VecCollection<'s, T, D, Sym>) -> VecCollection<'s, T, D, isize> {
    coll.inner.map(|(d, t, r)| (d, t, r.as_const().expect("a known difference") as isize)).as_collection()
}

/// How inputs change.
#[derive(Clone, Copy)]
struct Plan { /** Additions, or (after the first round) changes, per round. */ edges: &'static [usize], /** As above, of the other input. */ other: &'static [usize], nodes: i64, /** At any pair of times. */ later: bool }

/// Changes one input: additions, and after the first round withdrawals of anything present.
fn change<D: differential_dataflow::Data, T: Fed>(f: &mut Feed<D, T>, name: &str, i: usize, n: usize, later: bool, fresh: &dyn Fn(&str) -> D) -> bool {
    for j in 0..n {
        let t = if later { T::fresh(&format!("{name}t{i}.{j}"), 2) } else { f.time() };
        let back = if i > 0 { choose(&format!("{name}back{i}.{j}"), 1 + f.log.len().min(3)) } else { 0 };
        if back > 0 {
            let (d, t0, r) = f.log[back - 1].clone();
            if r.as_const() != Some(1) || f.log.iter().skip(back).any(|u| u.2.as_const() == Some(-1) && format!("{:?}", u.0) == format!("{:?}", d)) { return false }
            assume(t0.s_le(&t));
            f.push(d, t, c(-1));
        }
        else { f.push(fresh(&format!("{name}{i}.{j}")), t, c(1)); }
    }
    true
}
fn edge(name: &str, nodes: i64) -> Edge { (var(&format!("{name}u"), 0, nodes - 1), var(&format!("{name}v"), 0, nodes - 1)) }
fn some(s: Sym) -> B { Sym::lt(c(0), s) }

/// `within[k][u][v]`: at most `k` edges lead from `u` to `v`.
fn paths<T: Fed>(edges: &[(Edge, T, Sym)], nodes: i64, q: &T) -> Vec<Vec<Vec<B>>> {
    let n = nodes as usize;
    let mut out = vec![(0..n).map(|u| (0..n).map(|v| B::of(u == v)).collect::<Vec<_>>()).collect::<Vec<_>>()];
    let adj: Vec<Vec<B>> = (0..n).map(|u| (0..n).map(|v| some(accum(edges, &(c(u as i64), c(v as i64)), q))).collect()).collect();
    for k in 0..n {
        let next = (0..n).map(|u| (0..n).map(|v| out[k][u][v] | B::any((0..n).map(|m| out[k][u][m] & adj[m][v]))).collect()).collect();
        out.push(next);
    }
    out
}
fn at<X: Copy>(table: &[X], i: Sym, pick: impl Fn(B, X, X) -> X) -> X {
    let mut out = table[table.len() - 1];
    for (j, x) in table.iter().enumerate() { out = pick(i.is(c(j as i64)), *x, out) }
    out
}
fn look(table: &[B], i: Sym) -> B { at(table, i, |w, x, y| (w & x) | (!w & y)) }

#[derive(Clone, Copy, PartialEq)]
enum Algorithm { Bfs, Bidirectional, Propagate, PropagateAt, Scc, SccAt }

/// When a label is introduced, or a node considered.
fn early(x: &Sym) -> u64 { if *x < c(1) { 0 } else { 1 } }

fn graph<T: Fed + Hash>(a: Algorithm, plan: &Plan) {
    let nodes = plan.nodes;
    let mut w = worker();
    type Out = (Sym, (Sym, Sym));
    let (mut fe, mut fo, sink) = T::build(&mut w, |scope| {
        let (fe, edges) = Feed::<Edge, T>::new(scope.clone());
        let (fo, other) = Feed::<Edge, T>::new(scope);
        let pair = |x: VecCollection<'_, T, Edge, Sym>| Sink::<Out, T>::new(x.map(|(u, v)| (u, (v, c(0)))));
        let s = match a {
            Algorithm::Bfs => Sink::<Out, T>::new(bfs(units(edges), units(other).map(|x| x.0)).map(|(n, d)| (n, (c(d as i64), c(0))))),
            Algorithm::Bidirectional => Sink::<Out, T>::new(bidijkstra(units(edges), units(other)).map(|((x, y), d)| (x, (y, c(d as i64))))),
            Algorithm::Propagate => pair(propagate::propagate(edges, other)),
            Algorithm::PropagateAt => pair(propagate::propagate_at(edges, other, early)),
            Algorithm::Scc => pair(scc::strongly_connected(edges)),
            Algorithm::SccAt => pair(scc::strongly_connected_at(edges, early)),
        };
        (fe, fo, s)
    });
    let (x, y, z, q) = (var("x", 0, nodes - 1), var("y", 0, nodes.max(3)), if a == Algorithm::Bidirectional { var("z", 0, nodes) } else { c(0) }, T::fresh("q", 3));
    let expect = |edges: &[(Edge, T, Sym)], other: &[(Edge, T, Sym)]| -> Sym {
        let within = paths(edges, nodes, &q);
        let n = nodes as usize;
        let far = &within[n];
        let reaches = |k: usize, u: Sym, v: Sym| look(&(0..n).map(|i| look(&within[k][i], v)).collect::<Vec<_>>(), u);
        // A collection of one record per distinct source.
        match a {
            Algorithm::Bfs => {
                let root = |m: usize| { let mut s = c(0); for u in other { s = s + (u.0.0.is(c(m as i64)) & u.1.s_le(&q)).ite(u.2, c(0)) } some(s) };
                let roots: Vec<B> = (0..n).map(root).collect();
                let dist = |k: usize| B::any((0..n).map(|m| roots[m] & look(&within[k][m], x)));
                let mut out = FALSE;
                for k in 0..n { out = out | (y.is(c(k as i64)) & dist(k) & if k == 0 { TRUE } else { !dist(k - 1) }); }
                out.ite(c(1), c(0))
            },
            Algorithm::Bidirectional => {
                let goal = accum(other, &(x, y), &q);
                let mut out = FALSE;
                for k in 0..n { out = out | (z.is(c(k as i64)) & reaches(k, x, y) & if k == 0 { TRUE } else { !reaches(k - 1, x, y) }); }
                (out & Sym::lt(y, c(nodes))).ite(goal, c(0))
            },
            Algorithm::Propagate | Algorithm::PropagateAt => {
                let label = |l: Sym| B::any((0..n).map(|m| some(accum(other, &(c(m as i64), l), &q)) & look(&far[m], x)));
                let mut out = label(y);
                for l in 0..nodes - 1 { out = out & !(Sym::lt(c(l), y) & label(c(l))); }
                out.ite(c(1), c(0))
            },
            Algorithm::Scc | Algorithm::SccAt => (reaches(n, y, x) & Sym::lt(y, c(nodes))).ite(accum(edges, &(x, y), &q), c(0)),
        }
    };
    let judge = |e: &[(Edge, T, Sym)], o: &[(Edge, T, Sym)], when: B| {
        if when == FALSE { return }
        check(when.implies(sink.accum(&(x, (y, z)), &q).is(expect(e, o))), "the output is not what the algorithm is to compute");
    };
    let rounds = plan.edges.len();
    for i in 0..rounds {
        if !change(&mut fe, "e", i, plan.edges[i], plan.later, &|s| edge(s, nodes)) { return }
        if !change(&mut fo, "o", i, plan.other[i], plan.later, &|s| edge(s, nodes)) { return }
        if i + 1 < rounds {
            fe.advance(T::tick(i as i64 + 1));
            fo.advance(T::tick(i as i64 + 1));
            if choose("flush", 2) == 1 { fe.flush(); fo.flush(); steps(&mut w, 80); let when = sink.done(&q); judge(&fe.log, &fo.log, when); }
        }
    }
    fe.close();
    fo.close();
    finish(&mut w);
    judge(&fe.log, &fo.log, TRUE);
    witness("something", !expect(&fe.log, &fo.log).is(c(0)));
    note(|| format!("{:?} and {:?} give {:?}", fe.log, fo.log, sink.out.borrow()));
}

/// Values are sequences, so that sums tell which values they are of, and in which order.
fn prefix(separate: bool, rounds: &'static [usize], top: usize, keys: i64) {
    type T = Sym;
    type Item = ((Sym, Sym), Sym);
    let mut w = worker();
    let known = |s: Sym| s.as_const().expect("a known position") as usize;
    let (mut f, mut g, sink) = <T as Fed>::build(&mut w, |scope| {
        let (f, coll) = Feed::<Item, T>::new(scope.clone());
        let (g, locs) = Feed::<(Sym, Sym), T>::new(scope);
        let coll = units(coll).map(move |((i, k), d)| ((known(i), k), vec![d]));
        let zero = Vec::<Sym>::new();
        let glue = |_: &Sym, x: &Vec<Sym>, y: &Vec<Sym>| { let mut z = x.clone(); z.extend(y.iter().cloned()); z };
        let out = if separate { coll.prefix_sum_at(units(locs).map(move |(i, k)| (known(i), k)), zero, glue) } else { coll.prefix_sum(zero, glue) };
        let sink = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let s2 = sink.clone();
        out.inspect(move |(((i, k), d), t, r)| s2.borrow_mut().push(((*i, *k), d.clone(), *t, *r)));
        (f, g, sink)
    });
    let key = |s: &str| if keys > 1 { var(s, 0, keys - 1) } else { c(0) };
    for i in 0..rounds.len() {
        for j in 0..rounds[i] {
            let t = f.time();
            let back = if i > 0 { choose(&format!("back{i}.{j}"), 1 + rounds[0]) } else { 0 };
            if back > 0 { let (d, _, _) = f.log[back - 1]; if f.log.iter().any(|u| u.2.as_const() == Some(-1)) { return } f.push(d, t, c(-1)); }
            else {
                let (p, k) = (choose(&format!("p{i}.{j}"), top + 1), key(&format!("k{i}.{j}")));
                // Positions of one key are distinct.
                for u in f.log.clone() { if known(u.0.0.0) == p { assume(!(u.0.0.1.is(k) & accum(&f.log, &u.0, &t).is(c(1)))); } }
                let v = var(&format!("v{i}.{j}"), 0, 2);
                f.push(((c(p as i64), k), v), t, c(1));
            }
        }
        if separate && i == 0 { for j in 0..2 { let t = g.time(); g.push((c(choose(&format!("l{j}"), top + 3) as i64), key(&format!("lk{j}"))), t, c(1)); } }
        if i + 1 < rounds.len() { f.advance(c(i as i64 + 1)); g.advance(c(i as i64 + 1)); f.flush(); g.flush(); steps(&mut w, 300); }
    }
    f.close(); g.close();
    finish(&mut w);
    let out = sink.borrow();
    for q in 0..rounds.len() as i64 {
        let q = c(q);
        // Each location has the sum of what comes before.
        let places: Vec<(Sym, Sym)> = if separate { g.log.iter().map(|u| u.0).collect() } else { f.log.iter().map(|u| u.0.0).collect() };
        for (p, k) in places {
            let here = if separate { accum(&g.log, &(p, k), &q) } else { let mut s = c(0); for u in &f.log { s = s + (u.0.0.0.is(p) & u.0.0.1.is(k) & u.1.s_le(&q)).ite(u.2, c(0)) } s };
            if here.is(c(0)).decide() { continue }
            // Elements present, by position.
            let mut before: Vec<(usize, Sym)> = vec![];
            for u in &f.log { if known(u.0.0.0) < known(p) && (u.0.0.1.is(k) & u.1.s_le(&q)).decide() {
                if u.2.as_const() == Some(1) { before.push((known(u.0.0.0), u.0.1)) }
                else { let i = before.iter().position(|b| b.0 == known(u.0.0.0) && b.1.same(&u.0.1)).expect("withdrawn before added"); before.remove(i); }
            } }
            before.sort_by_key(|b| b.0);
            let want: Vec<Sym> = before.iter().map(|b| b.1).collect();
            let (mut right, mut all) = (c(0), c(0));
            for ((i, k2), d, t, r) in out.iter() { if *i == known(p) {
                let on = k2.is(k) & t.s_le(&q);
                let same = B::of(d.len() == want.len()) & B::all(d.iter().zip(&want).map(|(x, y)| x.is(*y)));
                all = all + on.ite(c(*r as i64), c(0));
                right = right + (on & same).ite(c(*r as i64), c(0));
            } }
            check(right.is(all) & here.is(right), "a prefix sum is not the sum of what comes before");
            if want.len() > 1 { reached("summed"); }
        }
    }
    note(|| format!("{:?} at {:?} gives {:?}", f.log, g.log, out));
}

/// Any records may collide in any round.
fn identifiers(rounds: &'static [usize], domain: i64) {
    type T = Sym;
    hash_by((0..domain).map(|i| var(&format!("bucket{i}"), 0, 1)).collect(), 2);
    let mut w = worker();
    let (mut f, sink) = <T as Fed>::build(&mut w, |scope| {
        let (f, coll) = Feed::<Sym, T>::new(scope);
        let sink = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let s2 = sink.clone();
        coll.identifiers().inspect(move |((d, id), t, r)| s2.borrow_mut().push(((*d, *id), *t, *r)));
        (f, sink)
    });
    for i in 0..rounds.len() {
        if !change(&mut f, "d", i, rounds[i], false, &|s| var(s, 0, domain - 1)) { return }
        if i + 1 < rounds.len() { f.advance(c(i as i64 + 1)); if choose("flush", 2) == 1 { f.flush(); steps(&mut w, 80); } }
    }
    f.close();
    finish(&mut w);
    let out = sink.borrow();
    let q = var("q", 0, rounds.len() as i64 - 1);
    let mut ids: Vec<u64> = out.iter().map(|u| u.0.1).collect();
    ids.sort();
    ids.dedup();
    let holds = |d: Sym, id: u64| { let mut s = c(0); for u in out.iter() { if u.0.1 == id { s = s + (u.0.0.is(d) & u.1.s_le(&q)).ite(u.2, c(0)) } } s };
    let (d, e) = (var("d", 0, domain - 1), var("e", 0, domain - 1));
    let mut total = c(0);
    for id in &ids { total = total + holds(d, *id) }
    check(total.is(accum(&f.log, &d, &q)), "a record does not have identifiers as often as it occurs");
    for id in &ids {
        check((holds(d, *id).is(c(0)) | holds(e, *id).is(c(0))) | d.is(e), "two records have one identifier");
        for other in &ids { if id != other { check(holds(d, *id).is(c(0)) | holds(d, *other).is(c(0)), "one record has two identifiers"); } }
    }
    if ids.len() > 1 { reached("several"); }
    note(|| format!("{:?} gives {:?}", f.log, out));
}

/// Nodes are updated in order, from new states of lower nodes and old states of higher ones.
fn sequential(plan: &Plan) {
    type T = Sym;
    let nodes = plan.nodes as usize;
    let mut w = worker();
    type Out = (Sym, (Sym, Sym));
    let (mut fe, mut fs, sink) = <T as Fed>::build(&mut w, |scope| {
        let (fe, edges) = Feed::<Edge, T>::new(scope.clone());
        let (fs, state) = Feed::<(Sym, Sym), T>::new(scope);
        // The sum of neighbours' states, each as often as it comes, and one more.
        let out = sequence(units(state), units(edges), |_, vals| { let mut s = c(1); for (v, n) in vals { s = s + **v * c(*n as i64) } s });
        (fe, fs, Sink::<Out, T>::new(out.map(|(n, v)| match v { Some(v) => (n, (c(1), v)), None => (n, (c(0), c(0))) })))
    });
    let (x, q) = (var("x", 0, plan.nodes - 1), var("q", 0, plan.edges.len() as i64 - 1));
    let mut states = vec![];
    for i in 0..nodes {
        let v = var(&format!("s{i}"), 0, 3);
        let t = fs.time();
        fs.push((c(i as i64), v), t, c(1));
        states.push(v);
    }
    let rounds = plan.edges.len();
    for i in 0..rounds {
        if !change(&mut fe, "e", i, plan.edges[i], false, &|s| edge(s, plan.nodes)) { return }
        if i + 1 < rounds {
            fe.advance(c(i as i64 + 1));
            fs.advance(c(i as i64 + 1));
            if choose("flush", 2) == 1 { fe.flush(); fs.flush(); steps(&mut w, 80); }
        }
    }
    fe.close(); fs.close();
    finish(&mut w);
    // In order.
    let mut new: Vec<(B, Sym)> = vec![];
    for n in 0..nodes {
        let (mut any, mut sum) = (FALSE, c(1));
        for m in 0..nodes {
            if m == n { continue }
            let count = accum(&fe.log, &(c(m as i64), c(n as i64)), &q);
            let (live, v) = if m < n { new[m] } else { (TRUE, states[m]) };
            any = any | (live & some(count));
            sum = sum + live.ite(v * count, c(0));
        }
        new.push((any, sum));
    }
    for n in 0..nodes {
        let (mut fired, mut value, mut waiting) = (c(0), c(0), c(0));
        for (d, t, r) in sink.out.borrow().iter() {
            let on = d.0.is(c(n as i64)) & t.s_le(&q);
            fired = fired + (on & d.1.0.is(c(1))).ite(*r, c(0));
            value = value + (on & d.1.0.is(c(1))).ite(*r * d.1.1, c(0));
            waiting = waiting + (on & d.1.0.is(c(0))).ite(*r, c(0));
        }
        check(waiting.is(c(0)), "a node keeps waiting");
        check(fired.is(new[n].0.ite(c(1), c(0))), "a node has no state, or several");
        check(new[n].0.implies(value.is(new[n].1)), "a node has another state than in sequence");
    }
    witness("chained", new[nodes - 1].0 & x.is(x) & !new[nodes - 1].1.is(c(1)));
    note(|| format!("{:?} with {:?} gives {:?}", fe.log, states, sink.out.borrow()));
}

fn main() {
    const A: &[&str] = &["iterate, Variable, join, reduce, distinct, semijoin, arrange at nested times"];
    let b = |p: &Plan| format!("{} nodes; {:?} edges and {:?} records of the other input, each arbitrary, added (or from the second round on withdrawn) per round{}; any flushing between rounds", p.nodes, p.edges, p.other, if p.later { " at any pair of times in 0..=2" } else { "" });
    let s: &[&str] = &["something"];
    let mut cases = vec![];
    let mut add = |name: &'static str, a: Algorithm, p: Plan, thorough: bool| {
        let f: &[&str] = match a { Algorithm::Bfs => &["bfs, bfs_arranged"], Algorithm::Bidirectional => &["bidijkstra, bidijkstra_arranged"], Algorithm::Propagate | Algorithm::PropagateAt => &["propagate, propagate_at, propagate_core"], _ => &["strongly_connected, strongly_connected_at, trim_edges"] };
        let enc: &'static [&'static str] = Box::leak(f.iter().chain(A).cloned().collect::<Vec<_>>().into_boxed_slice());
        let case = Case::new(name, b(&p), enc, s, move || if p.later { graph::<P2>(a, &p) } else { graph::<Sym>(a, &p) });
        cases.push(if thorough { case.thorough() } else { case });
    };
    let p = |edges: &'static [usize], other: &'static [usize], nodes: i64| Plan { edges, other, nodes, later: false };
    add("bfs", Algorithm::Bfs, p(&[2, 1], &[1, 0], 3), false);
    add("bidirectional", Algorithm::Bidirectional, p(&[2, 1], &[1, 0], 3), false);
    add("propagate", Algorithm::Propagate, p(&[2, 1], &[1, 0], 3), false);
    add("propagate in rounds", Algorithm::PropagateAt, p(&[1, 1], &[2, 0], 3), false);
    add("scc", Algorithm::Scc, p(&[2, 1], &[0, 0], 3), false);
    add("scc in rounds", Algorithm::SccAt, p(&[2, 1], &[0, 0], 3), false);
    add("scc, static", Algorithm::Scc, p(&[3], &[0], 3), false);
    add("bfs, more", Algorithm::Bfs, p(&[3, 1], &[1, 1], 4), true);
    add("bfs at pairs", Algorithm::Bfs, Plan { later: true, ..p(&[2, 1], &[1, 0], 3) }, true);
    add("bidirectional, more", Algorithm::Bidirectional, p(&[3, 1], &[1, 1], 4), true);
    add("propagate, more", Algorithm::Propagate, p(&[2, 1], &[1, 1], 3), true);
    add("propagate at pairs", Algorithm::Propagate, Plan { later: true, ..p(&[2, 1], &[1, 0], 3) }, true);
    add("propagate in rounds, more", Algorithm::PropagateAt, p(&[2, 1], &[2, 0], 3), true);
    add("scc, more", Algorithm::Scc, p(&[3, 1], &[0, 0], 3), true);
    add("scc, larger", Algorithm::Scc, p(&[4, 1], &[0, 0], 4), true);
    add("scc at pairs", Algorithm::Scc, Plan { later: true, ..p(&[2, 1], &[0, 0], 3) }, true);
    add("scc in rounds, more", Algorithm::SccAt, p(&[3, 1], &[0, 0], 3), true);
    let ps = |sep: bool, rounds: &'static [usize], top: usize, keys: i64| { let b = format!("{rounds:?} elements added (or after the first round withdrawn) per round, at any distinct positions 0..={top} of {keys} keys, with any values{}; sums are sequences", if sep { ", summed at any two locations" } else { "" }); let f: &'static [&'static str] = &["prefix_sum, prefix_sum_at, aggregate, broadcast", "iterate, join, reduce, distinct, semijoin at nested times"]; Case::new(if sep { if keys > 1 { "prefix sums elsewhere, more" } else { "prefix sums elsewhere" } } else if keys > 1 { "prefix sums, more" } else { "prefix sums" }, b, f, &["summed"], move || prefix(sep, rounds, top, keys)) };
    cases.push(ps(false, &[2, 1], 5, 1));
    cases.push(ps(true, &[2, 1], 2, 1));
    cases.push(ps(false, &[3, 1], 5, 2).thorough());
    cases.push(ps(true, &[3, 1], 5, 2).thorough());
    let ids = |name: &'static str, rounds: &'static [usize], d: i64| Case::new(name, format!("{rounds:?} of {d} records added (or after the first round withdrawn) per round, with any of them colliding in every round; any flushing between rounds"), &["identifiers", "iterate, reduce at nested times"], &["several"], move || identifiers(rounds, d));
    cases.push(ids("identifiers", &[3, 1], 3));
    cases.push(ids("identifiers, more", &[3, 2], 4).thorough());
    let sq = |name: &'static str, p: Plan| Case::new(name, format!("{}; any states 0..=3", b(&p)), &["sequence", "iterate, join, antijoin, reduce, distinct at nested times"], &["chained"], move || sequential(&p));
    cases.push(sq("sequence", p(&[2, 1], &[], 3)));
    cases.push(sq("sequence, more", p(&[3, 1], &[], 4)).thorough());
    runner::run(Prop {
        id: "G01", title: "algorithms",
        outside: "larger graphs, longer sequences and more changes; hash functions for identifiers beyond two classes of records, which collide in every round; records present a negative number of times",
        assumptions: &["identifiers: the hash of a round and a record depends on the record only through its class", "prefix sums: positions of a key are distinct"], cases,
    });
}
