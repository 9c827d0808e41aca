use ddverif::model::*;
use ddverif::*;
use differential_dataflow::consolidation::*;
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use timely::container::{ContainerBuilder, PushInto};

const HI: i64 = 50;
const R: i64 = 50;

fn pairs(n: usize) {
    let ups: Vec<(Sym, Sym)> = (0..n).map(|i| (var(&format!("d{i}"), 0, HI), var(&format!("r{i}"), -R, R))).collect();
    let which = choose("form", 3);
    let (prefix, out): (Vec<(Sym, Sym)>, Vec<(Sym, Sym)>) = match which {
        0 => { let mut v = ups.clone(); consolidate(&mut v); (vec![], v) },
        1 => { let off = choose("offset", n.min(3)); let mut v = ups.clone(); consolidate_from(&mut v, off); (v[..off].to_vec(), v[off..].to_vec()) },
        _ => { let mut v = ups.clone(); let l = consolidate_slice(&mut v[..]); check(B::of(l <= v.len()), "length beyond the slice"); (vec![], v[..l].to_vec()) },
    };
    for (i, p) in prefix.iter().enumerate() { check(p.s_is(&ups[i]), "prefix was disturbed"); }
    let q = var("q", 0, HI);
    let sum = |v: &[(Sym, Sym)]| v.iter().fold(c(0), |a, (d, r)| a + d.is(q).ite(*r, c(0)));
    note(|| format!("{:?} consolidates to {:?}", ups, out));
    check(sum(&ups[prefix.len()..]).is(sum(&out)), "a datum's total difference changed");
    check(increasing(&out.iter().map(|x| x.0).collect::<Vec<_>>()), "output is not strictly increasing");
    check(B::all(out.iter().map(|x| !x.1.is(c(0)))), "output holds a zero");
    if out.is_empty() && prefix.is_empty() { reached("all cancelled"); }
    if out.len() + prefix.len() == n { reached("nothing cancelled"); }
}

fn triples<T: STime + SOrd + Ord + std::fmt::Debug>(n: usize) {
    let ups: Vec<(Sym, T, Sym)> = updates(n, |s| var(s, 0, HI), HI, R);
    let which = choose("form", 4);
    let mut off = 0;
    let v: Vec<(Sym, T, Sym)> = match which {
        0 => { let mut v = ups.clone(); consolidate_updates(&mut v); v },
        1 => { off = 1; let mut v = ups.clone(); consolidate_updates_from(&mut v, 1); for i in 0..1 { check(v[i].0.is(ups[i].0) & v[i].1.s_eq(&ups[i].1) & v[i].2.is(ups[i].2), "prefix was disturbed"); } v[1..].to_vec() },
        2 => { let mut v = ups.clone(); let l = consolidate_updates_slice(&mut v[..]); v.truncate(l); v },
        _ => { let mut v = ups.clone(); let mut target = vec![(c(1), ups[0].1.clone(), c(7))]; target.clear(); v.consolidate_into(&mut target); target },
    };
    let (d, q) = (var("d", 0, HI), T::fresh("q", HI));
    note(|| format!("{:?} consolidates to {:?}", ups, v));
    check(exact(&ups[off..], &d, &q).is(exact(&v, &d, &q)), "a datum's total difference at a time changed");
    check(canonical(&v), "output is not canonical");
    if v.is_empty() { reached("all cancelled"); }
    if v.len() == n { reached("nothing cancelled"); }
}

/// The builder, with buffers of `2 * capacity` updates, under any interleaving of pushes and extractions.
fn builder<const N: usize>(n: usize, timed: bool) {
    type U<const N: usize> = (Pad<N>, Sym, Sym);
    let cap = timely::container::buffer::default_capacity::<U<N>>();
    let ups: Vec<U<N>> = (0..n).map(|i| (Pad::new(var(&format!("d{i}"), 0, HI)), if timed { var(&format!("t{i}"), 0, HI) } else { c(0) }, var(&format!("r{i}"), -R, R))).collect();
    let mut b = ConsolidatingContainerBuilder::<Vec<U<N>>>::default();
    let mut out: Vec<U<N>> = vec![];
    let mut take = |x: Option<&mut Vec<U<N>>>| match x {
        Some(v) => {
            check(canonical(v), "container is not canonical");
            check(B::of(!v.is_empty()), "container is empty");
            check(B::of(v.len() <= cap), "container exceeds its capacity");
            out.append(v); true
        },
        None => false,
    };
    for (i, u) in ups.iter().enumerate() {
        b.push_into(u.clone());
        if (i + 1) % 2 == 0 && choose("extract", 2) == 1 { while take(b.extract()) { reached("early container"); } }
        if i + 1 == n / 2 && choose("finish", 2) == 1 { while take(b.finish()) { reached("middle flush"); } }
    }
    while take(b.finish()) { }
    check(B::of(b.extract().is_none()), "a container remained after finishing");
    let (d, q) = (Pad::new(var("d", 0, HI)), if timed { var("q", 0, HI) } else { c(0) });
    check(exact(&ups, &d, &q).is(exact(&out, &d, &q)), "the builder lost or duplicated updates");
    if out.len() < n { reached("cancelled"); }
}

/// The chunker, under any division of its input into containers.
fn chunker<const N: usize>(n: usize, timed: bool) {
    type U<const N: usize> = (Pad<N>, Sym, Sym);
    let ups: Vec<U<N>> = (0..n).map(|i| (Pad::new(var(&format!("d{i}"), 0, HI)), if timed { var(&format!("t{i}"), 0, HI) } else { c(0) }, var(&format!("r{i}"), -R, R))).collect();
    let mut b = ContainerChunker::<Vec<U<N>>>::default();
    let mut out: Vec<U<N>> = vec![];
    let mut take = |x: Option<&mut Vec<U<N>>>| match x {
        Some(v) => {
            check(canonical(v), "chunk is not canonical");
            check(B::of(!v.is_empty()), "chunk is empty");
            let taken = if choose("drain", 2) == 0 { std::mem::take(v) } else { v.clone() };
            out.extend(taken); true
        },
        None => false,
    };
    let mut rest = ups.clone();
    while !rest.is_empty() {
        let k = 1 + choose("size", rest.len().min(3));
        let mut cont: Vec<U<N>> = rest.drain(..k).collect();
        b.push_into(&mut cont);
        check(B::of(cont.is_empty()), "input container was not drained");
        if choose("extract", 2) == 1 { while take(b.extract()) { reached("early chunk"); } }
    }
    while take(b.finish()) { }
    check(B::of(b.extract().is_none()), "a chunk remained after finishing");
    let (d, q) = (Pad::new(var("d", 0, HI)), if timed { var("q", 0, HI) } else { c(0) });
    check(exact(&ups, &d, &q).is(exact(&out, &d, &q)), "the chunker lost or duplicated updates");
    if out.len() < n { reached("cancelled"); }
}

fn main() {
    const E: &[&str] = &["consolidation::{consolidate,consolidate_from,consolidate_slice,consolidate_updates,consolidate_updates_from,consolidate_updates_slice}", "Consolidate for Vec"];
    const B: &[&str] = &["consolidation::ConsolidatingContainerBuilder::{push_into,extract,finish}"];
    const K: &[&str] = &["trace::implementations::chunker::ContainerChunker::{push_into,extract,finish}"];
    const W: &[&str] = &["all cancelled", "nothing cancelled"];
    let b = |n: usize| format!("{n} updates, data and times any integer in 0..=50, differences in -50..=50");
    let cases = vec![
        Case::new("pairs 2", b(2), E, W, || pairs(2)),
        Case::new("pairs 4", b(4), E, W, || pairs(4)),
        Case::new("pairs 5", b(5), E, W, || pairs(5)),
        Case::new("updates 1", b(1), E, W, || triples::<Sym>(1)),
        Case::new("updates 3", b(3), E, W, || triples::<Sym>(3)),
        Case::new("updates 4", b(4), E, W, || triples::<Sym>(4)),
        Case::new("updates product time 3", b(3), E, W, || triples::<P2>(3)),
        Case::new("builder capacity 1", format!("{}; containers of one update; every extraction pattern", b(4)), B, &["early container", "middle flush", "cancelled"], || builder::<600>(4, false)),
        Case::new("builder capacity 2", format!("{}; containers of two updates; every extraction pattern", b(5)), B, &["early container", "middle flush", "cancelled"], || builder::<384>(5, false)),
        Case::new("builder timed", format!("{}; containers of one update", b(3)), B, &["early container", "middle flush", "cancelled"], || builder::<600>(3, true)),
        Case::new("chunker capacity 1", format!("{}; chunks of one update; every division into containers", b(3)), K, &["early chunk"], || chunker::<600>(3, false)),
        Case::new("chunker capacity 2", format!("{}; chunks of two updates; every division into containers", b(4)), K, &["early chunk", "cancelled"], || chunker::<384>(4, false)),
        Case::new("chunker capacity 4", format!("{}; chunks of four updates; every division into containers", b(5)), K, &["early chunk", "cancelled"], || chunker::<230>(5, false)).thorough(),
        Case::new("chunker timed", format!("{}; chunks of two updates", b(3)), K, &["early chunk", "cancelled"], || chunker::<384>(3, true)),
        Case::new("pairs 6", b(6), E, W, || pairs(6)).thorough(),
        Case::new("updates 5", b(5), E, W, || triples::<Sym>(5)).thorough(),
        Case::new("updates product time 4", b(4), E, W, || triples::<P2>(4)).thorough(),
        Case::new("builder capacity 2, 6 updates", b(6), B, &["early container", "middle flush", "cancelled"], || builder::<384>(6, false)).thorough(),
        Case::new("chunker capacity 2, 5 updates", b(5), K, &["early chunk", "cancelled"], || chunker::<384>(5, false)).thorough(),
    ];
    runner::run(Prop { id: "C01", title: "consolidation", outside: "longer lists; sorts of more than twenty elements take a different standard-library path", assumptions: &["data are compared only through their total order"], cases });
}
