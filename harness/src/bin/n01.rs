//! Navigation commands on cursors, against positions in sorted lists.
use ddverif::nav::navigate;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::trace::cursor::cursor_list;
use differential_dataflow::trace::{Description, Navigable};
use timely::progress::{Antichain, Timestamp};

use ddverif::nav::HI;

fn desc<T: Timestamp>() -> Description<T> { Description::new(Antichain::from_elem(T::minimum()), Antichain::new(), Antichain::from_elem(T::minimum())) }
fn update<KD: Kind>(sizes: &[usize]) -> Vec<Vec<Up<KD::K, KD::V, KD::T>>> {
    sizes.iter().enumerate().map(|(i, n)| canon::<KD>(&format!("{i}"), *n, &[KD::T::minimum()], &[], HI, 5)).collect()
}
fn single<KD: Kind>(n: usize, steps: usize) {
    let ups = update::<KD>(&[n]);
    let b = KD::build(ups.clone(), desc());
    navigate::<KD, KD::C>(&mut b.cursor(), &b, &ups, steps);
}
fn list<KD: Kind>(sizes: &[usize], steps: usize) {
    let ups = update::<KD>(sizes);
    let bs: Vec<KD::B> = ups.iter().map(|u| KD::build(vec![u.clone()], desc())).collect();
    let (mut c, s) = cursor_list(bs);
    navigate::<KD, _>(&mut c, &s, &ups, steps);
}
/// Many concrete keys and values, so that seeks take long hops.
fn long(lists: usize, steps: usize) {
    type KD = OrdVal<Sym, Sym, Sym>;
    let mut ups: Vec<Vec<Up<Sym, Sym, Sym>>> = vec![vec![]; lists];
    for i in 0..25 { ups[i % lists].push(((c(2 * (i as i64 / 2)), c(i as i64 % 2)), c(i as i64), c(1))); }
    for v in 0..12 { ups[0].push(((c(100), c(3 * v)), c(v), c(1))); }
    if lists == 1 {
        let b = KD::build(vec![ups[0].clone()], desc());
        navigate::<KD, <KD as Kind>::C>(&mut b.cursor(), &b, &ups, steps);
    } else {
        let bs: Vec<_> = ups.iter().map(|u| KD::build(vec![u.clone()], desc())).collect();
        let (mut c, s) = cursor_list(bs);
        navigate::<KD, _>(&mut c, &s, &ups, steps);
    }
}

/// Several keys with many values each, among which seeks must not stray from one key into the next.
fn wide(lists: usize, steps: usize) {
    type KD = OrdVal<Sym, Sym, Sym>;
    let mut ups: Vec<Vec<Up<Sym, Sym, Sym>>> = vec![vec![]; lists];
    for k in 0..3i64 { for v in 0..7i64 { ups[if lists > 1 { (v % 2) as usize } else { 0 }].push(((c(k), c(3 * v + k)), c(v), c(1))); } }
    if lists == 1 {
        let b = KD::build(vec![ups[0].clone()], desc());
        navigate::<KD, <KD as Kind>::C>(&mut b.cursor(), &b, &ups, steps);
    } else {
        let bs: Vec<_> = ups.iter().map(|u| KD::build(vec![u.clone()], desc())).collect();
        let (mut c, s) = cursor_list(bs);
        navigate::<KD, _>(&mut c, &s, &ups, steps);
    }
}

fn main() {
    const V: &[&str] = &["OrdValCursor", "OrdValBuilder", "BatchContainer::advance", "rc_blanket_impls cursor"];
    const K: &[&str] = &["OrdKeyCursor", "OrdKeyBuilder", "BatchContainer::advance", "rc_blanket_impls cursor"];
    const L: &[&str] = &["CursorList", "cursor_list", "OrdValCursor", "OrdKeyCursor", "BatchContainer::advance"];
    const W: &[&str] = &["updates read", "key seek", "value seek"];
    const WK: &[&str] = &["updates read", "key seek"];
    let b = |s: &str, k: usize| format!("batches of {s} arbitrary canonical updates (keys, values, times in 0..=30), {k} arbitrary commands with arbitrary seek targets");
    type OV = OrdVal<Sym, Sym, Sym>;
    type OK = OrdKey<Sym, Sym>;
    let cases = vec![
        Case::new("val 3", b("3", 3), V, W, || single::<OV>(3, 3)),
        Case::new("key 3", b("3", 3), K, WK, || single::<OK>(3, 3)),
        Case::new("val 2 and 1", b("2 and 1", 2), L, W, || list::<OV>(&[2, 1], 2)),
        Case::new("val 1 and 1", b("1 and 1", 4), L, W, || list::<OV>(&[1, 1], 4)),
        Case::new("key 2 and 1", b("2 and 1", 3), L, WK, || list::<OK>(&[2, 1], 3)),
        Case::new("empty and one", b("0 and 1", 4), L, W, || list::<OV>(&[0, 1], 4)),
        Case::new("long", "37 fixed updates over 13 keys; 2 arbitrary commands with arbitrary targets in 0..=30", V, W, || long(1, 2)),
        Case::new("long in two", "37 fixed updates over 13 keys in two batches; 2 arbitrary commands with arbitrary targets", L, WK, || long(2, 2)),
        Case::new("wide", "21 fixed updates over 3 keys, of 7 values each; 3 arbitrary commands with arbitrary targets", V, W, || wide(1, 3)),
        Case::new("wide in two", "21 fixed updates over 3 keys, of 7 values each, in two batches; 2 arbitrary commands with arbitrary targets", L, W, || wide(2, 2)),
        Case::new("val 4", b("4", 4), V, W, || single::<OV>(4, 4)).thorough(),
        Case::new("key 4", b("4", 4), K, WK, || single::<OK>(4, 4)).thorough(),
        Case::new("val 2 and 1, more commands", b("2 and 1", 4), L, W, || list::<OV>(&[2, 1], 4)).thorough(),
        Case::new("val 2 and 2", b("2 and 2", 3), L, W, || list::<OV>(&[2, 2], 3)).thorough(),
        Case::new("val 1 and 1 and 1", b("1, 1 and 1", 3), L, W, || list::<OV>(&[1, 1, 1], 3)).thorough(),
        Case::new("long, more", "37 fixed updates; 3 commands", V, W, || long(1, 3)).thorough(),
    ];
    runner::run(Prop { id: "N01", title: "cursors", outside: "longer command sequences; the value level of a cursor without a valid key", assumptions: &["value commands are issued only at a valid key, as the accessors require"], cases });
}
