//! Batch containers return what was pushed, and search for the end of a run.
use ddverif::model::*;
use ddverif::traces::*;
use ddverif::*;
use differential_dataflow::columnar::layout::Coltainer;
use differential_dataflow::trace::implementations::{BatchContainer, SliceContainer};

/// Any sequence of pushes, clears, and changes of container, and everything read back.
fn store<C: BatchContainer + Default>(n: usize) where C::Owned: Datum {
    let mut con = C::default();
    let mut want: Vec<C::Owned> = vec![];
    for i in 0..n {
        match choose(&format!("op{i}"), 5) {
            0 => { let x = C::Owned::fresh(&format!("x{i}"), 9); con.push_own(&x); want.push(x); },
            1 => {
                // Pushes by reference, from another container.
                let x = C::Owned::fresh(&format!("x{i}"), 9);
                let mut other = C::with_capacity(1);
                other.push_own(&C::Owned::fresh(&format!("y{i}"), 9));
                other.push_own(&x);
                con.push_ref(other.index(1));
                want.push(x);
            },
            2 => { con.clear(); want.clear(); reached("cleared"); },
            3 => {
                // Moves to a container made for the contents of two.
                let mut new = C::merge_capacity(&con, &C::default());
                for j in 0..con.len() { new.push_ref(C::reborrow(con.index(j))) }
                con = new;
            },
            _ => {
                let mut new = C::with_capacity(want.len());
                for j in 0..con.len() { new.push_own(&C::into_owned(con.index(j))) }
                con = new;
            },
        }
        check(B::of(con.len() == want.len()), "a container does not have as many elements as were pushed");
        check(B::of(con.is_empty() == want.is_empty()), "a container misreports being empty");
        check(B::of(con.get(want.len()).is_none()), "a container presents an element past its end");
        check(B::of(con.last().is_some() == !want.is_empty()), "a container misreports its last element");
        if let (Some(a), Some(b)) = (con.last(), want.last()) { check(C::into_owned(a).s_is(b), "a container's last element is not the last pushed"); }
        for j in 0..want.len() {
            check(C::into_owned(con.index(j)).s_is(&want[j]), "a container does not return what was pushed");
            match con.get(j) { Some(x) => check(C::into_owned(x).s_is(&want[j]), "a container does not return what was pushed"), None => fail("a container withholds an element") }
        }
    }
}

/// References copied onto any existing value, and compared as the values they refer to.
fn convert<C: BatchContainer + Default>() where C::Owned: Datum {
    let mut con = C::default();
    let (x, y) = (C::Owned::fresh("x", 9), C::Owned::fresh("y", 9));
    con.push_own(&x);
    con.push_own(&y);
    let mut onto = C::Owned::fresh("onto", 9);
    C::clone_onto(con.index(0), &mut onto);
    check(onto.s_is(&x), "copying a reference onto a value does not give what it refers to");
    let order = con.index(0).cmp(&con.index(1));
    check(B::of(order == std::cmp::Ordering::Equal).iff(x.s_is(&y)), "references compare equal differently from their values");
    check(B::of(order == std::cmp::Ordering::Less).iff(x.s_less(&y)), "references compare differently from their values");
    check(B::of(con.index(0) == con.index(1)).iff(x.s_is(&y)), "references equal differently from their values");
}

/// A search from any position to any end, for any predicate that holds up to some point; outside the range it may be
/// anything at all.
fn search<C: BatchContainer + Default>(n: usize, to: impl Fn(Sym) -> C::Owned, from: impl Fn(C::Owned) -> Sym) {
    let mut con = C::default();
    for i in 0..n { con.push_own(&to(c(i as i64))) }
    let start = choose("start", n + 1);
    let end = start + choose("len", n + 1 - start);
    let limit = var("limit", 0, n as i64);
    let (before, after) = (flag("before").decide(), flag("after").decide());
    let got = con.advance(start, end, |x| {
        let x = from(C::into_owned(x));
        if x < c(start as i64) { before } else if x >= c(end as i64) { after } else { x < limit }
    });
    let want = Sym::lt(limit, c(start as i64)).ite(c(0), Sym::le(c(end as i64), limit).ite(c((end - start) as i64), limit - c(start as i64)));
    check(c(got as i64).is(want), "a search does not end where its predicate stops holding");
    witness("far", Sym::le(c(20), c(got as i64)));
}

fn main() {
    const S: &[&str] = &["BatchContainer::{push_own,push_ref,clear,with_capacity,merge_capacity,index,get,last,len,is_empty,into_owned,reborrow} of the container"];
    const V: &[&str] = &["BatchContainer::{clone_onto,index} and ordering of read items"];
    const A: &[&str] = &["BatchContainer::advance of the container"];
    let st = |n: usize, d: &str| format!("{n} operations, each a push of {d} by value or by reference, a clear, or a move to a container of another capacity");
    let sl = "a slice of 0 to 2 integers in 0..=9";
    let n = 40;
    let ad = |n: usize| format!("any range within {n} elements, any point in 0..={n} where the predicate stops, any values outside the range");
    let w: &[&str] = &["cleared"];
    let far: &[&str] = &["far"];
    type P = (Sym, Sym);
    let cases = vec![
        Case::new("store vec", st(5, "an integer"), S, w, || store::<Vec<Sym>>(5)),
        Case::new("store slices", st(4, sl), S, w, || store::<SliceContainer<Sym>>(4)),
        Case::new("store columns", st(5, "an integer"), S, w, || store::<Coltainer<Sym>>(5)),
        Case::new("store columns of pairs", st(5, "a pair of integers"), S, w, || store::<Coltainer<P>>(5)),
        Case::new("store columns of lists", st(4, sl), S, w, || store::<Coltainer<Vec<Sym>>>(4)),
        Case::new("convert vec", "any three integers", V, &[], || convert::<Vec<Sym>>()),
        Case::new("convert slices", "any three slices of 0 to 2 integers in 0..=9", V, &[], || convert::<SliceContainer<Sym>>()),
        Case::new("convert columns", "any three pairs", V, &[], || convert::<Coltainer<P>>()),
        Case::new("convert columns of lists", "any three lists of 0 to 2 integers in 0..=9", V, &[], || convert::<Coltainer<Vec<Sym>>>()),
        Case::new("search vec", ad(n), A, far, move || search::<Vec<Sym>>(n, |x| x, |x| x)),
        Case::new("search slices", ad(n), A, far, move || search::<SliceContainer<Sym>>(n, |x| vec![x], |x| x[0])),
        Case::new("search columns", ad(n), A, far, move || search::<Coltainer<Sym>>(n, |x| x, |x| x)),
        Case::new("store slices 5", st(5, sl), S, w, || store::<SliceContainer<Sym>>(5)).thorough(),
        Case::new("store columns of lists 5", st(5, sl), S, w, || store::<Coltainer<Vec<Sym>>>(5)).thorough(),
        Case::new("search vec 80", ad(80), A, far, move || search::<Vec<Sym>>(80, |x| x, |x| x)).thorough(),
        Case::new("search columns 80", ad(80), A, far, move || search::<Coltainer<Sym>>(80, |x| x, |x| x)).thorough(),
    ];
    runner::run(Prop { id: "F01", title: "batch containers", outside: "more elements; lists longer than two; lists of more than two (thorough: four) machine-integer offsets", assumptions: &["predicates given to a search do not hold again within its range once they have failed"], cases });
}
