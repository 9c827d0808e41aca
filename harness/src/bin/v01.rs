//! The columnar encoding of updates: forming, cutting, joining, and moving it through bytes and storage.
use ddverif::chunks::*;
use ddverif::model::*;
use ddverif::nav::*;
use ddverif::traces::*;
use ddverif::*;
use columnar::{Columnar, Len, Push};
use differential_dataflow::columnar::collection::{Builder as ValBuilder, RecordedUpdates};
use differential_dataflow::columnar::layout::ColumnarUpdate;
use differential_dataflow::columnar::trace::spill::{self, BytesSource, BytesStore, SpillStats};
use differential_dataflow::columnar::trace::{Chunker, ColChunk};
use differential_dataflow::columnar::trie_merger;
use differential_dataflow::columnar::updates::*;
use differential_dataflow::trace::chunk::*;
use differential_dataflow::trace::Description;
use std::collections::VecDeque;
use std::sync::Arc;
use timely::container::{ContainerBuilder, PushInto};
use timely::dataflow::channels::ContainerBytes;
use timely::progress::{Antichain, Timestamp};

const R: i64 = 30;
type U = (Sym, Sym, Sym, Sym);
type UK = (Sym, (), Sym, Sym);
type UP = (Sym, Sym, P2, Sym);
type List<U> = Vec<((<U as ColumnarUpdate>::Key, <U as ColumnarUpdate>::Val), <U as ColumnarUpdate>::Time, Sym)>;

trait Ups: Sized + ColumnarUpdate<Key: Datum, Val: Datum, Time: DTime, Diff = Sym> { type KD: Chunked<K = Self::Key, V = Self::Val, T = Self::Time, Chunk = ColChunk<Self>>; }
impl Ups for U { type KD = ColKind<Sym, Sym, Sym>; }
impl Ups for UK { type KD = ColKind<Sym, (), Sym>; }
impl Ups for UP { type KD = ColKind<Sym, Sym, P2>; }

fn is<U: Ups>(a: &List<U>, b: &List<U>) -> B { if a.len() != b.len() { return FALSE; } B::all(a.iter().zip(b).map(|(a, b)| a.0.s_is(&b.0) & a.1.s_eq(&b.1) & a.2.is(b.2))) }
/// Updates in no particular order, perhaps repeated and perhaps zero.
fn arbitrary<U: Ups>(name: &str, n: usize) -> List<U> {
    (0..n).map(|i| ((U::Key::fresh(&format!("{name}k{i}"), HI), U::Val::fresh(&format!("{name}v{i}"), HI)), U::Time::fresh(&format!("{name}t{i}"), HI), var(&format!("{name}r{i}"), -R, R))).collect()
}
fn sorted<U: Ups>(name: &str, n: usize) -> List<U> { canon::<U::KD>(name, n, &[U::Time::minimum()], &[], HI, R) }
/// Canonical updates with every pattern of runs of keys and values, and arbitrary differences.
fn shaped(n: usize) -> List<U> {
    let (mut k, mut v, mut t) = (0, 0, 0);
    (0..n).map(|i| {
        if i > 0 { match choose("run", 3) { 0 => { k += 1; v = i as i64 % 2; t = 0; }, 1 => { v += 1; t = i as i64 % 3; }, _ => t += 1 } }
        let r = var(&format!("r{i}"), -R, R);
        assume(!r.is(c(0)));
        ((c(k), c(v)), c(t), r)
    }).collect()
}
fn equal_sums<U: Ups>(a: &List<U>, b: &List<U>, what: &str) {
    let (d, q) = ((U::Key::fresh("k", HI), U::Val::fresh("v", HI)), U::Time::fresh("q", HI));
    check(exact(a, &d, &q).is(exact(b, &d, &q)), what);
}
/// What a reader sees; with the reported lengths, which must agree.
fn read<U: Ups>(t: &UpdatesTyped<U>) -> List<U> {
    let l: List<U> = untrie(t);
    check(B::of(t.len() == l.len()), "a wrong length is reported");
    let mut it = t.view().iter();
    for i in 0..=l.len() { check(B::of(it.len() == l.len() - i), "a wrong remaining length is reported"); it.next(); }
    l
}
/// A single outer list, with no empty runs, as consolidated tries have.
fn tidy<U: Ups>(t: &UpdatesTyped<U>) {
    let v = t.view();
    check(B::of(Len::len(&v.keys) == (Len::len(&v.keys.values) > 0) as usize), "more than one outer list");
    check(B::of(Len::len(&v.vals) == Len::len(&v.keys.values) && Len::len(&v.times) == Len::len(&v.vals.values) && Len::len(&v.diffs) == Len::len(&v.times.values) && Len::len(&v.diffs.values) == Len::len(&v.times.values)), "levels disagree");
    for i in 0..Len::len(&v.vals) { check(B::of(child_range(v.vals.bounds, i).len() > 0), "an empty run of values") }
    for i in 0..Len::len(&v.times) { check(B::of(child_range(v.times.bounds, i).len() > 0), "an empty run of times") }
    let keys: Vec<_> = (0..Len::len(&v.keys.values)).map(|i| <U::Key as Columnar>::into_owned(columnar::Index::get(&v.keys.values, i))).collect();
    check(increasing(&keys), "keys repeat");
}

fn form<U: Ups>(n: usize) {
    let ups = arbitrary::<U>("", n);
    let mut t = UpdatesTyped::<U>::default();
    for (i, ((k, v), time, r)) in ups.iter().enumerate() { if i % 2 == 0 { t.push((k, v, time, r)) } else { t.push_into(((k.clone(), v.clone()), time.clone(), *r)) } }
    check(is::<U>(&read(&t), &ups), "pushed updates are read back differently");
    let again = UpdatesTyped::<U>::form_unsorted(t.view().iter());
    let t = t.consolidate();
    tidy(&t);
    let out = read(&t);
    note(|| format!("{:?} formed as {:?}", ups, out));
    check(canonical(&out), "formed updates are not consolidated");
    equal_sums::<U>(&ups, &out, "forming changed a difference");
    check(is::<U>(&read(&again), &out), "two ways of forming disagree");
    if out.len() < n { reached("combined"); }
}

/// Several outer lists, some of single updates and some of whole runs of keys, as exchanging data produces.
fn mixed<U: Ups>(sizes: &[usize]) {
    let mut all: List<U> = vec![];
    let mut t = UpdatesTyped::<U>::default();
    for (i, n) in sizes.iter().enumerate() {
        let ups = sorted::<U>(&format!("{i}"), *n);
        if choose("single", 2) == 1 { for ((k, v), time, r) in &ups { t.push((k, v, time, r)); } all.append(&mut ups.clone()); }
        else {
            let piece = trie::<U>(&ups);
            let nk = Len::len(&piece.view().keys.values);
            let (a, b) = { let a = choose("from", nk + 1); (a, a + choose("keys", nk + 1 - a)) };
            t.extend_from_keys(piece.view(), a..b);
            if b > a { t.keys.bounds.push(Len::len(&t.keys.values) as u64); }
            let mut keys: Vec<U::Key> = ups.iter().map(|u| u.0.0.clone()).collect();
            keys.dedup();
            Extend::extend(&mut all, ups.into_iter().filter(|u| keys[a..b].contains(&u.0.0)));
            if b > a { reached("range of keys"); }
        }
    }
    check(is::<U>(&read(&t), &all), "the updates are read back differently");
    let u: Updates<U> = t.into();
    check(B::of(u.len() == all.len() && u.is_empty() == all.is_empty()), "wrong length");
    let out = through(&u, "mixed");
    check(is::<U>(&out, &all), "the updates are different after a trip through bytes");
    let con = u.into_typed().consolidate();
    tidy(&con);
    let con = read(&con);
    check(canonical(&con), "not consolidated");
    equal_sums::<U>(&all, &con, "consolidating changed a difference");
}
/// Through bytes, by both codecs.
fn through<U: Ups>(u: &Updates<U>, _what: &str) -> List<U> {
    let mut buf = vec![];
    u.write_to(&mut buf);
    check(B::of(buf.len() == u.length_in_bytes()), "a wrong encoded length is reported");
    let back = Updates::<U>::read_from(timely::bytes::arc::BytesMut::from(buf).freeze());
    let seen: List<U> = back.view().iter().map(|(k, v, t, r)| ((<U::Key as Columnar>::into_owned(k), <U::Val as Columnar>::into_owned(v)), <U::Time as Columnar>::into_owned(t), <U::Diff as Columnar>::into_owned(r))).collect();
    check(is::<U>(&seen, &read(&back.clone().into_typed())), "decoded updates read differently once owned");
    // A second trip, from borrowed bytes.
    let rec = RecordedUpdates { updates: back, records: seen.len() + 3, consolidated: choose("flag", 2) == 1 };
    let mut buf = vec![];
    rec.into_bytes(&mut buf);
    check(B::of(buf.len() == rec.length_in_bytes()), "a wrong encoded length is reported");
    let back = RecordedUpdates::<U>::from_bytes(timely::bytes::arc::BytesMut::from(buf).freeze());
    check(B::of(back.records == rec.records && back.consolidated == rec.consolidated), "record count or flag changed");
    let again: List<U> = read(&back.updates.into_typed());
    check(is::<U>(&seen, &again), "decoding again gave different updates");
    reached("decoded");
    again
}

fn cuts<T: Clone>(l: &[T], most: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut rest = l;
    while !rest.is_empty() { let k = 1 + choose("size", most.min(rest.len())); out.push(rest[..k].to_vec()); rest = &rest[k..]; }
    out
}
/// Melding any division of a list gives the list.
fn meld<U: Ups>(ups: List<U>, most: usize) {
    let parts = cuts(&ups, most);
    let mut parts = parts.iter().map(|p| trie::<U>(p));
    let mut b = UpdatesBuilder::new_from(if choose("start empty", 2) == 1 { UpdatesTyped::default() } else { parts.next().unwrap() });
    for p in parts { b.meld(&p); if choose("and nothing", 2) == 1 { b.meld(&UpdatesTyped::default()); } }
    let t = b.done();
    tidy(&t);
    check(is::<U>(&read(&t), &ups), "melding changed the updates");
    // The result can be used as any other.
    check(is::<U>(&through(&t.clone().into(), "melded"), &ups), "melded updates are different after a trip through bytes");
    let again = t.consolidate();
    check(is::<U>(&read(&again), &ups), "melded updates consolidate differently");
    reached("melded");
}
/// Cutting at every point.
fn split<U: Ups>(ups: List<U>) {
    let n = choose("at", ups.len() + 1);
    let t = trie::<U>(&ups);
    let (a, b) = trie_merger::split_at(t, n);
    tidy(&a); tidy(&b);
    check(is::<U>(&read(&a), &ups[..n].to_vec()), "the first part is wrong");
    check(is::<U>(&read(&b), &ups[n..].to_vec()), "the second part is wrong");
    // The parts meld into what they came from.
    let mut m = UpdatesBuilder::new_from(a); m.meld(&b);
    check(is::<U>(&read(&m.done()), &ups), "the parts do not meld into the whole");
    reached("split");
}
/// The rest of a list from any update.
fn suffix<U: Ups>(ups: List<U>) {
    let n = choose("from", ups.len());
    let t = trie::<U>(&ups);
    // Indexes of the update's key and value.
    let (mut k, mut v) = (0, 0);
    for w in ups[..=n].windows(2) { if w[0].0.0 != w[1].0.0 { k += 1; v += 1; } else if w[0].0.1 != w[1].0.1 { v += 1; } }
    let s = trie_merger::suffix_chunk((k, v, n), &t);
    tidy(&s);
    check(is::<U>(&read(&s), &ups[n..].to_vec()), "the suffix is wrong");
    check(is::<U>(&read(&s.consolidate()), &ups[n..].to_vec()), "the suffix consolidates differently");
    reached("suffix");
}
/// Partitioning several tries by time.
fn extract<U: Ups>(ups: List<U>, most: usize) {
    let f: Antichain<U::Time> = anti("f", 0, U::Time::WIDTH, HI);
    let (mut keep, mut ship): (List<U>, List<U>) = (vec![], vec![]);
    let mut residual = Antichain::new();
    let parts: Vec<_> = cuts(&ups, most).iter().map(|p| trie::<U>(p)).collect();
    trie_merger::extract(parts, f.borrow(), &mut residual, |x| { tidy(&x); let mut m = read(&x); ship.append(&mut m) }, |x| { tidy(&x); let mut m = read(&x); keep.append(&mut m) });
    let (k, s): (List<U>, List<U>) = ups.into_iter().partition(|u| beyond(&f, &u.1).decide());
    check(is::<U>(&keep, &k) & is::<U>(&ship, &s), "updates are on the wrong side");
    let times: Vec<U::Time> = k.iter().map(|u| u.1.clone()).collect();
    check(same(&residual, &times), "the frontier of kept times is wrong");
    if !k.is_empty() && !s.is_empty() { reached("both sides"); }
}
/// Merging two tries through the lesser of their ends.
fn pair<U: Ups>(n1: usize, n2: usize) {
    let (u1, u2) = (sorted::<U>("a", n1), sorted::<U>("b", n2));
    let (mut a, mut b) = (Some(((0, 0, 0), trie::<U>(&u1))), Some(((0, 0, 0), trie::<U>(&u2))));
    let m = trie_merger::merge_pair(&mut a, &mut b).filter_zero();
    tidy(&m);
    check(B::of(a.is_none() || b.is_none()), "neither input was finished");
    let merged = read(&m);
    let mut all = merged.clone();
    for x in [a, b] { if let Some((at, t)) = x { let s = trie_merger::suffix_chunk(at, &t); tidy(&s); let mut l = read(&s); if !l.is_empty() { reached("remainder"); } all.append(&mut l); } }
    note(|| format!("{:?} and {:?} merge into {:?}, with the remainder {:?}", u1, u2, merged, all));
    check(canonical(&all), "the merged updates and the remainder are not sorted and consolidated");
    let inputs: List<U> = u1.into_iter().chain(u2).collect();
    equal_sums::<U>(&inputs, &all, "merging changed a difference");
    if all.len() < n1 + n2 { reached("cancelled or combined"); }
}

/// Containers of any sizes into the chunker of arrangements.
fn chunker<U: Ups>(sizes: &[&[usize]], timed: bool) {
    let mut chunker = Chunker::<U>::default();
    let mut all: List<U> = vec![];
    let mut out: Vec<List<U>> = vec![];
    let mut take = |x: Option<&mut ColChunk<U>>| -> bool { match x { Some(ch) => { check(B::of(ch.len() > 0), "an empty chunk"); let l = <U::KD as Chunked>::read(ch); check(canonical(&l), "a chunk is not sorted and consolidated"); check(B::of(l.len() == ch.len()), "wrong length"); out.push(l); true } None => false } };
    for (i, s) in sizes.iter().enumerate() {
        let n = s[choose("size", s.len())];
        let consolidated = choose("consolidated", 2) == 1;
        let mut ups = if consolidated { sorted::<U>(&format!("{i}"), n) } else { arbitrary::<U>(&format!("{i}"), n) };
        if !timed { for u in ups.iter_mut() { assume(u.1.s_eq(&U::Time::minimum())); u.1 = U::Time::minimum(); } }
        let mut t = UpdatesTyped::<U>::default();
        for ((k, v), time, r) in &ups { t.push((k, v, time, r)); }
        if consolidated { t = t.consolidate(); }
        all.append(&mut ups.clone());
        let mut con = RecordedUpdates { updates: t.into(), records: n, consolidated };
        chunker.push_into(&mut con);
        if choose("extract", 2) == 1 { while take(chunker.extract()) { reached("early"); } }
    }
    let mut rounds = 0;
    while take(chunker.finish()) { rounds += 1; if rounds > 20 { fail("the chunker never finishes") } }
    let out: List<U> = out.into_iter().flatten().collect();
    note(|| format!("{:?} chunked as {:?}", all, out));
    equal_sums::<U>(&all, &out, "chunking changed a difference");
    reached("finished");
}
/// Single updates into the builder of inputs.
fn builder<U: Ups>(n: usize) where <(U::Key, U::Val, U::Time, U::Diff) as Columnar>::Container: Push<(U::Key, U::Val, U::Time, U::Diff)> {
    let mut b = ValBuilder::<U>::default();
    let all = arbitrary::<U>("", n);
    let (mut out, mut records): (List<U>, usize) = (vec![], 0);
    let mut take = |x: Option<&mut RecordedUpdates<U>>| -> bool { match x { Some(con) => { let con = std::mem::take(con); records += con.records; let t = con.updates.into_typed(); let mut l = read(&t); if con.consolidated { tidy(&t); check(canonical(&l), "claimed to be consolidated"); } out.append(&mut l); true } None => false } };
    for ((k, v), t, r) in all.iter().cloned() { b.push_into((k, v, t, r)); if choose("extract", 2) == 1 { while take(b.extract()) { reached("early"); } } }
    let mut rounds = 0;
    while take(b.finish()) { rounds += 1; if rounds > 20 { fail("the builder never finishes") } }
    check(B::of(records == n), "the records reported are not those supplied");
    equal_sums::<U>(&all, &out, "building changed a difference");
}

// ---- Storage ----
struct Store(Vec<()>);
struct Source(Vec<u8>);
impl BytesStore for Store { fn store(&mut self, bytes: &[u8]) -> Box<dyn BytesSource> { self.0.push(()); Box::new(Source(bytes.to_vec())) } }
impl BytesSource for Source { fn load(&self) -> Vec<u8> { self.0.clone() } }
struct Spilling;
impl Spilling { fn new(budget: usize) -> Self { spill::install(budget, Box::new(Store(vec![])), Arc::new(SpillStats::default())); Spilling } }
impl Drop for Spilling { fn drop(&mut self) { spill::uninstall() } }
fn paged<U: Ups>(cs: &[ColChunk<U>]) -> bool { let p = cs.iter().any(|x| matches!(x, ColChunk::Paged(_))); if p { reached("spilled"); } p }

/// Chunks that may be in storage read and operate as others do.
fn spilled<U: Ups>(n: usize, most: usize, budgets: &[usize], op: usize) {
    let _guard = Spilling::new(budgets[choose("budget", budgets.len())]);
    let ups = sorted::<U>("", n);
    let cs: Vec<ColChunk<U>> = settle_all(cuts(&ups, most).iter().map(|p| ColChunk::from_trie(trie::<U>(p))));
    paged(&cs);
    check(B::of(is_graded(&cs)), "settled chunks are not graded");
    for (i, ch) in cs.iter().enumerate() {
        let at: usize = cs[..i].iter().map(|x| x.len()).sum();
        let [a, b] = <U::KD as Chunked>::bounds(ch);
        let (f, l) = (&ups[at], &ups[at + ch.len() - 1]);
        check(a.0.s_is(&f.0) & a.1.s_eq(&f.1) & b.0.s_is(&l.0) & b.1.s_eq(&l.1), "bounds of a stored chunk are wrong");
    }
    match op {
        0 => { // Read twice, the second time from what the first retained.
            check(is::<U>(&<U::KD as Chunked>::read_all(&cs), &ups), "stored updates are read back differently");
            check(is::<U>(&<U::KD as Chunked>::read_all(&cs), &ups), "stored updates are read back differently the second time");
            let mut one = cs[choose("one", cs.len())].clone();
            let before = <U::KD as Chunked>::read(&one);
            let t = one.updates_mut().clone();
            check(is::<U>(&read(&t), &before), "a stored chunk made writable changed");
        },
        1 => { // Merged.
            let more = sorted::<U>("b", 2);
            let others: Vec<ColChunk<U>> = settle_all(cuts(&more, 2).iter().map(|p| ColChunk::from_trie(trie::<U>(p))));
            let mut out = VecDeque::new();
            merge_chains(cs, others, &mut out);
            let out: Vec<_> = out.into();
            let got = <U::KD as Chunked>::read_all(&out);
            check(canonical(&got), "not consolidated");
            let inputs: List<U> = ups.into_iter().chain(more).collect();
            equal_sums::<U>(&inputs, &got, "merging stored chunks changed a difference");
        },
        2 => { // Advanced, then settled.
            let f: Antichain<U::Time> = anti("f", 1, 1, HI);
            let (mut input, mut mid, mut out): (VecDeque<_>, _, _) = (cs.into(), VecDeque::new(), VecDeque::new());
            ColChunk::advance(&mut input, f.borrow(), true, &mut mid);
            ColChunk::settle(&mut mid, true, &mut out);
            let got = <U::KD as Chunked>::read_all(&Vec::from(out));
            check(canonical(&got), "not consolidated");
            let (d, q) = ((U::Key::fresh("k", HI), U::Val::fresh("v", HI)), U::Time::fresh("q", HI));
            check(beyond(&f, &q).implies(accum(&ups, &d, &q).is(accum(&got, &d, &q))), "an accumulation changed in advancing stored chunks");
        },
        3 => { // Partitioned.
            let f: Antichain<U::Time> = anti("f", 1, 1, HI);
            let (mut input, mut keep, mut ship, mut residual): (VecDeque<_>, _, _, _) = (cs.into(), VecDeque::new(), VecDeque::new(), Antichain::new());
            while !input.is_empty() { ColChunk::extract(&mut input, f.borrow(), &mut residual, &mut keep, &mut ship); }
            let (k, s): (List<U>, List<U>) = ups.into_iter().partition(|u| beyond(&f, &u.1).decide());
            check(is::<U>(&<U::KD as Chunked>::read_all(&Vec::from(keep)), &k) & is::<U>(&<U::KD as Chunked>::read_all(&Vec::from(ship)), &s), "updates are on the wrong side");
        },
        _ => { // Navigated.
            let b = std::rc::Rc::new(ChunkBatch::new(cs, Description::new(Antichain::from_elem(U::Time::minimum()), Antichain::new(), Antichain::from_elem(U::Time::minimum()))));
            navigate_batch::<U::KD>(&b, ups, 2);
        },
    }
}

fn main() {
    const F: &[&str] = &["UpdatesTyped::{push,form,form_unsorted,consolidate,iter,len,view}", "Consolidating", "UpdatesIter", "UpdatesView"];
    const X: &[&str] = &["UpdatesTyped::{extend_from_keys,push,consolidate}", "Updates::{from,write_to,length_in_bytes,read_from,into_typed,len,view}", "RecordedUpdates::{into_bytes,from_bytes,length_in_bytes}", "UpdatesView::{vals_bounds,times_bounds}"];
    const M: &[&str] = &["UpdatesBuilder::{new_from,meld,done}", "Updates::{write_to,read_from,into_typed}"];
    const S: &[&str] = &["trie_merger::split_at", "trie_merger::suffix_chunk", "write_from_surveys", "write_layer"];
    const E: &[&str] = &["trie_merger::extract", "retain_items"];
    const P: &[&str] = &["trie_merger::{merge_pair,survey,write_layer,write_diffs,suffix_chunk,gallop}", "UpdatesTyped::filter_zero"];
    const C: &[&str] = &["TrieChunker::{push_into,extract,finish,consolidate_blobs,absorb}", "ColChunk"];
    const B: &[&str] = &["ValBuilder::{push_into,extract,finish}"];
    const SP: &[&str] = &["seal_chunk", "meta_of", "spill::{install,try_page,decode}", "ColChunk::{trie,into_trie,updates_mut,bounds,len}", "Chunk for ColChunk", "ChunkBatchCursor"];
    let a = |n: usize, t: &str| format!("{n} arbitrary updates over {t} times, in any order, with repeats and zeros; values in 0..=30, differences in -30..=30");
    let k = |n: &str, t: &str| format!("canonical lists of {n} updates over {t} times; values in 0..=30, differences in -30..=30");
    let s = |n: usize| format!("{n} updates in every pattern of runs of keys and values, arbitrary differences");
    let cases = vec![
        Case::new("form 3", a(3, "integer"), F, &["combined"], || form::<U>(3)),
        Case::new("form key 4", a(4, "integer"), F, &["combined"], || form::<UK>(4)),
        Case::new("form product 3", a(3, "product"), F, &["combined"], || form::<UP>(2)),
        Case::new("mixed 2 2", k("2 and 2", "integer"), X, &["range of keys", "decoded"], || mixed::<U>(&[2, 2])),
        Case::new("mixed product 2 1", k("2 and 1", "product"), X, &["range of keys", "decoded"], || mixed::<UP>(&[2, 1])),
        Case::new("mixed key 2 1 1", k("2, 1 and 1", "integer"), X, &["range of keys", "decoded"], || mixed::<UK>(&[2, 1, 1])),
        Case::new("meld 3", k("3", "integer"), M, &["melded"], || meld::<U>(sorted::<U>("", 3), 2)),
        Case::new("meld shapes 5", s(5), M, &["melded"], || meld::<U>(shaped(5), 4)),
        Case::new("meld product 2", k("2", "product"), M, &["melded"], || meld::<UP>(sorted::<UP>("", 2), 1)),
        Case::new("split 3", k("3", "integer"), S, &["split"], || split::<U>(sorted::<U>("", 3))),
        Case::new("split shapes 7", s(7), S, &["split"], || split::<U>(shaped(7))),
        Case::new("suffix 3", k("3", "integer"), S, &["suffix"], || suffix::<U>(sorted::<U>("", 3))),
        Case::new("suffix shapes 7", s(7), S, &["suffix"], || suffix::<U>(shaped(7))),
        Case::new("extract 3", k("3", "integer"), E, &["both sides"], || extract::<U>(sorted::<U>("", 3), 3)),
        Case::new("extract shapes 5", s(5), E, &["both sides"], || extract::<U>(shaped(5), 5)),
        Case::new("extract product 2", k("2", "product"), E, &["both sides"], || extract::<UP>(sorted::<UP>("", 2), 2)),
        Case::new("pair 2 2", k("2 and 2", "integer"), P, &["remainder", "cancelled or combined"], || pair::<U>(2, 2)),
        Case::new("pair 3 1", k("3 and 1", "integer"), P, &["remainder", "cancelled or combined"], || pair::<U>(3, 1)),
        Case::new("pair 3 2", k("3 and 2", "integer"), P, &["remainder", "cancelled or combined"], || pair::<U>(3, 2)),
        Case::new("pair 1 3", k("1 and 3", "integer"), P, &["remainder", "cancelled or combined"], || pair::<U>(1, 3)),
        Case::new("pair key 4 3", k("4 and 3", "integer"), P, &["remainder", "cancelled or combined"], || pair::<UK>(4, 3)),
        Case::new("chunker", "containers of 0 or 2, 1 and 1 updates, consolidated or not, at one time".to_string(), C, &["early", "finished"], || chunker::<UK>(&[&[0, 2], &[1], &[1]], false)),
        Case::new("chunker, one by one", "three containers of 1 update, consolidated or not".to_string(), C, &["finished"], || chunker::<UK>(&[&[1], &[1], &[1]], true)),
        Case::new("chunker, four", "four containers of 1 update, consolidated or not, at one time".to_string(), C, &["early", "finished"], || chunker::<UK>(&[&[1], &[1], &[1], &[1]], false)).thorough(),
        Case::new("chunker val", "two containers of 1 to 2 updates, consolidated or not".to_string(), C, &["finished"], || chunker::<U>(&[&[1, 2], &[1, 2]], true)),
        Case::new("builder 4", a(4, "integer"), B, &["early"], || builder::<UK>(4)),
        Case::new("spilled read", k("4", "integer"), SP, &["spilled"], || spilled::<UK>(4, 2, &[0, 2, 3], 0)),
        Case::new("spilled read val", k("3", "integer"), SP, &["spilled"], || spilled::<U>(3, 2, &[0, 2], 0)),
        Case::new("spilled merge", k("3 and 2", "integer"), SP, &["spilled"], || spilled::<UK>(3, 2, &[0, 2], 1)),
        Case::new("spilled advance", k("3", "integer"), SP, &["spilled"], || spilled::<U>(3, 2, &[0, 2], 2)),
        Case::new("spilled extract", k("3", "integer"), SP, &["spilled"], || spilled::<U>(3, 2, &[0, 2], 3)),
        Case::new("spilled cursor", k("3", "integer"), SP, &["spilled"], || spilled::<U>(3, 2, &[0], 4)),
        Case::new("form 4", a(4, "integer"), F, &["combined"], || form::<U>(4)).thorough(),
        Case::new("form product 3", a(3, "product"), F, &["combined"], || form::<UP>(3)).thorough(),
        Case::new("mixed 3 2", k("3 and 2", "integer"), X, &["range of keys", "decoded"], || mixed::<U>(&[3, 2])).thorough(),
        Case::new("meld shapes 7", s(7), M, &["melded"], || meld::<U>(shaped(7), 3)).thorough(),
        Case::new("split shapes 9", s(9), S, &["split"], || split::<U>(shaped(9))).thorough(),
        Case::new("suffix shapes 9", s(9), S, &["suffix"], || suffix::<U>(shaped(9))).thorough(),
        Case::new("extract 4", k("4", "integer"), E, &["both sides"], || extract::<U>(sorted::<U>("", 4), 4)).thorough(),
        Case::new("pair 3 3", k("3 and 3", "integer"), P, &["remainder", "cancelled or combined"], || pair::<U>(3, 3)).thorough(),
        Case::new("pair product 2 2", k("2 and 2", "product"), P, &["remainder", "cancelled or combined"], || pair::<UP>(2, 2)).thorough(),
        Case::new("chunker 3", "three containers of 0 to 3 updates, consolidated or not".to_string(), C, &["early", "finished"], || chunker::<UK>(&[&[0, 1, 3], &[1, 2], &[1, 2]], true)).thorough(),
        Case::new("builder 6", a(6, "integer"), B, &["early"], || builder::<UK>(5)).thorough(),
        Case::new("spilled cursor 4", k("4", "integer"), SP, &["spilled"], || spilled::<U>(4, 2, &[0, 2], 4)).thorough(),
    ];
    runner::run(Prop { id: "V01", title: "columnar updates", outside: "longer lists; string and other variable-length columns; storage that fails",
        assumptions: &["cut points and cursors refer to existing updates", "melded tries continue in order, as the callers ensure", "LINK_TARGET and TARGET reduced to 2 under cfg(ddverif)"], cases });
}
