//! Batches made of chunks, in both chunk layouts.
use crate::model::*;
use crate::traces::*;
use crate::*;
use columnar::{Columnar, Index, Push};
use differential_dataflow::columnar::layout::ColumnarUpdate;
use differential_dataflow::columnar::trace::chunk::ColChunk;
use differential_dataflow::columnar::updates::UpdatesTyped;
use differential_dataflow::trace::chunk::vec::VecChunk;
use differential_dataflow::trace::chunk::*;
use differential_dataflow::trace::cursor::Cursor;
use differential_dataflow::trace::{Builder, Description, Navigable};
use std::rc::Rc;
use timely::container::PushInto;

/// A chunk layout.
pub trait Chunked: Kind<B = Rc<ChunkBatch<Self::Chunk>>> {
    type Chunk: Chunk<Time = Self::T> + Clone + Default + 'static;
    /// From a canonical list of updates.
    fn chunk(ups: &[Up<Self::K, Self::V, Self::T>]) -> Self::Chunk;
    fn read(c: &Self::Chunk) -> Vec<Up<Self::K, Self::V, Self::T>>;
    /// The least and greatest entries a chunk claims to have.
    fn bounds(c: &Self::Chunk) -> [((Self::K, Self::V), Self::T); 2];
    fn read_all<'a>(cs: impl IntoIterator<Item = &'a Self::Chunk>) -> Vec<Up<Self::K, Self::V, Self::T>> where Self::Chunk: 'a {
        let mut out = vec![];
        for c in cs { let l = Self::read(c); check(B::of(l.len() == c.len()), "a chunk reports a wrong length"); out.append(&mut { l }) }
        out
    }
}

pub struct VecKind<K, V, T>(std::marker::PhantomData<(K, V, T)>);
impl<K: Datum, V: Datum, T: DTime> Kind for VecKind<K, V, T> {
    const FORWARD: bool = true;
    type K = K; type V = V; type T = T;
    type B = Rc<ChunkBatch<VecChunk<K, V, T, Sym>>>;
    type C = <Self::B as Navigable>::Cursor;
    fn build(chunks: Vec<Vec<Up<K, V, T>>>, desc: Description<T>) -> Self::B {
        let mut chain = chunks.iter().map(|c| Self::chunk(c)).filter(|c| c.len() > 0).collect();
        <ChunkBuilder<VecChunk<K, V, T, Sym>> as Builder>::seal(&mut chain, desc)
    }
    fn key(k: &K) -> K { k.clone() }
    fn val(v: &V) -> V { v.clone() }
    fn seek_key<C2: for<'a> Cursor<Key<'a> = &'a K>>(c: &mut C2, s: &C2::Storage, k: &K) { c.seek_key(s, k) }
    fn seek_val<C2: for<'a> Cursor<Val<'a> = &'a V>>(c: &mut C2, s: &C2::Storage, v: &V) { c.seek_val(s, v) }
}
impl<K: Datum, V: Datum, T: DTime> Chunked for VecKind<K, V, T> {
    type Chunk = VecChunk<K, V, T, Sym>;
    fn chunk(ups: &[Up<K, V, T>]) -> Self::Chunk { let mut c = Self::Chunk::default(); for u in ups { c.push_into(u.clone()) } c }
    fn read(c: &Self::Chunk) -> Vec<Up<K, V, T>> { dump::<Self, _>(&mut c.cursor(), c) }
    fn bounds(c: &Self::Chunk) -> [((K, V), T); 2] { let (a, b) = NavigableChunk::bounds(c); [((a.0.clone(), a.1.clone()), a.2.clone()), ((b.0.clone(), b.1.clone()), b.2.clone())] }
}

/// Builds a columnar trie from a canonical list, through the library's `push` and `consolidate`.
pub fn trie<U: ColumnarUpdate>(ups: &[((U::Key, U::Val), U::Time, U::Diff)]) -> UpdatesTyped<U> {
    let mut t = UpdatesTyped::<U>::default();
    for ((k, v), time, r) in ups { t.push((k, v, time, r)) }
    t.consolidate()
}
pub fn untrie<U: ColumnarUpdate>(t: &UpdatesTyped<U>) -> Vec<((U::Key, U::Val), U::Time, U::Diff)> {
    t.iter().map(|(k, v, t, r)| ((<U::Key as Columnar>::into_owned(k), <U::Val as Columnar>::into_owned(v)), <U::Time as Columnar>::into_owned(t), <U::Diff as Columnar>::into_owned(r))).collect()
}

pub struct ColKind<K, V, T>(std::marker::PhantomData<(K, V, T)>);
macro_rules! col_kind { ($K:ty, $V:ty, $T:ty) => {
    impl Kind for ColKind<$K, $V, $T> {
        const FORWARD: bool = true;
        type K = $K; type V = $V; type T = $T;
        type B = Rc<ChunkBatch<ColChunk<($K, $V, $T, Sym)>>>;
        type C = <Self::B as Navigable>::Cursor;
        fn build(chunks: Vec<Vec<Up<$K, $V, $T>>>, desc: Description<$T>) -> Self::B {
            let mut chain = chunks.iter().map(|c| Self::chunk(c)).filter(|c| c.len() > 0).collect();
            <ChunkBuilder<ColChunk<($K, $V, $T, Sym)>> as Builder>::seal(&mut chain, desc)
        }
        fn key(k: columnar::Ref<'_, $K>) -> $K { <$K as Columnar>::into_owned(k) }
        fn val(v: columnar::Ref<'_, $V>) -> $V { <$V as Columnar>::into_owned(v) }
        fn seek_key<C2: for<'a> Cursor<Key<'a> = columnar::Ref<'a, $K>>>(c: &mut C2, s: &C2::Storage, k: &$K) {
            let mut con = columnar::ContainerOf::<$K>::default(); con.push(k); c.seek_key(s, columnar::Borrow::borrow(&con).get(0)) }
        fn seek_val<C2: for<'a> Cursor<Val<'a> = columnar::Ref<'a, $V>>>(c: &mut C2, s: &C2::Storage, v: &$V) {
            let mut con = columnar::ContainerOf::<$V>::default(); con.push(v); c.seek_val(s, columnar::Borrow::borrow(&con).get(0)) }
    }
    impl Chunked for ColKind<$K, $V, $T> {
        type Chunk = ColChunk<($K, $V, $T, Sym)>;
        fn chunk(ups: &[Up<$K, $V, $T>]) -> Self::Chunk { ColChunk::from_trie(trie::<($K, $V, $T, Sym)>(ups)) }
        fn read(c: &Self::Chunk) -> Vec<Up<$K, $V, $T>> { dump::<Self, _>(&mut c.cursor(), c) }
        fn bounds(c: &Self::Chunk) -> [(($K, $V), $T); 2] {
            let (a, b) = NavigableChunk::bounds(c);
            [a, b].map(|x| ((<$K as Columnar>::into_owned(x.0), <$V as Columnar>::into_owned(x.1)), <$T as Columnar>::into_owned(x.2)))
        }
    }
} }
col_kind!(Sym, Sym, Sym);
col_kind!(Sym, Sym, P2);
col_kind!(Sym, (), Sym);
col_kind!(Sym, (), P2);
