//! Instances of the engine's generic entry points for several n-gram lengths. They live in a crate of
//! their own so that they are compiled with the scheduler's callbacks, like the engine itself.
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
#[cfg(feature = "deep")]
use indexer_lib::data::optimize;
use indexer_lib::data::{Product, RawProduct, SuperAlloc};
#[cfg(feature = "deep")]
use indexer_lib::ngram::IndexFeed;
use indexer_lib::ngram::{GramIndex, GramNode};
use indexer_lib::serialize::{deserialize_all, serialize_all};

pub type NodeArena = Arena<GramNode<'static, char>>;
pub type Idx<const N: usize> = GramIndex<'static, char, Product<'static>, N>;
pub type Both<const N: usize> = (Idx<N>, ClassicIndexes<'static>);

pub struct W;
pub trait Codec<const N: usize> {
    /// What `index_and_serialize_with_n` does, keeping the index it builds.
    fn build(raw: Vec<RawProduct<'_>>, sa: &'static SuperAlloc, na: &'static NodeArena) -> Both<N>;
    fn encode(b: &Both<N>) -> Vec<u8>;
    fn decode(input: &[u8], na: &'static NodeArena, sa: &'static SuperAlloc) -> Option<Both<N>>;
    fn file(raw: Vec<RawProduct<'_>>, sa: &'static SuperAlloc) -> Vec<u8>;
    fn search(ix: &Idx<N>, q: &str) -> Vec<(String, f32)>;
}
macro_rules! codec {
    ($($n:literal)*) => { $(
        impl Codec<$n> for W {
            #[cfg(not(feature = "deep"))]
            fn build(raw: Vec<RawProduct<'_>>, sa: &'static SuperAlloc, na: &'static NodeArena) -> Both<$n> {
                let file = indexer_lib::index_and_serialize_with_n::<$n>(raw, sa).expect("building a generated catalogue");
                deserialize_all::<char, $n>(Vec::leak(file), na, sa).expect("a good file decodes")
            }
            #[cfg(feature = "deep")]
            fn build(raw: Vec<RawProduct<'_>>, sa: &'static SuperAlloc, na: &'static NodeArena) -> Both<$n> {
                let (prods, classic) = optimize(raw, sa);
                let iter = prods.products.iter().map(|p| IndexFeed {
                    data: p,
                    grams: [&p.description, &p.title, &p.vendor.name].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase),
                });
                (GramIndex::index_from(iter, na, prods), classic)
            }
            fn encode(b: &Both<$n>) -> Vec<u8> {
                serialize_all(&b.0, &b.1)
            }
            fn decode(input: &[u8], na: &'static NodeArena, sa: &'static SuperAlloc) -> Option<Both<$n>> {
                deserialize_all::<char, $n>(input, na, sa)
            }
            fn file(raw: Vec<RawProduct<'_>>, sa: &'static SuperAlloc) -> Vec<u8> {
                indexer_lib::index_and_serialize_with_n::<$n>(raw, sa).expect("building a generated catalogue")
            }
            fn search(ix: &Idx<$n>, q: &str) -> Vec<(String, f32)> {
                ix.search(q.chars().flat_map(char::to_lowercase)).into_iter().map(|(p, c)| (p.id.clone(), c)).collect()
            }
        }
    )* };
}
codec!(2 3 4 5 6 8);
