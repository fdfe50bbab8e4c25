//! Stands in for bloom-filters (not available offline): a filter without false positives.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct DefaultBuildHashKernels<B>(PhantomData<B>);

impl<B> DefaultBuildHashKernels<B> {
    pub fn new(_: usize, _: B) -> Self {
        DefaultBuildHashKernels(PhantomData)
    }
}

pub trait BloomFilter {
    fn insert<T: Hash>(&mut self, item: &T);
    fn contains<T: Hash>(&self, item: &T) -> bool;
}

pub struct StableBloomFilter<K>(HashSet<u64>, PhantomData<fn() -> K>);

impl<K> StableBloomFilter<K> {
    pub fn new(_: usize, _: u8, _: f64, _: K) -> Self {
        StableBloomFilter(HashSet::new(), PhantomData)
    }
}

fn hash<T: Hash>(item: &T) -> u64 {
    let mut h = DefaultHasher::new();
    item.hash(&mut h);
    h.finish()
}

impl<K> BloomFilter for StableBloomFilter<K> {
    fn insert<T: Hash>(&mut self, item: &T) {
        self.0.insert(hash(item));
    }
    fn contains<T: Hash>(&self, item: &T) -> bool {
        self.0.contains(&hash(item))
    }
}
