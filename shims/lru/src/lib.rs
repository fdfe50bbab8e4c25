//! The part of the `lru` crate (0.12) this repository uses, on std collections.
use std::borrow::Borrow;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use std::num::NonZeroUsize;

pub struct LruCache<K, V> {
    cap:  usize,
    tick: u64,
    map:  HashMap<K, (V, u64)>,
    age:  BTreeMap<u64, K>,
}

impl<K, V> std::fmt::Debug for LruCache<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "LruCache({}/{})", self.map.len(), self.cap)
    }
}

impl<K: Hash + Eq + Clone, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        LruCache { cap: cap.get(), tick: 0, map: HashMap::new(), age: BTreeMap::new() }
    }

    pub fn unbounded() -> Self {
        LruCache { cap: usize::MAX, tick: 0, map: HashMap::new(), age: BTreeMap::new() }
    }

    pub fn len(&self) -> usize {
        self.map.len()
    }

    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }

    pub fn cap(&self) -> NonZeroUsize {
        NonZeroUsize::new(self.cap).unwrap()
    }

    fn touch<Q: ?Sized + Hash + Eq>(&mut self, k: &Q)
    where
        K: Borrow<Q>,
    {
        let (key, _) = match self.map.get_key_value(k) {
            Some((key, v)) => (key.clone(), v.1),
            None => return,
        };
        self.tick += 1;
        let e = self.map.get_mut(k).unwrap();
        self.age.remove(&e.1);
        e.1 = self.tick;
        self.age.insert(self.tick, key);
    }

    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        if let Some(e) = self.map.get_mut(&k) {
            let old = std::mem::replace(&mut e.0, v);
            self.touch(&k);
            return Some(old);
        }
        if self.map.len() >= self.cap {
            self.pop_lru();
        }
        self.tick += 1;
        self.age.insert(self.tick, k.clone());
        self.map.insert(k, (v, self.tick));
        None
    }

    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        if self.map.contains_key(&k) {
            let old = self.put(k.clone(), v);
            return old.map(|o| (k, o));
        }
        let out = if self.map.len() >= self.cap { self.pop_lru() } else { None };
        self.put(k, v);
        out
    }

    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.touch(k);
        self.map.get(k).map(|e| &e.0)
    }

    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.touch(k);
        self.map.get_mut(k).map(|e| &mut e.0)
    }

    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.map.get(k).map(|e| &e.0)
    }

    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.contains_key(k)
    }

    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        let (v, t) = self.map.remove(k)?;
        self.age.remove(&t);
        Some(v)
    }

    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        let t = *self.age.keys().next()?;
        let k = self.age.remove(&t)?;
        let (v, _) = self.map.remove(&k)?;
        Some((k, v))
    }

    pub fn clear(&mut self) {
        self.map.clear();
        self.age.clear();
    }

    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.age.values().rev().map(move |k| (k, &self.map[k].0))
    }
}
