//! Offline stand-in for `lru` 0.8: a bounded map evicting the least recently used key.
use std::{borrow::Borrow, collections::HashMap, fmt, hash::Hash, num::NonZeroUsize};
#[derive(Clone)]
pub struct LruCache<K, V> { map: HashMap<K, (u64, V)>, cap: usize, tick: u64 }
impl<K: Hash + Eq + Clone, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self { LruCache { map: HashMap::new(), cap: cap.get(), tick: 0 } }
    pub fn unbounded() -> Self { LruCache { map: HashMap::new(), cap: usize::MAX, tick: 0 } }
    fn next(&mut self) -> u64 { self.tick += 1; self.tick }
    fn lru_key(&self) -> Option<K> { self.map.iter().min_by_key(|(_, v)| v.0).map(|(k, _)| k.clone()) }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        let t = self.next();
        if let Some(e) = self.map.get_mut(&k) { e.0 = t; return Some(std::mem::replace(&mut e.1, v)) }
        if self.map.len() >= self.cap { if let Some(o) = self.lru_key() { self.map.remove(&o); } }
        self.map.insert(k, (t, v));
        None
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        let t = self.next();
        if let Some(e) = self.map.get_mut(&k) { e.0 = t; return Some((k, std::mem::replace(&mut e.1, v))) }
        let out = if self.map.len() >= self.cap { self.pop_lru() } else { None };
        self.map.insert(k, (t, v));
        out
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V> where K: Borrow<Q> { let t = self.next(); self.map.get_mut(k).map(|e| { e.0 = t; &e.1 }) }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { let t = self.next(); self.map.get_mut(k).map(|e| { e.0 = t; &mut e.1 }) }
    pub fn get_or_insert<F: FnOnce() -> V>(&mut self, k: K, f: F) -> &V { if !self.map.contains_key(&k) { self.put(k.clone(), f()); } self.get(&k).unwrap() }
    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.map.get(k).map(|e| &e.1) }
    pub fn peek_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { self.map.get_mut(k).map(|e| &mut e.1) }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.map.contains_key(k) }
    pub fn promote<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) where K: Borrow<Q> { self.get(k); }
    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.map.remove(k).map(|e| e.1) }
    pub fn pop_lru(&mut self) -> Option<(K, V)> { let k = self.lru_key()?; self.map.remove(&k).map(|e| (k, e.1)) }
    pub fn len(&self) -> usize { self.map.len() }
    pub fn is_empty(&self) -> bool { self.map.is_empty() }
    pub fn cap(&self) -> NonZeroUsize { NonZeroUsize::new(self.cap).unwrap() }
    pub fn clear(&mut self) { self.map.clear() }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        let mut v: Vec<_> = self.map.iter().collect();
        v.sort_by_key(|(_, e)| std::cmp::Reverse(e.0));
        v.into_iter().map(|(k, e)| (k, &e.1))
    }
}
impl<K: fmt::Debug, V> fmt::Debug for LruCache<K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "LruCache({})", self.map.len()) } }
