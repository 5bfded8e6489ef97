//! Stand-in for lru-cache 0.1: fixed capacity, least recently used entry evicted first.
use std::borrow::Borrow;
use std::hash::Hash;

pub struct LruCache<K, V> {
    /// least recently used first
    entries: Vec<(K, V)>,
    capacity: usize,
}

impl<K: Eq + Hash, V> LruCache<K, V> {
    pub fn new(capacity: usize) -> Self {
        LruCache { entries: Vec::new(), capacity }
    }
    fn touch<Q: ?Sized>(&mut self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Eq,
    {
        match self.entries.iter().position(|(k, _)| k.borrow() == key) {
            Some(i) => {
                let entry = self.entries.remove(i);
                self.entries.push(entry);
                true
            }
            None => false,
        }
    }
    pub fn contains_key<Q: ?Sized>(&mut self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Eq + Hash,
    {
        self.touch(key)
    }
    pub fn get_mut<Q: ?Sized>(&mut self, key: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
        Q: Eq + Hash,
    {
        if self.touch(key) {
            self.entries.last_mut().map(|(_, v)| v)
        } else {
            None
        }
    }
    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
        let old = match self.entries.iter().position(|(k, _)| *k == key) {
            Some(i) => Some(self.entries.remove(i).1),
            None => None,
        };
        self.entries.push((key, value));
        if self.entries.len() > self.capacity {
            self.entries.remove(0);
        }
        old
    }
    pub fn remove<Q: ?Sized>(&mut self, key: &Q) -> Option<V>
    where
        K: Borrow<Q>,
        Q: Eq + Hash,
    {
        match self.entries.iter().position(|(k, _)| k.borrow() == key) {
            Some(i) => Some(self.entries.remove(i).1),
            None => None,
        }
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.capacity
    }
    pub fn set_capacity(&mut self, capacity: usize) {
        self.capacity = capacity;
        while self.entries.len() > capacity {
            self.entries.remove(0);
        }
    }
    pub fn remove_lru(&mut self) -> Option<(K, V)> {
        if self.entries.is_empty() {
            None
        } else {
            Some(self.entries.remove(0))
        }
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> {
        self.entries.iter().map(|(k, v)| (k, v))
    }
    pub fn clear(&mut self) {
        self.entries.clear()
    }
}
