//! Stand-in for lru 0.8.1: a least-recently-used cache, kept as a list (front = most recent).
use std::borrow::Borrow;
use std::fmt;
use std::hash::Hash;
use std::num::NonZeroUsize;

#[derive(Clone)]
pub struct LruCache<K, V> {
    cap: usize,
    items: Vec<(K, V)>,
}
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        LruCache { cap: cap.get(), items: vec![] }
    }
    pub fn unbounded() -> Self {
        LruCache { cap: usize::MAX, items: vec![] }
    }
    fn pos<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.items.iter().position(|(x, _)| x.borrow() == k)
    }
    fn touch(&mut self, p: usize) {
        let e = self.items.remove(p);
        self.items.insert(0, e);
    }
    pub fn put(&mut self, k: K, mut v: V) -> Option<V> {
        if let Some(p) = self.pos(&k) {
            std::mem::swap(&mut self.items[p].1, &mut v);
            self.touch(p);
            return Some(v);
        }
        if self.items.len() >= self.cap {
            self.items.pop();
        }
        self.items.insert(0, (k, v));
        None
    }
    pub fn push(&mut self, k: K, mut v: V) -> Option<(K, V)> {
        if let Some(p) = self.pos(&k) {
            std::mem::swap(&mut self.items[p].1, &mut v);
            self.touch(p);
            return Some((k, v));
        }
        let out = if self.items.len() >= self.cap { self.items.pop() } else { None };
        self.items.insert(0, (k, v));
        out
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let p = self.pos(k)?;
        self.touch(p);
        Some(&self.items[0].1)
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let p = self.pos(k)?;
        self.touch(p);
        Some(&mut self.items[0].1)
    }
    pub fn get_or_insert<F: FnOnce() -> V>(&mut self, k: K, f: F) -> &V {
        match self.pos(&k) {
            Some(p) => self.touch(p),
            None => {
                let v = f();
                self.put(k, v);
            }
        }
        &self.items[0].1
    }
    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.pos(k).map(|p| &self.items[p].1)
    }
    pub fn peek_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let p = self.pos(k)?;
        Some(&mut self.items[p].1)
    }
    pub fn peek_lru(&self) -> Option<(&K, &V)> {
        self.items.last().map(|(k, v)| (k, v))
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.pos(k).is_some()
    }
    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        let p = self.pos(k)?;
        Some(self.items.remove(p).1)
    }
    pub fn pop_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let p = self.pos(k)?;
        Some(self.items.remove(p))
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        self.items.pop()
    }
    pub fn promote<Q: ?Sized + Hash + Eq>(&mut self, k: &Q)
    where
        K: Borrow<Q>,
    {
        if let Some(p) = self.pos(k) {
            self.touch(p)
        }
    }
    pub fn demote<Q: ?Sized + Hash + Eq>(&mut self, k: &Q)
    where
        K: Borrow<Q>,
    {
        if let Some(p) = self.pos(k) {
            let e = self.items.remove(p);
            self.items.push(e);
        }
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn cap(&self) -> NonZeroUsize {
        NonZeroUsize::new(self.cap).unwrap()
    }
    pub fn resize(&mut self, cap: NonZeroUsize) {
        self.cap = cap.get();
        self.items.truncate(self.cap);
    }
    pub fn clear(&mut self) {
        self.items.clear();
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> {
        self.items.iter().map(|(k, v)| (k, v))
    }
    pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (&K, &mut V)> {
        self.items.iter_mut().map(|(k, v)| (&*k, v))
    }
}
impl<K, V> fmt::Debug for LruCache<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("LruCache").field("len", &self.items.len()).field("cap", &self.cap).finish()
    }
}
