//! Stand-in for the part of bimap 0.6 the serializer can use. Its maps iterate in an order that
//! depends on random hashes; so does this one, but the order follows from `verif_order`, so that
//! a case can be repeated.
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt;
use std::hash::Hash;

thread_local!(static ORDER: Cell<u64> = const { Cell::new(0) });

/// Sets what the order of iteration follows from in this thread.
pub fn verif_order(seed: u64) {
    ORDER.with(|o| o.set(seed));
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Overwritten<L, R> {
    Neither,
    Left(L, R),
    Right(L, R),
    Pair(L, R),
    Both((L, R), (L, R)),
}

#[derive(Clone)]
pub struct BiHashMap<L, R> {
    pairs: HashMap<u64, (L, R)>,
    left: HashMap<L, u64>,
    right: HashMap<R, u64>,
    next: u64,
}

pub type BiMap<L, R> = BiHashMap<L, R>;

impl<L, R> Default for BiHashMap<L, R> {
    fn default() -> Self {
        BiHashMap { pairs: HashMap::new(), left: HashMap::new(), right: HashMap::new(), next: 0 }
    }
}

impl<L, R> BiHashMap<L, R> {
    pub fn len(&self) -> usize {
        self.pairs.len()
    }
    pub fn is_empty(&self) -> bool {
        self.pairs.is_empty()
    }
    fn order(&self) -> Vec<u64> {
        let mut keys: Vec<u64> = self.pairs.keys().copied().collect();
        keys.sort_unstable();
        let mut s = ORDER.with(|o| o.get());
        if s != 0 {
            for i in (1..keys.len()).rev() {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                keys.swap(i, (s % (i as u64 + 1)) as usize);
            }
        }
        keys
    }
    pub fn iter(&self) -> std::vec::IntoIter<(&L, &R)> {
        let v: Vec<_> = self.order().into_iter().map(|k| (&self.pairs[&k].0, &self.pairs[&k].1)).collect();
        v.into_iter()
    }
    pub fn left_values(&self) -> std::vec::IntoIter<&L> {
        self.iter().map(|p| p.0).collect::<Vec<_>>().into_iter()
    }
    pub fn right_values(&self) -> std::vec::IntoIter<&R> {
        self.iter().map(|p| p.1).collect::<Vec<_>>().into_iter()
    }
}

impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    pub fn clear(&mut self) {
        *self = Self::default();
    }
    pub fn insert(&mut self, l: L, r: R) -> Overwritten<L, R> {
        let out = match (self.remove_by_left(&l), self.remove_by_right(&r)) {
            (None, None) => Overwritten::Neither,
            (None, Some((l, r))) => Overwritten::Right(l, r),
            (Some((l, old)), None) if old == r => Overwritten::Pair(l, old),
            (Some((l, old)), None) => Overwritten::Left(l, old),
            (Some(a), Some(b)) => Overwritten::Both(a, b),
        };
        self.put(l, r);
        out
    }
    pub fn insert_no_overwrite(&mut self, l: L, r: R) -> Result<(), (L, R)> {
        if self.contains_left(&l) || self.contains_right(&r) {
            return Err((l, r));
        }
        self.put(l, r);
        Ok(())
    }
    fn put(&mut self, l: L, r: R) {
        let k = self.next;
        self.next += 1;
        self.left.insert(l.clone(), k);
        self.right.insert(r.clone(), k);
        self.pairs.insert(k, (l, r));
    }
    pub fn contains_left(&self, l: &L) -> bool {
        self.left.contains_key(l)
    }
    pub fn contains_right(&self, r: &R) -> bool {
        self.right.contains_key(r)
    }
    pub fn get_by_left(&self, l: &L) -> Option<&R> {
        self.left.get(l).map(|k| &self.pairs[k].1)
    }
    pub fn get_by_right(&self, r: &R) -> Option<&L> {
        self.right.get(r).map(|k| &self.pairs[k].0)
    }
    pub fn remove_by_left(&mut self, l: &L) -> Option<(L, R)> {
        let k = self.left.remove(l)?;
        let p = self.pairs.remove(&k).unwrap();
        self.right.remove(&p.1);
        Some(p)
    }
    pub fn remove_by_right(&mut self, r: &R) -> Option<(L, R)> {
        let k = self.right.remove(r)?;
        let p = self.pairs.remove(&k).unwrap();
        self.left.remove(&p.0);
        Some(p)
    }
}

impl<L: fmt::Debug, R: fmt::Debug> fmt::Debug for BiHashMap<L, R> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}

impl<'a, L, R> IntoIterator for &'a BiHashMap<L, R> {
    type Item = (&'a L, &'a R);
    type IntoIter = std::vec::IntoIter<(&'a L, &'a R)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> IntoIterator for BiHashMap<L, R> {
    type Item = (L, R);
    type IntoIter = std::vec::IntoIter<(L, R)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().map(|(l, r)| (l.clone(), r.clone())).collect::<Vec<_>>().into_iter()
    }
}

impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> FromIterator<(L, R)> for BiHashMap<L, R> {
    fn from_iter<I: IntoIterator<Item = (L, R)>>(i: I) -> Self {
        let mut m = Self::default();
        for (l, r) in i {
            m.insert(l, r);
        }
        m
    }
}
