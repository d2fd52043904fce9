//! A sorted-array set standing in for std's BTreeSet: the operations used on it behave as documented there.
use core::borrow::Borrow;
pub const CAP: usize = @CAP@;
#[derive(Clone, Copy, Debug)]
pub struct BTreeSet<T> {
    pub len: usize,
    pub a: [Option<T>; CAP],
}
impl<T> Default for BTreeSet<T> {
    fn default() -> Self { Self::new() }
}
impl<T> BTreeSet<T> {
    pub fn new() -> Self { BTreeSet { len: 0, a: [const { None }; CAP] } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn reserve(&mut self, _: usize) {}
    pub fn drain(&mut self) -> IntoIter<T> { core::mem::replace(self, Self::new()).into_iter() }
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn clear(&mut self) { *self = Self::new() }
    pub fn iter(&self) -> Iter<'_, T> { Iter { s: &self.a, i: 0, j: self.len } }
    pub fn first(&self) -> Option<&T> { if self.len == 0 { None } else { self.a[0].as_ref() } }
    pub fn last(&self) -> Option<&T> { if self.len == 0 { None } else { self.a[self.len - 1].as_ref() } }
}
impl<T: Ord> BTreeSet<T> {
    pub fn contains<Q: ?Sized + Ord>(&self, q: &Q) -> bool where T: Borrow<Q> {
        let mut i = 0;
        while i < CAP {
            if i >= self.len { return false }
            if let Some(x) = &self.a[i] { if x.borrow() == q { return true } }
            i += 1;
        }
        false
    }
    pub fn get<Q: ?Sized + Ord>(&self, q: &Q) -> Option<&T> where T: Borrow<Q> { self.iter().find(|x| (*x).borrow() == q) }
    /// true when the value was not there
    pub fn insert(&mut self, v: T) -> bool {
        let mut i = 0;
        while i < CAP {
            if i >= self.len { break }
            match self.a[i].as_ref() {
                Some(x) if *x == v => return false,
                Some(x) if *x > v => break,
                _ => {}
            }
            i += 1;
        }
        assert!(self.len < CAP, "VP_CAP");
        let mut cur = Some(v);
        while i < CAP {
            core::mem::swap(&mut self.a[i], &mut cur);
            if i >= self.len { break }
            i += 1;
        }
        self.len += 1;
        true
    }
    pub fn remove<Q: ?Sized + Ord>(&mut self, q: &Q) -> bool where T: Borrow<Q> {
        let mut i = 0;
        while i < CAP {
            if i >= self.len { return false }
            if self.a[i].as_ref().map_or(false, |x| x.borrow() == q) {
                self.a[i] = None;
                while i + 1 < CAP { self.a.swap(i, i + 1); i += 1; }
                self.len -= 1;
                return true;
            }
            i += 1;
        }
        false
    }
    pub fn append(&mut self, o: &mut Self) {
        let x = core::mem::replace(o, Self::new());
        for v in x { self.insert(v); }
    }
    pub fn replace(&mut self, v: T) -> Option<T> where T: Clone { let o = self.get(&v).cloned(); if o.is_none() { self.insert(v); } o }
    pub fn take<Q: ?Sized + Ord>(&mut self, q: &Q) -> Option<T> where T: Borrow<Q> + Clone { let o = self.get(q).cloned(); self.remove(q); o }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let x = core::mem::replace(self, Self::new());
        for v in x { if f(&v) { self.insert(v); } }
    }
    pub fn pop_first(&mut self) -> Option<T> {
        if self.len == 0 { return None }
        let r = self.a[0].take();
        let mut i = 0;
        while i + 1 < CAP { self.a.swap(i, i + 1); i += 1; }
        self.len -= 1;
        r
    }
    pub fn pop_last(&mut self) -> Option<T> {
        if self.len == 0 { return None }
        self.len -= 1;
        self.a[self.len].take()
    }
    pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
    pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> {
        let mut r: BTreeSet<&'a T> = BTreeSet::new();
        for x in self { if !o.contains(x) { r.insert(x); } }
        for x in o { if !self.contains(x) { r.insert(x); } }
        r.into_iter()
    }
    pub fn is_disjoint(&self, o: &Self) -> bool { self.iter().all(|x| !o.contains(x)) }
    pub fn is_subset(&self, o: &Self) -> bool { self.iter().all(|x| o.contains(x)) }
    pub fn union<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> {
        let mut r: BTreeSet<&'a T> = BTreeSet::new();
        for x in self { r.insert(x); }
        for x in o { r.insert(x); }
        r.into_iter()
    }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> {
        let mut r: BTreeSet<&'a T> = BTreeSet::new();
        for x in self { if o.contains(x) { r.insert(x); } }
        r.into_iter()
    }
    pub fn difference<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> {
        let mut r: BTreeSet<&'a T> = BTreeSet::new();
        for x in self { if !o.contains(x) { r.insert(x); } }
        r.into_iter()
    }
    pub fn range<R: core::ops::RangeBounds<T>>(&self, r: R) -> IntoIter<&T> {
        let mut s: BTreeSet<&T> = BTreeSet::new();
        for x in self { if r.contains(x) { s.insert(x); } }
        s.into_iter()
    }
}
impl<T: PartialEq> PartialEq for BTreeSet<T> {
    fn eq(&self, o: &Self) -> bool { self.len == o.len && self.iter().zip(o.iter()).all(|(x, y)| x == y) }
}
impl<T: Eq> Eq for BTreeSet<T> {}
pub struct Iter<'a, T> { s: &'a [Option<T>; CAP], i: usize, j: usize }
impl<'a, T> Clone for Iter<'a, T> { fn clone(&self) -> Self { Iter { s: self.s, i: self.i, j: self.j } } }
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.i >= self.j || self.i >= CAP { return None }
        self.i += 1;
        self.s[self.i - 1].as_ref()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.j - self.i, Some(self.j - self.i)) }
}
impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.i >= self.j { return None }
        self.j -= 1;
        self.s[self.j].as_ref()
    }
}
impl<'a, T> ExactSizeIterator for Iter<'a, T> {}
pub struct IntoIter<T> { s: [Option<T>; CAP], i: usize, j: usize }
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i >= self.j || self.i >= CAP { return None }
        self.i += 1;
        self.s[self.i - 1].take()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.j - self.i, Some(self.j - self.i)) }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.i >= self.j { return None }
        self.j -= 1;
        self.s[self.j].take()
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> IntoIterator for BTreeSet<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> { IntoIter { i: 0, j: self.len, s: self.a } }
}
impl<'a, T> IntoIterator for &'a BTreeSet<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> { self.iter() }
}
impl<T: Ord> Extend<T> for BTreeSet<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.insert(x); } }
}
impl<'a, T: Ord + Copy + 'a> Extend<&'a T> for BTreeSet<T> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for x in it { self.insert(*x); } }
}
impl<T: Ord> core::iter::FromIterator<T> for BTreeSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut s = Self::new(); for x in it { s.insert(x); } s }
}
impl<T: Ord, const N: usize> From<[T; N]> for BTreeSet<T> {
    fn from(a: [T; N]) -> Self { a.into_iter().collect() }
}
impl<'a, 'b, T: Ord + Clone> core::ops::BitOr<&'b BTreeSet<T>> for &'a BTreeSet<T> {
    type Output = BTreeSet<T>;
    fn bitor(self, o: &'b BTreeSet<T>) -> BTreeSet<T> { self.iter().chain(o.iter()).cloned().collect() }
}
impl<'a, 'b, T: Ord + Clone> core::ops::Sub<&'b BTreeSet<T>> for &'a BTreeSet<T> {
    type Output = BTreeSet<T>;
    fn sub(self, o: &'b BTreeSet<T>) -> BTreeSet<T> { self.difference(o).cloned().collect() }
}
impl<'a, 'b, T: Ord + Clone> core::ops::BitAnd<&'b BTreeSet<T>> for &'a BTreeSet<T> {
    type Output = BTreeSet<T>;
    fn bitand(self, o: &'b BTreeSet<T>) -> BTreeSet<T> { self.intersection(o).cloned().collect() }
}

/// the same for maps: entries sorted by key
#[derive(Clone, Copy, Debug)]
pub struct BTreeMap<K, V> {
    pub len: usize,
    pub a: [Option<(K, V)>; CAP],
}
impl<K, V> Default for BTreeMap<K, V> { fn default() -> Self { Self::new() } }
impl<K, V> BTreeMap<K, V> {
    pub fn new() -> Self { BTreeMap { len: 0, a: [const { None }; CAP] } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn reserve(&mut self, _: usize) {}
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn clear(&mut self) { *self = Self::new() }
    pub fn iter(&self) -> MIter<'_, K, V> { MIter { s: &self.a, i: 0, j: self.len } }
    pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> + '_ { self.iter().map(|x| x.0) }
    pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> + '_ { self.iter().map(|x| x.1) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> + '_ {
        let n = self.len;
        self.a.iter_mut().take(n).map(|x| { let x = x.as_mut().unwrap(); (&x.0, &mut x.1) })
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ { self.iter_mut().map(|x| x.1) }
    pub fn into_keys(self) -> impl Iterator<Item = K> { self.into_iter().map(|x| x.0) }
    pub fn into_values(self) -> impl Iterator<Item = V> { self.into_iter().map(|x| x.1) }
    pub fn first_key_value(&self) -> Option<(&K, &V)> { self.iter().next() }
    pub fn last_key_value(&self) -> Option<(&K, &V)> { self.iter().next_back() }
}
impl<K: Ord, V> BTreeMap<K, V> {
    fn at<Q: ?Sized + Ord>(&self, q: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < CAP {
            if i >= self.len { return None }
            if let Some(x) = &self.a[i] { if x.0.borrow() == q { return Some(i) } }
            i += 1;
        }
        None
    }
    pub fn contains_key<Q: ?Sized + Ord>(&self, q: &Q) -> bool where K: Borrow<Q> { self.at(q).is_some() }
    pub fn get<Q: ?Sized + Ord>(&self, q: &Q) -> Option<&V> where K: Borrow<Q> { self.at(q).map(|i| &self.a[i].as_ref().unwrap().1) }
    pub fn get_mut<Q: ?Sized + Ord>(&mut self, q: &Q) -> Option<&mut V> where K: Borrow<Q> {
        match self.at(q) { Some(i) => self.a[i].as_mut().map(|x| &mut x.1), None => None }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        if let Some(i) = self.at(&k) {
            return core::mem::replace(&mut self.a[i], Some((k, v))).map(|x| x.1);
        }
        assert!(self.len < CAP, "VP_CAP");
        let mut i = 0;
        while i < CAP {
            if i >= self.len || self.a[i].as_ref().map_or(true, |x| x.0 > k) { break }
            i += 1;
        }
        let mut cur = Some((k, v));
        while i < CAP {
            core::mem::swap(&mut self.a[i], &mut cur);
            if i >= self.len { break }
            i += 1;
        }
        self.len += 1;
        None
    }
    pub fn remove<Q: ?Sized + Ord>(&mut self, q: &Q) -> Option<V> where K: Borrow<Q> {
        let mut i = match self.at(q) { Some(i) => i, None => return None };
        let r = self.a[i].take();
        while i + 1 < CAP { self.a.swap(i, i + 1); i += 1; }
        self.len -= 1;
        r.map(|x| x.1)
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { Entry { m: self, k } }
}
pub struct Entry<'a, K, V> { m: &'a mut BTreeMap<K, V>, k: K }
impl<'a, K: Ord + Clone, V> Entry<'a, K, V> {
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        if !self.m.contains_key(&self.k) { self.m.insert(self.k.clone(), f()); }
        self.m.get_mut(&self.k).unwrap()
    }
    pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
        if let Some(v) = self.m.get_mut(&self.k) { f(v) }
        self
    }
}
pub struct MIter<'a, K, V> { s: &'a [Option<(K, V)>; CAP], i: usize, j: usize }
impl<'a, K, V> Iterator for MIter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        if self.i >= self.j || self.i >= CAP { return None }
        self.i += 1;
        self.s[self.i - 1].as_ref().map(|x| (&x.0, &x.1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.j - self.i, Some(self.j - self.i)) }
}
impl<'a, K, V> DoubleEndedIterator for MIter<'a, K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.i >= self.j { return None }
        self.j -= 1;
        self.s[self.j].as_ref().map(|x| (&x.0, &x.1))
    }
}
impl<'a, K, V> ExactSizeIterator for MIter<'a, K, V> {}
impl<K, V> IntoIterator for BTreeMap<K, V> {
    type Item = (K, V);
    type IntoIter = IntoIter<(K, V)>;
    fn into_iter(self) -> IntoIter<(K, V)> { IntoIter { i: 0, j: self.len, s: self.a } }
}
impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = MIter<'a, K, V>;
    fn into_iter(self) -> MIter<'a, K, V> { self.iter() }
}
impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
}
impl<K: Ord, V> core::iter::FromIterator<(K, V)> for BTreeMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut s = Self::new(); for (k, v) in it { s.insert(k, v); } s }
}
impl<'a, K: Ord + Borrow<Q>, Q: ?Sized + Ord, V> core::ops::Index<&'a Q> for BTreeMap<K, V> {
    type Output = V;
    fn index(&self, q: &'a Q) -> &V { self.get(q).expect("no entry found for key") }
}
