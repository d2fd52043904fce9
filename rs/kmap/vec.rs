//! A fixed-capacity vector standing in for std's Vec in the mapping code.
use core::mem::MaybeUninit;
use core::ops::{Deref, DerefMut};
pub const VCAP: usize = @VCAP@;
pub struct Vec<T> { n: usize, a: [MaybeUninit<T>; VCAP] }
impl<T> Vec<T> {
    pub fn new() -> Self { Vec { n: 0, a: [const { MaybeUninit::uninit() }; VCAP] } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn len(&self) -> usize { self.n }
    pub fn is_empty(&self) -> bool { self.n == 0 }
    pub fn reserve(&mut self, _: usize) {}
    pub fn push(&mut self, v: T) {
        assert!(self.n < VCAP, "VP_CAP");
        self.a[self.n] = MaybeUninit::new(v);
        self.n += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.n == 0 { return None }
        self.n -= 1;
        Some(unsafe { self.a[self.n].assume_init_read() })
    }
    pub fn truncate(&mut self, n: usize) { if n < self.n { self.n = n } }
    pub fn clear(&mut self) { self.n = 0 }
    pub fn last(&self) -> Option<&T> { if self.n == 0 { None } else { Some(unsafe { self.a[self.n - 1].assume_init_ref() }) } }
    pub fn first(&self) -> Option<&T> { if self.n == 0 { None } else { Some(unsafe { self.a[0].assume_init_ref() }) } }
    pub fn iter(&self) -> Iter<'_, T> { Iter { v: self, i: 0, j: self.n } }
    pub fn as_slice(&self) -> &[T] { &self[..] }
    pub fn append(&mut self, o: &mut Vec<T>) { let x = core::mem::replace(o, Vec::new()); for v in x { self.push(v) } }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { let x = core::mem::replace(self, Vec::new()); for v in x { if f(&v) { self.push(v) } } }
    pub fn dedup(&mut self) where T: PartialEq {
        let x = core::mem::replace(self, Vec::new());
        for v in x { if self.last().map_or(true, |y| *y != v) { self.push(v) } }
    }
    pub fn insert(&mut self, i: usize, v: T) {
        assert!(i <= self.n);
        self.push(v);
        let mut k = VCAP - 1;
        while k > 0 {
            if k < self.n && k > i { self.a.swap(k, k - 1) }
            k -= 1;
        }
    }
    pub fn remove(&mut self, i: usize) -> T {
        assert!(i < self.n);
        let mut k = 1;
        while k < VCAP {
            if k < self.n && k > i { self.a.swap(k, k - 1) }
            k += 1;
        }
        self.pop().unwrap()
    }
    pub fn sort(&mut self) where T: Ord {
        let mut i = 1;
        while i < self.n {
            let mut j = i;
            while j > 0 && self[j] < self[j - 1] { self.swap(j, j - 1); j -= 1; }
            i += 1;
        }
    }
    pub fn sort_unstable(&mut self) where T: Ord { self.sort() }
    pub fn sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, mut f: F) {
        let mut i = 1;
        while i < self.n {
            let mut j = i;
            while j > 0 && f(&self[j], &self[j - 1]) == core::cmp::Ordering::Less { self.swap(j, j - 1); j -= 1; }
            i += 1;
        }
    }
    pub fn sort_unstable_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { self.sort_by(f) }
    pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, mut f: F) { self.sort_by(|a, b| f(a).cmp(&f(b))) }
    pub fn sort_unstable_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.sort_by_key(f) }
    pub fn contains(&self, x: &T) -> bool where T: PartialEq { self.iter().any(|y| y == x) }
    pub fn binary_search(&self, x: &T) -> Result<usize, usize> where T: Ord {
        let mut i = 0;
        while i < self.n {
            if self[i] == *x { return Ok(i) }
            if self[i] > *x { return Err(i) }
            i += 1;
        }
        Err(i)
    }
    pub fn resize(&mut self, n: usize, v: T) where T: Clone {
        self.truncate(n);
        while self.n < n { self.push(v.clone()) }
    }
    pub fn to_vec(&self) -> Vec<T> where T: Clone { self.clone() }
    pub fn split_off(&mut self, at: usize) -> Vec<T> {
        assert!(at <= self.n);
        let x = core::mem::replace(self, Vec::new());
        let mut r = Vec::new();
        for (i, v) in x.into_iter().enumerate() { if i < at { self.push(v) } else { r.push(v) } }
        r
    }
    pub fn drain<R: core::ops::RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        let x = core::mem::replace(self, Vec::new());
        let mut o = Vec::new();
        for (i, v) in x.into_iter().enumerate() { if r.contains(&i) { o.push(v) } else { self.push(v) } }
        o.into_iter()
    }
    pub fn swap_remove(&mut self, i: usize) -> T {
        let n = self.n;
        self.swap(i, n - 1);
        self.pop().unwrap()
    }
    // as a double-ended queue
    pub fn push_back(&mut self, v: T) { self.push(v) }
    pub fn pop_back(&mut self) -> Option<T> { self.pop() }
    pub fn push_front(&mut self, v: T) { self.insert(0, v) }
    pub fn pop_front(&mut self) -> Option<T> { if self.n == 0 { None } else { Some(self.remove(0)) } }
    pub fn front(&self) -> Option<&T> { self.first() }
    pub fn back(&self) -> Option<&T> { self.last() }
    pub fn extend_from_slice(&mut self, s: &[T]) where T: Clone { for x in s { self.push(x.clone()) } }
}
impl<T> Default for Vec<T> { fn default() -> Self { Self::new() } }
impl<T: Clone> Clone for Vec<T> { fn clone(&self) -> Self { self.iter().cloned().collect() } }
impl<T> core::fmt::Debug for Vec<T> { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl<T: PartialEq> PartialEq for Vec<T> { fn eq(&self, o: &Self) -> bool { self.n == o.n && self.iter().zip(o.iter()).all(|(x, y)| x == y) } }
impl<T: Eq> Eq for Vec<T> {}
impl<T> Deref for Vec<T> { type Target = [T]; fn deref(&self) -> &[T] { unsafe { core::slice::from_raw_parts(self.a.as_ptr() as *const T, self.n) } } }
impl<T> DerefMut for Vec<T> { fn deref_mut(&mut self) -> &mut [T] { unsafe { core::slice::from_raw_parts_mut(self.a.as_mut_ptr() as *mut T, self.n) } } }
pub struct Iter<'a, T> { v: &'a Vec<T>, i: usize, j: usize }
impl<'a, T> Clone for Iter<'a, T> { fn clone(&self) -> Self { Iter { v: self.v, i: self.i, j: self.j } } }
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.i >= self.j || self.i >= VCAP { return None }
        self.i += 1;
        Some(unsafe { self.v.a[self.i - 1].assume_init_ref() })
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.j - self.i, Some(self.j - self.i)) }
}
impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.i >= self.j { return None }
        self.j -= 1;
        Some(unsafe { self.v.a[self.j].assume_init_ref() })
    }
}
impl<'a, T> ExactSizeIterator for Iter<'a, T> {}
pub struct IntoIter<T> { v: Vec<T>, i: usize }
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i >= self.v.n || self.i >= VCAP { return None }
        self.i += 1;
        Some(unsafe { self.v.a[self.i - 1].assume_init_read() })
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.v.n - self.i, Some(self.v.n - self.i)) }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> { if self.i >= self.v.n { None } else { self.v.pop() } }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> IntoIterator for Vec<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { v: self, i: 0 } } }
impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
impl<'a, T> IntoIterator for &'a mut Vec<T> { type Item = &'a mut T; type IntoIter = core::slice::IterMut<'a, T>; fn into_iter(self) -> core::slice::IterMut<'a, T> { self.iter_mut() } }
impl<T> Extend<T> for Vec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.push(x) } } }
impl<'a, T: Copy + 'a> Extend<&'a T> for Vec<T> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for x in it { self.push(*x) } } }
impl<T> core::iter::FromIterator<T> for Vec<T> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut s = Self::new(); for x in it { s.push(x) } s } }
impl<T> AsRef<[T]> for Vec<T> { fn as_ref(&self) -> &[T] { self } }
impl<T> core::borrow::Borrow<[T]> for Vec<T> { fn borrow(&self) -> &[T] { self } }
impl<'a, T: Clone> From<&'a [T]> for Vec<T> { fn from(s: &'a [T]) -> Self { s.iter().cloned().collect() } }
impl<T, const N: usize> From<[T; N]> for Vec<T> { fn from(s: [T; N]) -> Self { s.into_iter().collect() } }
pub fn from_elem<T: Clone>(x: T, n: usize) -> Vec<T> { let mut v = Vec::new(); let mut i = 0; while i < n { v.push(x.clone()); i += 1; } v }
macro_rules! vpvec {
    () => { $crate::vp_vec::Vec::new() };
    ($x:expr; $n:expr) => { $crate::vp_vec::from_elem($x, $n) };
    ($($x:expr),+ $(,)?) => {{ let mut v = $crate::vp_vec::Vec::new(); $(v.push($x);)+ v }};
}
pub(crate) use vpvec as vec;
