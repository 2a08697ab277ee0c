//! Sequential model of rayon with an explicit schedule (vfs::set_schedule).  rayon promises neither the
//! order in which bridged items are taken nor the shape of a reduction tree nor where identities enter;
//! the schedule chooses all of these.
pub fn current_num_threads() -> usize { 4 }
pub fn current_thread_index() -> Option<usize> { Some(0) }
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send {
  if vfs::decide(2) == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) }
}
pub mod iter {
  /// items in the order of the results, evaluated in the order of the schedule
  fn run<T, R>(v: Vec<T>, f: impl Fn(T) -> R) -> Vec<R> {
    let mut src: Vec<(usize, T)> = v.into_iter().enumerate().collect();
    let mut out: Vec<Option<R>> = (0..src.len()).map(|_| None).collect();
    while !src.is_empty() { let k = vfs::decide(src.len()); let (i, x) = src.remove(k); out[i] = Some(f(x)); }
    out.into_iter().map(|x| x.unwrap()).collect()
  }
  pub trait ParallelIterator: Sized {
    type Item;
    fn items(self) -> Vec<Self::Item>;
    fn map<F, R>(self, f: F) -> Items<R> where F: Fn(Self::Item) -> R + Sync + Send { Items { v: run(self.items(), f) } }
    fn inspect<F>(self, f: F) -> Items<Self::Item> where F: Fn(&Self::Item) + Sync + Send { Items { v: run(self.items(), |x| { f(&x); x }) } }
    fn filter<F>(self, f: F) -> Items<Self::Item> where F: Fn(&Self::Item) -> bool + Sync + Send { Items { v: run(self.items(), |x| if f(&x) { Some(x) } else { None }).into_iter().flatten().collect() } }
    fn filter_map<F, R>(self, f: F) -> Items<R> where F: Fn(Self::Item) -> Option<R> + Sync + Send { Items { v: run(self.items(), f).into_iter().flatten().collect() } }
    fn flat_map<F, R: IntoIterator>(self, f: F) -> Items<R::Item> where F: Fn(Self::Item) -> R + Sync + Send { Items { v: run(self.items(), f).into_iter().flatten().collect() } }
    fn flat_map_iter<F, R: IntoIterator>(self, f: F) -> Items<R::Item> where F: Fn(Self::Item) -> R + Sync + Send { Items { v: run(self.items(), f).into_iter().flatten().collect() } }
    fn flatten(self) -> Items<<Self::Item as IntoIterator>::Item> where Self::Item: IntoIterator { Items { v: self.items().into_iter().flatten().collect() } }
    fn for_each<F>(self, f: F) where F: Fn(Self::Item) + Sync + Send { run(self.items(), f); }
    fn sum<S: std::iter::Sum<Self::Item>>(self) -> S { self.items().into_iter().sum() }
    fn count(self) -> usize { self.items().len() }
    fn any<F>(self, f: F) -> bool where F: Fn(Self::Item) -> bool + Sync + Send { self.items().into_iter().any(f) }
    fn all<F>(self, f: F) -> bool where F: Fn(Self::Item) -> bool + Sync + Send { self.items().into_iter().all(f) }
    fn collect<C: FromIterator<Self::Item>>(self) -> C { self.items().into_iter().collect() }
    fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB) where Self: ParallelIterator<Item = (A, B)> { self.items().into_iter().unzip() }
    fn product<S: std::iter::Product<Self::Item>>(self) -> S { self.items().into_iter().product() }
    fn min(self) -> Option<Self::Item> where Self::Item: Ord { self.items().into_iter().min() }
    fn max(self) -> Option<Self::Item> where Self::Item: Ord { self.items().into_iter().max() }
    fn min_by_key<K: Ord, F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> K + Sync + Send { self.items().into_iter().min_by_key(f) }
    fn max_by_key<K: Ord, F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> K + Sync + Send { self.items().into_iter().max_by_key(f) }
    fn find_first<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> bool + Sync + Send { self.items().into_iter().find(|x| f(x)) }
    fn find_any<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> bool + Sync + Send {
      let mut v: Vec<Self::Item> = self.items().into_iter().filter(|x| f(x)).collect();
      if v.is_empty() { None } else { Some(v.swap_remove(vfs::decide(v.len()))) }
    }
    fn chain<J: ParallelIterator<Item = Self::Item>>(self, other: J) -> Items<Self::Item> { let mut v = self.items(); v.extend(other.items()); Items { v } }
    fn cloned<'a, T: 'a + Clone>(self) -> Items<T> where Self: ParallelIterator<Item = &'a T> { Items { v: self.items().into_iter().cloned().collect() } }
    fn copied<'a, T: 'a + Copy>(self) -> Items<T> where Self: ParallelIterator<Item = &'a T> { Items { v: self.items().into_iter().copied().collect() } }
    fn partition<A, B, F>(self, f: F) -> (A, B) where A: Default + Extend<Self::Item>, B: Default + Extend<Self::Item>, F: Fn(&Self::Item) -> bool + Sync + Send {
      let (mut a, mut b) = (A::default(), B::default());
      for x in self.items() { if f(&x) { a.extend(Some(x)) } else { b.extend(Some(x)) } }
      (a, b)
    }
    fn map_with<T: Clone, F, R>(self, init: T, f: F) -> Items<R> where F: Fn(&mut T, Self::Item) -> R + Sync + Send { Items { v: run(self.items(), |x| f(&mut init.clone(), x)) } }
    fn map_init<T, I, F, R>(self, init: I, f: F) -> Items<R> where I: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send { Items { v: run(self.items(), |x| f(&mut init(), x)) } }
    fn for_each_with<T: Clone, F>(self, init: T, f: F) where F: Fn(&mut T, Self::Item) + Sync + Send { run(self.items(), |x| f(&mut init.clone(), x)); }
    fn for_each_init<T, I, F>(self, init: I, f: F) where I: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) + Sync + Send { run(self.items(), |x| f(&mut init(), x)); }
    fn fold_with<T: Clone + Send + Sync, F>(self, init: T, op: F) -> Items<T> where F: Fn(T, Self::Item) -> T + Sync + Send { self.fold(move || init.clone(), op) }
    fn fold<T, ID, F>(self, identity: ID, op: F) -> Items<T> where F: Fn(T, Self::Item) -> T + Sync + Send, ID: Fn() -> T + Sync + Send {
      // each worker starts from its own identity: the schedule decides where the splits are
      let mut out = Vec::new();
      let mut acc = identity();
      for x in self.items() { if vfs::decide(2) == 1 { out.push(std::mem::replace(&mut acc, identity())); } acc = op(acc, x); }
      out.push(acc);
      Items { v: out }
    }
    /// combine neighbours by an arbitrary binary tree
    fn reduce_with<OP>(self, op: OP) -> Option<Self::Item> where OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send {
      let mut v: Vec<Self::Item> = self.items();
      while v.len() > 1 {
        let k = vfs::decide(v.len() - 1);
        let a = v.remove(k);
        let b = v.remove(k);
        v.insert(k, op(a, b));
      }
      v.pop()
    }
    /// the same, where an identity may stand on either side of any leaf
    fn reduce<OP, ID>(self, identity: ID, op: OP) -> Self::Item
    where OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send, ID: Fn() -> Self::Item + Sync + Send {
      let v: Vec<Self::Item> = self.items();
      let v: Vec<Self::Item> = v.into_iter().map(|x| match vfs::decide(3) { 1 => x, 2 => op(x, identity()), _ => op(identity(), x) }).collect();
      match (Items { v }).reduce_with(op) { Some(x) => x, None => identity() }
    }
  }
  pub trait ParallelExtend<T> { fn par_extend<I: ParallelIterator<Item = T>>(&mut self, it: I); }
  impl<T, C: Extend<T>> ParallelExtend<T> for C { fn par_extend<I: ParallelIterator<Item = T>>(&mut self, it: I) { self.extend(it.items()) } }
  pub trait IndexedParallelIterator: ParallelIterator {
    fn len(&self) -> usize where Self: HasLen { self.known_len() }
    fn zip<J: ParallelIterator>(self, other: J) -> Items<(Self::Item, J::Item)> { Items { v: self.items().into_iter().zip(other.items()).collect() } }
    fn rev(self) -> Items<Self::Item> { Items { v: self.items().into_iter().rev().collect() } }
    fn skip(self, n: usize) -> Items<Self::Item> { Items { v: self.items().into_iter().skip(n).collect() } }
    fn take(self, n: usize) -> Items<Self::Item> { Items { v: self.items().into_iter().take(n).collect() } }
    fn with_min_len(self, _n: usize) -> Items<Self::Item> { Items { v: self.items() } }
    fn with_max_len(self, _n: usize) -> Items<Self::Item> { Items { v: self.items() } }
    fn collect_into_vec(self, out: &mut Vec<Self::Item>) { *out = self.items() }
    fn position_any<F>(self, f: F) -> Option<usize> where F: Fn(Self::Item) -> bool + Sync + Send { self.items().into_iter().position(f) }
    fn position_first<F>(self, f: F) -> Option<usize> where F: Fn(Self::Item) -> bool + Sync + Send { self.items().into_iter().position(f) }
    fn enumerate(self) -> Items<(usize, Self::Item)> { Items { v: self.items().into_iter().enumerate().collect() } }
  }
  pub struct Items<R> { v: Vec<R> }
  impl<R> ParallelIterator for Items<R> { type Item = R; fn items(self) -> Vec<R> { self.v } }
  impl<R> IndexedParallelIterator for Items<R> {}
  pub trait HasLen { fn known_len(&self) -> usize; }
  impl<R> HasLen for Items<R> { fn known_len(&self) -> usize { self.v.len() } }
  pub type Map<R> = Items<R>;
  pub struct Bridge<I> { it: I }
  impl<I: Iterator> ParallelIterator for Bridge<I> {
    type Item = I::Item;
    fn items(self) -> Vec<I::Item> {
      let mut src: Vec<I::Item> = self.it.collect();
      let mut out = Vec::new();
      while !src.is_empty() { let k = vfs::decide(src.len()); out.push(src.remove(k)); }
      out
    }
  }
  pub trait ParallelBridge: Sized { fn par_bridge(self) -> Bridge<Self>; }
  impl<I: Iterator> ParallelBridge for I { fn par_bridge(self) -> Bridge<I> { Bridge { it: self } } }
  pub trait IntoParallelIterator { type Item; fn into_par_iter(self) -> Items<Self::Item>; }
  impl<C: IntoIterator> IntoParallelIterator for C { type Item = C::Item; fn into_par_iter(self) -> Items<C::Item> { Items { v: self.into_iter().collect() } } }
  pub trait ParallelSliceMut<T> {
    fn par_sort(&mut self) where T: Ord;
    fn par_sort_by<F>(&mut self, f: F) where F: Fn(&T, &T) -> std::cmp::Ordering + Sync;
    fn par_sort_by_key<K: Ord, F>(&mut self, f: F) where F: Fn(&T) -> K + Sync;
    fn par_sort_unstable(&mut self) where T: Ord;
    fn par_sort_unstable_by<F>(&mut self, f: F) where F: Fn(&T, &T) -> std::cmp::Ordering + Sync;
  }
  impl<T> ParallelSliceMut<T> for [T] {
    fn par_sort(&mut self) where T: Ord { self.sort() }
    fn par_sort_by<F>(&mut self, f: F) where F: Fn(&T, &T) -> std::cmp::Ordering + Sync { self.sort_by(f) }
    fn par_sort_by_key<K: Ord, F>(&mut self, f: F) where F: Fn(&T) -> K + Sync { self.sort_by_key(f) }
    fn par_sort_unstable(&mut self) where T: Ord { self.sort_unstable() }
    fn par_sort_unstable_by<F>(&mut self, f: F) where F: Fn(&T, &T) -> std::cmp::Ordering + Sync { self.sort_unstable_by(f) }
  }
  pub trait IntoParallelRefIterator<'d> { type Item; fn par_iter(&'d self) -> Items<Self::Item>; }
  impl<'d, T: 'd> IntoParallelRefIterator<'d> for [T] { type Item = &'d T; fn par_iter(&'d self) -> Items<&'d T> { Items { v: self.iter().collect() } } }
  impl<'d, T: 'd> IntoParallelRefIterator<'d> for Vec<T> { type Item = &'d T; fn par_iter(&'d self) -> Items<&'d T> { Items { v: self.iter().collect() } } }
}
pub mod prelude { pub use crate::iter::*; }
