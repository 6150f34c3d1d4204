//! Reference bodies for standard-library combinators.
//!
//! This crate is never run. The MIR driver compiles it, and the analysis
//! inlines `std__a__b__c` wherever analysed code calls `std::a::b::c`. Every
//! body states the documented meaning of that function in terms of matching
//! and calls, so closures passed to combinators are analysed in place.
#![allow(non_snake_case, dead_code, clippy::all)]

// ---- bool ---------------------------------------------------------------
pub fn std__bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
  if b { Some(f()) } else { None }
}
pub fn std__bool__then_some<T>(b: bool, v: T) -> Option<T> {
  if b { Some(v) } else { None }
}

// ---- Option -------------------------------------------------------------
pub fn std__option__Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
  match o { Some(x) => Some(f(x)), None => None }
}
pub fn std__option__Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
  match o { Some(x) => f(x), None => None }
}
pub fn std__option__Option__and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> {
  match o { Some(_) => b, None => None }
}
pub fn std__option__Option__or<T>(o: Option<T>, b: Option<T>) -> Option<T> {
  match o { Some(x) => Some(x), None => b }
}
pub fn std__option__Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
  match o { Some(x) => Some(x), None => f() }
}
pub fn std__option__Option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
  match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
pub fn std__option__Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
  match o { Some(x) => f(x), None => d }
}
pub fn std__option__Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
  match o { Some(x) => f(x), None => d() }
}
pub fn std__option__Option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
  match o { Some(x) => f(x), None => false }
}
pub fn std__option__Option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
  match o { Some(x) => f(x), None => true }
}
pub fn std__option__Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
  match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn std__option__Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
  match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn std__option__Option__unwrap_or<T>(o: Option<T>, d: T) -> T {
  match o { Some(x) => x, None => d }
}
pub fn std__option__Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
  match o { Some(x) => x, None => f() }
}
pub fn std__option__Option__unwrap_or_default<T: Default>(o: Option<T>) -> T {
  match o { Some(x) => x, None => T::default() }
}
pub fn std__option__Option__is_some<T>(o: &Option<T>) -> bool {
  match o { Some(_) => true, None => false }
}
pub fn std__option__Option__is_none<T>(o: &Option<T>) -> bool {
  match o { Some(_) => false, None => true }
}
pub fn std__option__Option__as_ref<T>(o: &Option<T>) -> Option<&T> {
  match o { Some(x) => Some(x), None => None }
}
pub fn std__option__Option__as_deref<T>(o: &Option<T>) -> Option<&T> {
  match o { Some(x) => Some(x), None => None }
}
pub fn std__option__Option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> {
  match o { Some(x) => Some(x), None => None }
}
pub fn std__option__Option__copied<T: Copy>(o: Option<&T>) -> Option<T> {
  match o { Some(x) => Some(*x), None => None }
}
pub fn std__option__Option__cloned<T: Clone>(o: Option<&T>) -> Option<T> {
  match o { Some(x) => Some(x.clone()), None => None }
}
pub fn std__option__Option__take<T>(o: &mut Option<T>) -> Option<T> {
  std::mem::replace(o, None)
}
pub fn std__option__Option__replace<T>(o: &mut Option<T>, v: T) -> Option<T> {
  std::mem::replace(o, Some(v))
}
pub fn std__option__Option__insert<T>(o: &mut Option<T>, v: T) -> &mut T {
  *o = Some(v);
  match o { Some(x) => x, None => unreachable!() }
}
pub fn std__option__Option__get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
  if let None = o { *o = Some(f()); }
  match o { Some(x) => x, None => unreachable!() }
}
pub fn std__option__Option__get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
  if let None = *o { *o = Some(v); }
  match o { Some(x) => x, None => loop {} }
}
pub fn std__option__Option__zip<T, U>(o: Option<T>, b: Option<U>) -> Option<(T, U)> {
  match o { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None }
}
pub fn std__option__Option__xor<T>(o: Option<T>, b: Option<T>) -> Option<T> {
  match o { Some(x) => match b { Some(_) => None, None => Some(x) }, None => b }
}
pub fn std__option__Option__transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
  match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}
pub fn std__option__Option__flatten<T>(o: Option<Option<T>>) -> Option<T> {
  match o { Some(x) => x, None => None }
}
pub fn std__option__Option__inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
  if let Some(x) = &o { f(x) }
  o
}
pub fn std__option__Option__iter<T>(o: &Option<T>) -> MOnce<&T> {
  match o { Some(x) => MOnce { v: Some(x) }, None => MOnce { v: None } }
}
pub fn std__option__Option__into_iter<T>(o: Option<T>) -> MOnce<T> {
  MOnce { v: o }
}

// ---- Result -------------------------------------------------------------
pub fn std__result__Result__map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
  match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn std__result__Result__map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> {
  match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn std__result__Result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
  match r { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn std__result__Result__and<T, E, U>(r: Result<T, E>, b: Result<U, E>) -> Result<U, E> {
  match r { Ok(_) => b, Err(e) => Err(e) }
}
pub fn std__result__Result__or<T, E, U>(r: Result<T, E>, b: Result<T, U>) -> Result<T, U> {
  match r { Ok(x) => Ok(x), Err(_) => b }
}
pub fn std__result__Result__or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(r: Result<T, E>, f: F) -> Result<T, U> {
  match r { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn std__result__Result__ok<T, E>(r: Result<T, E>) -> Option<T> {
  match r { Ok(x) => Some(x), Err(_) => None }
}
pub fn std__result__Result__err<T, E>(r: Result<T, E>) -> Option<E> {
  match r { Ok(_) => None, Err(e) => Some(e) }
}
pub fn std__result__Result__is_ok<T, E>(r: &Result<T, E>) -> bool {
  match r { Ok(_) => true, Err(_) => false }
}
pub fn std__result__Result__is_err<T, E>(r: &Result<T, E>) -> bool {
  match r { Ok(_) => false, Err(_) => true }
}
pub fn std__result__Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool {
  match r { Ok(x) => f(x), Err(_) => false }
}
pub fn std__result__Result__map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U {
  match r { Ok(x) => f(x), Err(_) => d }
}
pub fn std__result__Result__map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U {
  match r { Ok(x) => f(x), Err(e) => d(e) }
}
pub fn std__result__Result__unwrap_or<T, E>(r: Result<T, E>, d: T) -> T {
  match r { Ok(x) => x, Err(_) => d }
}
pub fn std__result__Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T {
  match r { Ok(x) => x, Err(e) => f(e) }
}
pub fn std__result__Result__unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T {
  match r { Ok(x) => x, Err(_) => T::default() }
}
pub fn std__result__Result__as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> {
  match r { Ok(x) => Ok(x), Err(e) => Err(e) }
}
pub fn std__result__Result__as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> {
  match r { Ok(x) => Ok(x), Err(e) => Err(e) }
}
pub fn std__result__Result__transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> {
  match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }
}
pub fn std__result__Result__inspect<T, E, F: FnOnce(&T)>(r: Result<T, E>, f: F) -> Result<T, E> {
  if let Ok(x) = &r { f(x) }
  r
}
pub fn std__result__Result__inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> {
  if let Err(x) = &r { f(x) }
  r
}
pub fn std__result__Result__copied<T: Copy, E>(r: Result<&T, E>) -> Result<T, E> {
  match r { Ok(x) => Ok(*x), Err(e) => Err(e) }
}
pub fn std__result__Result__cloned<T: Clone, E>(r: Result<&T, E>) -> Result<T, E> {
  match r { Ok(x) => Ok(x.clone()), Err(e) => Err(e) }
}

// ---- iterator sources and adaptors ----------------------------------------
pub struct MOnce<T> { v: Option<T> }
impl<T> Iterator for MOnce<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> { std__option__Option__take(&mut self.v) }
}
impl<T> DoubleEndedIterator for MOnce<T> {
  fn next_back(&mut self) -> Option<T> { std__option__Option__take(&mut self.v) }
}
pub fn std__iter__once<T>(v: T) -> MOnce<T> { MOnce { v: Some(v) } }
pub fn std__iter__empty<T>() -> MOnce<T> { MOnce { v: None } }

pub struct MRepeat<T> { v: T }
impl<T: Clone> Iterator for MRepeat<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> { Some(self.v.clone()) }
}
pub fn std__iter__repeat<T>(v: T) -> MRepeat<T> { MRepeat { v } }

pub struct MFromFn<F> { f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for MFromFn<F> {
  type Item = T;
  fn next(&mut self) -> Option<T> { (self.f)() }
}
pub fn std__iter__from_fn<F>(f: F) -> MFromFn<F> { MFromFn { f } }

pub struct MRange { start: usize, end: usize }
pub fn std__ops__Range__next(r: &mut std::ops::Range<usize>) -> Option<usize> {
  if r.start < r.end { let x = r.start; r.start = x + 1; Some(x) } else { None }
}
pub fn std__ops__Range__next_back(r: &mut std::ops::Range<usize>) -> Option<usize> {
  if r.start < r.end { let x = r.end - 1; r.end = x; Some(x) } else { None }
}
pub fn std__ops__RangeFrom__next(r: &mut std::ops::RangeFrom<usize>) -> Option<usize> {
  let x = r.start; r.start = x + 1; Some(x)
}

pub struct MMap<I, F> { it: I, f: F }
impl<I: Iterator, U, F: FnMut(I::Item) -> U> Iterator for MMap<I, F> {
  type Item = U;
  fn next(&mut self) -> Option<U> {
    match self.it.next() { Some(x) => Some((self.f)(x)), None => None }
  }
}
impl<I: DoubleEndedIterator, U, F: FnMut(I::Item) -> U> DoubleEndedIterator for MMap<I, F> {
  fn next_back(&mut self) -> Option<U> {
    match self.it.next_back() { Some(x) => Some((self.f)(x)), None => None }
  }
}
pub fn std__iter__Iterator__map<I, F>(it: I, f: F) -> MMap<I, F> { MMap { it, f } }

pub struct MRev<I> { it: I }
impl<I: DoubleEndedIterator> Iterator for MRev<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> { self.it.next_back() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for MRev<I> {
  fn next_back(&mut self) -> Option<I::Item> { self.it.next() }
}
pub fn std__iter__Iterator__rev<I>(it: I) -> MRev<I> { MRev { it } }

pub struct MCloned<I> { it: I }
impl<'a, T: 'a + Clone, I: Iterator<Item = &'a T>> Iterator for MCloned<I> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    match self.it.next() { Some(x) => Some(x.clone()), None => None }
  }
}
impl<'a, T: 'a + Clone, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for MCloned<I> {
  fn next_back(&mut self) -> Option<T> {
    match self.it.next_back() { Some(x) => Some(x.clone()), None => None }
  }
}
pub fn std__iter__Iterator__cloned<I>(it: I) -> MCloned<I> { MCloned { it } }
pub fn std__iter__Iterator__copied<I>(it: I) -> MCloned<I> { MCloned { it } }

pub struct MEnumerate<I> { it: I, n: usize }
impl<I: Iterator> Iterator for MEnumerate<I> {
  type Item = (usize, I::Item);
  fn next(&mut self) -> Option<(usize, I::Item)> {
    match self.it.next() {
      Some(x) => { let n = self.n; self.n = n + 1; Some((n, x)) }
      None => None,
    }
  }
}
pub fn std__iter__Iterator__enumerate<I>(it: I) -> MEnumerate<I> { MEnumerate { it, n: 0 } }

pub struct MZip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for MZip<A, B> {
  type Item = (A::Item, B::Item);
  fn next(&mut self) -> Option<(A::Item, B::Item)> {
    match self.a.next() {
      Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None },
      None => None,
    }
  }
}
pub fn std__iter__Iterator__zip<A, B: IntoIterator>(a: A, b: B) -> MZip<A, B::IntoIter> { MZip { a, b: b.into_iter() } }

pub struct MChain<A, B> { a: A, b: B, first: bool }
impl<T, A: Iterator<Item = T>, B: Iterator<Item = T>> Iterator for MChain<A, B> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    if self.first {
      match self.a.next() { Some(x) => return Some(x), None => self.first = false }
    }
    self.b.next()
  }
}
pub fn std__iter__Iterator__chain<A, B: IntoIterator>(a: A, b: B) -> MChain<A, B::IntoIter> { MChain { a, b: b.into_iter(), first: true } }

pub struct MTake<I> { it: I, n: usize }
impl<I: Iterator> Iterator for MTake<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.n == 0 { None } else { self.n -= 1; self.it.next() }
  }
}

pub struct MSkip<I> { it: I, n: usize }
impl<I: Iterator> Iterator for MSkip<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    while self.n > 0 {
      self.n -= 1;
      if let None = self.it.next() { self.n = 0; return None; }
    }
    self.it.next()
  }
}
pub fn std__iter__Iterator__skip<I>(it: I, n: usize) -> MSkip<I> { MSkip { it, n } }

pub fn model__sum_usize<I: Iterator<Item = usize>>(mut it: I) -> usize {
  let mut n = 0;
  loop { match it.next() { Some(x) => n += x, None => return n } }
}

pub struct MFilter<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for MFilter<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    loop {
      match self.it.next() { Some(x) => if (self.f)(&x) { return Some(x) }, None => return None }
    }
  }
}
impl<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool> DoubleEndedIterator for MFilter<I, F> {
  fn next_back(&mut self) -> Option<I::Item> {
    loop {
      match self.it.next_back() { Some(x) => if (self.f)(&x) { return Some(x) }, None => return None }
    }
  }
}
pub fn std__iter__Iterator__filter<I, F>(it: I, f: F) -> MFilter<I, F> { MFilter { it, f } }

pub struct MFilterMap<I, F> { it: I, f: F }
impl<I: Iterator, U, F: FnMut(I::Item) -> Option<U>> Iterator for MFilterMap<I, F> {
  type Item = U;
  fn next(&mut self) -> Option<U> {
    loop {
      match self.it.next() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y) }, None => return None }
    }
  }
}
impl<I: DoubleEndedIterator, U, F: FnMut(I::Item) -> Option<U>> DoubleEndedIterator for MFilterMap<I, F> {
  fn next_back(&mut self) -> Option<U> {
    loop {
      match self.it.next_back() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y) }, None => return None }
    }
  }
}
pub fn std__iter__Iterator__filter_map<I, F>(it: I, f: F) -> MFilterMap<I, F> { MFilterMap { it, f } }

pub struct MTakeWhile<I, F> { it: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for MTakeWhile<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.done { return None; }
    match self.it.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None }
  }
}
pub fn std__iter__Iterator__take_while<I, F>(it: I, f: F) -> MTakeWhile<I, F> { MTakeWhile { it, f, done: false } }

pub struct MMapWhile<I, F> { it: I, f: F }
impl<I: Iterator, U, F: FnMut(I::Item) -> Option<U>> Iterator for MMapWhile<I, F> {
  type Item = U;
  fn next(&mut self) -> Option<U> {
    match self.it.next() { Some(x) => (self.f)(x), None => None }
  }
}
pub fn std__iter__Iterator__map_while<I, F>(it: I, f: F) -> MMapWhile<I, F> { MMapWhile { it, f } }

pub struct MSkipWhile<I, F> { it: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for MSkipWhile<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    loop {
      match self.it.next() {
        Some(x) => {
          if self.done { return Some(x); }
          if !(self.f)(&x) { self.done = true; return Some(x); }
        }
        None => return None,
      }
    }
  }
}
pub fn std__iter__Iterator__skip_while<I, F>(it: I, f: F) -> MSkipWhile<I, F> { MSkipWhile { it, f, done: false } }

pub struct MInspect<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for MInspect<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None }
  }
}
pub fn std__iter__Iterator__inspect<I, F>(it: I, f: F) -> MInspect<I, F> { MInspect { it, f } }

pub struct MPeekable<I: Iterator> { it: I, p: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for MPeekable<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    match std__option__Option__take(&mut self.p) { Some(v) => v, None => self.it.next() }
  }
}
pub fn std__iter__Iterator__peekable<I: Iterator>(it: I) -> MPeekable<I> { MPeekable { it, p: None } }
pub fn std__iter__Peekable__peek<I: Iterator>(p: &mut MPeekable<I>) -> Option<&I::Item> {
  if let None = p.p { p.p = Some(p.it.next()); }
  match &p.p { Some(Some(x)) => Some(x), _ => None }
}
pub fn std__iter__Peekable__next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(p: &mut MPeekable<I>, f: F) -> Option<I::Item> {
  match p.next() {
    Some(x) => if f(&x) { Some(x) } else { p.p = Some(Some(x)); None },
    None => { p.p = Some(None); None }
  }
}

pub struct MFlatMap<I, U, F> { it: I, cur: Option<U>, f: F }
impl<I: Iterator, U: Iterator, V: IntoIterator<Item = U::Item, IntoIter = U>, F: FnMut(I::Item) -> V> Iterator for MFlatMap<I, U, F> {
  type Item = U::Item;
  fn next(&mut self) -> Option<U::Item> {
    loop {
      if let Some(c) = &mut self.cur {
        if let Some(x) = c.next() { return Some(x); }
        self.cur = None;
      }
      match self.it.next() { Some(x) => self.cur = Some((self.f)(x).into_iter()), None => return None }
    }
  }
}
pub fn std__iter__Iterator__flat_map<I, U, F>(it: I, f: F) -> MFlatMap<I, U, F> { MFlatMap { it, cur: None, f } }

// ---- consumers --------------------------------------------------------------
pub fn std__iter__Iterator__by_ref<I>(it: &mut I) -> &mut I { it }
pub fn std__iter__Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
  loop { match it.next() { Some(x) => f(x), None => break } }
}
pub fn std__iter__Iterator__try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
  loop { match it.next() { Some(x) => match f(x) { Ok(()) => {}, Err(e) => return Err(e) }, None => return Ok(()) } }
}
pub fn std__iter__Iterator__fold<I: Iterator, A, F: FnMut(A, I::Item) -> A>(mut it: I, init: A, mut f: F) -> A {
  let mut acc = init;
  loop { match it.next() { Some(x) => acc = f(acc, x), None => break } }
  acc
}
pub fn std__iter__Iterator__try_fold<I: Iterator, A, E, F: FnMut(A, I::Item) -> Result<A, E>>(it: &mut I, init: A, mut f: F) -> Result<A, E> {
  let mut acc = init;
  loop { match it.next() { Some(x) => match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) }, None => return Ok(acc) } }
}
pub fn std__iter__Iterator__try_fold__opt<I: Iterator, A, F: FnMut(A, I::Item) -> Option<A>>(it: &mut I, init: A, mut f: F) -> Option<A> {
  let mut acc = init;
  loop { match it.next() { Some(x) => match f(acc, x) { Some(a) => acc = a, None => return None }, None => return Some(acc) } }
}
pub fn std__iter__Iterator__try_for_each__opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
  loop { match it.next() { Some(x) => match f(x) { Some(()) => {}, None => return None }, None => return Some(()) } }
}
pub fn std__iter__DoubleEndedIterator__rfold<I: DoubleEndedIterator, A, F: FnMut(A, I::Item) -> A>(mut it: I, init: A, mut f: F) -> A {
  let mut acc = init;
  loop { match it.next_back() { Some(x) => acc = f(acc, x), None => break } }
  acc
}
pub fn std__iter__Iterator__reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
  match it.next() {
    None => None,
    Some(first) => {
      let mut acc = first;
      loop { match it.next() { Some(x) => acc = f(acc, x), None => break } }
      Some(acc)
    }
  }
}
pub fn std__iter__Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  loop { match it.next() { Some(x) => if !f(x) { return false }, None => return true } }
}
pub fn std__iter__Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  loop { match it.next() { Some(x) => if f(x) { return true }, None => return false } }
}
pub fn std__iter__Iterator__find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
  loop { match it.next() { Some(x) => if f(&x) { return Some(x) }, None => return None } }
}
pub fn std__iter__Iterator__find_map<I: Iterator, U, F: FnMut(I::Item) -> Option<U>>(it: &mut I, mut f: F) -> Option<U> {
  loop { match it.next() { Some(x) => if let Some(y) = f(x) { return Some(y) }, None => return None } }
}
pub fn std__iter__Iterator__position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
  let mut i = 0;
  loop { match it.next() { Some(x) => { if f(x) { return Some(i) } i += 1; } None => return None } }
}
pub fn std__iter__DoubleEndedIterator__rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
  loop { match it.next_back() { Some(x) => if f(&x) { return Some(x) }, None => return None } }
}
pub fn std__iter__Iterator__count<I: Iterator>(mut it: I) -> usize {
  let mut n = 0;
  loop { match it.next() { Some(_) => n += 1, None => return n } }
}
pub fn std__iter__Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> {
  let mut l = None;
  loop { match it.next() { Some(x) => l = Some(x), None => return l } }
}
pub fn std__iter__Iterator__nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
  let mut n = n;
  loop {
    if n == 0 { return it.next(); }
    n -= 1;
    if let None = it.next() { return None; }
  }
}
pub fn model__collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
  let mut v = Vec::new();
  loop { match it.next() { Some(x) => v.push(x), None => return v } }
}
pub fn model__collect_deque<I: Iterator>(mut it: I) -> std::collections::VecDeque<I::Item> {
  let mut v = std::collections::VecDeque::new();
  loop { match it.next() { Some(x) => v.push_back(x), None => return v } }
}
pub fn model__collect_string<I: Iterator<Item = char>>(mut it: I) -> String {
  let mut v = String::new();
  loop { match it.next() { Some(x) => v.push(x), None => return v } }
}
pub fn model__collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
  let mut v = Vec::new();
  loop { match it.next() { Some(Ok(x)) => v.push(x), Some(Err(e)) => return Err(e), None => return Ok(v) } }
}
pub fn model__collect_result_unit<E, I: Iterator<Item = Result<(), E>>>(mut it: I) -> Result<(), E> {
  loop { match it.next() { Some(Ok(())) => {}, Some(Err(e)) => return Err(e), None => return Ok(()) } }
}
pub fn model__collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
  let mut v = Vec::new();
  loop { match it.next() { Some(Some(x)) => v.push(x), Some(None) => return None, None => return Some(v) } }
}
pub fn model__collect_option_string<I: Iterator<Item = Option<char>>>(mut it: I) -> Option<String> {
  let mut v = String::new();
  loop { match it.next() { Some(Some(x)) => v.push(x), Some(None) => return None, None => return Some(v) } }
}
pub fn model__extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
  let mut it = it.into_iter();
  loop { match it.next() { Some(x) => v.push(x), None => return } }
}
pub fn model__refill_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
  v.clear();
  let mut it = it.into_iter();
  loop { match it.next() { Some(x) => v.push(x), None => return } }
}
pub fn model__extend_deque<T, I: IntoIterator<Item = T>>(v: &mut std::collections::VecDeque<T>, it: I) {
  let mut it = it.into_iter();
  loop { match it.next() { Some(x) => v.push_back(x), None => return } }
}
pub fn model__extend_string<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
  let mut it = it.into_iter();
  loop { match it.next() { Some(x) => v.push(x), None => return } }
}
pub fn model__collect_map<K: Eq + std::hash::Hash, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::HashMap<K, V> {
  let mut m = std::collections::HashMap::new();
  loop { match it.next() { Some((k, v)) => { m.insert(k, v); } None => return m } }
}
pub fn model__collect_bmap<K: Ord, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::BTreeMap<K, V> {
  let mut m = std::collections::BTreeMap::new();
  loop { match it.next() { Some((k, v)) => { m.insert(k, v); } None => return m } }
}
pub fn model__collect_set<K: Eq + std::hash::Hash, I: Iterator<Item = K>>(mut it: I) -> std::collections::HashSet<K> {
  let mut m = std::collections::HashSet::new();
  loop { match it.next() { Some(k) => { m.insert(k); } None => return m } }
}
pub fn model__collect_bset<K: Ord, I: Iterator<Item = K>>(mut it: I) -> std::collections::BTreeSet<K> {
  let mut m = std::collections::BTreeSet::new();
  loop { match it.next() { Some(k) => { m.insert(k); } None => return m } }
}
pub fn model__extend_map<K: Eq + std::hash::Hash, V, I: IntoIterator<Item = (K, V)>>(m: &mut std::collections::HashMap<K, V>, it: I) {
  let mut it = it.into_iter();
  loop { match it.next() { Some((k, v)) => { m.insert(k, v); } None => return } }
}
pub fn model__extend_set<K: Eq + std::hash::Hash, I: IntoIterator<Item = K>>(m: &mut std::collections::HashSet<K>, it: I) {
  let mut it = it.into_iter();
  loop { match it.next() { Some(k) => { m.insert(k); } None => return } }
}
pub struct MEntry<'a, V> { v: &'a mut V }
pub fn entry_insert<'a, V>(e: MEntry<'a, V>, v: V) -> &'a mut V { *e.v = v; e.v }
pub fn model__entry_or_insert_with<'a, V, F: FnOnce() -> V>(e: MEntry<'a, V>, f: F) -> &'a mut V { entry_insert(e, f()) }
pub fn model__vec_resize_with<T, F: FnMut() -> T>(n: usize, mut f: F) -> Vec<T> {
  let mut v = Vec::new();
  let mut i = 0;
  while i < n { v.push(f()); i += 1; }
  v
}

// ---- misc ---------------------------------------------------------------------
pub fn std__mem__take<T: Default>(x: &mut T) -> T { std::mem::replace(x, T::default()) }
pub fn std__cmp__max<T: Ord>(a: T, b: T) -> T { if b < a { a } else { b } }
pub fn std__cmp__min<T: Ord>(a: T, b: T) -> T { if b < a { b } else { a } }
pub fn std__cmp__Ord__max<T: Ord>(a: T, b: T) -> T { if b < a { a } else { b } }
pub fn std__cmp__Ord__min<T: Ord>(a: T, b: T) -> T { if b < a { b } else { a } }

// ---- sorting --------------------------------------------------------------------------------------

pub fn std__slice__sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], mut f: F) {
  let n = v.len();
  let mut i = 1;
  while i < n {
    let mut j = i;
    while j > 0 {
      match f(&v[j - 1], &v[j]) {
        std::cmp::Ordering::Greater => v.swap(j - 1, j),
        _ => break,
      }
      j -= 1;
    }
    i += 1;
  }
}
pub fn std__slice__sort_unstable_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], f: F) {
  std__slice__sort_by(v, f)
}
pub fn std__slice__sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
  std__slice__sort_by(v, |a, b| f(a).cmp(&f(b)))
}
pub fn std__slice__sort_unstable_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], f: F) {
  std__slice__sort_by_key(v, f)
}
pub fn std__slice__sort_by_cached_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], f: F) {
  std__slice__sort_by_key(v, f)
}
