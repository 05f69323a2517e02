=== raw prelude
// ---- machine integers (num_traits): assumed contracts on the dependency, proved for these bodies ----
pub trait NumU: Sized + Copy {
    spec fn v(self) -> int;
    spec fn max() -> int;
    fn max_value() -> (r: Self) ensures r.v() == Self::max();
    fn zero() -> (r: Self) ensures r.v() == 0;
    fn to_usize(&self) -> (r: Option<usize>) ensures r == Some(self.v() as usize), 0 <= self.v() <= usize::MAX;
    fn from_usize(x: usize) -> (r: Option<Self>) ensures match r { Some(y) => y.v() == x, None => x > Self::max() };
}
impl NumU for u32 {
    open spec fn v(self) -> int { self as int }
    open spec fn max() -> int { u32::MAX as int }
    fn max_value() -> (r: Self) { assert(<u32 as NumU>::max() == u32::MAX as int); assert(u32::MAX.v() == u32::MAX as int); u32::MAX }
    fn zero() -> (r: Self) { 0 }
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn from_usize(x: usize) -> (r: Option<Self>) { if x > u32::MAX as usize { None } else { Some(x as u32) } }
}
impl NumU for u16 {
    open spec fn v(self) -> int { self as int }
    open spec fn max() -> int { u16::MAX as int }
    fn max_value() -> (r: Self) { assert(<u16 as NumU>::max() == u16::MAX as int); assert(u16::MAX.v() == u16::MAX as int); u16::MAX }
    fn zero() -> (r: Self) { 0 }
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn from_usize(x: usize) -> (r: Option<Self>) { if x > u16::MAX as usize { None } else { Some(x as u16) } }
}
impl NumU for u8 {
    open spec fn v(self) -> int { self as int }
    open spec fn max() -> int { u8::MAX as int }
    fn max_value() -> (r: Self) { assert(<u8 as NumU>::max() == u8::MAX as int); assert(u8::MAX.v() == u8::MAX as int); u8::MAX }
    fn zero() -> (r: Self) { 0 }
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    fn from_usize(x: usize) -> (r: Option<Self>) { if x > u8::MAX as usize { None } else { Some(x as u8) } }
}
global size_of usize == 8;

// ---- panics ----
/// `assert!` that must never fail.
pub fn v_assert(b: bool) requires b, ensures b {}
/// `assert!` documented to panic: the call does not return unless `b`.
#[verifier::external_body]
pub fn v_check(b: bool) ensures b { assert!(b) }
pub fn v_unreachable() -> ! requires false, { loop invariant false, decreases 0int { } }
#[verifier::external_body]
pub fn v_panic() -> ! { panic!() }

// ---- std::mem, Option ----
pub trait VDefault: Sized {
    spec fn dflt() -> Self;
    fn vdefault() -> (r: Self) ensures r == Self::dflt();
}
pub fn v_replace<T>(x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y,
{
    let mut z = y;
    core::mem::swap(x, &mut z);
    z
}
pub fn v_take<T: VDefault>(x: &mut T) -> (r: T)
    ensures r == *old(x), *final(x) == T::dflt(),
{
    v_replace(x, T::vdefault())
}
pub fn v_take_vec<T>(x: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(x)@, final(x)@ == Seq::<T>::empty(),
{
    v_replace(x, Vec::new())
}
pub assume_specification<'a, T> [std::option::Option::<&'a T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    where T: std::marker::Copy,
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
    requires i < old(s).len(), j < old(s).len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T, A: std::alloc::Allocator>[ std::vec::Vec::<T, A>::shrink_to_fit ](v: &mut std::vec::Vec<T, A>)
    ensures final(v)@ == old(v)@;
/// `v[r].fill(x)`
#[verifier::external_body]
pub fn v_fill_range<T: Copy>(v: &mut Vec<T>, r: VRange, x: T)
    requires r.start <= r.end <= old(v).len(),
    ensures
        final(v).len() == old(v).len(),
        forall|i: int| #![trigger final(v)@[i]] 0 <= i < old(v).len() ==> final(v)@[i] == (if r.start <= i < r.end { x } else { old(v)@[i] }),
{ v[r.start..r.end].fill(x) }
pub assume_specification[ usize::next_power_of_two ](n: usize) -> (r: usize)
    requires n <= 0x8000_0000_0000_0000,
    ensures n <= r, n > 0 ==> r < 2 * n, r >= 1;

/// `Ord::min` / `Ord::max` on usize
pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn v_max(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b } else { a }) { if a <= b { b } else { a } }

// ---- conversions: `Into` with a spec ----
pub trait VInto<T>: Sized {
    spec fn into_spec(self) -> T;
    fn vinto(self) -> (r: T) ensures r == self.into_spec();
}
impl<T> VInto<T> for T {
    open spec fn into_spec(self) -> T { self }
    fn vinto(self) -> (r: T) { self }
}

// ---- callbacks: the sequence of calls is recorded ----
pub trait VCall<A, B>: Sized {
    spec fn log(&self) -> Seq<(A, B)>;
    fn call(&mut self, a: A, b: B) ensures final(self).log() == old(self).log().push((a, b));
}

// ---- iterators ----
pub trait VIter: Sized {
    type Item;
    spec fn rest(self) -> Seq<Self::Item>;
    spec fn ok(self) -> bool;
    fn v_next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).ok(),
        ensures
            final(self).ok(),
            match r {
                Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            };
}
pub trait VIntoIter: Sized {
    type It: VIter;
    spec fn iok(self) -> bool;
    spec fn irest(self) -> Seq<<Self::It as VIter>::Item>;
    spec fn ieq(self, r: Self::It) -> bool;
    fn v_into_iter(self) -> (r: Self::It) requires self.iok(), ensures r.ok(), r.rest() == self.irest(), self.ieq(r);
}
pub fn v_iter<I: VIntoIter>(i: I) -> (r: I::It)
    requires i.iok(),
    ensures r.ok(), r.rest() == i.irest(), i.ieq(r),
{ i.v_into_iter() }

/// `std::ops::Range<usize>`
pub struct VRange { pub start: usize, pub end: usize }
pub open spec fn range_seq(a: int, b: int) -> Seq<usize> {
    Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize)
}
impl VIter for VRange {
    type Item = usize;
    open spec fn rest(self) -> Seq<usize> { range_seq(self.start as int, self.end as int) }
    open spec fn ok(self) -> bool { true }
    fn v_next(&mut self) -> (r: Option<usize>)
        ensures r.is_some() ==> r == Some(old(self).start) && final(self).start == old(self).start + 1 && final(self).end == old(self).end,
            r.is_none() ==> *final(self) == *old(self) && old(self).start >= old(self).end,
    {
        if self.start < self.end {
            let x = self.start;
            self.start = self.start + 1;
            assert(self.rest() =~= old(self).rest().skip(1));
            Some(x)
        } else {
            None
        }
    }
}
impl VRange {
    pub fn contains(&self, x: &usize) -> (r: bool) ensures r == (self.start <= *x < self.end) { self.start <= *x && *x < self.end }
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            r.is_some() <==> old(self).start < old(self).end,
            r.is_some() ==> r == Some(old(self).start) && final(self).start == old(self).start + 1 && final(self).end == old(self).end,
            r.is_none() ==> *final(self) == *old(self),
    { self.v_next() }
    pub fn next_back(&mut self) -> (r: Option<usize>)
        ensures
            r.is_some() <==> old(self).start < old(self).end,
            r.is_some() ==> r == Some((old(self).end - 1) as usize) && final(self).end == old(self).end - 1 && final(self).start == old(self).start,
            r.is_none() ==> *final(self) == *old(self),
    { if self.start < self.end { self.end = self.end - 1; Some(self.end) } else { None } }
    pub fn nth(&mut self, n: usize) -> (r: Option<usize>)
        ensures
            r == (if old(self).start + n < old(self).end { Some((old(self).start + n) as usize) } else { None::<usize> }),
            final(self).end == old(self).end,
            old(self).start + n < old(self).end ==> final(self).start == old(self).start + n + 1,
            old(self).start + n >= old(self).end ==> final(self).start == old(self).end,
    {
        if self.start < self.end && n < self.end - self.start {
            let x = self.start + n;
            self.start = x + 1;
            Some(x)
        } else {
            self.start = self.end;
            None
        }
    }
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { if self.start < self.end { self.end - self.start } else { 0 } }
    pub fn count(self) -> (r: usize) ensures r == self.rest().len() { self.len() }
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r == (self.rest().len() as usize, Some(self.rest().len() as usize)) { (self.len(), Some(self.len())) }
    pub fn clone(&self) -> (r: VRange) ensures r == *self { VRange { start: self.start, end: self.end } }
}
impl VIntoIter for VRange {
    type It = VRange;
    open spec fn iok(self) -> bool { true }
    open spec fn irest(self) -> Seq<usize> { self.rest() }
    open spec fn ieq(self, r: VRange) -> bool { r == self }
    fn v_into_iter(self) -> (r: VRange) { self }
}

/// Iterator adapters of the standard library (assumed contracts).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIt<T> { x: std::marker::PhantomData<T> }
impl<T> VIter for VIt<T> {
    type Item = T;
    uninterp spec fn rest(self) -> Seq<T>;
    open spec fn ok(self) -> bool { true }
    #[verifier::external_body]
    fn v_next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
impl<T> VIntoIter for VIt<T> {
    type It = VIt<T>;
    open spec fn iok(self) -> bool { true }
    open spec fn irest(self) -> Seq<T> { self.rest() }
    open spec fn ieq(self, r: VIt<T>) -> bool { r == self }
    fn v_into_iter(self) -> (r: VIt<T>) { self }
}
impl<T, const K: usize> VIntoIter for [T; K] {
    type It = VIt<T>;
    open spec fn iok(self) -> bool { true }
    open spec fn irest(self) -> Seq<T> { self@ }
    open spec fn ieq(self, r: VIt<T>) -> bool { true }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIt<T>) { unimplemented!() }
}
pub open spec fn seq_skip<T>(s: Seq<T>, n: int) -> Seq<T> { if n <= s.len() { s.skip(n) } else { Seq::empty() } }
pub open spec fn seq_zip<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}
#[verifier::external_body]
pub fn v_skip<I: VIter>(i: I, n: usize) -> (r: VIt<I::Item>) requires i.ok(), ensures r.rest() == seq_skip(i.rest(), n as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_chain<I: VIter, J: VIter<Item = I::Item>>(i: I, j: J) -> (r: VIt<I::Item>) requires i.ok(), j.ok(), ensures r.rest() == i.rest() + j.rest() { unimplemented!() }
#[verifier::external_body]
pub fn v_zip<I: VIter, J: VIter>(i: I, j: J) -> (r: VIt<(I::Item, J::Item)>) requires i.ok(), j.ok(), ensures r.rest() == seq_zip(i.rest(), j.rest()) { unimplemented!() }
#[verifier::external_body]
pub fn v_rev<I: VIter>(i: I) -> (r: VIt<I::Item>) requires i.ok(), ensures r.rest() == i.rest().reverse() { unimplemented!() }
