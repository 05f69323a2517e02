=== default P=S01,S02
=== raw densemap prelude
// ---- secondary maps ----
/// Keys: `Into<usize> + Copy`; the conversion of an index may panic on the niche value.
pub trait VKey: Copy {
    spec fn kv(self) -> int;
    spec fn kok(self) -> bool;
    fn v_key(self) -> (r: usize) requires self.kok(), ensures r == self.kv();
}
pub open spec fn ki<K: VKey>(k: K) -> int { k.kv() }
pub open spec fn kw<K: VKey>(k: K) -> bool { k.kok() && 0 <= k.kv() < usize::MAX }
impl VKey for usize {
    open spec fn kv(self) -> int { self as int }
    open spec fn kok(self) -> bool { true }
    fn v_key(self) -> (r: usize) { self }
}
/// `impl From<T> for usize`
pub struct UsizeOf;
impl VKey for NodeIndex {
    open spec fn kv(self) -> int { self.i() }
    open spec fn kok(self) -> bool { self.wf() }
    fn v_key(self) -> (r: usize) { UsizeOf::from_node(self) }
}
impl VKey for PortIndex {
    open spec fn kv(self) -> int { self.i() }
    open spec fn kok(self) -> bool { self.wf() }
    fn v_key(self) -> (r: usize) { UsizeOf::from_port(self) }
}
/// Values: `Clone` is assumed to give an equal value.
pub trait VVal: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
pub trait VValD: VVal + VDefault {}
pub trait VHash: VVal + Copy {}
impl VVal for bool { fn v_clone(&self) -> (r: bool) { *self } }
/// `Vec::resize`
#[verifier::external_body]
pub fn vec_resize<V: VVal>(v: &mut Vec<V>, n: usize, x: V)
    ensures
        final(v).len() == n,
        forall|i: int| #![trigger final(v)@[i]] 0 <= i < n ==> final(v)@[i] == (if i < old(v).len() { old(v)@[i] } else { x }),
{ unimplemented!() }
pub assume_specification<T, A> [std::vec::Vec::<T, A>::capacity] (v: &std::vec::Vec<T, A>) -> (r: usize)
    where A: std::alloc::Allocator
    ensures r == vec_cap(*v), r >= v@.len();
pub broadcast axiom fn axiom_vec_cap<T, A: std::alloc::Allocator>(v: std::vec::Vec<T, A>)
    ensures #[trigger] vec_cap(v) >= v@.len();
pub uninterp spec fn vec_cap<T, A: std::alloc::Allocator>(v: std::vec::Vec<T, A>) -> usize;
impl<K: VKey, V: VVal> UnmanagedDenseMap<K, V> {
    /// The value of every key.
    pub open spec fn at(self, i: int) -> V { if 0 <= i < self.data.len() { self.data@[i] } else { self.default } }
    /// Only the value of key i changed, to v.
    pub open spec fn upd(self, o: Self, i: int, v: V) -> bool {
        &&& self.default == o.default
        &&& forall|j: int| #![trigger self.at(j)] #![trigger o.at(j)] self.at(j) == (if j == i { v } else { o.at(j) })
    }
    pub open spec fn all_default(self) -> bool { forall|j: int| #![trigger self.at(j)] self.at(j) == self.default }
    pub open spec fn same(self, o: Self) -> bool {
        &&& self.default == o.default
        &&& forall|j: int| #![trigger self.at(j)] #![trigger o.at(j)] self.at(j) == o.at(j)
    }
}
=== type unmanaged UnmanagedDenseMap derive=none phantom
#[verifier::reject_recursive_types(K)]
=== fn index usize::from of=From<BitField<U>> P=I01 on=UsizeOf as=from_bits subst:Self=usize
--- spec
requires !bit_field.none(),
ensures r == bit_field.idx(),
=== fn index usize::from of=From<NodeIndex<U>> P=I01 on=UsizeOf as=from_node subst:Self=usize call:from=from_bits
--- spec
requires index.wf(),
ensures r == index.i(),
=== fn index usize::from of=From<PortIndex<U>> P=I01 on=UsizeOf as=from_port subst:Self=usize call:from=from_bits
--- spec
requires index.wf(),
ensures r == index.i(),
=== fn unmanaged UnmanagedDenseMap::with_default impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> phantom call:into=v_key
--- spec
ensures r.default == default, r.all_default(), r.data.len() == 0,
=== fn unmanaged UnmanagedDenseMap::new of= impl=<K:VKey,V:VValD> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures r.default == V::dflt(), r.all_default(), r.data.len() == 0,
=== fn unmanaged UnmanagedDenseMap::with_capacity_and_default impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> phantom call:into=v_key
--- spec
ensures r.default == default, r.all_default(), r.data.len() == 0,
=== fn unmanaged UnmanagedDenseMap::with_capacity of= impl=<K:VKey,V:VValD> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures r.default == V::dflt(), r.all_default(), r.data.len() == 0,
=== fn unmanaged UnmanagedDenseMap::ensure_capacity of= impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:clone=v_clone call:into=v_key call:resize=vec_resize
--- spec
ensures final(self).same(*old(self)),
=== fn unmanaged UnmanagedDenseMap::shrink_to impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures
    final(self).data.len() <= old(self).data.len(),
    final(self).default == old(self).default,
    forall|j: int| #![trigger final(self).at(j)] #![trigger old(self).at(j)] final(self).at(j) == (if j < capacity { old(self).at(j) } else { old(self).default }),
=== fn unmanaged UnmanagedDenseMap::capacity of= impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures r >= self.data.len(), r == vec_cap(self.data),
=== fn unmanaged UnmanagedDenseMap::resize_for_get_mut impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:clone=v_clone call:into=v_key call:resize=vec_resize
--- spec
requires len >= old(self).data.len(),
ensures final(self).same(*old(self)), final(self).data.len() == len,
=== fn unmanaged UnmanagedDenseMap::get of= impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
requires kw(key),
ensures *r == self.at(ki(key)),
=== fn unmanaged UnmanagedDenseMap::get_mut impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
requires kw(key),
ensures
    *r == old(self).at(ki(key)),
    final(self).upd(*old(self), ki(key), *final(r)),
    final(self).data.len() == (if ki(key) < old(self).data.len() { old(self).data.len() as int } else { ki(key) + 1 }),
=== fn unmanaged UnmanagedDenseMap::try_get_mut impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
requires kw(key),
ensures
    final(self).data.len() == old(self).data.len(),
    match r {
        Some(x) => ki(key) < old(self).data.len() && *x == old(self).at(ki(key)) && final(self).upd(*old(self), ki(key), *final(x)),
        None => ki(key) >= old(self).data.len() && final(self).same(*old(self)),
    },
=== fn unmanaged UnmanagedDenseMap::index of=Index<K> assoc=Output:V impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
requires kw(key),
ensures *r == self.at(ki(key)),
=== fn unmanaged UnmanagedDenseMap::index_mut of=IndexMut<K> assoc=Output:V impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
requires kw(key),
ensures
    *r == old(self).at(ki(key)),
    final(self).upd(*old(self), ki(key), *final(r)),
    final(self).data.len() == (if ki(key) < old(self).data.len() { old(self).data.len() as int } else { ki(key) + 1 }),
=== fn unmanaged UnmanagedDenseMap::rekey of= impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:clone=v_clone call:into=v_key rename:old=old_k
--- spec
requires kw(old_k), new.is_some() ==> kw(new.unwrap()),
ensures
    final(self).default == old(self).default,
    forall|j: int| #![trigger final(self).at(j)] #![trigger old(self).at(j)] final(self).at(j) == (
        if new.is_some() && j == ki(new.unwrap()) { old(self).at(ki(old_k)) }
        else if j == ki(old_k) { old(self).default }
        else { old(self).at(j) }),
=== fn unmanaged UnmanagedDenseMap::swap of= impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
requires kw(key0), kw(key1),
ensures
    final(self).default == old(self).default,
    forall|j: int| #![trigger final(self).at(j)] #![trigger old(self).at(j)] final(self).at(j) == (
        if j == ki(key0) { old(self).at(ki(key1)) }
        else if j == ki(key1) { old(self).at(ki(key0)) }
        else { old(self).at(j) }),
=== fn unmanaged UnmanagedDenseMap::default of=Default impl=<K:VKey,V:VValD> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures r.default == V::dflt(), r.all_default(),
=== fn unmanaged UnmanagedDenseMap::new of=SecondaryMap<K,V> as=sm_new impl=<K:VKey,V:VValD> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures r.default == V::dflt(), r.all_default(),
=== fn unmanaged UnmanagedDenseMap::with_capacity of=SecondaryMap<K,V> as=sm_with_capacity impl=<K:VKey,V:VValD> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures r.default == V::dflt(), r.all_default(),
=== fn unmanaged UnmanagedDenseMap::default_value impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:clone=v_clone call:into=v_key
--- spec
ensures r == self.default,
=== fn unmanaged UnmanagedDenseMap::ensure_capacity of=SecondaryMap<K,V> as=sm_ensure_capacity impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures final(self).same(*old(self)),
=== fn unmanaged UnmanagedDenseMap::capacity of=SecondaryMap<K,V> as=sm_capacity impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
ensures r >= self.data.len(), r == vec_cap(self.data),
=== fn unmanaged UnmanagedDenseMap::get of=SecondaryMap<K,V> as=sm_get impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
requires kw(key),
ensures *r == self.at(ki(key)),
=== fn unmanaged UnmanagedDenseMap::set impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> mapix=self call:into=v_key
--- spec
requires kw(key),
ensures
    final(self).upd(*old(self), ki(key), val),
    final(self).data.len() == (if ki(key) < old(self).data.len() { old(self).data.len() as int } else { ki(key) + 1 }),
=== fn unmanaged UnmanagedDenseMap::take as=sm_take impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:clone=v_clone call:into=v_key
--- spec
requires kw(key),
ensures r == old(self).at(ki(key)), final(self).upd(*old(self), ki(key), old(self).default),
=== fn unmanaged UnmanagedDenseMap::rekey of=SecondaryMap<K,V> as=sm_rekey impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key rename:old=old_k
--- spec
requires kw(old_k), new.is_some() ==> kw(new.unwrap()),
ensures
    final(self).default == old(self).default,
    forall|j: int| #![trigger final(self).at(j)] #![trigger old(self).at(j)] final(self).at(j) == (
        if new.is_some() && j == ki(new.unwrap()) { old(self).at(ki(old_k)) }
        else if j == ki(old_k) { old(self).default }
        else { old(self).at(j) }),
=== fn unmanaged UnmanagedDenseMap::swap of=SecondaryMap<K,V> as=sm_swap impl=<K:VKey,V:VVal> on=UnmanagedDenseMap<K,V> call:into=v_key
--- spec
requires kw(key0), kw(key1),
ensures
    final(self).default == old(self).default,
    forall|j: int| #![trigger final(self).at(j)] #![trigger old(self).at(j)] final(self).at(j) == (
        if j == ki(key0) { old(self).at(ki(key1)) }
        else if j == ki(key1) { old(self).at(ki(key0)) }
        else { old(self).at(j) }),
=== raw bitvec
/// `bitvec::BitVec` (assumed contracts of the dependency).
#[verifier::external_body]
pub struct BitVec { x: Vec<bool> }
pub struct BitSlice;
impl BitVec {
    pub uninterp spec fn bits(self) -> Seq<bool>;
    /// The value of every key.
    pub open spec fn at(self, i: int) -> bool { 0 <= i < self.bits().len() && self.bits()[i] }
    pub open spec fn upd(self, o: Self, i: int, v: bool) -> bool {
        forall|j: int| #![trigger self.at(j)] #![trigger o.at(j)] self.at(j) == (if j == i { v } else { o.at(j) })
    }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.bits().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.bits().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bits().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r >= self.bits().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self).bits() == old(self).bits() { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, v: bool)
        ensures final(self).bits().len() == n,
            forall|j: int| #![trigger final(self).bits()[j]] 0 <= j < n ==> final(self).bits()[j] == (if j < old(self).bits().len() { old(self).bits()[j] } else { v }),
    { unimplemented!() }
}
impl BitSlice {
    #[verifier::external_body]
    pub fn get(s: &BitVec, i: usize) -> (r: Option<&bool>)
        ensures match r { Some(x) => i < s.bits().len() && *x == s.bits()[i as int], None => i >= s.bits().len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn set(s: &mut BitVec, i: usize, v: bool)
        requires i < old(s).bits().len(),
        ensures final(s).bits() == old(s).bits().update(i as int, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(s: &mut BitVec, i: usize, v: bool) -> (r: bool)
        requires i < old(s).bits().len(),
        ensures final(s).bits() == old(s).bits().update(i as int, v), r == old(s).bits()[i as int] { unimplemented!() }
}
=== fn secondary BitVec::new of=SecondaryMap<K,bool> as=sm_new on=BitVec
--- spec
ensures forall|j: int| !r.at(j),
=== fn secondary BitVec::with_capacity of=SecondaryMap<K,bool> as=sm_with_capacity on=BitVec
--- spec
ensures forall|j: int| !r.at(j),
=== fn secondary BitVec::default_value of=SecondaryMap<K,bool> as=sm_default_value on=BitVec
--- spec
ensures !r,
=== fn secondary BitVec::ensure_capacity of=SecondaryMap<K,bool> as=sm_ensure_capacity on=BitVec
--- spec
ensures forall|j: int| #![trigger final(self).at(j)] final(self).at(j) == old(self).at(j),
=== fn secondary BitVec::capacity of=SecondaryMap<K,bool> as=sm_capacity on=BitVec
--- spec
ensures forall|j: int| #![trigger self.at(j)] self.at(j) ==> j < r,
=== fn secondary BitVec::get of=SecondaryMap<K,bool> as=sm_get on=BitVec call:into=v_key gen=K:VKey
--- spec
requires kw(key),
ensures *r == self.at(ki(key)),
=== fn secondary BitVec::set of=SecondaryMap<K,bool> as=sm_set on=BitVec call:into=v_key gen=K:VKey
--- spec
requires kw(key),
ensures final(self).upd(*old(self), ki(key), val),
=== fn secondary BitVec::take of=SecondaryMap<K,bool> as=sm_take on=BitVec call:into=v_key gen=K:VKey
--- spec
requires kw(key),
ensures r == old(self).at(ki(key)), final(self).upd(*old(self), ki(key), false),
=== fn secondary BitVec::rekey of=SecondaryMap<K,bool> as=sm_rekey on=BitVec call:into=v_key gen=K:VKey call:take=sm_take call:set=sm_set rename:old=old_k
--- spec
requires kw(old_k), new.is_some() ==> kw(new.unwrap()),
ensures
    forall|j: int| #![trigger final(self).at(j)] #![trigger old(self).at(j)] final(self).at(j) == (
        if new.is_some() && j == ki(new.unwrap()) { old(self).at(ki(old_k)) }
        else if j == ki(old_k) { false }
        else { old(self).at(j) }),
=== fn secondary BitVec::swap of=SecondaryMap<K,bool> as=sm_swap on=BitVec call:into=v_key gen=K:VKey call:get=sm_get call:set=sm_set
--- spec
requires kw(key0), kw(key1),
ensures
    forall|j: int| #![trigger final(self).at(j)] #![trigger old(self).at(j)] final(self).at(j) == (
        if j == ki(key0) { old(self).at(ki(key1)) }
        else if j == ki(key1) { old(self).at(ki(key0)) }
        else { old(self).at(j) }),
=== raw hashset
/// `std::collections::HashSet` for keys whose `Eq` is equality (assumed contracts).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: Vec<K> }
impl<K: Copy> HashSet<K> {
    pub uninterp spec fn has(self, k: K) -> bool;
    pub open spec fn upd(self, o: Self, i: K, v: bool) -> bool {
        forall|j: K| #![trigger self.has(j)] #![trigger o.has(j)] self.has(j) == (if j == i { v } else { o.has(j) })
    }
    pub open spec fn same(self, o: Self) -> bool { forall|j: K| #![trigger self.has(j)] #![trigger o.has(j)] self.has(j) == o.has(j) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|j: K| #![trigger r.has(j)] !r.has(j) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures forall|j: K| #![trigger r.has(j)] !r.has(j) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self.has(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self).upd(*old(self), k, true), r == !old(self).has(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self).upd(*old(self), *k, false), r == old(self).has(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self, k: &K) -> (r: Option<K>) ensures final(self).upd(*old(self), *k, false), r.is_some() == old(self).has(*k) { unimplemented!() }
}
=== fn secondary HashSet::new of=SecondaryMap<K,bool> as=sm_new on=HashSet<K> impl=<K:Copy>
--- spec
ensures forall|j: K| #![trigger r.has(j)] !r.has(j),
=== fn secondary HashSet::with_capacity of=SecondaryMap<K,bool> as=sm_with_capacity on=HashSet<K> impl=<K:Copy>
--- spec
ensures forall|j: K| #![trigger r.has(j)] !r.has(j),
=== fn secondary HashSet::default_value of=SecondaryMap<K,bool> as=sm_default_value on=HashSet<K> impl=<K:Copy>
--- spec
ensures !r,
=== fn secondary HashSet::ensure_capacity of=SecondaryMap<K,bool> as=sm_ensure_capacity on=HashSet<K> impl=<K:Copy>
--- spec
ensures final(self).same(*old(self)),
=== fn secondary HashSet::get of=SecondaryMap<K,bool> as=sm_get on=HashSet<K> impl=<K:Copy>
--- spec
ensures *r == self.has(key),
=== fn secondary HashSet::set of=SecondaryMap<K,bool> as=sm_set on=HashSet<K> impl=<K:Copy>
--- spec
ensures final(self).upd(*old(self), key, val),
=== fn secondary HashSet::take of=SecondaryMap<K,bool> as=sm_take on=HashSet<K> impl=<K:Copy>
--- spec
ensures r == old(self).has(key), final(self).upd(*old(self), key, false),
=== fn secondary SecondaryMap::remove as=sm_remove on=HashSet<K> impl=<K:Copy> call:take=sm_take
--- spec
ensures final(self).upd(*old(self), key, false),
=== fn secondary SecondaryMap::rekey as=sm_rekey on=HashSet<K> impl=<K:Copy> call:take=sm_take call:set=sm_set subst:V=bool rename:old=old_k
--- spec
ensures
    forall|j: K| #![trigger final(self).has(j)] #![trigger old(self).has(j)] final(self).has(j) == (
        if new.is_some() && j == new.unwrap() { old(self).has(old_k) }
        else if j == old_k { false }
        else { old(self).has(j) }),
=== fn secondary SecondaryMap::swap as=sm_swap on=HashSet<K> impl=<K:VHash> call:clone=v_clone call:get=sm_get call:set=sm_set subst:V=bool
--- spec
ensures
    forall|j: K| #![trigger final(self).has(j)] #![trigger old(self).has(j)] final(self).has(j) == (
        if j == key0 { old(self).has(key1) }
        else if j == key1 { old(self).has(key0) }
        else { old(self).has(j) }),
=== fn secondary SecondaryMap::remove as=sm_remove on=UnmanagedDenseMap<K,V> impl=<K:VKey,V:VVal>  call:take=sm_take
--- spec
requires kw(key),
ensures final(self).upd(*old(self), ki(key), old(self).default),
=== type weights Weights derive=none subst:N= subst:P=
=== fn weights Weights::new subst:N= subst:P= on=Weights<N,P> impl=<N:VValD,P:VValD>
--- spec
ensures r.nodes.all_default(), r.ports.all_default(), r.nodes.default == N::dflt(), r.ports.default == P::dflt(),
=== fn weights Weights::with_capacity subst:N= subst:P= on=Weights<N,P> impl=<N:VValD,P:VValD>
--- spec
ensures r.nodes.all_default(), r.ports.all_default(), r.nodes.default == N::dflt(), r.ports.default == P::dflt(),
=== fn weights Weights::default subst:N= subst:P= on=Weights<N,P> impl=<N:VValD,P:VValD>
--- spec
ensures r.nodes.all_default(), r.ports.all_default(), r.nodes.default == N::dflt(), r.ports.default == P::dflt(),
=== fn weights Weights::index of=Index<NodeIndex> as=node_index subst:N= subst:P= on=Weights<N,P> impl=<N:VVal,P:VVal> mapix=nodes,ports assoc=Output:N
--- spec
requires kw(key),
ensures *r == self.nodes.at(ki(key)),
=== fn weights Weights::index of=Index<PortIndex> as=port_index subst:N= subst:P= on=Weights<N,P> impl=<N:VVal,P:VVal> mapix=nodes,ports assoc=Output:P
--- spec
requires kw(key),
ensures *r == self.ports.at(ki(key)),
=== fn weights Weights::index_mut of=IndexMut<NodeIndex> as=node_index_mut subst:N= subst:P= on=Weights<N,P> impl=<N:VVal,P:VVal> mapix=nodes,ports assoc=Output:N
--- spec
requires kw(key),
ensures *r == old(self).nodes.at(ki(key)), final(self).nodes.upd(old(self).nodes, ki(key), *final(r)), final(self).ports == old(self).ports,
=== fn weights Weights::index_mut of=IndexMut<PortIndex> as=port_index_mut subst:N= subst:P= on=Weights<N,P> impl=<N:VVal,P:VVal> mapix=nodes,ports assoc=Output:P
--- spec
requires kw(key),
ensures *r == old(self).ports.at(ki(key)), final(self).ports.upd(old(self).ports, ki(key), *final(r)), final(self).nodes == old(self).nodes,
