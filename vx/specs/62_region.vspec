=== default P=V02 impl=<'g,G:VView> on=Region<'g,G> eager
=== raw view_in
/// Both ends are ports of nodes in f.
pub open spec fn inl<G: VView>(g: G, f: spec_fn(int) -> bool, l: (G::LinkEndpoint, G::LinkEndpoint)) -> bool { f(g.pn(epi(l.0))) && f(g.pn(epi(l.1))) }
/// The links of s with both ends in f.
pub open spec fn links_in<G: VView>(g: G, f: spec_fn(int) -> bool, s: Seq<(G::LinkEndpoint, G::LinkEndpoint)>) -> Seq<(G::LinkEndpoint, G::LinkEndpoint)> { keep(s, |l: (G::LinkEndpoint, G::LinkEndpoint)| inl(g, f, l)) }
/// The nodes of s that are in f.
pub open spec fn nodes_in(f: spec_fn(int) -> bool, s: Seq<NodeIndex>) -> Seq<NodeIndex> { keep(s, |n: NodeIndex| f(n.i())) }
pub fn drop<T>(x: T) { }
=== raw rwlock
/// `std::sync::RwLock` of a map: every value that a thread can leave in it satisfies the invariant
/// given when it was made (assumed: not poisoned).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct WriteGuard<T> { x: std::marker::PhantomData<T> }
/// The result of `read` and `write`
#[verifier::reject_recursive_types(T)]
pub struct Locked<T> { pub x: T }
impl<T> Locked<T> {
    pub fn expect(self, s: &str) -> (r: T) ensures r == self.x { self.x }
    pub fn unwrap(self) -> (r: T) ensures r == self.x { self.x }
}
impl<K, V> RwLock<VHashMap<K, V>> {
    pub uninterp spec fn holds(self, m: Map<K, V>) -> bool;
    #[verifier::external_body]
    pub fn new(x: VHashMap<K, V>, Ghost(p): Ghost<spec_fn(Map<K, V>) -> bool>) -> (r: Self)
        requires p(x@), ensures forall|m: Map<K, V>| #[trigger] r.holds(m) == p(m)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: Locked<&VHashMap<K, V>>) ensures self.holds(r.x@) { unimplemented!() }
    /// Fails while another thread writes.
    #[verifier::external_body]
    pub fn try_read(&self) -> (r: Result<&VHashMap<K, V>, ()>) ensures r matches Ok(m) ==> self.holds(m@) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self) -> (r: Locked<WriteGuard<VHashMap<K, V>>>) ensures self.holds(r.x@), forall|m: Map<K, V>| #[trigger] r.x.holds(m) == self.holds(m) { unimplemented!() }
}
impl<K, V> WriteGuard<VHashMap<K, V>> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    pub uninterp spec fn holds(self, m: Map<K, V>) -> bool;
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        requires old(self).holds(old(self)@.insert(k, v)),
        ensures final(self)@ == old(self)@.insert(k, v), forall|m: Map<K, V>| #[trigger] final(self).holds(m) == old(self).holds(m),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(*k), r matches Some(v) ==> *v == self@[*k], { unimplemented!() }
}
=== type view::region Region derive=none
=== raw region_spec
/// The cache: the root, and correct answers.
pub open spec fn cache_ok(h: Hierarchy, root: NodeIndex, m: Map<NodeIndex, bool>) -> bool {
    &&& m.dom().contains(root)
    &&& forall|n: NodeIndex| #![trigger m.dom().contains(n)] m.dom().contains(n) ==> n.wf() && m[n] == (n != root && h.under(n.i(), root.i()))
}
pub open spec fn cache_inv(h: Hierarchy, root: NodeIndex) -> spec_fn(Map<NodeIndex, bool>) -> bool { |m: Map<NodeIndex, bool>| cache_ok(h, root, m) }
impl<'g, G> Region<'g, G> {
    pub open spec fn wf(self) -> bool {
        &&& self.hierarchy.wf() && self.region_root.wf()
        &&& forall|m: Map<NodeIndex, bool>| #[trigger] self.is_descendant.holds(m) == cache_ok(*self.hierarchy, self.region_root, m)
    }
    /// The nodes of the region: the root and its descendants.
    pub open spec fn inn(self) -> spec_fn(int) -> bool { |n: int| self.hierarchy.under(n, self.region_root.i()) }
}
/// Same numbers, same node.
proof fn lemma_ni(a: NodeIndex, b: NodeIndex)
    requires a.wf(), b.wf(), ensures (a == b) == (a.i() == b.i()),
{ }
=== fn view::region Region::new impl=<'g,G> on=Region<'g,G> garg:RwLock::new=cache_inv(*hierarchy,root)
--- spec
requires hierarchy.wf(), root.wf(),
ensures r.wf(), r.graph == graph, *r.hierarchy == *hierarchy, r.region_root == root,
=== fn view::region Region::is_descendant elem=NodeIndex impl=<'g,G> on=Region<'g,G>
--- spec
requires self.wf(), node.wf(),
ensures r == (self.inn())(node.i()),
--- hint start
let ghost h = *self.hierarchy;
let ghost t = h.tree();
let ghost root = self.region_root;
proof { lemma_kids(h, t); lemma_ni(node, root); lemma_under_self(h, root.i()); }
--- loop 0
invariant_except_break
    __succ matches Some(x) ==> x.wf() && !cache@.dom().contains(x) && h.under(x.i(), root.i()) == h.under(node.i(), root.i()),
    __succ is None ==> ancestors@.len() > 0 && (h.par(ancestors@.last().i()) == -1 || cache@.dom().contains(NodeIndex::mk(h.par(ancestors@.last().i())))),
invariant h == *self.hierarchy, h.wf(), root == self.region_root, root.wf(), t == h.tree(), h.wf_t(t), node.wf(), cache_ok(h, root, cache@), !cache@.dom().contains(node),
    forall|k: int| #![trigger ancestors@[k]] 0 <= k < ancestors@.len() ==> ancestors@[k].wf() && !cache@.dom().contains(ancestors@[k]) && h.under(ancestors@[k].i(), root.i()) == h.under(node.i(), root.i()),
ensures
    ancestors@.len() > 0 && (h.par(ancestors@.last().i()) == -1 || cache@.dom().contains(NodeIndex::mk(h.par(ancestors@.last().i())))),
decreases match __succ { Some(x) => (t.rk)(x.i()) + 1, None => 0 },
--- hint loop0.start
proof { if let Some(x) = __succ { assert(h.wf_up(t, x.i())); lemma_under(h, x.i(), root.i()); lemma_ni(x, root); if h.par(x.i()) >= 0 { assert(h.wf_up(t, h.par(x.i()))); } } }
--- hint after loop0
proof { let x = ancestors@.last(); assert(x == ancestors@[ancestors@.len() - 1]); assert(h.wf_up(t, x.i())); lemma_under(h, x.i(), root.i()); lemma_ni(x, root); }
--- loop 1
invariant __it1.ok(), cache_ok(h, root, cache_mut@), forall|m: Map<NodeIndex, bool>| #[trigger] cache_mut.holds(m) == cache_ok(h, root, m),
    forall|k: int| #![trigger __it1.rest()[k]] 0 <= k < __it1.rest().len() ==> __it1.rest()[k].wf() && __it1.rest()[k] != root && h.under(__it1.rest()[k].i(), root.i()) == is_descendant,
=== fn view::region Region::region_root impl=<'g,G> on=Region<'g,G>
--- spec
ensures r == self.region_root,
=== fn view::region Region::contains_link
--- spec
requires self.wf(), self.graph.gok(), epw(__p1), self.graph.pn(epi(__p1.0)) >= 0, self.graph.pn(epi(__p1.1)) >= 0,
ensures r == inl(self.graph, self.inn(), __p1),
=== fn view::region Region::contains_endpoint
--- spec
requires self.wf(), self.graph.gok(), e.into_spec().wf(), self.graph.pn(epi(e)) >= 0,
ensures r == (self.inn())(self.graph.pn(epi(e))),
=== fn view::region Region::contains_node
--- spec
requires self.wf(), node.wf(),
ensures r == (self.inn())(node.i()),
=== fn view::region Region::contains_port
--- spec
requires self.wf(), self.graph.gok(), port.wf(),
ensures r == (self.graph.pn(port.i()) >= 0 && (self.inn())(self.graph.pn(port.i()))),
=== fn view::region Region::is_empty
--- spec
requires self.wf(),
ensures !r,
=== fn view::region Region::get_connections rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), from.wf(), to.wf(),
ensures r.rest() == (if (self.inn())(from.i()) && (self.inn())(to.i()) { self.graph.lc(from.i(), to.i()) } else { Seq::empty() }),
--- loop 0
invariant __it0.ok(), __out.rest() + __it0.rest() =~= self.graph.lc(from.i(), to.i()),
decreases __it0.rest().len(),
=== fn view::region Region::port_links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), port.wf(), self.graph.pn(port.i()) >= 0,
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.lp(port.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.lp(port.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::region Region::links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.ld(node.i(), direction)),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.ld(node.i(), direction)), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::region Region::all_links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.la(node.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.la(node.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::region Region::neighbours rettype=VList<NodeIndex>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == nodes_in(self.inn(), self.graph.nd(node.i(), direction)),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + nodes_in(self.inn(), __it0.rest()) =~= nodes_in(self.inn(), self.graph.nd(node.i(), direction)),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
=== fn view::region Region::all_neighbours rettype=VList<NodeIndex>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == nodes_in(self.inn(), self.graph.na(node.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + nodes_in(self.inn(), __it0.rest()) =~= nodes_in(self.inn(), self.graph.na(node.i())),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
=== fn view::region Region::clone of=Clone impl=<'g,G:VVal> on=Region<'g,G> garg:RwLock::new=cache_inv(*self.hierarchy,self.region_root) call:clone=v_clone
--- spec
requires self.wf(),
ensures r.wf(), r.graph == self.graph, *r.hierarchy == *self.hierarchy, r.region_root == self.region_root,
