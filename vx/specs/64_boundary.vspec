=== default P=V03,V04 on=Boundary eager
=== raw btreeset
/// `std::collections::BTreeSet` as a finite set (assumed contracts; the keys' `Ord` is derived).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { x: Vec<K> }
impl<K> BTreeSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    /// The elements, in order.
    pub uninterp spec fn seq(&self) -> Seq<K>;
    #[verifier::external_body]
    pub proof fn axioms(&self) ensures self.seq().no_duplicates(), self.seq().len() == self@.len(), forall|x: K| #![trigger self@.contains(x)] #![trigger self.seq().contains(x)] self.seq().contains(x) == self@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (r: Option<K>)
        ensures match r { Some(x) => old(self)@.contains(x) && final(self)@ == old(self)@.remove(x), None => old(self)@ == Set::<K>::empty() && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r == self.seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@, r.seq() == self.seq() { unimplemented!() }
}
impl<K> VRefs<K> for BTreeSet<K> {
    open spec fn refs(&self) -> Seq<K> { self.seq() }
    #[verifier::external_body]
    fn v_refs(&self) -> (r: VIt<&K>) { unimplemented!() }
}
impl<K> VFromIter<K> for BTreeSet<K> {
    open spec fn made(self, s: Seq<K>) -> bool { self@ == s.to_set() }
    #[verifier::external_body]
    fn v_from(l: VIt<K>) -> (r: Self) { unimplemented!() }
}
=== type boundary Boundary derive=none
=== type boundary BoundaryPort derive=Clone,Copy
=== raw boundary_spec
impl Boundary {
    pub open spec fn ports_(self) -> Seq<PortIndex> { self.inputs@ + self.outputs@ }
    /// The ports of the boundary.
    pub open spec fn bset(self) -> Set<PortIndex> { self.ports_().to_set() }
    pub open spec fn side(self, d: Direction) -> Seq<PortIndex> { match d { Direction::Incoming => self.inputs@, Direction::Outgoing => self.outputs@ } }
    /// The ports are in the graph.
    pub open spec fn bok<G: VView>(self, g: G) -> bool { g.gok() && forall|k: int| #![trigger self.ports_()[k]] 0 <= k < self.ports_().len() ==> self.ports_()[k].wf() && g.pn(self.ports_()[k].i()) >= 0 }
}
/// A link of n that is not in the boundary leads to m.
pub open spec fn bedge<G: VView>(g: G, b: Set<PortIndex>, n: int, m: int) -> bool {
    exists|k: int| 0 <= k < g.la(n).len() && bcross(g, b, #[trigger] g.la(n)[k]) == m
}
/// The node at the end of the link, or -1 for a boundary link.
pub open spec fn bcross<G: VView>(g: G, b: Set<PortIndex>, l: (G::LinkEndpoint, G::LinkEndpoint)) -> int {
    if b.contains(l.0.into_spec()) || b.contains(l.1.into_spec()) { -1 } else { g.pn(epi(l.1)) }
}
/// The nodes that the traversal starts from: those of the boundary ports; all nodes if there are none.
pub open spec fn bseed<G: VView>(g: G, b: Set<PortIndex>, x: int) -> bool {
    if b == Set::<PortIndex>::empty() { g.sn().contains(NodeIndex::mk(x)) && NodeIndex::mk(x).i() == x } else { exists|p: PortIndex| #[trigger] b.contains(p) && g.pn(p.i()) == x }
}
/// x is reached by k links that do not cross the boundary.
pub open spec fn breach<G: VView>(g: G, b: Set<PortIndex>, x: int, k: nat) -> bool
    decreases k,
{ if k == 0 { bseed(g, b, x) } else { exists|n: int| n >= 0 && breach(g, b, n, (k - 1) as nat) && #[trigger] bedge(g, b, n, x) } }
/// x is a node of the subgraph that the boundary induces.
pub open spec fn inner<G: VView>(g: G, b: Set<PortIndex>, x: int) -> bool { exists|k: nat| #[trigger] breach(g, b, x, k) }
/// What contains the seeds and is closed under inner links contains everything inside.
proof fn lemma_inner<G: VView>(g: G, b: Set<PortIndex>, v: Set<NodeIndex>, x: int, k: nat)
    requires
        breach(g, b, x, k), x >= 0, g.gok(),
        forall|p: PortIndex| #![trigger b.contains(p)] b.contains(p) ==> g.pn(p.i()) >= 0,
        forall|y: int| #![trigger bseed(g, b, y)] y >= 0 && bseed(g, b, y) ==> v.contains(NodeIndex::mk(y)),
        forall|y: int, z: int| #![trigger bedge(g, b, y, z)] y >= 0 && NodeIndex::mk(y).i() == y && z >= 0 && v.contains(NodeIndex::mk(y)) && bedge(g, b, y, z) ==> v.contains(NodeIndex::mk(z)),
    ensures v.contains(NodeIndex::mk(x)), NodeIndex::mk(x).i() == x,
    decreases k,
{
    g.laws();
    if k > 0 {
        let n = choose|n: int| n >= 0 && breach(g, b, n, (k - 1) as nat) && #[trigger] bedge(g, b, n, x);
        lemma_inner(g, b, v, n, (k - 1) as nat);
    }
}
proof fn lemma_step<G: VView>(g: G, b: Set<PortIndex>, n: int, x: int)
    requires inner(g, b, n), n >= 0, bedge(g, b, n, x),
    ensures inner(g, b, x),
{ let k = choose|k: nat| #[trigger] breach(g, b, n, k); assert(breach(g, b, x, k + 1)); }
/// A list of distinct nodes is not longer than the index range.
pub proof fn lemma_distinct(s: Seq<NodeIndex>)
    requires s.no_duplicates(), forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].wf(),
    ensures s.len() <= top() + 1,
{
    let t = s.map_values(|n: NodeIndex| n.i());
    assert(t.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { assert(s[a] != s[b]); } }
    t.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, top() + 1);
    assert(t.to_set().subset_of(vstd::set_lib::set_int_range(0, top() + 1))) by {
        assert forall|x: int| t.to_set().contains(x) implies vstd::set_lib::set_int_range(0, top() + 1).contains(x) by { let k = t.index_of(x); assert(s[k].wf()); }
    }
    vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(0, top() + 1));
}
=== fn boundary Boundary::new ptype:inputs=impl+VIntoIter<It=VIt<PortIndex>> ptype:outputs=impl+VIntoIter<It=VIt<PortIndex>>
--- spec
requires inputs.iok(), outputs.iok(),
ensures r.inputs@ == inputs.irest(), r.outputs@ == outputs.irest(),
=== fn boundary Boundary::num_ports
--- spec
requires self.inputs@.len() + self.outputs@.len() <= usize::MAX,
ensures r == self.ports_().len(),
=== fn boundary Boundary::port_indices rettype=VList<PortIndex>
--- spec
ensures r.rest() == self.ports_(),
--- loop 0
invariant __it0.ok(), __out.rest() + __it0.rest() + self.outputs@ =~= self.ports_(),
decreases __it0.rest().len(),
--- loop 1
invariant __it1.ok(), __out.rest() + __it1.rest() =~= self.ports_(),
decreases __it1.rest().len(),
=== fn boundary Boundary::internal_nodes rettype=VList<NodeIndex> ptype:graph=&impl+VView
--- spec
requires self.bok(*graph),
ensures
    r.rest().no_duplicates(),
    forall|k: int| #![trigger r.rest()[k]] 0 <= k < r.rest().len() ==> r.rest()[k].wf() && inner(*graph, self.bset(), r.rest()[k].i()),
    forall|x: int| #![trigger inner(*graph, self.bset(), x)] x >= 0 && inner(*graph, self.bset(), x) ==> r.rest().contains(NodeIndex::mk(x)),
--- hint start
let ghost g = *graph;
let ghost b = self.bset();
let ghost nf = |p: PortIndex| NodeIndex::mk(g.pn(p.i()));
proof { g.laws(); }
--- loop 0
invariant __it0.ok(), g == *graph, g.gok(), self.bok(g), boundary_ports@ == self.bset(), nf == (|p: PortIndex| NodeIndex::mk(g.pn(p.i()))),
    __out.rest() + drf(__it0.rest()).map_values(nf) =~= boundary_ports.seq().map_values(nf),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> self.bset().contains(*__it0.rest()[k]),
ensures __it0.rest().len() == 0,
decreases __it0.rest().len(),
--- hint before loop0
proof { boundary_ports.axioms(); assert forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() implies self.bset().contains(*__it0.rest()[k]) by { assert(drf(__it0.rest())[k] == boundary_ports.seq()[k]); assert(boundary_ports.seq().contains(boundary_ports.seq()[k])); } }
--- hint loop0.start
proof { if __it0.rest().len() > 0 { let p = *__it0.rest()[0]; assert(self.bset().contains(p)); let k = choose|k: int| 0 <= k < self.ports_().len() && self.ports_()[k] == p; assert(self.ports_()[k] == p); assert(drf(__it0.rest())[0] == p); } }
--- hint after loop0
proof {
    boundary_ports.axioms();
    let s = boundary_ports.seq();
    assert(__out.rest() =~= s.map_values(nf));
    assert forall|y: NodeIndex| #![trigger __out.rest().to_set().contains(y)] __out.rest().to_set().contains(y) implies y.wf() && bseed(g, b, y.i()) by {
        let k = choose|k: int| 0 <= k < __out.rest().len() && __out.rest()[k] == y;
        let p = s[k];
        assert(s.contains(p) && b.contains(p));
        let j = choose|j: int| 0 <= j < self.ports_().len() && self.ports_()[j] == p;
        assert(self.ports_()[j] == p && g.hn(g.pn(p.i())));
    }
    assert forall|p: PortIndex| #![trigger b.contains(p)] b.contains(p) implies __out.rest().to_set().contains(NodeIndex::mk(g.pn(p.i()))) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == p;
        assert(__out.rest()[k] == nf(p));
    }
}
--- hint before if#0
let ghost t1 = nodes_to_process@;
--- hint before loop1
let ghost t0 = visited@;
proof {
    if t1 == Set::<NodeIndex>::empty() {
        assert forall|p: PortIndex| !b.contains(p) by { if b.contains(p) { assert(t1.contains(NodeIndex::mk(g.pn(p.i())))); } }
        assert(b =~= Set::<PortIndex>::empty());
    }
    assert forall|y: int| #![trigger bseed(g, b, y)] y >= 0 && bseed(g, b, y) implies t0.contains(NodeIndex::mk(y)) by {
        if b == Set::<PortIndex>::empty() { } else { let p = choose|p: PortIndex| #[trigger] b.contains(p) && g.pn(p.i()) == y; assert(b.contains(p)); }
    }
    assert forall|x: NodeIndex| #![trigger t0.contains(x)] t0.contains(x) implies x.wf() && inner(g, b, x.i()) by { assert(bseed(g, b, x.i())); assert(breach(g, b, x.i(), 0)); }
}
--- loop 1
invariant
    g == *graph, g.gok(), b == self.bset(), boundary_ports@ == b,
    forall|x: NodeIndex| #![trigger visited@.contains(x)] visited@.contains(x) ==> x.wf() && inner(g, b, x.i()),
    forall|x: NodeIndex| #![trigger nodes_to_process@.contains(x)] nodes_to_process@.contains(x) ==> visited@.contains(x),
    __succ matches Some(x) ==> visited@.contains(x) && !nodes_to_process@.contains(x) && !__out.rest().contains(x),
    __out.rest().no_duplicates(),
    forall|k: int| #![trigger __out.rest()[k]] 0 <= k < __out.rest().len() ==> visited@.contains(__out.rest()[k]) && !nodes_to_process@.contains(__out.rest()[k]),
    forall|x: NodeIndex| #![trigger visited@.contains(x)] visited@.contains(x) ==> __out.rest().contains(x) || nodes_to_process@.contains(x) || __succ == Some(x),
    __succ is None ==> nodes_to_process@ == Set::<NodeIndex>::empty(),
    forall|y: int| #![trigger bseed(g, b, y)] y >= 0 && bseed(g, b, y) ==> visited@.contains(NodeIndex::mk(y)),
    forall|k: int, z: int| #![trigger bedge(g, b, __out.rest()[k].i(), z)] 0 <= k < __out.rest().len() && z >= 0 && bedge(g, b, __out.rest()[k].i(), z) ==> visited@.contains(NodeIndex::mk(z)),
ensures __succ is None,
decreases top() + 2 - __out.rest().len(),
--- hint loop1.start
let ghost out0 = __out.rest();
--- hint before loop2
let ghost la = g.la(node.i());
proof { g.laws(); assert(__out.rest() == out0.push(node));
    assert(__out.rest()[out0.len() as int] == node);
    assert forall|x: NodeIndex| #![trigger __out.rest().contains(x)] out0.contains(x) implies __out.rest().contains(x) by { let k = choose|k: int| 0 <= k < out0.len() && out0[k] == x; assert(__out.rest()[k] == x); }
    assert forall|x: NodeIndex| #![trigger visited@.contains(x)] visited@.contains(x) implies __out.rest().contains(x) || nodes_to_process@.contains(x) by { if out0.contains(x) { assert(__out.rest().contains(x)); } }
}
--- loop 2
invariant
    __it2.ok(), g == *graph, g.gok(), b == self.bset(), boundary_ports@ == b, la == g.la(node.i()), lok(g, la), node.wf(), inner(g, b, node.i()),
    __it2.rest().len() <= la.len(), __it2.rest() =~= la.skip(la.len() - __it2.rest().len()),
    forall|x: NodeIndex| #![trigger visited@.contains(x)] visited@.contains(x) ==> x.wf() && inner(g, b, x.i()),
    forall|x: NodeIndex| #![trigger nodes_to_process@.contains(x)] nodes_to_process@.contains(x) ==> visited@.contains(x),
    __out.rest() == out0.push(node),
    __out.rest().no_duplicates(),
    forall|k: int| #![trigger __out.rest()[k]] 0 <= k < __out.rest().len() ==> visited@.contains(__out.rest()[k]) && !nodes_to_process@.contains(__out.rest()[k]),
    forall|x: NodeIndex| #![trigger visited@.contains(x)] visited@.contains(x) ==> __out.rest().contains(x) || nodes_to_process@.contains(x),
    forall|y: int| #![trigger bseed(g, b, y)] y >= 0 && bseed(g, b, y) ==> visited@.contains(NodeIndex::mk(y)),
    forall|k: int, z: int| #![trigger bedge(g, b, out0[k].i(), z)] 0 <= k < out0.len() && z >= 0 && bedge(g, b, out0[k].i(), z) ==> visited@.contains(NodeIndex::mk(z)),
    forall|j: int| #![trigger la[j]] 0 <= j < la.len() - __it2.rest().len() && bcross(g, b, la[j]) >= 0 ==> visited@.contains(NodeIndex::mk(bcross(g, b, la[j]))),
ensures __it2.rest().len() == 0,
decreases __it2.rest().len(),
--- hint loop2.start
let ghost j0 = la.len() - __it2.rest().len() - 1;
proof { g.laws(); { assert((port, other_port) == la[j0]); if bcross(g, b, la[j0]) >= 0 { assert(bedge(g, b, node.i(), bcross(g, b, la[j0]))); lemma_step(g, b, node.i(), bcross(g, b, la[j0])); } } }
--- hint after loop2
proof {
    assert forall|k: int, z: int| #![trigger bedge(g, b, __out.rest()[k].i(), z)] 0 <= k < __out.rest().len() && z >= 0 && bedge(g, b, __out.rest()[k].i(), z) implies visited@.contains(NodeIndex::mk(z)) by {
        if k < out0.len() { assert(__out.rest()[k] == out0[k]); assert(bedge(g, b, out0[k].i(), z)); }
        else { let j = choose|j: int| 0 <= j < la.len() && bcross(g, b, #[trigger] la[j]) == z; }
    }
    assert forall|k: int| #![trigger __out.rest()[k]] 0 <= k < __out.rest().len() implies __out.rest()[k].wf() by { assert(visited@.contains(__out.rest()[k])); }
    lemma_distinct(__out.rest());
}
--- hint after loop1
proof {
    assert forall|x: int| #![trigger inner(g, b, x)] x >= 0 && inner(g, b, x) implies __out.rest().contains(NodeIndex::mk(x)) by {
        let k = choose|k: nat| #[trigger] breach(g, b, x, k);
        assert forall|y: int, z: int| #![trigger bedge(g, b, y, z)] y >= 0 && NodeIndex::mk(y).i() == y && z >= 0 && visited@.contains(NodeIndex::mk(y)) && bedge(g, b, y, z) implies visited@.contains(NodeIndex::mk(z)) by {
            let n = NodeIndex::mk(y);
            let j = choose|j: int| 0 <= j < __out.rest().len() && __out.rest()[j] == n;
            assert(bedge(g, b, __out.rest()[j].i(), z));
        }
        lemma_inner(g, b, visited@, x, k);
    }
}
=== fn boundary Boundary::from_ports rettype=Self ptype:graph=&impl+VView ptype:ports=impl+VIntoIter<It=VIt<PortIndex>>
--- spec
requires graph.gok(), ports.iok(), forall|k: int| #![trigger ports.irest()[k]] 0 <= k < ports.irest().len() ==> ports.irest()[k].wf() && graph.pn(ports.irest()[k].i()) >= 0,
ensures
    r.inputs@ == keep(ports.irest(), |p: PortIndex| graph.pdn(p.i()) == Direction::Incoming),
    r.outputs@ == keep(ports.irest(), |p: PortIndex| graph.pdn(p.i()) == Direction::Outgoing),
--- hint start
let ghost s = ports.irest();
let ghost fi = |p: PortIndex| graph.pdn(p.i()) == Direction::Incoming;
let ghost fo = |p: PortIndex| graph.pdn(p.i()) == Direction::Outgoing;
--- loop 0
invariant __it0.ok(), inputs@ + keep(__it0.rest(), fi) =~= keep(s, fi), outputs@ + keep(__it0.rest(), fo) =~= keep(s, fo),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf() && graph.pn(__it0.rest()[k].i()) >= 0,
decreases __it0.rest().len(),
=== fn boundary Boundary::find_port
--- spec
requires self.side(direction).contains(port),
ensures r.direction == direction, r.index < self.side(direction).len(), self.side(direction)[r.index as int] == port,
--- hint start
let ghost s = self.side(direction);
proof { assert(self.inputs@.len() == self.inputs.len() && self.outputs@.len() == self.outputs.len()); }
--- loop 0
invariant_except_break __pos is None, __at + __it0.rest().len() == s.len(),
invariant __it0.ok(), drf(__it0.rest()) =~= s.skip(s.len() - __it0.rest().len()),
    __pos is None ==> forall|k: int| #![trigger s[k]] 0 <= k < s.len() - __it0.rest().len() ==> s[k] != port,
    match __pos { Some(x) => x < s.len() && s[x as int] == port, None => true },
ensures __pos is None ==> __it0.rest().len() == 0,
decreases __it0.rest().len(),
--- hint loop0.start
proof { let k = s.len() - __it0.rest().len() - 1; assert(s.skip(k)[0] == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(drf(__it0.rest()).len() == __it0.rest().len()); }
=== fn boundary Boundary::ports rettype=VList<BoundaryPort>
--- spec
ensures r.rest() =~= Seq::new(self.side(dir).len(), |k: int| BoundaryPort { index: k as usize, direction: dir }),
--- hint start
let ghost s = Seq::new(self.side(dir).len(), |k: int| BoundaryPort { index: k as usize, direction: dir });
--- loop 0
invariant __it0.ok(), __it0.rest().len() + __out.rest().len() == s.len(), __out.rest() =~= s.take(__out.rest().len() as int),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k] == k + __out.rest().len(),
decreases __it0.rest().len(),
=== fn boundary Boundary::inputs rettype=VList<BoundaryPort>
--- spec
ensures r.rest() =~= Seq::new(self.inputs@.len(), |k: int| BoundaryPort { index: k as usize, direction: Direction::Incoming }),
=== fn boundary Boundary::outputs rettype=VList<BoundaryPort>
--- spec
ensures r.rest() =~= Seq::new(self.outputs@.len(), |k: int| BoundaryPort { index: k as usize, direction: Direction::Outgoing }),
=== fn boundary Boundary::port_index
--- spec
requires port.index < self.side(port.direction).len(),
ensures r == self.side(port.direction)[port.index as int],
=== fn boundary Boundary::is_compatible
--- spec
ensures r == (self.inputs@.len() == other.inputs@.len() && self.outputs@.len() == other.outputs@.len()),
=== raw port_order
impl<K: Copy> HashSet<K> {
    /// The elements, in the order in which they are iterated.
    pub uninterp spec fn seq(&self) -> Seq<K>;
    #[verifier::external_body]
    pub proof fn axioms(&self) ensures self.seq().no_duplicates(), forall|x: K| #![trigger self.has(x)] #![trigger self.seq().contains(x)] self.seq().contains(x) == self.has(x) { unimplemented!() }
}
impl<K: Copy> VRefs<K> for HashSet<K> {
    open spec fn refs(&self) -> Seq<K> { self.seq() }
    #[verifier::external_body]
    fn v_refs(&self) -> (r: VIt<&K>) { unimplemented!() }
}
=== type boundary PortOrdering derive=none
=== raw order_spec
pub open spec fn bpi(i: int) -> BoundaryPort { BoundaryPort { index: i as usize, direction: Direction::Incoming } }
pub open spec fn bpo(i: int) -> BoundaryPort { BoundaryPort { index: i as usize, direction: Direction::Outgoing } }
impl PortOrdering {
    /// (input i, output o) is in the relation.
    pub open spec fn rel(self, i: int, o: int) -> bool { 0 <= i < self.reachable@.len() && 0 <= o < self.reaching@.len() && self.reachable@[i].has(bpo(o)) }
    /// The two sides record the same relation.
    pub open spec fn wf(self) -> bool {
        &&& forall|i: int, p: BoundaryPort| #![trigger self.reachable@[i].has(p)] 0 <= i < self.reachable@.len() && self.reachable@[i].has(p) ==> p.direction == Direction::Outgoing && p.index < self.reaching@.len()
        &&& forall|o: int, p: BoundaryPort| #![trigger self.reaching@[o].has(p)] 0 <= o < self.reaching@.len() && self.reaching@[o].has(p) ==> p.direction == Direction::Incoming && p.index < self.reachable@.len()
        &&& forall|i: int, o: int| #![trigger self.reachable@[i].has(bpo(o))] #![trigger self.reaching@[o].has(bpi(i))] 0 <= i < self.reachable@.len() && 0 <= o < self.reaching@.len() ==> self.reachable@[i].has(bpo(o)) == self.reaching@[o].has(bpi(i))
    }
    pub open spec fn fits(self, o: PortOrdering) -> bool { self.reachable@.len() == o.reachable@.len() && self.reaching@.len() == o.reaching@.len() }
}
=== fn boundary PortOrdering::index on=PortOrdering
--- spec
ensures r == port.index,
=== fn boundary PortOrdering::reachable_ports on=PortOrdering
--- spec
requires port.direction == Direction::Incoming, port.index < self.reachable@.len(),
ensures *r == self.reachable@[port.index as int],
=== fn boundary PortOrdering::reaching_ports on=PortOrdering
--- spec
requires port.direction == Direction::Outgoing, port.index < self.reaching@.len(),
ensures *r == self.reaching@[port.index as int],
=== fn boundary PortOrdering::add_order on=PortOrdering
--- spec
requires old(self).wf(), from.direction == Direction::Incoming, to.direction == Direction::Outgoing, from.index < old(self).reachable@.len(), to.index < old(self).reaching@.len(),
ensures
    final(self).wf(), final(self).fits(*old(self)),
    forall|i: int, o: int| #![trigger final(self).rel(i, o)] final(self).rel(i, o) == (old(self).rel(i, o) || i == from.index && o == to.index),
--- hint start
proof { assert(self.reachable@.len() == self.reachable.len() && self.reaching@.len() == self.reaching.len()); }
=== fn boundary PortOrdering::is_stronger_than on=PortOrdering
--- spec
requires self.wf(), other.wf(), self.fits(*other),
ensures r == (forall|i: int, o: int| #![trigger other.rel(i, o)] other.rel(i, o) ==> self.rel(i, o)),
--- hint start
let ghost n = self.reachable@.len();
proof { assert(self.reachable@.len() == self.reachable.len() && self.reaching@.len() == self.reaching.len()); }
--- loop 0
invariant __it0.ok(), __it0.rest().len() <= n, forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> *__it0.rest()[k].0 == self.reachable@[n - __it0.rest().len() + k] && *__it0.rest()[k].1 == other.reachable@[n - __it0.rest().len() + k],
    forall|i: int, o: int| #![trigger other.rel(i, o)] i < n - __it0.rest().len() && other.rel(i, o) ==> self.rel(i, o),
decreases __it0.rest().len(),
--- hint before loop0
proof {
    assert forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() implies *__it0.rest()[k].0 == self.reachable@[k] && *__it0.rest()[k].1 == other.reachable@[k] by { }
}
--- hint loop0.start
let ghost i0 = n - __it0.rest().len() - 1;
let ghost s = other_reachable.seq();
proof { other_reachable.axioms(); }
--- loop 1
invariant_except_break !__any,
invariant __it1.ok(), __it1.rest().len() <= s.len(), drf(__it1.rest()) =~= s.skip(s.len() - __it1.rest().len()),
    !__any ==> forall|k: int| #![trigger s[k]] 0 <= k < s.len() - __it1.rest().len() ==> self_reachable.has(s[k]),
    __any ==> exists|k: int| 0 <= k < s.len() && !self_reachable.has(#[trigger] s[k]),
ensures !__any ==> __it1.rest().len() == 0,
decreases __it1.rest().len(),
--- hint loop1.start
proof { let k = s.len() - __it1.rest().len() - 1; assert(s.skip(k)[0] == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(drf(__it1.rest()).len() == __it1.rest().len()); }
--- hint before return#0
proof {
    let k = choose|k: int| 0 <= k < s.len() && !self_reachable.has(#[trigger] s[k]);
    let p = s[k];
    assert(s.contains(p));
    assert(other.reachable@[i0].has(p));
    assert(p == bpo(p.index as int));
    assert(other.rel(i0, p.index as int) && !self.rel(i0, p.index as int));
}
--- hint loop0.end
proof { assert forall|i: int, o: int| #![trigger other.rel(i, o)] i < n - __it0.rest().len() && other.rel(i, o) implies self.rel(i, o) by { if i == i0 { assert(s.contains(bpo(o))); } } }
=== raw vec_sets
/// What a clone has in common with the value.
pub trait VRep: Sized { spec fn same_as(self, o: Self) -> bool; }
impl<K: Copy> VRep for HashSet<K> { open spec fn same_as(self, o: Self) -> bool { self.same(o) } }
/// `vec![x; n]`
#[verifier::external_body]
pub fn v_vec_of<T: VRep>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|k: int| #![trigger r@[k]] 0 <= k < n ==> r@[k].same_as(x) { unimplemented!() }
=== fn boundary PortOrdering::new on=PortOrdering
--- spec
ensures r.wf(), r.reachable@.len() == num_inputs, r.reaching@.len() == num_outputs, forall|i: int, o: int| #![trigger r.rel(i, o)] !r.rel(i, o),
=== fn boundary PortOrdering::missing_pairs on=PortOrdering rettype=VList<(BoundaryPort,BoundaryPort)>
--- spec
requires self.wf(), other.wf(), self.fits(*other),
ensures
    forall|k: int| #![trigger r.rest()[k]] 0 <= k < r.rest().len() ==> r.rest()[k].0 == bpi(r.rest()[k].0.index as int) && r.rest()[k].1 == bpo(r.rest()[k].1.index as int)
        && other.rel(r.rest()[k].0.index as int, r.rest()[k].1.index as int) && !self.rel(r.rest()[k].0.index as int, r.rest()[k].1.index as int),
    forall|i: int, o: int| #![trigger other.rel(i, o)] other.rel(i, o) && !self.rel(i, o) ==> r.rest().contains((bpi(i), bpo(o))),
--- hint start
let ghost n = self.reachable@.len();
let ghost d = |i: int, o: int| other.rel(i, o) && !self.rel(i, o);
proof { assert(self.reachable@.len() == self.reachable.len() && self.reaching@.len() == self.reaching.len()); }
--- hint before loop0
let ghost out_t: Seq<(BoundaryPort, BoundaryPort)> = __out.rest();
--- loop 0
invariant __it0.ok(), __it0.rest().len() <= n,
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].0 == n - __it0.rest().len() + k && *__it0.rest()[k].1.0 == self.reachable@[n - __it0.rest().len() + k] && *__it0.rest()[k].1.1 == other.reachable@[n - __it0.rest().len() + k],
    forall|k: int| #![trigger __out.rest()[k]] 0 <= k < __out.rest().len() ==> __out.rest()[k].0 == bpi(__out.rest()[k].0.index as int) && __out.rest()[k].1 == bpo(__out.rest()[k].1.index as int)
        && other.rel(__out.rest()[k].0.index as int, __out.rest()[k].1.index as int) && !self.rel(__out.rest()[k].0.index as int, __out.rest()[k].1.index as int),
    forall|i: int, o: int| #![trigger other.rel(i, o)] i < n - __it0.rest().len() && other.rel(i, o) && !self.rel(i, o) ==> __out.rest().contains((bpi(i), bpo(o))),
decreases __it0.rest().len(),
--- hint loop0.start
let ghost i0 = n - __it0.rest().len() - 1;
let ghost s = other.reachable@[i0].seq();
proof { other.reachable@[i0].axioms(); }
--- loop 1
invariant __it1.ok(), __it1.rest().len() <= s.len(), drf(__it1.rest()) =~= s.skip(s.len() - __it1.rest().len()), input == bpi(i0), *self_reachable == self.reachable@[i0], *other_reachable == other.reachable@[i0],
    forall|k: int| #![trigger __out.rest()[k]] 0 <= k < __out.rest().len() ==> __out.rest()[k].0 == bpi(__out.rest()[k].0.index as int) && __out.rest()[k].1 == bpo(__out.rest()[k].1.index as int)
        && other.rel(__out.rest()[k].0.index as int, __out.rest()[k].1.index as int) && !self.rel(__out.rest()[k].0.index as int, __out.rest()[k].1.index as int),
    forall|i: int, o: int| #![trigger other.rel(i, o)] i < i0 && other.rel(i, o) && !self.rel(i, o) ==> __out.rest().contains((bpi(i), bpo(o))),
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() - __it1.rest().len() && !self_reachable.has(s[k]) ==> __out.rest().contains((bpi(i0), s[k])),
decreases __it1.rest().len(),
--- hint loop1.start
let ghost out0 = __out.rest();
proof {
    let k = s.len() - __it1.rest().len() - 1;
    assert(s.skip(k)[0] == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(drf(__it1.rest()).len() == __it1.rest().len());
    let p = s[k];
    assert(s.contains(p));
    assert(other.reachable@[i0].has(p));
    assert(p == bpo(p.index as int));
    assert(other.rel(i0, p.index as int));
}
--- hint loop1.end
proof {
    assert forall|x: (BoundaryPort, BoundaryPort)| #![trigger __out.rest().contains(x)] out0.contains(x) implies __out.rest().contains(x) by { let k = choose|k: int| 0 <= k < out0.len() && out0[k] == x; assert(__out.rest()[k] == x); }
    let k = s.len() - __it1.rest().len() - 1;
    if !self_reachable.has(s[k]) { assert(__out.rest()[out0.len() as int] == (bpi(i0), s[k])); }
}
--- hint loop0.end
proof {
    assert forall|i: int, o: int| #![trigger other.rel(i, o)] i < n - __it0.rest().len() && other.rel(i, o) && !self.rel(i, o) implies __out.rest().contains((bpi(i), bpo(o))) by {
        if i == i0 { assert(s.contains(bpo(o))); let k = choose|k: int| 0 <= k < s.len() && s[k] == bpo(o); assert(!self.reachable@[i0].has(s[k])); }
    }
}
