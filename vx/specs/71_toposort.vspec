=== default P=A01 impl=<Map:VMapB,G:VTopo> on=TopoSort<G,Map> fnvars=filter,node_filter,port_filter tn:SecondaryMap=VMapB tn:LinkView=VTopo
=== raw topo_traits
/// A secondary map from ports to flags (its contract is S01's: a total map with a default).
pub trait VMapB: Sized {
    spec fn mat(&self, i: int) -> bool;
    spec fn dv(&self) -> bool;
    fn new() -> (r: Self) ensures forall|i: int| #![trigger r.mat(i)] r.mat(i) == r.dv();
    fn default_value(&self) -> (r: bool) ensures r == self.dv();
    fn get(&self, key: PortIndex) -> (r: &bool) requires key.wf(), ensures *r == self.mat(key.i());
    fn set(&mut self, key: PortIndex, val: bool) requires key.wf(), ensures forall|i: int| #![trigger final(self).mat(i)] final(self).mat(i) == (if i == key.i() { val } else { old(self).mat(i) });
}
impl VMapB for BitVec {
    open spec fn mat(&self, i: int) -> bool { self.at(i) }
    open spec fn dv(&self) -> bool { false }
    fn new() -> (r: Self) { BitVec::sm_new() }
    fn default_value(&self) -> (r: bool) { self.sm_default_value() }
    fn get(&self, key: PortIndex) -> (r: &bool) { self.sm_get(key) }
    fn set(&mut self, key: PortIndex, val: bool) { self.sm_set(key, val) }
}
/// Ports p and q are linked.
pub open spec fn lk<G: VView>(g: G, p: int, q: int) -> bool { exists|k: int| 0 <= k < g.lp(p).len() && epi((#[trigger] g.lp(p)[k]).1) == q }
/// The laws of ports and links that a traversal relies on.
pub trait VTopo: VView {
    proof fn tlaws(self)
        requires self.gok(),
        ensures
            forall|p: int| #![trigger self.pn(p)] self.pn(p) >= 0 ==> (exists|k: int| 0 <= k < self.sd(self.pn(p), self.pdn(p)).len() && (#[trigger] self.sd(self.pn(p), self.pdn(p))[k]).i() == p)
                && (exists|k: int| 0 <= k < self.sp().len() && (#[trigger] self.sp()[k]).i() == p) && PortIndex::mk(p).wf() && PortIndex::mk(p).i() == p,
            forall|n: int, d: Direction, j: int, k: int| #![trigger self.sd(n, d)[j], self.sd(n, d)[k]] 0 <= j < k < self.sd(n, d).len() ==> self.sd(n, d)[j] != self.sd(n, d)[k],
            forall|p: int, q: int| #![trigger lk(self, p, q)] lk(self, p, q) ==> self.pn(p) >= 0 && self.pn(q) >= 0 && lk(self, q, p) && self.pdn(q) == rev_dir(self.pdn(p)),
    ;
    fn port_link(&self, port: PortIndex) -> (r: Option<Self::LinkEndpoint>) requires self.gok(), port.wf(), self.pn(port.i()) >= 0, ensures r.is_none() == (self.lp(port.i()).len() == 0);
    fn num_ports(&self, node: NodeIndex, direction: Direction) -> (r: usize) requires self.gok(), node.wf(), ensures r == self.sd(node.i(), direction).len();
}
proof fn lemma_pg_topo(g: PortGraph)
    requires g.wf(),
    ensures
        forall|p: int| #![trigger ppn(g, p)] ppn(g, p) >= 0 ==> (exists|k: int| 0 <= k < g.dports(ppn(g, p), g.pdir(p)).len() && (#[trigger] g.dports(ppn(g, p), g.pdir(p))[k]).i() == p)
            && (exists|k: int| 0 <= k < g.ports_().len() && (#[trigger] g.ports_()[k]).i() == p) && PortIndex::mk(p).wf() && PortIndex::mk(p).i() == p,
        forall|n: int, d: Direction, j: int, k: int| #![trigger g.dports(n, d)[j], g.dports(n, d)[k]] 0 <= j < k < g.dports(n, d).len() ==> g.dports(n, d)[j] != g.dports(n, d)[k],
        forall|p: int, q: int| #![trigger lk(g, p, q)] lk(g, p, q) ==> ppn(g, p) >= 0 && ppn(g, q) >= 0 && lk(g, q, p) && g.pdir(q) == rev_dir(g.pdir(p)),
{
    lemma_pg_laws(g);
    lemma_sym(g);
    assert(g.node_meta@.len() <= max_ix() + 1 && g.port_meta@.len() <= max_ix() + 1) by { reveal(nodes_ok); reveal(ports_ok); }
    theorem_ports(g.port_meta@, 0, g.port_meta@.len() as int);
    assert forall|p: int| #![trigger ppn(g, p)] ppn(g, p) >= 0 implies (exists|k: int| 0 <= k < g.dports(ppn(g, p), g.pdir(p)).len() && (#[trigger] g.dports(ppn(g, p), g.pdir(p))[k]).i() == p)
            && (exists|k: int| 0 <= k < g.ports_().len() && (#[trigger] g.ports_()[k]).i() == p) && PortIndex::mk(p).wf() && PortIndex::mk(p).i() == p by {
        lemma_port(g, p);
        let s = g.dports(ppn(g, p), g.pdir(p));
        let k = p - g.m(g.pnode(p)).at(g.pdir(p));
        assert(PortIndex::mk(p).wf() && PortIndex::mk(p).i() == p);
        assert(s[k] == PortIndex::mk(p));
        let r = g.ports_();
        assert(r.contains(PortIndex::mk(p)));
        let j = choose|j: int| 0 <= j < r.len() && r[j] == PortIndex::mk(p);
        assert(r[j].i() == p);
    }
    assert forall|n: int, d: Direction, j: int, k: int| #![trigger g.dports(n, d)[j], g.dports(n, d)[k]] 0 <= j < k < g.dports(n, d).len() implies g.dports(n, d)[j] != g.dports(n, d)[k] by { lemma_pg_dist(g, n, d, j, k); }
    assert forall|p: int, q: int| #![trigger lk(g, p, q)] lk(g, p, q) implies ppn(g, p) >= 0 && ppn(g, q) >= 0 && lk(g, q, p) && g.pdir(q) == rev_dir(g.pdir(p)) by {
        let k = choose|k: int| 0 <= k < g.lp(p).len() && epi((#[trigger] g.lp(p)[k]).1) == q;
        assert(g.has_port(p) && g.link(p) >= 0);
        lemma_port(g, g.link(p)); lemma_port(g, p);
        assert(q == g.link(p));
        assert(g.link(q) == p);
        assert(ppl(g, q).len() == 1);
        assert(epi(g.lp(q)[0].1) == p);
    }
}
proof fn lemma_pg_dist(g: PortGraph, n: int, d: Direction, j: int, k: int)
    requires g.wf(), 0 <= j < k < g.dports(n, d).len(),
    ensures g.dports(n, d)[j] != g.dports(n, d)[k],
{
    lemma_node(g, n);
    assert(g.port_id(n, d, k) == g.m(n).at(d) + k); theorem_index_offset(g, n, d, k, -1); lemma_port(g, g.port_id(n, d, k));
    assert(g.port_id(n, d, j) == g.m(n).at(d) + j); theorem_index_offset(g, n, d, j, -1); lemma_port(g, g.port_id(n, d, j));
    assert(g.dports(n, d)[k].i() == g.m(n).at(d) + k);
    assert(g.dports(n, d)[j].i() == g.m(n).at(d) + j);
}
impl VTopo for PortGraph {
    proof fn tlaws(self) {
        lemma_pg_topo(self);
        assert forall|p: int| #![trigger self.pn(p)] self.pn(p) >= 0 implies (exists|k: int| 0 <= k < self.sd(self.pn(p), self.pdn(p)).len() && (#[trigger] self.sd(self.pn(p), self.pdn(p))[k]).i() == p)
                && (exists|k: int| 0 <= k < self.sp().len() && (#[trigger] self.sp()[k]).i() == p) && PortIndex::mk(p).wf() && PortIndex::mk(p).i() == p by {
            assert(self.pn(p) == ppn(self, p));
            let k = choose|k: int| 0 <= k < self.dports(ppn(self, p), self.pdir(p)).len() && (#[trigger] self.dports(ppn(self, p), self.pdir(p))[k]).i() == p;
            assert(self.sd(self.pn(p), self.pdn(p))[k].i() == p);
            let j = choose|k: int| 0 <= k < self.ports_().len() && (#[trigger] self.ports_()[k]).i() == p;
            assert(self.sp()[j].i() == p);
        }
        assert forall|n: int, d: Direction, j: int, k: int| #![trigger self.sd(n, d)[j], self.sd(n, d)[k]] 0 <= j < k < self.sd(n, d).len() implies self.sd(n, d)[j] != self.sd(n, d)[k] by { assert(self.dports(n, d)[j] != self.dports(n, d)[k]); }
        assert forall|p: int, q: int| #![trigger lk(self, p, q)] lk(self, p, q) implies self.pn(p) >= 0 && self.pn(q) >= 0 && lk(self, q, p) && self.pdn(q) == rev_dir(self.pdn(p)) by { assert(ppn(self, p) >= 0 && ppn(self, q) >= 0); }
    }
    fn port_link(&self, port: PortIndex) -> (r: Option<PortIndex>) { self.port_link(port) }
    fn num_ports(&self, node: NodeIndex, direction: Direction) -> (r: usize) { self.num_ports(node, direction) }
}
/// `SmallVec`: a vector of ports.
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct SmallVec<A> { x: std::marker::PhantomData<A> }
impl<A> SmallVec<A> { pub uninterp spec fn s(self) -> Seq<PortIndex>; }
impl VFromIter<PortIndex> for SmallVec<[PortIndex; 2]> {
    open spec fn made(self, s: Seq<PortIndex>) -> bool { self.s() == s }
    #[verifier::external_body]
    fn v_from(l: VIt<PortIndex>) -> (r: Self) { unimplemented!() }
}
impl VIntoIter for SmallVec<[PortIndex; 2]> {
    type It = VIt<PortIndex>;
    open spec fn iok(self) -> bool { true }
    open spec fn irest(self) -> Seq<PortIndex> { self.s() }
    open spec fn ieq(self, r: VIt<PortIndex>) -> bool { true }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIt<PortIndex>) { unimplemented!() }
}
=== raw topo_queue
impl<T> VFromIter<T> for VecDeque<T> {
    open spec fn made(self, s: Seq<T>) -> bool { self.q() == s }
    #[verifier::external_body]
    fn v_from(l: VIt<T>) -> (r: Self) { unimplemented!() }
}
impl<T> VRefs<T> for VecDeque<T> {
    open spec fn refs(&self) -> Seq<T> { self.q() }
    #[verifier::external_body]
    fn v_refs(&self) -> (r: VIt<&T>) { unimplemented!() }
}
=== type algorithms::toposort TopoSort derive=none
=== raw topo_spec
impl<Map: VMapB, G: VTopo> TopoSort<G, Map> {
    pub open spec fn same(self, o: Self) -> bool { self.graph == o.graph && self.direction == o.direction && fn1(self.node_filter) == fn1(o.node_filter) && fn2(self.port_filter) == fn2(o.port_filter) }
    pub open spec fn vp(self, p: int) -> bool { self.visited_ports.mat(p) }
    pub open spec fn rd(self) -> Direction { rev_dir(self.direction) }
    pub open spec fn nacc(self, n: int) -> bool { fn1(self.node_filter)(NodeIndex::mk(n)) }
    pub open spec fn acc(self, p: int) -> bool { fn2(self.port_filter)(NodeIndex::mk(self.graph.pn(p)), PortIndex::mk(p)) }
    /// q is a port through which n is reached.
    pub open spec fn inp(self, n: int, q: int) -> bool { n >= 0 && self.graph.pn(q) == n && self.graph.pdn(q) == self.rd() }
    pub open spec fn linked(self, q: int) -> bool { exists|p: int| #[trigger] lk(self.graph, q, p) }
    /// An accepted link arrives at port q of node n.
    pub open spec fn aq(self, n: int, q: int) -> bool { self.inp(n, q) && self.acc(q) && self.linked(q) }
    /// All links at q were traversed.
    pub open spec fn allv(self, q: int) -> bool { forall|p: int| #![trigger lk(self.graph, q, p)] lk(self.graph, q, p) ==> self.vp(p) }
    /// A filter accepts or rejects a link at both of its ports alike.
    pub open spec fn cons(self) -> bool { forall|p: int, q: int| #![trigger lk(self.graph, p, q)] lk(self.graph, p, q) ==> self.acc(p) == self.acc(q) }
    pub open spec fn qd(self, n: int) -> bool { exists|k: int| 0 <= k < self.candidate_nodes.q().len() && (#[trigger] self.candidate_nodes.q()[k]).i() == n }
    pub open spec fn isin(self, y: ISet<int>, n: int) -> bool { y.contains(n) || self.qd(n) }
    /// Node n has accepted links to it, all of them from nodes of y.
    pub open spec fn rdy(self, n: int, y: ISet<int>) -> bool {
        (exists|q: int| #[trigger] self.aq(n, q)) && forall|q: int, p: int| #![trigger self.aq(n, q), lk(self.graph, q, p)] self.aq(n, q) && lk(self.graph, q, p) ==> y.contains(self.graph.pn(p))
    }
    /// The ports that leave nodes of y are visited, except those of rem.
    pub open spec fn k0(self, y: ISet<int>, rem: ISet<int>) -> bool { forall|p: int| #![trigger self.vp(p)] self.graph.pn(p) >= 0 && self.graph.pdn(p) == self.direction ==> self.vp(p) == (y.contains(self.graph.pn(p)) && !rem.contains(p)) }
    pub open spec fn k1(self, y: ISet<int>) -> bool { forall|n: int, q: int| #![trigger self.inp(n, q)] self.isin(y, n) && self.inp(n, q) ==> self.vp(q) }
    pub open spec fn k2(self, y: ISet<int>) -> bool { forall|n: int, q: int| #![trigger self.aq(n, q)] !self.isin(y, n) && self.aq(n, q) && self.vp(q) ==> self.allv(q) }
    pub open spec fn k3(self, y: ISet<int>, x: ISet<int>) -> bool { forall|n: int, q: int| #![trigger self.aq(n, q)] !self.isin(y, n) && self.aq(n, q) && self.allv(q) && !x.contains(q) ==> self.vp(q) }
    pub open spec fn k4(self, y: ISet<int>) -> bool { forall|n: int, q: int| #![trigger self.inp(n, q)] !self.isin(y, n) && self.nacc(n) && self.inp(n, q) && (self.aq(n, q) || self.vp(q)) ==> exists|q2: int| #[trigger] self.aq(n, q2) && !self.vp(q2) }
    pub open spec fn k5(self, y: ISet<int>) -> bool {
        let s = self.candidate_nodes.q();
        &&& forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].wf() && self.graph.hn(s[k].i()) && self.nacc(s[k].i()) && !y.contains(s[k].i())
        &&& forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < k < s.len() ==> s[j].i() != s[k].i()
    }
    pub open spec fn k6(self, y: ISet<int>, src: ISet<int>) -> bool { forall|k: int| #![trigger self.candidate_nodes.q()[k]] 0 <= k < self.candidate_nodes.q().len() ==> src.contains(self.candidate_nodes.q()[k].i()) || self.rdy(self.candidate_nodes.q()[k].i(), y) }
    pub open spec fn inv_(self, y: ISet<int>, src: ISet<int>, rem: ISet<int>, x: ISet<int>) -> bool { tinv(self, y, src, rem, x) }
    /// y was yielded so far, from the sources src.
    pub open spec fn inv(self, y: ISet<int>, src: ISet<int>) -> bool { self.inv_(y, src, ISet::empty(), ISet::empty()) }
}
#[verifier::opaque]
pub open spec fn tinv<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, rem: ISet<int>, x: ISet<int>) -> bool {
    &&& s.graph.gok() && s.cons()
    &&& s.k0(y, rem) && s.k1(y) && s.k2(y) && s.k3(y, x) && s.k4(y) && s.k5(y) && s.k6(y, src)
}
proof fn lemma_parts<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, rem: ISet<int>, x: ISet<int>)
    requires s.inv_(y, src, rem, x),
    ensures
        s.graph.gok(), s.cons(),
        s.candidate_nodes.q().len() > 0 ==> ({ let n = s.candidate_nodes.q()[0]; n.wf() && s.graph.hn(n.i()) && s.nacc(n.i()) && !y.contains(n.i()) && (src.contains(n.i()) || s.rdy(n.i(), y)) }),
{
    reveal(tinv);
    if s.candidate_nodes.q().len() > 0 { assert(s.candidate_nodes.q()[0].wf()); assert(src.contains(s.candidate_nodes.q()[0].i()) || s.rdy(s.candidate_nodes.q()[0].i(), y)); }
}
/// When nothing is left, every accepted node reached by accepted links, all from yielded nodes, was yielded.
proof fn theorem_topo_complete<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, n: int)
    requires s.inv(y, src), s.candidate_nodes.q().len() == 0, s.nacc(n), s.rdy(n, y),
    ensures y.contains(n),
{
    reveal(tinv);
    s.graph.tlaws();
    assert(!s.qd(n));
    if !y.contains(n) {
        let q0 = choose|q: int| #[trigger] s.aq(n, q);
        assert(s.inp(n, q0));
        let q = choose|q2: int| #[trigger] s.aq(n, q2) && !s.vp(q2);
        assert(!s.allv(q));
        let p = choose|p: int| #[trigger] lk(s.graph, q, p) && !s.vp(p);
        assert(y.contains(s.graph.pn(p)));
    }
}
/// `b` starts with `a`.
pub open spec fn ext(a: Seq<NodeIndex>, b: Seq<NodeIndex>) -> bool { b.len() >= a.len() && b.take(a.len() as int) == a }
pub open spec fn lk_some<G: VView>(g: G, p: int) -> bool { g.lp(p).len() > 0 && lk(g, p, epi(g.lp(p)[0].1)) }
proof fn lemma_same<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>)
    requires t.same(s),
    ensures
        forall|n: int, q: int| #![trigger t.inp(n, q)] #![trigger s.inp(n, q)] t.inp(n, q) == s.inp(n, q),
        forall|n: int, q: int| #![trigger t.aq(n, q)] #![trigger s.aq(n, q)] t.aq(n, q) == s.aq(n, q),
        forall|n: int| #![trigger t.nacc(n)] #![trigger s.nacc(n)] t.nacc(n) == s.nacc(n),
        forall|n: int| #![trigger t.acc(n)] #![trigger s.acc(n)] t.acc(n) == s.acc(n),
        forall|n: int| #![trigger t.linked(n)] #![trigger s.linked(n)] t.linked(n) == s.linked(n),
        forall|n: int, y: ISet<int>| #![trigger t.rdy(n, y)] #![trigger s.rdy(n, y)] t.rdy(n, y) == s.rdy(n, y),
        t.cons() == s.cons(), t.rd() == s.rd(),
{
    assert forall|n: int, q: int| #![trigger t.inp(n, q)] #![trigger s.inp(n, q)] t.inp(n, q) == s.inp(n, q) by {}
    assert forall|n: int| #![trigger t.acc(n)] #![trigger s.acc(n)] t.acc(n) == s.acc(n) by {}
    assert forall|n: int| #![trigger t.linked(n)] #![trigger s.linked(n)] t.linked(n) == s.linked(n) by {
        if t.linked(n) { let p = choose|p: int| #[trigger] lk(t.graph, n, p); assert(lk(s.graph, n, p)); }
        if s.linked(n) { let p = choose|p: int| #[trigger] lk(s.graph, n, p); assert(lk(t.graph, n, p)); }
    }
    assert forall|n: int, q: int| #![trigger t.aq(n, q)] #![trigger s.aq(n, q)] t.aq(n, q) == s.aq(n, q) by {}
    assert forall|n: int, y: ISet<int>| #![trigger t.rdy(n, y)] #![trigger s.rdy(n, y)] t.rdy(n, y) == s.rdy(n, y) by {
        if exists|q: int| #[trigger] s.aq(n, q) { let q = choose|q: int| #[trigger] s.aq(n, q); assert(t.aq(n, q)); }
        if exists|q: int| #[trigger] t.aq(n, q) { let q = choose|q: int| #[trigger] t.aq(n, q); assert(s.aq(n, q)); }
        if s.rdy(n, y) { assert(forall|q: int, p: int| #![trigger t.aq(n, q), lk(t.graph, q, p)] t.aq(n, q) && lk(t.graph, q, p) ==> s.aq(n, q) && lk(s.graph, q, p)); }
        if t.rdy(n, y) { assert(forall|q: int, p: int| #![trigger s.aq(n, q), lk(s.graph, q, p)] s.aq(n, q) && lk(s.graph, q, p) ==> t.aq(n, q) && lk(t.graph, q, p)); }
    }
}
/// The first candidate is taken.
proof fn lemma_take<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, rem: ISet<int>)
    requires
        s.inv(y, src), s.candidate_nodes.q().len() > 0, t.same(s), t.candidate_nodes.q() == s.candidate_nodes.q().skip(1), t.visited_ports == s.visited_ports,
        forall|p: int| #![trigger rem.contains(p)] rem.contains(p) == (s.graph.pn(p) == s.candidate_nodes.q()[0].i() && s.graph.pdn(p) == s.direction),
    ensures t.inv_(y.insert(s.candidate_nodes.q()[0].i()), src, rem, ISet::empty()),
{
    reveal(tinv);
    let c = s.candidate_nodes.q()[0].i();
    let z = y.insert(c);
    let (a, b) = (s.candidate_nodes.q(), t.candidate_nodes.q());
    lemma_same(s, t);
    assert(forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> b[k] == a[k + 1]);
    assert(forall|p: int| #![trigger t.vp(p)] t.vp(p) == s.vp(p));
    assert forall|n: int| #![trigger t.isin(z, n)] t.isin(z, n) == s.isin(y, n) by {
        if s.qd(n) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).i() == n; if k > 0 { assert(b[k - 1].i() == n); } }
        if t.qd(n) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).i() == n; assert(a[k + 1].i() == n); }
        assert(s.qd(c)) by { assert(a[0].i() == c); }
    }
    assert forall|q: int| #![trigger t.allv(q)] t.allv(q) == s.allv(q) by { assert(forall|p: int| #![trigger lk(s.graph, q, p)] t.vp(p) == s.vp(p)); }
    assert(t.k0(z, rem));
    assert(t.k1(z)) by { assert forall|n: int, q: int| #![trigger t.inp(n, q)] t.isin(z, n) && t.inp(n, q) implies t.vp(q) by { assert(s.inp(n, q) && s.isin(y, n)); assert(t.vp(q) == s.vp(q)); } }
    assert(t.k2(z));
    assert(t.k3(z, ISet::empty()));
    assert(t.k4(z)) by {
        assert forall|n: int, q: int| #![trigger t.inp(n, q)] !t.isin(z, n) && t.nacc(n) && t.inp(n, q) && (t.aq(n, q) || t.vp(q)) implies exists|q2: int| #[trigger] t.aq(n, q2) && !t.vp(q2) by {
            assert(s.inp(n, q)); assert(s.aq(n, q) == t.aq(n, q)); assert(s.vp(q) == t.vp(q));
            let q2 = choose|q2: int| #[trigger] s.aq(n, q2) && !s.vp(q2);
            assert(t.aq(n, q2) && !t.vp(q2));
        }
    }
    assert(t.k5(z)) by { assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() implies b[k].wf() && t.graph.hn(b[k].i()) && t.nacc(b[k].i()) && !z.contains(b[k].i()) by { assert(a[k + 1].i() != a[0].i()); } }
    assert(t.k6(z, src)) by {
        assert forall|k: int| #![trigger t.candidate_nodes.q()[k]] 0 <= k < b.len() implies src.contains(b[k].i()) || t.rdy(b[k].i(), z) by { assert(b[k] == a[k + 1]); if !src.contains(b[k].i()) { assert(s.rdy(a[k + 1].i(), y)); lemma_rdy(s, b[k].i(), y, z); } }
    }
}
proof fn lemma_rdy<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, n: int, y: ISet<int>, z: ISet<int>)
    requires s.rdy(n, y), forall|i: int| #![trigger z.contains(i)] y.contains(i) ==> z.contains(i),
    ensures s.rdy(n, z),
{
    assert forall|q: int, p: int| #![trigger s.aq(n, q), lk(s.graph, q, p)] s.aq(n, q) && lk(s.graph, q, p) implies z.contains(s.graph.pn(p)) by { assert(y.contains(s.graph.pn(p))); }
}
/// Port p of the node taken is visited; x are the ports linked to it by accepted links.
proof fn lemma_out<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, rem: ISet<int>, p: int, x: ISet<int>)
    requires
        s.inv_(y, src, rem, ISet::empty()), y.contains(s.graph.pn(p)), s.graph.pn(p) >= 0, s.graph.pdn(p) == s.direction, rem.contains(p),
        t.same(s), t.candidate_nodes == s.candidate_nodes, forall|i: int| #![trigger t.vp(i)] t.vp(i) == (s.vp(i) || i == p),
        forall|q: int| #![trigger x.contains(q)] x.contains(q) == (lk(s.graph, p, q) && s.acc(p)),
    ensures t.inv_(y, src, rem.remove(p), x),
{
    reveal(tinv);
    let rem1 = rem.remove(p);
    lemma_same(s, t);
    s.graph.tlaws();
    assert forall|n: int| #![trigger t.isin(y, n)] t.isin(y, n) == s.isin(y, n) by {}
    assert(t.k0(y, rem1)) by { assert forall|i: int| #![trigger t.vp(i)] t.graph.pn(i) >= 0 && t.graph.pdn(i) == t.direction implies t.vp(i) == (y.contains(t.graph.pn(i)) && !rem1.contains(i)) by { assert(s.vp(i) == (y.contains(s.graph.pn(i)) && !rem.contains(i))); } }
    assert(t.k1(y)) by { assert forall|n: int, q: int| #![trigger t.inp(n, q)] t.isin(y, n) && t.inp(n, q) implies t.vp(q) by { assert(s.inp(n, q)); assert(s.vp(q)); } }
    assert(t.k2(y)) by {
        assert forall|n: int, q: int| #![trigger t.aq(n, q)] !t.isin(y, n) && t.aq(n, q) && t.vp(q) implies t.allv(q) by {
            assert(s.aq(n, q)); assert(s.inp(n, q)); assert(q != p) by { assert(s.graph.pdn(q) == rev_dir(s.direction)); }
            assert(s.vp(q) && s.allv(q));
            assert forall|i: int| #![trigger lk(t.graph, q, i)] lk(t.graph, q, i) implies t.vp(i) by { assert(s.vp(i)); }
        }
    }
    assert(t.k3(y, x)) by {
        assert forall|n: int, q: int| #![trigger t.aq(n, q)] !t.isin(y, n) && t.aq(n, q) && t.allv(q) && !x.contains(q) implies t.vp(q) by {
            assert(s.aq(n, q)); assert(s.inp(n, q));
            if lk(s.graph, q, p) { assert(lk(s.graph, p, q)); assert(s.acc(p) == s.acc(q)); assert(x.contains(q)); }
            assert forall|i: int| #![trigger lk(s.graph, q, i)] lk(s.graph, q, i) implies s.vp(i) by { assert(lk(t.graph, q, i)); assert(t.vp(i)); }
            assert(s.vp(q));
        }
    }
    assert(t.k4(y)) by {
        assert forall|n: int, q: int| #![trigger t.inp(n, q)] !t.isin(y, n) && t.nacc(n) && t.inp(n, q) && (t.aq(n, q) || t.vp(q)) implies exists|q2: int| #[trigger] t.aq(n, q2) && !t.vp(q2) by {
            assert(s.inp(n, q)); assert(s.aq(n, q) == t.aq(n, q)); assert(s.vp(q) == t.vp(q));
            let q2 = choose|q2: int| #[trigger] s.aq(n, q2) && !s.vp(q2);
            assert(s.inp(n, q2)); assert(t.aq(n, q2) && !t.vp(q2));
        }
    }
    assert(t.k5(y));
    assert(t.k6(y, src)) by { assert forall|k: int| #![trigger t.candidate_nodes.q()[k]] 0 <= k < t.candidate_nodes.q().len() implies src.contains(t.candidate_nodes.q()[k].i()) || t.rdy(t.candidate_nodes.q()[k].i(), y) by { let m = s.candidate_nodes.q()[k]; assert(t.rdy(m.i(), y) == s.rdy(m.i(), y)); } }
}
/// A port with links yet to be traversed is left alone.
proof fn lemma_leave<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, rem: ISet<int>, x: ISet<int>, z: ISet<int>, q: int)
    requires s.inv_(y, src, rem, x), !s.allv(q), forall|i: int| #![trigger z.contains(i)] #![trigger x.contains(i)] x.contains(i) && i != q ==> z.contains(i),
    ensures s.inv_(y, src, rem, z),
{
    reveal(tinv);
    assert(s.k3(y, z)) by { assert forall|n: int, i: int| #![trigger s.aq(n, i)] !s.isin(y, n) && s.aq(n, i) && s.allv(i) && !z.contains(i) implies s.vp(i) by { assert(!x.contains(i)); } }
}
/// What `becomes_ready` does.
pub open spec fn marked<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>, n: int, q: int) -> bool {
    &&& forall|i: int| #![trigger t.vp(i)] s.vp(i) ==> t.vp(i)
    &&& forall|i: int| #![trigger t.vp(i)] t.vp(i) && !s.vp(i) ==> i != q && s.inp(n, i) && !s.aq(n, i)
}
pub open spec fn stuck<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>, n: int, q: int) -> bool { s.vp(q) || exists|i: int| #[trigger] s.aq(n, i) && i != q && !t.vp(i) }
pub open spec fn seen_all<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>, a: Seq<PortIndex>, q: int, m: int) -> bool { forall|k: int| #![trigger a[k]] 0 <= k < m ==> (if a[k].i() == q { !s.vp(q) } else { t.vp(a[k].i()) }) }
pub open spec fn readied<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>, n: int, q: int, r: bool) -> bool {
    &&& t.same(s) && t.candidate_nodes == s.candidate_nodes && t.nodes_seen == s.nodes_seen
    &&& forall|i: int| #![trigger t.vp(i)] s.vp(i) ==> t.vp(i)
    &&& forall|i: int| #![trigger t.vp(i)] t.vp(i) && !s.vp(i) ==> i != q && s.inp(n, i) && !s.aq(n, i)
    &&& if r { s.nacc(n) && !s.vp(q) && forall|i: int| #![trigger s.inp(n, i)] s.inp(n, i) && i != q ==> t.vp(i) }
        else { !s.nacc(n) || s.vp(q) || exists|i: int| #[trigger] s.aq(n, i) && i != q && !t.vp(i) }
}
proof fn lemma_ready<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>, u: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, rem: ISet<int>, x: ISet<int>, z: ISet<int>, n: int, q: int, r: bool)
    requires
        s.inv_(y, src, rem, x), s.allv(q), s.aq(n, q), NodeIndex::mk(n).wf(), NodeIndex::mk(n).i() == n, s.graph.hn(n), readied(s, t, n, q, r),
        u.same(t), u.candidate_nodes.q() == (if r { s.candidate_nodes.q().push(NodeIndex::mk(n)) } else { s.candidate_nodes.q() }),
        forall|i: int| #![trigger u.vp(i)] u.vp(i) == (t.vp(i) || i == q),
        forall|i: int| #![trigger z.contains(i)] #![trigger x.contains(i)] x.contains(i) && i != q ==> z.contains(i),
    ensures u.inv_(y, src, rem, z),
{
    reveal(tinv);
    let (a, b) = (s.candidate_nodes.q(), u.candidate_nodes.q());
    assert(u.same(s));
    lemma_same(s, u);
    s.graph.tlaws();
    assert(s.inp(n, q));
    assert(forall|k: int| #![trigger b[k]] 0 <= k < a.len() ==> b[k] == a[k]);
    assert(r ==> b[a.len() as int].i() == n);
    assert forall|m: int| #![trigger u.isin(y, m)] u.isin(y, m) == (s.isin(y, m) || (r && m == n)) by {
        if s.qd(m) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).i() == m; assert(b[k].i() == m); }
        if u.qd(m) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).i() == m; if k < a.len() { assert(a[k].i() == m); } }
    }
    if r { assert(!s.isin(y, n)); }
    assert forall|i: int| #![trigger u.vp(i)] (s.vp(i) ==> u.vp(i)) && (u.vp(i) && !s.vp(i) ==> i == q || (s.inp(n, i) && !s.aq(n, i))) by { assert(t.vp(i) || !t.vp(i)); }
    assert(u.k0(y, rem)) by { assert forall|i: int| #![trigger u.vp(i)] u.graph.pn(i) >= 0 && u.graph.pdn(i) == u.direction implies u.vp(i) == (y.contains(u.graph.pn(i)) && !rem.contains(i)) by { assert(s.vp(i) == (y.contains(s.graph.pn(i)) && !rem.contains(i))); assert(!s.inp(n, i)); } }
    assert(u.k1(y)) by {
        assert forall|m: int, i: int| #![trigger u.inp(m, i)] u.isin(y, m) && u.inp(m, i) implies u.vp(i) by {
            assert(s.inp(m, i));
            if s.isin(y, m) { assert(s.vp(i)); } else if i != q { assert(t.vp(i)); }
        }
    }
    assert(u.k2(y)) by {
        assert forall|m: int, i: int| #![trigger u.aq(m, i)] !u.isin(y, m) && u.aq(m, i) && u.vp(i) implies u.allv(i) by {
            assert(s.aq(m, i));
            assert(s.inp(m, i));
            if i != q { if !s.vp(i) { assert(m == n); } assert(s.vp(i)); assert(s.allv(i)); }
            assert forall|p: int| #![trigger lk(u.graph, i, p)] lk(u.graph, i, p) implies u.vp(p) by { assert(lk(s.graph, i, p)); assert(s.vp(p)); }
        }
    }
    assert(u.k3(y, z)) by {
        assert forall|m: int, i: int| #![trigger u.aq(m, i)] !u.isin(y, m) && u.aq(m, i) && u.allv(i) && !z.contains(i) implies u.vp(i) by {
            assert(s.aq(m, i));
            if i != q {
                assert(!x.contains(i));
                assert forall|p: int| #![trigger lk(s.graph, i, p)] lk(s.graph, i, p) implies s.vp(p) by {
                    assert(lk(u.graph, i, p)); assert(u.vp(p));
                    assert(s.inp(m, i));
                    assert(s.graph.pdn(p) == s.direction); assert(!s.inp(n, p));
                }
                assert(s.vp(i));
            }
        }
    }
    assert(u.k4(y)) by {
        assert forall|m: int, i: int| #![trigger u.inp(m, i)] !u.isin(y, m) && u.nacc(m) && u.inp(m, i) && (u.aq(m, i) || u.vp(i)) implies exists|q2: int| #[trigger] u.aq(m, q2) && !u.vp(q2) by {
            assert(s.inp(m, i)); assert(s.aq(m, i) == u.aq(m, i));
            let i0 = if m == n { q } else { i };
            assert(s.inp(m, i0)); assert(s.aq(m, i0) || s.vp(i0));
            let q2 = choose|q2: int| #[trigger] s.aq(m, q2) && !s.vp(q2);
            assert(s.inp(m, q2));
            if m == n && !s.vp(q) {
                let q3 = choose|i: int| #[trigger] s.aq(n, i) && i != q && !t.vp(i);
                assert(u.aq(m, q3)); assert(!u.vp(q3));
            } else { assert(q2 != q); assert(u.aq(m, q2)); assert(!u.vp(q2)); }
        }
    }
    assert(u.k5(y)) by {
        assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() implies b[k].wf() && u.graph.hn(b[k].i()) && u.nacc(b[k].i()) && !y.contains(b[k].i()) by { if k < a.len() { assert(a[k].wf()); } }
        assert forall|j: int, k: int| #![trigger b[j], b[k]] 0 <= j < k < b.len() implies b[j].i() != b[k].i() by { if k < a.len() { assert(a[j].i() != a[k].i()); } else { assert(a[j].i() != n); } }
    }
    assert(u.k6(y, src)) by {
        assert forall|k: int| #![trigger u.candidate_nodes.q()[k]] 0 <= k < b.len() implies src.contains(b[k].i()) || u.rdy(b[k].i(), y) by {
            if k < a.len() { assert(src.contains(a[k].i()) || s.rdy(a[k].i(), y)); }
            else {
                assert(s.aq(n, q));
                assert forall|i: int, p: int| #![trigger s.aq(n, i), lk(s.graph, i, p)] s.aq(n, i) && lk(s.graph, i, p) implies y.contains(s.graph.pn(p)) by {
                    assert(s.inp(n, i));
                    if i != q { assert(t.vp(i)); assert(s.vp(i)); assert(s.allv(i)); }
                    assert(s.vp(p)); assert(s.graph.pdn(p) == s.direction);
                }
                assert(s.rdy(n, y));
            }
        }
    }
}
=== fn algorithms::toposort TopoSort::ignore_node
--- spec
ensures
    r == !fn1(old(self).node_filter)(node), fn1(final(self).node_filter) == fn1(old(self).node_filter), final(self).port_filter == old(self).port_filter,
    final(self).graph == old(self).graph, final(self).direction == old(self).direction, final(self).candidate_nodes == old(self).candidate_nodes, final(self).visited_ports == old(self).visited_ports, final(self).nodes_seen == old(self).nodes_seen,
=== fn algorithms::toposort TopoSort::ignore_port
--- spec
ensures
    r == !fn2(old(self).port_filter)(node, port), fn2(final(self).port_filter) == fn2(old(self).port_filter), final(self).node_filter == old(self).node_filter,
    final(self).graph == old(self).graph, final(self).direction == old(self).direction, final(self).candidate_nodes == old(self).candidate_nodes, final(self).visited_ports == old(self).visited_ports, final(self).nodes_seen == old(self).nodes_seen,
=== fn algorithms::toposort TopoSort::becomes_ready eager
--- spec
requires old(self).graph.gok(), node.wf(), old(self).graph.hn(node.i()), from_port.into_spec().wf(), old(self).inp(node.i(), from_port.into_spec().i()),
ensures readied(*old(self), *final(self), node.i(), from_port.into_spec().i(), r),
--- hint start
let ghost s0 = *self;
let ghost n = node.i();
let ghost q = from_port.into_spec().i();
proof { self.graph.laws(); self.graph.tlaws(); }
--- hint before loop0
--- loop 0
invariant_except_break
    __all,
    seen_all(s0, *self, __all0, q, __all0.len() - __it0.rest().len()),
invariant
    self.same(s0), self.candidate_nodes == s0.candidate_nodes, self.nodes_seen == s0.nodes_seen, s0.nacc(n),
    __it0.ok(), __all0 == s0.graph.sd(n, s0.rd()), __it0.rest().len() <= __all0.len(), __it0.rest() =~= __all0.skip(__all0.len() - __it0.rest().len()),
    marked(s0, *self, n, q),
ensures
    marked(s0, *self, n, q),
    if __all { seen_all(s0, *self, __all0, q, __all0.len() as int) } else { stuck(s0, *self, n, q) },
decreases __it0.rest().len(),
--- hint loop0.start
let ghost s2 = *self;
let ghost k1 = __all0.len() - __it0.rest().len() - 1;
let ghost p1 = __all0[k1].i();
proof { assert(__e0 == __all0[k1]); assert(s0.inp(n, p1)); }
--- hint before set#0
proof {
    assert(s0.linked(p1) ==> s0.graph.lp(p1).len() > 0);
    assert(!s0.aq(n, p1));
}
--- hint loop0.end
proof {
    assert(forall|i: int| #![trigger self.vp(i)] self.vp(i) == (s2.vp(i) || (i == p1 && p1 != q && !s0.aq(n, p1))) || self.vp(i) == s2.vp(i));
    assert(forall|i: int| #![trigger self.vp(i)] s2.vp(i) ==> self.vp(i));
    assert forall|k: int| #![trigger __all0[k]] 0 <= k < __all0.len() - __it0.rest().len() implies (if __all0[k].i() == q { !s0.vp(q) } else { self.vp(__all0[k].i()) }) by {
        if k == k1 && __e0 == from_port { assert(__e0.i() == q); assert(self.vp(p1) == s2.vp(p1)); assert(!s2.vp(q)); assert(!s0.vp(q)); }
        if k == k1 && __e0 != from_port { assert(__e0.i() != q); assert(self.vp(p1)); }
        if k < k1 { assert(if __all0[k].i() == q { !s0.vp(q) } else { s2.vp(__all0[k].i()) }); }
    }
}
--- hint end
proof {
    assert(self.same(s0));
    let sq = s0.graph.sd(n, s0.rd());
    if __ret {
        assert(!s0.vp(q)) by { assert(s0.graph.pn(q) >= 0); let k = choose|k: int| 0 <= k < sq.len() && (#[trigger] sq[k]).i() == q; assert(sq[k].i() == q); }
        assert forall|i: int| #![trigger s0.inp(n, i)] s0.inp(n, i) && i != q implies self.vp(i) by {
            assert(s0.graph.pn(i) >= 0);
            assert(s0.inp(n, q));
            let k = choose|k: int| 0 <= k < s0.graph.sd(n, s0.rd()).len() && (#[trigger] s0.graph.sd(n, s0.rd())[k]).i() == i;
            assert(s0.graph.sd(n, s0.rd())[k].i() == i);
        }
    }
    assert(self.candidate_nodes == s0.candidate_nodes && self.nodes_seen == s0.nodes_seen);
    assert(forall|i: int| #![trigger self.vp(i)] s0.vp(i) ==> self.vp(i));
    assert(forall|i: int| #![trigger self.vp(i)] self.vp(i) && !s0.vp(i) ==> i != q && s0.inp(n, i) && !s0.aq(n, i));
    assert(__ret ==> s0.nacc(n));
    assert(!__ret ==> s0.vp(q) || exists|i: int| #[trigger] s0.aq(n, i) && i != q && !self.vp(i));
}
--- hint after let:__keep#0
proof {
    assert(forall|i: int| #![trigger self.vp(i)] self.vp(i) == (s2.vp(i) || (i == p1 && p1 != q && !s0.aq(n, p1))) || self.vp(i) == s2.vp(i));
    assert(forall|i: int| #![trigger self.vp(i)] s2.vp(i) ==> self.vp(i));
    if !__keep {
        assert(self.vp(p1) == s2.vp(p1));
        assert(self.vp(q) == s2.vp(q));
        if p1 != q { assert(lk_some(s0.graph, p1)); assert(s0.aq(n, p1)); }
        assert(marked(s0, *self, n, q));
        assert(stuck(s0, *self, n, q));
    }
}
=== raw topo_new
/// The ports from place j of a on.
pub open spec fn from_(a: Seq<PortIndex>, j: int) -> ISet<int> { ISet::new(|p: int| exists|k: int| j <= k < a.len() && (#[trigger] a[k]).i() == p) }
proof fn lemma_from(a: Seq<PortIndex>, j: int)
    requires 0 <= j < a.len(),
    ensures from_(a, j).contains(a[j].i()), forall|p: int| #![trigger from_(a, j + 1).contains(p)] from_(a, j).contains(p) && p != a[j].i() ==> from_(a, j + 1).contains(p),
        (forall|k: int| #![trigger a[k]] j < k < a.len() ==> a[k].i() != a[j].i()) ==> from_(a, j + 1) == from_(a, j).remove(a[j].i()),
{
    assert forall|p: int| #![trigger from_(a, j + 1).contains(p)] from_(a, j).contains(p) && p != a[j].i() implies from_(a, j + 1).contains(p) by {
        let k = choose|k: int| j <= k < a.len() && (#[trigger] a[k]).i() == p;
        assert(a[k].i() == p);
    }
    if forall|k: int| #![trigger a[k]] j < k < a.len() ==> a[k].i() != a[j].i() {
        assert forall|p: int| #[trigger] from_(a, j + 1).contains(p) implies from_(a, j).remove(a[j].i()).contains(p) by {
            let k = choose|k: int| j + 1 <= k < a.len() && (#[trigger] a[k]).i() == p;
            assert(a[k].i() == p);
        }
        assert(from_(a, j + 1) =~= from_(a, j).remove(a[j].i()));
    }
}
proof fn lemma_t_ports<G: VTopo>(g: G, c: int, d: Direction)
    requires g.gok(), c >= 0,
    ensures
        forall|p: int| #![trigger from_(g.sd(c, d), 0).contains(p)] from_(g.sd(c, d), 0).contains(p) == (g.pn(p) == c && g.pdn(p) == d),
        forall|k: int| #![trigger g.sd(c, d)[k]] 0 <= k < g.sd(c, d).len() ==> g.sd(c, d)[k].wf() && g.pn(g.sd(c, d)[k].i()) == c && g.pdn(g.sd(c, d)[k].i()) == d,
        forall|j: int, k: int| #![trigger g.sd(c, d)[j], g.sd(c, d)[k]] 0 <= j < k < g.sd(c, d).len() ==> g.sd(c, d)[k].i() != g.sd(c, d)[j].i(),
{
    g.laws(); g.tlaws();
    let pl = g.sd(c, d);
    assert forall|p: int| #![trigger from_(pl, 0).contains(p)] from_(pl, 0).contains(p) == (g.pn(p) == c && g.pdn(p) == d) by {
        if from_(pl, 0).contains(p) { let k = choose|k: int| 0 <= k < pl.len() && (#[trigger] pl[k]).i() == p; assert(g.sd(c, d)[k].wf()); }
        if g.pn(p) == c && g.pdn(p) == d { let k = choose|k: int| 0 <= k < g.sd(c, d).len() && (#[trigger] g.sd(c, d)[k]).i() == p; assert(pl[k].i() == p); }
    }
    assert forall|j: int, k: int| #![trigger g.sd(c, d)[j], g.sd(c, d)[k]] 0 <= j < k < g.sd(c, d).len() implies g.sd(c, d)[k].i() != g.sd(c, d)[j].i() by { assert(g.sd(c, d)[j] != g.sd(c, d)[k]); }
}
proof fn lemma_t_links<G: VTopo>(g: G, p: int, k: int)
    requires g.gok(), 0 <= k < g.lp(p).len(),
    ensures ({
        let e = g.lp(p)[k].1.into_spec(); let q = e.i();
        e.wf() && lk(g, p, q) && lk(g, q, p) && g.pn(p) >= 0 && g.pn(q) >= 0 && g.pdn(q) == rev_dir(g.pdn(p)) && g.hn(g.pn(q)) && NodeIndex::mk(g.pn(q)).wf() && NodeIndex::mk(g.pn(q)).i() == g.pn(q)
    }),
{
    g.laws(); g.tlaws();
    assert(epi(g.lp(p)[k].1) == epi(g.lp(p)[k].1));
    assert(lk(g, p, epi(g.lp(p)[k].1)));
}
/// One of the first j nodes of cs is n.
pub open spec fn hit(cs: Seq<NodeIndex>, j: int, n: int) -> bool { exists|k: int| 0 <= k < j && (#[trigger] cs[k]).i() == n }
pub open spec fn phit(s: Seq<PortIndex>, j: int, p: int) -> bool { exists|k: int| 0 <= k < j && (#[trigger] s[k]).i() == p }
/// The ports of the first j nodes are marked, and no other port is.
#[verifier::opaque]
pub open spec fn cmark<Map: VMapB, G: VTopo>(g: G, m: Map, cs: Seq<NodeIndex>, d: Direction, j: int) -> bool {
    forall|p: int| #![trigger m.mat(p)] g.pn(p) >= 0 ==> m.mat(p) == (g.pdn(p) == d && hit(cs, j, g.pn(p)))
}
pub open spec fn nodes_of(s: Seq<NodeIndex>) -> ISet<int> { ISet::new(|n: int| exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).i() == n) }
/// The first j ports of s are not marked.
#[verifier::opaque]
pub open spec fn unc<Map: VMapB>(s: Seq<PortIndex>, m: Map, j: int) -> bool { forall|p: int| #![trigger m.mat(p)] phit(s, j, p) ==> !m.mat(p) }
proof fn lemma_unc0<Map: VMapB>(s: Seq<PortIndex>, m: Map) ensures unc(s, m, 0) { reveal(unc); }
proof fn lemma_unc1<Map: VMapB>(s: Seq<PortIndex>, m: Map) requires forall|p: int| #![trigger m.mat(p)] !m.mat(p), ensures unc(s, m, s.len() as int) { reveal(unc); }
proof fn lemma_unc<Map: VMapB>(s: Seq<PortIndex>, m: Map, n: Map, j: int)
    requires unc(s, m, j), 0 <= j < s.len(), forall|i: int| #![trigger n.mat(i)] n.mat(i) == (if i == s[j].i() { false } else { m.mat(i) }),
    ensures unc(s, n, j + 1),
{ reveal(unc);
    assert forall|p: int| #![trigger n.mat(p)] phit(s, j + 1, p) implies !n.mat(p) by {
        if p != s[j].i() {
            let k = choose|k: int| 0 <= k < j + 1 && (#[trigger] s[k]).i() == p;
            assert(phit(s, j, p));
            assert(!m.mat(p));
        }
    }
}
/// n is m with the first j ports of s marked.
#[verifier::opaque]
pub open spec fn plus<Map: VMapB>(m: Map, n: Map, s: Seq<PortIndex>, j: int) -> bool { forall|p: int| #![trigger n.mat(p)] n.mat(p) == (m.mat(p) || phit(s, j, p)) }
proof fn lemma_plus0<Map: VMapB>(m: Map, s: Seq<PortIndex>) ensures plus(m, m, s, 0) { reveal(plus); }
proof fn lemma_plus<Map: VMapB>(m: Map, n: Map, u: Map, s: Seq<PortIndex>, j: int)
    requires plus(m, n, s, j), 0 <= j < s.len(), forall|i: int| #![trigger u.mat(i)] u.mat(i) == (if i == s[j].i() { true } else { n.mat(i) }),
    ensures plus(m, u, s, j + 1),
{ reveal(plus);
    assert forall|p: int| #![trigger u.mat(p)] u.mat(p) == (m.mat(p) || phit(s, j + 1, p)) by {
        assert(n.mat(p) == (m.mat(p) || phit(s, j, p)));
        if phit(s, j + 1, p) { let k = choose|k: int| 0 <= k < j + 1 && (#[trigger] s[k]).i() == p; if k < j { assert(phit(s, j, p)); } }
        if phit(s, j, p) { let k = choose|k: int| 0 <= k < j && (#[trigger] s[k]).i() == p; assert(phit(s, j + 1, p)); }
        if p == s[j].i() { assert(phit(s, j + 1, p)); }
    }
}
proof fn lemma_sdwf<G: VTopo>(g: G, n: int, d: Direction, k: int)
    requires g.gok(), 0 <= k < g.sd(n, d).len(),
    ensures g.sd(n, d)[k].wf(),
{ g.laws(); }
/// A filter treats both ports of every link alike.
#[verifier::opaque]
pub open spec fn fair<G: VTopo>(g: G, f: spec_fn(NodeIndex, PortIndex) -> bool) -> bool {
    forall|p: int, q: int| #![trigger lk(g, p, q)] lk(g, p, q) ==> f(NodeIndex::mk(g.pn(p)), PortIndex::mk(p)) == f(NodeIndex::mk(g.pn(q)), PortIndex::mk(q))
}
/// No node occurs twice.
#[verifier::opaque]
pub open spec fn dist(s: Seq<NodeIndex>) -> bool { forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < k < s.len() ==> s[j].i() != s[k].i() }
proof fn lemma_keep_dist(s: Seq<NodeIndex>, f: spec_fn(NodeIndex) -> bool)
    requires forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < k < s.len() ==> s[j].i() != s[k].i(),
    ensures forall|j: int, k: int| #![trigger keep(s, f)[j], keep(s, f)[k]] 0 <= j < k < keep(s, f).len() ==> keep(s, f)[j].i() != keep(s, f)[k].i(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|j: int, k: int| #![trigger t[j], t[k]] 0 <= j < k < t.len() implies t[j].i() != t[k].i() by { assert(t[j] == s[j + 1] && t[k] == s[k + 1]); }
        lemma_keep_dist(t, f);
        lemma_keep_all(t, f);
        let a: Seq<NodeIndex> = if f(s[0]) { seq![s[0]] } else { Seq::empty() };
        assert(keep(s, f) =~= a + keep(t, f));
        assert forall|j: int, k: int| #![trigger keep(s, f)[j], keep(s, f)[k]] 0 <= j < k < keep(s, f).len() implies keep(s, f)[j].i() != keep(s, f)[k].i() by {
            let y = keep(t, f)[k - a.len()];
            assert(keep(s, f)[k] == y);
            if j < a.len() {
                assert(t.contains(y));
                let i = choose|i: int| 0 <= i < t.len() && t[i] == y;
                assert(s[i + 1] == y);
                assert(s[0].i() != s[i + 1].i());
            } else { assert(keep(s, f)[j] == keep(t, f)[j - a.len()]); }
        }
    }
}
/// Nodes of the graph.
#[verifier::opaque]
pub open spec fn from_g<G: VTopo>(g: G, s: Seq<NodeIndex>) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].wf() && g.hn(s[k].i()) }
proof fn lemma_cand<G: VTopo>(g: G, s: Seq<NodeIndex>, f: spec_fn(NodeIndex) -> bool, j: int)
    requires from_g(g, s), 0 <= j < keep(s, f).len(),
    ensures keep(s, f)[j].wf() && g.hn(keep(s, f)[j].i()),
{
    reveal(from_g);
    lemma_keep_all(s, f);
    assert(s.contains(keep(s, f)[j]));
    let k = choose|k: int| 0 <= k < s.len() && s[k] == keep(s, f)[j];
    assert(s[k].wf());
}
proof fn lemma_keep_id(s: Seq<NodeIndex>, f: spec_fn(NodeIndex) -> bool)
    requires forall|x: NodeIndex| #![trigger f(x)] f(x),
    ensures keep(s, f) == s,
    decreases s.len(),
{ if s.len() > 0 { lemma_keep_id(s.skip(1), f); assert(f(s[0])); assert(keep(s, f) =~= s); } else { assert(keep(s, f) =~= s); } }
proof fn lemma_new<Map: VMapB, G: VTopo>(r: TopoSort<G, Map>, s: Seq<NodeIndex>)
    requires
        r.graph.gok(), fair(r.graph, fn2(r.port_filter)), r.candidate_nodes.q() == keep(s, fn1(r.node_filter)),
        from_g(r.graph, s),
        dist(s),
        cmark(r.graph, r.visited_ports, r.candidate_nodes.q(), rev_dir(r.direction), r.candidate_nodes.q().len() as int),
    ensures r.inv(ISet::empty(), nodes_of(s)),
{ reveal(from_g); reveal(dist); reveal(fair); reveal(cmark);
    reveal(tinv);
    let c = r.candidate_nodes.q();
    let y = ISet::<int>::empty();
    r.graph.laws(); r.graph.tlaws();
    lemma_keep_dist(s, fn1(r.node_filter));
    lemma_keep_all(s, fn1(r.node_filter));
    assert forall|p: int| #![trigger r.vp(p)] r.graph.pn(p) >= 0 implies r.vp(p) == (r.graph.pdn(p) == r.rd() && r.qd(r.graph.pn(p))) by {
        assert(r.visited_ports.mat(p) == (r.graph.pdn(p) == r.rd() && hit(c, c.len() as int, r.graph.pn(p))));
    }
    assert(r.cons()) by { assert forall|p: int, q: int| #![trigger lk(r.graph, p, q)] lk(r.graph, p, q) implies r.acc(p) == r.acc(q) by {} }
    assert(r.k3(y, y)) by {
        assert forall|n: int, q: int| #![trigger r.aq(n, q)] !r.isin(y, n) && r.aq(n, q) && r.allv(q) implies r.vp(q) by {
            let p = choose|p: int| #[trigger] lk(r.graph, q, p);
            assert(r.inp(n, q));
            assert(r.vp(p));
        }
    }
    assert(r.k4(y)) by {
        assert forall|n: int, q: int| #![trigger r.inp(n, q)] !r.isin(y, n) && r.nacc(n) && r.inp(n, q) && (r.aq(n, q) || r.vp(q)) implies exists|q2: int| #[trigger] r.aq(n, q2) && !r.vp(q2) by { assert(!r.vp(q)); }
    }
    assert(r.k5(y)) by {
        assert forall|k: int| #![trigger c[k]] 0 <= k < c.len() implies c[k].wf() && r.graph.hn(c[k].i()) && r.nacc(c[k].i()) && !y.contains(c[k].i()) by {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == c[k];
            assert(s[j].wf());
            lemma_mk_node(c[k]);
        }
    }
    assert(r.k6(y, nodes_of(s))) by {
        assert forall|k: int| #![trigger r.candidate_nodes.q()[k]] 0 <= k < c.len() implies nodes_of(s).contains(c[k].i()) by { assert(s.contains(c[k])); let j = choose|j: int| 0 <= j < s.len() && s[j] == c[k]; assert(s[j].i() == c[k].i()); }
    }
}
proof fn lemma_spwf<G: VTopo>(g: G, k: int)
    requires g.gok(), 0 <= k < g.sp().len(),
    ensures g.sp()[k].wf(),
{ g.laws(); }
proof fn lemma_cleared<Map: VMapB, G: VTopo>(g: G, m: Map, cs: Seq<NodeIndex>, d: Direction)
    requires g.gok(), unc(g.sp(), m, g.sp().len() as int),
    ensures cmark(g, m, cs, d, 0),
{ reveal(unc); reveal(cmark);
    g.tlaws();
    assert forall|p: int| #![trigger m.mat(p)] g.pn(p) >= 0 implies !m.mat(p) by {
        assert(g.pn(p) >= 0);
        let k = choose|k: int| 0 <= k < g.sp().len() && (#[trigger] g.sp()[k]).i() == p;
        assert(phit(g.sp(), g.sp().len() as int, p));
    }
}
proof fn lemma_marked<Map: VMapB, G: VTopo>(g: G, m2: Map, m: Map, cs: Seq<NodeIndex>, d: Direction, j: int)
    requires g.gok(), 0 <= j < cs.len(), cs[j].wf(), cmark(g, m2, cs, d, j), plus(m2, m, g.sd(cs[j].i(), d), g.sd(cs[j].i(), d).len() as int),
    ensures cmark(g, m, cs, d, j + 1),
{ reveal(plus); reveal(cmark);
    let ps = g.sd(cs[j].i(), d);
    lemma_t_ports(g, cs[j].i(), d);
    assert forall|p: int| #![trigger m.mat(p)] g.pn(p) >= 0 implies m.mat(p) == (g.pdn(p) == d && hit(cs, j + 1, g.pn(p))) by {
        assert(m2.mat(p) == (g.pdn(p) == d && hit(cs, j, g.pn(p))));
        assert(from_(ps, 0).contains(p) == phit(ps, ps.len() as int, p));
        if hit(cs, j + 1, g.pn(p)) { let k = choose|k: int| 0 <= k < j + 1 && (#[trigger] cs[k]).i() == g.pn(p); if k < j { assert(hit(cs, j, g.pn(p))); } }
        if hit(cs, j, g.pn(p)) { let k = choose|k: int| 0 <= k < j && (#[trigger] cs[k]).i() == g.pn(p); assert(hit(cs, j + 1, g.pn(p))); }
        if g.pn(p) == cs[j].i() { assert(hit(cs, j + 1, g.pn(p))); }
    }
}
proof fn lemma_mk_node(n: NodeIndex)
    requires n.wf(),
    ensures NodeIndex::mk(n.i()) == n,
{}
=== fn algorithms::toposort TopoSort::new ptype:source=impl+VIntoIter<It=VIt<NodeIndex>> eager isolate
--- spec
requires
    graph.gok(), fair(graph, fn2(port_filter)), source.iok(),
    from_g(graph, source.irest()),
    dist(source.irest()),
ensures
    r.inv(ISet::empty(), nodes_of(source.irest())), r.candidate_nodes.q() == source.irest().filter(fn1(node_filter)), r.nodes_seen == 0,
    r.graph == graph, r.direction == direction, fn1(r.node_filter) == fn1(node_filter), fn2(r.port_filter) == fn2(port_filter),
--- hint start
let ghost nf0 = fn1(node_filter);
let ghost src0 = source.irest();
let ghost fn1_none = node_filter is None;
let ghost d = rev_dir(direction);
--- hint before loop0
let ghost __t: Seq<NodeIndex> = __out.rest();
--- loop 0
invariant
    __it0.ok(), node_filter.f() == nf0, __out.rest() + keep(__it0.rest(), nf0) =~= keep(src0, nf0),
ensures __it0.ok(), __it0.rest().len() == 0,
decreases __it0.rest().len(),
--- hint after let:candidate_nodes#0
let ghost cs = candidate_nodes.q();
let ghost m0 = visited_ports;
proof {
    theorem_keep(src0, nf0);
    if fn1_none { lemma_keep_id(src0, nf0); }
    assert(cs == keep(src0, nf0));
}
--- loop 1
invariant
    __it1.ok(), __all1 == graph.sp(), __it1.rest().len() <= __all1.len(), __it1.rest() =~= __all1.skip(__all1.len() - __it1.rest().len()),
    graph.gok(), unc(graph.sp(), visited_ports, __all1.len() - __it1.rest().len()),
ensures unc(graph.sp(), visited_ports, graph.sp().len() as int),
decreases __it1.rest().len(),
--- hint loop1.start
let ghost j1 = __all1.len() - __it1.rest().len() - 1;
let ghost m1 = visited_ports;
proof { assert(port == graph.sp()[j1]); lemma_spwf(graph, j1); }
--- hint loop1.end
proof { lemma_unc(graph.sp(), m1, visited_ports, j1); }
--- hint before loop1
proof { lemma_unc0(graph.sp(), visited_ports); }
--- hint before loop2
proof { if !m0.dv() { lemma_unc1(graph.sp(), visited_ports); } }
proof { lemma_cleared(graph, visited_ports, cs, d); }
--- loop 2
invariant
    __it2.ok(), drf(__all2) == cs, __it2.rest() =~= __all2.skip(__all2.len() - __it2.rest().len()), __it2.rest().len() <= cs.len(), candidate_nodes.q() == cs,
    graph.gok(), from_g(graph, src0), cs == keep(src0, nf0), d == rev_dir(direction),
    cmark(graph, visited_ports, cs, d, cs.len() - __it2.rest().len()),
ensures cmark(graph, visited_ports, cs, d, cs.len() as int), candidate_nodes.q() == cs,
decreases __it2.rest().len(),
--- hint loop2.start
let ghost j2 = cs.len() - __it2.rest().len() - 1;
let ghost m2 = visited_ports;
let ghost ps = graph.sd(node.i(), d);
proof {
    assert(drf(__all2).len() == __all2.len());
    assert(node == __all2[j2]);
    assert(drf(__all2)[j2] == *__all2[j2]);
    assert(*node == cs[j2]);
    lemma_cand(graph, src0, nf0, j2);
}
--- hint loop2.end
proof {
    lemma_marked(graph, m2, visited_ports, cs, d, j2);
}
--- loop 3
invariant
    __it3.ok(), __all3 == ps, __it3.rest().len() <= ps.len(), __it3.rest() =~= ps.skip(ps.len() - __it3.rest().len()),
    graph.gok(), ps == graph.sd(node.i(), d), plus(m2, visited_ports, ps, ps.len() - __it3.rest().len()),
ensures plus(m2, visited_ports, ps, ps.len() as int),
decreases __it3.rest().len(),
--- hint loop3.start
let ghost j3 = ps.len() - __it3.rest().len() - 1;
let ghost m3 = visited_ports;
proof { assert(port == ps[j3]); lemma_sdwf(graph, node.i(), d, j3); }
--- hint before loop3
proof { lemma_plus0(visited_ports, ps); }
--- hint loop3.end
proof { lemma_plus(m2, m3, visited_ports, ps, j3); }
--- hint end
proof {
    lemma_new(__ret, src0);
}
=== raw topo_next
/// What one link to port q of node n does.
pub open spec fn stepped<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, u: TopoSort<G, Map>, n: int, q: int) -> bool {
    exists|t: TopoSort<G, Map>, r: bool| #[trigger] readied(s, t, n, q, r) && u.same(t) && u.candidate_nodes.q() == (if r { s.candidate_nodes.q().push(NodeIndex::mk(n)) } else { s.candidate_nodes.q() })
        && forall|i: int| #![trigger u.vp(i)] u.vp(i) == (t.vp(i) || i == q)
}
proof fn lemma_step<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, u: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, rem: ISet<int>, x: ISet<int>, z: ISet<int>, n: int, q: int)
    requires
        s.inv_(y, src, rem, x), s.allv(q), s.aq(n, q), NodeIndex::mk(n).wf(), NodeIndex::mk(n).i() == n, s.graph.hn(n), stepped(s, u, n, q),
        forall|i: int| #![trigger z.contains(i)] #![trigger x.contains(i)] x.contains(i) && i != q ==> z.contains(i),
    ensures u.inv_(y, src, rem, z),
{
    let (t, r) = choose|t: TopoSort<G, Map>, r: bool| #[trigger] readied(s, t, n, q, r) && u.same(t) && u.candidate_nodes.q() == (if r { s.candidate_nodes.q().push(NodeIndex::mk(n)) } else { s.candidate_nodes.q() })
        && forall|i: int| #![trigger u.vp(i)] u.vp(i) == (t.vp(i) || i == q);
    lemma_ready(s, t, u, y, src, rem, x, z, n, q, r);
}
proof fn lemma_eq<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, t: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, rem: ISet<int>, x: ISet<int>)
    requires s.inv_(y, src, rem, x), t.same(s), t.candidate_nodes.q() == s.candidate_nodes.q(), t.visited_ports == s.visited_ports,
    ensures t.inv_(y, src, rem, x),
{
    reveal(tinv);
    lemma_same(s, t);
    assert(forall|p: int| #![trigger t.vp(p)] t.vp(p) == s.vp(p));
    assert(forall|n: int| #![trigger t.isin(y, n)] t.isin(y, n) == s.isin(y, n));
    assert forall|q: int| #![trigger t.allv(q)] t.allv(q) == s.allv(q) by { assert(forall|p: int| #![trigger lk(s.graph, q, p)] t.vp(p) == s.vp(p)); }
    assert(t.k1(y)) by { assert forall|n: int, q: int| #![trigger t.inp(n, q)] t.isin(y, n) && t.inp(n, q) implies t.vp(q) by { assert(s.inp(n, q) && s.isin(y, n)); assert(t.vp(q) == s.vp(q)); } }
    assert(t.k2(y));
    assert(t.k3(y, x));
    assert(t.k4(y)) by {
        assert forall|n: int, q: int| #![trigger t.inp(n, q)] !t.isin(y, n) && t.nacc(n) && t.inp(n, q) && (t.aq(n, q) || t.vp(q)) implies exists|q2: int| #[trigger] t.aq(n, q2) && !t.vp(q2) by {
            assert(s.inp(n, q)); assert(s.aq(n, q) == t.aq(n, q)); assert(s.vp(q) == t.vp(q));
            let q2 = choose|q2: int| #[trigger] s.aq(n, q2) && !s.vp(q2);
            assert(t.aq(n, q2) && !t.vp(q2));
        }
    }
    assert(t.k6(y, src)) by { assert forall|k: int| #![trigger t.candidate_nodes.q()[k]] 0 <= k < t.candidate_nodes.q().len() implies src.contains(t.candidate_nodes.q()[k].i()) || t.rdy(t.candidate_nodes.q()[k].i(), y) by { let m = s.candidate_nodes.q()[k]; assert(t.rdy(m.i(), y) == s.rdy(m.i(), y)); } }
}
/// The far ends of links.
pub open spec fn fars<E: VInto<PortIndex>>(s: Seq<(E, E)>) -> Seq<PortIndex> { Seq::new(s.len(), |k: int| s[k].1.into_spec()) }
=== fn algorithms::toposort TopoSort::next of=Iterator eager gparam=y:ISet<int>;src:ISet<int>
--- spec
requires old(self).inv(y, src), old(self).nodes_seen < usize::MAX,
ensures
    final(self).same(*old(self)),
    match r {
        Some(n) => n.wf() && old(self).graph.hn(n.i()) && old(self).nacc(n.i()) && !y.contains(n.i()) && (src.contains(n.i()) || old(self).rdy(n.i(), y)) && final(self).inv(y.insert(n.i()), src)
            && n == old(self).candidate_nodes.q()[0] && ext(old(self).candidate_nodes.q().skip(1), final(self).candidate_nodes.q()) && final(self).nodes_seen == old(self).nodes_seen + 1,
        None => old(self).candidate_nodes.q().len() == 0 && final(self).candidate_nodes.q().len() == 0 && final(self).visited_ports == old(self).visited_ports,
    },
--- hint start
let ghost s0 = *self;
proof { lemma_parts(s0, y, src, ISet::empty(), ISet::empty()); }
--- hint before let:ports#0
let ghost mut s5 = *self;
let ghost cq = self.candidate_nodes.q();
proof { assert(cq.take(cq.len() as int) =~= cq); }
let ghost c = node.i();
let ghost d = self.direction;
let ghost z = y.insert(c);
let ghost pl = self.graph.sd(c, d);
let ghost s1 = *self;
proof {
    assert(node == s0.candidate_nodes.q()[0]);
    lemma_t_ports(s0.graph, c, d);
    lemma_take(s0, *self, y, src, from_(pl, 0));
}
--- loop 0
invariant
    self.same(s0), self.inv_(z, src, from_(pl, pl.len() - __it0.rest().len()), ISet::empty()), self.nodes_seen == s0.nodes_seen, ext(cq, self.candidate_nodes.q()),
    __it0.ok(), __all0 == pl, __it0.rest().len() <= pl.len(), __it0.rest() =~= pl.skip(pl.len() - __it0.rest().len()),
ensures self.same(s0), self.inv_(z, src, from_(pl, pl.len() as int), ISet::empty()), self.nodes_seen == s0.nodes_seen, ext(cq, self.candidate_nodes.q()),
decreases __it0.rest().len(),
--- hint after loop0
proof { s5 = *self; assert(from_(pl, pl.len() as int) =~= ISet::empty()); }
--- hint end
proof { lemma_eq(s5, *self, z, src, ISet::empty(), ISet::empty()); }
--- hint loop0.start
let ghost s2 = *self;
let ghost j = pl.len() - __it0.rest().len() - 1;
let ghost p0 = port.i();
let ghost rem = from_(pl, j + 1);
let ghost xs = ISet::new(|q: int| lk(s0.graph, p0, q) && s0.acc(p0));
proof {
    assert(port == pl[j]);
    assert(s0.graph.sd(c, d)[j].wf());
    assert(s0.graph.pn(p0) == c);
    lemma_t_ports(s0.graph, c, d);
    assert(forall|k: int| #![trigger pl[k]] j < k < pl.len() ==> pl[k].i() != pl[j].i());
    lemma_from(pl, j);
}
--- hint before ignore_port#0
let ghost s3 = *self;
proof {
    lemma_same(s0, s2);
    lemma_out(s2, s3, z, src, from_(pl, j), p0, xs);
}
--- hint before continue#0
proof {
    assert(xs =~= ISet::empty());
    lemma_eq(s3, *self, z, src, rem, ISet::empty());
}
--- hint before let:linked_ports#0
let ghost lps = fars(self.graph.lp(p0));
proof {
    lemma_eq(s3, *self, z, src, rem, xs);
}
--- hint before loop1
let ghost __t: Seq<PortIndex> = __out.rest();
--- loop 1
invariant
    __it1.ok(), __all1 == self.graph.lp(p0), __it1.rest().len() <= __all1.len(), __it1.rest() =~= __all1.skip(__all1.len() - __it1.rest().len()),
    __out.rest() =~= lps.take(__all1.len() - __it1.rest().len()),
ensures __out.rest() =~= lps,
decreases __it1.rest().len(),
--- hint before loop2
proof {
    assert(__all2 == lps);
    assert(forall|k: int| #![trigger lps[k]] 0 <= k < lps.len() ==> lps[k] == s0.graph.lp(p0)[k].1.into_spec());
    assert forall|q: int| #![trigger from_(lps, 0).contains(q)] #![trigger xs.contains(q)] xs.contains(q) == from_(lps, 0).contains(q) by {
        if xs.contains(q) { let k = choose|k: int| 0 <= k < s0.graph.lp(p0).len() && epi((#[trigger] s0.graph.lp(p0)[k]).1) == q; assert(lps[k].i() == q); }
        if from_(lps, 0).contains(q) { let k = choose|k: int| 0 <= k < lps.len() && (#[trigger] lps[k]).i() == q; assert(epi(s0.graph.lp(p0)[k].1) == q); }
    }
    assert(xs =~= from_(lps, 0));
}
--- loop 2
invariant
    self.same(s0), self.inv_(z, src, rem, from_(lps, lps.len() - __it2.rest().len())), self.nodes_seen == s0.nodes_seen, ext(cq, self.candidate_nodes.q()),
    __it2.ok(), __all2 == lps, __it2.rest().len() <= lps.len(), __it2.rest() =~= lps.skip(lps.len() - __it2.rest().len()),
ensures self.same(s0), self.inv_(z, src, rem, from_(lps, lps.len() as int)), self.nodes_seen == s0.nodes_seen, ext(cq, self.candidate_nodes.q()),
decreases __it2.rest().len(),
--- hint after loop2
proof { assert(from_(lps, lps.len() as int) =~= ISet::empty()); }
--- hint loop2.start
let ghost s4 = *self;
let ghost j2 = lps.len() - __it2.rest().len() - 1;
let ghost q0 = port.i();
proof {
    assert(port == lps[j2]);
    assert(port == s0.graph.lp(p0)[j2].1.into_spec());
    assert(epi(s0.graph.lp(p0)[j2].1) == q0);
    lemma_t_links(s0.graph, p0, j2);
    lemma_from(lps, j2);
    lemma_same(s0, s4);
}
--- loop 3
invariant_except_break
    __all,
    forall|k: int| #![trigger __all3[k]] 0 <= k < __all3.len() - __it3.rest().len() ==> self.vp(epi(__all3[k].1)),
invariant
    *self == s4,
    __it3.ok(), __all3 == s0.graph.lp(q0), __it3.rest().len() <= __all3.len(), __it3.rest() =~= __all3.skip(__all3.len() - __it3.rest().len()),
ensures
    *self == s4, __all == s4.allv(q0),
decreases __it3.rest().len(),
--- hint loop3.start
let ghost k3 = __all3.len() - __it3.rest().len() - 1;
proof { assert(__e2 == __all3[k3]); lemma_t_links(s0.graph, q0, k3); }
--- hint after let:__keep#0
proof {
    assert(epi(s0.graph.lp(q0)[k3].1) == epi(__e2.1));
    if !__keep { assert(!s4.vp(epi(__e2.1))); assert(!s4.allv(q0)); }
}
--- hint before continue#1
proof { lemma_leave(s4, z, src, rem, from_(lps, j2), from_(lps, j2 + 1), q0); }
--- hint before becomes_ready#0
let ghost n0 = target.i();
proof { assert(s0.graph.pn(q0) == n0); assert(s0.graph.pdn(q0) == s0.rd()); assert(s0.cons()); assert(s0.inp(n0, q0)); assert(lk(s0.graph, q0, p0)); assert(s0.aq(n0, q0)); assert(s4.aq(n0, q0)); assert(NodeIndex::mk(n0) == target); }
--- hint after set#1
proof {
    assert(forall|i: int| #![trigger self.visited_ports.mat(i)] self.vp(i) == self.visited_ports.mat(i));
    assert(stepped(s4, *self, n0, q0));
    assert(ext(cq, self.candidate_nodes.q())) by { let b = self.candidate_nodes.q(); assert(b =~= s4.candidate_nodes.q() || b =~= s4.candidate_nodes.q().push(target)); assert(b.take(cq.len() as int) =~= s4.candidate_nodes.q().take(cq.len() as int)); }
    lemma_step(s4, *self, z, src, rem, from_(lps, j2), from_(lps, j2 + 1), n0, q0);
}

=== fn algorithms::toposort toposort bare impl= on= rettype=TopoSort<G,Map> gen=G:VTopo;Map:VMapB ptype:source=impl+VIntoIter<It=VIt<NodeIndex>>
--- spec
requires graph.gok(), source.iok(), from_g(graph, source.irest()), dist(source.irest()),
ensures
    r.inv(ISet::empty(), nodes_of(source.irest())), r.candidate_nodes.q() == source.irest().filter(|n: NodeIndex| true), r.nodes_seen == 0,
    r.graph == graph, r.direction == direction, fn1(r.node_filter) == (|n: NodeIndex| true), fn2(r.port_filter) == (|n: NodeIndex, p: PortIndex| true),
--- hint start
proof { reveal(fair); }
=== fn algorithms::toposort toposort_filtered bare impl= on= rettype=TopoSort<G,Map> gen=G:VTopo;Map:VMapB ptype:source=impl+VIntoIter<It=VIt<NodeIndex>> ptype:node_filter=VFn1<NodeIndex,bool> ptype:port_filter=VFn2<NodeIndex,PortIndex,bool>
--- spec
requires graph.gok(), source.iok(), from_g(graph, source.irest()), dist(source.irest()), fair(graph, port_filter.f()),
ensures
    r.inv(ISet::empty(), nodes_of(source.irest())), r.candidate_nodes.q() == source.irest().filter(node_filter.f()), r.nodes_seen == 0,
    r.graph == graph, r.direction == direction, fn1(r.node_filter) == node_filter.f(), fn2(r.port_filter) == port_filter.f(),
=== fn algorithms::toposort TopoSort::ports_remaining eager rettype=VList<PortIndex>
--- spec
requires self.graph.gok(),
ensures r.rest() == self.graph.sp().filter(|p: PortIndex| !self.vp(p.i())),
--- hint start
let ghost f = |p: PortIndex| !self.vp(p.i());
proof { self.graph.laws(); theorem_keep(self.graph.sp(), f); }
--- loop 0
invariant
    __it0.ok(), __all0 == self.graph.sp(), __it0.rest().len() <= __all0.len(), __it0.rest() =~= __all0.skip(__all0.len() - __it0.rest().len()),
    __out.rest() + keep(__it0.rest(), f) =~= keep(self.graph.sp(), f),
ensures __out.rest() =~= keep(self.graph.sp(), f),
decreases __it0.rest().len(),
--- hint loop0.start
proof { let k = __all0.len() - __it0.rest().len() - 1; assert(__all0.skip(k)[0] == self.graph.sp()[k]); assert(__all0.skip(k).skip(1) =~= __it0.rest()); }
=== raw topo_add
/// `|` on flags: both sides are evaluated.
fn v_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { if a { true } else { b } }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.q().contains(*x) { unimplemented!() }
}
/// More sources may be allowed for.
proof fn lemma_more<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, y: ISet<int>, a: ISet<int>, b: ISet<int>)
    requires s.inv(y, a), forall|n: int| #![trigger b.contains(n)] a.contains(n) ==> b.contains(n),
    ensures s.inv(y, b),
{
    reveal(tinv);
    assert forall|k: int| #![trigger s.candidate_nodes.q()[k]] 0 <= k < s.candidate_nodes.q().len() implies b.contains(s.candidate_nodes.q()[k].i()) || s.rdy(s.candidate_nodes.q()[k].i(), y) by { assert(a.contains(s.candidate_nodes.q()[k].i()) || s.rdy(s.candidate_nodes.q()[k].i(), y)); }
}
pub open spec fn ported<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, n: int) -> bool { s.graph.sd(n, s.rd()).len() + s.graph.sd(n, s.direction).len() > 0 }
/// Node n was offered as a source; t is s with the ports that lead to n marked, w whether one of them was not, o whether one leaving n is not.
proof fn lemma_add<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, u: TopoSort<G, Map>, y: ISet<int>, src: ISet<int>, n: NodeIndex, c: bool)
    requires
        s.inv(y, src), n.wf(), s.graph.hn(n.i()), s.nacc(n.i()), src.contains(n.i()), u.same(s),
        plus(s.visited_ports, u.visited_ports, s.graph.sd(n.i(), s.rd()), s.graph.sd(n.i(), s.rd()).len() as int),
        c == if s.graph.sd(n.i(), s.rd()).len() > 0 { !unall(s, n.i()) } else { !s.candidate_nodes.q().contains(n) && exists|k: int| 0 <= k < s.graph.sd(n.i(), s.direction).len() && !s.vp((#[trigger] s.graph.sd(n.i(), s.direction)[k]).i()) },
        u.candidate_nodes.q() == (if c { s.candidate_nodes.q().push(n) } else { s.candidate_nodes.q() }),
    ensures
        u.inv(y, src), ported(s, n.i()) ==> u.isin(y, n.i()),
        forall|m: int| #![trigger u.isin(y, m)] s.isin(y, m) ==> u.isin(y, m),
{
    reveal(tinv); reveal(plus);
    let (a, b) = (s.candidate_nodes.q(), u.candidate_nodes.q());
    let ni = n.i();
    let d = s.rd();
    let ps = s.graph.sd(ni, d);
    lemma_same(s, u);
    s.graph.laws(); s.graph.tlaws();
    lemma_t_ports(s.graph, ni, d);
    lemma_t_ports(s.graph, ni, s.direction);
    assert forall|p: int| #![trigger phit(ps, ps.len() as int, p)] phit(ps, ps.len() as int, p) == s.inp(ni, p) by {
        assert(phit(ps, ps.len() as int, p) == from_(ps, 0).contains(p));
    }
    assert forall|p: int| #![trigger u.vp(p)] u.vp(p) == (s.vp(p) || s.inp(ni, p)) by { assert(u.visited_ports.mat(p) == (s.visited_ports.mat(p) || phit(ps, ps.len() as int, p))); }
    assert(forall|k: int| #![trigger b[k]] 0 <= k < a.len() ==> b[k] == a[k]);
    assert(c ==> b[a.len() as int].i() == ni);
    assert forall|m: int| #![trigger u.isin(y, m)] u.isin(y, m) == (s.isin(y, m) || (c && m == ni)) by {
        if s.qd(m) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).i() == m; assert(b[k].i() == m); }
        if u.qd(m) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).i() == m; if k < a.len() { assert(a[k].i() == m); } }
    }
    // a node that is in is not taken again
    if s.isin(y, ni) {
        if ps.len() > 0 {
            assert forall|k: int| #![trigger ps[k]] 0 <= k < ps.len() implies s.vp(ps[k].i()) by { assert(s.inp(ni, ps[k].i())); }
        } else if s.qd(ni) {
            let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).i() == ni;
            assert(a[k].wf()); assert(a[k] == n) by { lemma_mk_node(a[k]); lemma_mk_node(n); }
            assert(a.contains(n));
        } else if c {
            let k = choose|k: int| 0 <= k < s.graph.sd(ni, s.direction).len() && !s.vp((#[trigger] s.graph.sd(ni, s.direction)[k]).i());
            assert(s.vp(s.graph.sd(ni, s.direction)[k].i()));
        }
        assert(!c);
    } else if ported(s, ni) {
        if ps.len() > 0 {
            if unall(s, ni) {
                let q = ps[0].i();
                assert(s.inp(ni, q) && s.vp(q));
                let q2 = choose|q2: int| #[trigger] s.aq(ni, q2) && !s.vp(q2);
                assert(s.inp(ni, q2));
                let k = choose|k: int| 0 <= k < s.graph.sd(ni, d).len() && (#[trigger] s.graph.sd(ni, d)[k]).i() == q2;
                assert(s.vp(ps[k].i()));
            }
        } else {
            let o = s.graph.sd(ni, s.direction)[0];
            assert(s.graph.pn(o.i()) == ni);
            assert(s.vp(o.i()) == y.contains(ni));
            if a.contains(n) { let k = choose|k: int| 0 <= k < a.len() && a[k] == n; assert(a[k].i() == ni); }
        }
        assert(c);
    }
    if !c {
        assert forall|p: int| #![trigger u.vp(p)] u.vp(p) == s.vp(p) by {
            if s.inp(ni, p) {
                let k = choose|k: int| 0 <= k < s.graph.sd(ni, d).len() && (#[trigger] s.graph.sd(ni, d)[k]).i() == p;
                assert(s.vp(ps[k].i()));
            }
        }
    }
    assert(u.k0(y, ISet::empty())) by { assert forall|i: int| #![trigger u.vp(i)] u.graph.pn(i) >= 0 && u.graph.pdn(i) == u.direction implies u.vp(i) == (y.contains(u.graph.pn(i)) && !ISet::<int>::empty().contains(i)) by { assert(s.vp(i) == (y.contains(s.graph.pn(i)) && !ISet::<int>::empty().contains(i))); assert(!s.inp(ni, i)); } }
    assert(u.k1(y)) by { assert forall|m: int, q: int| #![trigger u.inp(m, q)] u.isin(y, m) && u.inp(m, q) implies u.vp(q) by { assert(s.inp(m, q)); if s.isin(y, m) { assert(s.vp(q)); } } }
    assert forall|q: int| #![trigger u.allv(q)] u.graph.pdn(q) == s.rd() && s.graph.pn(q) >= 0 implies u.allv(q) == s.allv(q) by {
        assert forall|p: int| #![trigger lk(s.graph, q, p)] lk(s.graph, q, p) implies u.vp(p) == s.vp(p) by { assert(!s.inp(ni, p)); }
    }
    assert(u.k2(y)) by { assert forall|m: int, q: int| #![trigger u.aq(m, q)] !u.isin(y, m) && u.aq(m, q) && u.vp(q) implies u.allv(q) by { assert(s.aq(m, q)); assert(s.inp(m, q)); if !s.vp(q) { assert(m == ni); assert(c); } assert(s.allv(q)); } }
    assert(u.k3(y, ISet::empty())) by { assert forall|m: int, q: int| #![trigger u.aq(m, q)] !u.isin(y, m) && u.aq(m, q) && u.allv(q) && !ISet::<int>::empty().contains(q) implies u.vp(q) by { assert(s.aq(m, q)); assert(s.inp(m, q)); assert(s.allv(q)); assert(s.vp(q)); } }
    assert(u.k4(y)) by {
        assert forall|m: int, q: int| #![trigger u.inp(m, q)] !u.isin(y, m) && u.nacc(m) && u.inp(m, q) && (u.aq(m, q) || u.vp(q)) implies exists|q2: int| #[trigger] u.aq(m, q2) && !u.vp(q2) by {
            assert(s.inp(m, q)); assert(s.aq(m, q) == u.aq(m, q)); assert(u.vp(q) == s.vp(q));
            let q2 = choose|q2: int| #[trigger] s.aq(m, q2) && !s.vp(q2);
            assert(s.inp(m, q2));
            assert(u.aq(m, q2) && !u.vp(q2));
        }
    }
    assert(u.k5(y)) by {
        assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() implies b[k].wf() && u.graph.hn(b[k].i()) && u.nacc(b[k].i()) && !y.contains(b[k].i()) by { if k < a.len() { assert(a[k].wf()); } }
        assert forall|j: int, k: int| #![trigger b[j], b[k]] 0 <= j < k < b.len() implies b[j].i() != b[k].i() by { if k < a.len() { assert(a[j].i() != a[k].i()); } else { assert(a[j].i() != ni); } }
    }
    assert(u.k6(y, src)) by {
        assert forall|k: int| #![trigger u.candidate_nodes.q()[k]] 0 <= k < b.len() implies src.contains(b[k].i()) || u.rdy(b[k].i(), y) by { if k < a.len() { assert(src.contains(a[k].i()) || s.rdy(a[k].i(), y)); } }
    }
}
/// The first j ports of ps are visited.
pub open spec fn vis<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, ps: Seq<PortIndex>, j: int) -> bool { forall|k: int| #![trigger ps[k]] 0 <= k < j ==> s.vp(ps[k].i()) }
proof fn lemma_vis<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, m: Map, ps: Seq<PortIndex>, j: int)
    requires 0 <= j < ps.len(), plus(s.visited_ports, m, ps, j), forall|i: int, k: int| #![trigger ps[i], ps[k]] 0 <= i < k < ps.len() ==> ps[k].i() != ps[i].i(),
    ensures m.mat(ps[j].i()) == s.vp(ps[j].i()), vis(s, ps, j + 1) == (vis(s, ps, j) && s.vp(ps[j].i())),
{
    reveal(plus);
    let p = ps[j].i();
    assert(m.mat(p) == (s.visited_ports.mat(p) || phit(ps, j, p)));
    if phit(ps, j, p) { let k = choose|k: int| 0 <= k < j && (#[trigger] ps[k]).i() == p; assert(ps[k].i() != ps[j].i()); }
    if vis(s, ps, j + 1) { assert(forall|k: int| #![trigger ps[k]] 0 <= k < j ==> s.vp(ps[k].i())); assert(s.vp(ps[j].i())); }
    if vis(s, ps, j) && s.vp(p) { assert forall|k: int| #![trigger ps[k]] 0 <= k < j + 1 implies s.vp(ps[k].i()) by {} }
}
/// All ports that lead to n are visited.
pub open spec fn unall<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, n: int) -> bool { vis(s, s.graph.sd(n, s.rd()), s.graph.sd(n, s.rd()).len() as int) }
/// The first j nodes of a, as far as they are accepted and have ports, are queued or were yielded.
pub open spec fn offered<Map: VMapB, G: VTopo>(s: TopoSort<G, Map>, y: ISet<int>, a: Seq<NodeIndex>, j: int) -> bool { forall|k: int| #![trigger a[k]] 0 <= k < j && s.nacc(a[k].i()) && ported(s, a[k].i()) ==> s.isin(y, a[k].i()) }
proof fn lemma_none<Map: VMapB>(m: Map, n: Map, s: Seq<PortIndex>)
    requires plus(m, n, s, 0),
    ensures forall|p: int| #![trigger m.mat(p)] #![trigger n.mat(p)] m.mat(p) == n.mat(p),
{
    reveal(plus);
    assert forall|p: int| #![trigger m.mat(p)] #![trigger n.mat(p)] m.mat(p) == n.mat(p) by { assert(n.mat(p) == (m.mat(p) || phit(s, 0, p))); }
}
/// One more node was offered.
proof fn lemma_offer<Map: VMapB, G: VTopo>(s0: TopoSort<G, Map>, s: TopoSort<G, Map>, u: TopoSort<G, Map>, y: ISet<int>, a: Seq<NodeIndex>, j: int)
    requires
        0 <= j < a.len(), u.same(s), offered(s, y, a, j),
        forall|k: int| #![trigger u.candidate_nodes.q()[k]] 0 <= k < s.candidate_nodes.q().len() ==> u.candidate_nodes.q()[k] == s.candidate_nodes.q()[k], u.candidate_nodes.q().len() >= s.candidate_nodes.q().len(),
        u.nacc(a[j].i()) && ported(u, a[j].i()) ==> u.isin(y, a[j].i()),
    ensures offered(u, y, a, j + 1),
{
    assert forall|k: int| #![trigger a[k]] 0 <= k < j + 1 && u.nacc(a[k].i()) && ported(u, a[k].i()) implies u.isin(y, a[k].i()) by {
        if k < j {
            lemma_same(s, u);
            assert(s.nacc(a[k].i()) && ported(s, a[k].i()));
            assert(s.isin(y, a[k].i()));
            if !y.contains(a[k].i()) { let i = choose|i: int| 0 <= i < s.candidate_nodes.q().len() && (#[trigger] s.candidate_nodes.q()[i]).i() == a[k].i(); assert(u.candidate_nodes.q()[i].i() == a[k].i()); }
        }
    }
}
=== fn algorithms::toposort TopoSort::add_sources eager ptype:sources=impl+VIntoIter<It=VIt<NodeIndex>> gparam=y:ISet<int>;src:ISet<int> call:contains=v_contains
--- spec
requires old(self).inv(y, src), sources.iok(), from_g(old(self).graph, sources.irest()),
ensures
    final(self).same(*old(self)), final(self).nodes_seen == old(self).nodes_seen, ext(old(self).candidate_nodes.q(), final(self).candidate_nodes.q()),
    final(self).inv(y, src.union(nodes_of(sources.irest()))),
    offered(*final(self), y, sources.irest(), sources.irest().len() as int),
--- hint start
let ghost s0 = *self;
let ghost a = sources.irest();
let ghost z = src.union(nodes_of(a));
let ghost cq = self.candidate_nodes.q();
proof { assert(cq.take(cq.len() as int) =~= cq); lemma_more(s0, y, src, z); }
--- loop 0
invariant
    self.same(s0), self.nodes_seen == s0.nodes_seen, self.inv(y, z), ext(cq, self.candidate_nodes.q()),
    __it0.ok(), __all0 == a, __it0.rest().len() <= a.len(), __it0.rest() =~= a.skip(a.len() - __it0.rest().len()),
    offered(*self, y, a, a.len() - __it0.rest().len()),
ensures
    self.same(s0), self.nodes_seen == s0.nodes_seen, self.inv(y, z), ext(cq, self.candidate_nodes.q()), offered(*self, y, a, a.len() as int),
decreases __it0.rest().len(),
--- hint loop0.start
let ghost s1 = *self;
let ghost j = a.len() - __it0.rest().len() - 1;
proof { assert(node == a[j]); reveal(from_g); assert(a[j].wf()); lemma_same(s0, s1); assert(nodes_of(a).contains(node.i())); lemma_parts(s1, y, z, ISet::empty(), ISet::empty()); }
let ghost ps = self.graph.sd(node.i(), self.rd());
let ghost os = self.graph.sd(node.i(), self.direction);
--- hint before continue#0
proof { lemma_eq(s1, *self, y, z, ISet::empty(), ISet::empty()); lemma_offer(s0, s1, *self, y, a, j); }
--- hint before loop1
proof { lemma_plus0(s1.visited_ports, ps); lemma_t_ports(s1.graph, node.i(), s1.rd()); }
--- loop 1
invariant
    self.same(s1), self.candidate_nodes == s1.candidate_nodes, self.nodes_seen == s1.nodes_seen,
    __it1.ok(), __all1 == ps, __it1.rest().len() <= ps.len(), __it1.rest() =~= ps.skip(ps.len() - __it1.rest().len()),
    plus(s1.visited_ports, self.visited_ports, ps, ps.len() - __it1.rest().len()),
    new_candidate == !vis(s1, ps, ps.len() - __it1.rest().len()),
ensures
    self.same(s1), self.candidate_nodes == s1.candidate_nodes, self.nodes_seen == s1.nodes_seen,
    plus(s1.visited_ports, self.visited_ports, ps, ps.len() as int), new_candidate == !vis(s1, ps, ps.len() as int),
decreases __it1.rest().len(),
--- hint loop1.start
let ghost s2 = *self;
let ghost j1 = ps.len() - __it1.rest().len() - 1;
proof { assert(port == ps[j1]); lemma_sdwf(s1.graph, node.i(), s1.rd(), j1); lemma_vis(s1, s2.visited_ports, ps, j1); }
--- hint loop1.end
proof { lemma_plus(s1.visited_ports, s2.visited_ports, self.visited_ports, ps, j1); }
--- loop 2
invariant_except_break
    !__any, forall|k: int| #![trigger os[k]] 0 <= k < os.len() - __it2.rest().len() ==> self.vp(os[k].i()),
invariant
    __it2.ok(), __all2 == os, __it2.rest().len() <= os.len(), __it2.rest() =~= os.skip(os.len() - __it2.rest().len()),
ensures
    __any == exists|k: int| 0 <= k < os.len() && !self.vp((#[trigger] os[k]).i()),
decreases __it2.rest().len(),
--- hint loop2.start
proof { let k = os.len() - __it2.rest().len() - 1; assert(os[k] == __all2[k]); lemma_sdwf(s1.graph, node.i(), s1.direction, k); }
--- hint before if#3
let ghost s3 = *self;
let ghost c = new_candidate;
proof {
    if ps.len() == 0 { lemma_none(s1.visited_ports, s3.visited_ports, ps); assert(forall|p: int| #![trigger s1.vp(p)] #![trigger s3.vp(p)] s1.vp(p) == s3.vp(p)); }
}
--- hint loop0.end
proof {
    lemma_same(s1, *self);
    lemma_add(s1, *self, y, z, node, c);
    assert(ext(cq, self.candidate_nodes.q())) by { let b = self.candidate_nodes.q(); assert(b =~= s1.candidate_nodes.q() || b =~= s1.candidate_nodes.q().push(node)); assert(b.take(cq.len() as int) =~= s1.candidate_nodes.q().take(cq.len() as int)); }
    lemma_offer(s0, s1, *self, y, a, j);
}
