=== default P=V02 impl=<'g,G:VView> on=FlatRegion<'g,G> eager
=== raw flat_iter
/// `std::borrow::Cow` (assumed to dereference to the value that it was made from)
#[verifier::reject_recursive_types(T)]
pub struct Cow<'a, T> { pub b: &'a T }
impl<'a> Cow<'a, Hierarchy> {
    pub fn parent(&self, node: NodeIndex) -> (r: Option<NodeIndex>)
        requires self.b.wf(), node.wf(),
        ensures match r { Some(p) => p.wf() && p.i() == self.b.par(node.i()), None => self.b.par(node.i()) == -1 },
    { self.b.parent(node) }
    pub fn child_count(&self, node: NodeIndex) -> (r: usize)
        requires self.b.wf(), node.wf(), ensures r == self.b.kids(node.i()).len(),
    { self.b.child_count(node) }
    pub fn children(&self, node: NodeIndex) -> (r: Children<'a>)
        requires self.b.wf(), node.wf(),
        ensures r.layout == self.b, r.shows(node.i(), 0, self.b.kids(node.i()).len() as int),
    { self.b.children(node) }
}
impl<'a> VInto<Cow<'a, Hierarchy>> for &'a Hierarchy {
    open spec fn into_spec(self) -> Cow<'a, Hierarchy> { Cow { b: self } }
    fn vinto(self) -> (r: Cow<'a, Hierarchy>) { Cow { b: self } }
}
pub open spec fn knodes(s: Seq<int>) -> Seq<NodeIndex> { s.map_values(|x: int| NodeIndex::mk(x)) }
impl<'a> Children<'a> {
    pub open spec fn some(self) -> bool { exists|p: int, lo: int, hi: int| self.shows(p, lo, hi) }
    /// The children left.
    pub open spec fn seq(self) -> Seq<NodeIndex> {
        if self.len == 0 { Seq::empty() } else {
            let p = self.layout.par(ix(self.next));
            let lo = (self.layout.tree().pos)(ix(self.next));
            knodes(self.layout.kids(p).subrange(lo, lo + self.len))
        }
    }
}
pub proof fn lemma_children(c: Children<'_>, p: int, lo: int, hi: int)
    requires c.shows(p, lo, hi),
    ensures c.seq() == knodes(c.layout.kids(p).subrange(lo, hi)),
{
    let h = *c.layout;
    let t = h.tree();
    lemma_kids(h, t);
    if lo < hi { assert(h.wf_at(t, p, lo)); }
    assert(c.seq() =~= knodes(h.kids(p).subrange(lo, hi)));
}
/// The children of a node are nodes.
pub proof fn lemma_kid(h: Hierarchy, p: int)
    requires h.wf(),
    ensures forall|k: int| #![trigger h.kids(p)[k]] 0 <= k < h.kids(p).len() ==> isn(h.kids(p)[k]) && h.par(h.kids(p)[k]) == p,
{
    let t = h.tree();
    lemma_kids(h, t);
    assert forall|k: int| #![trigger h.kids(p)[k]] 0 <= k < h.kids(p).len() implies isn(h.kids(p)[k]) && h.par(h.kids(p)[k]) == p by { assert(h.wf_at(t, p, k)); }
}
impl<'a> VIter for Children<'a> {
    type Item = NodeIndex;
    open spec fn rest(self) -> Seq<NodeIndex> { self.seq() }
    open spec fn ok(self) -> bool { self.some() }
    fn v_next(&mut self) -> (r: Option<NodeIndex>) {
        let ghost c0 = *self;
        let ghost (p, lo, hi) = choose|p: int, lo: int, hi: int| self.shows(p, lo, hi);
        let r = self.next();
        proof {
            lemma_children(c0, p, lo, hi);
            if lo < hi {
                lemma_children(*self, p, lo + 1, hi);
                lemma_kid(*c0.layout, p);
                let s = c0.layout.kids(p);
                assert(c0.seq()[0] == NodeIndex::mk(s[lo]));
                assert(self.seq() =~= c0.seq().skip(1));
            } else { lemma_children(*self, p, lo, hi); }
        }
        r
    }
}
impl<'a> VIntoIter for Children<'a> {
    type It = Children<'a>;
    open spec fn iok(self) -> bool { self.some() }
    open spec fn irest(self) -> Seq<NodeIndex> { self.seq() }
    open spec fn ieq(self, r: Children<'a>) -> bool { r == self }
    fn v_into_iter(self) -> (r: Children<'a>) { self }
}
=== type view::flat_region FlatRegion derive=none
=== raw flat_spec
impl<'g, G> FlatRegion<'g, G> {
    pub open spec fn wf(self) -> bool { self.hierarchy.b.wf() && self.region_root.wf() }
    /// The nodes of the region: the children of the root, and the root if it is included.
    pub open spec fn inn(self) -> spec_fn(int) -> bool { |n: int| (self.include_root && n == self.region_root.i()) || self.hierarchy.b.par(n) == self.region_root.i() }
    pub open spec fn rnodes(self) -> Seq<NodeIndex> {
        (if self.include_root { seq![self.region_root] } else { Seq::empty() }) + knodes(self.hierarchy.b.kids(self.region_root.i()))
    }
}
/// `nodes_iter` gives the nodes of the region, each once.
pub proof fn theorem_rnodes<'g, G>(v: FlatRegion<'g, G>)
    requires v.wf(),
    ensures
        forall|k: int| #![trigger v.rnodes()[k]] 0 <= k < v.rnodes().len() ==> v.rnodes()[k].wf() && (v.inn())(v.rnodes()[k].i()),
        forall|n: int| #![trigger (v.inn())(n)] isn(n) && (v.inn())(n) ==> exists|k: int| 0 <= k < v.rnodes().len() && (#[trigger] v.rnodes()[k]).i() == n,
        forall|j: int, k: int| #![trigger v.rnodes()[j], v.rnodes()[k]] 0 <= j < k < v.rnodes().len() ==> v.rnodes()[j].i() != v.rnodes()[k].i(),
{
    let h = *v.hierarchy.b;
    let p = v.region_root.i();
    let t = h.tree();
    lemma_kids(h, t);
    lemma_kid(h, p);
    let o = if v.include_root { 1int } else { 0int };
    let s = h.kids(p);
    assert(v.rnodes().len() == o + s.len());
    assert forall|k: int| #![trigger v.rnodes()[k]] 0 <= k < v.rnodes().len() implies v.rnodes()[k].wf() && v.rnodes()[k].i() == (if k < o { p } else { s[k - o] }) && (v.inn())(v.rnodes()[k].i()) by { if k >= o { assert(isn(s[k - o])); } }
    assert forall|n: int| #![trigger (v.inn())(n)] isn(n) && (v.inn())(n) implies exists|k: int| 0 <= k < v.rnodes().len() && (#[trigger] v.rnodes()[k]).i() == n by {
        if v.include_root && n == p { assert(v.rnodes()[0].i() == n); }
        else { assert(h.wf_up(t, n)); let k = (t.pos)(n) + o; assert(v.rnodes()[k].i() == n); }
    }
    assert forall|j: int, k: int| #![trigger v.rnodes()[j], v.rnodes()[k]] 0 <= j < k < v.rnodes().len() implies v.rnodes()[j].i() != v.rnodes()[k].i() by {
        assert(h.wf_at(t, p, k - o)); assert(h.wf_up(t, p));
        if j >= o { assert(h.wf_at(t, p, j - o)); }
    }
}
=== fn view::flat_region FlatRegion::new impl=<'a,G> on=FlatRegion<'a,G>
--- spec
requires hierarchy.wf(), root.wf(),
ensures r.wf(), r.graph == graph, *r.hierarchy.b == *hierarchy, r.region_root == root, r.include_root,
=== fn view::flat_region FlatRegion::new_with_root impl=<'a,G> on=FlatRegion<'a,G>
--- spec
requires hierarchy.into_spec().b.wf(), root.wf(),
ensures r.wf(), r.graph == graph, r.hierarchy == hierarchy.into_spec(), r.region_root == root, r.include_root,
=== fn view::flat_region FlatRegion::new_without_root impl=<'a,G> on=FlatRegion<'a,G>
--- spec
requires hierarchy.into_spec().b.wf(), root.wf(),
ensures r.wf(), r.graph == graph, r.hierarchy == hierarchy.into_spec(), r.region_root == root, !r.include_root,
=== fn view::flat_region FlatRegion::includes_root
--- spec
ensures r == self.include_root,
=== fn view::flat_region FlatRegion::region_root
--- spec
ensures r == self.region_root,
=== fn view::flat_region FlatRegion::node_count
--- spec
requires self.wf(),
ensures r == self.rnodes().len(),
--- hint start
proof { lemma_few(self.hierarchy.b.tree(), *self.hierarchy.b, self.region_root.i()); }
=== fn view::flat_region FlatRegion::is_empty
--- spec
requires self.wf(),
ensures r == (self.rnodes().len() == 0),
=== fn view::flat_region FlatRegion::nodes_iter rettype=VList<NodeIndex>
--- spec
requires self.wf(),
ensures r.rest() == self.rnodes(),
--- loop 0
invariant __it0.ok(), __out.rest() + __it0.rest() + knodes(self.hierarchy.b.kids(self.region_root.i())) =~= self.rnodes(),
decreases __it0.rest().len(),
--- hint before loop1
proof { let s = self.hierarchy.b.kids(self.region_root.i()); assert(s.subrange(0, s.len() as int) =~= s); lemma_children(__it1, self.region_root.i(), 0, s.len() as int); }
--- loop 1
invariant __it1.ok(), __out.rest() + __it1.rest() =~= self.rnodes(),
decreases __it1.rest().len(),
=== fn view::flat_region FlatRegion::contains_link
--- spec
requires self.wf(), self.graph.gok(), epw(__p1), self.graph.pn(epi(__p1.0)) >= 0, self.graph.pn(epi(__p1.1)) >= 0,
ensures r == inl(self.graph, self.inn(), __p1),
=== fn view::flat_region FlatRegion::contains_endpoint
--- spec
requires self.wf(), self.graph.gok(), e.into_spec().wf(), self.graph.pn(epi(e)) >= 0,
ensures r == (self.inn())(self.graph.pn(epi(e))),
=== fn view::flat_region FlatRegion::contains_node
--- spec
requires self.wf(), node.wf(),
ensures r == (self.inn())(node.i()),
=== fn view::flat_region FlatRegion::contains_port
--- spec
requires self.wf(), self.graph.gok(), port.wf(),
ensures r == (self.graph.pn(port.i()) >= 0 && (self.inn())(self.graph.pn(port.i()))),
=== fn view::flat_region FlatRegion::get_connections rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), from.wf(), to.wf(),
ensures r.rest() == (if (self.inn())(from.i()) && (self.inn())(to.i()) { self.graph.lc(from.i(), to.i()) } else { Seq::empty() }),
--- loop 0
invariant __it0.ok(), __out.rest() + __it0.rest() =~= self.graph.lc(from.i(), to.i()),
decreases __it0.rest().len(),
=== fn view::flat_region FlatRegion::port_links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), port.wf(), self.graph.pn(port.i()) >= 0,
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.lp(port.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.lp(port.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::flat_region FlatRegion::links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.ld(node.i(), direction)),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.ld(node.i(), direction)), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::flat_region FlatRegion::all_links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.la(node.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.la(node.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::flat_region FlatRegion::neighbours rettype=VList<NodeIndex>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == nodes_in(self.inn(), self.graph.nd(node.i(), direction)),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + nodes_in(self.inn(), __it0.rest()) =~= nodes_in(self.inn(), self.graph.nd(node.i(), direction)),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
=== fn view::flat_region FlatRegion::all_neighbours rettype=VList<NodeIndex>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == nodes_in(self.inn(), self.graph.na(node.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + nodes_in(self.inn(), __it0.rest()) =~= nodes_in(self.inn(), self.graph.na(node.i())),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
=== fn view::flat_region FlatRegion::ports_iter rettype=VList<PortIndex>
--- spec
requires self.wf(), self.graph.gok(),
ensures r.rest() == flat(self.rnodes(), |n: NodeIndex| self.graph.sa(n.i())),
--- hint start
proof { theorem_rnodes(*self); }
let ghost f = |n: NodeIndex| self.graph.sa(n.i());
--- loop 0
invariant __it0.ok(), __out.rest() + flat(__it0.rest(), f) =~= flat(self.rnodes(), f),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
--- loop 1
invariant __it1.ok(), __out.rest() + __it1.rest() + flat(__it0.rest(), f) =~= flat(self.rnodes(), f),
decreases __it1.rest().len(),
=== fn view::flat_region FlatRegion::port_count
--- spec
requires self.wf(), self.graph.gok(),
ensures r == flat(self.rnodes(), |n: NodeIndex| self.graph.sa(n.i())).len(),
=== fn view::flat_region FlatRegion::link_count
--- spec
requires self.wf(), self.graph.gok(),
ensures r == flat(self.rnodes(), |n: NodeIndex| links_in(self.graph, self.inn(), self.graph.ld(n.i(), Direction::Outgoing))).len(),
--- hint start
proof { theorem_rnodes(*self); }
let ghost f = |n: NodeIndex| links_in(self.graph, self.inn(), self.graph.ld(n.i(), Direction::Outgoing));
--- loop 0
invariant __it0.ok(), __out.rest() + flat(__it0.rest(), f) =~= flat(self.rnodes(), f),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
--- loop 1
invariant __it1.ok(), __out.rest() + __it1.rest() + flat(__it0.rest(), f) =~= flat(self.rnodes(), f),
decreases __it1.rest().len(),
