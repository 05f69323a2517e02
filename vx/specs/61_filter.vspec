=== default P=V01 impl=<G:VView,Ctx> on=FilteredGraph<G,NodeFilter<Ctx>,LinkFilter<Ctx>,Ctx> eager noopt
=== raw filter_fns
/// The node filter: a pure function (assumed; it is a `fn` pointer without captures).
#[verifier::external_body]
#[verifier::reject_recursive_types(Ctx)]
pub struct NodeFilter<Ctx> { f: fn(NodeIndex, &Ctx) -> bool }
#[verifier::external_body]
#[verifier::reject_recursive_types(Ctx)]
pub struct LinkFilter<Ctx> { f: fn(PortIndex, &Ctx) -> bool }
impl<Ctx> NodeFilter<Ctx> {
    pub uninterp spec fn holds(self, n: NodeIndex, c: Ctx) -> bool;
    #[verifier::external_body]
    pub fn vcall(&self, n: NodeIndex, c: &Ctx) -> (r: bool) ensures r == self.holds(n, *c) { unimplemented!() }
}
impl<Ctx> LinkFilter<Ctx> {
    pub uninterp spec fn holds(self, p: PortIndex, c: Ctx) -> bool;
    #[verifier::external_body]
    pub fn vcall(&self, p: PortIndex, c: &Ctx) -> (r: bool) ensures r == self.holds(p, *c) { unimplemented!() }
}
=== type view::filter FilteredGraph derive=none
=== raw filter_spec
impl<G: VView, Ctx> FilteredGraph<G, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx> {
    pub open spec fn fok(self) -> bool { self.graph.gok() }
    /// The node passes the node filter.
    pub open spec fn fnode(self, n: NodeIndex) -> bool { self.node_filter.holds(n, self.context) }
    /// The port's node passes the node filter.
    pub open spec fn fport(self, p: PortIndex) -> bool { self.fnode(NodeIndex::mk(self.graph.pn(p.i()))) }
    /// Both ends pass both filters.
    pub open spec fn flink(self, l: (G::LinkEndpoint, G::LinkEndpoint)) -> bool {
        let (a, b) = (l.0.into_spec(), l.1.into_spec());
        self.fport(a) && self.fport(b) && self.link_filter.holds(a, self.context) && self.link_filter.holds(b, self.context)
    }
    pub open spec fn klinks(self, s: Seq<(G::LinkEndpoint, G::LinkEndpoint)>) -> Seq<(G::LinkEndpoint, G::LinkEndpoint)> { keep(s, |l: (G::LinkEndpoint, G::LinkEndpoint)| self.flink(l)) }
    pub open spec fn fnodes(self) -> Seq<NodeIndex> { keep(self.graph.sn(), |n: NodeIndex| self.fnode(n)) }
    pub open spec fn fports(self) -> Seq<PortIndex> { keep(self.graph.sp(), |p: PortIndex| self.fport(p)) }
    /// The nodes at the far ends.
    pub open spec fn ffar(self, s: Seq<(G::LinkEndpoint, G::LinkEndpoint)>) -> Seq<NodeIndex> { s.map_values(|l: (G::LinkEndpoint, G::LinkEndpoint)| NodeIndex::mk(self.graph.pn(epi(l.1)))) }
}
=== raw filter_lemmas
pub proof fn lemma_klok<G: VView, Ctx>(v: FilteredGraph<G, NodeFilter<Ctx>, LinkFilter<Ctx>, Ctx>, s: Seq<(G::LinkEndpoint, G::LinkEndpoint)>)
    requires lok(v.graph, s),
    ensures lok(v.graph, v.klinks(s)),
{ lemma_keep_all(s, |l: (G::LinkEndpoint, G::LinkEndpoint)| v.flink(l)); }
=== fn view::filter FilteredGraph::new on=FilteredGraph<G,FN,FP,Ctx> impl=<G,FN,FP,Ctx>
--- spec
ensures r.graph == graph, r.node_filter == node_filter, r.link_filter == link_filter, r.context == context,
=== fn view::filter FilteredGraph::context on=FilteredGraph<G,FN,FP,Ctx> impl=<G,FN,FP,Ctx>
--- spec
ensures *r == self.context,
=== fn view::filter FilteredGraph::node_filter
--- spec
ensures r == self.fnode(*node),
=== fn view::filter FilteredGraph::port_filter
--- spec
requires self.fok(), (*__p1).into_spec().wf(), self.graph.pn((*__p1).into_spec().i()) >= 0,
ensures r == self.fport((*__p1).into_spec()),
=== fn view::filter FilteredGraph::link_filter
--- spec
requires self.fok(), epw(*link), self.graph.pn(epi(link.0)) >= 0, self.graph.pn(epi(link.1)) >= 0,
ensures r == self.flink(*link),
=== fn view::filter FilteredGraph::contains_node
--- spec
requires self.fok(), node.wf(),
ensures r == (self.graph.hn(node.i()) && self.fnode(node)),
=== fn view::filter FilteredGraph::contains_port
--- spec
requires self.fok(), port.wf(),
ensures r == (self.graph.pn(port.i()) >= 0 && self.fport(port)),
=== fn view::filter FilteredGraph::nodes_iter rettype=VList<NodeIndex>
--- spec
requires self.fok(),
ensures r.rest() == self.fnodes(),
--- loop 0
invariant __it0.ok(), __out.rest() + keep(__it0.rest(), |n: NodeIndex| self.fnode(n)) =~= self.fnodes(),
decreases __it0.rest().len(),
=== fn view::filter FilteredGraph::ports_iter rettype=VList<PortIndex>
--- spec
requires self.fok(),
ensures r.rest() == self.fports(),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + keep(__it0.rest(), |p: PortIndex| self.fport(p)) =~= self.fports(),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf() && self.graph.pn(__it0.rest()[k].i()) >= 0,
decreases __it0.rest().len(),
=== fn view::filter FilteredGraph::node_count
--- spec
requires self.fok(),
ensures r == self.fnodes().len(),
=== fn view::filter FilteredGraph::port_count
--- spec
requires self.fok(),
ensures r == self.fports().len(),
=== fn view::filter FilteredGraph::is_empty
--- spec
requires self.fok(),
ensures r == (self.fnodes().len() == 0),
=== fn view::filter FilteredGraph::get_connections rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.fok(), from.wf(), to.wf(),
ensures r.rest() == self.klinks(self.graph.lc(from.i(), to.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + keep(__it0.rest(), |l: (G::LinkEndpoint, G::LinkEndpoint)| self.flink(l)) =~= self.klinks(self.graph.lc(from.i(), to.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::filter FilteredGraph::port_links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.fok(), port.wf(), self.graph.pn(port.i()) >= 0,
ensures r.rest() == self.klinks(self.graph.lp(port.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + keep(__it0.rest(), |l: (G::LinkEndpoint, G::LinkEndpoint)| self.flink(l)) =~= self.klinks(self.graph.lp(port.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::filter FilteredGraph::links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.fok(), node.wf(),
ensures r.rest() == self.klinks(self.graph.ld(node.i(), direction)),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + keep(__it0.rest(), |l: (G::LinkEndpoint, G::LinkEndpoint)| self.flink(l)) =~= self.klinks(self.graph.ld(node.i(), direction)), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::filter FilteredGraph::all_links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.fok(), node.wf(),
ensures r.rest() == self.klinks(self.graph.la(node.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + keep(__it0.rest(), |l: (G::LinkEndpoint, G::LinkEndpoint)| self.flink(l)) =~= self.klinks(self.graph.la(node.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::filter FilteredGraph::neighbours rettype=VList<NodeIndex>
--- spec
requires self.fok(), node.wf(),
ensures r.rest() == self.ffar(self.klinks(self.graph.ld(node.i(), direction))),
--- hint start
proof { self.graph.laws(); lemma_klok(*self, self.graph.ld(node.i(), direction)); }
--- loop 0
invariant __it0.ok(), __out.rest() + self.ffar(__it0.rest()) =~= self.ffar(self.klinks(self.graph.ld(node.i(), direction))), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::filter FilteredGraph::all_neighbours rettype=VList<NodeIndex>
--- spec
requires self.fok(), node.wf(),
ensures r.rest() == self.ffar(self.klinks(self.graph.la(node.i()))),
--- hint start
proof { self.graph.laws(); lemma_klok(*self, self.graph.la(node.i())); }
--- loop 0
invariant __it0.ok(), __out.rest() + self.ffar(__it0.rest()) =~= self.ffar(self.klinks(self.graph.la(node.i()))), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::filter FilteredGraph::link_count
--- spec
requires self.fok(),
ensures r == flat(self.fnodes(), |n: NodeIndex| self.klinks(self.graph.ld(n.i(), Direction::Outgoing))).len(),
--- hint start
proof { self.graph.laws(); lemma_keep_all(self.graph.sn(), |n: NodeIndex| self.fnode(n)); }
let ghost f = |n: NodeIndex| self.klinks(self.graph.ld(n.i(), Direction::Outgoing));
--- loop 0
invariant __it0.ok(), __out.rest() + flat(__it0.rest(), f) =~= flat(self.fnodes(), f),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
--- loop 1
invariant __it1.ok(), __out.rest() + __it1.rest() + flat(__it0.rest(), f) =~= flat(self.fnodes(), f),
decreases __it1.rest().len(),
