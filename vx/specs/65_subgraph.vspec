=== default P=V03 impl=<G:VView> on=Subgraph<G> eager
=== type view::subgraph Subgraph derive=none
=== raw subgraph_spec
impl<G> Subgraph<G> {
    pub open spec fn wf(self) -> bool { forall|n: NodeIndex| #![trigger self.nodes@.contains(n)] self.nodes@.contains(n) ==> n.wf() }
    /// The nodes of the subgraph.
    pub open spec fn inn(self) -> spec_fn(int) -> bool { |n: int| NodeIndex::mk(n).i() == n && self.nodes@.contains(NodeIndex::mk(n)) }
}
/// The port has a link to a node outside.
pub open spec fn outw<G: VView>(g: G, s: Set<NodeIndex>, p: PortIndex) -> bool {
    exists|k: int| 0 <= k < g.lp(p.i()).len() && !s.contains(NodeIndex::mk(g.pn(epi(#[trigger] g.lp(p.i())[k].1))))
}
/// The ports of the nodes that have a link to a node outside.
pub open spec fn crossing<G: VView>(g: G, ns: Seq<NodeIndex>, s: Set<NodeIndex>, d: Direction) -> Seq<PortIndex> {
    flat(ns, |n: NodeIndex| keep(g.sd(n.i(), d), |p: PortIndex| outw(g, s, p)))
}
=== fn view::subgraph Subgraph::new_subgraph
--- spec
requires boundary.bok(graph),
ensures
    r.wf(), r.graph == graph, r.boundary == boundary,
    forall|n: int| #![trigger (r.inn())(n)] n >= 0 ==> ((r.inn())(n) == inner(graph, boundary.bset(), n)),
--- hint start
proof { graph.laws(); lemma_inner_in(graph, boundary); }
=== raw inner_in
/// The nodes inside are nodes of the graph.
proof fn lemma_inner_in<G: VView>(g: G, b: Boundary)
    requires b.bok(g),
    ensures forall|x: int| #![trigger inner(g, b.bset(), x)] x >= 0 && inner(g, b.bset(), x) ==> NodeIndex::mk(x).i() == x,
{
    g.laws();
    assert forall|x: int| #![trigger inner(g, b.bset(), x)] x >= 0 && inner(g, b.bset(), x) implies NodeIndex::mk(x).i() == x by {
        let k = choose|k: nat| #[trigger] breach(g, b.bset(), x, k);
        if k == 0 { assert(bseed(g, b.bset(), x)); }
    }
}
=== fn view::subgraph Subgraph::with_nodes ptype:nodes=impl+VIntoIter<It=VIt<NodeIndex>> 
--- spec
requires graph.gok(), nodes.iok(), forall|k: int| #![trigger nodes.irest()[k]] 0 <= k < nodes.irest().len() ==> nodes.irest()[k].wf(),
ensures
    r.wf(), r.graph == graph, r.nodes@ == nodes.irest().to_set(),
    r.boundary.inputs@ == crossing(graph, nodes.irest(), r.nodes@, Direction::Incoming),
    r.boundary.outputs@ == crossing(graph, nodes.irest(), r.nodes@, Direction::Outgoing),
=== raw flat_next
/// The first item of a flat_map.
proof fn lemma_outw<G: VView>(g: G, s: Set<NodeIndex>, p: PortIndex, k: int)
    requires 0 <= k < g.lp(p.i()).len(), !s.contains(NodeIndex::mk(g.pn(epi(g.lp(p.i())[k].1)))),
    ensures outw(g, s, p),
{ }
=== fn view::subgraph collect_boundary_ports ptype:ordered_nodes=Vec<NodeIndex> impl= bare tn:LinkView=VView
--- spec
requires graph.gok(), forall|k: int| #![trigger ordered_nodes@[k]] 0 <= k < ordered_nodes@.len() ==> ordered_nodes@[k].wf(),
ensures
    r.inputs@ == crossing(*graph, ordered_nodes@, node_set@, Direction::Incoming),
    r.outputs@ == crossing(*graph, ordered_nodes@, node_set@, Direction::Outgoing),
--- hint start
proof { graph.laws(); }
let ghost g = *graph;
let ghost w = |p: PortIndex| outw(g, node_set@, p);
let ghost fi = |n: NodeIndex| keep(g.sd(n.i(), Direction::Incoming), w);
let ghost fo = |n: NodeIndex| keep(g.sd(n.i(), Direction::Outgoing), w);
let ghost ci = crossing(g, ordered_nodes@, node_set@, Direction::Incoming);
let ghost co = crossing(g, ordered_nodes@, node_set@, Direction::Outgoing);
proof { assert(ci == flat(ordered_nodes@, fi)) by { assert(fi =~= |n: NodeIndex| keep(g.sd(n.i(), Direction::Incoming), |p: PortIndex| outw(g, node_set@, p))); } assert(co == flat(ordered_nodes@, fo)); }
--- loop 0
invariant __it0.ok(), g == *graph, g.gok(), fi == (|n: NodeIndex| keep(g.sd(n.i(), Direction::Incoming), w)), fo == (|n: NodeIndex| keep(g.sd(n.i(), Direction::Outgoing), w)), w == (|p: PortIndex| outw(g, node_set@, p)),
    inputs@ + flat(__it0.rest(), fi) =~= ci, outputs@ + flat(__it0.rest(), fo) =~= co,
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
--- hint loop0.start
proof { g.laws(); }
--- loop 1
invariant __it1.ok(), g == *graph, g.gok(), node.wf(), w == (|p: PortIndex| outw(g, node_set@, p)),
    inputs@ + keep(__it1.rest(), w) + flat(__it0.rest(), fi) =~= ci, outputs@ + fo(node) + flat(__it0.rest(), fo) =~= co,
    forall|k: int| #![trigger __it1.rest()[k]] 0 <= k < __it1.rest().len() ==> __it1.rest()[k].wf() && g.pn(__it1.rest()[k].i()) >= 0,
decreases __it1.rest().len(),
--- loop 2
invariant_except_break !__any,
invariant __it2.ok(), g == *graph, g.gok(), lok(g, __it2.rest()), __it2.rest().len() <= g.lp(p.i()).len(), __it2.rest() =~= g.lp(p.i()).skip(g.lp(p.i()).len() - __it2.rest().len()),
    forall|j: int| #![trigger g.lp(p.i())[j]] 0 <= j < g.lp(p.i()).len() - __it2.rest().len() && !__any ==> node_set@.contains(NodeIndex::mk(g.pn(epi(g.lp(p.i())[j].1)))),
    __any ==> outw(g, node_set@, *p),
ensures __any == outw(g, node_set@, *p),
decreases __it2.rest().len(),
--- hint loop2.start
let ghost j0 = g.lp(p.i()).len() - __it2.rest().len() - 1;
proof { g.laws(); assert(lok(g, g.lp(p.i())) && g.pn(epi(g.lp(p.i())[j0].1)) >= 0); }
--- hint before loop2
proof { g.laws(); }
--- loop 3
invariant __it3.ok(), g == *graph, g.gok(), node.wf(), w == (|p: PortIndex| outw(g, node_set@, p)),
    outputs@ + keep(__it3.rest(), w) + flat(__it0.rest(), fo) =~= co, inputs@ + flat(__it0.rest(), fi) =~= ci,
    forall|k: int| #![trigger __it3.rest()[k]] 0 <= k < __it3.rest().len() ==> __it3.rest()[k].wf() && g.pn(__it3.rest()[k].i()) >= 0,
decreases __it3.rest().len(),
--- loop 4
invariant_except_break !__any,
invariant __it4.ok(), g == *graph, g.gok(), lok(g, __it4.rest()), __it4.rest().len() <= g.lp(p.i()).len(), __it4.rest() =~= g.lp(p.i()).skip(g.lp(p.i()).len() - __it4.rest().len()),
    forall|j: int| #![trigger g.lp(p.i())[j]] 0 <= j < g.lp(p.i()).len() - __it4.rest().len() && !__any ==> node_set@.contains(NodeIndex::mk(g.pn(epi(g.lp(p.i())[j].1)))),
    __any ==> outw(g, node_set@, *p),
ensures __any == outw(g, node_set@, *p),
decreases __it4.rest().len(),
--- hint loop4.start
let ghost j0 = g.lp(p.i()).len() - __it4.rest().len() - 1;
proof { g.laws(); assert(lok(g, g.lp(p.i())) && g.pn(epi(g.lp(p.i())[j0].1)) >= 0); }
--- hint before loop4
proof { g.laws(); }
=== fn view::subgraph Subgraph::node_count
--- spec
ensures r == self.nodes@.len(), r == self.nodes.seq().len(),
--- hint start
proof { self.nodes.axioms(); }
=== fn view::subgraph Subgraph::is_empty
--- spec
ensures r == (self.nodes@ == Set::<NodeIndex>::empty()),
=== fn view::subgraph Subgraph::nodes_iter rettype=VIt<NodeIndex>
--- spec
ensures r.rest() == self.nodes.seq(),
=== fn view::subgraph Subgraph::contains_link
--- spec
requires self.wf(), self.graph.gok(), epw(__p1), self.graph.pn(epi(__p1.0)) >= 0, self.graph.pn(epi(__p1.1)) >= 0,
ensures r == inl(self.graph, self.inn(), __p1),
=== fn view::subgraph Subgraph::contains_endpoint
--- spec
requires self.wf(), self.graph.gok(), e.into_spec().wf(), self.graph.pn(epi(e)) >= 0,
ensures r == (self.inn())(self.graph.pn(epi(e))),
=== fn view::subgraph Subgraph::contains_node
--- spec
requires node.wf(),
ensures r == (self.inn())(node.i()),
=== fn view::subgraph Subgraph::contains_port
--- spec
requires self.wf(), self.graph.gok(), port.wf(),
ensures r == (self.graph.pn(port.i()) >= 0 && (self.inn())(self.graph.pn(port.i()))),
=== fn view::subgraph Subgraph::get_connections rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), from.wf(), to.wf(),
ensures r.rest() == (if (self.inn())(from.i()) && (self.inn())(to.i()) { self.graph.lc(from.i(), to.i()) } else { Seq::empty() }),
--- loop 0
invariant __it0.ok(), __out.rest() + __it0.rest() =~= self.graph.lc(from.i(), to.i()),
decreases __it0.rest().len(),
=== fn view::subgraph Subgraph::port_links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), port.wf(), self.graph.pn(port.i()) >= 0,
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.lp(port.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.lp(port.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::subgraph Subgraph::links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.ld(node.i(), direction)),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.ld(node.i(), direction)), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::subgraph Subgraph::all_links rettype=VList<(G::LinkEndpoint,G::LinkEndpoint)>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == links_in(self.graph, self.inn(), self.graph.la(node.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + links_in(self.graph, self.inn(), __it0.rest()) =~= links_in(self.graph, self.inn(), self.graph.la(node.i())), lok(self.graph, __it0.rest()),
decreases __it0.rest().len(),
=== fn view::subgraph Subgraph::neighbours rettype=VList<NodeIndex>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == nodes_in(self.inn(), self.graph.nd(node.i(), direction)),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + nodes_in(self.inn(), __it0.rest()) =~= nodes_in(self.inn(), self.graph.nd(node.i(), direction)),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
=== fn view::subgraph Subgraph::all_neighbours rettype=VList<NodeIndex>
--- spec
requires self.wf(), self.graph.gok(), node.wf(),
ensures r.rest() == nodes_in(self.inn(), self.graph.na(node.i())),
--- hint start
proof { self.graph.laws(); }
--- loop 0
invariant __it0.ok(), __out.rest() + nodes_in(self.inn(), __it0.rest()) =~= nodes_in(self.inn(), self.graph.na(node.i())),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
=== fn view::subgraph Subgraph::ports_iter rettype=VList<PortIndex>
--- spec
requires self.wf(), self.graph.gok(),
ensures r.rest() == flat(self.nodes.seq(), |n: NodeIndex| self.graph.sa(n.i())),
--- hint start
let ghost f = |n: NodeIndex| self.graph.sa(n.i());
let ghost s = self.nodes.seq();
proof { self.nodes.axioms(); assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies s[k].wf() by { assert(s.contains(s[k])); } }
--- loop 0
invariant __it0.ok(), __it0.rest().len() <= s.len(), drf(__it0.rest()) =~= s.skip(s.len() - __it0.rest().len()), __out.rest() + flat(s.skip(s.len() - __it0.rest().len()), f) =~= flat(s, f),
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].wf(),
decreases __it0.rest().len(),
--- hint before loop0
proof { assert(s.skip(0) =~= s); }
--- hint loop0.start
proof {
    let k = s.len() - __it0.rest().len();
    assert(s.skip(k - 1).skip(1) =~= s.skip(k));
    assert(s.skip(k - 1)[0] == s[k - 1]);
    assert(drf(__it0.rest()).len() == __it0.rest().len());
}
--- loop 1
invariant __it1.ok(), __out.rest() + __it1.rest() + flat(s.skip(s.len() - __it0.rest().len()), f) =~= flat(s, f),
decreases __it1.rest().len(),
=== fn view::subgraph Subgraph::port_count
--- spec
requires self.wf(), self.graph.gok(),
ensures r == flat(self.nodes.seq(), |n: NodeIndex| self.graph.sa(n.i())).len(),
=== fn view::subgraph Subgraph::link_count
--- spec
requires self.wf(), self.graph.gok(),
ensures r == flat(self.nodes.seq(), |n: NodeIndex| links_in(self.graph, self.inn(), self.graph.ld(n.i(), Direction::Outgoing))).len(),
--- hint start
proof { self.nodes.axioms(); let s = self.nodes.seq(); assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies s[k].wf() by { assert(s.contains(s[k])); } }
let ghost f = |n: NodeIndex| links_in(self.graph, self.inn(), self.graph.ld(n.i(), Direction::Outgoing));
--- loop 0
invariant __it0.ok(), __out.rest() + flat(__it0.rest(), f) =~= flat(self.nodes.seq(), f),
    forall|k: int| #![trigger __it0.rest()[k]] 0 <= k < __it0.rest().len() ==> __it0.rest()[k].wf(),
decreases __it0.rest().len(),
--- loop 1
invariant __it1.ok(), __out.rest() + __it1.rest() + flat(__it0.rest(), f) =~= flat(self.nodes.seq(), f),
decreases __it1.rest().len(),
