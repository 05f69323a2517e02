=== default P=G05
=== raw pgq
impl PortGraph {
    /// The k-th port of node n in direction d, or -1.
    pub open spec fn port_id(self, n: int, d: Direction, k: int) -> int {
        if self.has_node(n) && 0 <= k < self.m(n).num(d) { self.m(n).at(d) + k } else { -1 }
    }
    pub open spec fn offset_of(self, p: int) -> int { p - self.m(self.pnode(p)).at(self.pdir(p)) }
}
/// What the invariant says about a port and about a node.
pub proof fn lemma_port(g: PortGraph, p: int)
    requires g.wf(), g.has_port(p),
    ensures
        p <= max_ix(), 0 <= g.pnode(p) <= max_ix(),
        pmeta(g.port_meta@, p).wf(), g.has_node(g.pnode(p)), g.m(g.pnode(p)).wf(),
        g.m(g.pnode(p)).inc() <= PortOffset::max_o(), g.m(g.pnode(p)).out() <= PortOffset::max_o(),
        g.m(g.pnode(p)).at(g.pdir(p)) <= p < g.m(g.pnode(p)).at(g.pdir(p)) + g.m(g.pnode(p)).num(g.pdir(p)),
{
    reveal(nodes_ok); reveal(ports_ok);
    let ow = choose|ow: Seq<Owner>| g.wf_ow(ow);
    let pm = g.port_meta@;
    assert(port_at(g.node_meta@, pm, p));
    let n = g.pnode(p);
    assert(live(g.node_meta@, n));
    assert(node_at(g.node_meta@, g.port_link@, pm, ow, n));
    let m = meta(g.node_meta@, n);
    lemma_mk(n, Direction::Incoming); lemma_mk(n, Direction::Outgoing);
    if p < m.first() + m.inc() { assert(pm[p] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming))); }
    else { assert(pm[p] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing))); }
}
pub proof fn lemma_node(g: PortGraph, n: int)
    requires g.wf(), g.has_node(n),
    ensures
        n <= max_ix(),
        g.m(n).wf(), g.m(n).first() + g.m(n).cap() <= g.port_meta.len() <= max_ix() + 1,
        g.m(n).inc() <= PortOffset::max_o(), g.m(n).out() <= PortOffset::max_o(),
        forall|d: Direction, p: int| #![trigger g.m(n).at(d), g.pnode(p)] g.m(n).at(d) <= p < g.m(n).at(d) + g.m(n).num(d) ==> g.has_port(p) && g.pnode(p) == n && g.pdir(p) == d,
{
    reveal(nodes_ok);
    let ow = choose|ow: Seq<Owner>| g.wf_ow(ow);
    let pm = g.port_meta@;
    assert(live(g.node_meta@, n));
    assert(node_at(g.node_meta@, g.port_link@, pm, ow, n));
    let m = meta(g.node_meta@, n);
    lemma_mk(n, Direction::Incoming); lemma_mk(n, Direction::Outgoing);
    assert forall|d: Direction, p: int| #![trigger g.m(n).at(d), g.pnode(p)] g.m(n).at(d) <= p < g.m(n).at(d) + g.m(n).num(d) implies g.has_port(p) && g.pnode(p) == n && g.pdir(p) == d by {
        if p < m.first() + m.inc() { assert(pm[p] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming))); }
        else { assert(pm[p] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing))); }
    }
}
/// `port_index` and (`port_node`, `port_offset`) are inverse: the ports of a node are numbered 0..num_ports per direction.
pub proof fn theorem_index_offset(g: PortGraph, n: int, d: Direction, k: int, p: int)
    requires g.wf(),
    ensures
        g.has_port(p) ==> g.port_id(g.pnode(p), g.pdir(p), g.offset_of(p)) == p,
        g.port_id(n, d, k) >= 0 ==> g.has_port(g.port_id(n, d, k)) && g.pnode(g.port_id(n, d, k)) == n && g.pdir(g.port_id(n, d, k)) == d && g.offset_of(g.port_id(n, d, k)) == k,
{
    if g.has_port(p) { lemma_port(g, p); }
    if g.port_id(n, d, k) >= 0 { lemma_node(g, n); let q = g.port_id(n, d, k); assert(g.pnode(q) == n); }
}
=== fn portgraph PortGraph::port_direction
--- spec
ensures r == (if self.has_port(port.into_spec().i()) { Some(self.pdir(port.into_spec().i())) } else { None::<Direction> })
=== fn portgraph PortGraph::port_node
--- spec
requires self.wf(),
ensures r == (if self.has_port(port.into_spec().i()) { Some(NodeIndex::mk(self.pnode(port.into_spec().i()))) } else { None::<NodeIndex> }),
    r matches Some(n) ==> n.wf() && n.i() == self.pnode(port.into_spec().i()) && self.has_node(n.i()),
--- hint start
proof { let p = port.into_spec().i(); if self.has_port(p) { lemma_port(*self, p); } }
=== fn portgraph PortGraph::port_offset
--- spec
requires self.wf(),
ensures
    r.is_some() == self.has_port(port.into_spec().i()),
    r matches Some(o) ==> o.wf() && o.i() == self.offset_of(port.into_spec().i()) && o.dir() == self.pdir(port.into_spec().i()),
--- hint start
proof { let p = port.into_spec().i(); if self.has_port(p) { lemma_port(*self, p); } }
=== fn portgraph PortGraph::port_index
--- spec
requires self.wf(), offset.wf(),
ensures
    r.is_some() == (self.port_id(node.i(), offset.dir(), offset.i()) >= 0),
    r matches Some(p) ==> p.wf() && p.i() == self.port_id(node.i(), offset.dir(), offset.i()),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
=== fn portgraph PortGraph::input
--- spec
requires self.wf(),
ensures
    r.is_some() == (self.port_id(node.i(), Direction::Incoming, offset as int) >= 0),
    r matches Some(p) ==> p.wf() && p.i() == self.port_id(node.i(), Direction::Incoming, offset as int),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
=== fn portgraph PortGraph::output
--- spec
requires self.wf(),
ensures
    r.is_some() == (self.port_id(node.i(), Direction::Outgoing, offset as int) >= 0),
    r matches Some(p) ==> p.wf() && p.i() == self.port_id(node.i(), Direction::Outgoing, offset as int),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
=== fn portgraph PortGraph::num_ports
--- spec
requires self.wf(),
ensures r == (if self.has_node(node.i()) { self.m(node.i()).num(direction) } else { 0 }),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
=== fn portgraph PortGraph::contains_node
--- spec
ensures r == self.has_node(node.i()),
=== fn portgraph PortGraph::contains_port
--- spec
ensures r == self.has_port(port.i()),
=== fn portgraph PortGraph::is_empty
--- spec
requires self.wf(),
ensures r == (forall|n: int| !self.has_node(n)), r ==> (forall|p: int| !self.has_port(p)),
--- hint start
proof {
    let nm = self.node_meta@; let pm = self.port_meta@;
    let f = nf_(nm); let h = pf_(pm);
    if forall|n: int| !self.has_node(n) {
        assert forall|n: int| #![trigger f(n)] 0 <= n < nm.len() implies f(n) == false by { assert(!self.has_node(n)); }
        cnt_const(f, false, 0, nm.len() as int);
        assert forall|p: int| #![trigger h(p)] 0 <= p < pm.len() implies h(p) == false by { if self.has_port(p) { lemma_port(*self, p); assert(self.has_node(self.pnode(p))); } }
        cnt_const(h, false, 0, pm.len() as int);
    } else {
        let n = choose|n: int| self.has_node(n);
        cnt_pos(f, 0, nm.len() as int, n);
    }
    assert forall|p: int| self.has_port(p) implies self.node_count > 0 by { lemma_port(*self, p); cnt_pos(f, 0, nm.len() as int, self.pnode(p)); }
}
=== fn portgraph PortGraph::node_count P=G01,G05
--- spec
requires self.wf(),
ensures r == n_nodes(self.node_meta@),
=== fn portgraph PortGraph::port_count P=G01,G05
--- spec
requires self.wf(),
ensures r == n_ports(self.port_meta@),
=== fn portgraph PortGraph::link_count P=G02,G05
--- spec
requires self.wf(),
ensures r == n_links(self.port_link@, self.port_meta@),
=== fn portgraph PortGraph::node_port_capacity
--- spec
requires self.wf(),
ensures r == (if self.has_node(node.i()) { self.m(node.i()).cap() } else { 0 }), self.has_node(node.i()) ==> r >= self.m(node.i()).tot(),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
=== fn portgraph PortGraph::node_outgoing_ports
--- spec
requires self.wf(),
ensures self.has_node(node.i()) ==> r.start == self.m(node.i()).at(Direction::Outgoing) && r.end == r.start + self.m(node.i()).out(),
    !self.has_node(node.i()) ==> r.start == 0 && r.end == 0,
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
