=== default P=G05
=== type portgraph::iter NodePorts derive=none
=== raw node_ports_iter
/// The ports a..b.
pub open spec fn pseq(a: int, b: int) -> Seq<PortIndex> {
    Seq::new(if a <= b { (b - a) as nat } else { 0 }, |j: int| PortIndex::mk(a + j))
}
impl NodePorts {
    pub open spec fn seq(self) -> Seq<PortIndex> { pseq(self.indices.start as int, self.indices.end as int) }
    pub open spec fn wf(self) -> bool { self.indices.end <= max_ix() + 1 }
    /// `#[derive(Default)]`
    pub fn default() -> (r: Self) ensures r.indices.start == 0, r.indices.end == 0 { NodePorts { indices: VRange { start: 0, end: 0 } } }
}
impl VIter for NodePorts {
    type Item = PortIndex;
    open spec fn rest(self) -> Seq<PortIndex> { self.seq() }
    open spec fn ok(self) -> bool { self.wf() }
    fn v_next(&mut self) -> (r: Option<PortIndex>) { self.next() }
}
impl VIntoIter for NodePorts {
    type It = NodePorts;
    open spec fn iok(self) -> bool { self.wf() }
    open spec fn irest(self) -> Seq<PortIndex> { self.seq() }
    open spec fn ieq(self, r: NodePorts) -> bool { r == self }
    fn v_into_iter(self) -> (r: NodePorts) { self }
}
=== fn portgraph::iter NodePorts::as_range
--- spec
ensures r == self.indices
=== fn portgraph::iter NodePorts::next of=Iterator assoc=Item:PortIndex
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- hint end
proof { assert(self.seq() =~= (if __ret is Some { old(self).seq().skip(1) } else { old(self).seq() })); }
=== fn portgraph::iter NodePorts::nth of=Iterator assoc=Item:PortIndex
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    r == (if n < old(self).seq().len() { Some(old(self).seq()[n as int]) } else { None::<PortIndex> }),
    final(self).seq() == (if n < old(self).seq().len() { old(self).seq().skip(n + 1) } else { Seq::empty() }),
--- hint end
proof { assert(self.seq() =~= (if n < old(self).seq().len() { old(self).seq().skip(n + 1) } else { Seq::empty() })); }
=== fn portgraph::iter NodePorts::count of=Iterator
--- spec
ensures r == self.seq().len()
=== fn portgraph::iter NodePorts::size_hint of=Iterator
--- spec
ensures r == (self.seq().len() as usize, Some(self.seq().len() as usize))
=== fn portgraph::iter NodePorts::len of=ExactSizeIterator
--- spec
ensures r == self.seq().len()
=== fn portgraph::iter NodePorts::next_back of=DoubleEndedIterator assoc=Item:PortIndex
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last(),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- hint end
proof { assert(self.seq() =~= (if __ret is Some { old(self).seq().drop_last() } else { old(self).seq() })); }
=== raw port_seqs
impl PortGraph {
    /// The ports of node n in a direction, in order.
    pub open spec fn dports(self, n: int, d: Direction) -> Seq<PortIndex> {
        if self.has_node(n) { pseq(self.m(n).at(d), self.m(n).at(d) + self.m(n).num(d)) } else { Seq::empty() }
    }
    pub open spec fn aports(self, n: int) -> Seq<PortIndex> {
        if self.has_node(n) { pseq(self.m(n).first(), self.m(n).first() + self.m(n).tot()) } else { Seq::empty() }
    }
}
=== fn portgraph::iter PortGraph::_ports P=G05,G06,S02
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dports(node.i(), direction),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
--- hint end
proof { assert(__ret.seq() =~= self.dports(node.i(), direction)); }
=== fn portgraph::iter PortGraph::_inputs P=G05,G06,S02
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dports(node.i(), Direction::Incoming),
=== fn portgraph::iter PortGraph::_outputs P=G05,G06,S02
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dports(node.i(), Direction::Outgoing),
=== fn portgraph::iter PortGraph::_all_ports P=G05,G06,S02
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.aports(node.i()),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
--- hint end
proof { assert(__ret.seq() =~= self.aports(node.i())); }
