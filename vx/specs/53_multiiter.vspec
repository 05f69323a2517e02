=== default P=M01 tn:Nodes=MNodes tn:Ports=MPorts tn:NodeLinks=MNodeLinks tn:Neighbours=MNeighbours tn:NodeConnections=MNodeConnections tn:PortLinks=PortLinks tn:NodeSubports=NodeSubports
=== raw multi_enum
/// `Enumerate<NodePorts>`
pub struct Enumerate<I> { pub it: I, pub n: usize }
impl NodePorts {
    pub fn enumerate(self) -> (r: Enumerate<NodePorts>) ensures r.it == self, r.n == 0 { Enumerate { it: self, n: 0 } }
}
impl Enumerate<NodePorts> {
    pub open spec fn ok(self) -> bool { self.it.wf() && self.n + self.it.seq().len() <= 0xffff_ffff }
    pub fn next(&mut self) -> (r: Option<(usize, PortIndex)>)
        requires old(self).ok(),
        ensures final(self).ok(),
            match r {
                Some(x) => old(self).it.seq().len() > 0 && x.1.wf() && x == (old(self).n, old(self).it.seq()[0]) && final(self).it.seq() == old(self).it.seq().skip(1) && final(self).n == old(self).n + 1,
                None => old(self).it.seq().len() == 0 && final(self).it.seq() == old(self).it.seq() && final(self).n == old(self).n,
            },
    { let x = self.it.next(); match x { Some(p) => { let k = self.n; self.n = self.n + 1; Some((k, p)) } None => None } }
    pub fn next_back(&mut self) -> (r: Option<(usize, PortIndex)>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).n == old(self).n,
            match r {
                Some(x) => old(self).it.seq().len() > 0 && x.1.wf() && x == ((old(self).n + old(self).it.seq().len() - 1) as usize, old(self).it.seq().last()) && final(self).it.seq() == old(self).it.seq().drop_last(),
                None => old(self).it.seq().len() == 0 && final(self).it.seq() == old(self).it.seq(),
            },
    { let x = self.it.next_back(); match x { Some(p) => Some((self.n + self.it.len(), p)), None => None } }
    pub fn len(&self) -> (r: usize) ensures r == self.it.seq().len() { self.it.len() }
}
=== type multiportgraph::iter PortLinks derive=none
=== raw multi_links
impl MultiPortGraph {
    /// The links of the subports a..b of port p.
    pub open spec fn psl(self, p: int, a: int, b: int) -> Seq<((int, int), (int, int))>
        decreases b - a,
    { if a >= b { Seq::empty() } else { self.psl(p, a, b - 1) + (match self.slink(p, b - 1) { Some(t) => seq![((p, b - 1), t)], None => Seq::empty() }) } }
    /// The links of port p.
    pub open spec fn plinks(self, p: int) -> Seq<((int, int), (int, int))> { self.psl(p, 0, self.nsub(p)) }
}
pub open spec fn v2(x: (SubportIndex, SubportIndex)) -> ((int, int), (int, int)) { (x.0.v(), x.1.v()) }
/// The links a..b, from the front.
pub proof fn lemma_psl(g: MultiPortGraph, p: int, a: int, b: int)
    requires a < b,
    ensures g.psl(p, a, b) == (match g.slink(p, a) { Some(t) => seq![((p, a), t)], None => Seq::empty() }) + g.psl(p, a + 1, b),
    decreases b - a,
{
    let l = match g.slink(p, b - 1) { Some(t) => seq![((p, b - 1), t)], None => Seq::empty() };
    if a + 1 < b { lemma_psl(g, p, a, b - 1); assert(g.psl(p, a + 1, b) == g.psl(p, a + 1, b - 1) + l); }
    else { assert(g.psl(p, a, a) =~= Seq::empty()); assert(g.psl(p, b, b) =~= Seq::empty()); }
    assert(g.psl(p, a, b) == g.psl(p, a, b - 1) + l);
    assert(g.psl(p, a, b) =~= (match g.slink(p, a) { Some(t) => seq![((p, a), t)], None => Seq::empty() }) + g.psl(p, a + 1, b));
}
impl<'a> PortLinks<'a> {
    pub open spec fn g(self) -> MultiPortGraph { match self { PortLinks::SinglePort { multigraph, .. } => *multigraph, PortLinks::Multiport { multigraph, .. } => *multigraph } }
    pub open spec fn p(self) -> int { match self { PortLinks::SinglePort { port, .. } => port.i(), PortLinks::Multiport { port, .. } => port.i() } }
    pub open spec fn lo(self) -> int { match self { PortLinks::SinglePort { empty, .. } => if empty { 1 } else { 0 }, PortLinks::Multiport { subports, .. } => subports.n as int } }
    pub open spec fn hi(self) -> int { match self { PortLinks::SinglePort { .. } => 1, PortLinks::Multiport { subports, .. } => subports.n + subports.it.seq().len() } }
    pub open spec fn wf(self) -> bool {
        &&& self.g().graph.wf() && self.g().wf_s() && self.g().up(self.p())
        &&& match self {
            PortLinks::SinglePort { port, multigraph, .. } => port.wf() && !multigraph.mp(port.i()),
            PortLinks::Multiport { multigraph, port, subports } => port.wf() && multigraph.mp(port.i()) && subports.ok() && self.hi() <= multigraph.nsub(port.i())
                && forall|k: int| #![trigger subports.it.seq()[k]] 0 <= k < subports.it.seq().len() ==> subports.it.seq()[k].i() == multigraph.six(port.i(), subports.n + k),
        }
    }
    /// The links left.
    pub open spec fn seq(self) -> Seq<((int, int), (int, int))> { self.g().psl(self.p(), self.lo(), self.hi()) }
}
=== fn multiportgraph::iter port_links_single P=M01
--- spec
requires multigraph.graph.wf(), multigraph.wf_s(), port.wf(), multigraph.up(port.i()), !multigraph.mp(port.i()),
ensures match r { Some(x) => x.0.wf() && x.1.wf() && multigraph.slink(port.i(), 0) == Some(x.1.v()) && x.0.v() == (port.i(), 0int), None => multigraph.slink(port.i(), 0) is None },
--- hint start
hide(PortGraph::wf);
proof { lemma_sym(multigraph.graph); theorem_subports(*multigraph, port.i(), port.i(), 0); assert(multigraph.graph.link(port.i()) >= -1); let j = multigraph.graph.link(port.i()); assert(multigraph.graph.link(multigraph.graph.link(port.i())) == multigraph.graph.link(j)); }
=== fn multiportgraph::iter port_links_multiport P=M01
--- spec
requires multigraph.graph.wf(), multigraph.wf_s(), port.wf(), multigraph.has_sub(port.i(), subport_offset as int), copy_port_index.wf(), copy_port_index.i() == multigraph.six(port.i(), subport_offset as int),
ensures match r { Some(x) => x.0.wf() && x.1.wf() && multigraph.slink(port.i(), subport_offset as int) == Some(x.1.v()) && x.0.v() == (port.i(), subport_offset as int), None => multigraph.slink(port.i(), subport_offset as int) is None },
--- hint start
hide(PortGraph::wf);
proof { let i = copy_port_index.i(); lemma_sym(multigraph.graph); theorem_subports(*multigraph, 0, port.i(), subport_offset as int); lemma_sub_k(*multigraph, port.i(), subport_offset as int); assert(multigraph.graph.link(i) >= -1); assert(multigraph.graph.link(multigraph.graph.link(i)) == multigraph.graph.link(multigraph.graph.link(i))); }
=== fn multiportgraph::iter PortLinks::new on=PortLinks<'a> impl=<'a>
--- spec
requires multigraph.graph.wf(), multigraph.wf_s(), port.wf(), multigraph.up(port.i()),
ensures r.wf(), r.g() == *multigraph, r.p() == port.i(), r.seq() == multigraph.plinks(port.i()),
--- hint start
hide(PortGraph::wf);
proof { let g = *multigraph; let p = port.i(); if g.mp(p) { lemma_mp(g, p); let c = g.graph.pnode(g.graph.link(p)); lemma_copy(g, c); lemma_node(g.graph, c); lemma_dports(g.graph, c, g.graph.pdir(p)); } else { assert(g.plinks(p) == g.psl(p, 0, 1)); } }
=== raw multi_dports
pub proof fn lemma_dports(g: PortGraph, n: int, d: Direction)
    requires g.wf(), g.has_node(n),
    ensures g.dports(n, d).len() == g.m(n).num(d),
        forall|k: int| #![trigger g.dports(n, d)[k]] 0 <= k < g.m(n).num(d) ==> g.dports(n, d)[k].i() == g.port_id(n, d, k),
{
    lemma_node(g, n);
}
=== fn multiportgraph::iter PortLinks::next of=Iterator found=(SubportIndex,SubportIndex) assoc=Item:(SubportIndex,SubportIndex) on=PortLinks<'_>
--- spec
requires old(self).wf(),
ensures final(self).wf(), final(self).g() == old(self).g(), final(self).p() == old(self).p(),
    final(self).lo() <= final(self).hi() == old(self).hi() || final(self).lo() == old(self).lo(),
    match r {
        Some(x) => x.0.wf() && x.1.wf() && old(self).seq().len() > 0 && v2(x) == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- hint start
hide(PortGraph::wf);
let ghost g = old(self).g(); let ghost p = old(self).p(); let ghost hi = old(self).hi();
proof { if old(self).lo() < hi { lemma_psl(g, p, old(self).lo(), hi); assert(old(self).seq().len() > 0 ==> g.slink(p, old(self).lo()) is Some ==> old(self).seq().skip(1) =~= g.psl(p, old(self).lo() + 1, hi)); } }
--- loop 0
invariant_except_break __found0 is None, g.psl(p, subports.n as int, hi) == old(self).seq(),
invariant
    **multigraph == g, port.i() == p, port.wf(), g.mp(p), old(self).wf(), old(self).g() == g, old(self).p() == p, subports.ok(), subports.n + subports.it.seq().len() == hi, hi <= g.nsub(p), subports.n >= old(self).lo(),
    forall|k: int| #![trigger subports.it.seq()[k]] 0 <= k < subports.it.seq().len() ==> subports.it.seq()[k].i() == g.six(p, subports.n + k),
ensures
    g.psl(p, subports.n as int, hi) == (if __found0 is Some { old(self).seq().skip(1) } else { old(self).seq() }),
    match __found0 { Some(x) => x.0.wf() && x.1.wf() && old(self).seq().len() > 0 && v2(x) == old(self).seq()[0], None => old(self).seq().len() == 0 },
decreases subports.it.seq().len(),
--- hint loop0.start
let ghost n0 = subports.n as int;
let ghost s0 = subports.it.seq();
proof {
    if n0 < hi {
        lemma_psl(g, p, n0, hi);
        assert(s0.len() > 0); assert(s0[0].i() == g.six(p, n0));
        assert(g.slink(p, n0) is None ==> g.psl(p, n0, hi) =~= g.psl(p, n0 + 1, hi));
        assert(g.slink(p, n0) is Some ==> old(self).seq().skip(1) =~= g.psl(p, n0 + 1, hi));
        assert forall|k: int| 0 <= k < s0.len() - 1 implies (#[trigger] s0.skip(1)[k]).i() == g.six(p, n0 + 1 + k) by { assert(s0[k + 1].i() == g.six(p, n0 + (k + 1))); }
    }
}

=== fn multiportgraph::iter PortLinks::next_back of=DoubleEndedIterator assoc=Item:(SubportIndex,SubportIndex) on=PortLinks<'_>
--- spec
requires old(self).wf(),
ensures final(self).wf(), final(self).g() == old(self).g(), final(self).p() == old(self).p(),
    match r {
        Some(x) => x.0.wf() && x.1.wf() && old(self).seq().len() > 0 && v2(x) == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last(),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- hint start
hide(PortGraph::wf);
let ghost g = old(self).g(); let ghost p = old(self).p(); let ghost lo = old(self).lo();
proof { if lo < old(self).hi() { lemma_psl(g, p, lo, old(self).hi()); assert(old(self).hi() == lo + 1 ==> g.psl(p, lo, lo) =~= Seq::empty() && g.psl(p, lo + 1, lo + 1) =~= Seq::empty()); } }
--- loop 0
invariant
    **multigraph == g, port.i() == p, port.wf(), g.mp(p), old(self).wf(), old(self).g() == g, old(self).p() == p, subports.ok(), subports.n == lo, subports.n + subports.it.seq().len() <= g.nsub(p),
    g.psl(p, lo, subports.n + subports.it.seq().len()) == old(self).seq(),
    forall|k: int| #![trigger subports.it.seq()[k]] 0 <= k < subports.it.seq().len() ==> subports.it.seq()[k].i() == g.six(p, subports.n + k),
decreases subports.it.seq().len(),
--- hint loop0.start
let ghost s0 = subports.it.seq();
let ghost hi = lo + s0.len();
proof {
    if s0.len() > 0 {
        assert(s0.last().i() == g.six(p, hi - 1));
        assert(g.slink(p, hi - 1) is None ==> g.psl(p, lo, hi) =~= g.psl(p, lo, hi - 1));
        assert(g.slink(p, hi - 1) is Some ==> old(self).seq().drop_last() =~= g.psl(p, lo, hi - 1));
        assert forall|k: int| 0 <= k < s0.len() - 1 implies (#[trigger] s0.drop_last()[k]).i() == g.six(p, lo + k) by { assert(s0[k].i() == g.six(p, lo + k)); }
    }
}
=== fn multiportgraph::iter MultiPortGraph::_port_links
--- spec
requires self.graph.wf(), self.wf_s(), port.wf(), self.up(port.i()),
ensures r.wf(), r.g() == *self, r.p() == port.i(), r.seq() == self.plinks(port.i()),
=== fn multiportgraph MultiPortGraph::port_links rettype=PortLinks<'_>
--- spec
requires self.graph.wf(), self.wf_s(), port.wf(), self.up(port.i()),
ensures r.wf(), r.g() == *self, r.p() == port.i(), r.seq() == self.plinks(port.i()),
