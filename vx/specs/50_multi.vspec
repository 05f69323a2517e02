=== default P=M01,M02
=== raw multi_prelude
impl BitVec {
    /// `*map.get(key)`
    pub fn sm_getb<K: VKey>(&self, k: K) -> (r: bool) requires kw(k), ensures r == self.at(ki(k)) { *self.sm_get(k) }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).bits().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self) ensures final(self).bits() == old(self).bits() { unimplemented!() }
}
=== type multiportgraph MultiPortGraph derive=none
=== type multiportgraph SubportIndex derive=Clone,Copy,PartialEq,Eq,Structural
=== raw multi_wf
impl SubportIndex {
    pub open spec fn wf(self) -> bool { self.port.wf() }
    pub open spec fn p(self) -> int { self.port.i() }
    pub open spec fn k(self) -> int { self.subport_offset as int }
    pub open spec fn is(self, x: (int, int)) -> bool { self.wf() && self.p() == x.0 && self.k() == x.1 }
    pub open spec fn v(self) -> (int, int) { (self.p(), self.k()) }
}
impl MultiPortGraph {
    /// Marked ports: the two ends of the link between a port and its copy node.
    pub open spec fn mp(self, p: int) -> bool { self.multiport.at(p) }
    pub open spec fn cp(self, n: int) -> bool { self.copy_node.at(n) }
    /// Direction of the port of a copy node that leads to the main node.
    pub open spec fn cdir(self, n: int) -> Direction {
        if self.graph.m(n).inc() == 1 && self.mp(self.graph.m(n).at(Direction::Incoming)) { Direction::Incoming } else { Direction::Outgoing }
    }
    pub open spec fn cport(self, n: int) -> int { self.graph.m(n).at(self.cdir(n)) }
    pub open spec fn copy_ok(self, n: int) -> bool {
        &&& self.graph.has_node(n)
        &&& self.graph.m(n).num(self.cdir(n)) == 1
        &&& self.graph.m(n).num(rev_dir(self.cdir(n))) >= 1
        &&& self.mp(self.cport(n))
        &&& forall|p: int| #![trigger self.mp(p)] self.mp(p) && self.graph.owns(n, p) ==> p == self.cport(n)
    }
    pub open spec fn mp_ok(self, p: int) -> bool {
        let q = self.graph.link(p);
        &&& self.graph.has_port(p) && q >= 0 && self.mp(q)
        &&& self.cp(self.graph.pnode(p)) != self.cp(self.graph.pnode(q))
    }
    pub open spec fn cpf(self) -> spec_fn(int) -> bool { |n: int| self.cp(n) }
    /// Ports of copy nodes.
    pub open spec fn icf(self) -> spec_fn(int) -> bool { |p: int| self.graph.has_port(p) && self.cp(self.graph.pnode(p)) }
    pub open spec fn n_copies(self) -> int { cnt(self.cpf(), 0, self.graph.node_meta@.len() as int) }
    pub open spec fn n_inner(self) -> int { cnt(self.icf(), 0, self.graph.port_meta@.len() as int) }
    /// The structure of copy nodes and marked ports.
    pub open spec fn wf_s(self) -> bool {
        &&& forall|n: int| #![trigger self.cp(n)] self.cp(n) ==> self.copy_ok(n)
        &&& forall|p: int| #![trigger self.mp(p)] self.mp(p) ==> self.mp_ok(p)
    }
    pub open spec fn wf(self) -> bool {
        &&& self.graph.wf()
        &&& self.wf_s()
        &&& self.copy_node_count == self.n_copies()
        &&& self.subport_count + self.copy_node_count == self.n_inner()
    }

    // ---- the abstract view ----
    /// Nodes and ports of the user.
    pub open spec fn un(self, n: int) -> bool { self.graph.has_node(n) && !self.cp(n) }
    pub open spec fn up(self, p: int) -> bool { self.graph.has_port(p) && !self.cp(self.graph.pnode(p)) }
    /// Number of subports of a port.
    pub open spec fn nsub(self, p: int) -> int {
        if self.mp(p) { self.graph.m(self.graph.pnode(self.graph.link(p))).num(self.graph.pdir(p)) } else { 1 }
    }
    pub open spec fn has_sub(self, p: int, k: int) -> bool { self.up(p) && 0 <= k < self.nsub(p) }
    /// Where subport k of port p is, in the inner graph.
    pub open spec fn six(self, p: int, k: int) -> int {
        if self.mp(p) { self.graph.port_id(self.graph.pnode(self.graph.link(p)), self.graph.pdir(p), k) } else { p }
    }
    /// The subport that a port of the inner graph stands for.
    pub open spec fn sof(self, i: int) -> (int, int) {
        if self.cp(self.graph.pnode(i)) { (self.graph.link(self.cport(self.graph.pnode(i))), self.graph.offset_of(i)) } else { (i, 0) }
    }
    pub open spec fn slink(self, p: int, k: int) -> Option<(int, int)> {
        if self.has_sub(p, k) && self.graph.link(self.six(p, k)) >= 0 { Some(self.sof(self.graph.link(self.six(p, k)))) } else { None }
    }
}
/// A copy node has one marked port, linked to a marked port of a main node.
pub proof fn lemma_copy(g: MultiPortGraph, n: int)
    requires g.graph.wf(), g.wf_s(), g.cp(n),
    ensures
        g.copy_ok(n), n <= max_ix(),
        g.graph.owns(n, g.cport(n)), g.graph.pdir(g.cport(n)) == g.cdir(n), 0 <= g.cport(n) <= max_ix(),
        ({ let q = g.graph.link(g.cport(n));
            &&& 0 <= q <= max_ix() && g.mp(q) && g.up(q) && g.graph.link(q) == g.cport(n) && g.graph.pdir(q) == rev_dir(g.cdir(n))
            &&& g.nsub(q) == g.graph.m(n).num(rev_dir(g.cdir(n))) }),
{
    hide(PortGraph::wf);
    assert(g.copy_ok(n));
    lemma_node(g.graph, n);
    let c = g.cport(n);
    assert(g.graph.pnode(c) == n);
    lemma_sym(g.graph);
    assert(g.mp_ok(c));
    let q = g.graph.link(c);
    assert(g.graph.link(q) == c);
    lemma_port(g.graph, q);
}
/// A marked port is on a copy node or linked to one.
pub proof fn lemma_mp(g: MultiPortGraph, p: int)
    requires g.graph.wf(), g.wf_s(), g.mp(p),
    ensures
        g.mp_ok(p), 0 <= p <= max_ix(), g.graph.link(g.graph.link(p)) == p, g.graph.pdir(p) != g.graph.pdir(g.graph.link(p)),
        g.cp(g.graph.pnode(p)) ==> p == g.cport(g.graph.pnode(p)),
        !g.cp(g.graph.pnode(p)) ==> ({ let n = g.graph.pnode(g.graph.link(p));
            g.cp(n) && g.copy_ok(n) && g.graph.link(p) == g.cport(n) && g.cdir(n) == rev_dir(g.graph.pdir(p)) }),
{
    hide(PortGraph::wf);
    lemma_sym(g.graph);
    assert(g.mp_ok(p));
    let q = g.graph.link(p);
    lemma_port(g.graph, p);
    lemma_port(g.graph, q);
    assert(g.graph.link(q) == p);
    if !g.cp(g.graph.pnode(p)) {
        let n = g.graph.pnode(q);
        assert(g.copy_ok(n));
        assert(g.graph.owns(n, q));
        lemma_copy(g, n);
    } else { assert(g.copy_ok(g.graph.pnode(p))); assert(g.graph.owns(g.graph.pnode(p), p)); }
}
/// Subports and the unmarked ports of the inner graph are the same thing.
pub proof fn theorem_subports(g: MultiPortGraph, i: int, p: int, k: int)
    requires g.graph.wf(), g.wf_s(),
    ensures
        g.graph.has_port(i) && !g.mp(i) ==> ({ let s = g.sof(i); g.has_sub(s.0, s.1) && g.six(s.0, s.1) == i && g.graph.pdir(s.0) == g.graph.pdir(i) }),
        g.has_sub(p, k) ==> ({ let j = g.six(p, k); g.graph.has_port(j) && !g.mp(j) && g.sof(j) == (p, k) && g.graph.pdir(j) == g.graph.pdir(p) }),
{
    hide(PortGraph::wf);
    if g.graph.has_port(i) && !g.mp(i) {
        lemma_port(g.graph, i);
        let n = g.graph.pnode(i);
        if g.cp(n) {
            lemma_copy(g, n);
            lemma_node(g.graph, n);
            theorem_index_offset(g.graph, n, g.graph.pdir(i), 0, i);
            assert(g.graph.pdir(i) != g.cdir(n)) by { if g.graph.pdir(i) == g.cdir(n) { assert(i == g.cport(n)); } }
        }
    }
    if g.has_sub(p, k) && g.mp(p) {
        lemma_mp(g, p);
        let n = g.graph.pnode(g.graph.link(p));
        lemma_copy(g, n);
        let j = g.six(p, k);
        theorem_index_offset(g.graph, n, g.graph.pdir(p), k, j);
        assert(j >= 0);
        assert(g.graph.owns(n, j));
        if g.mp(j) { assert(j == g.cport(n)); }
    }
}
/// Links between subports are symmetric, and join opposite directions.
pub proof fn theorem_slink(g: MultiPortGraph, p: int, k: int)
    requires g.graph.wf(), g.wf_s(),
    ensures g.slink(p, k) matches Some((q, l)) ==> g.has_sub(q, l) && g.slink(q, l) == Some((p, k)) && g.graph.pdir(p) != g.graph.pdir(q),
{
    hide(PortGraph::wf);
    if g.slink(p, k) is Some {
        lemma_sym(g.graph);
        theorem_subports(g, 0, p, k);
        let i = g.six(p, k);
        let j = g.graph.link(i);
        assert(g.graph.link(j) == i);
        if g.mp(j) { lemma_mp(g, j); assert(g.mp(g.graph.link(j))); }
        theorem_subports(g, j, 0, 0);
    }
}
=== fn multiportgraph SubportIndex::new_unique
--- spec
ensures r.port == port, r.k() == 0,
=== fn multiportgraph SubportIndex::new_multi
--- spec
requires subport_offset < 65535,
ensures r.port == port, r.k() == subport_offset,
=== fn multiportgraph SubportIndex::new_multi panics as=new_multi__rejects P=G07
--- spec
ensures subport_offset < 65535, r.port == port, r.k() == subport_offset,
=== fn multiportgraph SubportIndex::port
--- spec
ensures r == self.port,
=== fn multiportgraph SubportIndex::offset
--- spec
ensures r == self.k(),
=== fn multiportgraph MultiPortGraph::port_direction
--- spec
ensures r == (if self.graph.has_port(port.into_spec().i()) { Some(self.graph.pdir(port.into_spec().i())) } else { None::<Direction> })
=== fn multiportgraph MultiPortGraph::port_node
--- spec
requires self.graph.wf(),
ensures r == (if self.graph.has_port(port.into_spec().i()) { Some(NodeIndex::mk(self.graph.pnode(port.into_spec().i()))) } else { None::<NodeIndex> }),
    r matches Some(n) ==> n.wf() && n.i() == self.graph.pnode(port.into_spec().i()) && self.graph.has_node(n.i()),
=== fn multiportgraph MultiPortGraph::is_multiport bits=multiport,copy_node
--- spec
requires port.wf(),
ensures r == self.mp(port.i()),
=== fn multiportgraph MultiPortGraph::is_copy_node bits=multiport,copy_node
--- spec
requires node.wf(),
ensures r == self.cp(node.i()),
=== fn multiportgraph MultiPortGraph::get_copy_node
--- spec
requires self.graph.wf(), port_index.wf(), self.graph.has_port(port_index.i()),
ensures
    r.is_some() == (self.graph.link(port_index.i()) >= 0),
    r matches Some(n) ==> n.wf() && n.i() == self.graph.pnode(self.graph.link(port_index.i())),
--- hint start
hide(PortGraph::wf);
proof { lemma_sym(self.graph); assert(self.graph.link(port_index.i()) >= -1); }
=== fn multiportgraph MultiPortGraph::copy_node_main_port bits=multiport,copy_node
--- spec
requires self.graph.wf(), self.wf_s(), copy_node.wf(), self.cp(copy_node.i()),
ensures r matches Some(p) && p.wf() && p.i() == self.graph.link(self.cport(copy_node.i())),
--- hint start
hide(PortGraph::wf);
proof { lemma_copy(*self, copy_node.i()); lemma_node(self.graph, copy_node.i()); }
=== fn multiportgraph MultiPortGraph::get_subport_index bits=multiport,copy_node
--- spec
requires self.graph.wf(), self.wf_s(), subport.wf(), subport.k() <= PortOffset::max_o(),
ensures
    self.has_sub(subport.p(), subport.k()) ==> r.is_some(),
    r.is_some() <==> self.six(subport.p(), subport.k()) >= 0,
    r matches Some(i) ==> i.wf() && i.i() == self.six(subport.p(), subport.k()),
--- hint start
hide(PortGraph::wf);
proof {
    let p = subport.p();
    lemma_sym(self.graph);
    if self.mp(p) { lemma_mp(*self, p); }
    theorem_subports(*self, 0, p, subport.k());
}
=== fn multiportgraph MultiPortGraph::get_subport_from_index bits=multiport,copy_node
--- spec
requires self.graph.wf(), self.wf_s(), index.wf(), self.graph.has_port(index.i()),
ensures r matches Some(s) && s.is(self.sof(index.i())),
--- hint start
hide(PortGraph::wf);
proof { lemma_port(self.graph, index.i()); if self.cp(self.graph.pnode(index.i())) { lemma_copy(*self, self.graph.pnode(index.i())); } }
=== fn multiportgraph MultiPortGraph::subport_link bits=multiport,copy_node
--- spec
requires self.graph.wf(), self.wf_s(), subport.wf(), self.has_sub(subport.p(), subport.k()),
ensures match r { Some(s) => s.wf() && self.slink(subport.p(), subport.k()) == Some(s.v()), None => self.slink(subport.p(), subport.k()) is None },
--- hint start
hide(PortGraph::wf);
proof {
    lemma_sym(self.graph); theorem_subports(*self, 0, subport.p(), subport.k());
    if self.mp(subport.p()) { lemma_mp(*self, subport.p()); lemma_node(self.graph, self.graph.pnode(self.graph.link(subport.p()))); }
    let j = self.six(subport.p(), subport.k()); assert(self.graph.link(j) >= -1); assert(self.graph.link(self.graph.link(j)) == self.graph.link(self.graph.link(j)));
}
=== raw multi_counts
/// An injection.
pub proof fn cnt_inj(f: spec_fn(int) -> bool, lo: int, hi: int, g: spec_fn(int) -> bool, a: int, b: int, h: spec_fn(int) -> int)
    requires
        forall|i: int| #![trigger f(i)] lo <= i < hi && f(i) ==> a <= h(i) < b && g(h(i)),
        forall|i: int, j: int| #![trigger f(i), f(j)] lo <= i < hi && lo <= j < hi && f(i) && f(j) && i != j ==> h(i) != h(j),
    ensures cnt(f, lo, hi) <= cnt(g, a, b),
    decreases hi - lo,
{
    if lo < hi {
        let x = hi - 1;
        if f(x) {
            let g2 = |k: int| g(k) && k != h(x);
            cnt_upd(g, g2, a, b, h(x));
            assert forall|i: int| #![trigger f(i)] lo <= i < x && f(i) implies a <= h(i) < b && g2(h(i)) by { assert(f(x)); }
            cnt_inj(f, lo, x, g2, a, b, h);
        } else { cnt_inj(f, lo, x, g, a, b, h); }
    } else { cnt_bounds(g, a, b); }
}
/// f is the disjoint union of g and h.
pub proof fn cnt_sum(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, h: spec_fn(int) -> bool, lo: int, hi: int)
    requires forall|i: int| #![trigger f(i)] #![trigger g(i)] #![trigger h(i)] lo <= i < hi ==> f(i) == (g(i) || h(i)) && !(g(i) && h(i)),
    ensures cnt(f, lo, hi) == cnt(g, lo, hi) + cnt(h, lo, hi),
    decreases hi - lo,
{ if lo < hi { cnt_sum(f, g, h, lo, hi - 1); assert(f(hi - 1) == (g(hi - 1) || h(hi - 1))); } }
/// The predicates agree, and are false beyond the shorter range.
pub proof fn cnt_len(f: spec_fn(int) -> bool, a: int, g: spec_fn(int) -> bool, b: int)
    requires 0 <= a, 0 <= b, forall|i: int| #![trigger f(i)] #![trigger g(i)] f(i) == g(i), forall|i: int| #![trigger f(i)] f(i) ==> 0 <= i < a && i < b,
    ensures cnt(f, 0, a) == cnt(g, 0, b),
{
    let m = if a < b { a } else { b };
    cnt_split(f, 0, m, a); cnt_split(g, 0, m, b);
    cnt_const(f, false, m, a); cnt_const(g, false, m, b);
    cnt_ext(f, g, 0, m);
}
impl MultiPortGraph {
    pub open spec fn unf(self) -> spec_fn(int) -> bool { |n: int| self.un(n) }
    pub open spec fn upf(self) -> spec_fn(int) -> bool { |p: int| self.up(p) }
    /// Links between subports, by their outgoing ends.
    pub open spec fn slf(self) -> spec_fn(int) -> bool { |i: int| self.graph.has_port(i) && !self.mp(i) && self.graph.pdir(i) == Direction::Outgoing && self.graph.link(i) >= 0 }
    pub open spec fn mof(self) -> spec_fn(int) -> bool { |i: int| self.graph.has_port(i) && self.mp(i) && self.graph.pdir(i) == Direction::Outgoing }
    /// The numbers of nodes, ports and links of the user.
    pub open spec fn n_un(self) -> int { cnt(self.unf(), 0, self.graph.node_meta@.len() as int) }
    pub open spec fn n_up(self) -> int { cnt(self.upf(), 0, self.graph.port_meta@.len() as int) }
    pub open spec fn n_sl(self) -> int { cnt(self.slf(), 0, self.graph.port_meta@.len() as int) }
    /// The outgoing end of the link of copy node n to its port.
    pub open spec fn cout(self, n: int) -> int { if self.cdir(n) == Direction::Outgoing { self.cport(n) } else { self.graph.link(self.cport(n)) } }
    pub open spec fn cof(self, p: int) -> int { if self.cp(self.graph.pnode(p)) { self.graph.pnode(p) } else { self.graph.pnode(self.graph.link(p)) } }
}
/// The counts of copy nodes and of their links agree.
pub proof fn lemma_copy_links(g: MultiPortGraph)
    requires g.graph.wf(), g.wf_s(),
    ensures cnt(g.mof(), 0, g.graph.port_meta@.len() as int) == g.n_copies(),
{
    hide(PortGraph::wf);
    let nn = g.graph.node_meta@.len() as int;
    let np = g.graph.port_meta@.len() as int;
    let f = g.cpf(); let h = g.mof();
    let to = |n: int| g.cout(n);
    let fro = |p: int| g.cof(p);
    assert forall|n: int| #![trigger f(n)] f(n) implies 0 <= n < nn && 0 <= g.cout(n) < np && h(g.cout(n)) && g.cof(g.cout(n)) == n by {
        lemma_copy(g, n);
        lemma_mp(g, g.cport(n)); lemma_sym(g.graph);
        assert(g.graph.link(g.graph.link(g.cport(n))) == g.cport(n));
    }
    assert forall|p: int| #![trigger h(p)] h(p) implies 0 <= p < np && 0 <= g.cof(p) < nn && f(g.cof(p)) && g.cout(g.cof(p)) == p by {
        lemma_mp(g, p);
        lemma_copy(g, g.cof(p));
        lemma_sym(g.graph);
        assert(g.graph.link(g.graph.link(p)) == p);
    }
    assert forall|i: int, j: int| #![trigger f(i), f(j)] f(i) && f(j) && i != j implies to(i) != to(j) by { assert(g.cof(g.cout(i)) == i); assert(g.cof(g.cout(j)) == j); }
    assert forall|i: int, j: int| #![trigger h(i), h(j)] h(i) && h(j) && i != j implies fro(i) != fro(j) by { assert(g.cout(g.cof(i)) == i); assert(g.cout(g.cof(j)) == j); }
    cnt_inj(f, 0, nn, h, 0, np, to);
    cnt_inj(h, 0, np, f, 0, nn, fro);
}
/// The counters give the numbers of the user's nodes, ports and links.
pub proof fn theorem_counts(g: MultiPortGraph)
    requires g.wf(),
    ensures
        g.graph.node_count - g.copy_node_count == g.n_un() >= 0,
        g.graph.port_count - g.subport_count - g.copy_node_count == g.n_up() >= 0,
        g.graph.link_count - g.copy_node_count == g.n_sl() >= 0,
        g.n_copies() <= max_ix() + 1, g.n_inner() <= max_ix() + 1,
{
    let nn = g.graph.node_meta@.len() as int;
    let np = g.graph.port_meta@.len() as int;
    assert forall|n: int| #![trigger g.cpf()(n)] g.cpf()(n) implies g.graph.has_node(n) by { assert(g.copy_ok(n)); }
    cnt_sum(nf_(g.graph.node_meta@), g.unf(), g.cpf(), 0, nn);
    cnt_sum(pf_(g.graph.port_meta@), g.upf(), g.icf(), 0, np);
    lemma_copy_links(g);
    lemma_sym(g.graph);
    assert forall|p: int| #![trigger g.mof()(p)] g.mof()(p) implies g.graph.link(p) >= 0 by { assert(g.mp_ok(p)); }
    cnt_sum(lf(g.graph.port_link@, g.graph.port_meta@), g.slf(), g.mof(), 0, np);
    cnt_bounds(g.unf(), 0, nn); cnt_bounds(g.upf(), 0, np); cnt_bounds(g.slf(), 0, np);
    cnt_bounds(g.cpf(), 0, nn); cnt_bounds(g.icf(), 0, np);
}
=== fn multiportgraph MultiPortGraph::contains_node bits=multiport,copy_node
--- spec
requires node.wf(),
ensures r == self.un(node.i()),
=== fn multiportgraph MultiPortGraph::contains_port bits=multiport,copy_node
--- spec
requires self.graph.wf(), port.wf(),
ensures r == self.up(port.i()),
=== fn multiportgraph MultiPortGraph::node_count
--- spec
requires self.wf(),
ensures r == self.n_un(),
--- hint start
proof { theorem_counts(*self); }
=== fn multiportgraph MultiPortGraph::port_count
--- spec
requires self.wf(),
ensures r == self.n_up(),
--- hint start
proof { theorem_counts(*self); }
=== fn multiportgraph MultiPortGraph::link_count
--- spec
requires self.wf(),
ensures r == self.n_sl(),
--- hint start
proof { theorem_counts(*self); }
=== fn multiportgraph MultiPortGraph::is_empty
--- spec
requires self.wf(),
ensures r == (forall|n: int| !self.un(n)),
--- hint start
proof {
    let nn = self.graph.node_meta@.len() as int;
    theorem_counts(*self);
    if forall|n: int| !self.un(n) { assert forall|n: int| #![trigger self.unf()(n)] self.unf()(n) == false by { assert(!self.un(n)); } cnt_const(self.unf(), false, 0, nn); }
    else { let n = choose|n: int| self.un(n); cnt_pos(self.unf(), 0, nn, n); }
}
=== fn multiportgraph MultiPortGraph::pg_main_node bits=multiport,copy_node
--- spec
requires self.graph.wf(), self.wf_s(), node.wf(),
ensures r.wf(), !self.cp(node.i()) ==> r == node,
    self.cp(node.i()) ==> r.i() == self.graph.pnode(self.graph.link(self.cport(node.i()))) && self.un(r.i()),
--- hint start
hide(PortGraph::wf);
proof { if self.cp(node.i()) { lemma_copy(*self, node.i()); lemma_port(self.graph, self.graph.link(self.cport(node.i()))); } }
=== fn multiportgraph MultiPortGraph::new
--- spec
ensures r.wf(), forall|n: int| !r.un(n), forall|p: int| !r.up(p),
--- hint end
proof { lemma_multi_empty(__ret); }
=== fn multiportgraph MultiPortGraph::with_capacity
--- spec
ensures r.wf(), forall|n: int| !r.un(n), forall|p: int| !r.up(p),
--- hint end
proof { lemma_multi_empty(__ret); }
=== fn multiportgraph MultiPortGraph::clear
--- spec
ensures final(self).wf(), forall|n: int| !final(self).un(n), forall|p: int| !final(self).up(p),
--- hint end
proof { lemma_multi_none(*self); }
=== raw multi_none
/// A graph without copy nodes.
pub proof fn lemma_multi_none(g: MultiPortGraph)
    requires g.graph.wf(), forall|p: int| !g.mp(p), forall|n: int| !g.cp(n), g.copy_node_count == 0, g.subport_count == 0,
    ensures g.wf(),
{
    cnt_const(g.cpf(), false, 0, g.graph.node_meta@.len() as int);
    cnt_const(g.icf(), false, 0, g.graph.port_meta@.len() as int);
}
pub proof fn lemma_multi_empty(g: MultiPortGraph)
    requires g.graph.wf(), g.multiport.bits().len() == 0, g.copy_node.bits().len() == 0, g.copy_node_count == 0, g.subport_count == 0, 
    ensures g.wf(),
{
    lemma_multi_none(g);
}
=== fn multiportgraph MultiPortGraph::reserve
--- spec
requires old(self).wf(),
ensures final(self).wf(), same_multi(*old(self), *final(self)),
--- hint end
proof { lemma_same_multi(*old(self), *self); }
=== fn multiportgraph MultiPortGraph::shrink_to_fit
--- spec
requires old(self).wf(),
ensures final(self).wf(), same_multi(*old(self), *final(self)),
--- hint end
proof { lemma_same_multi(*old(self), *self); }
=== raw same_multi
pub open spec fn same_multi(g0: MultiPortGraph, g1: MultiPortGraph) -> bool {
    &&& g1.graph.node_meta@ == g0.graph.node_meta@ && g1.graph.port_meta@ == g0.graph.port_meta@ && g1.graph.port_link@ == g0.graph.port_link@
    &&& forall|p: int| #![trigger g1.mp(p)] g1.mp(p) == g0.mp(p)
    &&& forall|n: int| #![trigger g1.cp(n)] g1.cp(n) == g0.cp(n)
}
pub proof fn lemma_same_multi(g0: MultiPortGraph, g1: MultiPortGraph)
    requires g0.wf(), g1.graph.wf(), same_multi(g0, g1), g1.copy_node_count == g0.copy_node_count, g1.subport_count == g0.subport_count,
    ensures g1.wf(),
{
    assert forall|n: int| #![trigger g1.cp(n)] g1.cp(n) implies g1.copy_ok(n) by {
        assert(g0.copy_ok(n));
        assert(g1.mp(g1.cport(n)));
        assert forall|p: int| #![trigger g1.mp(p)] g1.mp(p) && g1.graph.owns(n, p) implies p == g1.cport(n) by { assert(g0.mp(p)); }
    }
    assert forall|p: int| #![trigger g1.mp(p)] g1.mp(p) implies g1.mp_ok(p) by { assert(g0.mp_ok(p)); assert(g0.cp(g0.graph.pnode(p)) == g1.cp(g0.graph.pnode(p))); assert(g1.mp(g1.graph.link(p))); }
    cnt_ext(g0.cpf(), g1.cpf(), 0, g0.graph.node_meta@.len() as int);
    assert forall|p: int| #![trigger g0.icf()(p)] #![trigger g1.icf()(p)] g0.icf()(p) == g1.icf()(p) by { assert(g0.cp(g0.graph.pnode(p)) == g1.cp(g0.graph.pnode(p))); }
    cnt_ext(g0.icf(), g1.icf(), 0, g0.graph.port_meta@.len() as int);
}
