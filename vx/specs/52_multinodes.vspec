=== default P=M01,M02
=== raw multi_renamed
/// g1 is g0 with the nodes renamed by a (inverse ai) and the ports by b (inverse bi).
pub open spec fn renamed(g0: MultiPortGraph, g1: MultiPortGraph, a: spec_fn(int) -> int, ai: spec_fn(int) -> int, b: spec_fn(int) -> int, bi: spec_fn(int) -> int) -> bool {
    &&& forall|n: int| #![trigger g0.has_n(n)] g0.has_n(n) ==> g1.has_n(a(n)) && ai(a(n)) == n
        && g1.graph.m(a(n)).inc() == g0.graph.m(n).inc() && g1.graph.m(a(n)).out() == g0.graph.m(n).out() && g1.cp(a(n)) == g0.cp(n)
    &&& forall|n: int| #![trigger g1.has_n(n)] g1.has_n(n) ==> g0.has_n(ai(n)) && a(ai(n)) == n
    &&& forall|p: int| #![trigger g0.has_p(p)] g0.has_p(p) ==> g1.has_p(b(p)) && bi(b(p)) == p && g1.graph.pnode(b(p)) == a(g0.graph.pnode(p)) && g1.graph.pdir(b(p)) == g0.graph.pdir(p)
        && g1.graph.link(b(p)) == (if g0.graph.link(p) < 0 { -1 } else { b(g0.graph.link(p)) }) && g1.mp(b(p)) == g0.mp(p)
        && g1.graph.offset_of(b(p)) == g0.graph.offset_of(p)
    &&& forall|p: int| #![trigger g1.has_p(p)] g1.has_p(p) ==> g0.has_p(bi(p)) && b(bi(p)) == p
    &&& forall|n: int| #![trigger g1.cp(n)] g1.cp(n) ==> g1.has_n(n)
    &&& forall|p: int| #![trigger g1.mp(p)] g1.mp(p) ==> g1.has_p(p)
    &&& g1.copy_node_count == g0.copy_node_count && g1.subport_count == g0.subport_count
}
impl MultiPortGraph {
    pub open spec fn has_n(self, n: int) -> bool { self.graph.has_node(n) }
    pub open spec fn has_p(self, p: int) -> bool { self.graph.has_port(p) }
}
pub open spec fn ren2(b: spec_fn(int) -> int, s: Option<(int, int)>) -> Option<(int, int)> { match s { Some(t) => Some((b(t.0), t.1)), None => None } }
/// The abstract graph is renamed.
pub open spec fn renamed_view(g0: MultiPortGraph, g1: MultiPortGraph, a: spec_fn(int) -> int, b: spec_fn(int) -> int) -> bool {
    &&& forall|n: int| #![trigger g0.un(n)] g0.un(n) ==> g1.un(a(n)) && g1.graph.m(a(n)).inc() == g0.graph.m(n).inc() && g1.graph.m(a(n)).out() == g0.graph.m(n).out()
    &&& forall|p: int| #![trigger g0.up(p)] g0.up(p) ==> g1.up(b(p)) && g1.graph.pnode(b(p)) == a(g0.graph.pnode(p)) && g1.graph.pdir(b(p)) == g0.graph.pdir(p)
        && g1.graph.offset_of(b(p)) == g0.graph.offset_of(p) && g1.nsub(b(p)) == g0.nsub(p)
    &&& forall|p: int, k: int| #![trigger g0.slink(p, k)] g0.up(p) ==> g1.slink(b(p), k) == ren2(b, g0.slink(p, k))
    &&& forall|n: int| #![trigger g1.un(n)] g1.un(n) ==> exists|x: int| #[trigger] g0.un(x) && a(x) == n
    &&& forall|p: int| #![trigger g1.up(p)] g1.up(p) ==> exists|x: int| #[trigger] g0.up(x) && b(x) == p
}
pub proof fn lemma_at(g: PortGraph, n: int, d: Direction, k: int)
    requires g.wf(), g.has_node(n), 0 <= k < g.m(n).num(d),
    ensures g.port_id(n, d, k) == g.m(n).at(d) + k, g.has_port(g.m(n).at(d) + k), g.pnode(g.m(n).at(d) + k) == n, g.pdir(g.m(n).at(d) + k) == d, g.offset_of(g.m(n).at(d) + k) == k,
{
    hide(PortGraph::wf);
    lemma_node(g, n);
    let p = g.m(n).at(d) + k;
    assert(g.pnode(p) == n && g.pdir(p) == d);
    theorem_index_offset(g, n, d, k, p);
}
/// Ports at the same offset of the same node in the same direction are the same.
pub proof fn lemma_by_offset(g: PortGraph, p: int, q: int)
    requires g.wf(), g.has_port(p), g.has_port(q), g.pnode(p) == g.pnode(q), g.pdir(p) == g.pdir(q), g.offset_of(p) == g.offset_of(q),
    ensures p == q,
{
    hide(PortGraph::wf);
    theorem_index_offset(g, g.pnode(p), g.pdir(p), g.offset_of(p), p);
    theorem_index_offset(g, g.pnode(p), g.pdir(p), g.offset_of(p), q);
}
pub proof fn lemma_renamed_copy(g0: MultiPortGraph, g1: MultiPortGraph, a: spec_fn(int) -> int, ai: spec_fn(int) -> int, b: spec_fn(int) -> int, bi: spec_fn(int) -> int)
    requires g0.wf(), g1.graph.wf(), renamed(g0, g1, a, ai, b, bi),
    ensures
        forall|n: int| #![trigger g0.cp(n)] g0.cp(n) ==> g0.has_n(n) && g1.cp(a(n)) && g1.cdir(a(n)) == g0.cdir(n) && g1.cport(a(n)) == b(g0.cport(n)) && g1.copy_ok(a(n)),
{
    hide(PortGraph::wf);
    assert forall|n: int| #![trigger g0.cp(n)] g0.cp(n) implies g0.has_n(n) && g1.cp(a(n)) && g1.cdir(a(n)) == g0.cdir(n) && g1.cport(a(n)) == b(g0.cport(n)) && g1.copy_ok(a(n)) by {
        lemma_copy(g0, n);
        assert(g0.has_n(n));
        let n1 = a(n);
        let d0 = Direction::Incoming;
        let x1 = g1.graph.m(n1).at(d0); let x0 = g0.graph.m(n).at(d0);
        if g0.graph.m(n).inc() == 1 {
            lemma_at(g1.graph, n1, d0, 0); lemma_at(g0.graph, n, d0, 0);
            assert(g0.has_p(x0)); assert(g1.has_p(x1));
            assert(b(x0) == x1) by { lemma_by_offset(g1.graph, b(x0), x1); }
        }
        assert(g1.cdir(n1) == g0.cdir(n));
        let d = g0.cdir(n);
        lemma_at(g1.graph, n1, d, 0); lemma_at(g0.graph, n, d, 0);
        let c = g0.cport(n);
        assert(g0.has_p(c));
        assert(b(c) == g1.cport(n1)) by { lemma_by_offset(g1.graph, b(c), g1.cport(n1)); }
        assert forall|p: int| #![trigger g1.mp(p)] g1.mp(p) && g1.graph.owns(n1, p) implies p == g1.cport(n1) by {
            assert(g1.has_p(p));
            let q = bi(p);
            assert(g0.has_p(q));
            assert(g0.mp(q));
            lemma_port(g0.graph, q);
            assert(g0.has_n(g0.graph.pnode(q)));
            assert(g0.graph.owns(n, q)) by { assert(ai(a(g0.graph.pnode(q))) == g0.graph.pnode(q)); }
        }
    }
}
pub proof fn lemma_renamed_wf(g0: MultiPortGraph, g1: MultiPortGraph, a: spec_fn(int) -> int, ai: spec_fn(int) -> int, b: spec_fn(int) -> int, bi: spec_fn(int) -> int)
    requires g0.wf(), g1.graph.wf(), renamed(g0, g1, a, ai, b, bi),
    ensures g1.wf(),
{
    hide(PortGraph::wf);
    lemma_renamed_copy(g0, g1, a, ai, b, bi);
    lemma_sym(g0.graph); lemma_sym(g1.graph);
    assert forall|n: int| #![trigger g1.cp(n)] g1.cp(n) implies g1.copy_ok(n) by { assert(g1.has_n(n)); assert(g0.has_n(ai(n))); assert(g0.cp(ai(n))); }
    assert forall|p: int| #![trigger g1.mp(p)] g1.mp(p) implies g1.mp_ok(p) by {
        assert(g1.has_p(p)); let x = bi(p); assert(g0.has_p(x)); assert(g0.mp(x)); lemma_mp(g0, x);
        let y = g0.graph.link(x);
        assert(g0.has_p(y)); assert(g0.mp(y));
        lemma_port(g0.graph, x); lemma_port(g0.graph, y);
        assert(g0.has_n(g0.graph.pnode(x))); assert(g0.has_n(g0.graph.pnode(y)));
    }
    // counts
    let l0 = g0.graph.node_meta@.len() as int; let l1 = g1.graph.node_meta@.len() as int;
    let c0 = g0.cpf(); let c1 = g1.cpf();
    assert forall|n: int| #![trigger c0(n)] c0(n) implies 0 <= n < l0 && 0 <= a(n) < l1 && c1(a(n)) && ai(a(n)) == n by { assert(g0.cp(n)); assert(g0.has_n(n)); assert(g1.has_n(a(n))); }
    assert forall|n: int| #![trigger c1(n)] c1(n) implies 0 <= n < l1 && 0 <= ai(n) < l0 && c0(ai(n)) && a(ai(n)) == n by { assert(g1.cp(n)); assert(g1.has_n(n)); assert(g0.has_n(ai(n))); }
    assert forall|i: int, j: int| #![trigger c0(i), c0(j)] c0(i) && c0(j) && i != j implies a(i) != a(j) by { assert(ai(a(i)) == i); assert(ai(a(j)) == j); }
    assert forall|i: int, j: int| #![trigger c1(i), c1(j)] c1(i) && c1(j) && i != j implies ai(i) != ai(j) by { assert(a(ai(i)) == i); assert(a(ai(j)) == j); }
    cnt_inj(c0, 0, l0, c1, 0, l1, a);
    cnt_inj(c1, 0, l1, c0, 0, l0, ai);
    let m0 = g0.graph.port_meta@.len() as int; let m1 = g1.graph.port_meta@.len() as int;
    let i0 = g0.icf(); let i1 = g1.icf();
    assert forall|p: int| #![trigger i0(p)] i0(p) implies 0 <= p < m0 && 0 <= b(p) < m1 && i1(b(p)) && bi(b(p)) == p by { assert(g0.has_p(p)); lemma_port(g0.graph, p); assert(g0.has_n(g0.graph.pnode(p))); assert(g1.has_p(b(p))); }
    assert forall|p: int| #![trigger i1(p)] i1(p) implies 0 <= p < m1 && 0 <= bi(p) < m0 && i0(bi(p)) && b(bi(p)) == p by { assert(g1.has_p(p)); assert(g0.has_p(bi(p))); lemma_port(g0.graph, bi(p)); assert(g0.has_n(g0.graph.pnode(bi(p)))); }
    assert forall|i: int, j: int| #![trigger i0(i), i0(j)] i0(i) && i0(j) && i != j implies b(i) != b(j) by { assert(bi(b(i)) == i); assert(bi(b(j)) == j); }
    assert forall|i: int, j: int| #![trigger i1(i), i1(j)] i1(i) && i1(j) && i != j implies bi(i) != bi(j) by { assert(b(bi(i)) == i); assert(b(bi(j)) == j); }
    cnt_inj(i0, 0, m0, i1, 0, m1, b);
    cnt_inj(i1, 0, m1, i0, 0, m0, bi);
}
pub proof fn lemma_renamed_subs(g0: MultiPortGraph, g1: MultiPortGraph, a: spec_fn(int) -> int, ai: spec_fn(int) -> int, b: spec_fn(int) -> int, bi: spec_fn(int) -> int)
    requires g0.wf(), g1.wf(), renamed(g0, g1, a, ai, b, bi),
    ensures
        forall|p: int| #![trigger g0.up(p)] g0.up(p) ==> g1.up(b(p)) && g1.nsub(b(p)) == g0.nsub(p),
        forall|p: int, k: int| #![trigger g0.six(p, k)] g0.has_sub(p, k) ==> g1.six(b(p), k) == b(g0.six(p, k)),
        forall|i: int| #![trigger g0.sof(i)] g0.has_p(i) && !g0.mp(i) ==> g1.sof(b(i)) == (b(g0.sof(i).0), g0.sof(i).1),
{
    hide(PortGraph::wf);
    lemma_renamed_copy(g0, g1, a, ai, b, bi);
    lemma_sym(g0.graph); lemma_sym(g1.graph);
    assert forall|p: int| #![trigger g0.up(p)] g0.up(p) implies g1.up(b(p)) && g1.nsub(b(p)) == g0.nsub(p) && g1.has_p(b(p)) by {
        assert(g0.has_p(p)); lemma_port(g0.graph, p); assert(g0.has_n(g0.graph.pnode(p)));
        if g0.mp(p) {
            lemma_mp(g0, p); let q = g0.graph.link(p); assert(g0.has_p(q)); assert(g0.cp(g0.graph.pnode(q))); assert(g0.has_n(g0.graph.pnode(q)));
        }
    }
    assert forall|p: int, k: int| #![trigger g0.six(p, k)] g0.has_sub(p, k) implies g1.six(b(p), k) == b(g0.six(p, k)) by {
        assert(g0.has_p(p));
        if g0.mp(p) {
            lemma_mp(g0, p); let q = g0.graph.link(p); let c = g0.graph.pnode(q); assert(g0.has_p(q)); assert(g0.cp(c)); assert(g0.has_n(c));
            let d = g0.graph.pdir(p);
            lemma_at(g0.graph, c, d, k); lemma_at(g1.graph, a(c), d, k);
            let i = g0.six(p, k); let j = g1.six(b(p), k);
            assert(g0.has_p(i));
            lemma_by_offset(g1.graph, b(i), j);
        }
    }
    assert forall|i: int| #![trigger g0.sof(i)] g0.has_p(i) && !g0.mp(i) implies g1.sof(b(i)) == (b(g0.sof(i).0), g0.sof(i).1) by {
        lemma_port(g0.graph, i); let n = g0.graph.pnode(i); assert(g0.has_n(n));
        if g0.cp(n) { lemma_copy(g0, n); assert(g0.has_p(g0.cport(n))); }
    }
}
/// Renaming nodes and ports renames the links between subports.
pub proof fn lemma_renamed(g0: MultiPortGraph, g1: MultiPortGraph, a: spec_fn(int) -> int, ai: spec_fn(int) -> int, b: spec_fn(int) -> int, bi: spec_fn(int) -> int)
    requires g0.wf(), g1.graph.wf(), renamed(g0, g1, a, ai, b, bi),
    ensures g1.wf(), renamed_view(g0, g1, a, b),
{
    hide(PortGraph::wf);
    lemma_renamed_wf(g0, g1, a, ai, b, bi);
    lemma_renamed_subs(g0, g1, a, ai, b, bi);
    lemma_sym(g0.graph);
    assert forall|n: int| #![trigger g0.un(n)] g0.un(n) implies g1.un(a(n)) && g1.graph.m(a(n)).inc() == g0.graph.m(n).inc() && g1.graph.m(a(n)).out() == g0.graph.m(n).out() by { assert(g0.has_n(n)); }
    assert forall|p: int| #![trigger g0.up(p)] g0.up(p) implies g1.graph.pnode(b(p)) == a(g0.graph.pnode(p)) && g1.graph.pdir(b(p)) == g0.graph.pdir(p) && g1.graph.offset_of(b(p)) == g0.graph.offset_of(p) by { assert(g0.has_p(p)); }
    assert forall|n: int| #![trigger g1.un(n)] g1.un(n) implies exists|x: int| #[trigger] g0.un(x) && a(x) == n by { assert(g1.has_n(n)); assert(g0.has_n(ai(n))); assert(g0.un(ai(n))); }
    assert forall|p: int| #![trigger g1.up(p)] g1.up(p) implies exists|x: int| #[trigger] g0.up(x) && b(x) == p by { assert(g1.has_p(p)); assert(g0.has_p(bi(p))); lemma_port(g0.graph, bi(p)); assert(g0.has_n(g0.graph.pnode(bi(p)))); assert(g0.up(bi(p))); }
    assert forall|p: int, k: int| #![trigger g0.slink(p, k)] g0.up(p) implies g1.slink(b(p), k) == ren2(b, g0.slink(p, k)) by {
        assert(g1.has_sub(b(p), k) == g0.has_sub(p, k));
        if g0.has_sub(p, k) {
            theorem_subports(g0, 0, p, k);
            let i = g0.six(p, k);
            assert(g0.has_p(i)); assert(g1.six(b(p), k) == b(i));
            let j = g0.graph.link(i);
            if j >= 0 { assert(g0.graph.link(j) == i); assert(g0.has_p(j)); if g0.mp(j) { lemma_mp(g0, j); } assert(g1.sof(b(j)) == (b(g0.sof(j).0), g0.sof(j).1)); lemma_port(g0.graph, j); }
            if j >= 0 { let bj = b(j); assert(g1.has_p(bj)); assert(bj >= 0); }
        }
    }
}
=== fn multiportgraph MultiPortGraph::swap_nodes bits=multiport,copy_node
--- spec
requires old(self).wf(), a.wf(), b.wf(), a.i() < old(self).graph.node_meta.len(), b.i() < old(self).graph.node_meta.len(),
ensures final(self).wf(), renamed_view(*old(self), *final(self), |n: int| sw(a.i(), b.i(), n), |p: int| p),
--- hint start
hide(PortGraph::wf);
let ghost g0 = *self;
--- hint end
proof {
    let x = |n: int| sw(a.i(), b.i(), n); let y = |p: int| p;
    assert forall|n: int| #![trigger self.cp(n)] self.cp(n) == g0.cp(x(n)) by {}
    assert forall|n: int| #![trigger g0.has_n(n)] g0.has_n(n) implies self.has_n(x(n)) && x(x(n)) == n && self.graph.m(x(n)) == g0.graph.m(n) && self.cp(x(n)) == g0.cp(n) by { assert(self.graph.has_node(x(n))); }
    assert forall|n: int| #![trigger self.has_n(n)] self.has_n(n) implies g0.has_n(x(n)) && x(x(n)) == n by { assert(self.graph.has_node(n)); }
    assert forall|p: int| #![trigger g0.has_p(p)] g0.has_p(p) implies self.has_p(p) && self.graph.pnode(p) == x(g0.graph.pnode(p)) && self.graph.pdir(p) == g0.graph.pdir(p) && self.graph.link(p) == g0.graph.link(p) && self.graph.offset_of(p) == g0.graph.offset_of(p) by {
        assert(self.graph.has_port(p)); lemma_port(g0.graph, p); assert(g0.has_n(g0.graph.pnode(p)));
    }
    assert forall|p: int| #![trigger g0.has_p(p)] g0.has_p(p) implies g0.graph.link(p) >= -1 by { lemma_sym(g0.graph); }
    assert forall|p: int| #![trigger self.has_p(p)] self.has_p(p) implies g0.has_p(p) by { assert(self.graph.has_port(p)); }
    assert forall|n: int| #![trigger self.cp(n)] self.cp(n) implies self.has_n(n) by { assert(g0.cp(x(n))); assert(g0.copy_ok(x(n))); assert(g0.has_n(x(n))); }
    assert forall|p: int| #![trigger self.mp(p)] self.mp(p) implies self.has_p(p) by { assert(g0.mp(p)); assert(g0.mp_ok(p)); assert(g0.has_p(p)); }
    lemma_renamed(g0, *self, x, x, y, y);
}

=== fn multiportgraph MultiPortGraph::add_node
--- spec
requires
    old(self).wf(), limits(incoming as int, outgoing as int),
    old(self).graph.node_meta.len() <= max_ix(),
    old(self).graph.port_meta.len() + incoming + outgoing <= max_ix() + 1,
ensures
    final(self).wf(), r.wf(), node_added(*old(self), *final(self), r.i(), incoming as int, outgoing as int),
--- hint start
hide(PortGraph::wf);
let ghost g0 = *self;
--- hint end
proof { lemma_node_added(g0, *self, __ret.i(), incoming as int, outgoing as int); }
=== raw node_added
/// A new node with unlinked ports.
pub open spec fn node_added(g0: MultiPortGraph, g1: MultiPortGraph, n: int, inc: int, out: int) -> bool {
    &&& !g0.un(n) && g1.un(n) && g1.graph.m(n).inc() == inc && g1.graph.m(n).out() == out
    &&& forall|k: int| #![trigger g1.un(k)] k != n ==> g1.un(k) == g0.un(k) && (g1.un(k) ==> g1.graph.same_node(g0.graph, k))
    &&& forall|p: int| #![trigger g1.up(p)] g1.up(p) ==> (if g1.graph.pnode(p) == n { !g0.up(p) } else { g0.up(p) && g1.graph.pnode(p) == g0.graph.pnode(p) && g1.graph.pdir(p) == g0.graph.pdir(p) })
    &&& forall|p: int| #![trigger g0.up(p)] g0.up(p) ==> g1.up(p)
    &&& forall|p: int| #![trigger g1.nsub(p)] g1.up(p) ==> g1.nsub(p) == (if g1.graph.pnode(p) == n { 1 } else { g0.nsub(p) })
    &&& forall|p: int, k: int| #![trigger g1.slink(p, k)] g1.slink(p, k) == g0.slink(p, k)
}
pub proof fn lemma_node_added(g0: MultiPortGraph, g1: MultiPortGraph, n: int, inc: int, out: int)
    requires g0.wf(), g1.graph.wf(), added(g0.graph, g1.graph, n, inc, out), same_bits(g0, g1),
    ensures g1.wf(), node_added(g0, g1, n, inc, out),
{
    hide(PortGraph::wf);
    lemma_sym(g0.graph); lemma_sym(g1.graph);
    if g0.cp(n) { assert(g0.copy_ok(n)); }
    assert forall|p: int| #![trigger g0.graph.has_port(p)] g0.graph.has_port(p) implies g1.graph.same_port(g0.graph, p) && g1.graph.has_port(p) && g1.graph.pnode(p) != n by {
        lemma_port(g0.graph, p);
        assert(!g1.graph.owns(n, p));
        assert(g1.graph.same_port(g0.graph, p));
    }
    assert forall|p: int| #![trigger g1.graph.has_port(p)] g1.graph.has_port(p) && g1.graph.pnode(p) != n implies g0.graph.has_port(p) && g1.graph.same_port(g0.graph, p) by {
        assert(!g1.graph.owns(n, p));
        assert(g1.graph.same_port(g0.graph, p));
    }
    assert forall|k: int| #![trigger g1.cp(k)] g1.cp(k) implies g1.copy_ok(k) && g1.cdir(k) == g0.cdir(k) && g1.cport(k) == g0.cport(k) by {
        assert(g0.cp(k)); lemma_copy(g0, k); assert(g1.graph.same_node(g0.graph, k)); lemma_node(g0.graph, k);
        assert forall|p: int| #![trigger g1.mp(p)] g1.mp(p) && g1.graph.owns(k, p) implies p == g1.cport(k) by { assert(g0.mp(p)); assert(g0.mp_ok(p)); assert(g0.graph.owns(k, p)); }
    }
    assert forall|p: int| #![trigger g1.mp(p)] g1.mp(p) implies g1.mp_ok(p) && g0.graph.has_port(p) by {
        assert(g0.mp(p)); assert(g0.mp_ok(p)); let q = g0.graph.link(p); assert(g0.graph.has_port(q)); assert(g1.graph.same_port(g0.graph, q));
        assert(g1.cp(g0.graph.pnode(p)) == g0.cp(g0.graph.pnode(p))); assert(g1.cp(g0.graph.pnode(q)) == g0.cp(g0.graph.pnode(q)));
    }
    // counts
    let l0 = g0.graph.node_meta@.len() as int; let l1 = g1.graph.node_meta@.len() as int;
    let c0 = g0.cpf(); let c1 = g1.cpf();
    assert forall|k: int| #![trigger c0(k)] #![trigger c1(k)] c0(k) == c1(k) by { assert(g0.cp(k) == g1.cp(k)); }
    assert forall|k: int| #![trigger c0(k)] c0(k) implies 0 <= k < l0 && k < l1 by { assert(g0.copy_ok(k)); assert(g1.graph.same_node(g0.graph, k)); }
    cnt_len(c0, l0, c1, l1);
    let m0 = g0.graph.port_meta@.len() as int; let m1 = g1.graph.port_meta@.len() as int;
    let i0 = g0.icf(); let i1 = g1.icf();
    assert forall|p: int| #![trigger i0(p)] #![trigger i1(p)] i0(p) == i1(p) by {
        assert(g1.cp(n) == g0.cp(n));
        if g0.graph.has_port(p) { assert(g1.cp(g0.graph.pnode(p)) == g0.cp(g0.graph.pnode(p))); } else if g1.graph.has_port(p) { assert(g1.graph.pnode(p) == n); }
    }
    assert forall|p: int| #![trigger i0(p)] i0(p) implies 0 <= p < m0 && p < m1 by { assert(g1.graph.has_port(p)); }
    cnt_len(i0, m0, i1, m1);
    // view
    assert forall|p: int| #![trigger g1.up(p)] g1.up(p) implies (if g1.graph.pnode(p) == n { !g0.up(p) } else { g0.up(p) && g1.graph.pnode(p) == g0.graph.pnode(p) && g1.graph.pdir(p) == g0.graph.pdir(p) }) by {
        if g1.graph.pnode(p) != n { assert(g1.cp(g0.graph.pnode(p)) == g0.cp(g0.graph.pnode(p))); }
    }
    assert forall|p: int| #![trigger g0.up(p)] g0.up(p) implies g1.up(p) by { assert(g1.cp(g0.graph.pnode(p)) == g0.cp(g0.graph.pnode(p))); }
    assert forall|p: int| #![trigger g1.nsub(p)] g1.up(p) implies g1.nsub(p) == (if g1.graph.pnode(p) == n { 1 } else { g0.nsub(p) }) by {
        assert(g1.mp(p) == g0.mp(p));
        if g1.graph.pnode(p) == n { assert(!g1.mp(p)) by { if g1.mp(p) { assert(g0.graph.has_port(p)); } } }
        else if g0.mp(p) { lemma_mp(g0, p); let q = g0.graph.link(p); assert(g0.graph.has_port(q)); assert(g1.graph.same_node(g0.graph, g0.graph.pnode(q))); }
    }
    assert forall|p: int, k: int| #![trigger g1.slink(p, k)] g1.slink(p, k) == g0.slink(p, k) by {
        if g1.up(p) {
            assert(g1.nsub(p) >= 0 || true);
            if g1.graph.pnode(p) == n {
                assert(!g0.up(p)); assert(!g1.mp(p)) by { if g1.mp(p) { assert(g0.graph.has_port(p)); } }
                assert(g1.graph.owns(n, p)); assert(g1.graph.has_port(p));
            } else {
                assert(g1.nsub(p) == g0.nsub(p));
                if g0.has_sub(p, k) {
                    theorem_subports(g0, 0, p, k);
                    if g0.mp(p) { lemma_mp(g0, p); let q = g0.graph.link(p); assert(g0.graph.has_port(q)); assert(g1.graph.same_node(g0.graph, g0.graph.pnode(q))); lemma_node(g0.graph, g0.graph.pnode(q)); lemma_at(g0.graph, g0.graph.pnode(q), g0.graph.pdir(p), k); }
                    let i = g0.six(p, k);
                    assert(g1.six(p, k) == i);
                    assert(g1.graph.same_port(g0.graph, i));
                    let j = g0.graph.link(i);
                    if j >= 0 {
                        assert(g0.graph.has_port(j)); lemma_port(g0.graph, j);
                        let c = g0.graph.pnode(j);
                        assert(g1.cp(c) == g0.cp(c));
                        if g0.cp(c) { assert(g1.cport(c) == g0.cport(c)); lemma_copy(g0, c); assert(g0.graph.has_port(g0.cport(c))); }
                        lemma_node(g0.graph, c); assert(g1.graph.same_node(g0.graph, c));
                    }
                }
            }
        } else { assert(!g0.up(p)); }
    }
}
