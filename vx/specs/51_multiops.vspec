=== default P=M01,M02
=== raw multi_frames
/// The user's nodes and ports are the same.
pub open spec fn same_users(g0: MultiPortGraph, g1: MultiPortGraph) -> bool {
    &&& forall|n: int| #![trigger g1.un(n)] g1.un(n) == g0.un(n) && (g1.un(n) ==> g1.graph.same_node(g0.graph, n))
    &&& forall|p: int| #![trigger g1.up(p)] g1.up(p) == g0.up(p) && (g1.up(p) ==> g1.graph.pnode(p) == g0.graph.pnode(p) && g1.graph.pdir(p) == g0.graph.pdir(p))
}
/// The same subports are at the same places.
pub open spec fn same_subs(g0: MultiPortGraph, g1: MultiPortGraph) -> bool {
    &&& same_users(g0, g1)
    &&& forall|p: int| #![trigger g1.nsub(p)] g1.up(p) ==> g1.nsub(p) == g0.nsub(p)
    &&& forall|p: int, k: int| #![trigger g1.six(p, k)] g1.has_sub(p, k) ==> g1.six(p, k) == g0.six(p, k)
    &&& forall|i: int| #![trigger g1.sof(i)] g1.graph.has_port(i) ==> g1.sof(i) == g0.sof(i)
}
/// Only the links of unmarked ports changed.
pub proof fn lemma_relink(g0: MultiPortGraph, g1: MultiPortGraph)
    requires
        g0.wf(), g1.graph.wf(), same_frame(g0.graph, g1.graph), g1.multiport == g0.multiport, g1.copy_node == g0.copy_node,
        g1.copy_node_count == g0.copy_node_count, g1.subport_count == g0.subport_count,
        forall|p: int| #![trigger g1.graph.link(p)] g0.mp(p) ==> g1.graph.link(p) == g0.graph.link(p),
    ensures g1.wf(), same_subs(g0, g1),
{
    hide(PortGraph::wf);
    assert forall|n: int| #![trigger g1.cp(n)] g1.cp(n) implies g1.copy_ok(n) by {
        assert(g0.cp(n)); assert(g0.copy_ok(n));
        assert forall|p: int| #![trigger g1.mp(p)] g1.mp(p) && g1.graph.owns(n, p) implies p == g1.cport(n) by { assert(g0.mp(p)); assert(g0.graph.owns(n, p)); }
    }
    assert forall|p: int| #![trigger g1.mp(p)] g1.mp(p) implies g1.mp_ok(p) by {
        assert(g0.mp(p)); assert(g0.mp_ok(p)); assert(g1.graph.link(p) == g0.graph.link(p));
        assert(g1.cp(g0.graph.pnode(p)) == g0.cp(g0.graph.pnode(p)));
    }
    cnt_ext(g0.cpf(), g1.cpf(), 0, g0.graph.node_meta@.len() as int);
    assert forall|p: int| #![trigger g0.icf()(p)] #![trigger g1.icf()(p)] g0.icf()(p) == g1.icf()(p) by {}
    cnt_ext(g0.icf(), g1.icf(), 0, g0.graph.port_meta@.len() as int);
    assert forall|p: int| #![trigger g1.nsub(p)] g1.up(p) implies g1.nsub(p) == g0.nsub(p) by { if g0.mp(p) { assert(g1.graph.link(p) == g0.graph.link(p)); } }
    assert forall|p: int, k: int| #![trigger g1.six(p, k)] g1.has_sub(p, k) implies g1.six(p, k) == g0.six(p, k) by { if g0.mp(p) { assert(g1.graph.link(p) == g0.graph.link(p)); } }
    assert forall|i: int| #![trigger g1.sof(i)] g1.graph.has_port(i) implies g1.sof(i) == g0.sof(i) by {
        let n = g0.graph.pnode(i);
        if g0.cp(n) { lemma_copy(g0, n); assert(g1.graph.link(g0.cport(n)) == g0.graph.link(g0.cport(n))); }
    }
}
/// Exactly the link between subports s and t is new.
pub open spec fn sub_linked(g0: MultiPortGraph, g1: MultiPortGraph, s: (int, int), t: (int, int)) -> bool {
    &&& same_users(g0, g1)
    &&& g1.slink(s.0, s.1) == Some(t) && g1.slink(t.0, t.1) == Some(s)
    &&& g0.slink(s.0, s.1) is None && g0.slink(t.0, t.1) is None
    &&& forall|p: int, k: int| #![trigger g1.slink(p, k)] (p, k) != s && (p, k) != t ==> g1.slink(p, k) == g0.slink(p, k)
}
pub open spec fn sub_unlinked(g0: MultiPortGraph, g1: MultiPortGraph, s: (int, int), t: (int, int)) -> bool {
    &&& same_users(g0, g1)
    &&& g0.slink(s.0, s.1) == Some(t) && g0.slink(t.0, t.1) == Some(s)
    &&& g1.slink(s.0, s.1) is None && g1.slink(t.0, t.1) is None
    &&& forall|p: int, k: int| #![trigger g1.slink(p, k)] (p, k) != s && (p, k) != t ==> g1.slink(p, k) == g0.slink(p, k)
}
pub open spec fn same_bits(g0: MultiPortGraph, g1: MultiPortGraph) -> bool {
    g1.multiport == g0.multiport && g1.copy_node == g0.copy_node && g1.copy_node_count == g0.copy_node_count && g1.subport_count == g0.subport_count
}
pub proof fn lemma_sub_linked(g0: MultiPortGraph, g1: MultiPortGraph, a: int, b: int)
    requires g0.wf(), g1.graph.wf(), same_bits(g0, g1), link_added(g0.graph, g1.graph, a, b), g0.graph.has_port(a), g0.graph.has_port(b),
    ensures g1.wf(), same_subs(g0, g1), sub_linked(g0, g1, g0.sof(a), g0.sof(b)), !g0.mp(a), !g0.mp(b),
{
    hide(PortGraph::wf);
    if g0.mp(a) { assert(g0.mp_ok(a)); }
    if g0.mp(b) { assert(g0.mp_ok(b)); }
    lemma_relink(g0, g1);
    let s = g0.sof(a); let t = g0.sof(b);
    theorem_subports(g0, a, 0, 0); theorem_subports(g0, b, 0, 0);
    assert(g1.six(s.0, s.1) == a && g1.six(t.0, t.1) == b);
    assert(g1.sof(a) == s && g1.sof(b) == t);
    assert forall|p: int, k: int| #![trigger g1.slink(p, k)] (p, k) != s && (p, k) != t implies g1.slink(p, k) == g0.slink(p, k) by {
        if g1.has_sub(p, k) {
            assert(g1.nsub(p) == g0.nsub(p));
            theorem_subports(g0, 0, p, k);
            let i = g1.six(p, k);
            assert(i == g0.six(p, k));
            assert(g1.graph.link(i) == g0.graph.link(i));
            lemma_sym(g0.graph); let j = g0.graph.link(i); if j >= 0 { assert(g1.sof(j) == g0.sof(j)); }
        } else { assert(g1.up(p) ==> g1.nsub(p) == g0.nsub(p)); assert(!g0.has_sub(p, k)); }
    }
}
pub proof fn lemma_sub_unlinked(g0: MultiPortGraph, g1: MultiPortGraph, a: int, b: int)
    requires g0.wf(), g1.graph.wf(), same_bits(g0, g1), link_removed(g0.graph, g1.graph, a, b), g0.graph.has_port(a), g0.graph.has_port(b), !g0.mp(a),
    ensures g1.wf(), same_subs(g0, g1), sub_unlinked(g0, g1, g0.sof(a), g0.sof(b)), !g0.mp(b),
{
    hide(PortGraph::wf);
    if g0.mp(b) { assert(g0.mp_ok(b)); }
    lemma_relink(g0, g1);
    let s = g0.sof(a); let t = g0.sof(b);
    theorem_subports(g0, a, 0, 0); theorem_subports(g0, b, 0, 0);
    assert(g1.nsub(s.0) == g0.nsub(s.0)); assert(g1.nsub(t.0) == g0.nsub(t.0));
    assert(g1.six(s.0, s.1) == a && g1.six(t.0, t.1) == b);
    assert forall|p: int, k: int| #![trigger g1.slink(p, k)] (p, k) != s && (p, k) != t implies g1.slink(p, k) == g0.slink(p, k) by {
        if g1.has_sub(p, k) {
            assert(g1.nsub(p) == g0.nsub(p));
            theorem_subports(g0, 0, p, k);
            let i = g1.six(p, k);
            assert(i == g0.six(p, k));
            assert(g1.graph.link(i) == g0.graph.link(i));
            lemma_sym(g0.graph); let j = g0.graph.link(i); if j >= 0 { assert(g1.sof(j) == g0.sof(j)); }
        } else { assert(g1.up(p) ==> g1.nsub(p) == g0.nsub(p)); assert(!g0.has_sub(p, k)); }
    }
}
=== fn multiportgraph MultiPortGraph::link_subports
--- spec
requires old(self).wf(), subport_from.wf(), subport_to.wf(), old(self).has_sub(subport_from.p(), subport_from.k()), old(self).has_sub(subport_to.p(), subport_to.k()),
ensures final(self).wf(),
    r is Ok <==> old(self).slink(subport_from.p(), subport_from.k()) is None && old(self).slink(subport_to.p(), subport_to.k()) is None
        && old(self).graph.pdir(subport_from.p()) != old(self).graph.pdir(subport_to.p()),
    r is Ok ==> sub_linked(*old(self), *final(self), subport_from.v(), subport_to.v()) && same_subs(*old(self), *final(self)),
    r is Err ==> *final(self) == *old(self),
--- hint start
hide(PortGraph::wf);
proof {
    let s = subport_from; let t = subport_to;
    theorem_subports(*self, 0, s.p(), s.k()); theorem_subports(*self, 0, t.p(), t.k());
    lemma_sub_k(*self, s.p(), s.k()); lemma_sub_k(*self, t.p(), t.k());
    lemma_sym(self.graph);
    assert(self.graph.link(self.six(s.p(), s.k())) >= -1); assert(self.graph.link(self.six(t.p(), t.k())) >= -1);
}
let ghost g0 = *self;
--- hint end
proof { lemma_sub_linked(g0, *self, from_index.i(), to_index.i()); }
=== raw sub_k
pub proof fn lemma_sub_k(g: MultiPortGraph, p: int, k: int)
    requires g.graph.wf(), g.wf_s(), g.has_sub(p, k),
    ensures 0 <= k <= PortOffset::max_o(), k < 65535, 0 <= g.six(p, k) <= max_ix(),
{
    theorem_subports(g, 0, p, k);
    lemma_port(g.graph, g.six(p, k));
    if g.mp(p) { lemma_mp(g, p); lemma_node(g.graph, g.graph.pnode(g.graph.link(p))); }
}
=== fn multiportgraph MultiPortGraph::unlink_subport
--- spec
requires old(self).wf(), subport.wf(), old(self).has_sub(subport.p(), subport.k()),
ensures final(self).wf(), same_subs(*old(self), *final(self)),
    match r {
        Some(t) => t.wf() && sub_unlinked(*old(self), *final(self), subport.v(), t.v()),
        None => old(self).slink(subport.p(), subport.k()) is None && same_multi(*old(self), *final(self)),
    },
--- attr
#[verifier::rlimit(60)]
--- hint start
hide(PortGraph::wf);
let ghost g0 = *self;
let ghost i = self.six(subport.p(), subport.k());
proof {
    theorem_subports(*self, 0, subport.p(), subport.k()); lemma_sub_k(*self, subport.p(), subport.k());
    lemma_sym(self.graph); assert(self.graph.link(i) >= -1);
    assert(self.graph.link(i) >= 0 ==> self.graph.link(i) <= max_ix()) by { if self.graph.link(i) >= 0 { lemma_port(self.graph, self.graph.link(i)); } }
    assert forall|g1: MultiPortGraph| #![trigger g1.wf()] g1.graph.wf() && same_bits(g0, g1) && g0.graph.link(i) < 0 && same_frame(g0.graph, g1.graph) && g1.graph.port_link@ == g0.graph.port_link@ implies g1.wf() && same_subs(g0, g1) by { lemma_relink(g0, g1); }
    assert forall|g1: MultiPortGraph, b: int| #![trigger g1.wf(), link_removed(g0.graph, g1.graph, i, b)] g1.graph.wf() && same_bits(g0, g1) && link_removed(g0.graph, g1.graph, i, b) implies
        g1.wf() && same_subs(g0, g1) && sub_unlinked(g0, g1, g0.sof(i), g0.sof(b)) by { assert(g0.graph.has_port(b)); lemma_sub_unlinked(g0, g1, i, b); }
}
--- hint before get_subport_from_index#0
proof { assert(link_removed(g0.graph, self.graph, i, link.i())); lemma_sub_unlinked(g0, *self, i, link.i()); }
=== fn multiportgraph MultiPortGraph::link_ports_directed
--- spec
requires old(self).graph.wf(), port1.wf(), port2.wf(), old(self).graph.has_port(port1.i()), old(self).graph.pdir(port1.i()) == dir,
ensures final(self).graph.wf(), same_bits(*old(self), *final(self)),
    r is Ok <==> can_link(old(self).graph, port1.i(), port2.i()),
    r is Ok ==> link_added(old(self).graph, final(self).graph, port1.i(), port2.i()),
    r is Err ==> *final(self) == *old(self),
--- hint start
hide(PortGraph::wf);
=== fn multiportgraph MultiPortGraph::drop_copy_node bits=multiport,copy_node nodebug
--- spec
requires old(self).graph.wf(), copy_port.wf(), old(self).graph.has_port(copy_port.i()),
    old(self).copy_node_count > 0,
    old(self).subport_count >= old(self).graph.m(old(self).graph.pnode(copy_port.i())).num(rev_dir(old(self).graph.pdir(copy_port.i()))),
ensures
    final(self).graph.wf(),
    removed(old(self).graph, final(self).graph, old(self).graph.pnode(copy_port.i())),
    final(self).multiport.upd(old(self).multiport, copy_port.i(), false),
    final(self).copy_node.upd(old(self).copy_node, old(self).graph.pnode(copy_port.i()), false),
    final(self).copy_node_count == old(self).copy_node_count - 1,
    final(self).subport_count == old(self).subport_count - old(self).graph.m(old(self).graph.pnode(copy_port.i())).num(rev_dir(old(self).graph.pdir(copy_port.i()))),
--- hint start
hide(PortGraph::wf);
proof { lemma_port(self.graph, copy_port.i()); }
=== raw cleared
/// Port p has lost its links, and has no copy node.
pub open spec fn port_cleared(g0: MultiPortGraph, g1: MultiPortGraph, p: int) -> bool {
    &&& same_users(g0, g1)
    &&& g1.nsub(p) == 1
    &&& forall|q: int| #![trigger g1.nsub(q)] g1.up(q) && q != p ==> g1.nsub(q) == g0.nsub(q)
    &&& forall|q: int, k: int| #![trigger g1.slink(q, k)] g1.slink(q, k) == (if q == p || (g0.slink(q, k) matches Some(t) && t.0 == p) { None } else { g0.slink(q, k) })
}
/// What dropping the copy node n of port p does.
pub open spec fn dropped(g0: MultiPortGraph, g1: MultiPortGraph, p: int, n: int) -> bool {
    &&& removed(g0.graph, g1.graph, n)
    &&& forall|x: int| #![trigger g1.mp(x)] g1.mp(x) == (g0.mp(x) && x != p && x != g0.cport(n))
    &&& forall|x: int| #![trigger g1.cp(x)] g1.cp(x) == (g0.cp(x) && x != n)
    &&& g1.copy_node_count == g0.copy_node_count - 1
    &&& g1.subport_count == g0.subport_count - g0.graph.m(n).num(rev_dir(g0.cdir(n)))
}
pub proof fn lemma_node_cnt(g: PortGraph, n: int)
    requires g.wf(), g.has_node(n),
    ensures cnt(|p: int| g.owns(n, p), 0, g.port_meta@.len() as int) == g.m(n).tot(),
{
    let ow = choose|ow: Seq<Owner>| g.wf_ow(ow);
    lemma_node(g, n);
    let m = g.m(n); let f = |p: int| g.owns(n, p); let len = g.port_meta@.len() as int; let a = m.first();
    assert forall|p: int| #![trigger f(p)] f(p) == (a <= p < a + m.tot()) by { lemma_node_cells(g, ow, n, p); }
    if m.tot() == 0 { cnt_const(f, false, 0, len); } else {
    cnt_split(f, 0, a, len); cnt_split(f, a, a + m.tot(), len);
    cnt_const(f, false, 0, a); cnt_const(f, true, a, a + m.tot()); cnt_const(f, false, a + m.tot(), len); }
}
pub proof fn lemma_drop_counts(g0: MultiPortGraph, g1: MultiPortGraph, p: int, n: int)
    requires g0.graph.wf(), g1.graph.wf(), dropped(g0, g1, p, n), g0.cp(n), forall|k: int| #![trigger g0.cp(k)] g0.cp(k) ==> g0.graph.has_node(k),
    ensures g1.n_copies() == g0.n_copies() - 1, g1.n_inner() == g0.n_inner() - g0.graph.m(n).tot(),
{
    hide(PortGraph::wf);
    let l0 = g0.graph.node_meta@.len() as int; let l1 = g1.graph.node_meta@.len() as int;
    assert(g0.graph.has_node(n));
    let f = g0.cpf(); let g = |k: int| g0.cp(k) && k != n;
    cnt_upd(f, g, 0, l0, n);
    assert forall|k: int| #![trigger g(k)] g(k) implies 0 <= k < l0 && k < l1 by { assert(g0.graph.has_node(k)); assert(g1.graph.same_node(g0.graph, k)); }
    assert forall|k: int| #![trigger g(k)] #![trigger g1.cpf()(k)] g(k) == g1.cpf()(k) by { assert(g1.cp(k) == (g0.cp(k) && k != n)); }
    cnt_len(g, l0, g1.cpf(), l1);
    let a0 = g0.graph.port_meta@.len() as int; let a1 = g1.graph.port_meta@.len() as int;
    let x = |q: int| g0.graph.owns(n, q); let y = |q: int| g0.graph.has_port(q) && g0.cp(g0.graph.pnode(q)) && g0.graph.pnode(q) != n;
    lemma_node_cnt(g0.graph, n);
    cnt_sum(g0.icf(), x, y, 0, a0);
    assert forall|q: int| #![trigger y(q)] #![trigger g1.icf()(q)] y(q) == g1.icf()(q) by { assert(g1.graph.has_port(q) == (g0.graph.has_port(q) && !g0.graph.owns(n, q))); assert(g1.cp(g0.graph.pnode(q)) == (g0.cp(g0.graph.pnode(q)) && g0.graph.pnode(q) != n)); }
    assert forall|q: int| #![trigger y(q)] y(q) implies 0 <= q < a0 && q < a1 by { assert(g1.icf()(q)); }
    cnt_len(y, a0, g1.icf(), a1);
}
pub proof fn lemma_dropped_wf(g0: MultiPortGraph, g1: MultiPortGraph, p: int)
    requires g0.wf(), g1.graph.wf(), g0.mp(p), g0.up(p), dropped(g0, g1, p, g0.graph.pnode(g0.graph.link(p))),
    ensures g1.wf(), same_users(g0, g1), g1.nsub(p) == 1,
        forall|q: int| #![trigger g1.nsub(q)] g1.up(q) && q != p ==> g1.nsub(q) == g0.nsub(q),
        forall|q: int, k: int| #![trigger g1.six(q, k)] g1.has_sub(q, k) && q != p ==> g1.six(q, k) == g0.six(q, k),
        forall|i: int| #![trigger g1.sof(i)] g1.graph.has_port(i) ==> g1.sof(i) == g0.sof(i),
{
    hide(PortGraph::wf);
    let n = g0.graph.pnode(g0.graph.link(p));
    lemma_mp(g0, p);
    lemma_copy(g0, n);
    lemma_drop_counts(g0, g1, p, n);
    lemma_sym(g0.graph); lemma_sym(g1.graph);
    assert forall|k: int| #![trigger g1.cp(k)] g1.cp(k) implies g1.copy_ok(k) && g1.graph.m(k).first() == g0.graph.m(k).first() && g1.cport(k) == g0.cport(k) && g1.graph.link(g1.cport(k)) == g0.graph.link(g0.cport(k)) by {
        lemma_copy(g0, k);
        lemma_node(g0.graph, k);
        assert(g1.graph.same_node(g0.graph, k));
        let m = g0.graph.m(k);
        assert(g0.graph.pnode(m.at(Direction::Incoming)) == k || m.inc() == 0);
        assert(g1.mp(m.at(Direction::Incoming)) == g0.mp(m.at(Direction::Incoming)) || m.inc() != 1);
        assert(g1.mp(g1.cport(k)));
        assert(g1.graph.has_port(g0.cport(k)));
        let q = g0.graph.link(g0.cport(k));
        assert(!g0.graph.owns(n, q));
        assert forall|x: int| #![trigger g1.mp(x)] g1.mp(x) && g1.graph.owns(k, x) implies x == g1.cport(k) by { assert(g0.mp(x)); assert(g1.graph.has_port(x)); assert(g0.graph.owns(k, x)); }
    }
    assert forall|x: int| #![trigger g1.mp(x)] g1.mp(x) implies g1.mp_ok(x) && g1.graph.link(x) == g0.graph.link(x) by {
        assert(g0.mp(x)); lemma_mp(g0, x);
        let y = g0.graph.link(x);
        lemma_mp(g0, y);
        lemma_port(g0.graph, x); lemma_port(g0.graph, y);
        if g0.graph.owns(n, x) { assert(x == g0.cport(n)); }
        if g0.graph.owns(n, y) { assert(y == g0.cport(n)); assert(x == p); }
        assert(g1.graph.has_port(x));
        assert(g1.mp(y)) by { if y == p { assert(x == g0.graph.link(p)); } }
        assert(g1.cp(g0.graph.pnode(x)) == g0.cp(g0.graph.pnode(x))); assert(g1.cp(g0.graph.pnode(y)) == g0.cp(g0.graph.pnode(y)));
    }
    assert forall|k: int| #![trigger g1.un(k)] g1.un(k) == g0.un(k) && (g1.un(k) ==> g1.graph.same_node(g0.graph, k)) by {
        assert(g1.cp(k) == (g0.cp(k) && k != n)); if k != n { assert(g1.graph.same_node(g0.graph, k)); }
    }
    assert forall|q: int| #![trigger g1.up(q)] g1.up(q) == g0.up(q) && (g1.up(q) ==> g1.graph.pnode(q) == g0.graph.pnode(q) && g1.graph.pdir(q) == g0.graph.pdir(q)) by {
        assert(g1.graph.has_port(q) == (g0.graph.has_port(q) && !g0.graph.owns(n, q)));
        assert(g1.cp(g0.graph.pnode(q)) == (g0.cp(g0.graph.pnode(q)) && g0.graph.pnode(q) != n));
    }
    assert(!g1.mp(p));
    assert forall|q: int| #![trigger g1.nsub(q)] g1.up(q) && q != p implies g1.nsub(q) == g0.nsub(q) && (forall|k: int| g1.six(q, k) == g0.six(q, k)) by {
        assert(g1.mp(q) == (g0.mp(q) && q != p && q != g0.cport(n)));
        if g0.mp(q) {
            lemma_mp(g0, q);
            let c = g0.graph.pnode(g0.graph.link(q));
            assert(q != g0.cport(n));
            assert(g1.graph.link(q) == g0.graph.link(q));
            assert(g1.graph.has_port(g0.graph.link(q)));
            assert(g1.cp(c)); assert(g1.graph.same_node(g0.graph, c));
        }
    }
    assert forall|q: int, k: int| #![trigger g1.six(q, k)] g1.has_sub(q, k) && q != p implies g1.six(q, k) == g0.six(q, k) by { assert(g1.nsub(q) == g0.nsub(q)); }
    assert forall|i: int| #![trigger g1.sof(i)] g1.graph.has_port(i) implies g1.sof(i) == g0.sof(i) by {
        let c = g0.graph.pnode(i);
        assert(g1.graph.pnode(i) == c);
        assert(!g0.graph.owns(n, i)); assert(c != n);
        assert(g1.cp(c) == g0.cp(c));
        if g0.cp(c) { assert(g1.copy_ok(c)); assert(g1.graph.same_node(g0.graph, c)); assert(g1.cport(c) == g0.cport(c)); lemma_copy(g0, c); }
    }
}
/// Dropping the copy node of p removes exactly the links of p.
pub proof fn lemma_dropped(g0: MultiPortGraph, g1: MultiPortGraph, p: int)
    requires g0.wf(), g1.graph.wf(), g0.mp(p), g0.up(p), dropped(g0, g1, p, g0.graph.pnode(g0.graph.link(p))),
    ensures g1.wf(), port_cleared(g0, g1, p),
{
    hide(PortGraph::wf);
    let n = g0.graph.pnode(g0.graph.link(p));
    lemma_dropped_wf(g0, g1, p);
    lemma_mp(g0, p); lemma_copy(g0, n);
    lemma_sym(g0.graph); lemma_sym(g1.graph);
    assert forall|q: int, k: int| #![trigger g1.slink(q, k)] g1.slink(q, k) == (if q == p || (g0.slink(q, k) matches Some(t) && t.0 == p) { None } else { g0.slink(q, k) }) by {
        assert(g1.up(q) == g0.up(q));
        if g1.up(q) && q != p { assert(g1.nsub(q) == g0.nsub(q)); }
        if q == p {
            assert(g1.graph.has_port(p));
            assert(g1.graph.link(p) == -1) by { assert(g0.graph.owns(n, g0.graph.link(p))); }
        } else if g1.has_sub(q, k) {
            theorem_subports(g0, 0, q, k);
            let i = g0.six(q, k);
            assert(g1.six(q, k) == i);
            if g0.graph.owns(n, i) { assert(g0.sof(i).0 == p); }
            assert(g1.graph.has_port(i));
            let j = g0.graph.link(i);
            if j >= 0 {
                assert(g0.graph.link(j) == i);
                if j == p { assert(g0.mp_ok(p)); assert(false); }
                if !g0.graph.owns(n, j) {
                    assert(g1.graph.link(i) == j);
                    assert(g1.graph.has_port(j));
                    assert(g1.sof(j) == g0.sof(j));
                    if g0.cp(g0.graph.pnode(j)) {
                        let c = g0.graph.pnode(j);
                        lemma_copy(g0, c);
                        if g0.sof(j).0 == p { assert(g0.cport(c) == g0.graph.link(p)); }
                    }
                } else { assert(g0.sof(j).0 == p); assert(g1.graph.link(i) == -1); }
            }
        }
    }
}
=== fn multiportgraph MultiPortGraph::remove_copy_node bits=multiport,copy_node
--- spec
requires old(self).wf(), main_node_port.wf(), copy_port.wf(), old(self).up(main_node_port.i()), old(self).mp(main_node_port.i()), old(self).graph.link(main_node_port.i()) == copy_port.i(),
ensures final(self).wf(), port_cleared(*old(self), *final(self), main_node_port.i()),
    match r {
        Some(t) => t.wf() && exists|k: int| #[trigger] old(self).slink(main_node_port.i(), k) == Some(t.v()),
        None => forall|k: int| #[trigger] old(self).slink(main_node_port.i(), k) is None,
    },
--- hint start
hide(PortGraph::wf);
let ghost g0 = *self;
let ghost p = main_node_port.i();
let ghost n = self.graph.pnode(copy_port.i());
proof {
    lemma_mp(*self, p); lemma_copy(*self, n); lemma_port(self.graph, copy_port.i()); theorem_counts(*self);
    lemma_inner_pos(*self, n);
    lemma_first_link(*self, p);
}
--- hint after get_subport_from_index#0
proof { assert(true); }
--- hint end
proof { lemma_dropped(g0, *self, p); }
=== raw first_link
pub proof fn lemma_inner_pos(g: MultiPortGraph, n: int)
    requires g.wf(), g.cp(n),
    ensures g.copy_node_count > 0, g.subport_count >= g.graph.m(n).num(rev_dir(g.cdir(n))),
{
    hide(PortGraph::wf);
    lemma_copy(g, n);
    let l0 = g.graph.node_meta@.len() as int;
    cnt_pos(g.cpf(), 0, l0, n);
    let a0 = g.graph.port_meta@.len() as int;
    // every copy node has its own marked port
    let sub = |q: int| g.graph.has_port(q) && g.cp(g.graph.pnode(q)) && !g.mp(q);
    let mrk = |q: int| g.graph.has_port(q) && g.cp(g.graph.pnode(q)) && g.mp(q);
    cnt_sum(g.icf(), sub, mrk, 0, a0);
    let fro = |k: int| g.cport(k);
    let cf = g.cpf();
    assert forall|k: int| #![trigger cf(k)] cf(k) implies 0 <= fro(k) < a0 && mrk(fro(k)) && g.graph.pnode(fro(k)) == k by { lemma_copy(g, k); assert(g.copy_ok(k)); }
    assert forall|i: int, j: int| #![trigger cf(i), cf(j)] cf(i) && cf(j) && i != j implies fro(i) != fro(j) by { assert(g.graph.pnode(fro(i)) == i); assert(g.graph.pnode(fro(j)) == j); }
    cnt_inj(cf, 0, l0, mrk, 0, a0, fro);
    assert(cnt(sub, 0, a0) <= g.subport_count);
    let own = |q: int| g.graph.owns(n, q);
    lemma_node_cnt(g.graph, n);
    let own1 = |q: int| g.graph.owns(n, q) && q != g.cport(n);
    cnt_upd(own, own1, 0, a0, g.cport(n));
    assert(cnt(own1, 0, a0) == g.graph.m(n).tot() - 1);
    let id = |q: int| q;
    assert forall|q: int| #![trigger own1(q)] 0 <= q < a0 && own1(q) implies 0 <= id(q) < a0 && sub(id(q)) by { if g.mp(q) { assert(g.copy_ok(n)); } }
    cnt_inj(own1, 0, a0, sub, 0, a0, id);
}
/// The links of the copy node of p are the links of the subports of p.
pub proof fn lemma_first_link(g: MultiPortGraph, p: int)
    requires g.graph.wf(), g.wf_s(), g.mp(p), g.up(p),
    ensures ({ let n = g.graph.pnode(g.graph.link(p)); let s = g.graph.dlinks(n, g.graph.pdir(p));
        &&& s.len() > 0 ==> s[0].1.wf() && g.graph.has_port(s[0].1.i()) && exists|k: int| #[trigger] g.slink(p, k) == Some(g.sof(s[0].1.i()))
        &&& s.len() == 0 ==> forall|k: int| #[trigger] g.slink(p, k) is None }),
{
    hide(PortGraph::wf);
    lemma_mp(g, p);
    let n = g.graph.pnode(g.graph.link(p)); let d = g.graph.pdir(p);
    lemma_copy(g, n);
    let s = g.graph.dlinks(n, d);
    theorem_links(g.graph, n, d);
    if s.len() > 0 {
        let i = s[0].0.i();
        let k = g.graph.offset_of(i);
        assert(g.graph.pnode(i) == n && g.graph.pdir(i) == d);
        theorem_index_offset(g.graph, n, d, k, i);
        if g.mp(i) { assert(g.graph.owns(n, i)); }
        theorem_subports(g, i, p, k);
        assert(g.slink(p, k) == Some(g.sof(s[0].1.i())));
    } else {
        assert forall|k: int| #[trigger] g.slink(p, k) is None by {
            if g.slink(p, k) is Some {
                let i = g.six(p, k);
                theorem_index_offset(g.graph, n, d, k, i);
                assert(s.contains((PortIndex::mk(i), PortIndex::mk(g.graph.link(i)))));
            }
        }
    }
}
=== fn multiportgraph MultiPortGraph::unlink_port
--- spec
requires old(self).wf(), port.wf(), old(self).graph.has_port(port.i()) ==> old(self).up(port.i()),
ensures final(self).wf(),
    old(self).up(port.i()) ==> port_cleared(*old(self), *final(self), port.i()),
    !old(self).up(port.i()) ==> same_multi(*old(self), *final(self)),
    match r {
        Some(t) => t.wf() && exists|k: int| #[trigger] old(self).slink(port.i(), k) == Some(t.v()),
        None => forall|k: int| #[trigger] old(self).slink(port.i(), k) is None,
    },
--- hint start
hide(PortGraph::wf);
let ghost g0 = *self;
let ghost p = port.i();
proof {
    lemma_sym(self.graph); assert(self.graph.link(p) >= -1);
    if self.mp(p) { lemma_mp(*self, p); }
    else {
        theorem_subports(*self, p, p, 0);
        assert forall|k: int| #[trigger] g0.slink(p, k) == (if k == 0 && g0.graph.link(p) >= 0 && g0.up(p) { Some(g0.sof(g0.graph.link(p))) } else { None }) by {}
        assert(g0.slink(p, 0) == g0.slink(p, 0));
        assert forall|g1: MultiPortGraph| #![trigger g1.wf()] g1.graph.wf() && same_bits(g0, g1) && g0.graph.link(p) < 0 && same_all(g0.graph, g1.graph) implies g1.wf() && same_multi(g0, g1) && (g0.up(p) ==> port_cleared(g0, g1, p)) by { lemma_same_multi(g0, g1); lemma_cleared_none(g0, g1, p); }
        assert forall|g1: MultiPortGraph, b: int| #![trigger g1.wf(), link_removed(g0.graph, g1.graph, p, b)] g0.up(p) && g1.graph.wf() && same_bits(g0, g1) && link_removed(g0.graph, g1.graph, p, b) implies g1.wf() && port_cleared(g0, g1, p) by { assert(g0.graph.has_port(b)); lemma_sub_unlinked(g0, g1, p, b); lemma_cleared_one(g0, g1, p, b); }
    }
}
--- hint before get_subport_from_index#0
proof { assert(link_removed(g0.graph, self.graph, p, link.i())); lemma_sub_unlinked(g0, *self, p, link.i()); lemma_cleared_one(g0, *self, p, link.i()); assert(g0.up(p)); }
=== raw cleared2
pub proof fn lemma_cleared_one(g0: MultiPortGraph, g1: MultiPortGraph, p: int, b: int)
    requires g0.wf(), g1.wf(), g0.up(p), !g0.mp(p), same_bits(g0, g1), same_subs(g0, g1), sub_unlinked(g0, g1, g0.sof(p), g0.sof(b)),
    ensures port_cleared(g0, g1, p),
{
    hide(PortGraph::wf);
    let t = g0.sof(b);
    assert(g0.sof(p) == (p, 0int));
    theorem_slink(g0, p, 0);
    assert forall|q: int, k: int| #![trigger g1.slink(q, k)] g1.slink(q, k) == (if q == p || (g0.slink(q, k) matches Some(t) && t.0 == p) { None } else { g0.slink(q, k) }) by {
        theorem_slink(g0, q, k);
        if q != p && (q, k) != t { if let Some(s) = g0.slink(q, k) { if s.0 == p { assert(s.1 == 0); assert(g0.slink(p, 0) == Some((q, k))); } } }
    }
}
pub proof fn lemma_cleared_none(g0: MultiPortGraph, g1: MultiPortGraph, p: int)
    requires g0.wf(), g1.wf(), !g0.mp(p), same_bits(g0, g1), same_all(g0.graph, g1.graph), g0.graph.link(p) < 0,
    ensures g0.up(p) ==> port_cleared(g0, g1, p),
{
    hide(PortGraph::wf);
    assert forall|q: int, k: int| #![trigger g1.slink(q, k)] g1.slink(q, k) == (if q == p || (g0.slink(q, k) matches Some(t) && t.0 == p) { None } else { g0.slink(q, k) }) by {
        theorem_slink(g0, q, k);
        if g0.slink(q, k) is Some && g0.slink(q, k)->Some_0.0 == p { let s = g0.slink(q, k)->Some_0; assert(s.1 == 0); assert(g0.slink(p, 0) == Some((q, k))); }
    }
}
