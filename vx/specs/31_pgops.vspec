=== default P=G01
=== raw ops_lemmas
pub proof fn lemma_node_count(nm0: Seq<NodeEntry>, nm1: Seq<NodeEntry>, k: int)
    requires
        0 <= k < nm1.len(), nm0.len() <= nm1.len(), nm1.len() <= nm0.len() + 1, nm1.len() > nm0.len() ==> k == nm0.len(),
        forall|n: int| #![trigger live(nm1, n)] n != k ==> live(nm1, n) == live(nm0, n),
    ensures n_nodes(nm1) == n_nodes(nm0) - (if live(nm0, k) { 1int } else { 0 }) + (if live(nm1, k) { 1int } else { 0 }),
{
    let f = nf_(nm0); let g = nf_(nm1);
    let len = nm1.len() as int;
    assert(forall|i: int| #![trigger f(i)] #![trigger g(i)] i != k ==> f(i) == g(i)) by {
        assert(forall|i: int| #![trigger f(i)] #![trigger g(i)] i != k ==> live(nm1, i) == live(nm0, i));
    }
    cnt_upd(f, g, 0, len, k);
    if nm1.len() > nm0.len() {
        cnt_split(f, 0, nm0.len() as int, len);
        cnt_const(f, false, nm0.len() as int, len);
    }
}
/// Ports and links after a slab was allocated.
pub proof fn lemma_slab_counts(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, n: int, m: NodeMeta)
    requires slab_new(pl0, pm0, pl, pm, n, m), m.wf(), pl0.len() == pm0.len(), links_ok(pl0, pm0), 0 <= n <= max_ix(), pm.len() <= max_ix() + 1,
    ensures n_ports(pm) == n_ports(pm0) + m.tot(), n_links(pl, pm) == n_links(pl0, pm0), links_ok(pl, pm),
{
    let f = pf_(pm0); let g = pf_(pm);
    let a = m.first(); let b = a + m.cap();
    let len = pm.len() as int; let len0 = pm0.len() as int;
    cnt_split(f, 0, len0, len);
    cnt_const(f, false, len0, len);
    cnt_range(f, g, 0, a, b, len);
    cnt_const(f, false, a, b);
    cnt_split(g, a, a + m.tot(), b);
    cnt_const(g, true, a, a + m.tot());
    cnt_const(g, false, a + m.tot(), b);
    let h0 = lf(pl0, pm0); let h = lf(pl, pm);
    cnt_split(h0, 0, len0, len);
    cnt_const(h0, false, len0, len);
    cnt_ext(h0, h, 0, len);
    assert forall|p: int| #![trigger pl[p]] isp(pm, p) && linked(pl, p) implies link_at(pl, pm, p) by {
        assert(!(a <= p < b));
        assert(link_at(pl0, pm0, p));
        let q = pl0[p].i();
        assert(pl0[q] == MaybePortIndex::some(PortIndex::mk(p)));
        assert(isp(pm0, q));
        assert(pl[q] == pl0[q]);
    }
}
pub proof fn lemma_count_bounds(g: PortGraph)
    requires g.wf(),
    ensures g.node_count <= max_ix() + 1, g.port_count <= max_ix() + 1, g.link_count <= max_ix() + 1,
{
    cnt_bounds(nf_(g.node_meta@), 0, g.node_meta@.len() as int);
    cnt_bounds(pf_(g.port_meta@), 0, g.port_meta@.len() as int);
    cnt_bounds(lf(g.port_link@, g.port_meta@), 0, g.port_meta@.len() as int);
}
pub open spec fn pre_add(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int, m: NodeMeta) -> bool {
    &&& g0.wf_ow(ow)
    &&& m.wf()
    &&& m.inc() <= PortOffset::max_o()
    &&& m.out() <= PortOffset::max_o()
    &&& m.tot() == 0 ==> m.cap() == 0
    &&& 0 <= n < g1.node_meta@.len()
    &&& !live(g0.node_meta@, n)
    &&& n <= max_ix()
    &&& g1.node_meta@[n] == NodeEntry::Node(m)
    &&& g1.node_meta@.len() == (if n < g0.node_meta@.len() { g0.node_meta@.len() as int } else { n + 1 })
    &&& n <= g0.node_meta@.len()
    &&& forall|k: int| #![trigger live(g1.node_meta@, k)] k != n ==> live(g1.node_meta@, k) == live(g0.node_meta@, k) && (live(g0.node_meta@, k) ==> g1.node_meta@[k] == g0.node_meta@[k])
    &&& nfree_ok(g1.node_meta@, g1.node_free)
    &&& slab_new(g0.port_link@, g0.port_meta@, g1.port_link@, g1.port_meta@, n, m)
    &&& pfree_ok(g1.port_link@, g1.port_meta@, g1.port_free@, give(ow, m.first(), m.cap(), Owner::Node(n), g1.port_meta@.len() as int))
    &&& forall|i: int| #![trigger ow[i]] m.first() <= i < m.first() + m.cap() && i < ow.len() ==> ow[i] is Slab
    &&& g1.port_meta@.len() <= max_ix() + 1
    &&& g1.node_count == g0.node_count + 1
    &&& g1.port_count == g0.port_count + m.tot()
    &&& g1.link_count == g0.link_count
}
pub proof fn lemma_add_node1(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int, m: NodeMeta)
    requires pre_add(g0, g1, ow, n, m),
    ensures nodes_ok(g1.node_meta@, g1.port_link@, g1.port_meta@, give(ow, m.first(), m.cap(), Owner::Node(n), g1.port_meta@.len() as int)),
{
    reveal(pfree_ok); reveal(nodes_ok);
    let w = give(ow, m.first(), m.cap(), Owner::Node(n), g1.port_meta@.len() as int);
    let nm = g1.node_meta@; let pl = g1.port_link@; let pm = g1.port_meta@;
    assert forall|k: int| #![trigger nm[k]] live(nm, k) implies node_at(nm, pl, pm, w, k) by {
        if k != n {
            assert(live(g0.node_meta@, k));
            assert(node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, k));
            lemma_node_kept(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, nm, pl, pm, w, k);
        }
    }
}
pub proof fn lemma_add_node2(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int, m: NodeMeta)
    requires pre_add(g0, g1, ow, n, m),
    ensures ports_ok(g1.node_meta@, g1.port_meta@),
{
    reveal(ports_ok);
    let nm = g1.node_meta@; let pm = g1.port_meta@;
    assert forall|p: int| #![trigger pm[p]] isp(pm, p) implies port_at(nm, pm, p) by {
        if !(m.first() <= p < m.first() + m.cap()) {
            assert(isp(g0.port_meta@, p));
            assert(port_at(g0.node_meta@, g0.port_meta@, p));
            assert(live(nm, pmeta(pm, p).n()));
        }
    }
}
pub proof fn lemma_add_node(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int, m: NodeMeta)
    requires pre_add(g0, g1, ow, n, m),
    ensures g1.wf_ow(give(ow, m.first(), m.cap(), Owner::Node(n), g1.port_meta@.len() as int)),
{
    assert(g0.port_link@.len() == g0.port_meta@.len()) by { reveal(pfree_ok); }
    lemma_slab_counts(g0.port_link@, g0.port_meta@, g1.port_link@, g1.port_meta@, n, m);
    lemma_node_count(g0.node_meta@, g1.node_meta@, n);
    lemma_add_node1(g0, g1, ow, n, m);
    lemma_add_node2(g0, g1, ow, n, m);
}
=== raw add_spec
/// Node n with the given numbers of ports is new, and nothing else changed.
pub open spec fn added(g0: PortGraph, g1: PortGraph, n: int, inc: int, out: int) -> bool {
    &&& !g0.has_node(n) && g1.has_node(n)
    &&& g1.m(n).inc() == inc && g1.m(n).out() == out
    &&& forall|k: int| #![trigger g1.same_node(g0, k)] #![trigger g1.has_node(k)] k != n ==> g1.same_node(g0, k)
    &&& forall|p: int| #![trigger g1.has_port(p)] g1.owns(n, p) ==> !g0.has_port(p) && g1.link(p) == -1
    &&& forall|p: int| #![trigger g1.same_port(g0, p)] #![trigger g1.has_port(p)] !g1.owns(n, p) ==> g1.same_port(g0, p)
    &&& g1.node_count == g0.node_count + 1
    &&& g1.port_count == g0.port_count + inc + out
    &&& g1.link_count == g0.link_count
}
pub proof fn lemma_added(g0: PortGraph, g1: PortGraph, n: int, m: NodeMeta)
    requires
        g0.wf(), g1.wf(), !live(g0.node_meta@, n), n <= max_ix(),
        live(g1.node_meta@, n), g1.node_meta@[n] == NodeEntry::Node(m),
        forall|k: int| #![trigger live(g1.node_meta@, k)] k != n ==> live(g1.node_meta@, k) == live(g0.node_meta@, k) && (live(g0.node_meta@, k) ==> g1.node_meta@[k] == g0.node_meta@[k]),
        slab_new(g0.port_link@, g0.port_meta@, g1.port_link@, g1.port_meta@, n, m),
        g1.node_count == g0.node_count + 1, g1.port_count == g0.port_count + m.tot(), g1.link_count == g0.link_count,
    ensures added(g0, g1, n, m.inc(), m.out()),
{
    reveal(ports_ok);
    assert forall|k: int| #![trigger g1.same_node(g0, k)] k != n implies g1.same_node(g0, k) by { assert(live(g1.node_meta@, k) == live(g0.node_meta@, k)); }
    assert forall|p: int| #![trigger g1.has_port(p)] g1.owns(n, p) implies !g0.has_port(p) && g1.link(p) == -1 by {
        assert(port_at(g1.node_meta@, g1.port_meta@, p));
        if p < g0.port_meta@.len() { assert(g0.port_meta@[p] is Free); }
    }
    assert forall|p: int| #![trigger g1.same_port(g0, p)] #![trigger g1.has_port(p)] !g1.owns(n, p) implies g1.same_port(g0, p) by {
        let a = m.first();
        if a <= p < a + m.cap() {
            if p < a + m.tot() { assert(g1.owns(n, p)); }
            assert(g1.port_meta@[p] is Free);
            if p < g0.port_meta@.len() { assert(g0.port_meta@[p] is Free); }
        }
    }
}
=== fn portgraph PortGraph::add_node
--- spec
requires
    old(self).wf(), limits(incoming as int, outgoing as int),
    old(self).node_meta.len() <= max_ix(),
    old(self).port_meta.len() + incoming + outgoing <= max_ix() + 1,
ensures
    final(self).wf(), r.wf(),
    added(*old(self), *final(self), r.i(), incoming as int, outgoing as int),
    final(self).node_meta@.len() <= old(self).node_meta@.len() + 1,
    final(self).port_meta@.len() <= old(self).port_meta@.len() + incoming + outgoing,
--- hint start
let ghost ow = choose|ow: Seq<Owner>| old(self).wf_ow(ow);
let ghost g0 = *self;
proof { lemma_count_bounds(g0); }
--- hint before alloc_ports#0
let ghost nm1 = self.node_meta@;
proof { assert(pfree_ok(self.port_link@, self.port_meta@, self.port_free@, ow)); }
--- hint end
proof {
    let n = __ret.i(); let nm = self.node_meta@;
    assert(nm == nm1.update(n, NodeEntry::Node(node_meta)));
    assert forall|k: int| #![trigger live(nm, k)] k != n implies live(nm, k) == live(g0.node_meta@, k) && (live(g0.node_meta@, k) ==> nm[k] == g0.node_meta@[k]) by {
        assert(live(nm1, k) == live(g0.node_meta@, k));
    }
    lemma_add_node(g0, *self, ow, n, node_meta);
    assert(self.wf());
    lemma_added(g0, *self, n, node_meta);
}
=== raw remove_spec
pub open spec fn removed(g0: PortGraph, g1: PortGraph, n: int) -> bool {
    &&& !g1.has_node(n)
    &&& forall|k: int| #![trigger g1.same_node(g0, k)] #![trigger g1.has_node(k)] k != n ==> g1.same_node(g0, k)
    &&& forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) == (g0.has_port(p) && !g0.owns(n, p))
    &&& forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) ==> g1.pnode(p) == g0.pnode(p) && g1.pdir(p) == g0.pdir(p)
            && g1.link(p) == (if g0.link(p) >= 0 && g0.owns(n, g0.link(p)) { -1 } else { g0.link(p) })
    &&& g1.node_count == g0.node_count - 1
    &&& g1.port_count == g0.port_count - g0.m(n).tot()
}
/// The cells of a node are exactly its ports and its spare cells.
pub proof fn lemma_node_cells(g: PortGraph, ow: Seq<Owner>, n: int, p: int)
    requires g.wf_ow(ow), g.has_node(n),
    ensures g.owns(n, p) <==> g.m(n).first() <= p < g.m(n).first() + g.m(n).tot(),
{
    reveal(pfree_ok); reveal(nodes_ok); reveal(ports_ok);
    let m = g.m(n);
    assert(node_at(g.node_meta@, g.port_link@, g.port_meta@, ow, n));
    if g.owns(n, p) { assert(port_at(g.node_meta@, g.port_meta@, p)); }
    if m.first() <= p < m.first() + m.tot() { assert(g.port_meta@[p] is Port); }
}
pub open spec fn pre_remove(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int) -> bool {
    &&& g0.wf_ow(ow)
    &&& g0.has_node(n)
    &&& nfree_ok(g1.node_meta@, g1.node_free)
    &&& g1.node_meta@.len() == g0.node_meta@.len()
    &&& forall|k: int| #![trigger live(g1.node_meta@, k)] live(g1.node_meta@, k) == (k != n && live(g0.node_meta@, k)) && (live(g1.node_meta@, k) ==> g1.node_meta@[k] == g0.node_meta@[k])
    &&& g1.node_count == g0.node_count - 1
    &&& g1.port_count == g0.port_count - g0.m(n).tot()
    &&& g1.link_count == n_links(g1.port_link@, g1.port_meta@)
    &&& links_ok(g1.port_link@, g1.port_meta@)
    &&& freed(g0.port_link@, g0.port_meta@, g1.port_link@, g1.port_meta@, g0.m(n).first(), g0.m(n).first() + g0.m(n).cap())
    &&& pfree_ok(g1.port_link@, g1.port_meta@, g1.port_free@, give(ow, g0.m(n).first(), g0.m(n).cap(), Owner::Slab(g0.m(n).first(), g0.m(n).cap()), g1.port_meta@.len() as int))
}
pub proof fn lemma_remove1(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int)
    requires pre_remove(g0, g1, ow, n), node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, n),
    ensures n_ports(g1.port_meta@) == n_ports(g0.port_meta@) - g0.m(n).tot(), n_nodes(g1.node_meta@) == n_nodes(g0.node_meta@) - 1,
{
    let m = g0.m(n); let a = m.first(); let b = a + m.cap();
    let w = give(ow, a, m.cap(), Owner::Slab(a, m.cap()), g1.port_meta@.len() as int);
    let nm = g1.node_meta@; let pl = g1.port_link@; let pm = g1.port_meta@; let pm0 = g0.port_meta@;
    lemma_node_count(g0.node_meta@, nm, n);
    let len = pm.len() as int;
    let f = pf_(pm0); let g = pf_(pm);
    cnt_range(f, g, 0, a, b, len);
    cnt_const(g, false, a, b);
    cnt_split(f, a, a + m.tot(), b);
    assert forall|i: int| #![trigger f(i)] a <= i < a + m.tot() implies f(i) by { assert(pm0[i] is Port); }
    cnt_const(f, true, a, a + m.tot());
    assert forall|i: int| #![trigger f(i)] a + m.tot() <= i < b implies !f(i) by { assert(pm0[i] is Free); }
    cnt_const(f, false, a + m.tot(), b);
}
pub proof fn lemma_remove2(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int)
    requires pre_remove(g0, g1, ow, n), node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, n),
    ensures nodes_ok(g1.node_meta@, g1.port_link@, g1.port_meta@, give(ow, g0.m(n).first(), g0.m(n).cap(), Owner::Slab(g0.m(n).first(), g0.m(n).cap()), g1.port_meta@.len() as int)),
{
    reveal(nodes_ok); reveal(pfree_ok);
    let m = g0.m(n); let a = m.first(); let b = a + m.cap();
    let w = give(ow, a, m.cap(), Owner::Slab(a, m.cap()), g1.port_meta@.len() as int);
    let nm = g1.node_meta@; let pl = g1.port_link@; let pm = g1.port_meta@; let pm0 = g0.port_meta@;
    assert forall|k: int| #![trigger nm[k]] live(nm, k) implies node_at(nm, pl, pm, w, k) by {
        assert(live(g0.node_meta@, k) && k != n);
        assert(node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, k));
        assert forall|i: int| #![trigger ow[i]] 0 <= i < pm0.len() && ow[i] == Owner::Node(k) implies w[i] == Owner::Node(k) && pm[i] == pm0[i] && (g0.port_link@[i].none() ==> pl[i].none()) by {
            if a <= i < b { assert(ow[i] == Owner::Node(n)); }
        }
        lemma_node_kept(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, nm, pl, pm, w, k);
    }
}
pub proof fn lemma_remove3(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int)
    requires pre_remove(g0, g1, ow, n), node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, n),
    ensures ports_ok(g1.node_meta@, g1.port_meta@),
{
    reveal(ports_ok);
    let m = g0.m(n); let a = m.first(); let b = a + m.cap();
    let w = give(ow, a, m.cap(), Owner::Slab(a, m.cap()), g1.port_meta@.len() as int);
    let nm = g1.node_meta@; let pl = g1.port_link@; let pm = g1.port_meta@; let pm0 = g0.port_meta@;
    assert forall|p: int| #![trigger pm[p]] isp(pm, p) implies port_at(nm, pm, p) by {
        assert(!(a <= p < b));
        assert(isp(pm0, p));
        assert(port_at(g0.node_meta@, pm0, p));
        lemma_node_cells(g0, ow, n, p);
        assert(live(nm, pmeta(pm, p).n()));
    }
}
pub proof fn lemma_remove4(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int)
    requires pre_remove(g0, g1, ow, n), node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, n),
    ensures removed(g0, g1, n),
{
    let m = g0.m(n); let a = m.first(); let b = a + m.cap();
    let w = give(ow, a, m.cap(), Owner::Slab(a, m.cap()), g1.port_meta@.len() as int);
    let nm = g1.node_meta@; let pl = g1.port_link@; let pm = g1.port_meta@; let pm0 = g0.port_meta@;
    assert forall|k: int| #![trigger g1.same_node(g0, k)] #![trigger g1.has_node(k)] k != n implies g1.same_node(g0, k) by { assert(live(nm, k) == live(g0.node_meta@, k)); }
    assert forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) == (g0.has_port(p) && !g0.owns(n, p)) by {
        lemma_node_cells(g0, ow, n, p);
        if g0.has_port(p) && a <= p < b { assert(a <= p < a + m.tot()) by { if p >= a + m.tot() { assert(pm0[p] is Free); } } }
    }
    assert forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) implies g1.pnode(p) == g0.pnode(p) && g1.pdir(p) == g0.pdir(p)
            && g1.link(p) == (if g0.link(p) >= 0 && g0.owns(n, g0.link(p)) { -1 } else { g0.link(p) }) by {
        assert(!(a <= p < b));
        if linked(g0.port_link@, p) {
            assert(link_at(g0.port_link@, pm0, p));
            let q = g0.link(p);
            lemma_node_cells(g0, ow, n, q);
            if a <= q < b { assert(a <= q < a + m.tot()) by { if q >= a + m.tot() { assert(pm0[q] is Free); } } }
        }
    }
}
pub proof fn lemma_remove_node(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int)
    requires pre_remove(g0, g1, ow, n),
    ensures
        g1.wf_ow(give(ow, g0.m(n).first(), g0.m(n).cap(), Owner::Slab(g0.m(n).first(), g0.m(n).cap()), g1.port_meta@.len() as int)),
        removed(g0, g1, n),
{
    assert(node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, n)) by { reveal(nodes_ok); }
    lemma_remove1(g0, g1, ow, n); lemma_remove2(g0, g1, ow, n); lemma_remove3(g0, g1, ow, n); lemma_remove4(g0, g1, ow, n);
}
=== fn portgraph PortGraph::remove_node
--- spec
requires old(self).wf(), node.wf(),
ensures
    final(self).wf(),
    !old(self).has_node(node.i()) ==> *final(self) == *old(self),
    old(self).has_node(node.i()) ==> removed(*old(self), *final(self), node.i()),
--- hint start
let ghost ow = choose|ow: Seq<Owner>| old(self).wf_ow(ow);
let ghost g0 = *self;
--- hint before free_node#0
let ghost n = node.i();
proof {
    lemma_node_count(g0.node_meta@, g0.node_meta@.update(n, NodeEntry::Free(FreeNodeEntry { prev: MaybeNodeIndex::spec_none(), next: MaybeNodeIndex::spec_none() })), n);
    cnt_pos(nf_(g0.node_meta@), 0, g0.node_meta@.len() as int, n);
    lemma_node_ports(g0, ow, n);
}
--- hint before free_ports#0
proof {
    assert(pfree_ok(self.port_link@, self.port_meta@, self.port_free@, ow));
    assert forall|i: int| #![trigger self.port_link@[i]] first_port.i() <= i < first_port.i() + size && linked(self.port_link@, i) implies isp(self.port_meta@, i) by {
        if i < first_port.i() + node_meta.tot() { assert(self.port_meta@[i] is Port); } else { assert(self.port_meta@[i] is Free); }
    }
}
--- hint end
proof {
    let m = g0.m(n);
    if m.cap() == 0 { lemma_give_nothing(g0.port_link@, g0.port_meta@, g0.port_free@, ow, m.first(), Owner::Slab(m.first(), m.cap())); }
    assert forall|i: int| #![trigger ow[i]] m.first() <= i < m.first() + m.cap() implies !(ow[i] is Slab) by { assert(ow[i] == Owner::Node(n)); }
    lemma_remove_node(g0, *self, ow, n);
}
=== raw node_ports
pub proof fn lemma_node_ports(g: PortGraph, ow: Seq<Owner>, n: int)
    requires g.wf_ow(ow), g.has_node(n),
    ensures g.m(n).tot() <= g.port_count, node_at(g.node_meta@, g.port_link@, g.port_meta@, ow, n),
{
    reveal(pfree_ok); reveal(nodes_ok); reveal(ports_ok);
    let m = g.m(n); let a = m.first(); let f = pf_(g.port_meta@); let len = g.port_meta@.len() as int;
    assert(node_at(g.node_meta@, g.port_link@, g.port_meta@, ow, n));
    assert forall|i: int| #![trigger f(i)] a <= i < a + m.tot() implies f(i) by { assert(g.port_meta@[i] is Port); }
    cnt_split(f, 0, a, len); cnt_split(f, a, a + m.tot(), len);
    cnt_const(f, true, a, a + m.tot());
    cnt_bounds(f, 0, a); cnt_bounds(f, a + m.tot(), len);
}
