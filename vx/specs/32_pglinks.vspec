=== default P=G02
=== raw link_spec
pub open spec fn same_frame(g0: PortGraph, g1: PortGraph) -> bool {
    &&& g1.node_meta == g0.node_meta && g1.port_meta == g0.port_meta
    &&& g1.node_free == g0.node_free && g1.port_free == g0.port_free
    &&& g1.node_count == g0.node_count && g1.port_count == g0.port_count
}
pub proof fn lemma_relinked(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>)
    requires
        g0.wf_ow(ow), same_frame(g0, g1), g1.port_link.len() == g0.port_link.len(),
        links_ok(g1.port_link@, g1.port_meta@), g1.link_count == n_links(g1.port_link@, g1.port_meta@),
        forall|p: int| #![trigger g1.port_link@[p]] 0 <= p < g0.port_link@.len() && g1.port_link@[p] != g0.port_link@[p] ==> isp(g0.port_meta@, p),
    ensures g1.wf_ow(ow),
{
    reveal(pfree_ok); reveal(nodes_ok); reveal(ports_ok);
    let nm = g1.node_meta@; let pl = g1.port_link@; let pm = g1.port_meta@; let pl0 = g0.port_link@;
    assert forall|p: int| #![trigger is_head(ow, p)] is_head(ow, p) implies pl[p] == pl0[p] by {
        assert(slab_at(pm, g0.port_free@, ow, p, p, ow[p]->Slab_1));
        assert(pm[p] is Free);
        assert(pl[p] == pl0[p]);
    }
    assert forall|p: int| #![trigger is_head(ow, p)] is_head(ow, p) && linked(pl, p) implies next_ok(pl, g1.port_free@, ow, p) by {
        assert(next_ok(pl0, g0.port_free@, ow, p));
    }
    assert(pfree_ok(pl, pm, g1.port_free@, ow));
    assert forall|k: int| #![trigger nm[k]] live(nm, k) implies node_at(nm, pl, pm, ow, k) by {
        assert(node_at(nm, pl0, pm, ow, k));
        let m = meta(nm, k);
        assert forall|i: int| #![trigger pm[i]] #![trigger pl[i]] m.first() + m.tot() <= i < m.first() + m.cap() implies pm[i] is Free && pl[i].none() by { assert(pm[i] is Free); assert(pl0[i].none()); }
    }
}
pub proof fn lemma_link(pl0: Seq<MaybePortIndex>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, a: int, b: int)
    requires
        links_ok(pl0, pm), isp(pm, a), isp(pm, b), !linked(pl0, a), !linked(pl0, b), pmeta(pm, a).d() != pmeta(pm, b).d(),
        pm.len() <= max_ix() + 1,
        pl == pl0.update(a, MaybePortIndex::some(PortIndex::mk(b))).update(b, MaybePortIndex::some(PortIndex::mk(a))),
    ensures links_ok(pl, pm), n_links(pl, pm) == n_links(pl0, pm) + 1,
{
    assert forall|p: int| #![trigger pl[p]] isp(pm, p) && linked(pl, p) implies link_at(pl, pm, p) by {
        if p != a && p != b {
            assert(link_at(pl0, pm, p));
            let q = pl0[p].i();
            assert(q != a && q != b);
        }
    }
    let len = pm.len() as int;
    let mid = pl0.update(a, pl[a]);
    cnt_upd(lf(pl0, pm), lf(mid, pm), 0, len, a);
    cnt_upd(lf(mid, pm), lf(pl, pm), 0, len, b);
}
/// Exactly the link a-b is new.
pub open spec fn link_added(g0: PortGraph, g1: PortGraph, a: int, b: int) -> bool {
    &&& same_frame(g0, g1)
    &&& g0.link(a) == -1 && g0.link(b) == -1
    &&& g1.link(a) == b && g1.link(b) == a
    &&& forall|p: int| #![trigger g1.link(p)] p != a && p != b ==> g1.link(p) == g0.link(p)
    &&& g1.link_count == g0.link_count + 1
}
/// Exactly the link a-b is gone.
pub open spec fn link_removed(g0: PortGraph, g1: PortGraph, a: int, b: int) -> bool {
    &&& same_frame(g0, g1)
    &&& g0.link(a) == b && g0.link(b) == a
    &&& g1.link(a) == -1 && g1.link(b) == -1
    &&& forall|p: int| #![trigger g1.link(p)] p != a && p != b ==> g1.link(p) == g0.link(p)
    &&& g1.link_count == g0.link_count - 1
}
pub open spec fn can_link(g: PortGraph, a: int, b: int) -> bool {
    g.has_port(a) && g.has_port(b) && g.pdir(a) != g.pdir(b) && g.link(a) == -1 && g.link(b) == -1
}
pub open spec fn link_refused(g: PortGraph, a: PortIndex, b: PortIndex, e: LinkError) -> bool {
    match e {
        LinkError::UnknownPort { port } => (port == a || port == b) && !g.has_port(port.i()),
        LinkError::IncompatibleDirections { port_a, port_b, dir } => port_a == a && port_b == b && g.has_port(a.i()) && g.has_port(b.i()) && g.pdir(a.i()) == dir && g.pdir(b.i()) == dir,
        LinkError::AlreadyLinked { port } => (port == a || port == b) && g.link(port.i()) >= 0,
        LinkError::UnknownOffset { node, offset } => false,
    }
}
=== fn portgraph PortGraph::link_ports assoc=LinkEndpoint:PortIndex P=G02,G06,S02
--- spec
requires old(self).wf(), port_a.wf(), port_b.wf(),
ensures
    final(self).wf(),
    r.is_ok() <==> can_link(*old(self), port_a.i(), port_b.i()),
    r matches Ok(x) ==> x == (port_a, port_b) && link_added(*old(self), *final(self), port_a.i(), port_b.i()),
    r matches Err(e) ==> *final(self) == *old(self) && link_refused(*old(self), port_a, port_b, e),
--- hint start
let ghost ow = choose|ow: Seq<Owner>| old(self).wf_ow(ow);
let ghost g0 = *self;
proof { lemma_count_bounds(g0); assert(port_a == PortIndex::mk(port_a.i())); assert(port_b == PortIndex::mk(port_b.i()));
    if linked(g0.port_link@, port_a.i()) && isp(g0.port_meta@, port_a.i()) { assert(link_at(g0.port_link@, g0.port_meta@, port_a.i())); }
    if linked(g0.port_link@, port_b.i()) && isp(g0.port_meta@, port_b.i()) { assert(link_at(g0.port_link@, g0.port_meta@, port_b.i())); }
}
--- hint end
proof {
    lemma_link(g0.port_link@, self.port_link@, self.port_meta@, port_a.i(), port_b.i());
    lemma_relinked(g0, *self, ow);
}
=== raw wf_same
pub proof fn lemma_same_wf(g0: PortGraph, g1: PortGraph)
    requires g0.wf(), g1.node_meta@ == g0.node_meta@, g1.port_meta@ == g0.port_meta@, g1.port_link@ == g0.port_link@, g1.port_free@ == g0.port_free@, g1.node_free == g0.node_free,
        g1.node_count == g0.node_count, g1.port_count == g0.port_count, g1.link_count == g0.link_count,
    ensures g1.wf(),
{ let ow = choose|ow: Seq<Owner>| g0.wf_ow(ow); assert(g1.wf_ow(ow)); }
pub open spec fn same_all(g0: PortGraph, g1: PortGraph) -> bool {
    g1.node_meta@ == g0.node_meta@ && g1.port_meta@ == g0.port_meta@ && g1.port_link@ == g0.port_link@ && g1.port_free@ == g0.port_free@ && g1.node_free == g0.node_free
    && g1.node_count == g0.node_count && g1.port_count == g0.port_count && g1.link_count == g0.link_count
}
=== fn portgraph PortGraph::unlink_port
--- spec
requires old(self).wf(), port.wf(),
ensures
    final(self).wf(),
    r.is_some() <==> old(self).link(port.i()) >= 0,
    r matches Some(q) ==> q.wf() && link_removed(*old(self), *final(self), port.i(), q.i()),
    r is None ==> final(self).node_meta == old(self).node_meta && final(self).port_meta == old(self).port_meta && final(self).port_link@ == old(self).port_link@
        && final(self).node_free == old(self).node_free && final(self).port_free == old(self).port_free
        && final(self).node_count == old(self).node_count && final(self).port_count == old(self).port_count && final(self).link_count == old(self).link_count,
--- hint start
let ghost ow = choose|ow: Seq<Owner>| old(self).wf_ow(ow);
let ghost g0 = *self;
proof { if linked(g0.port_link@, port.i()) && isp(g0.port_meta@, port.i()) { assert(link_at(g0.port_link@, g0.port_meta@, port.i())); lemma_links_pos(g0.port_link@, g0.port_meta@, port.i()); }
    else if isp(g0.port_meta@, port.i()) {
        assert(g0.port_link@.update(port.i(), MaybePortIndex::spec_none()) =~= g0.port_link@);
        assert forall|g1: PortGraph| #![trigger g1.wf()] same_all(g0, g1) implies g1.wf() by { lemma_same_wf(g0, g1); }
    }
}
--- hint end
proof {
    let a = port.i();
    assert(link_at(g0.port_link@, g0.port_meta@, a));
    assert(unlinked(g0.port_link@, self.port_link@, a));
    lemma_unlink(g0.port_link@, self.port_link@, self.port_meta@, a);
    lemma_relinked(g0, *self, ow);
}
=== fn portgraph PortGraph::clear P=G01
--- spec
ensures
    final(self).wf(),
    forall|n: int| !final(self).has_node(n), forall|p: int| !final(self).has_port(p),
    final(self).node_count == 0, final(self).port_count == 0, final(self).link_count == 0,
--- hint end
proof { lemma_empty(*self); }
=== fn portgraph PortGraph::with_capacity P=G01
--- spec
ensures r.wf(), r.node_meta@.len() == 0, r.port_meta@.len() == 0, r.node_count == 0, r.port_count == 0, r.link_count == 0,
--- hint end
proof { lemma_empty(__ret); }
=== fn portgraph PortGraph::reserve P=G01
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    final(self).node_meta@ == old(self).node_meta@, final(self).port_meta@ == old(self).port_meta@, final(self).port_link@ == old(self).port_link@,
    final(self).node_free == old(self).node_free, final(self).port_free == old(self).port_free,
    final(self).node_count == old(self).node_count, final(self).port_count == old(self).port_count, final(self).link_count == old(self).link_count,
--- hint end
proof { lemma_same_wf(*old(self), *self); }
