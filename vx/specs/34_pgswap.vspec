=== default P=G04
=== raw swap_spec
pub open spec fn sw(a: int, b: int, n: int) -> int { if n == a { b } else if n == b { a } else { n } }
/// The ports lo..hi of m belong to node n.
pub open spec fn reowned(pm0: Seq<PortEntry>, pm: Seq<PortEntry>, n: int, m: NodeMeta) -> bool {
    &&& pm.len() == pm0.len()
    &&& forall|i: int| #![trigger pm[i]] 0 <= i < pm.len() ==> pm[i] == (
            if m.first() <= i < m.first() + m.inc() { PortEntry::Port(PortMeta::mk(n, Direction::Incoming)) }
            else if m.first() + m.inc() <= i < m.first() + m.tot() { PortEntry::Port(PortMeta::mk(n, Direction::Outgoing)) }
            else { pm0[i] })
}
/// Nodes a and b have exchanged their indices, and nothing else changed.
pub open spec fn swapped(g0: PortGraph, g1: PortGraph, a: int, b: int) -> bool {
    &&& forall|n: int| #![trigger g1.has_node(n)] g1.has_node(n) == g0.has_node(sw(a, b, n)) && (g1.has_node(n) ==> g1.m(n) == g0.m(sw(a, b, n)))
    &&& forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) == g0.has_port(p) && (g1.has_port(p) ==> g1.pnode(p) == sw(a, b, g0.pnode(p)) && g1.pdir(p) == g0.pdir(p) && g1.link(p) == g0.link(p))
    &&& g1.node_count == g0.node_count && g1.port_count == g0.port_count && g1.link_count == g0.link_count
}
pub open spec fn nm_swapped(nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, a: int, b: int) -> bool {
    &&& nm.len() == nm0.len()
    &&& forall|n: int| #![trigger nm[n]] 0 <= n < nm.len() ==> (nm[n] is Node) == (nm0[sw(a, b, n)] is Node) && (nm[n] is Node ==> nm[n] == nm0[sw(a, b, n)])
}
pub open spec fn reown(pm0: Seq<PortEntry>, pm: Seq<PortEntry>, a: int, b: int) -> bool {
    &&& pm.len() == pm0.len()
    &&& forall|i: int| #![trigger pm[i]] 0 <= i < pm.len() ==> (pm[i] is Port) == (pm0[i] is Port) && (pm[i] is Port ==> pm[i] == PortEntry::Port(PortMeta::mk(sw(a, b, pmeta(pm0, i).n()), pmeta(pm0, i).d())))
}
pub open spec fn pre_swap(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, a: int, b: int) -> bool {
    &&& g0.wf_ow(ow)
    &&& 0 <= a < g0.node_meta@.len() && 0 <= b < g0.node_meta@.len()
    &&& nm_swapped(g0.node_meta@, g1.node_meta@, a, b)
    &&& nfree_ok(g1.node_meta@, g1.node_free)
    &&& reown(g0.port_meta@, g1.port_meta@, a, b)
    &&& g1.port_link@ == g0.port_link@ && g1.port_free@ == g0.port_free@
    &&& g1.node_count == g0.node_count && g1.port_count == g0.port_count && g1.link_count == g0.link_count
}
pub proof fn lemma_mk(n: int, d: Direction)
    requires 0 <= n <= max_ix(),
    ensures PortMeta::mk(n, d).n() == n, PortMeta::mk(n, d).d() == d, PortMeta::mk(n, d).wf(),
{}
pub proof fn lemma_mk_of(m: PortMeta)
    requires m.wf(),
    ensures m == PortMeta::mk(m.n(), m.d()),
{}
/// The free slabs do not depend on what nodes own.
pub proof fn lemma_pfree_reown(pl: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pm: Seq<PortEntry>, pf: Seq<MaybePortIndex>, ow: Seq<Owner>, w: Seq<Owner>)
    requires
        pfree_ok(pl, pm0, pf, ow), pm.len() == pm0.len(), w.len() == ow.len(),
        forall|i: int| #![trigger w[i]] #![trigger ow[i]] 0 <= i < w.len() ==> (w[i] is Slab) == (ow[i] is Slab) && (ow[i] is Slab ==> w[i] == ow[i] && pm[i] == pm0[i]),
    ensures pfree_ok(pl, pm, pf, w),
{
    reveal(pfree_ok);
    assert forall|p: int| #![trigger w[p]] 0 <= p < w.len() implies (w[p] matches Owner::Slab(s, k) ==> slab_at(pm, pf, w, p, s, k)) by {
        if let Owner::Slab(s, k) = w[p] {
            assert(ow[p] == w[p]);
            assert(slab_at(pm0, pf, ow, p, s, k));
            assert forall|j: int| #![trigger w[j]] s <= j < s + k implies w[j] == Owner::Slab(s, k) by { assert(ow[j] == Owner::Slab(s, k)); }
        }
    }
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) implies is_head(ow, p) && w[p] == ow[p] by { assert(ow[p] is Slab); }
    assert forall|k: int| #![trigger pf[k]] 0 <= k < pf.len() && !pf[k].none() implies pf[k].wf() && pf[k].i() < w.len() && w[pf[k].i()] == Owner::Slab(pf[k].i(), k + 1) by {
        assert(ow[pf[k].i()] == Owner::Slab(pf[k].i(), k + 1));
    }
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) && linked(pl, p) implies next_ok(pl, pf, w, p) by {
        assert(is_head(ow, p));
        assert(next_ok(pl, pf, ow, p));
        assert(ow[pl[p].i()] is Slab);
    }
    assert forall|p: int, q: int| #![trigger is_head(w, p), is_head(w, q)] is_head(w, p) && is_head(w, q) && p != q && linked(pl, p) && linked(pl, q) implies pl[p].i() != pl[q].i() by {
        assert(is_head(ow, p) && is_head(ow, q));
    }
}
pub proof fn lemma_swap_node_count(nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, a: int, b: int)
    requires nm_swapped(nm0, nm, a, b), 0 <= a < nm.len(), 0 <= b < nm.len(),
    ensures n_nodes(nm) == n_nodes(nm0),
{
    let nl = nm.len() as int;
    let f = nf_(nm0); let g = nf_(nm);
    assert forall|n: int| #![trigger g(n)] 0 <= n < nl implies g(n) == f(sw(a, b, n)) by { assert((nm[n] is Node) == (nm0[sw(a, b, n)] is Node)); }
    let mid = |n: int| if n == a { g(a) } else { f(n) };
    cnt_upd(f, mid, 0, nl, a);
    cnt_upd(mid, g, 0, nl, b);
}
pub proof fn lemma_swap_renum(nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, a: int, b: int, r: spec_fn(int) -> int)
    requires nm_swapped(nm0, nm, a, b), 0 <= a < nm.len(), 0 <= b < nm.len(), nm.len() <= max_ix() + 1, r == (|n: int| sw(a, b, n)),
    ensures nm_renum(nm0, nm, r, r),
{
    reveal(nm_renum);
    assert forall|n: int| #![trigger nm[n]] live(nm, n) implies live(nm0, r(n)) && r(r(n)) == n && nm[n] == nm0[r(n)] by {}
    assert forall|k: int| #![trigger nm0[k]] live(nm0, k) implies live(nm, r(k)) && r(r(k)) == k by { assert((nm[sw(a, b, k)] is Node) == (nm0[sw(a, b, sw(a, b, k))] is Node)); }
}
pub proof fn lemma_swap_pre(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, a: int, b: int, r: spec_fn(int) -> int)
    requires pre_swap(g0, g1, ow, a, b), r == (|n: int| sw(a, b, n)),
    ensures pre_renum(g0, g1, ow, r, r), n_nodes(g1.node_meta@) == n_nodes(g0.node_meta@), g1.node_meta@.len() == g0.node_meta@.len(),
{
    lemma_swap_pm(g0.port_meta@, g1.port_meta@, a, b, r);
    lemma_swap_node_count(g0.node_meta@, g1.node_meta@, a, b);
    lemma_swap_renum(g0.node_meta@, g1.node_meta@, a, b, r);
}
pub proof fn lemma_wf_counts(g: PortGraph, ow: Seq<Owner>)
    requires g.wf_ow(ow),
    ensures g.node_count == n_nodes(g.node_meta@), g.port_count == n_ports(g.port_meta@), g.link_count == n_links(g.port_link@, g.port_meta@), g.node_meta.len() <= max_ix() + 1, g.port_meta.len() <= max_ix() + 1,
{}
pub proof fn lemma_swap_has(nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, a: int, b: int, n: int)
    requires nm_swapped(nm0, nm, a, b), 0 <= a < nm.len(), 0 <= b < nm.len(),
    ensures live(nm, n) == live(nm0, sw(a, b, n)), live(nm, n) ==> nm[n] == nm0[sw(a, b, n)],
{
    if 0 <= n < nm.len() { assert((nm[n] is Node) == (nm0[sw(a, b, n)] is Node)); }
}
pub proof fn lemma_swap_nodes(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, a: int, b: int)
    requires pre_swap(g0, g1, ow, a, b),
    ensures g1.wf(), swapped(g0, g1, a, b),
{
    hide(PortGraph::wf_ow); hide(nfree_ok); hide(links_ok); hide(pm_renum); hide(nm_swapped); hide(reown); hide(PortGraph::wf);
    let r = |n: int| sw(a, b, n);
    lemma_swap_pre(g0, g1, ow, a, b, r);
    lemma_wf_counts(g0, ow);
    assert(g1.wf()) by { lemma_renum(g0, g1, ow, r, r); }
    lemma_renum_ports(g0, g1, ow, r, r);
    assert forall|n: int| #![trigger g1.has_node(n)] g1.has_node(n) == g0.has_node(sw(a, b, n)) && (g1.has_node(n) ==> g1.m(n) == g0.m(sw(a, b, n))) by {
        lemma_swap_has(g0.node_meta@, g1.node_meta@, a, b, n);
    }
}
pub proof fn lemma_swap_pm(pm0: Seq<PortEntry>, pm: Seq<PortEntry>, a: int, b: int, r: spec_fn(int) -> int)
    requires reown(pm0, pm, a, b), r == (|n: int| sw(a, b, n)),
    ensures pm_renum(pm0, pm, r),
{}
=== raw renum
/// The nodes of nm are the live nodes of nm0, renumbered by r (with inverse v).
#[verifier::opaque]
pub open spec fn nm_renum(nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, r: spec_fn(int) -> int, v: spec_fn(int) -> int) -> bool {
    &&& nm.len() <= max_ix() + 1
    &&& forall|n: int| #![trigger nm[n]] live(nm, n) ==> live(nm0, v(n)) && r(v(n)) == n && nm[n] == nm0[v(n)]
    &&& forall|k: int| #![trigger nm0[k]] live(nm0, k) ==> live(nm, r(k)) && v(r(k)) == k
}
pub open spec fn pm_renum(pm0: Seq<PortEntry>, pm: Seq<PortEntry>, r: spec_fn(int) -> int) -> bool {
    &&& pm.len() == pm0.len()
    &&& forall|i: int| #![trigger pm[i]] 0 <= i < pm.len() ==> (pm[i] is Port) == (pm0[i] is Port) && (pm[i] is Port ==> pm[i] == PortEntry::Port(PortMeta::mk(r(pmeta(pm0, i).n()), pmeta(pm0, i).d())))
}
pub open spec fn pre_renum(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, r: spec_fn(int) -> int, v: spec_fn(int) -> int) -> bool {
    &&& g0.wf_ow(ow)
    &&& nm_renum(g0.node_meta@, g1.node_meta@, r, v)
    &&& pm_renum(g0.port_meta@, g1.port_meta@, r)
    &&& g1.port_link@ == g0.port_link@ && g1.port_free@ == g0.port_free@
    &&& g1.port_count == g0.port_count && g1.link_count == g0.link_count
}
pub open spec fn nm_len(g: PortGraph) -> bool { g.node_meta.len() <= max_ix() + 1 }
pub open spec fn rno(r: spec_fn(int) -> int, o: Owner) -> Owner { match o { Owner::Node(n) => Owner::Node(r(n)), o => o } }
pub proof fn lemma_renum_ports(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, r: spec_fn(int) -> int, v: spec_fn(int) -> int)
    requires pre_renum(g0, g1, ow, r, v),
    ensures ports_ok(g1.node_meta@, g1.port_meta@),
        forall|p: int| #![trigger g1.has_port(p)] #![trigger g0.has_port(p)] g1.has_port(p) == g0.has_port(p) && (g1.has_port(p) ==> g1.pnode(p) == r(g0.pnode(p)) && g1.pdir(p) == g0.pdir(p) && g1.link(p) == g0.link(p)),
{
    let pm0 = g0.port_meta@; let pm = g1.port_meta@; let nm0 = g0.node_meta@; let nm = g1.node_meta@;
    reveal(ports_ok); reveal(nm_renum);
    assert forall|p: int| #![trigger g1.has_port(p)] #![trigger g0.has_port(p)] g1.has_port(p) == g0.has_port(p) && (g1.has_port(p) ==> g1.pnode(p) == r(g0.pnode(p)) && g1.pdir(p) == g0.pdir(p) && g1.link(p) == g0.link(p) && port_at(nm, pm, p)) by {
        if 0 <= p < pm.len() { assert((pm[p] is Port) == (pm0[p] is Port));
            if pm0[p] is Port {
                assert(port_at(nm0, pm0, p)) by { assert(isp(pm0, p)); }
                let k = pmeta(pm0, p).n();
                assert(live(nm0, k)); assert(nm0[k] is Node);
                assert(live(nm, r(k)));
                assert(nm[r(k)] == nm0[k]);
                lemma_mk(r(k), pmeta(pm0, p).d());
            }
        }
    }
    assert forall|p: int| #![trigger pm[p]] isp(pm, p) implies port_at(nm, pm, p) by { assert(g1.has_port(p)); }
}
pub proof fn lemma_renum_links(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, r: spec_fn(int) -> int, v: spec_fn(int) -> int)
    requires pre_renum(g0, g1, ow, r, v),
    ensures n_ports(g1.port_meta@) == n_ports(g0.port_meta@), n_links(g1.port_link@, g1.port_meta@) == n_links(g0.port_link@, g0.port_meta@),
        links_ok(g1.port_link@, g1.port_meta@),
{
    lemma_renum_ports(g0, g1, ow, r, v);
    let pm0 = g0.port_meta@; let pm = g1.port_meta@; let pl = g0.port_link@; let len = pm.len() as int;
    assert forall|i: int| #![trigger lf(pl, pm0)(i)] 0 <= i < len implies lf(pl, pm0)(i) == lf(pl, pm)(i) by { assert(g1.has_port(i) == g0.has_port(i)); }
    cnt_ext(lf(pl, pm0), lf(pl, pm), 0, len);
    assert forall|i: int| #![trigger pf_(pm0)(i)] 0 <= i < len implies pf_(pm0)(i) == pf_(pm)(i) by { assert(g1.has_port(i) == g0.has_port(i)); }
    cnt_ext(pf_(pm0), pf_(pm), 0, len);
    assert forall|p: int| #![trigger pl[p]] isp(pm, p) && linked(pl, p) implies link_at(pl, pm, p) by {
        assert(g1.has_port(p) == g0.has_port(p));
        assert(link_at(pl, pm0, p));
        let q = pl[p].i();
        assert(g0.has_port(q) == g1.has_port(q));
        assert(g1.pdir(q) == g0.pdir(q) && g1.pdir(p) == g0.pdir(p));
    }
}
pub proof fn lemma_renum_nodes(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, r: spec_fn(int) -> int, v: spec_fn(int) -> int)
    requires pre_renum(g0, g1, ow, r, v), w.len() == ow.len(), ow.len() == g0.port_meta@.len(),
        forall|i: int| #![trigger w[i]] #![trigger ow[i]] 0 <= i < w.len() ==> w[i] == rno(r, ow[i]),
    ensures nodes_ok(g1.node_meta@, g1.port_link@, g1.port_meta@, w),
{
    let pm0 = g0.port_meta@; let pm = g1.port_meta@; let pl = g0.port_link@; let nm0 = g0.node_meta@; let nm = g1.node_meta@;
    reveal(nodes_ok); reveal(nm_renum);
    assert forall|n: int| #![trigger nm[n]] live(nm, n) implies node_at(nm, pl, pm, w, n) by {
        let k = v(n);
        assert(live(nm0, k));
        assert(node_at(nm0, pl, pm0, ow, k));
        let m = meta(nm, n);
        assert forall|i: int| #![trigger w[i]] m.first() <= i < m.first() + m.cap() implies w[i] == Owner::Node(n) by { assert(ow[i] == Owner::Node(k)); }
        assert forall|i: int| #![trigger pm[i]] m.first() <= i < m.first() + m.inc() implies pm[i] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming)) by {
            assert(pm0[i] == PortEntry::Port(PortMeta::mk(k, Direction::Incoming))); lemma_mk(k, Direction::Incoming);
        }
        assert forall|i: int| #![trigger pm[i]] m.first() + m.inc() <= i < m.first() + m.tot() implies pm[i] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing)) by {
            assert(pm0[i] == PortEntry::Port(PortMeta::mk(k, Direction::Outgoing))); lemma_mk(k, Direction::Outgoing);
        }
        assert forall|i: int| #![trigger pm[i]] #![trigger pl[i]] m.first() + m.tot() <= i < m.first() + m.cap() implies pm[i] is Free && pl[i].none() by { assert(pm0[i] is Free); assert((pm[i] is Port) == (pm0[i] is Port)); }
    }
}
pub proof fn lemma_renum(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, r: spec_fn(int) -> int, v: spec_fn(int) -> int)
    requires pre_renum(g0, g1, ow, r, v),
        nfree_ok(g1.node_meta@, g1.node_free), g1.node_count == n_nodes(g1.node_meta@),
    ensures g1.wf(),
{
    let w = Seq::new(ow.len(), |i: int| rno(r, ow[i]));
    let pm0 = g0.port_meta@; let pm = g1.port_meta@; let pl = g0.port_link@;
    lemma_renum_links(g0, g1, ow, r, v);
    lemma_renum_ports(g0, g1, ow, r, v);
    assert(ow.len() == pm.len()) by { reveal(pfree_ok); }
    assert forall|i: int| #![trigger w[i]] #![trigger ow[i]] 0 <= i < w.len() implies (w[i] is Slab) == (ow[i] is Slab) && (ow[i] is Slab ==> w[i] == ow[i] && pm[i] == pm0[i]) by {
        if ow[i] is Slab { reveal(pfree_ok); assert(slab_at(pm0, g0.port_free@, ow, i, ow[i]->Slab_0, ow[i]->Slab_1)); assert(pm0[i] is Free); assert((pm[i] is Port) == (pm0[i] is Port)); }
    }
    lemma_pfree_reown(pl, pm0, pm, g0.port_free@, ow, w);
    lemma_renum_nodes(g0, g1, ow, w, r, v);
    assert(nm_len(g1)) by { reveal(nm_renum); }
    assert(g1.wf_ow(w));
}
=== raw swap_lists
/// The neighbours of e in the free list point to slot n.
pub open spec fn relisted(nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, n: NodeIndex, e: FreeNodeEntry) -> bool {
    &&& nm.len() == nm0.len()
    &&& forall|i: int| #![trigger nm[i]] 0 <= i < nm.len() ==> nm[i] == relisted_at(nm0[i], n, e, i)
}
pub open spec fn relisted_at(x: NodeEntry, n: NodeIndex, e: FreeNodeEntry, i: int) -> NodeEntry {
    if (!e.prev.none() && i == e.prev.i()) || (!e.next.none() && i == e.next.i()) {
        NodeEntry::Free(FreeNodeEntry {
            prev: if !e.next.none() && i == e.next.i() { MaybeNodeIndex::some(n) } else { (x->Free_0).prev },
            next: if !e.prev.none() && i == e.prev.i() { MaybeNodeIndex::some(n) } else { (x->Free_0).next },
        })
    } else { x }
}
/// Slot x of the free list moves to y.
pub proof fn lemma_nfree_move(nm0: Seq<NodeEntry>, nf0: MaybeNodeIndex, nm1: Seq<NodeEntry>, nm: Seq<NodeEntry>, nf: MaybeNodeIndex, x: int, y: int)
    requires
        nfree_ok(nm0, nf0), nm0.len() <= max_ix() + 1, 0 <= x < nm0.len(), 0 <= y < nm0.len(), nm0[x] is Free, nm0[y] is Node,
        nm1 == nm0.update(x, nm0[y]).update(y, nm0[x]),
        relisted(nm1, nm, NodeIndex::mk(y), nm0[x]->Free_0),
        nf == (if (nm0[x]->Free_0).prev.none() { MaybeNodeIndex::some(NodeIndex::mk(y)) } else { nf0 }),
    ensures nfree_ok(nm, nf), nm_swapped(nm0, nm, x, y), nm_swapped(nm0, nm, y, x),
{
    let e = nm0[x]->Free_0;
    assert(nfree_at(nm0, nf0, x));
    if !nf0.none() { assert(nfree_at(nm0, nf0, nf0.i())); }
    assert(!e.next.none() ==> e.next.i() != x && e.next.i() != y);
    assert(!e.prev.none() ==> e.prev.i() != x && e.prev.i() != y) by { if !e.prev.none() && e.prev.i() == x { assert(e.next == MaybeNodeIndex::some(NodeIndex::mk(x))); } }
    assert(nm[y] == nm0[x]);
    assert(nm[x] == nm0[y]);
    assert forall|i: int| #![trigger nm[i]] 0 <= i < nm.len() && i != x && i != y implies nm[i] == relisted_at(nm0[i], NodeIndex::mk(y), e, i) by {}
    assert forall|i: int| #![trigger nfree_at(nm, nf, i)] 0 <= i < nm.len() && nm[i] is Free implies nfree_at(nm, nf, i) by {
        if i != y {
            assert(nm0[i] is Free);
            assert(nfree_at(nm0, nf0, i));
            let d = nm0[i]->Free_0;
            if !d.next.none() { assert(nm0[d.next.i()] is Free); if d.next.i() == x { assert(e.prev == MaybeNodeIndex::some(NodeIndex::mk(i))); } else { assert(nfree_at(nm0, nf0, d.next.i())); } }
            if !d.prev.none() { assert(nm0[d.prev.i()] is Free); if d.prev.i() == x { assert(e.next == MaybeNodeIndex::some(NodeIndex::mk(i))); } else { assert(nfree_at(nm0, nf0, d.prev.i())); } }
        } else {
            if !e.next.none() { assert(nm0[e.next.i()] is Free); assert(nm[e.next.i()] is Free); }
            if !e.prev.none() { assert(nm0[e.prev.i()] is Free); assert(nm[e.prev.i()] is Free); }
        }
    }
    if !nf.none() { let h = nf.i(); if h != y { assert(nm0[h] is Free); assert(h != x); if !e.next.none() && e.next.i() == h { assert(nfree_at(nm0, nf0, h)); assert((nm0[h]->Free_0).prev == MaybeNodeIndex::some(NodeIndex::mk(x))); } } }
}
pub proof fn lemma_reowned2(g: PortGraph, ow: Seq<Owner>, pm1: Seq<PortEntry>, pm2: Seq<PortEntry>, a: int, b: int)
    requires
        g.wf_ow(ow), 0 <= a < g.node_meta@.len(), 0 <= b < g.node_meta@.len(),
        if g.has_node(b) { reowned(g.port_meta@, pm1, a, g.m(b)) } else { pm1 == g.port_meta@ },
        if g.has_node(a) { reowned(pm1, pm2, b, g.m(a)) } else { pm2 == pm1 },
    ensures reown(g.port_meta@, pm2, a, b),
{
    let pm0 = g.port_meta@;
    assert forall|i: int| #![trigger pm2[i]] 0 <= i < pm2.len() implies (pm2[i] is Port) == (pm0[i] is Port) && (pm2[i] is Port ==> pm2[i] == PortEntry::Port(PortMeta::mk(sw(a, b, pmeta(pm0, i).n()), pmeta(pm0, i).d()))) by {
        reveal(nodes_ok); reveal(ports_ok);
        if g.has_node(a) { lemma_node_cells(g, ow, a, i); assert(node_at(g.node_meta@, g.port_link@, pm0, ow, a)); }
        if g.has_node(b) { lemma_node_cells(g, ow, b, i); assert(node_at(g.node_meta@, g.port_link@, pm0, ow, b)); }
        lemma_mk(a, Direction::Incoming); lemma_mk(a, Direction::Outgoing); lemma_mk(b, Direction::Incoming); lemma_mk(b, Direction::Outgoing);
        assert(pm1[i] == pm1[i]);
        if isp(pm0, i) { assert(port_at(g.node_meta@, pm0, i)); lemma_mk_of(pmeta(pm0, i)); }
    }
}
=== fn portgraph PortGraph::swap_nodes closure=update_ports as=swap__update_ports
--- sig
fn swap__update_ports(&mut self, a0: NodeIndex, a1: NodeEntry)
--- spec
requires a0.wf(), a1 is Node ==> (a1->Node_0).wf() && (a1->Node_0).first() + (a1->Node_0).tot() <= old(self).port_meta.len(),
ensures
    a1 is Node ==> reowned(old(self).port_meta@, final(self).port_meta@, a0.i(), a1->Node_0),
    !(a1 is Node) ==> final(self).port_meta@ == old(self).port_meta@,
    final(self).node_meta == old(self).node_meta, final(self).port_link == old(self).port_link, final(self).port_free == old(self).port_free, final(self).node_free == old(self).node_free,
    final(self).node_count == old(self).node_count, final(self).port_count == old(self).port_count, final(self).link_count == old(self).link_count,
--- loop 0
invariant
    $all.len() == 2, $all[0] == Direction::Incoming, $all[1] == Direction::Outgoing,
    $it.rest().len() <= 2, $it.rest() == $all.skip(2 - $it.rest().len()),
    self.port_meta.len() == old(self).port_meta.len(),
    forall|i: int| #![trigger self.port_meta@[i]] 0 <= i < self.port_meta.len() ==> self.port_meta@[i] == (
        if node_meta.first() <= i < node_meta.first() + node_meta.inc() && $it.rest().len() < 2 { PortEntry::Port(PortMeta::mk(new_node.i(), Direction::Incoming)) }
        else if node_meta.first() + node_meta.inc() <= i < node_meta.first() + node_meta.tot() && $it.rest().len() < 1 { PortEntry::Port(PortMeta::mk(new_node.i(), Direction::Outgoing)) }
        else { old(self).port_meta@[i] }),
    self.node_meta == old(self).node_meta, self.port_link == old(self).port_link, self.port_free == old(self).port_free, self.node_free == old(self).node_free,
    self.node_count == old(self).node_count, self.port_count == old(self).port_count, self.link_count == old(self).link_count,
--- loop 1
invariant
    $it.end == node_meta.at(dir) + node_meta.num(dir), node_meta.at(dir) <= $it.start <= $it.end,
    self.port_meta.len() == old(self).port_meta.len(),
    forall|i: int| #![trigger self.port_meta@[i]] 0 <= i < self.port_meta.len() ==> self.port_meta@[i] == (
        if node_meta.at(dir) <= i < $it.start { PortEntry::Port(PortMeta::mk(new_node.i(), dir)) }
        else if node_meta.first() <= i < node_meta.first() + node_meta.inc() && dir == Direction::Outgoing { PortEntry::Port(PortMeta::mk(new_node.i(), Direction::Incoming)) }
        else { old(self).port_meta@[i] }),
    self.node_meta == old(self).node_meta, self.port_link == old(self).port_link, self.port_free == old(self).port_free, self.node_free == old(self).node_free,
    self.node_count == old(self).node_count, self.port_count == old(self).port_count, self.link_count == old(self).link_count,
=== fn portgraph PortGraph::swap_nodes closure=update_free_list as=swap__update_free_list
--- sig
fn swap__update_free_list(&mut self, a0: NodeIndex, a1: FreeNodeEntry)
--- spec
requires
    a1.prev.wf(), a1.next.wf(),
    !a1.prev.none() ==> a1.prev.i() < old(self).node_meta.len() && old(self).node_meta@[a1.prev.i()] is Free,
    !a1.next.none() ==> a1.next.i() < old(self).node_meta.len() && old(self).node_meta@[a1.next.i()] is Free,
ensures
    final(self).node_meta.len() == old(self).node_meta.len(),
    relisted(old(self).node_meta@, final(self).node_meta@, a0, a1),
    final(self).node_free == (if a1.prev.none() { MaybeNodeIndex::some(a0) } else { old(self).node_free }),
    final(self).port_meta == old(self).port_meta, final(self).port_link == old(self).port_link, final(self).port_free == old(self).port_free,
    final(self).node_count == old(self).node_count, final(self).port_count == old(self).port_count, final(self).link_count == old(self).link_count,
=== fn portgraph PortGraph::swap_nodes lift=update_ports:self.swap__update_ports: lift=update_free_list:self.swap__update_free_list:
--- spec
requires old(self).wf(), a.wf(), b.wf(), a.i() < old(self).node_meta.len(), b.i() < old(self).node_meta.len(),
ensures final(self).wf(), swapped(*old(self), *final(self), a.i(), b.i()),
    final(self).node_meta.len() == old(self).node_meta.len(), final(self).port_link@ == old(self).port_link@,
--- hint start
let ghost ow = choose|ow: Seq<Owner>| old(self).wf_ow(ow);
let ghost g0 = *self;
--- hint before return#0
proof { lemma_reowned2(g0, ow, g0.port_meta@, g0.port_meta@, a.i(), b.i()); assert(nm_swapped(g0.node_meta@, g0.node_meta@, a.i(), b.i())); lemma_swap_nodes(g0, *self, ow, a.i(), b.i()); }
--- hint after swap#0
proof { reveal(nodes_ok); assert(g0.node_meta@[a.i()] == meta_a); assert(g0.node_meta@[b.i()] == meta_b);
    if meta_a is Node { assert(live(g0.node_meta@, a.i())); assert(node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, a.i())); }
    if meta_b is Node { assert(live(g0.node_meta@, b.i())); assert(node_at(g0.node_meta@, g0.port_link@, g0.port_meta@, ow, b.i())); }
    assert(nfree_ok(g0.node_meta@, g0.node_free));
    if meta_a is Free { assert(nfree_at(g0.node_meta@, g0.node_free, a.i())); }
    if meta_b is Free { assert(nfree_at(g0.node_meta@, g0.node_free, b.i())); }
}
let ghost nm1 = self.node_meta@;
--- hint after update_ports#0
let ghost pm1 = self.port_meta@;
--- hint after update_ports#1
proof { lemma_reowned2(g0, ow, pm1, self.port_meta@, a.i(), b.i()); }
let ghost g2 = *self;
--- hint end
proof {
    if meta_a is Node && meta_b is Node { lemma_nfree_swap(g0.node_meta@, self.node_meta@, g0.node_free, a.i(), b.i()); }
    else if meta_a is Free { lemma_nfree_move(g0.node_meta@, g0.node_free, nm1, self.node_meta@, self.node_free, a.i(), b.i()); }
    else { assert(nm1 =~= g0.node_meta@.update(b.i(), g0.node_meta@[a.i()]).update(a.i(), g0.node_meta@[b.i()])); lemma_nfree_move(g0.node_meta@, g0.node_free, nm1, self.node_meta@, self.node_free, b.i(), a.i()); }
    lemma_swap_nodes(g0, *self, ow, a.i(), b.i());
}
=== raw swap_live
pub proof fn lemma_nfree_swap(nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, nf: MaybeNodeIndex, a: int, b: int)
    requires nfree_ok(nm0, nf), 0 <= a < nm0.len(), 0 <= b < nm0.len(), nm0[a] is Node, nm0[b] is Node, nm == nm0.update(a, nm0[b]).update(b, nm0[a]),
    ensures nfree_ok(nm, nf), nm_swapped(nm0, nm, a, b),
{
    assert forall|i: int| #![trigger nfree_at(nm, nf, i)] 0 <= i < nm.len() && nm[i] is Free implies nfree_at(nm, nf, i) by {
        assert(nfree_at(nm0, nf, i));
    }
}
