=== default P=G01
=== type portgraph PortGraph derive=none
=== raw pgwf
pub ghost enum Owner { Nobody, Node(int), Slab(int, int) }
pub open spec fn max_ix() -> int { 0x7fff_fffe }

/// Number of indices in lo..hi satisfying f.
pub open spec fn cnt(f: spec_fn(int) -> bool, lo: int, hi: int) -> int
    decreases hi - lo,
{ if lo >= hi { 0 } else { cnt(f, lo, hi - 1) + (if f(hi - 1) { 1int } else { 0 }) } }

pub proof fn cnt_ext(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, lo: int, hi: int)
    requires forall|i: int| #![trigger f(i)] #![trigger g(i)] lo <= i < hi ==> f(i) == g(i),
    ensures cnt(f, lo, hi) == cnt(g, lo, hi),
    decreases hi - lo,
{ if lo < hi { cnt_ext(f, g, lo, hi - 1); assert(f(hi - 1) == g(hi - 1)); } }
pub proof fn cnt_split(f: spec_fn(int) -> bool, lo: int, mid: int, hi: int)
    requires lo <= mid <= hi,
    ensures cnt(f, lo, hi) == cnt(f, lo, mid) + cnt(f, mid, hi),
    decreases hi - mid,
{ if mid < hi { cnt_split(f, lo, mid, hi - 1); } }
pub proof fn cnt_const(f: spec_fn(int) -> bool, b: bool, lo: int, hi: int)
    requires forall|i: int| #![trigger f(i)] lo <= i < hi ==> f(i) == b,
    ensures cnt(f, lo, hi) == (if b && lo <= hi { hi - lo } else { 0 }),
    decreases hi - lo,
{ if lo < hi { cnt_const(f, b, lo, hi - 1); assert(f(hi - 1) == b); } }
pub proof fn cnt_bounds(f: spec_fn(int) -> bool, lo: int, hi: int)
    ensures 0 <= cnt(f, lo, hi), lo <= hi ==> cnt(f, lo, hi) <= hi - lo,
    decreases hi - lo,
{ if lo < hi { cnt_bounds(f, lo, hi - 1); } }
/// The predicates differ at most at k.
pub proof fn cnt_upd(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, lo: int, hi: int, k: int)
    requires lo <= k < hi, forall|i: int| #![trigger f(i)] #![trigger g(i)] lo <= i < hi && i != k ==> f(i) == g(i),
    ensures cnt(g, lo, hi) == cnt(f, lo, hi) - (if f(k) { 1int } else { 0 }) + (if g(k) { 1int } else { 0 }),
{
    cnt_split(f, lo, k, hi); cnt_split(g, lo, k, hi);
    cnt_split(f, k, k + 1, hi); cnt_split(g, k, k + 1, hi);
    cnt_ext(f, g, lo, k); cnt_ext(f, g, k + 1, hi);
    assert(cnt(f, k, k + 1) == (if f(k) { 1int } else { 0 })) by { reveal_with_fuel(cnt, 2); }
    assert(cnt(g, k, k + 1) == (if g(k) { 1int } else { 0 })) by { reveal_with_fuel(cnt, 2); }
}
pub proof fn cnt_pos(f: spec_fn(int) -> bool, lo: int, hi: int, k: int)
    requires lo <= k < hi, f(k),
    ensures cnt(f, lo, hi) > 0,
{
    cnt_split(f, lo, k, hi); cnt_split(f, k, k + 1, hi);
    assert(cnt(f, k, k + 1) == 1) by { reveal_with_fuel(cnt, 2); }
    cnt_bounds(f, lo, k); cnt_bounds(f, k + 1, hi);
}
pub proof fn cnt_range(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, lo: int, a: int, b: int, hi: int)
    requires lo <= a <= b <= hi, forall|i: int| #![trigger f(i)] #![trigger g(i)] lo <= i < hi && !(a <= i < b) ==> f(i) == g(i),
    ensures cnt(g, lo, hi) == cnt(f, lo, hi) - cnt(f, a, b) + cnt(g, a, b),
{
    cnt_split(f, lo, a, hi); cnt_split(g, lo, a, hi);
    cnt_split(f, a, b, hi); cnt_split(g, a, b, hi);
    cnt_ext(f, g, lo, a); cnt_ext(f, g, b, hi);
}

pub open spec fn live(nm: Seq<NodeEntry>, n: int) -> bool { 0 <= n < nm.len() && nm[n] is Node }
pub open spec fn meta(nm: Seq<NodeEntry>, n: int) -> NodeMeta { nm[n]->Node_0 }
pub open spec fn isp(pm: Seq<PortEntry>, p: int) -> bool { 0 <= p < pm.len() && pm[p] is Port }
pub open spec fn pmeta(pm: Seq<PortEntry>, p: int) -> PortMeta { pm[p]->Port_0 }
pub open spec fn linked(pl: Seq<MaybePortIndex>, p: int) -> bool { !pl[p].none() }

pub open spec fn nfree_ok(nm: Seq<NodeEntry>, nf: MaybeNodeIndex) -> bool {
    &&& nf.wf()
    &&& !nf.none() ==> 0 <= nf.i() < nm.len() && nm[nf.i()] is Free && (nm[nf.i()]->Free_0).prev.none()
    &&& forall|i: int| #![trigger nfree_at(nm, nf, i)] 0 <= i < nm.len() && nm[i] is Free ==> nfree_at(nm, nf, i)
}
pub open spec fn nfree_at(nm: Seq<NodeEntry>, nf: MaybeNodeIndex, i: int) -> bool {
    let e = nm[i]->Free_0;
    &&& e.prev.wf() && e.next.wf()
    &&& !e.next.none() ==> e.next.i() != i && 0 <= e.next.i() < nm.len() && nm[e.next.i()] is Free && (nm[e.next.i()]->Free_0).prev == MaybeNodeIndex::some(NodeIndex::mk(i))
    &&& !e.prev.none() ==> 0 <= e.prev.i() < nm.len() && nm[e.prev.i()] is Free && (nm[e.prev.i()]->Free_0).next == MaybeNodeIndex::some(NodeIndex::mk(i))
    &&& e.prev.none() ==> nf == MaybeNodeIndex::some(NodeIndex::mk(i))
}

/// The lists of free slabs: `ow` says which free slab a cell belongs to.
#[verifier::opaque]
pub open spec fn pfree_ok(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pf: Seq<MaybePortIndex>, ow: Seq<Owner>) -> bool {
    &&& pl.len() == pm.len() && ow.len() == pm.len()
    &&& forall|p: int| #![trigger ow[p]] 0 <= p < ow.len() ==> (ow[p] matches Owner::Slab(s, k) ==> slab_at(pm, pf, ow, p, s, k))
    &&& forall|k: int| #![trigger pf[k]] 0 <= k < pf.len() && !pf[k].none() ==> pf[k].wf() && pf[k].i() < ow.len() && ow[pf[k].i()] == Owner::Slab(pf[k].i(), k + 1)
    &&& forall|p: int| #![trigger is_head(ow, p)] is_head(ow, p) && linked(pl, p) ==> next_ok(pl, pf, ow, p)
    &&& forall|p: int, q: int| #![trigger is_head(ow, p), is_head(ow, q)] is_head(ow, p) && is_head(ow, q) && p != q && linked(pl, p) && linked(pl, q) ==> pl[p].i() != pl[q].i()
}
pub open spec fn slab_at(pm: Seq<PortEntry>, pf: Seq<MaybePortIndex>, ow: Seq<Owner>, p: int, s: int, k: int) -> bool {
    &&& 0 <= s <= p < s + k <= ow.len()
    &&& 1 <= k <= pf.len()
    &&& pm[p] is Free
    &&& forall|j: int| #![trigger ow[j]] s <= j < s + k ==> ow[j] == Owner::Slab(s, k)
}
pub open spec fn is_head(ow: Seq<Owner>, p: int) -> bool { 0 <= p < ow.len() && (ow[p] matches Owner::Slab(s, _) && s == p) }
pub open spec fn next_ok(pl: Seq<MaybePortIndex>, pf: Seq<MaybePortIndex>, ow: Seq<Owner>, p: int) -> bool {
    let q = pl[p].i();
    let k = ow[p]->Slab_1;
    &&& pl[p].wf() && 0 <= q < ow.len() && ow[q] == Owner::Slab(q, k)
    &&& !(pf[k - 1].i() == q && !pf[k - 1].none())
}

pub open spec fn links_ok(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>) -> bool {
    &&& pl.len() == pm.len()
    &&& forall|p: int| #![trigger pl[p]] isp(pm, p) && linked(pl, p) ==> link_at(pl, pm, p)
}
pub open spec fn link_at(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, p: int) -> bool {
    let q = pl[p].i();
    &&& pl[p].wf() && isp(pm, q) && pl[q] == MaybePortIndex::some(PortIndex::mk(p))
    &&& pmeta(pm, p).d() != pmeta(pm, q).d()
}
pub open spec fn lf(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>) -> spec_fn(int) -> bool {
    |p: int| isp(pm, p) && pmeta(pm, p).d() == Direction::Outgoing && linked(pl, p)
}
pub open spec fn pf_(pm: Seq<PortEntry>) -> spec_fn(int) -> bool { |p: int| isp(pm, p) }
pub open spec fn nf_(nm: Seq<NodeEntry>) -> spec_fn(int) -> bool { |n: int| live(nm, n) }
pub open spec fn n_links(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>) -> int { cnt(lf(pl, pm), 0, pm.len() as int) }
pub open spec fn n_ports(pm: Seq<PortEntry>) -> int { cnt(pf_(pm), 0, pm.len() as int) }
pub open spec fn n_nodes(nm: Seq<NodeEntry>) -> int { cnt(nf_(nm), 0, nm.len() as int) }

/// The slab of node n is in place.
pub open spec fn node_at(nm: Seq<NodeEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, ow: Seq<Owner>, n: int) -> bool {
    let m = meta(nm, n);
    &&& m.wf() && m.first() + m.cap() <= pm.len()
    &&& m.tot() == 0 ==> m.cap() == 0
    &&& m.inc() <= PortOffset::max_o() && m.out() <= PortOffset::max_o()
    &&& forall|i: int| #![trigger ow[i]] m.first() <= i < m.first() + m.cap() ==> ow[i] == Owner::Node(n)
    &&& forall|i: int| #![trigger pm[i]] m.first() <= i < m.first() + m.inc() ==> pm[i] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming))
    &&& forall|i: int| #![trigger pm[i]] m.first() + m.inc() <= i < m.first() + m.tot() ==> pm[i] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing))
    &&& forall|i: int| #![trigger pm[i]] #![trigger pl[i]] m.first() + m.tot() <= i < m.first() + m.cap() ==> pm[i] is Free && pl[i].none()
}
#[verifier::opaque]
pub open spec fn nodes_ok(nm: Seq<NodeEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, ow: Seq<Owner>) -> bool {
    forall|n: int| #![trigger nm[n]] live(nm, n) ==> node_at(nm, pl, pm, ow, n)
}
/// Every port belongs to a node.
#[verifier::opaque]
pub open spec fn ports_ok(nm: Seq<NodeEntry>, pm: Seq<PortEntry>) -> bool {
    forall|p: int| #![trigger pm[p]] isp(pm, p) ==> port_at(nm, pm, p)
}
pub open spec fn port_at(nm: Seq<NodeEntry>, pm: Seq<PortEntry>, p: int) -> bool {
    let n = pmeta(pm, p).n();
    &&& pmeta(pm, p).wf() && live(nm, n)
    &&& meta(nm, n).first() <= p < meta(nm, n).first() + meta(nm, n).tot()
}

impl PortGraph {
    pub open spec fn wf_ow(self, ow: Seq<Owner>) -> bool {
        &&& pfree_ok(self.port_link@, self.port_meta@, self.port_free@, ow)
        &&& links_ok(self.port_link@, self.port_meta@)
        &&& nodes_ok(self.node_meta@, self.port_link@, self.port_meta@, ow)
        &&& ports_ok(self.node_meta@, self.port_meta@)
        &&& nfree_ok(self.node_meta@, self.node_free)
        &&& self.port_meta.len() <= max_ix() + 1
        &&& self.node_meta.len() <= max_ix() + 1
        &&& self.node_count == n_nodes(self.node_meta@)
        &&& self.port_count == n_ports(self.port_meta@)
        &&& self.link_count == n_links(self.port_link@, self.port_meta@)
    }
    /// The representation invariant.
    pub open spec fn wf(self) -> bool { exists|ow: Seq<Owner>| self.wf_ow(ow) }

    // ---- the abstract view ----
    pub open spec fn has_node(self, n: int) -> bool { live(self.node_meta@, n) }
    pub open spec fn m(self, n: int) -> NodeMeta { meta(self.node_meta@, n) }
    pub open spec fn has_port(self, p: int) -> bool { isp(self.port_meta@, p) }
    pub open spec fn pnode(self, p: int) -> int { pmeta(self.port_meta@, p).n() }
    pub open spec fn pdir(self, p: int) -> Direction { pmeta(self.port_meta@, p).d() }
    /// The port linked to p, or -1.
    pub open spec fn link(self, p: int) -> int { if self.has_port(p) && linked(self.port_link@, p) { self.port_link@[p].i() } else { -1 } }
    /// Node n has the same ports in the same order in both graphs, or is absent from both.
    pub open spec fn same_node(self, o: PortGraph, n: int) -> bool {
        &&& self.has_node(n) == o.has_node(n)
        &&& self.has_node(n) ==> self.m(n).inc() == o.m(n).inc() && self.m(n).out() == o.m(n).out() && (self.m(n).tot() > 0 ==> self.m(n).first() == o.m(n).first())
    }
    pub open spec fn same_port(self, o: PortGraph, p: int) -> bool {
        &&& self.has_port(p) == o.has_port(p)
        &&& self.has_port(p) ==> self.pnode(p) == o.pnode(p) && self.pdir(p) == o.pdir(p) && self.link(p) == o.link(p)
    }
    /// Ports of node n.
    pub open spec fn owns(self, n: int, p: int) -> bool { self.has_port(p) && self.pnode(p) == n }
}
/// A node whose cells did not change is still in place.
pub proof fn lemma_node_kept(nm0: Seq<NodeEntry>, pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, ow: Seq<Owner>, nm: Seq<NodeEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, w: Seq<Owner>, k: int)
    requires
        live(nm0, k), live(nm, k), nm[k] == nm0[k], node_at(nm0, pl0, pm0, ow, k), pm0.len() <= pm.len(),
        forall|i: int| #![trigger ow[i]] 0 <= i < pm0.len() && ow[i] == Owner::Node(k) ==> w[i] == Owner::Node(k) && pm[i] == pm0[i] && (pl0[i].none() ==> pl[i].none()),
    ensures node_at(nm, pl, pm, w, k),
{
    let m = meta(nm, k);
    assert forall|i: int| #![trigger w[i]] m.first() <= i < m.first() + m.cap() implies w[i] == Owner::Node(k) by { assert(ow[i] == Owner::Node(k)); }
    assert forall|i: int| #![trigger pm[i]] m.first() <= i < m.first() + m.inc() implies pm[i] == PortEntry::Port(PortMeta::mk(k, Direction::Incoming)) by {
        assert(ow[i] == Owner::Node(k)); assert(pm0[i] == PortEntry::Port(PortMeta::mk(k, Direction::Incoming)));
    }
    assert forall|i: int| #![trigger pm[i]] m.first() + m.inc() <= i < m.first() + m.tot() implies pm[i] == PortEntry::Port(PortMeta::mk(k, Direction::Outgoing)) by {
        assert(ow[i] == Owner::Node(k)); assert(pm0[i] == PortEntry::Port(PortMeta::mk(k, Direction::Outgoing)));
    }
    assert forall|i: int| #![trigger pm[i]] #![trigger pl[i]] m.first() + m.tot() <= i < m.first() + m.cap() implies pm[i] is Free && pl[i].none() by {
        assert(ow[i] == Owner::Node(k)); assert(pm0[i] is Free);
    }
}
pub open spec fn limits(i: int, o: int) -> bool {
    &&& i <= PortOffset::max_o() && i <= 65534
    &&& o <= PortOffset::max_o() && o <= 65535
    &&& i + o <= 65535
}
=== raw owners
pub proof fn lemma_empty(g: PortGraph)
    requires g.node_meta@.len() == 0, g.port_meta@.len() == 0, g.port_link@.len() == 0, g.port_free@.len() == 0, g.node_free.none(),
        g.node_count == 0, g.port_count == 0, g.link_count == 0,
    ensures g.wf(),
{ reveal(pfree_ok); reveal(nodes_ok); reveal(ports_ok); assert(g.wf_ow(Seq::empty())); }
pub proof fn lemma_give_nothing(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pf: Seq<MaybePortIndex>, ow: Seq<Owner>, a: int, o: Owner)
    requires pfree_ok(pl, pm, pf, ow),
    ensures give(ow, a, 0, o, pm.len() as int) == ow,
{ reveal(pfree_ok); assert(give(ow, a, 0, o, pm.len() as int) =~= ow); }
/// The owners after the cells lo..lo+len are given to o, with `total` cells in all.
pub open spec fn give(ow: Seq<Owner>, lo: int, len: int, o: Owner, total: int) -> Seq<Owner> {
    Seq::new(total as nat, |i: int| if lo <= i < lo + len { o } else { ow[i] })
}
/// What the allocation of a slab does to the cells.
pub open spec fn slab_new(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, n: int, m: NodeMeta) -> bool {
    let a = m.first();
    let len = if a + m.cap() > pm0.len() { a + m.cap() } else { pm0.len() as int };
    &&& pl.len() == len && pm.len() == len
    &&& a <= pm0.len()
    &&& forall|i: int| #![trigger pm[i]] #![trigger pl[i]] 0 <= i < pm0.len() && !(a <= i < a + m.cap()) ==> pm[i] == pm0[i] && pl[i] == pl0[i]
    &&& forall|i: int| #![trigger pm0[i]] a <= i < a + m.cap() && i < pm0.len() ==> pm0[i] is Free
    &&& forall|i: int| #![trigger pl[i]] a <= i < a + m.cap() ==> pl[i].none()
    &&& forall|i: int| #![trigger pm[i]] a <= i < a + m.inc() ==> pm[i] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming))
    &&& forall|i: int| #![trigger pm[i]] a + m.inc() <= i < a + m.tot() ==> pm[i] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing))
    &&& forall|i: int| #![trigger pm[i]] a + m.tot() <= i < a + m.cap() ==> pm[i] is Free
}
/// The free lists after a slab was taken for node n.
pub open spec fn taken(o: PortGraph, f: PortGraph, n: int, m: NodeMeta) -> bool {
    forall|ow: Seq<Owner>| #![trigger pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow)]
        pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow) ==> {
            &&& pfree_ok(f.port_link@, f.port_meta@, f.port_free@, give(ow, m.first(), m.cap(), Owner::Node(n), f.port_meta@.len() as int))
            &&& forall|i: int| #![trigger ow[i]] m.first() <= i < m.first() + m.cap() && i < ow.len() ==> ow[i] is Slab
        }
}
=== raw slab_lemmas
/// The first free slab of size k.
pub proof fn lemma_head(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pf: Seq<MaybePortIndex>, ow: Seq<Owner>, k: int)
    requires pfree_ok(pl, pm, pf, ow), 1 <= k <= pf.len(), !pf[k - 1].none(),
    ensures ({ let a = pf[k - 1].i();
        &&& pf[k - 1].wf() && 0 <= a && a + k <= pm.len()
        &&& forall|i: int| #![trigger ow[i]] #![trigger pm[i]] a <= i < a + k ==> ow[i] == Owner::Slab(a, k) && pm[i] is Free
    }),
{
    reveal(pfree_ok);
    let a = pf[k - 1].i();
    assert(slab_at(pm, pf, ow, a, a, k));
    assert forall|i: int| #![trigger ow[i]] #![trigger pm[i]] a <= i < a + k implies ow[i] == Owner::Slab(a, k) && pm[i] is Free by {
        assert(ow[i] == Owner::Slab(a, k));
        assert(slab_at(pm, pf, ow, i, a, k));
    }
}
pub proof fn lemma_take(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pf0: Seq<MaybePortIndex>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pf: Seq<MaybePortIndex>, ow: Seq<Owner>, k: int, n: int)
    requires
        pfree_ok(pl0, pm0, pf0, ow), 1 <= k <= pf0.len(), !pf0[k - 1].none(),
        pl.len() == pl0.len(), pm.len() == pm0.len(), pf == pf0.update(k - 1, pl0[pf0[k - 1].i()]),
        forall|i: int| #![trigger pm[i]] #![trigger pl[i]] 0 <= i < pm0.len() && !(pf0[k - 1].i() <= i < pf0[k - 1].i() + k) ==> pm[i] == pm0[i] && pl[i] == pl0[i],
    ensures pfree_ok(pl, pm, pf, give(ow, pf0[k - 1].i(), k, Owner::Node(n), pm.len() as int)),
{
    reveal(pfree_ok);
    let a = pf0[k - 1].i();
    lemma_head(pl0, pm0, pf0, ow, k);
    let w = give(ow, a, k, Owner::Node(n), pm.len() as int);
    assert(is_head(ow, a));
    assert forall|p: int| #![trigger w[p]] 0 <= p < w.len() implies (w[p] matches Owner::Slab(s, kk) ==> slab_at(pm, pf, w, p, s, kk)) by {
        if let Owner::Slab(s, kk) = w[p] {
            assert(ow[p] == w[p]);
            assert(slab_at(pm0, pf0, ow, p, s, kk));
            assert forall|j: int| #![trigger w[j]] s <= j < s + kk implies w[j] == Owner::Slab(s, kk) by { assert(ow[j] == Owner::Slab(s, kk)); }
        }
    }
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) implies is_head(ow, p) && p != a && w[p] == ow[p] && pl[p] == pl0[p] by {}
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) && linked(pl, p) implies next_ok(pl, pf, w, p) by {
        assert(is_head(ow, p));
        assert(next_ok(pl0, pf0, ow, p));
        assert(ow[p] == w[p]);
        let kk = w[p]->Slab_1;
        assert(slab_at(pm0, pf0, ow, p, p, kk));
        let q = pl[p].i();
        assert(is_head(ow, q));
        assert(q != a);
        assert(w[q] == ow[q]);
    }
    assert forall|p: int, q: int| #![trigger is_head(w, p), is_head(w, q)] is_head(w, p) && is_head(w, q) && p != q && linked(pl, p) && linked(pl, q) implies pl[p].i() != pl[q].i() by {
        assert(is_head(ow, p) && is_head(ow, q));
    }
    assert forall|j: int| #![trigger pf[j]] 0 <= j < pf.len() && !pf[j].none() implies pf[j].wf() && pf[j].i() < w.len() && w[pf[j].i()] == Owner::Slab(pf[j].i(), j + 1) by {
        if j == k - 1 {
            assert(next_ok(pl0, pf0, ow, a));
        } else {
            assert(ow[pf0[j].i()] == Owner::Slab(pf0[j].i(), j + 1));
        }
    }
}
/// Cells added at the end.
pub proof fn lemma_grow(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pf: Seq<MaybePortIndex>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, ow: Seq<Owner>, k: int, n: int)
    requires
        pfree_ok(pl0, pm0, pf, ow), k >= 0,
        pl.len() == pl0.len() + k, pm.len() == pm0.len() + k,
        forall|i: int| #![trigger pm[i]] #![trigger pl[i]] 0 <= i < pm0.len() ==> pm[i] == pm0[i] && pl[i] == pl0[i],
    ensures pfree_ok(pl, pm, pf, give(ow, pm0.len() as int, k, Owner::Node(n), pm.len() as int)), ow.len() == pm0.len(),
{
    reveal(pfree_ok);
    let w = give(ow, pm0.len() as int, k, Owner::Node(n), pm.len() as int);
    assert forall|p: int| #![trigger w[p]] 0 <= p < w.len() implies (w[p] matches Owner::Slab(s, kk) ==> slab_at(pm, pf, w, p, s, kk)) by {
        if let Owner::Slab(s, kk) = w[p] {
            assert(ow[p] == w[p]);
            assert(slab_at(pm0, pf, ow, p, s, kk));
            assert forall|j: int| #![trigger w[j]] s <= j < s + kk implies w[j] == Owner::Slab(s, kk) by { assert(ow[j] == Owner::Slab(s, kk)); }
        }
    }
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) implies is_head(ow, p) && w[p] == ow[p] && pl[p] == pl0[p] by {}
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) && linked(pl, p) implies next_ok(pl, pf, w, p) by {
        assert(is_head(ow, p));
        assert(next_ok(pl0, pf, ow, p));
    }
    assert forall|p: int, q: int| #![trigger is_head(w, p), is_head(w, q)] is_head(w, p) && is_head(w, q) && p != q && linked(pl, p) && linked(pl, q) implies pl[p].i() != pl[q].i() by {
        assert(is_head(ow, p) && is_head(ow, q));
    }
}
=== raw link_lemmas
pub open spec fn unlinked(pl0: Seq<MaybePortIndex>, pl: Seq<MaybePortIndex>, a: int) -> bool {
    let b = pl0[a].i();
    &&& pl.len() == pl0.len()
    &&& pl[a].none() && pl[b].none()
    &&& forall|i: int| #![trigger pl[i]] 0 <= i < pl.len() && i != a && i != b ==> pl[i] == pl0[i]
}
pub proof fn lemma_unlink(pl0: Seq<MaybePortIndex>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, a: int)
    requires links_ok(pl0, pm), isp(pm, a), linked(pl0, a), unlinked(pl0, pl, a), pm.len() <= max_ix() + 1,
    ensures links_ok(pl, pm), n_links(pl, pm) == n_links(pl0, pm) - 1, n_links(pl0, pm) > 0,
{
    let b = pl0[a].i();
    assert(link_at(pl0, pm, a));
    assert(link_at(pl0, pm, b));
    assert forall|p: int| #![trigger pl[p]] isp(pm, p) && linked(pl, p) implies link_at(pl, pm, p) by {
        assert(link_at(pl0, pm, p));
        assert(pl[p] == pl0[p]);
        let q = pl0[p].i();
        assert(pl0[q].i() == p);
    }
    let len = pm.len() as int;
    let mid = pl0.update(a, pl[a]);
    let f = lf(pl0, pm); let g = lf(mid, pm); let h = lf(pl, pm);
    cnt_upd(f, g, 0, len, a);
    cnt_upd(g, h, 0, len, b);
    if f(a) { cnt_pos(f, 0, len, a); } else { cnt_pos(f, 0, len, b); }
}
pub proof fn lemma_links_pos(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, a: int)
    requires links_ok(pl, pm), isp(pm, a), linked(pl, a), pm.len() <= max_ix() + 1,
    ensures n_links(pl, pm) > 0,
{
    let b = pl[a].i();
    assert(link_at(pl, pm, a));
    assert(link_at(pl, pm, b));
    let f = lf(pl, pm);
    if f(a) { cnt_pos(f, 0, pm.len() as int, a); } else { cnt_pos(f, 0, pm.len() as int, b); }
}
/// Unlinked ports do not count.
pub proof fn lemma_free_cell(pl: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pm: Seq<PortEntry>, a: int)
    requires links_ok(pl, pm0), 0 <= a < pm0.len(), pl[a].none(), pm == pm0.update(a, PortEntry::Free), pm.len() <= max_ix() + 1,
    ensures links_ok(pl, pm), n_links(pl, pm) == n_links(pl, pm0),
{
    assert forall|p: int| #![trigger pl[p]] isp(pm, p) && linked(pl, p) implies link_at(pl, pm, p) by {
        assert(link_at(pl, pm0, p));
        let q = pl[p].i();
        assert(q != a);
    }
    cnt_upd(lf(pl, pm0), lf(pl, pm), 0, pm.len() as int, a);
}
/// Ports a..b lose their links and become free.
pub open spec fn freed(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, a: int, b: int) -> bool {
    &&& pl.len() == pl0.len() && pm.len() == pm0.len() && pl.len() == pm.len()
    &&& forall|i: int| #![trigger pm[i]] 0 <= i < pm.len() ==> pm[i] == (if a <= i < b { PortEntry::Free } else { pm0[i] })
    &&& forall|i: int| #![trigger pl[i]] 0 <= i < pl.len() && !(a <= i < b) ==> if isp(pm0, i) && linked(pl0, i) && a <= pl0[i].i() < b { pl[i].none() } else { pl[i] == pl0[i] }
}
pub proof fn lemma_give_back(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pf0: Seq<MaybePortIndex>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pf: Seq<MaybePortIndex>, ow: Seq<Owner>, a: int, k: int)
    requires
        pfree_ok(pl0, pm0, pf0, ow), links_ok(pl0, pm0),
        freed(pl0, pm0, pl, pm, a, a + k), 0 <= a, 1 <= k, a + k <= pm.len(), pm.len() <= max_ix() + 1,
        k <= pf.len(), pf0.len() <= pf.len(),
        forall|i: int| #![trigger pl[i]] a < i < a + k ==> pl[i].none(),
        forall|i: int| #![trigger ow[i]] a <= i < a + k ==> !(ow[i] is Slab),
        forall|j: int| #![trigger pf[j]] 0 <= j < pf.len() && j != k - 1 ==> if j < pf0.len() { pf[j] == pf0[j] } else { pf[j].none() },
        pf[k - 1] == MaybePortIndex::some(PortIndex::mk(a)),
        if k - 1 < pf0.len() { pl[a] == pf0[k - 1] } else { pl[a].none() },
    ensures pfree_ok(pl, pm, pf, give(ow, a, k, Owner::Slab(a, k), pm.len() as int)),
{
    reveal(pfree_ok);
    let w = give(ow, a, k, Owner::Slab(a, k), pm.len() as int);
    assert forall|p: int| #![trigger w[p]] 0 <= p < w.len() implies (w[p] matches Owner::Slab(s, kk) ==> slab_at(pm, pf, w, p, s, kk)) by {
        if let Owner::Slab(s, kk) = w[p] {
            if !(a <= p < a + k) {
                assert(ow[p] == w[p]);
                assert(slab_at(pm0, pf0, ow, p, s, kk));
                assert forall|j: int| #![trigger w[j]] s <= j < s + kk implies w[j] == Owner::Slab(s, kk) by { assert(ow[j] == Owner::Slab(s, kk)); }
            }
        }
    }
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) && p != a implies is_head(ow, p) && w[p] == ow[p] && pl[p] == pl0[p] by {
        if a < p < a + k { assert(false); }
        assert(ow[p] == w[p]);
        assert(slab_at(pm0, pf0, ow, p, p, ow[p]->Slab_1));
        assert(pm0[p] is Free);
    }
    assert(k - 1 < pf0.len() && !pf0[k - 1].none() ==> ow[pf0[k - 1].i()] == Owner::Slab(pf0[k - 1].i(), k));
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) && linked(pl, p) implies next_ok(pl, pf, w, p) by {
        if p == a {
            let h = pl[a].i();
            assert(ow[h] == Owner::Slab(h, k));
            assert(w[h] == ow[h]);
        } else {
            assert(is_head(ow, p));
            assert(next_ok(pl0, pf0, ow, p));
            let kk = w[p]->Slab_1;
            let q = pl[p].i();
            assert(slab_at(pm0, pf0, ow, p, p, kk));
            assert(ow[q] == Owner::Slab(q, kk));
            assert(w[q] == ow[q]);
        }
    }
    assert forall|p: int, q: int| #![trigger is_head(w, p), is_head(w, q)] is_head(w, p) && is_head(w, q) && p != q && linked(pl, p) && linked(pl, q) implies pl[p].i() != pl[q].i() by {
        if p == a { assert(is_head(ow, q)); assert(next_ok(pl0, pf0, ow, q)); if pl[p].i() == pl[q].i() { assert(ow[pl[q].i()] == Owner::Slab(pl[q].i(), ow[q]->Slab_1)); assert(ow[q]->Slab_1 == k); } }
        else if q == a { assert(is_head(ow, p)); assert(next_ok(pl0, pf0, ow, p)); if pl[p].i() == pl[q].i() { assert(ow[pl[p].i()] == Owner::Slab(pl[p].i(), ow[p]->Slab_1)); assert(ow[p]->Slab_1 == k); } }
        else { assert(is_head(ow, p) && is_head(ow, q)); }
    }
    assert forall|j: int| #![trigger pf[j]] 0 <= j < pf.len() && !pf[j].none() implies pf[j].wf() && pf[j].i() < w.len() && w[pf[j].i()] == Owner::Slab(pf[j].i(), j + 1) by {
        if j != k - 1 { assert(ow[pf0[j].i()] == Owner::Slab(pf0[j].i(), j + 1)); }
    }
}
=== raw give_back
pub open spec fn given_back(o: PortGraph, f: PortGraph, a: int, k: int) -> bool {
    forall|ow: Seq<Owner>| #![trigger pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow)]
        pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow)
        && (forall|i: int| #![trigger ow[i]] a <= i < a + k ==> !(ow[i] is Slab))
        ==> pfree_ok(f.port_link@, f.port_meta@, f.port_free@, give(ow, a, k, Owner::Slab(a, k), f.port_meta@.len() as int))
}
=== fn portgraph PortGraph::assert_port_counts
--- spec
requires limits(incoming as int, outgoing as int),
=== fn portgraph PortGraph::assert_port_counts panics as=assert_port_counts__rejects
--- spec
requires incoming <= usize::MAX / 2, outgoing <= usize::MAX / 2,
ensures limits(incoming as int, outgoing as int),
=== fn portgraph PortGraph::new
--- spec
ensures r.wf(), r.node_meta@.len() == 0, r.port_meta@.len() == 0, r.node_count == 0, r.port_count == 0, r.link_count == 0,
--- hint end
proof { lemma_empty(__ret); }
=== fn portgraph PortGraph::alloc_node
--- spec
requires
    nfree_ok(old(self).node_meta@, old(self).node_free),
    old(self).node_meta.len() <= max_ix(),
ensures
    r.wf(),
    !live(old(self).node_meta@, r.i()),
    final(self).node_meta.len() == (if r.i() < old(self).node_meta.len() { old(self).node_meta.len() as int } else { r.i() + 1 }),
    r.i() <= old(self).node_meta.len(),
    !live(final(self).node_meta@, r.i()),
    forall|n: int| #![trigger live(final(self).node_meta@, n)] n != r.i() ==> live(final(self).node_meta@, n) == live(old(self).node_meta@, n)
        && (live(old(self).node_meta@, n) ==> final(self).node_meta@[n] == old(self).node_meta@[n]),
    forall|m: NodeMeta| nfree_ok(#[trigger] final(self).node_meta@.update(r.i(), NodeEntry::Node(m)), final(self).node_free),
    final(self).port_meta == old(self).port_meta,
    final(self).port_link == old(self).port_link,
    final(self).port_free == old(self).port_free,
    final(self).node_count == old(self).node_count,
    final(self).port_count == old(self).port_count,
    final(self).link_count == old(self).link_count,
--- hint start
let ghost a0 = self.node_meta@;
let ghost h0 = self.node_free;
proof { if !h0.none() { assert(nfree_at(a0, h0, h0.i())); } }
--- hint end
proof {
    let b = self.node_meta@; let h = self.node_free; let k = __ret.i();
    assert forall|m: NodeMeta| nfree_ok(#[trigger] b.update(k, NodeEntry::Node(m)), h) by {
        let c = b.update(k, NodeEntry::Node(m));
        lemma_nfree_alloc(a0, h0, c, h, k);
    }
}
=== raw nfree_alloc
pub proof fn lemma_nfree_alloc(a: Seq<NodeEntry>, h0: MaybeNodeIndex, c: Seq<NodeEntry>, h: MaybeNodeIndex, k: int)
    requires
        nfree_ok(a, h0), 0 <= k < c.len(), c.len() <= max_ix() + 1, c[k] is Node, a.len() <= max_ix() + 1,
        h0.none() ==> k == a.len() && c.len() == a.len() + 1 && h == h0 && (forall|i: int| #![trigger c[i]] 0 <= i < a.len() ==> c[i] == a[i]),
        !h0.none() ==> k == h0.i() && c.len() == a.len() && h == (a[k]->Free_0).next
            && (forall|i: int| #![trigger c[i]] 0 <= i < a.len() && i != k ==> c[i] == (
                if !h.none() && i == h.i() { NodeEntry::Free(FreeNodeEntry { prev: MaybeNodeIndex::spec_none(), next: (a[i]->Free_0).next }) } else { a[i] })),
    ensures nfree_ok(c, h),
{
    if !h0.none() { assert(nfree_at(a, h0, k)); if !h.none() { assert(nfree_at(a, h0, h.i())); } }
    assert forall|i: int| #![trigger nfree_at(c, h, i)] 0 <= i < c.len() && c[i] is Free implies nfree_at(c, h, i) by {
        assert(a[i] is Free);
        assert(nfree_at(a, h0, i));
        let e = a[i]->Free_0;
        if !e.next.none() { assert(nfree_at(a, h0, e.next.i())); assert(c[e.next.i()] == c[e.next.i()]); }
        if !e.prev.none() { assert(nfree_at(a, h0, e.prev.i())); assert(c[e.prev.i()] == c[e.prev.i()]); }
    }
}
=== fn portgraph PortGraph::free_node
--- spec
requires
    nfree_ok(old(self).node_meta@, old(self).node_free),
    node.wf(),
    old(self).node_meta.len() <= max_ix() + 1,
    live(old(self).node_meta@, node.i()),
ensures
    nfree_ok(final(self).node_meta@, final(self).node_free),
    final(self).node_meta.len() == old(self).node_meta.len(),
    forall|n: int| #![trigger live(final(self).node_meta@, n)] live(final(self).node_meta@, n) == (n != node.i() && live(old(self).node_meta@, n))
        && (live(final(self).node_meta@, n) ==> final(self).node_meta@[n] == old(self).node_meta@[n]),
    final(self).port_meta == old(self).port_meta,
    final(self).port_link == old(self).port_link,
    final(self).port_free == old(self).port_free,
    final(self).node_count == old(self).node_count,
    final(self).port_count == old(self).port_count,
    final(self).link_count == old(self).link_count,
--- hint end
proof {
    let a = old(self).node_meta@; let b = self.node_meta@; let h = old(self).node_free;
    assert(self.node_free == MaybeNodeIndex::some(NodeIndex::mk(node.i())));
    assert forall|i: int| #![trigger nfree_at(b, self.node_free, i)] 0 <= i < b.len() && b[i] is Free implies nfree_at(b, self.node_free, i) by {
        assert(a[node.i()] is Node);
        assert(!h.none() ==> h.i() < a.len() && a[h.i()] is Free);
        assert(forall|k: int| 0 <= k < a.len() && k != node.i() && (h.none() || k != h.i()) ==> b[k] == a[k]);
        assert(!h.none() ==> b[h.i()] is Free && (b[h.i()]->Free_0).next == (a[h.i()]->Free_0).next && (b[h.i()]->Free_0).prev == MaybeNodeIndex::some(node));
        assert(b[node.i()] == NodeEntry::Free(FreeNodeEntry { prev: (b[node.i()]->Free_0).prev, next: h }));
        assert((b[node.i()]->Free_0).prev.none());
        assert(node == NodeIndex::mk(node.i()));
        if i != node.i() { assert(nfree_at(a, h, i)); let e = a[i]->Free_0; if !h.none() { assert(nfree_at(a, h, h.i())); }
          if !e.next.none() { assert(a[e.next.i()] is Free); }
          if !e.prev.none() { assert(a[e.prev.i()] is Free); }
        }
    }
}
=== fn portgraph PortGraph::node_meta_valid
--- spec
ensures r == (if live(self.node_meta@, node.i()) { Some(meta(self.node_meta@, node.i())) } else { None::<NodeMeta> })
=== fn portgraph PortGraph::port_meta_valid
--- spec
ensures r == (if isp(self.port_meta@, port.i()) { Some(pmeta(self.port_meta@, port.i())) } else { None::<PortMeta> })
=== fn portgraph PortGraph::alloc_ports
--- spec
requires
    node.wf(),
    limits(incoming as int, outgoing as int),
    incoming + outgoing + extra_capacity <= 65535,
    old(self).port_meta.len() == old(self).port_link.len(),
    exists|ow: Seq<Owner>| #[trigger] pfree_ok(old(self).port_link@, old(self).port_meta@, old(self).port_free@, ow),
    old(self).port_meta.len() + incoming + outgoing + extra_capacity <= max_ix() + 1,
ensures
    r.wf(), r.inc() == incoming, r.out() == outgoing, r.cap() == incoming + outgoing + extra_capacity,
    slab_new(old(self).port_link@, old(self).port_meta@, final(self).port_link@, final(self).port_meta@, node.i(), r),
    taken(*old(self), *final(self), node.i(), r),
    final(self).node_meta == old(self).node_meta,
    final(self).node_free == old(self).node_free,
    final(self).node_count == old(self).node_count,
    final(self).port_count == old(self).port_count,
    final(self).link_count == old(self).link_count,
    final(self).port_free.len() == old(self).port_free.len(),
--- hint before default#0
proof {
    assert forall|ow: Seq<Owner>| #![trigger pfree_ok(self.port_link@, self.port_meta@, self.port_free@, ow)]
        pfree_ok(self.port_link@, self.port_meta@, self.port_free@, ow) implies
        pfree_ok(self.port_link@, self.port_meta@, self.port_free@, give(ow, 0, 0, Owner::Node(node.i()), self.port_meta@.len() as int)) by {
        lemma_give_nothing(self.port_link@, self.port_meta@, self.port_free@, ow, 0, Owner::Node(node.i()));
    }
}
--- hint before take#0
proof {
    let ow = choose|ow: Seq<Owner>| #[trigger] pfree_ok(self.port_link@, self.port_meta@, self.port_free@, ow);
    lemma_head(self.port_link@, self.port_meta@, self.port_free@, ow, requested as int);
}
--- hint after fill#3
proof {
    let o = old(self);
    assert forall|ow: Seq<Owner>| #![trigger pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow)]
        pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow) implies
        pfree_ok(self.port_link@, self.port_meta@, self.port_free@, give(ow, node_meta.first(), node_meta.cap(), Owner::Node(node.i()), self.port_meta@.len() as int))
        && (forall|i: int| #![trigger ow[i]] node_meta.first() <= i < node_meta.first() + node_meta.cap() && i < ow.len() ==> ow[i] is Slab) by {
        lemma_head(o.port_link@, o.port_meta@, o.port_free@, ow, requested as int);
        lemma_take(o.port_link@, o.port_meta@, o.port_free@, self.port_link@, self.port_meta@, self.port_free@, ow, requested as int, node.i());
    }
}
--- hint after resize#3
proof {
    let o = old(self);
    let pm0 = o.port_meta@; let pm = self.port_meta@;
    assert forall|i: int| #![trigger pm[i]] 0 <= i < old_len + requested implies pm[i] == (if i < old_len { pm0[i] } else if i < old_len + incoming { meta_incoming } else if i < old_len + incoming + outgoing { meta_outgoing } else { meta_empty }) by {
        if i < old_len { assert(pm0[i] == g1[i]); }
        if i < old_len + incoming { assert(g1[i] == g2[i]); }
        if i < old_len + incoming + outgoing { assert(g2[i] == pm[i]); }
    }
    assert forall|i: int| 0 <= i < old_len implies o.port_link@[i] == #[trigger] self.port_link@[i] by {
        assert(self.port_link@.subrange(0, old_len as int)[i] == self.port_link@[i]);
    }
    assert forall|ow: Seq<Owner>| #![trigger pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow)]
        pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow) implies
        pfree_ok(self.port_link@, self.port_meta@, self.port_free@, give(ow, old_len as int, requested as int, Owner::Node(node.i()), self.port_meta@.len() as int)) && ow.len() == old_len by {
        lemma_grow(o.port_link@, o.port_meta@, o.port_free@, self.port_link@, self.port_meta@, ow, requested as int, node.i());
    }
}
--- hint after resize#0
let ghost g1 = self.port_meta@;
proof { assert forall|i: int| 0 <= i < old_len implies old(self).port_meta@[i] == #[trigger] g1[i] by { assert(g1.subrange(0, old_len as int)[i] == g1[i]); } }
--- hint after resize#1
let ghost g2 = self.port_meta@;
proof { assert forall|i: int| 0 <= i < g1.len() implies g1[i] == #[trigger] g2[i] by { assert(g2.subrange(0, g1.len() as int)[i] == g2[i]); } }
--- hint after resize#2
let ghost g3 = self.port_meta@;
proof { assert forall|i: int| 0 <= i < g2.len() implies g2[i] == #[trigger] g3[i] by { assert(g3.subrange(0, g2.len() as int)[i] == g3[i]); } }
=== fn portgraph PortGraph::free_ports
--- spec
requires
    old(self).port_meta.len() == old(self).port_link.len(),
    old(self).port_meta.len() <= max_ix() + 1,
    size <= 65535, ports.wf(),
    size > 0 ==> ports.i() + size <= old(self).port_meta.len(),
    links_ok(old(self).port_link@, old(self).port_meta@),
    forall|i: int| #![trigger old(self).port_link@[i]] ports.i() <= i < ports.i() + size && linked(old(self).port_link@, i) ==> isp(old(self).port_meta@, i),
    old(self).link_count == n_links(old(self).port_link@, old(self).port_meta@),
ensures
    freed(old(self).port_link@, old(self).port_meta@, final(self).port_link@, final(self).port_meta@, ports.i(), ports.i() + size),
    links_ok(final(self).port_link@, final(self).port_meta@),
    final(self).link_count == n_links(final(self).port_link@, final(self).port_meta@),
    given_back(*old(self), *final(self), ports.i(), size as int),
    final(self).node_meta == old(self).node_meta,
    final(self).node_free == old(self).node_free,
    final(self).node_count == old(self).node_count,
    final(self).port_count == old(self).port_count,
--- hint before let:ports_free#0
let ghost pf1 = self.port_free@;
proof {
    let pf0 = old(self).port_free@;
    assert forall|j: int| #![trigger pf1[j]] 0 <= j < pf1.len() implies (if j < pf0.len() { pf1[j] == pf0[j] } else { pf1[j].none() }) by {
        if j < pf0.len() && pf1 != pf0 { assert(pf1.subrange(0, pf0.len() as int)[j] == pf1[j]); }
    }
}
--- loop 0
invariant
    $it.end == ports.i() + size, ports.i() <= $it.start <= $it.end,
    freed(old(self).port_link@, old(self).port_meta@, self.port_link@, self.port_meta@, ports.i(), $it.start as int),
    forall|i: int| #![trigger self.port_link@[i]] ports.i() <= i < $it.start ==> self.port_link@[i].none(),
    links_ok(self.port_link@, self.port_meta@),
    self.link_count == n_links(self.port_link@, self.port_meta@),
    self.node_meta == old(self).node_meta, self.node_free == old(self).node_free, self.node_count == old(self).node_count, self.port_count == old(self).port_count,
    *ports_free == pf1[size - 1],
--- hint loop0.start
let ghost pl0 = self.port_link@;
let ghost pm0 = self.port_meta@;
proof { if linked(pl0, i as int) { lemma_links_pos(pl0, pm0, i as int); } }
--- hint loop0.end
proof {
    let pl = self.port_link@; let pm = self.port_meta@;
    if linked(pl0, i as int) {
        assert(link_at(pl0, pm0, i as int));
        assert(unlinked(pl0, pl, i as int));
        lemma_unlink(pl0, pl, pm0, i as int);
    } else { assert(pl =~= pl0.update(i as int, pl[i as int])); assert(links_ok(pl, pm0)); cnt_ext(lf(pl0, pm0), lf(pl, pm0), 0, pm0.len() as int); }
    lemma_free_cell(pl, pm0, pm, i as int);
}
--- hint before replace#0
let ghost pl9 = self.port_link@;
--- hint end
proof {
    let o = old(self);
    cnt_ext(lf(pl9, self.port_meta@), lf(self.port_link@, self.port_meta@), 0, self.port_meta@.len() as int);
    assert forall|ow: Seq<Owner>| #![trigger pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow)]
        pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow)
        && (forall|i: int| #![trigger ow[i]] ports.i() <= i < ports.i() + size ==> !(ow[i] is Slab))
        implies pfree_ok(self.port_link@, self.port_meta@, self.port_free@, give(ow, ports.i(), size as int, Owner::Slab(ports.i(), size as int), self.port_meta@.len() as int)) by {
        lemma_give_back(o.port_link@, o.port_meta@, o.port_free@, self.port_link@, self.port_meta@, self.port_free@, ow, ports.i(), size as int);
    }
}
--- hint before return#0
proof {
    let o = old(self);
    assert forall|ow: Seq<Owner>| #![trigger pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow)]
        pfree_ok(o.port_link@, o.port_meta@, o.port_free@, ow) implies
        pfree_ok(self.port_link@, self.port_meta@, self.port_free@, give(ow, ports.i(), 0, Owner::Slab(ports.i(), 0), self.port_meta@.len() as int)) by {
        lemma_give_nothing(self.port_link@, self.port_meta@, self.port_free@, ow, ports.i(), Owner::Slab(ports.i(), 0));
    }
}
