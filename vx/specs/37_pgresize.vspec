=== default P=G03
=== fn portgraph PortGraph::shrink_to_fit P=G04
--- spec
requires old(self).wf(),
ensures final(self).wf(), same_all(*old(self), *final(self)),
--- hint end
proof { lemma_same_wf(*old(self), *self); }
=== raw resize_spec
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
/// Where the port p of a node with slab m0 is after the slab became m1: -1 if it was removed.
pub open spec fn mv(m0: NodeMeta, m1: NodeMeta, p: int) -> int {
    let k = p - m0.first();
    if k < 0 || k >= m0.tot() { p }
    else if k < m0.inc() { if k < m1.inc() { m1.first() + k } else { -1 } }
    else if k - m0.inc() < m1.out() { m1.first() + m1.inc() + (k - m0.inc()) }
    else { -1 }
}
pub open spec fn mvi(m0: NodeMeta, m1: NodeMeta, l: int) -> int { if l < 0 { -1 } else { mv(m0, m1, l) } }
pub open spec fn mvl(m0: NodeMeta, m1: NodeMeta, x: MaybePortIndex) -> MaybePortIndex {
    if x.none() { x } else { MaybePortIndex::some(PortIndex::mk(mv(m0, m1, x.i()))) }
}
/// p is a port of the resized node that did not exist before.
pub open spec fn fresh(m0: NodeMeta, m1: NodeMeta, p: int) -> bool {
    let k = p - m1.first();
    0 <= k < m1.tot() && (if k < m1.inc() { k >= m0.inc() } else { k - m1.inc() >= m0.out() })
}
/// Node n has the given numbers of ports; ports keep their offset, node and link; the others lost their links.
pub open spec fn resized(g0: PortGraph, g1: PortGraph, n: int, inc: int, out: int) -> bool {
    let m0 = g0.m(n);
    let m1 = g1.m(n);
    &&& g0.has_node(n) && g1.has_node(n)
    &&& m1.inc() == inc && m1.out() == out
    &&& forall|k: int| #![trigger g1.same_node(g0, k)] #![trigger g1.has_node(k)] k != n ==> g1.same_node(g0, k)
    &&& forall|p: int| #![trigger g0.has_port(p)] g0.has_port(p) && mv(m0, m1, p) >= 0 ==> kept(g0, g1, p, mv(m0, m1, p))
            && g1.link(mv(m0, m1, p)) == mvi(m0, m1, g0.link(p))
    &&& forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) ==> g1.owns(n, p) || (g0.has_port(p) && !g0.owns(n, p))
    &&& forall|p: int| #![trigger g1.has_port(p)] g1.owns(n, p) && fresh(m0, m1, p) ==> g1.link(p) == -1
    &&& g1.node_count == g0.node_count
    &&& g1.port_count == g0.port_count - m0.tot() + m1.tot()
}
pub open spec fn kept(g0: PortGraph, g1: PortGraph, p: int, q: int) -> bool {
    g1.has_port(q) && g1.pnode(q) == g0.pnode(p) && g1.pdir(q) == g0.pdir(p)
}
/// The ports of n that go away are unlinked.
pub open spec fn detached(g0: PortGraph, g1: PortGraph, m: NodeMeta, inc: int, out: int, k: int) -> bool {
    &&& same_frame(g0, g1)
    &&& forall|p: int| #![trigger g1.link(p)] g1.link(p) == (if gone(m, inc, out, k, p) || (g0.link(p) >= 0 && gone(m, inc, out, k, g0.link(p))) { -1 } else { g0.link(p) })
}
pub open spec fn n_gone(a: int, b: int) -> int { if a > b { a - b } else { 0 } }
/// The j-th port to be removed.
pub open spec fn gone_at(m: NodeMeta, inc: int, out: int, j: int) -> int {
    let r = n_gone(m.inc(), inc);
    if j < r { m.first() + inc + j } else { m.first() + m.inc() + out + (j - r) }
}
/// p is among the first k ports to be removed.
pub open spec fn gone(m: NodeMeta, inc: int, out: int, k: int, p: int) -> bool {
    let r = n_gone(m.inc(), inc);
    (m.first() + inc <= p < m.first() + m.inc() && p - m.first() - inc < k) || (m.first() + m.inc() + out <= p < m.first() + m.tot() && p - (m.first() + m.inc() + out) < k - r)
}
pub open spec fn gone_link(g: PortGraph, m: NodeMeta, inc: int, out: int, j: int) -> Option<PortIndex> {
    let q = g.link(gone_at(m, inc, out, j));
    if q < 0 || gone(m, inc, out, j, q) { None } else { Some(PortIndex::mk(q)) }
}
/// The callbacks for the removed ports: each reports its former partner (a link between two removed ports is reported once).
pub open spec fn gone_log(g: PortGraph, m: NodeMeta, inc: int, out: int, k: int) -> Seq<(PortIndex, PortOperation)> {
    Seq::new(k as nat, |j: int| (PortIndex::mk(gone_at(m, inc, out, j)), PortOperation::Removed { old_link: gone_link(g, m, inc, out, j) }))
}
pub proof fn lemma_gone_seq(m: NodeMeta, inc: int, out: int, s: Seq<PortIndex>)
    requires 0 <= inc, 0 <= out, m.wf(), s == seq_skip(pseq(m.at(Direction::Incoming), m.at(Direction::Incoming) + m.num(Direction::Incoming)), inc) + seq_skip(pseq(m.at(Direction::Outgoing), m.at(Direction::Outgoing) + m.num(Direction::Outgoing)), out),
    ensures s.len() == n_gone(m.inc(), inc) + n_gone(m.out(), out), forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j] == PortIndex::mk(gone_at(m, inc, out, j)),
{}
pub proof fn lemma_gone_step(g0: PortGraph, g1: PortGraph, g2: PortGraph, m: NodeMeta, inc: int, out: int, k: int, q: int)
    requires
        g0.wf(), g1.wf(), 0 <= inc, 0 <= out, m.wf(), 0 <= k < n_gone(m.inc(), inc) + n_gone(m.out(), out),
        detached(g0, g1, m, inc, out, k),
        q == g1.link(gone_at(m, inc, out, k)),
        q >= 0 ==> link_removed(g1, g2, gone_at(m, inc, out, k), q),
        q < 0 ==> same_frame(g1, g2) && g1.port_link@ == g2.port_link@,
    ensures
        detached(g0, g2, m, inc, out, k + 1), same_frame(g0, g2),
        gone_link(g0, m, inc, out, k) == (if q < 0 { None } else { Some(PortIndex::mk(q)) }),
{
    let a = gone_at(m, inc, out, k);
    assert(!gone(m, inc, out, k, a));
    assert(forall|p: int| gone(m, inc, out, k + 1, p) <==> (gone(m, inc, out, k, p) || p == a));
    lemma_sym(g0); lemma_sym(g1);
    assert(g1.link(a) == q);
    assert forall|p: int| #![trigger g2.link(p)] g2.link(p) == (if gone(m, inc, out, k + 1, p) || (g0.link(p) >= 0 && gone(m, inc, out, k + 1, g0.link(p))) { -1 } else { g0.link(p) }) by {
        assert(g1.link(p) == g1.link(p));
        if q < 0 { assert(g2.link(p) == g1.link(p)); }
        if g0.link(p) == a { assert(g0.link(a) == p); }
    }
}
/// Links are symmetric.
pub proof fn lemma_sym(g: PortGraph)
    requires g.wf(),
    ensures forall|p: int| #![trigger g.link(p)] g.link(p) >= 0 ==> g.has_port(p) && g.has_port(g.link(p)) && g.link(g.link(p)) == p && g.pdir(p) != g.pdir(g.link(p)) && p <= max_ix(), forall|p: int| #![trigger g.link(p)] g.link(p) >= -1,
{
    assert forall|p: int| #![trigger g.link(p)] g.link(p) >= 0 implies g.has_port(p) && g.has_port(g.link(p)) && g.link(g.link(p)) == p && g.pdir(p) != g.pdir(g.link(p)) && p <= max_ix() by {
        assert(link_at(g.port_link@, g.port_meta@, p));
    }
}
=== raw resize_lemmas
pub open spec fn pre_resize(g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, n: int, m1: NodeMeta) -> bool {
    let m0 = g1.m(n);
    let pm1 = g1.port_meta@; let pl1 = g1.port_link@; let pm2 = g2.port_meta@; let pl2 = g2.port_link@;
    &&& g1.wf_ow(ow) && g1.has_node(n)
    &&& m1.wf()
    &&& g2.node_meta@ == g1.node_meta@.update(n, NodeEntry::Node(m1))
    &&& g2.node_free == g1.node_free && g2.node_count == g1.node_count
    &&& pm1.len() <= pm2.len() <= max_ix() + 1 && pl2.len() == pm2.len()
    &&& pfree_ok(pl2, pm2, g2.port_free@, w)
    &&& node_at(g2.node_meta@, pl2, pm2, w, n)
    &&& forall|i: int| #![trigger ow[i]] 0 <= i < pm1.len() && ow[i] is Node && ow[i] != Owner::Node(n) ==> w[i] == ow[i] && pm2[i] == pm1[i] && (pl1[i].none() ==> pl2[i].none())
    &&& forall|p: int| #![trigger pm2[p]] isp(pm2, p) ==> m1.first() <= p < m1.first() + m1.tot() || (isp(pm1, p) && !(m0.first() <= p < m0.first() + m0.tot()))
    &&& forall|p: int| #![trigger pm1[p]] isp(pm1, p) && !(m0.first() <= p < m0.first() + m0.tot()) ==> pm2[p] == pm1[p] && !(m1.first() <= p < m1.first() + m1.tot())
    &&& forall|p: int| #![trigger pm1[p]] isp(pm1, p) && mv(m0, m1, p) >= 0 ==> pl2[mv(m0, m1, p)] == mvl(m0, m1, pl1[p])
    &&& forall|p: int| #![trigger pl2[p]] fresh(m0, m1, p) ==> pl2[p].none()
    &&& forall|p: int| #![trigger pm1[p]] isp(pm1, p) && mv(m0, m1, p) < 0 ==> pl1[p].none()
    &&& g2.port_count == n_ports(pm2)
    &&& g2.link_count == n_links(pl2, pm2)
    &&& g2.port_count == g1.port_count - m0.tot() + m1.tot()
}
/// Where the port p2 was before.
pub open spec fn imv(m0: NodeMeta, m1: NodeMeta, p: int) -> int {
    let k = p - m1.first();
    if k < 0 || k >= m1.tot() { p } else if k < m1.inc() { m0.first() + k } else { m0.first() + m0.inc() + (k - m1.inc()) }
}
pub proof fn lemma_imv(g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, n: int, m1: NodeMeta, p: int)
    requires pre_resize(g1, g2, ow, w, n, m1), isp(g2.port_meta@, p), !fresh(g1.m(n), m1, p),
    ensures isp(g1.port_meta@, imv(g1.m(n), m1, p)), mv(g1.m(n), m1, imv(g1.m(n), m1, p)) == p,
{
    let u = imv(g1.m(n), m1, p);
    lemma_node_ports(g1, ow, n);
    assert(g1.port_meta@[u] == g1.port_meta@[u]);
    assert(g2.port_meta@[p] == g2.port_meta@[p]);
}
/// The port at mv(p).
pub proof fn lemma_mv(g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, n: int, m1: NodeMeta, p: int)
    requires pre_resize(g1, g2, ow, w, n, m1), isp(g1.port_meta@, p), mv(g1.m(n), m1, p) >= 0,
    ensures isp(g2.port_meta@, mv(g1.m(n), m1, p)), g2.port_meta@[mv(g1.m(n), m1, p)] == g1.port_meta@[p], mv(g1.m(n), m1, p) <= max_ix(),
        imv(g1.m(n), m1, mv(g1.m(n), m1, p)) == p, !fresh(g1.m(n), m1, mv(g1.m(n), m1, p)),
{
    let q = mv(g1.m(n), m1, p);
    lemma_node_ports(g1, ow, n);
    assert(g1.port_meta@[p] == g1.port_meta@[p]);
    assert(g2.port_meta@[q] == g2.port_meta@[q]);
}
pub proof fn lemma_resize1(g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, n: int, m1: NodeMeta)
    requires pre_resize(g1, g2, ow, w, n, m1),
    ensures links_ok(g2.port_link@, g2.port_meta@),
{
    let m0 = g1.m(n);
    let pm1 = g1.port_meta@; let pl1 = g1.port_link@; let pm2 = g2.port_meta@; let pl2 = g2.port_link@;
    assert forall|p: int| #![trigger pl2[p]] isp(pm2, p) && linked(pl2, p) implies link_at(pl2, pm2, p) by {
        assert(!fresh(m0, m1, p));
        lemma_imv(g1, g2, ow, w, n, m1, p);
        let u = imv(m0, m1, p);
        lemma_mv(g1, g2, ow, w, n, m1, u);
        assert(pl2[p] == mvl(m0, m1, pl1[u]));
        assert(link_at(pl1, pm1, u));
        let v = pl1[u].i();
        assert(!pl1[v].none());
        assert(mv(m0, m1, v) >= 0);
        lemma_mv(g1, g2, ow, w, n, m1, v);
        assert(pl2[mv(m0, m1, v)] == mvl(m0, m1, pl1[v]));
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_resize2(g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, n: int, m1: NodeMeta)
    requires pre_resize(g1, g2, ow, w, n, m1),
    ensures nodes_ok(g2.node_meta@, g2.port_link@, g2.port_meta@, w), ports_ok(g2.node_meta@, g2.port_meta@), nfree_ok(g2.node_meta@, g2.node_free), n_nodes(g2.node_meta@) == n_nodes(g1.node_meta@),
{
    let m0 = g1.m(n);
    let pm1 = g1.port_meta@; let pl1 = g1.port_link@; let pm2 = g2.port_meta@; let pl2 = g2.port_link@; let nm = g2.node_meta@; let nm1 = g1.node_meta@;
    reveal(nodes_ok); reveal(ports_ok); reveal(pfree_ok);
    assert forall|k: int| #![trigger nm[k]] live(nm, k) implies node_at(nm, pl2, pm2, w, k) by {
        if k != n {
            assert(live(nm1, k));
            assert(node_at(nm1, pl1, pm1, ow, k));
            lemma_node_kept(nm1, pl1, pm1, ow, nm, pl2, pm2, w, k);
        }
    }
    assert forall|p: int| #![trigger pm2[p]] isp(pm2, p) implies port_at(nm, pm2, p) by {
        if !(m1.first() <= p < m1.first() + m1.tot()) {
            assert(pm1[p] == pm2[p]);
            assert(port_at(nm1, pm1, p));
            lemma_node_cells(g1, ow, n, p);
            assert(live(nm, pmeta(pm2, p).n()));
        } else {
            lemma_mk(n, Direction::Incoming); lemma_mk(n, Direction::Outgoing);
            assert(live(nm, n));
        }
    }
    assert forall|i: int| #![trigger nfree_at(nm, g2.node_free, i)] 0 <= i < nm.len() && nm[i] is Free implies nfree_at(nm, g2.node_free, i) by {
        assert(nfree_at(nm1, g1.node_free, i));
    }
    cnt_ext(nf_(nm1), nf_(nm), 0, nm.len() as int);
}
pub proof fn lemma_resize3(g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, n: int, m1: NodeMeta)
    requires pre_resize(g1, g2, ow, w, n, m1), 
    ensures g2.wf(),
{
    lemma_resize1(g1, g2, ow, w, n, m1);
    lemma_resize2(g1, g2, ow, w, n, m1);
    assert(g2.wf_ow(w));
}
#[verifier::spinoff_prover]
pub proof fn lemma_resize4(g0: PortGraph, g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, n: int, m1: NodeMeta)
    requires pre_resize(g1, g2, ow, w, n, m1), g0.wf(), detached(g0, g1, g0.m(n), m1.inc(), m1.out(), n_gone(g0.m(n).inc(), m1.inc()) + n_gone(g0.m(n).out(), m1.out())),
    ensures resized(g0, g2, n, m1.inc(), m1.out()),
{
    let m0 = g1.m(n);
    let pm1 = g1.port_meta@; let pl1 = g1.port_link@; let pm2 = g2.port_meta@; let pl2 = g2.port_link@; let nm = g2.node_meta@; let nm1 = g1.node_meta@;
    let k = n_gone(g0.m(n).inc(), m1.inc()) + n_gone(g0.m(n).out(), m1.out());
    lemma_sym(g0); lemma_sym(g1);
    assert forall|p: int| #![trigger mv(m0, m1, p)] isp(pm1, p) implies (gone(m0, m1.inc(), m1.out(), k, p) <==> mv(m0, m1, p) < 0) by { lemma_node_ports(g1, ow, n); }
    assert forall|j: int| #![trigger g2.same_node(g0, j)] #![trigger g2.has_node(j)] j != n implies g2.same_node(g0, j) by { assert(nm1[j] == nm[j]); }
    assert forall|p: int| #![trigger g0.has_port(p)] g0.has_port(p) && mv(m0, m1, p) >= 0 implies kept(g0, g2, p, mv(m0, m1, p)) && g2.link(mv(m0, m1, p)) == mvi(m0, m1, g0.link(p)) by {
        let q = mv(m0, m1, p);
        lemma_mv(g1, g2, ow, w, n, m1, p);
        assert(pl2[q] == mvl(m0, m1, pl1[p]));
        assert(g1.link(p) == (if gone(m0, m1.inc(), m1.out(), k, p) || (g0.link(p) >= 0 && gone(m0, m1.inc(), m1.out(), k, g0.link(p))) { -1 } else { g0.link(p) }));
        if g0.link(p) >= 0 { let v = g0.link(p); assert(isp(pm1, v)); assert(gone(m0, m1.inc(), m1.out(), k, v) <==> mv(m0, m1, v) < 0);
            if g1.link(p) >= 0 { lemma_mv(g1, g2, ow, w, n, m1, v); } }
    }
    lemma_resize3(g1, g2, ow, w, n, m1);
    assert forall|p: int| #![trigger g2.has_port(p)] g2.has_port(p) implies g2.owns(n, p) || (g0.has_port(p) && !g0.owns(n, p)) by {
        assert(pm2[p] == pm2[p]);
        lemma_resize1(g1, g2, ow, w, n, m1); lemma_resize2(g1, g2, ow, w, n, m1);
        lemma_node_cells(g2, w, n, p);
        lemma_node_cells(g1, ow, n, p);
        assert(g0.owns(n, p) == g1.owns(n, p));
    }
}
=== raw realloc_lemmas
/// Where port p is after the first a inputs and the first b outputs were moved.
pub open spec fn mvp(m0: NodeMeta, m1: NodeMeta, a: int, b: int, p: int) -> int {
    let k = p - m0.first();
    if 0 <= k < m0.inc() && k < a { m1.first() + k }
    else if m0.inc() <= k < m0.tot() && k - m0.inc() < b { m1.first() + m1.inc() + (k - m0.inc()) }
    else { p }
}
pub open spec fn mvpl(m0: NodeMeta, m1: NodeMeta, a: int, b: int, x: MaybePortIndex) -> MaybePortIndex {
    if x.none() { x } else { MaybePortIndex::some(PortIndex::mk(mvp(m0, m1, a, b, x.i()))) }
}
/// The links while the ports are moved; pl1, pm1: before, pl2, pm2: with the new slab.
#[verifier::opaque]
pub open spec fn moving(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, pl: Seq<MaybePortIndex>, m0: NodeMeta, m1: NodeMeta, a: int, b: int) -> bool {
    &&& pl.len() == pl2.len()
    &&& forall|p: int| #![trigger pl1[p]] isp(pm1, p) ==> pl[mvp(m0, m1, a, b, p)] == mvpl(m0, m1, a, b, pl1[p])
    &&& forall|x: int| #![trigger pl[x]] !isp(pm2, x) ==> pl[x] == pl2[x]
    &&& forall|x: int| #![trigger pl[x]] m0.first() <= x < m0.first() + m0.tot() && mvp(m0, m1, a, b, x) != x ==> pl[x].none()
    &&& forall|x: int| #![trigger pl[x]] m1.first() <= x < m1.first() + m1.inc() && x - m1.first() >= mn(a, m0.inc()) ==> pl[x].none()
    &&& forall|x: int| #![trigger pl[x]] m1.first() + m1.inc() <= x < m1.first() + m1.tot() && x - m1.first() - m1.inc() >= mn(b, m0.out()) ==> pl[x].none()
}
pub open spec fn slabs(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta) -> bool {
    &&& m0.wf() && m1.wf() && 0 <= n <= max_ix()
    &&& links_ok(pl1, pm1) && pm2.len() <= max_ix() + 1
    &&& slab_new(pl1, pm1, pl2, pm2, n, m1)
    &&& m0.first() + m0.cap() <= pm1.len()
    &&& m0.first() + m0.cap() <= m1.first() || m1.first() + m1.cap() <= m0.first() || m0.cap() == 0 || m1.cap() == 0
    &&& forall|i: int| #![trigger pm1[i]] m0.first() <= i < m0.first() + m0.inc() ==> pm1[i] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming))
    &&& forall|i: int| #![trigger pm1[i]] m0.first() + m0.inc() <= i < m0.first() + m0.tot() ==> pm1[i] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing))
}
pub proof fn lemma_moving_start(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta)
    requires slabs(pl1, pm1, pl2, pm2, n, m0, m1),
    ensures moving(pl1, pm1, pl2, pm2, pl2, m0, m1, 0, 0),
{
    reveal(moving);
    assert forall|p: int| #![trigger pl1[p]] isp(pm1, p) implies pl2[mvp(m0, m1, 0, 0, p)] == mvpl(m0, m1, 0, 0, pl1[p]) by {
        assert(pm1[p] == pm1[p]); assert(pl2[p] == pl1[p]);
        if linked(pl1, p) { assert(link_at(pl1, pm1, p)); }
    }
}
/// One port is moved from u to v.
pub open spec fn moved1(pl: Seq<MaybePortIndex>, pl9: Seq<MaybePortIndex>, u: int, v: int) -> bool {
    let x = pl[u];
    let p = if x.none() { pl } else { pl.update(x.i(), MaybePortIndex::some(PortIndex::mk(v))) };
    pl9 == p.update(u, MaybePortIndex::spec_none()).update(v, p[u])
}
pub proof fn lemma_moved1(pl: Seq<MaybePortIndex>, pl9: Seq<MaybePortIndex>, pm: Seq<PortEntry>, u: int, v: int)
    requires links_ok(pl, pm), pm.len() <= max_ix() + 1, isp(pm, u), isp(pm, v), pm[u] == pm[v], u != v, pl[v].none(), moved1(pl, pl9, u, v),
    ensures links_ok(pl9, pm), n_links(pl9, pm) == n_links(pl, pm), pl[u].none() || (pl[u].i() != u && pl[u].i() != v),
{
    let x = pl[u];
    if !x.none() { assert(link_at(pl, pm, u)); assert(link_at(pl, pm, x.i())); }
    assert forall|p: int| #![trigger pl9[p]] isp(pm, p) && linked(pl9, p) implies link_at(pl9, pm, p) by {
        if p != v && (x.none() || p != x.i()) {
            assert(pl9[p] == pl[p]); assert(link_at(pl, pm, p)); let q = pl[p].i();
            assert(q != u); assert(q != v);
        } else if p == v { assert(pl9[v] == x); }
    }
    let mid = pl.update(v, x);
    let len = pm.len() as int;
    cnt_upd(lf(pl, pm), lf(mid, pm), 0, len, v);
    cnt_upd(lf(mid, pm), lf(pl9, pm), 0, len, u);
}
pub open spec fn mapl(f: spec_fn(int) -> int, x: MaybePortIndex) -> MaybePortIndex {
    if x.none() { x } else { MaybePortIndex::some(PortIndex::mk(f(x.i()))) }
}
/// Moving the port at u to v, when the ports are at f.
pub proof fn lemma_move_core(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pm2: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pl9: Seq<MaybePortIndex>, f: spec_fn(int) -> int, f9: spec_fn(int) -> int, u: int, v: int)
    requires
        links_ok(pl1, pm1), links_ok(pl, pm2), pm2.len() <= max_ix() + 1,
        isp(pm1, u), isp(pm2, u), isp(pm2, v), u != v, pl[v].none(), f(u) == u, pm2[u] == pm2[v],
        forall|p: int| #![trigger f9(p)] f9(p) == (if p == u { v } else { f(p) }),
        forall|p: int| #![trigger f(p)] isp(pm1, p) ==> isp(pm2, f(p)) && (p != u ==> f(p) != u && f(p) != v),
        forall|p: int| #![trigger pl1[p]] isp(pm1, p) ==> pl[f(p)] == mapl(f, pl1[p]),
        moved1(pl, pl9, u, v),
    ensures
        forall|p: int| #![trigger pl1[p]] isp(pm1, p) ==> pl9[f9(p)] == mapl(f9, pl1[p]),
{
    let x = pl[u];
    if !x.none() { assert(link_at(pl, pm2, u)); assert(link_at(pl, pm2, x.i())); }
    assert forall|p: int| #![trigger pl1[p]] isp(pm1, p) implies pl9[f9(p)] == mapl(f9, pl1[p]) by {
        let q = f(p);
        assert(pl[q] == mapl(f, pl1[p]));
        if linked(pl1, p) {
            assert(link_at(pl1, pm1, p));
            let l = pl1[p].i();
            let lq = f(l);
            assert(isp(pm2, lq));
            assert(pl[q].i() == lq);
            assert(link_at(pl, pm2, q));
            assert(f9(l) == (if l == u { v } else { lq }));
            if p != u {
                if l == u { assert(pl9[q] == MaybePortIndex::some(PortIndex::mk(v))); }
                else {
                    assert(lq != u);
                    assert(x.none() || x.i() != q);
                    assert(pl9[q] == pl[q]);
                }
            } else {
                assert(l != u);
                assert(pl9[v] == x);
            }
        } else if p != u {
            assert(x.none() || x.i() != q);
            assert(pl9[q] == pl[q]);
        }
    }
}
pub proof fn lemma_moving_step(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pl9: Seq<MaybePortIndex>, n: int, m0: NodeMeta, m1: NodeMeta, a: int, b: int, a9: int, b9: int, u: int, v: int)
    requires
        slabs(pl1, pm1, pl2, pm2, n, m0, m1),
        moving(pl1, pm1, pl2, pm2, pl, m0, m1, a, b),
        links_ok(pl, pm2),
        0 <= a <= mn(m0.inc(), m1.inc()), 0 <= b <= mn(m0.out(), m1.out()),
        (a9 == a + 1 && b9 == b && a < mn(m0.inc(), m1.inc()) && u == m0.first() + a && v == m1.first() + a)
        || (a9 == a && b9 == b + 1 && b < mn(m0.out(), m1.out()) && u == m0.first() + m0.inc() + b && v == m1.first() + m1.inc() + b),
        moved1(pl, pl9, u, v),
    ensures
        moving(pl1, pm1, pl2, pm2, pl9, m0, m1, a9, b9),
        links_ok(pl9, pm2), n_links(pl9, pm2) == n_links(pl, pm2),
{
    let f = |p: int| mvp(m0, m1, a, b, p);
    let f9 = |p: int| mvp(m0, m1, a9, b9, p);
    lemma_moving_facts(pl1, pm1, pl2, pm2, n, m0, m1, a, b, a9, b9, u, v);
    assert(pl[v].none()) by { reveal(moving); assert(pl[v] == pl[v]); }
    lemma_moved1(pl, pl9, pm2, u, v);
    assert forall|p: int| #![trigger pl1[p]] isp(pm1, p) implies pl[f(p)] == mapl(f, pl1[p]) by { reveal(moving); assert(pl[mvp(m0, m1, a, b, p)] == mvpl(m0, m1, a, b, pl1[p])); }
    assert(f(u) == u);
    lemma_move_core(pl1, pm1, pm2, pl, pl9, f, f9, u, v);
    reveal(moving);
    let x = pl[u];
    if !x.none() { assert(link_at(pl, pm2, u)); }
    assert forall|p: int| #![trigger pl1[p]] isp(pm1, p) implies pl9[mvp(m0, m1, a9, b9, p)] == mvpl(m0, m1, a9, b9, pl1[p]) by { assert(pl9[f9(p)] == mapl(f9, pl1[p])); }
    assert forall|y: int| #![trigger pl9[y]] 0 <= y < pl.len() && y != u && y != v && (x.none() || x.i() != y) implies pl9[y] == pl[y] by {}
    assert forall|y: int| #![trigger pl[y]] pl[y].none() && isp(pm2, y) implies x.none() || x.i() != y by { }
    assert forall|y: int| #![trigger pl9[y]] !isp(pm2, y) implies pl9[y] == pl2[y] by { assert(pl[y] == pl2[y]); }
    assert forall|y: int| #![trigger pl9[y]] m0.first() <= y < m0.first() + m0.tot() && mvp(m0, m1, a9, b9, y) != y implies pl9[y].none() by {
        if y != u { assert(mvp(m0, m1, a, b, y) != y); assert(pl[y].none()); assert(pm1[y] is Port); assert(pm2[y] == pm1[y]); assert(y != v); }
    }
    assert forall|y: int| #![trigger pl9[y]] m1.first() <= y < m1.first() + m1.inc() && y - m1.first() >= mn(a9, m0.inc()) implies pl9[y].none() by { assert(pl[y].none()); assert(pm2[y] is Port); }
    assert forall|y: int| #![trigger pl9[y]] m1.first() + m1.inc() <= y < m1.first() + m1.tot() && y - m1.first() - m1.inc() >= mn(b9, m0.out()) implies pl9[y].none() by { assert(pl[y].none()); assert(pm2[y] is Port); }
}
pub proof fn lemma_moving_facts(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, a: int, b: int, a9: int, b9: int, u: int, v: int)
    requires
        slabs(pl1, pm1, pl2, pm2, n, m0, m1),
        0 <= a <= mn(m0.inc(), m1.inc()), 0 <= b <= mn(m0.out(), m1.out()),
        (a9 == a + 1 && b9 == b && a < mn(m0.inc(), m1.inc()) && u == m0.first() + a && v == m1.first() + a)
        || (a9 == a && b9 == b + 1 && b < mn(m0.out(), m1.out()) && u == m0.first() + m0.inc() + b && v == m1.first() + m1.inc() + b),
    ensures
        isp(pm1, u), isp(pm2, u), isp(pm2, v), pm2[u] == pm1[u], pm2[v] == pm2[u], u != v, mvp(m0, m1, a, b, u) == u,
        forall|p: int| #![trigger mvp(m0, m1, a9, b9, p)] mvp(m0, m1, a9, b9, p) == (if p == u { v } else { mvp(m0, m1, a, b, p) }),
        forall|p: int| #![trigger mvp(m0, m1, a, b, p)] isp(pm1, p) ==> isp(pm2, mvp(m0, m1, a, b, p)) && (p != u ==> mvp(m0, m1, a, b, p) != u && mvp(m0, m1, a, b, p) != v),
{
    assert(pm1[u] == pm1[u]); assert(pm2[v] == pm2[v]); assert(pm2[u] == pm1[u]);
    assert forall|p: int| #![trigger mvp(m0, m1, a, b, p)] isp(pm1, p) implies isp(pm2, mvp(m0, m1, a, b, p)) && (p != u ==> mvp(m0, m1, a, b, p) != u && mvp(m0, m1, a, b, p) != v) by {
        let q = mvp(m0, m1, a, b, p);
        assert(pm1[p] == pm1[p]); assert(pm2[q] == pm2[q]); assert(pm2[p] == pm2[p]);
    }
}
pub open spec fn pre_realloc(g1: PortGraph, g2: PortGraph, ga: PortGraph, gf: PortGraph, ow: Seq<Owner>, n: int, m1: NodeMeta) -> bool {
    let m0 = g1.m(n);
    let len = g2.port_meta@.len() as int;
    let w1 = give(ow, m1.first(), m1.cap(), Owner::Node(n), len);
    let w = give(w1, m0.first(), m0.cap(), Owner::Slab(m0.first(), m0.cap()), len);
    &&& g1.wf_ow(ow) && g1.has_node(n)
    &&& slabs(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, m0, m1)
    &&& forall|i: int| #![trigger ow[i]] m1.first() <= i < m1.first() + m1.cap() && i < ow.len() ==> ow[i] is Slab
    &&& m1.tot() == 0 ==> m1.cap() == 0
    &&& m1.inc() <= PortOffset::max_o() && m1.out() <= PortOffset::max_o()
    &&& ga.port_meta@ == g2.port_meta@
    &&& moving(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, ga.port_link@, m0, m1, mn(m0.inc(), m1.inc()), mn(m0.out(), m1.out()))
    &&& links_ok(ga.port_link@, ga.port_meta@)
    &&& forall|p: int| #![trigger g1.port_meta@[p]] isp(g1.port_meta@, p) && mv(m0, m1, p) < 0 ==> g1.port_link@[p].none()
    &&& freed(ga.port_link@, ga.port_meta@, gf.port_link@, gf.port_meta@, m0.first(), m0.first() + m0.cap())
    &&& gf.link_count == n_links(gf.port_link@, gf.port_meta@)
    &&& pfree_ok(gf.port_link@, gf.port_meta@, gf.port_free@, w)
    &&& gf.node_meta@ == g1.node_meta@.update(n, NodeEntry::Node(m1))
    &&& gf.node_free == g1.node_free && gf.node_count == g1.node_count
    &&& gf.port_count == g1.port_count - m0.tot() + m1.tot()
}
pub proof fn lemma_old_slab(g1: PortGraph, g2: PortGraph, pl: Seq<MaybePortIndex>, ow: Seq<Owner>, n: int, m1: NodeMeta, i: int)
    requires g1.wf_ow(ow), g1.has_node(n), slabs(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, g1.m(n), m1),
        moving(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, pl, g1.m(n), m1, mn(g1.m(n).inc(), m1.inc()), mn(g1.m(n).out(), m1.out())),
        forall|p: int| #![trigger g1.port_meta@[p]] isp(g1.port_meta@, p) && mv(g1.m(n), m1, p) < 0 ==> g1.port_link@[p].none(),
        g1.m(n).first() <= i < g1.m(n).first() + g1.m(n).cap(),
    ensures pl[i].none(),
{
    reveal(moving);
    let m0 = g1.m(n);
    let pl1 = g1.port_link@; let pm1 = g1.port_meta@; let pm2 = g2.port_meta@;
    lemma_node_ports(g1, ow, n);
    if i < m0.first() + m0.tot() {
        assert(pm1[i] is Port);
        if mv(m0, m1, i) < 0 { assert(pl1[i].none()); assert(mvp(m0, m1, mn(g1.m(n).inc(), m1.inc()), mn(g1.m(n).out(), m1.out()), i) == i); }
    } else {
        assert(pm1[i] is Free && pl1[i].none());
        assert(pm2[i] == pm1[i]);
        assert(pl[i] == g2.port_link@[i]);
    }
}
pub proof fn lemma_realloc(g1: PortGraph, g2: PortGraph, ga: PortGraph, gf: PortGraph, ow: Seq<Owner>, n: int, m1: NodeMeta)
    requires pre_realloc(g1, g2, ga, gf, ow, n, m1),
    ensures pre_resize(g1, gf, ow, give(give(ow, m1.first(), m1.cap(), Owner::Node(n), g2.port_meta@.len() as int), g1.m(n).first(), g1.m(n).cap(), Owner::Slab(g1.m(n).first(), g1.m(n).cap()), g2.port_meta@.len() as int), n, m1),
{
    let m0 = g1.m(n);
    let len = g2.port_meta@.len() as int;
    let w1 = give(ow, m1.first(), m1.cap(), Owner::Node(n), len);
    let w = give(w1, m0.first(), m0.cap(), Owner::Slab(m0.first(), m0.cap()), len);
    let pl1 = g1.port_link@; let pm1 = g1.port_meta@; let pm2 = g2.port_meta@; let pla = ga.port_link@; let pmf = gf.port_meta@; let plf = gf.port_link@;
    let a = mn(m0.inc(), m1.inc()); let b = mn(m0.out(), m1.out());
    lemma_node_ports(g1, ow, n);
    assert forall|i: int| #![trigger pla[i]] m0.first() <= i < m0.first() + m0.cap() implies pla[i].none() by { lemma_old_slab(g1, g2, pla, ow, n, m1, i); }
    assert forall|i: int| #![trigger plf[i]] 0 <= i < len && !(m0.first() <= i < m0.first() + m0.cap()) implies plf[i] == pla[i] by {
        if isp(pm2, i) && linked(pla, i) { assert(link_at(pla, pm2, i)); }
    }
    reveal(moving);
    reveal(pfree_ok);
    assert forall|i: int| #![trigger ow[i]] 0 <= i < pm1.len() && ow[i] is Node && ow[i] != Owner::Node(n) implies w[i] == ow[i] && pmf[i] == pm1[i] && (pl1[i].none() ==> plf[i].none()) by {
        if m0.first() <= i < m0.first() + m0.cap() { assert(ow[i] == Owner::Node(n)); }
        if m1.first() <= i < m1.first() + m1.cap() { assert(ow[i] is Slab); }
        assert(pm2[i] == pm1[i]);
        if isp(pm1, i) { assert(mvp(m0, m1, a, b, i) == i); assert(pla[i] == mvpl(m0, m1, a, b, pl1[i])); } else { assert(pla[i] == g2.port_link@[i]); }
        assert(plf[i] == pla[i]);
    }
    assert forall|p: int| #![trigger pmf[p]] isp(pmf, p) implies m1.first() <= p < m1.first() + m1.tot() || (isp(pm1, p) && !(m0.first() <= p < m0.first() + m0.tot())) by {
        assert(pm2[p] == pmf[p]);
    }
    assert forall|p: int| #![trigger pm1[p]] isp(pm1, p) && !(m0.first() <= p < m0.first() + m0.tot()) implies pmf[p] == pm1[p] && !(m1.first() <= p < m1.first() + m1.tot()) by {
        assert(pm2[p] == pm2[p]);
        if m0.first() <= p < m0.first() + m0.cap() { assert(pm1[p] is Free); }
    }
    assert forall|p: int| #![trigger pm1[p]] isp(pm1, p) && mv(m0, m1, p) >= 0 implies plf[mv(m0, m1, p)] == mvl(m0, m1, pl1[p]) by {
        let q = mv(m0, m1, p);
        assert(mvp(m0, m1, a, b, p) == q);
        assert(pla[q] == mvpl(m0, m1, a, b, pl1[p]));
        assert(!(m0.first() <= q < m0.first() + m0.cap())) by { if !(m0.first() <= p < m0.first() + m0.tot()) && m0.first() <= p < m0.first() + m0.cap() { assert(pm1[p] is Free); } }
        if linked(pl1, p) { assert(link_at(pl1, pm1, p)); let l = pl1[p].i(); assert(!pl1[l].none()); assert(pm1[l] is Port); assert(mv(m0, m1, l) >= 0); assert(mvp(m0, m1, a, b, l) == mv(m0, m1, l)); }
        assert(0 <= q < len) by { assert(pm2[q] == pm2[q]); }
        assert(plf[q] == pla[q]);
    }
    assert forall|p: int| #![trigger plf[p]] fresh(m0, m1, p) implies plf[p].none() by { assert(pla[p].none()); assert(plf[p] == pla[p]); }
    assert(node_at(gf.node_meta@, plf, pmf, w, n)) by {
        assert forall|i: int| #![trigger w[i]] m1.first() <= i < m1.first() + m1.cap() implies w[i] == Owner::Node(n) by { }
        assert forall|i: int| #![trigger pmf[i]] #![trigger plf[i]] m1.first() + m1.tot() <= i < m1.first() + m1.cap() implies pmf[i] is Free && plf[i].none() by { assert(pm2[i] is Free); assert(pla[i] == g2.port_link@[i]); assert(plf[i] == pla[i]); }
        assert forall|i: int| #![trigger pmf[i]] m1.first() <= i < m1.first() + m1.cap() implies pmf[i] == pm2[i] by {}
    }
    lemma_realloc_counts(g1.port_link@, pm1, g2.port_link@, pm2, pmf, n, m0, m1);
}
pub proof fn lemma_realloc_counts(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, pmf: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta)
    requires slabs(pl1, pm1, pl2, pm2, n, m0, m1), pl1.len() == pm1.len(), m0.wf(), pmf.len() == pm2.len(),
        forall|i: int| #![trigger pm1[i]] m0.first() + m0.tot() <= i < m0.first() + m0.cap() ==> pm1[i] is Free,
        forall|i: int| #![trigger pmf[i]] #![trigger pm2[i]] 0 <= i < pm2.len() ==> pmf[i] == (if m0.first() <= i < m0.first() + m0.cap() { PortEntry::Free } else { pm2[i] }),
    ensures n_ports(pmf) == n_ports(pm1) + m1.tot() - m0.tot(),
{
    lemma_slab_counts(pl1, pm1, pl2, pm2, n, m1);
    let len = pm2.len() as int;
    let f = pf_(pm2); let g = pf_(pmf); let s = m0.first(); let e = s + m0.cap();
    cnt_range(f, g, 0, s, e, len);
    cnt_const(g, false, s, e);
    cnt_split(f, s, s + m0.tot(), e);
    assert forall|i: int| #![trigger f(i)] s <= i < s + m0.tot() implies f(i) by { assert(pm1[i] is Port); assert(pm2[i] == pm1[i]); }
    cnt_const(f, true, s, s + m0.tot());
    assert forall|i: int| #![trigger f(i)] s + m0.tot() <= i < e implies !f(i) by { assert(pm1[i] is Free); assert(pm2[i] == pm1[i]); }
    cnt_const(f, false, s + m0.tot(), e);
}
=== raw calls
/// What the callback of `set_num_ports` is told: every port that goes away (with its former partner, once per link),
/// every port that stays and its new index; nothing twice and nothing left out.
pub open spec fn calls_ok(g0: PortGraph, m0: NodeMeta, m1: NodeMeta, l: Seq<(PortIndex, PortOperation)>) -> bool {
    &&& forall|j: int| #![trigger l[j]] 0 <= j < l.len() ==> call_ok(g0, m0, m1, l[j])
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> l[i].0 != l[j].0
    &&& forall|p: int| #![trigger mv(m0, m1, p)] m0.first() <= p < m0.first() + m0.tot() && mv(m0, m1, p) != p ==> called(l, p)
    &&& order_ok(l)
}
/// No port is moved to a place whose port is still to be moved or removed.
pub open spec fn order_ok(l: Seq<(PortIndex, PortOperation)>) -> bool {
    forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> match l[i].1 { PortOperation::Moved { new_index } => new_index != l[j].0, _ => true }
}
pub open spec fn called(l: Seq<(PortIndex, PortOperation)>, p: int) -> bool { exists|j: int| #![trigger l[j]] 0 <= j < l.len() && l[j].0.i() == p }
pub open spec fn call_ok(g0: PortGraph, m0: NodeMeta, m1: NodeMeta, c: (PortIndex, PortOperation)) -> bool {
    let p = c.0.i();
    &&& c.0.wf() && m0.first() <= p < m0.first() + m0.tot()
    &&& match c.1 {
        PortOperation::Removed { old_link } => mv(m0, m1, p) < 0 && (match old_link {
            Some(q) => g0.link(p) == q.i() && q.wf(),
            None => g0.link(p) < 0 || mvi(m0, m1, g0.link(p)) < 0,
        }),
        PortOperation::Moved { new_index } => mv(m0, m1, p) >= 0 && new_index == PortIndex::mk(mv(m0, m1, p)),
    }
}
/// The calls for ports that move to another slab, in order.
pub open spec fn moved_at(m0: NodeMeta, m1: NodeMeta, j: int) -> int {
    let a = mn(m0.inc(), m1.inc());
    if j < a { m0.first() + j } else { m0.first() + m0.inc() + (j - a) }
}
pub open spec fn moved_log(m0: NodeMeta, m1: NodeMeta, k: int) -> Seq<(PortIndex, PortOperation)> {
    Seq::new(k as nat, |j: int| (PortIndex::mk(moved_at(m0, m1, j)), PortOperation::Moved { new_index: PortIndex::mk(mv(m0, m1, moved_at(m0, m1, j))) }))
}
/// The j-th call is for this port.
pub open spec fn call_at(m0: NodeMeta, m1: NodeMeta, j: int) -> int {
    let k = n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out());
    if j < k { gone_at(m0, m1.inc(), m1.out(), j) } else { moved_at(m0, m1, j - k) }
}
pub open spec fn call_of(m0: NodeMeta, m1: NodeMeta, p: int) -> int {
    let o = p - m0.first();
    let k = n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out());
    if o < m0.inc() { if o < m1.inc() { k + o } else { o - m1.inc() } }
    else if o - m0.inc() < m1.out() { k + mn(m0.inc(), m1.inc()) + (o - m0.inc()) } else { n_gone(m0.inc(), m1.inc()) + (o - m0.inc() - m1.out()) }
}
pub proof fn lemma_call_at(m0: NodeMeta, m1: NodeMeta, j: int)
    requires m0.wf(), m1.wf(), 0 <= j < m0.tot(),
    ensures m0.first() <= call_at(m0, m1, j) < m0.first() + m0.tot(), call_of(m0, m1, call_at(m0, m1, j)) == j,
        j < n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out()) <==> mv(m0, m1, call_at(m0, m1, j)) < 0,
{}
pub proof fn lemma_call_of(m0: NodeMeta, m1: NodeMeta, p: int)
    requires m0.wf(), m1.wf(), m0.first() <= p < m0.first() + m0.tot(),
    ensures 0 <= call_of(m0, m1, p) < m0.tot(), call_at(m0, m1, call_of(m0, m1, p)) == p,
{}
pub proof fn lemma_gone_mv(m0: NodeMeta, m1: NodeMeta, k: int, q: int)
    requires m0.wf(), m1.wf(), gone(m0, m1.inc(), m1.out(), k, q),
    ensures mv(m0, m1, q) < 0,
{}
pub proof fn lemma_mv_in(m0: NodeMeta, m1: NodeMeta, p: int)
    requires m0.wf(), m1.wf(), m0.first() <= p < m0.first() + m0.tot(), mv(m0, m1, p) >= 0,
    ensures m1.first() <= mv(m0, m1, p) < m1.first() + m1.tot(),
{}
pub proof fn lemma_calls(g0: PortGraph, m0: NodeMeta, m1: NodeMeta, n: int, l: Seq<(PortIndex, PortOperation)>)
    requires
        g0.wf(), g0.has_node(n), m0 == g0.m(n), m1.wf(), m1.first() + m1.tot() <= max_ix() + 1,
        m0.first() + m0.cap() <= m1.first() || m1.first() + m1.cap() <= m0.first() || m0.cap() == 0 || m1.cap() == 0,
        l == gone_log(g0, m0, m1.inc(), m1.out(), n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out())) + moved_log(m0, m1, mn(m0.inc(), m1.inc()) + mn(m0.out(), m1.out())),
    ensures calls_ok(g0, m0, m1, l),
{
    hide(PortGraph::wf_ow); hide(mv); hide(gone_at); hide(moved_at); hide(gone);
    let k = n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out());
    let i1 = m1.inc(); let o1 = m1.out();
    lemma_node(g0, n);
    lemma_sym(g0);
    let gl = gone_log(g0, m0, i1, o1, k);
    assert(l.len() == m0.tot());
    assert forall|j: int| #![trigger l[j]] 0 <= j < l.len() implies call_ok(g0, m0, m1, l[j]) && l[j].0 == PortIndex::mk(call_at(m0, m1, j)) && l[j].0.i() == call_at(m0, m1, j) by {
        lemma_call_at(m0, m1, j);
        let p = call_at(m0, m1, j);
        assert(g0.link(p) >= -1);
        if j < k {
            assert(l[j] == gl[j]); let q = g0.link(p);
            if q >= 0 && gone(m0, i1, o1, j, q) { lemma_gone_mv(m0, m1, j, q); }
            assert(call_ok(g0, m0, m1, l[j]));
        } else {
            assert(l[j] == moved_log(m0, m1, mn(m0.inc(), m1.inc()) + mn(m0.out(), m1.out()))[j - k]);
            assert(call_ok(g0, m0, m1, l[j]));
        }
    }
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies l[i].0 != l[j].0 by {
        lemma_call_at(m0, m1, i); lemma_call_at(m0, m1, j);
        assert(l[i].0.i() == call_at(m0, m1, i)); assert(l[j].0.i() == call_at(m0, m1, j));
    }
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies match l[i].1 { PortOperation::Moved { new_index } => new_index != l[j].0, _ => true } by {
        lemma_call_at(m0, m1, i); lemma_call_at(m0, m1, j);
        assert(l[i].0.i() == call_at(m0, m1, i)); assert(l[j].0.i() == call_at(m0, m1, j));
        assert(call_ok(g0, m0, m1, l[i]));
        if let PortOperation::Moved { new_index } = l[i].1 {
            let p = call_at(m0, m1, i);
            lemma_mv_in(m0, m1, p);
            assert(new_index.i() == mv(m0, m1, p));
        }
    }
    assert forall|p: int| #![trigger mv(m0, m1, p)] m0.first() <= p < m0.first() + m0.tot() && mv(m0, m1, p) != p implies called(l, p) by {
        lemma_call_of(m0, m1, p);
        let j = call_of(m0, m1, p);
        assert(l[j].0.i() == p);
    }
}
=== raw inplace
pub proof fn cnt_shift(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, s: int, t: int, k: int)
    requires 0 <= k, forall|j: int| #![trigger f(s + j)] 0 <= j < k ==> f(s + j) == g(t + j),
    ensures cnt(f, s, s + k) == cnt(g, t, t + k),
    decreases k,
{ if k > 0 { cnt_shift(f, g, s, t, k - 1); assert(f(s + (k - 1)) == g(t + (k - 1))); } }
/// First output port before and after, and how many outputs stay.
pub open spec fn os(m: NodeMeta) -> int { m.first() + m.inc() }
pub open spec fn on(m0: NodeMeta, m1: NodeMeta) -> int { mn(m0.out(), m1.out()) }
pub open spec fn area(m0: NodeMeta, m1: NodeMeta, x: int) -> bool {
    mn(os(m0), os(m1)) <= x < os(m0) + on(m0, m1) || mn(os(m0), os(m1)) <= x < os(m1) + on(m0, m1)
}
/// The slab does not move; its links are as `detached` left them.
pub open spec fn ipre(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta) -> bool {
    &&& m0.wf() && m1.wf() && 0 <= n <= max_ix() && m0.first() == m1.first() && m0.cap() == m1.cap()
    &&& m0.first() + m0.cap() <= pm1.len() <= max_ix() + 1
    &&& links_ok(pl1, pm1) && pl1.len() == pm1.len()
    &&& forall|i: int| #![trigger pm1[i]] m0.first() <= i < m0.first() + m0.inc() ==> pm1[i] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming))
    &&& forall|i: int| #![trigger pm1[i]] m0.first() + m0.inc() <= i < m0.first() + m0.tot() ==> pm1[i] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing))
    &&& forall|i: int| #![trigger pm1[i]] #![trigger pl1[i]] m0.first() + m0.tot() <= i < m0.first() + m0.cap() ==> pm1[i] is Free && pl1[i].none()
    &&& forall|p: int| #![trigger pl1[p]] isp(pm1, p) && mv(m0, m1, p) < 0 ==> pl1[p].none()
}
/// A link after the outputs lo..hi were moved.
pub open spec fn rp(m0: NodeMeta, m1: NodeMeta, lo: int, hi: int, x: MaybePortIndex) -> MaybePortIndex {
    if x.none() || !(os(m0) + lo <= x.i() < os(m0) + hi) { x } else { MaybePortIndex::some(PortIndex::mk(x.i() - os(m0) + os(m1))) }
}
#[verifier::opaque]
pub open spec fn shifting(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, m0: NodeMeta, m1: NodeMeta, lo: int, hi: int) -> bool {
    let d = os(m1) - os(m0);
    &&& pl.len() == pl1.len() && pm.len() == pm1.len()
    &&& forall|x: int| #![trigger pl[x]] #![trigger pl1[x]] 0 <= x < pl.len() && !area(m0, m1, x) ==> pl[x] == (if isp(pm1, x) { rp(m0, m1, lo, hi, pl1[x]) } else { pl1[x] })
    &&& forall|x: int| #![trigger pm[x]] #![trigger pm1[x]] 0 <= x < pm.len() && !area(m0, m1, x) ==> pm[x] == pm1[x]
    &&& forall|x: int| #![trigger cell_moved(pl1, pm1, pl, pm, m0, m1, lo, hi, x)] os(m0) <= x < os(m0) + on(m0, m1) ==> cell_moved(pl1, pm1, pl, pm, m0, m1, lo, hi, x)
}
pub open spec fn cell_moved(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, m0: NodeMeta, m1: NodeMeta, lo: int, hi: int, x: int) -> bool {
    let d = os(m1) - os(m0);
    if lo <= x - os(m0) < hi { pl[x + d] == pl1[x] && pm[x + d] == pm1[x] } else { pl[x] == pl1[x] && pm[x] == pm1[x] }
}
/// The output at x is now at x + d.
pub open spec fn off_at(pl1: Seq<MaybePortIndex>, pl2: Seq<MaybePortIndex>, d: int, x: int) -> bool { pl2[x + d] == pl1[x] }
pub open spec fn shift1(pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pl9: Seq<MaybePortIndex>, pm9: Seq<PortEntry>, u: int, v: int) -> bool {
    let p = pl.update(v, pl[u]);
    &&& pl9 == (if pl[u].none() { p } else { p.update(pl[u].i(), MaybePortIndex::some(PortIndex::mk(v))) })
    &&& pm9 == pm.update(v, pm[u])
}
pub open spec fn shift_ok(m0: NodeMeta, m1: NodeMeta, lo: int, hi: int, j: int) -> bool {
    let n = on(m0, m1);
    (os(m1) < os(m0) && lo == 0 && j == hi && 0 <= hi < n) || (os(m1) >= os(m0) && hi == n && j == lo - 1 && 0 < lo <= n)
}
/// Outputs that stay are not linked to the cells that are overwritten.
pub proof fn lemma_shift_link(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, u: int)
    requires ipre(pl1, pm1, n, m0, m1), os(m0) <= u < os(m0) + on(m0, m1),
    ensures u < pm1.len(), isp(pm1, u), pm1[u] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing)), linked(pl1, u) ==> link_at(pl1, pm1, u) && !area(m0, m1, pl1[u].i()) && pl1[u].wf() && pl1[u].i() < pm1.len(),
{
    assert(pm1[u] is Port);
    if linked(pl1, u) {
        assert(link_at(pl1, pm1, u));
        let y = pl1[u].i();
        assert(!pl1[y].none());
        lemma_mk(n, Direction::Outgoing); lemma_mk(n, Direction::Incoming);
        assert(pm1[y] is Port);
    }
}
pub proof fn lemma_shift_step(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pl9: Seq<MaybePortIndex>, pm9: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, lo: int, hi: int, j: int)
    requires ipre(pl1, pm1, n, m0, m1), shifting(pl1, pm1, pl, pm, m0, m1, lo, hi), shift_ok(m0, m1, lo, hi, j), shift1(pl, pm, pl9, pm9, os(m0) + j, os(m1) + j),
    ensures shifting(pl1, pm1, pl9, pm9, m0, m1, if j == hi { lo } else { lo - 1 }, if j == hi { hi + 1 } else { hi }),
{
    hide(mv); hide(links_ok);
    reveal(shifting);
    let lo9 = if j == hi { lo } else { lo - 1 };
    let hi9 = if j == hi { hi + 1 } else { hi };
    let d = os(m1) - os(m0);
    let u = os(m0) + j; let v = os(m1) + j;
    lemma_shift_link(pl1, pm1, n, m0, m1, u);
    assert(cell_moved(pl1, pm1, pl, pm, m0, m1, lo, hi, u));
    assert(pl[u] == pl1[u] && pm[u] == pm1[u]);
    let y = pl1[u].i();
    assert forall|x: int| #![trigger pl9[x]] #![trigger pl1[x]] 0 <= x < pl.len() && !area(m0, m1, x) implies pl9[x] == (if isp(pm1, x) { rp(m0, m1, lo9, hi9, pl1[x]) } else { pl1[x] }) by {
        assert(x != v);
        assert(pl[x] == (if isp(pm1, x) { rp(m0, m1, lo, hi, pl1[x]) } else { pl1[x] }));
        if isp(pm1, x) && linked(pl1, x) {
            assert(link_at(pl1, pm1, x)) by { reveal(links_ok); }
            if pl1[x].i() == u { assert(!pl1[u].none()); assert(pl1[u] == MaybePortIndex::some(PortIndex::mk(x))); assert(y == x); }
            else { assert(pl1[u].none() || y != x); assert(pl9[x] == pl[x]); }
        } else { assert(pl1[u].none() || y != x); assert(pl9[x] == pl[x]); }
    }
    assert forall|x: int| #![trigger cell_moved(pl1, pm1, pl9, pm9, m0, m1, lo9, hi9, x)] os(m0) <= x < os(m0) + on(m0, m1) implies cell_moved(pl1, pm1, pl9, pm9, m0, m1, lo9, hi9, x) by {
        assert(cell_moved(pl1, pm1, pl, pm, m0, m1, lo, hi, x));
        assert(area(m0, m1, x)); assert(area(m0, m1, x + d));
        lemma_shift_link(pl1, pm1, n, m0, m1, x);
    }
}
pub proof fn lemma_shift_at(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, lo: int, hi: int, j: int)
    requires ipre(pl1, pm1, n, m0, m1), shifting(pl1, pm1, pl, pm, m0, m1, lo, hi), shift_ok(m0, m1, lo, hi, j),
    ensures pl.len() == pm.len(), pl.len() <= max_ix() + 1, 0 <= os(m0) + j < pl.len(), 0 <= os(m1) + j < pl.len(), linked(pl, os(m0) + j) ==> pl[os(m0) + j].wf() && pl[os(m0) + j].i() < pl.len(),
{
    reveal(shifting);
    lemma_shift_link(pl1, pm1, n, m0, m1, os(m0) + j);
    assert(cell_moved(pl1, pm1, pl, pm, m0, m1, lo, hi, os(m0) + j));
}
pub proof fn lemma_shift_len(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta)
    requires ipre(pl1, pm1, n, m0, m1), exists|lo: int, hi: int| shifting(pl1, pm1, pl, pm, m0, m1, lo, hi),
    ensures pl.len() == pm.len(), m0.first() + m0.cap() <= pl.len() <= max_ix() + 1, m1.tot() <= m0.cap(), m0.tot() <= m0.cap(), m1.first() == m0.first(),
{ reveal(shifting); }
/// The cells lo..hi hold unlinked ports like e, the others are as before.
pub open spec fn set_to(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, lo: int, hi: int, e: PortEntry) -> bool {
    &&& pl.len() == pl0.len() && pm.len() == pm0.len()
    &&& forall|x: int| #![trigger pl[x]] #![trigger pl0[x]] 0 <= x < pl.len() ==> (if lo <= x < hi { pl[x].none() } else { pl[x] == pl0[x] })
    &&& forall|x: int| #![trigger pm[x]] #![trigger pm0[x]] 0 <= x < pm.len() ==> (if lo <= x < hi { pm[x] == e } else { pm[x] == pm0[x] })
}
pub open spec fn filled(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, a: int, b: int) -> bool {
    &&& pl.len() == pl0.len() && pm.len() == pm0.len()
    &&& forall|x: int| #![trigger pl[x]] #![trigger pl0[x]] 0 <= x < pl.len() ==> (if m1.first() + m0.inc() <= x < m1.first() + a || os(m1) + m0.out() <= x < os(m1) + b { pl[x].none() } else { pl[x] == pl0[x] })
    &&& forall|x: int| #![trigger pm[x]] #![trigger pm0[x]] 0 <= x < pm.len() ==> pm[x] == (
        if m1.first() + m0.inc() <= x < m1.first() + a { PortEntry::Port(PortMeta::mk(n, Direction::Incoming)) }
        else if os(m1) + m0.out() <= x < os(m1) + b { PortEntry::Port(PortMeta::mk(n, Direction::Outgoing)) }
        else { pm0[x] })
}
pub open spec fn fa(m0: NodeMeta, m1: NodeMeta, d: int, k: int) -> int { if d == 0 { m0.inc() + k } else { m1.inc() } }
pub open spec fn fb(m0: NodeMeta, m1: NodeMeta, d: int, k: int) -> int { if d == 0 { 0 } else if d == 1 { m0.out() + k } else { m1.out() } }
/// filled for direction d (0: inputs, 1: outputs) up to the k-th new port
pub open spec fn filling(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, d: int, k: int) -> bool {
    filled(pl0, pm0, pl, pm, n, m0, m1, fa(m0, m1, d, k), fb(m0, m1, d, k))
}
pub proof fn lemma_fill_start(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta)
    ensures filling(pl0, pm0, pl0, pm0, n, m0, m1, 0, 0),
{}
pub proof fn lemma_fill_dir(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, d: int, k: int)
    requires filling(pl0, pm0, pl, pm, n, m0, m1, d, k), 0 <= d <= 1, k == n_gone(if d == 0 { m1.inc() } else { m1.out() }, if d == 0 { m0.inc() } else { m0.out() }),
    ensures filling(pl0, pm0, pl, pm, n, m0, m1, d + 1, 0),
{}
pub proof fn lemma_fill_step(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pl9: Seq<MaybePortIndex>, pm9: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, dir: Direction, d: int, k: int)
    requires filling(pl0, pm0, pl, pm, n, m0, m1, d, k), d == (if dir == Direction::Incoming { 0int } else { 1 }), 0 <= k,
        m1.wf(), 0 <= m1.at(dir) + m0.num(dir) + k < pl.len(), pl.len() == pm.len(), d == 0 ==> m0.inc() + k < m1.inc(),
        pl9 == pl.update(m1.at(dir) + m0.num(dir) + k, pl9[m1.at(dir) + m0.num(dir) + k]), pl9[m1.at(dir) + m0.num(dir) + k].none(),
        pm9 == pm.update(m1.at(dir) + m0.num(dir) + k, PortEntry::Port(PortMeta::mk(n, dir))),
    ensures filling(pl0, pm0, pl9, pm9, n, m0, m1, d, k + 1),
{}
pub proof fn lemma_fill_len(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, d: int, k: int)
    requires filling(pl0, pm0, pl, pm, n, m0, m1, d, k),
    ensures pl.len() == pl0.len(), pm.len() == pm0.len(), d == 2 ==> filled(pl0, pm0, pl, pm, n, m0, m1, m1.inc(), m1.out()),
{}
pub proof fn lemma_set_start(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, lo: int, e: PortEntry)
    ensures set_to(pl0, pm0, pl0, pm0, lo, lo, e),
{}
pub proof fn lemma_set_step(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pl9: Seq<MaybePortIndex>, pm9: Seq<PortEntry>, lo: int, hi: int, e: PortEntry)
    requires set_to(pl0, pm0, pl, pm, lo, hi, e), 0 <= lo <= hi < pl.len(), pl.len() == pm.len(), pl9 == pl.update(hi, pl9[hi]), pl9[hi].none(), pm9 == pm.update(hi, e),
    ensures set_to(pl0, pm0, pl9, pm9, lo, hi + 1, e),
{}
pub proof fn lemma_set_len(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, lo: int, hi: int, e: PortEntry)
    requires set_to(pl0, pm0, pl, pm, lo, hi, e),
    ensures pl.len() == pl0.len(), pm.len() == pm0.len(), forall|h: int| h <= lo && hi <= lo ==> set_to(pl0, pm0, pl, pm, lo, h, e),
{}
/// What the cells hold at the end.
pub open spec fn cells(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta) -> bool {
    let f = m1.first();
    let d = os(m1) - os(m0);
    &&& pl2.len() == pl1.len() && pm2.len() == pm1.len()
    &&& forall|x: int| #![trigger pm2[x]] #![trigger pm1[x]] 0 <= x < pm1.len() && !(f <= x < f + m1.cap()) ==> pm2[x] == pm1[x]
    &&& forall|x: int| #![trigger pl2[x]] #![trigger pl1[x]] 0 <= x < pm1.len() && !(f + mn(m0.inc(), m1.inc()) <= x < f + m1.cap()) ==> pl2[x] == (if isp(pm1, x) { rp(m0, m1, 0, on(m0, m1), pl1[x]) } else { pl1[x] })
    &&& forall|x: int| #![trigger pm2[x]] f <= x < f + m1.inc() ==> pm2[x] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming))
    &&& forall|x: int| #![trigger pm2[x]] os(m1) <= x < os(m1) + m1.out() ==> pm2[x] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing))
    &&& forall|x: int| #![trigger pl2[x]] fresh(m0, m1, x) ==> pl2[x].none()
    &&& forall|x: int| #![trigger off_at(pl1, pl2, d, x)] os(m0) <= x < os(m0) + on(m0, m1) ==> off_at(pl1, pl2, d, x)
    &&& forall|x: int| #![trigger pm2[x]] #![trigger pl2[x]] f + m1.tot() <= x < f + m1.cap() ==> pm2[x] is Free && pl2[x].none()
}
pub proof fn lemma_cells(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl3: Seq<MaybePortIndex>, pm3: Seq<PortEntry>, pl4: Seq<MaybePortIndex>, pm4: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta)
    requires ipre(pl1, pm1, n, m0, m1), shifting(pl1, pm1, pl3, pm3, m0, m1, 0, on(m0, m1)), filled(pl3, pm3, pl4, pm4, n, m0, m1, m1.inc(), m1.out()),
        set_to(pl4, pm4, pl2, pm2, m1.first() + m1.tot(), m1.first() + m0.tot(), PortEntry::Free),
    ensures cells(pl1, pm1, pl2, pm2, n, m0, m1),
{
    hide(mv); hide(links_ok);
    reveal(shifting);
    let f = m1.first(); let d = os(m1) - os(m0);
    assert forall|x: int| #![trigger pm2[x]] #![trigger pm1[x]] 0 <= x < pm1.len() && !(f <= x < f + m1.cap()) implies pm2[x] == pm1[x] by { assert(pm3[x] == pm1[x]); assert(pm4[x] == pm3[x]); }
    assert forall|x: int| #![trigger pl2[x]] #![trigger pl1[x]] 0 <= x < pm1.len() && !(f + mn(m0.inc(), m1.inc()) <= x < f + m1.cap()) implies pl2[x] == (if isp(pm1, x) { rp(m0, m1, 0, on(m0, m1), pl1[x]) } else { pl1[x] }) by { assert(pl4[x] == pl3[x]); assert(pl3[x] == pl3[x]); }
    assert forall|x: int| #![trigger pm2[x]] f <= x < f + m1.inc() implies pm2[x] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming)) by {
        assert(pm4[x] == pm2[x]);
        if x < f + m0.inc() { assert(pm3[x] == pm4[x]); assert(pm3[x] == pm1[x]); }
    }
    assert forall|x: int| #![trigger pm2[x]] os(m1) <= x < os(m1) + m1.out() implies pm2[x] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing)) by {
        assert(pm4[x] == pm2[x]);
        if x < os(m1) + m0.out() { assert(pm3[x] == pm4[x]); assert(cell_moved(pl1, pm1, pl3, pm3, m0, m1, 0, on(m0, m1), x - d)); lemma_shift_link(pl1, pm1, n, m0, m1, x - d); assert(pm3[x] == pm1[x - d]); }
    }
    assert forall|x: int| #![trigger pl2[x]] fresh(m0, m1, x) implies pl2[x].none() by { assert(pl4[x].none()); }
    assert forall|x: int| #![trigger off_at(pl1, pl2, d, x)] os(m0) <= x < os(m0) + on(m0, m1) implies off_at(pl1, pl2, d, x) by { assert(cell_moved(pl1, pm1, pl3, pm3, m0, m1, 0, on(m0, m1), x)); assert(pl3[x + d] == pl1[x]); assert(pl4[x + d] == pl3[x + d]); }
    assert forall|x: int| #![trigger pm2[x]] #![trigger pl2[x]] f + m1.tot() <= x < f + m1.cap() implies pm2[x] is Free && pl2[x].none() by {
        if x >= f + m0.tot() {
            assert(pm1[x] is Free && pl1[x].none());
            assert(!area(m0, m1, x));
            assert(pm3[x] == pm1[x]); assert(pl3[x] == pl1[x]);
            assert(pm4[x] == pm3[x]); assert(pl4[x] == pl3[x]);
            assert(pm2[x] == pm4[x]); assert(pl2[x] == pl4[x]);
        } else { assert(pm2[x] == PortEntry::Free); assert(pl2[x].none()); }
    }
}
/// Links of ports that are neither removed nor outputs of n do not change.
pub proof fn lemma_cells_link(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta, p: int)
    requires ipre(pl1, pm1, n, m0, m1), cells(pl1, pm1, pl2, pm2, n, m0, m1), isp(pm1, p), mv(m0, m1, p) >= 0,
    ensures pl2[mv(m0, m1, p)] == mvl(m0, m1, pl1[p]), 0 <= mv(m0, m1, p) < pm1.len(), pm2[mv(m0, m1, p)] == pm1[p],
        os(m0) <= p < os(m0) + m0.out() ==> p < os(m0) + on(m0, m1) && mv(m0, m1, p) == p - os(m0) + os(m1),
        m1.first() <= p < m1.first() + m0.inc() ==> p < m1.first() + mn(m0.inc(), m1.inc()) && mv(m0, m1, p) == p,
        !(m1.first() <= p < m1.first() + m0.tot()) ==> mv(m0, m1, p) == p,
{
    assert(pm1[p] is Port); assert(pl1[p] == pl1[p]);
    let q = mv(m0, m1, p);
    if os(m0) <= p < os(m0) + on(m0, m1) { assert(off_at(pl1, pl2, os(m1) - os(m0), p)); }
    assert(pm2[q] == pm2[q]); assert(pl2[q] == pl2[q]);
    assert(pm2[q] == pm1[p]);
    if linked(pl1, p) {
        assert(link_at(pl1, pm1, p));
        let l = pl1[p].i();
        assert(!pl1[l].none());
        assert(mv(m0, m1, l) >= 0);
        assert(pm1[l] is Port);
        if os(m0) <= p < os(m0) + m0.out() { lemma_shift_link(pl1, pm1, n, m0, m1, p); assert(mv(m0, m1, l) == l); assert(PortIndex::mk(l) == PortIndex::mk(pl1[p].i())); assert(MaybePortIndex::some(PortIndex::mk(l)) == pl1[p]); }
        else if os(m0) <= l < os(m0) + m0.out() { assert(l < os(m0) + on(m0, m1)); }
        else { assert(mv(m0, m1, l) == l); assert(MaybePortIndex::some(PortIndex::mk(l)) == pl1[p]); }
    }
}
pub proof fn lemma_cells_counts(pl1: Seq<MaybePortIndex>, pm1: Seq<PortEntry>, pl2: Seq<MaybePortIndex>, pm2: Seq<PortEntry>, n: int, m0: NodeMeta, m1: NodeMeta)
    requires ipre(pl1, pm1, n, m0, m1), cells(pl1, pm1, pl2, pm2, n, m0, m1),
    ensures n_ports(pm2) == n_ports(pm1) - m0.tot() + m1.tot(), n_links(pl2, pm2) == n_links(pl1, pm1),
{
    hide(links_ok);
    lemma_mk(n, Direction::Outgoing); lemma_mk(n, Direction::Incoming);
    let f = pf_(pm1); let g = pf_(pm2); let s = m0.first(); let e = s + m0.cap(); let len = pm1.len() as int;
    assert forall|i: int| #![trigger f(i)] #![trigger g(i)] 0 <= i < len && !(s <= i < e) implies f(i) == g(i) by { assert(pm2[i] == pm1[i]); }
    cnt_range(f, g, 0, s, e, len);
    cnt_split(f, s, s + m0.tot(), e); cnt_split(g, s, s + m1.tot(), e);
    assert forall|i: int| #![trigger f(i)] s <= i < s + m0.tot() implies f(i) by { assert(pm1[i] is Port); }
    assert forall|i: int| #![trigger f(i)] s + m0.tot() <= i < e implies !f(i) by { assert(pm1[i] is Free); }
    assert forall|i: int| #![trigger g(i)] s <= i < s + m1.tot() implies g(i) by { assert(pm2[i] is Port); }
    assert forall|i: int| #![trigger g(i)] s + m1.tot() <= i < e implies !g(i) by { assert(pm2[i] is Free); }
    cnt_const(f, true, s, s + m0.tot()); cnt_const(f, false, s + m0.tot(), e);
    cnt_const(g, true, s, s + m1.tot()); cnt_const(g, false, s + m1.tot(), e);
    let h = lf(pl1, pm1); let k = lf(pl2, pm2); let o0 = os(m0); let o1 = os(m1); let c = on(m0, m1);
    assert forall|i: int| #![trigger h(i)] #![trigger k(i)] 0 <= i < len && !(s <= i < e) implies h(i) == k(i) by { assert(pm2[i] == pm1[i]); assert(pl2[i] == pl2[i]); }
    cnt_range(h, k, 0, s, e, len);
    cnt_split(h, s, o0, e); cnt_split(h, o0, o0 + c, e);
    cnt_split(k, s, o1, e); cnt_split(k, o1, o1 + c, e);
    assert forall|i: int| #![trigger h(i)] s <= i < o0 implies !h(i) by { assert(pm1[i] is Port); }
    assert forall|i: int| #![trigger k(i)] s <= i < o1 implies !k(i) by { assert(pm2[i] is Port); }
    assert forall|i: int| #![trigger h(i)] o0 + c <= i < e implies !h(i) by { assert(pm1[i] == pm1[i]); if isp(pm1, i) { assert(mv(m0, m1, i) < 0); assert(pl1[i].none()); } }
    assert forall|i: int| #![trigger k(i)] o1 + c <= i < e implies !k(i) by { assert(pm2[i] == pm2[i]); if i < o1 + m1.out() { assert(fresh(m0, m1, i)); assert(pl2[i].none()); } else { assert(pm2[i] is Free); } }
    cnt_const(h, false, s, o0); cnt_const(h, false, o0 + c, e);
    cnt_const(k, false, s, o1); cnt_const(k, false, o1 + c, e);
    assert forall|j: int| #![trigger h(o0 + j)] 0 <= j < c implies h(o0 + j) == k(o1 + j) by { let x = o0 + j; assert(pl1[x] == pl1[x]); assert(pm1[x] is Port); assert(pm2[o1 + j] is Port); assert(off_at(pl1, pl2, os(m1) - os(m0), x)); assert(pl2[x + (o1 - o0)] == pl1[x]); }
    cnt_shift(h, k, o0, o1, c);
}
/// The free slabs are untouched if none of their cells is.
pub proof fn lemma_pfree_cells(pl0: Seq<MaybePortIndex>, pm0: Seq<PortEntry>, pl: Seq<MaybePortIndex>, pm: Seq<PortEntry>, pf: Seq<MaybePortIndex>, w: Seq<Owner>)
    requires pfree_ok(pl0, pm0, pf, w), pm.len() == pm0.len(), pl.len() == pl0.len(),
        forall|x: int| #![trigger w[x]] 0 <= x < w.len() && w[x] is Slab ==> pl[x] == pl0[x] && pm[x] == pm0[x],
    ensures pfree_ok(pl, pm, pf, w),
{
    reveal(pfree_ok);
    assert forall|p: int| #![trigger w[p]] 0 <= p < w.len() implies (w[p] matches Owner::Slab(s, k) ==> slab_at(pm, pf, w, p, s, k)) by {
        if let Owner::Slab(s, k) = w[p] { assert(slab_at(pm0, pf, w, p, s, k)); }
    }
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) implies pl[p] == pl0[p] by { assert(w[p] is Slab); }
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) && linked(pl, p) implies next_ok(pl, pf, w, p) by { assert(next_ok(pl0, pf, w, p)); }
}
pub proof fn lemma_ipre(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int, m1: NodeMeta)
    requires g1.wf_ow(ow), g1.has_node(n), 0 <= n <= max_ix(), m1.wf(), m1.first() == g1.m(n).first(), m1.cap() == g1.m(n).cap(),
        detached(g0, g1, g1.m(n), m1.inc(), m1.out(), n_gone(g1.m(n).inc(), m1.inc()) + n_gone(g1.m(n).out(), m1.out())),
    ensures ipre(g1.port_link@, g1.port_meta@, n, g1.m(n), m1), shifting(g1.port_link@, g1.port_meta@, g1.port_link@, g1.port_meta@, g1.m(n), m1, 0, 0),
        shifting(g1.port_link@, g1.port_meta@, g1.port_link@, g1.port_meta@, g1.m(n), m1, on(g1.m(n), m1), on(g1.m(n), m1)),
        g1.m(n).first() + g1.m(n).cap() <= g1.port_meta@.len() <= max_ix() + 1, g1.port_link@.len() == g1.port_meta@.len(),
{
    lemma_wf_parts(g1, ow);
    lemma_node_ports(g1, ow, n);
    lemma_detached_end(g0, g1, ow, n, g1.m(n), m1);
    assert forall|p: int| #![trigger g1.port_link@[p]] isp(g1.port_meta@, p) && mv(g1.m(n), m1, p) < 0 implies g1.port_link@[p].none() by { assert(g1.port_meta@[p] == g1.port_meta@[p]); }
    reveal(shifting);
}
pub proof fn lemma_inplace(g1: PortGraph, gf: PortGraph, ow: Seq<Owner>, n: int, m1: NodeMeta)
    requires g1.wf_ow(ow), g1.has_node(n), 0 <= n <= max_ix(), ipre(g1.port_link@, g1.port_meta@, n, g1.m(n), m1), cells(g1.port_link@, g1.port_meta@, gf.port_link@, gf.port_meta@, n, g1.m(n), m1),
        m1.tot() > 0, m1.inc() <= PortOffset::max_o(), m1.out() <= PortOffset::max_o(),
        gf.node_meta@ == g1.node_meta@.update(n, NodeEntry::Node(m1)), gf.node_free == g1.node_free, gf.node_count == g1.node_count, gf.port_free == g1.port_free, gf.link_count == g1.link_count,
        gf.port_count == g1.port_count - g1.m(n).tot() + m1.tot(),
    ensures pre_resize(g1, gf, ow, ow, n, m1),
{
    let m0 = g1.m(n);
    let pl1 = g1.port_link@; let pm1 = g1.port_meta@; let pl2 = gf.port_link@; let pm2 = gf.port_meta@;
    lemma_wf_parts(g1, ow);
    lemma_node_ports(g1, ow, n);
    lemma_cells_counts(pl1, pm1, pl2, pm2, n, m0, m1);
    assert forall|i: int| #![trigger ow[i]] 0 <= i < pm1.len() && ow[i] != Owner::Node(n) implies pm2[i] == pm1[i] && !(m1.first() <= i < m1.first() + m1.cap()) && (pl1[i].none() ==> pl2[i].none()) && (!isp(pm1, i) ==> pl2[i] == pl1[i]) by {
        if m1.first() <= i < m1.first() + m1.cap() { lemma_slab_owner(g1, ow, n, i); }
        assert(pm2[i] == pm1[i]); assert(pl2[i] == pl2[i]);
    }
    assert forall|x: int| #![trigger ow[x]] 0 <= x < ow.len() && ow[x] is Slab implies pl2[x] == pl1[x] && pm2[x] == pm1[x] by {
        reveal(pfree_ok);
        if let Owner::Slab(s, k) = ow[x] { assert(slab_at(pm1, g1.port_free@, ow, x, s, k)); }
    }
    lemma_pfree_cells(pl1, pm1, pl2, pm2, g1.port_free@, ow);
    assert forall|p: int| #![trigger pm2[p]] isp(pm2, p) implies m1.first() <= p < m1.first() + m1.tot() || (isp(pm1, p) && !(m0.first() <= p < m0.first() + m0.tot())) by {}
    assert forall|p: int| #![trigger pm1[p]] isp(pm1, p) && !(m0.first() <= p < m0.first() + m0.tot()) implies pm2[p] == pm1[p] && !(m1.first() <= p < m1.first() + m1.tot()) by {}
    assert forall|p: int| #![trigger pm1[p]] isp(pm1, p) && mv(m0, m1, p) >= 0 implies pl2[mv(m0, m1, p)] == mvl(m0, m1, pl1[p]) by { lemma_cells_link(pl1, pm1, pl2, pm2, n, m0, m1, p); }
    assert forall|p: int| #![trigger pm1[p]] isp(pm1, p) && mv(m0, m1, p) < 0 implies pl1[p].none() by { assert(pl1[p] == pl1[p]); }
    assert(node_at(gf.node_meta@, pl2, pm2, ow, n)) by {
        assert forall|i: int| #![trigger ow[i]] m1.first() <= i < m1.first() + m1.cap() implies ow[i] == Owner::Node(n) by { lemma_slab_owner(g1, ow, n, i); }
    }
}
/// The calls for the outputs that move within the slab, forward or backward.
pub open spec fn out_at(m0: NodeMeta, m1: NodeMeta, fwd: bool, j: int) -> int { if fwd { j } else { on(m0, m1) - 1 - j } }
pub open spec fn out_log(m0: NodeMeta, m1: NodeMeta, fwd: bool, k: int) -> Seq<(PortIndex, PortOperation)> {
    Seq::new(k as nat, |j: int| (PortIndex::mk(os(m0) + out_at(m0, m1, fwd, j)), PortOperation::Moved { new_index: PortIndex::mk(os(m1) + out_at(m0, m1, fwd, j)) }))
}
pub proof fn lemma_out_mv(m0: NodeMeta, m1: NodeMeta, j: int)
    requires m0.wf(), m1.wf(), 0 <= j < on(m0, m1),
    ensures mv(m0, m1, os(m0) + j) == os(m1) + j, m0.first() <= os(m0) + j < m0.first() + m0.tot(),
{}
pub proof fn lemma_gone_rank(m0: NodeMeta, m1: NodeMeta, p: int) -> (j: int)
    requires m0.wf(), m1.wf(), m0.first() <= p < m0.first() + m0.tot(), mv(m0, m1, p) < 0,
    ensures 0 <= j < n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out()), gone_at(m0, m1.inc(), m1.out(), j) == p,
{
    let o = p - m0.first();
    if o < m0.inc() { o - m1.inc() } else { n_gone(m0.inc(), m1.inc()) + (o - m0.inc() - m1.out()) }
}
pub proof fn lemma_gone_facts(m0: NodeMeta, m1: NodeMeta, j: int)
    requires m0.wf(), m1.wf(), 0 <= j < n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out()),
    ensures m0.first() <= gone_at(m0, m1.inc(), m1.out(), j) < m0.first() + m0.tot(), mv(m0, m1, gone_at(m0, m1.inc(), m1.out(), j)) < 0,
        forall|i: int| #![trigger gone_at(m0, m1.inc(), m1.out(), i)] 0 <= i < n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out()) && gone_at(m0, m1.inc(), m1.out(), i) == gone_at(m0, m1.inc(), m1.out(), j) ==> i == j,
{}
pub proof fn lemma_calls2(g0: PortGraph, m0: NodeMeta, m1: NodeMeta, n: int, fwd: bool, l: Seq<(PortIndex, PortOperation)>)
    requires
        g0.wf(), g0.has_node(n), m0 == g0.m(n), m1.wf(), m0.first() == m1.first(), m1.first() + m1.tot() <= max_ix() + 1,
        if fwd { m1.inc() <= m0.inc() } else { m1.inc() >= m0.inc() },
        l == gone_log(g0, m0, m1.inc(), m1.out(), n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out())) + out_log(m0, m1, fwd, on(m0, m1)),
    ensures calls_ok(g0, m0, m1, l),
{
    hide(PortGraph::wf_ow); hide(gone_at); hide(gone); hide(mv);
    let c = n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out());
    let i1 = m1.inc(); let o1 = m1.out();
    lemma_node(g0, n);
    lemma_sym(g0);
    let gl = gone_log(g0, m0, i1, o1, c);
    let ol = out_log(m0, m1, fwd, on(m0, m1));
    assert forall|j: int| #![trigger l[j]] 0 <= j < l.len() implies call_ok(g0, m0, m1, l[j])
        && l[j].0.i() == (if j < c { gone_at(m0, i1, o1, j) } else { os(m0) + out_at(m0, m1, fwd, j - c) }) && l[j].0 == PortIndex::mk(l[j].0.i()) && (j < c <==> mv(m0, m1, l[j].0.i()) < 0) by {
        if j < c {
            lemma_gone_facts(m0, m1, j);
            let p = gone_at(m0, i1, o1, j);
            assert(g0.link(p) >= -1);
            assert(l[j] == gl[j]); let q = g0.link(p);
            if q >= 0 && gone(m0, i1, o1, j, q) { lemma_gone_mv(m0, m1, j, q); }
        } else {
            assert(l[j] == ol[j - c]);
            lemma_out_mv(m0, m1, out_at(m0, m1, fwd, j - c));
        }
    }
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies l[i].0 != l[j].0 by {
        if j < c { lemma_gone_facts(m0, m1, j); assert(gone_at(m0, i1, o1, i) != gone_at(m0, i1, o1, j)); }
    }
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies match l[i].1 { PortOperation::Moved { new_index } => new_index != l[j].0, _ => true } by {
        if i >= c { assert(l[i] == ol[i - c]); assert(l[j] == ol[j - c]); lemma_out_mv(m0, m1, out_at(m0, m1, fwd, i - c)); lemma_out_mv(m0, m1, out_at(m0, m1, fwd, j - c)); }
        else { assert(l[i] == gl[i]); }
    }
    assert forall|p: int| #![trigger mv(m0, m1, p)] m0.first() <= p < m0.first() + m0.tot() && mv(m0, m1, p) != p implies called(l, p) by {
        if mv(m0, m1, p) < 0 { let j = lemma_gone_rank(m0, m1, p); assert(l[j].0.i() == p); }
        else {
            reveal(mv);
            let o = p - os(m0);
            assert(0 <= o < on(m0, m1));
            let j = if fwd { c + o } else { c + on(m0, m1) - 1 - o };
            assert(l[j].0.i() == p);
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_inplace_end(g0: PortGraph, g1: PortGraph, g3: PortGraph, g4: PortGraph, gf: PortGraph, ow: Seq<Owner>, n: int, m1: NodeMeta, fwd: bool, lg0: Seq<(PortIndex, PortOperation)>, lg: Seq<(PortIndex, PortOperation)>)
    requires
        g0.wf(), g0.has_node(n), g0.m(n) == g1.m(n),
        g1.wf_ow(ow), g1.has_node(n), 0 <= n <= max_ix(),
        if fwd { m1.inc() <= g1.m(n).inc() } else { m1.inc() >= g1.m(n).inc() },
        m1.tot() > 0, m1.inc() <= PortOffset::max_o(), m1.out() <= PortOffset::max_o(),
        detached(g0, g1, g0.m(n), m1.inc(), m1.out(), n_gone(g0.m(n).inc(), m1.inc()) + n_gone(g0.m(n).out(), m1.out())),
        ipre(g1.port_link@, g1.port_meta@, n, g1.m(n), m1),
        shifting(g1.port_link@, g1.port_meta@, g3.port_link@, g3.port_meta@, g1.m(n), m1, 0, on(g1.m(n), m1)),
        filled(g3.port_link@, g3.port_meta@, g4.port_link@, g4.port_meta@, n, g1.m(n), m1, m1.inc(), m1.out()),
        set_to(g4.port_link@, g4.port_meta@, gf.port_link@, gf.port_meta@, m1.first() + m1.tot(), m1.first() + g1.m(n).tot(), PortEntry::Free),
        gf.node_meta@ == g1.node_meta@.update(n, NodeEntry::Node(m1)), gf.node_free == g1.node_free, gf.node_count == g1.node_count, gf.port_free == g1.port_free, gf.link_count == g1.link_count,
        gf.port_count == g1.port_count - g1.m(n).tot() + m1.tot(),
        lg == lg0 + gone_log(g0, g1.m(n), m1.inc(), m1.out(), n_gone(g1.m(n).inc(), m1.inc()) + n_gone(g1.m(n).out(), m1.out())) + out_log(g1.m(n), m1, fwd, on(g1.m(n), m1)),
    ensures gf.wf(), resized(g0, gf, n, m1.inc(), m1.out()), gf.m(n) == m1,
        exists|l: Seq<(PortIndex, PortOperation)>| lg == lg0 + l && #[trigger] calls_ok(g0, g0.m(n), m1, l),
{
    hide(mv); hide(links_ok); hide(mvl); hide(node_at); hide(PortGraph::wf_ow); hide(detached); hide(ipre); hide(cells); hide(filled); hide(set_to); hide(pre_resize); hide(resized); hide(calls_ok); hide(gone_log); hide(out_log);
    let m0 = g1.m(n);
    lemma_cells(g1.port_link@, g1.port_meta@, g3.port_link@, g3.port_meta@, g4.port_link@, g4.port_meta@, gf.port_link@, gf.port_meta@, n, m0, m1);
    lemma_inplace(g1, gf, ow, n, m1);
    lemma_resize3(g1, gf, ow, ow, n, m1);
    lemma_resize4(g0, g1, gf, ow, ow, n, m1);
    let l = gone_log(g0, m0, m1.inc(), m1.out(), n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out())) + out_log(m0, m1, fwd, on(m0, m1));
    assert(ipre(g1.port_link@, g1.port_meta@, n, m0, m1) ==> m1.wf() && m0.first() == m1.first() && m1.first() + m1.tot() <= max_ix() + 1) by { reveal(ipre); }
    lemma_calls2(g0, m0, m1, n, fwd, l);
    assert(lg =~= lg0 + l);
}
=== fn portgraph PortGraph::resize_ports_inplace closure=move_port as=resize__move_port
--- sig
fn resize__move_port<F: VCall<PortIndex, PortOperation>>(&mut self, rekey: &mut F, a0: (usize, usize))
--- spec
requires old(self).port_link.len() == old(self).port_meta.len(), old(self).port_link.len() <= max_ix() + 1, a0.0 < old(self).port_link.len(), a0.1 < old(self).port_link.len(),
    linked(old(self).port_link@, a0.0 as int) ==> old(self).port_link@[a0.0 as int].wf() && old(self).port_link@[a0.0 as int].i() < old(self).port_link.len(),
ensures
    shift1(old(self).port_link@, old(self).port_meta@, final(self).port_link@, final(self).port_meta@, a0.0 as int, a0.1 as int),
    final(self).node_meta == old(self).node_meta, final(self).port_free == old(self).port_free, final(self).node_free == old(self).node_free,
    final(self).node_count == old(self).node_count, final(self).port_count == old(self).port_count, final(self).link_count == old(self).link_count,
    final(rekey).log() == old(rekey).log().push((PortIndex::mk(a0.0 as int), PortOperation::Moved { new_index: PortIndex::mk(a0.1 as int) })),
=== fn portgraph PortGraph::resize_ports_inplace lift=move_port:self.resize__move_port:rekey
--- spec
requires old(self).wf(), node.wf(), limits(incoming as int, outgoing as int), old(self).has_node(node.i()), 1 <= incoming + outgoing <= old(self).m(node.i()).cap(),
ensures final(self).wf(), resized(*old(self), *final(self), node.i(), incoming as int, outgoing as int),
    exists|l: Seq<(PortIndex, PortOperation)>| final(rekey).log() == old(rekey).log() + l && #[trigger] calls_ok(*old(self), old(self).m(node.i()), final(self).m(node.i()), l),
--- attr
#[verifier::rlimit(120)]
--- hint start
hide(PortGraph::wf_ow); hide(detached); hide(ipre); hide(cells); hide(pre_resize); hide(resized); hide(calls_ok); hide(links_ok); hide(mv); hide(gone_link); hide(gone_at); hide(node_at); hide(shift1); hide(set_to); hide(filling); hide(filled);
let ghost g0 = *self;
let ghost lg0 = rekey.log();
let ghost n = node.i();
let ghost in_ = incoming as int;
let ghost out_ = outgoing as int;
proof { lemma_node(g0, n); lemma_node_ports(g0, choose|ow: Seq<Owner>| g0.wf_ow(ow), n); lemma_count_bounds(g0); }
--- hint before loop0
proof { lemma_gone_seq(node_meta, in_, out_, __all0); lemma_detached0(g0, *self, node_meta, in_, out_); assert(gone_log(g0, node_meta, in_, out_, 0) =~= Seq::empty()); }
--- loop 0
invariant
    $it.ok(), $it.rest().len() <= $all.len(), $it.rest() == $all.skip($all.len() - $it.rest().len()),
    self.wf(), same_frame(g0, *self),
    detached(g0, *self, node_meta, in_, out_, $all.len() - $it.rest().len()),
    rekey.log() == old(rekey).log() + gone_log(g0, node_meta, in_, out_, $all.len() - $it.rest().len()),
--- hint loop0.start
let ghost g1 = *self;
let ghost k = __all0.len() - __it0.rest().len() - 1;
proof { assert(port == __all0[k]); lemma_gone_ix(g0, n, node_meta, in_, out_, k); }
--- hint loop0.end
proof {
    let q = g1.link(port.i());
    lemma_sym(g1);
    lemma_gone_step(g0, g1, *self, node_meta, in_, out_, k, q);
    assert(old_link == gone_link(g0, node_meta, in_, out_, k));
    assert(rekey.log() =~= old(rekey).log() + gone_log(g0, node_meta, in_, out_, k + 1));
}
--- hint before let:pairs#0
let ghost g1 = *self;
let ghost ow = choose|ow: Seq<Owner>| g1.wf_ow(ow);
let ghost lg = rekey.log();
let ghost fwd = node_meta.inc() > in_;
proof { lemma_ipre(g0, g1, ow, n, new_meta); assert(out_log(node_meta, new_meta, fwd, 0) =~= Seq::empty()); }
--- loop 1
invariant
    $it.rest().len() <= $all.len(), $it.rest() == $all.skip($all.len() - $it.rest().len()),
    $all.len() == on(node_meta, new_meta), forall|j: int| #![trigger $all[j]] 0 <= j < $all.len() ==> $all[j].0 == os(node_meta) + j && $all[j].1 == os(new_meta) + j,
    shifting(g1.port_link@, g1.port_meta@, self.port_link@, self.port_meta@, node_meta, new_meta, 0, $all.len() - $it.rest().len()),
    self.node_meta == g1.node_meta, self.port_free == g1.port_free, self.node_free == g1.node_free,
    self.node_count == g1.node_count, self.port_count == g1.port_count, self.link_count == g1.link_count,
    rekey.log() == lg + out_log(node_meta, new_meta, true, $all.len() - $it.rest().len()),
--- hint loop1.start
let ghost pl3 = self.port_link@;
let ghost pm3 = self.port_meta@;
let ghost k2 = __all1.len() - __it1.rest().len() - 1;
proof { assert(__x == __all1[k2]); lemma_shift_at(g1.port_link@, g1.port_meta@, pl3, pm3, n, node_meta, new_meta, 0, k2, k2); }
--- hint loop1.end
proof {
    lemma_shift_step(g1.port_link@, g1.port_meta@, pl3, pm3, self.port_link@, self.port_meta@, n, node_meta, new_meta, 0, k2, k2);
    assert(rekey.log() =~= lg + out_log(node_meta, new_meta, true, k2 + 1));
}
--- loop 2
invariant
    $it.rest().len() <= $all.len(), $it.rest() == $all.skip($all.len() - $it.rest().len()),
    $all.len() == on(node_meta, new_meta), forall|j: int| #![trigger $all[j]] 0 <= j < $all.len() ==> $all[j].0 == os(node_meta) + ($all.len() - 1 - j) && $all[j].1 == os(new_meta) + ($all.len() - 1 - j),
    shifting(g1.port_link@, g1.port_meta@, self.port_link@, self.port_meta@, node_meta, new_meta, $it.rest().len() as int, on(node_meta, new_meta)),
    self.node_meta == g1.node_meta, self.port_free == g1.port_free, self.node_free == g1.node_free,
    self.node_count == g1.node_count, self.port_count == g1.port_count, self.link_count == g1.link_count,
    rekey.log() == lg + out_log(node_meta, new_meta, false, $all.len() - $it.rest().len()),
--- hint loop2.start
let ghost pl3 = self.port_link@;
let ghost pm3 = self.port_meta@;
let ghost k2 = __all2.len() - __it2.rest().len() - 1;
let ghost r2 = __it2.rest().len() as int;
proof { assert(__x == __all2[k2]); lemma_shift_at(g1.port_link@, g1.port_meta@, pl3, pm3, n, node_meta, new_meta, r2 + 1, on(node_meta, new_meta), r2); }
--- hint loop2.end
proof {
    lemma_shift_step(g1.port_link@, g1.port_meta@, pl3, pm3, self.port_link@, self.port_meta@, n, node_meta, new_meta, r2 + 1, on(node_meta, new_meta), r2);
    assert(rekey.log() =~= lg + out_log(node_meta, new_meta, false, k2 + 1));
}
--- hint before for:dir#0
let ghost g3 = *self;
proof { lemma_shift_len(g1.port_link@, g1.port_meta@, g3.port_link@, g3.port_meta@, n, node_meta, new_meta); lemma_fill_start(g3.port_link@, g3.port_meta@, n, node_meta, new_meta); }
--- loop 3
invariant
    $all.len() == 2, $all[0] == Direction::Incoming, $all[1] == Direction::Outgoing,
    $it.rest().len() <= 2, $it.rest() == $all.skip(2 - $it.rest().len()),
    filling(g3.port_link@, g3.port_meta@, self.port_link@, self.port_meta@, n, node_meta, new_meta, 2 - $it.rest().len(), 0),
    self.node_meta == g1.node_meta, self.port_free == g1.port_free, self.node_free == g1.node_free,
    self.node_count == g1.node_count, self.port_count == g1.port_count, self.link_count == g1.link_count,
--- hint loop3.start
let ghost d3 = 1 - __it3.rest().len();
--- loop 4
invariant
    $it.rest().len() <= $all.len(), $it.rest() == $all.skip($all.len() - $it.rest().len()),
    forall|j: int| #![trigger $all[j]] 0 <= j < $all.len() ==> $all[j] == new_meta.at(dir) + node_meta.num(dir) + j,
    $all.len() == n_gone(new_meta.num(dir), node_meta.num(dir)),
    filling(g3.port_link@, g3.port_meta@, self.port_link@, self.port_meta@, n, node_meta, new_meta, d3, $all.len() - $it.rest().len()),
    self.node_meta == g1.node_meta, self.port_free == g1.port_free, self.node_free == g1.node_free,
    self.node_count == g1.node_count, self.port_count == g1.port_count, self.link_count == g1.link_count,
--- hint loop4.start
let ghost pl4 = self.port_link@;
let ghost pm4 = self.port_meta@;
let ghost k4 = __all4.len() - __it4.rest().len() - 1;
proof { assert(port == __all4[k4]); lemma_fill_len(g3.port_link@, g3.port_meta@, pl4, pm4, n, node_meta, new_meta, d3, k4); }
--- hint loop4.end
proof { lemma_fill_step(g3.port_link@, g3.port_meta@, pl4, pm4, self.port_link@, self.port_meta@, n, node_meta, new_meta, dir, d3, k4); }
--- hint loop3.end
proof { lemma_fill_dir(g3.port_link@, g3.port_meta@, self.port_link@, self.port_meta@, n, node_meta, new_meta, d3, n_gone(new_meta.num(dir), node_meta.num(dir))); }
--- hint before for:port_offset#0
let ghost g4 = *self;
proof {
    lemma_fill_len(g3.port_link@, g3.port_meta@, g4.port_link@, g4.port_meta@, n, node_meta, new_meta, 2, 0);
    lemma_set_start(g4.port_link@, g4.port_meta@, new_meta.first() + new_meta.tot(), PortEntry::Free);
}
--- loop 5
invariant
    set_to(g4.port_link@, g4.port_meta@, self.port_link@, self.port_meta@, new_meta.first() + new_meta.tot(), new_meta.first() + $it.start, PortEntry::Free),
    $it.end == node_meta.tot(), new_meta.tot() <= $it.start, $it.start <= new_meta.tot() || $it.start <= $it.end,
    self.node_meta == g1.node_meta, self.port_free == g1.port_free, self.node_free == g1.node_free,
    self.node_count == g1.node_count, self.port_count == g1.port_count, self.link_count == g1.link_count,
--- hint loop5.start
let ghost pl5 = self.port_link@;
let ghost pm5 = self.port_meta@;
let ghost k5 = new_meta.first() + __it5.start - 1;
proof { lemma_set_len(g4.port_link@, g4.port_meta@, pl5, pm5, new_meta.first() + new_meta.tot(), k5, PortEntry::Free); }
--- hint loop5.end
proof { lemma_set_step(g4.port_link@, g4.port_meta@, pl5, pm5, self.port_link@, self.port_meta@, new_meta.first() + new_meta.tot(), k5, PortEntry::Free); }
--- hint after for:port_offset#0
proof { lemma_set_len(g4.port_link@, g4.port_meta@, self.port_link@, self.port_meta@, new_meta.first() + new_meta.tot(), if new_meta.tot() <= node_meta.tot() { new_meta.first() + node_meta.tot() } else { new_meta.first() + new_meta.tot() }, PortEntry::Free); }
--- hint end
proof { lemma_inplace_end(g0, g1, g3, g4, *self, ow, n, new_meta, fwd, lg0, rekey.log()); }
=== fn portgraph PortGraph::set_num_ports
--- spec
requires old(self).wf(), node.wf(), limits(incoming as int, outgoing as int), old(self).port_meta.len() + 2 * (incoming + outgoing) <= max_ix() + 1,
ensures final(self).wf(),
    !old(self).has_node(node.i()) ==> *final(self) == *old(self) && final(rekey).log() == old(rekey).log(),
    old(self).has_node(node.i()) ==> resized(*old(self), *final(self), node.i(), incoming as int, outgoing as int),
    old(self).has_node(node.i()) ==> exists|l: Seq<(PortIndex, PortOperation)>| final(rekey).log() == old(rekey).log() + l && #[trigger] calls_ok(*old(self), old(self).m(node.i()), final(self).m(node.i()), l),
--- attr
#[verifier::rlimit(120)]
--- hint start
hide(PortGraph::wf_ow); hide(detached); hide(slabs); hide(pre_realloc); hide(pre_resize); hide(resized); hide(calls_ok); hide(moved1); hide(freed); hide(slab_new); hide(links_ok); hide(mv); hide(gone_link); hide(gone_at); hide(node_at);
let ghost g0 = *self;
let ghost lg0 = rekey.log();
let ghost n = node.i();
let ghost in_ = incoming as int;
let ghost out_ = outgoing as int;
proof { if g0.has_node(n) { lemma_node(g0, n); lemma_node_ports(g0, choose|ow: Seq<Owner>| g0.wf_ow(ow), n); } lemma_count_bounds(g0); }
--- hint before return#1
proof { lemma_resize_same(g0, n); }
--- hint before loop0
proof { lemma_gone_seq(node_meta, in_, out_, __all0); lemma_detached0(g0, *self, node_meta, in_, out_); assert(gone_log(g0, node_meta, in_, out_, 0) =~= Seq::empty()); }
--- loop 0
invariant
    $it.ok(), $it.rest().len() <= $all.len(), $it.rest() == $all.skip($all.len() - $it.rest().len()),
    self.wf(), same_frame(g0, *self),
    detached(g0, *self, node_meta, in_, out_, $all.len() - $it.rest().len()),
    rekey.log() == old(rekey).log() + gone_log(g0, node_meta, in_, out_, $all.len() - $it.rest().len()),
--- hint loop0.start
let ghost g1 = *self;
let ghost k = __all0.len() - __it0.rest().len() - 1;
proof { assert(port == __all0[k]); lemma_gone_ix(g0, n, node_meta, in_, out_, k); }
--- hint loop0.end
proof {
    let q = g1.link(port.i());
    lemma_sym(g1);
    lemma_gone_step(g0, g1, *self, node_meta, in_, out_, k, q);
    assert(old_link == gone_link(g0, node_meta, in_, out_, k));
    assert(rekey.log() =~= old(rekey).log() + gone_log(g0, node_meta, in_, out_, k + 1));
}
--- hint before let:target_capacity#0
let ghost g1 = *self;
let ghost ow = choose|ow: Seq<Owner>| g1.wf_ow(ow);
proof { lemma_node_ports(g1, ow, n); lemma_wf_parts(g1, ow); }
--- hint after alloc_ports#0
let ghost g2 = *self;
proof {
    assert(pfree_ok(g1.port_link@, g1.port_meta@, g1.port_free@, ow));
    lemma_alloced(g1, g2, ow, n, new_meta);
    assert(moved_log(node_meta, new_meta, 0) =~= Seq::empty());
}
let ghost lg = rekey.log();
let ghost ka = mn(node_meta.inc(), new_meta.inc());
let ghost kb = mn(node_meta.out(), new_meta.out());
--- loop 1
invariant
    $all.len() == 2, $all[0] == Direction::Incoming, $all[1] == Direction::Outgoing,
    $it.rest().len() <= 2, $it.rest() == $all.skip(2 - $it.rest().len()),
    self.port_meta@ == g2.port_meta@, links_ok(self.port_link@, self.port_meta@), n_links(self.port_link@, self.port_meta@) == self.link_count,
    moving(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, self.port_link@, node_meta, new_meta, (if $it.rest().len() < 2 { ka } else { 0 }), (if $it.rest().len() < 1 { kb } else { 0 })),
    self.node_meta == g2.node_meta, self.port_free == g2.port_free, self.node_free == g2.node_free,
    self.node_count == g2.node_count, self.port_count == g2.port_count, self.link_count == g2.link_count, self.port_link.len() == g2.port_link.len(),
    rekey.log() == lg + moved_log(node_meta, new_meta, (if $it.rest().len() < 2 { ka } else { 0 }) + (if $it.rest().len() < 1 { kb } else { 0 })),
--- loop 2
invariant
    $it.rest().len() <= $all.len(), $it.rest() == $all.skip($all.len() - $it.rest().len()),
    $all.len() == (if dir == Direction::Incoming { ka } else { kb }),
    forall|j: int| #![trigger $all[j]] 0 <= j < $all.len() ==> $all[j].0 == node_meta.at(dir) + j && $all[j].1 == new_meta.at(dir) + j,
    self.port_meta@ == g2.port_meta@, links_ok(self.port_link@, self.port_meta@), n_links(self.port_link@, self.port_meta@) == self.link_count,
    moving(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, self.port_link@, node_meta, new_meta, (if dir == Direction::Outgoing { ka } else { $all.len() - $it.rest().len() }), (if dir == Direction::Outgoing { $all.len() - $it.rest().len() } else { 0 })),
    self.node_meta == g2.node_meta, self.port_free == g2.port_free, self.node_free == g2.node_free,
    self.node_count == g2.node_count, self.port_count == g2.port_count, self.link_count == g2.link_count, self.port_link.len() == g2.port_link.len(),
    rekey.log() == lg + moved_log(node_meta, new_meta, (if dir == Direction::Outgoing { ka } else { 0 }) + $all.len() - $it.rest().len()),
--- hint loop2.start
let ghost pl3 = self.port_link@;
let ghost k2 = __all2.len() - __it2.rest().len() - 1;
proof {
    assert((old, new) == __all2[k2]);
    lemma_moving_facts(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, node_meta, new_meta,
        if dir == Direction::Outgoing { ka } else { k2 }, if dir == Direction::Outgoing { k2 } else { 0 },
        if dir == Direction::Outgoing { ka } else { k2 + 1 }, if dir == Direction::Outgoing { k2 + 1 } else { 0 }, old as int, new as int);
    lemma_moved_at(node_meta, new_meta, if dir == Direction::Outgoing { ka + k2 } else { k2 });
    if linked(pl3, old as int) { assert(link_at(pl3, g2.port_meta@, old as int)) by { reveal(links_ok); } }
}
--- hint loop2.end
proof {
    assert(self.port_meta@ =~= g2.port_meta@);
    assert(moved1(pl3, self.port_link@, old as int, new as int)) by {
        reveal(moved1);
        let x = pl3[old as int];
        let p = if x.none() { pl3 } else { pl3.update(x.i(), MaybePortIndex::some(PortIndex::mk(new as int))) };
        assert(self.port_link@ =~= p.update(old as int, MaybePortIndex::spec_none()).update(new as int, p[old as int]));
    }
    lemma_moving_step(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, pl3, self.port_link@, n, node_meta, new_meta,
        if dir == Direction::Outgoing { ka } else { k2 }, if dir == Direction::Outgoing { k2 } else { 0 },
        if dir == Direction::Outgoing { ka } else { k2 + 1 }, if dir == Direction::Outgoing { k2 + 1 } else { 0 }, old as int, new as int);
    assert(rekey.log() =~= lg + moved_log(node_meta, new_meta, (if dir == Direction::Outgoing { ka } else { 0 }) + k2 + 1));
}
--- hint before free_ports#0
let ghost ga = *self;
proof {
    lemma_detached_end(g0, g1, ow, n, node_meta, new_meta);
    assert forall|i: int| #![trigger self.port_link@[i]] old_first_port.i() <= i < old_first_port.i() + old_capacity implies self.port_link@[i].none() by {
        lemma_old_slab(g1, g2, ga.port_link@, ow, n, new_meta, i);
    }
}
--- hint after free_ports#0
let ghost gb = *self;
--- hint end
proof {
    lemma_realloc_end(g0, g1, g2, ga, gb, *self, ow, n, new_meta, lg0, rekey.log());
}
=== raw realloc_more
pub proof fn lemma_resize_same(g: PortGraph, n: int)
    requires g.wf(), g.has_node(n),
    ensures resized(g, g, n, g.m(n).inc(), g.m(n).out()), calls_ok(g, g.m(n), g.m(n), Seq::empty()), forall|l: Seq<(PortIndex, PortOperation)>| #![trigger l + Seq::<(PortIndex, PortOperation)>::empty()] l + Seq::empty() == l,
{
    lemma_sym(g);
    assert forall|l: Seq<(PortIndex, PortOperation)>| #![trigger l + Seq::<(PortIndex, PortOperation)>::empty()] l + Seq::empty() == l by { assert(l + Seq::empty() =~= l); }
}
pub proof fn lemma_slabs(g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, n: int, m1: NodeMeta)
    requires g1.wf_ow(ow), g1.has_node(n), m1.wf(), slab_new(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, m1), g2.port_meta@.len() <= max_ix() + 1,
        forall|i: int| #![trigger ow[i]] m1.first() <= i < m1.first() + m1.cap() && i < ow.len() ==> ow[i] is Slab,
    ensures slabs(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, g1.m(n), m1),
{
    lemma_node_ports(g1, ow, n);
    reveal(pfree_ok);
    let m0 = g1.m(n);
    if m0.cap() > 0 && m1.cap() > 0 {
        assert(ow[m0.first()] == Owner::Node(n));
        assert(ow[m0.first() + m0.cap() - 1] == Owner::Node(n));
        if m0.first() < m1.first() + m1.cap() && m1.first() < m0.first() + m0.cap() {
            let x = if m0.first() < m1.first() { m1.first() } else { m0.first() };
            assert(ow[x] == Owner::Node(n));
        }
    }
}
pub proof fn lemma_detached_end(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int, m0: NodeMeta, m1: NodeMeta)
    requires g1.wf_ow(ow), g1.has_node(n), m0 == g1.m(n), detached(g0, g1, m0, m1.inc(), m1.out(), n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out())), m1.wf(),
    ensures forall|p: int| #![trigger g1.port_meta@[p]] isp(g1.port_meta@, p) && mv(m0, m1, p) < 0 ==> g1.port_link@[p].none(),
{
    lemma_node_ports(g1, ow, n);
    lemma_sym(g1);
    assert forall|p: int| #![trigger g1.port_meta@[p]] isp(g1.port_meta@, p) && mv(m0, m1, p) < 0 implies g1.port_link@[p].none() by { assert(g1.link(p) == -1); }
}
/// Moving links between ports leaves the free slabs alone.
pub proof fn lemma_other_slabs(g2: PortGraph, ga: PortGraph, w: Seq<Owner>)
    requires pfree_ok(g2.port_link@, g2.port_meta@, g2.port_free@, w), ga.port_meta@ == g2.port_meta@, ga.port_free == g2.port_free, ga.port_link@.len() == g2.port_link@.len(),
        forall|x: int| #![trigger ga.port_link@[x]] !isp(g2.port_meta@, x) ==> ga.port_link@[x] == g2.port_link@[x],
    ensures pfree_ok(ga.port_link@, ga.port_meta@, ga.port_free@, w),
{
    reveal(pfree_ok);
    let pl = ga.port_link@; let pl0 = g2.port_link@; let pm = g2.port_meta@; let pf = ga.port_free@;
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) implies pl[p] == pl0[p] by {
        assert(slab_at(pm, g2.port_free@, w, p, p, w[p]->Slab_1));
        assert(pm[p] is Free);
    }
    assert forall|p: int| #![trigger is_head(w, p)] is_head(w, p) && linked(pl, p) implies next_ok(pl, pf, w, p) by { assert(next_ok(pl0, pf, w, p)); }
}
pub proof fn lemma_detached0(g0: PortGraph, g: PortGraph, m: NodeMeta, inc: int, out: int)
    requires g == g0, m.wf(), 0 <= inc, 0 <= out,
    ensures detached(g0, g, m, inc, out, 0),
{}
pub proof fn lemma_gone_ix(g: PortGraph, n: int, m: NodeMeta, inc: int, out: int, j: int)
    requires g.wf(), g.has_node(n), m == g.m(n), 0 <= inc, 0 <= out, 0 <= j < n_gone(m.inc(), inc) + n_gone(m.out(), out),
    ensures 0 <= gone_at(m, inc, out, j) <= max_ix(), PortIndex::mk(gone_at(m, inc, out, j)).i() == gone_at(m, inc, out, j), PortIndex::mk(gone_at(m, inc, out, j)).wf(),
{ lemma_node(g, n); }
pub proof fn lemma_wf_parts(g: PortGraph, ow: Seq<Owner>)
    requires g.wf_ow(ow),
    ensures g.wf(), pfree_ok(g.port_link@, g.port_meta@, g.port_free@, ow), links_ok(g.port_link@, g.port_meta@), g.port_link@.len() == g.port_meta@.len(), g.port_meta@.len() <= max_ix() + 1,
        g.link_count == n_links(g.port_link@, g.port_meta@), g.port_count == n_ports(g.port_meta@),
{}
pub proof fn lemma_alloced(g1: PortGraph, g2: PortGraph, ow: Seq<Owner>, n: int, m1: NodeMeta)
    requires g1.wf_ow(ow), g1.has_node(n), 0 <= n <= max_ix(), m1.wf(), slab_new(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, m1), g1.port_meta@.len() + m1.cap() <= max_ix() + 1,
        forall|i: int| #![trigger ow[i]] m1.first() <= i < m1.first() + m1.cap() && i < ow.len() ==> ow[i] is Slab,
    ensures slabs(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, g1.m(n), m1),
        moving(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, g2.port_link@, g1.m(n), m1, 0, 0),
        links_ok(g2.port_link@, g2.port_meta@), n_links(g2.port_link@, g2.port_meta@) == n_links(g1.port_link@, g1.port_meta@),
        g2.port_link@.len() == g2.port_meta@.len(), g2.port_meta@.len() <= max_ix() + 1, g1.port_meta@.len() <= g2.port_meta@.len(), m1.first() + m1.cap() <= g2.port_meta@.len(),
        g1.m(n).first() + g1.m(n).cap() <= g1.port_meta@.len(),
{
    lemma_wf_parts(g1, ow);
    lemma_slabs(g1, g2, ow, n, m1);
    lemma_slab_counts(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, m1);
    lemma_moving_start(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, g1.m(n), m1);
}
pub proof fn lemma_moved_at(m0: NodeMeta, m1: NodeMeta, j: int)
    requires 0 <= j < mn(m0.inc(), m1.inc()) + mn(m0.out(), m1.out()), m0.wf(), m1.wf(),
    ensures
        j < mn(m0.inc(), m1.inc()) ==> moved_at(m0, m1, j) == m0.first() + j && mv(m0, m1, m0.first() + j) == m1.first() + j,
        j >= mn(m0.inc(), m1.inc()) ==> moved_at(m0, m1, j) == m0.first() + m0.inc() + (j - mn(m0.inc(), m1.inc())) && mv(m0, m1, moved_at(m0, m1, j)) == m1.first() + m1.inc() + (j - mn(m0.inc(), m1.inc())),
{}
pub proof fn lemma_slab_owner(g: PortGraph, ow: Seq<Owner>, n: int, i: int)
    requires g.wf_ow(ow), g.has_node(n), g.m(n).first() <= i < g.m(n).first() + g.m(n).cap(),
    ensures ow[i] == Owner::Node(n),
{ lemma_node_ports(g, ow, n); }
#[verifier::spinoff_prover]
pub proof fn lemma_realloc_end(g0: PortGraph, g1: PortGraph, g2: PortGraph, ga: PortGraph, gb: PortGraph, gf: PortGraph, ow: Seq<Owner>, n: int, m1: NodeMeta, lg0: Seq<(PortIndex, PortOperation)>, lg: Seq<(PortIndex, PortOperation)>)
    requires
        g0.wf(), g0.has_node(n), g0.m(n) == g1.m(n),
        g1.wf_ow(ow), g1.has_node(n), 0 <= n <= max_ix(),
        detached(g0, g1, g0.m(n), m1.inc(), m1.out(), n_gone(g0.m(n).inc(), m1.inc()) + n_gone(g0.m(n).out(), m1.out())),
        slabs(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, n, g1.m(n), m1),
        taken(g1, g2, n, m1),
        g1.m(n).first() + g1.m(n).cap() <= g1.port_meta@.len() <= g2.port_meta@.len(), m1.first() + m1.cap() <= g2.port_meta@.len() <= max_ix() + 1,
        m1.wf(), m1.tot() == 0 ==> m1.cap() == 0, m1.inc() <= PortOffset::max_o(), m1.out() <= PortOffset::max_o(),
        ga.port_meta@ == g2.port_meta@, ga.port_free == g2.port_free, ga.port_link@.len() == g2.port_link@.len(),
        moving(g1.port_link@, g1.port_meta@, g2.port_link@, g2.port_meta@, ga.port_link@, g1.m(n), m1, mn(g1.m(n).inc(), m1.inc()), mn(g1.m(n).out(), m1.out())),
        links_ok(ga.port_link@, ga.port_meta@),
        freed(ga.port_link@, ga.port_meta@, gb.port_link@, gb.port_meta@, g1.m(n).first(), g1.m(n).first() + g1.m(n).cap()),
        gb.link_count == n_links(gb.port_link@, gb.port_meta@),
        given_back(ga, gb, g1.m(n).first(), g1.m(n).cap()),
        gb.node_meta@ == g1.node_meta@.update(n, NodeEntry::Node(m1)), gb.node_free == g1.node_free, gb.node_count == g1.node_count, gb.port_count == g1.port_count,
        gf == (PortGraph { port_count: gf.port_count, ..gb }),
        gf.port_count == gb.port_count - g1.m(n).tot() + m1.tot(),
        lg == lg0 + gone_log(g0, g1.m(n), m1.inc(), m1.out(), n_gone(g1.m(n).inc(), m1.inc()) + n_gone(g1.m(n).out(), m1.out()))
            + moved_log(g1.m(n), m1, mn(g1.m(n).inc(), m1.inc()) + mn(g1.m(n).out(), m1.out())),
    ensures gf.wf(), resized(g0, gf, n, m1.inc(), m1.out()), gf.m(n) == m1,
        exists|l: Seq<(PortIndex, PortOperation)>| lg == lg0 + l && #[trigger] calls_ok(g0, g0.m(n), m1, l),
{
    hide(mv); hide(slab_new); hide(calls_ok); hide(resized);
    let m0 = g1.m(n);
    lemma_wf_parts(g1, ow);
    lemma_node_ports(g1, ow, n);
    lemma_detached_end(g0, g1, ow, n, m0, m1);
    let w1 = give(ow, m1.first(), m1.cap(), Owner::Node(n), g2.port_meta@.len() as int);
    let w = give(w1, m0.first(), m0.cap(), Owner::Slab(m0.first(), m0.cap()), g2.port_meta@.len() as int);
    assert(pfree_ok(g2.port_link@, g2.port_meta@, g2.port_free@, w1));
    assert forall|x: int| #![trigger ga.port_link@[x]] !isp(g2.port_meta@, x) implies ga.port_link@[x] == g2.port_link@[x] by { reveal(moving); }
    lemma_other_slabs(g2, ga, w1);
    assert forall|i: int| #![trigger w1[i]] m0.first() <= i < m0.first() + m0.cap() implies !(w1[i] is Slab) by { lemma_slab_owner(g1, ow, n, i); }
    assert(pfree_ok(gb.port_link@, gb.port_meta@, gb.port_free@, w));
    assert(pre_realloc(g1, g2, ga, gf, ow, n, m1));
    lemma_realloc(g1, g2, ga, gf, ow, n, m1);
    lemma_resize3(g1, gf, ow, w, n, m1);
    lemma_resize4(g0, g1, gf, ow, w, n, m1);
    let l = gone_log(g0, m0, m1.inc(), m1.out(), n_gone(m0.inc(), m1.inc()) + n_gone(m0.out(), m1.out())) + moved_log(m0, m1, mn(m0.inc(), m1.inc()) + mn(m0.out(), m1.out()));
    lemma_calls(g0, m0, m1, n, l);
    assert(lg =~= lg0 + l);
}
