=== default P=G04
=== raw compact_nodes
/// The number of nodes before n: its index after compaction.
pub open spec fn rank(nm: Seq<NodeEntry>, n: int) -> int { cnt(nf_(nm), 0, n) }
/// The node whose index becomes j.
pub open spec fn unrank(nm: Seq<NodeEntry>, j: int) -> int { choose|n: int| live(nm, n) && rank(nm, n) == j }
pub proof fn lemma_rank(nm: Seq<NodeEntry>, k: int)
    requires 0 <= k < nm.len(),
    ensures rank(nm, k + 1) == rank(nm, k) + (if live(nm, k) { 1int } else { 0 }), 0 <= rank(nm, k) <= k, rank(nm, k) <= n_nodes(nm), rank(nm, k + 1) <= n_nodes(nm),
{
    cnt_bounds(nf_(nm), 0, k);
    cnt_split(nf_(nm), 0, k, nm.len() as int); cnt_bounds(nf_(nm), k, nm.len() as int);
    cnt_split(nf_(nm), 0, k + 1, nm.len() as int); cnt_bounds(nf_(nm), k + 1, nm.len() as int);
}
/// Ranks of nodes are distinct and increasing.
pub proof fn lemma_rank_inj(nm: Seq<NodeEntry>, k: int, n: int)
    requires live(nm, k), live(nm, n), k < n,
    ensures rank(nm, k) < rank(nm, n),
{
    cnt_split(nf_(nm), 0, k, n); cnt_pos(nf_(nm), k, n, k);
}
pub proof fn lemma_unrank(nm: Seq<NodeEntry>, k: int)
    requires live(nm, k),
    ensures unrank(nm, rank(nm, k)) == k,
{
    let n = unrank(nm, rank(nm, k));
    assert(live(nm, k) && rank(nm, k) == rank(nm, k));
    assert(live(nm, n) && rank(nm, n) == rank(nm, k));
    if n < k { lemma_rank_inj(nm, n, k); }
    if k < n { lemma_rank_inj(nm, k, n); }
}
/// The nodes below i have been moved to the front.
pub open spec fn nm_part(nm0: Seq<NodeEntry>, out: Seq<NodeEntry>, i: int) -> bool {
    &&& out.len() == rank(nm0, i)
    &&& forall|j: int| #![trigger out[j]] #![trigger unrank(nm0, j)] 0 <= j < out.len() ==> live(nm0, unrank(nm0, j)) && unrank(nm0, j) < i && rank(nm0, unrank(nm0, j)) == j && out[j] == nm0[unrank(nm0, j)]
}
pub open spec fn pm_part(nm0: Seq<NodeEntry>, pm0: Seq<PortEntry>, pm: Seq<PortEntry>, i: int) -> bool {
    &&& pm.len() == pm0.len()
    &&& forall|p: int| #![trigger pm[p]] 0 <= p < pm.len() ==> pm[p] == (
        if pm0[p] is Port && pmeta(pm0, p).n() < i { PortEntry::Port(PortMeta::mk(rank(nm0, pmeta(pm0, p).n()), pmeta(pm0, p).d())) } else { pm0[p] })
}
pub open spec fn node_log(nm0: Seq<NodeEntry>, c: int) -> Seq<(NodeIndex, NodeIndex)> {
    Seq::new(c as nat, |j: int| (NodeIndex::mk(unrank(nm0, j)), NodeIndex::mk(j)))
}
pub proof fn lemma_nm_step(nm0: Seq<NodeEntry>, out: Seq<NodeEntry>, i: int)
    requires nm_part(nm0, out, i), 0 <= i < nm0.len(),
    ensures
        live(nm0, i) ==> nm_part(nm0, out.push(nm0[i]), i + 1) && node_log(nm0, rank(nm0, i) + 1) == node_log(nm0, rank(nm0, i)).push((NodeIndex::mk(i), NodeIndex::mk(rank(nm0, i)))),
        !live(nm0, i) ==> nm_part(nm0, out, i + 1),
{
    lemma_rank(nm0, i);
    if live(nm0, i) {
        lemma_unrank(nm0, i);
        let o2 = out.push(nm0[i]);
        assert forall|j: int| #![trigger o2[j]] 0 <= j < o2.len() implies live(nm0, unrank(nm0, j)) && unrank(nm0, j) < i + 1 && rank(nm0, unrank(nm0, j)) == j && o2[j] == nm0[unrank(nm0, j)] by {
            if j < out.len() { assert(out[j] == o2[j]); }
        }
        assert(node_log(nm0, rank(nm0, i) + 1) =~= node_log(nm0, rank(nm0, i)).push((NodeIndex::mk(i), NodeIndex::mk(rank(nm0, i)))));
    }
}
pub proof fn lemma_pm_step(g0: PortGraph, ow: Seq<Owner>, pm1: Seq<PortEntry>, pm2: Seq<PortEntry>, i: int)
    requires
        g0.wf_ow(ow), 0 <= i < g0.node_meta@.len(), pm_part(g0.node_meta@, g0.port_meta@, pm1, i),
        live(g0.node_meta@, i) ==> reowned(pm1, pm2, rank(g0.node_meta@, i), meta(g0.node_meta@, i)),
        !live(g0.node_meta@, i) ==> pm2 == pm1,
    ensures pm_part(g0.node_meta@, g0.port_meta@, pm2, i + 1),
{
    hide(PortGraph::wf_ow); hide(nfree_ok); hide(links_ok);
    let nm0 = g0.node_meta@; let pm0 = g0.port_meta@;
    assert(g0.wf());
    assert forall|p: int| #![trigger pm2[p]] 0 <= p < pm2.len() implies pm2[p] == (
        if pm0[p] is Port && pmeta(pm0, p).n() < i + 1 { PortEntry::Port(PortMeta::mk(rank(nm0, pmeta(pm0, p).n()), pmeta(pm0, p).d())) } else { pm0[p] }) by {
        assert(pm1[p] == pm1[p]);
        if g0.has_port(p) { lemma_port(g0, p); }
        if live(nm0, i) {
            lemma_node(g0, i);
            let m = meta(nm0, i);
            assert(m == g0.m(i));
            if g0.m(i).at(Direction::Incoming) <= p < g0.m(i).at(Direction::Incoming) + g0.m(i).num(Direction::Incoming) { assert(g0.pnode(p) == i); }
            if g0.m(i).at(Direction::Outgoing) <= p < g0.m(i).at(Direction::Outgoing) + g0.m(i).num(Direction::Outgoing) { assert(g0.pnode(p) == i); }
        }
    }
}
/// The nodes have been renumbered 0..node_count, in order; the ports and links are as before.
pub open spec fn nodes_compacted(g0: PortGraph, g1: PortGraph) -> bool {
    let nm0 = g0.node_meta@;
    &&& g1.node_meta.len() == n_nodes(nm0)
    &&& forall|n: int| #![trigger g1.has_node(n)] g1.has_node(n) <==> 0 <= n < n_nodes(nm0)
    &&& forall|k: int| #![trigger g0.has_node(k)] g0.has_node(k) ==> g1.has_node(rank(nm0, k)) && g1.m(rank(nm0, k)) == g0.m(k)
    &&& forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) == g0.has_port(p) && (g1.has_port(p) ==> g1.pnode(p) == rank(nm0, g0.pnode(p)) && g1.pdir(p) == g0.pdir(p) && g1.link(p) == g0.link(p))
    &&& g1.node_count == g0.node_count && g1.port_count == g0.port_count && g1.link_count == g0.link_count
}
pub proof fn lemma_compact_nodes(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>)
    requires
        g0.wf_ow(ow),
        nm_part(g0.node_meta@, g1.node_meta@, g0.node_meta@.len() as int),
        pm_part(g0.node_meta@, g0.port_meta@, g1.port_meta@, g0.node_meta@.len() as int),
        g1.node_free.none(), g1.port_link@ == g0.port_link@, g1.port_free@ == g0.port_free@,
        g1.node_count == g0.node_count, g1.port_count == g0.port_count, g1.link_count == g0.link_count,
    ensures g1.wf(), nodes_compacted(g0, g1),
{
    let nm0 = g0.node_meta@; let nm = g1.node_meta@; let pm0 = g0.port_meta@; let pm = g1.port_meta@;
    assert(g0.wf());
    let r = |n: int| rank(nm0, n); let v = |j: int| unrank(nm0, j);
    cnt_bounds(nf_(nm0), 0, nm0.len() as int);
    assert forall|n: int| #![trigger nm[n]] 0 <= n < nm.len() implies live(nm, n) && live(nm0, v(n)) && r(v(n)) == n && nm[n] == nm0[v(n)] by {}
    assert forall|k: int| #![trigger nm0[k]] live(nm0, k) implies live(nm, r(k)) && v(r(k)) == k && nm[r(k)] == nm0[k] by {
        lemma_rank(nm0, k); lemma_unrank(nm0, k);
        assert(0 <= r(k) < nm.len());
        assert(nm[r(k)] == nm0[v(r(k))]);
    }
    assert(nm_renum(nm0, nm, r, v)) by { reveal(nm_renum); }
    assert forall|i: int| #![trigger pm[i]] 0 <= i < pm.len() implies (pm[i] is Port) == (pm0[i] is Port) && (pm[i] is Port ==> pm[i] == PortEntry::Port(PortMeta::mk(r(pmeta(pm0, i).n()), pmeta(pm0, i).d()))) by {
        if g0.has_port(i) { lemma_port(g0, i); }
    }
    let f = nf_(nm);
    assert forall|n: int| #![trigger f(n)] 0 <= n < nm.len() implies f(n) == true by { assert(live(nm, n)); }
    cnt_const(f, true, 0, nm.len() as int);
    lemma_renum(g0, g1, ow, r, v);
    lemma_renum_ports(g0, g1, ow, r, v);
    assert forall|n: int| #![trigger g1.has_node(n)] g1.has_node(n) <==> 0 <= n < n_nodes(nm0) by { if 0 <= n < nm.len() { assert(live(nm, n)); } }
    assert forall|k: int| #![trigger g0.has_node(k)] g0.has_node(k) implies g1.has_node(rank(nm0, k)) && g1.m(rank(nm0, k)) == g0.m(k) by { assert(nm0[k] is Node); assert(nm[r(k)] == nm0[k]); }
}
=== fn portgraph PortGraph::compact_nodes
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    nodes_compacted(*old(self), *final(self)),
    final(rekey).log() == old(rekey).log() + node_log(old(self).node_meta@, n_nodes(old(self).node_meta@)),
--- hint start
let ghost ow = choose|ow: Seq<Owner>| old(self).wf_ow(ow);
let ghost g0 = *self;
let ghost nm0 = self.node_meta@;
proof {
    assert(node_log(nm0, 0) =~= Seq::empty());
    assert(pm_part(nm0, g0.port_meta@, self.port_meta@, 0)) by {
        assert forall|p: int| #![trigger g0.port_meta@[p]] g0.has_port(p) implies g0.pnode(p) >= 0 by { lemma_port(g0, p); }
    }
    assert(rekey.log() =~= old(rekey).log() + node_log(nm0, 0));
}
--- loop 0
invariant
    __src0@ == nm0, 0 <= __i0 <= nm0.len(), old_index == __i0, new_index == rank(nm0, __i0 as int), new_index <= __i0,
    nm_part(nm0, __out0@, __i0 as int),
    pm_part(nm0, g0.port_meta@, self.port_meta@, __i0 as int),
    rekey.log() == old(rekey).log() + node_log(nm0, new_index as int),
    self.port_link == g0.port_link, self.port_free == g0.port_free, self.node_free == g0.node_free,
    self.node_count == g0.node_count, self.port_count == g0.port_count, self.link_count == g0.link_count,
decreases nm0.len() - __i0,
--- hint loop0.start
let ghost pm1 = self.port_meta@;
let ghost log1 = rekey.log();
let ghost i0 = __i0 as int;
let ghost m0 = meta(nm0, i0);
proof {
    lemma_rank(nm0, i0); lemma_nm_step(nm0, __out0@, i0);
    if live(nm0, i0) { lemma_node(g0, i0); assert(g0.m(i0) == m0); } else { lemma_pm_step(g0, ow, pm1, pm1, i0); }
}
--- loop 1
invariant
    __all1.len() == 2, __all1[0] == Direction::Incoming, __all1[1] == Direction::Outgoing,
    __it1.rest().len() <= 2, __it1.rest() == __all1.skip(2 - __it1.rest().len()),
    self.port_meta.len() == pm1.len(),
    forall|i: int| #![trigger self.port_meta@[i]] 0 <= i < self.port_meta.len() ==> self.port_meta@[i] == (
        if m0.first() <= i < m0.first() + m0.inc() && __it1.rest().len() < 2 { PortEntry::Port(PortMeta::mk(new_node.i(), Direction::Incoming)) }
        else if m0.first() + m0.inc() <= i < m0.first() + m0.tot() && __it1.rest().len() < 1 { PortEntry::Port(PortMeta::mk(new_node.i(), Direction::Outgoing)) }
        else { pm1[i] }),
    self.port_link == g0.port_link, self.port_free == g0.port_free, self.node_free == g0.node_free,
    self.node_count == g0.node_count, self.port_count == g0.port_count, self.link_count == g0.link_count,
--- loop 2
invariant
    $it.end == m0.at(dir) + m0.num(dir), m0.at(dir) <= $it.start <= $it.end,
    self.port_meta.len() == pm1.len(),
    forall|i: int| #![trigger self.port_meta@[i]] 0 <= i < self.port_meta.len() ==> self.port_meta@[i] == (
        if m0.at(dir) <= i < $it.start { PortEntry::Port(PortMeta::mk(new_node.i(), dir)) }
        else if m0.first() <= i < m0.first() + m0.inc() && dir == Direction::Outgoing { PortEntry::Port(PortMeta::mk(new_node.i(), Direction::Incoming)) }
        else { pm1[i] }),
    self.port_link == g0.port_link, self.port_free == g0.port_free, self.node_free == g0.node_free,
    self.node_count == g0.node_count, self.port_count == g0.port_count, self.link_count == g0.link_count,
--- hint before rekey#0
proof { assert(reowned(pm1, self.port_meta@, rank(nm0, i0), m0)); lemma_pm_step(g0, ow, pm1, self.port_meta@, i0); }
--- hint after rekey#0
proof { assert(rekey.log() =~= old(rekey).log() + node_log(nm0, new_index + 1)); }
--- hint end
proof { lemma_compact_nodes(g0, *self, ow); }
=== raw compact_ports
pub open spec fn prank(pm: Seq<PortEntry>, p: int) -> int { cnt(pf_(pm), 0, p) }
pub open spec fn unprank(pm: Seq<PortEntry>, j: int) -> int { choose|u: int| isp(pm, u) && prank(pm, u) == j }
pub proof fn lemma_prank(pm: Seq<PortEntry>, u: int)
    requires 0 <= u < pm.len(),
    ensures prank(pm, u + 1) == prank(pm, u) + (if isp(pm, u) { 1int } else { 0 }), 0 <= prank(pm, u) <= u, prank(pm, u) <= n_ports(pm), prank(pm, u + 1) <= n_ports(pm),
{
    cnt_bounds(pf_(pm), 0, u);
    cnt_split(pf_(pm), 0, u, pm.len() as int); cnt_bounds(pf_(pm), u, pm.len() as int);
    cnt_split(pf_(pm), 0, u + 1, pm.len() as int); cnt_bounds(pf_(pm), u + 1, pm.len() as int);
}
pub proof fn lemma_prank_lt(pm: Seq<PortEntry>, u: int, v: int)
    requires isp(pm, u), u < v, v <= pm.len(),
    ensures prank(pm, u) < prank(pm, v),
{ cnt_split(pf_(pm), 0, u, v); cnt_pos(pf_(pm), u, v, u); }
pub proof fn lemma_unprank(pm: Seq<PortEntry>, u: int)
    requires isp(pm, u),
    ensures unprank(pm, prank(pm, u)) == u,
{
    let v = unprank(pm, prank(pm, u));
    assert(isp(pm, u) && prank(pm, u) == prank(pm, u));
    assert(isp(pm, v) && prank(pm, v) == prank(pm, u));
    if v < u { lemma_prank_lt(pm, v, u); }
    if u < v { lemma_prank_lt(pm, u, v); }
}
pub proof fn lemma_prank_surj(pm: Seq<PortEntry>, i: int, j: int)
    requires 0 <= j < prank(pm, i), 0 <= i <= pm.len(),
    ensures isp(pm, unprank(pm, j)), prank(pm, unprank(pm, j)) == j, unprank(pm, j) < i,
    decreases i,
{
    if i > 0 {
        lemma_prank(pm, i - 1);
        if j < prank(pm, i - 1) { lemma_prank_surj(pm, i - 1, j); } else { assert(isp(pm, i - 1)); lemma_unprank(pm, i - 1); }
    }
}
/// Consecutive ports stay consecutive.
pub proof fn lemma_prank_block(pm: Seq<PortEntry>, a: int, b: int)
    requires 0 <= a <= b <= pm.len(), forall|i: int| #![trigger pm[i]] a <= i < b ==> pm[i] is Port,
    ensures prank(pm, b) == prank(pm, a) + (b - a),
{
    let f = pf_(pm);
    cnt_split(f, 0, a, b);
    assert forall|i: int| #![trigger f(i)] a <= i < b implies f(i) == true by { assert(pm[i] is Port); }
    cnt_const(f, true, a, b);
}
/// A count over the compacted ports.
pub proof fn lemma_cnt_compact(pm: Seq<PortEntry>, f0: spec_fn(int) -> bool, f1: spec_fn(int) -> bool, i: int)
    requires 0 <= i <= pm.len(),
        forall|u: int| #![trigger f0(u)] 0 <= u < pm.len() && !isp(pm, u) ==> !f0(u),
        forall|u: int| #![trigger f0(u)] isp(pm, u) ==> f1(prank(pm, u)) == f0(u),
    ensures cnt(f1, 0, prank(pm, i)) == cnt(f0, 0, i),
    decreases i,
{
    if i > 0 { lemma_cnt_compact(pm, f0, f1, i - 1); lemma_prank(pm, i - 1); assert(f0(i - 1) == f0(i - 1)); }
}
/// A link, with the targets below i renumbered.
pub open spec fn relink(pm: Seq<PortEntry>, x: MaybePortIndex, i: int) -> MaybePortIndex {
    if !x.none() && x.i() < i { MaybePortIndex::some(PortIndex::mk(prank(pm, x.i()))) } else { x }
}
/// The links after the ports below i have been moved to the front.
#[verifier::opaque]
pub open spec fn pl_part(pm: Seq<PortEntry>, pl0: Seq<MaybePortIndex>, pl: Seq<MaybePortIndex>, i: int) -> bool {
    &&& pl.len() == pl0.len()
    &&& forall|q: int| #![trigger pl0[q]] i <= q && isp(pm, q) ==> pl[q] == relink(pm, pl0[q], i)
    &&& forall|u: int| #![trigger pl0[u]] u < i && isp(pm, u) ==> pl[prank(pm, u)] == relink(pm, pl0[u], i)
}
pub open spec fn pl_moved(pl1: Seq<MaybePortIndex>, pl2: Seq<MaybePortIndex>, j: int, i: int) -> bool {
    let x = pl1[i];
    let p = if x.none() { pl1 } else { pl1.update(x.i(), MaybePortIndex::some(PortIndex::mk(j))) };
    pl2 == p.update(j, p[i]).update(i, p[j])
}
/// The partner of port i is at pl1[i] while the links are renumbered.
pub proof fn lemma_pl_partner(pm: Seq<PortEntry>, pl0: Seq<MaybePortIndex>, pl1: Seq<MaybePortIndex>, i: int)
    requires links_ok(pl0, pm), pm.len() <= max_ix() + 1, isp(pm, i), pl_part(pm, pl0, pl1, i),
    ensures pl1[i] == relink(pm, pl0[i], i), 0 <= prank(pm, i) <= i, pl1.len() == pm.len(),
        pl1[i].none() == pl0[i].none(),
        !pl1[i].none() ==> 0 <= pl1[i].i() < pl1.len(),
{
    reveal(pl_part);
    lemma_prank(pm, i);
    assert(pl0[i] == pl0[i]);
    if !pl0[i].none() { assert(link_at(pl0, pm, i)); let q = pl0[i].i(); lemma_prank(pm, q); }
}
pub proof fn lemma_pl_step(pm: Seq<PortEntry>, pl0: Seq<MaybePortIndex>, pl1: Seq<MaybePortIndex>, pl2: Seq<MaybePortIndex>, i: int)
    requires
        links_ok(pl0, pm), pm.len() <= max_ix() + 1, 0 <= i < pm.len(), pl_part(pm, pl0, pl1, i),
        !isp(pm, i) ==> pl2 == pl1,
        isp(pm, i) && prank(pm, i) == i ==> pl2 == pl1,
        isp(pm, i) && prank(pm, i) != i ==> pl_moved(pl1, pl2, prank(pm, i), i),
    ensures pl_part(pm, pl0, pl2, i + 1),
{
    reveal(pl_part);
    lemma_prank(pm, i);
    let j = prank(pm, i);
    if isp(pm, i) { lemma_pl_partner(pm, pl0, pl1, i); if !pl0[i].none() { assert(link_at(pl0, pm, i)); lemma_prank(pm, pl0[i].i()); } }
    assert forall|u: int| #![trigger pl0[u]] 0 <= u < pm.len() && isp(pm, u) implies ({
        &&& u <= i ==> pl2[prank(pm, u)] == relink(pm, pl0[u], i + 1)
        &&& u > i ==> pl2[u] == relink(pm, pl0[u], i + 1)
    }) by {
        lemma_prank(pm, u);
        if !pl0[u].none() { assert(link_at(pl0, pm, u)); let q = pl0[u].i(); lemma_prank(pm, q); }
        if u < i { lemma_prank_lt(pm, u, i); }
        if !pl0[u].none() && pl0[u].i() == i {
            assert(isp(pm, i)); assert(pl0[i] == MaybePortIndex::some(PortIndex::mk(u))); assert(pl0[i].i() == u); assert(u != i);
            assert(relink(pm, pl0[u], i + 1) == MaybePortIndex::some(PortIndex::mk(j)));
            assert(pl0[u] == MaybePortIndex::some(PortIndex::mk(i)));
            assert(pl1[i].i() == (if u < i { prank(pm, u) } else { u }));
        } else { assert(relink(pm, pl0[u], i + 1) == relink(pm, pl0[u], i)); }
        if isp(pm, i) && !pl0[i].none() {
            let p = pl0[i].i();
            if p < i && u < p { lemma_prank_lt(pm, u, p); }
            if p < i && p < u { lemma_prank_lt(pm, p, u); }
            if p < i { lemma_prank_lt(pm, p, i); }
        }
        let c = if u < i { prank(pm, u) } else { u };
        assert(pl1[c] == relink(pm, pl0[u], i));
        if isp(pm, i) && j != i {
            if u == i { assert(pl2[j] == pl1[i]); }
            else {
                assert(c != j && c != i);
                if !pl0[i].none() { let p = pl0[i].i(); let d = if p < i { prank(pm, p) } else { p }; assert(pl1[i].i() == d); assert(u != p ==> c != d); }
                assert(pl2[c] == relink(pm, pl0[u], i + 1));
            }
        }
    }
}
pub open spec fn pport(m: NodeMeta, pm: Seq<PortEntry>) -> NodeMeta { NodeMeta::mk(PortIndex::mk(prank(pm, m.first())), m.inc(), m.out(), m.tot()) }
/// The node table after the ports below i have been moved.
pub open spec fn np_part(pm: Seq<PortEntry>, nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, i: int) -> bool {
    &&& nm.len() == nm0.len()
    &&& forall|n: int| #![trigger nm[n]] 0 <= n < nm.len() ==> nm[n] == (
        if nm0[n] is Node && meta(nm0, n).tot() > 0 && meta(nm0, n).first() < i { NodeEntry::Node(pport(meta(nm0, n), pm)) } else { nm0[n] })
}
pub open spec fn pp_part(pm: Seq<PortEntry>, out: Seq<PortEntry>, i: int) -> bool {
    &&& out.len() == prank(pm, i)
    &&& forall|u: int| #![trigger pm[u]] 0 <= u < i && isp(pm, u) ==> out[prank(pm, u)] == pm[u]
}
pub open spec fn port_log(pm: Seq<PortEntry>, c: int) -> Seq<(PortIndex, PortIndex)> {
    Seq::new(c as nat, |j: int| (PortIndex::mk(unprank(pm, j)), PortIndex::mk(j)))
}
pub proof fn lemma_pp_step(pm: Seq<PortEntry>, out: Seq<PortEntry>, i: int)
    requires pp_part(pm, out, i), 0 <= i < pm.len(),
    ensures
        isp(pm, i) ==> pp_part(pm, out.push(pm[i]), i + 1) && port_log(pm, prank(pm, i) + 1) == port_log(pm, prank(pm, i)).push((PortIndex::mk(i), PortIndex::mk(prank(pm, i)))),
        !isp(pm, i) ==> pp_part(pm, out, i + 1),
{
    lemma_prank(pm, i);
    if isp(pm, i) {
        lemma_unprank(pm, i);
        let o2 = out.push(pm[i]);
        assert forall|u: int| #![trigger pm[u]] 0 <= u < i + 1 && isp(pm, u) implies o2[prank(pm, u)] == pm[u] by {
            if u < i { lemma_prank_lt(pm, u, i); lemma_prank(pm, u); }
        }
        assert(port_log(pm, prank(pm, i) + 1) =~= port_log(pm, prank(pm, i)).push((PortIndex::mk(i), PortIndex::mk(prank(pm, i)))));
    }
}
pub proof fn lemma_np_step(g0: PortGraph, nm1: Seq<NodeEntry>, nm2: Seq<NodeEntry>, i: int)
    requires
        g0.wf(), 0 <= i < g0.port_meta@.len(), np_part(g0.port_meta@, g0.node_meta@, nm1, i),
        !g0.has_port(i) || g0.m(g0.pnode(i)).first() != i ==> nm2 == nm1,
        g0.has_port(i) && g0.m(g0.pnode(i)).first() == i ==> nm2 == nm1.update(g0.pnode(i), NodeEntry::Node(pport(g0.m(g0.pnode(i)), g0.port_meta@))),
    ensures np_part(g0.port_meta@, g0.node_meta@, nm2, i + 1),
{
    hide(PortGraph::wf);
    let pm = g0.port_meta@; let nm0 = g0.node_meta@;
    if g0.has_port(i) { lemma_port(g0, i); }
    assert forall|n: int| #![trigger nm2[n]] 0 <= n < nm2.len() implies nm2[n] == (
        if nm0[n] is Node && meta(nm0, n).tot() > 0 && meta(nm0, n).first() < i + 1 { NodeEntry::Node(pport(meta(nm0, n), pm)) } else { nm0[n] }) by {
        assert(nm1[n] == nm1[n]);
        if g0.has_node(n) && g0.m(n).tot() > 0 && g0.m(n).first() == i {
            lemma_node(g0, n);
            if g0.m(n).inc() > 0 { assert(g0.m(n).at(Direction::Incoming) == i); assert(g0.pnode(i) == n); } else { assert(g0.m(n).at(Direction::Outgoing) == i); assert(g0.pnode(i) == n); }
        }
    }
}
/// The ports have been renumbered 0..port_count in order, links and nodes follow.
pub open spec fn ports_compacted(g0: PortGraph, g1: PortGraph) -> bool {
    let pm = g0.port_meta@;
    &&& g1.port_meta.len() == n_ports(pm)
    &&& forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) <==> 0 <= p < n_ports(pm)
    &&& forall|u: int| #![trigger g0.has_port(u)] g0.has_port(u) ==> ({
        let v = prank(pm, u);
        g1.has_port(v) && g1.pnode(v) == g0.pnode(u) && g1.pdir(v) == g0.pdir(u) && g1.link(v) == (if g0.link(u) == -1 { -1 } else { prank(pm, g0.link(u)) })
    })
    &&& forall|n: int| #![trigger g1.has_node(n)] g1.has_node(n) == g0.has_node(n)
    &&& forall|n: int| #![trigger g0.has_node(n)] g0.has_node(n) ==> g1.m(n) == (if g0.m(n).tot() == 0 { g0.m(n) } else { pport(g0.m(n), pm) })
    &&& g1.node_count == g0.node_count && g1.port_count == g0.port_count && g1.link_count == g0.link_count
}
pub open spec fn pre_cp(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>) -> bool {
    let pm = g0.port_meta@; let len = pm.len() as int;
    &&& g0.wf_ow(ow)
    &&& pp_part(pm, g1.port_meta@, len)
    &&& np_part(pm, g0.node_meta@, g1.node_meta@, len)
    &&& g1.port_link@.len() == n_ports(pm)
    &&& forall|u: int| #![trigger prank(pm, u)] isp(pm, u) ==> g1.port_link@[prank(pm, u)] == relink(pm, g0.port_link@[u], len)
    &&& g1.port_free@.len() == 0 && g1.node_free == g0.node_free
    &&& g1.node_count == g0.node_count && g1.port_count == g0.port_count && g1.link_count == g0.link_count
}
pub proof fn lemma_cp_port(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, u: int)
    requires pre_cp(g0, g1, ow), g0.has_port(u),
    ensures ({
        let pm = g0.port_meta@; let v = prank(pm, u);
        &&& 0 <= v < n_ports(pm) && v <= u && unprank(pm, v) == u
        &&& g1.port_meta@[v] == pm[u] && g1.has_port(v)
        &&& linked(g1.port_link@, v) == linked(g0.port_link@, u)
        &&& linked(g0.port_link@, u) ==> g1.port_link@[v] == MaybePortIndex::some(PortIndex::mk(prank(pm, g0.link(u)))) && g0.has_port(g0.link(u)) && g0.link(g0.link(u)) == u && g0.pdir(g0.link(u)) != g0.pdir(u)
            && 0 <= prank(pm, g0.link(u)) < n_ports(pm)
    }),
{
    let pm = g0.port_meta@;
    lemma_prank(pm, u); lemma_unprank(pm, u);
    assert(pm[u] is Port);
    if linked(g0.port_link@, u) { assert(link_at(g0.port_link@, pm, u)); lemma_prank(pm, g0.link(u)); }
}
pub proof fn lemma_cp_links(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>)
    requires pre_cp(g0, g1, ow),
    ensures links_ok(g1.port_link@, g1.port_meta@), n_ports(g1.port_meta@) == n_ports(g0.port_meta@), n_links(g1.port_link@, g1.port_meta@) == n_links(g0.port_link@, g0.port_meta@),
        forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) <==> 0 <= p < n_ports(g0.port_meta@),
{
    let pm0 = g0.port_meta@; let pm = g1.port_meta@; let pl0 = g0.port_link@; let pl = g1.port_link@; let len = pm0.len() as int;
    assert forall|j: int| #![trigger pl[j]] isp(pm, j) && linked(pl, j) implies link_at(pl, pm, j) by {
        lemma_prank_surj(pm0, len, j); let u = unprank(pm0, j);
        lemma_cp_port(g0, g1, ow, u);
        let q = g0.link(u);
        lemma_cp_port(g0, g1, ow, q);
    }
    let f = pf_(pm);
    assert forall|j: int| #![trigger f(j)] 0 <= j < pm.len() implies f(j) == true by { lemma_prank_surj(pm0, len, j); lemma_cp_port(g0, g1, ow, unprank(pm0, j)); }
    cnt_const(f, true, 0, pm.len() as int);
    cnt_bounds(pf_(pm0), 0, len);
    let f0 = lf(pl0, pm0); let f1 = lf(pl, pm);
    assert forall|u: int| #![trigger f0(u)] isp(pm0, u) implies f1(prank(pm0, u)) == f0(u) by { lemma_cp_port(g0, g1, ow, u); }
    lemma_cnt_compact(pm0, f0, f1, len);
    assert forall|p: int| #![trigger g1.has_port(p)] g1.has_port(p) <==> 0 <= p < n_ports(pm0) by { if 0 <= p < n_ports(pm0) { assert(f(p)); } }
}
/// The k-th cell of a node's slab.
pub proof fn lemma_cp_cell(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, n: int, k: int)
    requires pre_cp(g0, g1, ow), g0.has_node(n), 0 <= k < g0.m(n).tot(),
    ensures ({
        let pm0 = g0.port_meta@; let a = g0.m(n).first(); let b = prank(pm0, a);
        &&& prank(pm0, a + k) == b + k && 0 <= b && b + k < g1.port_meta@.len()
        &&& g1.port_meta@[b + k] == pm0[a + k]
        &&& pm0[a + k] == PortEntry::Port(PortMeta::mk(n, if k < g0.m(n).inc() { Direction::Incoming } else { Direction::Outgoing }))
        &&& unprank(pm0, b + k) == a + k && g0.pnode(a + k) == n
    }),
{
    reveal(nodes_ok);
    let pm0 = g0.port_meta@; let nm0 = g0.node_meta@;
    let m0 = meta(nm0, n); let a = m0.first();
    assert(live(nm0, n)); assert(nm0[n] is Node);
    assert(node_at(nm0, g0.port_link@, pm0, ow, n));
    assert(forall|x: int| #![trigger pm0[x]] a <= x < a + m0.tot() ==> pm0[x] is Port);
    lemma_prank_block(pm0, a, a + k);
    lemma_prank(pm0, a);
    assert(pm0[a + k] is Port);
    assert(g0.has_port(a + k));
    lemma_cp_port(g0, g1, ow, a + k);
    lemma_mk(n, Direction::Incoming); lemma_mk(n, Direction::Outgoing);
}
pub proof fn lemma_cp_node(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, w: Seq<Owner>, n: int)
    requires pre_cp(g0, g1, ow), w == Seq::new(g1.port_meta@.len(), |j: int| Owner::Node(g0.pnode(unprank(g0.port_meta@, j)))), live(g1.node_meta@, n),
    ensures node_at(g1.node_meta@, g1.port_link@, g1.port_meta@, w, n),
{
    hide(PortGraph::wf_ow);
    assert(g0.wf());
    let pm0 = g0.port_meta@; let pm = g1.port_meta@; let nm0 = g0.node_meta@; let nm = g1.node_meta@;
    assert(nm[n] is Node);
    assert(live(nm0, n)); assert(g0.has_node(n));
    lemma_node(g0, n); lemma_node0(g0, n);
    let m0 = meta(nm0, n); let m = meta(nm, n);
    if m0.tot() > 0 {
        assert(m == pport(m0, pm0));
        lemma_prank(pm0, m0.first());
        let a = m0.first();
        assert(m.first() == prank(pm0, a) && m.inc() == m0.inc() && m.out() == m0.out() && m.cap() == m0.tot() && m.tot() == m0.tot());
        lemma_cp_cell(g0, g1, ow, n, m0.tot() - 1);
        assert forall|i: int| #![trigger w[i]] m.first() <= i < m.first() + m.cap() implies w[i] == Owner::Node(n) by { lemma_cp_cell(g0, g1, ow, n, i - m.first()); }
        assert forall|i: int| #![trigger pm[i]] m.first() <= i < m.first() + m.inc() implies pm[i] == PortEntry::Port(PortMeta::mk(n, Direction::Incoming)) by { lemma_cp_cell(g0, g1, ow, n, i - m.first()); }
        assert forall|i: int| #![trigger pm[i]] m.first() + m.inc() <= i < m.first() + m.tot() implies pm[i] == PortEntry::Port(PortMeta::mk(n, Direction::Outgoing)) by { lemma_cp_cell(g0, g1, ow, n, i - m.first()); }
    }
}
pub proof fn lemma_node0(g: PortGraph, n: int)
    requires g.wf(), g.has_node(n), 
    ensures g.m(n).tot() == 0 ==> g.m(n).cap() == 0,
{
    reveal(nodes_ok);
    let ow = choose|ow: Seq<Owner>| g.wf_ow(ow);
    assert(live(g.node_meta@, n));
    assert(node_at(g.node_meta@, g.port_link@, g.port_meta@, ow, n));
}
pub proof fn lemma_cp_nodes(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>, w: Seq<Owner>)
    requires pre_cp(g0, g1, ow), w == Seq::new(g1.port_meta@.len(), |j: int| Owner::Node(g0.pnode(unprank(g0.port_meta@, j)))),
    ensures nodes_ok(g1.node_meta@, g1.port_link@, g1.port_meta@, w), ports_ok(g1.node_meta@, g1.port_meta@),
{
    hide(PortGraph::wf_ow);
    reveal(nodes_ok); reveal(ports_ok);
    assert(g0.wf());
    let pm0 = g0.port_meta@; let pm = g1.port_meta@; let nm0 = g0.node_meta@; let nm = g1.node_meta@; let len = pm0.len() as int;
    assert forall|n: int| #![trigger nm[n]] live(nm, n) implies node_at(nm, g1.port_link@, pm, w, n) by { lemma_cp_node(g0, g1, ow, w, n); }
    assert forall|j: int| #![trigger pm[j]] isp(pm, j) implies port_at(nm, pm, j) by {
        lemma_prank_surj(pm0, len, j); let u = unprank(pm0, j);
        assert(g0.has_port(u));
        lemma_cp_port(g0, g1, ow, u);
        lemma_port(g0, u);
        let n = g0.pnode(u);
        let m0 = g0.m(n);
        assert(nm[n] == NodeEntry::Node(pport(meta(nm0, n), pm0)));
        lemma_cp_cell(g0, g1, ow, n, u - m0.first());
    }
}
/// The free node list only depends on the free entries.
pub proof fn lemma_nfree_same(nm0: Seq<NodeEntry>, nm: Seq<NodeEntry>, h: MaybeNodeIndex)
    requires nfree_ok(nm0, h), nm.len() == nm0.len(), forall|n: int| #![trigger nm[n]] 0 <= n < nm.len() ==> (nm[n] is Free) == (nm0[n] is Free) && (nm[n] is Free ==> nm[n] == nm0[n]),
    ensures nfree_ok(nm, h),
{
    assert forall|i: int| #![trigger nfree_at(nm, h, i)] 0 <= i < nm.len() && nm[i] is Free implies nfree_at(nm, h, i) by { assert(nfree_at(nm0, h, i)); }
}
pub proof fn lemma_compact_ports(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>)
    requires pre_cp(g0, g1, ow),
    ensures g1.wf(), ports_compacted(g0, g1),
{
    let pm0 = g0.port_meta@; let pm = g1.port_meta@; let nm0 = g0.node_meta@; let nm = g1.node_meta@;
    let w = Seq::new(pm.len(), |j: int| Owner::Node(g0.pnode(unprank(pm0, j))));
    lemma_cp_links(g0, g1, ow);
    lemma_cp_nodes(g0, g1, ow, w);
    lemma_nfree_same(nm0, nm, g0.node_free);
    assert forall|n: int| #![trigger nm[n]] live(nm, n) == live(nm0, n) by { if 0 <= n < nm.len() { assert(nm[n] == nm[n]); } }
    let f0 = nf_(nm0); let f = nf_(nm);
    assert forall|n: int| #![trigger f(n)] #![trigger f0(n)] 0 <= n < nm.len() implies f0(n) == f(n) by { assert(nm[n] is Node == nm0[n] is Node); }
    cnt_ext(f0, f, 0, nm.len() as int);
    assert(pfree_ok(g1.port_link@, pm, g1.port_free@, w)) by { reveal(pfree_ok); }
    cnt_bounds(pf_(pm0), 0, pm0.len() as int);
    assert(g1.wf_ow(w));
    lemma_cp_view(g0, g1, ow);
}
pub proof fn lemma_cp_view(g0: PortGraph, g1: PortGraph, ow: Seq<Owner>)
    requires pre_cp(g0, g1, ow), 
    ensures ports_compacted(g0, g1),
{
    let pm0 = g0.port_meta@; let nm0 = g0.node_meta@; let nm = g1.node_meta@;
    cnt_bounds(pf_(pm0), 0, pm0.len() as int);
    lemma_cp_links(g0, g1, ow);
    assert forall|u: int| #![trigger g0.has_port(u)] g0.has_port(u) implies ({
        let v = prank(pm0, u);
        g1.has_port(v) && g1.pnode(v) == g0.pnode(u) && g1.pdir(v) == g0.pdir(u) && g1.link(v) == (if g0.link(u) == -1 { -1 } else { prank(pm0, g0.link(u)) })
    }) by { lemma_cp_port(g0, g1, ow, u); }
    assert forall|n: int| #![trigger g1.has_node(n)] g1.has_node(n) == g0.has_node(n) by { if 0 <= n < nm.len() { assert(nm[n] is Node == nm0[n] is Node); } }
    assert forall|n: int| #![trigger g0.has_node(n)] g0.has_node(n) implies g1.m(n) == (if g0.m(n).tot() == 0 { g0.m(n) } else { pport(g0.m(n), pm0) }) by {
        assert(g0.wf()); lemma_node(g0, n); assert(nm[n] is Node);
    }
}
=== fn portgraph PortGraph::compact_ports
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    ports_compacted(*old(self), *final(self)),
    final(rekey).log() == old(rekey).log() + port_log(old(self).port_meta@, n_ports(old(self).port_meta@)),
--- hint start
let ghost ow = choose|ow: Seq<Owner>| old(self).wf_ow(ow);
let ghost g0 = *self;
let ghost nm0 = self.node_meta@;
let ghost pm0 = self.port_meta@;
let ghost pl0 = self.port_link@;
proof {
    assert(port_log(pm0, 0) =~= Seq::empty());
    assert(rekey.log() =~= old(rekey).log() + port_log(pm0, 0));
    reveal(pl_part);
    assert(pl_part(pm0, pl0, pl0, 0)) by { assert forall|q: int| #![trigger pl0[q]] isp(pm0, q) && !pl0[q].none() implies pl0[q].i() >= 0 by { assert(link_at(pl0, pm0, q)); } }
    assert(np_part(pm0, nm0, nm0, 0)) by { assert forall|n: int| #![trigger nm0[n]] live(nm0, n) implies meta(nm0, n).first() >= 0 by { lemma_node(g0, n); assert(g0.m(n) == meta(nm0, n)); } }
}
--- loop 0
invariant
    $it.end == pm0.len(), 0 <= $it.start <= $it.end, new_index == prank(pm0, $it.start as int), new_index <= $it.start,
    self.port_link.len() == pm0.len(), links_ok(pl0, pm0),
    pl_part(pm0, pl0, self.port_link@, $it.start as int),
    self.port_meta == g0.port_meta, self.node_meta == g0.node_meta, self.port_free == g0.port_free, self.node_free == g0.node_free,
    self.node_count == g0.node_count, self.port_count == g0.port_count, self.link_count == g0.link_count,
--- hint loop0.start
let ghost pl1 = self.port_link@;
let ghost i0 = old_index as int;
proof {
    lemma_prank(pm0, i0);
    if isp(pm0, i0) { lemma_pl_partner(pm0, pl0, pl1, i0); if prank(pm0, i0) == i0 { lemma_pl_step(pm0, pl0, pl1, pl1, i0); } } else { lemma_pl_step(pm0, pl0, pl1, pl1, i0); }
}
--- hint loop0.end
proof { assert(pl_moved(pl1, self.port_link@, prank(pm0, i0), i0)); lemma_pl_step(pm0, pl0, pl1, self.port_link@, i0); }
--- hint after truncate#0
let ghost pl9 = self.port_link@;
proof {
    reveal(pl_part);
    assert forall|u: int| #![trigger prank(pm0, u)] isp(pm0, u) implies pl9[prank(pm0, u)] == relink(pm0, pl0[u], pm0.len() as int) by { lemma_prank(pm0, u); assert(pl0[u] == pl0[u]); lemma_prank_lt(pm0, u, pm0.len() as int); }
}
--- loop 1
invariant
    __src1@ == pm0, 0 <= __i1 <= pm0.len(), old_index == __i1, new_index == prank(pm0, __i1 as int), new_index <= __i1,
    pp_part(pm0, __out1@, __i1 as int),
    np_part(pm0, nm0, self.node_meta@, __i1 as int),
    rekey.log() == old(rekey).log() + port_log(pm0, new_index as int),
    self.port_link@ == pl9, self.port_free == g0.port_free, self.node_free == g0.node_free,
    self.node_count == g0.node_count, self.port_count == g0.port_count, self.link_count == g0.link_count,
decreases pm0.len() - __i1,
--- hint loop1.start
let ghost nm1 = self.node_meta@;
let ghost i1 = __i1 as int;
let ghost n1 = pmeta(pm0, i1).n();
proof {
    lemma_prank(pm0, i1); lemma_pp_step(pm0, __out1@, i1);
    if isp(pm0, i1) { lemma_port(g0, i1); lemma_node(g0, n1); assert(g0.has_port(i1)); assert(g0.m(n1) == meta(nm0, n1)); lemma_prank(pm0, g0.m(n1).first()); assert(nm1[n1] is Node); } else { lemma_np_step(g0, nm1, nm1, i1); }
}
--- hint before rekey#0
proof {
    assert(g0.pnode(i1) == n1);
    if g0.m(n1).first() != i1 { assert(self.node_meta@ =~= nm1); } else { assert(self.node_meta@ =~= nm1.update(n1, NodeEntry::Node(pport(g0.m(n1), pm0)))); }
    lemma_np_step(g0, nm1, self.node_meta@, i1);
}
--- hint after rekey#0
proof { assert(rekey.log() =~= old(rekey).log() + port_log(pm0, new_index + 1)); }
--- hint end
proof { lemma_compact_ports(g0, *self, ow); }
